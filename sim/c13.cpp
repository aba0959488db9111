// C13: token and input positions are absolute byte offsets, whatever the delivery.
#include "sessions.hpp"
#include "iter.hpp"
namespace sim {

static Plan generate( Rng& rng)
{
	if (rng.chance( 10)) return generateIter( rng);
	Plan p;
	int ns = rng.chance( 75) ? 1 : (int)rng.range( 2, 3);
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		GenOpts o; o.bigPermille = 4;
		o.maxNodes = rng.chance( 70) ? 8 : 24;
		o.nonAsciiPct = rng.chance( 50) ? 10 : 60;
		o.nameNonAsciiPct = rng.chance( 60) ? 3 : 40;
		o.eolPct = rng.chance( 70) ? 6 : 40;
		EntityTab ents = genEntities( rng, rng.chance( 20) ? (int)rng.range( 1, 3) : 0);
		Rec er( "E");
		for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
		genDoc( rng, enc, o, doc);
		DocModel m;
		renderDoc( doc, 0, doc.size(), enc, &ents, m);
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, rng.chance( 60) ? SRC_CHUNK : (int)rng.range( 1, 3), 10);
		if (!er.s.empty()) p.push_back( er);
		p.insert( p.end(), doc.begin(), doc.end());
	}
	return p;
}

static void execute( const Plan& p)
{
	if (isIterPlan( p)) { executeIter( p); return; }
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<DocModel> models( specs.size());
	for (size_t k=0; k<specs.size(); ++k)
	{
		auto& sp = specs[k];
		sp.dl.setSource = false;	// positions are relative to the last source assigned with setSource
		renderDoc( p, sp.recB, sp.recE, sp.encIn, &sp.ents, models[k]);
		ss.push_back( std::unique_ptr<Session>( new Session( sp, models[k].bytes)));
		ss.back()->maxErr = 0;
		ss.back()->verifyPos = true;
		evs( "doc", models[k].bytes);
	}
	runSessions( ss);
	for (size_t k=0; k<ss.size(); ++k)
	{
		Session& s = *ss[k];
		DocModel& m = models[k];
		size_t n = std::min( m.items.size(), s.items.size());
		
		size_t last = 0;
		for (size_t i=0; i<s.items.size(); ++i)
		{
			size_t ps = s.posAfter[i];
			if (ps < last) fail( "position-backwards", fmt( "input position moved from %u to %u at item %u; ", (unsigned)last, (unsigned)ps, (unsigned)i) + s.describe());
			unsigned int eot = unitOf( s.spec.encIn);		// the end of the data is read like one character
			bool lastFed = s.spec.dl.kind != SRC_CHUNK || s.availAt[i] == m.bytes.size();
			if (lastFed && ps > m.bytes.size() + eot) fail( "position-beyond", fmt( "input position %u at item %u, %u bytes delivered; ", (unsigned)ps, (unsigned)i, (unsigned)s.availAt[i]) + s.describe());
			if (!lastFed && ps > s.availAt[i]) fail( "position-beyond", fmt( "input position %u at item %u, %u bytes delivered; ", (unsigned)ps, (unsigned)i, (unsigned)s.availAt[i]) + s.describe());
			last = ps;
			if (s.items[i].type == I_Exit)
			{
				PROBE( "final_position");
				if (ps < m.bytes.size()) fail( "position-end", fmt( "input position at the end is %u, the document has %u bytes; ", (unsigned)ps, (unsigned)m.bytes.size()) + s.describe());
			}
		}
		if (n > 2 && s.suspensions > 1) nontrivial();
		if (n > 2 && s.spec.dl.kind != SRC_CHUNK) nontrivial();
		for (size_t i=0; i<n; ++i)
		{
			const ExpItem& x = m.items[i];
			if (x.type != s.items[i].type) break;		// decided by C02
			if (!(s.spec.dl.mask( i) & (1 << x.type)) || s.items[i].remasked) continue;	// not reported: no position
			if (!x.hasPos) continue;
			PROBE( "token_position");
			if (s.items[i].tokpos != x.tokpos) fail( "token-position", fmt( "item %u %s: position %u, expected %u; ", (unsigned)i, itemStr( s.items[i]).c_str(), (unsigned)s.items[i].tokpos, (unsigned)x.tokpos) + s.describe());
			if (x.tokpos > s.posAfter[i]) fail( "token-position", fmt( "item %u: token position %u behind the input position %u; ", (unsigned)i, (unsigned)x.tokpos, (unsigned)s.posAfter[i]) + s.describe());
		}
	}
}
const Property g_property = {"C13", generate, execute};
}//namespace
