// C14: items are delivered as soon as their delimiter was delivered.
#include "sessions.hpp"
namespace sim {

static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 75) ? 1 : (int)rng.range( 2, 3);
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		GenOpts o; o.bigPermille = 4;
		o.maxNodes = rng.chance( 70) ? 8 : 24;
		o.nonAsciiPct = rng.chance( 50) ? 10 : 60;
		o.nameNonAsciiPct = rng.chance( 60) ? 3 : 40;
		o.eolPct = rng.chance( 70) ? 6 : 40;
		EntityTab ents = genEntities( rng, rng.chance( 20) ? (int)rng.range( 1, 3) : 0);
		Rec er( "E");
		for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
		genDoc( rng, enc, o, doc);
		DocModel m;
		renderDoc( doc, 0, doc.size(), enc, &ents, m);
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, rng.chance( 75) ? SRC_CHUNK : SRC_STREAM, 10);
		if (!er.s.empty()) p.push_back( er);
		p.insert( p.end(), doc.begin(), doc.end());
	}
	return p;
}

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<DocModel> models( specs.size());
	for (size_t k=0; k<specs.size(); ++k)
	{
		auto& sp = specs[k];
		
		renderDoc( p, sp.recB, sp.recE, sp.encIn, &sp.ents, models[k]);
		ss.push_back( std::unique_ptr<Session>( new Session( sp, models[k].bytes)));
		ss.back()->maxErr = 0;
		evs( "doc", models[k].bytes);
	}
	runSessions( ss);
	for (size_t k=0; k<ss.size(); ++k)
	{
		Session& s = *ss[k];
		DocModel& m = models[k];
		size_t n = std::min( m.items.size(), s.items.size());
		
		if (n > 2 && s.suspensions > 1) nontrivial();
		if (n > 2 && s.spec.dl.kind == SRC_STREAM) nontrivial();
		for (size_t i=0; i<n; ++i)
		{
			const ExpItem& x = m.items[i];
			if (x.type != s.items[i].type) break;		// decided by C02
			if (x.avail > m.bytes.size()) continue;		// delimited by the end of the document
			if (x.avail > s.availAt[i] && s.spec.dl.kind == SRC_CHUNK) PROBE( "reported_early");
			if (s.availAt[i] < m.bytes.size()) PROBE( "reported_before_the_end");
			if (s.needAt[i] >= x.avail)
				fail( "reported-late", fmt( "item %u %s is complete with %u bytes, was not reported when %u bytes had been delivered; ", (unsigned)i, itemStr( s.items[i]).c_str(), (unsigned)x.avail, (unsigned)s.needAt[i]) + s.describe());
		}
	}
}
const Property g_property = {"C14", generate, execute};
}//namespace
