// C02: under any delivery the scanner reports exactly the items the document was built from.
#include "sessions.hpp"
namespace sim {

static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 70) ? 1 : (int)rng.range( 2, 4);
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		GenOpts o; o.bigPermille = 6;
		o.maxNodes = rng.chance( 70) ? 8 : 30;
		o.nonAsciiPct = rng.chance( 50) ? 10 : 60;
		o.nameNonAsciiPct = rng.chance( 70) ? 3 : 40;
		o.eolPct = rng.chance( 70) ? 6 : 40;
		o.balanced = rng.chance( 30);
		EntityTab ents = genEntities( rng, rng.chance( 40) ? (int)rng.range( 1, 5) : 0);
		Rec er( "E");
		for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
		genDoc( rng, enc, o, doc);
		// let user entities occur
		if (!ents.ent.empty()) for (auto& r : doc) if ((r.tag == "dt" || r.tag == "do") && rng.chance( 50) && !r.s.empty())
		{
			ustr& s = r.s.back();
			if (r.tag == "do" && (r.s.size() & 1) == 0) continue;	// not in names
			s.insert( s.begin() + rng.below( s.size()+1), (char32_t)rng.pick( ents.ent).second);
			if (r.n.size() && !r.n[0]) r.n[0] = 7;
		}
		DocModel m;
		renderDoc( doc, 0, doc.size(), enc, &ents, m);
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, rng.chance( 60) ? SRC_CHUNK : (int)rng.range( 1, 3), 15);
		if (!er.s.empty()) p.push_back( er);
		p.insert( p.end(), doc.begin(), doc.end());
	}
	return p;
}

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<DocModel> models( specs.size());
	for (size_t k=0; k<specs.size(); ++k)
	{
		auto& sp = specs[k];
		renderDoc( p, sp.recB, sp.recE, sp.encIn, &sp.ents, models[k]);
		ss.push_back( std::unique_ptr<Session>( new Session( sp, models[k].bytes)));
		ss.back()->maxErr = 0;
		evs( "doc", models[k].bytes);
	}
	runSessions( ss);
	for (size_t k=0; k<ss.size(); ++k)
	{
		Session& s = *ss[k];
		DocModel& m = models[k];
		if (m.items.size() > 2) nontrivial();
		// a document without any tag is just empty
		size_t n = std::min( m.items.size(), s.items.size());
		for (size_t i=0; i<n; ++i)
		{
			const ExpItem& x = m.items[i];
			const Item& a = s.items[i];
			std::string exp = encodeStr( s.spec.encOut, x.text);
			unsigned short mask = s.spec.dl.mask( i);
			bool masked = (mask & (1 << x.type)) == 0 || a.remasked;
			if (x.type != a.type) fail( "item-type", fmt( "item %u: expected %s(\"%s\"), got %s; ", (unsigned)i, itemName( x.type), printable( exp).c_str(), itemStr( a).c_str()) + s.describe());
			if (!masked && exp != a.data) fail( "item-content", fmt( "item %u: expected %s(\"%s\"), got %s; ", (unsigned)i, itemName( x.type), printable( exp).c_str(), itemStr( a).c_str()) + s.describe());
			countDyn( std::string("probe.item_") + itemName( a.type));
		}
		if (s.items.size() != m.items.size()+1 || s.items.back().type != I_Exit)
		{
			std::string got = s.items.size() > m.items.size() ? itemStr( s.items[ m.items.size()]) : std::string("(nothing)");
			fail( "item-count", fmt( "expected %u items and Exit, got %u items; item %u is %s; ", (unsigned)m.items.size(), (unsigned)s.items.size(), (unsigned)m.items.size(), got.c_str()) + s.describe());
		}
	}
	// recorded finding (see known_findings.json), never generated: the text of a CDATA section is content of the document
	for (size_t k=0; k<ss.size(); ++k) for (size_t i=specs[k].recB; i<specs[k].recE; ++i)
	{
		const Rec& r = p[i];
		if (r.tag != "dx" || r.num( 0) != 1) continue;
		std::string text = encodeStr( specs[k].encOut, r.str( 0));
		bool found = false;
		for (const Item& a : ss[k]->items) if (a.type == I_Content && a.data.find( text) != std::string::npos) found = true;
		if (!found) fail( "cdata-content-missing", "the text of the CDATA section is in no content reported; " + ss[k]->describe());
	}
}
const Property g_property = {"C02", generate, execute};
}//namespace
