// C01: chunk boundaries, suspension and resumption never change what the scanner delivers.
#include "sessions.hpp"
namespace sim {

static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 60) ? 1 : (int)rng.range( 2, 4);
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		GenOpts o; o.bigPermille = 4;
		o.maxNodes = rng.chance( 70) ? 6 : 16;
		o.nonAsciiPct = rng.chance( 50) ? 10 : 50;
		EntityTab ents = genEntities( rng, rng.chance( 40) ? (int)rng.range( 1, 4) : 0);
		Rec er( "E");
		for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
		genDoc( rng, enc, o, doc);
		if (rng.chance( 35)) genDamage( rng, doc, enc, (int)rng.range( 1, 4));
		if (rng.chance( 10))
		{
			// bytes without any structure
			ustr junk;
			static const char P[] = "<>&;#x\"'/=!?-[] \n\r\0\xC3\xFF\x80" "aq0CDATA";
			int n = (int)rng.range( 1, 40);
			for (int i=0; i<n; ++i) junk.push_back( rng.chance( 70) ? (unsigned char)P[ rng.below( sizeof(P)-1)] : (unsigned char)rng.below( 256));
			doc.push_back( Rec( "B", {}, {junk}));
		}
		DocModel m;
		renderDoc( doc, 0, doc.size(), enc, &ents, m);
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, rng.chance( 75) ? SRC_CHUNK : (int)rng.range( 1, 3), 30);
		if (!er.s.empty()) p.push_back( er);
		p.insert( p.end(), doc.begin(), doc.end());
	}
	return p;
}

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<std::string> docs;
	for (auto& sp : specs)
	{
		DocModel m;
		renderDoc( p, sp.recB, sp.recE, sp.encIn, &sp.ents, m);
		std::string bytes = damageBytes( p, sp.recB, sp.recE, m.bytes);
		for (size_t i=sp.recB; i<sp.recE; ++i) if (p[i].tag == "B") bytes += uToBytes( p[i].str( 0));
		ss.push_back( std::unique_ptr<Session>( new Session( sp, bytes)));
		evs( "doc", bytes);
	}
	runSessions( ss);
	for (auto& s : ss)
	{
		std::vector<Item> ref;
		scanWhole( s->spec, s->bytes, ref, s->maxErr);
		if (s->suspensions > 1) nontrivial();
		if (s->spec.dl.kind == SRC_STREAM) nontrivial();
		size_t n = std::min( ref.size(), s->items.size());
		for (size_t i=0; i<n; ++i)
		{
			if (s->items[i].remaskedAny)
			{
				// the mask changed while the item was read: its content is unspecified, everything behind is not
				if (ref[i].type == I_Error || s->items[i].type == I_Error) { n = (size_t)-1; break; }
				if (s->items[i].remasked && ref[i].type == s->items[i].type) continue;
			}
			if (!sameItem( ref[i], s->items[i]))
				fail( "items-differ", fmt( "item %u: in one piece %s, delivered in pieces %s; ", (unsigned)i, itemStr( ref[i]).c_str(), itemStr( s->items[i]).c_str()) + s->describe());
			if (ref[i].type == I_Error) PROBE( "error_item");
		}
		if (n != (size_t)-1 && ref.size() != s->items.size()) fail( "items-differ", fmt( "%u items in one piece, %u delivered in pieces; ", (unsigned)ref.size(), (unsigned)s->items.size()) + s->describe());
	}
}
const Property g_property = {"C01", generate, execute};
}//namespace
