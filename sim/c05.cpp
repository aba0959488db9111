// C05: truncated and damaged input: bounded, safe, never a regular end inside an open construct,
// nothing before the damage lost or changed.
#include "sessions.hpp"
#include "reader.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
namespace sim {

// plan: S,K,M,E; document records; X kind pos char len (damage, the position is a byte offset), Q n char (n characters more in the first text)
static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 80) ? 1 : 2;
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		DocModel m;
		Rec er( "E");
		bool reader = rng.chance( 15);
		if (reader)
		{
			ustr t;
			int len = (int)rng.range( 0, 24);
			for (int i=0; i<len; ++i) t.push_back( rng.chance( 30) ? (char32_t)rng.range( 1, 127) : genChar( rng, enc, 80));
			doc.push_back( Rec( "T", {}, {t}));
			for (char32_t c : t) { m.hot.push_back( m.bytes.size()); encodeOut( enc, c, m.bytes); }
		}
		else
		{
			GenOpts o; o.bigPermille = 3;
			o.maxNodes = rng.chance( 70) ? 5 : 14;
			o.nonAsciiPct = rng.chance( 50) ? 10 : 60;
			EntityTab ents = genEntities( rng, rng.chance( 20) ? (int)rng.range( 1, 3) : 0);
			for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
			genDoc( rng, enc, o, doc);
			renderDoc( doc, 0, doc.size(), enc, &ents, m);
		}
		int kind = rng.chance( 60) ? SRC_CHUNK : (int)rng.range( 1, 3);
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, kind, 15);
		if (!er.s.empty()) p.push_back( er);
		p.insert( p.end(), doc.begin(), doc.end());
		int n = rng.chance( 75) ? 1 : (int)rng.range( 2, 5);
		for (int i=0; i<n; ++i)
		{
			i64 at = !m.hot.empty() && rng.chance( 50) ? (i64)m.hot[ rng.below( m.hot.size())] + rng.range( -1, 2) : (i64)rng.below( m.bytes.size()+1);
			if (at < 0) at = 0;
			static const char P[] = "<>&;#x\"'/=!?-[] \n\r\0\xC3\xFF\x80" "aq0\xD8\xDC\xF4\xFD";
			int op = rng.chance( 45) ? 0 : (int)rng.below( 7);
			if (rng.chance( 15)) { p.push_back( Rec( "X", {7, at, (i64)rng.below( 64), rng.chance( 90) ? (i64)enc : (i64)rng.below( 16)})); continue; }
			p.push_back( Rec( "X", {op, at, rng.chance( 70) ? (i64)(unsigned char)P[ rng.below( sizeof(P)-1)] : (i64)rng.below( 256), (i64)rng.range( 1, 20)}));
		}
		if (rng.permille( 4)) { static const char Q[] = "a<&\r;]-?'\" \xff"; p.push_back( Rec( "Q", {rng.range( 1000, 30000), (i64)(unsigned char)Q[ rng.below( sizeof(Q)-1)], (i64)rng.below( 1000000)})); }
	}
	return p;
}

struct Damaged
{
	std::string bytes; size_t first; bool truncated; bool any;
};
static Damaged damage( const Plan& p, size_t b, size_t e, const std::string& orig)
{
	Damaged d; d.bytes = orig; d.any = false; d.truncated = false;
	int n = 0; bool onlyTrunc = true;
	std::string& s = d.bytes;
	for (size_t i=b; i<e; ++i)
	{
		const Rec& r = p[i];
		if (r.tag == "Q")
		{
			size_t at = s.empty() ? 0 : (size_t)((u64)r.num( 2) % s.size());
			s.insert( at, (size_t)r.numc( 0, 0, 60000), (char)(unsigned char)(r.num( 1) & 0xFF));
			FAULT( "long_run_of_one_character"); onlyTrunc = false; ++n;
			continue;
		}
		if (r.tag != "X") continue;
		++n;
		size_t pos = (size_t)r.numc( 1, 0, 1<<24);
		if (pos > s.size()) pos = s.size();
		char c = (char)(unsigned char)(r.num( 2) & 0xFF);
		size_t len = (size_t)r.numc( 3, 0, 64);
		int op = (int)r.numc( 0, 0, 7);
		if (op) onlyTrunc = false;
		switch (op)
		{
			case 0: s.resize( pos); FAULT( "truncated_input"); break;
			case 1: if (pos < s.size()) s[pos] = c; FAULT( "byte_replaced"); break;
			case 2: s.insert( pos, 1, c); FAULT( "byte_inserted"); break;
			case 3: s.erase( pos, len); FAULT( "bytes_lost"); break;
			case 4: s.insert( pos, s.substr( pos, len)); FAULT( "bytes_duplicated"); break;
			case 5: if (pos < s.size()) s[pos] = (char)(s[pos] ^ (1 << (len&7))); FAULT( "bit_flipped"); break;
			case 6: if (pos+1 < s.size()) std::swap( s[pos], s[ std::min( s.size()-1, pos+len)]); FAULT( "bytes_reordered"); break;
			case 7: s.insert( pos, damageFragment( (size_t)(r.num( 2) & 0xFF), (int)(r.num( 3) & 15))); FAULT( "fragment_inserted"); break;
		}
	}
	size_t f = 0;
	while (f < s.size() && f < orig.size() && s[f] == orig[f]) ++f;
	d.first = f;
	d.any = s != orig;
	d.truncated = d.any && onlyTrunc;
	return d;
}

static void readAll( const SessionSpec& sp, const std::string& bytes, bool pieces, ustr& out, size_t& calls)
{
	ScanSource s;
	s.kind = pieces ? sp.dl.kind : (int)SRC_CHUNK;
	s.page = sp.encIn >= E_ISO1 ? pageOf( sp.encIn) : 0;
	char* chunk = 0; std::unique_ptr<SimStream> st;
	if (s.kind == SRC_CHARP) { std::string z = bytes; z.append( 16, '\0'); chunk = (char*)std::malloc( z.size()); std::memcpy( chunk, z.data(), z.size()); s.cptr = chunk; }
	else if (s.kind == SRC_CSTR) { chunk = (char*)std::malloc( bytes.size()?bytes.size():1); std::memcpy( chunk, bytes.data(), bytes.size()); s.str = chunk; s.strsize = bytes.size(); }
	else if (s.kind == SRC_STREAM) { st.reset( new SimStream( bytes, sp.dl.cuts)); s.stream = st.get(); s.bufsize = sp.dl.bufsize; }
	std::unique_ptr<ReaderBox> rd( makeReader( csOf( sp.encIn), s));
	size_t fed = 0, ci = 0; bool last = false;
	auto feed = [&]() {
		std::free( chunk); chunk = 0;
		if (last) fail( "asks-for-more", "reader asks for input after the final chunk");
		size_t e = pieces && ci < sp.dl.cuts.size() ? std::max( fed, std::min( sp.dl.cuts[ci], bytes.size())) : bytes.size();
		last = !(pieces && ci++ < sp.dl.cuts.size());
		chunk = (char*)std::malloc( e-fed?e-fed:1); std::memcpy( chunk, bytes.data()+fed, e-fed);
		rd->feed( chunk, e-fed, last);
		ev( "feed", e-fed, last);
		fed = e;
	};
	if (s.kind == SRC_CHUNK) feed();
	calls = 0;
	Rng rng( sp.dl.arrival);
	g_what = "TextScanner operation";
	for (;;)
	{
		char32_t c = 0; int x;
		if (++calls > bytes.size()*3+64) fail( "too-many-characters", fmt( "%u characters read from %u bytes", (unsigned)out.size(), (unsigned)bytes.size()));
		if (rng.chance( 20)) { if (!rd->control( x)) { feed(); continue; } }
		if (rng.chance( 10)) { if (!rd->ascii( x)) { feed(); continue; } }
		while (!rd->chr( c)) feed();
		if (c == 0) break;
		out.push_back( c);
		ev( "char", c);
		if (out.size() > bytes.size()) fail( "too-many-characters", fmt( "%u characters read from %u bytes", (unsigned)out.size(), (unsigned)bytes.size()));
		while (!rd->skip()) feed();
	}
	rd.reset();
	std::free( chunk);
}

// the types of all elements of a text scanned in one piece
static void typesOf( const SessionSpec& sp, const std::string& bytes, unsigned mask, std::vector<int>& types, std::string& err)
{
	ScanSource s; s.kind = SRC_CHUNK;
	s.page = sp.encIn >= E_ISO1 ? pageOf( sp.encIn) : 0;
	s.entities = sp.ents.ent.empty() ? 0 : &sp.ents;
	std::unique_ptr<ScannerBox> x( makeScanner( csOf( sp.encIn), sp.csOut, s));
	std::unique_ptr<char[]> c( new char[ bytes.size()+1]); std::memcpy( c.get(), bytes.data(), bytes.size());
	x->feed( c.get(), bytes.size(), true);
	for (;;)
	{
		int t = x->next( mask);
		if (t == SUSPENDED) fail( "asks-for-more", "scanner asks for input after the final chunk");
		types.push_back( t);
		if (t == I_Error) { Item it; readItem( *x, t, mask, it, false); err = it.errstr; }
		if (t == I_Exit || t == I_Error)
		{
			// a caller that goes on asking harms nothing, and the end stays the end
			for (int k=0; k<4; ++k)
			{
				int n = x->next( k&1 ? mask : 0xFFFF);
				ev( "afterend", (u64)n);
				if (n == SUSPENDED) fail( "asks-for-more", "scanner asks for input after the end");
				if (t == I_Exit && n != I_Exit) fail( "goes-on-after-end", fmt( "%s after the end of the document", itemName( n)));
				volatile unsigned sum = 0; const char* q = x->ptr(); size_t z = q?x->size():0; for (size_t i=0; i<z; ++i) sum = sum + (unsigned char)q[i];
			}
			return;
		}
		if (types.size() > bytes.size()*2+64) fail( "too-many-items", fmt( "%u items of %u bytes", (unsigned)types.size(), (unsigned)bytes.size()));
	}
}

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<DocModel> models( specs.size());
	std::vector<Damaged> dmg( specs.size());
	std::vector<size_t> which;
	u64 total = 0;
	for (size_t k=0; k<specs.size(); ++k)
	{
		auto& sp = specs[k];
		bool reader = false; ustr text;
		for (size_t i=sp.recB; i<sp.recE; ++i) if (p[i].tag == "T") { reader = true; for (char32_t c : p[i].str(0)) if (c && c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000) && representable( sp.encIn, c)) text.push_back( c); }
		if (reader)
		{
			std::string orig; std::vector<size_t> ofs;
			for (char32_t c : text) { ofs.push_back( orig.size()); encodeOut( sp.encIn, c, orig); }
			ofs.push_back( orig.size());
			Damaged d = damage( p, sp.recB, sp.recE, orig);
			evs( "text", d.bytes);
			BudgetScope bs( 20000 + 1500 * (u64)(d.bytes.size() + sp.dl.cuts.size()));
			ustr a, b; size_t na, nb;
			readAll( sp, d.bytes, false, a, na);
			readAll( sp, d.bytes, true, b, nb);
			if (d.any && text.size() > 1) nontrivial();
			if (a != b) fail( "characters-differ", fmt( "%u characters in one piece, %u delivered in pieces or other characters; %s text=\"%s\"", (unsigned)a.size(), (unsigned)b.size(), encName( sp.encIn), printable( d.bytes.substr( 0, 200)).c_str()));
			for (size_t i=0; i<text.size() && ofs[i+1] <= (d.any ? d.first : orig.size()); ++i)
				if (i >= a.size() || a[i] != text[i]) fail( "before-damage", fmt( "character %u is U+%X, expected U+%X (damage at byte %u); %s text=\"%s\"", (unsigned)i, i < a.size() ? (unsigned)a[i] : 0, (unsigned)text[i], (unsigned)d.first, encName( sp.encIn), printable( d.bytes.substr( 0, 200)).c_str()));
			continue;
		}
		renderDoc( p, sp.recB, sp.recE, sp.encIn, &sp.ents, models[k]);
		dmg[k] = damage( p, sp.recB, sp.recE, models[k].bytes);
		total += dmg[k].bytes.size() + sp.dl.cuts.size();
		ss.push_back( std::unique_ptr<Session>( new Session( sp, dmg[k].bytes)));
		which.push_back( k);
		evs( "doc", dmg[k].bytes);
	}
	u64 used;
	{
		BudgetScope bs( 20000 + 1500 * total);
		u64 b0 = budgetLeft();
		runSessions( ss);
		used = b0 - budgetLeft();
	}
	if (used > 10000 + 750 * total) PROBE( "half_of_the_step_bound_used");
	for (size_t q=0; q<ss.size(); ++q)
	{
		Session& s = *ss[q];
		DocModel& m = models[ which[q]];
		Damaged& d = dmg[ which[q]];
		std::string what = fmt( " (damage at byte %u of %u%s); ", (unsigned)d.first, (unsigned)m.bytes.size(), d.truncated ? ", truncated" : "");
		if (d.any && !s.items.empty()) nontrivial();
		// the first item that does not come from the model
		size_t lim = d.any ? d.first : m.bytes.size();
		for (size_t i=0; i<m.items.size(); ++i)
		{
			const ExpItem& x = m.items[i];
			if (x.avail > lim) break;
			std::string exp = encodeStr( s.spec.encOut, x.text);
			if (i >= s.items.size()) fail( "before-damage", fmt( "item %u %s(\"%s\") is missing", (unsigned)i, itemName( x.type), printable( exp).c_str()) + what + s.describe());
			bool masked = (s.spec.dl.mask( i) & (1 << x.type)) == 0 || s.items[i].remasked;
			if (s.items[i].type != x.type || (!masked && s.items[i].data != exp)) fail( "before-damage", fmt( "item %u is %s, expected %s(\"%s\")", (unsigned)i, itemStr( s.items[i]).c_str(), itemName( x.type), printable( exp).c_str()) + what + s.describe());
			PROBE( "item_before_damage");
		}
		// what is masked out is not produced, but everything else is recognised as before
		if (s.bytes.size() < 4000)
		{
			std::vector<int> full, part; std::string ef, ep;
			unsigned mask = (unsigned)(s.spec.dl.arrival >> 7) & 0xFFFF;
			if ((s.spec.dl.arrival & 3) == 0) mask = 0;
			BudgetScope bs( 40000 + 4000 * (u64)s.bytes.size());
			typesOf( s.spec, s.bytes, 0xFFFF, full, ef);
			typesOf( s.spec, s.bytes, mask, part, ep);
			bool undefined = ef.find( "entity") != std::string::npos;	// only looked up if needed
			for (size_t i=0; i<full.size(); ++i)
			{
				if (undefined && i+1 == full.size()) { PROBE( "undefined_entity_masked"); break; }
				if (i >= part.size() || full[i] != part[i] || (i+1 == full.size() && (ef != ep || part.size() != full.size())))
					fail( "mask-changes-elements", fmt( "element %u is %s, with the mask %x it is %s", (unsigned)i, itemName( full[i]), mask, i < part.size() ? itemName( part[i]) : "(none)") + what + s.describe());
			}
		}
		int lastType = s.items.empty() ? -1 : s.items.back().type;
		bool error = false;
		for (auto& it : s.items) if (it.type == I_Error) error = true;
		if (!error && lastType != I_Exit) fail( "no-end", "neither an error nor the end of the document was reported" + what + s.describe());
		if (error) PROBE( "error_reported");
		if (d.truncated)
		{
			unsigned u = unitOf( s.spec.encIn);
			// input iterators return zero bytes after the end: a character cut in the middle is read completed with zeros,
			// which makes a '>' of a little endian character that starts with its byte
			size_t part = d.first % u;
			bool zeroFilled = part != 0 && s.bytes.size() >= d.first && s.bytes[ d.first-part] == '>';
			for (size_t i=1; i<part; ++i) if (s.bytes[ d.first-part+i]) zeroFilled = false;
			for (auto& sp : m.spans) if (!zeroFilled && sp.first + u <= d.first && d.first + u <= sp.second)
			{
				PROBE( "truncated_inside_markup");
				if (!error) fail( "regular-end-in-construct", "the document ends inside the markup at byte " + std::to_string( sp.first) + ", but the end of the document is reported without an error" + what + s.describe());
				// nothing is reported for the part that is missing
				for (size_t i=0; i<s.items.size() && s.items[i].type != I_Error; ++i)
					if (i >= m.items.size() || s.items[i].type != m.items[i].type) fail( "items-after-truncation", fmt( "item %u %s before the error is not one of the document", (unsigned)i, itemStr( s.items[i]).c_str()) + what + s.describe());
			}
		}
	}
}
const Property g_property = {"C05", generate, execute};
}//namespace
