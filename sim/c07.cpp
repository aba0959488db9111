// C07: header detection: several header parsers fed in pieces under a seeded schedule; refinement
// against an independent recogniser of the header and against the prefix fed at once.
#include "core.hpp"
#include "enc.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <memory>
namespace sim {

// plan: P enc arrival spurious reuse copies; K cuts..; h style tail "name" "value" ... (n: style tail, per attribute: form); X damage; t "text" (what follows)
static const int ENCS[] = {E_UTF8,E_UTF16LE,E_UTF16BE,E_UCS2LE,E_UCS2BE,E_UCS4LE,E_UCS4BE,E_ISO1};

static void render( const Plan& p, size_t b, size_t e, int enc, std::string& out, std::vector<size_t>& hot)
{
	for (size_t i=b; i<e; ++i)
	{
		const Rec& r = p[i];
		if (r.tag == "h")
		{
			u64 sty = (u64)r.num( 0);
			auto dice = [&]( unsigned n) -> unsigned { if (!r.num( 0)) return 0; sty = mix64( sty); return (unsigned)(sty % n); };
			auto put = [&]( char32_t c) { encodeOut( enc, c, out); if (dice( 6) == 1) hot.push_back( out.size()); };
			auto puts = [&]( const char* s) { for (; *s; ++s) put( (unsigned char)*s); };
			auto ws = [&]( int min) { int n = min + (dice( 3) == 1 ? (int)dice( 4) : 0); for (int k=0; k<n; ++k) put( (unsigned char)(" \t\r\n"[ dice( 4)])); };
			switch (r.numc( 1, 0, 6))
			{
				case 0: // header
				case 1:
					ws( 0); put( '<'); ws( 0); puts( "?xml");
					for (size_t k=0; 2*k<r.s.size(); ++k)
					{
						if (k == 0 || dice( 8)) ws( 1);	// the blank between attributes may be missing
						for (char32_t c : r.str( 2*k)) put( c);
						ws( 0); put( '='); ws( 0);
						char32_t q = r.num( 2+k) & 1 ? '\'' : '"';
						put( q);
						for (char32_t c : r.str( 2*k+1)) if (c != q && c) put( c);
						put( q);
					}
					ws( 0);
					puts( "?>");
					ws( 0);
					break;
				case 2: ws( 0); put( '<'); ws( 0); for (char32_t c : r.str( 0)) put( c); break;	// no header
				default: for (auto& x : r.s) for (char32_t c : x) put( c); break;			// anything
			}
		}
		else if (r.tag == "t") for (char32_t c : r.str( 0)) if (representable( enc, c)) encodeOut( enc, c, out);
	}
	for (size_t i=b; i<e; ++i)
	{
		const Rec& r = p[i];
		if (r.tag != "X") continue;
		size_t pos = out.empty() ? 0 : (size_t)((u64)r.num( 1) % (out.size()+1));
		char c = (char)(unsigned char)(r.num( 2) & 0xFF);
		size_t len = (size_t)r.numc( 3, 0, 64);
		switch (r.numc( 0, 0, 6))
		{
			case 0: out.resize( pos); FAULT( "truncated_header"); break;
			case 1: if (pos < out.size()) out[pos] = c; FAULT( "byte_replaced"); break;
			case 2: out.insert( pos, 1, c); FAULT( "byte_inserted"); break;
			case 3: out.erase( pos, len); FAULT( "bytes_lost"); break;
			case 4: out.insert( pos, out.substr( pos, len)); FAULT( "bytes_duplicated"); break;
			case 5: if (pos < out.size()) out[pos] = (char)(out[pos] ^ (1 << (len&7))); FAULT( "bit_flipped"); break;
			case 6: out.insert( pos, len & 7, '\0'); FAULT( "zero_bytes_inserted"); break;
		}
	}
	hot.push_back( out.size());
}

static Plan generate( Rng& rng)
{
	Plan p;
	int np = rng.chance( 60) ? 1 : (int)rng.range( 2, 4);
	for (int q=0; q<np; ++q)
	{
		int enc = rng.chance( 40) ? 0 : (int)rng.below( 8);
		p.push_back( Rec( "P", {enc, (i64)rng.below( 1000000), rng.chance( 30) ? 40 : 0, rng.chance( 40), rng.chance( 25) ? 30 : 0}));
		int parts = rng.chance( 20) ? 2 : 1;
		for (int part=0; part<parts; ++part)
		{
			if (part) p.push_back( Rec( "C"));	// clear and parse another header
			Plan h;
			Rec r( "h", {rng.chance( 20) ? 0 : (i64)rng.below( 1000000)});
			int kind = (int)rng.below( 100);
			auto ident = [&]( int max) { ustr s; int n = (int)rng.range( 1, max); static const char A[] = "abcdefghijklmnopqrstuvwxyz_ABCDEFGXMLZ"; for (int i=0; i<n; ++i) s.push_back( (unsigned char)A[ rng.below( sizeof(A)-1)]); return s; };
			auto value = [&]() { ustr s; int n = (int)rng.below( 10); static const char A[] = "abcUTFiso-8859.10_ '\"<>/?="; for (int i=0; i<n; ++i) s.push_back( (unsigned char)A[ rng.below( sizeof(A)-1)]); return s; };
			if (kind < 70)
			{
				r.n.push_back( 0);
				static const char* EN[] = {"UTF-8","UTF-16","utf-16le","ISO-8859-1","isolatin-1","UCS-4BE","x"};
				int na = rng.chance( 15) ? 0 : (int)rng.range( 1, 4);
				for (int i=0; i<na; ++i)
				{
					static const char* AN[] = {"version","encoding","standalone"};
					int k = i < 3 && rng.chance( 60) ? i : (int)rng.below( 3);
					r.s.push_back( rng.chance( 4) ? ident( 9) : asciiU( AN[k]));
					r.s.push_back( k == 1 && rng.chance( 80) ? asciiU( EN[ rng.below( 7)]) : k == 0 ? asciiU( "1.0") : k == 2 && rng.chance( 70) ? asciiU( "yes") : value());
					r.n.push_back( rng.below( 2));
				}
			}
			else if (kind < 82) { r.n.push_back( 2); r.s.push_back( ident( 5)); }
			else
			{
				r.n.push_back( 4);
				static const char* TOK[] = {"<","?","xml","<?xml"," ","\n","version","encoding","standalone","=","\"","'","1.0","UTF-8","?>",">","a","_","9","!","/","<?xml version=\"1.0\"","encoding='x'","-","\x01","&","[","xm","xmlx","<?","encoding=\"","<!DOCTYPE x>","<!-- -->","\xEF\xBB\xBF"};
				int n = (int)rng.range( 1, 8);
				for (int i=0; i<n; ++i) r.s.push_back( bytesToU( TOK[ rng.below( sizeof(TOK)/sizeof(TOK[0]))]));
			}
			h.push_back( r);
			if (rng.chance( 50)) h.push_back( Rec( "t", {}, {asciiU( rng.chance( 50) ? "<a>" : "<doc attr=\"?\">x</doc>")}));
			if (rng.chance( 25)) { int n = rng.chance( 70) ? 1 : 3; for (int i=0; i<n; ++i) { static const char C[] = "<>?='\"x \0\n\xff\x80" "0_"; h.push_back( Rec( "X", {(i64)rng.below( 7), (i64)rng.below( 10000), (i64)(unsigned char)C[ rng.below( sizeof(C)-1)], (i64)rng.range( 1, 9)})); } }
			std::string bytes; std::vector<size_t> hot;
			render( h, 0, h.size(), ENCS[enc], bytes, hot);
			Rec k( "K");
			switch (rng.below( 4))
			{
				case 0: for (size_t i=1; i<bytes.size(); ++i) k.n.push_back( (i64)i); break;
				case 1: for (size_t x : hot) if (rng.chance( 50)) k.n.push_back( (i64)x + rng.range( -1, 1)); break;
				case 2: { i64 st = rng.range( 2, 9); for (i64 x=st; x<(i64)bytes.size(); x+=st) k.n.push_back( x); break; }
				default: { int n = (int)rng.below( 5); for (int i=0; i<n; ++i) k.n.push_back( (i64)rng.below( bytes.size()+1)); break; }
			}
			if (rng.chance( 15)) k.n.push_back( k.n.empty() ? 0 : k.n.back());	// empty piece
			std::sort( k.n.begin(), k.n.end());
			p.push_back( k);
			p.insert( p.end(), h.begin(), h.end());
		}
	}
	return p;
}

// ---- the reference: recognise a header in a complete prefix ---------------------------
enum Verdict {V_More,V_Done,V_Error,V_Exception};
struct Ref
{
	Verdict v; std::string encoding; size_t at;	// at: bytes needed for the verdict
	Ref() :v(V_More),at(0){}
};
namespace {
struct NeedMore {};
struct Broken { size_t at; bool exc; };
struct Reader
{
	const std::string& s; size_t i; int zeros;
	explicit Reader( const std::string& s_) :s(s_),i(0),zeros(0){}
	int next()	// next non zero byte
	{
		for (;;)
		{
			if (i == s.size()) throw NeedMore();
			unsigned char c = (unsigned char)s[i++];
			if (c) { zeros = 0; return c; }
			if (++zeros == 4) throw Broken{i,true};
		}
	}
	int nextNonBlank() { int c; do c = next(); while (c <= 32); return c; }
	void broken() { throw Broken{i,false}; }
};
bool letter( int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
}
static Ref recognise( const std::string& bytes)
{
	Ref r; Reader rd( bytes);
	try
	{
		int c = rd.nextNonBlank();
		if (c != '<') rd.broken();
		c = rd.nextNonBlank();
		if (letter( c)) { r.v = V_Done; r.at = rd.i; return r; }
		if (c != '?') rd.broken();
		std::string target;
		while (letter( c = rd.next())) target += (char)c;
		if (c > 32 && c != '?') rd.broken();
		if (target != "xml") rd.broken();
		for (;;)
		{
			if (c <= 32) c = rd.nextNonBlank();
			if (c == '?') { r.v = V_Done; r.at = rd.i; return r; }
			std::string name;
			if (!letter( c)) rd.broken();
			for (; letter( c); c = rd.next()) name += (char)c;
			if (c > 32 && c != '=') rd.broken();
			if (name != "encoding" && name != "version" && name != "standalone") rd.broken();
			if (c <= 32) c = rd.nextNonBlank();
			if (c != '=') rd.broken();
			int q = rd.nextNonBlank();
			if (q != '"' && q != '\'') rd.broken();
			std::string val;
			while ((c = rd.next()) != q) val += (char)c;
			if (name == "encoding") r.encoding = val;
			c = ' ';
		}
	}
	catch (const NeedMore&) { r.v = V_More; r.at = bytes.size(); }
	catch (const Broken& b) { r.v = b.exc ? V_Exception : V_Error; r.at = b.at; }
	return r;
}

struct Out
{
	Verdict v; std::string enc, err; size_t consumed;
	bool operator==( const Out& o) const { return v == o.v && enc == o.enc && err == o.err && consumed == o.consumed; }
};
static const char* vname( Verdict v) { static const char* n[] = {"more data needed","complete","error","exception"}; return n[v]; }
static std::string str( const Out& o) { return fmt( "%s, encoding \"%s\", error \"%s\", %u characters", vname( o.v), o.enc.c_str(), o.err.c_str(), (unsigned)o.consumed); }

static Out callParse( textwolf::XmlHdrParser& hp, bool& again)
{
	Out o; again = false;
	const textwolf::XmlHdrParser& chp = hp;
	try
	{
		bool r = hp.parse();
		o.v = r ? V_Done : hp.lasterror() ? V_Error : V_More;
	}
	catch (const textwolf::exception& e)
	{
		o.v = V_Exception;
		if (e.cause != textwolf::throws_exception::IllegalXmlHeader) fail( "wrong-exception", fmt( "header parser throws %s", e.what()));
	}
	o.enc = chp.encoding() ? chp.encoding() : "";
	o.err = chp.lasterror() ? chp.lasterror() : "";
	o.consumed = chp.charsConsumed();
	return o;
}

struct Part { std::string bytes; std::vector<size_t> cuts; };
struct Sess
{
	int enc, spurious, copies; bool reuse; Rng rng; u64 nextTime;
	std::vector<Part> parts; size_t part, ci, fed; bool done;
	std::unique_ptr<textwolf::XmlHdrParser> hp;
	Ref ref;
	Sess() :enc(0),spurious(0),copies(0),reuse(false),rng(1),nextTime(0),part(0),ci(0),fed(0),done(false){}
};

static void execute( const Plan& p)
{
	std::vector<std::unique_ptr<Sess> > ss;
	u64 total = 0;
	for (size_t i=0; i<p.size(); )
	{
		if (p[i].tag != "P") { ++i; continue; }
		Sess* s = new Sess; ss.push_back( std::unique_ptr<Sess>( s));
		s->enc = ENCS[ p[i].numc( 0, 0, 7)];
		s->rng = Rng( (u64)p[i].num( 1)); s->spurious = (int)p[i].numc( 2, 0, 80); s->reuse = p[i].num( 3) != 0; s->copies = (int)p[i].numc( 4, 0, 80);
		++i;
		while (i < p.size() && p[i].tag != "P")
		{
			if (p[i].tag == "C") ++i;
			size_t b = i;
			while (i < p.size() && p[i].tag != "P" && p[i].tag != "C") ++i;
			Part part; std::vector<size_t> hot;
			render( p, b, i, s->enc, part.bytes, hot);
			for (size_t k=b; k<i; ++k) if (p[k].tag == "K") for (i64 c : p[k].n) part.cuts.push_back( c < 0 ? 0 : std::min( (size_t)c, part.bytes.size()));
			std::sort( part.cuts.begin(), part.cuts.end());
			s->parts.push_back( part);
			total += part.bytes.size() + part.cuts.size();
			evs( "header", part.bytes);
		}
		s->done = s->parts.empty();
		s->nextTime = s->rng.below( 50);
		s->hp.reset( new textwolf::XmlHdrParser());
		if (!s->parts.empty()) s->ref = recognise( s->parts[0].bytes);
	}
	BudgetScope bs( 50000 + total * 2000 + total * total * 400);
	u64 t = 0; size_t pieces = 0;
	for (;;)
	{
		Sess* s = 0; size_t which = 0;
		for (size_t i=0; i<ss.size(); ++i) if (!ss[i]->done && (!s || ss[i]->nextTime < s->nextTime)) { s = ss[i].get(); which = i; }
		if (!s) break;
		if (s->nextTime > t) { simTime( s->nextTime - t); t = s->nextTime; }
		s->nextTime = t + 1 + s->rng.below( s->rng.chance( 10) ? 500 : 20);
		ev( "run", which, t);
		Part& part = s->parts[ s->part];
		auto what = [&]() {
			std::string w = fmt( " (%s, pieces ending at", encName( s->enc));
			for (size_t c : part.cuts) if (c <= s->fed || w.size() < 300) w += fmt( " %u", (unsigned)c);
			return w + ") header: \"" + printable( part.bytes.substr( 0, 300)) + "\"";
		};
		if (s->rng.chance( s->copies))
		{
			PROBE( "continued_with_a_copy");
			if (s->rng.chance( 50)) s->hp.reset( new textwolf::XmlHdrParser( *s->hp));
			else { std::unique_ptr<textwolf::XmlHdrParser> c( new textwolf::XmlHdrParser()); *c = *s->hp; s->hp.swap( c); }
		}
		bool again;
		if (s->rng.chance( s->spurious))
		{
			// asked again without new data
			PROBE( "parse_without_new_data");
			Out o = callParse( *s->hp, again);
			Ref rf = recognise( part.bytes.substr( 0, s->fed));
			if (s->fed == 0 ? (o.v != V_More || !o.enc.empty() || !o.err.empty()) : o.v != V_More || o.enc != rf.encoding) fail( "changed-without-data", "without new data the parser reports " + str( o) + what());
			ev( "again", o.v);
			continue;
		}
		size_t end = s->ci < part.cuts.size() ? part.cuts[ s->ci++] : part.bytes.size();
		bool last = s->ci >= part.cuts.size() && end >= part.bytes.size();
		size_t n = end > s->fed ? end - s->fed : 0;
		char* buf = (char*)malloc( n?n:1);
		memcpy( buf, part.bytes.data()+s->fed, n);
		s->hp->putInput( buf, n);
		free( buf);
		s->fed += n; ++pieces;
		if (!n) PROBE( "empty_piece");
		ev( "feed", n);
		Out o = callParse( *s->hp, again);
		evs( "result", str( o));
		std::string prefix = part.bytes.substr( 0, s->fed);
		if (s->hp->consumedData() != prefix) fail( "data-lost", fmt( "%u bytes kept of %u bytes fed", (unsigned)s->hp->consumedData().size(), (unsigned)s->fed) + what());
		// against the model of the whole header
		Verdict expv = s->fed >= s->ref.at && s->ref.v != V_More ? s->ref.v : V_More;
		std::string expe = recognise( prefix).encoding;
		if (o.v != expv) fail( "verdict-differs", fmt( "after %u bytes the parser reports %s, expected %s (decided by byte %u)", (unsigned)s->fed, str( o).c_str(), vname( expv), (unsigned)s->ref.at) + what());
		if (o.enc != expe) fail( "encoding-differs", fmt( "after %u bytes the encoding is \"%s\", declared is \"%s\"", (unsigned)s->fed, o.enc.c_str(), expe.c_str()) + what());
		// the characters counted are those read up to the verdict that are not white space
		{
			size_t cnt = 0, upto = expv == V_More ? s->fed : s->ref.at;
			for (size_t k=0; k<upto; ++k) if ((unsigned char)prefix[k] > 32) ++cnt;
			if (o.consumed != cnt) fail( "count-differs", fmt( "after %u bytes %u characters are reported as consumed, read are %u", (unsigned)s->fed, (unsigned)o.consumed, (unsigned)cnt) + what());
		}
		// against the same prefix at once
		{
			textwolf::XmlHdrParser fresh;
			fresh.putInput( prefix.data(), prefix.size());
			Out w = callParse( fresh, again);
			if (!(o == w)) fail( "delivery-dependent", fmt( "after %u bytes in pieces the parser reports %s; at once %s", (unsigned)s->fed, str( o).c_str(), str( w).c_str()) + what());
		}
		if (o.v != V_More || last)
		{
			if (o.v == V_Done) { PROBE( "header_complete"); if (!o.enc.empty()) PROBE( "encoding_detected"); }
			if (o.v == V_Error) { PROBE( "header_error"); countDyn( "probe.error: " + o.err.substr( 0, 60)); }
			if (o.v == V_Exception) PROBE( "header_exception");
			if (pieces > 1) nontrivial();
			if (o.v == V_Done && s->fed < part.bytes.size())
			{
				// what arrives later changes nothing
				s->hp->putInput( part.bytes.data()+s->fed, part.bytes.size()-s->fed);
				if ((s->hp->encoding() ? s->hp->encoding() : "") != o.enc || s->hp->lasterror()) fail( "changed-later", "result changed by data after the header" + what());
				if (s->hp->consumedData() != part.bytes) fail( "data-lost", "data after the header lost" + what());
			}
			++s->part; s->ci = 0; s->fed = 0;
			if (s->part >= s->parts.size()) { s->done = true; continue; }
			s->ref = recognise( s->parts[ s->part].bytes);
			if (s->reuse)
			{
				PROBE( "parser_reused");
				s->hp->clear();
				if (s->hp->encoding() || s->hp->lasterror() || s->hp->charsConsumed() || !s->hp->consumedData().empty()) fail( "clear-incomplete", "state left after clear()" + what());
			}
			else s->hp.reset( new textwolf::XmlHdrParser());
		}
	}
}
const Property g_property = {"C07", generate, execute};
}//namespace
