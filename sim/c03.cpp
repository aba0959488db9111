// C03: character readers deliver every character exactly, for any history of reader calls and any chunking.
#include "reader.hpp"
#include "sessions.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <memory>
namespace sim {

// plan: S .. K .. (delivery), T "text" (characters), O ops, W 1: text encoded with the library's own encoder
enum {OP_CHR,OP_DEREF,OP_CONTROL,OP_ASCII,OP_COPY,OP_COPYPAGE,OP_PRINT,OP_CLONE,OP_SKIP,OP_POSTINC,OP_NOF};

// ill-formed sequences in a text: 0xD0nnLLFF-like codes of UTF-8 (number of follow bytes, lead byte, follow bytes),
// 0xExxxuuuu of UTF-16 (high surrogate, following unit), 0xF000uuuu (a lone low surrogate)
static bool isIll( char32_t c) { return c >= 0xD0000000u; }
static char32_t genIll( Rng& rng, int enc)
{
	if (enc == E_UTF8)
	{
		if (rng.chance( 30)) return 0xD8000000u | (char32_t)rng.range( 0x80, 0xBF);
		unsigned int lead = rng.chance( 80) ? (unsigned int)rng.range( 0xC2, 0xF4) : (unsigned int)rng.range( 0xC0, 0xFF);
		unsigned int n = lead < 0xE0 ? 0 : lead < 0xF0 ? (unsigned int)rng.range( 0, 1) : (unsigned int)rng.range( 0, 2);
		return 0xD0000000u | (n << 24) | (lead << 16) | ((unsigned int)rng.range( 0x80, 0xBF) << 8) | (unsigned int)rng.range( 0x80, 0xBF);
	}
	if (enc == E_UTF16LE || enc == E_UTF16BE)
	{
		if (rng.chance( 25)) return 0xF0000000u | (char32_t)rng.range( 0xDC00, 0xDFFF);
		char32_t u = rng.chance( 50) ? (char32_t)rng.range( 1, 0xDBFF) : rng.chance( 50) ? (char32_t)rng.range( 0xE000, 0xFFFF) : (char32_t)rng.range( 1, 0xFF) | (rng.chance( 50) ? 0xD800 : 0);
		return 0xE0000000u | ((char32_t)rng.below( 0x400) << 16) | u;
	}
	return 0;
}
static void encodeIll( int enc, char32_t c, bool afterIncomplete, std::string& out)
{
	if (enc == E_UTF8 && c < 0xE0000000u)
	{
		if (c >= 0xD8000000u) { if (!afterIncomplete) out += (char)(0x80 | (c & 0x3F)); return; }
		unsigned int lead = 0xC0 | ((c >> 16) & 0x3F), n = (c >> 24) & 3, max = lead < 0xE0 ? 0 : lead < 0xF0 ? 1 : 2;
		if (n > max) n = max;
		out += (char)lead;
		if (n > 0) out += (char)(0x80 | ((c >> 8) & 0x3F));
		if (n > 1) out += (char)(0x80 | (c & 0x3F));
	}
	if ((enc == E_UTF16LE || enc == E_UTF16BE) && c >= 0xE0000000u)
	{
		unsigned int u[2], n = 0;
		if (c >= 0xF0000000u) u[n++] = 0xDC00 | (c & 0x3FF);
		else { u[n++] = 0xD800 | ((c >> 16) & 0x3FF); u[n] = c & 0xFFFF; if (u[n] == 0 || (u[n] >= 0xDC00 && u[n] < 0xE000)) u[n] = '<'; ++n; }
		for (unsigned int i=0; i<n; ++i) if (enc == E_UTF16LE) { out += (char)(u[i] & 0xFF); out += (char)(u[i] >> 8); } else { out += (char)(u[i] >> 8); out += (char)(u[i] & 0xFF); }
	}
}
static bool sameChar( char32_t got, char32_t exp)
{
	if (!isIll( exp)) return got == exp;
	return got > 0x10FFFF || (got >= 0xD800 && got < 0xE000) || got == 0xFFFF;	// any value that is no character
}

static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 70) ? 1 : (int)rng.range( 2, 3);
	for (int k=0; k<ns; ++k)
	{
		int enc = (int)rng.below( E_NOF);
		ustr t;
		int len = rng.chance( 80) ? (int)rng.range( 0, 14) : (int)rng.range( 15, 80);
		int na = rng.chance( 40) ? 90 : 40;
		for (int i=0; i<len; ++i) t.push_back( rng.chance( 30) ? (char32_t)rng.range( 1, 127) : rng.permille( 12) ? genBeyond( rng) : genChar( rng, rng.chance( 3) ? (int)E_UCS4LE : enc, na));
		if (rng.chance( 15) && (enc == E_UTF8 || enc == E_UTF16LE || enc == E_UTF16BE))
		{
			for (int i=(int)rng.range( 1, 3); i>0; --i) t.insert( t.begin() + rng.below( t.size()+1), genIll( rng, enc));
		}
		std::string bytes; std::vector<size_t> hot;
		for (char32_t c : t) { size_t b = bytes.size(); if (isIll( c)) encodeIll( enc, c, false, bytes); else encodeOut( enc, c, bytes); hot.push_back( b); for (size_t x=b+1; x<bytes.size(); ++x) hot.push_back( x); }
		genDelivery( rng, hot, bytes.size(), unitOf( enc), p, enc, rng.chance( 70) ? SRC_CHUNK : (int)rng.range( 1, 3), 0);
		p.push_back( Rec( "T", {rng.chance( 40)}, {t}));
		Rec o( "O");
		int no = (int)rng.range( 1, 12);
		int swarm = (int)(rng.next() & 0xFF);
		for (int i=0; i<no; ++i)
		{
			int op = rng.chance( 45) ? OP_SKIP : (int)rng.below( OP_NOF);
			if (op < OP_SKIP && !(swarm & (1 << op))) op = OP_SKIP;
			o.n.push_back( op | (i64)(rng.below( 9) << 8) | (i64)(rng.below( E_NOF) << 16));
		}
		p.push_back( o);
	}
	return p;
}

static int refControl( char32_t c)
{
	// textwolf::ControlCharacter
	enum {Undef,EndOfText,EndOfLine,Cntrl,Space,Amp,Lt,Equal,Gt,Slash,Dash,Exclam,Questm,Sq,Dq,Osb,Csb,Any};
	if (c == 0) return EndOfText;
	if (c >= 128) return Undef;
	switch (c)
	{
		case '\n': return EndOfLine; case '\t': case '\r': case ' ': return Space; case '&': return Amp; case '<': return Lt; case '=': return Equal; case '>': return Gt;
		case '/': return Slash; case '-': return Dash; case '!': return Exclam; case '?': return Questm; case '\'': return Sq; case '"': return Dq; case '[': return Osb; case ']': return Csb;
	}
	if (c == 5) return Undef;
	return c < 32 ? Cntrl : Any;
}

struct ReadSession
{
	const SessionSpec& spec;
	ustr text;
	std::string bytes;
	std::vector<size_t> ofs;
	std::vector<i64> ops;
	std::unique_ptr<ReaderBox> rd;
	std::unique_ptr<SimStream> stream;
	char* chunk; size_t fed, cutIdx; int stage;
	size_t idx, opi; int endOps; bool finished; u64 suspensions;
	Rng rng;
	u64 nextTime;
	std::string copied, copiedExp;

	ReadSession( const SessionSpec& sp, const Plan& p) :spec(sp),chunk(0),fed(0),cutIdx(0),stage(0),idx(0),opi(0),endOps(0),finished(false),suspensions(0),rng(sp.dl.arrival),nextTime(0)
	{
		bool own = false;
		ustr t;
		for (size_t i=sp.recB; i<sp.recE; ++i)
		{
			if (p[i].tag == "T") { t = p[i].str( 0); own = p[i].num( 0) != 0; }
			if (p[i].tag == "O") ops = p[i].n;
		}
		if (ops.empty()) ops.push_back( OP_CHR);
		for (char32_t c : t)
		{
			if (isIll( c))
			{
				size_t b = bytes.size();
				encodeIll( sp.encIn, c, !text.empty() && isIll( text.back()), bytes);
				if (bytes.size() > b) { ofs.push_back( b); text.push_back( c); PROBE( "ill_formed_sequence"); }
				continue;
			}
			if (c == 0 || (c > 0x10FFFF && !beyondUnicode( c)) || (c >= 0xD800 && c < 0xE000)) continue;
			// characters without a representation are written as numeric reference
			size_t b = bytes.size();
			std::string exp, got;
			encodeOut( sp.encIn, c, exp);
			if (own)
			{
				printChar( sp.encIn, c, got);
				if (got != exp) fail( "encoding", fmt( "character U+%X in %s: encoded as \"%s\", expected \"%s\"", (unsigned)c, encName( sp.encIn), printable( got).c_str(), printable( exp).c_str()));
			}
			bytes += exp;
			if (representable( sp.encIn, c)) { ofs.push_back( b); text.push_back( c); }
			else
			{
				std::string e = fmt( "&#x%x;", (unsigned)c);
				for (char x : e) { ofs.push_back( b); b += unitOf( sp.encIn); text.push_back( (unsigned char)x); }
			}
		}
		ofs.push_back( bytes.size());
		evs( "text", bytes);
		ScanSource s;
		s.kind = sp.dl.kind;
		s.page = sp.encIn >= E_ISO1 ? pageOf( sp.encIn) : 0;
		if (s.page == 1 && (sp.dl.arrival & 1)) s.page = 0;
		s.setSource = sp.dl.setSource;
		if (s.kind == SRC_CHARP)
		{
			std::string z = bytes; z.append( unitOf( sp.encIn) == 1 ? 1 : 8, '\0');
			s.cptr = chunk = (char*)std::malloc( z.size()); std::memcpy( chunk, z.data(), z.size());
		}
		else if (s.kind == SRC_CSTR)
		{
			chunk = (char*)std::malloc( bytes.size()?bytes.size():1); std::memcpy( chunk, bytes.data(), bytes.size());
			s.str = chunk; s.strsize = bytes.size(); s.chooseCstr( spec.dl.arrival);
		}
		else if (s.kind == SRC_STREAM)
		{
			stream.reset( new SimStream( bytes, sp.dl.cuts)); s.stream = stream.get(); s.bufsize = sp.dl.bufsize;
		}
		rd.reset( makeReader( csOf( sp.encIn), s));
		if (s.kind == SRC_CHUNK) feed();
	}
	~ReadSession() { rd.reset(); std::free( chunk); }
	void feed()
	{
		const Delivery& d = spec.dl;
		std::free( chunk); chunk = 0;
		if (stage >= 2) fail( "asks-for-more", "reader asks for input after the final chunk");
		size_t e; bool last = false;
		if (stage == 1) { e = fed; last = true; stage = 2; }
		else
		{
			e = cutIdx < d.cuts.size() ? std::min( d.cuts[ cutIdx], bytes.size()) : bytes.size();
			if (e < fed) e = fed;
			if (++cutIdx > d.cuts.size()) { e = bytes.size(); if (d.endStyle == 1) stage = 1; else { last = true; stage = 2; } }
		}
		size_t n = e-fed;
		chunk = (char*)std::malloc( n?n:1); std::memcpy( chunk, bytes.data()+fed, n);
		fed = e;
		ev( "feed", n, last);
		if (!last) FAULT( "chunk_boundary");
		if (!last && n == 0) FAULT( "empty_chunk");
		rd->feed( chunk, n, last);
	}
	[[noreturn]] void bad( const char* cls, const std::string& m)
	{
		fail( cls, fmt( "character %u of %u (U+%X) in %s: ", (unsigned)idx, (unsigned)text.size(), idx < text.size() ? (unsigned)text[idx] : 0, encName( spec.encIn)) + m + " text=\"" + printable( bytes.substr( 0, 200)) + "\"");
	}
	void step()
	{
		int n = spec.dl.pumpLimit ? (int)rng.range( 1, spec.dl.pumpLimit) : 64;
		while (n-- > 0 && !finished)
		{
			if (!op())
			{
				++suspensions;
				if (idx < text.size() && fed > ofs[idx] && fed < ofs[idx+1]) { FAULT( "chunk_end_inside_character"); }
				ev( "suspended", idx);
				feed();
				nextTime += rng.below( 100);
				return;
			}
		}
		nextTime += rng.below( 20);
	}
	bool op()
	{
		i64 o = ops[ opi % ops.size()];
		int op = (int)((o & 0xFF) % OP_NOF);
		// bounded: a skip at least with every pass over the operations
		if (op != OP_SKIP && op != OP_POSTINC && opi && opi % ops.size() == 0 && !hasSkip()) op = OP_SKIP;
		bool atEnd = idx >= text.size();
		char32_t c = atEnd ? 0 : text[ idx];
		char32_t rc = 0; int ri = 0;
		if (spec.dl.kind != SRC_CHUNK || !spec.dl.setSource)
		{
			size_t ps = rd->pos();
			if (!atEnd && ps != ofs[ idx]) bad( "reader-position", fmt( "position %u, expected %u", (unsigned)ps, (unsigned)ofs[ idx]));
		}
		if (atEnd && (op == OP_SKIP || op == OP_POSTINC)) op = OP_CONTROL;
		g_what = "TextScanner operation";
		switch (op)
		{
			case OP_CHR: if (!rd->chr( rc)) return false; if (!sameChar( rc, c)) bad( "character", fmt( "chr() returns U+%X", (unsigned)rc)); break;
			case OP_DEREF: if (!rd->deref( rc)) return false; if (!sameChar( rc, c)) bad( "character", fmt( "operator* returns U+%X", (unsigned)rc)); break;
			case OP_CONTROL: if (!rd->control( ri)) return false; if (isIll( c) ? (ri != 0 && ri != refControl( 'a')) : ri != refControl( c)) bad( "control-class", fmt( "control() returns %d, expected %d", ri, refControl( c))); break;
			case OP_ASCII: if (!rd->ascii( ri)) return false; if (ri != (c < 128 ? (int)c : 0)) bad( "ascii", fmt( "ascii() returns %d", ri)); break;
			case OP_COPY: case OP_COPYPAGE:
			{
				if (atEnd || isIll( c)) break;
				std::string out = "#";
				int oenc = spec.encIn;
				if (op == OP_COPYPAGE && oenc >= E_ISO1) oenc = E_ISO1 + (int)((o>>8)&0xFF) % 9;
				if (!rd->copychar( oenc >= E_ISO1 ? pageOf( oenc) : 0, out)) { if (out != "#") bad( "copy", "copychar interrupted at the end of the chunk has already written something"); return false; }
				std::string exp = "#"; encodeOut( oenc, c, exp);
				if (out != exp) bad( "copy", fmt( "copychar to %s writes \"%s\", expected \"%s\"", encName( oenc), printable( out).c_str(), printable( exp).c_str()));
				break;
			}
			case OP_PRINT:
			{
				if (atEnd || isIll( c)) break;
				if (!rd->chr( rc)) return false;
				int oenc = (int)((o>>16)&0xFF) % E_NOF;
				std::string out, exp;
				printChar( oenc, rc, out); encodeOut( oenc, c, exp);
				if (out != exp) bad( "encoding", fmt( "printed to %s as \"%s\", expected \"%s\"", encName( oenc), printable( out).c_str(), printable( exp).c_str()));
				break;
			}
			case OP_CLONE:
			{
				std::unique_ptr<ReaderBox> cl;
				if (spec.dl.kind == SRC_STREAM) break;		// copies share the stream
				cl.reset( rd->clone());
				PROBE( "reader_cloned");
				if (o & 0x100) std::swap( cl, rd);
				else if (o & 0x200) { rd->assign( *cl); }
				// using the copy must not influence the other one
				char32_t x; if (cl->chr( x) && !sameChar( x, c)) bad( "copy-of-reader", fmt( "copy returns U+%X", (unsigned)x));
				if (!atEnd && cl->skip() && cl->chr( x) && !sameChar( x, idx+1 < text.size() ? text[idx+1] : 0)) bad( "copy-of-reader", fmt( "copy returns U+%X as next character", (unsigned)x));
				break;
			}
			case OP_SKIP:
				if (!rd->skip()) return false;
				++idx;
				break;
			case OP_POSTINC:
			{
				bool known;
				if (!rd->postinc( rc, known)) return false;
				if (known && !sameChar( rc, c)) bad( "character", fmt( "value of postincrement is U+%X", (unsigned)rc));
				++idx;
				break;
			}
		}
		ev( "op", op, idx);
		++opi;
		if (atEnd && ++endOps > 3 + (int)ops.size()) finished = true;
		return true;
	}
	bool hasSkip() const { for (i64 o : ops) { int k = (int)((o&0xFF)%OP_NOF); if (k == OP_SKIP || k == OP_POSTINC) return true; } return false; }
};

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<ReadSession> > ss;
	for (auto& sp : specs) ss.push_back( std::unique_ptr<ReadSession>( new ReadSession( sp, p)));
	for (;;)
	{
		ReadSession* best = 0;
		for (auto& s : ss) if (!s->finished && (!best || s->nextTime < best->nextTime)) best = s.get();
		if (!best) break;
		if (best->nextTime > now()) simTime( best->nextTime - now());
		best->step();
	}
	for (auto& s : ss) if (s->text.size() > 1 && (s->suspensions > 1 || s->spec.dl.kind == SRC_STREAM)) nontrivial();
}
const Property g_property = {"C03", generate, execute};
}//namespace
