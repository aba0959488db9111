#include "xmlgen.hpp"
#include <algorithm>
#include <cstring>

namespace sim {

bool isDocRec( const Rec& r) { return r.tag.size() == 2 && r.tag[0] == 'd' && std::strchr( "hdoctmpxr", r.tag[1]); }

ustr genName( Rng& rng, int enc, int nonAsciiPct, int maxlen)
{
	ustr n;
	int len = rng.chance( 3) ? (int)rng.range( 9, 40) : (int)rng.range( 1, maxlen);
	static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
	for (int i=0; i<len; ++i)
	{
		if (i==0 && !rng.chance( nonAsciiPct)) n.push_back( (unsigned char)A[ rng.below( sizeof(A)-1)]);
		else if (i && rng.chance( 4)) n.push_back( U'-');
		else n.push_back( genChar( rng, enc, nonAsciiPct));
	}
	return n;
}

ustr genText( Rng& rng, int enc, const GenOpts& o, int maxlen)
{
	ustr t;
	int len = (int)rng.range( 1, maxlen);
	for (int i=0; i<len; ++i)
	{
		if (rng.chance( o.eolPct)) { t.push_back( U'\n'); continue; }
		if (rng.chance( 8)) { t.push_back( U' '); continue; }
		if (rng.chance( 2)) { t.push_back( U'\t'); continue; }
		if (rng.chance( 6)) { static const char P[] = "&<>\"'=/-!?[];#]>x%"; t.push_back( (unsigned char)P[ rng.below( sizeof(P)-1)]); continue; }
		// characters outside of the encoding are written as numeric entities
		if (rng.chance( 2)) { t.push_back( genChar( rng, E_UCS4LE, 100)); continue; }
		if (rng.permille( 5)) { t.push_back( U'\r'); continue; }	// must be written as entity
		if (rng.permille( 5)) { t.push_back( 5); continue; }
		if (rng.permille( 8)) { t.push_back( 0x110000 + (char32_t)rng.below( 27)); continue; }	// malformed reference
		if (rng.permille( 3)) { t.push_back( genBeyond( rng)); continue; }
		t.push_back( genChar( rng, enc, o.nonAsciiPct));
	}
	return t;
}

// references that are none: the scanner has to report them as they are (code 0x110000+index in texts)
static const char* const g_verbatim[] = {
	"& ", "&foo ", "&#xZ", "&#12a;", "&#x12g;", "&# ", "&#a", "&#xg;", "&#4294967296;", "&#x100000000;", "&#99999999999999;", "&#12345678901234567;",
	"&abcdefghijklmnopqr;", "&lt ", "&a-b;", "&a=b;", "&amp/;", "&#x41 ", "&#65 ", "&#X41;", "&-", "&?", "&#xfffffffffffff;", "&#9999999999;", "&abcdefghijklmno ", "&#-1;", "&x!y;",
	"&#x10000000000000041;", "&#18446744073709551681;", "&#x1000000000000000000000041;", "&#123456789012345678901234567890;", "&#12345678901234567x;", "&#xffffffffffffffff"
};
enum {NofVerbatim = sizeof(g_verbatim)/sizeof(g_verbatim[0])};

EntityTab genEntities( Rng& rng, int n)
{
	EntityTab tab;
	for (int i=0; i<n; ++i)
	{
		std::string name;
		int len = rng.chance( 20) ? 15 : (int)rng.range( 1, 8);
		static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.";
		for (int k=0; k<len; ++k) name += A[ rng.below( k?sizeof(A)-1:52)];
		if (rng.chance( 10)) name = rng.pick( std::vector<std::string>{"a","am","ampx","q","quo","l","ltt","g","nbs","apo","aposs","gtt","n"});
		if (!tab.ent.empty() && rng.chance( 35))	// names that have much in common
		{
			name = tab.ent[ rng.below( tab.ent.size())].first;
			switch (rng.below( 4))
			{
				case 0: name = name.substr( 0, 1 + rng.below( name.size())); break;
				case 1: if (name.size() < 15) name += (char)rng.range( 'a', 'z'); break;
				case 2: name[ name.size()-1] = (char)rng.range( 'a', 'z'); break;
				default: name[ rng.below( name.size())] ^= 0x20; if (!isalpha( (unsigned char)name[0])) name[0] = 'k'; for (char& x : name) if (!isalnum( (unsigned char)x) && x != '_' && x != '.') x = 'z'; break;
			}
		}
		static const char* pre[] = {"quot","amp","apos","lt","gt","nbsp"};
		bool bad = false;
		for (auto p : pre) if (name == p) bad = true;
		for (auto& e : tab.ent) if (e.first == name) bad = true;
		if (bad) continue;
		tab.ent.push_back( std::make_pair( name, (u64)genChar( rng, E_UCS4LE, 60)));
	}
	return tab;
}

void genDoc( Rng& rng, int enc, const GenOpts& o, Plan& out)
{
	GenOpts opt = o;
	int n = (int)rng.range( 1, opt.maxNodes);
	std::vector<ustr> stack;
	std::vector<ustr> names;
	for (int i=0; i<4; ++i) names.push_back( genName( rng, enc, opt.nameNonAsciiPct));
	auto name = [&]() -> ustr { return rng.chance( 70) ? rng.pick( names) : genName( rng, enc, opt.nameNonAsciiPct); };
	auto style = [&]() -> i64 { return rng.chance( 30) ? 0 : (i64)rng.below( 1000000); };
	auto addAttribs = [&]( Rec& r, int maxn)
	{
		int k = (int)rng.below( maxn+1);
		for (int i=0; i<k; ++i)
		{
			r.s.push_back( name());
			GenOpts ao = opt; ao.eolPct = 2;
			r.s.push_back( rng.chance( 5) ? ustr() : rng.chance( 30) ? genName( rng, enc, opt.nameNonAsciiPct) : genText( rng, enc, ao, 12));
			r.n.push_back( (i64)rng.below( 3));
		}
	};
	if (opt.header && rng.chance( 50))
	{
		Rec r( "dh", {style()});
		if (rng.chance( 50))
		{
			r.s.push_back( asciiU( "version")); r.s.push_back( asciiU( "1.0")); r.n.push_back( (i64)rng.below( 3));
			if (rng.chance( 60)) { r.s.push_back( asciiU( "encoding")); r.s.push_back( asciiU( "UTF-8")); r.n.push_back( (i64)rng.below( 3)); }
		}
		else addAttribs( r, 3);
		out.push_back( r);
	}
	bool started = false;
	for (int i=0; i<n; ++i)
	{
		int k = (int)rng.below( 100);
		if (k < 34 || !started)
		{
			if (!started && opt.comments && rng.chance( 10)) k = 80;
			else if (!started && opt.doctype && rng.chance( 25)) k = 95;
			else
			{
				started = true;
				bool self = rng.chance( 25);
				Rec r( "do", {style(), self?1:0});
				ustr nm = name();
				r.s.push_back( nm);
				addAttribs( r, 4);
				if (!self) stack.push_back( nm);
				out.push_back( r);
				continue;
			}
		}
		if (k < 64) { GenOpts to = opt; out.push_back( Rec( "dt", {style()}, {genText( rng, enc, to, rng.chance( 10) ? 60 : 14)})); }
		else if (k < 78) { ustr nm = stack.empty() || (!opt.balanced && rng.chance( 3)) ? name() : stack.back(); if (!stack.empty()) stack.pop_back(); else if (opt.balanced) continue; out.push_back( Rec( "dc", {style()}, {nm})); }
		else if (k < 84 && opt.comments) { out.push_back( Rec( "dm", {}, {genText( rng, enc, opt, 16)})); }
		else if (k < 90 && opt.pi) { out.push_back( Rec( "dp", {}, {genName( rng, enc, 0) + asciiU(" ") + genText( rng, enc, opt, 12)})); }
		else if (k < 94 && opt.cdata) { out.push_back( Rec( "dx", {}, {genText( rng, enc, opt, 16)})); }
		else if (k < 100 && opt.doctype)
		{
			Rec r( "dd", {style(), (i64)rng.below( 4)});
			if (rng.chance( 80)) r.s.push_back( asciiU( "DOCTYPE"));
			int c = (int)rng.below( 4);
			for (int q=0; q<c; ++q) { r.s.push_back( rng.chance( 50) ? genName( rng, enc, opt.nameNonAsciiPct) : genText( rng, enc, opt, 10)); r.n.push_back( (i64)rng.below( 3)); }
			if (r.s.empty()) r.s.push_back( asciiU( "ELEMENT"));
			out.push_back( r);
		}
	}
	if (opt.balanced || rng.chance( 60)) while (!stack.empty()) { out.push_back( Rec( "dc", {style()}, {stack.back()})); stack.pop_back(); }
	if (opt.bigPermille && rng.below( 1000) < (u64)opt.bigPermille)
	{
		auto amount = [&]( i64 mx) -> i64 { mx = std::min<i64>( mx, opt.bigMax); i64 v = rng.range( 2, 40); while (v < mx && rng.chance( 70)) v *= 2; return std::min( v, mx); };
		switch (rng.below( 5))
		{
			case 0: case 1:			// long token
			{
				size_t k = (size_t)rng.below( out.size());
				out.insert( out.begin() + k+1, Rec( "dr", {amount( 20000), 0, 1}));
				break;
			}
			case 2:				// many attributes
			{
				std::vector<size_t> c;
				for (size_t k=0; k<out.size(); ++k) if (out[k].s.size() > 1) c.push_back( k);
				if (!c.empty()) out.insert( out.begin() + rng.pick( c)+1, Rec( "dr", {amount( opt.bigMax < 1000 ? 12 : 600), 0, 2}));
				break;
			}
			case 3:				// deep nesting
			{
				i64 depth = amount( 1500);
				ustr nm = name();
				Rec r( "do", {style(), 0}); r.s.push_back( nm); addAttribs( r, 1);
				out.push_back( r);
				out.push_back( Rec( "dr", {depth, 1, 0}));
				if (rng.chance( 80)) out.push_back( Rec( "dt", {style()}, {genText( rng, enc, opt, 10)}));
				out.push_back( Rec( "dc", {style()}, {nm}));
				if (rng.chance( 50)) out.push_back( Rec( "dt", {style()}, {genText( rng, enc, opt, 10)}));
				i64 len = out.back().tag == "dt" ? 2 : 1;
				out.push_back( Rec( "dr", {depth, len, 0}));
				break;
			}
			case 4:				// many elements
			{
				Rec r( "do", {style(), 1}); r.s.push_back( name()); addAttribs( r, 2);
				out.push_back( r);
				out.push_back( Rec( "dt", {style()}, {genText( rng, enc, opt, 20)}));
				out.push_back( Rec( "dr", {amount( 1000), 2, 0}));
				break;
			}
		}
	}
}

// Carry out the repetitions
static bool expandDoc( const Plan& p, size_t b, size_t e, Plan& out)
{
	bool any = false;
	for (size_t i=b; i<e && !any; ++i) any = p[i].tag == "dr";
	if (!any) return false;
	size_t total = 0;
	for (size_t i=b; i<e; ++i)
	{
		if (!isDocRec( p[i])) continue;
		if (p[i].tag != "dr") { out.push_back( p[i]); continue; }
		if (out.empty()) continue;
		size_t count = (size_t)p[i].numc( 0, 0, 20000), len = (size_t)p[i].numc( 1, 1, 8);
		int what = (int)p[i].numc( 2, 0, 2);
		Rec& last = out.back();
		if (what == 1)
		{
			if (last.s.empty()) continue;
			ustr t = last.s.back(), r = t;
			for (size_t k=0; k<count && r.size() < 70000; ++k) r += t;
			last.s.back() = r;
			PROBE( "long_token");
		}
		else if (what == 2)
		{
			if (last.tag == "dd" || last.tag == "dh") continue;
			size_t at = last.tag == "do" ? 1 : last.s.size();
			std::vector<ustr> a( last.s.begin() + std::min( at, last.s.size()), last.s.end());
			if (a.size() < 2) continue;
			if (a.size() % 2) a.pop_back();
			last.s.resize( at + a.size());
			for (size_t k=0; k<count && last.s.size() < 2000; ++k) last.s.insert( last.s.end(), a.begin(), a.end());
			PROBE( "many_attributes");
		}
		else
		{
			len = std::min( len, out.size());
			Plan seg( out.end()-len, out.end());
			for (size_t k=0; k<count && total < 4000; ++k) for (auto& r : seg)
			{
				out.push_back( r); ++total;
				if (r.num( 0) && !out.back().n.empty()) out.back().n[0] = r.n[0] + (i64)(k+1) * 7919;
			}
			PROBE( "many_elements");
		}
	}
	return true;
}

namespace {
struct Render
{
	DocModel& m;
	const EntityTab* ents;
	u64 sty;
	bool cr;		// last raw character written was a carriage return
	Render( DocModel& m_, const EntityTab* e) :m(m_),ents(e),sty(0),cr(false){}

	u64 dice( u64 n) { if (!sty) return 0; sty = mix64( sty); return sty % n; }
	void raw( char32_t c) { encodeRaw( m.enc, c, m.bytes); cr = (c == '\r'); }
	void rawz( const char* s) { for (;*s;++s) raw( (unsigned char)*s); }
	void hot() { m.hot.push_back( m.bytes.size()); }
	size_t pos() const { return m.bytes.size(); }
	void ws( int minc)
	{
		int n = minc + (int)(sty ? (dice( 4) == 0 ? dice( 3) : 0) : 0);
		for (int i=0; i<n; ++i)
		{
			static const char W[] = " \t\n\r";
			raw( (unsigned char)W[ dice( 4)]);
			if (dice( 4)==0) hot();
		}
	}
	// write one character as entity
	void entity( char32_t c)
	{
		hot();
		std::string e;
		u64 k = dice( 6);
		if (k < 3)
		{
			const char* nm = c=='<'?"lt":c=='>'?"gt":c=='&'?"amp":c=='"'?"quot":c=='\''?"apos":(c==' '&&k==2)?"nbsp":0;
			if (nm) { e = std::string("&") + nm + ";"; }
		}
		if (e.empty() && ents && k < 5)
		{
			for (auto& x : ents->ent) if (x.second == c) { e = "&" + x.first + ";"; break; }
		}
		if (e.empty())
		{
			if (dice( 2)) { e = fmt( dice(2) ? "%X" : "%x", (unsigned)c); u64 z = dice( 8)==0 ? dice( 16-e.size()) : 0; e = "&#x" + std::string( z, '0') + e + ";"; }
			else { e = fmt( "%u", (unsigned)c); u64 z = dice( 8)==0 ? dice( 16-e.size()) : 0; e = "&#" + std::string( z, '0') + e + ";"; }
		}
		size_t mid = (size_t)dice( e.size());
		for (size_t i=0; i<e.size(); ++i) { if (i==mid) hot(); raw( (unsigned char)e[i]); }
		hot();
	}
	// write text so that the scanner must report exactly 't'
	void text( const ustr& t, const char* mustEscape, int entPct, ustr& exp)
	{
		for (char32_t c : t)
		{
			if (c == 0) continue;
			if (c >= 0x110000 && c < 0x110000 + NofVerbatim)
			{
				PROBE( "malformed_reference");
				hot();
				for (const char* v = g_verbatim[ c-0x110000]; *v; ++v) { raw( (unsigned char)*v); exp.push_back( (unsigned char)*v); if (dice( 4)==0) hot(); }
				continue;
			}
			bool esc = (c < 128 && std::strchr( mustEscape, (char)c)) || !representable( m.enc, c) || c == '\r';
			if (!esc && entPct && sty && dice( 100) < (u64)entPct) esc = true;
			if ((c > 0x10FFFF && !beyondUnicode( c)) || (c >= 0xD800 && c < 0xE000)) continue;
			if (!esc && ents && sty && dice( 3) == 0) { for (auto& x : ents->ent) if (x.second == c) esc = true; }
			if (esc) { entity( c); exp.push_back( c); continue; }
			if (c == '\n')
			{
				u64 k = dice( 3);
				if (k == 0 && cr) k = 1;
				if (k == 0) raw( '\n');
				else if (k == 1) { raw( '\r'); hot(); raw( '\n'); }
				else { raw( '\r'); hot(); }
				exp.push_back( '\n');
				continue;
			}
			if (c >= 128) { size_t p0 = pos(); raw( c); if (sty && pos() - p0 > 1) m.hot.push_back( p0+1+dice( pos()-p0-1)); }
			else raw( c);
			exp.push_back( c);
		}
		cr = false;
	}
	static bool isTagChar( char32_t c)
	{
		if (c >= 128 || c == '-') return true;
		if (c <= 32) return false;
		return std::strchr( "&<=>/!?'\"[]", (char)c) == 0;
	}
	// restrict a string to characters of an identifier
	ustr ident( const ustr& s, const char* dflt)
	{
		ustr r;
		for (char32_t c : s) if (c <= 0x10FFFF && isTagChar( c) && representable( m.enc, c)) r.push_back( c);
		if (r.empty()) r = asciiU( dflt);
		return r;
	}
	ExpItem& item( int type) { m.items.push_back( ExpItem( type)); return m.items.back(); }

	// identifier token; its availability is set when the next character is written
	size_t identItem( int type, const ustr& name)
	{
		ExpItem x( type); x.text = name; x.hasPos = true; x.tokpos = pos();
		for (char32_t c : name) raw( c);
		m.items.push_back( x);
		return m.items.size()-1;
	}
	void availNow( size_t idx) { m.items[ idx].avail = pos(); }

	// attribute value; returns index if availability is still open (unquoted)
	long value( int type, const ustr& v, int quoting, int entPct, const char* alsoEscape)
	{
		bool plain = quoting == 2 && !v.empty();
		for (char32_t c : v) if (!isTagChar( c) || !representable( m.enc, c)) plain = false;
		if (plain)
		{
			hot();
			return (long)identItem( type, v);
		}
		char q = quoting == 1 ? '\'' : '"';
		raw( (unsigned char)q);
		hot();
		ExpItem x( type); x.hasPos = true; x.tokpos = pos();
		std::string esc = std::string("<&") + q + alsoEscape;
		text( v, esc.c_str(), entPct, x.text);
		hot();
		raw( (unsigned char)q);
		x.avail = pos();
		m.items.push_back( x);
		return -1;
	}
};
}//anon

static void renderRecs( const Plan& p, size_t b, size_t e, int enc, const EntityTab* ents, DocModel& m);
void renderDoc( const Plan& p, size_t b, size_t e, int enc, const EntityTab* ents, DocModel& m)
{
	Plan big;
	if (expandDoc( p, b, e, big)) renderRecs( big, 0, big.size(), enc, ents, m);
	else renderRecs( p, b, e, enc, ents, m);
}

static void renderRecs( const Plan& p, size_t b, size_t e, int enc, const EntityTab* ents, DocModel& m)
{
	m.enc = enc; m.bytes.clear(); m.items.clear(); m.hot.clear(); m.spans.clear();
	Render r( m, ents);
	bool atStart = true;		// before the first markup
	bool skipws = false;		// leading white space is not reported here (after header, comment, document attributes)
	long openText = -1;		// index of the content item being built
	bool lastWasHeader = false;
	for (size_t i=b; i<e; ++i)
	{
		const Rec& rec = p[i];
		if (!isDocRec( rec)) continue;
		char k = rec.tag[1];
		r.sty = (u64)rec.num( 0);
		if (r.sty) r.sty = mix64( r.sty);
		r.hot();
		if (k == 't')
		{
			if (atStart) continue;		// text is not allowed here
			ustr t = rec.str( 0);
			if (openText < 0)
			{
				if (skipws) while (!t.empty() && (t[0] <= 32 && t[0] != 5)) t.erase( 0, 1);
				if (t.empty()) continue;
				ExpItem x( I_Content); x.hasPos = true; x.tokpos = r.pos();
				// white space in front of it in the source is not part of the token
				if (skipws && r.sty && r.dice( 2)) { r.ws( 1); x.tokpos = r.pos(); }
				r.text( t, "<&", 12, x.text);
				if (x.text.empty()) continue;
				m.items.push_back( x);
				openText = (long)m.items.size()-1;
			}
			else
			{
				// a text run continues; "\r" + "\n" at the seam would be one end of line
				ExpItem& x = m.items[ openText];
				bool endsCr = !m.bytes.empty() && x.text.size() && x.text.back() == '\n';
				r.cr = endsCr;
				r.text( t, "<&", 12, x.text);
			}
			continue;
		}
		if (atStart && (k == 'c' || k == 'p' || k == 'x')) continue;	// not allowed before the first tag
		if (k == 'h' && (!atStart || lastWasHeader)) continue;		// only at the start
		if (k == 'h' && !m.bytes.empty()) continue;
		if (skipws && openText < 0 && r.sty && r.dice( 3) == 0 && !atStart) r.ws( 1);
		if (atStart && m.bytes.empty() && k != 'h' && r.sty && r.dice( 10) == 0) r.ws( 1);
		size_t spanStart = r.pos();
		r.raw( '<');
		if (openText >= 0) { m.items[ openText].avail = r.pos(); openText = -1; }
		r.hot();
		skipws = false;
		if (k == 'h')
		{
			r.rawz( "?xml");
			ExpItem x( I_HeaderStart); x.text = asciiU( "?xml");
			m.items.push_back( x);
			long open = (long)m.items.size()-1;
			bool needws = true;
			for (size_t a=0; a+1 < rec.s.size(); a += 2)
			{
				r.ws( needws?1:0);
				if (open >= 0) { /* first blank after the token was written */ }
				if (open >= 0) { r.m.items[ open].avail = 0; open = -1; }
				size_t nmidx = r.identItem( I_HeaderAttribName, r.ident( rec.s[a], "n"));
				r.ws( 0);
				r.raw( '=');
				(void)nmidx;
				r.ws( 0);
				open = r.value( I_HeaderAttribValue, rec.s[a+1], (int)rec.numc( 1+a/2, 0, 2), 10, "");
				needws = true;
			}
			r.ws( 0);
			r.raw( '?');
			r.hot();
			r.raw( '>');
			ExpItem z( I_HeaderEnd); z.avail = r.pos();
			m.items.push_back( z);
			lastWasHeader = true; atStart = false; skipws = true;
			// text right after the header is allowed by the scanner
		}
		else if (k == 'd')
		{
			r.raw( '!');
			long open = -1;
			for (size_t a=0; a<rec.s.size(); ++a)
			{
				if (a) r.ws( 1);
				if (a==0)
				{
					ustr nm = r.ident( rec.s[0], "X");
					// must neither look like a comment nor like CDATA
					if (nm[0] == '-') nm[0] = 'X';
					r.identItem( I_DocAttribValue, nm);
				}
				else open = r.value( I_DocAttribValue, rec.s[a], (int)rec.numc( 1+a, 0, 2), 6, "");
			}
			(void)open;
			if (rec.s.empty()) r.identItem( I_DocAttribValue, asciiU( "X"));
			if (rec.numc( 1, 0, 3) == 3)
			{
				r.ws( 1);
				r.raw( '[');
				ustr dummy;
				// internal subset: skipped by the scanner
				for (char32_t c : asciiU( "<!ENTITY x 'y'> <!-- > -->\n")) { r.raw( c); if (r.dice( 8)==0) r.hot(); }
				r.raw( ']');
			}
			r.ws( 0);
			r.raw( '>');
			ExpItem z( I_DocAttribEnd); z.avail = r.pos();
			m.items.push_back( z);
			atStart = false; skipws = true;
		}
		else if (k == 'o')
		{
			r.identItem( I_OpenTag, r.ident( rec.str( 0), "t"));
			if (r.m.items.back().text[0] == '!' || r.m.items.back().text[0] == '?') {}
			long open = -1;
			for (size_t a=1; a+1 < rec.s.size(); a += 2)
			{
				r.ws( 1);
				r.identItem( I_TagAttribName, r.ident( rec.s[a], "n"));
				r.ws( 0);
				r.raw( '=');
				r.ws( 0);
				open = r.value( I_TagAttribValue, rec.s[a+1], (int)rec.numc( 2+a/2, 0, 2), 10, "");
			}
			(void)open;
			r.ws( 0);
			if (rec.num( 1))
			{
				r.raw( '/');
				r.hot();
				ExpItem z( I_CloseTagIm);
				r.raw( '>');
				z.avail = r.pos();
				m.items.push_back( z);
			}
			else r.raw( '>');
			atStart = false;
		}
		else if (k == 'c')
		{
			r.raw( '/');
			r.hot();
			r.identItem( I_CloseTag, r.ident( rec.str( 0), "t"));
			r.ws( 0);
			r.raw( '>');
		}
		else if (k == 'm')
		{
			r.rawz( "!--");
			char32_t prev = '-';
			for (char32_t c : rec.str( 0))
			{
				if (c == 0 || !representable( enc, c)) continue;
				if (c == '-' && prev == '-') continue;
				r.raw( c); prev = c;
				if (c == '-') r.hot();
			}
			if (prev == '-') r.raw( ' ');
			r.rawz( "-"); r.hot(); r.rawz( "-"); r.hot(); r.rawz( ">");
			atStart = false; skipws = true;
		}
		else if (k == 'p')
		{
			r.raw( '?');
			ustr t = rec.str( 0);
			char32_t prev = 0;
			bool first = true;
			for (char32_t c : t)
			{
				if (c == 0 || !representable( enc, c)) continue;
				if (first && !isalpha( (int)(c&0x7F))) c = 'p';
				first = false;
				if (c == '>' && prev == '?') continue;
				r.raw( c); prev = c;
				if (c == '?') r.hot();
			}
			if (first) r.raw( 'p');
			r.raw( '?'); r.hot(); r.raw( '>');
		}
		else if (k == 'x')
		{
			r.rawz( "![CDATA[");
			char32_t p1 = 0, p2 = 0;
			for (char32_t c : rec.str( 0))
			{
				if (c == 0 || !representable( enc, c)) continue;
				if (c == '>' && p1 == ']' && p2 == ']') continue;
				r.raw( c); p2 = p1; p1 = c;
				if (c == ']') r.hot();
			}
			r.raw( ']'); r.hot(); r.raw( ']'); r.hot(); r.raw( '>');
		}
		r.cr = false;
		m.spans.push_back( std::make_pair( spanStart, r.pos()));
	}
	// availability of tokens that end with the following character: one unit after their last byte
	for (size_t i=0; i<m.items.size(); ++i)
	{
		ExpItem& x = m.items[i];
		if (x.avail == 0)
		{
			if (x.type == I_Content) x.avail = m.bytes.size()+1;	// ends with the input
			else
			{
				size_t len = 0;
				std::string s; for (char32_t c : x.text) encodeRaw( enc, c, s);
				len = s.size();
				if (x.type == I_HeaderStart) x.avail = len + 2*unitOf( enc);	// '<' + token + next
				else x.avail = x.tokpos + len + unitOf( enc);
			}
		}
	}
}
}//namespace
