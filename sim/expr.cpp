#include "expr.hpp"
#include <algorithm>
#include <cstring>
namespace sim {

static bool nameChar( char32_t c)
{
	if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
	if (c >= 128) return true;
	if (c <= 32) return false;
	return std::strchr( "&<>=/-!?'\"[]*~(){}@,;:#", (char)c) == 0;
}
static size_t keyLimit( const ustr& s, size_t maxKey)
{
	// long ones only of characters that are never written as entities
	for (char32_t c : s) if (c <= 32 || c >= 127 || c == '&' || c == '<') return std::min<size_t>( maxKey, 60);
	return maxKey;
}
static ustr cleanName( const ustr& s, const char* dflt, size_t maxKey)
{
	ustr r;
	size_t mx = keyLimit( s, maxKey);
	for (char32_t c : s) if (nameChar( c) && r.size() < mx) r.push_back( c);
	return r.empty() ? asciiU( dflt) : r;
}
static ustr cleanValue( const ustr& s, size_t maxKey)
{
	ustr r;
	size_t mx = keyLimit( s, maxKey);
	for (char32_t c : s)
	{
		if ((c > 0x10FFFF && !beyondUnicode( c)) || (c >= 0xD800 && c < 0xE000) || c < 32 || c == ':') continue;
		if (r.size() < mx) r.push_back( c);
	}
	return r;
}

bool exprFromRec( const Rec& r, bool headers, RExpr& e, size_t maxKey)
{
	e = RExpr();
	e.type = (int)r.numc( 0, 1, 1000000);
	e.api = r.num( 1) != 0;
	e.out = (int)r.numc( 2, 0, 2);
	e.outFollow = r.num( 3) != 0;
	e.rkind = (int)r.numc( 4, 0, R_NOF-1);
	e.a = (int)r.numc( 5, 0, 99999999);
	e.b = (int)r.numc( 6, 0, 99999998);
	e.style = (u64)r.num( 7);
	size_t si = 0;
	int product = 1;
	for (size_t i=8; i+3<r.n.size() && e.steps.size() < 8; i+=4)
	{
		RStep s;
		s.kind = (int)r.numc( i, 0, P_NOF-1);
		s.follow = r.num( i+1) != 0;
		int nn = (int)r.numc( i+2, 0, 4);
		s.anyValue = r.num( i+3) != 0 && e.api;
		if (s.kind == P_CLOSE) { nn = 0; s.follow = false; }
		if (s.kind == P_COND)
		{
			if (!nn && !e.api) nn = 1;
			if (nn > 1) nn = 1;
		}
		if (nn > 1 && (product *= nn) > 64) { product /= nn; nn = 1; }
		for (int k=0; k<nn; ++k) s.names.push_back( cleanName( r.str( si++), "n", maxKey));
		if (s.kind == P_COND) { ustr v = cleanValue( r.str( si++), maxKey); if (!s.anyValue) s.value = v; }
		// only one quoting style is possible in expression strings
		if (!e.api && std::count( s.value.begin(), s.value.end(), U'"') && std::count( s.value.begin(), s.value.end(), U'\''))
			s.value.erase( std::remove( s.value.begin(), s.value.end(), U'"'), s.value.end());
		if (s.value.empty() && !e.api) s.value = asciiU( "v");
		e.steps.push_back( s);
		if (s.kind == P_CLOSE || s.kind == P_ATTR) break;	// these end an expression
	}
	if (!e.steps.empty() && e.steps[0].kind == P_CLOSE) e.steps.clear();
	if (e.steps.empty()) { RStep s; s.kind = P_TAG; e.steps.push_back( s); }
	int lastk = e.steps.back().kind;
	if (lastk == P_ATTR) { e.out = O_ATTRVALUE; e.outFollow = false; e.rkind = 0; }
	else if (lastk == P_CLOSE) { e.out = O_NONE; e.outFollow = false; e.rkind = 0; }
	else if (e.out != O_CONTENT) { e.out = O_NONE; e.outFollow = false; e.rkind = 0; }
	if (!e.api && e.rkind >= R_TO) e.rkind = R_NONE;
	// an end of the header is reported like a tag; expressions that would select it are left out
	if (headers) for (auto& s : e.steps) if (s.kind == P_TAG && s.names.empty()) s.names.push_back( asciiU( "x"));
	return true;
}

Rec exprToRec( const RExpr& e)
{
	Rec r( "p", {(i64)e.type, e.api, e.out, e.outFollow, e.rkind, e.a, e.b, (i64)(e.style & 0xFFFFFFF)});
	for (auto& s : e.steps)
	{
		r.n.push_back( s.kind); r.n.push_back( s.follow); r.n.push_back( (i64)s.names.size()); r.n.push_back( s.anyValue);
		for (auto& n : s.names) r.s.push_back( n);
		if (s.kind == P_COND) r.s.push_back( s.value);
	}
	return r;
}

std::string exprToString( const RExpr& e, int enc)
{
	std::string out;
	u64 sty = e.style;
	auto dice = [&]( unsigned n) -> unsigned { if (!e.style) return 0; sty = mix64( sty+7); return (unsigned)(sty % n); };
	auto raw = [&]( char32_t c) { encodeRaw( enc, c, out); };
	auto rawz = [&]( const char* s) { for (; *s; ++s) raw( (unsigned char)*s); };
	auto sp = [&]() { if (dice( 6) == 1) { raw( U' '); if (dice( 3) == 1) raw( U' '); } };
	auto chr = [&]( char32_t c, bool value) {
		if (value && c == '&') rawz( dice( 2) ? "&#x26;" : "&#38;");
		else if (value && c == '<') rawz( dice( 2) ? "&#x3C;" : "&#60;");
		else if (!representable( enc, c)) rawz( fmt( dice( 2) ? "&#x%X;" : "&#%u;", (unsigned)c).c_str());
		else raw( c);
	};
	auto name = [&]( const ustr& n) { for (char32_t c : n) chr( c, false); };
	bool lead = true;
	for (auto& s : e.steps)
	{
		if (!lead) sp();
		const char* slash = s.follow ? "//" : "/";
		switch (s.kind)
		{
			case P_TAG: if (s.follow || !lead || dice( 4)) { rawz( slash); sp(); } break;
			case P_ATTR: if (s.follow || dice( 2)) { rawz( slash); sp(); } raw( U'@'); sp(); break;
			case P_COND: if (s.follow) { rawz( slash); sp(); } break;
			case P_CLOSE: raw( U'~'); break;
		}
		lead = false;
		if (s.kind == P_TAG || s.kind == P_ATTR)
		{
			if (s.names.empty()) raw( U'*');
			else if (s.names.size() == 1 && !dice( 5)) name( s.names[0]);
			else if (s.names.size() == 1 && dice( 5)) name( s.names[0]);
			else
			{
				raw( U'{');
				for (size_t i=0; i<s.names.size(); ++i) { if (i) raw( U','); sp(); name( s.names[i]); sp(); }
				raw( U'}');
			}
		}
		else if (s.kind == P_COND)
		{
			raw( U'['); sp(); raw( U'@'); sp();
			name( s.names.empty() ? asciiU( "n") : s.names[0]);
			sp(); raw( U'='); sp();
			bool plain = !s.value.empty();
			for (char32_t c : s.value) if (!nameChar( c) || !representable( enc, c)) plain = false;
			if (plain && dice( 3) == 1) name( s.value);
			else
			{
				char32_t q = std::count( s.value.begin(), s.value.end(), U'"') ? U'\'' : std::count( s.value.begin(), s.value.end(), U'\'') ? U'"' : dice( 2) ? U'"' : U'\'';
				raw( q);
				for (char32_t c : s.value) chr( c, true);
				raw( q);
			}
			sp(); raw( U']');
		}
	}
	if (e.out == O_CONTENT)
	{
		if (e.outFollow) { sp(); rawz( "//"); }
		sp();
		auto number = [&]( int v) -> std::string { std::string s = fmt( "%d", v); while (s.size() < 8 && dice( 12) == 1) s = "0" + s; return s; };
		switch (e.rkind)
		{
			case R_INDEX: rawz( "["); sp(); rawz( number( e.a).c_str()); sp(); rawz( "]"); break;
			case R_FROM: rawz( "["); sp(); rawz( number( e.a).c_str()); sp(); rawz( ","); sp(); rawz( "]"); break;
			case R_RANGE: rawz( "["); sp(); rawz( number( e.a).c_str()); sp(); rawz( ","); sp(); rawz( number( e.b).c_str()); sp(); rawz( "]"); break;
			default: break;
		}
		sp(); raw( U'('); sp(); raw( U')');
	}
	if (dice( 5) == 1) raw( U' ');
	return out;
}

static std::string apiKey( const ustr& k, int enc, bool value, u64 sty)
{
	std::string out;
	auto rawz = [&]( const std::string& s) { for (char c : s) encodeRaw( enc, (unsigned char)c, out); };
	for (char32_t c : k)
	{
		sty = sty ? mix64( sty+3) : 0;
		if (value && c == '&') rawz( sty%2 ? "&#x26;" : "&#38;");
		else if (value && c == '<') rawz( sty%2 ? "&#60;" : "&#x3c;");
		else if (!representable( enc, c) || (sty && sty % 9 == 0)) rawz( fmt( sty%2 ? "&#x%x;" : "&#%u;", (unsigned)c));
		else encodeRaw( enc, c, out);
	}
	out.append( 8, '\0');
	return out;
}

std::vector<PExpr> exprToApi( const RExpr& e, int enc)
{
	std::vector<PExpr> rt( 1);
	PExpr& p = rt[0];
	p.out = e.out; p.outFollow = e.outFollow; p.rkind = e.rkind; p.a = e.a; p.b = e.b; p.type = e.type; p.style = e.style;
	u64 sty = e.style;
	for (auto& s : e.steps)
	{
		std::vector<PExpr> next;
		for (auto& x : rt)
			for (size_t k=0; k<std::max( (size_t)1, s.names.size()); ++k)
			{
				PStep ps; ps.kind = s.kind; ps.follow = s.follow;
				ps.any = s.names.empty();
				if (!ps.any) ps.key = apiKey( s.names[k], enc, false, sty);
				ps.anyValue = s.anyValue;
				if (s.kind == P_COND && !s.anyValue) ps.value = apiKey( s.value, enc, true, sty);
				next.push_back( x);
				next.back().steps.push_back( ps);
			}
		rt.swap( next);
		if (rt.size() > 64) rt.resize( 64);
		if (sty) sty = mix64( sty);
	}
	return rt;
}

void addExpr( AtmBox& atm, const RExpr& e, int atmEncoding, int psrcEnc)
{
	bool calls = e.api;
	for (auto& s : e.steps) for (auto& n : s.names) for (char32_t c : n) if (!representable( psrcEnc, c)) calls = true;	// names in strings are literal
	if (calls)
	{
		try { for (auto& x : exprToApi( e, atmEncoding)) atm.build( x); }
		catch (const std::bad_alloc&) { throw; }
		catch (const std::exception& x) { fail( "expression-rejected", fmt( "builder calls for %s throw %s", exprToString( e, E_UTF8).c_str(), x.what())); }
		PROBE( "expression_built_by_calls");
		return;
	}
	std::string src = exprToString( e, psrcEnc);
	char* buf = (char*)malloc( src.size()?src.size():1);
	memcpy( buf, src.data(), src.size());
	int rc = 0; std::string ex;
	try { rc = atm.parse( e.type, buf, src.size()); }
	catch (const std::bad_alloc&) { free( buf); throw; }
	catch (const std::exception& x) { ex = x.what(); }
	free( buf);
	if (!ex.empty() || rc) fail( "expression-rejected", fmt( "expression \"%s\" (%s) is rejected: %s position %d", printable( src).c_str(), encName( psrcEnc), ex.c_str(), rc));
	PROBE( "expression_parsed");
}

void docNodes( const std::vector<ExpItem>& items, std::vector<DocNode>& out)
{
	std::vector<int> st;
	ustr an;
	for (auto& it : items)
	{
		switch (it.type)
		{
			case I_OpenTag: { DocNode n; n.parent = st.empty() ? -1 : st.back(); n.name = it.text; st.push_back( (int)out.size()); out.push_back( n); break; }
			case I_TagAttribName: an = it.text; break;
			case I_TagAttribValue: if (!st.empty()) out[ st.back()].attr.push_back( std::make_pair( an, it.text)); break;
			case I_CloseTag: case I_CloseTagIm: if (!st.empty()) st.pop_back(); break;
			default: break;
		}
	}
}

RExpr genExpr( Rng& rng, const std::vector<DocNode>& nodes, bool headers, int type)
{
	RExpr e;
	e.type = type; e.api = rng.chance( 45); e.style = rng.chance( 20) ? 0 : rng.below( 1000000);
	auto anyName = [&]() -> ustr { return nodes.empty() || rng.chance( 10) ? genName( rng, E_UTF8, 10) : nodes[ rng.below( nodes.size())].name; };
	auto alts = [&]( RStep& s, const ustr& n) {
		if (rng.chance( 12) && !headers) return;		// any
		s.names.push_back( n);
		if (rng.chance( 15)) { int k = (int)rng.range( 1, 3); for (int i=0; i<k; ++i) s.names.insert( s.names.begin() + rng.below( s.names.size()+1), rng.chance( 10) ? n : anyName()); }
	};
	// the path to a node of the document, with steps left out and changed
	std::vector<int> chain;
	if (!nodes.empty()) for (int k = (int)rng.below( nodes.size()); k >= 0; k = nodes[k].parent) chain.insert( chain.begin(), k);
	bool skip = false;
	const DocNode* last = 0;
	for (int k : chain)
	{
		if (rng.chance( 25)) { skip = true; continue; }
		if (e.steps.size() >= 6) break;
		RStep s; s.kind = P_TAG; s.follow = skip ? !rng.chance( 5) : rng.chance( 12);
		alts( s, rng.chance( 4) ? anyName() : nodes[k].name);
		e.steps.push_back( s);
		skip = false;
		last = &nodes[k];
		if (rng.chance( 30) && !last->attr.empty())
		{
			size_t from = 0;
			while (from < last->attr.size() && e.steps.size() < 7)
			{
				size_t i = from + rng.below( last->attr.size()-from);
				RStep c; c.kind = P_COND; c.follow = rng.chance( 6);
				c.names.push_back( last->attr[i].first);
				if (e.api && rng.chance( 8)) c.names.clear();
				c.anyValue = e.api && rng.chance( 15);
				if (!c.anyValue) c.value = rng.chance( 6) ? genName( rng, E_UTF8, 10) : last->attr[i].second;
				if (!c.anyValue && rng.chance( 2)) c.value.insert( c.value.begin()+rng.below( c.value.size()+1), genBeyond( rng));
				e.steps.push_back( c);
				from = i+1;
				if (rng.chance( 60)) break;
			}
		}
	}
	if (e.steps.empty())
	{
		RStep s; s.kind = P_TAG; s.follow = rng.chance( 60); alts( s, anyName());
		e.steps.push_back( s);
	}
	bool fol = skip && rng.chance( 80);
	int k = (int)rng.below( 100);
	if (k < 25)
	{
		RStep s; s.kind = P_ATTR; s.follow = fol || rng.chance( 15);
		const DocNode* n = chain.empty() ? 0 : &nodes[ chain.back()];
		if (!rng.chance( 12))
		{
			s.names.push_back( n && !n->attr.empty() && rng.chance( 85) ? n->attr[ rng.below( n->attr.size())].first : anyName());
			if (rng.chance( 15) && n && !n->attr.empty()) s.names.push_back( n->attr[ rng.below( n->attr.size())].first);
		}
		e.steps.push_back( s);
		e.out = O_ATTRVALUE;
	}
	else if (k < 60)
	{
		e.out = O_CONTENT;
		e.outFollow = fol || rng.chance( 15);
		if (rng.chance( 40))
		{
			e.rkind = (int)rng.range( 1, e.api ? R_NOF-1 : 3);
			e.a = (int)rng.below( 4); e.b = e.a + (int)rng.below( 3);
			if (rng.chance( 3)) e.b = 0;
			if (rng.chance( 4)) { static const int B[] = {9,10,11,99,100,127,128,255,256,32767,32768,65535,65536,1000000,99999998}; e.b = B[ rng.below( sizeof(B)/sizeof(B[0]))]; if (rng.chance( 40)) e.a = B[ rng.below( sizeof(B)/sizeof(B[0]))]; }
		}
	}
	else if (k < 72) { RStep s; s.kind = P_CLOSE; e.steps.push_back( s); }
	return e;
}

// ---- rejected expressions ----------------------------------------------------
static const char* const g_bad[] = {
	"a[","a[@","a[@x","a[@x=","a[@x=1","a(","a(b)","a)b","a::b","a~b","a()b","a[1,2","a[x]","{a,b","{a,}","a{b}","@x@y","@x/b","@x()","a[123456789]","a b","a[@x='&foo;']",
	"a[@x='1'","/a/b[@y=2]/c(","//a//b[@x='1']/{c,d","a/b[@","a[1,","a[1;2]","{}","a}","a,b","a//{b}]","a[@x='1']()x","/a/{b,c}/@x()","a[-1]","a[@x==1]","a[@=1]","a()()","a~()","a[@x=1]b",
	"a[@x='&#xZ;']","a[@x='&#12a;']","a[@x='&#99999999999;']","a[@x='&']","a[@x='b&#xg']","a[@x='&#x12g;']","a[@x='&#18446744073709551681;']"
};
enum {NofBadStr = sizeof(g_bad)/sizeof(g_bad[0]), NofBadApi = 3};
size_t nofBad() { return NofBadStr + 2 + NofBadApi; }

bool addBad( AtmBox& atm, size_t k, int type, int psrcEnc, int atmEncoding, std::string& text, std::string* why)
{
	if (k < NofBadStr + 2)
	{
		text = k < NofBadStr ? std::string( g_bad[k]) : k == NofBadStr ? "a/b/" + std::string( 1100, 'x') : "a[@x='" + std::string( 1200, 'y') + "']";
		std::string src = encodeStr( psrcEnc, asciiU( text));
		char* buf = (char*)malloc( src.size()?src.size():1);
		memcpy( buf, src.data(), src.size());
		bool rejected = false;
		try { rejected = atm.parse( type, buf, src.size()) != 0; }
		catch (const std::bad_alloc&) { free( buf); throw; }
		catch (const std::exception& e) { rejected = true; if (why) *why = e.what(); PROBE( "expression_rejected_by_exception"); }
		free( buf);
		return rejected;
	}
	PExpr e; e.type = type;
	PStep s; s.kind = P_TAG; s.key = apiKey( asciiU( "a"), atmEncoding, false, 0);
	e.steps.push_back( s);
	switch (k - NofBadStr - 2)
	{
		case 0: s.key = apiKey( asciiU( "a<b"), atmEncoding, false, 0); text = "calls: tag \"a\", tag \"a<b\""; break;
		case 1: s.key = apiKey( asciiU( std::string( 1100, 'x')), atmEncoding, false, 0); text = "calls: tag \"a\", tag of 1100 characters"; break;
		default: s.kind = P_COND; s.key = apiKey( asciiU( "x"), atmEncoding, false, 0); s.value = encodeStr( atmEncoding, asciiU( "a<b")) + std::string( 8, '\0'); text = "calls: tag \"a\", attribute \"x\" with value \"a<b\""; break;
	}
	e.steps.push_back( s);
	try { atm.build( e); return false; }
	catch (const std::bad_alloc&) { throw; }
	catch (const std::exception& e) { if (why) *why = e.what(); return true; }
}

// ---- the grammar of the expressions --------------------------------------------
namespace {
struct Syntax
{
	const ustr& t; size_t i; bool vague;	// vague: nothing is said about this expression
	explicit Syntax( const ustr& t_) :t(t_),i(0),vague(false){}
	char32_t at( size_t k) const { return k < t.size() ? t[k] : 0; }
	char32_t c() const { return at( i); }
	static bool blank( char32_t x) { return x == ' ' || x == '\t' || x == '\r'; }
	void skip() { while (blank( c())) ++i; }
	static bool nameChar( char32_t x) { return x >= 128 || (x > 32 && x < 127 && !std::strchr( "*~/(){}[]@,;&<=>-!?'\"", (int)x)); }
	bool name()
	{
		size_t b = i;
		while (nameChar( c())) ++i;
		if (i - b > 200) vague = true;
		return i > b;
	}
	bool is( char32_t x) { if (c() != x) return false; ++i; return true; }
	bool number()	// of at most 8 digits
	{
		size_t b = i;
		while (c() >= '0' && c() <= '9') ++i;
		return i > b && i - b <= 8;
	}
	bool value()
	{
		char32_t q = c();
		if (q != '\'' && q != '"') return name();
		for (++i; c() && c() != q; ++i) if (c() == '&' || c() == '<' || c() < 32 || c() == 127) vague = true;
		if (c()) ++i;	// (the end is noticed by the bracket missing)
		return true;
	}
	bool bracket()	// behind the open bracket
	{
		skip();
		if (is( '@')) { skip(); if (!name()) return false; skip(); if (!is( '=')) return false; skip(); if (!value()) return false; skip(); return is( ']'); }
		if (!number()) return false;
		skip();
		if (is( ']')) return true;
		if (!is( ',')) return false;
		skip();
		if (is( ']')) return true;
		if (!number()) return false;
		skip();
		return is( ']');
	}
	bool names()	// behind the open brace
	{
		for (;;) { skip(); if (!name()) return false; skip(); if (is( ',')) continue; return is( '}'); }
	}
	bool path()
	{
		enum {Start,Tag,Attr,TagId,AttrId,Content,Cond} st = Start;
		for (; c(); skip())
		{
			bool element = st == Start || st == Tag || st == TagId || st == Cond;	// where something about a tag may follow
			char32_t x = c();
			if (x == '@') { if (!element) return false; ++i; st = Attr; }
			else if (x == '/') { if (st != Start && st != TagId && st != Cond) return false; ++i; if (c() == '/') ++i; st = Tag; }
			else if (x == '[') { if (!element) return false; ++i; if (!bracket()) return false; st = Cond; }
			else if (x == '(') { if (!element) return false; ++i; skip(); if (!is( ')')) return false; st = Content; }
			else if (x == '~') { if (st != Start && st != TagId && st != Cond) return false; ++i; st = Content; }
			else
			{
				if (st != Start && st != Tag && st != Attr) return false;
				if (x == '*') ++i; else if (x == '{') { ++i; if (!names()) return false; } else if (!name()) return false;
				st = st == Attr ? AttrId : TagId;
			}
		}
		if (st == Tag || st == Attr) vague = true;	// ends where something is expected
		return true;
	}
};
}//anon
int exprSyntax( const ustr& text, size_t& at)
{
	for (size_t k=0; k+1<text.size(); ++k) if (text[k] == ':' && text[k+1] == ':') { at = k; return -1; }	// no namespaces
	Syntax s( text);
	bool ok = s.path();
	at = s.i;
	if (!ok) return -1;
	return s.vague ? 0 : 1;
}

ustr genExprText( Rng& rng, int psrcEnc)
{
	ustr t;
	static const char* F[] = {"/","//","a","b","tag","*","@","@x","()","(",")","[1]","[0,2]","[2,]","[,3]","[","]","{a,b}","{","}",",","~","[@x=1]","[@x='v w']","[@a=\"\"]","[@","=","'","\"",":","::"," ","\t","1","12345678","123456789","00000001","-","a-b","&","<","\n","\r","!",";","x:y","[@ y = z ]","[ 1 , 2 ]","( )","{ a , b }","{a}"};
	if (rng.chance( 45))
	{
		// a legal expression with a few characters changed
		static const char* S[] = {"/a","//b","/*","//*","/{a,b}","/{ a , bc }","a","*"};
		static const char* C[] = {"[1]","[0,2]","[ 12 , 345 ]","[2,]","[@x=1]","[@y = 'v w' ]","[@z=\"\"]","[00000001]","[12345678,1]"};
		static const char* O[] = {"()","( )","~","@a","@*","@{x,y}","/@a",""};
		static const char* X[] = {"a","1","9999999","[","]","(",")","{","}",",","/","@","=","'","\"","*","~"," ","-","<",":","::",";"};
		std::string e;
		for (int k=(int)rng.range( 1, 3); k>0; --k)
		{
			e += S[ rng.below( 8)];
			for (int q=rng.chance( 40)?(int)rng.range( 1, 2):0; q>0; --q) e += C[ rng.below( 9)];
		}
		e += O[ rng.below( 8)];
		for (int k=rng.chance( 75)?(int)rng.range( 1, 2):0; k>0 && !e.empty(); --k)
		{
			size_t at = rng.below( e.size());
			switch (rng.below( 4))
			{
				case 0: e.erase( at, 1); break;
				case 1: e.insert( at, X[ rng.below( 23)]); break;
				case 2: e.replace( at, 1, X[ rng.below( 23)]); break;
				default: if (rng.chance( 30)) e.resize( at); else { size_t d = e.find_first_of( "0123456789", at); if (d != std::string::npos) e.replace( d, 1, X[ rng.below( 5)]); } break;
			}
		}
		return asciiU( e.c_str());
	}
	int n = (int)rng.range( 0, 9);
	for (int k=0; k<n; ++k)
	{
		if (rng.chance( 6)) { char32_t c = genChar( rng, psrcEnc, 60); if (c >= 32 && representable( psrcEnc, c)) t.push_back( c); continue; }
		ustr u = asciiU( rng.chance( 60) ? F[ rng.below( 26)] : F[ rng.below( sizeof(F)/sizeof(F[0]))]);
		t.insert( t.end(), u.begin(), u.end());
	}
	return t;
}

void checkExprText( AtmBox& atm, AtmBox& scratch, int type, const ustr& text, int psrcEnc)
{
	ustr t; std::vector<size_t> ofs; std::string src;
	for (char32_t c : text) if (c && c != 127 && !(c >= 0xD800 && c < 0xE000) && c <= 0x10FFFF && representable( psrcEnc, c)) { t.push_back( c); ofs.push_back( src.size()); encodeOut( psrcEnc, c, src); }
	ofs.push_back( src.size());
	size_t at = 0;
	int legal = exprSyntax( t, at);
	// what is rejected must not have changed anything
	char* buf = (char*)malloc( src.size()?src.size():1);
	memcpy( buf, src.data(), src.size());
	int rc = 0; std::string ex;
	try { rc = (legal < 0 ? atm : scratch).parse( type, buf, src.size()); }
	catch (const std::bad_alloc&) { free( buf); throw; }
	catch (const std::exception& x) { ex = x.what(); }
	free( buf);
	std::string what = "expression \"" + printable( encodeStr( E_UTF8, t)) + "\" (" + encName( psrcEnc) + ")";
	ev( "exprtext", (u64)(legal+1), (u64)rc);
	if (legal > 0)
	{
		PROBE( "random_expression_legal");
		if (rc || !ex.empty()) fail( "expression-rejected", what + fmt( " is rejected: %s position %d", ex.c_str(), rc));
	}
	else if (legal < 0)
	{
		PROBE( "random_expression_malformed");
		if (!rc && ex.empty()) fail( "malformed-accepted", what + " is accepted");
		if (ex.empty() && (size_t)rc != ofs[ at]+1) fail( "error-position", what + fmt( " is rejected with position %d, the error is at %u", rc, (unsigned)ofs[ at]+1));
	}
	else if (rc < 0 || (size_t)rc > src.size()+1) fail( "error-position", what + fmt( " is rejected with position %d", rc));
}

// ---- reference semantics --------------------------------------------------------
bool refSelect( const std::vector<RExpr>& exprs, const std::vector<ExpItem>& items, int enc, Selected& out, size_t maxWork, size_t maxCtx)
{
	size_t n = items.size();
	out.assign( n, std::vector<int>());
	// owner element of every item; -1 is the document
	std::vector<int> owner( n, -1), parent, elemOf( n, -1);
	std::vector<std::string> text( n);
	{
		std::vector<int> st;
		for (size_t i=0; i<n; ++i)
		{
			text[i] = encodeStr( enc, items[i].text);
			owner[i] = st.empty() ? -1 : st.back();
			if (items[i].type == I_OpenTag) { elemOf[i] = (int)parent.size(); parent.push_back( owner[i]); st.push_back( elemOf[i]); }
			else if (items[i].type == I_CloseTag || items[i].type == I_CloseTagIm) { if (!st.empty()) st.pop_back(); }
		}
	}
	auto within = [&]( int e, int anc) { for (; e >= 0; e = parent[e]) if (e == anc) return true; return anc == -1; };	// e is anc or below
	struct Ctx { int elem; long t; };
	size_t work = 0;
	for (auto& x : exprs)
	{
		std::vector<Ctx> cur( 1, Ctx{-1,-1});
		for (auto& s : x.steps)
		{
			std::vector<std::string> nm;
			for (auto& q : s.names) nm.push_back( encodeStr( enc, q));
			std::string val = encodeStr( enc, s.value);
			auto hits = [&]( const std::string& t) -> int { if (nm.empty()) return 1; int c = 0; for (auto& q : nm) if (q == t) ++c; return c; };
			std::vector<Ctx> next;
			for (auto& c : cur) for (size_t i=(size_t)(c.t+1); i<n; ++i)
			{
				int ty = items[i].type;
				int own = owner[i];
				if ((work += 1) > maxWork || next.size() > maxCtx) return false;
				switch (s.kind)
				{
					case P_TAG:
						if (ty == I_OpenTag && (s.follow ? within( own, c.elem) : own == c.elem))
							for (int h=hits( text[i]); h; --h) next.push_back( Ctx{elemOf[i],(long)i});
						break;
					case P_ATTR: case P_COND:
						if ((ty == I_TagAttribName || ty == I_HeaderAttribName) && (s.follow ? within( own, c.elem) : own == c.elem))
							for (int h=hits( text[i]); h; --h)
							{
								if (s.kind == P_ATTR) next.push_back( Ctx{own,(long)i});
								else if (i+1 < n && (s.anyValue || text[i+1] == val)) next.push_back( Ctx{own,(long)i+1});
							}
						break;
					case P_CLOSE:
						if ((ty == I_CloseTag || ty == I_CloseTagIm) && own == c.elem && c.elem >= 0) { next.push_back( Ctx{own,(long)i}); i = n; }
						break;
				}
			}
			cur.swap( next);
		}
		for (auto& c : cur)
		{
			if (x.out == O_NONE) { if (c.t >= 0) out[ (size_t)c.t].push_back( x.type); }
			else if (x.out == O_ATTRVALUE) { if ((size_t)c.t+1 < n) out[ (size_t)c.t+1].push_back( x.type); }
			else
			{
				long k = 0;
				for (size_t i=(size_t)(c.t+1); i<n; ++i)
				{
					if ((work += 1) > maxWork) return false;
					if (items[i].type != I_Content || !(x.outFollow ? within( owner[i], c.elem) : owner[i] == c.elem)) continue;
					bool in = true;
					switch (x.rkind)
					{
						case R_INDEX: in = k == x.a; break;
						case R_FROM: in = k >= x.a; break;
						case R_RANGE: in = k >= x.a && k <= x.b; break;
						case R_TO: in = k <= x.b; break;
						case R_FROM_TO: case R_TO_FROM: in = k >= x.a && k <= x.b; break;
						case R_RANGES: in = k >= x.a && k <= x.b && k >= range2( x.style, x.a, 3) && k <= range2( x.style, x.b, 5); break;
						case R_FROM_INDEX: in = k == x.a && k >= range2( x.style, x.a, 3); break;
						case R_OPEN: in = k >= x.a; break;
					}
					if (in) out[i].push_back( x.type);
					++k;
				}
			}
		}
	}
	for (auto& v : out) std::sort( v.begin(), v.end());
	return true;
}
}//namespace
