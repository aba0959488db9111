#include "prhist.hpp"
#include <cstring>
#include <cstdlib>
namespace sim {

static ustr pname( const ustr& s, int appEnc, int ioEnc, const char* dflt)
{
	ustr r;
	for (char32_t c : s)
	{
		if (c <= 32 || !representable( appEnc, c) || !representable( ioEnc, c)) continue;
		if (c < 128 && std::strchr( "&<>=/!?'\"[]#;", (char)c)) continue;
		if (c == '-' && r.empty()) continue;
		r.push_back( c);
	}
	return r.empty() ? asciiU( dflt) : r;
}

PrOp prOp( const Rec& r, int appEnc, int ioEnc)
{
	PrOp op; op.filler = false;
	op.kind = (int)r.numc( 0, 0, PO_NOF-1);
	op.form = (int)r.numc( 1, 0, 100);
	switch (op.kind)
	{
		case PO_HEADER:
		{
			op.form %= 4;
			static const char* E[] = {"UTF-8","ISO-8859-1","x"};
			op.text.push_back( asciiU( E[ r.numc( 2, 0, 2)]));
			break;
		}
		case PO_DOCTYPE:
			op.form %= 5;
			for (int k=0; k<3; ++k)
			{
				ustr t;
				if (k == 0) t = pname( r.str( 0), appEnc, ioEnc, "root");
				else for (char32_t c : r.str( k)) if (c >= 32 && c != '"' && c != '<' && c != '&' && c < 0x110000 && representable( appEnc, c) && representable( ioEnc, c)) t.push_back( c);
				op.text.push_back( t);
			}
			break;
		case PO_OPEN: case PO_ATTR: op.text.push_back( pname( r.str( 0), appEnc, ioEnc, "n")); break;
		case PO_VALUE:
		{
			ustr t;
			for (char32_t c : r.str( 0)) if (c && c < 0x110000 && representable( appEnc, c)) t.push_back( c);
			op.text.push_back( t);
			break;
		}
		default: break;
	}
	for (auto& t : op.text) { std::string e; for (char32_t c : t) encodeRaw( appEnc, c, e); op.enc.push_back( e); }
	return op;
}

void PrModel::reset( bool s)
{
	sub = s; state = s ? PS_CONTENT : PS_INIT;
	stack.clear(); items.clear(); doctypeDone = rootDone = open = false;
}
bool PrModel::usable( const PrOp& op) const
{
	if (state != PS_CONTENT || !stack.empty()) return true;
	if (op.kind == PO_VALUE) return false;
	if (op.kind == PO_OPEN && rootDone && !sub) return false;
	if (op.kind == PO_DOCTYPE && (doctypeDone || rootDone) && op.form != 3 && op.form != 4) return false;
	return true;
}
bool PrModel::legal( const PrOp& op) const
{
	switch (op.kind)
	{
		case PO_HEADER: return state == PS_INIT;
		case PO_DOCTYPE: return state == PS_CONTENT && stack.empty() && op.form != 3;
		case PO_OPEN: case PO_EXIT: return state == PS_CONTENT || state == PS_TAG;
		case PO_ATTR: return state == PS_TAG;
		case PO_VALUE: return state != PS_INIT;
		case PO_CLOSE: return !stack.empty() && (state == PS_CONTENT || state == PS_TAG);
	}
	return false;
}
void PrModel::endContent() { open = false; }
void PrModel::content( const ustr& t)
{
	if (t.empty()) return;
	if (!open) { items.push_back( ExpItem( I_Content)); open = true; }
	items.back().text += t;
}
void PrModel::apply( const PrOp& op)
{
	auto item = [&]( int type, const ustr& t) { items.push_back( ExpItem( type)); items.back().text = t; };
	switch (op.kind)
	{
		case PO_HEADER:
			item( I_HeaderStart, asciiU( "?xml"));
			item( I_HeaderAttribName, asciiU( "version")); item( I_HeaderAttribValue, asciiU( "1.0"));
			item( I_HeaderAttribName, asciiU( "encoding")); item( I_HeaderAttribValue, op.form == 3 ? asciiU( "UTF-8") : op.text[0]);
			if (op.form == 1 || op.form == 2) { item( I_HeaderAttribName, asciiU( "standalone")); item( I_HeaderAttribValue, asciiU( op.form == 1 ? "yes" : "no")); }
			item( I_HeaderEnd, ustr());
			state = PS_CONTENT;
			break;
		case PO_DOCTYPE:
			if (op.form == 4) break;
			doctypeDone = true;
			item( I_DocAttribValue, asciiU( "DOCTYPE")); item( I_DocAttribValue, op.text[0]);
			if (op.form == 1) { item( I_DocAttribValue, asciiU( "SYSTEM")); item( I_DocAttribValue, op.text[2]); }
			if (op.form == 2) { item( I_DocAttribValue, asciiU( "PUBLIC")); item( I_DocAttribValue, op.text[1]); item( I_DocAttribValue, op.text[2]); }
			item( I_DocAttribEnd, ustr());
			break;
		case PO_OPEN:
			endContent(); item( I_OpenTag, op.text[0]); stack.push_back( op.text[0]); state = PS_TAG; rootDone = true;
			break;
		case PO_ATTR: item( I_TagAttribName, op.text[0]); state = PS_ATTR; break;
		case PO_VALUE:
			if (state == PS_ATTR) { item( I_TagAttribValue, op.text[0]); state = PS_TAG; }
			else { content( op.text[0]); state = PS_CONTENT; }
			break;
		case PO_CLOSE:
			endContent();
			if (state == PS_TAG) item( I_CloseTagIm, ustr()); else item( I_CloseTag, stack.back());
			stack.pop_back(); state = PS_CONTENT;
			if (stack.empty()) content( asciiU( "\n"));
			break;
		case PO_EXIT: state = PS_CONTENT; break;
	}
}
bool PrModel::completing( PrOp& op) const
{
	Rec r( "o", {0,0});
	if (state == PS_INIT) r.n[0] = PO_HEADER;
	else if (state == PS_ATTR) r.n[0] = PO_VALUE;
	else if (!stack.empty()) r.n[0] = PO_CLOSE;
	else if (!rootDone) r.n[0] = PO_OPEN;
	else return false;
	op = prOp( r, appEnc, ioEnc);
	op.filler = true;
	return true;
}

Rec genPrOp( Rng& rng, int appEnc, int ioEnc, const PrModel& m, int illegalPct)
{
	for (int tries=0;; ++tries)
	{
		int k;
		if (rng.chance( illegalPct)) k = (int)rng.below( PO_NOF);
		else if (m.state == PS_INIT) k = PO_HEADER;
		else if (m.state == PS_ATTR) k = PO_VALUE;
		else
		{
			static const int C[] = {PO_OPEN,PO_OPEN,PO_OPEN,PO_VALUE,PO_VALUE,PO_CLOSE,PO_CLOSE,PO_EXIT,PO_ATTR,PO_ATTR,PO_DOCTYPE};
			k = C[ rng.below( sizeof(C)/sizeof(C[0]))];
		}
		int nameEnc = rng.chance( 50) ? ioEnc : appEnc;
		Rec r( "o", {k, (i64)rng.below( 100)});
		GenOpts o; o.nonAsciiPct = 20; o.eolPct = 6;
		switch (k)
		{
			case PO_HEADER: r.n.push_back( (i64)rng.below( 3)); break;
			case PO_DOCTYPE: r.s = {genName( rng, nameEnc, 10), genText( rng, nameEnc, o, 12), genText( rng, nameEnc, o, 12)}; break;
			case PO_OPEN: case PO_ATTR: r.s = {rng.permille( 15) ? genName( rng, nameEnc, 5, 400) : genName( rng, nameEnc, 15)}; break;
			case PO_VALUE: r.s = {rng.chance( 6) ? ustr() : genText( rng, rng.chance( 70) ? appEnc : ioEnc, o, rng.chance( 5) ? 80 : 12)}; break;
			default: break;
		}
		PrOp op = prOp( r, appEnc, ioEnc);
		if (tries < 50 && !m.usable( op)) continue;
		if (tries < 50 && !m.legal( op) && !rng.chance( illegalPct)) continue;
		return r;
	}
}

bool doPrint( PrinterBox& b, const PrOp& op)
{
	// arguments in memory of their exact size
	struct Z { std::vector<char*> p; ~Z() { for (char* x : p) std::free( x); } char* add( const std::string& s, size_t pad) { char* c = (char*)std::malloc( s.size()+pad?s.size()+pad:1); std::memcpy( c, s.data(), s.size()); std::memset( c+s.size(), 0, pad); p.push_back( c); return c; } } z;
	std::vector<char*> a;
	{
		MemPause mp;
		z.p.reserve( 4);
		for (auto& e : op.enc) a.push_back( z.add( e, op.kind == PO_HEADER ? 1 : op.kind == PO_DOCTYPE ? 4 : 0));
	}
	struct Rel { Z& z; std::vector<char*>& a; bool r; ~Rel() { MemPause mp; for (char* x : z.p) std::free( x); z.p.clear(); std::vector<char*>().swap( a); std::vector<char*>().swap( z.p); } } rel{z,a,false};
	switch (op.kind)
	{
		case PO_HEADER:
		{
			return b.header( op.form == 3 ? 0 : uToBytes( op.text[0]).c_str(), op.form == 1 ? "yes" : op.form == 2 ? "no" : 0);
		}
		case PO_DOCTYPE:
			switch (op.form)
			{
				case 0: return b.doctype( a[0], 0, 0);
				case 1: return b.doctype( a[0], 0, a[2]);
				case 2: return b.doctype( a[0], a[1], a[2]);
				case 3: return b.doctype( a[0], a[1], 0);
				default: return b.doctype( 0, 0, 0);
			}
		case PO_OPEN: return b.open( a[0], op.enc[0].size());
		case PO_ATTR: return b.attr( a[0], op.enc[0].size());
		case PO_VALUE: return b.value( a[0], op.enc[0].size());
		case PO_CLOSE: return b.close();
		default: return b.exitTag();
	}
}
std::string prOpStr( const PrOp& op)
{
	std::string s = printOpName( op.kind);
	s += "(";
	for (size_t i=0; i<op.text.size(); ++i) s += (i?",\"":"\"") + printable( encodeStr( E_UTF8, op.text[i])).substr( 0, 60) + "\"";
	if (op.kind == PO_HEADER || op.kind == PO_DOCTYPE) s += fmt( " form %d", op.form);
	return s + ")";
}

bool decodeStr( int enc, const std::string& s, ustr& out)
{
	out.clear();
	size_t i = 0, n = s.size();
	auto b = [&]( size_t k) -> unsigned { return (unsigned char)s[k]; };
	while (i < n)
	{
		char32_t c;
		switch (enc)
		{
			case E_UTF8:
			{
				unsigned x = b( i); int len = x < 0x80 ? 1 : x >= 0xC2 && x < 0xE0 ? 2 : x >= 0xE0 && x < 0xF0 ? 3 : x >= 0xF0 && x < 0xF5 ? 4 : 0;
				if (!len || i+len > n) return false;
				c = len == 1 ? x : x & (0xFF >> (len+1));
				for (int k=1; k<len; ++k) { if ((b( i+k) & 0xC0) != 0x80) return false; c = (c<<6) | (b( i+k) & 0x3F); }
				i += len; break;
			}
			case E_UTF16LE: case E_UTF16BE: case E_UCS2LE: case E_UCS2BE:
			{
				bool le = enc == E_UTF16LE || enc == E_UCS2LE;
				if (i+2 > n) return false;
				c = le ? b( i) | (b( i+1)<<8) : b( i+1) | (b( i)<<8);
				i += 2;
				if (c >= 0xD800 && c < 0xE000)
				{
					if (enc > E_UTF16BE || c >= 0xDC00 || i+2 > n) return false;
					char32_t d = le ? b( i) | (b( i+1)<<8) : b( i+1) | (b( i)<<8);
					if (d < 0xDC00 || d >= 0xE000) return false;
					c = 0x10000 + ((c-0xD800)<<10) + (d-0xDC00);
					i += 2;
				}
				break;
			}
			case E_UCS4LE: if (i+4 > n) return false; c = b( i) | (b( i+1)<<8) | (b( i+2)<<16) | (b( i+3)<<24); i += 4; break;
			case E_UCS4BE: if (i+4 > n) return false; c = b( i+3) | (b( i+2)<<8) | (b( i+1)<<16) | (b( i)<<24); i += 4; break;
			default: c = b( i) < 128 ? b( i) : ISO_REF[ pageOf( enc)-1][ b( i)-128]; if (b( i) >= 128 && !c) return false; ++i; break;
		}
		if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
		out.push_back( c);
	}
	return true;
}

namespace {
struct Wf
{
	const ustr& d; size_t i; std::string why; std::vector<ExpItem>& items;
	Wf( const ustr& d_, std::vector<ExpItem>& it) :d(d_),i(0),items(it){}
	struct Bad {};
	[[noreturn]] void bad( const char* w) { why = fmt( "%s at character %u", w, (unsigned)i); throw Bad(); }
	char32_t cur() { return i < d.size() ? d[i] : 0; }
	bool at( const char* s) { for (size_t k=0; s[k]; ++k) if (i+k >= d.size() || d[i+k] != (unsigned char)s[k]) return false; return true; }
	void expect( const char* s) { if (!at( s)) bad( fmt( "expected '%s'", s).c_str()); i += std::strlen( s); }
	void item( int t, const ustr& x) { items.push_back( ExpItem( t)); items.back().text = x; }
	ustr name()
	{
		ustr n;
		while (i < d.size() && d[i] > 32 && (d[i] >= 128 || !std::strchr( "&<>=/!?'\"[]", (char)d[i]))) n.push_back( d[i++]);
		if (n.empty()) bad( "name expected");
		return n;
	}
	void ref( ustr& out)
	{
		static const struct { const char* s; char c; } E[] = {{"&lt;",'<'},{"&gt;",'>'},{"&amp;",'&'},{"&quot;",'"'},{"&apos;",'\''}};
		for (auto& e : E) if (at( e.s)) { out.push_back( (unsigned char)e.c); i += std::strlen( e.s); return; }
		if (!at( "&#")) bad( "undefined reference");
		i += 2;
		bool hex = cur() == 'x'; if (hex) ++i;
		u64 v = 0; int nd = 0;
		for (; cur() != ';'; ++i, ++nd)
		{
			int g = cur() >= '0' && cur() <= '9' ? (int)cur()-'0' : hex && cur() >= 'a' && cur() <= 'f' ? (int)cur()-'a'+10 : hex && cur() >= 'A' && cur() <= 'F' ? (int)cur()-'A'+10 : -1;
			if (g < 0 || nd > 8) bad( "malformed character reference");
			v = v * (hex?16:10) + g;
		}
		if (!nd || v == 0 || v > 0x10FFFF) bad( "malformed character reference");
		++i;
		out.push_back( (char32_t)v);
	}
	ustr quoted( bool refs)
	{
		char32_t q = cur();
		if (q != '"' && q != '\'') bad( "quoted value expected");
		++i;
		ustr v;
		while (cur() != q)
		{
			if (i >= d.size()) bad( "unterminated value");
			if (refs && cur() == '<') bad( "'<' in value");
			if (refs && cur() == '&') { ref( v); continue; }
			if (cur() == '\t' || cur() == '\n' || cur() == '\r') bad( "unescaped white space in value");
			v.push_back( d[i++]);
		}
		++i;
		return v;
	}
	void run( bool sub)
	{
		if (!sub)
		{
			expect( "<?xml"); item( I_HeaderStart, asciiU( "?xml"));
			static const char* A[] = {"version","encoding","standalone"};
			for (int k=0; k<3; ++k)
			{
				if (k == 2 && at( "?>")) break;
				expect( " "); expect( A[k]); expect( "="); item( I_HeaderAttribName, asciiU( A[k])); item( I_HeaderAttribValue, quoted( false));
			}
			expect( "?>"); item( I_HeaderEnd, ustr());
			while (cur() == '\n' && i < d.size()) ++i;
		}
		if (at( "<!DOCTYPE"))
		{
			expect( "<!DOCTYPE"); expect( " "); item( I_DocAttribValue, asciiU( "DOCTYPE")); item( I_DocAttribValue, name());
			if (at( " SYSTEM ")) { i += 8; item( I_DocAttribValue, asciiU( "SYSTEM")); item( I_DocAttribValue, quoted( false)); }
			else if (at( " PUBLIC ")) { i += 8; item( I_DocAttribValue, asciiU( "PUBLIC")); item( I_DocAttribValue, quoted( false)); expect( " "); item( I_DocAttribValue, quoted( false)); }
			expect( ">"); item( I_DocAttribEnd, ustr());
		}
		std::vector<ustr> st;
		int roots = 0;
		ustr run;
		auto flush = [&]() { if (!run.empty()) item( I_Content, run); run.clear(); };
		while (i < d.size())
		{
			char32_t c = d[i];
			if (c == '<')
			{
				flush();
				++i;
				if (cur() == '/')
				{
					++i;
					ustr n = name();
					if (st.empty() || st.back() != n) bad( "close tag does not match");
					st.pop_back();
					expect( ">");
					item( I_CloseTag, n);
					continue;
				}
				if (st.empty() && ++roots > 1 && !sub) bad( "second root element");
				ustr n = name();
				item( I_OpenTag, n);
				for (;;)
				{
					if (at( "/>")) { i += 2; item( I_CloseTagIm, ustr()); break; }
					if (at( ">")) { i += 1; st.push_back( n); break; }
					expect( " ");
					item( I_TagAttribName, name());
					expect( "=");
					item( I_TagAttribValue, quoted( true));
				}
				continue;
			}
			if (st.empty() && c != '\n') bad( "text outside of the root element");
			if (c == '&') { ref( run); continue; }
			if (c == '\r') bad( "carriage return in content");
			run.push_back( c); ++i;
		}
		flush();
		if (!st.empty()) bad( "element not closed");
		if (!roots) bad( "no root element");
	}
};
}
bool wellFormed( const ustr& doc, bool sub, std::vector<ExpItem>& items, std::string& why)
{
	Wf w( doc, items);
	try { w.run( sub); return true; }
	catch (const Wf::Bad&) { why = w.why; return false; }
}
}//namespace
