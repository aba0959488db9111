// C09: bounded and failing sinks: scanning into buffers of fixed size, printing to fixed buffers and to failing streams,
// copying characters, the fixed buffers of path expressions, and histories of the buffer itself.
#include "sessions.hpp"
#include "prhist.hpp"
#include "expr.hpp"
#include "textwolf.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/staticbuffer.hpp"
#include <algorithm>
#include <cstring>
#include <ostream>
#include <streambuf>
namespace sim {
using textwolf::StaticBuffer;

enum {MODE_SCAN,MODE_PRINT,MODE_BUFFER,MODE_CHARS,MODE_NAMES,MODE_OSTREAM};

static size_t genCap( Rng& rng, size_t around)
{
	switch (rng.below( 5))
	{
		case 0: return rng.below( 4);
		case 1: return rng.below( 20);
		case 2: return rng.below( around+2);
		case 3: return around > 3 ? around - 3 + rng.below( 6) : rng.below( 8);
		default: return rng.below( 300);
	}
}

// plan: m mode; scan: q capacity in each session; print: W app io sub sinkkind capacity buffer exceptions, o.. z.. c (clear) h (heal);
// buffer: B capacity external initial, u op arg chr; chars: t enc out cap : text; stream: V limit buffer exceptions device, v op which size chr; names: L atm psrc kind api out len chr
static Plan generate( Rng& rng)
{
	Plan p;
	int mode = (int)rng.below( 100);
	mode = mode < 35 ? MODE_SCAN : mode < 70 ? MODE_PRINT : mode < 83 ? MODE_BUFFER : mode < 86 ? MODE_OSTREAM : mode < 95 ? MODE_CHARS : MODE_NAMES;
	p.push_back( Rec( "m", {mode}));
	switch (mode)
	{
		case MODE_SCAN:
		{
			int ns = rng.chance( 60) ? 1 : (int)rng.range( 2, 3);
			for (int k=0; k<ns; ++k)
			{
				int enc = rng.chance( 40) ? 0 : (int)rng.below( E_NOF);
				GenOpts o; DocModel m; Plan doc, dl;
				o.maxNodes = rng.chance( 70) ? 8 : 30; o.nonAsciiPct = rng.chance( 50) ? 5 : 40; o.nameNonAsciiPct = 10; o.eolPct = 5;
				genDoc( rng, enc, o, doc);
				renderDoc( doc, 0, doc.size(), enc, 0, m);
				genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), dl, enc, SRC_CHUNK, 15);
				size_t around = m.items.empty() ? 0 : m.items[ rng.below( m.items.size())].text.size();
				p.insert( p.end(), dl.begin(), dl.end());
				p.push_back( Rec( "q", {(i64)genCap( rng, around)}));
				p.insert( p.end(), doc.begin(), doc.end());
				if (rng.chance( 10)) genDamage( rng, p, enc, 1);
			}
			break;
		}
		case MODE_PRINT:
		{
			int io = rng.chance( 30) ? 0 : (int)rng.below( E_NOF);
			int app = rng.chance( 35) ? 0 : (int)rng.below( 8);
			bool sub = rng.chance( 25);
			int sink = rng.chance( 50) ? SINK_STATIC : SINK_OSTREAM;
			int n = rng.chance( 70) ? (int)rng.range( 1, 15) : (int)rng.range( 15, 50);
			int ill = rng.chance( 50) ? 0 : (int)rng.range( 5, 30);
			PrModel m( app, io, sub);
			Plan ops;
			size_t len = 0;
			for (int i=0; i<n; ++i)
			{
				if (rng.chance( 4)) { ops.push_back( Rec( "c", {})); continue; }
				if (rng.chance( 3)) { ops.push_back( Rec( "h", {(i64)rng.below( 60)})); continue; }
				Rec r = genPrOp( rng, app, io, m, ill);
				PrOp op = prOp( r, app, io);
				if (!m.usable( op)) continue;
				if (m.legal( op)) { m.apply( op); len += 6 * unitOf( io); for (auto& t : op.text) len += t.size() * unitOf( io); }
				ops.push_back( r);
			}
			p.push_back( Rec( "W", {app, io, sub, sink, (i64)genCap( rng, len), rng.chance( 40) ? 0 : rng.range( 1, 64), rng.chance( 20), rng.chance( 50), (i64)rng.below( 3)}));
			p.insert( p.end(), ops.begin(), ops.end());
			break;
		}
		case MODE_BUFFER:
		{
			size_t cap = rng.permille( 10) ? 65000 + rng.below( 5000) : rng.chance( 30) ? rng.below( 4) : rng.below( 40);
			p.push_back( Rec( "B", {(i64)cap, rng.chance( 50), (i64)rng.below( cap+1)}));
			int n = (int)rng.range( 3, 40);
			for (int i=0; i<n; ++i) p.push_back( Rec( "u", {(i64)rng.below( 9), (i64)rng.below( rng.chance( 80) ? cap+3 : 100), (i64)rng.below( 256), (i64)rng.below( 3)}));
			break;
		}
		case MODE_OSTREAM:
		{
			p.push_back( Rec( "V", {(i64)rng.below( rng.chance( 95) ? 60 : 70000), rng.chance( 40) ? 0 : rng.range( 1, 40), rng.chance( 30), (i64)rng.below( 3)}));
			int n = (int)rng.range( 3, 30);
			for (int i=0; i<n; ++i) p.push_back( Rec( "v", {(i64)rng.below( 7), (i64)rng.below( 3), (i64)rng.below( rng.permille( 990) ? 20 : 70000), (i64)rng.below( 256)}));
			break;
		}
		case MODE_CHARS:
		{
			int n = (int)rng.range( 1, 3);
			for (int k=0; k<n; ++k)
			{
				int enc = (int)rng.below( E_NOF);
				GenOpts go; go.nonAsciiPct = 40; ustr t = genText( rng, enc, go, (int)rng.range( 1, 30));
				p.push_back( Rec( "t", {enc, (i64)rng.below( E_NOF), (i64)genCap( rng, t.size()), (i64)(rng.next() & 0x1FFFFF)}, {t}));
			}
			break;
		}
		default:
		{
			int atm = (int)rng.below( ATM_NOF);
			int u = (int)unitOf( atmEnc( atm));
			i64 len = rng.chance( 70) ? 1024/u + rng.range( -3, 3) : rng.chance( 50) ? rng.range( 1, 3000) : rng.range( 200, 1100);
			if (rng.chance( 20)) len = 512 + rng.range( -3, 3);
			p.push_back( Rec( "L", {atm, (i64)rng.below( PSRC_NOF), (i64)rng.below( 3), (i64)rng.below( 2), len, rng.chance( 60) ? 'a' : rng.chance( 50) ? 0xE4 : 0x20AC}));
		}
	}
	return p;
}

// ---- scanning into a fixed buffer
static void runScan( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<std::vector<Item> > ref( specs.size());
	for (size_t k=0; k<specs.size(); ++k)
	{
		SessionSpec& s = specs[k];
		s.capacity = 8;
		for (size_t i=s.recB; i<s.recE; ++i) if (p[i].tag == "q") s.capacity = p[i].numc( 0, 0, 100000);
		s.dl.kind = SRC_CHUNK; s.dl.remasks.clear();
		s.csOut = s.encOut = s.csOut % 3 == 0 ? 0 : s.csOut % 3 == 1 ? 1 : 7;
		DocModel m;
		renderDoc( p, s.recB, s.recE, s.encIn, &s.ents, m);
		std::string bytes = damageBytes( p, s.recB, s.recE, m.bytes);
		evs( "doc", bytes);
		scanWhole( s, bytes, ref[k], 1);
		ss.push_back( std::unique_ptr<Session>( new Session( s, bytes)));
		ss.back()->maxErr = 1;
	}
	runSessions( ss);
	size_t full = 0, fits = 0;
	for (size_t k=0; k<ss.size(); ++k)
	{
		size_t cap = (size_t)specs[k].capacity;
		const std::vector<Item>& got = ss[k]->items;
		for (size_t i=0; i<got.size() || i<ref[k].size(); ++i)
		{
			std::string ctx = fmt( "item %u in a buffer of %u bytes: ", (unsigned)i, (unsigned)cap);
			if (i >= got.size() || i >= ref[k].size() || got[i].type != ref[k][i].type || got[i].err != ref[k][i].err)
				fail( "bounded-scan-differs", ctx + (i<got.size()?itemStr( got[i]):"missing") + " expected " + (i<ref[k].size()?itemStr( ref[k][i]):"none") + "; " + ss[k]->describe());
			const std::string& d = got[i].data; const std::string& r = ref[k][i].data;
			if (d.size() > cap) fail( "beyond-capacity", ctx + fmt( "%u bytes reported; ", (unsigned)d.size()) + ss[k]->describe());
			if (d.size() > r.size() || std::memcmp( d.data(), r.data(), d.size()) != 0) fail( "not-a-prefix", ctx + itemStr( got[i]) + " is not a prefix of " + itemStr( ref[k][i]) + "; " + ss[k]->describe());
			if (d.size() < r.size() && !got[i].overflow) fail( "unnoticed-partial", ctx + itemStr( got[i]) + " is incomplete without overflow, complete is " + itemStr( ref[k][i]) + "; " + ss[k]->describe());
			if (d.size() == r.size() && got[i].overflow && got[i].type != I_Error) fail( "false-overflow", ctx + itemStr( got[i]) + " is complete, but overflow is reported; " + ss[k]->describe());
			if (got[i].overflow) { ++full; FAULT( "buffer_full"); } else if (!d.empty()) ++fits;
		}
	}
	if (full && fits) nontrivial();
}

// ---- printing
struct FailBuf :public std::streambuf
{
	std::string dev; size_t limit; bool transient, throws; std::vector<char> buf;
	FailBuf( size_t bs, size_t limit_, bool tr, bool th) :limit(limit_),transient(tr),throws(th),buf(bs) { if (bs) setp( buf.data(), buf.data()+bs); }
	bool put( const char* s, size_t n, size_t& done)
	{
		done = std::min( n, limit > dev.size() ? limit - dev.size() : 0);
		dev.append( s, done);
		if (done == n) return true;
		FAULT( "device_write_error");
		if (transient) limit = (size_t)-1;
		ev( "deverr", dev.size());
		if (throws) throw std::runtime_error( "device");
		return false;
	}
	bool drain()
	{
		size_t n = (size_t)(pptr() - pbase()), done = 0;
		bool ok;
		try { ok = put( pbase(), n, done); }
		catch (...) { shift( done, n); throw; }
		shift( done, n);
		return ok;
	}
	void shift( size_t done, size_t n) { std::memmove( buf.data(), buf.data()+done, n-done); setp( buf.data(), buf.data()+buf.size()); pbump( (int)(n-done)); }
	std::string pending() const { return std::string( pbase() ? pbase() : "", (size_t)(pptr() - pbase())); }
	void discard() { dev.clear(); if (buf.size()) setp( buf.data(), buf.data()+buf.size()); }
	virtual int_type overflow( int_type c)
	{
		if (buf.empty()) { char ch = (char)c; size_t d; return put( &ch, 1, d) ? (c == traits_type::eof() ? 0 : c) : traits_type::eof(); }
		if (!drain()) return traits_type::eof();
		if (c != traits_type::eof()) { *pptr() = (char)c; pbump( 1); }
		return traits_type::not_eof( c);
	}
	virtual std::streamsize xsputn( const char* s, std::streamsize n)
	{
		if (!buf.empty()) return std::streambuf::xsputn( s, n);
		size_t d = 0; put( s, (size_t)n, d); return (std::streamsize)d;
	}
	virtual int sync() { return buf.empty() || drain() ? 0 : -1; }
};

static void runPrint( const Plan& p)
{
	int app = 0, io = 0, kind = SINK_STATIC; bool sub = false, exc = false, ext = false; size_t cap = 16, bs = 0; int devKind = 0;
	for (auto& r : p) if (r.tag == "W")
	{
		app = (int)r.numc( 0, 0, 7); io = (int)r.numc( 1, 0, E_NOF-1); sub = r.num( 2) != 0; kind = r.numc( 3, SINK_STATIC, SINK_OSTREAM);
		cap = (size_t)r.numc( 4, 0, 100000); bs = (size_t)r.numc( 5, 0, 10000); exc = r.num( 6) != 0; ext = r.num( 7) != 0; devKind = (int)r.numc( 8, 0, 2);
	}
	std::unique_ptr<char, void(*)(void*)> extbuf( ext ? (char*)std::malloc( cap) : 0, std::free);
	FailBuf fb( bs, cap, devKind == 1, devKind == 2);
	std::ostream os( &fb);
	if (exc) os.exceptions( std::ios_base::badbit|std::ios_base::failbit);
	SinkSpec ss; ss.kind = kind; ss.capacity = cap; ss.external = extbuf.get(); ss.os = &os;
	if (ext) std::memset( extbuf.get(), '#', cap);
	std::unique_ptr<PrinterBox> ref( makePrinter( app, io, sub, SinkSpec(), false)), box( makePrinter( app, io, sub, ss, false));
	PrModel m( app, io, sub);
	std::string log;
	auto ctx = [&]() { return fmt( " (application %s, output %s, sink %s of %u bytes%s); calls:", encName( app), encName( io), kind == SINK_STATIC ? "fixed buffer" : "stream", (unsigned)cap, ext ? ", external" : "") + log; };
	bool broken = false;		// after an exception
	size_t full = 0, calls = 0;
	auto check = [&]( bool flush)
	{
		std::string want( ref->data(), ref->size());
		if (kind == SINK_STATIC)
		{
			std::string got( box->data() ? box->data() : "", box->size());
			size_t n = std::min( want.size(), cap);
			if (got.size() > cap) fail( "beyond-capacity", fmt( "%u bytes held", (unsigned)got.size()) + ctx());
			if (want.compare( 0, got.size(), got) != 0) fail( "not-a-prefix", "the buffer holds \"" + printable( got) + "\", complete is \"" + printable( want) + "\"" + ctx());
			if (got.size() != n && !box->overflow()) fail( "unnoticed-partial", "the buffer holds \"" + printable( got) + "\" without overflow, complete is \"" + printable( want) + "\"" + ctx());
			if (want.size() > cap && !box->overflow()) fail( "unnoticed-partial", "output of " + fmt( "%u", (unsigned)want.size()) + " bytes without overflow" + ctx());
			if (want.size() <= cap && box->overflow()) fail( "false-overflow", "complete result, but overflow reported" + ctx());
			if (box->overflow()) { ++full; FAULT( "buffer_full"); }
			ev( "held", got.size(), box->overflow());
		}
		else
		{
			if (flush) { try { os.flush(); } catch (const std::ios_base::failure&) {} catch (const std::runtime_error&) {} }
			const std::string& got = fb.dev;
			if (got.size() > want.size() || want.compare( 0, got.size(), got) != 0) fail( "not-a-prefix", "the device received \"" + printable( got) + "\", complete is \"" + printable( want) + "\"" + ctx());
			if (flush && got.size() != want.size() && os.good()) fail( "unnoticed-partial", "the device received \"" + printable( got) + "\" and the stream is good, complete is \"" + printable( want) + "\"" + ctx());
			if (flush && got.size() == want.size() && !os.good() && !fb.transient && want.size() <= fb.limit) fail( "false-overflow", "complete result, but the stream failed" + ctx());
			if (!os.good()) ++full;
			ev( "received", got.size(), os.good());
		}
	};
	auto clear = [&]()
	{
		ref->clearSink(); box->clearSink();
		if (kind == SINK_OSTREAM) { fb.discard(); fb.limit = devKind == 1 ? (size_t)-1 : cap; try { os.clear(); } catch (...) {} }
		if (broken) { ref->reset( sub); box->reset( sub); m.reset( sub); broken = false; }
		log = "";
	};
	for (auto& r : p)
	{
		if (r.tag == "c") { PROBE( "sink_cleared"); clear(); continue; }
		if (r.tag == "h")
		{
			// the device recovers, the stream was not cleared
			if (kind == SINK_OSTREAM) { FAULT( "device_recovers"); fb.limit = fb.dev.size() + (size_t)r.numc( 0, 0, 100000) + (r.num( 0) > 40 ? 1000000 : 0); }
			continue;
		}
		if (r.tag != "o" || broken) continue;
		PrOp op = prOp( r, app, io);
		if (!m.usable( op)) continue;
		++calls;
		if (log.size() < 1000) log += " " + prOpStr( op);
		bool rr = doPrint( *ref, op);
		bool br = false;
		try { br = doPrint( *box, op); }
		catch (const std::ios_base::failure&) { if (!exc) throw; broken = true; FAULT( "stream_exception"); }
		catch (const std::runtime_error&) { if (!exc) throw; broken = true; FAULT( "stream_exception"); }
		ev( "print", rr, br);
		if (!broken)
		{
			if (rr != br) fail( "bounded-print-differs", prOpStr( op) + fmt( " returns %d, %d with an unbounded sink", br, rr) + ctx());
			if (ref->state() != box->state()) fail( "bounded-print-differs", prOpStr( op) + fmt( " leads to state %d, %d with an unbounded sink", box->state(), ref->state()) + ctx());
			if (rr && m.legal( op)) m.apply( op);
		}
		check( (mix64( calls) & 3) == 0);
	}
	check( true);
	clear();
	if (calls > 2 && full) nontrivial();
}

// ---- the buffer itself
struct MBuf { std::string v; size_t cap; bool over; };
static void runBuffer( const Plan& p)
{
	size_t cap = 4, init = 0; bool ext = false;
	for (auto& r : p) if (r.tag == "B") { cap = (size_t)r.numc( 0, 0, 100000); ext = r.num( 1) != 0; init = ext ? (size_t)r.numc( 2, 0, (i64)cap) : 0; break; }
	std::unique_ptr<char, void(*)(void*)> extbuf( (char*)std::malloc( cap), std::free);
	std::memset( extbuf.get(), 'i', cap);
	std::vector<std::unique_ptr<StaticBuffer> > bufs;
	std::vector<MBuf> ms;
	bufs.push_back( std::unique_ptr<StaticBuffer>( ext ? init ? new StaticBuffer( extbuf.get(), cap, init) : new StaticBuffer( extbuf.get(), cap) : new StaticBuffer( cap)));
	ms.push_back( MBuf{ std::string( init, 'i'), cap, false});
	std::string log = fmt( " (capacity %u%s); calls:", (unsigned)cap, ext ? ", external" : "");
	size_t full = 0;
	for (auto& r : p)
	{
		if (r.tag != "u") continue;
		size_t w = (size_t)r.numc( 3, 0, 2) % bufs.size();
		StaticBuffer& b = *bufs[w]; MBuf& m = ms[w];
		size_t a = (size_t)r.numc( 1, 0, 100000); char ch = (char)(unsigned char)(r.num( 2) & 255);
		int op = (int)r.numc( 0, 0, 8);
		log += fmt( " %u.%d(%u)", (unsigned)w, op, (unsigned)a);
		auto oor = [&]( bool idx) -> bool
		{
			try { if (idx) { char c = b[a]; if (a < m.v.size() && c != m.v[a]) fail( "index", "wrong character" + log); } else { char& c = b.at( a); c = ch; } }
			catch (const textwolf::exception& e)
			{
				if (e.cause != textwolf::throws_exception::DimOutOfRange) fail( "index", "wrong exception" + log);
				return true;
			}
			return false;
		};
		switch (op)
		{
			case 0: case 1: b.push_back( ch); if (m.v.size() < m.cap) m.v += ch; else m.over = true; break;
			case 2:
			{
				std::string s( a, ch);
				char* x = (char*)std::malloc( a ? a : 1); std::memcpy( x, s.data(), a);
				b.append( x, a); std::free( x);
				if (m.v.size() + a > m.cap) m.over = true;
				m.v += s.substr( 0, m.cap - m.v.size());
				break;
			}
			case 3:
				b.resize( a, ch);
				if (a > m.cap) m.over = true;
				m.v.resize( std::min( a, m.cap), ch);
				break;
			case 4: if (a % 3 == 0) { b.clear(); m.v.clear(); m.over = false; } break;
			case 5: if (oor( true) != (a >= m.v.size())) fail( "index", fmt( "index %u of %u", (unsigned)a, (unsigned)m.v.size()) + log); break;
			case 6: if (oor( false) != (a >= m.v.size())) fail( "index", fmt( "at %u of %u", (unsigned)a, (unsigned)m.v.size()) + log); if (a < m.v.size()) m.v[a] = ch; break;
			case 7: if (bufs.size() < 4) { bufs.push_back( std::unique_ptr<StaticBuffer>( new StaticBuffer( b))); MBuf c = m; ms.push_back( c); } break;
			case 8: { size_t o = a % bufs.size(); *bufs[o] = b; MBuf c = m; ms[o] = c; break; }
		}
		for (size_t i=0; i<bufs.size(); ++i)
		{
			const StaticBuffer& x = *bufs[i]; const MBuf& y = ms[i];
			if (x.size() != y.v.size() || (y.v.size() && std::memcmp( x.ptr(), y.v.data(), y.v.size()) != 0)) fail( "not-a-prefix", fmt( "buffer %u holds \"", (unsigned)i) + printable( std::string( x.ptr(), x.size())) + "\" expected \"" + printable( y.v) + "\"" + log);
			if (x.overflow() != y.over) fail( y.over ? "unnoticed-partial" : "false-overflow", fmt( "buffer %u: overflow is %d expected %d", (unsigned)i, x.overflow(), y.over) + log);
			if (y.over) ++full;
		}
		ev( "buf", ms[w].v.size(), ms[w].over);
	}
	if (full) { FAULT( "buffer_full"); nontrivial(); }
}

// ---- single characters
template <class CS> struct Mk { static CS get( int) {return CS();} };
template <> struct Mk<textwolf::charset::IsoLatin> { static textwolf::charset::IsoLatin get( int page) {return textwolf::charset::IsoLatin( page ? page : 1);} };

template <class Out>
static void printBounded( const ustr& t, int enc, int oenc, size_t cap, bool& full)
{
	Out cs( Mk<Out>::get( oenc >= E_ISO1 ? pageOf( oenc) : 0));
	StaticBuffer b( cap); std::string s;
	for (char32_t c : t)
	{
		cs.print( c, b); cs.print( c, s);
		size_t n = std::min( cap, s.size());
		if (b.size() > n || std::memcmp( b.ptr(), s.data(), b.size()) != 0) fail( "not-a-prefix", fmt( "printing U+%04X to %s", (unsigned)c, encName( oenc)));
		if (b.overflow() != (s.size() > cap)) fail( "unnoticed-partial", fmt( "printing U+%04X to %s into a buffer of %u bytes: %u bytes, overflow %d", (unsigned)c, encName( oenc), (unsigned)cap, (unsigned)s.size(), b.overflow()));
		if (!b.overflow() && b.size() != s.size()) fail( "unnoticed-partial", fmt( "printing U+%04X to %s", (unsigned)c, encName( oenc)));
	}
	if (b.overflow()) full = true;
	(void)enc;
}
template <class In>
static void copyBounded( const std::string& bytes, int enc, int oenc, size_t cap, size_t nch, bool& full)
{
	In ocs( Mk<In>::get( oenc >= E_ISO1 && enc >= E_ISO1 ? pageOf( oenc) : 1));
	In ics( Mk<In>::get( enc >= E_ISO1 ? pageOf( enc) : 0));
	std::unique_ptr<char, void(*)(void*)> ext( (char*)std::malloc( cap), std::free);
	char* copy = (char*)std::malloc( bytes.size() ? bytes.size() : 1);
	std::unique_ptr<char, void(*)(void*)> cp( copy, std::free);
	std::memcpy( copy, bytes.data(), bytes.size());
	textwolf::TextScanner<textwolf::CStringIterator,In> a( ics, textwolf::CStringIterator( copy, bytes.size())), c( ics, textwolf::CStringIterator( copy, bytes.size()));
	StaticBuffer b( ext.get(), cap); std::string s;
	for (size_t i=0; i<nch; ++i)
	{
		a.copychar( ocs, b); c.copychar( ocs, s);
		size_t n = std::min( cap, s.size());
		if (b.size() > n || std::memcmp( b.ptr(), s.data(), b.size()) != 0) fail( "not-a-prefix", fmt( "copying character %u in %s", (unsigned)i, encName( enc)));
		if (b.overflow() != (s.size() > cap)) fail( "unnoticed-partial", fmt( "copying character %u in %s into a buffer of %u bytes", (unsigned)i, encName( enc), (unsigned)cap));
		if (!b.overflow() && b.size() != s.size()) fail( "unnoticed-partial", fmt( "copying character %u in %s", (unsigned)i, encName( enc)));
		++a; ++c;
	}
	if (b.overflow()) full = true;
}
static void runChars( const Plan& p)
{
	using namespace textwolf::charset;
	bool full = false; size_t n = 0;
	for (auto& r : p)
	{
		if (r.tag != "t") continue;
		int enc = (int)r.numc( 0, 0, E_NOF-1), oenc = (int)r.numc( 1, 0, E_NOF-1); size_t cap = (size_t)r.numc( 2, 0, 1000);
		ustr t; for (char32_t c : r.str( 0)) if (c && c < 0x110000 && (c < 0xD800 || c > 0xDFFF)) t.push_back( c);
		ustr te; for (char32_t c : t) if (representable( enc, c)) te.push_back( c);
		n += t.size();
		std::string bytes = encodeStr( enc, te);
		evs( "text", bytes);
#define CASES(F,K,...) switch (csOf( K)) { case 0: F<UTF8>( __VA_ARGS__); break; case 1: F<UTF16LE>( __VA_ARGS__); break; case 2: F<UTF16BE>( __VA_ARGS__); break; case 3: F<UCS2LE>( __VA_ARGS__); break; case 4: F<UCS2BE>( __VA_ARGS__); break; case 5: F<UCS4LE>( __VA_ARGS__); break; case 6: F<UCS4BE>( __VA_ARGS__); break; default: F<IsoLatin>( __VA_ARGS__); }
		CASES( printBounded, oenc, t, enc, oenc, cap, full)
		CASES( copyBounded, enc, bytes, enc, oenc, cap, te.size(), full)
#undef CASES
		// numeric entities into a buffer of fixed size
		char32_t c = (char32_t)r.numc( 3, 1, 0x1FFFFF);
		std::string want = fmt( "&#x%x;", (unsigned)c); want += '\0';
		std::unique_ptr<char, void(*)(void*)> ext( (char*)std::malloc( cap), std::free);
		bool ok = Encoder::encode( c, ext.get(), cap);
		if (ok != (want.size() <= cap)) fail( "unnoticed-partial", fmt( "entity of U+%04X into %u bytes returns %d", (unsigned)c, (unsigned)cap, ok));
		if (std::memcmp( ext.get(), want.data(), std::min( cap, want.size())) != 0) fail( "not-a-prefix", fmt( "entity of U+%04X into %u bytes", (unsigned)c, (unsigned)cap));
		ev( "entity", c, ok);
	}
	if (full && n > 1) { FAULT( "buffer_full"); nontrivial(); }
}

// ---- the output to a stream itself: appended arrays arrive completely or the stream says so
static void runOstream( const Plan& p)
{
	size_t limit = 0, bs = 0; bool exc = false; int devKind = 0;
	for (auto& r : p) if (r.tag == "V") { limit = (size_t)r.numc( 0, 0, 100000); bs = (size_t)r.numc( 1, 0, 10000); exc = r.num( 2) != 0; devKind = (int)r.numc( 3, 0, 2); }
	FailBuf fb( bs, limit, devKind == 1, devKind == 2);
	std::ostream os( &fb);
	if (exc) os.exceptions( std::ios_base::badbit|std::ios_base::failbit);
	std::vector<std::unique_ptr<textwolf::OstreamOutput> > out;
	out.push_back( std::unique_ptr<textwolf::OstreamOutput>( new textwolf::OstreamOutput( &os)));
	std::string have, log;
	size_t failed = 0, ops = 0;
	for (auto& r : p)
	{
		if (r.tag != "v") continue;
		int op = (int)r.numc( 0, 0, 6); size_t w = (size_t)r.numc( 1, 0, 2) % out.size(), n = (size_t)r.numc( 2, 0, 100000);
		std::string a;
		if (op == 0 || op == 1) a.push_back( (char)r.num( 3));
		else if (op <= 3) for (size_t i=0; i<n; ++i) a.push_back( (char)(r.num( 3) + i*7));
		if (log.size() < 300) log += fmt( " %d:%u", op, (unsigned)n);
		bool was = os.good(), thrown = false;
		++ops;
		try
		{
			switch (op)
			{
				case 0: case 1: out[w]->push_back( a[0]); break;
				case 2: case 3: { std::unique_ptr<char, void(*)(void*)> x( (char*)std::malloc( n ? n : 1), std::free); std::memcpy( x.get(), a.data(), n); out[w]->append( x.get(), n); break; }
				case 4: if (out.size() < 3) out.push_back( std::unique_ptr<textwolf::OstreamOutput>( new textwolf::OstreamOutput( *out[w]))); break;
				case 5: os.flush(); break;
				case 6: if (!os.good()) { fb.limit = (size_t)-1; os.clear(); FAULT( "device_recovers"); } break;
			}
		}
		catch (const std::ios_base::failure&) { if (!exc) throw; thrown = true; }
		catch (const std::runtime_error&) { if (!exc) throw; thrown = true; }
		if (thrown) FAULT( "stream_exception");
		std::string held = fb.dev + fb.pending();
		std::string all = have + a;
		if (held.size() > all.size() || all.compare( 0, held.size(), held) != 0) fail( "not-a-prefix", "the stream holds \"" + printable( held) + "\", complete is \"" + printable( all) + "\"; operations:" + log);
		if (held.size() < have.size()) fail( "not-a-prefix", "the stream lost what it had; operations:" + log);
		if (held.size() != all.size() && os.good()) fail( "unnoticed-partial", "the stream holds \"" + printable( held) + "\" and is good, complete is \"" + printable( all) + "\"; operations:" + log);
		if (!was && !a.empty() && held.size() != have.size()) fail( "not-a-prefix", "the stream accepts output in failed state; operations:" + log);
		if (!os.good()) ++failed;
		ev( "held", held.size(), os.good());
		have = held;
	}
	if (ops > 3 && failed) nontrivial();
}

// ---- names in path expressions
static void runNames( const Plan& p)
{
	for (auto& r : p)
	{
		if (r.tag != "L") continue;
		int atm = (int)r.numc( 0, 0, ATM_NOF-1), psrc = (int)r.numc( 1, 0, PSRC_NOF-1), kind = (int)r.numc( 2, 0, 2); bool api = r.num( 3) != 0;
		size_t len = (size_t)r.numc( 4, 1, 5000); char32_t ch = (char32_t)r.numc( 5, 'a', 0xFFFF);
		int enc = atmEnc( atm), penc = parseEnc( psrc);
		if (ch < 'a' || (ch > 'z' && ch < 0xC0) || (ch >= 0xD800 && ch < 0xE000) || !representable( enc, ch) || !representable( penc, ch)) ch = 'a';
		ustr name( len, ch); name.back() = 'z';
		std::unique_ptr<AtmBox> box( makeAtm( atm, psrc));
		RExpr first; { RStep s; s.names.push_back( asciiU( "short")); first.steps.push_back( s); first.type = 1; first.api = api; }
		addExpr( *box, first, enc, penc);
		RExpr e; e.type = 2; e.api = api; e.style = mix64( len);
		{ RStep s; s.kind = P_TAG; s.names.push_back( kind == 0 ? name : asciiU( "t")); e.steps.push_back( s); }
		if (kind == 1) { RStep s; s.kind = P_ATTR; s.names.push_back( name); e.steps.push_back( s); }
		if (kind == 2) { RStep s; s.kind = P_COND; s.names.push_back( asciiU( "k")); s.value = name; e.steps.push_back( s); }
		bool rejected = false;
		try
		{
			if (api) for (auto& x : exprToApi( e, enc)) box->build( x);
			else { std::string src = exprToString( e, penc); rejected = box->parse( 2, src.data(), src.size()) != 0; }
		}
		catch (const textwolf::exception&) { rejected = true; }
		std::string full = encodeStr( enc, name);
		ev( "name", len, rejected);
		if (rejected) { FAULT( "name_rejected"); if (full.size() <= 256) fail( "short-name-rejected", fmt( "name of %u bytes rejected", (unsigned)full.size())); }
		// every name that is not the one of the expression must not select anything
		unsigned u = (unsigned)encodeStr( enc, asciiU( "z")).size();
		std::vector<std::string> cand;
		cand.push_back( full);
		cand.push_back( full + encodeStr( enc, asciiU( "q")));
		cand.push_back( full.substr( 0, full.size()-u));
		cand.push_back( full.substr( 0, full.size()-u) + encodeStr( enc, asciiU( "y")));
		for (size_t c : {255u,256u,511u,512u,1020u,1022u,1023u,1024u,1028u}) if (c < full.size()) cand.push_back( full.substr( 0, c));
		for (size_t i=0; i<cand.size(); ++i)
		{
			std::unique_ptr<SelBox> sel( box->newSel());
			std::vector<int> got;
			auto push = [&]( int t, const std::string& s) { char* x = (char*)std::malloc( s.size() ? s.size() : 1); std::memcpy( x, s.data(), s.size()); sel->push( t, x, s.size(), i, got); std::free( x); };
			push( I_OpenTag, kind == 0 ? cand[i] : encodeStr( enc, asciiU( "t")));
			if (kind) push( I_TagAttribName, kind == 1 ? cand[i] : encodeStr( enc, asciiU( "k")));
			if (kind) push( I_TagAttribValue, kind == 2 ? cand[i] : encodeStr( enc, asciiU( "v")));
			size_t hits = (size_t)std::count( got.begin(), got.end(), 2);
			bool want = !rejected && i == 0;
			if ((hits > 0) != want) fail( "truncated-name", fmt( "expression with a %s of %u bytes%s: a document with one of %u bytes (candidate %u) is %sselected", kind == 0 ? "tag" : kind == 1 ? "attribute" : "value", (unsigned)full.size(), rejected ? " (rejected)" : "", (unsigned)cand[i].size(), (unsigned)i, hits ? "" : "not "));
		}
		std::unique_ptr<SelBox> sel( box->newSel());
		std::vector<int> got;
		std::string s = encodeStr( enc, asciiU( "short"));
		sel->push( I_OpenTag, s.data(), s.size(), 0, got);
		if (got.size() != 1 || got[0] != 1) fail( "truncated-name", "the expression defined before selects wrongly");
		if (full.size() > 900) nontrivial();
	}
}

static void execute( const Plan& p)
{
	switch (p.empty() || p[0].tag != "m" ? 0 : (int)p[0].numc( 0, 0, 5))
	{
		case MODE_SCAN: COUNT( "mode_scan", 1); runScan( p); break;
		case MODE_PRINT: COUNT( "mode_print", 1); runPrint( p); break;
		case MODE_BUFFER: COUNT( "mode_buffer", 1); runBuffer( p); break;
		case MODE_CHARS: COUNT( "mode_characters", 1); runChars( p); break;
		case MODE_OSTREAM: COUNT( "mode_ostream", 1); runOstream( p); break;
		default: COUNT( "mode_names", 1); runNames( p); break;
	}
}
const Property g_property = {"C09", generate, execute};
}//namespace
