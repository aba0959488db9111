// C10: histories of scanning, selecting, building expressions, printing, header parsing and buffering in which
// allocations fail: once, several times or from some point on, also while recovering.
#include "sessions.hpp"
#include "reader.hpp"
#include "expr.hpp"
#include "prhist.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/staticbuffer.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <new>
namespace sim {

enum {M_SCAN,M_PATH,M_PRINT,M_HDR,M_BUFFER,M_READER,M_NOF};
// plan: f mode which count recoveries seed fill; the rest as in C02 (scan, reader: T), C06 (path), C08 (print: o), h (header), u (buffer)
struct FP { int mode; u64 which; int count; int again; u64 seed; int fill; };

static Plan generate( Rng& rng)
{
	Plan p;
	int d = (int)rng.below( 100);
	int mode = d < 22 ? M_SCAN : d < 58 ? M_PATH : d < 80 ? M_PRINT : d < 88 ? M_HDR : d < 94 ? M_BUFFER : M_READER;
	p.push_back( Rec( "f", {mode, (i64)rng.below( 1000000), rng.chance( 70) ? 1 : rng.chance( 60) ? rng.range( 2, 4) : 1000000, (i64)(rng.chance( 60) ? 0 : rng.range( 1, 3)), (i64)rng.below( 1000000), rng.chance( 50) ? (i64)rng.below( 256) : -1}));
	switch (mode)
	{
		case M_SCAN:
		{
			int enc = rng.chance( 40) ? 0 : (int)rng.below( E_NOF);
			GenOpts o; DocModel m; Plan doc;
			o.maxNodes = rng.chance( 70) ? 5 : 14; o.nonAsciiPct = rng.chance( 50) ? 5 : 40;
			genDoc( rng, enc, o, doc);
			for (auto& r : doc) for (auto& s : r.s) if (rng.chance( 12) && !s.empty()) { ustr x = s; while (s.size() < 400 && rng.chance( 85)) s += x; }	// the item buffer has to grow
			renderDoc( doc, 0, doc.size(), enc, 0, m);
			genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, rng.chance( 55) ? SRC_CHUNK : rng.chance( 60) ? SRC_STREAM : (int)rng.range( 1, 2), 0);
			p.insert( p.end(), doc.begin(), doc.end());
			break;
		}
		case M_PATH:
		{
			int atm = (int)rng.below( ATM_NOF);
			p.push_back( Rec( "A", {atm, (i64)rng.below( PSRC_NOF)}));
			GenOpts o; DocModel m; Plan doc;
			o.maxNodes = rng.chance( 70) ? 8 : 25; o.balanced = true; o.header = rng.chance( 20); o.doctype = false;
			genDoc( rng, 0, o, doc);
			if (rng.chance( 70))
			{
				std::vector<ustr> pool; int np = (int)rng.range( 1, 3);
				for (int i=0; i<np; ++i) pool.push_back( genName( rng, 0, 0, 4));
				std::vector<ustr> st;
				for (auto& r : doc)
				{
					if (r.tag == "do") { for (size_t i=0; i<r.s.size(); ++i) if (i == 0 || rng.chance( 70)) r.s[i] = rng.pick( pool); if (!r.num( 1)) st.push_back( r.s.empty() ? ustr() : r.s[0]); }
					else if (r.tag == "dc" && !st.empty()) { r.s = {st.back()}; st.pop_back(); }
				}
			}
			renderDoc( doc, 0, doc.size(), 0, 0, m);
			std::vector<DocNode> nodes; docNodes( m.items, nodes);
			int ne = (int)rng.range( 1, 7);
			for (int i=0; i<ne; ++i) p.push_back( exprToRec( genExpr( rng, nodes, o.header, i+1)));
			p.insert( p.end(), doc.begin(), doc.end());
			break;
		}
		case M_PRINT:
		{
			int io = rng.chance( 30) ? 0 : (int)rng.below( E_NOF), app = rng.chance( 35) ? 0 : (int)rng.below( 8); bool sub = rng.chance( 25);
			PrModel m( app, io, sub);
			p.push_back( Rec( "W", {app, io, sub, rng.chance( 40)}));
			int n = (int)rng.range( 3, 40), deep = rng.chance( 50) ? 60 : 0;
			for (int i=0; i<n; ++i)
			{
				Rec r = m.state != PS_INIT && m.state != PS_ATTR && rng.chance( deep) ? Rec( "o", {PO_OPEN,0}, {genName( rng, io, 10, rng.chance( 30) ? 200 : 30)}) : genPrOp( rng, app, io, m, 5);
				PrOp op = prOp( r, app, io);
				if (!m.usable( op)) continue;
				if (m.legal( op)) m.apply( op);
				p.push_back( r);
			}
			break;
		}
		case M_HDR:
		{
			static const char* EN[] = {"UTF-8","ISO-8859-1","a-very-long-encoding-name-that-needs-an-allocation-of-its-own","x"};
			std::string h = rng.chance( 80) ? std::string( "<?xml version='1.0' encoding='") + EN[ rng.below( 4)] + "' standalone=\"yes\"?><a/>" : rng.chance( 50) ? "<?xml version='1.0' foobar_a_name_longer_than_the_small_string_buffer='x'?>" : "<document/>";
			Rec r( "h", {(i64)rng.below( 8)}, {asciiU( h)});
			int n = (int)rng.below( 6);
			for (int i=0; i<n; ++i) r.n.push_back( (i64)rng.below( 400));
			p.push_back( r);
			break;
		}
		case M_BUFFER:
		{
			int n = (int)rng.range( 3, 25);
			for (int i=0; i<n; ++i) p.push_back( Rec( "u", {(i64)rng.below( 6), (i64)rng.below( 60), (i64)rng.below( 256), (i64)rng.below( 4)}));
			break;
		}
		default:
		{
			int enc = (int)rng.below( E_NOF);
			GenOpts o; o.nonAsciiPct = 40;
			Plan dl;
			genDelivery( rng, std::vector<size_t>(), 60, unitOf( enc), dl, enc, SRC_STREAM, 0);
			p.insert( p.end(), dl.begin(), dl.end());
			p.push_back( Rec( "T", {}, {genText( rng, enc, o, 30)}));
		}
	}
	return p;
}

// ---- execution under allocation failures
namespace {
struct Env
{
	FP f; bool faulty; Rng rng; int again; std::string log; u64 failures; bool shortage;
	Env( const FP& f_, bool faulty_) :f(f_),faulty(faulty_),rng(f_.seed),again(f_.again),failures(0),shortage(false){}
	// run an operation of the library; false if it reported a failure caused by the shortage
	template <class F> bool op( const char* name, F fn)
	{
		u64 fired0 = mem::fired();
		const char* err = 0; std::string what;
		g_what = name;
		mem::resume( true);
		try { fn(); }
		catch (const Fail&) { mem::pause(); throw; }
		catch (const std::bad_alloc&) { err = "bad_alloc"; }
		catch (const textwolf::exception& e) { mem::pause(); err = "textwolf::exception"; what = e.what(); }
		catch (const std::exception& e) { mem::pause(); err = "std::exception"; what = e.what(); }
		mem::pause();
		bool fired = mem::fired() != fired0;
		ev( name, fired, err != 0);
		if (fired) { FAULT( "allocation_failed"); ++failures; log += fmt( " [allocation fails in %s: %s]", name, err ? err : "no exception"); countDyn( std::string( "fault.in.") + name); }
		if (err && !fired) fail( "exception-without-failure", fmt( "%s throws %s %s, but no allocation failed", name, err, what.c_str()) + log);
		if (err) FAULT( "operation_failed");
		return err == 0;
	}
	// the shortage is over, possibly until the next one
	void recover()
	{
		if (again > 0) { --again; mem::rearm( 1 + (i64)rng.below( 12), rng.chance( 70) ? 1 : 3); PROBE( "fails_again_while_recovering"); }
		else mem::rearm( 0, 0);
	}
	// operation that is repeated after the shortage; must succeed then
	template <class F> void must( const char* name, F fn)
	{
		for (int i=0; i<50; ++i) { if (op( name, fn)) return; recover(); PROBE( "repeated_after_shortage"); }
		fail( "no-recovery", std::string( name) + " fails without shortage" + log);
	}
};
}

// -- scanning
static void runScan( Env& env, const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	if (specs.empty()) return;
	SessionSpec& s = specs[0];
	if (s.dl.kind != SRC_CHUNK && s.csOut != csOf( s.encIn)) s.csOut = s.encOut = 0;
	DocModel m; renderDoc( p, s.recB, s.recE, s.encIn, &s.ents, m);
	const std::string& bytes = m.bytes;
	auto desc = [&]() { return env.log + "; " + fmt( "%s->cs%d kind %d doc=\"", encName( s.encIn), s.csOut, s.dl.kind) + printable( bytes.substr( 0, 300)) + "\""; };
	std::unique_ptr<char, void(*)(void*)> zdata( (char*)std::calloc( bytes.size()+16, 1), std::free);
	std::memcpy( zdata.get(), bytes.data(), bytes.size());
	bool allowClone = s.dl.kind != SRC_STREAM;
	struct Obj { std::unique_ptr<ScannerBox> sc; std::unique_ptr<SimStream> st; std::vector<char*> chunks; size_t fed; bool final; bool started; ~Obj() { sc.reset(); for (char* c : chunks) std::free( c); } };
	auto open = [&]( Obj& o, bool must) -> bool
	{
		ScanSource src;
		src.kind = s.dl.kind; src.page = s.encIn >= E_ISO1 ? pageOf( s.encIn) : 0; src.setSource = s.dl.setSource; src.useIterator = s.dl.useIterator && !s.ents.ent.size();
		src.entities = s.ents.ent.empty() ? 0 : &s.ents;
		src.cptr = zdata.get(); src.str = zdata.get(); src.strsize = bytes.size();
		o.st.reset( new SimStream( bytes, s.dl.cuts)); src.stream = o.st.get(); src.bufsize = s.dl.bufsize;
		o.fed = 0; o.final = false; o.started = s.dl.kind != SRC_CHUNK;
		auto mk = [&]() { o.sc.reset( makeScanner( csOf( s.encIn), s.csOut, src)); };
		if (must) { env.must( "scanner constructor", [&]() { { MemPause mp; o.st.reset( new SimStream( bytes, s.dl.cuts)); src.stream = o.st.get(); } mk(); }); return true; }
		return env.op( "scanner constructor", mk);
	};
	// one item; 0: failed, 1: item, 2: end
	auto pull = [&]( Obj& o, std::vector<Item>& items, bool check) -> int
	{
		for (;;)
		{
			int t = SUSPENDED;
			if (o.started && !env.op( "nextItem", [&]() { t = o.sc->next( 0xFFFF); })) return 0;
			o.started = true;
			if (t == SUSPENDED)
			{
				if (o.final) fail( "asks-for-more", "scanner asks for input after the final chunk" + desc());
				size_t e = bytes.size();
				for (size_t c : s.dl.cuts) if (c > o.fed && c < e) { e = c; break; }
				char* c = (char*)std::malloc( e - o.fed ? e - o.fed : 1); o.chunks.push_back( c);
				std::memcpy( c, bytes.data()+o.fed, e - o.fed);
				o.final = e == bytes.size();
				size_t n = e - o.fed; o.fed = e;
				o.sc->feed( c, n, o.final);
				continue;
			}
			Item it; readItem( *o.sc, t, 0xFFFF, it, false);
			if (s.dl.useIterator && t != I_Error) { it.data.assign( o.sc->ptr(), o.sc->size()); }
			ev( "item", (u64)t); evs( "data", it.data);
			if (check)
			{
				size_t i = items.size();
				int xt = i < m.items.size() ? m.items[i].type : I_Exit;
				if (t != xt || (i < m.items.size() && it.data != encodeStr( s.encOut, m.items[i].text))) fail( "items-differ", fmt( "item %u is %s expected %s", (unsigned)i, itemStr( it).c_str(), itemName( xt)) + desc());
			}
			items.push_back( it);
			if (items.size() > bytes.size()*2+64) fail( "too-many-items", desc());
			return t == I_Exit || t == I_Error ? 2 : 1;
		}
	};
	// the document up to its end with correct results, after the shortage
	auto whole = [&]()
	{
		for (int k=0; k<50; ++k)
		{
			env.recover();
			Obj o; open( o, true);
			std::vector<Item> items; int r;
			while ((r = pull( o, items, true)) == 1) {}
			if (r == 2) { PROBE( "scanned_again_after_shortage"); env.op( "destructor", [&]() { o.sc.reset(); }); return; }
		}
		fail( "no-recovery", desc());
	};
	Obj o;
	if (!open( o, false)) { whole(); return; }
	std::vector<Item> items;
	std::vector<std::unique_ptr<Obj> > others;
	for (;;)
	{
		if (allowClone && env.rng.chance( 12))
		{
			// a copy, by construction or assignment; the original is not affected if it fails
			std::unique_ptr<Obj> c( new Obj); c->fed = o.fed; c->final = o.final; c->started = o.started;
			bool asg = env.rng.chance( 40);
			bool ok = true;
			if (asg) { ok = open( *c, false); c->fed = o.fed; c->final = o.final; c->started = o.started; }
			if (ok) ok = asg ? env.op( "scanner assignment", [&]() { c->sc->assign( *o.sc); }) : env.op( "scanner copy", [&]() { c->sc.reset( o.sc->clone()); });
			if (!ok) PROBE( "copy_failed");
			else if (env.rng.chance( 50) && !s.dl.useIterator) { std::swap( o.sc, c->sc); PROBE( "continued_with_a_copy"); }
			if (env.rng.chance( 50)) { env.op( "destructor", [&]() { c->sc.reset(); }); }
			else others.push_back( std::move( c));
		}
		u64 f0 = env.failures;
		int r = pull( o, items, true);
		if (r == 2) break;
		if (r == 0)
		{
			(void)f0;
			switch (env.rng.below( 4))
			{
				case 0: env.op( "destructor", [&]() { o.sc.reset(); }); break;
				case 1: { PROBE( "used_after_the_failure"); int n = (int)env.rng.below( 20); std::vector<Item> x; while (n-- > 0 && pull( o, x, false) == 1) {} break; }
				case 2: { if (allowClone) env.op( "scanner copy", [&]() { std::unique_ptr<ScannerBox> c( o.sc->clone()); o.sc.swap( c); }); break; }
				default: break;
			}
			whole();
			break;
		}
	}
	env.op( "destructor", [&]() { o.sc.reset(); for (auto& c : others) c->sc.reset(); });
}

// -- reading characters from a stream
static void runReader( Env& env, const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	if (specs.empty()) return;
	SessionSpec& s = specs[0];
	ustr t; std::string bytes;
	for (auto& r : p) if (r.tag == "T") for (char32_t c : r.str( 0)) if (c && c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000) && representable( s.encIn, c)) { t.push_back( c); encodeOut( s.encIn, c, bytes); }
	std::unique_ptr<SimStream> st;
	ScanSource src; src.kind = SRC_STREAM; src.page = s.encIn >= E_ISO1 ? pageOf( s.encIn) : 0; src.bufsize = s.dl.bufsize;
	std::unique_ptr<ReaderBox> rd, other;
	// a constructor that failed may have read from the stream
	env.must( "reader constructor", [&]() { { MemPause mp; st.reset( new SimStream( bytes, s.dl.cuts)); src.stream = st.get(); } rd.reset( makeReader( csOf( s.encIn), src)); });
	SimStream st2( bytes, s.dl.cuts); ScanSource src2 = src; src2.stream = &st2; src2.bufsize = 1 + env.rng.below( 100);
	if (!env.op( "reader constructor", [&]() { other.reset( makeReader( csOf( s.encIn), src2)); })) PROBE( "constructor_failed");
	for (size_t i=0; i<=t.size(); ++i)
	{
		char32_t c = 0;
		// a failed copy or assignment does not affect the original (copies share the stream, so they are used only after the original)
		if (env.rng.chance( 20)) { if (!env.op( "reader copy", [&]() { std::unique_ptr<ReaderBox> x( rd->clone()); })) PROBE( "copy_failed"); }
		if (env.rng.chance( 20) && other) { if (!env.op( "reader assignment", [&]() { other->assign( *rd); })) { PROBE( "copy_failed"); if (env.rng.chance( 50)) env.op( "destructor", [&]() { other.reset(); }); } }
		env.must( "chr", [&]() { rd->chr( c); });
		if (c != (i < t.size() ? t[i] : 0)) fail( "items-differ", fmt( "character %u is U+%04X", (unsigned)i, (unsigned)c) + env.log);
		if (i < t.size()) env.must( "skip", [&]() { rd->skip(); });
	}
	if (other) env.op( "chr", [&]() { char32_t c; other->chr( c); other->skip(); other->chr( c); });
	env.op( "destructor", [&]() { rd.reset(); other.reset(); });
}

// -- path expressions and selections
static void runPath( Env& env, const Plan& p)
{
	int atm = 0, psrc = 0;
	for (auto& r : p) if (r.tag == "A") { atm = (int)r.numc( 0, 0, ATM_NOF-1); psrc = (int)r.numc( 1, 0, PSRC_NOF-1); }
	int enc = atmEnc( atm), penc = parseEnc( psrc);
	DocModel m; renderDoc( p, 0, p.size(), 0, 0, m);
	bool headers = false;
	for (auto& i : m.items) if (i.type == I_HeaderStart) headers = true;
	std::vector<std::string> text;
	for (auto& i : m.items) text.push_back( encodeStr( enc, i.text));
	struct Def { RExpr e; std::vector<PExpr> calls; std::string src; bool api; };
	std::vector<Def> defs;
	std::string descr = "; expressions:";
	for (auto& r : p) if (r.tag == "p" && defs.size() < 12)
	{
		Def d; exprFromRec( r, headers, d.e);
		d.e.type = (int)defs.size() + 1;
		d.api = d.e.api;
		for (auto& s : d.e.steps) for (auto& n : s.names) for (char32_t c : n) if (!representable( penc, c)) d.api = true;
		d.calls = exprToApi( d.e, enc); d.src = exprToString( d.e, penc);
		descr += " " + printable( exprToString( d.e, E_UTF8)) + (d.api ? "(calls)" : "");
		defs.push_back( d);
	}
	descr += "; doc=\"" + printable( m.bytes.substr( 0, 300)) + "\"";
	std::vector<RExpr> exprs; for (auto& d : defs) exprs.push_back( d.e);
	Selected expect;
	if (!refSelect( exprs, m.items, enc, expect)) return;
	enum {OK,TAINTED,ONCE};		// tainted: not defined completely; once: defined after failed attempts (may be selected more than once)
	std::vector<int> st( defs.size()+1, TAINTED);
	std::unique_ptr<AtmBox> box;
	env.must( "automaton constructor", [&]() { box.reset( makeAtm( atm, psrc)); });
	for (size_t i=0; i<defs.size(); ++i)
	{
		Def& d = defs[i];
		bool clean = true;
		for (int k=0; ; ++k)
		{
			int rc = 0; bool ok; u64 f0 = env.failures;
			if (d.api) ok = env.op( "builder calls", [&]() { for (auto& x : d.calls) box->build( x); });
			else
			{
				ok = env.op( "addExpression", [&]() { rc = box->parse( d.e.type, d.src.data(), d.src.size()); });
				if (ok && rc) { if (env.failures == f0) fail( "expression-rejected", d.src + env.log + descr); ok = false; }
			}
			if (ok) { st[i+1] = clean ? OK : ONCE; break; }
			clean = false;
			if (env.rng.chance( 40)) { PROBE( "expression_given_up"); env.recover(); break; }
			if (k > 40) fail( "no-recovery", "expression cannot be defined after the shortage" + env.log + descr);
			env.recover();
			PROBE( "expression_defined_again");
		}
		if (env.rng.chance( 10))
		{
			std::unique_ptr<AtmBox> c; bool asg = env.rng.chance( 50);
			if (env.op( asg ? "automaton assignment" : "automaton copy", [&]() { c.reset( box->clone( asg)); }))
			{
				if (env.rng.chance( 50)) { std::swap( box, c); PROBE( "continued_with_a_copy"); }
			}
			else PROBE( "copy_failed");
			env.op( "destructor", [&]() { c.reset(); });
		}
	}
	for (int attempt=0; attempt<60; ++attempt)
	{
		std::unique_ptr<SelBox> sel, other;
		env.must( "selection constructor", [&]() { sel.reset( box->newSel()); });
		bool again = false;
		for (size_t i=0; i<m.items.size() && !again; ++i)
		{
			if (env.rng.chance( 10))
			{
				bool asg = env.rng.chance( 50);
				bool ok;
				if (other && env.rng.chance( 40)) ok = env.op( "selection assignment", [&]() { other->assign( *sel); });
				else ok = env.op( asg ? "selection assignment" : "selection copy", [&]() { other.reset( sel->clone( asg)); });
				if (!ok) { PROBE( "copy_failed"); if (other && env.rng.chance( 50)) env.op( "destructor", [&]() { other.reset(); }); }
				else if (env.rng.chance( 50)) { std::swap( sel, other); PROBE( "continued_with_a_copy"); }
			}
			std::vector<int> got;
			u64 style = env.rng.next();
			if (!env.op( "select", [&]() { sel->push( m.items[i].type, text[i].data(), text[i].size(), style, got); }))
			{
				// start again with a new selection, or assign one
				again = true;
				if (env.rng.chance( 40)) { std::vector<int> x; PROBE( "used_after_the_failure"); for (size_t k=i; k<m.items.size(); ++k) if (!env.op( "select", [&]() { sel->push( m.items[k].type, text[k].data(), text[k].size(), style, x); })) break; }
				env.recover();
				break;
			}
			std::sort( got.begin(), got.end());
			std::vector<int> g, x;
			for (int v : got) if (v < 1 || v > (int)defs.size()) fail( "selection-differs", fmt( "unknown type %d selected", v) + env.log + descr);
				else if (st[v] == OK || (st[v] == ONCE && (g.empty() || g.back() != v))) g.push_back( v);
			for (int v : expect[i]) if (st[v] == OK || (st[v] == ONCE && (x.empty() || x.back() != v))) x.push_back( v);
			for (int v : got) ev( "selected", i, (u64)v);
			if (g != x)
			{
				std::string a, b; for (int v : g) a += fmt( " %d", v); for (int v : x) b += fmt( " %d", v);
				fail( "selection-differs", fmt( "item %u %s(\"%s\") selects {%s } expected {%s }", (unsigned)i, itemName( m.items[i].type), printable( text[i]).c_str(), a.c_str(), b.c_str()) + env.log + descr);
			}
		}
		env.op( "destructor", [&]() { sel.reset(); other.reset(); });
		if (!again) { env.op( "destructor", [&]() { box.reset(); }); return; }
		PROBE( "selected_again_after_shortage");
	}
	fail( "no-recovery", "selecting does not get through after the shortage" + env.log + descr);
}

// -- printing
static void runPrint( Env& env, const Plan& p)
{
	int app = 0, io = 0; bool sub = false; bool fixed = false;
	for (auto& r : p) if (r.tag == "W") { app = (int)r.numc( 0, 0, 7); io = (int)r.numc( 1, 0, E_NOF-1); sub = r.num( 2) != 0; fixed = r.num( 3) != 0; }
	std::vector<PrOp> ops; std::vector<std::string> want; std::vector<bool> res;
	std::string descr = fmt( "; application %s, output %s; calls:", encName( app), encName( io));
	{
		std::unique_ptr<PrinterBox> ref( makePrinter( app, io, sub, SinkSpec(), false));
		PrModel m( app, io, sub);
		for (auto& r : p) if (r.tag == "o")
		{
			PrOp op = prOp( r, app, io);
			if (!m.usable( op)) continue;
			if (m.legal( op)) m.apply( op);
			ops.push_back( op); res.push_back( doPrint( *ref, op)); want.push_back( std::string( ref->data(), ref->size()));
			if (descr.size() < 1200) descr += " " + prOpStr( op);
		}
	}
	SinkSpec ss; if (fixed) { ss.kind = SINK_STATIC; ss.capacity = want.empty() ? 0 : want.back().size(); }
	std::unique_ptr<PrinterBox> box, other;
	bool dflt = env.rng.chance( 50) && io <= E_ISO1;
	env.must( "printer constructor", [&]() { box.reset( makePrinter( app, io, sub, ss, dflt)); });
	for (int attempt=0; attempt<60; ++attempt)
	{
		bool again = false;
		for (size_t i=0; i<ops.size(); ++i)
		{
			if (env.rng.chance( 10))
			{
				bool asg = env.rng.chance( 50), ok, whole = false;
				if (other && env.rng.chance( 40)) ok = env.op( "printer assignment", [&]() { other->assign( *box); });
				else { whole = true; ok = env.op( asg ? "printer assignment" : "printer copy", [&]() { other.reset( box->clone( asg)); }); }
				if (!ok)
				{
					PROBE( "copy_failed");
					// the target can be reset and used
					if (other && env.rng.chance( 60)) env.op( "print", [&]() { other->reset( true); PrOp o; Rec r( "o", {PO_OPEN,0}, {asciiU( "t")}); { MemPause mp; o = prOp( r, app, io); } doPrint( *other, o); other->close(); });
					if (env.rng.chance( 50)) env.op( "destructor", [&]() { other.reset(); });
				}
				else if (whole && env.rng.chance( 50)) { std::swap( box, other); PROBE( "continued_with_a_copy"); }
			}
			bool r = false;
			if (!env.op( "print", [&]() { r = doPrint( *box, ops[i]); }))
			{
				again = true;
				if (env.rng.chance( 30)) { PROBE( "used_after_the_failure"); for (size_t k=i; k<ops.size(); ++k) env.op( "print", [&]() { doPrint( *box, ops[k]); }); }
				env.recover();
				break;
			}
			std::string got( box->data() ? box->data() : "", box->size());
			if (r != res[i]) fail( "print-differs", fmt( "call %u returns %d expected %d", (unsigned)i, r, (int)res[i]) + env.log + descr);
			if (got != want[i]) fail( "print-differs", fmt( "after call %u the output is \"", (unsigned)i) + printable( got) + "\" expected \"" + printable( want[i]) + "\"" + env.log + descr);
			if (box->overflow()) fail( "print-differs", "overflow reported" + env.log + descr);
		}
		if (!again) { env.op( "destructor", [&]() { box.reset(); other.reset(); }); return; }
		// reset, and everything from the beginning
		PROBE( "printed_again_after_shortage");
		box->reset( sub); box->clearSink();
	}
	fail( "no-recovery", "printing does not get through after the shortage" + env.log + descr);
}

// -- header parser
static void runHdr( Env& env, const Plan& p)
{
	std::string bytes; std::vector<size_t> cuts; int enc = 0;
	for (auto& r : p) if (r.tag == "h")
	{
		static const int ENCS[] = {E_UTF8,E_UTF16LE,E_UTF16BE,E_UCS2LE,E_UCS2BE,E_UCS4LE,E_UCS4BE,E_ISO1};
		enc = ENCS[ r.numc( 0, 0, 7)];
		for (char32_t c : r.str( 0)) if (c < 128) encodeOut( enc, c, bytes);
		for (size_t k=1; k<r.n.size(); ++k) cuts.push_back( (size_t)r.numc( k, 0, 10000));
	}
	std::sort( cuts.begin(), cuts.end());
	using textwolf::XmlHdrParser;
	auto state = []( const XmlHdrParser& h, int rc) { return fmt( "%d encoding \"%s\" error \"%s\" consumed %u data \"", rc, h.encoding() ? h.encoding() : "", h.lasterror() ? h.lasterror() : "", (unsigned)h.charsConsumed()) + h.consumedData() + "\""; };
	// what the parser reports after each piece
	std::vector<std::pair<size_t,std::string> > want; int kind = 0;
	{
		XmlHdrParser ref; size_t fed = 0;
		for (size_t k=0; k<=cuts.size(); ++k)
		{
			size_t e = k < cuts.size() ? std::min( cuts[k], bytes.size()) : bytes.size();
			if (e < fed) e = fed;
			ref.putInput( bytes.data()+fed, e-fed); fed = e;
			int rc; try { rc = ref.parse(); } catch (const textwolf::exception&) { break; }
			want.push_back( std::make_pair( e, state( ref, rc)));
			if (rc || ref.lasterror()) { kind = rc ? 1 : 2; break; }
		}
	}
	if (want.empty()) return;
	if (kind == 2) PROBE( "header_error");
	std::string descr = "; header \"" + printable( bytes) + "\"";
	std::unique_ptr<XmlHdrParser> hp, other;
	env.must( "header parser constructor", [&]() { hp.reset( new XmlHdrParser()); });
	for (int attempt=0; attempt<60; ++attempt)
	{
		size_t fed = 0; bool again = false;
		for (size_t k=0; k<want.size(); ++k)
		{
			if (env.rng.chance( 25))
			{
				bool asg = other && env.rng.chance( 50);
				bool ok = asg ? env.op( "header parser assignment", [&]() { *other = *hp; }) : env.op( "header parser copy", [&]() { other.reset( new XmlHdrParser( *hp)); });
				if (!ok) { PROBE( "copy_failed"); if (other && env.rng.chance( 50)) env.op( "header parser", [&]() { other->clear(); other->putInput( bytes.data(), bytes.size()); other->parse(); }); }
				else if (env.rng.chance( 50)) { std::swap( hp, other); PROBE( "continued_with_a_copy"); }
			}
			size_t e = want[k].first; int rc = 0;
			if (!env.op( "putInput", [&]() { hp->putInput( bytes.data()+fed, e-fed); }) || !env.op( "parse", [&]() { rc = hp->parse(); })) { again = true; env.recover(); break; }
			fed = e;
			std::string got = state( *hp, rc);
			if (got != want[k].second) fail( "header-differs", "the parser reports " + printable( got) + " expected " + printable( want[k].second) + env.log + descr);
		}
		if (!again) { env.op( "destructor", [&]() { hp.reset(); other.reset(); }); return; }
		PROBE( "parsed_again_after_shortage");
		if (env.rng.chance( 30)) env.op( "parse", [&]() { hp->parse(); });
		hp->clear();
	}
	fail( "no-recovery", descr + env.log);
}

// -- buffers
static void runBuffer( Env& env, const Plan& p)
{
	using textwolf::StaticBuffer;
	struct B { std::unique_ptr<StaticBuffer> b; std::string v; size_t cap; bool over, known; };
	std::vector<B> bs( 4);
	std::vector<char> ext( 64);
	for (auto& r : p)
	{
		if (r.tag != "u") continue;
		size_t w = (size_t)r.numc( 3, 0, 3), a = (size_t)r.numc( 1, 0, 100); char ch = (char)(unsigned char)(r.num( 2) & 255);
		B& b = bs[w];
		switch (r.numc( 0, 0, 5))
		{
			case 0:
			{
				std::unique_ptr<StaticBuffer> nb;
				if (env.op( "buffer constructor", [&]() { nb.reset( ch & 1 ? new StaticBuffer( a) : new StaticBuffer( ext.data(), std::min( a, ext.size()))); })) { env.op( "destructor", [&]() { b.b.reset(); }); b.b.swap( nb); b.v.clear(); b.cap = ch & 1 ? a : std::min( a, ext.size()); b.over = false; b.known = !(ch & 1) ? false : true; if (!(ch&1)) { b.known = true; } }
				else env.recover();
				break;
			}
			case 1:
			{
				B& o = bs[ a % bs.size()];
				if (!b.b) break;
				std::unique_ptr<StaticBuffer> nb;
				if (env.op( "buffer copy", [&]() { nb.reset( new StaticBuffer( *b.b)); })) { env.op( "destructor", [&]() { o.b.reset(); }); o.b.swap( nb); o.v = b.v; o.cap = b.cap; o.over = b.over; o.known = b.known; }
				else { PROBE( "copy_failed"); env.recover(); }
				break;
			}
			case 2:
			{
				B& o = bs[ a % bs.size()];
				if (!b.b || !o.b) break;
				if (env.op( "buffer assignment", [&]() { *o.b = *b.b; })) { o.v = b.v; o.cap = b.cap; o.over = b.over; o.known = b.known; }
				else
				{
					PROBE( "copy_failed"); env.recover();
					if (&o != &b)
					{
						// what the target holds is not specified, but it can be cleared and used
						o.b->clear(); for (int i=0; i<3; ++i) o.b->push_back( 'x');
						for (size_t i=0; i<o.b->size(); ++i) if ((*o.b)[i] != 'x') fail( "buffer-differs", "target of a failed assignment" + env.log);
						if (o.b->size() < 3 && !o.b->overflow()) fail( "buffer-differs", "target of a failed assignment" + env.log);
						o.known = false;
					}
				}
				break;
			}
			case 3: env.op( "destructor", [&]() { b.b.reset(); }); break;
			default:
				if (!b.b) break;
				// buffers on the same external memory are not compared
				if (!b.known) { b.b->push_back( ch); break; }
				for (size_t i=0; i<a%8; ++i) { b.b->push_back( ch); if (b.v.size() < b.cap) b.v += ch; else b.over = true; }
		}
		for (auto& x : bs) if (x.b && x.known)
		{
			bool external = x.b->ptr() == ext.data();
			if (x.b->size() != x.v.size() || x.b->overflow() != x.over || (!external && std::memcmp( x.b->ptr(), x.v.data(), x.v.size()) != 0)) fail( "buffer-differs", fmt( "holds \"%s\" expected \"%s\"", printable( std::string( x.b->ptr(), x.b->size())).c_str(), printable( x.v).c_str()) + env.log);
			if (external) x.known = x.known && true;
		}
		// copies of a buffer on shared external memory take whatever it holds
		for (auto& x : bs) if (x.b && x.known) x.v.assign( x.b->ptr(), x.b->size());
	}
	env.op( "destructor", [&]() { for (auto& x : bs) x.b.reset(); });
}

static void run( Env& env, const Plan& p)
{
	switch (env.f.mode)
	{
		case M_SCAN: runScan( env, p); break;
		case M_PATH: runPath( env, p); break;
		case M_PRINT: runPrint( env, p); break;
		case M_HDR: runHdr( env, p); break;
		case M_BUFFER: runBuffer( env, p); break;
		default: runReader( env, p); break;
	}
}

static void execute( const Plan& p)
{
	FP f; f.mode = 0; f.which = 0; f.count = 1; f.again = 0; f.seed = 1; f.fill = -1;
	for (auto& r : p) if (r.tag == "f") { f.mode = (int)r.numc( 0, 0, M_NOF-1); f.which = (u64)r.numc( 1, 0, 1<<30); f.count = (int)r.numc( 2, 1, 1<<30); f.again = (int)r.numc( 3, 0, 10); f.seed = (u64)r.num( 4); f.fill = (int)r.numc( 5, -1, 255); break; }
	// without failures: warms up the static tables, counts the allocations
	u64 total = 0;
	for (int pass=0; pass<2; ++pass)
	{
		mem::arm( 0, 0, true); mem::pause();
		Env env( f, false); env.again = 0;
		run( env, p);
		total = mem::seen();
		u64 l = mem::live(); std::string info = l ? mem::liveInfo() : std::string();
		mem::disarm();
		if (pass && l) fail( "leak", fmt( "%u memory blocks not released without any failure: %s", (unsigned)l, info.c_str()));
	}
	if (!total) { COUNT( "runs_without_allocation", 1); return; }
	mem::setFill( f.fill);
	struct Unfill { ~Unfill() { mem::disarm(); mem::setFill( -1); } } unfill;
	u64 at = 1 + f.which % total;
	ev( "fail", at, (u64)f.count);
	mem::arm( (i64)at, f.count, true); mem::pause();
	Env env( f, true);
	env.log = fmt( "; allocation %u of %u", (unsigned)at, (unsigned)total);
	run( env, p);
	u64 l = mem::live(); std::string info = l ? mem::liveInfo() : std::string();
	mem::disarm();
	if (l) fail( "leak", fmt( "%u memory blocks not released: %s", (unsigned)l, info.c_str()) + env.log);
	COUNT( "allocations", total);
	simTime( total);
	static const char* MN[] = {"mode_scan","mode_path","mode_print","mode_header","mode_buffer","mode_reader"};
	countDyn( std::string( "count.") + MN[ f.mode]);
	if (env.failures) nontrivial();
}
const Property g_property = {"C10", generate, execute};
}//namespace
