// C11: independent users of the library in simulated threads, from a cold start, under a seeded scheduler that
// preempts at memory accesses; each gives the result it gives alone, and there is no unsynchronised conflicting access.
#include "sessions.hpp"
#include "reader.hpp"
#include "expr.hpp"
#include "prhist.hpp"
#include "conc.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <streambuf>
#include <cerrno>
namespace sim {

enum {W_SCAN,W_SELECT,W_DEFINE,W_COPY,W_PRINT,W_HDR,W_READ,W_BUF,W_NOF};
static const char* WN[] = {"scan","select","define","copy_expressions","print","header","read","buffer"};
// plan: z mode first (gap pick)*; A atm psrc; p.. (shared expressions); G names values (shared entities); then per thread: th kind flags seed and its records

static void genSched( Rng& rng, Rec& z, int nthreads)
{
	// few preemptions anywhere, or many close together
	z.n.push_back( rng.chance( 70) ? 1 : 0);
	z.n.push_back( (i64)rng.below( (u64)nthreads));
	int style = (int)rng.below( 4);
	int n; i64 lo, hi;
	switch (style)
	{
		case 0: n = (int)rng.range( 1, 4); lo = 1; hi = 3000; break;
		case 1: n = (int)rng.range( 4, 30); lo = 1; hi = rng.chance( 50) ? 60 : 600; break;
		case 2: n = (int)rng.range( 30, 250); lo = 1; hi = rng.chance( 50) ? 3 : 20; break;
		default: n = (int)rng.range( 2, 12); lo = 1; hi = rng.chance( 50) ? 12 : 15000; break;
	}
	for (int i=0; i<n; ++i)
	{
		i64 g = rng.range( lo, hi);
		if (rng.chance( 30)) g = rng.range( 1, 1 + (g>>2));
		z.n.push_back( g);
		z.n.push_back( (i64)rng.below( 3));
	}
}

static void genThread( Rng& rng, int kind, int atm, const std::vector<DocNode>& names, Plan& out)
{
	(void)names;
	Rec th( "th", {kind, (i64)rng.below( 1<<16), (i64)rng.below( 1000000)});
	out.push_back( th);
	switch (kind)
	{
		case W_SCAN: case W_SELECT:
		{
			int enc = rng.chance( 55) ? 0 : (int)rng.below( E_NOF);
			GenOpts o; DocModel m; Plan doc;
			o.maxNodes = (int)rng.range( 1, 7); o.nonAsciiPct = 10; o.entityPct = 12; o.balanced = true;
			genDoc( rng, enc, o, doc);
			renderDoc( doc, 0, doc.size(), enc, 0, m);
			genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), out, enc, rng.chance( 65) ? SRC_CHUNK : (int)rng.range( 1, 3), 10);
			out.insert( out.end(), doc.begin(), doc.end());
			if (kind == W_SCAN && rng.chance( 15)) genDamage( rng, out, enc, 2);
			break;
		}
		case W_DEFINE: case W_COPY:
		{
			if (kind == W_DEFINE) out.push_back( Rec( "A", {rng.chance( 60) ? atm : (i64)rng.below( ATM_NOF), (i64)rng.below( PSRC_NOF)}));
			GenOpts o; DocModel m; Plan doc;
			o.maxNodes = (int)rng.range( 1, 7); o.balanced = true; o.header = false; o.doctype = false;
			genDoc( rng, 0, o, doc);
			renderDoc( doc, 0, doc.size(), 0, 0, m);
			std::vector<DocNode> nodes; docNodes( m.items, nodes);
			int ne = (int)rng.range( 1, 4);
			for (int i=0; i<ne; ++i)
			{
				if (rng.chance( 12)) out.push_back( Rec( "b", {(i64)(rng.chance( 35) ? nofBad() - 1 - rng.below( 5) : rng.below( nofBad())), 100+i}));
				out.push_back( exprToRec( genExpr( rng, nodes, false, 20+i)));
			}
			out.insert( out.end(), doc.begin(), doc.end());
			break;
		}
		case W_PRINT:
		{
			int io = rng.chance( 35) ? 0 : (int)rng.below( E_NOF), app = rng.chance( 40) ? 0 : (int)rng.below( 8); bool sub = rng.chance( 25);
			PrModel m( app, io, sub);
			out.push_back( Rec( "W", {app, io, sub, (i64)rng.below( 3), (i64)rng.below( 200)}));
			int n = (int)rng.range( 2, 12);
			for (int i=0; i<n; ++i)
			{
				Rec r = genPrOp( rng, app, io, m, 8);
				PrOp op = prOp( r, app, io);
				if (!m.usable( op)) continue;
				if (m.legal( op)) m.apply( op);
				out.push_back( r);
			}
			break;
		}
		case W_HDR:
		{
			static const char* H[] = {"<?xml version='1.0' encoding='UTF-8' standalone=\"yes\"?><a/>","<?xml version=\"1.0\"?>","<?xml version='1.0' encoding='isolatin-1'?>","<doc>","<?xml version='1.0' wrong='x'?>","<?xml version=1?>","<?xml encoding='x'?><a>"};
			Rec r( "h", {(i64)rng.below( 8)}, {asciiU( H[ rng.below( 7)])});
			int n = (int)rng.below( 5);
			for (int i=0; i<n; ++i) r.n.push_back( (i64)rng.below( 100));
			out.push_back( r);
			break;
		}
		case W_READ:
		{
			int enc = (int)rng.below( E_NOF);
			ustr t; std::string bytes; std::vector<size_t> hot;
			int n = (int)rng.range( 1, 25);
			for (int i=0; i<n; ++i) t.push_back( genChar( rng, enc, rng.chance( 50) ? 80 : 10));
			for (char32_t c : t) { encodeOut( enc, c, bytes); hot.push_back( bytes.size()); }
			genDelivery( rng, hot, bytes.size(), unitOf( enc), out, enc, rng.chance( 60) ? SRC_CHUNK : (int)rng.range( 1, 3), 0);
			out.push_back( Rec( "T", {}, {t}));
			break;
		}
		default:
		{
			int n = (int)rng.range( 2, 14);
			int what = (int)rng.below( 3);		// buffer, iterator, both and stream output
			for (int i=0; i<n; ++i) out.push_back( Rec( "u", {(i64)(what == 0 ? rng.below( 7) : what == 1 ? rng.range( 7, 11) : rng.below( 13)), (i64)rng.below( 40), (i64)rng.below( 256)}));
		}
	}
}

static Plan generate( Rng& rng)
{
	Plan p;
	int n = rng.chance( 60) ? 2 : (int)rng.range( 2, 4);
	Rec z( "z"); genSched( rng, z, n); p.push_back( z);
	int atm = rng.chance( 50) ? 0 : (int)rng.below( ATM_NOF);
	std::vector<Plan> th;
	bool anyShared = false;
	for (int i=0; i<n; ++i)
	{
		Plan t;
		if (i && rng.chance( 50))
		{
			t = th[ rng.below( th.size())];		// twins contend for the same static data
			if (rng.chance( 50)) { t[0].n[1] = (i64)rng.below( 1<<16); t[0].n[2] = (i64)rng.below( 1000000); }
		}
		else
		{
			int d = (int)rng.below( 100);
			int kind = d < 34 ? W_SCAN : d < 52 ? W_SELECT : d < 64 ? W_DEFINE : d < 72 ? W_COPY : d < 84 ? W_PRINT : d < 90 ? W_HDR : d < 95 ? W_READ : W_BUF;
			genThread( rng, kind, atm, std::vector<DocNode>(), t);
		}
		if (t[0].n[0] == W_SELECT || t[0].n[0] == W_COPY) anyShared = true;
		th.push_back( t);
	}
	if (anyShared)
	{
		p.push_back( Rec( "A", {atm, (i64)rng.below( PSRC_NOF)}));
		std::vector<DocNode> nodes;
		for (auto& t : th) if (t[0].n[0] == W_SELECT || t[0].n[0] == W_COPY)
		{
			int enc = 0; for (auto& r : t) if (r.tag == "S") enc = (int)r.numc( 0, 0, E_NOF-1);
			DocModel m; renderDoc( t, 0, t.size(), enc, 0, m); docNodes( m.items, nodes);
		}
		int ne = (int)rng.range( 1, 5);
		for (int i=0; i<ne; ++i) p.push_back( exprToRec( genExpr( rng, nodes, false, i+1)));
	}
	if (rng.chance( 40))
	{
		EntityTab e = genEntities( rng, (int)rng.range( 1, 4));
		Rec g( "G");
		for (auto& x : e.ent) { g.n.push_back( (i64)x.second); g.s.push_back( asciiU( x.first.c_str())); }
		p.push_back( g);
		// used in the documents
		for (auto& t : th) if (t[0].n[0] == W_SCAN || t[0].n[0] == W_SELECT) for (auto& r : t) if (r.tag == "dt" && rng.chance( 60) && !e.ent.empty()) { ustr s; s.push_back( (char32_t)e.ent[ rng.below( e.ent.size())].second); r.s.assign( 1, (r.s.empty() ? ustr() : r.s[0]) + s); if (!r.n.empty()) r.n[0] = (i64)rng.below( 1000000); }
	}
	for (auto& t : th) p.insert( p.end(), t.begin(), t.end());
	return p;
}

namespace {
struct Shared
{
	int atm, psrc; bool headers;
	std::vector<RExpr> exprs;
	EntityTab ents; std::string names;
	std::unique_ptr<AtmBox> box;
	Shared() :atm(0),psrc(0),headers(false){}
};
struct Thread
{
	int kind; u64 flags, seed;
	Plan plan;
	std::vector<SessionSpec> specs; DocModel model; std::string bytes;
	int atm, psrc; std::vector<RExpr> exprs; std::vector<Rec> defs;
	int app, io; bool sub; int sink; size_t capacity; std::vector<PrOp> ops;
	std::vector<size_t> cuts; int enc; ustr text;
	std::vector<std::string> texts;
};
typedef std::vector<std::string> Log;
}

static void prepare( Thread& t, const Shared& sh)
{
	const Plan& p = t.plan;
	t.atm = t.psrc = 0; t.app = t.io = 0; t.sub = false; t.sink = 0; t.capacity = 0; t.enc = 0;
	switch (t.kind)
	{
		case W_SCAN: case W_SELECT:
			t.specs = parseSessions( p);
			if (t.specs.size() > 1) t.specs.resize( 1);
			for (auto& s : t.specs)
			{
				s.ents = EntityTab();
				if (!sh.ents.ent.empty() && (t.flags & 1)) s.shared = &sh.ents;
				if (t.kind == W_SELECT)
				{
					int enc = atmEnc( sh.atm);
					s.csOut = csOf( enc); s.encOut = enc; s.dl.masks.clear();
				}
				if (s.dl.kind != SRC_CHUNK && s.csOut != 0 && s.csOut != csOf( s.encIn)) s.dl.kind = SRC_CHUNK;
				if (s.dl.kind != SRC_CHUNK && csOf( s.encIn) == 0 && s.csOut != 0) s.dl.kind = SRC_CHUNK;
				renderDoc( p, s.recB, p.size(), s.encIn, s.shared, t.model);
				t.bytes = damageBytes( p, 0, p.size(), t.model.bytes);
			}
			break;
		case W_DEFINE: case W_COPY:
			for (auto& r : p) if (r.tag == "A") { t.atm = (int)r.numc( 0, 0, ATM_NOF-1); t.psrc = (int)r.numc( 1, 0, PSRC_NOF-1); }
			if (t.kind == W_COPY) { t.atm = sh.atm; t.psrc = sh.psrc; }
			for (auto& r : p) if ((r.tag == "p" || r.tag == "b") && t.defs.size() < 6)
			{
				RExpr e; if (r.tag == "p") exprFromRec( r, false, e);
				t.exprs.push_back( e); t.defs.push_back( r);
			}
			renderDoc( p, 0, p.size(), 0, 0, t.model);
			for (auto& i : t.model.items) t.texts.push_back( encodeStr( atmEnc( t.atm), i.text));
			break;
		case W_PRINT:
		{
			for (auto& r : p) if (r.tag == "W") { t.app = (int)r.numc( 0, 0, 7); t.io = (int)r.numc( 1, 0, E_NOF-1); t.sub = r.num( 2) != 0; t.sink = r.numc( 3, 0, 2); t.capacity = (size_t)r.numc( 4, 0, 1000); }
			PrModel m( t.app, t.io, t.sub);
			for (auto& r : p) if (r.tag == "o")
			{
				PrOp op = prOp( r, t.app, t.io);
				if (!m.usable( op)) continue;
				if (m.legal( op)) m.apply( op);
				t.ops.push_back( op);
			}
			break;
		}
		case W_HDR:
			for (auto& r : p) if (r.tag == "h")
			{
				static const int ENCS[] = {E_UTF8,E_UTF16LE,E_UTF16BE,E_UCS2LE,E_UCS2BE,E_UCS4LE,E_UCS4BE,E_ISO1};
				t.enc = ENCS[ r.numc( 0, 0, 7)];
				for (char32_t c : r.str( 0)) if (c < 128) encodeOut( t.enc, c, t.bytes);
				for (size_t k=1; k<r.n.size(); ++k) t.cuts.push_back( (size_t)r.numc( k, 0, 1000));
				break;
			}
			std::sort( t.cuts.begin(), t.cuts.end());
			break;
		case W_READ:
			t.specs = parseSessions( p);
			if (t.specs.size() > 1) t.specs.resize( 1);
			for (auto& s : t.specs) for (auto& r : p) if (r.tag == "T") for (char32_t c : r.str( 0)) if (c && c <= 0x10FFFF && !(c >= 0xD800 && c < 0xE000) && representable( s.encIn, c)) { t.text.push_back( c); encodeOut( s.encIn, c, t.bytes); }
			break;
		default: break;
	}
}

// ---- what the threads do (library calls may be preempted, everything else is atomic)
static void bodyScan( const Thread& t, const Shared& sh, Log& log)
{
	if (t.specs.empty()) return;
	Session s( t.specs[0], t.bytes);
	std::unique_ptr<SelBox> sel;
	if (t.kind == W_SELECT && sh.box) sel.reset( sh.box->newSel());
	size_t done = 0;
	while (!s.finished)
	{
		s.step();
		for (; done < s.items.size(); ++done)
		{
			const Item& it = s.items[done];
			std::string l = itemStr( it) + fmt( " @%u", (unsigned)it.tokpos);
			if (sel && it.type != I_Error && it.type != I_Exit)
			{
				std::vector<int> got;
				std::string txt( it.data.data(), it.data.size());
				if ((t.flags & 64) && (done == 0 || s.items[ done-1].type == I_OpenTag))
				{
					std::vector<int> all, sure, content;
					sel->announce( it.type, txt.data(), txt.size(), all, sure, content);
					for (int g : all) l += fmt( " possible %d", g);
					for (int g : sure) l += fmt( " certain %d", g);
					for (int g : content) l += fmt( " content %d", g);
				}
				sel->push( it.type, txt.data(), txt.size(), mix64( t.seed + done), got);
				for (int g : got) l += fmt( " selects %d", g);
				if ((t.flags & 6) == 2 && done % 3 == 1) sel.reset( sel->clone( t.flags & 8));
			}
			log.push_back( l);
		}
	}
}
static void bodyDefine( const Thread& t, const Shared& sh, Log& log)
{
	std::unique_ptr<AtmBox> box;
	if (t.kind == W_COPY) { if (!sh.box) return; box.reset( sh.box->clone( t.flags & 1)); }
	else box.reset( makeAtm( t.atm, t.psrc));
	int enc = atmEnc( t.atm), penc = parseEnc( t.psrc);
	for (size_t i=0; i<t.defs.size(); ++i)
	{
		if (t.defs[i].tag == "p") addExpr( *box, t.exprs[i], enc, penc);
		else
		{
			std::string txt;
			std::string why;
			bool rejected = addBad( *box, (size_t)t.defs[i].numc( 0, 0, (i64)nofBad()-1), 1000, penc, enc, txt, &why);
			log.push_back( fmt( "malformed expression %s %s", rejected ? "rejected" : "accepted", why.c_str()));
		}
	}
	log.push_back( fmt( "%u states", (unsigned)box->states()));
	std::unique_ptr<SelBox> sel( box->newSel());
	for (size_t i=0; i<t.texts.size(); ++i)
	{
		std::vector<int> got;
		sel->push( t.model.items[i].type, t.texts[i].data(), t.texts[i].size(), mix64( t.seed + i), got);
		std::string l = fmt( "item %u selects", (unsigned)i);
		for (int g : got) l += fmt( " %d", g);
		log.push_back( l);
	}
}
static void bodyPrint( const Thread& t, Log& log)
{
	std::ostringstream os;
	SinkSpec ss; if (t.sink == 1) { ss.kind = SINK_STATIC; ss.capacity = t.capacity; } else if (t.sink == 2) { ss.kind = SINK_OSTREAM; ss.os = &os; }
	size_t nof = 0;
	std::unique_ptr<PrinterBox> b( makePrinter( t.app, t.io, t.sub, ss, (t.flags & 1) != 0));
	for (auto& op : t.ops)
	{
		std::string l = printOpName( op.kind);
		try { l += doPrint( *b, op) ? " ok " : " failed "; }
		catch (const Fail&) { throw; }
		catch (const std::exception& e) { l += " exception "; l += e.what(); }
		if (b->lasterror()) l += b->lasterror();
		l += fmt( " state %d%s ", b->state(), b->overflow() ? " overflow" : "");
		l += t.sink == 2 ? printable( os.str()) : printable( std::string( b->data() ? b->data() : "", b->size()));
		log.push_back( l);
		if ((t.flags & 32) && ++nof % 4 == 0) b->reset( t.sub);
		if ((t.flags & 6) == 2) b.reset( b->clone( t.flags & 8));
		if (t.flags & 16) for (auto& x : op.enc) { std::string u; b->util( (int)(t.seed % 3), x.data(), x.size(), u); log.push_back( printable( std::string( u.data(), u.size()))); }
	}
}
static void bodyHdr( const Thread& t, Log& log)
{
	std::unique_ptr<HdrBox> h( makeHdr());
	size_t fed = 0;
	for (size_t k=0; k<=t.cuts.size() && !h->done(); ++k)
	{
		size_t e = k < t.cuts.size() ? std::min( t.cuts[k], t.bytes.size()) : t.bytes.size();
		if (e < fed) e = fed;
		h->feed( t.bytes.data()+fed, e-fed); fed = e;
		std::string l;
		try { l = h->parse(); l = std::string( l.data(), l.size()); }
		catch (const std::exception& e) { l = std::string( "exception ") + e.what(); log.push_back( l); break; }
		log.push_back( printable( l));
		if (t.flags & 1) h.reset( h->clone());
	}
}
static void bodyRead( const Thread& t, Log& log)
{
	if (t.specs.empty()) return;
	const SessionSpec& s = t.specs[0];
	std::string z = t.bytes + std::string( 16, '\0');
	SimStream st( t.bytes, s.dl.cuts);
	ScanSource src; src.kind = s.dl.kind; src.page = s.encIn >= E_ISO1 ? pageOf( s.encIn) : 0; src.setSource = s.dl.setSource;
	src.cptr = &z[0]; src.str = z.data(); src.strsize = t.bytes.size(); src.stream = &st; src.bufsize = s.dl.bufsize;
	std::unique_ptr<ReaderBox> rd( makeReader( csOf( s.encIn), src));
	size_t fed = 0, ci = 0; bool last = false;
	auto more = [&]()
	{
		if (last) fail( "asks-for-more", "reader asks for input after the final chunk");
		while (ci < s.dl.cuts.size() && s.dl.cuts[ci] <= fed) ++ci;
		size_t e = ci < s.dl.cuts.size() ? std::min( s.dl.cuts[ci], t.bytes.size()) : t.bytes.size();
		last = e == t.bytes.size();
		size_t f = fed; fed = e;
		rd->feed( t.bytes.data()+f, e-f, last);
	};
	if (s.dl.kind == SRC_CHUNK) more();
	u64 dice = t.seed;
	for (size_t i=0; i<=t.text.size(); ++i)
	{
		std::string l = fmt( "character %u:", (unsigned)i);
		dice = mix64( dice);
		if (dice % 3 == 0) { int c = 0; while (!rd->control( c)) more(); l += fmt( " control %d", c); }
		if (dice % 5 == 0) { int c = 0; while (!rd->ascii( c)) more(); l += fmt( " ascii %d", c); }
		char32_t c = 0; while (!rd->chr( c)) more();
		l += fmt( " U+%04X", (unsigned)c);
		if (dice % 7 == 0 && i < t.text.size()) { std::string o; while (!rd->copychar( src.page, o)) more(); l += " copied " + printable( std::string( o.data(), o.size())); }
		if (dice % 11 == 0 && c && i < t.text.size()) { std::string o; printChar( (int)(dice / 11 % E_NOF), c, o); l += " printed " + printable( std::string( o.data(), o.size())); }
		log.push_back( l);
		if (i < t.text.size()) while (!rd->skip()) more();
	}
}
namespace {
struct FailingBuf :public std::streambuf	// short deliveries, then the end or an error
{
	std::string d; size_t pos; u64 seed; int err;
	FailingBuf( const std::string& d_, u64 s, int e) :d(d_),pos(0),seed(s),err(e){}
	virtual int_type underflow()
	{
		if (pos == d.size())
		{
			if (err) { errno = err; throw std::runtime_error( "device"); }
			return traits_type::eof();
		}
		size_t n = 1 + (size_t)(mix64( seed + pos) % 7);
		if (n > d.size() - pos) n = d.size() - pos;
		setg( &d[pos], &d[pos], &d[pos] + n);
		pos += n;
		return traits_type::to_int_type( *gptr());
	}
};
}
static void bodyBuf( const Thread& t, Log& log)
{
	std::unique_ptr<BufBox> b( makeBuf( t.seed % 50)), prev;
	std::string txt;
	for (u64 i=0; i<t.seed/50 % 60; ++i) txt.push_back( (char)(1 + mix64( t.seed + i) % 255));
	FailingBuf fb( txt, t.seed, (t.flags & 3) == 3 ? ((t.flags & 4) ? EIO : ENOSPC) : 0);
	std::istream in( &fb);
	std::ostringstream os;
	std::unique_ptr<IterBox> it;
	for (auto& r : t.plan) if (r.tag == "u")
	{
		size_t a = (size_t)r.numc( 1, 0, 100);
		int op = (int)r.numc( 0, 0, 12);
		if (op < 7)
		{
			switch (op)
			{
				case 0: for (size_t k=0; k<a; ++k) b->push( (char)r.num( 2)); break;
				case 1: b->clear(); break;
				case 2: b->resize( a, (char)r.num( 2)); break;
				case 3: prev.reset( b.release()); b.reset( prev->clone()); break;
				case 4: case 5: b->append( txt.data(), std::min( a, txt.size())); break;
				default: if (prev) b->assign( *prev); else prev.reset( b->clone()); break;
			}
			std::string g = b->get();
			log.push_back( printable( std::string( g.data(), g.size())));
		}
		else if (op < 12)
		{
			std::string l;
			try
			{
				if (!it) it.reset( makeIter( (int)(t.flags >> 3) % ITB_NOF, txt.c_str(), txt.size(), &in, 1 + (size_t)(t.flags >> 5) % 40));
				std::string g = it->op( op-7, a);
				l = "iterator" + std::string( g.data(), g.size());
			}
			catch (const std::exception& e) { l = std::string( "iterator exception ") + e.what(); }
			log.push_back( l);
		}
		else
		{
			streamOut( os, txt.data(), std::min( a, txt.size()), r.num( 2) & 1);
			log.push_back( printable( os.str()));
		}
	}
}
static void body( const Thread& t, const Shared& sh, Log& log)
{
	switch (t.kind)
	{
		case W_SCAN: case W_SELECT: bodyScan( t, sh, log); break;
		case W_DEFINE: case W_COPY: bodyDefine( t, sh, log); break;
		case W_PRINT: bodyPrint( t, log); break;
		case W_HDR: bodyHdr( t, log); break;
		case W_READ: bodyRead( t, log); break;
		default: bodyBuf( t, log); break;
	}
}

// cold start, the shared objects, the threads
static conc::Stats runThreads( const std::vector<const Thread*>& th, Shared& sh, const std::vector<i64>& sched, u64 budget, std::vector<Log>& logs)
{
	struct Cleanup { Shared& sh; ~Cleanup() { sh.box.reset(); conc::end(); } } cleanup = {sh};
	conc::begin();
	bool need = false;
	for (auto t : th) if (t->kind == W_SELECT || t->kind == W_COPY) need = true;
	if (need)
	{
		sh.box.reset( makeAtm( sh.atm, sh.psrc));
		for (auto& e : sh.exprs) addExpr( *sh.box, e, atmEnc( sh.atm), parseEnc( sh.psrc));
	}
	logs.assign( th.size(), Log());
	std::vector<std::function<void()> > bodies;
	for (size_t i=0; i<th.size(); ++i)
	{
		const Thread* t = th[i]; Log* l = &logs[i]; const Shared* s = &sh;
		bodies.push_back( [t,l,s]() { body( *t, *s, *l); });
	}
	return conc::run( bodies, sched, budget);
}

static void execute( const Plan& p)
{
	conc::init();
	Shared sh; std::vector<i64> sched;
	std::vector<Thread> th;
	size_t i = 0;
	for (; i<p.size() && p[i].tag != "th"; ++i)
	{
		const Rec& r = p[i];
		if (r.tag == "z") sched = r.n;
		else if (r.tag == "A") { sh.atm = (int)r.numc( 0, 0, ATM_NOF-1); sh.psrc = (int)r.numc( 1, 0, PSRC_NOF-1); }
		else if (r.tag == "p" && sh.exprs.size() < 8) { RExpr e; exprFromRec( r, false, e); sh.exprs.push_back( e); }
		else if (r.tag == "G")
		{
			for (size_t k=0; k<r.s.size(); ++k)
			{
				std::string nm; for (char32_t c : r.s[k]) if (c > 32 && c < 127 && !std::strchr( "&<>=/-!?'\"[];#", (char)c)) nm += (char)c;
				u64 v = (u64)r.num( k, 'x'); if (v == 0 || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) v = 'x';
				bool dup = nm.empty() || nm.size() > 15 || nm=="quot"||nm=="amp"||nm=="apos"||nm=="lt"||nm=="gt"||nm=="nbsp";
				for (auto& x : sh.ents.ent) if (x.first == nm) dup = true;
				if (!dup) sh.ents.ent.push_back( std::make_pair( nm, v));
			}
			sh.ents.build();	// short names are held in place, so the keys of the map are ordered like the names
		}
	}
	for (; i<p.size(); ++i)
	{
		if (p[i].tag == "th")
		{
			if (th.size() == 4) break;
			Thread t; t.kind = (int)p[i].numc( 0, 0, W_NOF-1); t.flags = (u64)p[i].num( 1); t.seed = (u64)p[i].num( 2);
			th.push_back( t);
		}
		else th.back().plan.push_back( p[i]);
	}
	if (th.empty()) return;
	std::string descr;
	for (auto& t : th) { prepare( t, sh); descr += std::string( " ") + WN[ t.kind]; countDyn( std::string( "count.thread_") + WN[ t.kind]); }
	// alone
	std::vector<Log> want( th.size());
	u64 total = 0;
	for (size_t k=0; k<th.size(); ++k)
	{
		std::vector<const Thread*> one( 1, &th[k]); std::vector<Log> l;
		try { total += runThreads( one, sh, std::vector<i64>(), 30000000, l).accesses; }
		catch (const Fail& f) { fail( f.cls, "alone: " + f.msg + "; thread:" + WN[ th[k].kind]); }
		want[k] = l[0];
		ev( "alone", k, l[0].size());
	}
	// together
	std::vector<const Thread*> all; for (auto& t : th) all.push_back( &t);
	std::vector<Log> got;
	conc::Stats st;
	try { st = runThreads( all, sh, sched, 4*total + 1000000, got); }
	catch (const Fail& f) { fail( f.cls, f.msg + "; threads:" + descr); }
	for (size_t k=0; k<th.size(); ++k)
	{
		size_t n = std::max( got[k].size(), want[k].size());
		for (size_t j=0; j<n; ++j)
		{
			std::string g = j < got[k].size() ? got[k][j] : "(nothing)", w = j < want[k].size() ? want[k][j] : "(nothing)";
			if (g != w) fail( "result-differs", fmt( "thread %u (%s) gives \"%s\" as result %u, alone \"%s\"", (unsigned)k, WN[ th[k].kind], g.substr( 0, 300).c_str(), (unsigned)j, w.substr( 0, 300).c_str()) + "; threads:" + descr);
		}
	}
	COUNT( "memory_accesses", st.accesses); COUNT( "shared_accesses", st.shared); COUNT( "thread_switches", st.switches); COUNT( "synchronisations", st.syncops);
	for (u64 x=0; x<st.preemptions; ++x) FAULT( "preemption");
	for (u64 x=0; x<st.blocked; ++x) FAULT( "thread_blocked");
	simTime( st.accesses);
	if (th.size() > 1 && st.preemptions) nontrivial();
}
const Property g_property = {"C11", generate, execute};
}//namespace
