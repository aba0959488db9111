// C12: histories of using, copying, assigning and destroying objects of the library; every object is compared with one
// of the same history that was never copied.
#include "sessions.hpp"
#include "reader.hpp"
#include "expr.hpp"
#include "prhist.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/staticbuffer.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
namespace sim {

enum {K_SCAN,K_READER,K_HDR,K_PRINT,K_ATM,K_SEL,K_BUFFER,K_NOF};
enum {X_USE,X_COPY,X_ASSIGN,X_DESTROY,X_OPEN,X_SPECIAL,X_NOF};
enum {SLOTS=5};

// plan: k kind fill; x op a b arg; the rest by kind: scan S,K,M,E + document (two of them), q (capacity); reader S,K + T; header h; print W, o; automaton A, p, b + document; buffer none
static Plan generate( Rng& rng)
{
	Plan p;
	static const int W[] = {K_SCAN,K_SCAN,K_SCAN,K_SCAN,K_SCAN,K_SCAN,K_READER,K_READER,K_HDR,K_HDR,K_PRINT,K_PRINT,K_PRINT,K_PRINT,K_ATM,K_ATM,K_ATM,K_SEL,K_SEL,K_SEL,K_SEL,K_BUFFER};
	int kind = W[ rng.below( sizeof(W)/sizeof(W[0]))];
	p.push_back( Rec( "k", {kind, rng.chance( 50) ? (i64)rng.below( 256) : -1}));
	int nops = rng.chance( 60) ? (int)rng.range( 3, 20) : (int)rng.range( 20, 60);
	int use = (int)rng.range( 40, 75);
	switch (kind)
	{
		case K_SCAN:
		{
			int n = rng.chance( 60) ? 1 : 2;
			int enc = rng.chance( 35) ? 0 : (int)rng.below( E_NOF), sk = rng.chance( 75) ? SRC_CHUNK : (int)rng.range( 1, 3);
			for (int k=0; k<n; ++k)
			{
				GenOpts o; o.bigPermille = 3; DocModel m; Plan doc;
				o.maxNodes = rng.chance( 70) ? 8 : 30; o.nonAsciiPct = rng.chance( 50) ? 5 : 40; o.entityPct = rng.chance( 50) ? 10 : 40;
				EntityTab ents = genEntities( rng, rng.chance( 40) ? (int)rng.range( 1, 4) : 0);
				Rec er( "E");
				for (auto& e : ents.ent) { er.s.push_back( asciiU( e.first)); er.n.push_back( (i64)e.second); }
				genDoc( rng, enc, o, doc);
				if (!ents.ent.empty()) for (auto& r : doc) if (r.tag == "dt" && rng.chance( 60) && !r.s.empty())
				{
					r.s.back().insert( r.s.back().begin() + rng.below( r.s.back().size()+1), (char32_t)rng.pick( ents.ent).second);
					if (r.n.size() && !r.n[0]) r.n[0] = 7;
				}
				renderDoc( doc, 0, doc.size(), enc, &ents, m);
				genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), p, enc, sk, 20);
				if (!er.s.empty()) p.push_back( er);
				p.push_back( Rec( "q", {rng.chance( 25) ? (i64)rng.below( 30) : -1}));
				p.insert( p.end(), doc.begin(), doc.end());
				if (rng.chance( 20)) genDamage( rng, p, enc, (int)rng.range( 1, 2));
			}
			break;
		}
		case K_READER:
		{
			int n = rng.chance( 60) ? 1 : 2, enc = (int)rng.below( E_NOF), sk = rng.chance( 75) ? SRC_CHUNK : (int)rng.range( 1, 3);
			for (int k=0; k<n; ++k)
			{
				ustr t; int len = (int)rng.range( 1, 30);
				for (int i=0; i<len; ++i) t.push_back( rng.chance( 30) ? (char32_t)rng.range( 1, 127) : rng.chance( 3) ? genBeyond( rng) : genChar( rng, enc, 80));
				std::vector<size_t> hot; std::string bytes;
				for (char32_t c : t) { hot.push_back( bytes.size()); encodeOut( enc, c, bytes); }
				genDelivery( rng, hot, bytes.size(), unitOf( enc), p, enc, sk, 0);
				p.push_back( Rec( "T", {}, {t}));
			}
			break;
		}
		case K_HDR:
		{
			static const char* H[] = {"<?xml version=\"1.0\" encoding=\"UTF-8\"?><a/>","<?xml version='1.0' encoding='a-very-long-encoding-name-that-does-not-fit-inside-a-string-object' standalone=\"yes\"?>","  <doc>","<?xml encoding=\"\" version=\"1.0\" ?>",
				"<?xml version=\"1.0\" bad=\"x\"?>","<?xml version=1.0?>","<?xmlx?>","hello","<?xml\n\tstandalone = 'no'\n encoding\n=\n\"IsoLatin-1\" encoding='second' ?><r>"};
			int n = rng.chance( 50) ? 1 : 2;
			for (int i=0; i<n; ++i) 
			{
				ustr h = asciiU( H[ rng.below( sizeof(H)/sizeof(H[0]))]);
				if (rng.chance( 15)) h.insert( rng.below( h.size()+1), (size_t)rng.range( 1, 5), (char32_t)0);
				p.push_back( Rec( "h", {(i64)rng.below( 8)}, {h}));
			}
			break;
		}
		case K_PRINT:
		{
			int io = rng.chance( 30) ? 0 : (int)rng.below( E_NOF), app = rng.chance( 35) ? 0 : (int)rng.below( 8); bool sub = rng.chance( 25), fixed = rng.chance( 25);
			p.push_back( Rec( "W", {app, io, sub, fixed, rng.chance( 50) ? rng.range( 0, 60) : rng.range( 0, 400)}));
			PrModel m( app, io, sub);
			int n = (int)rng.range( 3, 40), ill = rng.chance( 50) ? 5 : 20, deep = rng.chance( 50) ? 50 : 0;
			for (int i=0; i<n; ++i)
			{
				Rec r = m.state != PS_INIT && m.state != PS_ATTR && rng.chance( deep) ? Rec( "o", {PO_OPEN,0}, {genName( rng, io, 10, rng.chance( 20) ? 200 : 20)}) : genPrOp( rng, app, io, m, ill);
				PrOp op = prOp( r, app, io);
				if (m.usable( op) && m.legal( op)) m.apply( op);
				p.push_back( r);
			}
			break;
		}
		case K_ATM: case K_SEL:
		{
			int atm = rng.chance( 40) ? 0 : (int)rng.below( ATM_NOF);
			p.push_back( Rec( "A", {atm, (i64)(rng.chance( 40) ? 0 : rng.below( PSRC_NOF))}));
			GenOpts o; DocModel m; Plan doc;
			o.maxNodes = rng.chance( 60) ? 10 : 30; o.balanced = true; o.header = rng.chance( 20); o.doctype = false; o.nameNonAsciiPct = 0;
			genDoc( rng, 0, o, doc);
			if (rng.chance( 75))
			{
				std::vector<ustr> pool; int np = (int)rng.range( 1, 3);
				for (int i=0; i<np; ++i) pool.push_back( genName( rng, 0, 0, 4));
				std::vector<ustr> st;
				for (auto& r : doc)
				{
					if (r.tag == "do") { for (size_t i=0; i<r.s.size(); ++i) if (i == 0 || rng.chance( 70)) r.s[i] = rng.pick( pool); if (!r.num( 1)) st.push_back( r.s.empty() ? ustr() : r.s[0]); }
					else if (r.tag == "dc" && !st.empty()) { r.s = {st.back()}; st.pop_back(); }
				}
			}
			renderDoc( doc, 0, doc.size(), 0, 0, m);
			std::vector<DocNode> nodes; docNodes( m.items, nodes);
			int ne = (int)rng.range( 1, 9);
			for (int i=0; i<ne; ++i)
			{
				if (kind == K_ATM && rng.chance( 10)) p.push_back( Rec( "b", {(i64)rng.below( nofBad()), 1000+i}));
				p.push_back( exprToRec( genExpr( rng, nodes, o.header, i+1)));
			}
			p.insert( p.end(), doc.begin(), doc.end());
			break;
		}
		default: use = 50;
	}
	for (int i=0; i<nops; ++i)
	{
		int op = (int)rng.below( 100) < use ? X_USE : rng.chance( 40) ? X_COPY : rng.chance( 50) ? X_ASSIGN : rng.chance( 35) ? X_DESTROY : rng.chance( 50) ? X_OPEN : X_SPECIAL;
		p.push_back( Rec( "x", {op, (i64)rng.below( rng.chance( 50) ? 2 : (int)SLOTS), (i64)rng.below( rng.chance( 50) ? 2 : (int)SLOTS), (i64)rng.below( 100000)}));
	}
	return p;
}

namespace {
std::string g_log;
void logOp( const char* what, int a, int b=-1) { if (g_log.size() < 1500) g_log += b < 0 ? fmt( " %s(%d)", what, a) : fmt( " %s(%d->%d)", what, a, b); }
u64 g_copies, g_used;

// A kind of objects: slots that are used, copied, assigned and destroyed
struct World
{
	virtual ~World(){}
	virtual bool has( int a)=0;
	virtual void open( int a, u64 arg)=0;
	virtual void use( int a, u64 arg)=0;
	virtual void copy( int a, int b)=0;		// b becomes a copy of a
	virtual void assign( int a, int b)=0;		// b = a, both exist (possibly the same)
	virtual void destroy( int a)=0;
	virtual void special( int, u64) {}
	virtual void finish( int a)=0;			// use to the end
};
template <class SLOT>
struct SlotWorld :public World
{
	std::unique_ptr<SLOT> sl[ SLOTS];
	virtual bool has( int a) { return sl[a].get() != 0; }
	virtual void destroy( int a) { sl[a].reset(); }
	// the copy of an object replaces it
	virtual void copy( int a, int b) { std::unique_ptr<SLOT> c( new SLOT( *sl[a])); sl[b].swap( c); }
};

// ---- scanners
struct Mem { char* p; explicit Mem( size_t n) :p((char*)std::malloc( n?n:1)){} ~Mem() { std::free( p); } };
struct ScanDoc
{
	SessionSpec spec; std::string bytes; std::vector<Item> ref; bool damaged;
	std::shared_ptr<Mem> mem;
};
struct ScanSlot
{
	std::unique_ptr<ScannerBox> sc; std::shared_ptr<SimStream> st; std::shared_ptr<Mem> chunk;
	const ScanDoc* doc; size_t item, fed; bool final, started, needFeed, ended; u64 rnd; bool assigned; int seenEnd;
	ScanSlot() :doc(0),item(0),fed(0),final(false),started(false),needFeed(false),ended(false),rnd(0),assigned(false),seenEnd(0){}
	ScanSlot( const ScanSlot& o) :sc(o.sc->clone()),st(o.st),chunk(o.chunk),doc(o.doc),item(o.item),fed(o.fed),final(o.final),started(o.started),needFeed(o.needFeed),ended(o.ended),rnd(mix64( o.rnd)),assigned(o.assigned),seenEnd(o.seenEnd){}
};
void same( ScannerBox& a, ScannerBox& b, const ScanDoc& d)
{
	const char* ea = 0; const char* eb = 0;
	int ca = a.error( &ea), cb = b.error( &eb);
	if (a.size() != b.size() || std::memcmp( a.ptr(), b.ptr(), a.size()) != 0 || a.bufsize() != b.bufsize()) fail( "copy-differs", "the copy holds the item \"" + printable( std::string( b.ptr(), b.size())) + "\", the original \"" + printable( std::string( a.ptr(), a.size())) + "\"; calls:" + g_log + "; doc=\"" + printable( d.bytes.substr( 0, 300)) + "\"");
	if (a.tokenPos() != b.tokenPos() || a.pos() != b.pos() || ca != cb || (ea != 0) != (eb != 0) || (ea && std::strcmp( ea, eb)) || a.overflow() != b.overflow())
		fail( "copy-differs", fmt( "the copy is at position %u (token %u, error %d, overflow %d), the original at %u (%u, %d, %d); calls:", (unsigned)b.pos(), (unsigned)b.tokenPos(), cb, b.overflow(), (unsigned)a.pos(), (unsigned)a.tokenPos(), ca, a.overflow()) + g_log);
}
struct ScanWorld :public SlotWorld<ScanSlot>
{
	std::vector<ScanDoc> docs;
	explicit ScanWorld( const Plan& p)
	{
		std::vector<SessionSpec> specs = parseSessions( p);
		for (size_t k=0; k<specs.size() && k<2; ++k)
		{
			docs.push_back( ScanDoc());
			ScanDoc& d = docs.back();
			d.spec = specs[k];
			SessionSpec& s = d.spec;
			s.dl.useIterator = false; s.dl.endStyle = 0;
			for (size_t i=s.recB; i<s.recE; ++i) if (p[i].tag == "q") s.capacity = p[i].numc( 0, -1, 100000);
			if (k) { s.encIn = docs[0].spec.encIn; s.csOut = docs[0].spec.csOut; s.encOut = docs[0].spec.encOut; s.dl.kind = docs[0].spec.dl.kind; s.dl.setSource = docs[0].spec.dl.setSource; if ((docs[0].spec.capacity < 0) != (s.capacity < 0)) s.capacity = docs[0].spec.capacity; }
			if (s.dl.kind != SRC_CHUNK) s.capacity = -1;
			if (s.dl.kind != SRC_CHUNK && s.csOut != csOf( s.encIn)) s.csOut = s.encOut = 0;
			if (s.capacity >= 0 && !k) s.csOut = s.encOut = s.csOut % 3 == 0 ? 0 : s.csOut % 3 == 1 ? 1 : 7;
			DocModel m; renderDoc( p, s.recB, s.recE, s.encIn, &s.ents, m);
			d.bytes = damageBytes( p, s.recB, s.recE, m.bytes);
			d.damaged = d.bytes != m.bytes;
			// copies share the stream, so it is read at once
			s.dl.bufsize = d.bytes.size() + 16;
			evs( "doc", d.bytes);
			d.mem.reset( new Mem( d.bytes.size()+16));
			std::memset( d.mem->p, 0, d.bytes.size()+16); std::memcpy( d.mem->p, d.bytes.data(), d.bytes.size());
		}
		for (auto& d : docs)
		{
			d.spec.ents.build();
			SessionSpec s = d.spec; s.ents.build();
			std::vector<i64> masks = s.dl.masks; int kind = s.dl.kind; size_t bs = s.dl.bufsize;
			s.dl = Delivery(); s.dl.masks = masks; s.dl.kind = kind; s.dl.bufsize = bs;
			Session ses( s, d.bytes); ses.maxErr = 2;
			while (!ses.finished) ses.step();
			d.ref = ses.items;
		}
	}
	virtual void open( int a, u64 arg)
	{
		if (docs.empty()) return;
		std::unique_ptr<ScanSlot> o( new ScanSlot());
		const ScanDoc& d = docs[ arg % docs.size()];
		const SessionSpec& s = d.spec;
		ScanSource src;
		src.kind = s.dl.kind; src.page = s.encIn >= E_ISO1 ? pageOf( s.encIn) : 0; src.setSource = s.dl.setSource;
		src.entities = s.ents.ent.empty() ? 0 : &s.ents;
		src.capacity = s.dl.kind == SRC_CHUNK ? s.capacity : -1;
		src.cptr = d.mem->p; src.str = d.mem->p; src.strsize = d.bytes.size();
		o->st.reset( new SimStream( d.bytes, std::vector<size_t>())); src.stream = o->st.get(); src.bufsize = s.dl.bufsize;
		o->doc = &d; o->rnd = arg; o->needFeed = s.dl.kind == SRC_CHUNK; o->started = !o->needFeed;
		o->sc.reset( makeScanner( csOf( s.encIn), s.csOut, src));
		sl[a].swap( o);
	}
	bool pull( ScanSlot& o)
	{
		const ScanDoc& d = *o.doc;
		unsigned short mask = d.spec.dl.mask( o.item);
		g_what = "nextItem";
		int t = o.sc->next( mask);
		if (t == SUSPENDED) { if (o.final) fail( "asks-for-more", "scanner asks for input after the final chunk; calls:" + g_log); o.needFeed = true; ev( "suspended", o.item); return false; }
		std::unique_ptr<ScannerBox> beforeAsked;
		if (t == I_Error && (o.rnd & 1)) beforeAsked.reset( o.sc->clone());
		Item it; readItem( *o.sc, t, mask, it, false);
		if (beforeAsked)
		{
			const char* msg = 0; int code = beforeAsked->error( &msg);
			PROBE( "copied_before_the_error_was_asked");
			if (code != it.err) fail( "copy-differs", fmt( "the error code of the copy is %d, of the original %d", code, it.err) + "; calls:" + g_log);
		}
		ev( "item", (u64)t, o.item); evs( "data", it.data);
		++g_used;
		auto what = [&]() { return fmt( "%s->cs%d kind %d capacity %d; calls:", encName( d.spec.encIn), d.spec.csOut, d.spec.dl.kind, (int)d.spec.capacity) + g_log + "; doc=\"" + printable( d.bytes.substr( 0, 300)) + "\""; };
		if (o.item >= d.ref.size()) fail( "copy-differs", fmt( "item %u %s after the end; ", (unsigned)o.item, itemStr( it).c_str()) + what());
		const Item& x = d.ref[ o.item];
		if (!sameItem( x, it) || x.overflow != it.overflow) fail( "copy-differs", fmt( "item %u is %s, of a scanner never copied %s; ", (unsigned)o.item, itemStr( it).c_str(), itemStr( x).c_str()) + what());
		if (!d.spec.dl.setSource && !d.damaged && !it.data.empty() && t != I_Error && x.tokpos != it.tokpos) fail( "copy-differs", fmt( "item %u at position %u, of a scanner never copied at %u; ", (unsigned)o.item, (unsigned)it.tokpos, (unsigned)x.tokpos) + what());
		++o.item;
		if (o.item == d.ref.size()) o.ended = true;
		return true;
	}
	virtual void use( int a, u64 arg)
	{
		ScanSlot& o = *sl[a];
		if (o.ended) return;
		Rng rng( arg);
		if (o.needFeed)
		{
			const ScanDoc& d = *o.doc;
			size_t e = d.bytes.size();
			if (arg != ~0ULL) { for (size_t c : d.spec.dl.cuts) if (c > o.fed && c < e) { e = c; break; } if (rng.chance( 30)) e = std::min( d.bytes.size(), o.fed + (size_t)rng.below( 12)); }
			size_t n = e - o.fed;
			std::shared_ptr<Mem> c( new Mem( n));
			std::memcpy( c->p, d.bytes.data()+o.fed, n);
			o.fed = e; o.final = e == d.bytes.size() && (arg == ~0ULL || rng.chance( 70));
			o.sc->feed( c->p, n, o.final);
			o.chunk = c;
			o.started = true; o.needFeed = false;
			if (n && !o.final) PROBE( "suspended_between_copies");
		}
		int n = arg == ~0ULL ? 1000000 : rng.chance( 60) ? (int)rng.range( 1, 3) : 50;
		while (n-- > 0 && !o.ended && pull( o)) {}
	}
	virtual void copy( int a, int b)
	{
		std::unique_ptr<ScanSlot> c( new ScanSlot( *sl[a]));
		if (c->started) same( *sl[a]->sc, *c->sc, *c->doc);
		if (sl[a]->needFeed) PROBE( "copied_while_suspended");
		sl[b].swap( c);
	}
	virtual void assign( int a, int b)
	{
		ScanSlot& o = *sl[a]; ScanSlot& c = *sl[b];
		// a target on another stream would be left without it
		c.sc->assign( *o.sc);
		if (a == b) return;
		c.st = o.st; c.chunk = o.chunk; c.doc = o.doc; c.item = o.item; c.fed = o.fed; c.final = o.final; c.started = o.started; c.needFeed = o.needFeed; c.ended = o.ended; c.assigned = true;
		if (c.started) same( *o.sc, *c.sc, *c.doc);
		if (o.needFeed) PROBE( "assigned_while_suspended");
	}
	virtual void finish( int a) { for (int i=0; i<100 && !sl[a]->ended; ++i) use( a, ~0ULL); if (!sl[a]->ended) fail( "copy-differs", "the scan does not come to its end; calls:" + g_log); }
};

// ---- character readers
struct ReadDoc { SessionSpec spec; ustr text; std::vector<size_t> ofs; std::string bytes; std::shared_ptr<Mem> mem; };
struct ReadSlot
{
	std::unique_ptr<ReaderBox> rd; std::shared_ptr<SimStream> st; std::shared_ptr<Mem> chunk;
	const ReadDoc* doc; size_t idx, fed; bool final, needFeed;
	ReadSlot() :doc(0),idx(0),fed(0),final(false),needFeed(false){}
	ReadSlot( const ReadSlot& o) :rd(o.rd->clone()),st(o.st),chunk(o.chunk),doc(o.doc),idx(o.idx),fed(o.fed),final(o.final),needFeed(o.needFeed){}
};
struct ReadWorld :public SlotWorld<ReadSlot>
{
	std::vector<ReadDoc> docs;
	explicit ReadWorld( const Plan& p)
	{
		std::vector<SessionSpec> specs = parseSessions( p);
		for (size_t k=0; k<specs.size() && k<2; ++k)
		{
			docs.push_back( ReadDoc());
			ReadDoc& d = docs.back(); d.spec = specs[k];
			SessionSpec& s = d.spec;
			if (k) { s.encIn = docs[0].spec.encIn; s.dl.kind = docs[0].spec.dl.kind; s.dl.setSource = docs[0].spec.dl.setSource; }
			for (size_t i=s.recB; i<s.recE; ++i) if (p[i].tag == "T") for (char32_t c : p[i].str( 0))
				if (c && (c <= 0x10FFFF || beyondUnicode( c)) && !(c >= 0xD800 && c < 0xE000) && representable( s.encIn, c)) { d.ofs.push_back( d.bytes.size()); d.text.push_back( c); encodeOut( s.encIn, c, d.bytes); }
			d.ofs.push_back( d.bytes.size());
			s.dl.bufsize = d.bytes.size() + 16;
			evs( "text", d.bytes);
			d.mem.reset( new Mem( d.bytes.size()+16));
			std::memset( d.mem->p, 0, d.bytes.size()+16); std::memcpy( d.mem->p, d.bytes.data(), d.bytes.size());
		}
	}
	virtual void open( int a, u64 arg)
	{
		if (docs.empty()) return;
		std::unique_ptr<ReadSlot> o( new ReadSlot());
		const ReadDoc& d = docs[ arg % docs.size()];
		const SessionSpec& s = d.spec;
		ScanSource src; src.kind = s.dl.kind; src.page = s.encIn >= E_ISO1 ? pageOf( s.encIn) : 0; src.setSource = s.dl.setSource;
		src.cptr = d.mem->p; src.str = d.mem->p; src.strsize = d.bytes.size();
		o->st.reset( new SimStream( d.bytes, std::vector<size_t>())); src.stream = o->st.get(); src.bufsize = s.dl.bufsize;
		o->doc = &d; o->needFeed = s.dl.kind == SRC_CHUNK;
		o->rd.reset( makeReader( csOf( s.encIn), src));
		sl[a].swap( o);
	}
	void feed( ReadSlot& o, Rng& rng, bool all)
	{
		const ReadDoc& d = *o.doc;
		if (o.final) fail( "asks-for-more", "reader asks for input after the final chunk; calls:" + g_log);
		size_t e = d.bytes.size();
		if (!all) { for (size_t c : d.spec.dl.cuts) if (c > o.fed && c < e) { e = c; break; } if (rng.chance( 40)) e = std::min( d.bytes.size(), o.fed + (size_t)rng.below( 6)); }
		size_t n = e - o.fed;
		std::shared_ptr<Mem> c( new Mem( n));
		std::memcpy( c->p, d.bytes.data()+o.fed, n);
		if (e > d.ofs[ std::min( o.idx, d.ofs.size()-1)] && o.idx+1 < d.ofs.size() && e < d.ofs[ o.idx+1]) PROBE( "chunk_end_inside_character");
		o.fed = e; o.final = e == d.bytes.size() && (all || rng.chance( 70));
		o.rd->feed( c->p, n, o.final);
		o.chunk = c; o.needFeed = false;
		ev( "feed", n, o.final);
	}
	// returns false if suspended
	bool step( ReadSlot& o, unsigned int what)
	{
		const ReadDoc& d = *o.doc;
		char32_t c = o.idx < d.text.size() ? d.text[ o.idx] : 0, r = 0; int x = 0;
		auto bad = [&]( const std::string& m) { fail( "copy-differs", fmt( "character %u (U+%04X) in %s: ", (unsigned)o.idx, (unsigned)c, encName( d.spec.encIn)) + m + "; calls:" + g_log + "; text \"" + printable( d.bytes.substr( 0, 200)) + "\""); };
		bool ok = true;
		switch (what % 6)
		{
			case 0: ok = o.rd->chr( r); if (ok && r != c) bad( fmt( "chr() returns U+%04X", (unsigned)r)); break;
			case 1: ok = o.rd->ascii( x); if (ok && x != (c < 128 ? (int)c : 0)) bad( fmt( "ascii() returns %d", x)); break;
			case 2: ok = o.rd->control( x); break;
			case 3:
				if (c)
				{
					std::string out, exp; encodeOut( d.spec.encIn, c, exp);
					ok = o.rd->copychar( pageOf( d.spec.encIn), out);
					if (ok && out != exp) bad( "copychar writes \"" + printable( out) + "\"");
				}
				break;
			default:
				if (c) { ok = o.rd->skip(); if (ok) { ++o.idx; ++g_used; } }
				else { ok = o.rd->chr( r); if (ok && r) bad( "a character after the end"); }
		}
		ev( "step", what % 6, o.idx);
		if (ok && !d.spec.dl.setSource && o.idx < d.ofs.size() && c && o.rd->pos() != d.ofs[ o.idx]) bad( fmt( "position %u, expected %u", (unsigned)o.rd->pos(), (unsigned)d.ofs[ o.idx]));
		return ok;
	}
	virtual void use( int a, u64 arg)
	{
		ReadSlot& o = *sl[a]; Rng rng( arg);
		if (o.needFeed) feed( o, rng, false);
		int n = (int)rng.range( 1, 4);
		while (n-- > 0) if (!step( o, (unsigned)rng.below( 6))) { o.needFeed = true; break; }
	}
	virtual void copy( int a, int b) { if (sl[a]->needFeed) PROBE( "copied_while_suspended"); SlotWorld<ReadSlot>::copy( a, b); }
	virtual void assign( int a, int b)
	{
		ReadSlot& o = *sl[a]; ReadSlot& c = *sl[b];
		c.rd->assign( *o.rd);
		if (a == b) return;
		c.st = o.st; c.chunk = o.chunk; c.doc = o.doc; c.idx = o.idx; c.fed = o.fed; c.final = o.final; c.needFeed = o.needFeed;
	}
	virtual void finish( int a)
	{
		ReadSlot& o = *sl[a]; Rng rng( 1);
		for (size_t k=0; k<o.doc->text.size()*4+16; ++k)
		{
			if (o.needFeed) feed( o, rng, true);
			if (!step( o, k & 1 ? 4 : 0)) o.needFeed = true;
		}
		if (o.idx != o.doc->text.size()) fail( "copy-differs", "the reader does not come to the end; calls:" + g_log);
	}
};

// ---- header parsers
struct HdrSlot
{
	textwolf::XmlHdrParser hp; const std::string* doc; size_t fed; int done;	// done: 1 complete, 2 error, 3 exception
	std::string last;
	HdrSlot() :doc(0),fed(0),done(0){}
	HdrSlot( const HdrSlot& o) :hp(o.hp),doc(o.doc),fed(o.fed),done(o.done),last(o.last){}
};
std::string hdrState( const textwolf::XmlHdrParser& h) { return fmt( "encoding \"%s\" error \"%s\" consumed %u data \"", h.encoding() ? h.encoding() : "(none)", h.lasterror() ? h.lasterror() : "", (unsigned)h.charsConsumed()) + printable( h.consumedData()) + "\""; }
int hdrParse( textwolf::XmlHdrParser& h)
{
	try { return h.parse() ? 1 : h.lasterror() ? 2 : 0; }
	catch (const textwolf::exception&) { return 3; }
}
struct HdrWorld :public SlotWorld<HdrSlot>
{
	std::vector<std::string> docs;
	explicit HdrWorld( const Plan& p)
	{
		static const int ENCS[] = {E_UTF8,E_UTF16LE,E_UTF16BE,E_UCS2LE,E_UCS2BE,E_UCS4LE,E_UCS4BE,E_ISO1};
		for (auto& r : p) if (r.tag == "h" && docs.size() < 4)
		{
			std::string b; for (char32_t c : r.str( 0)) if (c < 128) encodeOut( ENCS[ r.numc( 0, 0, 7)], c, b);
			docs.push_back( b);
		}
	}
	virtual void open( int a, u64 arg) { if (docs.empty()) return; sl[a].reset( new HdrSlot()); sl[a]->doc = &docs[ arg % docs.size()]; sl[a]->last = hdrState( sl[a]->hp); }
	void check( HdrSlot& o)
	{
		std::string s = hdrState( o.hp);
		if (s != o.last) fail( "copy-differs", "the header parser reports " + s + ", expected " + o.last + "; calls:" + g_log);
	}
	void feed( HdrSlot& o, size_t n)
	{
		check( o);
		if (o.done) return;
		size_t e = std::min( o.doc->size(), o.fed + n);
		Mem m( e - o.fed); std::memcpy( m.p, o.doc->data()+o.fed, e - o.fed);
		o.hp.putInput( m.p, e - o.fed); o.fed = e; ++g_used;
		g_what = "XmlHdrParser::parse";
		int rc = hdrParse( o.hp);
		textwolf::XmlHdrParser ref; ref.putInput( o.doc->data(), o.fed);
		int rr = hdrParse( ref);
		ev( "hdr", (u64)rc, o.fed);
		std::string s = hdrState( o.hp), x = hdrState( ref);
		if (rc != rr || s != x) fail( "copy-differs", fmt( "after %u bytes the header parser reports %d ", (unsigned)o.fed, rc) + s + fmt( ", one never copied %d ", rr) + x + "; calls:" + g_log + "; header \"" + printable( *o.doc) + "\"");
		o.done = rc; o.last = s;
	}
	virtual void use( int a, u64 arg) { Rng rng( arg); feed( *sl[a], rng.below( rng.chance( 70) ? 12 : 60)); }
	virtual void copy( int a, int b) { SlotWorld<HdrSlot>::copy( a, b); check( *sl[a]); check( *sl[b]); }
	virtual void assign( int a, int b)
	{
		HdrSlot& o = *sl[a]; HdrSlot& c = *sl[b];
		c.hp = o.hp;
		if (a != b) { c.doc = o.doc; c.fed = o.fed; c.done = o.done; c.last = o.last; }
		check( o); check( c);
	}
	virtual void special( int a, u64 arg) { sl[a]->hp.clear(); sl[a]->doc = &docs[ arg % docs.size()]; sl[a]->fed = 0; sl[a]->done = 0; sl[a]->last = hdrState( textwolf::XmlHdrParser()); check( *sl[a]); }
	virtual void finish( int a) { feed( *sl[a], 1000000); check( *sl[a]); }
};

// ---- printers
struct PrintSlot
{
	std::unique_ptr<PrinterBox> box, shadow; PrModel model; std::vector<PrOp> hist; bool sub; size_t next; std::string want;
	PrintSlot( int app, int io, bool s) :model(app,io,s),sub(s),next(0){}
};
struct PrintWorld :public World
{
	std::unique_ptr<PrintSlot> sl[ SLOTS];
	int app, io; bool sub0, fixed; size_t cap; std::vector<PrOp> ops;
	explicit PrintWorld( const Plan& p) :app(0),io(0),sub0(false),fixed(false),cap(0)
	{
		for (auto& r : p) if (r.tag == "W") { app = (int)r.numc( 0, 0, 7); io = (int)r.numc( 1, 0, E_NOF-1); sub0 = r.num( 2) != 0; fixed = r.num( 3) != 0; cap = (size_t)r.numc( 4, 0, 100000); }
		for (auto& r : p) if (r.tag == "o" && ops.size() < 80) ops.push_back( prOp( r, app, io));
	}
	virtual bool has( int a) { return sl[a].get() != 0; }
	virtual void destroy( int a) { sl[a].reset(); }
	void rebuild( PrintSlot& s)
	{
		// a printer of the same history that was never copied
		s.shadow.reset( makePrinter( app, io, s.sub, SinkSpec(), false));
		for (auto& op : s.hist) doPrint( *s.shadow, op);
	}
	void check( PrintSlot& s)
	{
		std::string got( s.box->data() ? s.box->data() : "", s.box->size());
		std::string want = fixed ? s.want.substr( 0, cap) : s.want;
		auto what = [&]() { return fmt( " (application %s, output %s, sub %d, capacity %d); calls:", encName( app), encName( io), s.sub, fixed ? (int)cap : -1) + g_log; };
		if (got != want) fail( "copy-differs", "the output is \"" + printable( got) + "\", expected \"" + printable( want) + "\"" + what());
		if (fixed && s.box->overflow() != (s.want.size() > cap)) fail( "copy-differs", "wrong overflow" + what());
		if (s.box->state() != s.shadow->state()) fail( "copy-differs", fmt( "state %d, of a printer never copied %d", s.box->state(), s.shadow->state()) + what());
		const char* a = s.box->lasterror(); const char* b = s.shadow->lasterror();
		if ((a != 0) != (b != 0) || (a && std::strcmp( a, b))) fail( "copy-differs", fmt( "last error \"%s\", of a printer never copied \"%s\"", a?a:"(none)", b?b:"(none)") + what());
	}
	virtual void open( int a, u64)
	{
		std::unique_ptr<PrintSlot> s( new PrintSlot( app, io, sub0));
		SinkSpec ss; if (fixed) { ss.kind = SINK_STATIC; ss.capacity = cap; }
		s->box.reset( makePrinter( app, io, sub0, ss, false));
		rebuild( *s);
		sl[a].swap( s);
	}
	void print( PrintSlot& s, const PrOp& op)
	{
		size_t n = s.shadow->size();
		bool x = doPrint( *s.shadow, op), r = doPrint( *s.box, op);
		s.want.append( s.shadow->data()+n, s.shadow->size()-n);
		s.hist.push_back( op);
		if (s.model.legal( op)) s.model.apply( op);
		ev( "print", (u64)op.kind, r); ++g_used;
		if (g_log.size() < 1500) g_log += " " + prOpStr( op);
		if (r != x) fail( "copy-differs", fmt( "the call returns %d, of a printer never copied %d; calls:", r, x) + g_log);
		check( s);
	}
	virtual void use( int a, u64 arg)
	{
		PrintSlot& s = *sl[a];
		int n = 1 + (int)(arg % 3);
		check( s);
		while (n > 0 && s.next < ops.size()) { const PrOp& op = ops[ s.next++]; if (s.model.usable( op)) { print( s, op); --n; } }
	}
	virtual void copy( int a, int b)
	{
		PrintSlot& o = *sl[a];
		std::unique_ptr<PrintSlot> c( new PrintSlot( app, io, o.sub));
		c->box.reset( o.box->clone( (o.next & 1) != 0)); c->model = o.model; c->hist = o.hist; c->next = o.next; c->want = o.want;
		rebuild( *c);
		check( o); check( *c);
		sl[b].swap( c);
	}
	virtual void assign( int a, int b)
	{
		PrintSlot& o = *sl[a]; PrintSlot& c = *sl[b];
		c.box->assign( *o.box);
		if (a != b) { c.model = o.model; c.hist = o.hist; c.next = o.next; c.sub = o.sub; rebuild( c); }
		check( o); check( c);
	}
	virtual void special( int a, u64 arg)
	{
		PrintSlot& s = *sl[a];
		s.sub = (arg & 1) != 0; s.box->reset( s.sub); s.model.reset( s.sub); s.hist.clear(); rebuild( s);
		if (arg & 2) { s.box->clearSink(); s.want.clear(); }
		if (arg & 4) s.next = 0;
		check( s);
	}
	virtual void finish( int a)
	{
		PrintSlot& s = *sl[a]; PrOp op;
		for (int k=0; k<200 && s.model.completing( op); ++k) print( s, op);
	}
};

// ---- path expressions
struct PathInput
{
	int atm, psrc, enc, penc; bool headers; DocModel m; std::vector<std::string> text; std::string descr;
	struct Def { bool bad; size_t k; int type; RExpr e; };
	std::vector<Def> defs;
	explicit PathInput( const Plan& p) :atm(0),psrc(0),headers(false)
	{
		for (auto& r : p) if (r.tag == "A") { atm = (int)r.numc( 0, 0, ATM_NOF-1); psrc = (int)r.numc( 1, 0, PSRC_NOF-1); }
		enc = atmEnc( atm); penc = parseEnc( psrc);
		renderDoc( p, 0, p.size(), 0, 0, m);
		for (auto& i : m.items) { if (i.type == I_HeaderStart) headers = true; text.push_back( encodeStr( enc, i.text)); }
		for (auto& r : p) if ((r.tag == "p" || r.tag == "b") && defs.size() < 16)
		{
			Def d; d.bad = r.tag == "b"; d.k = 0; d.type = 0;
			if (d.bad) { d.k = (size_t)r.numc( 0, 0, (i64)nofBad()-1); d.type = (int)r.numc( 1, 1, 1000000); }
			else { exprFromRec( r, headers, d.e); d.e.type = (int)defs.size() + 1; descr += " " + printable( exprToString( d.e, E_UTF8)) + fmt( "=%d", d.e.type); }
			defs.push_back( d);
		}
		evs( "doc", m.bytes); evs( "expr", descr);
	}
	void define( AtmBox& a, size_t i) const
	{
		const Def& d = defs[i];
		if (d.bad) { std::string txt; FAULT( "malformed_expression"); if (!addBad( a, d.k, d.type, penc, enc, txt)) fail( "malformed-accepted", "malformed expression accepted: " + txt.substr( 0, 80)); }
		else addExpr( a, d.e, enc, penc);
	}
	std::vector<int> push( SelBox& s, size_t i, u64 style) const { std::vector<int> rt; g_what = "XMLPathSelect::push"; s.push( m.items[i].type, text[i].data(), text[i].size(), style, rt); return rt; }
	std::string what() const { return "; calls:" + g_log + "; expressions:" + descr + "; doc=\"" + printable( m.bytes.substr( 0, 300)) + "\""; }
	std::string diff( size_t i, const std::vector<int>& got, const std::vector<int>& want) const
	{
		std::string a, b; for (int v : got) a += fmt( " %d", v); for (int v : want) b += fmt( " %d", v);
		return fmt( "item %u %s(\"%s\") selects {%s }, expected {%s }", (unsigned)i, itemName( m.items[i].type), printable( text[i]).c_str(), a.c_str(), b.c_str()) + what();
	}
};
struct AtmSlot { std::unique_ptr<AtmBox> box; std::vector<size_t> hist; };
struct AtmWorld :public World
{
	PathInput in; std::unique_ptr<AtmSlot> sl[ SLOTS];
	std::map<std::vector<size_t>,std::pair<size_t,std::vector<std::vector<int> > > > cache;
	explicit AtmWorld( const Plan& p) :in(p){}
	virtual bool has( int a) { return sl[a].get() != 0; }
	virtual void destroy( int a) { sl[a].reset(); }
	virtual void open( int a, u64) { sl[a].reset( new AtmSlot()); sl[a]->box.reset( makeAtm( in.atm, in.psrc)); }
	void check( AtmSlot& s, u64 style)
	{
		auto it = cache.find( s.hist);
		if (it == cache.end())
		{
			std::unique_ptr<AtmBox> ref( makeAtm( in.atm, in.psrc));
			for (size_t i : s.hist) in.define( *ref, i);
			std::vector<std::vector<int> > res;
			std::unique_ptr<SelBox> sel( ref->newSel());
			for (size_t i=0; i<in.m.items.size(); ++i) res.push_back( in.push( *sel, i, 0));
			it = cache.insert( std::make_pair( s.hist, std::make_pair( ref->states(), res))).first;
		}
		if (s.box->states() != it->second.first) fail( "copy-differs", fmt( "%u states, one never copied has %u", (unsigned)s.box->states(), (unsigned)it->second.first) + in.what());
		std::unique_ptr<SelBox> sel( s.box->newSel());
		for (size_t i=0; i<in.m.items.size(); ++i)
		{
			std::vector<int> got = in.push( *sel, i, style);
			for (int v : got) ev( "sel", i, (u64)v);
			if (got != it->second.second[i]) fail( "copy-differs", in.diff( i, got, it->second.second[i]));
		}
	}
	virtual void use( int a, u64 arg)
	{
		AtmSlot& s = *sl[a];
		if (in.defs.empty()) return;
		if (s.hist.size() < 14 && arg % 4) { size_t i = (arg/4) % in.defs.size(); in.define( *s.box, i); s.hist.push_back( i); logOp( "define", a, (int)i); ++g_used; }
		if (arg % 3 == 0) check( s, arg);
	}
	virtual void copy( int a, int b)
	{
		std::unique_ptr<AtmSlot> c( new AtmSlot()); c->box.reset( sl[a]->box->clone( (sl[a]->hist.size() & 1) != 0)); c->hist = sl[a]->hist;
		sl[b].swap( c);
	}
	virtual void assign( int a, int b) { sl[b]->box->assign( *sl[a]->box); if (a != b) sl[b]->hist = sl[a]->hist; }
	virtual void finish( int a) { check( *sl[a], 2); }
};

// ---- selections
struct SelSlot
{
	std::unique_ptr<SelBox> sel; int atm; size_t pos;
	SelSlot() :atm(0),pos(0){}
	SelSlot( const SelSlot& o) :sel(o.sel->clone( (o.pos & 1) != 0)),atm(o.atm),pos(o.pos){}
};
struct SelWorld :public SlotWorld<SelSlot>
{
	PathInput in;
	std::unique_ptr<AtmBox> atm[2]; std::vector<std::vector<int> > ref[2];
	explicit SelWorld( const Plan& p) :in(p)
	{
		for (int k=0; k<2; ++k)
		{
			atm[k].reset( makeAtm( in.atm, in.psrc));
			for (size_t i=0; i<in.defs.size(); ++i) if (k == 0 || (i & 1)) in.define( *atm[k], i);
			std::unique_ptr<SelBox> s( atm[k]->newSel());
			for (size_t i=0; i<in.m.items.size(); ++i) ref[k].push_back( in.push( *s, i, 0));
		}
	}
	virtual void open( int a, u64 arg) { std::unique_ptr<SelSlot> s( new SelSlot()); s->atm = arg % 4 == 3; s->sel.reset( atm[ s->atm]->newSel()); sl[a].swap( s); }
	bool step( SelSlot& s, u64 style)
	{
		if (s.pos >= in.m.items.size()) return false;
		std::vector<int> got = in.push( *s.sel, s.pos, style);
		for (int v : got) ev( "sel", s.pos, (u64)v);
		if (got != ref[ s.atm][ s.pos]) fail( "copy-differs", in.diff( s.pos, got, ref[ s.atm][ s.pos]));
		if (!got.empty()) PROBE( "selected_by_copies");
		++s.pos; ++g_used;
		return true;
	}
	virtual void use( int a, u64 arg) { int n = 1 + (int)(arg % 6); while (n-- > 0 && step( *sl[a], arg >> 3)) {} }
	virtual void assign( int a, int b) { sl[b]->sel->assign( *sl[a]->sel); sl[b]->atm = sl[a]->atm; sl[b]->pos = sl[a]->pos; }
	virtual void finish( int a) { while (step( *sl[a], 1)) {} }
	// the selection is destroyed together with the other objects, the expressions last
	virtual ~SelWorld() { for (auto& s : sl) s.reset(); }
};

// ---- buffers
struct BufSlot
{
	std::unique_ptr<textwolf::StaticBuffer> b; std::shared_ptr<Mem> ext; std::string v; size_t cap; bool over;
	BufSlot() :cap(0),over(false){}
	BufSlot( const BufSlot& o) :b(new textwolf::StaticBuffer( *o.b)),v(o.v),cap(o.cap),over(o.over){}	// copies have memory of their own
};
struct BufWorld :public SlotWorld<BufSlot>
{
	virtual void open( int a, u64 arg)
	{
		std::unique_ptr<BufSlot> s( new BufSlot());
		Rng rng( arg);
		s->cap = rng.below( rng.chance( 50) ? 8 : 60);
		if (rng.chance( 40))
		{
			s->ext.reset( new Mem( s->cap)); std::memset( s->ext->p, 'i', s->cap);
			size_t init = rng.below( s->cap+1); s->v.assign( init, 'i');
			s->b.reset( new textwolf::StaticBuffer( s->ext->p, s->cap, init));
		}
		else s->b.reset( new textwolf::StaticBuffer( s->cap));
		sl[a].swap( s);
		check( *sl[a]);
	}
	void check( BufSlot& s)
	{
		std::string got; for (size_t i=0; i<s.b->size(); ++i) got += (*s.b)[i];
		if (got != s.v || s.b->overflow() != s.over || (got.size() && std::memcmp( s.b->ptr(), got.data(), got.size()))) fail( "copy-differs", "the buffer holds \"" + printable( got) + fmt( "\" (overflow %d), expected \"", s.b->overflow()) + printable( s.v) + fmt( "\" (%d); calls:", s.over) + g_log);
	}
	void checkAll() { for (auto& s : sl) if (s) check( *s); }
	virtual void use( int a, u64 arg)
	{
		BufSlot& s = *sl[a]; Rng rng( arg);
		char ch = (char)rng.range( 'a', 'z'); size_t n = rng.below( rng.chance( 70) ? 6 : 40);
		auto put = [&]( char c) { if (s.v.size() < s.cap) s.v += c; else s.over = true; };
		switch (rng.below( 5))
		{
			case 0: s.b->push_back( ch); put( ch); break;
			case 1: { std::string x( n, ch); s.b->append( x.data(), n); for (char c : x) put( c); break; }
			case 2: s.b->resize( n, ch); if (s.v.size() > n) s.v.resize( n); else { while (s.v.size() < n && s.v.size() < s.cap) s.v += ch; if (n > s.cap) s.over = true; } break;
			case 3: if (s.v.size()) { size_t i = rng.below( s.v.size()); s.b->at( i) = ch; s.v[i] = ch; } break;
			default: if (rng.chance( 30)) { s.b->clear(); s.v.clear(); s.over = false; } break;
		}
		ev( "buf", s.v.size(), s.over); ++g_used;
		checkAll();
	}
	virtual void copy( int a, int b) { SlotWorld<BufSlot>::copy( a, b); checkAll(); }
	virtual void assign( int a, int b)
	{
		BufSlot& o = *sl[a]; BufSlot& c = *sl[b];
		*c.b = *o.b;
		if (a != b) { c.v = o.v; c.cap = o.cap; c.over = o.over; }
		// the memory of the target given by the caller is not used anymore
		// (after an assignment to itself it may still be)
		if (c.ext && a != b) { std::memset( c.ext->p, '!', 1); c.ext.reset(); }
		checkAll();
	}
	virtual void finish( int a) { for (int k=0; k<5; ++k) use( a, 77 + k); }
};

void pass( int kind, const Plan& p)
{
	std::unique_ptr<World> w;
	g_log.clear(); g_copies = g_used = 0;
	switch (kind)
	{
		case K_SCAN: w.reset( new ScanWorld( p)); break;
		case K_READER: w.reset( new ReadWorld( p)); break;
		case K_HDR: w.reset( new HdrWorld( p)); break;
		case K_PRINT: w.reset( new PrintWorld( p)); break;
		case K_ATM: w.reset( new AtmWorld( p)); break;
		case K_SEL: w.reset( new SelWorld( p)); break;
		default: w.reset( new BufWorld()); break;
	}
	w->open( 0, 0);
	u64 usedAfterCopy = 0;
	for (auto& r : p)
	{
		if (r.tag != "x") continue;
		int op = (int)r.numc( 0, 0, X_NOF-1), a = (int)r.numc( 1, 0, SLOTS-1), b = (int)r.numc( 2, 0, SLOTS-1); u64 arg = (u64)r.num( 3);
		if (op != X_OPEN && !w->has( a)) { a = -1; for (int i=0; i<SLOTS && a < 0; ++i) if (w->has( i)) a = i; if (a < 0) { w->open( 0, arg); a = 0; } if (!w->has( a)) return; }
		ev( "x", (u64)op, (u64)(a*10+b));
		switch (op)
		{
			case X_USE: logOp( "use", a); w->use( a, arg); if (g_copies) ++usedAfterCopy; break;
			case X_COPY: logOp( "copy", a, b); w->copy( a, b); ++g_copies; PROBE( "copied"); if (a == b) PROBE( "replaced_by_its_copy"); break;
			case X_ASSIGN:
				if (!w->has( b)) { w->open( b, arg); }
				if (!w->has( b)) return;
				logOp( "assign", a, b); w->assign( a, b); ++g_copies;
				if (a == b) PROBE( "assigned_to_itself"); else PROBE( "assigned");
				break;
			case X_DESTROY: logOp( "destroy", a); w->destroy( a); FAULT( "destroyed"); break;
			case X_OPEN: logOp( "open", a); w->open( a, arg); break;
			default: logOp( "reset", a); w->special( a, arg); break;
		}
	}
	for (int i=0; i<SLOTS; ++i) if (w->has( i)) { logOp( "finish", i); w->finish( i); if (i & 1) w->destroy( i); }
	w.reset();
	g_log.clear(); g_log.shrink_to_fit();
	if (g_copies && usedAfterCopy && g_used > 2) nontrivial();
}
}//anon

static void execute( const Plan& p)
{
	int kind = 0, fill = -1;
	for (auto& r : p) if (r.tag == "k") { kind = (int)r.numc( 0, 0, K_NOF-1); fill = (int)r.numc( 1, -1, 255); break; }
	static const char* KN[] = {"kind_scanner","kind_reader","kind_header_parser","kind_printer","kind_expressions","kind_selection","kind_buffer"};
	countDyn( std::string( "count.") + KN[ kind]);
	mem::setFill( fill);
	struct Unfill { ~Unfill() { mem::disarm(); mem::setFill( -1); } } unfill;
	u64 l = 0; std::string info;
	for (int k=0; k<3; ++k)
	{
		// memory still held after the first execution may belong to static tables
		TraceMark tm = traceMark();
		mem::arm( 0, 0, true);
		pass( kind, p);
		l = mem::live();
		{ MemPause mp; info = l ? mem::liveInfo() : std::string(); }
		mem::disarm();
		if (k) traceReset( tm);
		if (!l) break;
	}
	if (l) fail( "leak", fmt( "%u memory blocks not released: %s", (unsigned)l, info.c_str()));
}
const Property g_property = {"C12", generate, execute};
}//namespace
