// C08: printing histories with rejected calls, several printers interleaved; the documents are checked by an
// independent recogniser and read back by real scanners under a seeded schedule of deliveries.
#include "sessions.hpp"
#include "prhist.hpp"
#include <algorithm>
#include <cstring>
namespace sim {

// plan: S,K (how the document is read back), W appCs sub default arrival utils, o.. printing calls, z sub (reset), one session per printer
static Plan generate( Rng& rng)
{
	Plan p;
	int ns = rng.chance( 65) ? 1 : (int)rng.range( 2, 3);
	for (int k=0; k<ns; ++k)
	{
		int io = rng.chance( 30) ? 0 : (int)rng.below( E_NOF);
		int app = rng.chance( 35) ? 0 : (int)rng.below( 8);
		bool sub = rng.chance( 25);
		PrModel m( app, io, sub);
		Plan ops;
		int n = rng.chance( 70) ? (int)rng.range( 1, 20) : (int)rng.range( 20, 70);
		int ill = rng.chance( 40) ? 0 : (int)rng.range( 5, 35);
		size_t len = 40;
		bool deep = rng.chance( 10);
		for (int i=0; i<n; ++i)
		{
			if (rng.chance( 1)) { int s = (int)rng.below( 2); m.reset( s != 0); ops.push_back( Rec( "z", {s})); continue; }
			Rec r = deep && m.state != PS_INIT && m.state != PS_ATTR && rng.chance( 70) ? Rec( "o", {PO_OPEN,0}, {genName( rng, io, 10, rng.chance( 10) ? rng.chance( 4) ? rng.chance( 15) ? 140000 : 9000 : 300 : 30)}) : genPrOp( rng, app, io, m, ill);
			PrOp op = prOp( r, app, io);
			if (!m.usable( op)) continue;
			if (m.legal( op)) { m.apply( op); for (auto& t : op.text) len += t.size() + 6; }
			ops.push_back( r);
		}
		len *= unitOf( io);
		genDelivery( rng, std::vector<size_t>(), std::min<size_t>( len, 1500), unitOf( io), p, io, rng.chance( 75) ? SRC_CHUNK : (int)rng.range( 1, 3), 0);
		p.push_back( Rec( "W", {app, sub, rng.chance( 50), (i64)rng.below( 1000000), rng.chance( 20)}));
		p.insert( p.end(), ops.begin(), ops.end());
	}
	return p;
}

struct Pr
{
	int app, io; bool sub0, utils; Rng rng; u64 nextTime;
	std::unique_ptr<PrinterBox> box;
	std::unique_ptr<PrModel> model;
	std::vector<size_t> recs; size_t next; bool done;
	std::string log;
	Pr() :app(0),io(0),sub0(false),utils(false),rng(1),nextTime(0),next(0),done(false){}
};

static void step( Pr& s, const PrOp& op)
{
	PrinterBox& b = *s.box; PrModel& m = *s.model;
	if (s.log.size() < 1500) s.log += " " + prOpStr( op);
	std::string ctx = fmt( " (application %s, output %s%s); calls:", encName( s.app), encName( s.io), m.sub ? ", sub document" : "") + s.log;
	std::string before( b.data(), b.size());
	int st0 = b.state();
	bool legal = m.legal( op);
	bool rt = doPrint( b, op);
	ev( "print", (u64)op.kind, rt);
	if (!legal)
	{
		FAULT( "call_in_wrong_state");
		if (rt) fail( "illegal-call-accepted", prOpStr( op) + " is accepted" + ctx);
		if (!b.lasterror() || !*b.lasterror()) fail( "no-error-message", prOpStr( op) + " is rejected without an error message" + ctx);
		if (before != std::string( b.data(), b.size())) fail( "rejected-call-emits", prOpStr( op) + " is rejected, but the output changed" + ctx);
		if (b.state() != st0) fail( "rejected-call-changes", prOpStr( op) + fmt( " is rejected, but the state changed from %d to %d", st0, b.state()) + ctx);
		return;
	}
	if (!rt) fail( "legal-call-rejected", prOpStr( op) + " is rejected: " + (b.lasterror() ? b.lasterror() : "") + ctx);
	if (b.size() < before.size() || std::memcmp( before.data(), b.data(), before.size()) != 0) fail( "output-changed", prOpStr( op) + " changes what was printed before" + ctx);
	if (s.utils && op.kind == PO_VALUE)
	{
		// the functions for single values print the same
		std::string u;
		std::string em( b.data()+before.size(), b.size()-before.size());
		b.util( m.state == PS_ATTR ? 0 : 1, op.enc[0].data(), op.enc[0].size(), u);
		if (m.state == PS_TAG) u = encodeStr( s.io, asciiU( ">")) + u;
		if (u != em) fail( "value-differs", prOpStr( op) + " prints \"" + printable( em) + "\", the function for single values \"" + printable( u) + "\"" + ctx);
	}
	m.apply( op);
	if (b.state() != m.state) fail( "wrong-state", prOpStr( op) + fmt( " leads to state %d, expected %d", b.state(), m.state) + ctx);
}

static void execute( const Plan& p)
{
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Pr> > prs;
	for (auto& sp : specs)
	{
		Pr* s = new Pr; prs.push_back( std::unique_ptr<Pr>( s));
		s->io = sp.encIn;
		bool dflt = false;
		sp.dl.masks.clear();
		for (size_t i=sp.recB; i<sp.recE; ++i)
		{
			if (p[i].tag == "W") { s->app = (int)p[i].numc( 0, 0, 7); s->sub0 = p[i].num( 1) != 0; dflt = p[i].num( 2) != 0; s->rng = Rng( (u64)p[i].num( 3)); s->utils = p[i].num( 4) != 0; }
			if (p[i].tag == "o" || p[i].tag == "z") s->recs.push_back( i);
		}
		SinkSpec sink;
		s->box.reset( makePrinter( s->app, s->io, s->sub0, sink, dflt));
		s->model.reset( new PrModel( s->app, s->io, s->sub0));
		s->nextTime = s->rng.below( 20);
	}
	u64 t = 0;
	size_t calls = 0;
	for (;;)
	{
		Pr* s = 0; size_t which = 0;
		for (size_t i=0; i<prs.size(); ++i) if (!prs[i]->done && (!s || prs[i]->nextTime < s->nextTime)) { s = prs[i].get(); which = i; }
		if (!s) break;
		if (s->nextTime > t) { simTime( s->nextTime - t); t = s->nextTime; }
		s->nextTime = t + 1 + s->rng.below( 30);
		ev( "run", which);
		PrOp op;
		if (s->next < s->recs.size())
		{
			const Rec& r = p[ s->recs[ s->next++]];
			if (r.tag == "z")
			{
				PROBE( "printer_reset");
				s->box->reset( r.num( 0) != 0); s->model->reset( r.num( 0) != 0); s->box->clearSink();
				s->log = "";
				if (s->box->lasterror()) fail( "reset-incomplete", "error message left after reset");
				if (s->box->state() != s->model->state) fail( "reset-incomplete", "wrong state after reset");
				continue;
			}
			op = prOp( r, s->app, s->io);
			if (!s->model->usable( op)) continue;
		}
		else if (!s->model->completing( op)) { s->done = true; continue; }
		++calls;
		step( *s, op);
	}
	std::vector<std::unique_ptr<Session> > ss;
	for (size_t k=0; k<prs.size(); ++k)
	{
		Pr& s = *prs[k];
		std::string out( s.box->data(), s.box->size());
		evs( "doc", out);
		std::string ctx = fmt( " (application %s, output %s); calls:", encName( s.app), encName( s.io)) + s.log;
		ustr text; std::string why; std::vector<ExpItem> items;
		if (!decodeStr( s.io, out, text)) fail( "not-decodable", "the output is not valid in its encoding: " + printable( out) + ctx);
		if (!wellFormed( text, s.model->sub, items, why)) fail( "not-well-formed", "the document printed is not well formed: " + why + ": " + printable( encodeStr( E_UTF8, text)) + ctx);
		const std::vector<ExpItem>& x = s.model->items;
		for (size_t i=0; i<x.size() || i<items.size(); ++i)
			if (i >= x.size() || i >= items.size() || x[i].type != items[i].type || x[i].text != items[i].text)
				fail( "document-differs", fmt( "item %u of the document printed is %s(\"%s\"), expected %s(\"%s\"): ", (unsigned)i, i<items.size()?itemName( items[i].type):"missing", i<items.size()?printable( encodeStr( E_UTF8, items[i].text)).c_str():"", i<x.size()?itemName( x[i].type):"none", i<x.size()?printable( encodeStr( E_UTF8, x[i].text)).c_str():"") + printable( encodeStr( E_UTF8, text)) + ctx);
		ss.push_back( std::unique_ptr<Session>( new Session( specs[k], out)));
	}
	runSessions( ss);
	for (size_t k=0; k<prs.size(); ++k)
	{
		const std::vector<ExpItem>& x = prs[k]->model->items;
		const std::vector<Item>& got = ss[k]->items;
		for (size_t i=0; i<=x.size(); ++i)
		{
			int et = i < x.size() ? x[i].type : I_Exit;
			std::string ed = i < x.size() ? encodeStr( specs[k].encOut, x[i].text) : std::string();
			if (i >= got.size() || got[i].type != et || (i < x.size() && got[i].data != ed))
				fail( "read-back-differs", fmt( "item %u read back is %s, printed was %s(\"%s\"); calls:", (unsigned)i, i<got.size()?itemStr( got[i]).c_str():"missing", itemName( et), printable( ed).c_str()) + prs[k]->log + "; " + ss[k]->describe());
		}
	}
	COUNT( "printing_calls", calls);
	if (calls > 3) nontrivial();
}
const Property g_property = {"C08", generate, execute};
}//namespace
