// C06: path selection: several selections over one shared set of expressions, fed from real scanners
// under a seeded schedule; refinement against reference semantics over the document tree.
#include "sessions.hpp"
#include "expr.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>
namespace sim {

// plan: A atm psrc; p.. (expression) b k type (expression to be rejected); S,K,E + document records
// deep nesting and expressions of descendant steps: more than 65536 states wait at the same time
static Plan generateHeavy( Rng& rng)
{
	Plan p, doc;
	p.push_back( Rec( "A", {(i64)(rng.chance( 60) ? 0 : rng.below( ATM_NOF)), 0}));
	p.push_back( Rec( "H"));
	ustr a = asciiU( "a"), b = asciiU( "b"), k = asciiU( "k");
	i64 depth = rng.range( 74, 84);
	for (int i=0; i<3; ++i)
	{
		RExpr e; e.type = i+1; e.api = rng.chance( 40); e.style = 0;
		if (i == 1 && rng.chance( 50)) continue;
		int n = i == 1 ? 2 : i == 2 ? 1 : 3;
		for (int j=0; j<n; ++j) { RStep s; s.kind = P_TAG; s.follow = true; if (rng.chance( 40)) s.names.push_back( a); e.steps.push_back( s); }
		RStep s; s.follow = i == 0 && rng.chance( 60);
		switch (rng.below( 3))
		{
			case 0: s.kind = P_ATTR; s.names.push_back( k); e.steps.push_back( s); break;
			case 1: s.kind = P_TAG; s.names.push_back( b); e.steps.push_back( s); break;
			default: e.out = O_CONTENT; e.outFollow = s.follow; break;
		}
		p.push_back( exprToRec( e));
	}
	doc.push_back( Rec( "do", {0,0}, {a}));
	doc.push_back( Rec( "dr", {depth, 1, 0}));
	doc.push_back( Rec( "do", {0,1}, {b,k,asciiU( "v")}));
	if (rng.chance( 50)) doc.push_back( Rec( "dt", {0}, {asciiU( "x")}));
	doc.push_back( Rec( "dc", {0}, {a}));
	bool more = rng.chance( 50);
	if (more) doc.push_back( Rec( "do", {0,1}, {b,k,asciiU( "w")}));
	doc.push_back( Rec( "dr", {depth, more ? 2 : 1, 0}));
	DocModel m;
	renderDoc( doc, 0, doc.size(), E_UTF8, 0, m);
	genDelivery( rng, m.hot, m.bytes.size(), 1, p, E_UTF8, SRC_CHUNK, 0);
	p.insert( p.end(), doc.begin(), doc.end());
	return p;
}

static Plan generate( Rng& rng)
{
	if (rng.below( 3000) == 0) return generateHeavy( rng);
	Plan p, rest;
	int atm = (int)rng.below( ATM_NOF);
	if (rng.chance( 40)) atm = 0;
	p.push_back( Rec( "A", {atm, (i64)(rng.chance( 40) ? 0 : rng.below( PSRC_NOF))}));
	int ns = rng.chance( 50) ? 1 : (int)rng.range( 2, 3);
	std::vector<DocNode> nodes;
	bool headers = false;
	bool same = rng.chance( 30);
	Plan doc0;
	for (int k=0; k<ns; ++k)
	{
		int enc = rng.chance( 50) ? 0 : (int)rng.below( E_NOF);
		Plan doc;
		DocModel m;
		GenOpts o; o.bigPermille = 6; o.bigMax = 150;
		o.maxNodes = rng.chance( 60) ? 12 : rng.chance( 80) ? 30 : 60;
		o.nonAsciiPct = 5; o.balanced = true;
		o.nameNonAsciiPct = rng.chance( 50) ? 0 : 10;
		o.eolPct = 2;
		if (k && same) doc = doc0; else genDoc( rng, enc, o, doc);
		// few names, so that paths coincide
		if (rng.chance( 75) && !(k && same))
		{
			std::vector<ustr> pool;
			int np = (int)rng.range( 1, 4);
			for (int i=0; i<np; ++i) pool.push_back( rng.permille( 15) ? genName( rng, E_UTF8, 0, 1100) : genName( rng, enc, o.nameNonAsciiPct, 4));
			std::vector<ustr> st;
			for (auto& r : doc)
			{
				if (r.tag == "do")
				{
					for (size_t i=0; i<r.s.size(); ++i) { if (i == 0 || (i&1)) { if (!rng.chance( 10)) r.s[i] = rng.pick( pool); } else if (rng.chance( 60)) r.s[i] = rng.pick( pool); }
					if (!r.num( 1)) st.push_back( r.s.empty() ? ustr() : r.s[0]);
				}
				else if (r.tag == "dc" && !st.empty()) { r.s = {st.back()}; st.pop_back(); }
			}
		}
		doc0 = doc;
		renderDoc( doc, 0, doc.size(), enc, 0, m);
		for (auto& i : m.items) if (i.type == I_HeaderStart) headers = true;
		docNodes( m.items, nodes);
		int kind = rng.chance( 70) ? SRC_CHUNK : (int)rng.range( 1, 3);
		Plan dl;
		genDelivery( rng, m.hot, m.bytes.size(), unitOf( enc), dl, enc, kind, 0);
		rest.insert( rest.end(), dl.begin(), dl.end());
		rest.insert( rest.end(), doc.begin(), doc.end());
	}
	// nodes of the documents are concatenated, so parents need their offset
	{
		std::vector<DocNode> all;
		size_t i = 0;
		while (i < nodes.size()) { all.push_back( nodes[i]); ++i; }
		nodes.swap( all);
	}
	int ne = rng.chance( 30) ? 1 : (int)rng.range( 2, 9);
	bool bigTypes = rng.chance( 5);
	std::vector<RExpr> prev;
	for (int i=0; i<ne; ++i)
	{
		if (rng.chance( 8)) p.push_back( Rec( "b", {(i64)rng.below( nofBad()), 1000+i}));
		RExpr e = genExpr( rng, nodes, headers, i+1);
		if (!prev.empty() && rng.chance( 30))
		{
			// share a prefix with an earlier expression
			const RExpr& q = prev[ rng.below( prev.size())];
			size_t np = 1 + rng.below( q.steps.size());
			std::vector<RStep> st( q.steps.begin(), q.steps.begin()+np);
			if (st.back().kind == P_TAG || st.back().kind == P_COND)
			{
				size_t from = rng.below( e.steps.size()+1);
				st.insert( st.end(), e.steps.begin()+from, e.steps.end());
				e.steps = st;
				if (st.back().kind != P_ATTR && e.out == O_ATTRVALUE) e.out = rng.chance( 50) ? O_CONTENT : O_NONE;
			}
		}
		if (bigTypes) e.type = 900000 - i * 70001;
		if (rng.chance( 5)) e.type = 1;		// the same type for several expressions
		prev.push_back( e);
		p.push_back( exprToRec( e));
	}
	if (rng.chance( 6)) p.push_back( Rec( "b", {(i64)rng.below( nofBad()), 1000+ne}));
	for (int i=rng.chance( 15) ? (int)rng.range( 1, 6) : 0; i>0; --i) p.push_back( Rec( "z", {2000+i}, {genExprText( rng, parseEnc( (int)p[0].num( 1)))}));
	p.insert( p.end(), rest.begin(), rest.end());
	return p;
}

static Plan normalise( const Plan& p)
{
	Plan out;
	std::vector<ustr> st;
	auto closeAll = [&]() { while (!st.empty()) { out.push_back( Rec( "dc", {0}, {st.back()})); st.pop_back(); } };
	for (auto& r : p)
	{
		if (r.tag == "S") closeAll();
		if (r.tag == "dc") { if (st.empty()) continue; st.pop_back(); }
		else if (r.tag == "do" && r.num( 1) == 0) st.push_back( r.str( 0));
		out.push_back( r);
	}
	closeAll();
	return out;
}

static void execute( const Plan& plan)
{
	Plan p = normalise( plan);
	int atm = 0, psrc = 0;
	for (auto& r : p) if (r.tag == "A") { atm = (int)r.numc( 0, 0, ATM_NOF-1); psrc = (int)r.numc( 1, 0, PSRC_NOF-1); }
	int enc = atmEnc( atm), penc = parseEnc( psrc);
	std::vector<SessionSpec> specs = parseSessions( p);
	std::vector<std::unique_ptr<Session> > ss;
	std::vector<DocModel> models( specs.size());
	bool headers = false, heavy = false;
	for (auto& r : p) if (r.tag == "H") heavy = true;
	if (heavy) setBudget( 3000000000ULL);
	for (size_t k=0; k<specs.size(); ++k)
	{
		SessionSpec& s = specs[k];
		s.csOut = csOf( enc); s.encOut = enc;
		s.dl.masks.clear();
		if (s.dl.kind != SRC_CHUNK && s.csOut != 0 && s.csOut != csOf( s.encIn)) s.dl.kind = SRC_CHUNK;
		if (s.dl.kind != SRC_CHUNK && csOf( s.encIn) == 0 && s.csOut != 0) s.dl.kind = SRC_CHUNK;
		renderDoc( p, s.recB, s.recE, s.encIn, &s.ents, models[k]);
		for (auto& i : models[k].items) if (i.type == I_HeaderStart) headers = true;
		evs( "doc", models[k].bytes);
	}
	std::unique_ptr<AtmBox> box( makeAtm( atm, psrc));
	std::unique_ptr<AtmBox> scratch;
	std::vector<RExpr> exprs;
	std::string descr = fmt( "expressions (%s, strings in %s):", encName( enc), encName( penc));
	for (auto& r : p)
	{
		if (r.tag == "S") break;
		if (r.tag == "p" && exprs.size() < 16)
		{
			RExpr e; exprFromRec( r, headers, e, 1000/unitOf( enc));
			descr += " " + printable( exprToString( e, E_UTF8)) + (e.rkind >= R_TO ? fmt( " range kind %d %d %d (%d %d)", e.rkind, e.a, e.b, range2( e.style, e.a, 3), range2( e.style, e.b, 5)) : std::string()) + fmt( "=%d%s", e.type, e.api ? "(calls)" : "");
			addExpr( *box, e, enc, penc);
			exprs.push_back( e);
		}
		else if (r.tag == "z")
		{
			FAULT( "expression_of_random_text");
			if (!scratch) scratch.reset( makeAtm( atm, psrc));
			checkExprText( *box, *scratch, (int)r.numc( 0, 1, 1000000), r.str( 0), penc);
		}
		else if (r.tag == "b")
		{
			std::string txt;
			size_t k = (size_t)r.numc( 0, 0, (i64)nofBad()-1);
			FAULT( "malformed_expression");
			descr += " rejected:" + txt;
			if (!addBad( *box, k, (int)r.numc( 1, 1, 1000000), penc, enc, txt)) fail( "malformed-accepted", "malformed expression accepted: " + txt.substr( 0, 80));
			descr += txt.substr( 0, 40);
		}
	}
	evs( "expr", descr);
	std::vector<Selected> expect( specs.size());
	std::vector<std::unique_ptr<SelBox> > sel;
	std::vector<size_t> done( specs.size(), 0);
	std::vector<std::vector<int> > inner( specs.size());
	u64 total = 0;
	for (size_t k=0; k<specs.size(); ++k)
	{
		if (heavy ? !refSelect( exprs, models[k].items, enc, expect[k], 20000000, 400000) : !refSelect( exprs, models[k].items, enc, expect[k])) { COUNT( "runs_over_cap", 1); return; }
		ss.push_back( std::unique_ptr<Session>( new Session( specs[k], models[k].bytes)));
		sel.push_back( std::unique_ptr<SelBox>( box->newSel()));
		total += models[k].bytes.size();
	}
	size_t selections = 0, switches = 0, last = (size_t)-1;
	u64 t = 0;
	for (;;)
	{
		size_t best = (size_t)-1;
		for (size_t i=0; i<ss.size(); ++i) if (!ss[i]->finished && (best == (size_t)-1 || ss[i]->nextTime < ss[best]->nextTime)) best = i;
		if (best == (size_t)-1) break;
		Session& s = *ss[best];
		if (s.nextTime > t) { simTime( s.nextTime - t); t = s.nextTime; }
		if (last != best) { if (last != (size_t)-1) ++switches; last = best; }
		ev( "run", best, s.nextTime);
		s.step();
		for (; done[best] < s.items.size(); ++done[best])
		{
			size_t i = done[best];
			const Item& it = s.items[i];
			const DocModel& m = models[best];
			if (it.type == I_Error) fail( "scan-error", fmt( "scan reports %s; ", itemStr( it).c_str()) + s.describe());
			if (it.type == I_Exit)
			{
				if (i != m.items.size()) fail( "scan-differs", fmt( "scan ends after %u items, the document has %u; ", (unsigned)i, (unsigned)m.items.size()) + s.describe());
				continue;
			}
			if (i >= m.items.size() || it.type != m.items[i].type || it.data != encodeStr( enc, m.items[i].text)) fail( "scan-differs", fmt( "scanned item %u %s is not that of the document; ", (unsigned)i, itemStr( it).c_str()) + s.describe());
			char* buf = (char*)malloc( it.data.size()?it.data.size():1);
			memcpy( buf, it.data.data(), it.data.size());
			std::vector<int> got, all, sure, content;
			// the states waiting for an item are known when the scope was just opened
			bool announced = i == 0 || s.items[ i-1].type == I_OpenTag;
			if (announced) sel[best]->announce( it.type, buf, it.data.size(), all, sure, content);
			u64 b0;
			{
				BudgetScope bs( heavy ? 1000000000 : 20000000);
				b0 = budgetLeft();
				sel[best]->push( it.type, buf, it.data.size(), mix64( specs[best].dl.arrival + i), got);
				if (b0 - budgetLeft() > 5000000) PROBE( "quarter_of_the_step_bound_used");
			}
			free( buf);
			std::sort( got.begin(), got.end());
			selections += got.size();
			for (int g : got) ev( "selected", i, (u64)g);
			if (got != expect[best][i])
			{
				std::string a, b;
				for (int g : got) a += fmt( " %d", g);
				for (int g : expect[best][i]) b += fmt( " %d", g);
				fail( "selection-differs", fmt( "item %u %s of document %u selects {%s }, expected {%s }; ", (unsigned)i, itemStr( it).c_str(), (unsigned)best, a.c_str(), b.c_str()) + descr + "; " + s.describe());
			}
			if (announced)
			{
				std::sort( all.begin(), all.end()); std::sort( sure.begin(), sure.end());
				std::vector<int> gs = got; gs.erase( std::unique( gs.begin(), gs.end()), gs.end());
				if (!std::includes( all.begin(), all.end(), gs.begin(), gs.end()) || !std::includes( got.begin(), got.end(), sure.begin(), sure.end()))
				{
					std::string a, b, c;
					for (int g : got) a += fmt( " %d", g);
					for (int g : all) b += fmt( " %d", g);
					for (int g : sure) c += fmt( " %d", g);
					fail( "announcement-differs", fmt( "item %u %s of document %u selects {%s }, the inspection of the states before announced {%s }, certain {%s }; ", (unsigned)i, itemStr( it).c_str(), (unsigned)best, a.c_str(), b.c_str(), c.c_str()) + descr + "; " + s.describe());
				}
				if (!sure.empty()) PROBE( "selection_announced");
				if (it.type == I_Content && !std::includes( got.begin(), got.end(), inner[best].begin(), inner[best].end())) fail( "announcement-differs", fmt( "item %u %s of document %u does not select what the element was announced to select for its contents; ", (unsigned)i, itemStr( it).c_str(), (unsigned)best) + descr + "; " + s.describe());
				if (it.type == I_Content && !inner[best].empty()) PROBE( "content_selection_announced");
			}
			std::sort( content.begin(), content.end());
			inner[best].swap( content);
			if (got.size() > 1) PROBE( "item_selected_more_than_once");
		}
	}
	for (size_t k=0; k<ss.size(); ++k) if (done[k] != models[k].items.size()+1) fail( "scan-differs", fmt( "%u of %u items scanned; ", (unsigned)done[k], (unsigned)models[k].items.size()+1) + ss[k]->describe());
	COUNT( "types_selected", selections);
	COUNT( "selection_switches", switches);
	if (selections > 1) nontrivial();
}
const Property g_property = {"C06", generate, execute};
}//namespace
