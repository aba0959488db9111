#include "sessions.hpp"
#include <algorithm>
#include <cstring>
#include <cstdlib>

namespace sim {

std::size_t SimStream::read( void* buf, std::size_t n)
{
	MemPause mp;
	++reads;
	size_t end = data.size();
	while (ci < cuts.size() && cuts[ci] <= pos) ++ci;
	if (ci < cuts.size() && cuts[ci] < end) end = cuts[ci];
	size_t k = std::min( n, end - pos);
	if (k < n && pos + k < data.size()) FAULT( "short_read");
	if (k == 0) ++eofs;
	std::memcpy( buf, data.data()+pos, k);
	pos += k;
	posLog.push_back( pos);
	ev( "read", n, k);
	return k;
}

Session::Session( const SessionSpec& sp, const std::string& bytes_)
	:spec(sp),bytes(bytes_),finished(false),afterError(-1),nextTime(0),suspensions(0),midToken(0),maxErr(3),verifyPos(false),asked(false)
	,chunk(0),chunksize(0),fed(0),prevFed(0),cutIdx(0),stage(0),waiting(true),rng(sp.dl.arrival),limit(0),maskAnd(0),maskOr(0),maskItem((size_t)-1),remaskIdx(0)
{
	ScanSource s;
	const Delivery& d = sp.dl;
	s.kind = d.kind;
	s.page = sp.encIn >= E_ISO1 ? pageOf( sp.encIn) : 0;
	if (s.page == 1 && (d.arrival & 1)) s.page = 0;		// default constructed character set
	s.setSource = d.setSource;
	s.ctorChunk = d.kind == SRC_CHUNK && ((d.arrival >> 7) % 3) == 0;
	s.useIterator = d.useIterator;
	s.iterStyle = (int)((d.arrival >> 3) % 4);
	s.entities = sp.shared ? sp.shared : sp.ents.ent.empty() ? 0 : &sp.ents;
	s.capacity = d.kind == SRC_CHUNK ? sp.capacity : -1;
	if (d.kind == SRC_CHARP)
	{
		zdata = bytes; zdata.append( unitOf( sp.encIn) == 1 ? 1 : 16, '\0');
		s.cptr = (char*)std::malloc( zdata.size());
		std::memcpy( s.cptr, zdata.data(), zdata.size());
		chunk = s.cptr;
		fed = bytes.size();
	}
	else if (d.kind == SRC_CSTR)
	{
		char* p = (char*)std::malloc( bytes.size()?bytes.size():1);
		std::memcpy( p, bytes.data(), bytes.size());
		chunk = p;
		s.str = p; s.strsize = bytes.size();
		s.chooseCstr( d.arrival);
		fed = bytes.size();
	}
	else if (d.kind == SRC_STREAM)
	{
		stream.reset( new SimStream( bytes, d.cuts));
		s.stream = stream.get();
		s.bufsize = d.bufsize;
	}
	sc.reset( makeScanner( csOf( sp.encIn), sp.csOut, s));
	limit = bytes.size() * 2 + 64;
	waiting = d.kind == SRC_CHUNK;
	simTime( 0);
	nextTime = rng.below( 50);
}
Session::~Session() { sc.reset(); std::free( chunk); }

bool Session::feedNext()
{
	const Delivery& d = spec.dl;
	// the consumed chunk is gone as soon as the scanner asked for more
	std::free( chunk); chunk = 0;
	size_t e;
	bool last = false;
	if (stage == 1) { e = fed; last = true; }
	else if (stage >= 2) fail( "asks-for-more", fmt( "scanner asks for input after the final chunk (%u bytes)", (unsigned)bytes.size()));
	else
	{
		e = cutIdx < d.cuts.size() ? std::min( d.cuts[ cutIdx], bytes.size()) : bytes.size();
		if (e < fed) e = fed;
		++cutIdx;
		if (cutIdx > d.cuts.size())
		{
			e = bytes.size();
			if (d.endStyle == 0) { last = true; stage = 2; }
			else if (d.endStyle == 1) { stage = 1; }
			else stage = 2;
		}
	}
	bool nul = (stage == 2 && d.endStyle == 2 && !last);
	size_t n = e - fed;
	chunksize = n + (nul ? 64 : 0);
	chunk = (char*)std::malloc( chunksize ? chunksize : 1);
	std::memcpy( chunk, bytes.data()+fed, n);
	if (nul) std::memset( chunk+n, 0, 64);
	if (stage == 1 && last) stage = 2;
	ev( "feed", n, last ? 1 : nul ? 2 : 0);
	if (n == 0 && !last && !nul) FAULT( "empty_chunk");
	if (!last && !nul) FAULT( "chunk_boundary");
	prevFed = fed;
	fed = e;
	sc->feed( chunk, chunksize, last);
	return true;
}

bool Session::pull()
{
	unsigned short mask = spec.dl.mask( items.size());
	if (maskItem != items.size()) { maskItem = items.size(); maskAnd = maskOr = mask; }
	else if (!spec.dl.remasks.empty() && !spec.dl.useIterator)
	{
		mask = (unsigned short)spec.dl.remasks[ remaskIdx++ % spec.dl.remasks.size()];
		maskAnd &= mask; maskOr |= mask;
		FAULT( "resumed_with_another_mask");
	}
	g_what = "nextItem";
	if (verifyPos && !asked)
	{
		asked = true;
		if (sc->tokenPos()) fail( "token-position", fmt( "position %u of a token before the first item; ", (unsigned)sc->tokenPos()) + describe());
		if (sc->pos()) fail( "position-backwards", fmt( "input position %u before anything was read; ", (unsigned)sc->pos()) + describe());
	}
	int t = sc->next( mask);
	if (t == SUSPENDED)
	{
		++suspensions;
		size_t cp; bool ce;
		if (verifyPos && cutIdx && sc->chunkPos( cp, ce))
		{
			if (!ce || cp != chunksize) fail( "position-in-chunk", fmt( "suspended at position %u of a chunk of %u bytes, end of chunk %d; ", (unsigned)cp, (unsigned)chunksize, (int)ce) + describe());
			PROBE( "chunk_position");
		}
		ev( "suspended", items.size());
		return false;
	}
	Item it;
	readItem( *sc, t, mask, it, spec.dl.useIterator);
	it.remaskedAny = maskAnd != maskOr;
	it.remasked = t >= 0 && t < 16 && ((maskAnd ^ maskOr) & (1 << t));
	items.push_back( it);
	availAt.push_back( fed);
	posAfter.push_back( sc->pos());
	size_t cp; bool ce;
	if (verifyPos && stage < 2 && sc->chunkPos( cp, ce) && (cp > chunksize || ce != (cp == chunksize)))
		fail( "position-in-chunk", fmt( "position %u of a chunk of %u bytes, end of chunk %d; ", (unsigned)cp, (unsigned)chunksize, (int)ce) + describe());
	needAt.push_back( stream ? (stream->posLog.size() >= 3 ? stream->posLog[ stream->posLog.size()-3] : 0) : prevFed);
	ev( "item", (u64)t, it.data.size()); evs( "data", it.data);
	if (it.err) ev( "err", it.err);
	if (t == I_Exit)
	{
		finished = true;
		// the end is sticky
		for (int i=0; i<2; ++i)
		{
			int t2 = sc->next( 0xFFFF);
			if (t2 != I_Exit) fail( "exit-not-sticky", fmt( "after Exit the scanner returns %s", itemName( t2)));
		}
	}
	else if (t == I_Error)
	{
		if (afterError < 0) afterError = maxErr; else --afterError;
		if (afterError <= 0) finished = true;
	}
	else if (afterError > 0)
	{
		if (--afterError <= 0) finished = true;
	}
	if (items.size() > limit) fail( "too-many-items", fmt( "%u items from %u bytes", (unsigned)items.size(), (unsigned)bytes.size()));
	return true;
}

void Session::step()
{
	if (waiting)
	{
		if (cutIdx && rng.chance( (unsigned)spec.dl.spurious))
		{
			FAULT( "spurious_resume");
			if (pull()) fail( "progress-without-input", "scanner delivered an item after it had suspended without new input: " + itemStr( items.back()));
			nextTime += 1 + rng.below( 10);
			return;
		}
		feedNext();
		waiting = false;
	}
	int n = spec.dl.pumpLimit ? (int)rng.range( 1, spec.dl.pumpLimit) : 1000000;
	while (n-- > 0 && !finished)
	{
		if (!pull())
		{
			waiting = true;
			if (rng.chance( 5)) { FAULT( "stalled_producer"); nextTime += 1000 + rng.below( 5000000); }
			else nextTime += rng.below( 100);
			return;
		}
	}
	nextTime += rng.below( 20);
}

std::string Session::describe() const
{
	std::string s = fmt( "%s->cs%d kind=%d setSource=%d iter=%d end=%d cuts=[", encName( spec.encIn), spec.csOut, spec.dl.kind, (int)spec.dl.setSource, (int)spec.dl.useIterator, spec.dl.endStyle);
	for (size_t c : spec.dl.cuts) s += std::to_string( c) + " ";
	return s + "] doc=\"" + printable( bytes.substr( 0, 300)) + "\"";
}

void runSessions( std::vector<std::unique_ptr<Session> >& ss)
{
	u64 t = 0;
	size_t last = (size_t)-1;
	for (;;)
	{
		size_t best = (size_t)-1;
		for (size_t i=0; i<ss.size(); ++i)
		{
			if (ss[i]->finished) continue;
			if (best == (size_t)-1 || ss[i]->nextTime < ss[best]->nextTime) best = i;
		}
		if (best == (size_t)-1) break;
		if (ss[best]->nextTime > t) { simTime( ss[best]->nextTime - t); t = ss[best]->nextTime; }
		if (best != last && ss.size() > 1) { COUNT( "context_switches", 1); }
		last = best;
		ev( "run", best, ss[best]->nextTime);
		ss[best]->step();
	}
}

void scanWhole( const SessionSpec& sp, const std::string& bytes, std::vector<Item>& items, int maxErr)
{
	SessionSpec s = sp;
	s.ents.build();
	s.dl = Delivery();
	s.capacity = -1;
	s.dl.masks = sp.dl.useIterator ? std::vector<i64>() : sp.dl.masks;
	Session ses( s, bytes);
	ses.maxErr = maxErr;
	std::vector<std::unique_ptr<Session> > dummy;
	while (!ses.finished) ses.step();
	items = ses.items;
}

// ---- plan records: S session, K cuts, M masks, E entities, X damage ----
void genDelivery( Rng& rng, const std::vector<size_t>& hot, size_t len, unsigned int unit, Plan& out, int encIn, int kind, int maskPct)
{
	int csOut = kind == SRC_CHUNK ? (int)rng.below( CS_NOF) : rng.chance( 50) ? 0 : csOf( encIn);
	if (rng.chance( 25)) csOut = csOf( encIn);
	size_t bufsize = rng.chance( 40) ? (size_t)rng.range( 1, 8) : rng.chance( 60) ? (size_t)rng.range( 8, 64) : (size_t)rng.range( 64, 9000);
	if (len > 50000 && rng.chance( 40)) bufsize = rng.chance( 60) ? 65535 + (size_t)rng.below( 3) : (size_t)rng.range( 9000, 140000);
	int spur = rng.chance( 30) ? (int)rng.range( 5, 60) : 0;
	out.push_back( Rec( "S", {encIn, csOut, kind, rng.chance( 35), rng.chance( 25), (i64)rng.below( 3), (i64)rng.next() & 0xFFFFFF, rng.chance( 40) ? (i64)rng.range( 1, 4) : 0, spur, (i64)bufsize}));
	Rec k( "K");
	size_t nc = len <= 4000 ? 0 : len / 600;		// long documents: not more than some hundred pieces
	switch (nc ? (rng.chance( 50) ? 1 : 6) : rng.below( 6))
	{
		case 0: for (size_t i=1; i<=len; ++i) k.n.push_back( (i64)i); break;					// every byte
		case 1: { int n = (int)rng.range( 1, nc ? 40 : 3); for (int i=0; i<n; ++i) k.n.push_back( (i64)rng.below( len+1)); break; }
		case 2: { for (size_t h : hot) if (rng.chance( 30)) k.n.push_back( (i64)h); break; }			// at interesting places
		case 3: { for (size_t h : hot) if (rng.chance( 25)) k.n.push_back( (i64)std::max<i64>( 0, (i64)h + rng.range( -2, 2))); break; }
		case 4: { size_t p=0; while (p < len && k.n.size() < 400) { p += (size_t)rng.range( 1, 1+(i64)len/2); k.n.push_back( (i64)p); } break; }
		case 6: for (int i=0; i<300; ++i) { i64 h = hot.empty() || rng.chance( 30) ? (i64)rng.below( len+1) : (i64)rng.pick( hot); k.n.push_back( std::max<i64>( 0, h + (rng.chance( 50) ? 0 : rng.range( -2, 2)))); } break;
		default: { i64 step = rng.range( 1, 7); for (i64 p=step; p<(i64)len; p+=step) k.n.push_back( p); break; }
	}
	if (rng.chance( 20) && !k.n.empty()) { int d = (int)rng.range( 1, 3); for (int i=0; i<d; ++i) k.n.push_back( k.n[ rng.below( k.n.size())]); }	// empty chunks
	std::sort( k.n.begin(), k.n.end());
	out.push_back( k);
	if ((int)rng.below( 100) < maskPct)
	{
		Rec m( "M");
		int n = (int)rng.range( 1, 5);
		for (int i=0; i<n; ++i) m.n.push_back( rng.chance( 30) ? 0xFFFF : rng.chance( 20) ? 0 : (i64)(rng.next() & 0xFFFF));
		out.push_back( m);
	}
	if ((int)rng.below( 150) < maskPct)
	{
		Rec m( "Q");
		int n = (int)rng.range( 1, 4);
		for (int i=0; i<n; ++i) m.n.push_back( rng.chance( 50) ? 0xFFFF : rng.chance( 40) ? 0 : (i64)(rng.next() & 0xFFFF));
		out.push_back( m);
	}
	(void)unit;
}

std::vector<SessionSpec> parseSessions( const Plan& p)
{
	std::vector<SessionSpec> rt;
	for (size_t i=0; i<p.size(); ++i)
	{
		const Rec& r = p[i];
		if (r.tag == "S")
		{
			SessionSpec s;
			s.encIn = (int)r.numc( 0, 0, E_NOF-1);
			s.csOut = (int)r.numc( 1, 0, CS_NOF-1);
			s.encOut = s.csOut;	// output IsoLatin is code page 1
			s.dl.kind = (int)r.numc( 2, 0, SRC_NOF-1);
			if (s.dl.kind != SRC_CHUNK && s.csOut != csOf( s.encIn)) s.csOut = s.encOut = 0;
			if (s.dl.kind != SRC_CHUNK && csOf( s.encIn) == 0) s.csOut = s.encOut = s.csOut > 1 ? 0 : s.csOut;
			s.dl.setSource = r.num( 3) != 0;
			s.dl.useIterator = r.num( 4) != 0;
			s.dl.endStyle = (int)r.numc( 5, 0, 2);
			s.dl.arrival = (u64)r.num( 6);
			s.dl.pumpLimit = (int)r.numc( 7, 0, 100);
			s.dl.spurious = (int)r.numc( 8, 0, 80);
			s.dl.bufsize = (size_t)r.numc( 9, 1, 200000);
			s.recB = i+1; s.recE = p.size();
			if (!rt.empty()) rt.back().recE = i;
			rt.push_back( s);
		}
		else if (!rt.empty())
		{
			if (r.tag == "K")
			{
				for (i64 c : r.n) rt.back().dl.cuts.push_back( (size_t)(c<0?0:c));
				std::sort( rt.back().dl.cuts.begin(), rt.back().dl.cuts.end());
			}
			else if (r.tag == "M") rt.back().dl.masks = r.n;
			else if (r.tag == "Q") rt.back().dl.remasks = r.n;
			else if (r.tag == "E")
			{
				for (size_t k=0; k<r.s.size(); ++k)
				{
					std::string nm;
					for (char32_t c : r.s[k]) if (c > 32 && c < 127 && !std::strchr( "&<>=/-!?'\"[];#", (char)c)) nm += (char)c;
					u64 v = (u64)r.num( k, 'x');
					if (v == 0 || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) v = 'x';
					bool dup = nm.empty() || nm.size() > 15 || nm=="quot"||nm=="amp"||nm=="apos"||nm=="lt"||nm=="gt"||nm=="nbsp";
					for (auto& x : rt.back().ents.ent) if (x.first == nm) dup = true;
					if (!dup) rt.back().ents.ent.push_back( std::make_pair( nm, v));
				}
			}
		}
	}
	for (auto& s : rt) s.ents.build();
	return rt;
}

void genDamage( Rng& rng, Plan& out, int enc, int n)
{
	for (int i=0; i<n; ++i)
	{
		static const char P[] = "<>&;#x\"'/=!?-[] \n\r\0\xC3\xFF\x80" "aq0";
		if (rng.chance( 20)) { out.push_back( Rec( "X", {6, (i64)rng.below( 100000), (i64)rng.below( 64), (i64)enc})); continue; }
		out.push_back( Rec( "X", {(i64)rng.below( 6), (i64)rng.below( 100000), (i64)(unsigned char)P[ rng.below( sizeof(P)-1)], (i64)rng.range( 1, 20)}));
	}
}

std::string damageFragment( size_t k, int enc)
{
	static const char* const F[] = {
		"&#0000000000000000000000000000000065;", "&#x00000000000000000000000041;", "&#000000000000000000000000000000000000", "&abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz;", "&#xffffffff;", "&#4294967295;", "&#x7fffffff;",
		"&", "&#", "&#x", "&amp", "&nosuch;", "<!--", "-->", "--", "<!-", "<!", "<![CDATA[", "]]>", "]]", "<![", "<?", "?>", "<?xml", "<?xml version='1.0'?>", "<!DOCTYPE", "<!DOCTYPE a SYSTEM 'b'>", "<!DOCTYPE a [ <!ELEMENT b (c)> ]>",
		"<!ENTITY", "</", "/>", "</>", "<>", "< a>", "<a/ >", "<a b", "<a b=", "<a b='", "<a b=\"c\"d='e'>", "='", "=\"", "\r\r\n", "\n\r", "\t", "<a><b></a></b>", "</a></a></a></a>", "<a b=c>", "<a b='c' b='d'/>"
	};
	const char* f = F[ k % (sizeof(F)/sizeof(F[0]))];
	std::string rt;
	for (; *f; ++f) encodeOut( enc, (unsigned char)*f, rt);
	return rt;
}

std::string damageBytes( const Plan& p, size_t b, size_t e, std::string s)
{
	for (size_t i=b; i<e; ++i)
	{
		const Rec& r = p[i];
		if (r.tag != "X") continue;
		size_t pos = s.empty() ? 0 : (size_t)((u64)r.num( 1) % s.size());
		char c = (char)(unsigned char)(r.num( 2) & 0xFF);
		size_t len = (size_t)r.numc( 3, 0, 64);
		switch (r.numc( 0, 0, 6))
		{
			case 6: s.insert( pos, damageFragment( (size_t)(r.num( 2) & 0xFF), (int)(r.num( 3) & 15))); FAULT( "fragment_inserted"); break;
			case 0: s.resize( pos); FAULT( "truncated_input"); break;
			case 1: if (!s.empty()) s[pos] = c; FAULT( "byte_replaced"); break;
			case 2: s.insert( pos, 1, c); FAULT( "byte_inserted"); break;
			case 3: if (!s.empty()) s.erase( pos, len); FAULT( "bytes_lost"); break;
			case 4: if (!s.empty()) s.insert( pos, s.substr( pos, len)); FAULT( "bytes_duplicated"); break;
			case 5: if (!s.empty()) s[pos] = (char)(s[pos] ^ (1 << (len&7))); FAULT( "bit_flipped"); break;
		}
	}
	return s;
}
}//namespace
