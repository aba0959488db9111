// Histories of source iterators: several copies of one iterator, advanced, fed, copied, assigned, placed; every character, position and
// distance is compared with plain offsets into the source.
#include "iter.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include <memory>
#include <sstream>
#include <cstring>
#include <cstdlib>
#include <csetjmp>
namespace sim {
// plan: I kind size bufsize seed ; o op i j n
enum {IK_CSTR, IK_STRING, IK_ZSTR, IK_SRC, IK_STREAM, IK_STDSTREAM, IK_NOF};
enum {IO_INC, IO_DEREF, IO_COPY, IO_ASSIGN, IO_DIFF, IO_SEEK, IO_POS, IO_FEED, IO_LIVE, IO_NOF};

Plan generateIter( Rng& rng)
{
	Plan p;
	int kind = (int)rng.below( IK_NOF);
	bool big = rng.permille( 3);
	i64 size = big ? rng.range( 60000, 140000) : rng.chance( 10) ? rng.range( 0, 2) : rng.range( 3, 200);
	i64 bufsize = big ? rng.range( 60000, 70000) : rng.range( 1, 40);
	p.push_back( Rec( "I", {kind, size, bufsize, (i64)rng.below( 1000000)}));
	int n = (int)rng.range( 4, big ? 10 : 40);
	for (int k=0; k<n; ++k)
	{
		int op = rng.chance( 35) ? (int)IO_INC : (int)rng.below( IO_NOF);
		i64 amount = op == IO_SEEK ? rng.range( 0, size+3) : rng.chance( 20) ? rng.range( 0, size+3) : big ? rng.range( 0, 70000) : rng.range( 0, 30);
		p.push_back( Rec( "o", {op, (i64)rng.below( 4), (i64)rng.below( 4), amount}));
	}
	return p;
}

bool isIterPlan( const Plan& p)
{
	for (auto& r : p) if (r.tag == "I") return true;
	return false;
}

namespace {
struct Bytes	// heap block of exact size
{
	char* p; size_t n;
	Bytes( const char* s, size_t n_) :p((char*)malloc( n_?n_:1)),n(n_) { if (n) memcpy( p, s, n); }
	~Bytes() { free( p); }
	Bytes( const Bytes&)=delete;
};
struct Device :public textwolf::IStream
{
	const std::string& d; size_t pos; u64 seed;
	Device( const std::string& d_, u64 s) :d(d_),pos(0),seed(s){}
	virtual std::size_t read( void* buf, std::size_t n)
	{
		size_t k = d.size() - pos;
		if (k > n) k = n;
		if (k > 1 && mix64( seed + pos) % 3) { k = 1 + (size_t)(mix64( seed*7 + pos) % k); FAULT( "short_read"); }
		memcpy( buf, d.data()+pos, k);
		pos += k;
		return k;
	}
	virtual int errorcode() const { return 0; }
};
struct Model
{
	bool valid = false;
	i64 off = 0, cstart = 0, cend = 0;	// offset, chunk
	int chunk = 0;				// identity of the chunk
	bool last = true;
	u64 stamp = 0;
};
}

template <class IT>
struct Slots { std::unique_ptr<IT> it[4]; Model m[4]; };

static i64 posOf( const textwolf::CStringIterator& i)		{ return i.pos(); }
static i64 posOf( const textwolf::SrcIterator& i)		{ return (i64)i.position(); }
static i64 posOf( const textwolf::IStreamIterator& i)		{ return (i64)i.position(); }
static void seekTo( textwolf::CStringIterator& i, i64 n)	{ i.pos( (unsigned int)n); }
template <class IT> static void seekTo( IT&, i64){}
static void feed( textwolf::SrcIterator& i, const char* s, size_t n, jmp_buf* e)	{ i.putInput( s, n, e); }
template <class IT> static void feed( IT&, const char*, size_t, jmp_buf*){}
static bool inChunk( const textwolf::SrcIterator& i, const Model& m)
{
	if (i.endOfChunk() != (m.off >= m.cend)) return false;
	return m.off > m.cend || (i64)i.getPosition() == m.off - m.cstart;
}
template <class IT> static bool inChunk( const IT&, const Model&) { return true; }

template <class IT>
static void history( const Plan& p, int kind, const std::string& src, Slots<IT>& sl, std::vector<std::unique_ptr<Bytes> >& chunks, jmp_buf* eom)
{
	static const char* kindname[] = {"CStringIterator(ptr,size)","CStringIterator(string)","CStringIterator(ptr)","SrcIterator","IStreamIterator","IStreamIterator(StdInputStream)"};
	bool stream = kind >= IK_STREAM;
	i64 total = (i64)src.size();
	int live = 0;
	u64 stamp = 0;
	size_t checks = 0;
	std::string log;
	for (auto& r : p)
	{
		if (r.tag != "o") continue;
		int op = (int)r.numc( 0, 0, IO_NOF-1), i = (int)r.numc( 1, 0, 3), j = (int)r.numc( 2, 0, 3);
		i64 n = r.numc( 3, 0, 200000);
		if (op == IO_INC && stream) i = live;
		if (!sl.m[i].valid) continue;
		Model& m = sl.m[i];
		IT& it = *sl.it[i];
		if (log.size() < 300) log += fmt( " %d:%d:%d:%d", op, i, j, (int)n);
		ev( "op", (u64)(op*16+i*4+j), (u64)n);
		ev( "at", (u64)m.off, (u64)m.cend);
		switch (op)
		{
			case IO_INC:
				for (i64 k=0; k<n; ++k)
				{
					if (kind == IK_SRC && m.off >= m.cend + (m.last ? 2 : 0)) break;
					if (!stream && m.off >= total + 3) break;
					if ((k & 15) == 3 && m.off < m.cend)
					{
						char c = *it, e = m.off < total ? src[ m.off] : 0;
						if (c != e) fail( "iterator-character", fmt( "%s: character %u at offset %u, expected %u; operations:%s", kindname[kind], (unsigned)(unsigned char)c, (unsigned)m.off, (unsigned)(unsigned char)e, log.c_str()));
					}
					++it;
					if (!stream || m.off < total) ++m.off;
					m.stamp = ++stamp;
				}
				break;
			case IO_DEREF:
			{
				volatile bool jumped = false;
				volatile char c = 0;
				if (eom)
				{
					if (setjmp( *eom) == 0) c = *it; else jumped = true;
				}
				else c = *it;
				bool expectJump = kind == IK_SRC && !m.last && m.off >= m.cend;
				if (jumped != expectJump) fail( "iterator-end-of-chunk", fmt( "%s: end of chunk %s at offset %u of chunk %u..%u; operations:%s", kindname[kind], jumped?"reported":"not reported", (unsigned)m.off, (unsigned)m.cstart, (unsigned)m.cend, log.c_str()));
				char e = m.off < m.cend && m.off < total ? src[ m.off] : 0;
				if (!jumped && c != e) fail( "iterator-character", fmt( "%s: character %u at offset %u, expected %u; operations:%s", kindname[kind], (unsigned)(unsigned char)c, (unsigned)m.off, (unsigned)(unsigned char)e, log.c_str()));
				if (jumped) FAULT( "chunk_boundary");
				++checks;
				break;
			}
			case IO_COPY:
				if (i == j || (stream && j == live && m.stamp != sl.m[ live].stamp)) break;	// only one copy reads on
				sl.it[j].reset( new IT( it));
				sl.m[j] = m;
				break;
			case IO_ASSIGN:
				if (stream && j == live && m.stamp != sl.m[ live].stamp) break;
				if (!sl.m[j].valid) { sl.it[j].reset( new IT()); PROBE( "iterator_default"); if (*(*sl.it[j]) != 0) fail( "iterator-character", fmt( "%s: a default constructed iterator has a character", kindname[kind])); }
				*sl.it[j] = it;
				sl.m[j] = m;
				break;
			case IO_DIFF:
			{
				if (!sl.m[j].valid) break;
				const Model& o = sl.m[j];
				bool thrown = false; i64 d = 0;
				bool expectThrow = kind == IK_SRC && (m.chunk != o.chunk || m.off < o.off);
				try { d = (i64)(it - *sl.it[j]); }
				catch (const textwolf::exception& e) { thrown = true; if (e.cause != textwolf::throws_exception::IllegalParam) fail( "iterator-distance", fmt( "%s: distance throws cause %d", kindname[kind], (int)e.cause)); }
				if (thrown != expectThrow || (!thrown && d != m.off - o.off)) fail( "iterator-distance", fmt( "%s: distance of offset %d to offset %d is %s%d; operations:%s", kindname[kind], (int)m.off, (int)o.off, thrown?"refused ":"", (int)d, log.c_str()));
				if (!thrown && d) PROBE( "iterator_distance");
				if (stream && d > (i64)r.numc( 3, 0, 200000)) PROBE( "iterator_distance_far");
				++checks;
				break;
			}
			case IO_SEEK:
				if (kind > IK_ZSTR) break;
				seekTo( it, n);
				m.off = n < total ? n : total;
				break;
			case IO_POS:
				if (posOf( it) != m.off) fail( "iterator-position", fmt( "%s: position %d at offset %d; operations:%s", kindname[kind], (int)posOf( it), (int)m.off, log.c_str()));
				if (kind == IK_SRC && !inChunk( it, m)) fail( "iterator-position", fmt( "%s: wrong position in chunk %u..%u at offset %d; operations:%s", kindname[kind], (unsigned)m.cstart, (unsigned)m.cend, (int)m.off, log.c_str()));
				++checks;
				break;
			case IO_FEED:
				if (kind != IK_SRC || m.last || m.off != m.cend) break;
				if (n > total - m.off) n = total - m.off;
				chunks.push_back( std::unique_ptr<Bytes>( new Bytes( src.data() + m.off, (size_t)n)));
				m.cstart = m.off; m.cend = m.off + n; m.last = m.cend == total && j >= 2; m.chunk = (int)chunks.size();
				if (!n) FAULT( "empty_chunk");
				feed( it, chunks.back()->p, (size_t)n, m.last ? (jmp_buf*)0 : eom);
				break;
			case IO_LIVE:
				if (stream && m.stamp == sl.m[ live].stamp) live = i;
				break;
		}
	}
	simTime( 1 + checks);
	if (checks > 1) nontrivial();
}

void executeIter( const Plan& p)
{
	int kind = 0; size_t size = 0, bufsize = 1; u64 seed = 0;
	for (auto& r : p) if (r.tag == "I") { kind = (int)r.numc( 0, 0, IK_NOF-1); size = (size_t)r.numc( 1, 0, 200000); bufsize = (size_t)r.numc( 2, 1, 100000); seed = (u64)r.numc( 3, 0, 1000000); }
	std::string src;
	for (size_t i=0; i<size; ++i) { unsigned char c = (unsigned char)mix64( seed*1000003 + i); src.push_back( (char)(c || kind != IK_ZSTR ? c : 1)); }
	evs( "src", fmt( "%d %u %u", kind, (unsigned)size, (unsigned)bufsize));
	std::vector<std::unique_ptr<Bytes> > chunks;
	jmp_buf eom;
	Model m; m.valid = true; m.cend = (i64)size;
	try
	{
		if (kind <= IK_ZSTR)
		{
			chunks.push_back( std::unique_ptr<Bytes>( new Bytes( src.c_str(), kind == IK_ZSTR ? size+1 : size)));
			Slots<textwolf::CStringIterator> sl;
			sl.it[0].reset( kind == IK_CSTR ? new textwolf::CStringIterator( chunks[0]->p, (unsigned int)size) : kind == IK_STRING ? new textwolf::CStringIterator( src) : new textwolf::CStringIterator( chunks[0]->p));
			sl.m[0] = m;
			history( p, kind, src, sl, chunks, 0);
		}
		else if (kind == IK_SRC)
		{
			size_t n = size < bufsize ? size : bufsize;
			chunks.push_back( std::unique_ptr<Bytes>( new Bytes( src.data(), n)));
			m.cend = (i64)n; m.last = false; m.chunk = 1;
			Slots<textwolf::SrcIterator> sl;
			sl.it[0].reset( new textwolf::SrcIterator( chunks[0]->p, n, &eom));
			sl.m[0] = m;
			history( p, kind, src, sl, chunks, &eom);
		}
		else if (kind == IK_STREAM)
		{
			Device dev( src, seed);
			Slots<textwolf::IStreamIterator> sl;
			sl.it[0].reset( new textwolf::IStreamIterator( &dev, bufsize));
			sl.m[0] = m;
			history( p, kind, src, sl, chunks, 0);
		}
		else
		{
			std::istringstream in( src);
			textwolf::StdInputStream st( in);
			Slots<textwolf::IStreamIterator> sl;
			sl.it[0].reset( new textwolf::IStreamIterator( &st, bufsize));
			sl.m[0] = m;
			history( p, kind, src, sl, chunks, 0);
		}
	}
	catch (const std::exception& e)
	{
		fail( "escaped-exception", std::string( "unexpected exception: ") + e.what());
	}
}
}//namespace
