// Header parser and buffer boxes (compiled with instrumentation into the shared object)
#include "conc.hpp"
#include <memory>
#include "textwolf.hpp"
#include "textwolf/xmlhdrparser.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/ostreamoutput.hpp"
#include <istream>
#include <ostream>
namespace sim {
using namespace textwolf;
namespace {
struct HdrImpl :public HdrBox
{
	XmlHdrParser hp; bool fin;
	HdrImpl() :fin(false){}
	HdrImpl( const HdrImpl& o) :HdrBox(),hp(o.hp),fin(o.fin){}
	virtual void feed( const char* p, size_t n) { hp.putInput( p, n); }
	virtual std::string parse()
	{
		int rc = hp.parse();
		std::string rt( rc ? "done" : "more");
		if (hp.encoding()) { rt.append( " encoding "); rt.append( hp.encoding()); }
		if (hp.lasterror()) { rt.append( " error "); rt.append( hp.lasterror()); }
		rt.append( " data "); rt.append( hp.consumedData());
		rt.append( hp.charsConsumed(), '.');
		fin = rc || hp.lasterror();
		return rt;
	}
	virtual bool done() const { return fin; }
	virtual HdrBox* clone() const { return new HdrImpl( *this); }
};
struct BufImpl :public BufBox
{
	StaticBuffer b;
	explicit BufImpl( size_t n) :b(n){}
	BufImpl( const BufImpl& o) :BufBox(),b(o.b){}
	virtual void push( char c) { b.push_back( c); }
	virtual void clear() { b.clear(); }
	virtual void append( const char* p, size_t n) { b.append( p, n); }
	virtual void assign( const BufBox& o) { b = static_cast<const BufImpl&>( o).b; }
	virtual void resize( size_t n, char c) { b.resize( n, c); }
	virtual std::string get() const
	{
		std::string rt( b.overflow() ? "overflow " : "ok ");
		for (size_t i=0; i<b.size(); ++i) rt.push_back( b.at( i));
		return rt;
	}
	virtual BufBox* clone() const { return new BufImpl( *this); }
};

static void num( std::string& s, unsigned long n)
{
	char t[24]; int i = 24;
	do { t[--i] = (char)('0' + n % 10); n /= 10; } while (n);
	s.push_back( ' '); s.append( t+i, 24-i);
}
static void place( CStringIterator& i, size_t n, std::string& s)	{ i.pos( (unsigned int)n); num( s, i.pos()); }
static void place( SrcIterator& i, size_t, std::string& s)		{ num( s, i.getPosition()); num( s, i.endOfChunk()); num( s, i.position()); }
static void place( IStreamIterator& i, size_t, std::string& s)		{ num( s, i.position()); }

template <class IT>
struct IterImpl :public IterBox
{
	std::unique_ptr<StdInputStream> in;
	IT it, mark;
	IterImpl( const IT& i, StdInputStream* in_) :in(in_),it(i),mark(i){}
	virtual std::string op( int what, size_t n)
	{
		std::string rt;
		switch (what)
		{
			case 0: case 1:
				for (size_t i=0; i<n; ++i, ++it) num( rt, (unsigned char)*it);
				break;
			case 2: mark = it; break;
			case 3: { IT c( it); num( rt, (unsigned char)*c); num( rt, (unsigned long)(c - mark)); break; }
			default: num( rt, (unsigned long)(it - mark)); place( it, n, rt); break;
		}
		if (in) num( rt, in->errorcode());
		return rt;
	}
};
}
IterBox* makeIter( int kind, const char* p, size_t n, std::istream* in, size_t bufsize)
{
	switch (kind)
	{
		case ITB_CSTR: return new IterImpl<CStringIterator>( CStringIterator( p, (unsigned int)n), 0);
		case ITB_SRC: return new IterImpl<SrcIterator>( SrcIterator( p, n, 0), 0);
	}
	std::unique_ptr<StdInputStream> s( new StdInputStream( *in));
	IStreamIterator i( s.get(), bufsize);
	IterBox* rt = new IterImpl<IStreamIterator>( i, s.get());
	s.release();
	return rt;
}
void streamOut( std::ostream& os, const char* p, size_t n, bool block)
{
	OstreamOutput o( &os), c( o);
	if (block) c.append( p, n);
	else for (size_t i=0; i<n; ++i) c.push_back( p[i]);
}
HdrBox* makeHdr() { return new HdrImpl(); }
BufBox* makeBuf( size_t n) { return new BufImpl( n); }
}
