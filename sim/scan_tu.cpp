// Scanner instantiations for one input character set (macro INCS = 0..7)
#include "scan.hpp"
#include "textwolf.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include <setjmp.h>
#include <memory>

#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)

namespace sim {
extern SIM_TLS jmp_buf g_scanjb;
extern SIM_TLS size_t g_fixedCapacity;
using namespace textwolf;

template <int K> struct CS;
template <> struct CS<0> {typedef charset::UTF8 T;};
template <> struct CS<1> {typedef charset::UTF16LE T;};
template <> struct CS<2> {typedef charset::UTF16BE T;};
template <> struct CS<3> {typedef charset::UCS2LE T;};
template <> struct CS<4> {typedef charset::UCS2BE T;};
template <> struct CS<5> {typedef charset::UCS4LE T;};
template <> struct CS<6> {typedef charset::UCS4BE T;};
template <> struct CS<7> {typedef charset::IsoLatin T;};

template <class T> struct MakeCs { static T get( int) {return T();} };
template <> struct MakeCs<charset::IsoLatin> { static charset::IsoLatin get( int page) {return charset::IsoLatin( page?page:1);} };

template <class It> struct Feeder { static It make( const char*, size_t, jmp_buf*) {return It();} static bool chunkPos( const It&, size_t&, bool&) {return false;} static void feed( It&, const char*, size_t, jmp_buf*) {} template <class SC> static void setsrc( SC&, const char*, size_t, jmp_buf*) {} };
template <> struct Feeder<SrcIterator>
{
	static SrcIterator make( const char* p, size_t n, jmp_buf* jb) { return SrcIterator( p, n, jb); }
	static bool chunkPos( const SrcIterator& it, size_t& p, bool& e) { p = it.getPosition(); e = it.endOfChunk(); return true; }
	static void feed( SrcIterator& it, const char* p, size_t n, jmp_buf* jb) { it.putInput( p, n, jb); }
	template <class SC> static void setsrc( SC& sc, const char* p, size_t n, jmp_buf* jb) { sc.setSource( SrcIterator( p, n, jb)); }
};

// an output buffer of fixed size that can be default constructed by the scanner
struct FixedBuf :public StaticBuffer { FixedBuf() :StaticBuffer( g_fixedCapacity){} };
template <class B> struct Over { static bool get( const B&) {return false;} };
template <> struct Over<FixedBuf> { static bool get( const FixedBuf& b) {return b.overflow();} };

template <class It, int IN, int OUT, class Buf>
struct Impl :public ScannerBox
{
	typedef XMLScanner<It,typename CS<IN>::T,typename CS<OUT>::T,Buf> Scanner;
	ScanSource src;
	std::unique_ptr<Scanner> sc;
	std::unique_ptr<typename Scanner::iterator> it;
	bool fed, first;

	Impl( const ScanSource& s, const It* init) :src(s),fed(init!=0),first(true)
	{
		if (init || !s.ctorChunk) create( init);	// else created with the first chunk
	}
	void create( const It* init)
	{
		const ScanSource& s = src;
		if (s.capacity >= 0) g_fixedCapacity = (size_t)s.capacity;
		const typename Scanner::EntityMap* em = s.entities ? &s.entities->map : 0;
		if (init)
		{
			if (s.page)
				sc.reset( em ? new Scanner( MakeCs<typename CS<IN>::T>::get( s.page), *init, *em) : new Scanner( MakeCs<typename CS<IN>::T>::get( s.page), *init));
			else
				sc.reset( em ? new Scanner( *init, *em) : new Scanner( *init));
		}
		else if (em)
			sc.reset( new Scanner( MakeCs<typename CS<IN>::T>::get( s.page), It(), *em));
		else if (s.page)
			sc.reset( new Scanner( MakeCs<typename CS<IN>::T>::get( s.page)));
		else
			sc.reset( new Scanner());
		mkit();
	}
	Impl( const Impl& o) :ScannerBox(),src(o.src),sc(new Scanner( *o.sc)),fed(o.fed),first(false)
	{
		src.useIterator = false;
		mkit();
	}
	void mkit() { if (src.useIterator) it.reset( new typename Scanner::iterator( sc->begin( false))); }
	virtual ~Impl() { it.reset(); sc.reset(); }
	virtual int next( unsigned short mask)
	{
		if (setjmp( g_scanjb) == 0)
		{
			if (it)
			{
				switch (src.iterStyle & 3)
				{
					case 0: ++*it; break;
					case 1: (*it)++; break;		// the iterator returned is not used
					case 2: if (first && src.kind != SRC_CHUNK) *it = sc->begin(); else ++*it; break;
					case 3:		// a copy goes on
					{
						typename Scanner::iterator next( *it); ++next; *it = next; break;
					}
				}
				first = false;
#ifndef CONC
				typename Scanner::iterator cp( *it), eof = sc->end();
				typename Scanner::iterator::Element el( **it);
				bool atEnd = cp == eof;
				if (atEnd == (*it != eof) || atEnd != ((*it)->type() == XMLScannerBase::Exit)
				||  cp->valid() != ((*it)->type() != XMLScannerBase::Exit && (*it)->type() != XMLScannerBase::ErrorOccurred)
				||  (!eof->content() && eof->size())
				||  cp->content() != (*it)->content() || cp->size() != (*it)->size()
				||  !(eof == sc->end()) || eof != sc->end()
				||  el.type() != (*it)->type() || el.content() != (*it)->content() || el.size() != (*it)->size() || el.valid() != cp->valid()
				||  (el.error() != 0) != (el.type() == XMLScannerBase::ErrorOccurred) || std::strcmp( el.name(), (*it)->name()) != 0)
					fail( "iterator", fmt( "iterator at %s: equal to the end %d, valid %d", (*it)->name(), (int)atEnd, (int)cp->valid()));
#endif
				return (int)(*it)->type();
			}
			return (int)sc->nextItem( mask);
		}
		return SUSPENDED;
	}
	virtual const char* ptr() const { return it ? (*it)->content() : sc->getItemPtr(); }
	virtual size_t size() const { return it ? (*it)->size() : sc->getItemSize(); }
	virtual const char* bufptr() const { return sc->getItem().size() ? &sc->getItem().at(0) : 0; }
	virtual bool overflow() const { return Over<Buf>::get( sc->getItem()); }
	virtual size_t bufsize() const { return sc->getItem().size(); }
	virtual int error( const char** str) { return (int)sc->getError( str); }
	virtual size_t tokenPos() const { return sc->getTokenPosition(); }
	virtual size_t pos() const { return sc->getPosition(); }
	virtual bool chunkPos( size_t& p, bool& e) const { const Scanner& c = *sc; return Feeder<It>::chunkPos( c.getIterator(), p, e); }
	virtual void feed( const char* p, size_t n, bool last)
	{
		if (!sc)
		{
			It init( Feeder<It>::make( p, n, last?0:&g_scanjb));
			create( &init);
			fed = true;
		}
		else if (src.setSource || !fed)
		{
			if (src.setSource) Feeder<It>::setsrc( *sc, p, n, last?0:&g_scanjb);
			else Feeder<It>::feed( sc->getIterator(), p, n, last?0:&g_scanjb);
			fed = true;
		}
		else Feeder<It>::feed( sc->getIterator(), p, n, last?0:&g_scanjb);
	}
	virtual ScannerBox* clone() const { return new Impl( *this); }
	virtual void assign( const ScannerBox& o) { *sc = *static_cast<const Impl&>( o).sc; fed = static_cast<const Impl&>( o).fed; }
	virtual const char* iterError() const { return it ? (*it)->error() : 0; }
	virtual const char* iterName() const { return it ? (*it)->name() : 0; }
};

template <int OUT>
static ScannerBox* makeChunk( const ScanSource& s) { return new Impl<SrcIterator,INCS,OUT,std::string>( s, (SrcIterator*)0); }

template <int OUT>
static ScannerBox* makeOther( const ScanSource& s)
{
	switch (s.kind)
	{
		case SRC_CHARP: { char* p = s.cptr; return new Impl<char*,INCS,OUT,std::vector<char> >( s, &p); }
		case SRC_CSTR: { CStringIterator i( cstrIter<CStringIterator>( s)); return new Impl<CStringIterator,INCS,OUT,std::string>( s, &i); }
		case SRC_STREAM: { IStreamIterator i( s.stream, s.bufsize); return new Impl<IStreamIterator,INCS,OUT,std::string>( s, &i); }
	}
	return 0;
}

ScannerBox* CAT(makeScanner_,INCS)( int csOut, const ScanSource& s)
{
#ifdef BOUNDED
	if (s.kind == SRC_CHUNK && s.capacity >= 0)
	{
		g_fixedCapacity = (size_t)s.capacity;
		if (csOut == 0) return new Impl<SrcIterator,INCS,0,FixedBuf>( s, (SrcIterator*)0);
		if (csOut == 1) return new Impl<SrcIterator,INCS,1,FixedBuf>( s, (SrcIterator*)0);
		return new Impl<SrcIterator,INCS,7,FixedBuf>( s, (SrcIterator*)0);
	}
#endif
	if (s.kind == SRC_CHUNK) switch (csOut)
	{
		case 0: return makeChunk<0>( s);
		case 1: return makeChunk<1>( s);
		case 2: return makeChunk<2>( s);
		case 3: return makeChunk<3>( s);
		case 4: return makeChunk<4>( s);
		case 5: return makeChunk<5>( s);
		case 6: return makeChunk<6>( s);
		case 7: return makeChunk<7>( s);
	}
	else switch (csOut)
	{
		// the other sources are instantiated for UTF-8 and the input's own encoding
		case 0: return makeOther<0>( s);
		case INCS+(INCS==0?1:0): return makeOther<INCS+(INCS==0?1:0)>( s);
	}
	return 0;
}
}//namespace
