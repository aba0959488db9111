// Character reader instantiations for one input character set (macro INCS = 0..7)
#include "reader.hpp"
#include "textwolf.hpp"
#include "textwolf/istreamiterator.hpp"
#include "textwolf/cstringiterator.hpp"
#include "textwolf/sourceiterator.hpp"
#include <setjmp.h>
#include <memory>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
namespace sim {
extern SIM_TLS jmp_buf g_scanjb;
using namespace textwolf;
namespace { // types differ between the translation units
template <int K> struct CS;
template <> struct CS<0> {typedef charset::UTF8 T;};
template <> struct CS<1> {typedef charset::UTF16LE T;};
template <> struct CS<2> {typedef charset::UTF16BE T;};
template <> struct CS<3> {typedef charset::UCS2LE T;};
template <> struct CS<4> {typedef charset::UCS2BE T;};
template <> struct CS<5> {typedef charset::UCS4LE T;};
template <> struct CS<6> {typedef charset::UCS4BE T;};
template <> struct CS<7> {typedef charset::IsoLatin T;};
template <class T> struct MakeCs { static T get( int) {return T();} };
template <> struct MakeCs<charset::IsoLatin> { static charset::IsoLatin get( int page) {return page ? charset::IsoLatin( page) : charset::IsoLatin();} };
template <class It> struct Feeder { template <class SC> static void feed( SC&, bool, const char*, size_t, jmp_buf*) {} };
template <> struct Feeder<SrcIterator>
{
	template <class SC> static void feed( SC& sc, bool setsrc, const char* p, size_t n, jmp_buf* jb)
	{
		if (setsrc) sc.setSource( SrcIterator( p, n, jb)); else sc.getIterator().putInput( p, n, jb);
	}
};
template <class It>
struct RImpl :public ReaderBox
{
	typedef typename CS<INCS>::T Charset;
	typedef TextScanner<It,Charset> Reader;
	ScanSource src;
	std::unique_ptr<Reader> rd, aux;
	bool fed;
	RImpl( const ScanSource& s, const It& init) :src(s),rd(s.page ? new Reader( MakeCs<Charset>::get( s.page), init) : new Reader( init)),fed(false){}
	RImpl( const RImpl& o) :src(o.src),rd(new Reader( *o.rd)),fed(o.fed){}
#define GUARD(STMT) if (setjmp( g_scanjb) == 0) { STMT; return true; } return false
	virtual bool chr( char32_t& c) { GUARD( c = rd->chr()); }
	virtual bool deref( char32_t& c) { GUARD( c = **rd); }
	virtual bool control( int& c) { GUARD( c = (int)rd->control()); }
	virtual bool ascii( int& c) { GUARD( c = rd->ascii()); }
	virtual bool copychar( int page, std::string& out)
	{
		Charset ocs( MakeCs<Charset>::get( page));
		if (setjmp( g_scanjb) == 0) { rd->copychar( ocs, out); return true; }
		return false;
	}
	virtual bool skip() { GUARD( ++*rd); }
	virtual bool postinc( char32_t& c, bool& known)
	{
		known = false;
		aux.reset( new Reader( *rd));		// what the copy returned by the postincrement would be, if it fails
		if (setjmp( g_scanjb) != 0) return false;
		aux.reset( new Reader( (*rd)++));
		if (src.kind != SRC_STREAM && setjmp( g_scanjb) == 0) { c = aux->chr(); known = true; }	// copies of a reader on a stream share the stream
		return true;
	}
	virtual size_t pos() const { return rd->getPosition(); }
	virtual void feed( const char* p, size_t n, bool last) { Feeder<It>::feed( *rd, src.setSource, p, n, last?0:&g_scanjb); fed = true; }
	virtual ReaderBox* clone() const { return new RImpl( *this); }
	virtual void assign( const ReaderBox& o) { *rd = *static_cast<const RImpl&>( o).rd; }
};
}//namespace
ReaderBox* CAT(makeReader_,INCS)( const ScanSource& s)
{
	switch (s.kind)
	{
		case SRC_CHUNK: return new RImpl<SrcIterator>( s, SrcIterator());
		case SRC_CHARP: return new RImpl<char*>( s, s.cptr);
		case SRC_CSTR: return new RImpl<CStringIterator>( s, cstrIter<CStringIterator>( s));
		case SRC_STREAM: return new RImpl<IStreamIterator>( s, IStreamIterator( s.stream, s.bufsize));
	}
	return 0;
}
void CAT(printChar_,INCS)( int page, char32_t c, std::string& out)
{
	typename CS<INCS>::T cs( MakeCs<typename CS<INCS>::T>::get( page));
	cs.print( c, out);
}
}//namespace
