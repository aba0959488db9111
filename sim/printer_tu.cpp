// Printer instantiations for one application character set (macro APPCS = 0..7)
#include "printer.hpp"
#include "textwolf.hpp"
#include "textwolf/xmlprinter.hpp"
#include "textwolf/staticbuffer.hpp"
#include "textwolf/ostreamoutput.hpp"
#include <memory>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
namespace sim {
using namespace textwolf;
namespace {
template <int K> struct CS;
template <> struct CS<0> {typedef charset::UTF8 T;};
template <> struct CS<1> {typedef charset::UTF16LE T;};
template <> struct CS<2> {typedef charset::UTF16BE T;};
template <> struct CS<3> {typedef charset::UCS2LE T;};
template <> struct CS<4> {typedef charset::UCS2BE T;};
template <> struct CS<5> {typedef charset::UCS4LE T;};
template <> struct CS<6> {typedef charset::UCS4BE T;};
template <> struct CS<7> {typedef charset::IsoLatin T;};
template <class T> struct MakeCs { static T get( int) {return T();} };
template <> struct MakeCs<charset::IsoLatin> { static charset::IsoLatin get( int page) {return charset::IsoLatin( page?page:1);} };

template <class B> struct Sink;
template <> struct Sink<std::string>
{
	std::string b;
	explicit Sink( const SinkSpec&){}
	const char* data() const {return b.data();}
	size_t size() const {return b.size();}
	bool overflow() const {return false;}
	void clear() {b.clear();}
};
template <> struct Sink<StaticBuffer>
{
	StaticBuffer b;
	explicit Sink( const SinkSpec& s) :b( s.external ? StaticBuffer( s.external, s.capacity) : StaticBuffer( s.capacity)){}
	const char* data() const {return b.ptr();}
	size_t size() const {return b.size();}
	bool overflow() const {return b.overflow();}
	void clear() {b.clear();}
};
template <> struct Sink<OstreamOutput>
{
	OstreamOutput b;
	explicit Sink( const SinkSpec& s) :b(s.os){}
	const char* data() const {return 0;}
	size_t size() const {return 0;}
	bool overflow() const {return false;}
	void clear() {}
};

template <int IO, class Buf>
struct Impl :public PrinterBox
{
	typedef XMLPrinter<typename CS<IO>::T, CS<APPCS>::T, Buf> Printer;
	typedef XMLPrinter<typename CS<IO>::T, CS<APPCS>::T, std::string> StrPrinter;
	Sink<Buf> sink;
	Printer pr;
	StrPrinter* sp;
	int page;
	Impl( int page_, bool sub, const SinkSpec& s, bool) :sink(s),pr( MakeCs<typename CS<IO>::T>::get( page_), sub),sp(0),page(page_){}
	Impl( bool sub, const SinkSpec& s) :sink(s),pr( sub),sp(0),page(0){}
	Impl( const Impl& o) :PrinterBox(),sink(o.sink),pr(o.pr),sp(0),page(o.page){}
	virtual ~Impl() { delete sp; }
	virtual bool header( const char* enc, const char* standalone) { return pr.printHeader( enc, standalone, sink.b); }
	virtual bool doctype( const char* root, const char* pub, const char* sys) { return pr.printDoctype( root, pub, sys, sink.b); }
	virtual bool open( const char* p, size_t n) { return pr.printOpenTag( p, n, sink.b); }
	virtual bool attr( const char* p, size_t n) { return pr.printAttribute( p, n, sink.b); }
	virtual bool value( const char* p, size_t n) { return pr.printValue( p, n, sink.b); }
	virtual bool close() { return pr.printCloseTag( sink.b); }
	virtual bool exitTag() { return pr.exitTagContext( sink.b); }
	virtual void reset( bool sub) { pr.reset( sub); }
	virtual int state() const { return (int)pr.state(); }
	virtual const char* lasterror() const { return pr.lasterror(); }
	virtual const char* data() const { return sink.data(); }
	virtual size_t size() const { return sink.size(); }
	virtual bool overflow() const { return sink.overflow(); }
	virtual void clearSink() { sink.clear(); }
	virtual PrinterBox* clone( bool assign) const
	{
		if (!assign) return new Impl( *this);
		std::unique_ptr<Impl> rt( new Impl( *this));
		rt->pr = Printer( MakeCs<typename CS<IO>::T>::get( 1), true);
		rt->pr = pr;
		return rt.release();
	}
	virtual void assign( const PrinterBox& o) { pr = static_cast<const Impl&>( o).pr; }
	virtual void util( int how, const char* p, size_t n, std::string& out) const
	{
		const StrPrinter& u = StrPrinter( MakeCs<typename CS<IO>::T>::get( page), true);
		switch (how)
		{
			case 0: u.printToBufferAttributeValue( p, n, out); break;
			case 1: u.printToBufferContent( p, n, out); break;
			default: u.printToBuffer( p, n, out); break;
		}
	}
};

template <int IO>
static PrinterBox* mk( int page, bool sub, const SinkSpec& s, bool dflt)
{
	switch (s.kind)
	{
		case SINK_STATIC: return dflt ? new Impl<IO,StaticBuffer>( sub, s) : new Impl<IO,StaticBuffer>( page, sub, s, true);
		case SINK_OSTREAM: return dflt ? new Impl<IO,OstreamOutput>( sub, s) : new Impl<IO,OstreamOutput>( page, sub, s, true);
	}
	return dflt ? new Impl<IO,std::string>( sub, s) : new Impl<IO,std::string>( page, sub, s, true);
}
}//anon
PrinterBox* CAT(makePrinter_,APPCS)( int ioEnc, bool sub, const SinkSpec& s, bool dflt)
{
	int page = pageOf( ioEnc);
	switch (csOf( ioEnc))
	{
		case 0: return mk<0>( page, sub, s, dflt);
		case 1: return mk<1>( page, sub, s, dflt);
		case 2: return mk<2>( page, sub, s, dflt);
		case 3: return mk<3>( page, sub, s, dflt);
		case 4: return mk<4>( page, sub, s, dflt);
		case 5: return mk<5>( page, sub, s, dflt);
		case 6: return mk<6>( page, sub, s, dflt);
		default: return mk<7>( page, sub, s, dflt);
	}
}
}//namespace
