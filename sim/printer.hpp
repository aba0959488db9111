// Type-erased access to real XML printers.
#ifndef SIM_PRINTER_HPP
#define SIM_PRINTER_HPP
#include "core.hpp"
#include "enc.hpp"
#include <iosfwd>
namespace sim {
enum {SINK_STRING,SINK_STATIC,SINK_OSTREAM,SINK_NOF};
struct SinkSpec
{
	int kind; size_t capacity; char* external; std::ostream* os;
	SinkSpec() :kind(0),capacity(0),external(0),os(0){}
};
enum PrintOp {PO_HEADER,PO_DOCTYPE,PO_OPEN,PO_ATTR,PO_VALUE,PO_CLOSE,PO_EXIT,PO_NOF};
inline const char* printOpName( int k) { static const char* n[] = {"printHeader","printDoctype","printOpenTag","printAttribute","printValue","printCloseTag","exitTagContext"}; return n[k]; }
enum PrintState {PS_INIT,PS_CONTENT,PS_ATTR,PS_TAG};

struct PrinterBox
{
	virtual ~PrinterBox(){}
	// strings are encoded in the application character set; those passed as C strings (header, doctype) are zero terminated
	virtual bool header( const char* enc, const char* standalone)=0;
	virtual bool doctype( const char* root, const char* pub, const char* sys)=0;
	virtual bool open( const char* p, size_t n)=0;
	virtual bool attr( const char* p, size_t n)=0;
	virtual bool value( const char* p, size_t n)=0;
	virtual bool close()=0;
	virtual bool exitTag()=0;
	virtual void reset( bool sub)=0;
	virtual int state() const=0;
	virtual const char* lasterror() const=0;
	virtual const char* data() const=0;		// what the sink holds (not for streams)
	virtual size_t size() const=0;
	virtual bool overflow() const=0;
	virtual void clearSink()=0;
	virtual PrinterBox* clone( bool assign) const=0;	// with a copy of the sink
	virtual void assign( const PrinterBox& o)=0;	// of the same type, without the sink
	// helper functions: print text in the way of an attribute value (0), a content (1), as it is (2)
	virtual void util( int how, const char* p, size_t n, std::string& out) const=0;
};
PrinterBox* makePrinter( int appCs, int ioEnc, bool sub, const SinkSpec& sink, bool defaultCtor);
}
#endif
