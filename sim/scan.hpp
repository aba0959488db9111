// Type-erased access to real textwolf scanners (all code behind it is the library's own).
#ifndef SIM_SCAN_HPP
#define SIM_SCAN_HPP
#include "core.hpp"
#include "enc.hpp"
#include <map>

namespace textwolf { class IStream; }

#ifdef CONC
#define SIM_TLS __thread	// simulated threads (C11)
#else
#define SIM_TLS
#endif

namespace sim {

enum {SUSPENDED=-1};
enum SourceKind {SRC_CHUNK,SRC_CHARP,SRC_CSTR,SRC_STREAM,SRC_NOF};

enum ItemType {I_None,I_Error,I_HeaderStart,I_HeaderAttribName,I_HeaderAttribValue,I_HeaderEnd,I_DocAttribValue,I_DocAttribEnd,
	I_TagAttribName,I_TagAttribValue,I_OpenTag,I_CloseTag,I_CloseTagIm,I_Content,I_Exit};
inline const char* itemName( int t)
{
	static const char* n[] = {"None","Error","HeaderStart","HeaderAttribName","HeaderAttribValue","HeaderEnd","DocAttribValue","DocAttribEnd","TagAttribName","TagAttribValue","OpenTag","CloseTag","CloseTagIm","Content","Exit"};
	return t == SUSPENDED ? "SUSPENDED" : (t>=0&&t<=14) ? n[t] : "?";
}

struct EntityTab
{
	std::vector<std::pair<std::string,u64> > ent;
	std::map<const char*,uint32_t> map;	// keys point into ent
	void build() { map.clear(); for (auto& e : ent) map[ e.first.c_str()] = (uint32_t)e.second; }
};

struct ScanSource
{
	int kind;
	int page;			// IsoLatin code page
	bool setSource;			// chunks assigned with setSource instead of putInput
	bool useIterator;		// iterator API instead of nextItem
	bool ctorChunk;			// first chunk passed to the constructor
	char* cptr;			// SRC_CHARP: NUL terminated
	const char* str; size_t strsize;// SRC_CSTR
	textwolf::IStream* stream; size_t bufsize;
	const EntityTab* entities;
	int iterStyle;			// how the iterator is advanced
	int cstrKind;			// SRC_CSTR: 0 pointer and size, 1 std::string, 2 terminated string
	std::shared_ptr<std::string> hold;
	i64 capacity;			// items into a buffer of this size (-1: unbounded); SRC_CHUNK only
	ScanSource() :kind(SRC_CHUNK),page(0),setSource(false),useIterator(false),ctorChunk(false),cptr(0),str(0),strsize(0),stream(0),bufsize(0),entities(0),iterStyle(0),cstrKind(0),capacity(-1){}
	void chooseCstr( u64 dice)
	{
		if (dice % 4 >= 2 || !str) return;
		hold.reset( new std::string( str, strsize));
		cstrKind = dice % 4 == 1 && hold->find( '\0') == std::string::npos ? 2 : 1;
	}
};
template <class CStringIter>
inline CStringIter cstrIter( const ScanSource& s)
{
	if (s.cstrKind == 1) return CStringIter( *s.hold);
	if (s.cstrKind == 2) return CStringIter( s.hold->c_str());
	return CStringIter( s.str, s.strsize);
}

struct ScannerBox
{
	virtual ~ScannerBox(){}
	virtual int next( unsigned short mask)=0;	// item type or SUSPENDED
	virtual const char* ptr() const=0;
	virtual size_t size() const=0;
	virtual const char* bufptr() const=0;		// via getItem()
	virtual size_t bufsize() const=0;
	virtual int error( const char** str)=0;
	virtual size_t tokenPos() const=0;
	virtual size_t pos() const=0;
	virtual bool chunkPos( size_t& pos, bool& end) const=0;	// position in the current chunk and if it is consumed (SRC_CHUNK)
	virtual void feed( const char* p, size_t n, bool last)=0;
	virtual ScannerBox* clone() const=0;
	virtual void assign( const ScannerBox& o)=0;	// of the same type
	virtual bool overflow() const=0;
	virtual const char* iterError() const=0;	// error of the iterator element (useIterator)
	virtual const char* iterName() const=0;
};
// csIn/csOut: charset classes 0..7
ScannerBox* makeScanner( int csIn, int csOut, const ScanSource& src);

struct Item
{
	int type;
	std::string data;
	int err;
	std::string errstr;
	size_t tokpos;
	bool overflow;
	bool remasked;		// resumed with another mask: what is in the buffer is unspecified for this item
	bool remaskedAny;	// same, for any element type
	Item() :type(0),err(0),tokpos(0),overflow(false),remasked(false),remaskedAny(false){}
};
inline bool sameItem( const Item& a, const Item& b) { return a.type == b.type && a.data == b.data && a.err == b.err && a.errstr == b.errstr; }
inline std::string itemStr( const Item& i)
{
	std::string s = std::string( itemName( i.type)) + "(\"" + printable( i.data) + "\")";
	if (i.type == I_Error) s += " error=" + std::to_string( i.err) + " " + i.errstr;
	return s;
}
// read the current item out of a scanner; checks that all accessors agree
void readItem( ScannerBox& sc, int type, unsigned short mask, Item& it, bool useIterator);

}//namespace
#endif
