// Type-erased access to real textwolf character readers (TextScanner) and encoders.
#ifndef SIM_READER_HPP
#define SIM_READER_HPP
#include "scan.hpp"
namespace sim {
struct ReaderBox
{
	virtual ~ReaderBox(){}
	// all operations return false if the end of the chunk was reached
	virtual bool chr( char32_t& c)=0;
	virtual bool deref( char32_t& c)=0;
	virtual bool control( int& c)=0;
	virtual bool ascii( int& c)=0;
	virtual bool copychar( int page, std::string& out)=0;	// same character set (class), other code page for IsoLatin if page != own
	virtual bool skip()=0;
	virtual bool postinc( char32_t& c, bool& known)=0;	// character of the copy returned (if it can be read without more input)
	virtual size_t pos() const=0;
	virtual void feed( const char* p, size_t n, bool last)=0;
	virtual ReaderBox* clone() const=0;
	virtual void assign( const ReaderBox& o)=0;
};
ReaderBox* makeReader( int cs, const ScanSource& src);
void printChar( int enc, char32_t c, std::string& out);		// the library's encoder
}
#endif
