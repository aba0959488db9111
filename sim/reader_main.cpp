#include "reader.hpp"
#include <setjmp.h>
namespace sim {
#ifndef HAVE_SCANJB
SIM_TLS jmp_buf g_scanjb;
#endif
#define ALL D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
#define D(K) ReaderBox* makeReader_##K( const ScanSource& s); void printChar_##K( int page, char32_t c, std::string& out);
ALL
#undef D
ReaderBox* makeReader( int cs, const ScanSource& s)
{
	switch (cs) {
#define D(K) case K: return makeReader_##K( s);
	ALL
#undef D
	}
	return 0;
}
void printChar( int enc, char32_t c, std::string& out)
{
	int page = enc >= E_ISO1 ? pageOf( enc) : 0;
	switch (csOf( enc)) {
#define D(K) case K: printChar_##K( page, c, out); break;
	ALL
#undef D
	}
}
}//namespace
