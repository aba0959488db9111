#include "scan.hpp"
#include <cstring>
#include <setjmp.h>
namespace sim {
SIM_TLS size_t g_fixedCapacity = 0;
SIM_TLS jmp_buf g_scanjb;	// target of the end-of-chunk jump (one task runs at a time)
#define D(K) ScannerBox* makeScanner_##K( int csOut, const ScanSource& s);
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
#undef D
ScannerBox* makeScanner( int csIn, int csOut, const ScanSource& s)
{
	switch (csIn)
	{
#define D(K) case K: return makeScanner_##K( csOut, s);
		D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
#undef D
	}
	return 0;
}
void readItem( ScannerBox& sc, int type, unsigned short mask, Item& it, bool useIterator)
{
	it = Item();
	it.type = type;
	bool masked = (type >= 0 && type < 15 && type != I_Error && (mask & (1<<type)) == 0);
	if (type == I_Error)
	{
		const char* es = 0;
		if (useIterator)
		{
			const char* ie = sc.iterError();
			if (!ie) fail( "iterator-error", "iterator element of type ErrorOccurred reports no error string");
			it.errstr = ie;
			it.err = sc.error( &es);
			if (es && it.errstr != es) fail( "iterator-error", "iterator error string '" + printable( it.errstr) + "' differs from scanner error '" + es + "'");
		}
		else
		{
			it.err = sc.error( &es);
			it.errstr = es?es:"";
		}
		if (it.err == 0 || it.errstr.empty()) fail( "error-without-code", "ErrorOccurred returned, but no error code/string is set");
		return;
	}
	if (masked) return;		// content of a masked item is unspecified
	const char* p = sc.ptr(); size_t n = sc.size();
	if (!p) fail( "item-null", "item content pointer is NULL");
	it.data.assign( p, n);
	if (sc.bufsize() != n || (n && std::memcmp( sc.bufptr(), p, n) != 0)) fail( "item-accessors", "getItem and getItemPtr/getItemSize disagree");
	it.tokpos = sc.tokenPos();
	it.overflow = sc.overflow();
	if (useIterator)
	{
		if (sc.iterError()) fail( "iterator-error", "iterator element without error returns an error string");
		if (std::string( sc.iterName()) != itemName( type)) fail( "iterator-name", "wrong element type name");
	}
}
}//namespace
