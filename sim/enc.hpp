// Independent reference encoders/decoders of the character set encodings (oracle side).
#ifndef SIM_ENC_HPP
#define SIM_ENC_HPP
#include "core.hpp"
#include "isotables.hpp"

namespace sim {

// encoding ids: 0 UTF8, 1 UTF16LE, 2 UTF16BE, 3 UCS2LE, 4 UCS2BE, 5 UCS4LE, 6 UCS4BE, 7..15 IsoLatin page 1..9
enum {E_UTF8,E_UTF16LE,E_UTF16BE,E_UCS2LE,E_UCS2BE,E_UCS4LE,E_UCS4BE,E_ISO1,E_NOF=16};
enum {CS_NOF=8};
inline int csOf( int enc)		{return enc>=E_ISO1?7:enc;}	// charset class of an encoding
inline int pageOf( int enc)		{return enc>=E_ISO1?enc-E_ISO1+1:0;}
inline const char* encName( int enc)
{
	static const char* n[E_NOF] = {"UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE","IsoLatin1","IsoLatin2","IsoLatin3","IsoLatin4","IsoLatin5","IsoLatin6","IsoLatin7","IsoLatin8","IsoLatin9"};
	return n[enc];
}
inline unsigned int unitOf( int enc)	{return enc==E_UTF8||enc>=E_ISO1 ? 1 : enc>=E_UCS4LE ? 4 : 2;}

inline bool isoByte( int page, char32_t c, unsigned char& b)
{
	if (c < 128) { b = (unsigned char)c; return true; }
	for (int i=0; i<128; ++i) if (ISO_REF[page-1][i] == c) { b = (unsigned char)(128+i); return true; }
	return false;
}
// Unicode scalar value representable in the encoding. UTF-8 and UCS-4 of the library go on to their MaxChar behind the end of Unicode
inline bool beyondUnicode( char32_t c) { return c > 0x1FFFFF && c < 0x7FFFFFFF; }
inline bool representable( int enc, char32_t c)
{
	if (beyondUnicode( c)) return enc == E_UTF8 || enc == E_UCS4LE || enc == E_UCS4BE;
	if (c > 0x10FFFF || (c >= 0xD800 && c < 0xE000)) return false;
	if (enc >= E_ISO1) { unsigned char b; return isoByte( pageOf( enc), c, b); }
	if (enc == E_UCS2LE || enc == E_UCS2BE) return c <= 0xFFFF;
	return true;
}
inline void encodeRaw( int enc, char32_t c, std::string& out)
{
	unsigned char b;
	switch (enc)
	{
		case E_UTF8:
			if (c < 0x80) out += (char)c;
			else if (c < 0x800) { out += (char)(0xC0|(c>>6)); out += (char)(0x80|(c&0x3F)); }
			else if (c < 0x10000) { out += (char)(0xE0|(c>>12)); out += (char)(0x80|((c>>6)&0x3F)); out += (char)(0x80|(c&0x3F)); }
			else if (c >= 0x4000000) { out += (char)(0xFC|(c>>30)); for (int s=24; s>=0; s-=6) out += (char)(0x80|((c>>s)&0x3F)); }
			else if (c >= 0x200000) { out += (char)(0xF8|(c>>24)); for (int s=18; s>=0; s-=6) out += (char)(0x80|((c>>s)&0x3F)); }
			else { out += (char)(0xF0|(c>>18)); out += (char)(0x80|((c>>12)&0x3F)); out += (char)(0x80|((c>>6)&0x3F)); out += (char)(0x80|(c&0x3F)); }
			break;
		case E_UTF16LE: case E_UTF16BE:
		{
			unsigned short u[2]; int n = 1;
			if (c >= 0x10000) { n = 2; u[0] = (unsigned short)(0xD800 + ((c-0x10000)>>10)); u[1] = (unsigned short)(0xDC00 + ((c-0x10000)&0x3FF)); }
			else u[0] = (unsigned short)c;
			for (int i=0; i<n; ++i)
			{
				if (enc == E_UTF16LE) { out += (char)(u[i]&0xFF); out += (char)(u[i]>>8); }
				else { out += (char)(u[i]>>8); out += (char)(u[i]&0xFF); }
			}
			break;
		}
		case E_UCS2LE: out += (char)(c&0xFF); out += (char)(c>>8); break;
		case E_UCS2BE: out += (char)(c>>8); out += (char)(c&0xFF); break;
		case E_UCS4LE: for (int s=0; s<32; s+=8) out += (char)((c>>s)&0xFF); break;
		case E_UCS4BE: for (int s=24; s>=0; s-=8) out += (char)((c>>s)&0xFF); break;
		default:
			if (isoByte( pageOf( enc), c, b)) out += (char)b; else out += '?';
	}
}
// what the library documents for output: unrepresentable characters become numeric entities
inline void encodeOut( int enc, char32_t c, std::string& out)
{
	if (representable( enc, c)) { encodeRaw( enc, c, out); return; }
	std::string e = fmt( "&#x%x;", (unsigned)c);
	for (char x : e) encodeRaw( enc, (unsigned char)x, out);
}
inline std::string encodeStr( int enc, const ustr& s)
{
	std::string o;
	for (char32_t c : s) encodeOut( enc, c, o);
	return o;
}
// a character usable in documents of encoding enc (never NUL, never a surrogate/noncharacter)
char32_t genChar( Rng& rng, int enc, unsigned int nonAsciiPct);
inline char32_t genBeyond( Rng& rng) { static const char32_t E[] = {0x200000,0x3FFFFFF,0x4000000,0x7FFFFFFE}; return rng.chance( 30) ? E[ rng.below( 4)] : (char32_t)rng.range( 0x200000, rng.chance( 50) ? 0x3FFFFFF : 0x7FFFFFFE); }
inline ustr asciiU( const char* s) { ustr u; for (;*s;++s) u.push_back( (unsigned char)*s); return u; }
inline ustr asciiU( const std::string& s) { return asciiU( s.c_str()); }

inline char32_t genChar( Rng& rng, int enc, unsigned int nonAsciiPct)
{
	if (!rng.chance( nonAsciiPct))
	{
		static const char A[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.:";
		return (unsigned char)A[ rng.below( sizeof(A)-1)];
	}
	for (;;)
	{
		char32_t c;
		if (enc >= E_ISO1)
		{
			c = ISO_REF[ pageOf(enc)-1][ rng.below(128)];
			if (!c) continue;
			return c;
		}
		switch (rng.below( 8))
		{
			case 0: c = (char32_t)rng.range( 0x80, 0xFF); break;
			case 1: c = (char32_t)rng.range( 0x100, 0x7FF); break;
			case 2: c = (char32_t)rng.range( 0x800, 0xFFFD); break;
			case 3: c = (char32_t)rng.range( 0x10000, 0x10FFFF); break;
			case 4: { static const char32_t E[] = {0x7F,0x80,0xFF,0x100,0x7FF,0x800,0xD7FF,0xE000,0xFFFD,0x10000,0x10FFFF,0xFFFF,0x2028,0x85,0xA0,0x3C00,0x2600,0x3E00,0x0A0A,0x0D0D,0x0D00,0x0A00,0x1000,0x2000}; c = E[ rng.below( sizeof(E)/sizeof(E[0]))]; break; }
			case 5: c = (char32_t)(rng.range( 1, 0xFF)<<8) | (char32_t)rng.pick( std::vector<int>{0x3C,0x3E,0x26,0x22,0x27,0x2F,0x00,0x0A,0x0D,0x5D}); break;	// ASCII look-alikes in one byte
			case 6: c = (char32_t)(rng.pick( std::vector<int>{0x3C,0x3E,0x26,0x22,0x27,0x2F,0x0A,0x0D,0x5D})<<8) | (char32_t)rng.below(256); break;
			default: c = (char32_t)rng.range( 0xA0, 0x2FFF); break;
		}
		if (c < 0x80 && c != 0x7F) continue;
		if (!representable( enc, c)) continue;
		return c;
	}
}

}//namespace
#endif
