#include "printer.hpp"
namespace sim {
#define D(K) PrinterBox* makePrinter_##K( int, bool, const SinkSpec&, bool);
D(0) D(1) D(2) D(3) D(4) D(5) D(6) D(7)
PrinterBox* makePrinter( int appCs, int ioEnc, bool sub, const SinkSpec& s, bool dflt)
{
	if (ioEnc > E_ISO1) dflt = false;
	switch (appCs)
	{
		case 0: return makePrinter_0( ioEnc, sub, s, dflt);
		case 1: return makePrinter_1( ioEnc, sub, s, dflt);
		case 2: return makePrinter_2( ioEnc, sub, s, dflt);
		case 3: return makePrinter_3( ioEnc, sub, s, dflt);
		case 4: return makePrinter_4( ioEnc, sub, s, dflt);
		case 5: return makePrinter_5( ioEnc, sub, s, dflt);
		case 6: return makePrinter_6( ioEnc, sub, s, dflt);
		default: return makePrinter_7( ioEnc, sub, s, dflt);
	}
}
}
