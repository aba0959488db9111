// Printing histories: plan records "o", their legality and the document they stand for.
#ifndef SIM_PRHIST_HPP
#define SIM_PRHIST_HPP
#include "printer.hpp"
#include "xmlgen.hpp"
namespace sim {

struct PrOp
{
	int kind, form;
	std::vector<ustr> text;		// as it must be read back
	std::vector<std::string> enc;	// encoded in the application character set
	bool filler;			// added to complete the document
};
// "o" kind form : strings.  form: header: 0 no standalone, 1 yes, 2 no, 3 no encoding; doctype: 0 root, 1 system, 2 public+system, 3 public only, 4 nothing
struct PrModel
{
	int appEnc, ioEnc; bool sub;
	int state;
	std::vector<ustr> stack;
	std::vector<ExpItem> items;
	bool doctypeDone, rootDone;
	bool open;			// a content run is being built
	PrModel( int a, int io, bool s) :appEnc(a),ioEnc(io) { reset( s); }
	void reset( bool s);
	// may the call be made at all in this simulation (calls at document level the printer leaves to the caller)
	bool usable( const PrOp& op) const;
	bool legal( const PrOp& op) const;
	void apply( const PrOp& op);	// legal ones only
	// a legal operation that brings the document nearer to its end; false if it is complete
	bool completing( PrOp& op) const;
private:
	void content( const ustr& t);
	void endContent();
};
PrOp prOp( const Rec& r, int appEnc, int ioEnc);
Rec genPrOp( Rng& rng, int appEnc, int ioEnc, const PrModel& m, int illegalPct);
bool doPrint( PrinterBox& b, const PrOp& op);
std::string prOpStr( const PrOp& op);
// decode text; false if not valid in the encoding
bool decodeStr( int enc, const std::string& s, ustr& out);
// strict recogniser of the documents a printer may produce
bool wellFormed( const ustr& doc, bool sub, std::vector<ExpItem>& items, std::string& why);
}
#endif
