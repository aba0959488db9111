// Type-erased access to real path expression automata and selections.
#ifndef SIM_PATH_HPP
#define SIM_PATH_HPP
#include "core.hpp"
#include "scan.hpp"

namespace sim {

enum {P_TAG,P_ATTR,P_COND,P_CLOSE,P_NOF};
enum {O_NONE,O_CONTENT,O_ATTRVALUE};
enum {R_NONE,R_INDEX,R_FROM,R_RANGE,R_TO
	,R_FROM_TO,R_TO_FROM,R_RANGES,R_FROM_INDEX,R_OPEN,R_NOF};	// several calls: the intersection (builder calls only)

// bound of a second range, one around the first one
inline int range2( u64 style, int bound, int salt) { int d = (int)(mix64( style + (u64)salt) % 3) - 1; return bound + d < 0 ? 0 : bound + d; }

// an expression for the builder calls: keys encoded and zero terminated (padded)
struct PStep
{
	int kind; bool follow;
	bool any; std::string key;
	bool anyValue; std::string value;
	PStep() :kind(0),follow(false),any(false),anyValue(false){}
};
struct PExpr
{
	std::vector<PStep> steps;
	int out; bool outFollow;
	int rkind, a, b, type;
	u64 style;
	PExpr() :out(0),outFollow(false),rkind(0),a(0),b(0),type(0),style(0){}
};

struct SelBox
{
	virtual ~SelBox(){}
	// feed one item, append the types selected
	virtual void push( int itemtype, const char* ptr, size_t size, u64 style, std::vector<int>& out)=0;
	// what the inspection functions tell about the next item: types that can be selected ('all'), types that
	// have to be selected ('sure') and types an open tag with this key makes its contents be selected with ('content')
	virtual void announce( int itemtype, const char* ptr, size_t size, std::vector<int>& all, std::vector<int>& sure, std::vector<int>& content) const=0;
	virtual SelBox* clone( bool assign) const=0;
	virtual void assign( const SelBox& o)=0;	// of the same type
};
struct AtmBox
{
	virtual ~AtmBox(){}
	virtual void build( const PExpr& e)=0;				// builder calls, throws
	virtual int parse( int type, const char* src, size_t n)=0;	// expression string
	virtual SelBox* newSel() const=0;
	virtual AtmBox* clone( bool assign) const=0;
	virtual void assign( const AtmBox& o)=0;	// of the same type
	virtual size_t states() const=0;
};
enum {ATM_NOF=4};
inline int atmEnc( int k) { static const int E[] = {E_UTF8,E_UTF16BE,E_UCS4LE,E_ISO1}; return E[k]; }
inline int parseEnc( int k) { static const int E[] = {E_UTF8,E_UTF16LE,E_ISO1,E_UCS4BE}; return E[k]; }	// source encodings of the parser
enum {PSRC_NOF=4};
AtmBox* makeAtm( int atm, int psrc);
}//namespace
#endif
