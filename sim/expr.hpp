// Path expressions as plan records, their rendering as strings or builder calls, and the reference
// semantics: which types does a set of expressions select at which item of a document.
#ifndef SIM_EXPR_HPP
#define SIM_EXPR_HPP
#include "path.hpp"
#include "xmlgen.hpp"

namespace sim {

struct RStep
{
	int kind; bool follow;
	std::vector<ustr> names;	// empty: any
	ustr value; bool anyValue;
	RStep() :kind(0),follow(false),anyValue(false){}
};
struct RExpr
{
	std::vector<RStep> steps;
	bool api;
	int out; bool outFollow;
	int rkind, a, b, type;
	u64 style;
	RExpr() :api(false),out(0),outFollow(false),rkind(0),a(0),b(0),type(1),style(0){}
};

// plan record "p": n = [type api out outFollow rkind a b style  (kind follow nnames anyValue)*], s = names and values
// Any record is turned into a legal expression (plans are mutated by the minimiser).
bool exprFromRec( const Rec& r, bool headers, RExpr& e, size_t maxKey=60);	// maxKey: limit of the length of names and values of ASCII characters
Rec exprToRec( const RExpr& e);
// expression string in the encoding psrcEnc
std::string exprToString( const RExpr& e, int psrcEnc);
// expand alternatives into builder call chains
std::vector<PExpr> exprToApi( const RExpr& e, int atmEncoding);
// add an expression to an automaton; fails the run if it is rejected
void addExpr( AtmBox& atm, const RExpr& e, int atmEncoding, int psrcEnc);

// Generate expressions that are likely to match in the given documents
struct DocNode { int parent; ustr name; std::vector<std::pair<ustr,ustr> > attr; };
void docNodes( const std::vector<ExpItem>& items, std::vector<DocNode>& out);
RExpr genExpr( Rng& rng, const std::vector<DocNode>& nodes, bool headers, int type);

// expressions that must be rejected; k-th of nofBad(). api: only for builder calls
size_t nofBad();
// returns true if rejected (returned nonzero or threw)
bool addBad( AtmBox& atm, size_t k, int type, int psrcEnc, int atmEncoding, std::string& text, std::string* why=0);
// any text as expression: 1 legal, -1 malformed at the character 'at', 0 nothing is said
int exprSyntax( const ustr& text, size_t& at);
ustr genExprText( Rng& rng, int psrcEnc);
void checkExprText( AtmBox& atm, AtmBox& scratch, int type, const ustr& text, int psrcEnc);

// Reference: types (sorted) selected at each item; texts compared in the encoding encOut
typedef std::vector<std::vector<int> > Selected;
// returns false if the number of contexts exceeds the cap
bool refSelect( const std::vector<RExpr>& exprs, const std::vector<ExpItem>& items, int encOut, Selected& out, size_t maxWork=400000, size_t maxCtx=20000);
}//namespace
#endif
