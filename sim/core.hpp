// Simulator core: seeded randomness, plans (one plan = one exactly repeatable execution),
// event trace hash, probes/fault counters, step budget, allocation seam.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;
typedef std::u32string ustr;

u64 mix64( u64 x);

struct Rng
{
	u64 s;
	explicit Rng( u64 seed_=1) :s(seed_){}
	u64 next();
	u64 below( u64 n)			{return n ? next() % n : 0;}
	i64 range( i64 a, i64 b)		{return a + (i64)below( (u64)(b-a+1));}
	bool chance( unsigned int pct)		{return below(100) < pct;}
	bool permille( unsigned int p)		{return below(1000) < p;}
	template <class T> const T& pick( const std::vector<T>& v)	{return v[ below( v.size())];}
};

// One record of a plan: a tag, integers and strings (strings are sequences of code points or of bytes < 256).
struct Rec
{
	std::string tag;
	std::vector<i64> n;
	std::vector<ustr> s;
	Rec(){}
	explicit Rec( const std::string& t) :tag(t){}
	Rec( const std::string& t, std::initializer_list<i64> nn) :tag(t),n(nn){}
	Rec( const std::string& t, std::initializer_list<i64> nn, std::initializer_list<ustr> ss) :tag(t),n(nn),s(ss){}
	i64 num( size_t i, i64 dflt=0) const	{return i<n.size()?n[i]:dflt;}
	// value clamped into [lo,hi] (plans are mutated by the minimiser, so executions accept any number)
	i64 numc( size_t i, i64 lo, i64 hi) const;
	const ustr& str( size_t i) const;
};
typedef std::vector<Rec> Plan;

std::string planToText( const Plan& p);
bool planFromText( const std::string& txt, Plan& p);
ustr bytesToU( const std::string& b);
std::string uToBytes( const ustr& u);
std::string printable( const std::string& bytes);

// A property violation found by an execution
struct Fail
{
	std::string cls;	// violation class, what minimisation preserves
	std::string msg;
	Fail( const std::string& c, const std::string& m) :cls(c),msg(m){}
};
[[noreturn]] void fail( const std::string& cls, const std::string& msg);
std::string fmt( const char* f, ...) __attribute__((format(printf,1,2)));

// ---- trace -------------------------------------------------------------------
// Everything observed in an execution is folded into one hash; with tracing on, it is also printed.
void ev( const char* what, u64 a=0, u64 b=0);
void evs( const char* what, const std::string& s);
void nontrivial();				// this run met the property's non-triviality rule
u64 traceHash();
struct TraceMark { u64 h, e, t; bool n; };	// an execution that is repeated leaves no trace
TraceMark traceMark();
void traceReset( const TraceMark& m);
void simTime( u64 microseconds);		// advance simulated clock accounting
u64 now();
bool tracing();
void tracef( const char* f, ...) __attribute__((format(printf,1,2)));

// ---- probes and fault counters --------------------------------------------------
struct Counter { const char* name; u64 n; Counter* nxt; explicit Counter( const char* name_); };
#define PROBE(NAME)	do { static ::sim::Counter cnt_( "probe." NAME); ++cnt_.n; } while(0)
#define FAULT(NAME)	do { static ::sim::Counter cnt_( "fault." NAME); ++cnt_.n; } while(0)
#define COUNT(NAME,K)	do { static ::sim::Counter cnt_( "count." NAME); cnt_.n += (K); } while(0)
void countDyn( const std::string& name, u64 k=1);

// ---- step budget: counted at every instrumented control flow edge -------------------
void setBudget( u64 steps);			// aborts the run with class "hang" when exhausted
u64 budgetLeft();
struct BudgetScope				// narrower bound for one operation
{
	u64 outer; u64 given;
	explicit BudgetScope( u64 steps);
	~BudgetScope();
};
extern const char* g_what;			// what is being executed, for hang messages

// ---- allocation seam (malloc family via --wrap, operator new/delete replaced) --------
namespace mem {
	void arm( i64 failAt, int failCount=1, bool track=true);// fail the failAt-th..failAt+failCount-1-th allocation (1-based; 0 = never)
	void rearm( i64 failAt, int failCount);		// another failure, counted from here; tracking continues
	void disarm();					// stop injecting and tracking
	bool armed();
	bool pause();					// harness code inside an armed region: returns the previous state
	void resume( bool prev);
	u64 seen();					// allocations seen since arm
	u64 fired();					// failures injected since arm
	u64 live();					// tracked allocations not yet freed
	std::string liveInfo();
	void setFill( int byte);			// fill pattern of fresh memory (-1: none)
}
struct MemPause { bool p; MemPause() :p(mem::pause()){} ~MemPause(){mem::resume(p);} };

// ---- property registry -------------------------------------------------------------
struct Property
{
	const char* id;
	Plan (*generate)( Rng& rng);
	void (*execute)( const Plan& plan);
};
extern const Property g_property;	// defined by the property's translation unit

}//namespace
#endif
