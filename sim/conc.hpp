// Simulated threads: fibers in one OS thread, preempted at memory accesses of the instrumented library code
// (compiled with -fsanitize=thread into a shared object, with this runtime instead of the sanitizer's).
#ifndef SIM_CONC_HPP
#define SIM_CONC_HPP
#include "core.hpp"
#include <functional>
#include <vector>
#include <string>
#include <iosfwd>
namespace sim {
namespace conc {
void init();			// once, before anything of the library was used: takes the snapshot of its static data
void begin();			// cold start: static data as loaded, empty arena
void end();			// release what was deferred
struct Stats { u64 accesses, shared, switches, preemptions, blocked, syncops; };
// run the bodies as threads; sched: mode first (gap pick)*; fails the run on data races, dead locks, no progress, uses after free
Stats run( const std::vector<std::function<void()> >& bodies, const std::vector<i64>& sched, u64 budget);
bool inFiber();
}
// boxes of library classes that have no other (implemented in the shared object)
struct HdrBox
{
	virtual ~HdrBox(){}
	virtual void feed( const char* p, size_t n)=0;
	virtual std::string parse()=0;		// everything that can be observed after the call; may throw
	virtual bool done() const=0;
	virtual HdrBox* clone() const=0;
};
HdrBox* makeHdr();
struct BufBox
{
	virtual ~BufBox(){}
	virtual void push( char c)=0;
	virtual void clear()=0;
	virtual void resize( size_t n, char c)=0;
	virtual void append( const char* p, size_t n)=0;
	virtual void assign( const BufBox& o)=0;
	virtual std::string get() const=0;
	virtual BufBox* clone() const=0;
};
BufBox* makeBuf( size_t n);
// iterators of sources: what can be observed after one operation
struct IterBox
{
	virtual ~IterBox(){}
	virtual std::string op( int what, size_t n)=0;	// may throw
};
enum {ITB_CSTR,ITB_SRC,ITB_STREAM,ITB_NOF};
IterBox* makeIter( int kind, const char* p, size_t n, std::istream* in, size_t bufsize);	// the source is zero terminated
// output to a stream, by characters or in blocks
void streamOut( std::ostream& os, const char* p, size_t n, bool block);
}
#endif
