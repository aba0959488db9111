#include "core.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <csetjmp>
#include <algorithm>
#include <set>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <poll.h>

namespace sim {

u64 mix64( u64 z)
{
	z += 0x9E3779B97F4A7C15ULL;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
u64 Rng::next()
{
	s += 0x9E3779B97F4A7C15ULL;
	u64 z = s;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
	return z ^ (z >> 31);
}
i64 Rec::numc( size_t i, i64 lo, i64 hi) const
{
	i64 v = num( i, lo);
	if (v < lo) return lo;
	if (v > hi) return lo + (i64)((u64)(v-lo) % (u64)(hi-lo+1));
	return v;
}
const ustr& Rec::str( size_t i) const
{
	static const ustr empty;
	return i<s.size()?s[i]:empty;
}

std::string fmt( const char* f, ...)
{
	MemPause mp;
	char buf[ 2048];
	va_list ap; va_start( ap, f);
	vsnprintf( buf, sizeof(buf), f, ap);
	va_end( ap);
	return buf;
}
void fail( const std::string& cls, const std::string& msg)
{
	mem::disarm();
	throw Fail( cls, msg);
}

static void appendStr( std::string& out, const ustr& s)
{
	out += '"';
	char b[32];
	for (char32_t c : s)
	{
		if (c == '"' || c == '\\') { out += '\\'; out += (char)c; }
		else if (c >= 32 && c < 127) out += (char)c;
		else { snprintf( b, sizeof(b), "\\{%x}", (unsigned)c); out += b; }
	}
	out += '"';
}
std::string planToText( const Plan& p)
{
	std::string out;
	char b[32];
	for (const Rec& r : p)
	{
		out += r.tag;
		for (i64 n : r.n) { snprintf( b, sizeof(b), " %lld", (long long)n); out += b; }
		for (const ustr& s : r.s) { out += ' '; appendStr( out, s); }
		out += '\n';
	}
	return out;
}
bool planFromText( const std::string& txt, Plan& p)
{
	p.clear();
	size_t i = 0;
	while (i < txt.size())
	{
		size_t e = txt.find( '\n', i);
		if (e == std::string::npos) e = txt.size();
		std::string l = txt.substr( i, e-i);
		i = e+1;
		if (l.empty() || l[0] == '#') continue;
		Rec r;
		size_t k = 0;
		while (k < l.size() && l[k] != ' ') r.tag += l[k++];
		while (k < l.size())
		{
			if (l[k] == ' ') {++k; continue;}
			if (l[k] == '"')
			{
				++k;
				ustr s;
				while (k < l.size() && l[k] != '"')
				{
					if (l[k] == '\\' && k+1 < l.size())
					{
						if (l[k+1] == '{')
						{
							size_t q = l.find( '}', k);
							if (q == std::string::npos) return false;
							s.push_back( (char32_t)strtoul( l.c_str()+k+2, 0, 16));
							k = q+1;
						}
						else { s.push_back( (unsigned char)l[k+1]); k += 2; }
					}
					else s.push_back( (unsigned char)l[k++]);
				}
				if (k >= l.size()) return false;
				++k;
				r.s.push_back( s);
			}
			else
			{
				char* end = 0;
				long long v = strtoll( l.c_str()+k, &end, 10);
				if (end == l.c_str()+k) return false;
				k = end - l.c_str();
				r.n.push_back( v);
			}
		}
		p.push_back( r);
	}
	return true;
}
ustr bytesToU( const std::string& b)
{
	ustr u; u.reserve( b.size());
	for (char c : b) u.push_back( (unsigned char)c);
	return u;
}
std::string uToBytes( const ustr& u)
{
	std::string b; b.reserve( u.size());
	for (char32_t c : u) b.push_back( (char)(unsigned char)c);
	return b;
}
std::string printable( const std::string& bytes)
{
	MemPause mp;
	std::string o;
	char b[8];
	for (unsigned char c : bytes)
	{
		if (c >= 32 && c < 127) o += (char)c;
		else { snprintf( b, sizeof(b), "\\x%02x", c); o += b; }
	}
	return o;
}

// ---- trace ----
static u64 g_hash, g_now;
static bool g_nontrivial, g_tracing;
static u64 g_events;
u64 g_totalEvents, g_totalTime;
static inline void fold( u64 x) { g_hash = (g_hash ^ x) * 0x100000001B3ULL; g_hash ^= g_hash >> 29; }
void tracef( const char* f, ...)
{
	if (!g_tracing) return;
	MemPause mp;
	va_list ap; va_start( ap, f);
	fprintf( stdout, "  %6llu  t=%-8llu ", (unsigned long long)g_events, (unsigned long long)g_now);
	vfprintf( stdout, f, ap);
	fputc( '\n', stdout);
	va_end( ap);
}
static u64 hashz( const char* p, size_t n)
{
	u64 h = 1469598103934665603ULL;
	for (size_t i=0; i<n; ++i) h = (h ^ (unsigned char)p[i]) * 1099511628211ULL;
	return h;
}
void ev( const char* what, u64 a, u64 b)
{
	++g_events;
	fold( hashz( what, strlen(what))); fold( a); fold( b + 0x1234567);
	if (g_tracing) tracef( "%s %llu %llu", what, (unsigned long long)a, (unsigned long long)b);
}
void evs( const char* what, const std::string& s)
{
	++g_events;
	fold( hashz( what, strlen(what))); fold( hashz( s.data(), s.size())); fold( s.size());
	if (g_tracing) { MemPause mp; tracef( "%s \"%s\"", what, printable(s).c_str()); }
}
void nontrivial() { g_nontrivial = true; }
u64 traceHash() { return g_hash; }
TraceMark traceMark() { TraceMark m = {g_hash,g_events,g_now,g_nontrivial}; return m; }
void traceReset( const TraceMark& m) { g_hash = m.h; g_events = m.e; g_now = m.t; g_nontrivial = m.n; }
void simTime( u64 us) { g_now += us; }
u64 now() { return g_now; }
bool tracing() { return g_tracing; }

// ---- counters ----
static Counter* g_counters;
Counter::Counter( const char* name_) :name(name_),n(0),nxt(g_counters) { g_counters = this; }
static std::map<std::string,u64>* g_dyn;
void countDyn( const std::string& name, u64 k)
{
	MemPause mp;
	if (!g_dyn) g_dyn = new std::map<std::string,u64>();
	(*g_dyn)[ name] += k;
}

// ---- budget ----
static u64 g_budget = ~0ULL;
static jmp_buf g_hangjmp;
static bool g_hangset;
const char* g_what = "";
static u64 g_steps;
void setBudget( u64 steps) { g_budget = steps; }
u64 budgetLeft() { return g_budget; }
BudgetScope::BudgetScope( u64 steps) :outer(g_budget),given(steps<g_budget?steps:g_budget) { g_budget = given; }
BudgetScope::~BudgetScope() { u64 used = given - g_budget; g_budget = outer > used ? outer - used : 1; }

// ---- allocation seam ----
namespace mem {
static bool g_armed;
static i64 g_failAt; static int g_failCount; static bool g_track;
static u64 g_seen, g_fired, g_live;
static int g_fill = -1;
enum {TabSize=1<<18};
static void** g_tab;		// open addressing table of tracked pointers, outside the heap
static u64* g_tabid;
static u64 g_nofTracked;
static void tabinit()
{
	g_tab = (void**)mmap( 0, TabSize*sizeof(void*), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	g_tabid = (u64*)mmap( 0, TabSize*sizeof(u64), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
}
static size_t slot( void* p) { return (size_t)(mix64( (u64)p) & (TabSize-1)); }
static void track( void* p)
{
	if (!g_tab) tabinit();
	if (g_nofTracked > TabSize/2) return;
	size_t i = slot( p);
	while (g_tab[i]) i = (i+1) & (TabSize-1);
	g_tab[i] = p; g_tabid[i] = g_seen;
	++g_nofTracked; ++g_live;
}
static void untrack( void* p)
{
	if (!g_nofTracked || !p) return;
	size_t i = slot( p);
	while (g_tab[i] && g_tab[i] != p) i = (i+1) & (TabSize-1);
	if (!g_tab[i]) return;
	g_tab[i] = 0; --g_nofTracked; --g_live;
	// re-insert the cluster behind
	size_t j = (i+1) & (TabSize-1);
	while (g_tab[j])
	{
		void* q = g_tab[j]; u64 id = g_tabid[j]; g_tab[j] = 0;
		size_t k = slot( q);
		while (g_tab[k]) k = (k+1) & (TabSize-1);
		g_tab[k] = q; g_tabid[k] = id;
		j = (j+1) & (TabSize-1);
	}
}
void arm( i64 failAt, int failCount, bool track_)
{
	g_armed = true; g_failAt = failAt; g_failCount = failCount; g_track = track_;
	g_seen = 0; g_fired = 0;
	if (g_nofTracked)
	{
		memset( g_tab, 0, TabSize*sizeof(void*)); g_nofTracked = 0;
	}
	g_live = 0;
}
void rearm( i64 failAt, int failCount) { g_failAt = failAt > 0 ? (i64)g_seen + failAt : 0; g_failCount = failCount; }
void disarm() { g_armed = false; }
bool armed() { return g_armed; }
bool pause() { bool p = g_armed; g_armed = false; return p; }
void resume( bool prev) { g_armed = prev; }
u64 seen() { return g_seen; }
u64 fired() { return g_fired; }
u64 live() { return g_live; }
std::string liveInfo()
{
	std::set<u64> ids;
	for (size_t i=0; g_tab && i<TabSize; ++i) if (g_tab[i]) ids.insert( g_tabid[i]);
	std::string rt;
	for (u64 id : ids) { rt += " #"; rt += std::to_string( id); }
	return rt;
}
void setFill( int b) { g_fill = b; }

static inline bool shouldFail()
{
	++g_seen;
	if (g_failAt > 0 && (i64)g_seen >= g_failAt && (i64)g_seen < g_failAt + g_failCount)
	{
		++g_fired;
		return true;
	}
	return false;
}
}//mem
}//sim

#ifdef CONC
namespace sim { namespace conc { bool freeHook( void* p); void allocHook( void* p, size_t n); bool ownsHook( void* p); void* reallocHook( void* p, size_t n); void budgetHook(); bool inFiber(); } }
#endif
extern "C" {
void* __real_malloc( size_t);
void* __real_realloc( void*, size_t);
void* __real_calloc( size_t, size_t);
void __real_free( void*);
void* __wrap_malloc( size_t n)
{
	using namespace sim::mem;
	if (g_armed && shouldFail()) return 0;
	void* p = __real_malloc( n);
#ifdef CONC
	sim::conc::allocHook( p, n);
#endif
	if (p && g_fill >= 0) memset( p, g_fill, n);
	if (g_armed && g_track && p) track( p);
	return p;
}
void* __wrap_calloc( size_t n, size_t m)
{
	using namespace sim::mem;
	if (g_armed && shouldFail()) return 0;
	void* p = __real_calloc( n, m);
#ifdef CONC
	sim::conc::allocHook( p, n*m);
#endif
	if (g_armed && g_track && p) track( p);
	return p;
}
void* __wrap_realloc( void* o, size_t n)
{
	using namespace sim::mem;
#ifdef CONC
	if (sim::conc::inFiber() || sim::conc::ownsHook( o)) return sim::conc::reallocHook( o, n);
#endif
	if (g_armed && shouldFail()) return 0;
	if (g_nofTracked) untrack( o);
	void* p = __real_realloc( o, n);
	if (g_armed && g_track && p) track( p);
	return p;
}
void __wrap_free( void* p)
{
	using namespace sim::mem;
#ifdef CONC
	if (p && sim::conc::freeHook( p)) return;
#endif
	if (g_nofTracked) untrack( p);
	__real_free( p);
}
}
static void* newimpl( size_t n)
{
	using namespace sim::mem;
	if (g_armed && shouldFail()) return 0;
	void* p = __real_malloc( n?n:1);
#ifdef CONC
	sim::conc::allocHook( p, n);
#endif
	if (p && g_fill >= 0) memset( p, g_fill, n);
	if (g_armed && g_track && p) track( p);
	return p;
}
void* operator new( size_t n) { void* p = newimpl( n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[]( size_t n) { void* p = newimpl( n); if (!p) throw std::bad_alloc(); return p; }
void* operator new( size_t n, const std::nothrow_t&) noexcept { return newimpl( n); }
void* operator new[]( size_t n, const std::nothrow_t&) noexcept { return newimpl( n); }
void operator delete( void* p) noexcept { __wrap_free( p); }
void operator delete[]( void* p) noexcept { __wrap_free( p); }
void operator delete( void* p, size_t) noexcept { __wrap_free( p); }
void operator delete[]( void* p, size_t) noexcept { __wrap_free( p); }
void operator delete( void* p, const std::nothrow_t&) noexcept { __wrap_free( p); }
void operator delete[]( void* p, const std::nothrow_t&) noexcept { __wrap_free( p); }

// ---- coverage callbacks: step counting and edge coverage ----
static uint32_t g_nofGuards;
static unsigned char g_edge[ 1<<20];
extern "C" __attribute__((no_sanitize("address"),no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init( uint32_t* start, uint32_t* stop)
{
	if (start == stop || *start) return;
	for (uint32_t* p=start; p<stop; ++p) *p = ++g_nofGuards;
}
extern "C" __attribute__((no_sanitize("address"),no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard( uint32_t* guard)
{
	uint32_t g = *guard;
	if (g < sizeof(g_edge)) g_edge[ g] = 1;
	if (--sim::g_budget == 0)
	{
#ifdef CONC
		sim::conc::budgetHook();
#endif
		if (sim::g_hangset) { sim::g_hangset = false; longjmp( sim::g_hangjmp, 1); }
		sim::g_budget = ~0ULL;
	}
}

namespace sim {
// ---- execution of one plan ----
struct Outcome
{
	bool violated;
	std::string cls, msg;
	u64 hash;
	bool nontriv;
	u64 events, time;
};
static u64 RUN_BUDGET = 60000000ULL;

static Outcome executePlan( const Plan& plan)
{
	Outcome rt; rt.violated = false;
	g_hash = 1469598103934665603ULL; g_now = 0; g_nontrivial = false; g_events = 0; g_what = "";
	mem::disarm();
	mem::setFill( -1);
	setBudget( RUN_BUDGET);
	g_hangset = true;
	if (setjmp( g_hangjmp) == 0)
	{
		try
		{
			g_property.execute( plan);
		}
		catch (const Fail& f)
		{
			rt.violated = true; rt.cls = f.cls; rt.msg = f.msg;
		}
		catch (const std::bad_alloc&)
		{
			mem::disarm();
			rt.violated = true; rt.cls = "escaped-bad_alloc"; rt.msg = "unexpected std::bad_alloc";
		}
		catch (const std::exception& e)
		{
			mem::disarm();
			rt.violated = true; rt.cls = "escaped-exception"; rt.msg = std::string("unexpected exception: ") + (e.what()?e.what():"(null)");
		}
		setBudget( ~0ULL);
	}
	else
	{
		setBudget( ~0ULL);
		mem::disarm();
		rt.violated = true; rt.cls = "hang"; rt.msg = std::string("step budget exhausted (no progress): ") + g_what;
	}
	g_hangset = false;
	mem::disarm();
	mem::setFill( -1);
	if (rt.violated) { evs( "VIOLATION", rt.cls); evs( "msg", rt.msg); }
	rt.hash = g_hash; rt.nontriv = g_nontrivial; rt.events = g_events; rt.time = g_now;
	g_totalEvents += g_events; g_totalTime += g_now;
	return rt;
}

static u64 hashId( const char* id) { u64 h=0; for (;*id;++id) h = h*131+(unsigned char)*id; return h; }
static u64 runSeed( u64 seed, u64 idx) { return mix64( mix64( seed*0x51ED270B + hashId( g_property.id)) + idx*0x9E3779B97F4A7C15ULL); }

static std::string readFile( const char* fn)
{
	std::string rt;
	FILE* f = fopen( fn, "rb");
	if (!f) { fprintf( stderr, "cannot open %s\n", fn); exit( 3); }
	char b[4096]; size_t n;
	while ((n=fread( b, 1, sizeof(b), f)) > 0) rt.append( b, n);
	fclose( f);
	return rt;
}
static void writeFile( const std::string& fn, const std::string& s)
{
	FILE* f = fopen( fn.c_str(), "wb");
	if (!f) { fprintf( stderr, "cannot write %s\n", fn.c_str()); exit( 3); }
	fwrite( s.data(), 1, s.size(), f);
	fclose( f);
}

// execute in a forked child; used by minimisation so that crashes are violations like any other
static bool forkExec( const Plan& plan, std::string& cls, std::string& msg)
{
	int pr[2], pe[2];
	if (pipe( pr) || pipe( pe)) exit( 3);
	fflush( stdout); fflush( stderr);
	pid_t pid = fork();
	if (pid < 0) exit( 3);
	if (pid == 0)
	{
		close( pr[0]); close( pe[0]);
		dup2( pe[1], 2);
		struct rlimit rl; rl.rlim_cur = rl.rlim_max = 20; setrlimit( RLIMIT_CPU, &rl);
		Outcome o = executePlan( plan);
		std::string r = o.violated ? ("V" + o.cls + "\n" + o.msg) : std::string("O");
		ssize_t w = write( pr[1], r.data(), r.size()); (void)w;
		_exit( 0);
	}
	close( pr[1]); close( pe[1]);
	std::string res, err;
	char b[4096];
	struct pollfd fds[2] = {{pr[0],POLLIN,0},{pe[0],POLLIN,0}};
	int open_ = 2;
	while (open_ > 0)
	{
		int rc = poll( fds, 2, 60000);
		if (rc <= 0) { kill( pid, SIGKILL); break; }
		for (int i=0; i<2; ++i) if (fds[i].fd >= 0 && fds[i].revents)
		{
			ssize_t n = read( fds[i].fd, b, sizeof(b));
			if (n <= 0) { fds[i].fd = -1; --open_; }
			else (i==0?res:err).append( b, n);
		}
	}
	close( pr[0]); close( pe[0]);
	int st = 0;
	waitpid( pid, &st, 0);
	if (!res.empty() && res[0] == 'O') return false;
	if (!res.empty() && res[0] == 'V')
	{
		size_t e = res.find( '\n');
		cls = res.substr( 1, e-1); msg = res.substr( e+1);
		return true;
	}
	size_t a = err.find( "ERROR: AddressSanitizer: ");
	if (a != std::string::npos)
	{
		size_t s = a + strlen("ERROR: AddressSanitizer: ");
		size_t e = err.find_first_of( " \n", s);
		cls = "asan:" + err.substr( s, e-s);
		msg = err.substr( a, err.find( '\n', a)-a);
		// first frame inside the library
		size_t t = err.find( "/include/textwolf/", a);
		if (t != std::string::npos)
		{
			size_t ls = err.rfind( '\n', t), le = err.find( '\n', t);
			msg += " at" + err.substr( ls+1, le-ls-1);
		}
		return true;
	}
	a = err.find( ": runtime error: ");
	if (a != std::string::npos)
	{
		size_t ls = err.rfind( '\n', a), le = err.find( '\n', a);
		ls = ls == std::string::npos ? 0 : ls+1;
		cls = "out-of-bounds"; msg = err.substr( ls, le-ls);
		return true;
	}
	if (WIFSIGNALED( st)) { cls = WTERMSIG(st)==SIGXCPU||WTERMSIG(st)==SIGKILL ? "hang" : "signal:" + std::to_string( WTERMSIG( st)); msg = "process ended by signal " + std::to_string( WTERMSIG( st)); }
	else { cls = "abnormal-exit"; msg = "process ended with code " + std::to_string( WEXITSTATUS( st)) + " " + err.substr( 0, 300); }
	return true;
}

struct Minimizer
{
	Plan best;
	std::string cls, msg;
	int tries, maxTries;
	time_t deadline;
	bool test( const Plan& cand)
	{
		if (tries >= maxTries || time(0) > deadline) return false;
		++tries;
		std::string c, m;
		if (forkExec( cand, c, m) && c == cls) { best = cand; msg = m; return true; }
		return false;
	}
	bool done() const { return tries >= maxTries || time(0) > deadline; }
	bool shrinkRecords()
	{
		bool any = false;
		for (size_t chunk = best.size(); chunk >= 1; chunk /= 2)
		{
			for (size_t i = 0; i < best.size() && !done(); )
			{
				Plan c = best;
				size_t e = std::min( i+chunk, c.size());
				c.erase( c.begin()+i, c.begin()+e);
				if (test( c)) any = true; else i += chunk;
			}
			if (chunk == 1) break;
		}
		return any;
	}
	bool shrinkNums()
	{
		bool any = false;
		for (size_t r = 0; r < best.size(); ++r)
		{
			// drop trailing numbers (lists)
			for (size_t chunk = best[r].n.size(); chunk >= 1 && !done(); chunk /= 2)
			{
				while (best[r].n.size() >= chunk && !done())
				{
					Plan c = best;
					c[r].n.resize( c[r].n.size()-chunk);
					if (!test( c)) break;
					any = true;
				}
			}
			for (size_t k = 0; k < best[r].n.size() && !done(); ++k)
			{
				i64 v = best[r].n[k];
				std::vector<i64> cands;
				if (v != 0) cands.push_back( 0);
				if (v > 1) { cands.push_back( 1); cands.push_back( v/2); cands.push_back( v-1); }
				for (i64 x : cands)
				{
					Plan c = best;
					c[r].n[k] = x;
					if (test( c)) { any = true; break; }
				}
			}
		}
		return any;
	}
	bool shrinkStrings()
	{
		bool any = false;
		for (size_t r = 0; r < best.size(); ++r)
		{
			for (size_t k = 0; k < best[r].s.size(); ++k)
			{
				for (size_t chunk = std::max<size_t>( best[r].s[k].size(), 1); chunk >= 1; chunk /= 2)
				{
					for (size_t i = 0; i < best[r].s[k].size() && !done(); )
					{
						Plan c = best;
						c[r].s[k].erase( i, chunk);
						if (test( c)) any = true; else i += chunk;
					}
					if (chunk == 1) break;
				}
				for (size_t i = 0; i < best[r].s[k].size() && !done(); ++i)
				{
					if (best[r].s[k][i] == 'a') continue;
					Plan c = best;
					c[r].s[k][i] = 'a';
					if (test( c)) any = true;
				}
			}
			while (best[r].s.size() && !done())
			{
				Plan c = best;
				c[r].s.pop_back();
				if (!test( c)) break;
				any = true;
			}
		}
		return any;
	}
	void run()
	{
		for (int round=0; round<6 && !done(); ++round)
		{
			bool a = shrinkRecords();
			bool b = shrinkStrings();
			bool c = shrinkNums();
			if (!a && !b && !c) break;
		}
	}
};

static void jsonCounters( std::string& out)
{
	std::map<std::string,u64> m;
	for (Counter* c = g_counters; c; c = c->nxt) m[ c->name] += c->n;
	if (g_dyn) for (auto& kv : *g_dyn) m[ kv.first] += kv.second;
	bool first = true;
	for (auto& kv : m)
	{
		out += first ? "" : ","; first = false;
		out += "\"" + kv.first + "\":" + std::to_string( kv.second);
	}
}

static std::string headerOf( u64 seed, u64 idx, const std::string& cls, const std::string& msg)
{
	std::string m = msg;
	for (char& c : m) if (c == '\n') c = ' ';
	return "# property " + std::string(g_property.id) + "\n# seed " + std::to_string( seed) + " run " + std::to_string( idx)
		+ " runseed " + std::to_string( runSeed( seed, idx)) + "\n# class " + cls + "\n# " + m + "\n";
}

static int cmdRun( int argc, char** argv)
{
	// run SEED FROM TO STEP STATEFILE OUTPREFIX MAXSECONDS
	u64 seed = strtoull( argv[0],0,10), from = strtoull( argv[1],0,10), to = strtoull( argv[2],0,10), step = strtoull( argv[3],0,10);
	const char* statefn = argv[4];
	std::string prefix = argv[5];
	double maxsec = atof( argv[6]);
	int fd = open( statefn, O_RDWR|O_CREAT, 0644);
	if (fd < 0 || ftruncate( fd, 4096)) return 3;
	volatile u64* st = (volatile u64*)mmap( 0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
	struct timespec t0, t1;
	clock_gettime( CLOCK_MONOTONIC, &t0);
	u64 done = 0, nontriv = 0, twice = 0, fails = 0;
	std::vector<u64> hashes;
	std::vector<std::string> samples;
	std::set<std::string> classes;
	bool capped = false;
	for (u64 i = from; i < to; i += step)
	{
		st[0] = i; st[1] = done;
		Rng rng( runSeed( seed, i));
		Plan plan = g_property.generate( rng);
		Outcome o = executePlan( plan);
		++done;
		if (o.nontriv) { ++nontriv; hashes.push_back( o.hash); }
		if (o.nontriv && samples.size() < 2 && done > 5) samples.push_back( planToText( plan));
		if (o.violated)
		{
			++fails;
			if (classes.insert( o.cls).second && classes.size() <= 3)
			{
				writeFile( prefix + ".fail" + std::to_string( classes.size()), headerOf( seed, i, o.cls, o.msg) + planToText( plan));
			}
			if (fails >= 3) break;
			continue;
		}
		if ((done & 15) == 1)
		{
			// determinism: the same plan executed again must leave the same trace
			++twice;
			Outcome o2 = executePlan( plan);
			if (o2.hash != o.hash)
			{
				fprintf( stderr, "NONDETERMINISM property=%s run=%llu\n", g_property.id, (unsigned long long)i);
				return 4;
			}
		}
		if ((done & 63) == 0)
		{
			clock_gettime( CLOCK_MONOTONIC, &t1);
			if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec)*1e-9 > maxsec) { capped = true; st[2] = i+step; break; }
		}
	}
	st[1] = done;
	std::string js = "{\"runs\":" + std::to_string( done) + ",\"nontrivial\":" + std::to_string( nontriv)
		+ ",\"twice\":" + std::to_string( twice) + ",\"fails\":" + std::to_string( fails)
		+ ",\"events\":" + std::to_string( g_totalEvents) + ",\"simtime_us\":" + std::to_string( g_totalTime)
		+ ",\"capped\":" + (capped?"true":"false");
	u64 edges = 0;
	for (uint32_t g=1; g<=g_nofGuards && g < sizeof(g_edge); ++g) edges += g_edge[g];
	js += ",\"edges_total\":" + std::to_string( g_nofGuards) + ",\"edges_hit\":" + std::to_string( edges);
	js += ",\"counters\":{"; jsonCounters( js); js += "}}";
	writeFile( prefix + ".json", js);
	writeFile( prefix + ".hashes", std::string( (const char*)hashes.data(), hashes.size()*8));
	writeFile( prefix + ".edges", std::string( (const char*)g_edge, std::min<size_t>( sizeof(g_edge), g_nofGuards+1)));
	std::string sm;
	for (auto& s : samples) sm += s + "----\n";
	writeFile( prefix + ".samples", sm);
	return 0;
}

}//namespace

using namespace sim;

int main( int argc, char** argv)
{
	if (argc < 2) return 3;
	std::string cmd = argv[1];
	if (cmd == "run" && argc >= 9) return cmdRun( argc-2, argv+2);
	if (cmd == "gen" && argc >= 4)
	{
		Rng rng( runSeed( strtoull( argv[2],0,10), strtoull( argv[3],0,10)));
		Plan plan = g_property.generate( rng);
		std::string s = headerOf( strtoull( argv[2],0,10), strtoull( argv[3],0,10), "unknown", "") + planToText( plan);
		fputs( s.c_str(), stdout);
		return 0;
	}
	if ((cmd == "replay" || cmd == "trace") && argc >= 3)
	{
		Plan plan;
		if (!planFromText( readFile( argv[2]), plan)) { fprintf( stderr, "bad plan\n"); return 3; }
		if (cmd == "trace")
		{
			g_tracing = true;
			Outcome o = executePlan( plan);
			printf( "%s %s: %s\nhash %016llx\n", o.violated?"VIOLATED":"held", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash);
			return o.violated ? 1 : 0;
		}
		std::string c, m;
		if (forkExec( plan, c, m))
		{
			printf( "VIOLATED %s\n%s\n", c.c_str(), m.c_str());
			return 1;
		}
		printf( "held\n");
		return 0;
	}
	if (cmd == "hash" && argc >= 5)
	{
		// hash SEED FROM TO: trace hashes of runs, for cross-process determinism checks
		for (u64 i = strtoull( argv[3],0,10); i < strtoull( argv[4],0,10); ++i)
		{
			Rng rng( runSeed( strtoull( argv[2],0,10), i));
			Outcome o = executePlan( g_property.generate( rng));
			printf( "%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)o.hash, (int)o.violated);
		}
		return 0;
	}
	if (cmd == "minimize" && argc >= 4)
	{
		std::string txt = readFile( argv[2]);
		Minimizer mi;
		if (!planFromText( txt, mi.best)) return 3;
		mi.tries = 0; mi.maxTries = argc > 4 ? atoi( argv[4]) : 4000;
		mi.deadline = time(0) + (argc > 5 ? atoi( argv[5]) : 90);
		if (!forkExec( mi.best, mi.cls, mi.msg)) { printf( "held\n"); return 0; }
		mi.run();
		std::string head, line;
		size_t i = 0;
		while (i < txt.size() && txt[i] == '#')
		{
			size_t e = txt.find( '\n', i);
			line = txt.substr( i, e-i+1);
			if (line.compare( 0, 10, "# property") == 0 || line.compare( 0, 6, "# seed") == 0) head += line;
			i = e+1;
		}
		std::string m = mi.msg;
		for (char& c : m) if (c == '\n') c = ' ';
		writeFile( argv[3], head + "# class " + mi.cls + "\n# " + m + "\n# minimised with " + std::to_string( mi.tries) + " executions\n" + planToText( mi.best));
		printf( "VIOLATED %s\n%s\n", mi.cls.c_str(), mi.msg.c_str());
		return 1;
	}
	fprintf( stderr, "usage error\n");
	return 3;
}
