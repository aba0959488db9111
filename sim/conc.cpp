// Runtime of the simulated threads. See conc.hpp. This unit and all others of the executable are not instrumented:
// they execute atomically; preemption happens in the library code only.
#include "conc.hpp"
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <new>
#include <algorithm>
#include <exception>
#include <link.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <pthread.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>

typedef uint32_t u32;
typedef uint8_t u8;

extern "C" {
void* __real_malloc( size_t);
void __real_free( void*);
void* __wrap_malloc( size_t);
void* __wrap_calloc( size_t, size_t);
void* __wrap_realloc( void*, size_t);
void __wrap_free( void*);
size_t malloc_usable_size( void*);
void conc_switch( void** save, void* sp);
}
// context switch (System V x86-64): callee saved registers and floating point control words
asm( R"(
	.text
	.globl conc_switch
	.type conc_switch,@function
conc_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	subq $8, %rsp
	stmxcsr (%rsp)
	fnstcw 4(%rsp)
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	ldmxcsr (%rsp)
	fldcw 4(%rsp)
	addq $8, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size conc_switch,.-conc_switch
)");

namespace sim {
namespace conc {

enum {T=4};				// threads
static const size_t ArenaSize = 16u<<20;
static const size_t StackSize = 256u<<10;

// ---- memory of the library: one arena without reuse
static u8* g_arena; static size_t g_used, g_persist; static u8* g_unit;	// per 16 bytes: 0 free, 1+owner allocated (owner T: main), 0x80 freed
static u8* g_persistCopy;
static u8* g_persistUnit;
static bool g_ready;			// snapshot taken
static inline bool inArena( const void* p) { return (size_t)((const u8*)p - g_arena) < ArenaSize && g_arena; }

// ---- static data of the library
static u8 *g_glob, *g_globEnd; static u8* g_globCopy;
static u8* g_relro; static u8* g_relroEnd;
static u8* g_soText; static const char* g_soName;
// thread local storage that every thread has its own copy of
struct Tls { u8* p; size_t n; const u8* img; size_t imgn; };
static Tls g_tls[4]; static int g_ntls;

// ---- shadow memory: last accesses of every byte
struct Sh { u32 wclk; u32 wtid; u32 wpc; u32 r[T]; u32 rpc[T]; };
static Sh *g_arenaSh, *g_globSh;
enum {HashSize=1<<17};
struct HSh { const u8* a; u32 gen; Sh s; };
static HSh* g_hash; static u32 g_gen; static u32 g_nhash;
static Sh g_dummySh;

// ---- threads
enum State {READY,BLOCKED,DONE};
struct Fiber
{
	void* sp; u8* stack; State st; const void* waitOn; const std::function<void()>* body;
	u32 vc[T]; int err; u8* tls[4]; bool failed; Fail* fail; std::string* exc;
	char* eh[2];
};
static Fiber g_f[T]; static int g_n; static int g_cur = -1; static void* g_mainSp;
static u32 g_base;
struct Sync { const void* a; u32 gen; u32 vc[T]; int owner; };
enum {SyncSize=1<<12};
static Sync g_sync[ SyncSize]; static u32 g_nsync;
static Stats g_st; static u64 g_budgetAcc;
static const std::vector<i64>* g_sched; static size_t g_schedPos; static i64 g_countdown; static int g_mode; static u64 g_slice;
static char g_failCls[ 64]; static char g_failMsg[ 2048]; static bool g_abort;
static void** g_deferred; static size_t g_ndeferred; enum {DeferMax=1<<20};

bool inFiber() { return g_cur >= 0; }

static void arenaInit()
{
	g_arena = (u8*)mmap( (void*)0x100000000000ULL, ArenaSize, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	g_unit = (u8*)mmap( 0, ArenaSize/16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	g_arenaSh = (Sh*)mmap( 0, ArenaSize*sizeof(Sh), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (g_arena == MAP_FAILED || g_unit == MAP_FAILED || g_arenaSh == MAP_FAILED) { fprintf( stderr, "conc: no memory\n"); _exit( 3); }
}

// ---- code locations
static std::string where( u32 pc)
{
	Dl_info di; memset( &di, 0, sizeof(di));
	std::string rt = "?";
	if (pc && dladdr( g_soText + pc, &di) && di.dli_sname)
	{
		int st = 0; char* d = abi::__cxa_demangle( di.dli_sname, 0, 0, &st);
		rt = d ? d : di.dli_sname;
		if (d) __real_free( d);
		// without template arguments
		std::string s; int depth = 0;
		for (char c : rt) { if (c == '<') ++depth; else if (c == '>') --depth; else if (!depth) s += c; }
		rt = s;
	}
	char b[32]; snprintf( b, sizeof(b), " [so+0x%x]", pc);
	return rt + b;
}
static std::string whatIs( const void* a)
{
	char b[128];
	if (inArena( a))
	{
		size_t u = ((const u8*)a - g_arena)/16; size_t o = g_unit[u] & 0x7f;
		snprintf( b, sizeof(b), "heap memory of %s%d", o == T+1 ? "the main thread " : "thread ", (int)o-1);
		return b;
	}
	if ((const u8*)a >= g_glob && (const u8*)a < g_globEnd)
	{
		Dl_info di; memset( &di, 0, sizeof(di));
		std::string nm = "static data";
		if (dladdr( a, &di) && di.dli_sname) { int st = 0; char* d = abi::__cxa_demangle( di.dli_sname, 0, 0, &st); nm += std::string(" ") + (d?d:di.dli_sname); if (d) __real_free( d); if (nm.size() > 120) nm = nm.substr( 0, 60) + "..." + nm.substr( nm.size()-57); }
		return nm;
	}
	return "other memory";
}

// ---- switching
static void tlsSave( Fiber& f) { for (int i=0; i<g_ntls; ++i) memcpy( f.tls[i], g_tls[i].p, g_tls[i].n); }
static void tlsLoad( Fiber& f) { for (int i=0; i<g_ntls; ++i) memcpy( g_tls[i].p, f.tls[i], g_tls[i].n); }
static u8* g_mainTls[4];

static void switchTo( int t)		// t: thread or -1 for main
{
	int from = g_cur;
	if (from == t) return;
	++g_st.switches;
	void** save;
	int e = errno;
	if (from >= 0) { Fiber& f = g_f[from]; tlsSave( f); f.err = e; save = &f.sp; }
	else { for (int i=0; i<g_ntls; ++i) memcpy( g_mainTls[i], g_tls[i].p, g_tls[i].n); save = &g_mainSp; }
	g_cur = t;
	if (t >= 0) { tlsLoad( g_f[t]); errno = g_f[t].err; ev( "thread", (u64)t, g_st.accesses); conc_switch( save, g_f[t].sp); }
	else { for (int i=0; i<g_ntls; ++i) memcpy( g_tls[i].p, g_mainTls[i], g_tls[i].n); errno = 0; conc_switch( save, g_mainSp); }
}
[[noreturn]] static void abortRun( const char* cls, const std::string& msg)
{
	if (!g_abort)
	{
		snprintf( g_failCls, sizeof(g_failCls), "%s", cls);
		snprintf( g_failMsg, sizeof(g_failMsg), "%s", msg.c_str());
	}
	g_abort = true;
	if (g_cur < 0) { std::string c = g_failCls, m = g_failMsg; g_abort = false; fail( c, m); }
	switchTo( -1);
	abort();
}
static int nextReady( int after)
{
	for (int i=1; i<=g_n; ++i) { int t = (after + i + g_n) % g_n; if (g_f[t].st == READY) return t; }
	return -1;
}
static void nextGap()
{
	if (g_schedPos < g_sched->size())
	{
		i64 g = (*g_sched)[ g_schedPos++];
		g_countdown = g < 1 ? 1 : g > 100000000 ? 100000000 : g;
	}
	else g_countdown = -1;
}
static void preempt()
{
	i64 pick = g_schedPos < g_sched->size() ? (*g_sched)[ g_schedPos++] : 0;
	nextGap();
	int cand[T], n = 0;
	for (int i=0; i<g_n; ++i) if (i != g_cur && g_f[i].st == READY) cand[n++] = i;
	if (!n) return;
	++g_st.preemptions;
	g_slice = 0;
	switchTo( cand[ (u64)(pick < 0 ? -pick : pick) % (u64)n]);
}
static void leave()			// the current thread cannot continue
{
	int t = nextReady( g_cur);
	if (t < 0)
	{
		for (int i=0; i<g_n; ++i) if (g_f[i].st == BLOCKED) abortRun( "deadlock", "all threads that have not ended are blocked");
	}
	g_slice = 0;
	switchTo( t);
}
static void fiberMain()
{
	Fiber& f = g_f[ g_cur];
	try { (*f.body)(); }
	catch (const Fail& e) { f.fail = new Fail( e); }
	catch (const std::exception& e) { f.exc = new std::string( e.what() ? e.what() : ""); }
	catch (...) { f.exc = new std::string( "unknown exception"); }
	f.st = DONE;
	leave();
	abort();
}

// ---- happens before
static Sync* syncOf( const void* a)
{
	size_t i = mix64( (u64)a) & (SyncSize-1);
	while (g_sync[i].gen == g_gen && g_sync[i].a != a) i = (i+1) & (SyncSize-1);
	Sync& s = g_sync[i];
	if (s.gen != g_gen)
	{
		if (++g_nsync > SyncSize/2) abortRun( "resource", "too many synchronisation objects");
		s.a = a; s.gen = g_gen; s.owner = -1; for (int k=0; k<T; ++k) s.vc[k] = 0;
	}
	return &s;
}
static void acquire( Sync* s) { if (g_cur >= 0) for (int k=0; k<T; ++k) if (s->vc[k] > g_f[g_cur].vc[k]) g_f[g_cur].vc[k] = s->vc[k]; ++g_st.syncops; }
static void release( Sync* s, bool join=true)
{
	if (g_cur < 0) return;
	Fiber& f = g_f[g_cur];
	for (int k=0; k<T; ++k) if (!join || f.vc[k] > s->vc[k]) s->vc[k] = f.vc[k];
	++f.vc[ g_cur];
	++g_st.syncops;
}
static void wake( const void* a) { for (int i=0; i<g_n; ++i) if (g_f[i].st == BLOCKED && g_f[i].waitOn == a) { g_f[i].st = READY; g_f[i].waitOn = 0; } }
static void block( const void* a)
{
	++g_st.blocked;
	g_f[g_cur].st = BLOCKED; g_f[g_cur].waitOn = a;
	leave();
}

// ---- accesses
static Sh* shadow( const u8* a)
{
	if (inArena( a)) return g_arenaSh + (a - g_arena);
	if (a >= g_glob && a < g_globEnd) return g_globSh + (a - g_glob);
	size_t i = mix64( (u64)a) & (HashSize-1);
	while (g_hash[i].gen == g_gen && g_hash[i].a != a) i = (i+1) & (HashSize-1);
	HSh& h = g_hash[i];
	if (h.gen != g_gen)
	{
		if (g_nhash > HashSize/2) { memset( &g_dummySh, 0, sizeof(Sh)); return &g_dummySh; }
		++g_nhash;
		h.a = a; h.gen = g_gen; memset( &h.s, 0, sizeof(Sh));
	}
	return &h.s;
}
static void forget( const void* p, size_t n)	// memory given out by an allocator that is not ours
{
	for (size_t i=0; i<n; ++i) memset( shadow( (const u8*)p + i), 0, sizeof(Sh));
}
// memory the executable got from its own heap: it may have been an exception object of another thread before
void allocHook( void* p, size_t n)
{
	if (g_cur < 0 || !p) return;
	for (size_t k=0; k<n; ++k)
	{
		const u8* a = (const u8*)p + k;
		size_t i = mix64( (u64)a) & (HashSize-1);
		while (g_hash[i].gen == g_gen && g_hash[i].a != a) i = (i+1) & (HashSize-1);
		if (g_hash[i].gen == g_gen) memset( &g_hash[i].s, 0, sizeof(Sh));
	}
}
static void raceReport( const u8* a, bool write, u32 pc, const char* other, int otid, u32 opc)
{
	int me = g_cur;
	std::string m = fmt( "thread %d %s %s without synchronisation with thread %d that %s it", me, write ? "writes" : "reads", whatIs( a).c_str(), otid, other);
	m += "; in " + where( pc) + " and " + where( opc);
	abortRun( "data-race", m);
}
static inline void preemptPoint( bool shared)
{
	++g_st.accesses;
	if (shared) ++g_st.shared;
	if (g_st.accesses > g_budgetAcc) abortRun( "hang", "no progress: bound of memory accesses exceeded");
	if (++g_slice > 50000) { g_slice = 0; int t = nextReady( g_cur); if (t >= 0 && t != g_cur) switchTo( t); }
	if (g_countdown > 0 && (shared || g_mode == 0) && --g_countdown == 0) preempt();
}
// atomic: 0 plain, 1 atomic access (not recorded; conflicts with plain accesses only)
static void access( const void* p, size_t n, bool write, u32 pc, int atomic)
{
	if (g_cur < 0 || !n) return;
	const u8* a = (const u8*)p;
	{
		const Fiber& f = g_f[g_cur];
		if ((size_t)(a - f.stack) < StackSize) { if (++g_st.accesses > g_budgetAcc) abortRun( "hang", "no progress: bound of memory accesses exceeded"); return; }
	}
	for (int i=0; i<g_ntls; ++i) if ((size_t)(a - g_tls[i].p) < g_tls[i].n) { ++g_st.accesses; return; }
	if (a == (const u8*)&errno) { preemptPoint( false); return; }		// one for each thread, kept by the switch
	bool ar = inArena( a);
	bool shared = atomic || (a >= g_glob && a < g_globEnd) || (ar && (g_unit[ (a-g_arena)/16] & 0x7f) != g_cur+1);
	preemptPoint( shared);
	if (ar)
	{
		size_t u = (a-g_arena)/16, ue = (a-g_arena+n-1)/16;
		for (; u <= ue && u < ArenaSize/16; ++u)
		{
			if (g_unit[u] & 0x80) abortRun( "use-after-free", fmt( "thread %d %s released %s; in ", g_cur, write ? "writes" : "reads", whatIs( g_arena + u*16).c_str()) + where( pc));
			if (!g_unit[u]) abortRun( "heap-overflow", fmt( "thread %d %s behind allocated memory; in ", g_cur, write ? "writes" : "reads") + where( pc));
		}
	}
	Fiber& f = g_f[g_cur];
	int me = g_cur;
	u32 clk = f.vc[me];
	for (size_t i=0; i<n; ++i)
	{
		Sh& s = *shadow( a+i);
		if (s.wclk > g_base && s.wtid != (u32)me && s.wclk > f.vc[ s.wtid]) raceReport( a+i, write, pc, "wrote", (int)s.wtid, s.wpc);
		if (write)
		{
			for (int k=0; k<g_n; ++k) if (k != me && s.r[k] > g_base && s.r[k] > f.vc[k]) raceReport( a+i, write, pc, "read", k, s.rpc[k]);
			if (!atomic) { s.wclk = clk; s.wtid = (u32)me; s.wpc = pc; }
		}
		else if (!atomic) { s.r[me] = clk; s.rpc[me] = pc; }
	}
}

// ---- arena
static u8* arenaAlloc( size_t n)
{
	if (!g_arena) arenaInit();
	size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
	size_t need = 16 + sz + 16;		// header, block, gap
	if (g_used + need > ArenaSize) abortRun( "memory", "memory use without bound");
	u8* h = g_arena + g_used;
	*(size_t*)h = n;
	u8* p = h + 16;
	memset( g_unit + (p-g_arena)/16, g_cur < 0 ? T+1 : g_cur+1, sz/16);
	g_used += need;
	return p;
}
static void arenaFree( void* p, u32 pc)
{
	u8* b = (u8*)p;
	size_t u = (b - g_arena)/16;
	if (((size_t)(b - g_arena) & 15) || !g_unit[u] || u == 0 || (g_unit[u] & 0x80))
	{
		abortRun( (g_unit[u] & 0x80) ? "double-free" : "bad-free", "memory released that is not allocated; in " + where( pc));
	}
	size_t n = *(size_t*)(b - 16);
	access( b, n, true, pc, 0);
	size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
	for (size_t k=0; k<sz/16; ++k) g_unit[ u+k] |= 0x80;
}
// used by the allocation seam of the core: frees of the executable's own heap
bool freeHook( void* p)
{
	if (inArena( p)) { arenaFree( p, 0); return true; }
	if (g_cur >= 0)
	{
		if (g_ndeferred < DeferMax) g_deferred[ g_ndeferred++] = p;
		return true;
	}
	return false;
}
bool ownsHook( void* p) { return inArena( p); }
void* reallocHook( void* p, size_t n)	// of arena memory or within a thread
{
	void* q = __real_malloc( n ? n : 1);
	if (!q) return 0;
	allocHook( q, n);
	if (p)
	{
		size_t o = inArena( p) ? *(size_t*)((u8*)p - 16) : malloc_usable_size( p);
		memcpy( q, p, o < n ? o : n);
		freeHook( p);
	}
	return q;
}
void budgetHook() { if (g_cur >= 0) abortRun( "hang", "no progress: bound of control flow steps exceeded"); }

// ---- start up
static int phdrCb( struct dl_phdr_info* info, size_t, void*)
{
	bool so = info->dlpi_name && strstr( info->dlpi_name, "libC11sut");
	bool cxx = info->dlpi_name && strstr( info->dlpi_name, "libstdc++");
	if (!so && !cxx) return 0;
	for (int i=0; i<info->dlpi_phnum; ++i)
	{
		const ElfW(Phdr)& ph = info->dlpi_phdr[i];
		u8* b = (u8*)info->dlpi_addr + ph.p_vaddr;
		if (so && ph.p_type == PT_LOAD && (ph.p_flags & PF_W))
		{
			if (!g_glob || b < g_glob) g_glob = b;
			if (b + ph.p_memsz > g_globEnd) g_globEnd = b + ph.p_memsz;
		}
		if (so && ph.p_type == PT_GNU_RELRO) { g_relro = b; g_relroEnd = (u8*)(((size_t)b + ph.p_memsz) & ~(size_t)4095); }
		if (ph.p_type == PT_TLS && info->dlpi_tls_data && g_ntls < 4)
		{
			Tls& t = g_tls[ g_ntls++];
			t.p = (u8*)info->dlpi_tls_data; t.n = ph.p_memsz; t.img = b; t.imgn = ph.p_filesz;
		}
	}
	if (so) { g_soText = (u8*)info->dlpi_addr; g_soName = info->dlpi_name; }
	return 0;
}
void init()
{
	if (g_ready) return;
	__libc_single_threaded = 0;		// the fibers are threads for the library code
	if (!g_arena) arenaInit();
	abi::__cxa_get_globals();		// thread local storage of libstdc++ exists
	dl_iterate_phdr( phdrCb, 0);
	if (!g_glob) { fprintf( stderr, "conc: shared object not found\n"); _exit( 3); }
	if (g_relroEnd > g_glob && g_relro <= g_glob) g_glob = g_relroEnd;
	size_t n = g_globEnd - g_glob;
	g_globCopy = (u8*)mmap( 0, n, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	memcpy( g_globCopy, g_glob, n);
	g_globSh = (Sh*)mmap( 0, n*sizeof(Sh), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	g_hash = (HSh*)mmap( 0, HashSize*sizeof(HSh), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	g_persist = g_used;
	g_persistCopy = (u8*)__real_malloc( g_persist+1); memcpy( g_persistCopy, g_arena, g_persist);
	g_persistUnit = (u8*)__real_malloc( g_persist/16+1); memcpy( g_persistUnit, g_unit, g_persist/16);
	g_deferred = (void**)mmap( 0, DeferMax*sizeof(void*), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	for (int i=0; i<T; ++i)
	{
		u8* st = (u8*)mmap( 0, StackSize+8192, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
		mprotect( st, 4096, PROT_NONE);
		g_f[i].stack = st + 4096;
		for (int k=0; k<g_ntls; ++k) g_f[i].tls[k] = (u8*)calloc( 1, g_tls[k].n);
	}
	for (int k=0; k<g_ntls; ++k) g_mainTls[k] = (u8*)calloc( 1, g_tls[k].n);
	g_ready = true;
}
void begin()
{
	init();
	// only what has changed is written
	const size_t P = 4096;
	for (u8* p = g_glob; p < g_globEnd; )
	{
		u8* e = (u8*)(((size_t)p + P) & ~(P-1)); if (e > g_globEnd) e = g_globEnd;
		if (memcmp( p, g_globCopy + (p-g_glob), e-p) != 0) memcpy( p, g_globCopy + (p-g_glob), e-p);
		p = e;
	}
	memset( g_arena + g_persist, 0xCD, g_used - g_persist);
	memset( g_unit + g_persist/16, 0, (g_used - g_persist)/16 + 1);
	memcpy( g_arena, g_persistCopy, g_persist);
	memcpy( g_unit, g_persistUnit, g_persist/16);
	g_used = g_persist;
	++g_gen; g_nhash = 0; g_nsync = 0;
}
void end()
{
	for (size_t i=0; i<g_ndeferred; ++i) __real_free( g_deferred[i]);
	g_ndeferred = 0;
}

Stats run( const std::vector<std::function<void()> >& bodies, const std::vector<i64>& sched, u64 budget)
{
	memset( &g_st, 0, sizeof(g_st));
	g_budgetAcc = budget; g_abort = false; g_slice = 0;
	g_n = (int)std::min<size_t>( bodies.size(), T);
	// clocks of earlier runs are all below the base
	u32 mx = g_base;
	for (int i=0; i<T; ++i) for (int k=0; k<T; ++k) mx = std::max( mx, g_f[i].vc[k]);
	g_base = mx + 1;
	if (g_base > 0xF0000000u) { fprintf( stderr, "conc: clock overflow\n"); _exit( 3); }
	for (int i=0; i<g_n; ++i)
	{
		Fiber& f = g_f[i];
		f.st = READY; f.waitOn = 0; f.body = &bodies[i]; f.err = 0; f.fail = 0; f.exc = 0;
		for (int k=0; k<T; ++k) f.vc[k] = g_base;
		f.vc[i] = g_base + 1;
		for (int k=0; k<g_ntls; ++k) { memset( f.tls[k], 0, g_tls[k].n); memcpy( f.tls[k], g_tls[k].img, g_tls[k].imgn); }
		u64* sp = (u64*)(f.stack + StackSize);
		*--sp = 0; *--sp = 0;		// end of the stack for unwinders (and alignment)
		*--sp = 0;
		*--sp = (u64)&fiberMain;
		for (int k=0; k<6; ++k) *--sp = 0;
		--sp; ((u32*)sp)[0] = 0x1F80; ((u32*)sp)[1] = 0x037F;
		f.sp = sp;
	}
	g_sched = &sched; g_schedPos = 2; g_mode = sched.size() > 0 ? (int)(sched[0] & 1) : 0;
	nextGap();
	int first = sched.size() > 1 ? (int)((u64)(sched[1] < 0 ? -sched[1] : sched[1]) % (u64)g_n) : 0;
	u64 outer = budgetLeft();
	setBudget( 2000000000ULL);
	switchTo( first);
	setBudget( outer);
	if (g_abort) { g_abort = false; fail( g_failCls, g_failMsg); }
	for (int i=0; i<g_n; ++i)
	{
		Fiber& f = g_f[i];
		if (f.fail) { Fail e = *f.fail; delete f.fail; f.fail = 0; throw e; }
		if (f.exc) { std::string e = *f.exc; delete f.exc; f.exc = 0; fail( "escaped-exception", fmt( "thread %d ended with exception ", i) + e); }
	}
	return g_st;
}
}}//namespace

// ---- what the instrumented code calls ----
using namespace sim::conc;
#define PC (u32)((u8*)__builtin_return_address(0) - g_soText)
extern "C" {
void __tsan_init(){}
void __tsan_func_entry( void*){}
void __tsan_func_exit(){}
#define RW(N) \
	void __tsan_read##N( void* a) { access( a, N, false, PC, 0); } \
	void __tsan_write##N( void* a) { access( a, N, true, PC, 0); } \
	void __tsan_unaligned_read##N( void* a) { access( a, N, false, PC, 0); } \
	void __tsan_unaligned_write##N( void* a) { access( a, N, true, PC, 0); } \
	void __tsan_read_write##N( void* a) { access( a, N, true, PC, 0); } \
	void __tsan_unaligned_read_write##N( void* a) { access( a, N, true, PC, 0); } \
	void __tsan_volatile_read##N( void* a) { access( a, N, false, PC, 0); } \
	void __tsan_volatile_write##N( void* a) { access( a, N, true, PC, 0); } \
	void __tsan_unaligned_volatile_read##N( void* a) { access( a, N, false, PC, 0); } \
	void __tsan_unaligned_volatile_write##N( void* a) { access( a, N, true, PC, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update( void** a, void*) { access( a, 8, true, PC, 0); }
void __tsan_vptr_read( void** a) { access( a, 8, false, PC, 0); }
void __tsan_read_range( void* a, size_t n) { access( a, n, false, PC, 0); }
void __tsan_write_range( void* a, size_t n) { access( a, n, true, PC, 0); }

// atomics: acquire (consume) joins the clock of the location, release publishes; mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool acq( int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel( int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void rmw( const void* a, size_t n, int mo, u32 pc)
{
	access( a, n, true, pc, 1);
	if (g_cur < 0) return;
	Sync* s = syncOf( a);
	if (acq( mo)) acquire( s);
	if (rel( mo)) release( s);
	wake( a);
}
#define ATOMIC(BITS,TY) \
	TY __tsan_atomic##BITS##_load( const volatile TY* a, int mo) { access( (const void*)a, sizeof(TY), false, PC, 1); if (g_cur >= 0 && acq( mo)) acquire( syncOf( (const void*)a)); return *a; } \
	void __tsan_atomic##BITS##_store( volatile TY* a, TY v, int mo) { access( (const void*)a, sizeof(TY), true, PC, 1); if (g_cur >= 0) { Sync* s = syncOf( (const void*)a); if (rel( mo)) release( s, false); } *a = v; } \
	TY __tsan_atomic##BITS##_exchange( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = v; return o; } \
	TY __tsan_atomic##BITS##_fetch_add( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = o + v; return o; } \
	TY __tsan_atomic##BITS##_fetch_sub( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = o - v; return o; } \
	TY __tsan_atomic##BITS##_fetch_and( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = o & v; return o; } \
	TY __tsan_atomic##BITS##_fetch_or( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = o | v; return o; } \
	TY __tsan_atomic##BITS##_fetch_xor( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = o ^ v; return o; } \
	TY __tsan_atomic##BITS##_fetch_nand( volatile TY* a, TY v, int mo) { rmw( (const void*)a, sizeof(TY), mo, PC); TY o = *a; *a = ~(o & v); return o; } \
	TY __tsan_atomic##BITS##_compare_exchange_val( volatile TY* a, TY c, TY v, int mo, int fmo) { access( (const void*)a, sizeof(TY), true, PC, 1); TY o = *a; if (g_cur >= 0) { Sync* s = syncOf( (const void*)a); if (acq( o == c ? mo : fmo)) acquire( s); if (o == c && rel( mo)) release( s); } if (o == c) *a = v; return o; } \
	int __tsan_atomic##BITS##_compare_exchange_strong( volatile TY* a, TY* c, TY v, int mo, int fmo) { TY x = *c; TY o = __tsan_atomic##BITS##_compare_exchange_val( a, x, v, mo, fmo); if (o == x) return 1; *c = o; return 0; } \
	int __tsan_atomic##BITS##_compare_exchange_weak( volatile TY* a, TY* c, TY v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong( a, c, v, mo, fmo); }
ATOMIC(8,uint8_t) ATOMIC(16,uint16_t) ATOMIC(32,uint32_t) ATOMIC(64,uint64_t)
// fences order atomics of the thread that executes them: approximated by one location all fences meet at
static char g_fence;
void __tsan_atomic_thread_fence( int mo) { if (g_cur < 0) return; Sync* s = syncOf( &g_fence); if (acq( mo)) acquire( s); if (rel( mo)) release( s); }
void __tsan_atomic_signal_fence( int){}

// memory functions
void* __tsan_memcpy( void* d, const void* s, size_t n) { access( s, n, false, PC, 0); access( d, n, true, PC, 0); return memcpy( d, s, n); }
void* __tsan_memmove( void* d, const void* s, size_t n) { access( s, n, false, PC, 0); access( d, n, true, PC, 0); return memmove( d, s, n); }
void* __tsan_memset( void* d, int c, size_t n) { access( d, n, true, PC, 0); return memset( d, c, n); }
void* __wrap_memcpy( void* d, const void* s, size_t n) { access( s, n, false, PC, 0); access( d, n, true, PC, 0); return memcpy( d, s, n); }
void* __wrap_memmove( void* d, const void* s, size_t n) { access( s, n, false, PC, 0); access( d, n, true, PC, 0); return memmove( d, s, n); }
void* __wrap_memset( void* d, int c, size_t n) { access( d, n, true, PC, 0); return memset( d, c, n); }
int __wrap_memcmp( const void* a, const void* b, size_t n) { access( a, n, false, PC, 0); access( b, n, false, PC, 0); return memcmp( a, b, n); }
int __wrap_bcmp( const void* a, const void* b, size_t n) { access( a, n, false, PC, 0); access( b, n, false, PC, 0); return memcmp( a, b, n); }
void* __wrap_memchr( const void* a, int c, size_t n) { access( a, n, false, PC, 0); return (void*)memchr( a, c, n); }
size_t __wrap_strlen( const char* a) { size_t n = strlen( a); access( a, n+1, false, PC, 0); return strlen( a); }
int __wrap_strcmp( const char* a, const char* b) { access( a, strlen(a)+1, false, PC, 0); access( b, strlen(b)+1, false, PC, 0); return strcmp( a, b); }
int __wrap_strncmp( const char* a, const char* b, size_t n) { access( a, std::min( n, strnlen( a, n)+1), false, PC, 0); access( b, std::min( n, strnlen( b, n)+1), false, PC, 0); return strncmp( a, b, n); }
char* __wrap_strchr( const char* a, int c) { access( a, strlen(a)+1, false, PC, 0); return (char*)strchr( a, c); }
char* __wrap_strstr( const char* a, const char* b) { access( a, strlen(a)+1, false, PC, 0); access( b, strlen(b)+1, false, PC, 0); return (char*)strstr( a, b); }
char* __wrap_strcpy( char* d, const char* s) { size_t n = strlen( s)+1; access( s, n, false, PC, 0); access( d, n, true, PC, 0); return strcpy( d, s); }
char* __wrap_strncpy( char* d, const char* s, size_t n) { access( s, std::min( n, strnlen( s, n)+1), false, PC, 0); access( d, n, true, PC, 0); return strncpy( d, s, n); }
char* __wrap_strcat( char* d, const char* s) { size_t n = strlen( s)+1; access( s, n, false, PC, 0); access( d + strlen(d), n, true, PC, 0); return strcat( d, s); }
int __wrap_vsnprintf( char* d, size_t n, const char* f, va_list ap) { int r = vsnprintf( d, n, f, ap); if (n) access( d, std::min<size_t>( n, r < 0 ? 0 : (size_t)r+1), true, PC, 0); return r; }
int __wrap_snprintf( char* d, size_t n, const char* f, ...)
{
	// formatted elsewhere first: the thread may be preempted before the buffer is written
	va_list ap; va_start( ap, f);
	char* tmp = (char*)__real_malloc( n ? n : 1);
	int r = vsnprintf( tmp, n, f, ap);
	va_end( ap);
	if (n) { size_t k = std::min<size_t>( n, r < 0 ? 0 : (size_t)r+1); access( d, k, true, PC, 0); memcpy( d, tmp, k); }
	__real_free( tmp);
	return r;
}
int __wrap_sprintf( char* d, const char* f, ...)
{
	va_list ap; va_start( ap, f);
	char* tmp = (char*)__real_malloc( 1<<16);
	int r = vsnprintf( tmp, 1<<16, f, ap);
	va_end( ap);
	size_t k = (size_t)(r < 0 ? 0 : r) + 1; access( d, k, true, PC, 0); memcpy( d, tmp, k);
	__real_free( tmp);
	return r;
}

// allocation
void* __wrap__Znwm( size_t n) { return arenaAlloc( n); }
void* __wrap__Znam( size_t n) { return arenaAlloc( n); }
void* __wrap__ZnwmRKSt9nothrow_t( size_t n, const void*) { return arenaAlloc( n); }
void* __wrap__ZnamRKSt9nothrow_t( size_t n, const void*) { return arenaAlloc( n); }
static void del( void* p, u32 pc) { if (!p) return; if (inArena( p)) arenaFree( p, pc); else __wrap_free( p); }
void __wrap__ZdlPv( void* p) { del( p, PC); }
void __wrap__ZdaPv( void* p) { del( p, PC); }
void __wrap__ZdlPvm( void* p, size_t) { del( p, PC); }
void __wrap__ZdaPvm( void* p, size_t) { del( p, PC); }
void __wrap__ZdlPvRKSt9nothrow_t( void* p, const void*) { del( p, PC); }
void __wrap__ZdaPvRKSt9nothrow_t( void* p, const void*) { del( p, PC); }
void* conc_malloc( size_t n) { return arenaAlloc( n); }
void* conc_calloc( size_t n, size_t m) { u8* p = arenaAlloc( n*m); memset( p, 0, n*m); return p; }
void* conc_realloc( void* o, size_t n)
{
	u8* p = arenaAlloc( n);
	if (o)
	{
		size_t on = inArena( o) ? *(size_t*)((u8*)o - 16) : malloc_usable_size( o);
		access( o, std::min( on, n), false, PC, 0);
		memcpy( p, o, std::min( on, n));
		del( o, PC);
	}
	return p;
}
void conc_free( void* p) { del( p, PC); }
void* conc_cxa_allocate_exception( size_t n) { void* p = abi::__cxa_allocate_exception( n); if (g_cur >= 0) forget( p, n); return p; }

// initialisation of function local statics
int conc_guard_acquire( uint64_t* g)
{
	u8* b = (u8*)g;
	if (g_cur < 0) { if (b[0]) return 0; b[1] = 1; return 1; }
	preemptPoint( true);
	for (;;)
	{
		Sync* s = syncOf( g);
		if (b[0]) { acquire( s); return 0; }
		if (s->owner < 0) { s->owner = g_cur; b[1] = 1; acquire( s); ++g_st.syncops; return 1; }
		if (s->owner == g_cur) abortRun( "recursive-init", "static variable initialised recursively; in " + where( PC));
		block( g);
	}
}
void conc_guard_release( uint64_t* g)
{
	u8* b = (u8*)g;
	b[1] = 0;
	if (g_cur < 0) { b[0] = 1; return; }
	preemptPoint( true);
	Sync* s = syncOf( g);
	b[0] = 1;
	s->owner = -1;
	release( s);
	wake( g);
}
void conc_guard_abort( uint64_t* g)
{
	u8* b = (u8*)g;
	b[1] = 0;
	if (g_cur < 0) return;
	Sync* s = syncOf( g);
	s->owner = -1;
	release( s);
	wake( g);
}
int conc_atexit( void (*)(void*), void*, void*) { return 0; }

// locks
int conc_mutex_lock( void* m)
{
	if (g_cur < 0) return 0;
	preemptPoint( true);
	for (;;)
	{
		Sync* s = syncOf( m);
		if (s->owner < 0) { s->owner = g_cur; acquire( s); return 0; }
		if (s->owner == g_cur) abortRun( "deadlock", "thread locks a mutex it holds; in " + where( PC));
		block( m);
	}
}
int conc_mutex_trylock( void* m)
{
	if (g_cur < 0) return 0;
	preemptPoint( true);
	Sync* s = syncOf( m);
	if (s->owner >= 0) return EBUSY;
	s->owner = g_cur; acquire( s);
	return 0;
}
int conc_mutex_unlock( void* m)
{
	if (g_cur < 0) return 0;
	Sync* s = syncOf( m);
	if (s->owner != g_cur) abortRun( "bad-unlock", "mutex unlocked that is not held by the thread; in " + where( PC));
	s->owner = -1;
	release( s);
	wake( m);
	preemptPoint( true);
	return 0;
}
int conc_once( int* once, void (*fn)())
{
	// 0: not called, 2: called
	if (g_cur < 0) { if (*once != 2) { fn(); *once = 2; } return 0; }
	preemptPoint( true);
	for (;;)
	{
		Sync* s = syncOf( once);
		if (*once == 2) { acquire( s); return 0; }
		if (s->owner < 0)
		{
			s->owner = g_cur; acquire( s);
			struct Guard { Sync* s; int* o; bool ok; ~Guard() { s->owner = -1; if (ok) *o = 2; release( s); wake( o); } } gd = {s, once, false};
			fn();
			gd.ok = true;
			return 0;
		}
		block( once);
	}
}
int conc_yield() { if (g_cur >= 0) { ++g_st.accesses; int t = nextReady( g_cur); if (t >= 0 && t != g_cur) { g_slice = 0; switchTo( t); } } return 0; }

// functions of the C library with hidden static state: like an unsynchronised write to it
static void hidden( int i, u32 pc) { static char place[ 32]; access( place + i, 1, true, pc, 0); }
#include <time.h>
#include <locale.h>
char* __wrap_strtok( char* s, const char* d) { hidden( 0, PC); return strtok( s, d); }
struct tm* __wrap_localtime( const time_t* t) { hidden( 1, PC); return localtime( t); }
struct tm* __wrap_gmtime( const time_t* t) { hidden( 1, PC); return gmtime( t); }
char* __wrap_asctime( const struct tm* t) { hidden( 2, PC); return asctime( t); }
char* __wrap_ctime( const time_t* t) { hidden( 2, PC); return ctime( t); }
char* __wrap_setlocale( int c, const char* l) { hidden( 3, PC); return setlocale( c, l); }
int __wrap_setenv( const char* a, const char* b, int c) { hidden( 4, PC); return setenv( a, b, c); }
int __wrap_rand() { hidden( 5, PC); return 4; }
void __wrap_srand( unsigned) { hidden( 5, PC); }
}
