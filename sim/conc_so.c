// Redirections of the shared object (linked with --wrap; tail calls, so the runtime sees the caller's address)
#include <stddef.h>
#include <stdint.h>
#define H __attribute__((visibility("hidden")))
void* conc_malloc( size_t); void* conc_calloc( size_t, size_t); void* conc_realloc( void*, size_t); void conc_free( void*);
void* conc_cxa_allocate_exception( size_t);
int conc_guard_acquire( uint64_t*); void conc_guard_release( uint64_t*); void conc_guard_abort( uint64_t*);
int conc_atexit( void (*)(void*), void*, void*);
int conc_mutex_lock( void*); int conc_mutex_trylock( void*); int conc_mutex_unlock( void*); int conc_once( int*, void (*)()); int conc_yield();
H void* __wrap_malloc( size_t n) { return conc_malloc( n); }
H void* __wrap_calloc( size_t n, size_t m) { return conc_calloc( n, m); }
H void* __wrap_realloc( void* p, size_t n) { return conc_realloc( p, n); }
H void __wrap_free( void* p) { conc_free( p); }
H void* __wrap___cxa_allocate_exception( size_t n) { return conc_cxa_allocate_exception( n); }
H int __wrap___cxa_guard_acquire( uint64_t* g) { return conc_guard_acquire( g); }
H void __wrap___cxa_guard_release( uint64_t* g) { conc_guard_release( g); }
H void __wrap___cxa_guard_abort( uint64_t* g) { conc_guard_abort( g); }
H int __wrap___cxa_atexit( void (*f)(void*), void* a, void* d) { return conc_atexit( f, a, d); }
H int __wrap___cxa_thread_atexit( void (*f)(void*), void* a, void* d) { return conc_atexit( f, a, d); }
H int __wrap_pthread_mutex_lock( void* m) { return conc_mutex_lock( m); }
H int __wrap_pthread_mutex_trylock( void* m) { return conc_mutex_trylock( m); }
H int __wrap_pthread_mutex_unlock( void* m) { return conc_mutex_unlock( m); }
H int __wrap_pthread_rwlock_rdlock( void* m) { return conc_mutex_lock( m); }
H int __wrap_pthread_rwlock_wrlock( void* m) { return conc_mutex_lock( m); }
H int __wrap_pthread_rwlock_unlock( void* m) { return conc_mutex_unlock( m); }
H int __wrap_pthread_once( int* o, void (*f)()) { return conc_once( o, f); }
H int __wrap_sched_yield() { return conc_yield(); }
