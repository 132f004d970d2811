// OpenMP runtime for race detection: threads are ordered only by what OpenMP guarantees (fork, join, barriers, critical sections),
// through primitives ThreadSanitizer knows. Compiled without instrumentation.
// Volatile accesses and flushes, by which EDGE's scheduler and workers hand over work, order threads as well:
// a volatile write releases, a volatile read acquires. As the instrumentation runs before the access itself,
// addresses which were read are acquired once more at the next volatile access, flush or synchronization of the thread.
#include <pthread.h>
#include <semaphore.h>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cstdint>
#include <new>
#include <time.h>
#include <vector>
#include <map>

extern "C" {
  void __tsan_acquire( void * );
  void __tsan_release( void * );
  void __real___tsan_atomic_thread_fence( int );
}

namespace {
  struct Ws { long next = 0; long end = 0, incr = 1, chunk = 1; unsigned long long unext = 0, uend = 0, uincr = 0, uchunk = 1; bool up = true; int taken = 0; int users = 0; int init = 0; };
  struct Team {
    int n; void (*fn)( void * ); void * data; pthread_barrier_t bar;
    Ws * ws; int nWs;
  };
  struct Th { sem_t go, done; pthread_t t; int id; Team * team; };
  const int MAXT = 256;
  Th * g_pool[MAXT]; int g_nPool = 1;
  int g_max = 0;
  thread_local int t_id = 0; thread_local Team * t_team = nullptr; thread_local int t_ws = 0;
  pthread_mutex_t g_crit = PTHREAD_MUTEX_INITIALIZER, g_atom = PTHREAD_MUTEX_INITIALIZER;
  // spin lock which is invisible to ThreadSanitizer
  int g_spin = 0;
  void lock() { while( __atomic_exchange_n( &g_spin, 1, __ATOMIC_ACQUIRE ) ) sched_yield(); }
  void unlock() { __atomic_store_n( &g_spin, 0, __ATOMIC_RELEASE ); }
  const int NWS = 1024;

  // addresses of recent volatile reads
  thread_local void * t_rd[64]; thread_local int t_nRd = 0;
  void again() { for( int i = 0; i < t_nRd; i++ ) __tsan_acquire( t_rd[i] ); t_nRd = 0; }
  void vread( void * a ) { if( t_nRd && ( t_nRd == 64 || t_rd[t_nRd-1] != a ) ) again(); __tsan_acquire( a ); if( t_nRd < 64 ) t_rd[t_nRd++] = a; }
  void vwrite( void * a ) { again(); __tsan_release( a ); }

  void * loop( void * p ) {
    Th * th = (Th *) p;
    while( true ) {
      while( sem_wait( &th->go ) ) ;
      Team * te = th->team;
      if( te == nullptr ) return nullptr;
      t_id = th->id; t_team = te; t_ws = 0;
      te->fn( te->data );
      again();
      t_team = nullptr;
      sem_post( &th->done );
    }
  }
  int maxThreads() {
    if( g_max == 0 ) { char const * e = getenv( "OMP_NUM_THREADS" ); g_max = e ? atoi( e ) : 1; if( g_max < 1 ) g_max = 1; if( g_max > MAXT ) g_max = MAXT; }
    return g_max;
  }
  Ws * share() {
    if( t_team == nullptr ) { static thread_local Ws w; w = Ws(); return &w; }
    Ws * w = t_team->ws + ( t_ws++ % NWS );
    return w;
  }
  thread_local Ws * t_cur = nullptr;
}

extern "C" {
#define VOL(n) void __tsan_volatile_read##n( void * a ) { vread( a ); } void __tsan_volatile_write##n( void * a ) { vwrite( a ); } \
               void __tsan_unaligned_volatile_read##n( void * a ) { vread( a ); } void __tsan_unaligned_volatile_write##n( void * a ) { vwrite( a ); }
VOL(1) VOL(2) VOL(4) VOL(8) VOL(16)
void __wrap___tsan_atomic_thread_fence( int mo ) { again(); __real___tsan_atomic_thread_fence( mo ); }

int omp_get_thread_num() { return t_team ? t_id : 0; }
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_max_threads() { return maxThreads(); }
void omp_set_num_threads( int n ) { g_max = n > 0 ? ( n < MAXT ? n : MAXT ) : 1; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return t_team != nullptr && t_team->n > 1; }
int omp_get_thread_limit() { return MAXT; }
void omp_set_dynamic( int ) {}
void omp_set_nested( int ) {}
int omp_get_level() { return t_team != nullptr; }
double omp_get_wtime() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + 1e-9 * t.tv_nsec; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock( void ** l ) { pthread_mutex_t * m = new pthread_mutex_t; pthread_mutex_init( m, nullptr ); *l = m; }
void omp_destroy_lock( void ** l ) { pthread_mutex_destroy( (pthread_mutex_t *) *l ); delete (pthread_mutex_t *) *l; }
void omp_set_lock( void ** l ) { pthread_mutex_lock( (pthread_mutex_t *) *l ); }
void omp_unset_lock( void ** l ) { pthread_mutex_unlock( (pthread_mutex_t *) *l ); }
int omp_test_lock( void ** l ) { return pthread_mutex_trylock( (pthread_mutex_t *) *l ) == 0; }

void GOMP_parallel( void (*fn)( void * ), void * data, unsigned nt, unsigned ) {
  again();
  Team * old = t_team; int oldId = t_id, oldWs = t_ws;
  Team te; te.fn = fn; te.data = data; te.n = old ? 1 : ( nt ? (int) nt : maxThreads() ); te.ws = nullptr;
  if( te.n > MAXT ) te.n = MAXT;
  std::vector< Ws > ws( NWS ); te.ws = ws.data();
  pthread_barrier_init( &te.bar, nullptr, te.n );
  if( te.n > 1 ) {
    while( g_nPool < te.n ) {
      Th * th = new Th; th->id = g_nPool; sem_init( &th->go, 0, 0 ); sem_init( &th->done, 0, 0 );
      pthread_create( &th->t, nullptr, &loop, th ); pthread_detach( th->t );
      g_pool[g_nPool++] = th;
    }
    for( int i = 1; i < te.n; i++ ) { g_pool[i]->team = &te; sem_post( &g_pool[i]->go ); }
  }
  t_team = &te; t_id = 0; t_ws = 0;
  fn( data );
  again();
  if( te.n > 1 ) for( int i = 1; i < te.n; i++ ) while( sem_wait( &g_pool[i]->done ) ) ;
  t_team = old; t_id = oldId; t_ws = oldWs;
  pthread_barrier_destroy( &te.bar );
}
void GOMP_barrier() { again(); if( t_team && t_team->n > 1 ) pthread_barrier_wait( &t_team->bar ); }
void GOMP_critical_start() { again(); pthread_mutex_lock( &g_crit ); }
void GOMP_critical_end() { again(); pthread_mutex_unlock( &g_crit ); }
void GOMP_critical_name_start( void ** p ) {
  again();
  lock(); if( *p == nullptr ) { pthread_mutex_t * m = new pthread_mutex_t; pthread_mutex_init( m, nullptr ); *p = m; } pthread_mutex_t * m = (pthread_mutex_t *) *p; unlock();
  pthread_mutex_lock( m );
}
void GOMP_critical_name_end( void ** p ) { again(); pthread_mutex_unlock( (pthread_mutex_t *) *p ); }
void GOMP_atomic_start() { pthread_mutex_lock( &g_atom ); }
void GOMP_atomic_end() { pthread_mutex_unlock( &g_atom ); }
bool GOMP_single_start() { Ws * w = share(); return __atomic_exchange_n( &w->taken, 1, __ATOMIC_RELAXED ) == 0; }

// work sharing loops: every schedule hands out chunks dynamically
static bool next( Ws * w, long * s, long * e ) {
  lock();
  bool r = w->incr > 0 ? w->next < w->end : w->next > w->end;
  if( r ) { *s = w->next; long n = w->next + w->chunk * w->incr; if( w->incr > 0 ? n > w->end : n < w->end ) n = w->end; *e = n; w->next = n; }
  unlock(); return r;
}
static Ws * start( long s, long e, long i, long c ) {
  Ws * w = share(); lock(); if( !w->init ) { w->init = 1; w->next = s; w->end = e; w->incr = i; w->chunk = c > 0 ? c : 1; } unlock(); t_cur = w; return w;
}
static bool unext( Ws * w, unsigned long long * s, unsigned long long * e ) {
  lock();
  bool r = w->up ? w->unext < w->uend : w->unext > w->uend;
  if( r ) { *s = w->unext; unsigned long long n = w->unext + w->uchunk * w->uincr; if( w->up ? ( n > w->uend || n < w->unext ) : ( n < w->uend || n > w->unext ) ) n = w->uend; *e = n; w->unext = n; }
  unlock(); return r;
}
static Ws * ustart( bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c ) {
  Ws * w = share(); lock(); if( !w->init ) { w->init = 1; w->up = up; w->unext = s; w->uend = e; w->uincr = i; w->uchunk = c > 0 ? c : 1; } unlock(); t_cur = w; return w;
}
#define LOOPC(N) \
 bool GOMP_loop_##N##_start( long s, long e, long i, long c, long * is, long * ie ) { return next( start( s, e, i, c ), is, ie ); } \
 bool GOMP_loop_##N##_next( long * is, long * ie ) { return next( t_cur, is, ie ); } \
 bool GOMP_loop_ull_##N##_start( bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long * is, unsigned long long * ie ) { return unext( ustart( up, s, e, i, c ), is, ie ); } \
 bool GOMP_loop_ull_##N##_next( unsigned long long * is, unsigned long long * ie ) { return unext( t_cur, is, ie ); } \
 void GOMP_parallel_loop_##N( void (*fn)( void * ), void * d, unsigned nt, long s, long e, long i, long c, unsigned fl );
#define LOOPR(N) \
 bool GOMP_loop_##N##_start( long s, long e, long i, long * is, long * ie ) { return next( start( s, e, i, 1 ), is, ie ); } \
 bool GOMP_loop_##N##_next( long * is, long * ie ) { return next( t_cur, is, ie ); } \
 bool GOMP_loop_ull_##N##_start( bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long * is, unsigned long long * ie ) { return unext( ustart( up, s, e, i, 1 ), is, ie ); } \
 bool GOMP_loop_ull_##N##_next( unsigned long long * is, unsigned long long * ie ) { return unext( t_cur, is, ie ); }
LOOPC(static) LOOPC(dynamic) LOOPC(guided) LOOPC(nonmonotonic_dynamic) LOOPC(nonmonotonic_guided)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
struct PL { void (*fn)( void * ); void * d; long s, e, i, c; };
static void plRun( void * p ) {
  // the outlined function begins with the first call of "next"
  PL * l = (PL *) p; start( l->s, l->e, l->i, l->c ); l->fn( l->d );
}
static void pl( void (*fn)( void * ), void * d, unsigned nt, long s, long e, long i, long c ) { PL l = { fn, d, s, e, i, c }; GOMP_parallel( plRun, &l, nt, 0 ); }
#define PLC(N) void GOMP_parallel_loop_##N( void (*fn)( void * ), void * d, unsigned nt, long s, long e, long i, long c, unsigned ) { pl( fn, d, nt, s, e, i, c ); }
PLC(static) PLC(dynamic) PLC(guided) PLC(nonmonotonic_dynamic) PLC(nonmonotonic_guided)
#define PLR(N) void GOMP_parallel_loop_##N( void (*fn)( void * ), void * d, unsigned nt, long s, long e, long i, unsigned ) { pl( fn, d, nt, s, e, i, 1 ); }
PLR(runtime) PLR(nonmonotonic_runtime) PLR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_next() { long s, e; return next( t_cur, &s, &e ) ? (unsigned) s : 0; }
unsigned GOMP_sections_start( unsigned n ) { start( 1, (long) n + 1, 1, 1 ); return GOMP_sections_next(); }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections( void (*fn)( void * ), void * d, unsigned nt, unsigned n, unsigned ) { pl( fn, d, nt, 1, (long) n + 1, 1, 1 ); }
// tasks run at once
void GOMP_task( void (*fn)( void * ), void * data, void (*cpy)( void *, void * ), long size, long align, bool, unsigned, void **, int, void * ) {
  if( cpy ) { void * b = nullptr; if( posix_memalign( &b, align < 16 ? 16 : align, size + 16 ) ) abort(); cpy( b, data ); fn( b ); free( b ); }
  else fn( data );
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
}
