// load balancing and work distribution of the shared memory parallelization, driven with arbitrary measured times
#include "vh.hpp"
#include <sys/time.h>
#include <time.h>
#include <omp.h>
#include "parallel/Shared.h"
#include "parallel/LoadBalancing.h"

// the wall clock is under control of the harness
static thread_local double t_now = 0;
static bool g_fake = false;
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int clock_gettime( clockid_t c, struct timespec * ts ) noexcept {
  if( g_fake ) { double n = t_now + 1e9; ts->tv_sec = (time_t) std::floor(n); ts->tv_nsec = 1000l*std::llround((n-std::floor(n))*1e6); if( ts->tv_nsec >= 1000000000 ) { ts->tv_sec++; ts->tv_nsec -= 1000000000; } return 0; }
  return (int) syscall( SYS_clock_gettime, c, ts );
}
extern "C" int gettimeofday( struct timeval * tv, void * ) noexcept {
  if( g_fake ) { double n = t_now + 1e9; tv->tv_sec = (time_t) std::floor(n); tv->tv_usec = (suseconds_t) std::llround((n-std::floor(n))*1e6); if( tv->tv_usec >= 1000000 ) { tv->tv_sec++; tv->tv_usec -= 1000000; } return 0; }
  struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec/1000; return 0;
}

struct Chars { int_spType spType; };
typedef std::vector<std::size_t> V;

struct Rgn { std::size_t first, size; int prio; unsigned int id; unsigned short tg, step; std::vector<int_spType> sp; };

static std::vector<Chars> genChars( vh::Rng & r, std::size_t n ) {
  std::vector<Chars> c( n+1 );
  double d = r.pick( std::vector<double>{0, 0.02, 0.3, 1} );
  bool blocks = r.p(0.5); int_spType cur = 0;
  for( auto & x: c ) { if( !blocks || r.p(0.05) ) { cur = 0; for( int b = 0; b < 4; b++ ) if( r.p(d) ) cur |= 1<<b; } x.spType = cur; }
  return c;
}
static std::size_t brute( std::vector<Chars> const & c, std::size_t n, int_spType sp ) { std::size_t k = 0; for( std::size_t i = 0; i < n; i++ ) if( (c[i].spType & sp) == sp ) k++; return k; }

// checks the work packages of a region: contiguous, complete, sparse offsets
template< class F > static void tiling( char const * key, Rgn const & g, std::vector<Chars> const & ch, unsigned nW, F get, V & sizes ) {
  std::size_t next = g.first; sizes.resize(nW);
  std::size_t end = g.first + g.size, cover = 0;
  for( unsigned w = 0; w < nW; w++ ) {
    std::size_t f, s; std::size_t sp[8]; for( auto & x: sp ) x = 777777777;
    get( w, f, s, sp );
    vh::stat("eval_packages");
    sizes[w] = s;
    if( s == 0 ) continue;
    if( !vh::check( f == next && f+s <= end, std::string(key)+"-tiling", "worker %u of %u: first %zu size %zu, expected first %zu, region [%zu,%zu)", w, nW, f, s, next, g.first, end ) ) return;
    next = f+s; cover += s;
    for( std::size_t t = 0; t < g.sp.size(); t++ ) {
      std::size_t e = brute( ch, f, g.sp[t] );
      vh::check( sp[t] == e, std::string(key)+"-sparse", "worker %u: first sparse entity of type %ld is %zu, should be %zu (first dense %zu)", w, (long) g.sp[t], sp[t], e, f );
    }
    for( std::size_t t = g.sp.size(); t < 8; t++ ) vh::check( sp[t] == 777777777, std::string(key)+"-sparse-extra", "entry past the sparse types written" );
  }
  vh::check( cover == g.size, std::string(key)+"-cover", "packages cover %zu of %zu entities", cover, g.size );
}

static void lb( vh::Rng & r ) {
  unsigned nW = r.p(0.2) ? 1 : r.i(1, r.p(0.2) ? 70 : 9);
  double zt = 1e-3, mi = 2.5e-2;
  edge::parallel::LoadBalancing *l = nullptr;
  if( r.p(0.5) ) l = new edge::parallel::LoadBalancing(); else { zt = std::pow(10., r.r(-4,-2)); mi = r.r(0.005,0.3); l = new edge::parallel::LoadBalancing( zt, mi ); }
  l->init( nW );
  std::size_t nEn = r.i(0, r.p(0.1) ? 200000 : 2000);
  auto ch = genChars( r, nEn );
  std::vector<Rgn> rg; std::vector<int> order; // order: position -> region
  int nR = r.i(1,6);
  for( int k = 0; k < nR; k++ ) {
    Rgn g; g.first = r.i(0,nEn); g.size = r.i(0, nEn-g.first); if( r.p(0.15) ) g.size = std::min<std::size_t>(g.size, r.i(0,2*nW));
    int nS = r.i(0,3); for( int s = 0; s < nS; s++ ) g.sp.push_back( r.i(1,15) );
    int pos = r.i(0,k);
    l->regWrkRgn( pos, g.first, g.size, nS, g.sp.data(), ch.data() );
    rg.push_back(g); order.insert( order.begin()+pos, k );
  }
  std::vector<V> last( nR );
  auto all = [&]( int step, std::vector<std::vector<double>> const & el ) {
    for( int p = 0; p < nR; p++ ) {
      Rgn & g = rg[order[p]]; V sz;
      tiling( "balance", g, ch, nW, [&]( unsigned w, std::size_t & f, std::size_t & s, std::size_t * sp ) { l->getWrkTd( p, w, f, s, sp ); }, sz );
      V & la = last[order[p]];
      if( step == 0 || el.empty() ) { // initially: equal shares
        for( auto s: sz ) vh::check( s >= g.size/nW && s <= g.size/nW+1, "initial-equal", "initial package of %zu entities; %zu entities, %u workers", s, g.size, nW );
      } else {
        double mn = 1e99, mx = -1, sum = 0; for( auto e: el[p] ) { mn = std::min(mn,e); mx = std::max(mx,e); sum += e; }
        double imb = (mx-mn)/std::max( sum/nW, zt );
        if( mn < zt*0.99 ) { vh::stat("no measurement: equal shares");
          for( auto s: sz ) vh::check( s >= g.size/nW && s <= g.size/nW+1, "equal", "package of %zu entities for a worker without measured time; %zu entities, %u workers", s, g.size, nW ); }
        else if( mn > zt*1.01 && imb < mi*0.98 ) { vh::stat("balanced: kept"); vh::check( sz == la, "kept", "balanced region (imbalance %g < %g) was changed", imb, mi ); }
        else if( mn > zt*1.01 && imb > mi*1.02 ) {
          double th = 0; for( unsigned w = 0; w < nW; w++ ) th += la[w]/el[p][w];
          if( th > 0 ) { vh::stat("imbalanced: shares by throughput");
            for( unsigned w = 0; w < nW; w++ ) { double e = la[w]/el[p][w]/th*g.size; vh::check( std::fabs(sz[w]-e) <= 2+1e-4*e, "share", "worker %u got %zu entities, its throughput asks for %g (of %zu)", w, sz[w], e, g.size ); } }
        }
      }
      la = sz;
    }
  };
  all( 0, {} );
  int steps = r.i(1,6);
  std::vector<double> speed(nW); for( auto & s: speed ) s = std::exp(r.n());
  for( int st = 1; st <= steps; st++ ) {
    std::vector<std::vector<double>> el( nR, std::vector<double>(nW,0.0) );
    int mode = r.i(0,4);
    for( int p = 0; p < nR; p++ ) for( unsigned w = 0; w < nW; w++ ) {
      double e;
      if( mode == 0 ) e = 0; else if( mode == 1 ) e = 0.5*(1+0.01*r.r()); else if( mode == 2 ) e = 0.002+ (last[order[p]][w]*1e-4)/speed[w]; else if( mode == 3 ) e = std::pow(10., r.r(-4,3)); else e = r.r(0.002, 0.5);
      if( mode == 3 && r.p(0.1) ) e = 0;
      e = std::llround(e*1e6)*1e-6;
      int parts = e > 0 ? r.i(1,3) : 0; double left = e;
      for( int k = 0; k < parts; k++ ) { double d = k == parts-1 ? left : std::llround(left*r.r()*1e6)*1e-6; l->startClock( p, w ); t_now += d; l->stopClock( p, w ); left -= d; t_now += 0.01; }
      el[p][w] = e;
    }
    l->balance(); vh::stat("balancing steps");
    all( st, el );
    vh::sig( vh::fmt("lb w%u r%d m%d s%d", nW, nR, mode, st) );
  }
  delete l;
}

static void shared( vh::Rng & r ) {
  typedef edge::parallel::Shared S;
  int nT = r.i(1,8); bool sep = r.p(0.5);
  omp_set_num_threads( nT );
  S s; s.init( sep );
  int nW = (sep && nT > 1) ? nT-1 : nT;
  vh::check( s.m_nWrks == nW && edge::parallel::g_nThreads == nT, "workers", "%d threads, separate %d: %d workers", nT, (int) sep, s.m_nWrks );
  std::size_t nEn = r.i(0,3000); auto ch = genChars( r, nEn );
  int nR = r.i(1,10);
  std::vector<Rgn> rg( nR );
  std::vector<unsigned> ids; for( int k = 0; k < nR; k++ ) ids.push_back( 3*k+r.i(0,2) ); r.shuffle( ids );
  for( int k = 0; k < nR; k++ ) { Rgn & g = rg[k]; g.first = r.i(0,nEn); g.size = r.i(0,nEn-g.first); g.prio = r.i(-2,2); g.id = ids[k]; g.tg = r.i(0,5); g.step = r.i(0,9); int nS = r.i(0,3); for( int q = 0; q < nS; q++ ) g.sp.push_back( r.i(1,15) ); }
  int rounds = r.i(2,12);
  uint64_t sd = r.u64();
  std::vector<int> isW(nT), isS(nT), isC(nT);
  std::vector<std::vector<int>> taken( nR, std::vector<int>( nW, 0 ) ); // packages executed per round by worker
  std::size_t nA = r.i(0,500); std::vector<float> arr( nA+2, 1.f ); 
  unsigned short nTg = r.i(1,4); std::vector<std::size_t> in(nTg), se(nTg); std::size_t tot = 0; for( auto & x: in ) tot += (x = r.i(0,60)); for( auto & x: se ) tot += (x = r.i(0,20)); std::size_t nV = r.i(1,5); std::vector<double> arr2( tot*nV+1, 1. );
  std::vector<std::pair<int,int>> log; // (worker, region) in the order of each worker
  std::vector<std::vector<std::vector<int>>> seen( rounds, std::vector<std::vector<int>>( nW ) );
  std::vector<std::vector<int>> ready( rounds );
  volatile bool bad = false;
  g_fake = false;
  #pragma omp parallel num_threads(nT)
  {
    int td = omp_get_thread_num();
    isW[td] = s.isWrk(); isS[td] = s.isSched(); isC[td] = s.isComm();
    for( int k = 0; k < nR; k++ ) { Rgn & g = rg[k]; s.regWrkRgn( g.tg, g.step, g.id, g.first, g.size, g.prio, g.sp.size(), g.sp.data(), ch.data() ); }
    s.numaInit( nA, arr.data()+1 );
    s.numaInit( nTg, in.data(), se.data(), nV, arr2.data() );
    #pragma omp barrier
    for( int ro = 0; ro < rounds; ro++ ) {
      #pragma omp barrier
      if( td == 0 ) {
        vh::Rng q( sd+ro );
        if( ro == 0 && nR > 0 ) for( auto & g: rg ) if( !s.getStatusAll( S::WAI, g.id ) ) vh::fail( "status-initial", "freshly registered region isn't waiting" );
        if( q.p(0.3) ) { s.resetStatus( S::WAI ); for( auto & g: rg ) if( !s.getStatusAll( S::WAI, g.id ) ) vh::fail( "status-reset", "region isn't waiting after the reset" ); }
        if( q.p(0.4) ) s.balance();
        for( int k = 0; k < nR; k++ ) if( q.p(0.6) ) { s.setStatusAll( S::RDY, rg[k].id ); ready[ro].push_back(k); if( !s.getStatusAll( S::RDY, rg[k].id ) ) vh::fail( "status-ready", "region isn't ready" ); }
      }
      #pragma omp barrier
      if( isW[td] ) {
        int w = (nW == nT) ? td : td-1;
        unsigned short tg, st; unsigned id; int_el f, n; int_el sp[8];
        for( int guard = 0; guard < 1000; guard++ ) {
          for( auto & x: sp ) x = 777777777;
          if( !s.getWrkTd( tg, st, id, f, n, sp ) ) {
            if( id != std::numeric_limits<unsigned>::max() || f != std::numeric_limits<int_el>::max() || n != std::numeric_limits<int_el>::max() ) vh::fail( "none-available", "no work, but outputs are valid" );
            break;
          }
          vh::stat("eval_packages handed out");
          int k = -1; for( int j = 0; j < nR; j++ ) if( rg[j].id == id ) k = j;
          if( k < 0 ) { vh::fail( "unknown-id", vh::fmt("package with unknown region id %u", id) ); break; }
          if( tg != rg[k].tg || st != rg[k].step ) vh::fail( "package-attributes", vh::fmt("region %u: time group %d step %d instead of %d %d", id, tg, st, rg[k].tg, rg[k].step) );
          s.setStatusTd( S::IPR, id );
          if( s.getStatusAll( S::FIN, id ) ) vh::fail( "finished-early", "region reported as finished while a worker is in progress" );
          for( std::size_t t = 0; t < rg[k].sp.size(); t++ ) if( n > 0 && (std::size_t) sp[t] != brute( ch, f, rg[k].sp[t] ) ) vh::fail( "package-sparse", vh::fmt("worker %d region %u: sparse offset %ld instead of %zu", w, id, (long) sp[t], brute( ch, f, rg[k].sp[t] )) );
          seen[ro][w].push_back( k );
          s.setStatusTd( S::FIN, id );
        }
      }
      #pragma omp barrier
      if( td == 0 ) for( int k: ready[ro] ) if( !s.getStatusAll( S::FIN, rg[k].id ) ) vh::fail( "not-finished", "region isn't finished after all workers worked off their packages" );
      #pragma omp barrier
    }
    // ranges of all workers in all regions: tiling across the threads
    #pragma omp barrier
    if( td == 0 ) { s.resetStatus( S::WAI ); }
  }
  static std::vector<std::size_t> rf, rs; 
  for( int k = 0; k < nR; k++ ) {
    rf.assign( nW, 0 ); rs.assign( nW, 0 ); std::vector<V> rsp( nW );
    s.setStatusAll( S::RDY, rg[k].id );
    #pragma omp parallel num_threads(nT)
    { int td = omp_get_thread_num(); if( s.isWrk() ) { int w = (nW == nT) ? td : td-1; unsigned short tg, st; unsigned id; int_el f, n; int_el sp[8]; for( auto & x: sp ) x = 777777777; s.getWrkTd( tg, st, id, f, n, sp ); rf[w] = f; rs[w] = n; rsp[w].assign( sp, sp+8 ); if( id != rg[k].id ) vh::fail( "wrong-region", "got work of a region, which isn't ready" ); } }
    V sz; tiling( "shared", rg[k], ch, nW, [&]( unsigned w, std::size_t & f, std::size_t & n, std::size_t * sp ) { f = rf[w]; n = rs[w]; std::copy( rsp[w].begin(), rsp[w].end(), sp ); }, sz );
    s.resetStatus( S::WAI );
  }
  int nw = 0, ns = 0, nc = 0; for( int t = 0; t < nT; t++ ) { nw += isW[t]; ns += isS[t]; nc += isC[t]; }
  vh::check( nw == nW, "roles-workers", "%d threads are workers, expected %d", nw, nW );
  vh::check( ns == 1 && nc == 1, "roles-sched", "%d scheduling and %d communicating threads", ns, nc );
  for( int ro = 0; ro < rounds; ro++ ) for( int w = 0; w < nW; w++ ) {
    auto a = seen[ro][w], b = ready[ro]; std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
    vh::check( a == b, "exactly-once", "round %d worker %d: %zu packages executed, %zu regions were ready", ro, w, a.size(), b.size() );
    for( std::size_t i = 1; i < seen[ro][w].size(); i++ ) vh::check( rg[seen[ro][w][i-1]].prio >= rg[seen[ro][w][i]].prio, "priority", "lower priority %d before %d", rg[seen[ro][w][i-1]].prio, rg[seen[ro][w][i]].prio );
  }
  vh::check( arr[0] == 1 && arr[nA+1] == 1, "numa-bounds", "initialization wrote outside of the array" );
  for( std::size_t i = 0; i < nA; i++ ) if( !vh::check( arr[1+i] == 0, "numa-init", "entry %zu of %zu isn't initialized (%d workers)", i, nA, nW ) ) break;
  vh::check( arr2[tot*nV] == 1, "numa-bounds", "initialization wrote outside of the array" );
  for( std::size_t i = 0; i < tot*nV; i++ ) if( !vh::check( arr2[i] == 0, "numa-init-tg", "value %zu of %zu isn't initialized", i, tot*nV ) ) break;
  vh::sig( vh::fmt("sh t%d s%d r%d", nT, (int) sep, nR) );
  g_fake = true;
}

VH_MAIN {
  vh::Rng r( seed );
  g_fake = true;
  for( long k = 0; k < n; k++ ) { lb( r ); if( k%4 == 0 ) shared( r ); }
}
