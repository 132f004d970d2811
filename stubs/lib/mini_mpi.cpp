#include <mpi.h>
#include <atomic>
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <string>
#include <vector>
// environment: VMPI_FILE (shared file), VMPI_RANK, VMPI_SIZE, VMPI_SEED, VMPI_DELAY (0..100: probability [%] that a test makes no progress, and that a message or its completion is held back for some time)
extern "C" __attribute__((weak)) void vh_event( int kind, long tg, long step, long rgn, long first, long size, double time, long n );
namespace {
  void ev( int k, long peer, long tag, void const * b, long n, long req ) { if( vh_event ) vh_event( k, peer, tag, req, (long) b, n, 0, 0 ); }
  int const MAXR = 16;
  std::size_t const RING = std::size_t(1) << 22;
  struct Ring { std::atomic<uint64_t> w, r; unsigned char d[RING]; };
  struct Shared { std::atomic<int> barIn; std::atomic<int> barGen; unsigned char red[MAXR][1<<16]; Ring rings[1]; };
  Shared * s = nullptr; int rank = 0, size = 1; bool inited = false; int delay = 0; long skew = 0; uint64_t rng = 88172645463325252ull;
  unsigned long nSend = 0, nRecv = 0, nTestDelay = 0, nLateSend = 0, bytesSent = 0; pthread_t owner;
  long now() { struct timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec*1000000l + t.tv_nsec/1000; }
  uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
  // time [us] until which a message is held back: short ones, and long ones which outlast other work
  long hold( bool send = false ) { if( send && skew > 0 && rnd() % 3 ) return now() + (long) ( ( rnd() >> 8 ) % skew ); if( int( rnd() % 100 ) >= delay ) return 0; uint64_t r = rnd(); return now() + (long) ( ( r >> 8 ) % ( r % 4 == 0 ? 4000 : 400 ) ); }
  Ring & ring( int from, int to ) { return s->rings[ from*size + to ]; }
  struct Hdr { int32_t tag; uint32_t pad; uint64_t n; };
  struct Req { long hold = 0, vis = 0; bool send, done, active; unsigned char * b; std::size_t n; int peer, tag; };
  std::map< int, Req > reqs; int nextReq = 1;
  struct Msg { int tag; std::vector<unsigned char> d; };
  std::deque<Msg> inbox[MAXR];
  std::deque<int> sendQ[MAXR];
  std::deque<int> recvQ[MAXR];
  void put( Ring & r, uint64_t & w, void const * p, std::size_t n ) { unsigned char const * c = (unsigned char const*) p; for( std::size_t i = 0; i < n; i++ ) r.d[(w+i) % RING] = c[i]; w += n; }
  void get( Ring & r, uint64_t & x, void * p, std::size_t n ) { unsigned char * c = (unsigned char*) p; for( std::size_t i = 0; i < n; i++ ) c[i] = r.d[(x+i) % RING]; x += n; }
  void bad( char const * m ) { std::fprintf( stderr, "MINIMPI-MISUSE rank=%d %s\n", rank, m ); std::fflush( stderr ); _exit( 97 ); }
  void thr() { if( !pthread_equal( owner, pthread_self() ) ) bad( "call from a thread other than the initializing one (FUNNELED)" ); }
  // moves data: sends are copied out of the user's buffer only when they progress
  void progress( bool force ) {
    for( int p = 0; p < size; p++ ) {
      while( !sendQ[p].empty() ) {
        Req & q = reqs[ sendQ[p].front() ];
        if( !force && ( int( rnd() % 100 ) < delay || ( q.hold && now() < q.hold ) ) ) { nLateSend++; break; }
        Ring & r = ring( rank, p ); uint64_t w = r.w.load( std::memory_order_relaxed ), x = r.r.load( std::memory_order_acquire );
        if( sizeof(Hdr)+q.n > RING ) bad( "message too large for the shim" );
        if( w-x+sizeof(Hdr)+q.n > RING ) break;
        Hdr h; h.tag = q.tag; h.pad = 0; h.n = q.n; put( r, w, &h, sizeof(h) ); put( r, w, q.b, q.n ); r.w.store( w, std::memory_order_release );
        q.done = true; sendQ[p].pop_front();
      }
      Ring & r = ring( p, rank ); uint64_t x = r.r.load( std::memory_order_relaxed );
      while( r.w.load( std::memory_order_acquire ) != x ) { Hdr h; get( r, x, &h, sizeof(h) ); Msg m; m.tag = h.tag; m.d.resize( h.n ); get( r, x, m.d.data(), h.n ); r.r.store( x, std::memory_order_release ); inbox[p].push_back( std::move(m) ); }
      for( auto it = recvQ[p].begin(); it != recvQ[p].end(); ) {
        Req & q = reqs[*it]; bool f = false;
        for( auto m = inbox[p].begin(); m != inbox[p].end(); ++m ) if( m->tag == q.tag ) {
          if( q.hold == 0 && delay > 0 ) q.hold = hold() + 1;
          if( !force && ( int( rnd() % 100 ) < delay || now() < q.hold ) ) { nTestDelay++; break; }
          if( m->d.size() != q.n ) { char t[160]; std::snprintf( t, sizeof t, "size mismatch: peer=%d tag=%d sent=%zu expected=%zu", p, q.tag, m->d.size(), q.n ); bad( t ); }
          std::memcpy( q.b, m->d.data(), q.n ); inbox[p].erase( m ); q.done = true; f = true; break; }
        // later receives with the same tag may not overtake
        if( f ) it = recvQ[p].erase( it );
        else { bool dup = false; for( auto jt = std::next(it); jt != recvQ[p].end(); ++jt ) if( reqs[*jt].tag == q.tag ) dup = true; if( dup ) break; ++it; }
      }
    }
  }
  void init() {
    if( inited ) return; inited = true; owner = pthread_self();
    char const * f = std::getenv( "VMPI_FILE" );
    if( std::getenv("VMPI_RANK") ) rank = std::atoi( std::getenv("VMPI_RANK") );
    if( std::getenv("VMPI_SIZE") ) size = std::atoi( std::getenv("VMPI_SIZE") );
    if( std::getenv("VMPI_DELAY") ) delay = std::atoi( std::getenv("VMPI_DELAY") );
    // slow direction: messages from some of the ranks are held back for up to this time [us]
    if( std::getenv("VMPI_SKEW") && std::getenv("VMPI_SEED") && ( ( std::strtoull( std::getenv("VMPI_SEED"), nullptr, 10 ) >> rank ) & 1 ) ) skew = std::atol( std::getenv("VMPI_SKEW") );
    if( std::getenv("VMPI_SEED") ) rng = rng*6364136223846793005ull + std::strtoull( std::getenv("VMPI_SEED"), nullptr, 10 )*1442695040888963407ull + (uint64_t) rank*2654435761ull; if( rng == 0 ) rng = 1;
    if( size > MAXR ) bad( "too many ranks" );
    std::size_t len = sizeof(Shared) + sizeof(Ring)*( (std::size_t) size*size );
    if( f ) { int fd = open( f, O_RDWR ); if( fd < 0 || ftruncate( fd, len ) != 0 ) bad( "cannot open VMPI_FILE" ); s = (Shared*) mmap( nullptr, len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0 ); close( fd ); }
    else { if( size > 1 ) bad( "VMPI_FILE missing" ); s = (Shared*) mmap( nullptr, len, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0 ); }
    if( s == MAP_FAILED ) bad( "mmap" );
  }
  std::size_t szOf( MPI_Datatype t ) { return t == MPI_BYTE ? 1 : t == MPI_INT ? 4 : t == MPI_FLOAT ? 4 : 8; }
  template< typename T > void red( T * o, T const * i, int n, MPI_Op op ) { for( int x = 0; x < n; x++ ) { if( op == MPI_MIN ) o[x] = i[x] < o[x] ? i[x] : o[x]; else if( op == MPI_MAX ) o[x] = i[x] > o[x] ? i[x] : o[x]; else o[x] += i[x]; } }
}
int MPI_Init( int *, char *** ) { init(); return 0; }
int MPI_Init_thread( int *, char ***, int r, int * p ) { init(); *p = r; return 0; }
int MPI_Initialized( int * f ) { *f = inited; return 0; }
int MPI_Comm_size( MPI_Comm, int * o ) { *o = size; return 0; }
int MPI_Comm_rank( MPI_Comm, int * o ) { *o = rank; return 0; }
int MPI_Get_version( int * a, int * b ) { *a = 3; *b = 1; return 0; }
int MPI_Barrier( MPI_Comm ) { thr(); int g = s->barGen.load(); if( s->barIn.fetch_add(1)+1 == size ) { s->barIn.store(0); s->barGen.fetch_add(1); } else while( s->barGen.load() == g ) { progress( true ); usleep( 50 ); } return 0; }
int MPI_Finalize() {
  thr(); progress( true );
  for( int p = 0; p < size; p++ ) { if( !sendQ[p].empty() ) bad( "pending sends at finalize" ); if( !recvQ[p].empty() ) bad( "pending receives at finalize" ); }
  MPI_Barrier( 0 ); progress( true );
  for( int p = 0; p < size; p++ ) if( !inbox[p].empty() ) bad( "unreceived message at finalize" );
  if( std::getenv("VMPI_LOG") ) { std::string f = std::string( std::getenv("VMPI_LOG") ) + "." + std::to_string(rank); FILE * o = std::fopen( f.c_str(), "w" ); if( o ) { std::fprintf( o, "{\"rank\":%d,\"sends\":%lu,\"recvs\":%lu,\"bytes\":%lu,\"delayed_recv\":%lu,\"late_send\":%lu}\n", rank, nSend, nRecv, bytesSent, nTestDelay, nLateSend ); std::fclose( o ); } }
  return 0; }
int MPI_Allreduce( void const * i, void * o, int n, MPI_Datatype t, MPI_Op op, MPI_Comm ) {
  thr(); std::size_t b = szOf(t)*n; if( b > (1<<16) ) bad( "allreduce size" );
  std::memcpy( s->red[rank], i, b ); MPI_Barrier( 0 ); std::vector<unsigned char> acc( s->red[0], s->red[0]+b );
  for( int r = 1; r < size; r++ ) { if( t == MPI_DOUBLE ) red( (double*) acc.data(), (double*) s->red[r], n, op ); else if( t == MPI_INT ) red( (int*) acc.data(), (int*) s->red[r], n, op ); else if( t == MPI_UNSIGNED_LONG ) red( (unsigned long*) acc.data(), (unsigned long*) s->red[r], n, op ); else bad( "allreduce type" ); }
  MPI_Barrier( 0 ); std::memcpy( o, acc.data(), b ); return 0; }
int MPI_Isend( void const * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r ) {
  thr(); if( d < 0 || d >= size ) bad( "invalid destination rank" ); if( n < 0 ) bad( "negative count" );
  Req q; q.send = true; q.done = false; q.active = true; q.b = (unsigned char*) const_cast<void*>(b); q.n = szOf(t)*n; q.peer = d; q.tag = tag; q.hold = hold(true); q.vis = hold();
  *r = nextReq++; reqs[*r] = q; sendQ[d].push_back( *r ); ev( 5, d, tag, b, (long) q.n, *r ); nSend++; bytesSent += q.n; return 0; }
int MPI_Irecv( void * b, int n, MPI_Datatype t, int d, int tag, MPI_Comm, MPI_Request * r ) {
  thr(); if( d < 0 || d >= size ) bad( "invalid source rank" ); if( n < 0 ) bad( "negative count" );
  Req q; q.send = false; q.done = false; q.active = true; q.b = (unsigned char*) b; q.n = szOf(t)*n; q.peer = d; q.tag = tag;
  // the buffer is the library's until completion: poison it (0xff.. is NaN for IEEE numbers)
  std::memset( q.b, 0xff, q.n );
  *r = nextReq++; reqs[*r] = q; recvQ[d].push_back( *r ); ev( 7, d, tag, b, (long) q.n, *r ); nRecv++; return 0; }
int MPI_Test( MPI_Request * r, int * f, MPI_Status * ) {
  thr(); if( *r == MPI_REQUEST_NULL ) { *f = 1; return 0; }
  auto it = reqs.find( *r ); if( it == reqs.end() ) bad( "test on an inactive request" );
  progress( false );
  if( it->second.done && ( it->second.vis == 0 || now() >= it->second.vis ) ) { *f = 1; ev( it->second.send ? 6 : 8, it->second.peer, it->second.tag, it->second.b, (long) it->second.n, *r ); reqs.erase( it ); *r = MPI_REQUEST_NULL; } else { *f = 0; sched_yield(); } return 0; }
int MPI_Waitall( int n, MPI_Request * r, MPI_Status * ) { thr(); for( int i = 0; i < n; i++ ) { if( r[i] == MPI_REQUEST_NULL ) continue; auto it = reqs.find( r[i] ); if( it == reqs.end() ) bad( "wait on an inactive request" ); while( !it->second.done ) { progress( true ); if( !it->second.done ) usleep( 20 ); } ev( it->second.send ? 6 : 8, it->second.peer, it->second.tag, it->second.b, (long) it->second.n, r[i] ); reqs.erase( it ); r[i] = MPI_REQUEST_NULL; } return 0; }
