// Event recorder: per-thread buffers, one relaxed global counter (so that no synchronisation is added that could hide a race).
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <mutex>
#include <unistd.h>
#include <time.h>

namespace {
  struct Ev { uint64_t seq; int32_t kind, thread; int64_t tg, step, rgn, first, size, n; double time; };
  std::atomic< uint64_t > g_seq( 0 );
  std::atomic< int > g_th( 0 );
  struct Buf { std::vector< Ev > ev; int id; uint64_t rnd; };
  std::mutex g_mtx;
  std::vector< Buf* > * g_bufs = nullptr;
  int g_delay = -1; long g_bias = 0; bool g_trace = false; uint64_t g_seed = 0;
  struct Init {
    Init() {
      char const * d = getenv( "VH_DELAY" ); g_delay = d ? atoi( d ) : 0;
      char const * s = getenv( "VH_SEED" ); g_seed = s ? strtoull( s, nullptr, 10 ) : 0;
      char const * b = getenv( "VH_BIAS" ); g_bias = b ? atol( b ) : 0;
      g_trace = getenv( "VH_TRACE" ) != nullptr;
      g_bufs = new std::vector< Buf* >();
      if( g_trace ) atexit( &fin );
    }
    static void fin() {
      char const * r = getenv( "VMPI_RANK" );
      FILE * f = fopen( ( std::string( getenv( "VH_TRACE" ) ) + "." + ( r ? r : "0" ) ).c_str(), "wb" );
      if( !f ) return;
      for( Buf * b : *g_bufs ) if( !b->ev.empty() ) fwrite( b->ev.data(), sizeof( Ev ), b->ev.size(), f );
      fclose( f );
    }
  } g_init;
  thread_local Buf * t_buf = nullptr;
  Buf * buf() {
    if( t_buf == nullptr ) {
      t_buf = new Buf(); t_buf->id = g_th.fetch_add( 1, std::memory_order_relaxed );
      char const * r = getenv( "VMPI_RANK" );
      t_buf->rnd = g_seed * 0x9E3779B97F4A7C15ull + ( t_buf->id + 1 ) * 0xD1B54A32D192ED03ull + ( r ? atoi( r ) : 0 ) * 7919ull + 1;
      // delays alone need no registration: the lock would order the threads
      if( g_trace ) { t_buf->ev.reserve( 1 << 14 ); std::lock_guard< std::mutex > l( g_mtx ); g_bufs->push_back( t_buf ); }
    }
    return t_buf;
  }
  uint64_t rnd( Buf * b ) { uint64_t x = b->rnd; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return b->rnd = x; }
}
extern "C" void vh_event( int kind, long tg, long step, long rgn, long first, long size, double time, long n ) {
  if( !g_trace ) return;
  Buf * b = buf();
  Ev e; e.seq = g_seq.fetch_add( 1, std::memory_order_relaxed ); e.kind = kind; e.thread = b->id; e.tg = tg; e.step = step; e.rgn = rgn; e.first = first; e.size = size; e.n = n; e.time = time;
  b->ev.push_back( e );
}
extern "C" void vh_delay() {
  if( g_delay <= 0 ) return;
  Buf * b = buf();
  uint64_t r = rnd( b );
  if( (int) ( r % 100 ) < g_delay ) {
    r >>= 20;
    switch( r % 4 ) {
      case 0: usleep( 0 ); break;
      case 1: { struct timespec t = { 0, (long) ( ( r >> 8 ) % 300000 ) }; nanosleep( &t, nullptr ); break; }
      default: for( volatile int i = 0; i < (int) ( ( r >> 8 ) % 20000 ); i++ ); break;
    }
  }
}
extern "C" void vh_bias( long tg, long step ) {
  if( g_bias <= 0 ) return;
  auto mix = []( uint64_t x ) { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; return x ^ x >> 32; };
  static char const * const rk = getenv( "VMPI_RANK" );
  uint64_t m = mix( ( g_seed + 1 ) * 0x9E3779B97F4A7C15ull ); if( m >> 63 && rk ) m = mix( m + atoi( rk ) * 0xD1B54A32D192ED03ull );
  uint64_t h = mix( ( g_seed + 1 ) * 0x9E3779B97F4A7C15ull ^ ( uint64_t( tg * 8 + step ) + 1 ) * 0xD1B54A32D192ED03ull );
  // a third of all steps, a single step of a single group, or a single group
  switch( ( m >> 40 ) % 3 ) {
    case 0: if( h % 3 ) return; break;
    case 1: if( tg != long( m % 4 ) || step != long( ( m >> 8 ) % 6 ) ) return; break;
    default: if( tg != long( m % 4 ) ) return;
  }
  Buf * b = buf(); uint64_t r = rnd( b );
  if( r % 4 ) { struct timespec t = { 0, (long) ( ( r >> 8 ) % g_bias ) * 1000 }; nanosleep( &t, nullptr ); }
}
