/* Monitor side of EDGE's observation points (see src/monitor/hooks.hpp in /repo). */
#ifndef VERIF_EDGE_HOOKS_HPP_
#define VERIF_EDGE_HOOKS_HPP_
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>

// event kinds: 1 work begins, 2 work ends, 3 simulation begins, 4 simulation ends, 5.. messages (see edge_hooks.cpp)
extern "C" void vh_event( int kind, long tg, long step, long rgn, long first, long size, double time, long n );
extern "C" void vh_delay();
// work of some steps and time groups is slow in a run (VH_BIAS: longest delay [us])
extern "C" void vh_bias( long tg, long step );

#ifdef VH_TSAN
// race detection: delays only, as the monitor's own accesses to shared data would order the threads
#define PP_HOOK_WRK_BEG(tgId,tg,step,rgn,first,size) vh_delay(); vh_bias( (long) (tgId), (long) (step) );
#define PP_HOOK_WRK_END(tgId,tg,step,rgn,first,size) vh_delay();
#define PP_HOOK_SIM_BEG(time,tgs)
#define PP_HOOK_SIM_END(time,tgs)
#else
template< typename TL_TG >
inline void vh_wrk( int kind, long tgId, TL_TG * tg, long step, long rgn, long first, long size ) {
  if( kind == 1 ) { vh_event( 1, tgId, step, rgn, first, size, tg->getCovSimTime(), (long) tg->getUpdatesPer() ); vh_delay(); vh_bias( tgId, step ); }
  else            { vh_delay(); vh_event( 2, tgId, step, rgn, first, size, tg->getCovSimTime(), (long) tg->getUpdatesPer() ); }
}
template< typename TL_TGS >
inline void vh_sim( int kind, double time, TL_TGS & tgs ) {
  for( std::size_t t = 0; t < tgs.size(); t++ )
    vh_event( kind, (long) t, (long) tgs.size(), 0, 0, 0, kind == 3 ? time : tgs[t]->getCovSimTime(), (long) tgs[t]->getUpdatesPer() );
}
#define PP_HOOK_WRK_BEG(tgId,tg,step,rgn,first,size) vh_wrk( 1, (long) (tgId), tg, (long) (step), (long) (rgn), (long) (first), (long) (size) );
#define PP_HOOK_WRK_END(tgId,tg,step,rgn,first,size) vh_wrk( 2, (long) (tgId), tg, (long) (step), (long) (rgn), (long) (first), (long) (size) );
#define PP_HOOK_SIM_BEG(time,tgs) vh_sim( 3, time, tgs );
#define PP_HOOK_SIM_END(time,tgs) vh_sim( 4, time, tgs );
#endif
#include <sched.h>
// idle threads yield: keeps runs with more threads than cores short
#define PP_HOOK_IDLE(work) if( !(work) ) sched_yield();

#ifdef VH_SYNC
// dumps the state: one binary file per rank and synchronization point
template< typename TL_MESH, typename TL_INT >
inline void vh_sync( unsigned step, double time, TL_MESH & mesh, TL_INT & in ) {
  char const * base = getenv( "VH_DUMP" );
  if( base == nullptr ) return;
  char const * only = getenv( "VH_DUMP_STEPS" );
  if( only != nullptr && (long) step < atol( only ) ) return;
  FILE * f = fopen( ( std::string( base ) + "." + std::to_string( edge::parallel::g_rank ) + "." + std::to_string( step ) ).c_str(), "wb" );
  if( f == nullptr ) { fprintf( stderr, "VH: cannot dump\n" ); _Exit( 96 ); }
  const int nVe = C_ENT[T_SDISC.ELEMENT].N_VERTICES;
#if defined PP_N_RELAXATION_MECHANISMS && PP_N_RELAXATION_MECHANISMS > 0
  const int nQa = N_QUANTITIES_A;
#else
  const int nQa = 0;
#endif
  int64_t hd[10] = { (int64_t) mesh.nEls(), N_QUANTITIES, N_ELEMENT_MODES, N_CRUNS, nVe, nQa, (int64_t) T_SDISC.ELEMENT, ORDER,
#ifdef PP_T_EQUATIONS_SWE
   1,
#else
   0,
#endif
   (int64_t) mesh.nFas() };
  fwrite( &time, 8, 1, f );
  fwrite( hd, 8, 10, f );
  for( std::size_t el = 0; el < mesh.nEls(); el++ ) {
    for( int ve = 0; ve < nVe; ve++ ) {
      double c[3]; for( int d = 0; d < 3; d++ ) c[d] = in.m_vertexChars[ in.m_connect.elVe[el][ve] ].coords[d];
      fwrite( c, 8, 3, f );
    }
    double vol = in.m_elementChars[el].volume; fwrite( &vol, 8, 1, f );
    int64_t sp = (int64_t) in.m_elementChars[el].spType; fwrite( &sp, 8, 1, f );
    for( int q = 0; q < N_QUANTITIES; q++ ) for( int m = 0; m < N_ELEMENT_MODES; m++ ) for( int c = 0; c < N_CRUNS; c++ ) {
      double v = in.m_elementModePrivate1[el][q][m][c]; fwrite( &v, 8, 1, f );
    }
#if defined PP_N_RELAXATION_MECHANISMS && PP_N_RELAXATION_MECHANISMS > 0
    {
      // anelastic degrees of freedom
      real_base const * a = (real_base const *) in.m_elementModePrivate2;
      std::size_t n = (std::size_t) N_QUANTITIES_A * N_ELEMENT_MODES * N_CRUNS;
      for( std::size_t i = 0; i < n; i++ ) { double v = a[ el*n + i ]; fwrite( &v, 8, 1, f ); }
    }
#endif
#ifdef PP_T_EQUATIONS_SWE
    double b = in.m_elementModeShared1[el][0][0]; fwrite( &b, 8, 1, f );
#endif
  }
  fclose( f );
}
#define PP_HOOK_SYNC(step,time,mesh,internal) vh_sync( step, time, mesh, internal );
#else
#define PP_HOOK_SYNC(step,time,mesh,internal)
#endif

#endif
