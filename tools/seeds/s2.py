seed('c16-quiet-sweep', 'C16', 'a chain of elements in which a sweep of the normalization lowers a single element only and the next sweep would lower its neighbor',
     'the normalization of time groups stops after a sweep which lowered a single element: neighbors may differ by more than one group',
     [('tools/edge_v/src/time/Groups.cpp', '    if( l_normIt == 0 ) break;\n', '    if( l_normIt < 2 ) break;\n')],
     cpp='''#include <sstream>
#include <limits>
#define private public
#include "time/Groups.h"
#undef private
int main() { std::size_t M = std::numeric_limits< edge_v::t_idx >::max(); const int n = 9; std::vector< edge_v::t_idx > ad; for( int e = 0; e < n; e++ ) { ad.push_back( e ? e-1 : M ); ad.push_back( e+1 < n ? e+1 : M ); }
  for( int k = 0; k < 400; k++ ) { unsigned short tg[n]; for( auto & t: tg ) t = rand() % 6; edge_v::time::Groups::normalizeElTgs( edge_v::LINE, n, ad.data(), tg ); for( int e = 0; e+1 < n; e++ ) EXPECT( std::abs( tg[e]-tg[e+1] ) < 2, "%d %d", tg[e], tg[e+1] ); }
  return bad > 0; }
''', tool='edge_v', srcs=['time/Groups.cpp'], flags='-include limits')
seed('c13-own-delta', 'C13', 'an element with nearly constant solution next to an element with a large range, and a candidate slightly beyond the range of the neighborhood',
     'the tolerance of the discrete maximum principle over faces is derived from the own range of the element, not from that of its neighborhood',
     [('src/sc/Detections.hpp', '''      // reduce over face neighborhood
      for( unsigned short l_fa = 0; l_fa < TL_N_FAS; l_fa++ ) {
''', '''      // range of the solution
      TL_T_REAL l_range[TL_N_QTS][TL_N_CRS];
      for( unsigned short l_qt = 0; l_qt < TL_N_QTS; l_qt++ )
        for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ )
          l_range[l_qt][l_cr] = (TL_T_REAL) m_eps * ( l_extCurRed[1][l_qt][l_cr] - l_extCurRed[0][l_qt][l_cr] );

      // reduce over face neighborhood
      for( unsigned short l_fa = 0; l_fa < TL_N_FAS; l_fa++ ) {
'''), ('src/sc/Detections.hpp', '''          l_delta[l_qt][l_cr] = (TL_T_REAL) m_eps * ( l_extCurRed[1][l_qt][l_cr] - l_extCurRed[0][l_qt][l_cr] );
          l_delta[l_qt][l_cr] = std::max( (TL_T_REAL) m_eps0, l_delta[l_qt][l_cr] );
        }
      }

      // check discrete maximum principle
      for( unsigned short l_qt = 0; l_qt < TL_N_QTS; l_qt++ ) {
        for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
          if( l_extCurRed[0][l_qt][l_cr] - l_delta[l_qt][l_cr] > i_extCan[0][l_qt][l_cr] ||
              i_extCan[1][l_qt][l_cr]                          > l_extCurRed[1][l_qt][l_cr] + l_delta[l_qt][l_cr] ) {
            o_adm[l_cr] = false;
          }
        }
      }
    }
''', '''          l_delta[l_qt][l_cr] = std::max( (TL_T_REAL) m_eps0, l_range[l_qt][l_cr] );
        }
      }

      // check discrete maximum principle
      for( unsigned short l_qt = 0; l_qt < TL_N_QTS; l_qt++ ) {
        for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) {
          if( l_extCurRed[0][l_qt][l_cr] - l_delta[l_qt][l_cr] > i_extCan[0][l_qt][l_cr] ||
              i_extCan[1][l_qt][l_cr]                          > l_extCurRed[1][l_qt][l_cr] + l_delta[l_qt][l_cr] ) {
            o_adm[l_cr] = false;
          }
        }
      }
    }
''')],
     cpp='''#include "constants.hpp"
#include "sc/Detections.hpp"
int main() { double cur[2][1][1] = {{{1}},{{1}}}, ad[1][2][1][1] = {{{{-100}},{{100}}}}; int fa[3] = {0, std::numeric_limits<int>::max(), std::numeric_limits<int>::max()}; bool a[1];
  for( int k = 0; k < 2; k++ ) { double can[2][1][1] = {{{1}},{{ k ? 100.3 : 100.1 }}}; edge::sc::Detections<TRIA3,1,1>::dmpFa( cur, ad, can, fa, a ); EXPECT( a[0] == ( k == 0 ), "%d", k ); }
  return bad > 0; }
''', c={'el': 'tria3'})
seed('c09-else-max', 'C09', 'a mesh whose elements are sorted by descending time step, such that the largest time step is that of the first element',
     'the reported maximum time step ignores elements which lower the minimum',
     [('src/impl/swe/solvers/FiniteVolume.hpp', '        o_minDt  = std::min( o_minDt, l_cDt );\n        o_aveDt += l_cDt;\n        o_maxDt  = std::max( o_maxDt, l_cDt );\n', '        o_aveDt += l_cDt;\n        if( l_cDt < o_minDt ) o_minDt = l_cDt;\n        else                  o_maxDt = std::max( o_maxDt, l_cDt );\n')],
     cpp='''#include "constants.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
struct Ch { double inDia; };
int main() { for( int o = 0; o < 2; o++ ) { Ch c[4]; double q[4][3][1][1]; for( int e = 0; e < 4; e++ ) { c[e].inDia = o ? 4-e : 1+e; q[e][0][0][0] = 1; q[e][1][0][0] = q[e][2][0][0] = 0; }
    double a, b, d; edge::swe::solvers::FiniteVolume< TRIA3, 1 >::getTimeStepStatistics( 4, c, q, a, b, d ); EXPECT( d > 3.9*a && d < 4.1*a, "%g %g %g", a, b, d ); }
  return bad > 0; }
''', c={'eq': 'swe', 'el': 'tria3', 'order': 1})
seed('c24-csc-size', 'C24', 'a sub-matrix in coordinate format which does not cover all non-zeros',
     'the last column pointer of a sub-matrix in CSC format counts the non-zeros of the entire matrix',
     [('src/linalg/Matrix.h', '      // set number of non-zeros as last entry\n      o_csc.colPtr[i_subMatCols] = l_nnz;\n', '      // set number of non-zeros as last entry\n      o_csc.colPtr[i_subMatCols] = i_coord.nz.size();\n')],
     cpp='''#include "constants.hpp"
#include "linalg/Matrix.h"
int main() { real_base m[12] = {1,0,2, 0,3,0, 4,0,0, 0,5,6}; t_matCrd c; edge::linalg::Matrix::denseToCrd<real_base>( 4, 3, m, c ); for( unsigned r = 1; r < 5; r++ ) for( unsigned k = 1; k < 4; k++ ) { t_matCsc s; edge::linalg::Matrix::crdToCsc( r, k, c, s ); EXPECT( s.colPtr[k] == s.val.size(), "%u x %u", r, k ); }
  return bad > 0; }
''', c={})
seed('c10-dip-slip', 'C10', 'a sub-face in three dimensions which slips along strike and along dip in different time steps',
     'the friction coefficient of faults in three dimensions weakens with the larger of the two slip components, not with the total slip',
     [('src/impl/seismic/solvers/FrictionLaws.hpp', '        TL_T_REAL l_ddA = std::sqrt( io_dd[0][l_ru] * io_dd[0][l_ru] + io_dd[1][l_ru] * io_dd[1][l_ru] );\n', '        TL_T_REAL l_ddA = std::max( io_dd[0][l_ru], io_dd[1][l_ru] );\n')],
     cpp='''#define private public
#include "constants.hpp"
#include "impl/seismic/solvers/FrictionLaws.hpp"
#undef private
int main() { double mus[1] = {0.7}, mud[1] = {0.2}, dc[1] = {0.5}, sn[1] = {-10}, co[1] = {0}, ss[2][1] = {{9},{7}}, ssA[1] = {std::sqrt(130.0)}, ms[9][1] = {}, dd[2][1] = {{0.3},{0.4}}, mu[1] = {0.6}, st[1], sr[2][1], tr[2][1], a[9][1], b[9][1]; bool per[1];
  edge::seismic::solvers::FrictionLaws<3,1>::linSlipWeak<double>( 0.0, 0.01, 0.01, mus, mud, dc, sn, co, ss, ssA, ms, dd, mu, st, sr, tr, a, b, per );
  EXPECT( std::fabs( mu[0] - (0.7-0.5*0.5*0.5) ) < 1e-12, "%g", mu[0] ); return bad > 0; }
''', c={'el': 'tet4'})
seed('c12-fused-ghost', 'C12', 'fused runs with different numbers of point sources in the last source element',
     'the end of the point sources of the last source element is taken from the first of the fused runs',
     [('src/impl/seismic/setups/PointSources.hpp', 'o_elSpPs[l_nElSrc][l_cr] = l_ptSrc[l_cr];', 'o_elSpPs[l_nElSrc][l_cr] = l_ptSrc[0];')],
     cpp='''#include <sstream>
#define private public
#include "constants.hpp"
#include "impl/seismic/setups/PointSources.hpp"
#undef private
int main() { struct { long long spType; } ch[5] = {{0},{4},{0},{4},{0}}; std::vector<int> el[2] = { {1,3}, {3,3,3} }; edge::data::Dynamic mem; int (*p)[2] = nullptr;
  edge::seismic::setups::PointSources<double,int,TRIA3,2,2>::elSpPs( 5, (long long) 4, ch, el, mem, p ); int e[3][2] = {{0,0},{1,0},{2,3}}; for( int i = 0; i < 3; i++ ) for( int c = 0; c < 2; c++ ) EXPECT( p[i][c] == e[i][c], "%d %d: %d", i, c, p[i][c] ); return bad > 0; }
''', c={'el': 'tria3', 'cfr': 2}, wykobi=True, libs='-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5', srcs=['data/Dynamic.cpp', 'parallel/global.cpp'])
seed('c23-first-domain', 'C23', 'an entity in the intersection of two domains with different sparse types',
     'only the sparse type of the first domain, which contains an entity, is set',
     [('src/mesh/SparseTypes.hpp', '            io_enChars[l_en].spType |= i_spTypes[l_do];\n', '            io_enChars[l_en].spType |= i_spTypes[l_do];\n            break;\n')],
     cpp='''#include "constants.hpp"
#include "mesh/SparseTypes.hpp"
struct V { double coords[3]; }; struct C { long spType; }; struct D { double a, b; bool inside( double const (&x)[3] ) const { return x[0] >= a && x[0] <= b; } };
int main() { V v[4] = {{{0,0,0}},{{1,0,0}},{{2,0,0}},{{3,0,0}}}; int ev[3][2] = {{0,1},{1,2},{2,3}}; C c[3] = {}; long t[2] = {1L<<20,1L<<21}; std::vector<D> d = {{0,2},{1,3}}; edge::mesh::SparseTypes<LINE>::set( 3, ev, t, d, v, c ); EXPECT( c[0].spType == t[0] && c[1].spType == (t[0]|t[1]) && c[2].spType == t[1], "types" ); return bad > 0; }
''', c={'el': 'line', 'eq': 'advection'})
seed('c11-shared-element', 'C11', 'two or more receivers in one element and more than one sample',
     'the sampling time of further receivers of an element is derived from that of the first one, which was advanced already',
     [('src/io/Receivers.cpp', '      m_recvs[l_re].time += m_freq;\n', '      m_recvs[l_re].time = m_recvs[l_first].time + m_freq;\n')],
     cpp='''#include <sstream>
#define protected public
#include "constants.hpp"
#include "io/Receivers.h"
#undef protected
#define D(N) extern double const * N##Raw; double const * N##Raw = nullptr; extern std::size_t const N##Size; std::size_t const N##Size = 0;
namespace edge { namespace pre { namespace dg { D(g_mass) D(g_stiffV) D(g_stiffT) D(g_fluxL) D(g_fluxN) D(g_fluxT) } } }
int main() { edge::io::Receivers r; std::size_t in[1] = {1}, se[1] = {0}, ev[1][3] = {{0,1,2}}; t_vertexChars v[3]; double x[3][3] = {{0,0,0},{1,0,0},{0,1,0}}; for( int i = 0; i < 3; i++ ) for( int d = 0; d < 3; d++ ) v[i].coords[d] = x[i][d];
  std::string n[2] = {"a","b"}; double c[2][3] = {{0.2,0.2,0},{0.5,0.3,0}}; r.init( TRIA3, 1, in, se, 2, ".", n, c, 0.5, ev[0], v, 100, 0 );
  real_base q[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] = {}; for( int k = 0; k < 3; k++ ) r.writeRecvAll( 0, q ); for( auto & m: r.m_recvs ) for( int k = 0; k < 3; k++ ) EXPECT( std::fabs( m.buffTime[k] - 0.5*k ) < 1e-9, "sample %d at %g", k, (double) m.buffTime[k] );
  EXPECT( r.m_recvs.size() == 2, "receivers" ); return bad > 0; }
''', c={'el': 'tria3'}, wykobi=True, srcs=['io/Receivers.cpp', 'parallel/global.cpp', 'parallel/Distributed.cpp', 'data/Dynamic.cpp', 'dg/Basis.cpp', '/repo/submodules/FastGL/fastgl.cpp'], flags="-DPP_EDGE_VERSION='\"v\"'")
seed('c24-received-anelastic', 'C24', 'a viscoelastic simulation in which the data of an adjacent element was multiplied with the face integration matrix before (message passing)',
     'the anelastic part of the neighboring contribution ignores the pre-computed data of the adjacent element and uses old scratch memory',
     [('src/impl/seismic/kernels/SurfIntVanilla.hpp', '''        m_mm.m_kernels[1][0]( i_fsA,
                              l_tDofsFiE,
''', '''        m_mm.m_kernels[1][0]( i_fsA,
                              o_scratch[0][0][0],
''')],
     cpp='''#include "constants.hpp"
#include "impl/seismic/kernels/SurfIntVanilla.hpp"
#define D(N,S) static double N##D[S]; double const * N##Raw = N##D; extern std::size_t const N##Size; std::size_t const N##Size = S;
namespace edge { namespace pre { namespace dg { D(g_mass,36) D(g_stiffV,72) D(g_stiffT,72) D(g_fluxL,54) D(g_fluxN,54) D(g_fluxT,54) } } }
static real_base rnd() { return rand() / (real_base) RAND_MAX - 0.5; }
int main() { for( int i = 0; i < 6; i++ ) edge::pre::dg::g_massD[i*7] = 1; for( int i = 0; i < 54; i++ ) { edge::pre::dg::g_fluxLD[i] = rnd(); edge::pre::dg::g_fluxND[i] = rnd(); edge::pre::dg::g_fluxTD[i] = rnd(); } edge::data::Dynamic dy; real_base fr[3] = {1,2,3}; edge::seismic::kernels::SurfIntVanilla< real_base, 3, TRIA3, 3, 1 > s( fr, dy );
  static real_base e[25], a[15], t[5][6][1], fi[5][3][1], q[2][5][6][1], w[2][3][6][1], sc[2][5][3][1]; for( auto & x: e ) x = rnd(); for( auto & x: a ) x = rnd(); for( auto & x: t ) for( auto & y: x ) y[0] = rnd();
  for( unsigned short k = 0; k < 2; k++ ) { if( k ) s.neighFluxInt( 1, 0, 2, t, fi ); for( auto & x: sc ) for( auto & y: x ) for( auto & z: y ) z[0] = rnd(); s.neigh( 1, 0, 2, e, a, t, k ? fi : nullptr, q[k], w[k], sc ); }
  for( int i = 0; i < 3; i++ ) for( int m = 0; m < 6; m++ ) EXPECT( std::fabs( w[0][i][m][0] - w[1][i][m][0] ) < 1e-12, "%g %g", (double) w[0][i][m][0], (double) w[1][i][m][0] );
  for( int i = 0; i < 5; i++ ) for( int m = 0; m < 6; m++ ) EXPECT( std::fabs( q[0][i][m][0] - q[1][i][m][0] ) < 1e-12, "elastic" ); return bad > 0; }
''', c={'el': 'tria3', 'eq': 'viscoelastic3', 'order': 3}, wykobi=True, srcs=['data/Dynamic.cpp', 'parallel/Distributed.cpp', 'parallel/global.cpp', '/repo/submodules/FastGL/fastgl.cpp', 'dg/Basis.cpp'])
seed('c15-once-per-element', 'C15', 'an element with two faces at elements of the same adjacent partition and time group',
     'only the first of multiple faces of an element, which belong to the same message, is part of the send and receive lists',
     [('tools/edge_v/src/mesh/Communication.cpp', '''        if( l_paAd != l_paReg ) {
          l_insert( l_el,
''', '''        bool l_new = true;
        for( t_idx l_se = 0; l_se < o_send.size(); l_se++ )
          if( o_send[l_se].pa == l_paAd && o_send[l_se].tg == l_tgAd && o_send[l_se].el.size() > 1 )
            l_new = l_new && o_send[l_se].el.back() != l_el;

        if( l_paAd != l_paReg && l_new ) {
          l_insert( l_el,
''')],
     cpp='''#define private public
#include <sstream>
#include "mesh/Communication.h"
#undef private
int main() { edge_v::t_idx M = std::numeric_limits< edge_v::t_idx >::max(); // three quads in a column and four around: element 1 of partition 0 touches 3 and 4 of partition 1
  edge_v::t_idx ad[6*4] = { 3,M,1,M,  0,4,2,5,  1,M,M,M,  0,M,M,M,  1,M,M,M,  1,M,M,M }; unsigned short tg[6] = {}; edge_v::t_idx n[2] = {3,3};
  edge_v::mesh::Communication c( 1, edge_v::QUAD4R, 6, ad, 2, n, tg ); EXPECT( c.m_sendRecvOff[1] == 3 && c.m_sendRecvOff[2] == 6, "%d %d", (int) c.m_sendRecvOff[1], (int) c.m_sendRecvOff[2] ); return bad > 0; }
''', tool='edge_v', srcs=['mesh/Communication.cpp'], flags='-include limits')
