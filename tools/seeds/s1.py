seed('c20-closest-tet', 'C20', 'a point outside of a tetrahedron whose nearest face is not the one hit first and another face follows',
     'the closest point of a tetrahedron is taken from the last face that improves on the first one, not from the closest face',
     [('src/linalg/Geom.hpp', '            if( l_dist < l_distMin ) {\n              l_distMin = l_dist;\n', '            if( l_dist < l_distMin ) {\n              l_distMin = std::min( l_distMin, l_dist + TL_T_REAL( 0.5 ) * l_dist );\n')],
     cpp='''#include "constants.hpp"
#include "linalg/Geom.hpp"
int main() { double v[12] = {0,1,0,0, 0,0,1,0, 0,0,0,1};
  for( int i = 0; i < 4000; i++ ) { double p[3], q[3]; for( int d = 0; d < 3; d++ ) q[d] = p[d] = -2+5.0*(rand()/(double)RAND_MAX);
    edge::linalg::Geom::closestPoint( TET4, v, q ); double w = 0; for( int k = 0; k < 4; k++ ) { double s = 0; for( int d = 0; d < 3; d++ ) s += (p[d]-q[d])*(v[d*4+k]-q[d]); w = std::max(w,s); }
    EXPECT( w < 1e-9, "point %g %g %g: %g", p[0],p[1],p[2],w ); }
  return bad > 0; }
''', c={}, wykobi=True)
seed('c20-tet-weights', 'C20', 'quadrature of tetrahedra with polynomials of higher degree in eta and zeta; the weights still sum up to the volume for symmetric rules',
     'weights of the quadrature rule of tetrahedra use the factor of the wrong collapsed coordinate; polynomials are not integrated exactly',
     [('src/dg/QuadraturePoints.h', '            l_wgts[l_qIn] *= (l_pts1D[l_dim2]-1);\n            l_wgts[l_qIn] *= (l_pts1D[l_dim3]-1);\n            l_wgts[l_qIn] *= (l_pts1D[l_dim3]-1);\n', '            l_wgts[l_qIn] *= (l_pts1D[l_dim3]-1);\n            l_wgts[l_qIn] *= (l_pts1D[l_dim2]-1) * (l_pts1D[l_dim2]-1);\n')],
     cpp='''#include "constants.hpp"
#include "dg/QuadraturePoints.h"
int main() { for( unsigned o = 3; o < 6; o++ ) { std::vector<double> x,y,z,w; edge::dg::QuadraturePoints::getQpts( TET4, o, C_REF_ELEMENT.VE.ENT[TET4], x,y,z,w ); double s = 0, a = 0; for( std::size_t i = 0; i < w.size(); i++ ) { s += w[i]*z[i]*z[i]; a += w[i]*y[i]*z[i]; }
  EXPECT( std::fabs(s-1.0/60) < 1e-10 && std::fabs(a-1.0/120) < 1e-10, "%g %g", s, a ); } return bad > 0; }
''', c={}, wykobi=True, srcs=['/repo/submodules/FastGL/fastgl.cpp'])
seed('c03-stale-shares', 'C03', 'a region is balanced by measured times first and without any measurement afterwards',
     'without measurements a region keeps the shares of the previous balancing instead of being split equally',
     [('src/parallel/LoadBalancing.cpp', '      l_elapsed[l_wo] = 3343;\n      l_wps[l_wo].size = 1;\n', '      l_elapsed[l_wo] = 3343;\n')],
     cpp='''#include <sstream>
#include <unistd.h>
#define private public
#include "parallel/LoadBalancing.h"
#undef private
int main() { edge::parallel::LoadBalancing lb; lb.init( 2 ); lb.regWrkRgn( 0, 10, 1000 ); lb.balance();
  EXPECT( lb.m_wrkRgns[0].wrkPkgs[0].size == 500, "initial split" );
  for( int w = 0; w < 2; w++ ) { lb.startClock( 0, w ); usleep( w ? 100000 : 10000 ); lb.stopClock( 0, w ); }
  lb.balance(); EXPECT( lb.m_wrkRgns[0].wrkPkgs[0].size > 600, "split by throughput" );
  lb.balance(); EXPECT( lb.m_wrkRgns[0].wrkPkgs[0].size == 500, "%ld", (long) lb.m_wrkRgns[0].wrkPkgs[0].size );
  return bad > 0; }
''', c={}, wykobi=True, srcs=['parallel/LoadBalancing.cpp', 'parallel/global.cpp'])
seed('c22-layout-first', 'C22', 'a layout with at least two time groups and send regions of different sizes',
     'send regions of a time group overlap: the first entity of a region is derived from the size of the receive region',
     [('src/data/EntityLayout.cpp', '      l_off += io_enLayout.timeGroups[l_tg].send[l_nr].size;\n', '      l_off += io_enLayout.timeGroups[l_tg].receive[l_nr].size;\n')],
     cpp='''#include "constants.hpp"
#include "data/EntityLayout.h"
int main() { t_enLayout l; l.timeGroups.resize(2); int n = 0; for( int t = 0; t < 2; t++ ) { l.timeGroups[t].inner.size = 3+t; l.timeGroups[t].send.resize(2); l.timeGroups[t].receive.resize(2); for( int r = 0; r < 2; r++ ) { l.timeGroups[t].send[r].size = 2+r+t; l.timeGroups[t].receive[r].size = 1+2*r; n += 2+r+t; } n += 3+t; }
  edge::data::EntityLayout::sizesToLayout( l ); EXPECT( l.nEnts == n, "%ld", (long) l.nEnts ); int f = 7; for( int t = 0; t < 2; t++ ) for( int r = 0; r < 2; r++ ) { EXPECT( l.timeGroups[t].send[r].first == f, "first" ); f += 2+r+t; }
  return bad > 0; }
''', c={}, srcs=['data/EntityLayout.cpp'])
seed('c18-bottom-order', 'C18', 'coarsening with at least two levels and a grid longer in y than the buffers, such that the left and right edges have transition cells in the second ring',
     'transition triangles of the right border use the pattern of the left border from the second coarsening ring on: hanging points',
     [('tools/edge_cut/src/mesh/Extrude.cpp', '      l_nTria += writeTriasCl( (i_nx-1-l_stride-l_buffer)*i_ny + l_vy,\n                               (l_stride/2)*i_ny,\n                               (l_stride/2),\n                               o_tria );', '      std::size_t l_right = (i_nx-1-l_stride-l_buffer)*i_ny + l_vy;\n      if( l_lv == 0 ) l_nTria += writeTriasCl( l_right, (l_stride/2)*i_ny, (l_stride/2), o_tria );\n      else            l_nTria += writeTriasCr( l_right, (l_stride/2)*i_ny, (l_stride/2), o_tria );')],
     cpp='''#include <sstream>
#include <map>
#include "mesh/Extrude.h"
int main() { std::vector<double> g; int n = 25; for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) { g.push_back(i); g.push_back(j); g.push_back(0); }
  edge_cut::mesh::Extrude e( n*n, (double (*)[3]) g.data(), -20, 2 ); std::stringstream s[6]; e.writeOff( s[0],s[1],s[2],s[3],s[4],s[5] );
  std::string l; while( std::getline( s[5], l ) && ( l[0] == '#' || l == "OFF" ) ); std::istringstream h( l ); long np, nt; h >> np >> nt; for( long i = 0; i < np; i++ ) std::getline( s[5], l );
  std::map<std::pair<long,long>,int> ed; for( long t = 0; t < nt; t++ ) { long k, v[3]; s[5] >> k >> v[0] >> v[1] >> v[2]; for( int q = 0; q < 3; q++ ) ed[std::minmax( v[q], v[(q+1)%3] )]++; }
  long once = 0; for( auto & x: ed ) once += x.second == 1; EXPECT( once == 4*6, "%ld border edges", once ); return bad > 0; }
''', tool='edge_cut', srcs=['mesh/Extrude.cpp'], flags="-DPP_EDGE_VERSION='\"v\"'")
