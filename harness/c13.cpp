// C13: sub-cell operators, admissibility, steering, initialization and the sub-cell solver (element and order of the configuration)
#include "vh.hpp"
#include <array>
#include <memory>
#include <limits>
#include <numeric>
#include <io/logging.h>
#include "constants.hpp"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#include "data/MmVanilla.hpp"
#include "data/EntityLayout.type"
#include "sc/Kernels.hpp"
#include "sc/Detections.hpp"
#include "sc/Steering.hpp"
#include "sc/SubGrid.hpp"
#include "sc/SubCell.type"
#include "sc/Init.hpp"
#include "sc/Memory.hpp"
#include "sc/ibnd/SuperCell.hpp"
#include "sc/ibnd/Init.hpp"
#include "sc/ibnd/Memory.hpp"
#include "impl/seismic/sc/Boundary.hpp"
#include "impl/seismic/sc/Llf.hpp"
#include "elastic.hpp"
static t_entityType const T = T_SDISC.ELEMENT; static t_entityType const FT = C_ENT[T].TYPE_FACES; typedef edge::dg::Basis B;
enum { ND = C_ENT[T].N_DIM, NM = CE_N_ELEMENT_MODES(T,ORDER), NF = C_ENT[T].N_FACES, NV = C_ENT[T].N_VERTICES, NFV = C_ENT[T].N_FACE_VERTICES, NSC = CE_N_SUB_CELLS(T,ORDER), NSF = CE_N_SUB_FACES(T,ORDER), NSV = CE_N_SUB_VERTICES(T,ORDER), NFSV = CE_N_SUB_VERTICES(FT,ORDER), NT = NSC+NF*NSF, Q = ND==2?5:9, S = ND==2?3:6, OR = ND==3?NFV:1 };
typedef unsigned short us; static us const UM = 65535;
static edge::sc::t_connect<int_el,T,ORDER> co; static edge::sc::t_svChars<double,T> sv[NSV]; static edge::sc::t_ops<double,T,ORDER> op;
template<class X> static void rnd( Rng & r, X * x, std::size_t k, double s=1 ) { for( std::size_t i = 0; i < k; i++ ) x[i] = r.r(-s,s); }
static double avg[NM][NSC]; // averages of the basis functions
static void average( us sc, double * a ) {
  double c[3*NV] = {}; for( int d = 0; d < ND; d++ ) for( int v = 0; v < NV; v++ ) c[d*NV+v] = sv[co.scSv[sc][v]].coords[d];
  if( T == QUAD4R || T == HEX8R ) { // box: tensor order of the vertices is not needed
    double lo[3], hi[3]; for( int d = 0; d < ND; d++ ) { lo[d] = 1e9; hi[d] = -1e9; for( int v = 0; v < NV; v++ ) { lo[d] = std::min(lo[d],c[d*NV+v]); hi[d] = std::max(hi[d],c[d*NV+v]); } }
    for( int d = 0; d < ND; d++ ) for( int v = 0; v < NV; v++ ) c[d*NV+v] = C_REF_ELEMENT.VE.ENT[T][d*NV+v] > 0.5 ? hi[d] : lo[d]; }
  std::vector<double> x,y,z,w; edge::dg::QuadraturePoints::getQpts( T, (unsigned) ORDER+1, c, x,y,z,w ); double t = 0;
  for( int m = 0; m < NM; m++ ) a[m] = 0; for( std::size_t q = 0; q < w.size(); q++ ) { t += w[q]; for( int m = 0; m < NM; m++ ) a[m] += w[q]*B::evalBasis( m, T, x[q], ND>1?y[q]:0., ND>2?z[q]:0., -1, ORDER ); }
  for( int m = 0; m < NM; m++ ) a[m] /= t; }
static std::vector<us> common( us a, us b ) { std::vector<us> o; for( int i = 0; i < NV; i++ ) { us v = co.scSv[a][i]; if( v == UM ) continue; for( int j = 0; j < NV; j++ ) if( co.scSv[b][j] == v ) { o.push_back(v); break; } } return o; }
static void grid() {
  typedef edge::sc::Init<T,ORDER,Q,1> In; In::connect( co ); In::svChars( sv ); In::ops( op );
  for( int sc = 0; sc < NSC; sc++ ) { double a[NM]; average( sc, a ); for( int m = 0; m < NM; m++ ) avg[m][sc] = a[m]; }
  double const E = sizeof(real_base)==4 ? 1e-5 : 1e-10; // precision of the basis
  for( int m = 0; m < NM; m++ ) for( int sc = 0; sc < NSC; sc++ ) check( near( op.scatter[m][sc], avg[m][sc], E, 1 ), "scatter", "element %d order %d: average of mode %d on sub-cell %d is %g, expected %g", T, ORDER, m, sc, op.scatter[m][sc], avg[m][sc] );
  for( int f = 0; f < NF; f++ ) for( int s = 0; s < NSF; s++ ) { us sc = co.faSfSc[f][s]; check( sc < NSC && sc == co.scSfSc[NSC+f*NSF+s][0], "face-sub-cell", "face %d sub-face %d: sub-cell %d", f, s, sc ); if( sc >= NSC ) continue; bool b = false; for( int k = 0; k < NF; k++ ) b = b || co.scSfSc[sc][k] == NSC+f*NSF+s; check( b, "face-sub-cell-back", "face %d sub-face %d: sub-cell %d does not know its receive sub-cell", f, s, sc );
    for( int m = 0; m < NM; m++ ) { check( near( op.scatterSurf[f][m][s], avg[m][sc], E, 1 ), "scatter-surface", "face %d sub-face %d mode %d: %g, expected %g", f, s, m, op.scatterSurf[f][m][s], avg[m][sc] );
      for( int o = 0; o < OR; o++ ) { us sn = co.faSfSc[f][co.scDgAd[o][s]]; check( near( op.scatterSurf[NF+o*NF+f][m][s], avg[m][sn], E, 1 ), "scatter-neighbor", "neighboring face %d, orientation %d, sub-face %d mode %d: %g, expected %g", f, o, s, m, op.scatterSurf[NF+o*NF+f][m][s], avg[m][sn] ); } } }
  for( int i = 0; i < NM; i++ ) { for( int j = 0; j < NM; j++ ) { double g = 0; for( int sc = 0; sc < NSC; sc++ ) g += op.scatter[i][sc]*op.gather[sc][j]; check( near( g, i==j, 1e-8, 1 ), "gather", "mode %d of mode %d after scatter and gather is %g", j, i, g ); } }
  for( int sc = 0; sc < NSC; sc++ ) check( near( op.gather[sc][0], 1./NSC, 1e-8, 1 ), "gather-mean", "sub-cell %d contributes %g to the average", sc, op.gather[sc][0] );
  for( int a = 0; a < NSC; a++ ) for( int k = 0; k < NF; k++ ) { us b = co.scSfSc[a][k]; check( b < NT && (int) common(a,b).size() == NFV, "sub-cell-neighbors", "sub-cells %d and %d share %d vertices", a, b, (int) common(a,b).size() ); if( b < NSC ) { bool k2 = false; for( int j = 0; j < NF; j++ ) k2 = k2 || co.scSfSc[b][j] == a; check( k2, "sub-cell-symmetry", "sub-cell %d is neighbor of %d, but not the other way round", b, a ); } }
  stat("eval_grid"); sig( fmt("grid %d %d", T, ORDER ) ); }
static us perm( Rng & r, us (*o)[NSF] ) { for( int k = 0; k < NFV; k++ ) { std::vector<us> p( NSF ); std::iota( p.begin(), p.end(), 0 ); r.shuffle( p ); for( int s = 0; s < NSF; s++ ) o[k][s] = p[s]; } return 0; }
template<class X, int C> static void kernels( Rng & r ) {
  typedef edge::sc::Kernels<T,ORDER,Q,C> K; double const eps = sizeof(X)==4 ? 3e-5 : 1e-12; edge::data::MmVanilla<X> mm; us g = static_cast<us>( t_mm::SUB_CELL ); X one = 1, zero = 0;
  mm.add( g, Q, NSC, NM, NM, NSC, NSC, one, zero, true, false, C ); mm.add( g, Q, NSF, NM, NM, NSF, NSF, one, zero, true, false, C ); mm.add( g, Q, NM, NSC, NSC, NM, NM, one, zero, true, false, C ); mm.add( g, Q, NM, NSF, NSF, NM, NM, one, zero, true, false, C );
  struct W { X dg[Q][NM][C], sc[NM][NSC], sf[NM][NSF], ga[NSC][NM], si[NSF][NM], st[Q][NSC][C], stF[Q][NSF][C], o[Q][NSC][C], oF[Q][NSF][C], oD[Q][NM][C], mi[Q][C], ma[Q][C], su[NF][Q][NSF][C], s0[NF][Q][NSF][C]; }; std::unique_ptr<W> w( new W ); for( std::size_t i = 0; i < sizeof(W)/sizeof(X); i++ ) ((X*) w.get())[i] = NAN;
  rnd( r, &w->dg[0][0][0], Q*NM*C ); rnd( r, &w->sc[0][0], NM*NSC ); rnd( r, &w->sf[0][0], NM*NSF ); rnd( r, &w->ga[0][0], NSC*NM ); rnd( r, &w->si[0][0], NSF*NM ); rnd( r, &w->st[0][0][0], Q*NSC*C ); rnd( r, &w->stF[0][0][0], Q*NSF*C );
  bool adm[C]; for( auto & a: adm ) a = r.p(0.5); int mode = r.i(0,1);
  auto sca = [&]( int q, int s, int c ) { double e = 0; for( int m = 0; m < NM; m++ ) e += double(w->dg[q][m][c])*w->sc[m][s]; return e; }; auto scf = [&]( int q, int s, int c ) { double e = 0; for( int m = 0; m < NM; m++ ) e += double(w->dg[q][m][c])*w->sf[m][s]; return e; };
  if( mode ) K::scatter( mm, w->dg, w->sc, w->o ); else K::scatterReplace( mm, w->dg, w->sc, w->st, adm, w->o );
  for( int q = 0; q < Q; q++ ) for( int s = 0; s < NSC; s++ ) for( int c = 0; c < C; c++ ) { bool st = !mode && !adm[c]; double e = st ? w->st[q][s][c] : sca(q,s,c); check( st ? w->o[q][s][c] == w->st[q][s][c] : near( w->o[q][s][c], e, eps, NM ), mode ? "kernel-scatter" : st ? "kernel-keep" : "kernel-scatter-replace", "quantity %d sub-cell %d run %d (admissible %d): %g, expected %g", q, s, c, (int) adm[c], (double) w->o[q][s][c], e ); }
  int fm = r.i(0,2); if( fm == 0 ) K::scatterFa( mm, w->dg, w->sf, w->oF ); else K::scatterReplaceFa( mm, w->dg, w->sf, fm == 1 ? w->stF : nullptr, fm == 1 ? adm : nullptr, w->oF );
  for( int q = 0; q < Q; q++ ) for( int s = 0; s < NSF; s++ ) for( int c = 0; c < C; c++ ) { bool st = fm == 1 && !adm[c]; double e = st ? w->stF[q][s][c] : scf(q,s,c); check( st ? w->oF[q][s][c] == w->stF[q][s][c] : near( w->oF[q][s][c], e, eps, NM ), st ? "kernel-keep-face" : "kernel-scatter-face", "quantity %d sub-face %d run %d: %g, expected %g", q, s, c, (double) w->oF[q][s][c], e ); }
  K::gather( mm, w->st, w->ga, w->oD ); for( int q = 0; q < Q; q++ ) for( int m = 0; m < NM; m++ ) for( int c = 0; c < C; c++ ) { double e = 0; for( int s = 0; s < NSC; s++ ) e += double(w->st[q][s][c])*w->ga[s][m]; check( near( w->oD[q][m][c], e, eps, NSC ), "kernel-gather", "quantity %d mode %d run %d: %g, expected %g", q, m, c, (double) w->oD[q][m][c], e ); }
  K::sfInt( mm, w->stF, w->si, w->oD ); for( int q = 0; q < Q; q++ ) for( int m = 0; m < NM; m++ ) for( int c = 0; c < C; c++ ) { double e = 0; for( int s = 0; s < NSF; s++ ) e += double(w->stF[q][s][c])*w->si[s][m]; check( near( w->oD[q][m][c], e, eps, NSF ), "kernel-surface-integral", "quantity %d mode %d run %d: %g, expected %g", q, m, c, (double) w->oD[q][m][c], e ); }
  // extrema
  { X shift = r.r(-3,3); for( int q = 0; q < Q; q++ ) for( int s = 0; s < NSC; s++ ) for( int c = 0; c < C; c++ ) w->st[q][s][c] += shift; } // also ranges of a single sign
  K::scExtrema( w->st, w->mi, w->ma ); for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { X a = w->st[q][0][c], b = a; for( int s = 1; s < NSC; s++ ) { a = std::min( a, w->st[q][s][c] ); b = std::max( b, w->st[q][s][c] ); } check( w->mi[q][c] == a && w->ma[q][c] == b, "extrema", "quantity %d run %d: %g %g, expected %g %g", q, c, (double) w->mi[q][c], (double) w->ma[q][c], (double) a, (double) b ); }
  { X shift = r.r(-9,9); for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) w->dg[q][0][c] += shift; for( int s = 0; s < NSC; s++ ) w->sc[0][s] = r.p(0.9) ? 1 : 0; }
  K::dgExtrema( mm, w->dg, w->sc, w->o, w->mi, w->ma ); for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { double a = 1e30, b = -1e30; for( int s = 0; s < NSC; s++ ) { double e = sca(q,s,c); a = std::min(a,e); b = std::max(b,e); check( near( w->o[q][s][c], e, eps, NM+9 ), "kernel-extrema-sub-cells", "quantity %d sub-cell %d", q, s ); } check( near( w->mi[q][c], a, eps, NM+9 ) && near( w->ma[q][c], b, eps, NM+9 ), "extrema-dg", "quantity %d run %d: %g %g, expected %g %g", q, c, (double) w->mi[q][c], (double) w->ma[q][c], a, b ); }
  // sub-cells at the faces in the order of the neighbors
  { us fs[NF][NSF], ad[NFV][NSF], vi[NF]; for( auto & x: fs ) for( auto & y: x ) y = r.i(0,NSC-1); perm( r, ad ); rnd( r, &w->su[0][0][0][0], NF*Q*NSF*C ); memcpy( w->s0, w->su, sizeof w->su ); X (*p[NF])[Q][NSF][C]; for( int f = 0; f < NF; f++ ) { vi[f] = r.i(0,NFV-1); p[f] = r.p(0.3) ? nullptr : &w->su[f]; if( !p[f] && r.p(0.5) ) vi[f] = UM; }
    K::gatherSurfDofs( w->st, fs, ad, vi, p, adm ); for( int f = 0; f < NF; f++ ) for( int q = 0; q < Q; q++ ) for( int s = 0; s < NSF; s++ ) for( int c = 0; c < C; c++ ) { X e = p[f] && !adm[c] ? w->st[q][fs[f][ad[vi[f]][s]]][c] : w->s0[f][q][s][c]; check( w->su[f][q][s][c] == e, "gather-surface", "face %d (%s) quantity %d sub-face %d run %d admissible %d: %g, expected %g", f, p[f] ? "used" : "unused", q, s, c, (int) adm[c], (double) w->su[f][q][s][c], (double) e ); } }
  stat("eval_kernels", 8); sig( fmt("k %d %d %d %d %d", (int) sizeof(X), C, mode, fm, adm[0] ) ); }
template<class X, int C> static void dmp( Rng & r ) {
  typedef edge::sc::Detections<T,Q,C> D; int n = r.i(1,12); typedef std::array< std::array< std::array<X,C>, Q >, 2 > Ex; std::vector<Ex> ad( n ); Ex cur, can; double off = r.r(-2,2), wd = std::pow( 10., r.r(-3,0.5) );
  for( int k = 0; k <= n; k++ ) { Ex & e = k < n ? ad[k] : cur; for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { X a = off+r.r(-wd,wd), b = off+r.r(-wd,wd); e[0][q][c] = std::min(a,b); e[1][q][c] = std::max(a,b); } }
  bool fa = r.p(0.5); std::vector<int_el> ne( fa ? int(NF) : (int) r.i(0,8) ); for( auto & x: ne ) x = fa && r.p(0.3) ? std::numeric_limits<int_el>::max() : r.i(0,n-1);
  bool e[C], o[C]; for( auto & x: e ) x = true; for( auto & x: o ) x = r.p(0.5); int bq = r.i(-1,Q-1), bc = r.i(0,C-1); bool multi = r.p(0.3);
  for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { double a = cur[0][q][c], b = cur[1][q][c]; for( auto x: ne ) if( x != std::numeric_limits<int_el>::max() ) { a = std::min<double>( a, ad[x][0][q][c] ); b = std::max<double>( b, ad[x][1][q][c] ); }
    double de = std::max( 1e-4, 1e-3*(b-a) ), lo = a-de*r.r(-1,0.93), hi = b+de*r.r(-1,0.93); if( lo > hi ) std::swap( lo, hi ); if( r.p(0.3) ) { lo = a-0.93*de; hi = b+0.93*de; }
    if( q == bq && ( c == bc || multi ) ) { e[c] = false; double x = de*( r.p(0.5) ? r.r(1.07,1.3) : r.r(2,5000) ); int k = r.i(0,2); if( k != 1 ) lo = a-x; if( k != 0 ) hi = b+x; } can[0][q][c] = lo; can[1][q][c] = hi; }
  auto C1 = (X const (*)[Q][C]) &cur; auto C2 = (X const (*)[2][Q][C]) ad.data(); auto C3 = (X const (*)[Q][C]) &can;
  if( fa ) D::dmpFa( C1, C2, C3, ne.data(), o ); else D::dmpVe( C1, C2, C3, (us) ne.size(), ne.data(), o );
  for( int c = 0; c < C; c++ ) check( o[c] == e[c], fa ? "maximum-principle-face" : "maximum-principle-vertex", "run %d of %d: admissible %d, expected %d (quantity %d out of bounds in run %d)", c, C, (int) o[c], (int) e[c], bq, bc ); stat("eval_dmp"); sig( fmt("dmp %d %d %d %d %d %d", (int) sizeof(X), C, (int) fa, (int) ne.size(), bq, (int) (std::log(wd)*2) ) ); }
static void steering( Rng & r ) {
  typedef edge::sc::Steering St_; long n = r.i(0,9); us a[4], b[4], x[2], y[2], z[2], a0[4], x0[2];
  St_::getAdmIds( n, a ); St_::getAdmIds( n+1, b ); check( b[0] == a[2] && b[1] == a[3] && std::set<us>( a, a+4 ).size() == 4 && *std::max_element( a, a+4 ) == 3, "admissibility-ids", "step %ld: %d %d %d %d, next %d %d", n, a[0],a[1],a[2],a[3], b[0], b[1] );
  St_::getExtIds( n, x ); St_::getExtIds( n+1, y ); check( y[0] == x[1] && x[0]+x[1] == 1, "extrema-ids", "step %ld: %d %d, next %d", n, x[0], x[1], y[0] ); St_::getDofsIds( n, z ); check( z[0] == x[0] && z[1] == x[1], "dofs-ids", "step %ld: %d %d", n, z[0], z[1] ); St_::getAdmIds( 0, a0 ); St_::getExtIds( 0, x0 );
  bool d[4][3]; bool (*p[4])[3] = { &d[0], &d[1], &d[2], &d[3] }, (*p0[4])[3]; memcpy( p0, p, sizeof p ); St_::resetAdm( n, p ); for( int k = 0; k < 4; k++ ) check( p[a0[k]] == p0[a[k]], "reset-admissibility", "after %ld steps: entry %d", n, k );
  double e[2][2][Q][3]; double (*q[2])[2][Q][3] = { &e[0], &e[1] }, (*q0[2])[2][Q][3]; memcpy( q0, q, sizeof q ); St_::resetExt( n, q ); for( int k = 0; k < 2; k++ ) check( q[x0[k]] == q0[x[k]], "reset-extrema", "after %ld steps: entry %d", n, k );
  typedef double (*Fp)[Q][NSF][3]; std::vector< std::array<Fp,NF> > f( 2 ); Fp (*s[2])[NF] = { (Fp (*)[NF]) f[0].data(), (Fp (*)[NF]) f[1].data() }, (*s0[2])[NF]; memcpy( s0, s, sizeof s ); St_::resetDofs<long,double,NF,NSF,Q,3>( n, s ); for( int k = 0; k < 2; k++ ) check( s[x0[k]] == s0[x[k]], "reset-dofs", "after %ld steps: entry %d", n, k );
  int nl = r.i(1,20), np = nl+r.i(0,10); std::vector<int_el> lp( np, std::numeric_limits<int_el>::max() ); std::vector<int> id( np ); std::iota( id.begin(), id.end(), 0 ); r.shuffle( id ); for( int k = 0; k < nl; k++ ) lp[id[k]] = k; std::vector< std::array<unsigned,3> > li( nl ); for( auto & l: li ) for( auto & v: l ) v = r.i(1,9); auto l0 = li; int fi = r.i(0,np), sz = r.i(0,np-fi);
  St_::resetLimSync( int_el(fi), int_el(sz), lp.data(), (unsigned (*)[3]) li.data() ); std::vector<bool> in( nl ); for( int k = fi; k < fi+sz; k++ ) if( lp[k] < int_el(nl) ) in[lp[k]] = true; for( int k = 0; k < nl; k++ ) for( int c = 0; c < 3; c++ ) check( li[k][c] == ( in[k] ? 0 : l0[k][c] ), "reset-counter", "limited element %d (in range %d): %u", k, (int) in[k], li[k][c] );
  stat("eval_steering"); sig( fmt("st %ld %d", n, nl ) ); }
static void subGrid( Rng & r ) {
  double p[3]; for( int d = 0; d < 3; d++ ) p[d] = r.r(-0.2,1.2); if( r.p(0.3) ) { int v = r.i(0,NSV-1); for( int d = 0; d < ND; d++ ) p[d] = sv[v].coords[d]+r.r(-1e-3,1e-3); }
  static int_el scSv[NSC][NV]; for( int s = 0; s < NSC; s++ ) for( int v = 0; v < NV; v++ ) scSv[s][v] = co.scSv[s][v];
  auto di = [&]( int s ) { double x = 0; for( int v = 0; v < NV; v++ ) for( int d = 0; d < ND; d++ ) { double y = sv[scSv[s][v]].coords[d]-p[d]; x += y*y; } return x; }; int_el s = edge::sc::SubGrid<T,ORDER>::ptSc( p, scSv, sv ); double b = 1e30; for( int k = 0; k < NSC; k++ ) b = std::min( b, di(k) ); check( s < int_el(NSC) && di(s) <= b*(1+1e-10), "closest-sub-cell", "point %g %g %g: sub-cell %ld has distance %g, minimum %g", p[0], p[1], p[2], (long) s, s < int_el(NSC) ? di(s) : -1, b );
  static us fl[NF][NSF][NFV], fr[NF][NFSV]; for( auto & x: fl ) for( auto & y: x ) for( auto & z: y ) z = 7777; edge::sc::SubGrid<T,ORDER>::faSg( co.scSv, fl, fr );
  for( int f = 0; f < NF; f++ ) { std::set<us> al, used; for( int k = 0; k < NFSV; k++ ) al.insert( fr[f][k] ); check( (int) al.size() == NFSV && *al.rbegin() < NSV, "face-grid-vertices", "face %d: %d different vertices of %d", f, (int) al.size(), (int) NFSV );
    for( int k = 0; k < NSF; k++ ) { std::vector<us> a, e; for( int v = 0; v < NFV; v++ ) { check( fl[f][k][v] < NFSV, "face-grid-id", "face %d sub-face %d: vertex %d", f, k, fl[f][k][v] ); if( fl[f][k][v] < NFSV ) { a.push_back( fr[f][fl[f][k][v]] ); used.insert( fl[f][k][v] ); } } e = common( co.faSfSc[f][k], NSC+f*NSF+k ); auto a2 = a; std::sort( a2.begin(), a2.end() ); std::sort( e.begin(), e.end() ); check( a2 == e, "face-grid", "face %d sub-face %d: vertices differ from those of the sub-cell", f, k );
      if( T == HEX8R && a.size() == 4 ) for( int v = 0; v < 4; v++ ) { int df = 0; for( int d = 0; d < 3; d++ ) df += std::fabs( sv[a[v]].coords[d]-sv[a[(v+1)%4]].coords[d] ) > 1e-9; check( df == 1, "face-grid-cycle", "face %d sub-face %d: vertices do not follow the edges", f, k ); } }
    check( (int) used.size() == NFSV, "face-grid-used", "face %d: %d of %d vertices used", f, (int) used.size(), (int) NFSV ); }
  stat("eval_subgrid"); }
template<class X, int C> static void memory( Rng & r ) {
  edge::data::Dynamic dyn; typedef edge::sc::t_SubCell<int_el,X,T,ORDER,Q,C> Sc; std::unique_ptr<Sc> s( new Sc ); int_el nl = r.i(1,6), np = nl+r.i(0,5), nx = np+r.i(0,5); edge::sc::Memory::alloc( nl, np, nx, dyn, *s );
  struct Rg { char * p; std::size_t n; std::size_t al; }; std::vector<Rg> g; std::size_t al = std::max( std::size_t(C*sizeof(X)), std::size_t(64) ); auto add = [&]( void * p, std::size_t n, std::size_t a=1 ) { Rg x; x.p = (char*) p; x.n = n; x.al = a; g.push_back(x); };
  add( s->dofs, sizeof(X)*nl*Q*NSC*C, al ); for( int b = 0; b < 2; b++ ) { add( s->tDofsRaw[b], sizeof(X)*np*NF*Q*NSF*C, al ); add( s->tDofs[b], sizeof(void*)*np*NF ); add( s->ext[b], sizeof(X)*nx*2*Q*C, al ); } for( int b = 0; b < 4; b++ ) add( s->adm[b], nl*C ); add( s->lock, nl*C ); add( s->limSync, nl*C*sizeof(unsigned) ); add( s->connect.liDoLiDu, sizeof(int_el)*nl*NF ); add( s->connect.liLp, sizeof(int_el)*nl ); add( s->connect.lpEl, sizeof(int_el)*np ); add( s->connect.lpLi, sizeof(int_el)*np ); add( s->connect.lpFaLp, sizeof(int_el)*np*NF ); add( s->connect.liEx, sizeof(int_el)*nl ); add( s->connect.liVeEx, sizeof(void*)*(nl+1) );
  for( auto & x: g ) { check( std::size_t(x.p) % x.al == 0, "memory-alignment", "address %p is not aligned to %zu", (void*) x.p, x.al ); memset( x.p, 0x55, x.n ); } // ASan watches the writes
  for( std::size_t i = 0; i < g.size(); i++ ) for( std::size_t j = 0; j < i; j++ ) check( g[i].p >= g[j].p+g[j].n || g[j].p >= g[i].p+g[i].n, "memory-overlap", "arrays %zu and %zu overlap", i, j );
  edge::sc::Init<T,ORDER,Q,C>::data( nl, np, nx, s->dofs, s->tDofsRaw, s->ext, s->adm, s->lock, s->limSync );
  auto all = [&]( void const * p, std::size_t n, char v ) { for( std::size_t i = 0; i < n; i++ ) if( ((char const*) p)[i] != v ) return false; return true; }; bool ok = all( s->dofs, sizeof(X)*nl*Q*NSC*C, 0 ) && all( s->lock, nl*C, 0 ) && all( s->limSync, nl*C*sizeof(unsigned), 0 ); for( int b = 0; b < 2; b++ ) ok = ok && all( s->tDofsRaw[b], sizeof(X)*np*NF*Q*NSF*C, 0 ) && all( s->ext[b], sizeof(X)*nx*2*Q*C, 0 ); for( int b = 0; b < 4; b++ ) ok = ok && all( s->adm[b], nl*C, 1 ); check( ok, "initial-data", "initial data of %d limited, %d limited plus and %d extrema elements", (int) nl, (int) np, (int) nx );
  edge::sc::ibnd::t_InternalBoundary<int_el,X,int_spType,T,Q> ib; int_el nb = r.i(1,5), ne = r.i(1,5); edge::sc::ibnd::Memory::alloc( nb, ne, dyn, ib ); memset( (void*) ib.connect.bfLe, 1, sizeof(int_el)*2*nb ); memset( (void*) ib.connect.bfBe, 1, sizeof(int_el)*2*nb ); memset( (void*) ib.connect.beBf, 1, sizeof(int_el)*NF*ne ); memset( (void*) ib.connect.beEl, 1, sizeof(int_el)*ne ); memset( (void*) ib.bfChars, 1, sizeof(ib.bfChars[0])*nb ); memset( (void*) ib.mss, 1, sizeof(X)*4*Q*Q*nb );
  // dominant and duplicated elements
  { int in = r.i(0,4), se = r.i(1,10), nE = in+se, nD = r.i(1,nE); t_enLayout lay; lay.nEnts = nE+r.i(0,3); lay.timeGroups.resize(1); lay.timeGroups[0].inner.first = 0; lay.timeGroups[0].inner.size = in; lay.timeGroups[0].nEntsOwn = nE; int nLi = lay.nEnts, nEl = nLi+5; std::vector<int_el> liLp( nLi ), lpEl( nLi+3 ), daMe( nEl ), meDa( nEl ); std::vector<int> t( lpEl.size() ); std::iota( t.begin(), t.end(), 0 ); r.shuffle( t ); for( int i = 0; i < nLi; i++ ) liLp[i] = t[i]; std::vector<int> u( nEl ); std::iota( u.begin(), u.end(), 0 ); r.shuffle( u ); for( std::size_t i = 0; i < lpEl.size(); i++ ) lpEl[i] = u[i]; (void) nD;
    std::vector<int> dup( nEl, 0 ); for( int e = 0; e < nEl; e++ ) { daMe[e] = e; meDa[e] = e; } // mesh ids of duplicates are those of their dominant element
    for( int l = in; l < nE; l++ ) if( r.p(0.5) && l > in ) { int d = r.i(in,l-1); int_el ed = lpEl[liLp[d]], e = lpEl[liLp[l]]; if( daMe[ed] == ed && dup[ed] < NF-1 ) { daMe[e] = ed; dup[ed]++; } }
    std::vector< std::array<int_el,NF> > o( nLi ); edge::sc::Init<T,ORDER,Q,C>::liDoLiDu( lay, liLp.data(), lpEl.data(), daMe.data(), meDa.data(), (int_el (*)[NF]) o.data() ); for( int l = 0; l < nLi; l++ ) { std::vector<int_el> e( NF, std::numeric_limits<int_el>::max() ); int k = 0; int_el el = lpEl[liLp[l]]; if( l >= in && l < nE && daMe[el] == el ) for( int m = in; m < nE; m++ ) { int_el em = lpEl[liLp[m]]; if( em != el && daMe[em] == el ) e[k++] = m; } check( std::equal( e.begin(), e.end(), o[l].begin() ), "duplicates", "limited element %d: %ld, expected %ld", l, (long) o[l][0], (long) e[0] ); } }
  stat("eval_memory"); }
static double det3( double a[3][3] ) { return a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1])-a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])+a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]); }
template<class X, int C> static void llf( Rng & r ) {
  double const eps = sizeof(X)==4 || sizeof(real_base)==4 ? 1e-4 : 1e-11; enum { NEL = NF+3 };
  // element under consideration with random position in the numbering, affine geometry
  double J[3][3] = {}, dt; do { for( int d = 0; d < ND; d++ ) for( int k = 0; k < ND; k++ ) J[d][k] = (T == QUAD4R || T == HEX8R) ? (d==k)*r.r(0.3,3) : r.r(-2,2); if( ND == 2 ) { J[2][0] = J[2][1] = J[0][2] = J[1][2] = 0; J[2][2] = 1; } dt = det3( J ); } while( dt < 0.2 ); double x0[3] = {r.r(-5,5),r.r(-5,5),ND>2?r.r(-5,5):0};
  auto map = [&]( double const * xi, double * x ) { for( int k = 0; k < ND; k++ ) { x[k] = x0[k]; for( int d = 0; d < ND; d++ ) x[k] += xi[d]*J[d][k]; } for( int k = ND; k < 3; k++ ) x[k] = 0; };
  int el = r.i(0,NEL-1); std::vector<int_el> ids; for( int e = 0; e < NEL; e++ ) if( e != el ) ids.push_back( e ); r.shuffle( ids );
  static int_el elVe[NEL][NV], elFa[NEL][NF], elFaEl[NEL][NF]; t_vertexChars ve[NV]; t_faceChars fc[NF+2]; t_elementChars ec[NEL]; t_bgPars bg[NEL]; Mat m[NEL]; memset( (void*) fc, 0, sizeof fc ); memset( (void*) ve, 0, sizeof ve );
  bool si = r.p(0.3); for( int e = 0; e < NEL; e++ ) { Mat x = mat( r, si ); bg[e].rho = x.rho; bg[e].lam = x.lam; bg[e].mu = x.mu; m[e].rho = bg[e].rho; m[e].lam = bg[e].lam; m[e].mu = bg[e].mu; ec[e].volume = r.r(0.1,9); for( int v = 0; v < NV; v++ ) elVe[e][v] = 0; for( int f = 0; f < NF; f++ ) { elFa[e][f] = 0; elFaEl[e][f] = std::numeric_limits<int_el>::max(); } }
  for( int v = 0; v < NV; v++ ) { double xi[3] = {0,0,0}, x[3]; for( int d = 0; d < ND; d++ ) xi[d] = C_REF_ELEMENT.VE.ENT[T][d*NV+v]; map( xi, x ); elVe[el][v] = v; for( int k = 0; k < 3; k++ ) ve[v].coords[k] = x[k]; } double vol = dt/(T==TRIA3?2:T==TET4?6:1); ec[el].volume = vol;
  double cen[3] = {0,0,0}; for( int v = 0; v < NV; v++ ) for( int k = 0; k < 3; k++ ) cen[k] += ve[v].coords[k]/NV;
  auto faceGeo = [&]( std::vector< std::array<double,3> > const & p, double const * c, double * n, double & a ) { // outward normal and area
    if( ND == 2 ) { double d[2] = {p[1][0]-p[0][0],p[1][1]-p[0][1]}; a = std::sqrt(d[0]*d[0]+d[1]*d[1]); n[0] = d[1]/a; n[1] = -d[0]/a; n[2] = 0; }
    else { std::array<double,3> A = p[0], Bp = p[1], Cp = p[2]; if( p.size() == 4 ) { int far = 1; double b = -1; for( int k = 1; k < 4; k++ ) { double l = 0; for( int d = 0; d < 3; d++ ) l += (p[k][d]-A[d])*(p[k][d]-A[d]); if( l > b ) { b = l; far = k; } } int o[2], k2 = 0; for( int k = 1; k < 4; k++ ) if( k != far ) o[k2++] = k; Bp = p[o[0]]; Cp = p[o[1]]; }
      double u[3], v[3]; for( int d = 0; d < 3; d++ ) { u[d] = Bp[d]-A[d]; v[d] = Cp[d]-A[d]; } for( int d = 0; d < 3; d++ ) n[d] = u[(d+1)%3]*v[(d+2)%3]-u[(d+2)%3]*v[(d+1)%3]; a = std::sqrt(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]); for( int d = 0; d < 3; d++ ) n[d] /= a; if( p.size() == 3 ) a /= 2; }
    double s = 0; for( int d = 0; d < 3; d++ ) s += n[d]*(p[0][d]-c[d]); if( s < 0 ) for( int d = 0; d < 3; d++ ) n[d] *= -1; };
  int adj[NF]; std::vector<int> fid( NF+2 ); std::iota( fid.begin(), fid.end(), 0 ); r.shuffle( fid );
  for( int f = 0; f < NF; f++ ) { std::vector< std::array<double,3> > p; for( int k = 0; k < NFV; k++ ) { double xi[3] = {0,0,0}; std::array<double,3> x; for( int d = 0; d < ND; d++ ) xi[d] = C_REF_ELEMENT.FA.ENT[T][d*NF*NFV+f*NFV+k]; map( xi, x.data() ); p.push_back( x ); }
    double n[3], a, s[3] = {0,0,0}, t[3] = {0,0,0}; faceGeo( p, cen, n, a ); adj[f] = r.p(0.25) ? -1 : (int) ids[f]; if( adj[f] >= 0 ) elFaEl[el][f] = adj[f]; elFa[el][f] = fid[f]; double sg = adj[f] >= 0 && adj[f] < el ? -1 : 1;
    if( ND == 3 ) { double l; do { double d = 0; l = 0; for( int k = 0; k < 3; k++ ) { s[k] = r.n(); d += s[k]*n[k]; } for( int k = 0; k < 3; k++ ) { s[k] -= d*n[k]; l += s[k]*s[k]; } } while( l < 0.01 ); for( int k = 0; k < 3; k++ ) s[k] /= std::sqrt(l); for( int k = 0; k < 3; k++ ) t[k] = sg*(n[(k+1)%3]*s[(k+2)%3]-n[(k+2)%3]*s[(k+1)%3]); }
    t_faceChars & F = fc[fid[f]]; for( int k = 0; k < ND; k++ ) { F.outNormal[k] = sg*n[k]; F.tangent0[k] = s[k]; F.tangent1[k] = t[k]; } F.area = a; }
  int np = r.i(1,4), lp = r.i(0,np-1); std::vector<int_el> lpEl( np, el ); edge::data::Dynamic dyn; edge::seismic::sc::Llf<X,T,ORDER,C> L; L.alloc( int_el(np), dyn ); L.init( int_el(lp), int_el(1), lpEl.data(), elVe, elFa, elFaEl, ve, fc, ec, bg );
  // random state, time step within the CFL limit
  struct W { X i[Q][NT][C], o[Q][NSC][C], s[2][Q][NSF][C], nu[Q][NSF][C]; }; std::unique_ptr<W> w( new W ); double sc = m[el].zp(); for( int q = 0; q < Q; q++ ) for( int k = 0; k < NT; k++ ) for( int c = 0; c < C; c++ ) w->i[q][k][c] = r.r(-1,1)*(q < S ? sc : 1); bool nu[NF]; for( auto & x: nu ) x = r.p(0.2); double cmax = 0; for( auto & x: m ) cmax = std::max( cmax, x.zp()/x.rho ); X ts = 0.05*vol/(NSC*cmax)*r.r(0.2,1); for( std::size_t k = 0; k < sizeof(w->o)/sizeof(X); k++ ) (&w->o[0][0][0])[k] = NAN;
  L.tsSc( ts, int_el(lp), co.scSfSc, co.scTySf, nu, w->i, w->o );
  double tot[Q] = {}, gho[Q] = {}; bool cons = true; // conservation without the provided net-updates
  for( int a = 0; a < NSC; a++ ) for( int c = 0; c < C; c++ ) { double e[Q], sca[Q]; for( int q = 0; q < Q; q++ ) e[q] = w->i[q][a][c]; double ac[3] = {0,0,0}; for( int v = 0; v < NV; v++ ) { double x[3], xi[3] = {0,0,0}; for( int d = 0; d < ND; d++ ) xi[d] = sv[co.scSv[a][v]].coords[d]; map( xi, x ); for( int k = 0; k < 3; k++ ) ac[k] += x[k]/NV; }
    for( int f = 0; f < NF; f++ ) { us b = co.scSfSc[a][f]; std::vector< std::array<double,3> > p; for( us v: common( a, b ) ) { double xi[3] = {0,0,0}; std::array<double,3> x; for( int d = 0; d < ND; d++ ) xi[d] = sv[v].coords[d]; map( xi, x.data() ); p.push_back(x); } if( (int) p.size() != NFV ) continue; double n[3], ar; faceGeo( p, ac, n, ar );
      int df = b >= NSC ? (b-NSC)/NSF : -1; if( df >= 0 && nu[df] ) { for( int q = 0; q < Q; q++ ) e[q] += w->i[q][b][c]; continue; }
      Mat const & mr = df >= 0 && adj[df] >= 0 ? m[adj[df]] : m[el]; double ql[Q], qr[Q], fl[Q], fr[Q]; for( int q = 0; q < Q; q++ ) { ql[q] = w->i[q][a][c]; qr[q] = w->i[q][b][c]; } auto flux = [&]( Mat const & x, double const * q, double * o ) { St<ND> st = unpack<ND>(q); double t[3]; for( int i = 0; i < ND; i++ ) { t[i] = 0; for( int j = 0; j < ND; j++ ) t[i] += st.s[i][j]*n[j]; } fluxOf<ND>( x, n, st.v, t, o, nullptr ); }; flux( m[el], ql, fl ); flux( mr, qr, fr );
      double cm = std::max( m[el].zp()/m[el].rho, mr.zp()/mr.rho ), fa = ts*ar/(vol/NSC); for( int q = 0; q < Q; q++ ) { double g = fa*(0.5*(fl[q]+fr[q])+0.5*cm*(ql[q]-qr[q])); e[q] -= g; if( df >= 0 && c == 0 ) gho[q] -= g; } }
    for( int q = 0; q < Q; q++ ) { sca[q] = 4*(q < S ? sc : 1)*( si ? 3 : 2 ); check( near( w->o[q][a][c], e[q], eps, sca[q]*(1+cmax*ts/std::pow(vol/NSC,1./ND)) ), "sub-cell-step", "element %d order %d sub-cell %d quantity %d run %d: %.8g, expected %.8g (time step %g)", T, ORDER, a, q, c, (double) w->o[q][a][c], e[q], (double) ts ); if( c == 0 ) tot[q] += double(w->o[q][a][c])-w->i[q][a][c]; } }
  (void) cons; bool any = false; for( auto x: nu ) any = any || x; if( !any ) for( int q = 0; q < Q; q++ ) check( near( tot[q], gho[q], eps*10, NSC*4*(q < S ? sc : 1)*3 ), "sub-cell-conservation", "quantity %d: total changes by %g, fluxes over the faces give %g", q, tot[q], gho[q] );
  // net-updates of a face
  int f = r.i(0,NF-1); for( std::size_t k = 0; k < sizeof(w->s)/sizeof(X); k++ ) (&w->s[0][0][0][0])[k] = r.r(-1,1); for( int sd = 0; sd < 2; sd++ ) for( int q = 0; q < S; q++ ) for( int k = 0; k < NSF; k++ ) for( int c = 0; c < C; c++ ) w->s[sd][q][k][c] *= sc;
  L.nuFaSf( ts, int_el(lp), (us) f, w->s, w->nu ); { t_faceChars & F = fc[fid[f]]; double n[3]; for( int k = 0; k < ND; k++ ) n[k] = F.outNormal[k]*(adj[f] >= 0 && adj[f] < el ? -1 : 1); Mat const & mr = adj[f] >= 0 ? m[adj[f]] : m[el]; double cm = std::max( m[el].zp()/m[el].rho, mr.zp()/mr.rho ), fa = ts*F.area/NSF/(vol/NSC);
    for( int k = 0; k < NSF; k++ ) for( int c = 0; c < C; c++ ) { double g[2][Q]; for( int sd = 0; sd < 2; sd++ ) { double qv[Q]; for( int q = 0; q < Q; q++ ) qv[q] = w->s[sd][q][k][c]; St<ND> st = unpack<ND>(qv); double t[3]; for( int i = 0; i < ND; i++ ) { t[i] = 0; for( int j = 0; j < ND; j++ ) t[i] += st.s[i][j]*n[j]; } fluxOf<ND>( sd ? mr : m[el], n, st.v, t, g[sd], nullptr ); } for( int q = 0; q < Q; q++ ) { double e = -fa*(0.5*(g[0][q]+g[1][q])+0.5*cm*(double(w->s[0][q][k][c])-w->s[1][q][k][c])); check( near( w->nu[q][k][c], e, eps*10, fa*cm*(q < S ? sc : 1)*( si ? 8 : 8 )+1e-30 ), "face-net-updates", "face %d sub-face %d quantity %d run %d: %g, expected %g", f, k, q, c, (double) w->nu[q][k][c], e ); } } }
  stat("eval_llf"); sig( fmt("llf %d %d %d %d", (int) sizeof(X), C, el, f ) ); }
template<class X, int C> static void boundary( Rng & r ) {
  typedef std::vector<X> V; V a( Q*NT*C ), b; rnd( r, a.data(), a.size() ); b = a; int_spType ty[NF]; for( auto & t: ty ) { int k = r.i(0,3); t = k == 0 ? int_spType(0) : k == 1 ? int_spType(FREE_SURFACE) : k == 2 ? int_spType(OUTFLOW) : int_spType(PERIODIC); if( r.p(0.5) ) t |= int_spType(1) << 33; }
  edge::seismic::sc::Boundary<T,ORDER,C>::apply( co.scSfSc, ty, (X (*)[NT][C]) a.data() ); for( int q = 0; q < Q; q++ ) for( int k = 0; k < NT; k++ ) for( int c = 0; c < C; c++ ) { X e = b[(q*NT+k)*C+c]; if( k >= NSC ) { int f = (k-NSC)/NSF; if( (ty[f]&FREE_SURFACE) == FREE_SURFACE ) e = b[(q*NT+co.scSfSc[k][0])*C+c]; else if( (ty[f]&OUTFLOW) == OUTFLOW ) e = 0; } check( a[(q*NT+k)*C+c] == e, "ghost-sub-cells", "quantity %d sub-cell %d run %d: %g, expected %g", q, k, c, (double) a[(q*NT+k)*C+c], (double) e ); } stat("eval_boundary"); }
template<class X, int C> static void superCell( Rng & r ) {
  edge::sc::ibnd::t_SuperCell<T,ORDER> su; memset( (void*) &su, 0x5a, sizeof su ); edge::sc::ibnd::SuperCellInit<T,ORDER>::faSt( co.scDgAd, co.scSfSc, su ); int nst = su.col[0].TL_N_ST;
  for( int f = 0; f < NF; f++ ) { std::set< std::pair<us,us> > e, a; std::set<us> at; for( int s = 0; s < NSF; s++ ) at.insert( co.faSfSc[f][s] ); for( us x: at ) for( int k = 0; k < NF; k++ ) { us y = co.scSfSc[x][k]; if( x < y && at.count(y) ) e.insert( std::make_pair(x,y) ); }
    if( T == TET4 ) { for( int k = 0; k < nst; k++ ) a.insert( std::make_pair( su.col[f].sc[k][0], su.col[f].sc[k][1] ) ); check( a == e, "super-cells", "face %d: %d super-cells, expected %d", f, (int) a.size(), (int) e.size() ); }
    std::vector<X> d( Q*NSC*C ), d0; rnd( r, d.data(), d.size() ); d0 = d; edge::sc::ibnd::SuperCell<T,ORDER,Q,C>::applyFa( su.col[f], (X (*)[NSC][C]) d.data() );
    for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { std::vector<double> x( NSC ); for( int k = 0; k < NSC; k++ ) x[k] = d0[(q*NSC+k)*C+c]; if( T == TET4 ) for( auto & p: e ) x[p.first] = x[p.second] = 0.5*(x[p.first]+x[p.second]); for( int k = 0; k < NSC; k++ ) check( near( d[(q*NSC+k)*C+c], x[k], 1e-6, 1 ), "super-cell-average", "face %d sub-cell %d: %g, expected %g", f, k, (double) d[(q*NSC+k)*C+c], x[k] ); } }
  stat("eval_supercell"); }
static void ibnd( Rng & r ) { // links of the internal boundary
  int nf = r.i(4,20), ne = r.i(2,10); int_spType IB = int_spType(1)<<20, LI = int_spType(1)<<21; std::vector< std::array<int_el,2> > fe( nf ); std::vector< std::array<int_el,NF> > ef( ne ); std::vector<t_faceChars> fc( nf ); std::vector<t_elementChars> ec( ne ); for( auto & f: fc ) f.spType = r.p(0.3) ? IB : 0; for( auto & e: ec ) e.spType = 0;
  for( int f = 0; f < nf; f++ ) { int a = r.i(0,ne-1), b; do b = r.i(0,ne-1); while( b == a ); fe[f] = {{a,b}}; if( fc[f].spType == 0 && r.p(0.3) ) fe[f][1] = std::numeric_limits<int_el>::max(); if( fc[f].spType ) for( auto e: fe[f] ) ec[e].spType |= IB; } for( auto & e: ec ) if( r.p(0.4) || e.spType ) e.spType |= LI; for( auto & e: ef ) for( auto & f: e ) f = r.i(0,nf-1);
  int nb = 0, be = 0; std::vector<int_el> ib( ne ), il( ne ), ifa( nf ); int li = 0; for( int e = 0; e < ne; e++ ) { ib[e] = ec[e].spType & IB ? be++ : -1; il[e] = ec[e].spType & LI ? li++ : -1; } for( int f = 0; f < nf; f++ ) ifa[f] = fc[f].spType & IB ? nb++ : -1; if( !nb ) return;
  std::vector< std::array<int_el,2> > le( nb ), bb( nb ); std::vector<int_el> el( be ); std::vector< std::array<int_el,NF> > bf( ne ); edge::sc::ibnd::t_connect<int_el,T> c; c.bfLe = (int_el (*)[2]) le.data(); c.bfBe = (int_el (*)[2]) bb.data(); c.beBf = (int_el (*)[NF]) bf.data(); c.beEl = el.data();
  // the elements adjacent to internal boundary faces are exactly those of the type: give the other elements faces without the type
  for( int e = 0; e < ne; e++ ) { bool any = false; for( auto f: ef[e] ) any = any || ( fc[f].spType & IB ); bool is = ec[e].spType & IB; if( is != any ) { int k = 0; while( k < nf && bool( fc[k].spType & IB ) != is ) k++; if( k == nf ) return; for( auto & f: ef[e] ) if( is || ( fc[f].spType & IB ) ) f = k; } }
  edge::sc::ibnd::Init<T>::connect( int_el(nf), int_el(ne), IB, LI, (int_el (*)[2]) fe.data(), (int_el const (*)[NF]) ef.data(), fc.data(), ec.data(), c );
  for( int f = 0; f < nf; f++ ) if( ifa[f] >= 0 && ifa[f] < nb ) for( int s = 0; s < 2; s++ ) check( bb[ifa[f]][s] == ib[fe[f][s]] && le[ifa[f]][s] == il[fe[f][s]], "internal-boundary-faces", "face %d side %d: %ld %ld, expected %ld %ld", f, s, (long) bb[ifa[f]][s], (long) le[ifa[f]][s], (long) ib[fe[f][s]], (long) il[fe[f][s]] );
  for( int e = 0; e < ne; e++ ) if( ec[e].spType & IB ) { check( el[ib[e]] == e, "internal-boundary-elements", "element %d", e ); for( int k = 0; k < NF; k++ ) { int_el x = fc[ef[e][k]].spType & IB ? ifa[ef[e][k]] : std::numeric_limits<int_el>::max(); check( bf[ib[e]][k] == x, "internal-boundary-element-faces", "element %d face %d: %ld, expected %ld", e, k, (long) bf[ib[e]][k], (long) x ); } }
  stat("eval_ibnd"); }
VH_MAIN { Rng r( seed ); grid();
  for( long it = 0; it < n; it++ ) {
    if( it%2 ) { kernels<double,1>( r ); kernels<float,4>( r ); } else { kernels<float,1>( r ); kernels<double,4>( r ); }
    for( int k = 0; k < 20; k++ ) { dmp<double,1>( r ); dmp<float,4>( r ); dmp<double,8>( r ); } steering( r ); subGrid( r ); ibnd( r );
    if( it%2 ) { memory<double,1>( r ); memory<float,16>( r ); llf<double,2>( r ); boundary<float,2>( r ); superCell<double,2>( r ); } else { memory<float,1>( r ); memory<double,8>( r ); llf<float,1>( r ); boundary<double,1>( r ); superCell<float,1>( r ); llf<double,1>( r ); } } }
