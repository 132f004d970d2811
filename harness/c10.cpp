// C10: friction laws, internal boundaries and set up of ruptures against frictional contact of two elastic half-spaces
#include "elastic.hpp"
#include <array>
#include <memory>
#include <limits>
#include <numeric>
#include <io/logging.h>
#include "constants.hpp"
#include "data/MmVanilla.hpp"
#include "sc/SubCell.type"
#include "sc/ibnd/InternalBoundary.type"
#include "impl/seismic/common.hpp"
#include "impl/seismic/solvers/FrictionLaws.type"
#include "impl/seismic/solvers/FrictionLaws.hpp"
#define private public
#include "impl/seismic/solvers/InternalBoundary.hpp"
#undef private
#include "impl/seismic/setups/RuptureInit.hpp"
#include "linalg/Domain.hpp"
#include "linalg/HalfSpace.hpp"
namespace sv = edge::seismic::solvers;
static t_entityType const T = T_SDISC.ELEMENT;
enum { ND = C_ENT[T].N_DIM, NF = C_ENT[T].N_FACES, NV = C_ENT[T].N_VERTICES, NFV = C_ENT[T].N_FACE_VERTICES, NSC = CE_N_SUB_CELLS(T,ORDER), NSF = CE_N_SUB_FACES(T,ORDER), Q = ND==2?5:9, S = ND==2?3:6, DT = ND-1 };
static int const SH[2] = { ND==2?2:3, 5 }; static int const VT[2] = { S+1, S+2 }; // fault-parallel components
template<class X, int C> struct FD { sv::t_LinSlipWeakGlobal<X,C> * gl; sv::t_LinSlipWeakFace<X> * fa; sv::t_LinSlipWeakSubFace<X,ND,C> (*sf)[NSF]; };
// friction: ms locked solution; tau total traction, st strength
struct Fr { double st, tau[2], sh, dtau[2]; bool fails; };
static Fr friction( double muf, double sn0, double co, double const * ss0, double sn, double const * ms ) { Fr f; f.st = std::max( 0., -( muf*( sn0+sn )+co ) ); f.sh = 0; for( int d = 0; d < DT; d++ ) f.sh += (ss0[d]+ms[d])*(ss0[d]+ms[d]); f.sh = std::sqrt( f.sh ); f.fails = f.sh > f.st;
  for( int d = 0; d < DT; d++ ) { f.tau[d] = ss0[d]+ms[d]; if( f.fails ) f.tau[d] *= f.st/f.sh; f.dtau[d] = f.tau[d]-ss0[d]-ms[d]; } return f; }
template<class X, int C> static void laws( Rng & r ) {
  double const eps = sizeof(X)==4 ? 2e-5 : 1e-11; bool si = sizeof(X)==8 && r.p(0.5); double s = si ? r.r(1e5,1e8) : r.r(0.5,4);
  struct W { sv::t_LinSlipWeakGlobal<X,C> gl; sv::t_LinSlipWeakFace<X> fa; sv::t_LinSlipWeakSubFace<X,ND,C> sf[NSF], o[NSF]; X ms[Q][C], l[Q][C], r[Q][C]; bool per[C]; }; std::unique_ptr<W> w( new W );
  Mat a = mat( r, si ), b = mat( r, si ); w->fa.lEqM = r.p(0.5); w->fa.csDmuM = 1/a.zs(); w->fa.csDmuP = 1/b.zs();
  for( int c = 0; c < C; c++ ) { w->gl.mus[c] = r.r(0.4,0.9); w->gl.mud[c] = w->gl.mus[c]*r.r(0.2,1); w->gl.dcInv[c] = a.zs()/s/r.r(0.1,20); }
  for( auto & f: w->sf ) for( int c = 0; c < C; c++ ) { f.sn0[c] = s*r.r(-2,r.p(0.2)?1:0); f.co0[c] = r.p(0.6) ? 0 : s*r.r(-0.5,0.2); f.muf[c] = w->gl.mus[c]; f.st[c] = f.ss0A[c] = NAN; for( int d = 0; d < DT; d++ ) { f.ss0[d][c] = r.p(0.15) ? 0 : s*r.r(-1,1); f.dd[d][c] = r.p(0.5) ? 0 : s/a.zs()*r.r(0,3); f.sr[d][c] = f.tr[d][c] = NAN; } }
  sv::t_LinSlipWeakSubFace<X,ND,C> (*sfp)[NSF] = &w->sf; FD<X,C> fd = { &w->gl, &w->fa, sfp }; X dt = r.r(0,2); int steps = r.i(1,6);
  for( int it = 0; it < steps; it++ ) { int k = r.i(0,NSF-1); for( int i = 0; i < NSF; i++ ) w->o[i] = w->sf[i];
    for( int q = 0; q < Q; q++ ) for( int c = 0; c < C; c++ ) { w->ms[q][c] = q < S ? s*r.r(-1,1)*( r.p(0.2) ? 3 : 1 ) : s/a.zs()*r.r(-1,1); w->l[q][c] = w->r[q][c] = NAN; }
    for( int c = 0; c < C; c++ ) if( r.p(0.1) ) for( int d = 0; d < DT; d++ ) { if( r.p(0.5) ) w->ms[SH[d]][c] = 0; else { w->ms[SH[d]][c] *= 1e-3; } }
    if( r.p(0.5) ) sv::FrictionLaws<ND,C>::perturb( dt, w->gl, w->fa, w->ms, w->sf[k], w->l, w->r, w->per ); else sv::FrictionLaws<ND,C>::perturb( (unsigned short) k, dt, w->ms, &fd, w->l, w->r, w->per );
    for( int c = 0; c < C; c++ ) { auto & o = w->o[k]; auto & n = w->sf[k]; double ms[2], ss[2]; for( int d = 0; d < DT; d++ ) { ms[d] = w->ms[SH[d]][c]; ss[d] = o.ss0[d][c]; }
      Fr f = friction( o.muf[c], o.sn0[c], o.co0[c], ss, w->ms[0][c], ms ); if( ND == 3 && f.sh < 1e-3*s ) continue;
      bool near0 = std::fabs( f.sh-f.st ) < 1e-4*s; std::string in = fmt( "run %d: strength %g, background %g %g, stress %g %g, normal %g", c, f.st, ss[0], DT>1?ss[1]:0, ms[0], DT>1?ms[1]:0, (double) w->ms[0][c]+o.sn0[c] );
      if( !near0 ) check( w->per[c] == f.fails, "failure", "%s: fault %s", in.c_str(), w->per[c] ? "fails" : "is locked" );
      check( near( n.st[c], f.st, eps, s*4 ), "strength", "%s: %g", in.c_str(), (double) n.st[c] ); double zm = 1/(double) w->fa.csDmuM, zp = 1/(double) w->fa.csDmuP, dd = 0; X (*m)[C] = w->fa.lEqM ? w->l : w->r, (*p)[C] = w->fa.lEqM ? w->r : w->l;
      for( int q = 0; q < Q; q++ ) { double em = w->ms[q][c], ep = em; for( int d = 0; d < DT; d++ ) { if( q == SH[d] ) em = ep = f.tau[d]-ss[d]; if( q == VT[d] ) { em -= f.dtau[d]/zm; ep += f.dtau[d]/zp; } }
        double sc = 8*( q < S ? s : s/std::min(zm,zp) ); check( near( m[q][c], em, eps, sc ) && near( p[q][c], ep, eps, sc ), q < S ? "traction" : "velocity", "%s: quantity %d is %.9g (minus) %.9g (plus), expected %.9g %.9g", in.c_str(), q, (double) m[q][c], (double) p[q][c], em, ep ); }
      for( int d = 0; d < DT; d++ ) { double sr = f.dtau[d]*(1/zm+1/zp), e = o.dd[d][c]+std::fabs(sr)*dt; double vs = 10*s*(1/zm+1/zp); check( near( n.tr[d][c], f.tau[d], eps, s*8 ), "output-traction", "%s: %g, expected %g", in.c_str(), (double) n.tr[d][c], f.tau[d] ); check( near( n.sr[d][c], sr, eps, vs ), "slip-rate", "%s: %g, expected %g", in.c_str(), (double) n.sr[d][c], sr ); check( near( n.dd[d][c], e, eps, vs*(1+dt) ), "slip", "%s: %g, expected %g", in.c_str(), (double) n.dd[d][c], e ); dd += double(n.dd[d][c])*n.dd[d][c];
        if( f.fails && !near0 && std::fabs(f.tau[d]) > 1e-3*s ) check( double(n.sr[d][c])*n.tr[d][c] <= eps*s*vs, "dissipation", "%s: friction does work: traction %g slip rate %g", in.c_str(), (double) n.tr[d][c], (double) n.sr[d][c] );
        check( n.ss0[d][c] == o.ss0[d][c], "background", "background stress changed" ); }
      dd = std::sqrt( dd ); double mu = std::max<double>( w->gl.mud[c], w->gl.mus[c]-( double(w->gl.mus[c])-w->gl.mud[c] )*w->gl.dcInv[c]*dd ); check( near( n.muf[c], mu, eps, 10 ), "friction-coefficient", "slip %g: %g, expected %g", dd, (double) n.muf[c], mu ); check( n.sn0[c] == o.sn0[c] && n.co0[c] == o.co0[c], "background", "background stress changed" );
      stat("eval_friction"); if( f.fails ) stat("failures"); sig( fmt( "law %d %d %d %d %d %d", (int) sizeof(X), f.fails, n.muf[c] == w->gl.mud[c], f.st == 0, (int) w->fa.lEqM, (ss[0]>0)*2+(ss[0]+ms[0]>0) ) ); }
    for( int i = 0; i < NSF; i++ ) if( i != k ) check( !std::memcmp( &w->o[i], &w->sf[i], sizeof(w->o[i]) ), "other-sub-faces", "sub-face %d changed", i ); } }
struct PassThrough { template<class X, class F> static void perturb( unsigned short, X, X const (*ms)[1], F *, X (*l)[1], X (*r)[1], bool * p ) { for( int q = 0; q < Q; q++ ) l[q][0] = r[q][0] = ms[q][0]; p[0] = false; } };
static void rot( double const * a, double const * b, double const * x, double * y ) { // rotation of a to b, applied to x
  double v[3], c = 0; for( int i = 0; i < 3; i++ ) { v[i] = a[(i+1)%3]*b[(i+2)%3]-a[(i+2)%3]*b[(i+1)%3]; c += a[i]*b[i]; } double w[3], k = 0; for( int i = 0; i < 3; i++ ) { w[i] = v[(i+1)%3]*x[(i+2)%3]-v[(i+2)%3]*x[(i+1)%3]; k += v[i]*x[i]; } for( int i = 0; i < 3; i++ ) y[i] = c*x[i]+w[i]+v[i]*k/(1+c); }
struct Dm { double p[ND]; double n[ND]; bool inside( real_mesh const * x ) const { double s = 0; for( int d = 0; d < ND; d++ ) s += n[d]*(x[d]-p[d]); return s > 0; } };
struct FC { int_spType spType; real_mesh outNormal[3], tangent0[3], tangent1[3], area; }; struct EC { int_spType spType; real_mesh volume; }; struct VC { real_mesh coords[3]; }; template<class X> struct BG { X lam, mu, rho; };
template<class X, int C> static void setup( Rng & r, bool pass ) {
  typedef sv::InternalBoundarySolvers<T,ORDER> Sv; typedef sv::InternalBoundary<T,Q,ORDER,C> Ib; typedef edge::seismic::setups::RuptureInit<T,ORDER,C> Ru; double const eps = sizeof(X)==4 ? 1e-4 : 1e-9; int_spType const RU = 1<<r.i(5,12), OT = 1<<3;
  bool si = sizeof(X)==8 && r.p(0.5); int nf = r.i(2,9), ne = nf+r.i(0,4); std::vector<Mat> m( ne ); std::vector<BG<X>> bg( ne ); std::vector<EC> ec( ne ); std::vector<FC> fc( nf ); std::vector<std::array<int_el,2>> fe( nf ); std::vector<std::array<int_el,NF>> ef( ne ); std::vector<std::array<int_el,NV>> ev( ne ); std::vector<std::array<int_el,NFV>> fv( nf ); std::vector<std::array<unsigned short,NF>> vi( ne ); std::vector<VC> vc( nf*NFV+50 );
  for( int e = 0; e < ne; e++ ) { m[e] = mat( r, si ); bg[e].lam = m[e].lam; bg[e].mu = m[e].mu; bg[e].rho = m[e].rho; ec[e].volume = r.r(0.1,3); ec[e].spType = 0; for( auto & x: ef[e] ) x = std::numeric_limits<int_el>::max(); for( auto & x: ev[e] ) x = 1000+r.i(0,1000); for( auto & x: vi[e] ) x = std::numeric_limits<unsigned short>::max(); }
  double cr[3][3]; real_mesh bc[ND][ND]; frame<ND>( r, cr[0], cr[1], cr[2] ); if( ND == 2 ) { cr[1][0] = -cr[0][1]; cr[1][1] = cr[0][0]; } for( int i = 0; i < ND; i++ ) for( int j = 0; j < ND; j++ ) bc[i][j] = cr[i][j];
  for( auto & v: vc ) for( auto & x: v.coords ) x = r.r(-2,2);
  std::vector<int> sp; std::vector<bool> pref( nf ); std::vector<std::array<double,9>> fr( nf );
  for( int f = 0; f < nf; f++ ) { bool ru = r.p(0.6); fc[f].spType = ( ru ? RU : r.p(0.5) ? 0 : OT ) | ( r.p(0.3) ? 1 : 0 ); fc[f].area = r.r(0.1,3); double n[3], s[3], t[3], d; do { frame<ND>( r, n, s, t ); d = 0; for( int i = 0; i < ND; i++ ) d += n[i]*cr[0][i]; } while( std::fabs(d) < 0.02 ); if( r.p(0.2) ) { double sg = d > 0 ? 1 : -1; for( int i = 0; i < ND; i++ ) n[i] = sg*cr[0][i]; if( ND == 3 ) for( int i = 0; i < ND; i++ ) { s[i] = cr[1][i]; t[i] = sg*cr[2][i]; } }
    for( int i = 0; i < 3; i++ ) { fc[f].outNormal[i] = n[i]; fc[f].tangent0[i] = s[i]; fc[f].tangent1[i] = t[i]; } pref[f] = d > 0;
    int a = f, b; do b = r.i(0,ne-1); while( b == a ); if( r.p(0.5) ) std::swap( a, b ); fe[f][0] = a; fe[f][1] = b; if( ru ) sp.push_back( f ); for( int v = 0; v < NFV; v++ ) fv[f][v] = f*NFV+v; }
  std::vector<std::array<int,2>> lf( nf ); std::vector<int> vr( nf ); std::vector<bool> re( nf ); std::vector<int> bad( nf, 0 );
  for( int f = 0; f < nf; f++ ) for( int sd = 0; sd < 2; sd++ ) { int e = fe[f][sd], k = -1; for( int j = 0; j < NF; j++ ) if( ef[e][j] == std::numeric_limits<int_el>::max() ) k = j; if( r.p(0.5) ) for( int j = 0; j < NF; j++ ) if( ef[e][j] == std::numeric_limits<int_el>::max() ) { k = j; break; } if( k < 0 ) return; ef[e][k] = f; lf[f][sd] = k; }
  for( int f = 0; f < nf; f++ ) { vr[f] = r.i(0,NFV-1); int w = r.i(0,2); if( w != 1 ) vi[fe[f][0]][lf[f][0]] = vr[f]; if( w != 0 ) vi[fe[f][1]][lf[f][1]] = vr[f]; }
  // ids of the vertices of the left element at the face: first one is the smallest one in 3D
  for( int f: sp ) { int e = fe[f][0]; for( auto & x: ev[e] ) x = 100000; unsigned short const * lv = C_REF_ELEMENT.FA_VE_CC.ENT[T]+lf[f][0]*NFV; std::vector<int> id( NFV ); std::iota( id.begin(), id.end(), f*NFV );
    if( ND == 2 ) { re[f] = r.p(0.5); if( re[f] ) std::swap( id[0], id[1] ); } else { re[f] = r.p(0.5); if( NFV == 3 ) { if( re[f] ) std::swap( id[1], id[2] ); } else { if( re[f] ) { std::swap( id[1], id[3] ); } } }
    bool dup = false; for( int g: sp ) dup = dup || ( g != f && fe[g][0] == e ); if( dup ) bad[f] = 1; for( int v = 0; v < NFV; v++ ) ev[e][lv[v]] = id[v]; if( NFV == 4 ) fv[f][0] = id[0]; }
  for( int f: sp ) if( bad[f] ) return; // one rupture face per left element keeps the vertex ids simple
  int ns = sp.size(); bool crd = r.p(0.75); std::vector<std::array<X,4*Q*Q>> so( ns+1 ); for( auto & x: so ) for( auto & y: x ) y = 333;
  Sv::init( (int_el) nf, RU, (int_el const (*)[2]) fe.data(), (int_el const (*)[NV]) ev.data(), fc.data(), ec.data(), bg.data(), (X (*)[4][Q][Q]) so.data(), crd ? bc : nullptr ); for( X y: so[ns] ) if( !check( y == 333, "solvers-out-of-range", "solver behind the last face changed" ) ) break;
  std::vector<edge::sc::ibnd::t_bfChars<int_spType>> bf( ns+1 ); sv::InternalBoundaryTypes<T>::initFaces( (int_el) nf, (int_el) ne, RU, fc.data(), ec.data(), (int_el const (*)[2]) fe.data(), (int_el const (*)[NF]) ef.data(), (unsigned short const (*)[NF]) vi.data(), bf.data() );
  for( int k = 0; k < ns; k++ ) { int f = sp[k]; check( bf[k].spType == fc[f].spType && bf[k].fIdBfEl[0] == lf[f][0] && bf[k].fIdBfEl[1] == lf[f][1] && bf[k].vIdFaElR == vr[f], "boundary-faces", "face %d: faces %d %d vertex %d, expected %d %d %d", f, bf[k].fIdBfEl[0], bf[k].fIdBfEl[1], bf[k].vIdFaElR, lf[f][0], lf[f][1], vr[f] ); }
  // rupture
  struct Fd { X sn0[NSF][C], co0[NSF][C], ss0[ND-1][NSF][C]; }; edge::data::Dynamic dy; sv::t_LinSlipWeak<X,T,ORDER,C> ls; Ru::alloc( (int_el) ns, dy, ls ); std::vector<Fd> in( ns+1 ); X par[C][3]; std::vector<Dm> dom[C]; std::vector<std::array<X,ND>> st[C]; bool useF = r.p(0.5); double imp = 0; for( auto & x: m ) imp = std::max( imp, x.zp() );
  for( int c = 0; c < C; c++ ) { par[c][0] = r.r(0.4,0.9); par[c][1] = r.r(0.2,0.4); par[c][2] = r.r(0.1,2); int nd = r.i(0,3); for( int i = 0; i < nd; i++ ) { Dm d; for( int j = 0; j < ND; j++ ) { d.p[j] = r.r(-1,1); d.n[j] = r.r(-1,1); } dom[c].push_back( d ); std::array<X,ND> s; s[0] = imp*r.r(-2,0); for( int j = 1; j < ND; j++ ) s[j] = imp*r.r(-1,1); st[c].push_back( s ); } if( !useF ) { Dm d; for( int j = 0; j < ND; j++ ) { d.p[j] = j ? 0 : -100; d.n[j] = !j; } dom[c].push_back( d ); std::array<X,ND> s; s[0] = imp*r.r(-2,0); for( int j = 1; j < ND; j++ ) s[j] = imp*r.r(-1,1); st[c].push_back( s ); } }
  for( auto & x: in ) for( int c = 0; c < C; c++ ) for( int k = 0; k < NSF; k++ ) { x.sn0[k][c] = imp*r.r(-2,0); x.co0[k][c] = imp*r.r(-0.2,0); for( int d = 0; d < DT; d++ ) x.ss0[d][k][c] = imp*r.r(-1,1); }
  unsigned short ad[NFV][NSF]; for( auto & x: ad ) { std::vector<int> p( NSF ); std::iota( p.begin(), p.end(), 0 ); r.shuffle( p ); for( int k = 0; k < NSF; k++ ) x[k] = p[k]; }
  Ru::linSlipWeak( (int_el) nf, RU, (unsigned short const (*)[NSF]) ad, (int_el const (*)[NFV]) fv.data(), (int_el const (*)[2]) fe.data(), (int_el const (*)[NV]) ev.data(), (int_el const (*)[NF]) ef.data(), vc.data(), fc.data(), bg.data(), (real_mesh const (*)[ND]) bc, (X const (*)[3]) par, dom, st, ls, useF ? in.data() : nullptr );
  for( int c = 0; c < C; c++ ) check( near( ls.gl.mus[c], par[c][0], 1e-6, 1 ) && near( ls.gl.mud[c], par[c][1], 1e-6, 1 ) && near( ls.gl.dcInv[c], 1/par[c][2], 1e-6, 10 ), "friction-parameters", "run %d", c );
  for( int k = 0; k < ns; k++ ) { int f = sp[k]; bool lm = !pref[f]; Mat & a = m[fe[f][lm ? 0 : 1]], & b = m[fe[f][lm ? 1 : 0]]; check( ls.fa[k].lEqM == lm, "minus-side", "face %d: left is minus: %d", f, ls.fa[k].lEqM ); check( rel( ls.fa[k].csDmuM, 1/a.zs(), 1e-5 ) && rel( ls.fa[k].csDmuP, 1/b.zs(), 1e-5 ), "shear-impedance", "face %d: %g %g, expected %g %g", f, (double) ls.fa[k].csDmuM, (double) ls.fa[k].csDmuP, 1/a.zs(), 1/b.zs() );
    real_mesh pt[3] = {0,0,0}; for( int d = 0; d < ND; d++ ) for( int v = 0; v < NFV; v++ ) pt[d] += vc[fv[f][v]].coords[d]/NFV;
    for( int c = 0; c < C; c++ ) { int di = -1; for( int i = dom[c].size()-1; i >= 0; i-- ) if( dom[c][i].inside( pt ) ) di = i; for( int s = 0; s < NSF; s++ ) { auto & x = ls.sf[k][s]; int q = re[f] ? ad[0][s] : s; bool ok = true;
      if( di >= 0 ) { ok = x.sn0[c] == st[c][di][0] && x.muf[c] == par[c][0]; for( int d = 0; d < DT; d++ ) ok = ok && x.ss0[d][c] == st[c][di][1+d]; ok = ok && x.co0[c] == ( useF ? in[k].co0[q][c] : 0 ); } else if( useF ) { ok = x.sn0[c] == in[k].sn0[q][c] && x.co0[c] == in[k].co0[q][c]; for( int d = 0; d < DT; d++ ) ok = ok && x.ss0[d][c] == in[k].ss0[d][q][c]; }
      for( int d = 0; d < DT; d++ ) ok = ok && x.dd[d][c] == 0; check( ok, "initial-stress", "face %d sub-face %d run %d (domain %d, file %d, reordered %d): normal %g shear %g slip %g", f, s, c, di, useF, (int) re[f], (double) x.sn0[c], (double) x.ss0[0][c], (double) x.dd[0][c] ); x.muf[c] = par[c][0]; if( di < 0 && !useF ) { x.sn0[c] = -imp; x.co0[c] = 0; for( int d = 0; d < DT; d++ ) x.ss0[d][c] = 0; } } } }
  { int g = 5+4*(ND-1); std::vector<std::string> e; for( auto s: { "sn0", "co0" } ) for( int c = 0; c < C; c++ ) e.push_back( fmt("%s_%d",s,c) ); for( int d = 0; d < ND-1; d++ ) for( int c = 0; c < C; c++ ) e.push_back( fmt("ss0_%d_%d",d,c) ); for( auto s: { "ss0A", "muf", "st" } ) for( int c = 0; c < C; c++ ) e.push_back( fmt("%s_%d",s,c) ); for( auto s: { "tr", "sr", "dd" } ) for( int d = 0; d < ND-1; d++ ) for( int c = 0; c < C; c++ ) e.push_back( fmt("%s_%d_%d",s,d,c) ); for( int i = 0; i < g*C; i++ ) check( e[i] == ls.sfQtNaPtr[i], "names", "quantity %d: %s, expected %s", i, ls.sfQtNaPtr[i], e[i].c_str() ); }
  stat("eval_setup"); if( !crd ) pass = true; // without coordinate system the minus side is not defined
  // net-updates
  edge::data::MmVanilla<X> mm; unsigned short g = static_cast<unsigned short>( t_mm::SUB_CELL ); X one = 1, zero = 0; for( int i = 0; i < 5; i++ ) mm.add( g, Q, NSF, Q, Q, NSF, NSF, one, zero, false, true, C );
  struct W { X q[2][Q][NSF][C], nu[2][Q][NSF][C]; bool per[NSF][C]; }; std::unique_ptr<W> w( new W );
  for( int k = 0; k < ns; k++ ) { int f = sp[k]; Mat & l = m[fe[f][0]], & ri = m[fe[f][1]]; double z = std::max( l.zp(), ri.zp() ); X dt = r.r(0.1,2)*( r.p(0.2) ? 1e-3 : 1 );
    for( int sd = 0; sd < 2; sd++ ) for( int q = 0; q < Q; q++ ) for( int s = 0; s < NSF; s++ ) for( int c = 0; c < C; c++ ) { w->q[sd][q][s][c] = ( q < S ? z : 1 )*r.r(-1,1); w->nu[sd][q][s][c] = NAN; }
    sv::t_LinSlipWeakSubFace<X,ND,C> old[NSF]; for( int s = 0; s < NSF; s++ ) old[s] = ls.sf[k][s]; if( pass ) for( int s = 0; s < NSF; s++ ) for( int c = 0; c < C; c++ ) { old[s].sn0[c] = ls.sf[k][s].sn0[c] = -1e6*imp; }
    FD<X,C> fd = { &ls.gl, ls.fa+k, ls.sf+k }; X (*so4)[Q][Q] = (X (*)[Q][Q]) so[k].data();
    Ib::template netUpdates<X,edge::data::MmVanilla<X>,sv::FrictionLaws<ND,C>,FD<X,C>>( so4[0], so4[1], so4[2], so4[3], w->q[0], w->q[1], w->nu[0], w->nu[1], w->per, mm, dt, &fd );
    double n[3] = {0,0,0}, t1[3], t2[3], nf3[3] = {0,0,0}; bool pr = crd ? pref[f] : true; for( int i = 0; i < ND; i++ ) { nf3[i] = fc[f].outNormal[i]; n[i] = pr ? nf3[i] : -nf3[i]; }
    if( ND == 2 ) { t1[0] = -n[1]; t1[1] = n[0]; t1[2] = 0; } else if( crd ) { rot( cr[0], n, cr[1], t1 ); rot( cr[0], n, cr[2], t2 ); } else for( int i = 0; i < 3; i++ ) { t1[i] = fc[f].tangent0[i]; t2[i] = fc[f].tangent1[i]; }
    Mat & A = pr ? l : ri, & B = pr ? ri : l; // behind and in front of n
    for( int s = 0; s < NSF; s++ ) for( int c = 0; c < C; c++ ) { double qa[Q], qb[Q]; for( int q = 0; q < Q; q++ ) { qa[q] = w->q[pr?0:1][q][s][c]; qb[q] = w->q[pr?1:0][q][s][c]; } St<ND> a = unpack<ND>( qa ), b = unpack<ND>( qb );
      double ta[3] = {}, tb[3] = {}; for( int i = 0; i < ND; i++ ) for( int j = 0; j < ND; j++ ) { ta[i] += a.s[i][j]*n[j]; tb[i] += b.s[i][j]*n[j]; } auto dot = [&]( double const * x, double const * y ) { double d = 0; for( int i = 0; i < ND; i++ ) d += x[i]*y[i]; return d; };
      double va[3] = {}, vb[3] = {}; for( int i = 0; i < ND; i++ ) { va[i] = a.v[i]; vb[i] = b.v[i]; } double zl = A.zp(), zr = B.zp(), vn = (dot(tb,n)-dot(ta,n)+zr*dot(vb,n)+zl*dot(va,n))/(zl+zr), tn = dot(ta,n)+zl*(vn-dot(va,n)); zl = A.zs(); zr = B.zs(); double * tt[2] = { t1, t2 }, wv[2], ta2[2], ss[2]; for( int d = 0; d < DT; d++ ) { wv[d] = (dot(tb,tt[d])-dot(ta,tt[d])+zr*dot(vb,tt[d])+zl*dot(va,tt[d]))/(zl+zr); ta2[d] = dot(ta,tt[d])+zl*(wv[d]-dot(va,tt[d])); ss[d] = old[s].ss0[d][c]; }
      Fr fr = friction( old[s].muf[c], old[s].sn0[c], old[s].co0[c], ss, tn, ta2 ); if( std::fabs( fr.sh-fr.st ) > 1e-3*z ) check( w->per[s][c] == fr.fails, "face-failure", "sub-face %d run %d: %d, strength %g shear stress %g", s, c, (int) w->per[s][c], fr.st, fr.sh ); if( ND == 3 && fr.sh < 1e-3*z ) continue;
      for( int sd = 0; sd < 2; sd++ ) { bool beh = ( sd == 0 ) == pr; double v[3] = {}, t[3] = {}; for( int i = 0; i < ND; i++ ) { v[i] = vn*n[i]; t[i] = tn*n[i]; for( int d = 0; d < DT; d++ ) { v[i] += tt[d][i]*( wv[d]+( beh ? fr.dtau[d]/zl : -fr.dtau[d]/zr ) ); t[i] += tt[d][i]*( fr.tau[d]-ss[d] ); } if( !pr ) t[i] = -t[i]; }
        double fl[Q]; Mat & x = sd ? ri : l; fluxOf<ND>( x, nf3, v, t, fl, nullptr ); double g = (sd?1:-1)*dt*( fc[f].area/NSF )/( ec[fe[f][sd]].volume/NSC );
        for( int q = 0; q < Q; q++ ) { double sc = 12*std::fabs(g)*( q < S ? (x.lam+2*x.mu)*(1+z/std::min(zl,zr)) : z/x.rho ); check( near( w->nu[sd][q][s][c], g*fl[q], eps, sc ), "net-updates", "face %d (%s) sub-face %d run %d side %d quantity %d: %g, expected %g", f, pr ? "along" : "against", s, c, sd, q, (double) w->nu[sd][q][s][c], g*fl[q] ); } }
      stat( fr.fails ? "eval_netupdates_slip" : "eval_netupdates_locked" ); sig( fmt("net %d %d %d %d", (int) pr, crd, (int) fr.fails, useF ) ); } } }
VH_MAIN { Rng r( seed ); for( long it = 0; it < n; it++ ) { for( int k = 0; k < 20; k++ ) { laws<double,1>( r ); laws<float,4>( r ); laws<double,8>( r ); } setup<double,1>( r, it%3==0 ); setup<double,4>( r, it%5==0 ); setup<float,2>( r, it%5==0 ); } }
