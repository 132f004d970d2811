// C21: wave speeds, time steps, Jacobians, rotations, Riemann solutions and attenuation of the seismic setups
#include "vh.hpp"
#include <array>
#include <memory>
#include <limits>
#include <complex>
#include <io/logging.h>
#include "constants.hpp"
#include "impl/seismic/common.hpp"
#define private public
#include "impl/seismic/setups/ViscoElasticity.h"
#undef private
#include "impl/seismic/solvers/AderDgInit.hpp"
using namespace vh;
typedef edge::seismic::common Co; typedef edge::seismic::setups::Elasticity El; typedef edge::seismic::setups::ViscoElasticity Vi;
static double const EB = sizeof(real_base)==4 ? 3e-6 : 1e-12; // functions in real_base
static t_entityType const T = T_SDISC.ELEMENT; enum { ED = C_ENT[T_SDISC.ELEMENT].N_DIM, NF = C_ENT[T_SDISC.ELEMENT].N_FACES, NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES };
#include "elastic.hpp"
template<int D> static void trafo( double const * n, double const * s, double const * t, double (*a)[Ix<D>::Q], double (*b)[Ix<D>::Q] );
template<> void trafo<2>( double const * n, double const *, double const *, double (*a)[5], double (*b)[5] ) { Co::setupTrafo2d( n[0],n[1],a ); Co::setupTrafoInv2d( n[0],n[1],b ); }
template<> void trafo<3>( double const * n, double const * s, double const * t, double (*a)[9], double (*b)[9] ) { Co::setupTrafo3d( n[0],n[1],n[2],s[0],s[1],s[2],t[0],t[1],t[2],a ); Co::setupTrafoInv3d( n[0],n[1],n[2],s[0],s[1],s[2],t[0],t[1],t[2],b ); }
static void solver( Rng &, double const * n, double const *, double const *, Mat const & l, Mat const & r, bool fs, bool an, double (*e)[25], double (*a)[15] ) { edge::seismic::solvers::AderDgInit<TRIA3,false>::setUpFs( l.rho,r.rho,l.lam,r.lam,l.mu,r.mu,n[0],n[1],e[0],e[1],an?a[0]:nullptr,an?a[1]:nullptr,fs ); }
static void solver( Rng &, double const * n, double const * s, double const * t, Mat const & l, Mat const & r, bool fs, bool an, double (*e)[81], double (*a)[54] ) { edge::seismic::solvers::AderDgInit<TET4,false>::setUpFs( l.rho,r.rho,l.lam,r.lam,l.mu,r.mu,n[0],n[1],n[2],s[0],s[1],s[2],t[0],t[1],t[2],e[0],e[1],an?a[0]:nullptr,an?a[1]:nullptr,fs ); }
static int nzE( int D, int (*p)[2] ) { int k = 0; for( int ro = 0; ro < (D==2?5:9); ro++ ) for( int co = 0; co < (D==2?5:9); co++ ) { bool nz = false; // non-zero for any direction
  for( int d = 0; d < D; d++ ) { double q[9] = {}, f[9]; q[co] = 1; double n[3] = {}; n[d] = 1; Mat m; m.rho = 1; m.lam = 1; m.mu = 1; if( D == 2 ) { St<2> s = unpack<2>(q); double t[2] = {s.s[0][d],s.s[1][d]}; fluxOf<2>( m, n, s.v, t, f, nullptr ); } else { St<3> s = unpack<3>(q); double t[3] = {s.s[0][d],s.s[1][d],s.s[2][d]}; fluxOf<3>( m, n, s.v, t, f, nullptr ); } nz = nz || f[ro] != 0; }
  if( nz ) { p[k][0] = ro; p[k][1] = co; k++; } } return k; }
template<int D> static void elastic( Rng & r ) {
  enum { Q = Ix<D>::Q, S = Ix<D>::S, NZ = D==2?10:24, NA = D==2?4:9 }; bool si = r.p(0.4), ac = D==2 && r.p(0.25); Mat m = mat( r, si, ac ), o = r.p(0.2) ? m : mat( r, si, ac ); if( r.p(0.1) && !ac ) { o = m; o.mu *= 0.5; }
  double n[3], s[3], t[3]; frame<D>( r, n, s, t ); double ql[Q], qr[Q]; rndQ( r, m, S, Q, ql ); rndQ( r, m, S, Q, qr ); if( ac ) for( int i = 0; i < 2; i++ ) { double * q = i ? qr : ql; q[1] = q[0]; q[2] = 0; }
  std::string in = fmt("%dD, left %s, right %s, normal %g %g %g", D, ms(m).c_str(), ms(o).c_str(), n[0], n[1], n[2] );
  // Jacobians
  { std::vector<double> A( D*Q*Q, 7 ); Co::getJac( m.rho, m.lam, m.mu, A.data(), D ); double x[3] = {}; for( int d = 0; d < D; d++ ) { x[0] = x[1] = x[2] = 0; x[d] = 1; St<D> q = unpack<D>(ql); double tt[D], f[Q], c[Q]; for( int i = 0; i < D; i++ ) tt[i] = q.s[i][d]; fluxOf<D>( m, x, q.v, tt, f, nullptr );
      for( int i = 0; i < Q; i++ ) { c[i] = 0; for( int j = 0; j < Q; j++ ) c[i] += A[(d*Q+i)*Q+j]*ql[j]; } cmp<Q>( c, f, S, m, 1e-12, "jacobian", in ); } stat("eval_jacobian", D); }
  // star matrices
  { double G[D][D]; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) G[i][j] = r.r(-2,2); double st[D][Q*Q], sp[D][NZ], sA[D][S*D], spA[D][NA]; for( auto & x: st ) for( auto & y: x ) y = NAN; for( auto & x: sp ) for( auto & y: x ) y = NAN; for( auto & x: sA ) for( auto & y: x ) y = NAN; for( auto & x: spA ) for( auto & y: x ) y = NAN;
    El::star( m.rho,m.lam,m.mu,G,st ); El::star( m.rho,m.lam,m.mu,G,sp ); Vi::star( G, sA ); Vi::star( G, spA ); int p[81][2], k = nzE( D, p ); check( k == NZ, "star-nz", "%d non-zeros", k );
    for( int d = 0; d < D; d++ ) { double f[Q] = {}, fa[S] = {}, c[Q], ca[S]; for( int x = 0; x < D; x++ ) { double e[3] = {}, g[Q], ga[S], tt[D]; e[x] = 1; St<D> q = unpack<D>(ql); for( int i = 0; i < D; i++ ) tt[i] = q.s[i][x]; fluxOf<D>( m, e, q.v, tt, g, ga ); for( int i = 0; i < Q; i++ ) f[i] += G[x][d]*g[i]; for( int i = 0; i < S; i++ ) fa[i] += G[x][d]*ga[i]; }
      for( int i = 0; i < Q; i++ ) { c[i] = 0; for( int j = 0; j < Q; j++ ) c[i] += st[d][i*Q+j]*ql[j]; } cmp<Q>( c, f, S, m, 1e-12, "star", in );
      for( int i = 0; i < S; i++ ) { ca[i] = 0; for( int j = 0; j < D; j++ ) ca[i] += sA[d][i*D+j]*ql[S+j]; check( near( ca[i], fa[i], 1e-12, 10 ), "star-anelastic", "%s: row %d: %g, expected %g", in.c_str(), i, ca[i], fa[i] ); }
      for( int i = 0; i < k; i++ ) check( sp[d][i] == st[d][p[i][0]*Q+p[i][1]], "star-sparse", "%dD: non-zero %d is %g, dense %g", D, i, sp[d][i], st[d][p[i][0]*Q+p[i][1]] );
      int z = 0; for( int i = 0; i < S; i++ ) for( int j = 0; j < D; j++ ) if( i < D ? i == j : ( Ix<D>::s( j, (j+1)%D ) == i || Ix<D>::s( j, (j+2)%D ) == i ) ) { check( spA[d][z] == sA[d][i*D+j], "star-anelastic-sparse", "%dD: non-zero %d is %g, dense %g", D, z, spA[d][z], sA[d][i*D+j] ); z++; } check( z == NA, "star-anelastic-nz", "%d", z ); }
    stat("eval_star", 4*D); }
  // rotations
  double tt[Q][Q], ti[Q][Q]; trafo<D>( n, s, t, tt, ti );
  { double Rm[3][3]; for( int i = 0; i < 3; i++ ) { Rm[i][0] = n[i]; Rm[i][1] = D==2 ? (i==0?-n[1]:i==1?n[0]:0) : s[i]; Rm[i][2] = t[i]; } St<D> a = unpack<D>(ql), g; for( int i = 0; i < D; i++ ) { g.v[i] = 0; for( int j = 0; j < D; j++ ) { g.v[i] += Rm[i][j]*a.v[j]; g.s[i][j] = 0; for( int k = 0; k < D; k++ ) for( int l = 0; l < D; l++ ) g.s[i][j] += Rm[i][k]*a.s[k][l]*Rm[j][l]; } }
    double e[Q], c[Q], b[Q]; pack<D>( g, e ); double sc = m.zp(); for( int i = 0; i < Q; i++ ) { c[i] = b[i] = 0; for( int j = 0; j < Q; j++ ) { c[i] += tt[i][j]*ql[j]; b[i] += ti[i][j]*e[j]; } }
    for( int i = 0; i < Q; i++ ) { double z = i < S ? sc : 1; check( near( c[i], e[i], 1e-11, 10*z ), "rotation", "%s: quantity %d is %g, expected %g", in.c_str(), i, c[i], e[i] ); check( near( b[i], ql[i], 1e-11, 10*z ), "rotation-inverse", "%s: quantity %d is %g, expected %g", in.c_str(), i, b[i], ql[i] ); } stat("eval_rotation", 2); }
  // Riemann solutions
  { bool fs = r.p(0.3), an = !ac; if( fs ) o = m; double e[2][Q*Q], a[2][S*Q]; solver( r, n, s, t, m, o, fs, an, e, a ); double const * qq = fs ? ql : qr; double f[Q], fa[S], c[Q] = {}, ca[S] = {}; riemann<D>( m, o, n, ql, qq, fs, f, fa );
    for( int i = 0; i < Q; i++ ) for( int j = 0; j < Q; j++ ) c[i] += e[0][i*Q+j]*ql[j]+e[1][i*Q+j]*qq[j]; cmp<Q>( c, f, S, m, 1e-11, fs ? "riemann-free-surface" : ac ? "riemann-acoustic" : "riemann", in );
    if( an ) for( int i = 0; i < S; i++ ) { for( int j = 0; j < Q; j++ ) ca[i] += a[0][i*Q+j]*ql[j]+a[1][i*Q+j]*qq[j]; check( near( ca[i], fa[i], EB, 20 ), fs ? "riemann-anelastic-free-surface" : "riemann-anelastic", "%s: row %d is %g, expected %g", in.c_str(), i, ca[i], fa[i] ); }
    // the two sides agree on tractions and velocities: conservation of momentum and compatibility
    if( !fs && !ac ) { double mn[3] = {-n[0],-n[1],-n[2]}, e2[2][Q*Q], a2[2][S*Q]; solver( r, mn, s, t, o, m, false, true, e2, a2 ); double c2[Q] = {}, ca2[S] = {}; for( int i = 0; i < Q; i++ ) for( int j = 0; j < Q; j++ ) c2[i] += e2[0][i*Q+j]*qr[j]+e2[1][i*Q+j]*ql[j]; for( int i = 0; i < S; i++ ) for( int j = 0; j < Q; j++ ) ca2[i] += a2[0][i*Q+j]*qr[j]+a2[1][i*Q+j]*ql[j];
      for( int i = S; i < Q; i++ ) check( near( m.rho*c[i], -o.rho*c2[i], 1e-10, 20*std::max(m.zp(),o.zp()) ), "riemann-momentum", "%s: momentum flux %d: %g and %g", in.c_str(), i-S, m.rho*c[i], -o.rho*c2[i] );
      for( int i = 0; i < S; i++ ) check( near( ca[i], -ca2[i], 2*EB, 20*std::max(1.,o.zp()/m.zp()) ), "riemann-compatible", "%s: strain flux %d: %g and %g", in.c_str(), i, ca[i], -ca2[i] ); }
    stat("eval_riemann", an ? 2 : 1); sig( fmt("el %d %d %d %d", D, (int) fs, (int) ac, (int) (std::log(o.zp()/m.zp())*10) ) ); }
}
static void speeds( Rng & r ) {
  Mat m = mat( r, r.p(0.5) ); double d = r.r(0.01,500), sc = r.r(0.1,1); double vp = std::sqrt( (m.lam+2*m.mu)/m.rho );
  check( rel( Co::getVelP( m.rho,m.lam,m.mu ), vp, EB ), "vp", "%s: %g, expected %g", ms(m).c_str(), (double) Co::getVelP( m.rho,m.lam,m.mu ), vp ); check( rel( Co::getVelS( m.rho,m.mu ), std::sqrt( m.mu/m.rho ), EB ), "vs", "%s: %g", ms(m).c_str(), (double) Co::getVelS( m.rho,m.mu ) );
  check( rel( Co::getTimeStepCFL( m.rho,m.lam,m.mu,d,sc ), sc*d/(vp*(2.*ORDER-1)), 4*EB ), "cfl", "%s diameter %g: %g", ms(m).c_str(), d, Co::getTimeStepCFL( m.rho,m.lam,m.mu,d,sc ) );
  int n = r.i(1,40); std::vector<t_elementChars> ec( n ); std::vector< std::array<t_bgPars,1> > bg( n ); double mi = 1e300, ma = 0, av = 0; for( int i = 0; i < n; i++ ) { Mat x = mat( r, true ); bg[i][0].rho = x.rho; bg[i][0].lam = x.lam; bg[i][0].mu = x.mu; ec[i].inDia = r.r(0.1,100); double dt = SCALE_CFL*ec[i].inDia/(std::sqrt((x.lam+2*x.mu)/x.rho)*(2.*ORDER-1)); mi = std::min(mi,dt); ma = std::max(ma,dt); av += dt/n; }
  double a=-1,b=-1,c=-1; Co::getTimeStepStatsCFL( n, ec.data(), (t_bgPars const (*)[1]) bg.data(), a,b,c ); check( rel(a,mi,5*EB) && rel(b,av,5*EB) && rel(c,ma,5*EB), "cfl-stats", "%d elements: %g %g %g, expected %g %g %g", n, a,b,c, mi,av,ma );
  check( SCALE_CFL > 0 && SCALE_CFL <= 0.5, "cfl-scale", "CFL number %g", (double) SCALE_CFL ); stat("eval_speeds", 4); }
// attenuation
template<int D, int Z, class X> static void src( Rng & r, double eps ) {
  enum { S = Ix<D>::S }; int n = r.i(1,5); double fc = r.p(0.5) ? r.r(0.05,20) : std::pow(10.,r.r(-2,2)), ra = r.p(0.4) ? 100 : r.r(4,1000), qs = r.r(20,500), qp = qs*r.r(1,2.5); if( n == 1 ) ra = r.p(0.5) ? 1 : ra;
  bool si = r.p(0.5); Mat m = mat( r, si ); std::string in = fmt("%d mechanisms, frequency %g ratio %g, qp %g qs %g, %s", n, fc, ra, qp, qs, ms(m).c_str() );
  std::vector<double> w( 2*n ); std::vector<float> wf( 2*n ); w[2*n-1] = 77; wf[2*n-1] = 77; Vi::frequencies( n, fc, ra, w.data() ); Vi::frequencies( n, fc, ra, wf.data() ); check( w[2*n-1] == 77, "frequencies-count", "more than 2n-1 frequencies written" );
  for( int k = 0; k < 2*n-1; k++ ) { double e = 2*M_PI*fc*std::pow( ra, n==1 ? -0.5 : -0.5+k/(2.*(n-1)) ); check( rel( w[k], e, 1e-11 ) && rel( wf[k], e, 1e-5 ), "frequencies", "%s: frequency %d is %g (float %g), expected %g", in.c_str(), k, w[k], (double) wf[k], e ); }
  std::vector<double> buf( n*S*S+1, 5 ); std::vector<double> bs( n*Z+1, 5 ); auto de = (double (*)[S*S]) buf.data(); auto sp = (double (*)[Z]) bs.data(); double le=-1, me=-1, le2=-1, me2=-1; Vi::src( n, fc, ra, qp, qs, m.lam, m.mu, le, me, de ); Vi::src( n, fc, ra, qp, qs, m.lam, m.mu, le2, me2, sp ); check( buf[n*S*S] == 5 && bs[n*Z] == 5, "source-size", "%s: write beyond the matrices", in.c_str() );
  std::vector<X> xb( n*Z ); double le3, me3; Vi::src( n, fc, ra, qp, qs, m.lam, m.mu, le3, me3, (X (*)[Z]) xb.data() );
  double pm = le+2*me, sc = m.lam+2*m.mu; check( le == le2 && me == me2 && le == le3, "source-lame", "%s: elastic parameters differ: %g %g", in.c_str(), le, le2 );
  for( int l = 0; l < n; l++ ) { int z = 0; for( int i = 0; i < S; i++ ) for( int j = 0; j < S; j++ ) { double e; if( i == j ) e = i < D ? de[l][0] : de[l][S*S-1]; else e = (i < D && j < D) ? de[l][0]-de[l][S*S-1] : 0; check( near( de[l][i*S+j], e, 1e-12, 10*sc ), "source-isotropic", "%s: entry %d %d is %g, expected %g", in.c_str(), i, j, de[l][i*S+j], e );
      if( i == j || ( i < D && j < D ) ) { check( sp[l][z] == de[l][i*S+j] && near( xb[l*Z+z], de[l][i*S+j], eps, sc ), "source-sparse", "%s: non-zero %d: %g, dense %g", in.c_str(), z, sp[l][z], de[l][i*S+j] ); z++; } } check( z == Z, "source-nz", "%d", z ); }
  // moduli: the least squares fit of constant quality factors and the phase velocities at the central frequency
  for( int ps = 0; ps < 2; ps++ ) { double M = ps ? 2*me : pm, ph = ps ? 2*m.mu : m.lam+2*m.mu, q = ps ? qs : qp; std::vector<double> y( n ); for( int l = 0; l < n; l++ ) y[l] = -(ps ? de[l][S*S-1] : de[l][0])/M;
    typedef std::complex<double> Cx; auto mod = [&]( double om ) { Cx s = M; for( int l = 0; l < n; l++ ) s += Cx( ps ? de[l][S*S-1] : de[l][0] )*w[2*l]/(w[2*l]+Cx(0,om)); return s; };
    Cx c0 = mod( 2*M_PI*fc ); double cph = 1/std::real( std::sqrt( Cx(m.rho)/c0 ) ), ce = std::sqrt( ph/m.rho ); check( rel( cph, ce, 1e-9 ), ps ? "phase-velocity-s" : "phase-velocity-p", "%s: phase velocity %.10g at the central frequency, expected %.10g", in.c_str(), cph, ce );
    // optimality: gradient of the squared residual is zero
    int F = 2*n-1; std::vector<double> res( F ); std::vector< std::vector<double> > A( F, std::vector<double>( n ) ); double worst = 0; for( int k = 0; k < F; k++ ) { res[k] = -1/q; for( int l = 0; l < n; l++ ) { A[k][l] = (w[2*l]*w[k]+w[2*l]*w[2*l]/q)/(w[k]*w[k]+w[2*l]*w[2*l]); res[k] += A[k][l]*y[l]; } }
    for( int l = 0; l < n; l++ ) { double g = 0; for( int k = 0; k < F; k++ ) g += A[k][l]*res[k]; worst = std::max( worst, std::fabs(g) ); } check( worst*q < 1e-9, ps ? "fit-s" : "fit-p", "%s: gradient of the residual %g (relative)", in.c_str(), worst*q );
    std::vector<double> yc( n, 9 ); Vi::anelasticCoeffPs( n, q, w.data(), yc.data() ); double ym = 0; for( auto x: y ) ym = std::max( ym, std::fabs(x) ); for( int l = 0; l < n; l++ ) check( near( yc[l], y[l], 1e-8, ym ), "fit-coefficients", "%s: coefficient %d: %g, in the matrix %g", in.c_str(), l, yc[l], y[l] );
    if( n >= 3 && ra <= 100 ) for( int k = 0; k <= 20; k++ ) { double om = 2*M_PI*fc*std::pow( ra, -0.5+k/20. ); Cx c = mod( om ); double Q = c.real()/c.imag(); check( rel( Q, q, 0.08 ), "quality-factor", "%s: quality factor %g at frequency %g, expected %g", in.c_str(), Q, om/(2*M_PI), q ); } }
  stat("eval_attenuation", 6); sig( fmt("src %d %d %d %d", D, n, (int) (std::log(ra)*2), (int) qs/20 ) );
}
// two adjacent elements with boundary conditions, all matrices of the solver
template<bool SP> static void mesh( Rng & r ) {
  typedef edge::seismic::solvers::AderDgInit<T,SP> In; enum { Q = Ix<ED>::Q, S = Ix<ED>::S, NE = SP ? (ED==2?10:24) : Q*Q, NA = SP ? (ED==2?4:9) : S*ED, NS = SP ? (ED==2?5:12) : S*S }; typedef real_base X; double const eps = sizeof(X)==4 ? 2e-5 : 1e-10;
  int nv = 2*NV; int_el elVe[2][NV]; std::vector<t_vertexChars> ve( nv ); t_elementChars ec[2]; double J[2][3][3], det[2];
  for( int e = 0; e < 2; e++ ) { do { for( int d = 0; d < ED; d++ ) for( int k = 0; k < ED; k++ ) J[e][d][k] = (T == QUAD4R || T == HEX8R) ? (d==k)*r.r(0.2,3) : r.r(-2,2); det[e] = ED==2 ? J[e][0][0]*J[e][1][1]-J[e][0][1]*J[e][1][0] : J[e][0][0]*(J[e][1][1]*J[e][2][2]-J[e][1][2]*J[e][2][1])-J[e][0][1]*(J[e][1][0]*J[e][2][2]-J[e][1][2]*J[e][2][0])+J[e][0][2]*(J[e][1][0]*J[e][2][1]-J[e][1][1]*J[e][2][0]); } while( det[e] < 0.1 ); // J[d][k] = dx_k/dxi_d
    double x0[3] = {r.r(-5,5),r.r(-5,5),r.r(-5,5)}; for( int v = 0; v < NV; v++ ) { elVe[e][v] = e*NV+v; for( int k = 0; k < 3; k++ ) ve[e*NV+v].coords[k] = 0; for( int k = 0; k < ED; k++ ) { double x = x0[k]; for( int d = 0; d < ED; d++ ) x += C_REF_ELEMENT.VE.ENT[T][d*NV+v]*J[e][d][k]; ve[e*NV+v].coords[k] = x; } } }
  bool si = r.p(0.5); Mat m[2] = { mat(r,si), mat(r,si) }, mr = mat(r,si); t_bgPars bg[2], re[1]; for( int e = 0; e < 2; e++ ) { bg[e].rho = m[e].rho; bg[e].lam = m[e].lam; bg[e].mu = m[e].mu; } re[0].rho = mr.rho; re[0].lam = mr.lam; re[0].mu = mr.mu; for( int e = 0; e < 2; e++ ) { m[e].rho = bg[e].rho; m[e].lam = bg[e].lam; m[e].mu = bg[e].mu; } mr.rho = re[0].rho; mr.lam = re[0].lam; mr.mu = re[0].mu;
  // star matrices
  std::unique_ptr<X[]> se( new X[2*ED*NE] ), sa( new X[2*ED*NA] ); auto sE = (X (*)[ED][NE]) se.get(); auto sA = (X (*)[ED][NA]) sa.get(); bool an = m[0].mu > 0 && r.p(0.7); In::initStar( int_el(2), elVe, ve.data(), bg, sE, an ? sA : nullptr );
  for( int e = 0; e < 2; e++ ) { double M[ED][ED], G[ED][ED]; for( int i = 0; i < ED; i++ ) for( int j = 0; j < ED; j++ ) M[i][j] = J[e][i][j]; // inverse by Gauss-Jordan: G[k][d] = dxi_d/dx_k
    { double a[ED][2*ED]; for( int i = 0; i < ED; i++ ) for( int j = 0; j < ED; j++ ) { a[i][j] = M[i][j]; a[i][ED+j] = i==j; } for( int c = 0; c < ED; c++ ) { int p = c; for( int i = c; i < ED; i++ ) if( std::fabs(a[i][c]) > std::fabs(a[p][c]) ) p = i; for( int j = 0; j < 2*ED; j++ ) std::swap( a[c][j], a[p][j] ); double v = a[c][c]; for( int j = 0; j < 2*ED; j++ ) a[c][j] /= v; for( int i = 0; i < ED; i++ ) if( i != c ) { double f = a[i][c]; for( int j = 0; j < 2*ED; j++ ) a[i][j] -= f*a[c][j]; } } for( int i = 0; i < ED; i++ ) for( int j = 0; j < ED; j++ ) G[i][j] = a[i][ED+j]; }
    double ex[ED][NE], ea[ED][NA]; El::star( m[e].rho,m[e].lam,m[e].mu,G,ex ); Vi::star( G, ea ); double gm = 0; for( auto & x: G ) for( auto y: x ) gm = std::max( gm, std::fabs(y) );
    for( int d = 0; d < ED; d++ ) { for( int i = 0; i < NE; i++ ) check( near( sE[e][d][i], ex[d][i], eps, std::fabs(ex[d][i])+gm*std::max( m[e].mu*1e-3, 1e-3/m[e].rho ) ), "init-star", "element %d: star matrix %d entry %d is %g, expected %g", e, d, i, (double) sE[e][d][i], ex[d][i] ); if( an ) for( int i = 0; i < NA; i++ ) check( near( sA[e][d][i], ea[d][i], eps, gm ), "init-star-anelastic", "element %d: %d entry %d is %g, expected %g", e, d, i, (double) sA[e][d][i], ea[d][i] ); } }
  // faces: 0 is shared, the remaining ones boundaries; element 1 may be a send element
  int nFa = 2*NF-1; std::vector< std::array<int_el,2> > fe( nFa ); std::vector< std::array<int_el,NF> > ef( 2 ); std::vector<t_faceChars> fc( nFa ); std::vector<int> lid( nFa, -1 ); int f0 = r.i(0,NF-1), f1 = r.i(0,NF-1), k = 1; int_el const NO = std::numeric_limits<int_el>::max();
  bool send = r.p(0.5); int shared = r.i(0,nFa-1); auto id = [&]( int i ) { return (i+shared)%nFa; };
  for( int f = 0; f < NF; f++ ) { if( f == f0 ) ef[0][f] = id(0); else { ef[0][f] = id(k); fe[id(k)] = {{0,NO}}; lid[id(k)] = f; k++; } } for( int f = 0; f < NF; f++ ) { if( f == f1 ) ef[1][f] = id(0); else { ef[1][f] = id(k); fe[id(k)] = {{1,NO}}; lid[id(k)] = f; k++; } }
  bool sw = r.p(0.5); fe[id(0)] = {{sw?1:0,sw?0:1}}; std::vector< std::array<double,9> > fr( nFa ); int recvF = -1; unsigned short rFa[1] = {0}; int_el rEl[1] = {1};
  for( int i = 0; i < nFa; i++ ) { double n[3], s[3], t[3]; frame<ED>( r, n, s, t ); for( int d = 0; d < 3; d++ ) { fc[i].outNormal[d] = n[d]; fc[i].tangent0[d] = s[d]; fc[i].tangent1[d] = t[d]; } fc[i].area = r.r(0.1,4); fc[i].spType = i == id(0) ? (r.p(0.3) ? int_spType(PERIODIC) : int_spType(0)) : r.p(0.5) ? int_spType(FREE_SURFACE) : int_spType(OUTFLOW); }
  if( send ) { do recvF = r.i(0,nFa-1); while( fe[recvF][0] != 1 || fe[recvF][1] != NO ); fc[recvF].spType = 0; rFa[0] = lid[recvF]; }
  std::unique_ptr<X[]> fb( new X[2*2*NF*Q*Q] ), ab( new X[2*2*NF*S*Q] ); X (*fsE[2])[NF][Q*Q] = { (X (*)[NF][Q*Q]) fb.get(), (X (*)[NF][Q*Q]) (fb.get()+2*NF*Q*Q) }; X (*fsA[2])[NF][S*Q] = { an ? (X (*)[NF][S*Q]) ab.get() : nullptr, an ? (X (*)[NF][S*Q]) (ab.get()+2*NF*S*Q) : nullptr };
  In::initFs( int_el(send ? 1 : 2), int_el(send ? 1 : 0), int_el(nFa), int_el(send ? 1 : 0), rFa, rEl, (int_el const (*)[2]) fe.data(), elVe, (int_el const (*)[NF]) ef.data(), ve.data(), fc.data(), ec, bg, re, fsE, fsA );
  for( int e = 0; e < 2; e++ ) for( int f = 0; f < NF; f++ ) { int fa = ef[e][f]; bool sh = fa == id(0), fs = (fc[fa].spType & FREE_SURFACE) == FREE_SURFACE; double n[3]; for( int d = 0; d < 3; d++ ) n[d] = fc[fa].outNormal[d]*( sh && fe[fa][1] == e ? -1 : 1 ); Mat o = sh ? m[1-e] : fa == recvF ? mr : m[e];
    double ql[Q], qr[Q], g[Q], ga[S], c[Q] = {}, ca[S] = {}; rndQ( r, m[e], S, Q, ql ); rndQ( r, m[e], S, Q, qr ); double const * qq = fs ? ql : qr; riemann<ED>( m[e], o, n, ql, qq, fs, g, ga ); double sc = -fc[fa].area/det[e]*(T==TET4?2:1);
    for( int i = 0; i < Q; i++ ) { for( int j = 0; j < Q; j++ ) c[i] += double(fsE[0][e][f][i*Q+j])*ql[j]+double(fsE[1][e][f][i*Q+j])*qq[j]; g[i] *= sc; double z = i < S ? m[e].lam+2*m[e].mu : m[e].zp()/m[e].rho; check( near( c[i], g[i], eps, 20*z*std::fabs(sc) ), sh ? "init-flux" : fs ? "init-flux-free-surface" : fa == recvF ? "init-flux-receive" : "init-flux-outflow", "element %d (%d send) face %d, %s and %s: quantity %d is %g, expected %g", e, (int) send, f, ms(m[e]).c_str(), ms(o).c_str(), i, c[i], g[i] ); }
    if( an ) for( int i = 0; i < S; i++ ) { for( int j = 0; j < Q; j++ ) ca[i] += double(fsA[0][e][f][i*Q+j])*ql[j]+double(fsA[1][e][f][i*Q+j])*qq[j]; check( near( ca[i], ga[i]*sc, eps, 20*std::fabs(sc) ), "init-flux-anelastic", "element %d face %d: row %d is %g, expected %g", e, f, i, ca[i], ga[i]*sc ); } }
  // anelastic sources
  { int rm = r.i(1,4); double f = r.r(0.5,5), ra = r.r(10,200); t_bgPars b[2] = { bg[0], bg[1] }; for( int e = 0; e < 2; e++ ) { b[e].qs = r.r(20,200); b[e].qp = b[e].qs*2; } t_bgPars b0[2] = { b[0], b[1] }; std::vector<X> buf( 2*rm*NS ); In::initSrcA( int_el(2), rm, f, ra, b, (X (*)[NS]) buf.data() );
    for( int e = 0; e < 2; e++ ) { std::vector<double> ex( rm*NS ); double le, me; Vi::src( rm, f, ra, b0[e].qp, b0[e].qs, b0[e].lam, b0[e].mu, le, me, (double (*)[NS]) ex.data() ); check( rel( b[e].lam, le, eps ) && rel( b[e].mu, me, eps ) && b[e].rho == b0[e].rho, "init-source-lame", "element %d: lambda %g mu %g, expected %g %g", e, (double) b[e].lam, (double) b[e].mu, le, me ); for( int i = 0; i < rm*NS; i++ ) check( near( buf[e*rm*NS+i], ex[i], eps, m[e].lam+2*m[e].mu ), "init-source", "element %d of %d mechanisms: entry %d is %g, expected %g", e, rm, i, (double) buf[e*rm*NS+i], ex[i] ); } }
  stat("eval_mesh"); sig( fmt("mesh %d %d %d %d %d %d", (int) SP, (int) send, f0, f1, (int) sw, recvF ) );
}
VH_MAIN { Rng r( seed ); for( long i = 0; i < n; i++ ) { elastic<2>( r ); elastic<3>( r ); speeds( r ); src<2,5,real_base>( r, EB*100 ); src<3,12,real_base>( r, EB*100 ); if( i%2 ) { mesh<true>( r ); mesh<false>( r ); } } }
