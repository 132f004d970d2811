// elastic materials, fluxes, exact Riemann solutions and random frames
#ifndef ELASTIC_HPP
#define ELASTIC_HPP
#include "vh.hpp"
using namespace vh;
struct Mat { double rho, lam, mu; double zp() const { return std::sqrt( rho*(lam+2*mu) ); } double zs() const { return std::sqrt( rho*mu ); } };
static Mat mat( Rng & r, bool si, bool ac=false ) { // si: SI units, else close to one
  Mat m; double rho = si ? r.r(1000,4000) : r.r(0.3,3), vp = si ? r.r(800,8000) : r.r(0.5,4), vs = ac ? 0 : vp*r.r(0.1,0.69); m.rho = rho; m.mu = rho*vs*vs; m.lam = rho*vp*vp-2*m.mu; return m; }
template<int D> struct St { double s[D][D], v[D]; };
template<int D> struct Ix; // position of the components
template<> struct Ix<2> { enum { Q = 5, S = 3 }; static int s( int i, int j ) { return i==j ? i : 2; } };
template<> struct Ix<3> { enum { Q = 9, S = 6 }; static int s( int i, int j ) { if( i == j ) return i; int k = 3-i-j; return k==2 ? 3 : k==0 ? 4 : 5; } };
template<int D> static St<D> unpack( double const * q ) { St<D> o; for( int i = 0; i < D; i++ ) { o.v[i] = q[Ix<D>::S+i]; for( int j = 0; j < D; j++ ) o.s[i][j] = q[Ix<D>::s(i,j)]; } return o; }
template<int D> static void pack( St<D> const & o, double * q ) { for( int i = 0; i < D; i++ ) { q[Ix<D>::S+i] = o.v[i]; for( int j = 0; j < D; j++ ) q[Ix<D>::s(i,j)] = o.s[i][j]; } }
// flux in direction n: sum_k n_k A_k q; strain: sum_k of the anelastic part
template<int D> static void fluxOf( Mat const & m, double const * n, double const * v, double const * t, double * f, double * fa ) {
  St<D> o; double tr = 0; for( int i = 0; i < D; i++ ) tr += n[i]*v[i];
  double e[D][D]; for( int i = 0; i < D; i++ ) for( int j = 0; j < D; j++ ) { e[i][j] = 0.5*(n[i]*v[j]+n[j]*v[i]); o.s[i][j] = -(2*m.mu*e[i][j]+(i==j)*m.lam*tr); if( fa ) fa[Ix<D>::s(i,j)] = -e[i][j]; }
  for( int i = 0; i < D; i++ ) o.v[i] = -t[i]/m.rho;
  pack<D>( o, f ); }
template<int D> static void riemann( Mat const & l, Mat const & ri, double const * n, double const * ql, double const * qr, bool fs, double * f, double * fa ) {
  St<D> L = unpack<D>( ql ), R = unpack<D>( qr ); double tl[D], tr[D], vs[D], ts[D];
  for( int i = 0; i < D; i++ ) { tl[i] = tr[i] = 0; for( int j = 0; j < D; j++ ) { tl[i] += L.s[i][j]*n[j]; tr[i] += R.s[i][j]*n[j]; } }
  if( fs ) for( int i = 0; i < D; i++ ) tr[i] *= -1;
  double nt[2] = {0,0}, nv[2] = {0,0}; for( int i = 0; i < D; i++ ) { nt[0] += tl[i]*n[i]; nt[1] += tr[i]*n[i]; nv[0] += L.v[i]*n[i]; nv[1] += R.v[i]*n[i]; }
  double zl = l.zp(), zr = ri.zp(), vn = (nt[1]-nt[0]+zr*nv[1]+zl*nv[0])/(zl+zr), tn = nt[0]+zl*(vn-nv[0]); double sl = l.zs(), sr = ri.zs();
  for( int i = 0; i < D; i++ ) { double a = tl[i]-nt[0]*n[i], b = tr[i]-nt[1]*n[i], c = L.v[i]-nv[0]*n[i], d = R.v[i]-nv[1]*n[i], w, t;
    if( l.mu > 0 ) { w = (b-a+sr*d+sl*c)/(sl+sr); t = a+sl*(w-c); } else { w = c; t = a; }
    vs[i] = vn*n[i]+w; ts[i] = tn*n[i]+t; }
  fluxOf<D>( l, n, vs, ts, f, fa ); }
template<int D> static void frame( Rng & r, double n[3], double s[3], double t[3] ) { // right-handed and orthonormal
  for( int i = 0; i < 3; i++ ) { n[i] = s[i] = t[i] = 0; }
  if( D == 2 ) { double a = r.p(0.2) ? r.i(0,3)*M_PI/2 : r.r(0,2*M_PI); n[0] = std::cos(a); n[1] = std::sin(a); return; }
  double l = 0; for( int i = 0; i < 3; i++ ) { n[i] = r.n(); l += n[i]*n[i]; } if( r.p(0.2) ) { int k = r.i(0,2); double sg = r.p(0.5)?1:-1; for( int i = 0; i < 3; i++ ) n[i] = (i==k)*sg; l = 1; } for( int i = 0; i < 3; i++ ) n[i] /= std::sqrt(l);
  double d; do { d = 0; for( int i = 0; i < 3; i++ ) { s[i] = r.n(); d += s[i]*n[i]; } l = 0; for( int i = 0; i < 3; i++ ) { s[i] -= d*n[i]; l += s[i]*s[i]; } } while( l < 1e-2 );
  for( int i = 0; i < 3; i++ ) s[i] /= std::sqrt(l); for( int i = 0; i < 3; i++ ) t[i] = n[(i+1)%3]*s[(i+2)%3]-n[(i+2)%3]*s[(i+1)%3]; }
static void rndQ( Rng & r, Mat const & m, int S, int Q, double * q ) { double sc = m.zp(); for( int i = 0; i < Q; i++ ) q[i] = r.r(-1,1)*(i < S ? sc : 1); } // stresses of the size of impedance times velocity
template<int Q> static bool cmp( double const * a, double const * b, int S, Mat const & m, double eps, char const * key, std::string const & in ) { // a: code
  bool ok = true; for( int i = 0; i < Q && ok; i++ ) { double sc = i < S ? m.lam+2*m.mu : m.zp()/m.rho; ok = check( near( a[i], b[i], eps, 20*sc ), key, "%s: quantity %d is %.10g, expected %.10g", in.c_str(), i, a[i], b[i] ); } return ok; }
static std::string ms( Mat const & m ) { return fmt("(rho %g lambda %g mu %g)", m.rho, m.lam, m.mu ); }
#endif
