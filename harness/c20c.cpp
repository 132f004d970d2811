// C20: basis functions of all orders which EDGE provides (lines, quads, hexes: 10, tris: 10, tets: 11): orthogonality, degrees, derivatives
#include "vh.hpp"
#include <io/logging.h>
#include "constants.hpp"
#include "dg/Basis.h"
using namespace vh;
typedef edge::dg::Basis B; typedef long double L;
static void gauss( int n, std::vector<double> & x, std::vector<double> & w ) { // on [0,1]
  x.resize( n ); w.resize( n );
  for( int i = 0; i < n; i++ ) { L z = std::cos( M_PIl*(i+0.75L)/(n+0.5L) ), p = 0, d = 0; for( int k = 0; k < 100; k++ ) { L a = 1, b = 0; for( int j = 0; j < n; j++ ) { L c = b; b = a; a = ((2*j+1)*z*b-j*c)/(j+1); } p = a; d = n*(z*a-b)/(z*z-1); L s = p/d; z -= s; if( std::fabs(s) < 1e-18L ) break; } x[i] = (1-z)/2; w[i] = 1/((1-z*z)*d*d); }
}
struct El { t_entityType t; int dim, maxOrder; char const * name; };
static std::size_t modes( El const & e, int o ) { return e.t == TRIA3 ? o*(o+1)/2 : e.t == TET4 ? o*(o+1)*(o+2)/6 : (std::size_t) std::pow( o+0., e.dim )+0.5; }
static double ev( El const & e, unsigned b, double const * p, int d, int o ) { return B::evalBasis( b, e.t, p[0], e.dim > 1 ? p[1] : 0., e.dim > 2 ? p[2] : 0., d, o ); }
VH_MAIN { Rng r( seed );
  El els[5] = { {LINE,1,10,"line"}, {QUAD4R,2,10,"quad4r"}, {TRIA3,2,10,"tria3"}, {HEX8R,3,7,"hex8r"}, {TET4,3,11,"tet4"} };
  std::vector<double> x, w;
  for( El const & e : els ) {
    int o = e.maxOrder; bool sx = e.t == TRIA3 || e.t == TET4; std::size_t nm = modes( e, o ); gauss( o+1, x, w ); int n = o+1;
    // points of the collapsed tensor rule
    std::vector< std::array<double,4> > P;
    for( int a = 0; a < n; a++ ) for( int b = 0; b < (e.dim>1?n:1); b++ ) for( int c = 0; c < (e.dim>2?n:1); c++ ) {
      double X = x[a], Y = e.dim > 1 ? x[b] : 0, Z = e.dim > 2 ? x[c] : 0, W = w[a]*(e.dim>1?w[b]:1)*(e.dim>2?w[c]:1);
      if( e.t == TRIA3 ) { W *= 1-Y; X *= 1-Y; } else if( e.t == TET4 ) { W *= (1-Z)*(1-Z)*(1-Y); Y *= 1-Z; X *= 1-Y-Z; }
      P.push_back( {{X,Y,Z,W}} ); }
    // random subset of the points for large spaces is not possible: all points, modes restricted to a sample for hexes and tets
    std::vector<unsigned> M; for( unsigned m = 0; m < nm; m++ ) M.push_back( m );
    if( nm > 300 ) { r.shuffle( M ); M.resize( 120 ); }
    std::vector< std::vector<double> > V( M.size(), std::vector<double>( P.size() ) );
    for( std::size_t k = 0; k < M.size(); k++ ) for( std::size_t q = 0; q < P.size(); q++ ) V[k][q] = ev( e, M[k], P[q].data(), -1, o );
    // Gram matrix
    std::vector<double> mass( M.size() ); for( std::size_t k = 0; k < M.size(); k++ ) for( std::size_t q = 0; q < P.size(); q++ ) mass[k] += P[q][3]*V[k][q]*V[k][q];
    for( std::size_t k = 0; k < M.size(); k++ ) for( std::size_t l = 0; l < k; l++ ) { double s = 0; for( std::size_t q = 0; q < P.size(); q++ ) s += P[q][3]*V[k][q]*V[l][q];
      stat("eval_orthogonal"); if( !check( std::fabs(s) <= 1e-9*std::sqrt(mass[k]*mass[l]), fmt("basis-all/%s/orthogonal",e.name), "modes %u and %u of order %d: integral of the product is %g for norms %g, %g", M[k], M[l], o, s, std::sqrt(mass[k]), std::sqrt(mass[l]) ) ) break; }
    // degree of the modes: orthogonal to no more than needed, and polynomials of the right degree (projection on lines)
    for( std::size_t k = 0; k < M.size(); k++ ) { unsigned m = M[k]; int deg; if( sx ) { deg = 0; while( modes( e, deg+1 ) <= m ) deg++; } else { deg = m%o + (e.dim>1 ? (m/o)%o : 0) + (e.dim>2 ? m/o/o : 0); }
      // restricted to a random segment a mode is a polynomial of its degree: the difference of degree+1 vanishes, the one of the degree is constant
      double a[3], b[3]; for( int it = 0; it < 4; it++ ) { double s = 0; for( int d = 0; d < 3; d++ ) { a[d] = r.r(0.02,0.98); b[d] = r.r(0.02,0.98); } if( sx ) for( double * p : { a, b } ) { s = 0; double g[4]; for( int d = 0; d <= e.dim; d++ ) s += g[d] = r.r(0.05,1); for( int d = 0; d < e.dim; d++ ) p[d] = g[d]/s; }
        // interpolation at degree+1 Chebyshev points reproduces the mode
        int np = deg+1; std::vector<double> t( np ), f( np ), bw( np ); double sc = 1e-30;
        for( int i = 0; i < np; i++ ) { t[i] = 0.5-0.5*std::cos( M_PI*(i+0.5)/np ); double p[3]; for( int d = 0; d < 3; d++ ) p[d] = a[d]+t[i]*(b[d]-a[d]); f[i] = ev( e, m, p, -1, o ); sc = std::max( sc, std::fabs(f[i]) ); bw[i] = (i%2?-1:1)*std::sin( M_PI*(i+0.5)/np ); }
        double u = r.r(0,1), num = 0, den = 0, p[3]; bool hit = false; for( int i = 0; i < np; i++ ) { if( std::fabs(u-t[i]) < 1e-9 ) hit = true; num += bw[i]/(u-t[i])*f[i]; den += bw[i]/(u-t[i]); } if( hit ) continue;
        for( int d = 0; d < 3; d++ ) p[d] = a[d]+u*(b[d]-a[d]); double v = ev( e, m, p, -1, o ); stat("eval_degree");
        check( std::fabs(v-num/den) <= 1e-8*(1+sc), fmt("basis-all/%s/degree",e.name), "mode %u of order %d is not a polynomial of degree %d: %.12g instead of %.12g", m, o, deg, v, num/den );
        // derivatives against differences of sixth order in every dimension
        for( int d = 0; d < e.dim; d++ ) { double h = 1e-3, s6 = 0, q[3], top = 0; static double const co[7] = {-1./60,3./20,-3./4,0,3./4,-3./20,1./60};
          for( int i = -3; i <= 3; i++ ) { for( int j = 0; j < 3; j++ ) q[j] = p[j]; q[d] += i*h; double z = ev( e, m, q, -1, o ); top = std::max( top, std::fabs(z) ); s6 += co[i+3]*z/h; }
          double an = ev( e, m, p, d, o ); stat("eval_derivative");
          check( std::fabs(an-s6) <= 1e-7*(std::fabs(an)+(1+top)*(1+deg*deg)), fmt("basis-all/%s/derivative",e.name), "mode %u of order %d: derivative %d at (%g,%g,%g) is %.12g, differences give %.12g", m, o, d, p[0], p[1], p[2], an, s6 ); } } }
    // positive first mode, ids beyond the order are the same functions for hierarchical bases
    double p[3] = {0.2,0.3,0.1}; check( std::fabs( ev( e, 0, p, -1, o )-1 ) < 1e-12, fmt("basis-all/%s/constant",e.name), "first mode is %g", ev( e, 0, p, -1, o ) );
    sig( fmt("all %s %d %ld", e.name, o, (long) seed) ); }
}
