// C20: basis functions, projections and evaluated quadrature rules of an element type and order (PP_ORDER)
#include "vh.hpp"
#include <io/logging.h>
#include "constants.hpp"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#include "dg/QuadratureEval.hpp"
using namespace vh;
static t_entityType const T = T_SDISC.ELEMENT;
static int const ND = N_DIM, NM = CE_N_ELEMENT_MODES(T,ORDER);
static bool const SIMPLEX = T==TRIA3 || T==TET4;
typedef edge::dg::Basis B;
static real_base const EPS = sizeof(real_base)==4 ? 1e-5 : 1e-11;
struct P { double x[3]; };
static P randRef( Rng & r, double m=0.02 ) { for(;;) { P p = {{0,0,0}}; double s = 0; for( int d = 0; d < ND; d++ ) { p.x[d] = r.r(m,1-m); s += p.x[d]; } if( SIMPLEX && s > 1-m ) continue; return p; } }
// random polynomial of the space: total degree (simplices) or degree per dimension below the order
struct Poly { std::vector< std::array<int,3> > e; std::vector<double> c; double operator()( P const & p ) const { double s = 0; for( std::size_t i = 0; i < c.size(); i++ ) s += c[i]*std::pow(p.x[0],e[i][0])*std::pow(p.x[1],e[i][1])*std::pow(p.x[2],e[i][2]); return s; } };
static Poly randPoly( Rng & r ) { Poly q; for( int a = 0; a < ORDER; a++ ) for( int b = 0; b < (ND>1?ORDER:1); b++ ) for( int c = 0; c < (ND>2?ORDER:1); c++ ) { if( SIMPLEX && a+b+c >= ORDER ) continue; q.e.push_back({{a,b,c}}); q.c.push_back( r.r(-1,1) ); } return q; }
VH_MAIN {
  edge::dg::Basis b( T, ORDER );
  check( randPoly(*new Rng(1)).c.size() == (std::size_t)NM, "basis/modes", "%d modes, the space has %zu dimensions", NM, randPoly(*new Rng(1)).c.size() );
  // quadrature of the reference element
  int oq = ORDER+1; std::vector<double> X,Y,Z,W; edge::dg::QuadraturePoints::getQpts( T, (unsigned) oq, C_REF_ELEMENT.VE.ENT[T], X,Y,Z,W );
  std::vector<real_base> mi( NM*NM ); b.getMassInvDense( NM, mi.data() );
  std::vector<real_base> mc( NM*NM ); b.getMassInvDense( NM, mc.data(), false );
  for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) {
    double m = 0; for( std::size_t q = 0; q < W.size(); q++ ) m += W[q] * B::evalBasis(i,T,X[q],Y[q],Z[q],-1,ORDER) * B::evalBasis(j,T,X[q],Y[q],Z[q],-1,ORDER);
    if( i != j ) check( std::fabs(m) < EPS*10 && mi[i*NM+j] == 0, "basis/orthogonal", "product of basis functions %d and %d is %g", i, j, m );
    else check( rel(m*mi[i*NM+i],1,EPS*100), "basis/mass", "mass of basis function %d is %g, inverse %g", i, m, (double) mi[i*NM+i] );
    check( mc[i*NM+j] == mi[j*NM+i], "basis/massColMajor", "entry %d %d", i, j );
    stat("eval_mass");
  }
  for( long it = 0; it < n; it++ ) {
    Rng r( seed*1000003+it );
    P p = randRef(r); check( near(B::evalBasis(0,T,p.x[0],p.x[1],p.x[2],-1,ORDER),1,EPS), "basis/constant", "first basis function is %g", (double) B::evalBasis(0,T,p.x[0],p.x[1],p.x[2],-1,ORDER) );
    // derivatives against central differences of fourth order
    for( int md = 0; md < NM; md++ ) for( int d = 0; d < ND; d++ ) {
      double h = sizeof(real_base)==4 ? 0.02 : 2e-3, f[4]; double o[4] = {-2,-1,1,2}; for( int k = 0; k < 4; k++ ) { P q = p; q.x[d] += o[k]*h; f[k] = B::evalBasis(md,T,q.x[0],q.x[1],q.x[2],-1,ORDER); }
      double num = (f[0]-8*f[1]+8*f[2]-f[3])/(12*h), an = B::evalBasis(md,T,p.x[0],p.x[1],p.x[2],d,ORDER);
      check( near(num,an,sizeof(real_base)==4?3e-2:1e-6,10+std::fabs(an)), "basis/derivative", "derivative %d of basis function %d at (%g,%g,%g) is %g, difference quotient %g", d, md, p.x[0],p.x[1],p.x[2], an, num ); stat("eval_derivative"); }
    real_mesh pt[3] = {p.x[0],p.x[1],p.x[2]};
    { int md = r.i(0,NM-1); check( B::evalBasis(md,T,pt,-1,ORDER) == B::evalBasis(md,T,p.x[0],p.x[1],p.x[2],-1,ORDER), "basis/pointer", "variants of evalBasis differ" ); }
    // projection of polynomials of the space is exact, also at points which are not quadrature points
    Poly q = randPoly(r); int oo = SIMPLEX ? ORDER+1 : r.i(ORDER,ORDER+1); std::vector<double> x,y,z,w; edge::dg::QuadraturePoints::getQpts( T, (unsigned) oo, C_REF_ELEMENT.VE.ENT[T], x,y,z,w );
    std::vector<real_base> f( w.size() ), m( NM ); for( std::size_t k = 0; k < w.size(); k++ ) f[k] = q( P{{x[k],y[k],z[k]}} );
    b.qpts2modal( f.data(), oo, m.data() );
    // points on the boundary include the singularity of collapsed coordinates
    if( r.p(0.3) ) { if( r.p(0.5) ) { int ve = r.i(0,C_ENT[T].N_VERTICES-1); for( int d = 0; d < ND; d++ ) p.x[d] = C_REF_ELEMENT.VE.ENT[T][d*C_ENT[T].N_VERTICES+ve]; } else { int v0 = r.i(0,C_ENT[T].N_VERTICES-1), v1 = r.i(0,C_ENT[T].N_VERTICES-1); double a = r.pick(std::vector<double>{0.5,0.25,0.3}); for( int d = 0; d < ND; d++ ) p.x[d] = a*C_REF_ELEMENT.VE.ENT[T][d*C_ENT[T].N_VERTICES+v0] + (1-a)*C_REF_ELEMENT.VE.ENT[T][d*C_ENT[T].N_VERTICES+v1]; } for( int d = 0; d < ND; d++ ) pt[d] = p.x[d]; stat("eval_boundary_points"); }
    real_base v = b.modal2ptval( pt, m.data() ); double ex = q(p);
    check( near(v,ex,EPS*1000,5), "basis/projection", "projected polynomial is %g instead of %g at (%g,%g,%g), quadrature of order %d", (double) v, ex, p.x[0],p.x[1],p.x[2],oo );
    int k = r.i(0,(long)w.size()-1); v = b.modal2refPtVal( oo, k, m.data() ); check( near(v,f[k],EPS*1000,5), "basis/refPt", "value %g instead of %g at quadrature point %d", (double) v, (double) f[k], k );
    stat("eval_projection",2); sig( fmt("p/%d/%d/%ld",(int)T,ORDER,it) );
  }
#if !defined PP_T_ELEMENTS_LINE
  { // evaluated rules: points on faces of both sides, values of the basis
    static unsigned short const NF = C_ENT[T].N_FACES, NO = CE_N_FACE_VERTEX_OPTS(T), NQ = CE_N_FACE_QUAD_POINTS(T,ORDER), NE = CE_N_QUAD_POINTS(T,ORDER);
    typedef edge::dg::QuadratureEval<T,ORDER,ORDER,1> Q;
    auto *pf = new real_mesh[(NO+1)*NF][NQ][N_DIM]; auto *wf = new real_base[NQ]; auto *bf = new real_base[(NO+1)*NF][NQ][N_ELEMENT_MODES];
    Q::faces( pf, wf, bf );
    t_entityType FT = C_ENT[T].TYPE_FACES; double sw = 0; for( int i = 0; i < NQ; i++ ) sw += wf[i]; check( near(sw,FT==TRIA3?0.5:1,EPS*10), "qe/weights", "weights of the faces sum up to %g", sw );
    int nfv = C_ENT[T].N_FACE_VERTICES; auto fv = [&]( int f, int v, int d ) { return (double) C_REF_ELEMENT.FA.ENT[T][ d*NF*nfv + f*nfv + v ]; };
    std::vector<double> cx,cy,cz,cw; edge::dg::QuadraturePoints::getQpts( FT, (unsigned) ORDER, C_REF_ELEMENT.VE.ENT[FT], cx,cy,cz,cw );
    for( int f = 0; f < NF; f++ ) for( int q = 0; q < NQ; q++ ) for( int o = -1; o < NO; o++ ) {
      int pos = o < 0 ? f : NF + f*NO + o; double c[2] = {cx[q],cy[q]};
      if( o >= 0 ) { if( ND == 2 ) c[0] = 1-c[0]; else if( T == HEX8R ) std::swap(c[0],c[1]); else { double bc[3] = {1-c[0]-c[1],c[0],c[1]}, bn[3]; for( int i = 0; i < 3; i++ ) bn[(o-i+3)%3] = bc[i]; c[0] = bn[1]; c[1] = bn[2]; } }
      for( int d = 0; d < ND; d++ ) { double ex = fv(f,0,d) + c[0]*(fv(f,1,d)-fv(f,0,d)); if( ND==3 ) ex += c[1]*(fv(f,T==TET4?2:3,d)-fv(f,0,d));
        check( near(pf[pos][q][d],ex,1e-10), "qe/facePoint", "face %d, option %d, point %d: dimension %d is %g instead of %g", f, o, q, d, (double) pf[pos][q][d], ex ); }
      for( int md = 0; md < NM; md++ ) { double ex = B::evalBasis(md,T,pf[pos][q],-1,ORDER); check( near(bf[pos][q][md],ex,EPS), "qe/faceBasis", "face %d, option %d, point %d, mode %d", f,o,q,md ); }
      stat("eval_face_points");
    }
    auto *pe = new double[NE][N_DIM]; auto *we = new double[NE]; auto *be = new double[NE][N_ELEMENT_MODES];
    Q::element( pe, we, be );
    for( int i = 0; i < NM; i++ ) { double s = 0; for( int q = 0; q < NE; q++ ) { s += we[q]*be[q][i]; double ex = B::evalBasis(i,T,pe[q],-1,ORDER); check( near(be[q][i],ex,EPS), "qe/elementBasis", "point %d, mode %d", q, i ); } if( ORDER > 1 || !SIMPLEX ) check( near(s,i==0?(T==TRIA3?0.5:T==TET4?1./6:1):0,EPS*10), "qe/elementMean", "integral of mode %d is %g", i, s ); stat("eval_element"); }
    Rng r(seed); double dofs[N_ELEMENT_MODES][1], ev[1], ex = 0; int q = r.i(0,NE-1); for( int i = 0; i < NM; i++ ) { dofs[i][0] = r.r(-1,1); ex += dofs[i][0]*be[q][i]; }
    Q::evalBasis( be[q], dofs, ev ); check( near(ev[0],ex,1e-10), "qe/evalBasis", "%g instead of %g", ev[0], ex );
    double xl[ORDER], wl[ORDER]; edge::dg::QuadratureEvalBase<ORDER,ORDER>::line( xl, wl );
    for( int k = 0; k < 2*ORDER; k++ ) { double s = 0; for( int i = 0; i < ORDER; i++ ) s += wl[i]*std::pow(xl[i],k); check( near(s,1.0/(k+1),1e-10), "qe/line", "integral of x^%d is %g", k, s ); }
  }
#endif
}
