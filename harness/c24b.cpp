// C24: time prediction, volume and surface kernels against quadrature of the weak form (element, order, runs of the configuration)
#include "vh.hpp"
#include <array>
#include <memory>
#include <io/logging.h>
#include "constants.hpp"
#include "dg/Basis.h"
#include "dg/QuadraturePoints.h"
#ifdef PP_T_EQUATIONS_SEISMIC
#include "impl/seismic/kernels/Kernels.hpp"
#else
#include "impl/advection/kernels/TimePred.hpp"
#include "impl/advection/kernels/VolInt.hpp"
#include "impl/advection/kernels/SurfInt.hpp"
#endif
using namespace vh;
typedef real_base R;
static t_entityType const T = T_SDISC.ELEMENT; static t_entityType const FT = C_ENT[T].TYPE_FACES;
enum { ND = N_DIM, NM = CE_N_ELEMENT_MODES(T,ORDER), NF = C_ENT[T].N_FACES, NMF = CE_N_ELEMENT_MODES(FT,ORDER), C = PP_N_CRUNS };
static int const NO = T == TET4 ? 3 : 1;
static double const EPS = sizeof(R)==4 ? 2e-5 : 1e-11;
typedef edge::dg::Basis B;
static double ev( int m, double const * p, int d=-1 ) { return B::evalBasis( m, T, p[0], ND>1?p[1]:0., ND>2?p[2]:0., d, ORDER ); }
static double D[3][NM][NM]; // modal derivative: coefficients of d/dx of mode j
static double K[3][NM][NM]; // volume: [i][j] inverse mass times integral of (d phi_i) phi_j
static double S[NF][NM][NM]; // local: inverse mass times face integral of phi_i phi_j
static double N[NF][NF*3][NM][NM]; // neighboring
static void facePt( int f, int o, double const * c0, double * p ) {
  int nfv = C_ENT[T].N_FACE_VERTICES; auto fv = [&]( int v, int d ) { return (double) C_REF_ELEMENT.FA.ENT[T][ d*NF*nfv + f*nfv + v ]; };
  double c[2] = {c0[0],c0[1]};
  if( o >= 0 ) { if( ND == 2 ) c[0] = 1-c[0]; else if( T == HEX8R ) std::swap(c[0],c[1]); else if( ND == 3 ) { double bc[3] = {1-c[0]-c[1],c[0],c[1]}, bn[3]; for( int i = 0; i < 3; i++ ) bn[(o-i+3)%3] = bc[i]; c[0] = bn[1]; c[1] = bn[2]; } }
  for( int d = 0; d < ND; d++ ) { p[d] = fv(0,d); if( ND > 1 ) p[d] += c[0]*(fv(1,d)-fv(0,d)); if( ND==3 ) p[d] += c[1]*(fv(T==TET4?2:3,d)-fv(0,d)); }
}
static void init() {
  std::vector<double> x,y,z,w; edge::dg::QuadraturePoints::getQpts( T, (unsigned) ORDER+1, C_REF_ELEMENT.VE.ENT[T], x,y,z,w );
  double m[NM] = {}; std::vector< std::vector<double> > v( w.size(), std::vector<double>(NM) );
  for( std::size_t q = 0; q < w.size(); q++ ) { double p[3] = {x[q],ND>1?y[q]:0,ND>2?z[q]:0}; for( int i = 0; i < NM; i++ ) { v[q][i] = ev(i,p); m[i] += w[q]*v[q][i]*v[q][i]; } }
  for( std::size_t q = 0; q < w.size(); q++ ) { double p[3] = {x[q],ND>1?y[q]:0,ND>2?z[q]:0}; for( int d = 0; d < ND; d++ ) for( int i = 0; i < NM; i++ ) { double g = ev(i,p,d); for( int j = 0; j < NM; j++ ) { D[d][j][i] += w[q]*v[q][j]*g/m[j]; K[d][i][j] += w[q]*g*v[q][j]/m[i]; } } }
  if( ND > 1 ) { x.clear(); y.clear(); z.clear(); w.clear(); edge::dg::QuadraturePoints::getQpts( FT, (unsigned) ORDER+1, C_REF_ELEMENT.VE.ENT[FT], x,y,z,w ); } else { x = {0}; y = {0}; w = {1}; }
  for( int f = 0; f < NF; f++ ) for( std::size_t q = 0; q < w.size(); q++ ) { double c[2] = {x[q],ND>2?y[q]:0}, p[3], n[3], a[NM]; facePt( f, -1, c, p ); for( int i = 0; i < NM; i++ ) a[i] = ev(i,p);
    for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) S[f][i][j] += w[q]*a[i]*a[j]/m[i];
    for( int f2 = 0; f2 < NF; f2++ ) for( int o = 0; o < NO; o++ ) { facePt( f2, o, c, n ); for( int j = 0; j < NM; j++ ) { double b = ev(j,n); for( int i = 0; i < NM; i++ ) N[f][o*NF+f2][i][j] += w[q]*a[i]*b/m[i]; } } }
}
template<class X> static void rnd( Rng & r, X * x, std::size_t k, double s=1 ) { for( std::size_t i = 0; i < k; i++ ) x[i] = r.r(-s,s); }
struct Cmp { double worst = 0, scale = 1e-30; void add( double a, double b ) { worst = std::max( worst, std::isfinite(a) ? std::fabs(a-b) : 1e30 ); scale = std::max( scale, std::fabs(b) ); } };
static bool ok( Cmp const & c, char const * key, double add=0 ) { stat("eval_kernel"); return check( c.worst <= EPS*100*(c.scale+add), key, "element %d order %d runs %d: difference %g for values up to %g", (int) T, ORDER, (int) C, c.worst, c.scale ); }

#ifdef PP_T_EQUATIONS_SEISMIC
enum { RM = N_RELAXATION_MECHANISMS, RMA = RM ? RM : 1, QE = CE_N_QTS_E(ND), QM = CE_N_QTS_M(ND) };
// sparse storage of the element-local matrices (fused LIBXSMM kernels): positions of the packed values in the dense matrices
#ifdef PP_T_KERNELS_XSMM
enum { NSE = CE_N_ENS_STAR_E_SP(ND), NSA = CE_N_ENS_STAR_A_SP(ND), NSS = CE_N_ENS_SRC_A_SP(ND) };
#else
enum { NSE = QE*QE, NSA = QM*ND, NSS = QM*QM };
#endif
static std::vector<unsigned> pE, pA, pS;
static void pattern() {
#ifdef PP_T_KERNELS_XSMM
  typedef edge::seismic::kernels::FakeMats<ND> F; t_matCsr m; auto get = [&]( std::vector<unsigned> & p, unsigned rows, unsigned ld, unsigned off ) { for( unsigned i = 0; i < rows; i++ ) for( unsigned e = m.rowPtr[i]; e < m.rowPtr[i+1]; e++ ) p.push_back( i*ld + m.colIdx[e]-off ); };
  F::starCsrE( m ); get( pE, QE, QE, 0 ); if( RM ) { F::starCsrA( m ); get( pA, QM, ND, QM ); F::srcCsrA( m ); get( pS, QM, QM, 0 ); }
#else
  for( unsigned i = 0; i < NSE; i++ ) pE.push_back( i ); for( unsigned i = 0; i < NSA; i++ ) pA.push_back( i ); for( unsigned i = 0; i < NSS; i++ ) pS.push_back( i );
#endif
}
// random coefficients: dense for the reference, packed for the kernels
static void coeff( Rng & r, R * de, std::size_t nd, R * pk, std::size_t np, std::vector<unsigned> const & p ) { std::fill( de, de+nd, R(0) ); for( std::size_t i = 0; i < np; i++ ) pk[i] = 0; for( std::size_t i = 0; i < p.size() && i < np; i++ ) de[ p[i] ] = pk[i] = r.r(-1,1); }
VH_MAIN { init(); Rng r( seed ); edge::parallel::g_nThreads = 1; pattern();
  check( pE.size() == NSE && ( !RM || ( pA.size() == NSA && pS.size() == NSS ) ), "sparse-pattern", "%d %d %d entries in the sparse matrices for patterns of %d %d %d", (int) NSE, (int) NSA, (int) NSS, (int) pE.size(), (int) pA.size(), (int) pS.size() );
  for( long it = 0; it < n; it++ ) {
    R rf[RMA]; for( int i = 0; i < RMA; i++ ) rf[i] = r.r(0.1,2);
    edge::data::Dynamic dyn; edge::seismic::kernels::Kernels<R,RM,T,ORDER,ORDER,C> k( RM ? rf : nullptr, dyn );
    struct W { R kE[ND][NSE], kA[ND][NSA], kS[RMA][NSS], sE[ND][QE*QE], sA[ND][QM*ND], src[RMA][QM*QM], q[QE][NM][C], a[RMA][QM][NM][C], scr[2][QE][NM][C], derE[ORDER][QE][NM][C], derA[RMA][ORDER][QM][NM][C], tE[QE][NM][C], tA[RMA][QM][NM][C], t2[QE][NM][C], fsE[NF][QE*QE], fsA[NF][QM*QE], o[QE][NM][C], oA[RMA][QM][NM][C]; };
    std::unique_ptr<W> w( new W ); memset( (void*) w.get(), 0x7f, sizeof(W) );
    for( int d = 0; d < ND; d++ ) { coeff( r, w->sE[d], QE*QE, w->kE[d], NSE, pE ); coeff( r, w->sA[d], QM*ND, w->kA[d], NSA, pA ); } for( int m = 0; m < RMA; m++ ) coeff( r, w->src[m], QM*QM, w->kS[m], NSS, pS ); rnd( r, &w->q[0][0][0], QE*NM*C ); rnd( r, &w->a[0][0][0][0], RMA*QM*NM*C ); rnd( r, &w->fsE[0][0], NF*QE*QE ); rnd( r, &w->fsA[0][0], NF*QM*QE );
    R dt = r.r(0.001,0.05);
    k.m_time.ck( dt, w->kE, RM ? w->kA : nullptr, RM ? w->kS : nullptr, w->q, RM ? w->a : nullptr, w->scr[0], w->derE, RM ? w->derA : nullptr, w->tE, RM ? w->tA : nullptr );
    // reference: Cauchy-Kowalevski procedure with the derivatives of the basis
    typedef std::vector< std::vector<double> > V;
    auto grad = [&]( std::vector<double> const & q, int d ) { std::vector<double> g( q.size() ); for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) if( D[d][i][j] != 0 ) for( int c = 0; c < C; c++ ) g[i*C+c] += D[d][i][j]*q[j*C+c]; return g; };
    for( int sgn = 1; sgn >= (RM ? -1 : 1); sgn -= 2 ) {
      // sgn: the relaxation of the anelastic quantities enters with minus; the other sign is what the code does (known finding)
      std::vector<V> de( ORDER, V( QE, std::vector<double>(NM*C) ) ); std::vector< std::vector<V> > da( RMA, std::vector<V>( ORDER, V( QM, std::vector<double>(NM*C) ) ) );
      for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) de[0][q][i] = (&w->q[q][0][0])[i];
      for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) da[m][0][q][i] = (&w->a[m][q][0][0])[i];
      for( int o = 1; o < ORDER; o++ ) { V sh( QM, std::vector<double>(NM*C) );
        for( int d = 0; d < ND; d++ ) { V g; for( int q = 0; q < QE; q++ ) g.push_back( grad( de[o-1][q], d ) );
          for( int q = 0; q < QE; q++ ) for( int p = 0; p < QE; p++ ) for( int i = 0; i < NM*C; i++ ) de[o][q][i] -= w->sE[d][q*QE+p]*g[p][i];
          if( RM ) for( int q = 0; q < QM; q++ ) for( int p = 0; p < ND; p++ ) for( int i = 0; i < NM*C; i++ ) sh[q][i] -= w->sA[d][q*ND+p]*g[QM+p][i]; }
        for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) { for( int p = 0; p < QM; p++ ) de[o][q][i] += w->src[m][q*QM+p]*da[m][o-1][p][i]; da[m][o][q][i] = rf[m]*( sh[q][i] - sgn*da[m][o-1][q][i] ); } }
      Cmp cd, ci, ca, cia, cp; double fac = 1;
      R pt[2] = { (R)(dt*r.r(0,1)), dt }; typedef R PD[QE][NM][C]; std::unique_ptr<PD[]> pre( new PD[2] ); k.m_time.evalTimePrediction( 2, pt, w->derE, pre.get() );
      k.m_time.integrate( dt, w->derE, w->t2 );
      for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) { double t = 0, s = 1, p[2] = {}, sp[2] = {1,1}; for( int o = 0; o < ORDER; o++ ) { s *= dt/(o+1); t += s*de[o][q][i]; for( int x = 0; x < 2; x++ ) { if( o ) sp[x] *= pt[x]/o; p[x] += sp[x]*de[o][q][i]; }
          int md = i/C; if( RM || md < CE_N_ELEMENT_MODES_CK( T, ORDER, o ) ) cd.add( (&w->derE[o][q][0][0])[i], de[o][q][i] ); else check( std::fabs(de[o][q][i]) < EPS*1e3*cd.scale, "ck-zero-modes", "derivative %d has mode %d: %g", o, md, de[o][q][i] ); }
        ci.add( (&w->tE[q][0][0])[i], t ); ci.add( (&w->t2[q][0][0])[i], t ); if( !RM ) for( int x = 0; x < 2; x++ ) cp.add( (&pre[x][q][0][0])[i], p[x] ); }
      for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) { double t = 0, s = 1; for( int o = 0; o < ORDER; o++ ) { s *= dt/(o+1); t += s*da[m][o][q][i]; ca.add( (&w->derA[m][o][q][0][0])[i], da[m][o][q][i] ); } cia.add( (&w->tA[m][q][0][0])[i], t ); }
      if( RM && sgn == 1 ) { if( ca.worst <= EPS*100*ca.scale ) { ok( cd, "time-derivatives" ); ok( ci, "time-integral" ); ok( cia, "time-integral-anelastic" ); break; } continue; }
      if( RM ) { if( ca.worst <= EPS*100*ca.scale ) vh::fail( "anelastic-relaxation-sign", "time prediction: relaxation term of the anelastic quantities has the opposite sign of the volume kernel's" ); else ok( ca, "time-derivatives-anelastic" ); ok( cia, "time-integral-anelastic" ); }
      ok( cd, "time-derivatives" ); ok( ci, "time-integral" ); if( !RM ) ok( cp, "time-evaluation" );
    }
    // volume kernel
    rnd( r, &w->o[0][0][0], QE*NM*C ); rnd( r, &w->oA[0][0][0][0], RMA*QM*NM*C ); rnd( r, &w->tE[0][0][0], QE*NM*C ); rnd( r, &w->tA[0][0][0][0], RMA*QM*NM*C );
    auto mul = [&]( double m[NM][NM], R const q[NM][C] ) { std::vector<double> g( NM*C ); for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) if( m[i][j] != 0 ) for( int c = 0; c < C; c++ ) g[i*C+c] += m[i][j]*q[j][c]; return g; };
    V re( QE, std::vector<double>(NM*C) ); std::vector<V> ra( RMA, V( QM, std::vector<double>(NM*C) ) );
    auto load = [&]() { for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) re[q][i] = (&w->o[q][0][0])[i]; for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) ra[m][q][i] = (&w->oA[m][q][0][0])[i]; };
    auto cmp = [&]( char const * key ) { Cmp a, b; for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) a.add( (&w->o[q][0][0])[i], re[q][i] ); for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) b.add( (&w->oA[m][q][0][0])[i], ra[m][q][i] ); ok( a, key ); if( RM ) ok( b, (std::string(key)+"-anelastic").c_str() ); };
    load();
    for( int d = 0; d < ND; d++ ) for( int p = 0; p < QE; p++ ) { auto g = mul( K[d], w->tE[p] ); for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) re[q][i] += w->sE[d][q*QE+p]*g[i]; if( RM && p >= QM ) for( int q = 0; q < QM; q++ ) for( int m = 0; m < RM; m++ ) for( int i = 0; i < NM*C; i++ ) ra[m][q][i] += rf[m]*w->sA[d][q*ND+p-QM]*g[i]; }
    for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) { for( int p = 0; p < QM; p++ ) re[q][i] += w->src[m][q*QM+p]*(&w->tA[m][p][0][0])[i]; ra[m][q][i] -= rf[m]*(&w->tA[m][q][0][0])[i]; }
    k.m_volInt.apply( w->kE, RM ? w->kA : nullptr, RM ? w->kS : nullptr, w->tE, RM ? w->tA : nullptr, w->o, RM ? w->oA : nullptr, w->scr[0] ); cmp( "volume" );
    // local surface kernel
    R fscr[2][QE][NMF][C];
    load(); double sg = 1;
    for( int f = 0; f < NF; f++ ) for( int p = 0; p < QE; p++ ) { auto g = mul( S[f], w->tE[p] ); for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) re[q][i] += sg*w->fsE[f][q*QE+p]*g[i]; for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) ra[m][q][i] += sg*rf[m]*w->fsA[f][q*QE+p]*g[i]; }
    k.m_surfInt.local( w->fsE, RM ? w->fsA : nullptr, w->tE, w->o, RM ? w->oA : nullptr, fscr, w->tE, w->tE ); cmp( "surface-local" );
    // neighboring surface kernel, all combinations of faces and vertices, boundary (own data), pre-computed first product
    for( int f = 0; f < NF; f++ ) for( int b = -1; b < NF*NO; b++ ) { if( NF*NF*NO > 30 && r.p(0.7) ) continue;
      load(); unsigned short vId = b < 0 ? std::numeric_limits<unsigned short>::max() : b/NF, fId = b < 0 ? f : b%NF; R upA[QM][NM][C]; memset( upA, 0, sizeof upA ); std::vector<V> rb( 1, V( QM, std::vector<double>(NM*C) ) );
      for( int p = 0; p < QE; p++ ) { auto g = mul( b < 0 ? S[f] : N[f][b], w->tE[p] ); for( int q = 0; q < QE; q++ ) for( int i = 0; i < NM*C; i++ ) re[q][i] += sg*w->fsE[f][q*QE+p]*g[i]; for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) rb[0][q][i] += sg*w->fsA[f][q*QE+p]*g[i]; }
      R pre[QE][NMF][C]; bool useP = r.p(0.5); if( useP ) k.m_surfInt.neighFluxInt( f, vId, fId, w->tE, pre, w->tE );
      k.m_surfInt.neigh( f, vId, fId, w->fsE[f], RM ? w->fsA[f] : nullptr, useP ? nullptr : w->tE, useP ? pre : nullptr, w->o, RM ? upA : nullptr, fscr, w->tE );
      if( RM ) { Cmp c; for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) c.add( (&upA[q][0][0])[i], rb[0][q][i] ); ok( c, "surface-neighbor-update" ); for( int m = 0; m < RM; m++ ) for( int q = 0; q < QM; q++ ) for( int i = 0; i < NM*C; i++ ) ra[m][q][i] += rf[m]*rb[0][q][i]; k.m_surfInt.scatterUpdateA( upA, w->oA ); }
      cmp( b < 0 ? "surface-boundary" : "surface-neighbor" ); }
    sig( fmt("k %d %d %d %d %ld", (int) T, ORDER, (int) C, (int) RM, it) );
  }
}
#else
VH_MAIN { init(); Rng r( seed ); double sg = 1;
  edge::data::Dynamic dyn; edge::advection::kernels::TimePred<R,T,ORDER,ORDER,C> tp( dyn ); edge::advection::kernels::VolInt<R,T,ORDER,C> vi( dyn ); edge::advection::kernels::SurfInt<R,T,ORDER,C> si( dyn );
  for( long it = 0; it < n; it++ ) {
    R st[ND], q[1][NM][C], der[ORDER][NM][C], ti[1][NM][C], t2[1][NM][C], fs[NF], o[1][NM][C]; rnd( r, st, ND ); rnd( r, &q[0][0][0], NM*C ); rnd( r, fs, NF ); R dt = r.r(0.001,0.05);
    tp.ck( dt, st, q[0], der, ti[0] ); tp.integrate( dt, der, t2[0] );
    std::vector< std::vector<double> > de( ORDER, std::vector<double>(NM*C) ); Cmp cd, ci;
    for( int i = 0; i < NM*C; i++ ) de[0][i] = (&q[0][0][0])[i];
    for( int k = 1; k < ORDER; k++ ) for( int d = 0; d < ND; d++ ) for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) for( int c = 0; c < C; c++ ) de[k][i*C+c] -= st[d]*D[d][i][j]*de[k-1][j*C+c];
    for( int i = 0; i < NM*C; i++ ) { double t = 0, s = 1; for( int k = 0; k < ORDER; k++ ) { s *= dt/(k+1); t += s*de[k][i]; cd.add( (&der[k][0][0])[i], de[k][i] ); } ci.add( (&ti[0][0][0])[i], t ); ci.add( (&t2[0][0][0])[i], t ); }
    ok( cd, "time-derivatives" ); ok( ci, "time-integral" );
    std::vector<double> re( NM*C ); rnd( r, &o[0][0][0], NM*C );
    auto load = [&]() { for( int i = 0; i < NM*C; i++ ) re[i] = (&o[0][0][0])[i]; }; auto cmp = [&]( char const * key ) { Cmp a; for( int i = 0; i < NM*C; i++ ) a.add( (&o[0][0][0])[i], re[i] ); ok( a, key ); };
    auto add = [&]( double m[NM][NM], double f ) { for( int i = 0; i < NM; i++ ) for( int j = 0; j < NM; j++ ) for( int c = 0; c < C; c++ ) re[i*C+c] += f*m[i][j]*ti[0][j][c]; };
    rnd( r, &ti[0][0][0], NM*C );
    load(); for( int d = 0; d < ND; d++ ) add( K[d], st[d] ); vi.apply( st, ti, o ); cmp( "volume" );
    load(); for( int f = 0; f < NF; f++ ) add( S[f], sg*fs[f] ); si.local( fs, ti, o ); cmp( "surface-local" );
    for( int f = 0; f < NF; f++ ) for( int b = -1; b < NF*NO; b++ ) { load(); add( b < 0 ? S[f] : N[f][b], sg*fs[f] ); si.neigh( f, b < 0 ? std::numeric_limits<unsigned short>::max() : b/NF, b < 0 ? f : b%NF, fs[f], ti, o ); cmp( b < 0 ? "surface-boundary" : "surface-neighbor" ); }
    sig( fmt("a %d %d %d %ld", (int) T, ORDER, (int) C, it) );
  }
}
#endif
