// C16: time steps, time groups, velocity models and refinement of EDGE-V.
#include "evmesh.hpp"
#include <memory>
#include <sstream>
#include <queue>
#include "time/Groups.h"
#include "time/Cfl.h"
#include "models/Constant.h"
#include "models/GridExpression.h"
#include "models/seismic/Expression.h"
#include "models/seismic/Rule.h"
#include "mesh/Refinement.h"
#include "io/Hdf5.h"
#include "io/Grid.h"
#include <easylogging++.h>
typedef edge_v::t_idx tI; typedef unsigned short us;
static tI const NONE = std::numeric_limits<tI>::max();
static edge_v::t_entityType const TY[5] = { edge_v::LINE, edge_v::QUAD4R, edge_v::TRIA3, edge_v::HEX8R, edge_v::TET4 };
static unsigned const NFAS[5] = { 2, 4, 3, 6, 4 }, NVES[5] = { 2, 4, 3, 8, 4 };

// random symmetric adjacency: chains, random graphs, grids with long paths
static std::vector<tI> graph( vh::Rng & r, unsigned nf, tI n ) {
  std::vector<tI> a( n*nf, NONE ); int kind = r.i(0,2);
  auto link = [&]( tI x, tI y ) { if( x == y ) return; unsigned i = r.i(0,nf-1), j = r.i(0,nf-1); for( unsigned t = 0; t < nf && a[x*nf+i] != NONE; t++ ) i = (i+1)%nf; for( unsigned t = 0; t < nf && a[y*nf+j] != NONE; t++ ) j = (j+1)%nf;
    if( a[x*nf+i] == NONE && a[y*nf+j] == NONE ) { a[x*nf+i] = y; a[y*nf+j] = x; } };
  std::vector<tI> p( n ); for( tI k = 0; k < n; k++ ) p[k] = k; if( r.p(0.7) ) r.shuffle( p );
  if( kind != 1 ) for( tI k = 0; k+1 < n; k++ ) if( r.p(0.97) ) link( p[k], p[k+1] );
  if( kind != 0 ) for( tI k = 0; k < n*(nf/2.); k++ ) link( r.i(0,n-1), r.i(0,n-1) );
  return a;
}

// lines of the log
static std::vector<std::string> lines_;
struct Cap: public el::LogDispatchCallback { void handle( el::LogDispatchData const * d ) { lines_.push_back( d->logMessage()->message() ); } };
static void logging( bool on ) { el::Configurations c; c.setToDefault(); c.setGlobally( el::ConfigurationType::ToFile, "false" ); c.setGlobally( el::ConfigurationType::Format, "%level %msg" );
  for( auto l : {el::Level::Info, el::Level::Debug, el::Level::Verbose, el::Level::Trace} ) c.set( l, el::ConfigurationType::Enabled, on && l == el::Level::Info ? "true" : "false" ); c.set( el::Level::Info, el::ConfigurationType::ToStandardOutput, "false" ); el::Loggers::reconfigureAllLoggers( c ); }
static void groups( vh::Rng & r ) {
  unsigned t = r.i(0,4), nf = NFAS[t]; tI n = r.i(1,r.p(0.1)?400:40); std::vector<tI> a = graph( r, nf, n );
  us nr = r.i(0,6); std::vector<double> ra( nr+1 ); bool two = r.p(0.6); for( us i = 0; i < nr; i++ ) ra[i] = two ? 2 : r.p(0.3) ? 1.5 : r.r(1.0001,2);
  double dt = r.p(0.4) ? 1 : r.p(0.4) ? 0.5 : r.r(0.01,1);
  std::vector<double> iv( nr+2 ); iv[0] = dt; for( us i = 0; i < nr; i++ ) iv[i+1] = iv[i]*ra[i]; iv[nr+1] = std::numeric_limits<double>::max();
  std::vector<double> ts( n ); double hi = std::max( 2., iv[nr]*3 ); for( auto & x : ts ) { x = std::pow( hi, std::pow( r.r(0,1), r.p(0.5) ? 1 : 3 ) ); if( two && r.p(0.3) && ( dt == 1 || dt == 0.5 ) ) x = iv[r.i(0,nr)]; if( x < 1 ) x = 1; }
  ts[r.i(0,n-1)] = 1;
  std::vector<us> g0( n ), g; for( tI k = 0; k < n; k++ ) { us q = 0; while( !( ts[k] < iv[q+1] ) ) q++; g0[k] = q; }
  // largest groups, not above the original ones, which differ by at most one between neighbors
  g = g0; typedef std::pair<us,tI> P; std::priority_queue<P,std::vector<P>,std::greater<P>> pq; for( tI k = 0; k < n; k++ ) pq.push( P(g[k],k) );
  while( pq.size() ) { P p = pq.top(); pq.pop(); if( p.first != g[p.second] ) continue; for( unsigned f = 0; f < nf; f++ ) { tI b = a[p.second*nf+f]; if( b != NONE && g[b] > p.first+1 ) { g[b] = p.first+1; pq.push( P(g[b],b) ); } } }
  edge_v::time::Groups G( TY[t], n, a.data(), nr, ra.data(), dt, ts.data() );
  std::string w = vh::fmt( "%u faces, %zu elements, %u rates%s, dt %.3g", nf, n, nr, two?" of two":"", dt );
  vh::check( G.nGroups() == nr+1, "number of groups", "%s: %u", w.c_str(), G.nGroups() );
  for( us i = 0; i < nr+2; i++ ) vh::check( i == nr+1 ? G.getTsIntervals()[i] == iv[i] : vh::rel( G.getTsIntervals()[i], iv[i], 1e-13 ), "intervals of the groups", "%s: %u: %.15g, expected %.15g", w.c_str(), i, G.getTsIntervals()[i], iv[i] );
  std::vector<tI> c( nr+1, 0 ); double load = 0; bool lowered = false, ok = true;
  for( tI k = 0; k < n; k++ ) { bool edge = false; for( us i = 0; i <= nr; i++ ) if( std::fabs( ts[k]-iv[i] ) < 1e-12*iv[i] && !( two && ( dt == 1 || dt == 0.5 ) ) ) edge = true; if( edge ) { ok = false; break; } }
  if( !ok ) return;
  for( tI k = 0; k < n; k++ ) {
    vh::check( G.getElTg()[k] == g[k], g[k] == g0[k] ? "group of an element" : "normalized group of an element", "%s: element %zu (ts %.6g, group before normalization %u): %u, expected %u", w.c_str(), k, ts[k], g0[k], G.getElTg()[k], g[k] );
    c[g[k]]++; load += 1/iv[g[k]]; lowered |= g[k] != g0[k];
  }
  for( us i = 0; i <= nr; i++ ) vh::check( G.nGroupEls()[i] == c[i], "elements per group", "%s: group %u has %zu, expected %zu", w.c_str(), i, G.nGroupEls()[i], c[i] );
  vh::check( vh::rel( G.getSpeedUp(), n/load, 1e-10 ), "speed-up", "%s: %.12g, expected %.12g", w.c_str(), G.getSpeedUp(), n/load );
  if( r.p(0.1) ) { // theoretical speed-ups of the statistics
    lines_.clear(); logging( true ); el::Helpers::installLogDispatchCallback<Cap>( "cap" ); G.printStats(); el::Helpers::uninstallLogDispatchCallback<Cap>( "cap" ); logging( false );
    double l0 = 0, l1 = 0; for( tI k = 0; k < n; k++ ) { l0 += 1/iv[g0[k]]; l1 += 1/ts[k]; } double e[5] = { n/l0, n/load, n/l1, l0/l1, load/l1 };
    for( auto const & l: lines_ ) { auto p = l.rfind( ':' ), ov = l.find( " over " ); if( p == std::string::npos || ov == std::string::npos || ov > p ) continue; std::string a = l.substr( 0, ov ), b = l.substr( ov+6, p-ov-6 ); auto has = []( std::string const & s, char const * k ) { return s.find(k) != std::string::npos; };
      int id = has(b,"GTS") ? ( has(a,"per-element") ? 2 : has(a,"normalized") ? 1 : has(a,"grouped") ? 0 : -1 ) : has(a,"per-element") && has(b,"grouped") ? ( has(b,"normalized") ? 4 : 3 ) : -1; if( id < 0 ) continue;
      double v = strtod( l.c_str()+p+1, 0 ); vh::check( vh::rel( v, e[id], 1e-4 ), "theoretical speed-up", "%s: '%s', expected %.6g", w.c_str(), l.c_str(), e[id] ); vh::stat( "eval_speedups" ); } }
  for( int q = 0; q < 4; q++ ) { tI f = r.i(0,n-1), m = r.i(0,n-f); std::vector<tI> o( nr+2, 99999 ), e( nr+1, 0 ); G.nGroupEls( f, m, o.data() ); for( tI k = f; k < f+m; k++ ) e[g[k]]++;
    for( us i = 0; i <= nr; i++ ) vh::check( o[i] == e[i], "elements per group of a range", "%s: [%zu,+%zu) group %u: %zu, expected %zu", w.c_str(), f, m, i, o[i], e[i] ); vh::check( o[nr+1] == 99999, "written beyond the groups", "%s", w.c_str() ); }
  vh::sig( vh::fmt( "groups nf%u nr%u l%d dt%d", nf, nr, lowered, (int)(dt*4) ) ); vh::stat( lowered ? "groups_normalized" : "groups" ); vh::stat( "eval_groups" );
}

struct Vel: public edge_v::models::Model {
  std::vector<double> mn, mx; mutable bool bad = false;
  void init( tI, double const (*)[3] ) {} void free() {}
  double getMinSpeed( tI i ) const { if( i >= mn.size() ) { bad = true; return 1; } return mn[i]; }
  double getMaxSpeed( tI i ) const { if( i >= mx.size() ) { bad = true; return 1; } return mx[i]; }
};
struct Cells { unsigned t; tI nv, n; std::vector<tI> ev; std::vector<std::array<double,3>> x; double const (*crd() const)[3] { return (double const (*)[3]) x.data(); } };
static Cells cells( vh::Rng & r ) { Cells c; c.t = r.i(0,4); c.n = r.i(1,60); c.nv = NVES[c.t]+r.i(0,60); std::vector<tI> p( c.nv ); for( tI k = 0; k < c.nv; k++ ) p[k] = k; for( tI k = 0; k < c.n; k++ ) { r.shuffle( p ); c.ev.insert( c.ev.end(), p.begin(), p.begin()+NVES[c.t] ); }
  double s = r.wild(-2,4); c.x.resize( c.nv ); for( auto & q : c.x ) for( auto & y : q ) y = s*r.r(-1,1); return c; }

static void cfl( vh::Rng & r ) {
  Cells c = cells( r ); unsigned nv = NVES[c.t]; bool el = r.p(0.4); Vel v; v.mx.resize( el ? c.n : c.nv ); double s = std::pow( 10., r.r(-2,4) ); for( auto & x : v.mx ) x = s*r.r(0.1,3); for( auto x : v.mx ) v.mn.push_back( x*r.r(0.1,0.9) );
  std::vector<double> d( c.n ); for( auto & x : d ) x = std::pow( 10., r.r(-3,3) );
  std::vector<double> e( c.n ); double mi = 1e300; for( tI k = 0; k < c.n; k++ ) { double m = 0; if( el ) m = v.mx[k]; else for( unsigned q = 0; q < nv; q++ ) m += v.mx[c.ev[k*nv+q]]/nv; e[k] = d[k]/m; mi = std::min( mi, e[k] ); }
  edge_v::time::Cfl C( TY[c.t], c.nv, c.n, c.ev.data(), c.crd(), d.data(), el, v ); bool one = false;
  for( tI k = 0; k < c.n; k++ ) { double x = C.getTimeSteps()[k]; vh::check( vh::rel( x, e[k]/mi, 1e-12 ), el ? "time step of an element, element-wise velocities" : "time step of an element", "%u vertices, element %zu of %zu: %.12g, expected %.12g", nv, k, c.n, x, e[k]/mi ); if( std::fabs( x-1 ) < 1e-12 ) one = true; }
  vh::check( one, "minimum normalized to one", "%u vertices", nv ); vh::check( !v.bad, "velocity of an invalid id", "%u vertices", nv );
  vh::sig( vh::fmt( "cfl %u %d", nv, el ) ); vh::stat("eval_cfl");
}

static void models( vh::Rng & r, std::string const & dir ) {
  Cells c = cells( r ); unsigned nv = NVES[c.t];
  { Vel v; std::vector<float> x( c.nv ), o( c.n+1, -77 ); for( auto & y : x ) y = r.wild(-2,4); v.getElAve( nv, c.n, c.ev.data(), x.data(), o.data() );
    for( tI k = 0; k < c.n; k++ ) { double m = 0, s = 0; for( unsigned q = 0; q < nv; q++ ) { m += double( x[c.ev[k*nv+q]] )/nv; s += std::fabs( x[c.ev[k*nv+q]] ); } vh::check( std::fabs( o[k]-m ) <= 1e-6*s, "average of the vertices", "%u vertices, element %zu: %.8g, expected %.8g", nv, k, o[k], m ); }
    vh::check( o[c.n] == -77, "written beyond the elements", "averages" ); }
  { double a = r.wild(-2,4); edge_v::models::Constant m( a ); m.init( c.nv, c.crd() ); tI k = r.i(0,c.nv-1); vh::check( m.getMinSpeed(k) == a && m.getMaxSpeed(k) == a, "constant model", "%.9g", a ); }
  double k[8]; for( auto & x : k ) x = r.r(-3,3);
  std::string ex = vh::fmt( "vp := %.9g*x+%.9g*y+%.9g*z; vs := %.9g*x*y+%.9g*z; qp := vs; if( z > %.9g ) { qs := vp; } else { qs := 1; }", k[0], k[1], k[2], k[3], k[4], k[5] );
  { edge_v::models::seismic::Expression m( ex ); for( int rep = 0; rep < 2; rep++ ) { m.init( c.nv, c.crd() );
      for( tI v = 0; v < c.nv; v++ ) { double vp = k[0]*c.x[v][0]+k[1]*c.x[v][1]+k[2]*c.x[v][2], vs = k[3]*c.x[v][0]*c.x[v][1]+k[4]*c.x[v][2], s = 1e-8*( 1+9*(std::fabs(c.x[v][0])+std::fabs(c.x[v][1])+std::fabs(c.x[v][2])+std::fabs(c.x[v][0]*c.x[v][1])) );
        vh::check( std::fabs( m.getMaxSpeed(v)-vp ) < s, "maximum speed of a seismic expression", "%.9g, expected %.9g", m.getMaxSpeed(v), vp ); vh::check( std::fabs( m.getMinSpeed(v)-vs ) < s, "minimum speed of a seismic expression", "%.9g, expected %.9g", m.getMinSpeed(v), vs ); } }
    if( r.p(0.5) ) { edge_v::models::Model & b = m; b.free(); } }
  // grid
  { tI nx = r.i(2,12), ny = r.i(2,9); std::vector<double> x( nx ), y( ny ); x[0] = r.wild(-1,3); for( tI i = 1; i < nx; i++ ) x[i] = x[i-1]+std::fabs(x[0])*r.r(0.05,1); y[0] = r.wild(-1,3); for( tI i = 1; i < ny; i++ ) y[i] = y[i-1]+std::fabs(y[0])*r.r(0.05,1);
    std::vector<float> z( nx*ny ); for( auto & q : z ) q = r.r(-10,10); std::string p = dir+"/g.h5";
    { edge_v::io::Hdf5 h( p, false ); h.set( "/x", nx, x.data() ); h.set( "/y", ny, y.data() ); h.set( "/z", nx*ny, z.data() ); }
    edge_v::io::Hdf5 h( p ); edge_v::io::Grid g( &h );
    std::unique_ptr<edge_v::models::GridExpression> m( new edge_v::models::GridExpression( &g, "min_speed := data+x; max_speed := data*y-z;" ) );
    for( int rep = 0; rep < 2; rep++ ) {
      tI n = r.i(1,50); std::vector<std::array<double,3>> pt( n ); std::vector<tI> ix( n ), iy( n );
      for( tI i = 0; i < n; i++ ) { ix[i] = r.i(1,nx-1); iy[i] = r.i(1,ny-1); double u = r.p(0.2) ? 1 : r.r(0.01,0.99), v = r.p(0.2) ? 1 : r.r(0.01,0.99); pt[i] = {{ u == 1 ? x[ix[i]] : x[ix[i]-1]*(1-u)+x[ix[i]]*u, v == 1 ? y[iy[i]] : y[iy[i]-1]*(1-v)+y[iy[i]]*v, r.r(-5,5) }}; }
      g.init( n, (double const (*)[3]) pt.data() ); m->init( n, (double const (*)[3]) pt.data() );
      for( tI i = 0; i < n; i++ ) { float d = z[iy[i]*nx+ix[i]]; vh::check( g.getData()[i] == d, "value of a grid", "%zux%zu, point (%.6g,%.6g) in cell %zu,%zu: %.6g, expected %.6g", nx, ny, pt[i][0], pt[i][1], ix[i], iy[i], g.getData()[i], d );
        vh::check( vh::near( m->getMinSpeed(i), d+pt[i][0], 1e-12, std::fabs(d)+std::fabs(pt[i][0]) ) && vh::near( m->getMaxSpeed(i), d*pt[i][1]-pt[i][2], 1e-12, std::fabs(d*pt[i][1])+std::fabs(pt[i][2]) ), "speeds of a grid expression", "point %zu", i ); }
    }
    if( r.p(0.5) ) { edge_v::models::Model & b = *m; b.free(); } m.reset(); }
  // rule
  { double lim = r.r(100,800), rat = r.r(1.5,3); edge_v::models::seismic::Rule R( vh::fmt( "if( vs < %.9g ) { vp := vp*%.9g/vs; vs := %.9g; }; if( vp > %.9g*vs ) { vp := %.9g*vs; }; rho := rho+vs;", lim, lim, lim, rat, rat ) ), E( "" );
    for( int i = 0; i < 3; i++ ) { float vp = r.r(200,6000), vs = r.r(50,3000), rho = r.r(1000,3000); double p = vp, s = vs, o = rho; if( s < lim ) { p = p*lim/s; s = lim; } if( p > rat*s ) p = rat*s; o += s; float a = vp, b = vs, d = rho; R.apply( a, b, d );
      vh::check( vh::rel( a, p, 1e-6 ) && vh::rel( b, s, 1e-6 ) && vh::rel( d, o, 1e-6 ), "velocity rule", "%.7g %.7g %.7g, expected %.7g %.7g %.7g", a, b, d, p, s, o ); a = vp; b = vs; d = rho; E.apply( a, b, d ); vh::check( a == vp && b == vs && d == rho, "empty rule", "changed" ); } }
  // refinement
  { Vel v; v.mn.resize( c.nv ); v.mx.resize( c.nv ); for( tI i = 0; i < c.nv; i++ ) { v.mn[i] = r.r(10,1000); v.mx[i] = v.mn[i]*r.r(1.5,3); } double s = 0; for( auto & q : c.x ) for( auto y : q ) s = std::max( s, std::fabs(y) );
    double fa = r.r(0.5,2), fb = r.r(1,4), lx = r.r(-0.5,0.5)*s; std::string e = vh::fmt( "if( x+2*y-z > %.12g ) { frequency := %.9g; } else { frequency := %.9g; }; edges_per_wave_length := %.9g+maximum_wave_speed_ratio;", lx, fa, 3*fa, fb );
    edge_v::mesh::Refinement R; for( int rep = 0; rep < 2; rep++ ) { R.init( c.nv, c.n, nv, c.ev.data(), c.crd(), e, v );
      std::vector<double> ve( c.nv, std::numeric_limits<float>::max() ); bool skip = false; std::vector<bool> sk( c.nv, false );
      for( tI q = 0; q < c.n; q++ ) { double cx = 0, mi = 1e300, ma = 0, av = 0; for( unsigned i = 0; i < nv; i++ ) { tI id = c.ev[q*nv+i]; cx += ( c.x[id][0]+2*c.x[id][1]-c.x[id][2] )/nv; mi = std::min( mi, v.mn[id] ); ma = std::max( ma, v.mn[id] ); av += v.mn[id]/nv; }
        bool near = std::fabs( cx-lx ) < 1e-6*s; double f = cx > lx ? fa : 3*fa, l = 1/( f*( fb+ma/mi ) ); for( unsigned i = 0; i < nv; i++ ) { tI id = c.ev[q*nv+i]; ve[id] = std::min( ve[id], v.mn[id]*l ); if( near ) sk[id] = true; }
        if( !near ) vh::check( vh::rel( R.getTargetLengthsEl()[q], av*l, 3e-6 ), "target length of an element", "%u vertices: %.8g, expected %.8g", nv, R.getTargetLengthsEl()[q], av*l ); }
      for( tI i = 0; i < c.nv; i++ ) if( !sk[i] ) vh::check( vh::rel( R.getTargetLengthsVe()[i], ve[i], 3e-6 ), "target length of a vertex", "%u vertices, vertex %zu: %.8g, expected %.8g", nv, i, R.getTargetLengthsVe()[i], ve[i] ); }
    vh::check( !v.bad, "velocity of an invalid id", "refinement" ); }
  vh::sig( vh::fmt( "models %u", nv ) ); vh::stat("eval_models");
}

int main( int argc, char ** argv ) {
  if( argc < 4 ) return 2; vh::Rng r( strtoul(argv[1],0,10) ); long n = atol(argv[2]);
  for( long k = 0; k < n; k++ ) { groups( r ); cfl( r ); if( k%4 == 0 ) models( r, argv[3] ); }
  return vh::done();
}
