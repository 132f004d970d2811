// C18: surfaces extruded by EDGEcut are watertight, outward oriented and graded
#include "vh.hpp"
#include <sstream>
#include <fstream>
#include <cstdlib>
#include <map>
#include <set>
#include <array>
#include <vector>
#include <cmath>
#include <algorithm>
#include <limits>
#include <unistd.h>
#include <sys/wait.h>
#define private public
#include "mesh/Extrude.h"
#undef private
#include "io/logging.hpp"
INITIALIZE_EASYLOGGINGPP

typedef std::array<double,3> P3;
typedef std::array<long,3> T3;
static vh::Rng g_r( 1 );

struct Off { std::vector<P3> pts; std::vector<T3> tri; bool ok = false; };

static Off parse( std::string const & s, char const * name ) {
  Off o; std::istringstream in( s ); std::string l;
  std::getline( in, l );
  if( !vh::check( l == "OFF", "off_header", "%s: first line is '%s'", name, l.c_str() ) ) return o;
  long nP=-1, nT=-1, nE=-1;
  while( std::getline( in, l ) ) { if( !l.empty() && l[0]=='#' ) continue; std::istringstream t( l ); t >> nP >> nT >> nE; break; }
  if( !vh::check( nP > 0 && nT > 0 && nE == 0, "off_counts", "%s: counts %ld %ld %ld", name, nP, nT, nE ) ) return o;
  for( long i = 0; i < nP; i++ ) {
    if( !std::getline( in, l ) ) { vh::check( false, "off_counts", "%s: missing points", name ); return o; }
    std::istringstream t( l ); P3 p; std::string rest;
    if( !( t >> p[0] >> p[1] >> p[2] ) || ( t >> rest ) ) { vh::check( false, "off_counts", "%s: point %ld is '%s' (%ld points expected)", name, i, l.c_str(), nP ); return o; }
    o.pts.push_back( p );
  }
  for( long i = 0; i < nT; i++ ) {
    if( !std::getline( in, l ) ) { vh::check( false, "off_counts", "%s: %ld of %ld triangles present", name, i, nT ); return o; }
    std::istringstream t( l ); long n; T3 q; std::string rest;
    if( !( t >> n >> q[0] >> q[1] >> q[2] ) || n != 3 || ( t >> rest ) ) { vh::check( false, "off_counts", "%s: triangle %ld is '%s'", name, i, l.c_str() ); return o; }
    for( int k = 0; k < 3; k++ ) if( q[k] < 0 || q[k] >= nP ) { vh::check( false, "off_ids", "%s: triangle %ld uses point %ld of %ld", name, i, q[k], nP ); return o; }
    if( q[0]==q[1] || q[1]==q[2] || q[0]==q[2] ) { vh::check( false, "off_ids", "%s: degenerate triangle %ld", name, i ); return o; }
    o.tri.push_back( q );
  }
  while( std::getline( in, l ) ) if( !l.empty() ) { vh::check( false, "off_counts", "%s: additional line '%s'", name, l.c_str() ); return o; }
  o.ok = true;
  return o;
}

struct Grid {
  long nx, ny; int lv; double zT; std::vector<double> xs, ys; std::vector<P3> in;   // input in random order
  std::vector<P3> s;                                                               // sorted: s[i*ny+j]
};

// cells: ratio of spacings random; large offsets imitate UTM coordinates
static Grid gen( bool jitter, bool big ) {
  Grid g; g.lv = g_r.i( 0, 3 ); if( g_r.p( 0.3 ) ) g.lv = 0;
  long ref = 1l << g.lv;
  long mMin = g.lv == 0 ? 1 : g.lv == 1 ? 2 : g.lv == 2 ? 3 : 4;
  long mMax = g.lv < 2 ? 9 : 6;
  if( big ) mMax *= 2;
  g.nx = g_r.i( mMin, mMax ) * ref + 1; g.ny = g_r.i( mMin, mMax ) * ref + 1;
  double ox = 0, oy = 0, sc = 1;
  switch( g_r.i( 0, 3 ) ) {
    case 0: ox = g_r.r( 2e5, 8e5 ); oy = g_r.r( 3e6, 4e6 ); sc = g_r.r( 1, 100 ); break;
    case 1: ox = -g_r.r( 0, 50 ); oy = -g_r.r( 0, 50 ); sc = g_r.r( 0.1, 10 ); break;
    case 2: sc = 1; break;
    default: ox = g_r.r( -1e4, 1e4 ); oy = g_r.r( -1e4, 1e4 ); sc = g_r.r( 10, 1000 ); break;
  }
  double ax = g_r.r( 0.3, 3 ), ay = g_r.r( 0.3, 3 ); bool uni = g_r.p( 0.3 );
  double x = ox; for( long i = 0; i < g.nx; i++ ) { g.xs.push_back( x ); x += sc*ax*( uni ? 1 : g_r.r( 0.5, 2 ) ); }
  double y = oy; for( long i = 0; i < g.ny; i++ ) { g.ys.push_back( y ); y += sc*ay*( uni ? 1 : g_r.r( 0.5, 2 ) ); }
  double amp = sc*g_r.r( 0, 6 ), z0 = g_r.p( 0.5 ) ? 0 : g_r.r( -20, 20 )*sc;
  double eps = 1e-3;
  for( long i = 0; i < g.nx; i++ ) for( long j = 0; j < g.ny; j++ ) {
    // distortions below the tolerance
    double xx = g.xs[i] + ( jitter ? g_r.r( -0.4, 0.4 )*eps : 0 );
    g.s.push_back( P3{{ xx, g.ys[j], z0 + g_r.r( -amp, amp ) }} );
  }
  double zMin = 1e300, zMax = -1e300; for( auto & p : g.s ) { zMin = std::min( zMin, p[2] ); zMax = std::max( zMax, p[2] ); }
  g.zT = zMin - sc*g_r.r( 0.5, 15 );
  if( g_r.p( 0.2 ) ) g.zT = std::floor( g.zT );
  g.in = g.s; if( g_r.p( 0.8 ) ) g_r.shuffle( g.in );
  return g;
}

static char const * const NAMES[6] = { "left", "right", "front", "back", "bottom", "top" };

static void verify( Grid const & g, std::string const txt[6], double tol, char const * ctx ) {
  long ref = 1l << g.lv, nx = g.nx, ny = g.ny, cx = (nx-1)/ref+1, cy = (ny-1)/ref+1;
  Off o[6];
  for( int i = 0; i < 6; i++ ) { o[i] = parse( txt[i], NAMES[i] ); if( !o[i].ok ) return; }
  double ext = 0; for( auto & p : g.s ) for( int d = 0; d < 3; d++ ) ext = std::max( ext, std::fabs( p[d] ) ); ext = std::max( ext, std::fabs( g.zT ) );
  double at = tol*ext;
  auto eq = [&]( P3 const & a, P3 const & b ) { for( int d = 0; d < 3; d++ ) if( !( std::fabs( a[d]-b[d] ) <= at ) ) return false; return true; };
  // expected steps in depth
  double dMin = 1e300;
  for( long i = 0; i+1 < cx; i++ ) dMin = std::min( dMin, g.s[(i+1)*ref*ny][0] - g.s[i*ref*ny][0] );
  for( long j = 0; j+1 < cy; j++ ) dMin = std::min( dMin, g.s[(j+1)*ref][1] - g.s[j*ref][1] );
  double zMax = -1e300; for( auto & p : g.s ) zMax = std::max( zMax, p[2] );
  double q = ( zMax - g.zT )/dMin; long nSt = (long) q + 1;
  // ambiguous if the quotient is an integer up to rounding
  bool amb = std::fabs( q - std::round( q ) ) < 1e-9*( 1 + q );
  // border curves of the sides, coarse
  std::vector<P3> cur[4];
  for( long j = 0; j < cy; j++ ) { cur[0].push_back( g.s[j*ref] ); cur[1].push_back( g.s[(nx-1)*ny + j*ref] ); }
  for( long i = 0; i < cx; i++ ) { cur[2].push_back( g.s[i*ref*ny] ); cur[3].push_back( g.s[i*ref*ny + ny-1] ); }
  std::reverse( cur[0].begin(), cur[0].end() ); std::reverse( cur[3].begin(), cur[3].end() );
  for( int sd = 0; sd < 4; sd++ ) {
    long n = cur[sd].size(), st = (long) o[sd].pts.size()/n - 1;
    if( !vh::check( (st+1)*n == (long) o[sd].pts.size() && ( st == nSt || ( amb && std::labs( st-nSt ) <= 1 ) ), "steps", "%s: %s: %zu points for %ld border points; %ld steps expected (depth %g, coarse spacing %g)", ctx, NAMES[sd], o[sd].pts.size(), n, nSt, zMax-g.zT, dMin ) ) return;
    // set of points
    std::vector<char> used( o[sd].pts.size(), 0 );
    for( long k = 0; k <= st; k++ ) for( long i = 0; i < n; i++ ) {
      P3 e = cur[sd][i]; e[2] += (g.zT-e[2])*k/st;
      // in the order of the files first, else anywhere
      long h = -1;
      if( eq( o[sd].pts[k*n+i], e ) && !used[k*n+i] ) h = k*n+i;
      else for( size_t m = 0; m < used.size(); m++ ) if( !used[m] && eq( o[sd].pts[m], e ) ) { h = m; break; }
      if( !vh::check( h >= 0, "side_points", "%s: %s misses point (%.9g %.9g %.9g), step %ld of %ld", ctx, NAMES[sd], e[0], e[1], e[2], k, st ) ) return;
      used[h] = 1;
    }
    if( !vh::check( (long) o[sd].tri.size() == 2*(n-1)*st, "side_tris", "%s: %s has %zu triangles", ctx, NAMES[sd], o[sd].tri.size() ) ) return;
  }
  // bottom
  {
    std::vector<P3> e; for( long j = 0; j < cy; j++ ) for( long i = 0; i < cx; i++ ) { P3 p = g.s[i*ref*ny+j*ref]; p[2] = g.zT; e.push_back( p ); }
    if( !vh::check( o[4].pts.size() == e.size() && (long) o[4].tri.size() == 2*(cx-1)*(cy-1), "bottom", "%s: bottom: %zu points, %zu triangles", ctx, o[4].pts.size(), o[4].tri.size() ) ) return;
    auto a = o[4].pts; for( size_t i = 0; i < e.size(); i++ ) { size_t h = i; if( !eq( a[i], e[i] ) ) { for( h = 0; h < a.size(); h++ ) if( eq( a[h], e[i] ) ) break; } if( !vh::check( h < a.size(), "bottom", "%s: bottom misses (%.9g %.9g %.9g)", ctx, e[i][0], e[i][1], e[i][2] ) ) return; }
  }
  // top: all points of the surface
  std::vector<long> id( o[5].pts.size(), -1 );
  {
    if( !vh::check( o[5].pts.size() == g.s.size(), "top_points", "%s: top: %zu of %zu points", ctx, o[5].pts.size(), g.s.size() ) ) return;
    std::vector<char> used( g.s.size(), 0 );
    for( size_t i = 0; i < g.s.size(); i++ ) {
      size_t h = g.s.size();
      if( eq( o[5].pts[i], g.s[i] ) && !used[i] ) h = i;
      else for( size_t m = 0; m < g.s.size(); m++ ) if( !used[m] && eq( o[5].pts[i], g.s[m] ) ) { h = m; break; }
      if( !vh::check( h < g.s.size(), "top_points", "%s: top point (%.9g %.9g %.9g) is not part of the grid", ctx, o[5].pts[i][0], o[5].pts[i][1], o[5].pts[i][2] ) ) return;
      used[h] = 1; id[i] = h;
    }
  }
  // orientation and area of every surface; direction of the projection
  double const dir[6][3] = { {-1,0,0}, {1,0,0}, {0,-1,0}, {0,1,0}, {0,0,-1}, {0,0,1} };
  double ref6[6] = {0};
  double x0 = g.s.front()[0], x1 = g.s.back()[0], y0 = g.s.front()[1], y1 = g.s.back()[1];
  for( int sd = 0; sd < 4; sd++ ) for( size_t i = 0; i+1 < cur[sd].size(); i++ ) { P3 a = cur[sd][i], b = cur[sd][i+1]; double w = sd < 2 ? std::fabs( a[1]-b[1] ) : std::fabs( a[0]-b[0] ); ref6[sd] += w*( (a[2]+b[2])/2 - g.zT ); }
  ref6[4] = ref6[5] = (x1-x0)*(y1-y0);
  double L = std::max( std::max( x1-x0, y1-y0 ), zMax-g.zT ), at2 = 4*L*at + 1e-3*L*( g.nx + g.ny )*0;
  double jit = 0; for( long i = 0; i < nx; i++ ) for( long j = 0; j < ny; j++ ) jit = std::max( jit, std::fabs( g.s[i*ny+j][0] - g.s[i*ny][0] ) );
  for( int k = 0; k < 6; k++ ) {
    double sum = 0;
    for( auto & t : o[k].tri ) {
      P3 a = o[k].pts[t[0]], b = o[k].pts[t[1]], c = o[k].pts[t[2]]; double u[3], v[3];
      for( int d = 0; d < 3; d++ ) { u[d] = b[d]-a[d]; v[d] = c[d]-a[d]; }
      double n[3] = { u[1]*v[2]-u[2]*v[1], u[2]*v[0]-u[0]*v[2], u[0]*v[1]-u[1]*v[0] };
      double ar = ( n[0]*dir[k][0] + n[1]*dir[k][1] + n[2]*dir[k][2] )/2;
      if( !vh::check( ar > 0, "outward", "%s: %s: triangle (%ld %ld %ld) does not point outwards (%g)", ctx, NAMES[k], t[0], t[1], t[2], ar ) ) return;
      sum += ar;
    }
    vh::check( std::fabs( sum - ref6[k] ) <= 1e-9*ref6[k] + at2 + 4*jit*L*( nx+ny ), "area", "%s: %s covers an area of %.12g instead of %.12g", ctx, NAMES[k], sum, ref6[k] );
  }
  // graded triangulation of the top
  {
    long nT = 0; long buf = 0, str = ref;
    for( auto & t : o[5].tri ) {
      long i[3], j[3]; for( int k = 0; k < 3; k++ ) { i[k] = id[t[k]]/ny; j[k] = id[t[k]]%ny; }
      long i0 = *std::min_element( i, i+3 ), i1 = *std::max_element( i, i+3 ), j0 = *std::min_element( j, j+3 ), j1 = *std::max_element( j, j+3 );
      // distance to the border
      long d = std::min( std::min( i0, j0 ), std::min( nx-1-i1, ny-1-j1 ) );
      long b = 0, s = ref; while( s > 1 && d >= b + s ) { b += s; s /= 2; }
      bool sz = i1-i0 <= s && j1-j0 <= s && std::max( i1-i0, j1-j0 ) >= std::max( 1l, s/2 );
      if( s > 1 ) for( int k = 0; k < 3; k++ ) sz = sz && (i[k]-b)%(s/2) == 0 && (j[k]-b)%(s/2) == 0;
      vh::check( sz, "graded", "%s: triangle of the top in cells [%ld,%ld]x[%ld,%ld] at distance %ld from the border, %ld levels: size %ld expected", ctx, i0, i1, j0, j1, d, (long) g.lv, s );
      nT++;
    }
    // number: corners 2, edges 3 per coarse cell, inner 2 per fine cell
    long e = 0; for( int l = 0; l < g.lv; l++ ) { long mx = (nx-1-2*buf)/str, my = (ny-1-2*buf)/str; e += 8 + 3*2*( mx-2 + my-2 ); buf += str; str /= 2; }
    e += 2*(nx-1-2*buf)*(ny-1-2*buf);
    vh::check( nT == e, "graded", "%s: %ld instead of %ld triangles in the top (%ldx%ld points, %d levels)", ctx, nT, e, nx, ny, g.lv );
  }
  // closed surface: merge points
  std::vector<P3> pts; std::vector<std::array<long,3>> tri;
  {
    std::vector<std::pair<P3,std::pair<int,long>>> all; std::vector<std::vector<long>> gid( 6 );
    for( int k = 0; k < 6; k++ ) { gid[k].resize( o[k].pts.size() ); for( size_t i = 0; i < o[k].pts.size(); i++ ) all.push_back( { o[k].pts[i], { k, (long) i } } ); }
    std::sort( all.begin(), all.end(), []( std::pair<P3,std::pair<int,long>> const & a, std::pair<P3,std::pair<int,long>> const & b ) { return a.first[0] < b.first[0]; } );
    // merged points are within the tolerance, others are much farther apart
    std::vector<size_t> rep;
    size_t lo = 0;
    for( size_t i = 0; i < all.size(); i++ ) {
      while( lo < rep.size() && all[rep[lo]].first[0] < all[i].first[0] - 2*at - 1e-12 ) lo++;
      long h = -1; for( size_t m = lo; m < rep.size(); m++ ) if( eq( all[rep[m]].first, all[i].first ) ) { h = m; break; }
      if( h < 0 ) { h = rep.size(); rep.push_back( i ); }
      gid[all[i].second.first][all[i].second.second] = h;
    }
    for( size_t r : rep ) pts.push_back( all[r].first );
    for( int k = 0; k < 6; k++ ) for( auto & t : o[k].tri ) tri.push_back( {{ gid[k][t[0]], gid[k][t[1]], gid[k][t[2]] }} );
  }
  std::map<std::pair<long,long>,int> ed;
  for( auto & t : tri ) for( int k = 0; k < 3; k++ ) ed[{ t[k], t[(k+1)%3] }]++;
  for( auto & e : ed ) {
    auto r = ed.find( { e.first.second, e.first.first } );
    if( !vh::check( e.second == 1 && r != ed.end() && r->second == 1, "watertight", "%s: edge (%.9g %.9g %.9g)-(%.9g %.9g %.9g) is used %d times, its opposite %d times", ctx, pts[e.first.first][0], pts[e.first.first][1], pts[e.first.first][2], pts[e.first.second][0], pts[e.first.second][1], pts[e.first.second][2], e.second, r == ed.end() ? 0 : r->second ) ) return;
  }
  // Euler characteristic of a sphere
  std::set<long> uv; for( auto & t : tri ) for( long v : t ) uv.insert( v );
  vh::check( (long) uv.size() - (long) ed.size()/2 + (long) tri.size() == 2, "watertight", "%s: surface is not a single closed one", ctx );
  vh::stat( "eval_surfaces" ); vh::stat( "eval_triangles", tri.size() );
  vh::sig( vh::fmt( "lv%d cx%ld cy%ld st%ld %s", g.lv, cx, cy, nSt, ctx ) );
}

int main( int argc, char ** argv ) {
  long seed = std::atol( argv[1] ), n = std::atol( argv[2] ), nExe = std::atol( argv[3] ); std::string dir = argv[4], exe = argv[5];
  g_r = vh::Rng( seed );
  el::Configurations conf; conf.setToDefault(); conf.setGlobally( el::ConfigurationType::Enabled, "false" ); el::Loggers::reconfigureAllLoggers( conf );
  for( long it = 0; it < n; it++ ) {
    bool jit = g_r.p( 0.15 );
    Grid g = gen( jit, it % 25 == 24 );
    std::stringstream s[6]; for( auto & x : s ) x.precision( 17 );
    edge_cut::mesh::Extrude ex( g.in.size(), (double const (*)[3]) g.in.data(), g.zT, g.lv );
    ex.writeOff( s[0], s[1], s[2], s[3], s[4], s[5] );
    std::string t[6]; for( int k = 0; k < 6; k++ ) t[k] = s[k].str();
    verify( g, t, 1e-13, jit ? "tolerance" : "class" );
    // writing twice gives the same
    if( it % 10 == 0 ) {
      std::stringstream r[6]; for( auto & x : r ) x.precision( 17 );
      ex.writeOff( r[0], r[1], r[2], r[3], r[4], r[5] );
      for( int k = 0; k < 6; k++ ) vh::check( r[k].str() == t[k], "repeat", "second output differs" );
    }
  }
  for( long it = 0; it < nExe; it++ ) {
    Grid g = gen( false, it % 3 == 2 );
    std::string gf = vh::fmt( "%s/g%ld.txt", dir.c_str(), it ), xf = vh::fmt( "%s/c%ld.xml", dir.c_str(), it );
    { std::ofstream o( gf ); o.precision( 17 ); for( auto & p : g.in ) o << p[0] << ( it%2 ? " " : "\t" ) << p[1] << " " << p[2] << "\n"; }
    std::string out[6]; for( int k = 0; k < 6; k++ ) out[k] = vh::fmt( "%s/o%ld_%d.off", dir.c_str(), it, ( k*5 + (int) it ) % 6 );
    { std::ofstream o( xf ); o.precision( 17 ); o << "<edge_cut><mesh><files><out>"; std::vector<int> pr = {0,1,2,3,4,5}; g_r.shuffle( pr );
      for( int k : pr ) o << "<" << NAMES[k] << ">" << out[k] << "</" << NAMES[k] << ">";
      o << "</out></files></mesh><extrude><in>" << gf << "</in><target_z>" << g.zT << "</target_z>"; if( g.lv > 0 || g_r.p( 0.5 ) ) o << "<n_levels>" << g.lv << "</n_levels>"; o << "</extrude></edge_cut>\n"; }
    int rc = std::system( vh::fmt( "cd '%s' && '%s' -x '%s' > '%s/log' 2>&1", dir.c_str(), exe.c_str(), xf.c_str(), dir.c_str() ).c_str() );
    if( !vh::check( rc == 0, "executable", "edge_cut ended with %d for %s", rc, xf.c_str() ) ) { (void) !std::system( vh::fmt( "tail -40 '%s/log' >&2", dir.c_str() ).c_str() ); continue; }
    std::string t[6]; for( int k = 0; k < 6; k++ ) { std::ifstream f( out[k] ); std::stringstream b; b << f.rdbuf(); t[k] = b.str(); }
    verify( g, t, 1e-13, "executable" );
    for( int k = 0; k < 6; k++ ) unlink( out[k].c_str() );
    unlink( gf.c_str() ); unlink( xf.c_str() );
  }
  return vh::done();
}
