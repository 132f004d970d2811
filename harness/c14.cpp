// C14: topology and geometry of EDGE-V's meshes against brute force.
#include "evmesh.hpp"
#include "io/Gmsh.h"
#include <memory>
#include <sstream>
#define private public
#include "mesh/Mesh.h"
#undef private
#include "geom/Geom.h"
#include "geom/Generic.h"
#include <memory>
using namespace evm;
typedef edge_v::t_idx tI;
static tI const NONE = std::numeric_limits<tI>::max();
static double refVol( El el, std::vector<V3> const & v ) {
  if( el == TRIA ) return 0.5*norm( cross( v[1]-v[0], v[2]-v[0] ) );
  if( el == TET ) return std::fabs( dot( cross( v[1]-v[0], v[2]-v[0] ), v[3]-v[0] ) )/6;
  double a = 1; for( unsigned i = 0; i < nDis(el); i++ ) { double l = 1e300, h = -1e300; for( auto & p : v ) { l = std::min(l,p[i]); h = std::max(h,p[i]); } a *= h-l; } return a;
}
static double refFaVol( El el, std::vector<V3> const & v ) {
  if( v.size() == 2 ) return norm( v[1]-v[0] );
  if( v.size() == 3 ) return 0.5*norm( cross( v[1]-v[0], v[2]-v[0] ) );
  double a = 1; for( int i = 0; i < 3; i++ ) { double l = 1e300, h = -1e300; for( auto & p : v ) { l = std::min(l,p[i]); h = std::max(h,p[i]); } if( h-l > 1e-9 ) a *= h-l; } return a;
}
static double refDia( El el, std::vector<V3> const & v ) {
  if( el == TRIA ) { double a = norm(v[0]-v[1]), b = norm(v[1]-v[2]), c = norm(v[2]-v[0]); return 4*refVol(el,v)/(a+b+c); }
  if( el == TET ) { double s = 0; for( int k = 0; k < 4; k++ ) { std::vector<V3> w; for( int j = 0; j < 4; j++ ) if( j != k ) w.push_back( v[j] ); s += refFaVol( el, w ); } return 2*3*refVol(el,v)/s; }
  double a = 1e300; for( unsigned i = 0; i < nDis(el); i++ ) { double l = 1e300, h = -1e300; for( auto & p : v ) { l = std::min(l,p[i]); h = std::max(h,p[i]); } a = std::min( a, h-l ); } return a;
}
static void mesh( vh::Rng & r, std::string const & dir, bool real ) {
  El el = (El) r.i(2,5); Opt o; o.periodic = r.p(0.35); o.drop = !o.periodic && r.p(0.4); o.permute = r.p(0.9); o.reverse = r.p(0.7); o.nMax = el == TET ? r.i(1,3) : el == HEX ? r.i(1,4) : r.i(1,7); o.grade = r.p(0.3) ? 1 : r.r(1,5); o.perturb = r.p(0.8);
  Mesh m = gen( r, el, o );
  std::string p = dir + "/m.msh"; write( m, p, r );
  unsigned D = nDis(el), NV = nVe(el), NF = nFa(el), NFV = nFaVe(el);
  std::string what = std::string(name(el)) + (o.periodic?" periodic":"") + (o.drop?" holes":"") + vh::fmt(" %zu elements", m.els.size());
  edge_v::io::Gmsh g; g.open( p ); g.readMesh();
  int pe = o.periodic ? 106 : std::numeric_limits<int>::max();
  edge_v::mesh::Mesh e( g, pe );
#define CK(c,k,...) vh::check( c, k, "%s: %s", what.c_str(), vh::fmt(__VA_ARGS__).c_str() )
  vh::sig( vh::fmt("%s p%d%d%d d%d n%u%u%u g%d", name(el), m.periodic[0], m.periodic[1], m.periodic[2], o.drop, m.n[0], m.n[1], m.n[2], (int)o.grade) ); vh::stat( std::string("meshes_")+name(el) ); vh::stat("elements", m.els.size());
  CK( (int)e.getTypeEl() == (int)el && e.nVes() == m.crd.size() && e.nEls() == m.els.size(), "sizes", "type %d, %zu vertices, %zu elements; expected %d, %zu, %zu", (int)e.getTypeEl(), e.nVes(), e.nEls(), (int)el, m.crd.size(), m.els.size() );
  if( e.nVes() != m.crd.size() || e.nEls() != m.els.size() ) return;
  double const (*vc)[3] = e.getVeCrds(); double ext = 1; for( int i = 0; i < 3; i++ ) ext = std::max( {ext, std::fabs(m.lo[i]), std::fabs(m.hi[i])} );
  for( tI v = 0; v < e.nVes(); v++ ) for( int i = 0; i < 3; i++ ) if( !CK( vc[v][i] == m.crd[v][i], "vertex coordinates", "vertex %zu dim %d: %.17g, file %.17g", v, i, vc[v][i], m.crd[v][i] ) ) return;
  // faces
  Topo t = topo( m );
  if( !CK( e.nFas() == t.fa.size(), "number of faces", "%zu, expected %zu", e.nFas(), t.fa.size() ) ) return;
  tI const * fv = e.getFaVe(), * fe = e.getFaEl(), * ev = e.getElVe(), * ef = e.getElFa(), * ee = e.getElFaEl();
  // types
  std::map<std::set<idx>,int> ty; for( auto & b : m.fas ) ty[std::set<idx>(b.second.begin(),b.second.end())] |= b.first;
  // periodic partner of boundary faces
  auto cen = [&]( std::set<idx> const & s ) { V3 c = {{0,0,0}}; for( auto k : s ) for( int i = 0; i < 3; i++ ) c[i] += m.crd[k][i]/s.size(); return c; };
  std::map<std::set<idx>,std::set<idx>> partner;
  if( o.periodic ) {
    std::map<std::array<long,4>,std::vector<std::set<idx>>> b;
    for( auto & k : t.fa ) if( k.second.size() == 1 && ty[k.first] == 106 ) for( unsigned i = 0; i < D; i++ ) if( m.periodic[i] ) {
      bool lo = true, hi = true; for( auto v : k.first ) { if( m.crd[v][i] != m.lo[i] ) lo = false; if( m.crd[v][i] != m.hi[i] ) hi = false; }
      if( !lo && !hi ) continue;
      V3 c = cen(k.first); std::array<long,4> key = {{ (long)i, 0, 0, 0 }}; for( unsigned j = 0; j < D; j++ ) if( j != i ) key[1+j] = std::lround( (c[j]-m.lo[j])*1e5 );
      b[key].push_back( k.first );
    }
    for( auto & k : b ) if( k.second.size() == 2 ) { partner[k.second[0]] = k.second[1]; partner[k.second[1]] = k.second[0]; }
  }
  std::map<std::set<idx>,tI> faId; std::vector<std::set<idx>> faS( e.nFas() ); std::vector<idx> prev; bool geo = true;
  for( tI f = 0; f < e.nFas(); f++ ) {
    std::vector<idx> v( fv+f*NFV, fv+(f+1)*NFV );
    CK( std::is_sorted( v.begin(), v.end() ), "vertices of a face ascending", "face %zu", f );
    CK( prev < v, "faces in lexicographic order", "face %zu", f ); prev = v;
    std::set<idx> s( v.begin(), v.end() ); faS[f] = s;
    auto it = t.fa.find( s ); if( !CK( it != t.fa.end(), "face is a face of an element", "face %zu", f ) ) { geo = false; continue; }
    CK( !faId.count(s), "faces unique", "face %zu", f ); faId[s] = f;
    auto a = it->second; tI x0 = a[0], x1 = NONE; std::sort( a.begin(), a.end() );
    if( a.size() == 2 ) { x0 = a[0]; x1 = a[1]; } else if( partner.count(s) ) { x0 = a[0]; x1 = t.fa[partner[s]][0]; }
    // interior: smaller element first; periodic: own element first
    CK( fe[f*2] == x0 && fe[f*2+1] == x1, partner.count(s) ? "elements of a periodic face" : "elements of a face", "face %zu: (%zd,%zd), expected (%zd,%zd)", f, (ssize_t)fe[f*2], (ssize_t)fe[f*2+1], (ssize_t)x0, (ssize_t)x1 );
    if( fe[f*2] >= m.els.size() ) geo = false;
    int ex = ty.count(s) ? ty[s] : 0;
    CK( e.getSpTypeFa()[f] == ex, "type of a face", "face %zu (%s): %d, expected %d", f, a.size() == 2 ? "interior" : "boundary", e.getSpTypeFa()[f], ex );
    vh::stat( a.size() == 2 ? "faces_interior" : partner.count(s) ? "faces_periodic" : "faces_boundary" );
  }
  if( !geo ) return;
  for( tI v = 0; v < e.nVes(); v++ ) CK( e.getSpTypeVe()[v] == 0, "type of a vertex", "%zu", v );
  // elements
  for( tI k = 0; k < e.nEls(); k++ ) {
    CK( e.getSpTypeEl()[k] == 0, "type of an element", "%zu", k );
    std::vector<idx> v( ev+k*NV, ev+(k+1)*NV ); std::set<idx> s( v.begin(), v.end() ), s2( m.els[k].begin(), m.els[k].end() );
    if( !CK( s == s2, "vertices of an element", "element %zu", k ) ) return;
    std::vector<V3> c; for( auto q : v ) c.push_back( m.crd[q] );
    if( el == TRIA ) { CK( v[0] == *s.begin(), "smallest vertex first", "element %zu", k ); CK( cross( c[1]-c[0], c[2]-c[0] )[2] > 0, "counter-clockwise order", "element %zu", k ); }
    else if( el == TET ) { CK( v[0] == *s.begin() && v[1] == *std::next(s.begin()), "smallest vertices first", "element %zu: %zu %zu %zu %zu", k, v[0], v[1], v[2], v[3] ); CK( dot( cross( c[1]-c[0], c[2]-c[0] ), c[3]-c[0] ) > 0, "positive orientation", "element %zu", k ); }
    else {
      static int const rx[8] = {0,1,1,0,0,1,1,0}, ry[8] = {0,0,1,1,0,0,1,1}, rz[8] = {0,0,0,0,1,1,1,1};
      for( unsigned q = 0; q < NV; q++ ) for( unsigned i = 0; i < D; i++ ) { double l = 1e300, h = -1e300; for( auto & p : c ) { l = std::min(l,p[i]); h = std::max(h,p[i]); }
        int b = i == 0 ? rx[q] : i == 1 ? ry[q] : rz[q]; if( !CK( c[q][i] == (b?h:l), "vertices follow the reference element", "element %zu vertex %u dim %u", k, q, i ) ) return; }
    }
    for( unsigned f = 0; f < NF; f++ ) {
      std::set<idx> fs; for( auto q : refFa(el,f) ) fs.insert( v[q] );
      tI id = ef[k*NF+f]; if( !CK( id < e.nFas() && faS[id] == fs, "faces follow the reference element", "element %zu face %u", k, f ) ) return;
      auto & a = t.fa[fs]; tI x = a.size() == 2 ? ( a[0] == k ? a[1] : a[0] ) : partner.count(fs) ? t.fa[partner[fs]][0] : NONE;
      CK( ee[k*NF+f] == x, partner.count(fs) ? "periodic neighbor of a face" : "neighbor of a face", "element %zu face %u: %zd, expected %zd", k, f, (ssize_t)ee[k*NF+f], (ssize_t)x );
    }
    double tol = 1e-9*ext/refDia(el,c)+1e-12;
    CK( vh::rel( e.getInDiasEl()[k], refDia(el,c), tol ), "diameter", "element %zu: %.15g, expected %.15g", k, e.getInDiasEl()[k], refDia(el,c) );
    CK( vh::rel( e.getVolumesEl()[k], refVol(el,c), tol*100 ), "volume", "element %zu: %.15g, expected %.15g", k, e.getVolumesEl()[k], refVol(el,c) );
    V3 ce = {{0,0,0}}; for( auto & p : c ) for( int i = 0; i < 3; i++ ) ce[i] += p[i]/c.size();
    for( int i = 0; i < 3; i++ ) CK( vh::near( e.getCentroidsEl()[k][i], ce[i], 1e-11, ext ), "centroid", "element %zu dim %d: %.15g, expected %.15g", k, i, e.getCentroidsEl()[k][i], ce[i] );
  }
  // faces
  for( tI f = 0; f < e.nFas(); f++ ) {
    std::vector<V3> c; for( auto q : faS[f] ) c.push_back( m.crd[q] );
    CK( vh::rel( e.getAreasFa()[f], refFaVol(el,c), 1e-9*ext ), "area of a face", "face %zu: %.15g, expected %.15g", f, e.getAreasFa()[f], refFaVol(el,c) );
    V3 n, t0, t1; for( int i = 0; i < 3; i++ ) { n[i] = e.getNormalsFa()[f][i]; t0[i] = e.getTangentsFa()[f][0][i]; t1[i] = e.getTangentsFa()[f][1][i]; }
    V3 fc = cen(faS[f]), ec = {{0,0,0}}; tI k = fe[f*2]; for( unsigned q = 0; q < NV; q++ ) for( int i = 0; i < 3; i++ ) ec[i] += vc[ev[k*NV+q]][i]/NV;
    CK( vh::near( norm(n), 1, 1e-9 ), "unit normal", "face %zu: length %.15g", f, norm(n) );
    for( std::size_t q = 1; q < c.size(); q++ ) CK( std::fabs( dot( n, c[q]-c[0] ) ) < 1e-9*ext, "normal perpendicular to the face", "face %zu", f );
    CK( dot( n, fc-ec ) > 0, "normal points out of the first element", "face %zu of element %zu", f, k );
    CK( vh::near( norm(t0), 1, 1e-9 ) && std::fabs( dot(n,t0) ) < 1e-9, "first tangent", "face %zu: length %.15g, n*t %.3g", f, norm(t0), dot(n,t0) );
    if( D == 2 ) CK( vh::near( t0[0], -n[1], 1e-9 ) && vh::near( t0[1], n[0], 1e-9 ) && t0[2] == 0 && norm(t1) == 0, "tangent right-handed", "face %zu", f );
    else { CK( vh::near( norm(t1), 1, 1e-9 ) && std::fabs( dot(n,t1) ) < 1e-9 && std::fabs( dot(t0,t1) ) < 1e-9, "second tangent", "face %zu", f ); V3 x = cross( t0, t1 ); CK( norm( x-n ) < 1e-8, "tangents right-handed", "face %zu", f ); }
  }
  // closed surfaces
  for( tI k = 0; k < e.nEls(); k++ ) {
    V3 s = {{0,0,0}}; double v = 0, sc = 0;
    for( unsigned f = 0; f < NF; f++ ) { tI id = ef[k*NF+f]; double a = e.getAreasFa()[id]*( fe[id*2] == k && t.fa[faS[id]].size() > 0 ? 1 : -1 ); V3 fc = cen(faS[id]); for( int i = 0; i < 3; i++ ) { s[i] += a*e.getNormalsFa()[id][i]; v += a*e.getNormalsFa()[id][i]*(fc[i]-m.lo[i])/D; } sc = std::max( sc, std::fabs(a) ); }
    CK( norm(s) < 1e-8*sc*ext, "closed surface", "element %zu: sum of normals %.3g", k, norm(s) );
    CK( vh::near( v, e.getVolumesEl()[k], 1e-8*ext, sc*(m.hi[0]-m.lo[0]+m.hi[1]-m.lo[1]+m.hi[2]-m.lo[2]) ), "divergence theorem", "element %zu: %.12g, volume %.12g", k, v, e.getVolumesEl()[k] );
  }
  // adjacency derived from the faces (without periodic faces)
  if( !o.periodic ) { std::vector<tI> x( m.els.size()*NF+1, 55 ); edge_v::mesh::Mesh::getElFaEl( e.getTypeEl(), e.nEls(), fe, ef, x.data() ); for( tI k = 0; k < e.nEls()*NF; k++ ) CK( x[k] == ee[k], "adjacency derived from the faces", "entry %zu: %zd, expected %zd", k, (ssize_t)x[k], (ssize_t)ee[k] ); CK( x.back() == 55, "written beyond the end", "elFaEl" ); }
  // ids of adjacent faces and vertices
  std::vector<tI> qe; std::vector<unsigned short> qf; tI off = r.p(0.5) ? 0 : r.i(0,e.nEls()-1);
  for( tI k = off; k < e.nEls(); k++ ) for( unsigned f = 0; f < NF; f++ ) if( ee[k*NF+f] != NONE && r.p(0.7) ) { qe.push_back( k-off ); qf.push_back( f ); }
  std::vector<unsigned short> fa( qe.size()+1, 77 ), va( qe.size()+1, 77 );
  if( qe.size() ) { e.getFaIdsAd( qe.size(), off, qe.data(), qf.data(), fa.data() ); e.getVeIdsAd( qe.size(), off, qe.data(), qf.data(), va.data() ); }
  CK( fa[qe.size()] == 77 && va[qe.size()] == 77, "written beyond the end", "adjacent ids" );
  for( std::size_t q = 0; q < qe.size(); q++ ) {
    tI k = qe[q]+off; unsigned f = qf[q]; tI n = ee[k*NF+f]; std::set<idx> fs = faS[ef[k*NF+f]]; bool per = t.fa[fs].size() == 1; std::set<idx> fn = per ? partner[fs] : fs;
    unsigned x = 99; for( unsigned h = 0; h < NF; h++ ) if( faS[ef[n*NF+h]] == fn ) x = h;
    if( !CK( fa[q] == x, per ? "adjacent face, periodic" : "adjacent face", "element %zu face %u neighbor %zu: %u, expected %u", k, f, n, fa[q], x ) ) continue;
    vh::stat("adjacencies");
    if( el != TET ) { CK( va[q] == 0, "adjacent vertex", "element %zu face %u: %u", k, f, va[q] ); continue; }
    idx v0 = ev[k*NV+refFa(el,f)[0]]; V3 sh = cen(fn)-cen(fs); unsigned y = 99;
    for( unsigned h = 0; h < 3; h++ ) { idx w = ev[n*NV+refFa(el,x)[h]]; double d = 0; for( int i = 0; i < 3; i++ ) d += std::fabs( m.crd[v0][i]+sh[i]-m.crd[w][i] ); if( d < 1e-6 ) y = h; }
    CK( va[q] == y, per ? "adjacent vertex, periodic" : "adjacent vertex", "element %zu face %u (%zu/%u): %u, expected %u", k, f, n, x, va[q], y );
    vh::sig( vh::fmt("tet f%u n%u v%u p%d", f, x, y, per) );
  }
}
static void entities( vh::Rng & r ) {
  using edge_v::geom::Geom; typedef edge_v::t_entityType T;
  double sc = std::pow( 10., r.r(-2,4) ); V3 o = {{r.wild(-1,2),r.wild(-1,2),r.wild(-1,2)}};
  auto rnd = [&]( unsigned d ) { V3 p = {{0,0,0}}; for( unsigned i = 0; i < d; i++ ) p[i] = o[i]+sc*r.r(-1,1); return p; };
  double c[8][3]; auto set = [&]( std::vector<V3> const & v ) { for( std::size_t k = 0; k < v.size(); k++ ) for( int i = 0; i < 3; i++ ) c[k][i] = v[k][i]; };
  double ot = 1e-10*( 1 + norm(o)/sc );
  { unsigned d = r.i(2,3); std::vector<V3> v = { rnd(d), rnd(d) }; set( v ); double l = norm(v[1]-v[0]); vh::check( vh::near( Geom::volume( T::LINE, c ), l, ot, sc ), "length of a line", "%.15g expected %.15g", Geom::volume( T::LINE, c ), l ); }
  { unsigned d = r.i(2,3); std::vector<V3> v = { rnd(d), rnd(d), rnd(d) }; set( v ); double a = refVol( TRIA, v ); if( a > 1e-3*sc*sc ) { vh::check( vh::near( Geom::volume( T::TRIA3, c ), a, ot*100, sc*sc ), "area of a triangle", "%ud: %.15g expected %.15g", d, Geom::volume( T::TRIA3, c ), a ); if( d == 2 )
      vh::check( vh::near( Geom::inDiameter( T::TRIA3, c ), refDia( TRIA, v ), ot*1e3, sc ), "incircle", "%.15g expected %.15g", Geom::inDiameter( T::TRIA3, c ), refDia( TRIA, v ) ); } }
  { std::vector<V3> v = { rnd(3), rnd(3), rnd(3), rnd(3) }; set( v ); double a = refVol( TET, v ); if( a > 1e-3*sc*sc*sc ) { vh::check( vh::near( Geom::volume( T::TET4, c ), a, ot*1e3, sc*sc*sc ), "volume of a tet", "%.15g expected %.15g", Geom::volume( T::TET4, c ), a );
      vh::check( vh::near( Geom::inDiameter( T::TET4, c ), refDia( TET, v ), ot*1e4, sc ), "insphere", "%.15g expected %.15g", Geom::inDiameter( T::TET4, c ), refDia( TET, v ) ); } }
  { // faces in space: normal and tangents for arbitrary points on either side
    bool q = r.p(0.5); std::vector<V3> v = { rnd(3), rnd(3), rnd(3) }; if( q ) { V3 x; for( int i = 0; i < 3; i++ ) x[i] = v[1][i]+v[2][i]-v[0][i]; v = { v[0], v[1], x, v[2] }; } set( v );
    V3 n = cross( v[1]-v[0], v[2]-v[0] ); double l = norm(n); V3 p = rnd(3); double h = dot( n, p-v[0] )/l;
    if( l > 1e-2*sc*sc && std::fabs(h) > 1e-3*sc ) { double s = h > 0 ? -1 : 1; double on[3], ta[2][3], pt[3] = {p[0],p[1],p[2]}; Geom::normal( q ? T::QUAD4R : T::TRIA3, c, pt, on ); Geom::tangents( q ? T::QUAD4R : T::TRIA3, c, pt, ta );
      for( int i = 0; i < 3; i++ ) vh::check( vh::near( on[i], s*n[i]/l, ot*1e4 ), "normal of a face in space", "%s dim %d: %.12g expected %.12g", q?"quad":"triangle", i, on[i], s*n[i]/l );
      V3 t0 = {{ta[0][0],ta[0][1],ta[0][2]}}, t1 = {{ta[1][0],ta[1][1],ta[1][2]}}, x = cross( t0, t1 );
      vh::check( vh::near( norm(t0), 1, 1e-9 ) && vh::near( norm(t1), 1, 1e-9 ) && std::fabs(dot(t0,t1)) < 1e-9, "tangents orthonormal", "%s", q?"quad":"triangle" );
      for( int i = 0; i < 3; i++ ) vh::check( vh::near( x[i], on[i], ot*1e4 ), "tangents in space right-handed", "%s dim %d: %.12g expected %.12g", q?"quad":"triangle", i, x[i], on[i] );
      vh::check( vh::near( Geom::volume( q ? T::QUAD4R : T::TRIA3, c ), q ? l : l/2, ot*1e3, sc*sc ), "area of a face in space", "%s", q?"quad":"triangle" ); vh::stat("faces_in_space"); }
  }
  { // centroids
    T ts[5] = { T::LINE, T::TRIA3, T::QUAD4R, T::TET4, T::HEX8R }; T t = ts[r.i(0,4)]; unsigned n = edge_v::CE_N_VES(t); std::vector<V3> v; for( unsigned k = 0; k < n; k++ ) v.push_back( rnd(3) ); set( v ); double ce[3]; Geom::centroid( t, c, ce );
    for( int i = 0; i < 3; i++ ) { double s = 0; for( auto & p : v ) s += p[i]; vh::check( vh::near( ce[i], s/n, ot*10, sc+norm(o) ), "centroid of an entity", "type %d", (int)t ); } }
  { // additional entries
    unsigned n1 = r.i(0,6), n2 = r.i(0,6); std::vector<tI> a, b; for( unsigned k = 0; k < n1; k++ ) a.push_back( r.i(0,5) ); for( unsigned k = 0; k < n2; k++ ) b.push_back( r.i(0,5) ); tI x = NONE; for( auto q : b ) if( !std::count( a.begin(), a.end(), q ) ) { x = q; break; } a.push_back(0); b.push_back(0);
    vh::check( edge_v::mesh::Mesh::getAddEntry( n1, n2, a.data(), b.data() ) == x, "additional entry", "%u %u", n1, n2 ); }
  { // lexicographic sort
    unsigned n = r.i(1,30), w = r.i(1,4); std::vector<std::vector<tI>> d( n ); std::vector<tI> flat, ids( n+1, 99999 ); for( auto & x : d ) { for( unsigned k = 0; k < w; k++ ) { x.push_back( r.i(0,4) ); flat.push_back( x.back() ); } }
    bool wi = r.p(0.7); edge_v::geom::Generic::sortLex( n, w, flat.data(), wi ? ids.data() : nullptr ); auto s = d; std::sort( s.begin(), s.end() );
    for( unsigned k = 0; k < n; k++ ) { std::vector<tI> x( flat.begin()+k*w, flat.begin()+(k+1)*w ); vh::check( x == s[k], "lexicographic sort", "n %u width %u", n, w ); if( wi ) vh::check( ids[k] < n && d[ids[k]] == s[k], "permutation of the lexicographic sort", "n %u", n ); }
    if( wi ) vh::check( std::set<tI>( ids.begin(), ids.begin()+n ).size() == n && ids[n] == 99999, "permutation is a permutation", "n %u", n ); }
  vh::stat("entities", 5);
}
int main( int argc, char ** argv ) {
  if( argc < 5 ) return 2; unsigned long seed = strtoul(argv[1],0,10); long n = atol(argv[2]); std::string dir = argv[3]; bool real = atoi(argv[4]);
  vh::Rng r( seed );
  for( long k = 0; k < n; k++ ) { mesh( r, dir, real ); for( int q = 0; q < 5; q++ ) entities( r ); vh::stat("eval_meshes"); }
  return vh::done();
}
