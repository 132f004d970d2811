// C17: files of EDGE-V: HDF5, grids, csv, background meshes, config and the output of complete runs.
#include "evmesh.hpp"
#include <memory>
#include <sstream>
#include <queue>
#include <functional>
#include <sys/wait.h>
#include "io/Hdf5.h"
#include "io/Grid.h"
#include "io/Csv.h"
#include "io/BgMeshMsh4.h"
#include "io/Config.h"
#include "io/Gmsh.h"
#include "mesh/Mesh.h"
using namespace evm; typedef edge_v::t_idx tI; typedef unsigned short us;
static tI const NONE = std::numeric_limits<tI>::max();
static std::string dir, exe;

template<class T> static T anyVal( vh::Rng & r );
template<> us anyVal<us>( vh::Rng & r ) { return r.p(0.1) ? 65535 : r.i(0,65535); }
template<> tI anyVal<tI>( vh::Rng & r ) { return r.p(0.1) ? NONE-r.i(0,1) : r.p(0.3) ? r.u64() : r.i(0,100000); }
template<> float anyVal<float>( vh::Rng & r ) { return r.p(0.05) ? std::numeric_limits<float>::max() : r.wild(-30,30); }
template<> double anyVal<double>( vh::Rng & r ) { return r.p(0.05) ? std::numeric_limits<double>::max() : r.wild(-200,200); }
template<class T> static void roundTrip( vh::Rng & r, edge_v::io::Hdf5 & w, std::string const & n, std::vector<std::function<void(edge_v::io::Hdf5&)>> & later, char const * ty ) {
  std::vector<T> d( r.i(1,r.p(0.1)?5000:30) ); for( auto & x : d ) x = anyVal<T>( r ); w.set( n, d.size(), d.data() ); std::string t = ty;
  later.push_back( [=]( edge_v::io::Hdf5 & h ) { vh::check( h.exists( n ), "dataset exists", "%s", n.c_str() ); vh::check( h.nVas( n ) == d.size(), "number of values", "%s: %zu, expected %zu", t.c_str(), h.nVas( n ), d.size() );
    if( h.nVas( n ) != d.size() ) return; std::vector<T> o( d.size()+1, T(77) ); h.get( n, o.data() ); vh::check( o[d.size()] == T(77), "written beyond the values", "%s", t.c_str() ); o.pop_back(); vh::check( o == d, "HDF5 round trip", "%s, %zu values", t.c_str(), d.size() ); } );
  vh::stat( "hdf5_"+t, d.size() );
}
static void hdf5( vh::Rng & r ) {
  std::string p = dir+"/r.h5"; std::vector<std::function<void(edge_v::io::Hdf5&)>> later; std::vector<std::string> gr; bool multi = r.p(0.3);
  { edge_v::io::Hdf5 w( p, false ); int ng = r.i(0,3); gr.push_back( "" ); for( int i = 0; i < ng; i++ ) { gr.push_back( vh::fmt("/g%d",i) ); w.createGroup( gr.back() ); }
    int n = r.i(1,8); for( int i = 0; i < n; i++ ) { std::string nm = r.pick( gr )+vh::fmt("/d%d",i); switch( r.i(0,3) ) { case 0: roundTrip<us>( r, w, nm, later, "ushort" ); break; case 1: roundTrip<tI>( r, w, nm, later, "id" ); break; case 2: roundTrip<float>( r, w, nm, later, "float" ); break; default: roundTrip<double>( r, w, nm, later, "double" ); }
      if( r.p(0.5) ) later.back()( w ); }
    for( auto & g : gr ) if( g != "" ) vh::check( w.exists( g ), "group exists", "%s", g.c_str() ); vh::check( !w.exists( "/nothing" ), "missing object", "exists" ); }
  if( multi ) { hid_t f = H5Fopen( p.c_str(), H5F_ACC_RDWR, H5P_DEFAULT ); for( int nd = 1; nd < 4; nd++ ) { hsize_t s[3] = { (hsize_t) r.i(1,6), (hsize_t) r.i(1,6), (hsize_t) r.i(1,6) }; tI n = 1; for( int i = 0; i < nd; i++ ) n *= s[i]; std::vector<double> v( n ); for( auto & x : v ) x = r.r(-9,9);
      hid_t sp = H5Screate_simple( nd, s, 0 ); std::string nm = vh::fmt("/m%d",nd); hid_t ds = H5Dcreate2( f, nm.c_str(), H5T_IEEE_F64LE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT ); H5Dwrite( ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data() ); H5Dclose( ds ); H5Sclose( sp );
      later.push_back( [=]( edge_v::io::Hdf5 & h ) { if( !vh::check( h.nVas( nm ) == n, "number of values of an array", "%d dimensions: %zu, expected %zu", nd, h.nVas( nm ), n ) ) return; std::vector<double> o( n ); h.get( nm, o.data() ); vh::check( o == v, "array in row-major order", "%d dimensions", nd ); } ); } H5Fclose( f ); }
  { edge_v::io::Hdf5 h( p ); for( auto & l : later ) l( h ); for( auto & g : gr ) if( g != "" ) vh::check( h.exists( g ), "group exists", "%s", g.c_str() ); vh::check( !h.exists( "/nothing" ), "missing object", "exists" ); }
  if( r.p(0.3) ) { edge_v::io::Hdf5 w( p, false ); for( auto & g : gr ) if( g != "" ) vh::check( !w.exists( g ), "file replaced", "%s", g.c_str() ); }
  unlink( p.c_str() ); vh::stat("eval_hdf5"); vh::sig( vh::fmt("hdf5 %zu %d", later.size(), multi) );
}
static std::vector<std::string> lines( std::string const & p ) { std::ifstream f( p ); std::vector<std::string> l; std::string s; while( std::getline( f, s ) ) l.push_back( s ); return l; }
static std::vector<double> split( std::string const & s ) { std::vector<double> v; std::string t = s; for( auto & c : t ) if( c == ',' ) c = ' '; std::istringstream i( t ); std::string w; while( i >> w ) v.push_back( strtod( w.c_str(), 0 ) ); return v; }
static void csv( vh::Rng & r ) {
  us nc = r.i(1,5), prec = r.i(1,16); tI nr = r.i(0,30); std::vector<std::string> names; std::vector<std::vector<double>> d( nc ); std::vector<double const*> p; for( us c = 0; c < nc; c++ ) { names.push_back( vh::fmt("col_%c%d",'a'+(int)r.i(0,25),c) ); for( tI i = 0; i < nr; i++ ) d[c].push_back( r.wild(-8,8) ); p.push_back( d[c].data() ); }
  std::string f = dir+"/t.csv"; edge_v::io::Csv::write( f, nc, nr, names.data(), prec, p.data() ); auto l = lines( f ); std::size_t k = 0; while( k < l.size() && l[k].size() && l[k][0] == '#' ) k++;
  std::string h; for( us c = 0; c < nc; c++ ) h += ( c ? "," : "" )+names[c]; if( !vh::check( k > 0 && k < l.size() && l[k] == h, "header of a csv", "%u columns: %s", nc, k < l.size() ? l[k].c_str() : "missing" ) ) return;
  if( !vh::check( l.size() == k+1+nr, "rows of a csv", "%zu, expected %zu", l.size()-k-1, nr ) ) return;
  for( tI i = 0; i < nr; i++ ) { auto v = split( l[k+1+i] ); if( !vh::check( v.size() == nc, "columns of a csv", "row %zu: %zu", i, v.size() ) ) return; for( us c = 0; c < nc; c++ ) vh::check( vh::rel( v[c], d[c][i], 0.51*std::pow( 10., 1-prec )+1e-15 ), "value of a csv", "precision %u: %.17g, expected %.17g", prec, v[c], d[c][i] ); }
  unlink( f.c_str() ); vh::stat("eval_csv");
}
// background mesh
static void checkBg( std::string const & s, unsigned D, unsigned NV, std::vector<std::array<double,3>> const & x, std::vector<tI> const & ev, std::vector<double> const & len, double tol ) {
  std::istringstream in( s ); std::string w; tI nv = x.size(), n = ev.size()/NV; auto num = [&]() { std::string q; in >> q; return strtod( q.c_str(), 0 ); }; bool fmtOk = false, no = false, eo = false, dO = false;
  double ext = 0; for( auto & q : x ) for( auto y : q ) ext = std::max( ext, std::fabs(y) );
  std::map<tI,tI> id;
  while( in >> w ) {
    if( w == "$MeshFormat" ) { double a = num(), b = num(), c = num(); in >> w; fmtOk = a == 4.1 && b == 0 && c == 8 && w == "$EndMeshFormat"; }
    else if( w == "$Nodes" ) { tI nb = num(), nn = num(), mi = num(), ma = num(), d = num(), t = num(), p = num(), nn2 = num(); (void) t; std::vector<tI> tg( nv ); no = nb == 1 && nn == nv && d == D && p == 0 && nn2 == nv; if( !no ) break;
      for( tI i = 0; i < nv; i++ ) { tg[i] = num(); no &= !id.count(tg[i]) && tg[i] >= mi && tg[i] <= ma; id[tg[i]] = i; } for( tI i = 0; i < nv; i++ ) for( int k = 0; k < 3; k++ ) { double y = num(); vh::check( std::fabs( y-x[i][k] ) <= 1e-5*std::fabs( x[i][k] )+1e-12*ext, "vertex of a background mesh", "%zu dim %d: %.9g, expected %.9g", i, k, y, x[i][k] ); } in >> w; no &= w == "$EndNodes"; }
    else if( w == "$Elements" ) { tI nb = num(), nn = num(), mi = num(), ma = num(), d = num(), t = num(), ty = num(), n2 = num(); (void) t; eo = nb == 1 && nn == n && n2 == n && d == D && ty == (tI) ( NV == 3 ? 2 : 4 ); if( !eo ) break; std::set<tI> seen;
      for( tI e = 0; e < n; e++ ) { tI tg = num(); eo &= tg >= mi && tg <= ma && seen.insert( tg ).second; for( unsigned k = 0; k < NV; k++ ) { tI v = num(); eo &= id.count( v ) && id[v] == ev[e*NV+k]; } } in >> w; eo &= w == "$EndElements"; }
    else if( w == "$NodeData" ) { tI ns = num(); std::string q; std::getline( in, q ); for( tI i = 0; i < ns; i++ ) std::getline( in, q ); tI nr = num(); for( tI i = 0; i < nr; i++ ) num(); tI ni = num(); num(); tI nc = num(), m = num(); dO = ni == 3 && nc == 1 && m == nv; if( !dO ) break; std::set<tI> seen;
      for( tI i = 0; i < nv; i++ ) { tI t = num(); double v = num(); if( !id.count( t ) || !seen.insert( t ).second ) { dO = false; break; } vh::check( vh::rel( v, len[id[t]], tol ), "length of a background mesh", "vertex %zu: %.9g, expected %.9g", id[t], v, len[id[t]] ); } in >> w; dO &= w == "$EndNodeData"; }
  }
  vh::check( fmtOk, "format of a background mesh", "header" ); vh::check( no, "nodes of a background mesh", "%zu", nv ); vh::check( eo, "elements of a background mesh", "%zu", n ); vh::check( dO, "data of a background mesh", "%zu", nv );
}
static void bg( vh::Rng & r ) {
  bool tet = r.p(0.5); unsigned D = tet ? 3 : 2, NV = D+1; tI nv = NV+r.i(0,40), n = r.i(1,40); std::vector<std::array<double,3>> x( nv ); for( auto & q : x ) for( int k = 0; k < 3; k++ ) q[k] = k < (int)D ? r.wild(-3,5) : 0;
  std::vector<tI> ev; for( tI e = 0; e < n*NV; e++ ) ev.push_back( r.i(0,nv-1) ); std::vector<float> l( nv ); for( auto & q : l ) q = std::pow( 10., r.r(-4,4) ); std::vector<double> ld( l.begin(), l.end() );
  std::ostringstream o; edge_v::io::BgMeshMsh4::write( tet ? edge_v::TET4 : edge_v::TRIA3, nv, n, ev.data(), (double const (*)[3]) x.data(), l.data(), o ); checkBg( o.str(), D, NV, x, ev, ld, 1e-5 ); vh::stat("eval_bg");
}
static std::string esc( std::string const & s ) { std::string o; for( char c : s ) o += c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '&' ? "&amp;" : std::string(1,c); return o; }
static void config( vh::Rng & r ) {
  struct V { std::string v; bool has; }; auto str = [&]( char const * b ) { V v; v.has = r.p(0.7); v.v = v.has ? std::string(b)+vh::fmt("_%ld",r.i(0,999))+( r.p(0.2) ? " a < b && c > d;" : "" ) : ""; return v; };
  auto tag = [&]( std::string const & t, V const & v ) { return v.has ? "<"+t+">"+esc( v.v )+"</"+t+">" : std::string(); };
  V in = str("in.msh"), ob = str("base"), oe = str(".msh"), se = str("vp := 1"), ps = str("+proj=utm"), pd = str("+proj=longlat"), mo = str("cvms"), mt = str("crust"), cm = str("UCVM"), ru = str("rule"), ba = str("bath.h5"), ex = str("expr"), re = str("ref"), ro = str("out"), to = str("ts.csv");
  auto boo = [&]( bool & b ) { V v; v.has = r.p(0.7); b = v.has && r.p(0.6); v.v = b ? r.pick( std::vector<std::string>{"true","1"} ) : r.pick( std::vector<std::string>{"false","0"} ); return v; };
  bool wa, rd, ls, cc; V vwa = boo( wa ), vrd = boo( rd ), vls = boo( ls ), vcc = boo( cc );
  auto num = [&]( long lo, long hi, long & x ) { V v; v.has = r.p(0.7); x = v.has ? r.i(lo,hi) : -1; v.v = vh::fmt("%ld",x); return v; };
  long pe, np, ng; V vpe = num( 0, 200, pe ), vnp = num( 0, 9000, np ), vng = num( 0, 12, ng );
  auto dbl = [&]( double & x ) { V v; v.has = r.p(0.7); x = v.has ? r.wild(-3,4) : 0; v.v = vh::fmt("%.17g",x); return v; };
  double fd, dt; V vfd = dbl( fd ), vdt = dbl( dt ); double tr[3][3]; bool hasTr = r.p(0.5); std::string trs; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { tr[i][j] = hasTr ? r.wild(-3,3) : i == j; trs += vh::fmt("<%c_%d>%.17g</%c_%d>","xyz"[i],j,tr[i][j],"xyz"[i],j); }
  int nd = r.i(0,3); std::vector<std::string> ds; std::string dss; for( int i = 0; i < nd; i++ ) { ds.push_back( vh::fmt("disp_%ld.h5",r.i(0,999)) ); dss += "<displacements>"+ds.back()+"</displacements>"; }
  std::vector<std::string> m = { "<files>"+tag("in",in)+"<out>"+tag("base",ob)+tag("extension",oe)+"</out></files>", tag("write_element_annotations",vwa), tag("periodic",vpe), tag("reorder_only",vrd), tag("n_partitions",vnp) }; r.shuffle( m );
  std::vector<std::string> v = { tag("seismic_expression",se), "<ucvm>"+( hasTr ? "<source_transformation>"+trs+"</source_transformation>" : std::string() )+"<projections>"+tag("source",ps)+tag("destination",pd)+"</projections>"+tag("models",mo)+tag("model_type",mt)+tag("coordinate_mode",cm)+tag("normalization_rule",ru)+tag("lower_to_surface",vls)+"</ucvm>", "<tsunami>"+tag("dry_tolerance",vdt)+tag("bathymetry",ba)+dss+tag("expression",ex)+"</tsunami>" }; r.shuffle( v );
  std::vector<std::string> t = { tag("n_groups",vng), tag("fundamental_time_step",vfd), tag("centroid_based_cfl",vcc), "<files><out>"+tag("time_steps",to)+"</out></files>" }; r.shuffle( t );
  auto cat = []( std::vector<std::string> const & q ) { std::string s; for( auto & x : q ) s += x+"\n"; return s; };
  std::vector<std::string> top = { "<mesh>"+cat(m)+"</mesh>", "<velocity_model>"+cat(v)+"</velocity_model>", "<refinement>"+tag("expression",re)+tag("out",ro)+"</refinement>", "<time>"+cat(t)+"</time>" }; r.shuffle( top );
  std::string p = dir+"/c.xml"; { std::ofstream o( p ); o << "<edge_v>\n" << cat( top ) << "</edge_v>\n"; }
  edge_v::io::Config c( p );
#define S(g,x,n) vh::check( c.g == x.v, "config string", n ": '%s', expected '%s'", c.g.c_str(), x.v.c_str() )
  S( getMeshIn(), in, "mesh in" ); S( getMeshOutBase(), ob, "base" ); S( getMeshOutExt(), oe, "extension" ); S( getVelModSeismicExpr(), se, "seismic expression" ); S( getVelModUcvmProjSrc(), ps, "source" ); S( getVelModUcvmProjDes(), pd, "destination" ); S( getVelModUcvmModels(), mo, "models" ); S( getVelModUcvmModelType(), mt, "type" ); S( getVelModUcvmCrdMode(), cm, "mode" ); S( getVelModUcvmRule(), ru, "rule" );
  S( getModTsunamiBath(), ba, "bathymetry" ); S( getModTsunamiExpr(), ex, "expression" ); S( getRefExpr(), re, "refinement" ); S( getRefOut(), ro, "refinement out" ); S( getTsOut(), to, "time steps" );
  vh::check( c.getWriteElAn() == wa && c.getReorderOnly() == rd && c.getLowerToSurf() == ls && c.getCenCfl() == cc, "config switches", "annotations %d/%d, reorder %d/%d, lower %d/%d, centroid %d/%d", c.getWriteElAn(), wa, c.getReorderOnly(), rd, c.getLowerToSurf(), ls, c.getCenCfl(), cc );
  vh::check( c.getPeriodic() == ( pe > 0 ? pe : std::numeric_limits<int>::max() ), "config periodic", "%d, given %ld", c.getPeriodic(), pe ); vh::check( c.nPartitions() == (tI) std::max( 1l, np ), "config partitions", "%zu, given %ld", c.nPartitions(), np ); vh::check( c.nTsGroups() == std::max( 1l, ng ), "config groups", "%u, given %ld", c.nTsGroups(), ng );
  vh::check( c.getFunDt() == fd && c.getModTsunamiDryTol() == (float) dt, "config numbers", "%.17g %.17g, %g %g", c.getFunDt(), fd, c.getModTsunamiDryTol(), dt ); vh::check( c.getModTsunamiDisp() == ds, "config displacements", "%zu", c.getModTsunamiDisp().size() );
  for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) vh::check( c.getVelModUcvmTrafoSrc()[i][j] == tr[i][j], "config transformation", "%d %d", i, j );
  unlink( p.c_str() ); vh::stat("eval_config");
}
// --- complete runs -------------------------------------------------------------------------------------------
template<class T> static std::vector<T> get( std::string const & p, std::string const & n ) {
  hid_t f = H5Fopen( p.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT ); if( f < 0 ) return {}; hid_t d = H5Lexists( f, "/edge_v", H5P_DEFAULT ) > 0 && H5Lexists( f, n.c_str(), H5P_DEFAULT ) > 0 ? H5Dopen2( f, n.c_str(), H5P_DEFAULT ) : -1; std::vector<T> v; if( d >= 0 ) { hid_t s = H5Dget_space( d ); v.resize( H5Sget_simple_extent_npoints( s ) ); H5Dread( d, sizeof(T) == 2 ? H5T_NATIVE_USHORT : std::is_same<T,double>::value ? H5T_NATIVE_DOUBLE : std::is_same<T,float>::value ? H5T_NATIVE_FLOAT : H5T_NATIVE_ULONG, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data() ); H5Sclose( s ); H5Dclose( d ); } H5Fclose( f ); return v; }
struct Part { std::map<idx,std::array<double,3>> nd; std::vector<std::vector<idx>> els; std::vector<std::pair<int,std::vector<idx>>> fas; };
static bool readMsh( std::string const & p, unsigned D, Part & o ) { std::ifstream in( p ); if( !in ) return false; std::string l; while( std::getline( in, l ) ) { if( l == "$Nodes" ) { tI n; in >> n; for( tI i = 0; i < n; i++ ) { idx t; std::array<double,3> x; in >> t >> x[0] >> x[1] >> x[2]; o.nd[t] = x; } }
    if( l == "$Elements" ) { tI n; in >> n; for( tI i = 0; i < n; i++ ) { tI t; int ty, nt, ph = 0, q; in >> t >> ty >> nt; for( int k = 0; k < nt; k++ ) { in >> q; if( !k ) ph = q; } int nn = ty == 1 ? 2 : ty == 2 ? 3 : ty == 3 ? 4 : ty == 4 ? 4 : 8, d = ty == 1 ? 1 : ty < 4 ? 2 : 3; std::vector<idx> v( nn ); for( auto & x : v ) in >> x; if( d == (int)D ) o.els.push_back( v ); else o.fas.push_back( { ph, v } ); } } } return true; }
struct GridF { std::vector<double> x, y; std::vector<float> z; float at( double a, double b ) const { tI i = 1, j = 1; while( x[i] < a ) i++; while( y[j] < b ) j++; return z[j*x.size()+i]; } };
static GridF mkGrid( vh::Rng & r, Mesh const & m, std::string const & p, double lo, double hi ) { GridF g; for( int d = 0; d < 2; d++ ) { double e = m.hi[d]-m.lo[d], a = m.lo[d]-e*r.r(0.02,0.3), b = m.hi[d]+e*r.r(0.02,0.3); tI n = r.i(2,12); auto & v = d ? g.y : g.x; for( tI i = 0; i < n; i++ ) v.push_back( i+1 == n ? b : a+(b-a)*( i+( i ? r.r(-0.3,0.3) : 0 ) )/(n-1) ); }
  g.z.resize( g.x.size()*g.y.size() ); for( auto & q : g.z ) q = r.r(lo,hi); edge_v::io::Hdf5 h( p, false ); h.set( "/x", g.x.size(), g.x.data() ); h.set( "/y", g.y.size(), g.y.data() ); h.set( "/z", g.z.size(), g.z.data() ); return g; }
static void run( vh::Rng & r ) {
  El el = (El) r.i(2,5); Opt o; o.periodic = r.p(0.3); o.nMax = el == TET ? r.i(1,3) : el == HEX ? r.i(2,4) : r.i(2,8); o.grade = r.r(1,6); Mesh m = gen( r, el, o ); if( m.els.size() < 4 ) return; unsigned D = nDis(el), NV = nVe(el), NF = nFa(el); tI n = m.els.size();
  system( ( "rm -rf "+dir+"/run && mkdir "+dir+"/run" ).c_str() ); std::string d = dir+"/run"; write( m, d+"/m.msh", r );
  tI np = r.p(0.3) ? 1 : r.i(2,std::min<tI>(5,n/4+1)); us ng = r.i(1,4); double fd = r.p(0.4) ? 0 : r.p(0.3) ? 1 : r.r(0.51,1); bool cen = r.p(0.4), an = r.p(0.3), tsOut = r.p(0.4), noOut = r.p(0.06); bool ro = np > 1 && r.p(0.1); int mod = r.i(0,2); int nd = mod == 2 ? r.i(0,2) : 0; bool ref = mod == 1 && ( el == TRIA || el == TET ) && r.p(0.5); double tol = -r.r(0,30);
  double k[3] = { r.r(0.5,2), r.r(0,3), r.r(0,3) }; auto vmax = [&]( double x, double y ) { return k[0]+k[1]*std::fabs((x-m.lo[0])/(m.hi[0]-m.lo[0]))+k[2]*std::fabs((y-m.lo[1])/(m.hi[1]-m.lo[1])); };
  std::string ve = vh::fmt( "%.17g+%.17g*abs((x-(%.17g))/(%.17g))+%.17g*abs((y-(%.17g))/(%.17g))", k[0], k[1], m.lo[0], m.hi[0]-m.lo[0], k[2], m.lo[1], m.hi[1]-m.lo[1] );
  GridF bath; std::vector<GridF> disp; std::string vm;
  if( mod == 1 ) vm = "<seismic_expression>vp := "+ve+"; vs := vp/2; qp := 1; qs := 1;</seismic_expression>";
  if( mod == 2 ) { bath = mkGrid( r, m, d+"/bath.h5", -50, 50 ); vm = vh::fmt( "<tsunami><dry_tolerance>%.9g</dry_tolerance><bathymetry>%s/bath.h5</bathymetry>", tol, d.c_str() ); for( int i = 0; i < nd; i++ ) { disp.push_back( mkGrid( r, m, d+vh::fmt("/disp%d.h5",i), -2, 2 ) ); vm += vh::fmt( "<displacements>%s/disp%d.h5</displacements>", d.c_str(), i ); } vm += "<expression>min_speed := 0.5; max_speed := 0.1*abs(data)+"+ve+";</expression></tsunami>"; }
  { std::ofstream x( d+"/c.xml" ); x << "<edge_v><mesh><files><in>" << d << "/m.msh</in>"; if( !noOut ) x << "<out><base>" << d << "/out</base><extension>.msh</extension></out>"; x << "</files>"; if( o.periodic ) x << "<periodic>106</periodic>"; if( an ) x << "<write_element_annotations>1</write_element_annotations>"; if( ro ) x << "<reorder_only>true</reorder_only>"; x << "<n_partitions>" << np << "</n_partitions></mesh><velocity_model>" << vm << "</velocity_model>";
    if( ref ) x << "<refinement><expression>frequency := 2; edges_per_wave_length := if( x > 0, 3, 5 );</expression><out>" << d << "/ref.msh</out></refinement>";
    x << "<time><n_groups>" << ng << "</n_groups>"; if( fd > 0 ) x << vh::fmt( "<fundamental_time_step>%.17g</fundamental_time_step>", fd ); if( cen ) x << "<centroid_based_cfl>1</centroid_based_cfl>"; if( tsOut ) x << "<files><out><time_steps>" << d << "/ts.csv</time_steps></out></files>"; x << "</time></edge_v>\n"; }
  std::string what = std::string(name(el))+(o.periodic?" periodic":"")+vh::fmt( " %zu elements, %zu partitions%s, %u groups, model %d%s, dt %.4g", n, np, ro?" (reorder only)":"", ng, mod, cen?" at centroids":"", fd );
#define CK(c,k,...) vh::check( c, k, "%s: %s", what.c_str(), vh::fmt(__VA_ARGS__).c_str() )
  vh::sig( vh::fmt( "run %s p%d np%zu ng%u m%d c%d fd%d an%d ro%d no%d ref%d", name(el), o.periodic, np, ng, mod, cen, fd==0, an, ro, noOut, ref ) );
  int st = system( ( "cd "+d+" && timeout 120 "+exe+" -x "+d+"/c.xml > "+d+"/log 2>&1" ).c_str() ); vh::stat("runs");
  if( st != 0 ) { std::string t; for( auto & l : lines( d+"/log" ) ) if( l.find("ERROR: ") != std::string::npos || l.find("FATAL") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("what()") != std::string::npos || l.find("    #1 ") != std::string::npos ) t += l.substr(0,200)+" | "; 
    // partitions without elements are not supported by the communication structures (Metis might return them for tiny meshes)
    if( np > 1 && !ro ) for( tI p = 0; p < np; p++ ) { Part q; if( readMsh( d+vh::fmt("/out_%zu.msh",p+1), D, q ) && q.els.empty() ) { vh::stat("empty_partitions"); return; } }
    CK( false, "run of EDGE-V", "status %d %s", st, t.c_str() ); return; }
  // expected time steps in the numbering of a mesh of this process
  edge_v::io::Gmsh g; int per = o.periodic ? 106 : std::numeric_limits<int>::max();
  auto steps = [&]( edge_v::mesh::Mesh & e ) { std::vector<double> t( n ); double mi = 1e300; for( tI q = 0; q < n; q++ ) { double v = 0; auto sp = [&]( double x, double y ) { return mod == 0 ? 1. : mod == 1 ? vmax( x, y ) : 0.1*std::fabs( (double) bath.at( x, y ) )+vmax( x, y ); };
      if( cen ) v = sp( e.getCentroidsEl()[q][0], e.getCentroidsEl()[q][1] ); else for( unsigned i = 0; i < NV; i++ ) { auto x = e.getVeCrds()[e.getElVe()[q*NV+i]]; v += sp( x[0], x[1] )/NV; } t[q] = e.getInDiasEl()[q]/v; mi = std::min( mi, t[q] ); } for( auto & x : t ) x /= mi; return t; };
  bool tie = false;
  auto groups = [&]( edge_v::mesh::Mesh & e, std::vector<double> const & t, double dt, double & sp ) { std::vector<us> q( n ); for( tI i = 0; i < n; i++ ) { us a = 0; double iv = dt*2; while( a+1 < ng && !( t[i] < iv ) ) { a++; iv *= 2; } q[i] = a; double u = std::log2( t[i]/dt ); if( std::fabs( u-std::lround(u) ) < 1e-7 && std::lround(u) > 0 && std::lround(u) < ng ) tie = true; }
    for( bool ch = true; ch; ) { ch = false; for( tI i = 0; i < n; i++ ) for( unsigned f = 0; f < NF; f++ ) { tI b = e.getElFaEl()[i*NF+f]; if( b != NONE && q[i] > q[b]+1 ) { q[i] = q[b]+1; ch = true; } } } double l = 0; for( auto a : q ) l += 1/( dt*std::pow( 2., a ) ); sp = n/l; return q; };
  g.open( d+"/m.msh" ); g.readMesh(); std::vector<double> ts0; std::vector<std::vector<tI>> el0; 
  { edge_v::mesh::Mesh e( g, per ); ts0 = steps( e );
    if( tsOut && !noOut ) { auto l = lines( d+"/ts.csv" ); tI h = 0; while( h < l.size() && l[h].size() && l[h][0] == '#' ) h++; if( CK( l.size() == h+1+n && l[h] == "ts_cfl", "file of the time steps", "%zu lines", l.size() ) ) for( tI i = 0; i < n; i++ ) CK( vh::rel( strtod( l[h+1+i].c_str(), 0 ), ts0[i], 1e-4 ), "file of the time steps", "element %zu: %s, expected %.6g", i, l[h+1+i].c_str(), ts0[i] ); }
    if( ref ) { std::ifstream f( d+"/ref.msh" ); std::stringstream ss; ss << f.rdbuf(); std::vector<std::array<double,3>> x; std::vector<double> len( e.nVes(), 3.4e38 ); bool near = false; for( tI v = 0; v < e.nVes(); v++ ) x.push_back( {{ e.getVeCrds()[v][0], e.getVeCrds()[v][1], e.getVeCrds()[v][2] }} );
      std::vector<tI> ev( e.getElVe(), e.getElVe()+n*NV ); for( tI q = 0; q < n; q++ ) { double cx = e.getCentroidsEl()[q][0]; if( std::fabs( cx ) < 1e-6 ) near = true; for( unsigned i = 0; i < NV; i++ ) { tI v = ev[q*NV+i]; len[v] = std::min( len[v], vmax( x[v][0], x[v][1] )/2/( 2*( cx > 0 ? 3 : 5 ) ) ); } } if( !near ) { checkBg( ss.str(), D, NV, x, ev, len, 1e-4 ); vh::stat("refinements"); } }
    if( an && !noOut ) { auto f = lines( d+"/out_cfl_time_step.msh" ); if( CK( f.size() == n+1, "annotation of the time steps", "%zu lines", f.size() ) ) for( tI i = 0; i < n; i++ ) CK( vh::rel( split( f[i+1] )[1], ts0[i], 1e-9 ), "annotation of the time steps", "element %zu", i ); }
    double best = 0, sp; if( fd == 0 ) { double dt = 1; for( ; dt > 0.5; dt -= 0.01 ) { groups( e, ts0, dt, sp ); best = std::max( best, sp ); } }
    if( noOut ) { vh::check( access( (d+"/out_1.h5").c_str(), F_OK ) != 0 && access( (d+"/_1.h5").c_str(), F_OK ) != 0, "no output requested", "files written" ); return; }
    auto iv = get<double>( d+"/out_1.h5", "/edge_v/relative_time_steps" ); if( !CK( iv.size() == ng+1u, "relative time steps", "%zu", iv.size() ) ) return;
    if( fd == 0 ) { groups( e, ts0, iv[0], sp ); if( !tie ) CK( iv[0] > 0.495 && iv[0] <= 1 && vh::rel( sp, best, 1e-9 ), "best fundamental time step", "%.6g has speed-up %.9g, best %.9g", iv[0], sp, best ); tie = false; fd = iv[0]; }
    for( us i = 0; i <= ng; i++ ) CK( i == ng ? iv[i] > 1e300 : vh::rel( iv[i], fd*std::pow( 2., i ), 1e-12 ), "relative time steps", "%u: %.12g", i, iv[i] );
    if( an ) { tie = false; auto q = groups( e, ts0, fd, sp ); auto f = lines( d+"/out_element_time_step_group.msh" ); if( !tie && CK( f.size() == n+1, "annotation of the groups", "%zu lines", f.size() ) ) for( tI i = 0; i < n; i++ ) CK( split( f[i+1] )[1] == q[i], "annotation of the groups", "element %zu", i );
      f = lines( d+"/out_element_id.msh" ); if( CK( f.size() == n+1, "annotation of the ids", "%zu lines", f.size() ) ) for( tI i = 0; i < n; i++ ) CK( split( f[i+1] )[1] == i, "annotation of the ids", "element %zu", i ); } }
  // parts
  tI nf = ro ? 1 : np; std::vector<Part> pt( nf ); std::vector<std::string> h5( nf ); std::vector<tI> first( nf+1, 0 ); Mesh all = m; all.els.clear(); std::map<idx,idx> t2v; for( idx v = 0; v < m.tag.size(); v++ ) t2v[m.tag[v]] = v; std::map<std::vector<idx>,tI> orig; for( tI i = 0; i < n; i++ ) { auto v = m.els[i]; std::sort( v.begin(), v.end() ); orig[v] = i; } std::set<tI> seen;
  std::map<std::set<idx>,std::multiset<int>> fty; for( auto & f : m.fas ) fty[std::set<idx>(f.second.begin(),f.second.end())].insert( f.first );
  for( tI p = 0; p < nf; p++ ) { h5[p] = d+vh::fmt("/out_%zu.h5",p+1); if( !CK( readMsh( d+vh::fmt("/out_%zu.msh",p+1), D, pt[p] ), "mesh of a partition", "%zu missing", p ) ) return; first[p+1] = first[p]+pt[p].els.size();
    for( auto & x : pt[p].nd ) if( !CK( t2v.count( x.first ) && x.second == m.crd[t2v[x.first]], "vertices of a partition", "tag %zu", x.first ) ) return;
    for( auto & e : pt[p].els ) { std::vector<idx> v; for( auto t : e ) { if( !t2v.count( t ) ) { CK( false, "elements of a partition", "vertex %zu", t ); return; } v.push_back( t2v[t] ); } auto s = v; std::sort( s.begin(), s.end() ); if( !CK( orig.count( s ) && seen.insert( orig[s] ).second, "elements of the partitions", "%zu of partition %zu", (tI)( &e-&pt[p].els[0] ), p ) ) return; all.els.push_back( v ); } }
  if( !CK( all.els.size() == n, "elements of the partitions", "%zu, expected %zu", all.els.size(), n ) ) return;
  CK( access( (d+vh::fmt("/out_%zu.h5",nf+1)).c_str(), F_OK ) != 0, "files per partition", "more than %zu", nf );
  vh::Rng q( 5 ); write( all, d+"/all.msh", q, false ); g.open( d+"/all.msh" ); g.readMesh(); edge_v::mesh::Mesh e( g, per ); std::vector<double> ts = steps( e ); double sp; tie = false; std::vector<us> tg = groups( e, ts, fd, sp ); if( tie ) { vh::stat("ties"); return; } tI const * ee = e.getElFaEl();
  std::vector<tI> pa( n ); for( tI p = 0; p < nf; p++ ) for( tI i = first[p]; i < first[p+1]; i++ ) pa[i] = p;
  auto send = [&]( tI i ) { for( unsigned f = 0; f < NF; f++ ) { tI b = ee[i*NF+f]; if( b != NONE && pa[b] != pa[i] ) return 1; } return 0; };
  if( !ro ) for( tI i = 0; i+1 < n; i++ ) if( pa[i] == pa[i+1] ) CK( send(i) < send(i+1) || ( send(i) == send(i+1) && tg[i] <= tg[i+1] ), "order within a partition", "elements %zu and %zu of partition %zu", i-first[pa[i]], i+1-first[pa[i]], pa[i] );
  typedef std::array<tI,4> Ch; typedef std::pair<tI,us> Fc; std::map<Ch,std::vector<Fc>> S, R; std::map<Ch,std::set<Fc>> X; for( tI i = 0; i < n; i++ ) for( us f = 0; f < NF; f++ ) { tI b = ee[i*NF+f]; if( b != NONE && pa[b] != pa[i] ) X[Ch{{pa[i],tg[i],pa[b],tg[b]}}].insert( Fc( i, f ) ); }
  for( tI p = 0; p < nf; p++ ) {
    std::vector<tI> in( ng, 0 ), se( ng, 0 ); for( tI i = first[p]; i < first[p+1]; i++ ) ( send(i) ? se : in )[tg[i]]++;
    CK( get<tI>( h5[p], "/edge_v/n_time_group_elements_inner" ) == in, "inner elements of the groups", "partition %zu", p ); CK( get<tI>( h5[p], "/edge_v/n_time_group_elements_send" ) == se, "send elements of the groups", "partition %zu", p ); CK( get<double>( h5[p], "/edge_v/relative_time_steps" ) == get<double>( h5[0], "/edge_v/relative_time_steps" ), "time steps of all partitions", "%zu", p );
    auto ave = [&]( GridF const & f, tI i ) { double v = 0; for( unsigned k = 0; k < NV; k++ ) { auto x = e.getVeCrds()[e.getElVe()[i*NV+k]]; v += (double) f.at( x[0], x[1] )/NV; } return v; };
    if( mod == 2 ) { auto b = get<float>( h5[p], "/edge_v/bath" ); if( CK( b.size() == first[p+1]-first[p], "bathymetry of a partition", "%zu", b.size() ) ) for( tI i = 0; i < b.size(); i++ ) { double a = ave( bath, first[p]+i ); if( std::fabs( a-tol ) < 1e-4 ) continue; if( a > tol ) a = std::max( a, -tol ); CK( vh::near( b[i], a, 1e-5, 50 ), "bathymetry of an element", "partition %zu element %zu: %.7g, expected %.7g (tolerance %g)", p, i, b[i], a, tol ); }
      for( int c = 0; c < nd; c++ ) { auto x = get<float>( h5[p], vh::fmt("/edge_v/disp_%d",c) ); if( CK( x.size() == first[p+1]-first[p], "displacements of a partition", "%zu", x.size() ) ) for( tI i = 0; i < x.size(); i++ ) CK( vh::near( x[i], ave( disp[c], first[p]+i ), 1e-5, 2 ), "displacement of an element", "partition %zu element %zu component %d", p, i, c ); } }
    auto co = get<tI>( h5[p], "/edge_v/communication_structure" ); if( nf == 1 ) { CK( co.empty(), "communication of a single partition", "written" ); continue; }
    auto sE = get<tI>( h5[p], "/edge_v/send_el" ), rE = get<tI>( h5[p], "/edge_v/recv_el" ); auto sF = get<us>( h5[p], "/edge_v/send_fa" ), rF = get<us>( h5[p], "/edge_v/recv_fa" ), fi = get<us>( h5[p], "/edge_v/send_face_ids" ), vi = get<us>( h5[p], "/edge_v/send_vertex_ids" );
    if( !CK( co.size() && co.size() == 1+4*co[0] && sE.size() == rE.size() && sF.size() == sE.size() && rF.size() == sE.size() && fi.size() == sE.size() && vi.size() == sE.size(), "sizes of the communication", "partition %zu", p ) ) return; tI of = 0;
    for( tI c = 0; c < co[0]; c++ ) { Ch ch{{ p, co[1+c*4], co[2+c*4], co[3+c*4] }}; if( !CK( of+co[4+c*4] <= sE.size(), "sizes of the communication", "partition %zu", p ) ) return; for( tI i = 0; i < co[4+c*4]; i++, of++ ) { S[ch].push_back( Fc( first[p]+sE[of], sF[of] ) ); R[ch].push_back( Fc( first[p]+rE[of], rF[of] ) ); } }
    CK( of == sE.size(), "sizes of the communication", "partition %zu", p );
    std::vector<tI> se2; for( auto x : sE ) se2.push_back( x ); std::vector<us> rf( sE.size() ), rv( sE.size() ); bool ok = true; for( tI i = 0; i < sE.size(); i++ ) if( first[p]+sE[i] >= n || sF[i] >= NF || ee[(first[p]+sE[i])*NF+sF[i]] == NONE ) ok = false; if( !CK( ok, "send elements and faces", "partition %zu", p ) ) return;
    if( sE.size() ) { e.getFaIdsAd( sE.size(), first[p], se2.data(), sF.data(), rf.data() ); e.getVeIdsAd( sE.size(), first[p], se2.data(), sF.data(), rv.data() ); } CK( rf == fi, "face ids of ghost elements", "partition %zu", p ); CK( rv == vi, "vertex ids of ghost elements", "partition %zu", p );
  }
  if( nf > 1 ) { CK( S.size() == X.size(), "channels", "%zu, expected %zu", S.size(), X.size() ); for( auto & x : X ) { auto & s = S[x.first]; auto & v = R[x.first]; CK( std::set<Fc>( s.begin(), s.end() ) == x.second && s.size() == x.second.size(), "faces of a channel", "%zu/%zu -> %zu/%zu", x.first[0], x.first[1], x.first[2], x.first[3] );
      auto & t = S[Ch{{ x.first[2], x.first[3], x.first[0], x.first[1] }}]; if( CK( t.size() == v.size(), "both sides of a channel", "%zu and %zu faces", t.size(), v.size() ) ) for( tI i = 0; i < v.size(); i++ ) CK( v[i].first < n && v[i].second < NF && ee[v[i].first*NF+v[i].second] == t[i].first && ee[t[i].first*NF+t[i].second] == v[i].first, "faces of both sides match", "%zu/%zu <- %zu/%zu", x.first[0], x.first[1], x.first[2], x.first[3] ); } vh::stat("channels", X.size()); }
  // boundary types
  std::map<std::set<idx>,int> ty; for( auto & f : fty ) { int x = 0; for( int b : f.second ) x |= b; ty[f.first] = x; } for( tI p = 0; p < nf; p++ ) { std::map<std::set<idx>,int> own; for( auto & f : pt[p].fas ) { std::set<idx> s; for( auto t : f.second ) s.insert( t2v[t] ); own[s] |= f.first; } std::set<std::set<idx>> need; for( tI i = first[p]; i < first[p+1]; i++ ) for( unsigned f = 0; f < NF; f++ ) { std::set<idx> s; for( auto x : refFa( el, f ) ) s.insert( e.getElVe()[i*NV+x] ); if( ty.count( s ) ) need.insert( s ); }
    for( auto & s : need ) CK( own.count( s ) && own[s] == ty[s], "boundary faces of a partition", "partition %zu", p ); }
  vh::stat("eval_runs"); vh::stat("elements", n); vh::stat( vh::fmt("model_%d",mod) );
}
int main( int argc, char ** argv ) {
  if( argc < 6 ) return 2; vh::Rng r( strtoul(argv[1],0,10) ); long n = atol(argv[2]), nr = atol(argv[3]); dir = argv[4]; exe = argv[5];
  for( long k = 0; k < n; k++ ) { hdf5( r ); csv( r ); bg( r ); config( r ); }
  for( long k = 0; k < nr; k++ ) run( r );
  return vh::done();
}
