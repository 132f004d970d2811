// C23: runtime configuration (general and seismic), domains and sparse types.
#include "vh.hpp"
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
#include "io/Config.h"
#include "impl/seismic/io/Config.h"
#include "mesh/SparseTypes.hpp"
#include "io/FileSystem.hpp"
static std::string dir;
static unsigned short const ND = N_DIM;
struct HS { double o[3], n[3]; };
typedef std::vector<HS> Dom;
static std::string num( double v ) { return vh::fmt("%.17g",v); }
static std::string ws( vh::Rng & r, std::string const & s ) { return r.p(0.8) ? s : " \n "+s+" "; }
static std::string cmt( vh::Rng & r ) { return r.p(0.9) ? "" : "<!-- a <comment/> -->"; }
static std::string xel( vh::Rng & r, std::string const & n, std::string const & v, bool w=true ) { return cmt(r)+"<"+n+">"+(w?ws(r,v):v)+"</"+n+">"; }
static Dom rndDom( vh::Rng & r, std::string & xml ) {
  Dom d( r.p(0.1) ? 0 : r.i(1,4) );
  for( auto & h : d ) { double l = 0; do { l = 0; for( int i = 0; i < 3; i++ ) { h.o[i] = r.p(0.1) ? 0 : r.r(-2,2); h.n[i] = r.p(0.3) ? 0 : r.r(-3,3); if( i < ND ) l += std::fabs( h.n[i] ); } } while( l < 0.1 );
    xml += cmt(r)+"<half_space>"; std::string c[3] = {"x","y","z"}; bool nf = r.p(0.2); std::string a = "<origin>", b = "<normal>";
    for( int i = 0; i < 3; i++ ) { a += xel( r, c[i], num( h.o[i] ) ); b += xel( r, c[i], num( h.n[i] ) ); } a += "</origin>"; b += "</normal>"; xml += nf ? b+a : a+b; xml += "</half_space>"; }
  return d;
}
// in(1)/out(0), -1: too close to call
static int inDom( Dom const & d, double const * p ) { bool near = false; for( auto & h : d ) { double s = 0, l = 0; for( int i = 0; i < ND; i++ ) { s += h.n[i]*(p[i]-h.o[i]); l += h.n[i]*h.n[i]; } s /= std::sqrt(l); if( std::fabs(s) < 1e-7 ) near = true; else if( s < 0 ) return 0; } return near ? -1 : 1; }
template<class D> static void sameDom( vh::Rng & r, Dom const & e, D const & g, char const * what ) {
  for( int k = 0; k < 12; k++ ) { double p[3]; for( int i = 0; i < 3; i++ ) p[i] = r.r(-2.5,2.5); if( e.size() && r.p(0.3) ) for( int i = 0; i < 3; i++ ) p[i] = r.pick( e ).o[i]+r.r(-0.05,0.05);
    int s = inDom( e, p ); if( s < 0 ) continue; vh::check( g.inside( p ) == (s==1), std::string(what)+": domain", "%zu half spaces, point %g %g %g: inside %d, expected %d", e.size(), p[0], p[1], p[2], (int) g.inside( p ), s ); vh::stat( "eval_points" ); vh::stat( s ? "inside":"outside" ); }
}
static std::string put( std::string const & x ) { std::string p = dir+"/c.xml"; std::ofstream f( p ); f << x; return p; }
// true if the configuration is rejected
static bool rejects( std::string const & x, bool seis ) {
  std::string p = put( x ); fflush( stdout ); pid_t c = fork();
  if( c == 0 ) { if( !freopen( "/dev/null", "w", stdout ) ) _exit(3); if( !freopen( "/dev/null", "w", stderr ) ) _exit(3); { edge::io::Config g( p ); if( seis ) { edge::seismic::io::Config s( g.m_doc ); } } _exit( 0 ); }
  int st = 0; waitpid( c, &st, 0 ); return !( WIFEXITED(st) && WEXITSTATUS(st) == 0 );
}
static void config( vh::Rng & r ) {
  typedef edge::io::Config C; std::string x; std::map<std::string,std::string> opt;
  // what is expected
  std::string base = vh::fmt("dir%ld/m_%ld",r.i(0,9),r.i(0,99)), ext = r.pick<std::string>( {".msh",".h5",""} );
  x += "<edge>"; if( r.p(0.4) ) x += "<build><order>"+num( r.i(1,9) )+"</order><cfr>3</cfr></build>";
  std::string mesh = "<in>"+xel( r, "base", base, false )+xel( r, "extension", ext, false )+"</in>";
  std::vector<std::pair<std::string,int>> bn; bool per = r.p(0.5); int perId = r.i(1,200); int nb = r.i(0,4); int pp = r.i(0,nb);
  std::string b; for( int i = 0; i <= nb; i++ ) { if( per && i == pp ) b += xel( r, "periodic", std::to_string( perId ) ); if( i == nb ) break; std::string n = r.pick<std::string>( {"free_surface","outflow","rupture","reflecting"} ); int id = r.i(0,300); b += xel( r, n, std::to_string( id ) ); bn.push_back( {n,id} ); }
  mesh += "<boundary>"+b+"</boundary>";
  std::vector<Dom> sd[3]; std::vector<long> sv[3]; std::string st; char const * en[3] = {"vertices","faces","elements"};
  for( int e = 0; e < 3; e++ ) { int n = r.i(0,4); std::string t; for( int i = 0; i < n; i++ ) { std::string d; sd[e].push_back( rndDom( r, d ) ); sv[e].push_back( r.p(0.5) ? 1l<<r.i(0,30) : r.i(0,2147483647) ); std::string ty = xel( r, "type", std::to_string( sv[e].back() ) ); t += "<domain>"+( r.p(0.5) ? d+ty : ty+d )+"</domain>"; if( r.p(0.1) ) t += "<other/>"; }
    if( n || r.p(0.3) ) st += std::string("<")+en[e]+">"+t+"</"+en[e]+">"; }
  if( st != "" || r.p(0.2) ) mesh += "<sparse_types>"+st+"</sparse_types>";
  std::string set; int ni = r.i(0,N_CRUNS+1), nr = r.i(0,N_CRUNS+1); std::vector<std::string> iv, rv;
  auto vals = [&]( int n, std::vector<std::string> & v ) { std::string s; for( int i = 0; i < n; i++ ) { v.push_back( r.p(0.15) ? "" : vh::fmt("q[%ld]:=x+%g;\nq[0]:=%d;",r.i(0,4),r.r(),i) ); s += xel( r, r.pick<std::string>( {"v","setup","z"} ), v.back(), false ); } return s; };
  std::string is = vals( ni, iv ), rs = vals( nr, rv ); if( ni || r.p(0.3) ) set += "<initial_values>"+is+"</initial_values>";
  double end = r.r(0.01,50); set += xel( r, "end_time", num( end ) );
  // seismic part
  int nps = r.p(0.6) ? 0 : N_CRUNS; std::vector<std::string> ps; std::string sp; for( int i = 0; i < nps; i++ ) { ps.push_back( vh::fmt("s/%d_%ld.h5",i,r.i(0,99)) ); sp += xel( r, "file", ps.back(), false ); } if( nps || r.p(0.2) ) set += "<point_sources>"+sp+"</point_sources>";
  double att[2] = { r.r(0.1,10), r.r(1,200) }; if( N_RELAXATION_MECHANISMS > 0 || r.p(0.3) ) set += "<attenuation>"+xel( r, "central_frequency", num( att[0] ) )+xel( r, "frequency_ratio", num( att[1] ) )+"</attenuation>";
  double fc[3][3]; char const * fn[3] = {"normal","strike","dip"}; std::string cn[3] = {"x","y","z"}; std::string fs; for( int i = 0; i < 3; i++ ) { fs += std::string("<")+fn[i]+">"; for( int j = 0; j < 3; j++ ) { fc[i][j] = r.r(-1,1); fs += xel( r, cn[j], num( fc[i][j] ) ); } fs += std::string("</")+fn[i]+">"; }
  bool fgiven = r.p(0.7); if( fgiven ) set += "<fault_coordinates>"+fs+"</fault_coordinates>";
  int nru = r.p(0.4) ? 0 : r.i(1,N_CRUNS+1); std::vector<std::vector<double>> lsw; std::vector<std::vector<Dom>> rd; std::vector<std::vector<std::vector<double>>> rst;
  for( int i = 0; i < nru; i++ ) { lsw.push_back( { r.r(), r.r(), r.r() } ); set += "<rupture><friction_law>"+xel( r, "mus", num( lsw[i][0] ) )+xel( r, "mud", num( lsw[i][1] ) )+xel( r, "dc", num( lsw[i][2] ) )+"</friction_law><stress_init>"; rd.push_back( {} ); rst.push_back( {} );
    int n = r.i(0,4); for( int k = 0; k < n; k++ ) { std::string d; rd[i].push_back( rndDom( r, d ) ); std::vector<double> v = { r.wild(), r.wild(), r.wild() }; rst[i].push_back( v ); set += "<domain>"+d+"<values>"+xel( r, "sn0", num( v[0] ) )+"<ss0>"+xel( r, "normal_strike", num( v[1] ) )+xel( r, "normal_dip", num( v[2] ) )+"</ss0></values></domain>"; } set += "</stress_init></rupture>"; }
  int nv = r.i(0,4); std::vector<Dom> vd; std::vector<std::vector<double>> vv; std::string vm; for( int i = 0; i < nv; i++ ) { std::string d; vd.push_back( rndDom( r, d ) ); vv.push_back( { r.r(1,3000), r.r(1,9e9), r.r(1,9e9), r.r(1,200), r.r(1,200) } ); char const * n[5] = {"rho","lambda","mu","qp","qs"}; std::vector<std::string> e; for( int k = 0; k < 5; k++ ) e.push_back( xel( r, n[k], num( vv[i][k] ) ) ); r.shuffle( e ); std::string q; for( auto & z : e ) q += z; vm += "<domain>"+( r.p(0.5) ? d+q : q+d )+"</domain>"; }
  // output
  std::string out; bool wf = r.p(0.6); double wi = end*r.r(0.01,1.5); bool wsp = r.p(0.5); long wsv = r.i(0,2147483647); std::string wt = r.pick<std::string>( {"vtk_ascii","vtk_binary"} ), wfile = vh::fmt("o%ld/wf",r.i(0,9));
  if( wf ) out += "<wave_field>"+xel( r, "type", wt, false )+xel( r, "file", wfile, false )+xel( r, "int", num( wi ) )+( wsp ? xel( r, "sparse_type", std::to_string( wsv ) ) : "" )+"</wave_field>";
  bool ib = r.p(0.3); double ibi = r.r(0.1,3); if( ib ) out += "<internal_boundary><type>vtk_ascii</type>"+xel( r, "file", "ib/f", false )+xel( r, "int", num( ibi ) )+"</internal_boundary>";
  struct RC { int n; double f; int bad; std::vector<std::array<double,3>> c; std::vector<std::string> nm; } rc[2];
  for( int t = 0; t < 2; t++ ) { rc[t].n = r.p(0.3) ? 0 : r.i(1,5); rc[t].f = r.r(1e-3,2); rc[t].bad = r.p(0.7) ? 0 : r.i(1,4); std::string s; 
    if( rc[t].bad != 1 ) s += xel( r, "path_to_dir", vh::fmt("recv%d",t), false ); if( rc[t].bad == 2 ) rc[t].f = 0; if( rc[t].bad == 3 ) rc[t].f = -rc[t].f; if( rc[t].bad != 4 ) s += xel( r, "freq", num( rc[t].f ) );
    for( int i = 0; i < rc[t].n; i++ ) { rc[t].c.push_back( { r.wild(), r.wild(), r.wild() } ); bool nm = r.p(0.7); rc[t].nm.push_back( nm ? vh::fmt("st %d",i) : std::to_string(i) ); s += "<receiver>"+( nm ? xel( r, "name", rc[t].nm[i], false ) : r.p(0.5) ? "" : "<name></name>" )+"<coords>"; for( int k = 0; k < 3; k++ ) s += xel( r, cn[k], num( rc[t].c[i][k] ) ); s += "</coords></receiver>"; }
    if( s != "" ) out += t ? "<receivers_quad>"+s+"</receivers_quad>" : "<receivers>"+s+"</receivers>"; }
  bool er = r.p(0.6); std::string et = r.pick<std::string>( {"sout","file","sout_file"} ); if( er ) out += "<error_norms>"+xel( r, "type", et, false )+xel( r, "file", "e/err.xml", false )+"<reference_values>"+rs+"</reference_values></error_norms>";
  bool sy = r.p(0.5); double syi = end*r.r(0.01,2); bool pa = r.p(0.5), sw = r.p(0.6); int swv = r.i(-2,3);
  x += "<cfr>"; std::vector<std::string> parts = { "<mesh>"+mesh+"</mesh>", "<setups>"+set+"</setups>", "<output>"+out+"</output>" }; if( nv || r.p(0.3) ) parts.push_back( "<velocity_model>"+vm+"</velocity_model>" ); r.shuffle( parts ); for( auto & p : parts ) x += p; x += "</cfr>";
  if( sy ) x += "<synchronization>"+xel( r, "max_int", num( syi ) )+"</synchronization>"; if( pa ) x += "<parallelization>"+( sw ? xel( r, "separate_workers", std::to_string( swv ) ) : "" )+"</parallelization>"; x += "</edge>";
  std::string path = put( x );
  C g( path ); edge::seismic::io::Config s( g.m_doc );
  auto S = []( bool ok, char const * k, std::string const & t ) { vh::check( ok, std::string("config: ")+k, "%s", t.c_str() ); vh::stat( "eval_settings" ); };
  S( g.m_meshInBase == base && g.m_meshInExt == ext, "mesh", g.m_meshInBase+g.m_meshInExt+" expected "+base+ext );
  S( g.m_periodic == ( per ? perId : std::numeric_limits<int>::max() ), "periodic boundary", vh::fmt("%d, given %d: %d",g.m_periodic,(int)per,perId) );
  bool ok = g.m_bndConId.size() == bn.size() && g.m_bndConName.size() == bn.size(); if( ok ) for( size_t i = 0; i < bn.size(); i++ ) ok = ok && g.m_bndConId[i] == bn[i].second && g.m_bndConName[i] == bn[i].first; S( ok, "boundaries", vh::fmt("%zu boundaries, given %zu",g.m_bndConId.size(),bn.size()) );
  for( int e = 0; e < 3; e++ ) { ok = g.m_spTypesDoms[e].size() == sd[e].size() && g.m_spTypesVals[e].size() == sd[e].size(); S( ok, "number of sparse domains", vh::fmt("%s: %zu, expected %zu",en[e],g.m_spTypesVals[e].size(),sd[e].size()) ); if( !ok ) continue;
    for( size_t i = 0; i < sd[e].size(); i++ ) { S( (long) g.m_spTypesVals[e][i] == sv[e][i], "sparse type", vh::fmt("%s: %ld, expected %ld",en[e],(long)g.m_spTypesVals[e][i],sv[e][i]) ); sameDom( r, sd[e][i], g.m_spTypesDoms[e][i], "sparse types" ); } }
  for( int i = 0; i < N_CRUNS; i++ ) { std::string e = i < ni ? iv[i] : "", f = er && i < nr ? rv[i] : "";
    S( e == "" ? g.m_initValsExprStrs[i].compare( 0, 6, "q := 0" ) == 0 : g.m_initValsExprStrs[i] == e, "initial values", vh::fmt("run %d: '%s', given '%s'",i,g.m_initValsExprStrs[i].c_str(),e.c_str()) );
    S( f == "" ? g.m_refValsExprStrs[i].compare( 0, 6, "q := 0" ) == 0 : g.m_refValsExprStrs[i] == f, "reference values", vh::fmt("run %d: '%s', given '%s'",i,g.m_refValsExprStrs[i].c_str(),f.c_str()) ); }
  S( g.m_endTime == end, "end time", num( g.m_endTime )+" expected "+num( end ) );
  S( g.m_waveFieldType == ( wf ? wt : "" ) && ( !wf || ( g.m_waveFieldFile == wfile && g.m_waveFieldInt == wi ) ), "wave field", g.m_waveFieldType+" "+g.m_waveFieldFile+" "+num( g.m_waveFieldInt ) );
  S( wf || g.m_waveFieldInt > 1e100, "wave field", "interval without output" );
  S( g.m_waveFieldSpType == ( wf && wsp ? (int_spType) wsv : std::numeric_limits<int_spType>::max() ), "sparse type of the wave field", vh::fmt("%lld, given %d: %ld",(long long)g.m_waveFieldSpType,(int)(wf&&wsp),wsv) );
  S( ib ? g.m_iBndType == "vtk_ascii" && g.m_iBndFile == "ib/f" && g.m_iBndInt == ibi : g.m_iBndType == "", "internal boundary output", g.m_iBndType+" "+g.m_iBndFile );
  for( int t = 0; t < 2; t++ ) { bool use = rc[t].n > 0 && rc[t].bad == 0; ok = g.m_recvCrds[t].size() == (size_t) ( use ? rc[t].n : 0 ) && g.m_recvNames[t].size() == g.m_recvCrds[t].size(); S( ok, "number of receivers", vh::fmt("%zu, given %d (invalid %d)",g.m_recvCrds[t].size(),rc[t].n,rc[t].bad) ); if( !ok || !use ) continue;
    S( g.m_recvFreq[t] == rc[t].f && g.m_recvPath[t] == vh::fmt("recv%d",t), "sampling", num( g.m_recvFreq[t] )+" "+g.m_recvPath[t] );
    for( int i = 0; i < rc[t].n; i++ ) { S( g.m_recvNames[t][i] == rc[t].nm[i], "name of a receiver", g.m_recvNames[t][i]+" expected "+rc[t].nm[i] ); ok = true; for( int k = 0; k < 3; k++ ) ok = ok && g.m_recvCrds[t][i][k] == rc[t].c[i][k]; S( ok, "coordinates of a receiver", rc[t].nm[i] ); } }
  S( g.m_errorNormsType == ( er ? et : "" ) && g.m_errorNormsFile == ( er ? "e/err.xml" : "" ), "error norms", g.m_errorNormsType+" "+g.m_errorNormsFile );
  double sye = sy ? syi : std::min( 0.05*end, wf ? wi : 1e300 ); S( vh::rel( g.m_syncMaxInt, sye, 1e-14 ), "synchronization interval", num( g.m_syncMaxInt )+" expected "+num( sye ) );
  S( g.m_separateWrks == ( pa && sw ? swv : 1 ), "separate workers", vh::fmt("%d",(int)g.m_separateWrks) );
  // seismic
  S( s.m_ptSrcs == ps, "point sources", vh::fmt("%zu, given %zu",s.m_ptSrcs.size(),ps.size()) );
  if( N_RELAXATION_MECHANISMS > 0 ) S( s.m_attFreqs[0] == att[0] && s.m_attFreqs[1] == att[1], "attenuation", num( s.m_attFreqs[0] )+" "+num( s.m_attFreqs[1] ) );
  ok = s.m_velDoms.size() == vd.size() && s.m_velVals.size() == vd.size(); S( ok, "number of velocity domains", vh::fmt("%zu, given %zu",s.m_velVals.size(),vd.size()) );
  if( ok ) for( size_t i = 0; i < vd.size(); i++ ) { sameDom( r, vd[i], s.m_velDoms[i], "velocity model" ); for( int k = 0; k < ( N_RELAXATION_MECHANISMS > 0 ? 5 : 3 ); k++ ) S( s.m_velVals[i][k] == (real_base) vv[i][k], "velocity model", vh::fmt("domain %zu, parameter %d: %g, expected %g",i,k,(double)s.m_velVals[i][k],vv[i][k]) ); }
  S( s.m_frictionLaw == ( nru ? "lsw" : "" ), "friction law", s.m_frictionLaw );
  for( int i = 0; i < ND; i++ ) for( int j = 0; j < ND; j++ ) S( s.m_faultCrds[i][j] == ( fgiven ? fc[i][j] : 0.0 ), "fault coordinates", vh::fmt("%d %d: %g",i,j,(double)s.m_faultCrds[i][j]) );
  for( int i = 0; i < std::min( nru, (int) N_CRUNS ); i++ ) { for( int k = 0; k < 3; k++ ) S( s.m_lsw[i][k] == (real_base) lsw[i][k], "friction parameters", vh::fmt("run %d, parameter %d: %g, expected %g",i,k,(double)s.m_lsw[i][k],lsw[i][k]) );
    ok = s.m_rupDoms[i].size() == rd[i].size() && s.m_stressInit[i].size() == rd[i].size(); S( ok, "number of rupture domains", vh::fmt("%zu, given %zu",s.m_stressInit[i].size(),rd[i].size()) ); if( !ok ) continue;
    for( size_t k = 0; k < rd[i].size(); k++ ) { sameDom( r, rd[i][k], s.m_rupDoms[i][k], "rupture" ); for( int q = 0; q < ND; q++ ) S( s.m_stressInit[i][k][q] == (real_base) rst[i][k][q], "initial stress", vh::fmt("run %d, domain %zu, value %d: %g, expected %g",i,k,q,(double)s.m_stressInit[i][k][q],rst[i][k][q]) ); } }
  for( int i = nru; i < N_CRUNS; i++ ) S( s.m_rupDoms[i].size() == 0, "rupture domains without a setup", std::to_string( i ) );
  vh::stat( "configs" ); vh::sig( vh::fmt("c%zu.%d.%d.%d.%zu%zu%zu.%d.%d.%d",bn.size(),ni,nr,nps,sd[0].size(),sd[1].size(),sd[2].size(),nru,nv,(int)wf+2*(int)sy+4*rc[0].bad) );
}
static void rejected( vh::Rng & r ) {
  std::string att = N_RELAXATION_MECHANISMS > 0 ? "<attenuation><central_frequency>1</central_frequency><frequency_ratio>10</frequency_ratio></attenuation>" : "";
  auto doc = [&]( std::string set, std::string out, std::string rest, std::string vel ) { return "<edge><cfr><mesh><in><base>m</base></in></mesh><setups><end_time>1</end_time>"+set+"</setups><output>"+out+"</output><velocity_model>"+vel+"</velocity_model></cfr>"+rest+"</edge>"; };
  std::string good = doc( att, "", "", "<domain><rho>1</rho><lambda>1</lambda><mu>1</mu><qp>5</qp><qs>4</qs></domain>" ); vh::check( !rejects( good, true ), "config: accepted", "valid configuration rejected" );
  std::vector<std::pair<std::string,std::string>> bad;
  bad.push_back( {"truncated file", good.substr( 0, r.i(10,(long)good.size()-8) )} );
  bad.push_back( {"interval of the wave field", doc( att, "<wave_field><type>vtk_ascii</type><file>f</file><int>"+r.pick<std::string>( {"0","-1","","1e-12"} )+"</int></wave_field>", "", "" )} );
  bad.push_back( {"synchronization interval", doc( att, "", "<synchronization><max_int>"+r.pick<std::string>( {"0","-0.5",""} )+"</max_int></synchronization>", "" )} );
  int n = r.i(1,4); if( n == N_CRUNS ) n++; std::string f; for( int i = 0; i < n; i++ ) f += "<file>s.h5</file>"; bad.push_back( {"number of point source files", doc( att+"<point_sources>"+f+"</point_sources>", "", "", "" )} );
  if( N_RELAXATION_MECHANISMS > 0 ) { bad.push_back( {"attenuation missing", doc( "", "", "", "" )} ); bad.push_back( {"attenuation", doc( "<attenuation><central_frequency>-1</central_frequency><frequency_ratio>10</frequency_ratio></attenuation>", "", "", "" )} );
    bad.push_back( {"attenuation", doc( "<attenuation><central_frequency>1</central_frequency><frequency_ratio>0</frequency_ratio></attenuation>", "", "", "" )} );
    bad.push_back( {"q-factors", doc( att, "", "", "<domain><rho>1</rho><lambda>1</lambda><mu>1</mu><qp>5</qp><qs>-2</qs></domain>" )} ); bad.push_back( {"q-factors missing", doc( att, "", "", "<domain><rho>1</rho><lambda>1</lambda><mu>1</mu><qs>5</qs></domain>" )} ); }
  for( auto & b : bad ) { vh::check( rejects( b.second, true ), "config: rejected", "%s: accepted", b.first.c_str() ); vh::stat( "eval_rejections" ); }
}
// entities get the types of all domains which hold all of their vertices
template<t_entityType EN> static void sparse( vh::Rng & r, char const * what ) {
  unsigned short const NV = C_ENT[EN].N_VERTICES; struct VC { double coords[3]; }; struct EC { int_spType spType; };
  size_t nv = r.i(NV,30), ne = r.i(1,60); std::vector<VC> vc( nv ); for( auto & v : vc ) for( int k = 0; k < 3; k++ ) v.coords[k] = r.r(-2,2); std::vector<size_t> ev( ne*NV ); for( auto & e : ev ) e = r.i(0,nv-1);
  if( r.p(0.5) ) for( size_t e = 0; e < ne; e++ ) for( int v = 1; v < NV; v++ ) if( r.p(0.8) ) ev[e*NV+v] = ev[e*NV];
  std::vector<EC> ec( ne ); std::vector<int_spType> b( ne ); for( size_t e = 0; e < ne; e++ ) b[e] = ec[e].spType = r.p(0.5) ? 0 : r.i(0,255);
  int nd = r.i(0,5); std::vector<int_spType> ty; std::vector<Dom> d; typedef edge::linalg::Domain<double,N_DIM,edge::linalg::HalfSpace> D; std::vector<D> g( nd );
  for( int i = 0; i < nd; i++ ) { std::string x; d.push_back( rndDom( r, x ) ); ty.push_back( r.p(0.5) ? 1ll<<r.i(0,40) : r.i(0,4095) ); for( auto & h : d[i] ) { edge::linalg::HalfSpace<double,N_DIM> s( h.o, h.n ); g[i].add( s ); } }
  edge::mesh::SparseTypes<EN>::set( ne, (size_t (*)[NV]) ev.data(), ty.data(), g, vc.data(), ec.data() );
  for( size_t e = 0; e < ne; e++ ) { int_spType x = b[e], any = 0; for( int i = 0; i < nd; i++ ) { int in = 1; for( int v = 0; v < NV; v++ ) { int s = inDom( d[i], vc[ev[e*NV+v]].coords ); if( s == 0 ) { in = 0; break; } if( s < 0 ) in = -1; } if( in == 1 ) x |= ty[i]; if( in < 0 ) any |= ty[i]; }
    vh::check( (ec[e].spType|any) == (x|any), std::string("sparse types of ")+what, "entity %zu: %llx, expected %llx", e, (long long) ec[e].spType, (long long) x ); vh::stat( "eval_entities" ); if( x != b[e] ) vh::stat( "entities_changed" ); }
  vh::sig( vh::fmt("s%s%d",what,nd) );
}
static void paths( vh::Rng & r ) {
  std::string p; int n = r.i(1,12); for( int i = 0; i < n; i++ ) p += r.pick<std::string>( {"/","a","b.","..","x y"} );
  std::string d, f; edge::io::FileSystem::splitPathFirst( p, d, f ); size_t k = p.find( '/' ); vh::check( k == std::string::npos ? d == "" && f == p : d == p.substr(0,k) && f == p.substr(k+1), "first split of a path", "%s: %s %s", p.c_str(), d.c_str(), f.c_str() );
  k = p.rfind( '/' ); if( k != std::string::npos ) { edge::io::FileSystem::splitPathLast( p, d, f ); vh::check( d == p.substr(0,k) && f == p.substr(k+1), "last split of a path", "%s: %s %s", p.c_str(), d.c_str(), f.c_str() ); } vh::stat( "eval_paths" );
}
int main( int argc, char ** argv ) {
  setvbuf( stdout, 0, _IOLBF, 1<<16 ); uint64_t seed = strtoull( argv[1], 0, 10 ); long n = atol( argv[2] ); dir = argv[3];
  for( long k = 0; k < n; k++ ) { vh::Rng r( seed*1000003+k ); config( r ); for( int i = 0; i < 4; i++ ) { sparse<T_SDISC.ELEMENT>( r, "elements" ); sparse<C_ENT[T_SDISC.ELEMENT].TYPE_FACES>( r, "faces" ); paths( r ); } if( k % 25 == 0 ) rejected( r ); }
  return vh::done();
}
