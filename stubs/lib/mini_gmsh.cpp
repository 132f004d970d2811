// Stand-in for libgmsh (incl. the custom "EdgePartition" plugin, which the system's libgmsh lacks):
// an in-memory mesh, MSH 2.2 ASCII in- and output, reordering and partitioned output.
#include <gmsh.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
namespace {
  struct El { std::size_t tag; std::vector< std::size_t > ns; };
  struct Face { std::size_t tag; int ty, phys, ent; std::vector< std::size_t > ns; };
  struct State {
    std::map< std::string, double > opts;
    std::vector< std::size_t > nTags; std::vector< double > nCrds;
    int elTy = 0, elPhys = 1; std::vector< El > els; std::vector< Face > fas;
    std::vector< std::size_t > paEls; std::map< int, std::string > views; std::map< int, std::vector<double> > list; std::map< int, std::pair< std::vector<std::size_t>, std::vector<double> > > mdata;
    double plugView = -1; int nextView = 0;
    void clear() { nTags.clear(); nCrds.clear(); els.clear(); fas.clear(); paEls.clear(); elTy = 0; }
  } g;
  // tyDim, number of nodes
  int dimOf( int t ) { return t == 15 ? 0 : t == 1 ? 1 : (t == 2 || t == 3) ? 2 : (t == 4 || t == 5) ? 3 : -1; }
  int nnOf( int t ) { return t == 15 ? 1 : t == 1 ? 2 : t == 2 ? 3 : t == 3 ? 4 : t == 4 ? 4 : t == 5 ? 8 : 0; }
  void writeMsh( std::string const & p, std::size_t first, std::size_t n, bool all ) {
    std::set< std::size_t > used;
    for( std::size_t e = first; e < first+n; e++ ) used.insert( g.els[e].ns.begin(), g.els[e].ns.end() );
    FILE * f = std::fopen( p.c_str(), "w" ); if( !f ) throw std::runtime_error( "cannot write " + p );
    std::size_t nN = 0; for( auto t : g.nTags ) if( all || used.count(t) ) nN++;
    std::fprintf( f, "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%zu\n", nN );
    for( std::size_t i = 0; i < g.nTags.size(); i++ ) if( all || used.count(g.nTags[i]) )
      std::fprintf( f, "%zu %.17g %.17g %.17g\n", g.nTags[i], g.nCrds[3*i], g.nCrds[3*i+1], g.nCrds[3*i+2] );
    // boundary faces which belong to an element of this partition
    std::set< std::vector< std::size_t > > elFas;
    if( !all ) {
      std::vector< std::size_t > tmp; int d = dimOf( g.elTy );
      std::vector< El > sub( g.els.begin()+first, g.els.begin()+first+n ); std::swap( sub, g.els );
      int fn;
      if( d == 2 ) { gmsh::model::mesh::getElementEdgeNodes( g.elTy, tmp ); fn = 2; }
      else { fn = g.elTy == 4 ? 3 : 4; gmsh::model::mesh::getElementFaceNodes( g.elTy, fn, tmp ); }
      std::swap( sub, g.els );
      for( std::size_t i = 0; i+fn <= tmp.size(); i += fn ) { std::vector< std::size_t > v( tmp.begin()+i, tmp.begin()+i+fn ); std::sort( v.begin(), v.end() ); elFas.insert( v ); }
    }
    std::vector< Face const * > fs;
    for( auto & fa : g.fas ) { std::vector< std::size_t > v = fa.ns; std::sort( v.begin(), v.end() ); if( all || elFas.count(v) ) fs.push_back( &fa ); }
    std::fprintf( f, "$EndNodes\n$Elements\n%zu\n", fs.size()+n );
    for( auto fa : fs ) { std::fprintf( f, "%zu %d 2 %d %d", fa->tag, fa->ty, fa->phys, fa->ent ); for( auto x : fa->ns ) std::fprintf( f, " %zu", x ); std::fprintf( f, "\n" ); }
    for( std::size_t e = first; e < first+n; e++ ) { std::fprintf( f, "%zu %d 2 %d 1", g.els[e].tag, g.elTy, g.elPhys ); for( auto x : g.els[e].ns ) std::fprintf( f, " %zu", x ); std::fprintf( f, "\n" ); }
    std::fprintf( f, "$EndElements\n" ); std::fclose( f );
  }
}
namespace gmsh {
  void initialize( int, char **, const bool, const bool ) { g = State(); }
  void finalize() { g = State(); }
  void open( const std::string & p ) {
    g.clear();
    std::ifstream in( p ); if( !in ) throw std::runtime_error( "mini_gmsh: cannot open " + p );
    std::string l;
    while( std::getline( in, l ) ) {
      if( l.compare( 0, 6, "$Nodes" ) == 0 ) { std::size_t n; in >> n; g.nTags.resize(n); g.nCrds.resize(3*n); for( std::size_t i = 0; i < n; i++ ) in >> g.nTags[i] >> g.nCrds[3*i] >> g.nCrds[3*i+1] >> g.nCrds[3*i+2]; }
      if( l.compare( 0, 9, "$Elements" ) == 0 ) {
        std::size_t n; in >> n; int maxD = 0; struct R { std::size_t t; int ty, ph, en; std::vector<std::size_t> ns; }; std::vector<R> rs(n);
        for( auto & r : rs ) { int nt; in >> r.t >> r.ty >> nt; std::vector<int> tg(nt); for( int & x : tg ) in >> x; r.ph = nt > 0 ? tg[0] : 0; r.en = nt > 1 ? tg[1] : 0; r.ns.resize( nnOf(r.ty) ); for( auto & x : r.ns ) in >> x; maxD = std::max( maxD, dimOf(r.ty) ); }
        for( auto & r : rs ) { if( dimOf(r.ty) == maxD ) { g.elTy = r.ty; g.elPhys = r.ph; El e; e.tag = r.t; e.ns = r.ns; g.els.push_back(e); } else if( dimOf(r.ty) == maxD-1 ) { Face f; f.tag = r.t; f.ty = r.ty; f.phys = r.ph; f.ent = r.en; f.ns = r.ns; g.fas.push_back(f); } }
      }
    }
  }
  void write( const std::string & p ) {
    if( g.paEls.size() > 1 && g.opts["Mesh.PartitionSplitMeshFiles"] == 1 ) {
      std::size_t dot = p.rfind( '.' ); std::string b = p.substr( 0, dot ), e = dot == std::string::npos ? "" : p.substr( dot );
      std::size_t first = 0;
      for( std::size_t pa = 0; pa < g.paEls.size(); pa++ ) { writeMsh( b + "_" + std::to_string(pa+1) + e, first, g.paEls[pa], false ); first += g.paEls[pa]; }
    }
    else writeMsh( p, 0, g.els.size(), true );
  }
  namespace option { void setNumber( const std::string & n, const double v ) { g.opts[n] = v; } }
  namespace model {
    int getDimension() { return dimOf( g.elTy ); }
    void getEntities( gmsh::vectorpair & o, const int dim ) {
      o.clear(); std::set< std::pair<int,int> > s; int d = getDimension();
      for( auto & f : g.fas ) s.insert( std::make_pair( d-1, f.ent ) );
      s.insert( std::make_pair( d, 1 ) );
      for( auto & x : s ) if( dim == -1 || dim == x.first ) o.push_back( x );
    }
    void getCurrent( std::string & n ) { n = "mini"; }
    void getPhysicalGroups( gmsh::vectorpair & o, const int dim ) {
      o.clear(); std::set< std::pair<int,int> > s; int d = getDimension();
      for( auto & f : g.fas ) if( f.phys > 0 ) s.insert( std::make_pair( d-1, f.phys ) );
      if( g.elPhys > 0 ) s.insert( std::make_pair( d, g.elPhys ) );
      for( auto & x : s ) if( dim == -1 || dim == x.first ) o.push_back( x );
    }
    void getEntitiesForPhysicalGroup( const int dim, const int tag, std::vector<int> & o ) {
      std::set<int> s; int d = getDimension(); o.clear();
      if( dim == d-1 ) for( auto & f : g.fas ) if( f.phys == tag ) s.insert( f.ent );
      if( dim == d && tag == g.elPhys ) s.insert( 1 );
      o.assign( s.begin(), s.end() );
    }
    namespace mesh {
      int getElementType( const std::string & n, const int order, const bool ) {
        if( order != 1 && n != "point" ) throw std::runtime_error( "order" );
        return n == "point" ? 15 : n == "line" ? 1 : n == "triangle" ? 2 : n == "quadrangle" ? 3 : n == "tetrahedron" ? 4 : n == "hexahedron" ? 5 : -1;
      }
      void getElementTypes( std::vector<int> & o, const int dim, const int ) { o.clear(); if( dim == -1 || dim == getDimension() ) if( g.elTy ) o.push_back( g.elTy ); if( dim == -1 || dim == getDimension()-1 ) { std::set<int> s; for( auto & f : g.fas ) s.insert( f.ty ); o.insert( o.end(), s.begin(), s.end() ); } }
      void renumberElements( const std::vector<std::size_t> &, const std::vector<std::size_t> & ) { std::size_t t = 1; for( auto & f : g.fas ) f.tag = t++; for( auto & e : g.els ) e.tag = t++; }
      void getNodes( std::vector<std::size_t> & t, std::vector<double> & c, std::vector<double> & p, const int, const int, const bool, const bool ) { t = g.nTags; c = g.nCrds; p.clear(); }
      void getElements( std::vector<int> & ty, std::vector< std::vector<std::size_t> > & tg, std::vector< std::vector<std::size_t> > & ns, const int dim, const int tag ) {
        ty.clear(); tg.clear(); ns.clear(); int d = getDimension();
        if( dim == d ) { ty.push_back( g.elTy ); tg.resize(1); ns.resize(1); for( auto & e : g.els ) { tg[0].push_back( e.tag ); ns[0].insert( ns[0].end(), e.ns.begin(), e.ns.end() ); } }
        else if( dim == d-1 ) { for( auto & f : g.fas ) if( tag == -1 || f.ent == tag ) { if( ty.empty() ) { ty.push_back( f.ty ); tg.resize(1); ns.resize(1); } tg[0].push_back( f.tag ); ns[0].insert( ns[0].end(), f.ns.begin(), f.ns.end() ); } }
      }
      void getElementEdgeNodes( const int ty, std::vector<std::size_t> & o, const int, const bool, const std::size_t, const std::size_t ) {
        o.clear(); int n = nnOf( ty ); if( ty != g.elTy || dimOf(ty) != 2 ) throw std::runtime_error( "mini_gmsh: edge nodes" );
        for( auto & e : g.els ) for( int i = 0; i < n; i++ ) { o.push_back( e.ns[i] ); o.push_back( e.ns[(i+1)%n] ); }
      }
      void getElementFaceNodes( const int ty, const int faTy, std::vector<std::size_t> & o, const int, const bool, const std::size_t, const std::size_t ) {
        static int const tet[4][3] = { {0,2,1}, {0,1,3}, {0,3,2}, {3,1,2} };
        static int const hex[6][4] = { {0,3,2,1}, {0,1,5,4}, {0,4,7,3}, {1,2,6,5}, {2,3,7,6}, {4,5,6,7} };
        o.clear(); if( ty != g.elTy || dimOf(ty) != 3 ) throw std::runtime_error( "mini_gmsh: face nodes" );
        if( ty == 4 && faTy == 3 ) { for( auto & e : g.els ) for( auto & f : tet ) for( int i : f ) o.push_back( e.ns[i] ); }
        if( ty == 5 && faTy == 4 ) { for( auto & e : g.els ) for( auto & f : hex ) for( int i : f ) o.push_back( e.ns[i] ); }
      }
      void reorderElements( const int ty, const int, const std::vector<std::size_t> & ord ) {
        if( ty != g.elTy || ord.size() != g.els.size() ) throw std::runtime_error( "mini_gmsh: reorder" );
        std::vector< El > n; n.reserve( ord.size() ); std::vector<bool> seen( ord.size(), false );
        for( auto o : ord ) { if( o >= g.els.size() || seen[o] ) throw std::runtime_error( "mini_gmsh: not a permutation" ); seen[o] = true; n.push_back( g.els[o] ); }
        g.els.swap( n );
      }
    }
  }
  namespace view {
    int add( const std::string & n, const int ) { g.views[g.nextView] = n; return g.nextView++; }
    void addListData( const int t, const std::string & ty, const int n, const std::vector<double> & d ) { if( ty != "SP" || std::size_t(n) != d.size() ) throw std::runtime_error( "mini_gmsh: list data" ); g.list[t] = d; }
    void addHomogeneousModelData( const int t, const int, const std::string &, const std::string &, const std::vector<std::size_t> & tg, const std::vector<double> & d, const double, const int, const int ) { g.mdata[t] = std::make_pair( tg, d ); }
    void write( const int t, const std::string & p, const bool ) { FILE * f = std::fopen( p.c_str(), "w" ); if( !f ) throw std::runtime_error( "cannot write " + p ); auto & m = g.mdata[t]; std::fprintf( f, "%s %zu\n", g.views[t].c_str(), m.first.size() ); for( std::size_t i = 0; i < m.first.size(); i++ ) std::fprintf( f, "%zu %.17g\n", m.first[i], i < m.second.size() ? m.second[i] : 0.0 ); std::fclose( f ); }
    void remove( const int t ) { g.views.erase( t ); g.list.erase( t ); g.mdata.erase( t ); }
  }
  namespace plugin {
    void setNumber( const std::string & n, const std::string & o, const double v ) { if( n == "EdgePartition" && o == "nPaEls" ) g.plugView = v; else throw std::runtime_error( "mini_gmsh: plugin " + n ); }
    int run( const std::string & n ) {
      if( n != "EdgePartition" ) throw std::runtime_error( "mini_gmsh: plugin " + n );
      g.paEls.clear(); std::size_t s = 0; for( double d : g.list[ int(g.plugView) ] ) { g.paEls.push_back( (std::size_t) d ); s += g.paEls.back(); }
      if( s != g.els.size() ) throw std::runtime_error( "mini_gmsh: partition sizes" );
      return 0;
    }
  }
}
