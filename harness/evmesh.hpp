// Random meshes for the tools (MSH 2.2) and their brute-force topology.
#ifndef EVMESH_HPP
#define EVMESH_HPP
#include "vh.hpp"
#include <array>
#include <fstream>
#include <limits>
#include <unistd.h>
namespace evm {
  typedef std::size_t idx;
  enum El { QUAD=2, TRIA=3, HEX=4, TET=5 };
  inline char const * name( El e ) { return e == QUAD ? "quad4r" : e == TRIA ? "tria3" : e == HEX ? "hex8r" : "tet4"; }
  inline unsigned nDis( El e ) { return e == QUAD || e == TRIA ? 2 : 3; }
  inline unsigned nVe( El e ) { return e == QUAD ? 4 : e == TRIA ? 3 : e == HEX ? 8 : 4; }
  inline unsigned nFa( El e ) { return e == QUAD ? 4 : e == TRIA ? 3 : e == HEX ? 6 : 4; }
  inline unsigned nFaVe( El e ) { return e == QUAD || e == TRIA ? 2 : e == HEX ? 4 : 3; }
  // vertices of the reference element's faces
  inline std::vector<unsigned> refFa( El e, unsigned f ) {
    static std::vector<std::vector<unsigned>> q = {{0,1},{1,2},{2,3},{3,0}}, t = {{0,1},{1,2},{2,0}},
      h = {{0,3,2,1},{0,1,5,4},{1,2,6,5},{3,7,6,2},{0,4,7,3},{4,5,6,7}}, s = {{0,2,1},{0,1,3},{0,3,2},{1,2,3}};
    return e == QUAD ? q[f] : e == TRIA ? t[f] : e == HEX ? h[f] : s[f];
  }
  struct Mesh {
    El el; std::vector<std::array<double,3>> crd; std::vector<idx> tag; // per node; tags ascending with the node's id
    std::vector<std::vector<idx>> els; std::vector<std::pair<int,std::vector<idx>>> fas; bool periodic[3] = {false,false,false};
    double lo[3], hi[3]; unsigned n[3];
  };
  struct Opt { bool perturb, drop, permute, reverse, periodic; unsigned nMax; double grade; int nOpen; Opt(): perturb(true), drop(false), permute(true), reverse(true), periodic(false), nMax(5), grade(3), nOpen(-1) {} };
  // node ids are 0.. in the order of ascending tags
  inline Mesh gen( vh::Rng & r, El el, Opt const & o ) {
    Mesh m; m.el = el; unsigned d = nDis(el); std::vector<double> x[3];
    for( unsigned i = 0; i < 3; i++ ) {
      m.n[i] = i < d ? r.i( o.periodic ? 3 : 1, std::max<int>( o.periodic ? 3 : 1, o.nMax ) ) : 0;
      m.lo[i] = i < d ? r.r(-20,20) : 0; double l = r.r(1,10)*(r.p(0.2)?100:1); std::vector<double> w( m.n[i], 1 ); double s = 0;
      for( auto & v : w ) { v = r.r(1,o.grade); s += v; }
      m.hi[i] = i < d ? m.lo[i]+l : 0; double a = 0; x[i].push_back( m.lo[i] );
      for( unsigned k = 0; k < m.n[i]; k++ ) { a += w[k]; x[i].push_back( k+1 == m.n[i] ? m.hi[i] : m.lo[i] + l*a/s ); }
      if( m.n[i] == 0 && i < d ) x[i].push_back( m.hi[i] );
    }
    auto id = [&]( unsigned a, unsigned b, unsigned c ) { return (idx) a + (m.n[0]+1)*( b + (idx)(m.n[1]+1)*c ); };
    idx nN = (idx)(m.n[0]+1)*(m.n[1]+1)*(m.n[2]+1); std::vector<std::array<double,3>> crd( nN );
    for( unsigned c = 0; c <= m.n[2]; c++ ) for( unsigned b = 0; b <= m.n[1]; b++ ) for( unsigned a = 0; a <= m.n[0]; a++ ) {
      unsigned p[3] = {a,b,c}; std::array<double,3> v = {{0,0,0}}; bool in = true;
      for( unsigned i = 0; i < d; i++ ) { v[i] = x[i][p[i]]; if( p[i] == 0 || p[i] == m.n[i] ) in = false; }
      if( in && o.perturb && (el == TRIA || el == TET) ) for( unsigned i = 0; i < d; i++ ) v[i] += (el==TRIA?0.24:0.12)*r.r(-1,1)*std::min( x[i][p[i]]-x[i][p[i]-1], x[i][p[i]+1]-x[i][p[i]] );
      crd[id(a,b,c)] = v;
    }
    std::vector<std::vector<idx>> els;
    for( unsigned c = 0; c < std::max(1u,m.n[2]); c++ ) for( unsigned b = 0; b < m.n[1]; b++ ) for( unsigned a = 0; a < m.n[0]; a++ ) {
      auto v = [&]( int i, int j, int k ) { return id(a+i,b+j,c+k); };
      if( el == QUAD ) els.push_back( {v(0,0,0),v(1,0,0),v(1,1,0),v(0,1,0)} );
      else if( el == TRIA ) {
        if( o.periodic || r.p(0.5) ) { els.push_back( {v(0,0,0),v(1,0,0),v(1,1,0)} ); els.push_back( {v(0,0,0),v(1,1,0),v(0,1,0)} ); }
        else { els.push_back( {v(0,0,0),v(1,0,0),v(0,1,0)} ); els.push_back( {v(1,0,0),v(1,1,0),v(0,1,0)} ); }
      }
      else if( el == HEX ) els.push_back( {v(0,0,0),v(1,0,0),v(1,1,0),v(0,1,0),v(0,0,1),v(1,0,1),v(1,1,1),v(0,1,1)} );
      else { int pe[3] = {0,1,2}; do { int q[3] = {0,0,0}; std::vector<idx> t = {v(0,0,0)}; for( int k = 0; k < 3; k++ ) { q[pe[k]] = 1; t.push_back( v(q[0],q[1],q[2]) ); } els.push_back(t); } while( std::next_permutation(pe,pe+3) ); }
    }
    if( o.drop && els.size() > 3 ) { std::vector<std::vector<idx>> k; for( auto & e : els ) if( !r.p(0.25) ) k.push_back(e); if( !k.empty() ) els = k; }
    // used nodes, random numbering
    std::vector<idx> used; { std::set<idx> s; for( auto & e : els ) s.insert(e.begin(),e.end()); used.assign(s.begin(),s.end()); }
    if( o.permute ) r.shuffle( used );
    std::map<idx,idx> ren; idx t = r.i(1,50);
    for( idx k = 0; k < used.size(); k++ ) { ren[used[k]] = k; m.crd.push_back( crd[used[k]] ); m.tag.push_back( t ); t += r.p(0.2) ? r.i(1,9) : 1; }
    if( o.permute ) r.shuffle( els );
    for( auto & e : els ) {
      std::vector<idx> v; for( auto k : e ) v.push_back( ren[k] );
      if( o.permute && (el == TRIA || el == TET) && o.reverse ) r.shuffle( v );
      else if( o.permute && el == HEX ) { for( int k = r.i(0,3); k > 0; k-- ) v = {v[3],v[0],v[1],v[2],v[7],v[4],v[5],v[6]}; for( int k = r.i(0,3); k > 0; k-- ) v = {v[3],v[2],v[6],v[7],v[0],v[1],v[5],v[4]}; for( int k = r.i(0,3); k > 0; k-- ) v = {v[3],v[0],v[1],v[2],v[7],v[4],v[5],v[6]}; }
      else if( o.permute && (el == TRIA || el == QUAD) ) { std::rotate( v.begin(), v.begin()+r.i(0,v.size()-1), v.end() ); if( o.reverse && r.p(0.3) ) std::reverse( v.begin(), v.end() ); }
      m.els.push_back( v );
    }
    // boundary faces
    std::map<std::set<idx>,int> cnt; std::map<std::set<idx>,std::vector<idx>> fv;
    for( auto & e : m.els ) for( unsigned f = 0; f < nFa(el); f++ ) { std::vector<idx> q; for( auto k : refFa(el,f) ) q.push_back( e[k] ); std::set<idx> s(q.begin(),q.end()); cnt[s]++; fv[s] = q; }
    int bnd[3][2]; int const opts[] = { 101, 105, 0, 7, 9 };
    for( unsigned i = 0; i < 3; i++ ) { m.periodic[i] = o.periodic && r.p(0.7); for( int s = 0; s < 2; s++ ) bnd[i][s] = m.periodic[i] ? 106 : opts[r.i(0,4)]; }
    for( auto & c : cnt ) if( c.second == 1 ) {
      bool done = false;
      for( unsigned i = 0; i < d && !done; i++ ) for( int s = 0; s < 2 && !done; s++ ) {
        bool on = true; for( auto k : c.first ) if( m.crd[k][i] != (s?m.hi[i]:m.lo[i]) ) on = false;
        if( on ) { done = true; if( bnd[i][s] ) m.fas.push_back( { bnd[i][s], fv[c.first] } ); }
      }
      if( !done && r.p(0.2) ) m.fas.push_back( { 201, fv[c.first] } );
    }
    else if( !o.periodic && r.p(0.03) ) m.fas.push_back( { 201, fv[c.first] } ); // internal boundary
    // a second group on some faces: types are combined
    if( !o.periodic && r.p(0.3) ) { std::size_t n = m.fas.size(); for( std::size_t k = 0; k < n; k++ ) if( m.fas[k].first != 201 && r.p(0.4) ) m.fas.push_back( { 16, m.fas[k].second } ); }
    if( o.permute ) r.shuffle( m.fas );
    return m;
  }
  inline void write( Mesh const & m, std::string const & p, vh::Rng & r, bool shuffleNodes=true ) {
    int ty = m.el == QUAD ? 3 : m.el == TRIA ? 2 : m.el == HEX ? 5 : 4, fty = m.el == HEX ? 3 : m.el == TET ? 2 : 1;
    FILE * f = fopen( p.c_str(), "w" ); if( !f ) { printf("FAIL\tharness\tcannot write %s\n", p.c_str()); exit(1); }
    fprintf( f, "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%zu\n", m.crd.size() );
    std::vector<idx> o( m.crd.size() ); for( idx k = 0; k < o.size(); k++ ) o[k] = k; if( shuffleNodes ) r.shuffle( o );
    for( auto k : o ) fprintf( f, "%zu %.17g %.17g %.17g\n", m.tag[k], m.crd[k][0], m.crd[k][1], m.crd[k][2] );
    fprintf( f, "$EndNodes\n$Elements\n%zu\n", m.fas.size()+m.els.size() ); idx t = 1;
    for( auto & b : m.fas ) { fprintf( f, "%zu %d 2 %d %d", t++, fty, b.first, b.first ); for( auto k : b.second ) fprintf( f, " %zu", m.tag[k] ); fprintf( f, "\n" ); }
    for( auto & e : m.els ) { fprintf( f, "%zu %d 2 1 1", t++, ty ); for( auto k : e ) fprintf( f, " %zu", m.tag[k] ); fprintf( f, "\n" ); }
    fprintf( f, "$EndElements\n" ); fclose( f );
  }
  // face-adjacent elements by vertex sets: (element, face vertices) -> neighbor or -1
  struct Topo { std::map<std::set<idx>,std::vector<idx>> fa; };
  inline Topo topo( Mesh const & m ) {
    Topo t; for( idx e = 0; e < m.els.size(); e++ ) for( unsigned f = 0; f < nFa(m.el); f++ ) { /* vertex sets of the faces in any consistent numbering of the element */
      std::set<idx> s; for( auto k : refFa(m.el,f) ) s.insert( m.els[e][k] ); t.fa[s].push_back(e); }
    return t;
  }
  typedef std::array<double,3> V3;
  inline V3 operator-( V3 const & a, V3 const & b ) { return V3{{a[0]-b[0],a[1]-b[1],a[2]-b[2]}}; }
  inline V3 cross( V3 const & a, V3 const & b ) { return V3{{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}}; }
  inline double dot( V3 const & a, V3 const & b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
  inline double norm( V3 const & a ) { return std::sqrt(dot(a,a)); }
}
#endif
