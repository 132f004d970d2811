// C10: files of internal boundaries: sub-faces of faults and their data (element and order of the configuration)
#include "vh.hpp"
#include <array>
#include <limits>
#include <numeric>
#include <unistd.h>
#include <io/logging.h>
#include "constants.hpp"
#include "parallel/global.h"
#include "data/Dynamic.h"
#include "data/EntityLayout.type"
#include "sc/SubCell.type"
#include "sc/Init.hpp"
#include "io/FileSystem.hpp"
#include "io/InternalBoundary.hpp"
using namespace vh;
static t_entityType const T = T_SDISC.ELEMENT;
enum { ND = C_ENT[T].N_DIM, NF = C_ENT[T].N_FACES, NV = C_ENT[T].N_VERTICES, NFV = C_ENT[T].N_FACE_VERTICES, NSC = CE_N_SUB_CELLS(T,ORDER), NSF = CE_N_SUB_FACES(T,ORDER), NSV = CE_N_SUB_VERTICES(T,ORDER), NFSV = CE_N_SUB_VERTICES(C_ENT[T].TYPE_FACES,ORDER) };
typedef unsigned short us;
static edge::sc::t_connect<int,T,ORDER> co; static edge::sc::t_svChars<double,T> sv[NSV];
struct Vtk { bool ok, bin; std::string err; std::vector<float> pts; std::vector<std::vector<int>> cells; std::vector<int> ty; std::vector<std::pair<std::string,std::vector<float>>> va; };
struct Rd { std::string s; std::size_t p; bool bin;
  std::string line() { std::size_t e = s.find('\n', p); if( e == std::string::npos ) e = s.size(); std::string o = s.substr( p, e-p ); p = std::min( e+1, s.size() ); return o; }
  std::string word() { while( p < s.size() && isspace((unsigned char) s[p]) ) p++; std::size_t b = p; while( p < s.size() && !isspace((unsigned char) s[p]) ) p++; return s.substr( b, p-b ); }
  void header() { if( !bin ) while( p < s.size() && isspace((unsigned char) s[p]) ) p++; }
  unsigned raw() { unsigned v = 0; for( int i = 0; i < 4; i++ ) v = v << 8 | (p+i < s.size() ? (unsigned char) s[p+i] : 0); p += 4; return v; }
  int num() { if( bin ) return (int) raw(); return atoi( word().c_str() ); }
  float flt() { if( bin ) { unsigned u = raw(); float f; memcpy( &f, &u, 4 ); return f; } return strtof( word().c_str(), nullptr ); } };
static Vtk readVtk( std::string const & f ) { Vtk v; v.ok = false; v.bin = false; FILE * h = fopen( f.c_str(), "rb" ); if( !h ) { v.err = "does not exist"; return v; } Rd r; r.p = 0; char b[4096]; std::size_t n; while( (n = fread( b, 1, sizeof b, h )) > 0 ) r.s.append( b, n ); fclose( h );
  if( r.line().substr(0,22) != "# vtk DataFile Version" ) { v.err = "first line"; return v; } r.line(); std::string t = r.line(); r.bin = v.bin = t == "BINARY"; if( t != "BINARY" && t != "ASCII" ) { v.err = "format " + t; return v; }
  if( r.line() != "DATASET UNSTRUCTURED_GRID" ) { v.err = "data set"; return v; } int np, nc, sz;
  r.header(); if( sscanf( r.line().c_str(), "POINTS %d float", &np ) != 1 || np < 0 ) { v.err = "points"; return v; } for( int i = 0; i < 3*np; i++ ) v.pts.push_back( r.flt() );
  r.header(); if( sscanf( r.line().c_str(), "CELLS %d %d", &nc, &sz ) != 2 || nc < 0 ) { v.err = "cells"; return v; } int tot = 0; for( int c = 0; c < nc; c++ ) { int k = r.num(); if( k < 1 || k > 8 ) { v.err = "size of a cell"; return v; } std::vector<int> x; for( int i = 0; i < k; i++ ) x.push_back( r.num() ); tot += k+1; v.cells.push_back( x ); } if( tot != sz ) { v.err = "size of the cells"; return v; }
  r.header(); int n2; if( sscanf( r.line().c_str(), "CELL_TYPES %d", &n2 ) != 1 || n2 != nc ) { v.err = "cell types"; return v; } for( int c = 0; c < nc; c++ ) v.ty.push_back( r.num() );
  r.header(); if( sscanf( r.line().c_str(), "CELL_DATA %d", &n2 ) != 1 || n2 != nc ) { v.err = "cell data"; return v; }
  auto rows = [&]( std::string const & name ) { std::vector<float> x; for( int c = 0; c < nc; c++ ) x.push_back( r.flt() ); v.va.push_back( std::make_pair( name, x ) ); };
  r.header(); char nm[512]; if( sscanf( r.line().c_str(), "SCALARS %511s float", nm ) != 1 ) { v.err = "scalars"; return v; } r.line(); rows( nm );
  r.header(); std::size_t save = r.p; int nf; if( sscanf( r.line().c_str(), "FIELD FieldData %d", &nf ) == 1 ) for( int f = 0; f < nf; f++ ) { r.header(); int k; if( sscanf( r.line().c_str(), "%511s %d %d float", nm, &k, &n2 ) != 3 || k != 1 || n2 != nc ) { v.err = "field"; return v; } rows( nm ); } else r.p = save;
  for( ; r.p < r.s.size(); r.p++ ) if( r.s[r.p] != '\n' && r.s[r.p] != ' ' ) { if( r.s.compare( r.p, 10, "POINT_DATA" ) == 0 ) { r.line(); r.p--; continue; } v.err = fmt( "additional data at byte %zu: %.20s", r.p, r.s.c_str()+r.p ); return v; }
  v.ok = true; return v; }
template<class X> static void files( Rng & r, int it ) {
  struct C3 { double coords[3]; }; struct BF { us fIdBfEl[2]; int other; }; edge::data::Dynamic mem;
  int nEl = r.i(1,12), nVe = 0; std::vector<std::array<int,NV>> elVe( nEl ); std::vector<C3> ve; std::vector<std::array<double,12>> map( nEl ); double S = std::pow( 10., r.r(-2,3) );
  std::vector<int> ids( nEl*NV + 20 ); std::iota( ids.begin(), ids.end(), 0 ); r.shuffle( ids ); ve.resize( ids.size() ); for( auto & x: ve ) for( double & y: x.coords ) y = 1e9;
  for( int e = 0; e < nEl; e++ ) { double o[3], A[3][3] = {}; bool box = T == QUAD4R || T == HEX8R; for( int d = 0; d < 3; d++ ) o[d] = r.r(-S,S); for( int i = 0; i < ND; i++ ) for( int j = 0; j < ND; j++ ) A[i][j] = i==j ? r.r(0.2,1)*S : box ? 0 : r.r(-.3,.3)*S;
    for( int v = 0; v < NV; v++ ) { int id = ids[nVe++]; elVe[e][v] = id; for( int d = 0; d < 3; d++ ) ve[id].coords[d] = d < ND ? o[d] : 0; for( int i = 0; i < ND; i++ ) for( int j = 0; j < ND; j++ ) ve[id].coords[i] += A[i][j]*C_REF_ELEMENT.VE.ENT[T][j*NV+v]; }
    for( int d = 0; d < 3; d++ ) { map[e][d] = d < ND ? o[d] : 0; for( int j = 0; j < 3; j++ ) map[e][3+d*3+j] = A[d][j]; } }
  std::vector<int> beEl; for( int e = 0; e < nEl; e++ ) if( r.p(.6) || (e == nEl-1 && beEl.empty()) ) beEl.push_back( e ); int nBe = beEl.size();
  int nBf = r.i(1,20); std::vector<std::array<int,2>> bfBe( nBf ); std::vector<BF> bf( nBf ); for( int f = 0; f < nBf; f++ ) { bfBe[f][0] = r.i(0,nBe-1); bfBe[f][1] = r.p(.5) ? r.i(0,nBe-1) : std::numeric_limits<int>::max(); bf[f].fIdBfEl[0] = r.i(0,NF-1); bf[f].fIdBfEl[1] = r.p(.5) ? r.i(0,NF-1) : 65535; bf[f].other = -1; }
  bool bin = r.p(.5); int cr = r.p(.2) ? 3 : 1, rk = r.i(0,cr-1); edge::parallel::g_nRanks = cr; edge::parallel::g_rank = cr == 1 ? 0 : r.p(.5) ? 0 : rk; edge::parallel::g_rankStr = std::to_string( edge::parallel::g_rank ); if( edge::parallel::g_rank != 0 ) { edge::io::FileSystem::createDir( fmt("c10io_%d/a/%d", it, edge::parallel::g_rank) ); }
  std::string path = fmt( "c10io_%d/a/%s", it, r.p(.5) ? "fault" : "x_1.y" );
  typedef edge::io::InternalBoundary<int,T,ORDER> W; W w( path, bin ); int nMax = r.i(1,9); w.alloc( nBf, nMax, mem );
  w.init( nBf, co.scSv, (int const (*)[2]) bfBe.data(), beEl.data(), (int const (*)[NV]) elVe.data(), sv, ve.data(), bf.data() );
  int step = 0;
  for( int k = r.i(1,5); k > 0; k-- ) { int first = r.p(.4) ? 0 : r.i(0,nBf), size = first == 0 && r.p(.5) ? nBf : r.i(0,nBf-first), nq = r.i(1,nMax), st = nq + (r.p(.5) ? 0 : r.i(0,4));
    std::vector<X> d( std::size_t(nBf)*NSF*st ); for( auto & x: d ) x = r.p(.1) ? 0 : r.r(-1,1)*std::pow( 10., r.i(-8,8) ); std::vector<X> dc = d; std::vector<std::string> nm; std::vector<char const *> np; for( int q = 0; q < nq; q++ ) nm.push_back( fmt( "q%d_%c", q, 'a'+r.i(0,25) ) ); for( auto & x: nm ) np.push_back( x.c_str() );
    w.write( first, size, nq, st, np.data(), d.data() ); check( d == dc, "fault-file/input", "data changed by the output" ); if( size == 0 ) continue;
    std::string f = fmt( "c10io_%d/a/%d/%s_%d_%d.vtk", it, edge::parallel::g_rank, path.substr( path.rfind('/')+1 ).c_str(), edge::parallel::g_rank, step++ ); Vtk v = readVtk( f ); unlink( f.c_str() );
    std::string id = fmt( "type %d order %d: faces %d to %d of %d, %d quantities, stride %d, file %d", T, ORDER, first, first+size, nBf, nq, st, step-1 );
    if( !check( v.ok, "fault-file/format", "%s (%s): %s", f.c_str(), id.c_str(), v.err.c_str() ) ) continue; check( v.bin == bin, "fault-file/format", "%s: binary %d", id.c_str(), v.bin );
    if( !check( (int) v.cells.size() == size*NSF && (int) v.va.size() == nq, "fault-file/size", "%s: %zu cells, %zu quantities, expected %d sub-faces", id.c_str(), v.cells.size(), v.va.size(), size*NSF ) ) continue;
    for( int q = 0; q < nq; q++ ) { check( v.va[q].first == nm[q], "fault-file/name", "%s: quantity %d is %s", id.c_str(), q, v.va[q].first.c_str() ); for( int c = 0; c < size*NSF; c++ ) check( v.va[q].second[c] == (float) d[ std::size_t(first*NSF+c)*st+q ], "fault-file/value", "%s: quantity %d of sub-face %d of face %d is %g, expected %g", id.c_str(), q, c%NSF, first+c/NSF, v.va[q].second[c], (float) d[std::size_t(first*NSF+c)*st+q] ); }
    int np_ = v.pts.size()/3; for( int c = 0; c < size*NSF; c++ ) { int b = first+c/NSF, s = c%NSF; auto & ce = v.cells[c]; check( v.ty[c] == (NFV==2?3:NFV==3?5:9), "fault-file/type", "%s: cell type %d", id.c_str(), v.ty[c] ); bool in = (int) ce.size() == NFV; for( int x: ce ) in = in && x >= 0 && x < np_;
      if( !check( in, "fault-file/vertices", "%s: sub-face %d of face %d has %zu vertices, the first is %d of %d", id.c_str(), s, b, ce.size(), ce[0], np_ ) ) break;
      auto & m = map[beEl[bfBe[b][0]]]; double ex[4][3]; us rc = NSC+bf[b].fIdBfEl[0]*NSF+s; for( int x = 0; x < NFV; x++ ) for( int dd = 0; dd < 3; dd++ ) { ex[x][dd] = m[dd]; for( int j = 0; j < ND; j++ ) ex[x][dd] += m[3+dd*3+j]*sv[co.scSv[rc][x]].coords[j]; }
      auto at = [&]( int x, int e ) { double g = 0; for( int dd = 0; dd < 3; dd++ ) g = std::max( g, std::abs( v.pts[3*ce[x]+dd]-ex[e][dd] ) ); return g < 2e-5*S; };
      int pm[4] = {-1,-1,-1,-1}; bool us_[4] = {}; bool ok = true; for( int x = 0; x < NFV; x++ ) { for( int e = 0; e < NFV; e++ ) if( !us_[e] && at(x,e) ) { pm[x] = e; us_[e] = true; break; } ok = ok && pm[x] >= 0; }
      check( ok, "fault-file/coordinates", "%s: sub-face %d of face %d (local %d): first vertex at %g %g %g", id.c_str(), s, b, bf[b].fIdBfEl[0], v.pts[3*ce[0]], v.pts[3*ce[0]+1], v.pts[3*ce[0]+2] );
      if( ok && NFV == 4 ) { double g = 0, h = 0; for( int dd = 0; dd < 3; dd++ ) { double p = v.pts[3*ce[0]+dd]+v.pts[3*ce[2]+dd], q = v.pts[3*ce[1]+dd]+v.pts[3*ce[3]+dd]; g = std::max( g, std::abs(p-q) ); h = std::max( h, std::abs(p) ); } check( g < 1e-4*S, "fault-file/cyclic", "%s: sub-face %d of face %d has crossing edges", id.c_str(), s, b ); }
      stat("eval_sub_faces_written"); }
    stat("eval_fault_files"); sig( fmt( "fault %d %d %d first%d all%d stride%d q%d rank%d", T, ORDER, bin, first > 0, size == nBf, st > nq, nq, edge::parallel::g_rank ) ); sample( fmt( "{\"faces\":[%d,%d,%d],\"quantities\":%d,\"stride\":%d,\"binary\":%d}", first, size, nBf, nq, st, bin ) ); }
  for( int i = 0; i < 3; i++ ) rmdir( fmt( "c10io_%d/a/%d", it, i ).c_str() ); rmdir( fmt( "c10io_%d/a", it ).c_str() ); rmdir( fmt( "c10io_%d", it ).c_str() ); }
VH_MAIN { typedef edge::sc::Init<T,ORDER,9,1> In; In::connect( co ); In::svChars( sv ); Rng r( seed ); for( long i = 0; i < n; i++ ) { if( i%2 ) files<float>( r, i ); else files<double>( r, i ); } }
