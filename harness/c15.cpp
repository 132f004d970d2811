// C15: partitioning, reordering and communication structure of EDGE-V.
#include "evmesh.hpp"
#include <memory>
#include <sstream>
#define private public
#include "mesh/Partition.h"
#undef private
#include "io/Gmsh.h"
#include "mesh/Mesh.h"
#include "mesh/Communication.h"
using namespace evm;
typedef edge_v::t_idx tI;
static tI const NONE = std::numeric_limits<tI>::max();
static std::string what;
#define CK(c,k,...) vh::check( c, k, "%s: %s", what.c_str(), vh::fmt(__VA_ARGS__).c_str() )
static std::vector<std::vector<tI>> elems( edge_v::mesh::Mesh const & e, unsigned NV ) {
  std::vector<std::vector<tI>> r; for( tI k = 0; k < e.nEls(); k++ ) { std::vector<tI> v( e.getElVe()+k*NV, e.getElVe()+(k+1)*NV ); std::sort( v.begin(), v.end() ); r.push_back( v ); } return r;
}
// brute-force: communicating elements
static bool sends( tI k, unsigned NF, tI const * ee, std::vector<tI> const & pa ) { for( unsigned f = 0; f < NF; f++ ) { tI n = ee[k*NF+f]; if( n != NONE && pa[n] != pa[k] ) return true; } return false; }
static void comm( El el, tI n, tI const * ee, std::vector<tI> const & pa, tI nPas, std::vector<unsigned short> const & tg, unsigned short nTgs ) {
  unsigned NF = nFa(el); std::vector<tI> cnt( nPas, 0 ), first( nPas+1, 0 ); for( auto p : pa ) cnt[p]++; for( tI p = 0; p < nPas; p++ ) first[p+1] = first[p]+cnt[p];
  edge_v::mesh::Communication c( nTgs, (edge_v::t_entityType) el, n, ee, nPas, cnt.data(), tg.data() );
  // element counts
  for( tI p = 0; p < nPas; p++ ) for( unsigned t = 0; t < nTgs; t++ ) {
    tI in = 0, se = 0; for( tI k = first[p]; k < first[p+1]; k++ ) if( tg[k] == t ) { if( sends( k, NF, ee, pa ) ) se++; else in++; }
    CK( c.nGroupElsIn(p)[t] == in, "inner elements", "partition %zu group %u: %zu, expected %zu", p, t, c.nGroupElsIn(p)[t], in );
    CK( c.nGroupElsSe(p)[t] == se, "send elements", "partition %zu group %u: %zu, expected %zu", p, t, c.nGroupElsSe(p)[t], se );
  }
  // channels: (partition, group, partition, group) -> faces (global element, face) in the order of the structure
  typedef std::array<tI,4> Ch; typedef std::pair<tI,unsigned> Fc; std::map<Ch,std::vector<Fc>> send, recv; std::map<Ch,std::set<Fc>> ref;
  for( tI k = 0; k < n; k++ ) for( unsigned f = 0; f < NF; f++ ) { tI a = ee[k*NF+f]; if( a != NONE && pa[a] != pa[k] ) ref[Ch{{pa[k],tg[k],pa[a],tg[a]}}].insert( Fc(k,f) ); }
  tI nRef = 0; for( auto & r : ref ) nRef += r.second.size();
  tI nChs = 0, nF = 0;
  for( tI p = 0; p < nPas; p++ ) {
    tI const * s = c.getStruct(p); tI m = s[0], o = 0; std::array<tI,3> prev = {{0,0,0}};
    for( tI h = 0; h < m; h++ ) {
      Ch key = {{ p, s[1+h*4], s[2+h*4], s[3+h*4] }}; tI q = s[4+h*4]; nChs++;
      CK( !send.count(key), "channels unique", "partition %zu group %zu -> %zu/%zu", key[0], key[1], key[2], key[3] );
      std::array<tI,3> cur = {{key[1],key[2],key[3]}}; CK( h == 0 || prev < cur, "channels ordered", "partition %zu channel %zu", p, h ); prev = cur;
      if( !CK( ref.count(key) && ref[key].size() == q, "number of faces of a channel", "%zu/%zu -> %zu/%zu: %zu, expected %zu", key[0], key[1], key[2], key[3], q, ref.count(key)?ref[key].size():0 ) ) return;
      if( !CK( o+q <= c.nSeRe(p), "faces of a partition", "partition %zu", p ) ) return;
      for( tI i = 0; i < q; i++ ) { send[key].push_back( Fc( c.getSendEl(p)[o+i]+first[p], c.getSendFa(p)[o+i] ) ); recv[key].push_back( Fc( c.getRecvEl(p)[o+i]+first[p], c.getRecvFa(p)[o+i] ) ); }
      o += q;
    }
    CK( o == c.nSeRe(p), "faces of a partition", "partition %zu: channels have %zu, total %zu", p, o, c.nSeRe(p) ); nF += o;
  }
  CK( nChs == ref.size(), "number of channels", "%zu, expected %zu", nChs, ref.size() ); CK( nF == nRef, "number of communicating faces", "%zu, expected %zu", nF, nRef );
  for( auto & r : ref ) {
    auto & s = send[r.first]; auto & v = recv[r.first];
    CK( std::set<Fc>( s.begin(), s.end() ) == r.second, "send faces of a channel", "%zu/%zu -> %zu/%zu", r.first[0], r.first[1], r.first[2], r.first[3] );
    CK( std::set<Fc>( v.begin(), v.end() ) == r.second, "receive faces of a channel", "%zu/%zu <- %zu/%zu", r.first[0], r.first[1], r.first[2], r.first[3] );
    // the i-th message sent by the other side belongs to the i-th receiving face
    auto & o = send[Ch{{r.first[2],r.first[3],r.first[0],r.first[1]}}];
    if( !CK( o.size() == v.size(), "both sides agree on the size", "%zu/%zu <- %zu/%zu: %zu and %zu", r.first[0], r.first[1], r.first[2], r.first[3], v.size(), o.size() ) ) continue;
    for( std::size_t i = 0; i < o.size(); i++ )
      CK( v[i].first < n && v[i].second < NF && o[i].first < n && ee[v[i].first*NF+v[i].second] == o[i].first && ee[o[i].first*NF+o[i].second] == v[i].first, "sent and received data belong to the same face", "%zu/%zu <- %zu/%zu item %zu: element %zu face %u, sent by element %zu face %u", r.first[0], r.first[1], r.first[2], r.first[3], i, v[i].first, v[i].second, o[i].first, o[i].second );
    vh::stat("channels"); vh::stat("faces", r.second.size());
  }
  vh::sig( vh::fmt("%s pas %zu chs %zu tgs %u", name(el), nPas, nChs, nTgs) );
}
static void one( vh::Rng & r, std::string const & dir ) {
  El el = (El) r.i(2,5); Opt o; o.periodic = r.p(0.3); o.nMax = el == TET ? r.i(2,3) : el == HEX ? r.i(2,4) : r.i(3,8); Mesh m = gen( r, el, o );
  if( m.els.size() < 6 ) return; unsigned NV = nVe(el), NF = nFa(el); std::string p = dir + "/m.msh"; write( m, p, r );
  what = std::string(name(el)) + (o.periodic?" periodic":"") + vh::fmt(" %zu elements", m.els.size());
  edge_v::io::Gmsh g; g.open( p ); g.readMesh(); int pe = o.periodic ? 106 : std::numeric_limits<int>::max(); edge_v::mesh::Mesh e( g, pe ); tI n = e.nEls(); tI const * ee = e.getElFaEl();
  unsigned short nTgs = r.i(1,4); std::vector<unsigned short> tg( n ); for( auto & t : tg ) t = r.i(0,nTgs-1); if( r.p(0.5) ) for( tI k = 0; k < n; k++ ) tg[k] = std::min<double>( nTgs-1, std::max( 0., nTgs*(e.getCentroidsEl()[k][0]-m.lo[0])/(m.hi[0]-m.lo[0]) ) ); unsigned short tMax = *std::max_element( tg.begin(), tg.end() );
  edge_v::mesh::Partition part( e, tg.data() );
  CK( part.nPas() == 1 && part.nPaEls()[0] == n, "single partition", "%zu partitions", part.nPas() );
  for( tI k = 0; k < n; k++ ) { CK( part.getElPa()[k] == 0, "single partition", "element %zu", k ); CK( (part.getElPr()[k] < part.getElPr()[(k+1)%n]) == (tg[k] < tg[(k+1)%n]), "order of a single partition", "element %zu", k ); }
  std::vector<tI> pa( n ), pr( n ); tI nPas = r.i(2,std::min<tI>(6,n/3)); bool metis = r.p(0.5);
  if( metis ) {
    part.kWay( nPas, r.i(1,5) ); CK( part.nPas() == nPas, "number of partitions", "%zu, expected %zu", part.nPas(), nPas );
    std::vector<tI> c( nPas, 0 ); bool ok = true; for( tI k = 0; k < n; k++ ) { pa[k] = part.getElPa()[k]; pr[k] = part.getElPr()[k]; if( pa[k] < nPas ) c[pa[k]]++; else ok = false; }
    if( !CK( ok, "partitions of the elements", "out of range" ) ) return; for( tI q = 0; q < nPas; q++ ) CK( part.nPaEls()[q] == c[q], "elements per partition", "partition %zu: %zu, expected %zu", q, part.nPaEls()[q], c[q] );
    // balance with respect to the work: 2^(max-tg) updates per element
    double w = 0; std::vector<double> pw( nPas, 0 ); for( tI k = 0; k < n; k++ ) { double x = std::pow(2.,tMax-tg[k]); w += x; pw[pa[k]] += x; }
    if( n > nPas*40 ) for( tI q = 0; q < nPas; q++ ) CK( pw[q] < 1.6*w/nPas + std::pow(2.,tMax), "work per partition", "partition %zu has %.0f of %.0f updates (%zu partitions)", q, pw[q], w, nPas );
    for( tI q = 0; q < nPas; q++ ) if( c[q] == 0 ) return; // allowed by Metis, but not communicated
    vh::stat("metis");
  } else {
    for( int t = 0; t < 20; t++ ) { bool geo = r.p(0.5); int d = r.i(0,nDis(el)-1); for( tI k = 0; k < n; k++ ) { pa[k] = geo ? std::min<double>( nPas-1, nPas*(e.getCentroidsEl()[k][d]-m.lo[d])/(m.hi[d]-m.lo[d]) ) : r.i(0,nPas-1); }
      if( std::set<tI>( pa.begin(), pa.end() ).size() == nPas ) break; }
    if( std::set<tI>( pa.begin(), pa.end() ).size() != nPas ) return;
    bool nt = r.p(0.2); edge_v::mesh::Partition::getElPr( e.getTypeEl(), n, ee, pa.data(), nt ? nullptr : tg.data(), pr.data() ); if( nt ) { std::fill( tg.begin(), tg.end(), 0 ); nTgs = 1; }
    std::vector<tI> c( nPas+1, 77 ), cr( nPas, 0 ); for( auto q : pa ) cr[q]++; edge_v::mesh::Partition::nPaEls( n, pa.data(), c.data() ); for( tI q = 0; q < nPas; q++ ) CK( c[q] == cr[q], "elements per partition", "partition %zu: %zu expected %zu", q, c[q], cr[q] ); CK( c[nPas] == 77, "beyond the end", "nPaEls" );
    vh::stat("random_partitions");
  }
  // priorities order elements by partition, inner before send, time group
  auto key = [&]( tI k ) { return std::array<tI,3>{{ pa[k], (tI) sends( k, NF, ee, pa ), tg[k] }}; };
  for( int t = 0; t < 400; t++ ) { tI a = r.i(0,n-1), b = r.i(0,n-1); auto ka = key(a), kb = key(b); CK( (pr[a] < pr[b]) == (ka < kb) && (pr[a] == pr[b]) == (ka == kb), "priorities", "elements %zu (%zu %zu %zu: %zu), %zu (%zu %zu %zu: %zu)", a, ka[0], ka[1], ka[2], pr[a], b, kb[0], kb[1], kb[2], pr[b] ); }
  // dual graph and weights
  { std::vector<long> x( n+1, -1 ), ad( n*NF, -1 ), vw( n, -1 ), ew; edge_v::mesh::Partition::getDualGraph( e.getTypeEl(), n, ee, x.data(), ad.data() ); CK( x[0] == 0, "dual graph", "offset" ); ew.assign( x[n] > 0 ? x[n] : 1, -1 );
    edge_v::mesh::Partition::getWeights( e.getTypeEl(), n, x[n], ee, tg.data(), vw.data(), ew.data() ); unsigned short tm = *std::max_element( tg.begin(), tg.end() );
    for( tI k = 0; k < n; k++ ) { std::multiset<long> a, b, we, wr; for( unsigned f = 0; f < NF; f++ ) { tI q = ee[k*NF+f]; if( q != NONE ) { a.insert( q ); wr.insert( 1l << (tm-std::min(tg[k],tg[q])) ); } } if( !CK( x[k+1] >= x[k] && x[k+1] <= (long)(n*NF), "dual graph", "offset of element %zu", k ) ) break; for( long i = x[k]; i < x[k+1]; i++ ) { b.insert( ad[i] ); we.insert( ew[i] ); }
      CK( a == b, "dual graph", "element %zu", k ); CK( vw[k] == 1l << (tm-tg[k]), "work of an element", "element %zu: %ld", k, vw[k] ); CK( we == wr, "weights of the faces", "element %zu", k ); } }
  // reorder and read again
  auto before = elems( e, NV ); g.reorder( pr.data() ); g.readMesh(); edge_v::mesh::Mesh e2( g, pe );
  if( !CK( e2.nEls() == n && e2.nVes() == e.nVes() && e2.nFas() == e.nFas(), "sizes after the reordering", "%zu elements", e2.nEls() ) ) return;
  auto after = elems( e2, NV ); std::map<std::vector<tI>,tI> old; for( tI k = 0; k < n; k++ ) old[before[k]] = k;
  std::vector<tI> pa2( n ); std::vector<unsigned short> tg2( n ); std::set<tI> seen; tI last = 0;
  for( tI k = 0; k < n; k++ ) { auto it = old.find( after[k] ); if( !CK( it != old.end(), "elements kept", "element %zu", k ) ) return; CK( seen.insert( it->second ).second, "elements kept once", "element %zu", k ); pa2[k] = pa[it->second]; tg2[k] = tg[it->second]; CK( pr[it->second] >= last, "elements sorted by priority", "element %zu", k ); last = pr[it->second]; }
  for( tI v = 0; v < e.nVes(); v++ ) for( int i = 0; i < 3; i++ ) CK( e.getVeCrds()[v][i] == e2.getVeCrds()[v][i], "vertices kept", "vertex %zu", v );
  for( tI f = 0; f < e.nFas(); f++ ) CK( e.getSpTypeFa()[f] == e2.getSpTypeFa()[f], "types of faces kept", "face %zu", f );
  comm( el, n, e2.getElFaEl(), pa2, nPas, tg2, nTgs );
  vh::stat("eval_meshes");
}
int main( int argc, char ** argv ) {
  if( argc < 4 ) return 2; unsigned long seed = strtoul(argv[1],0,10); long n = atol(argv[2]); vh::Rng r( seed );
  for( long k = 0; k < n; k++ ) one( r, argv[3] );
  return vh::done();
}
