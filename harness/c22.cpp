// sparse entities, data layouts, dynamic memory and communication structures against brute-force oracles
#include "vh.hpp"
#include "data/SparseEntities.hpp"
#include "data/EntityLayout.h"
#include "data/DataLayout.hpp"
#include "data/Dynamic.h"
#include "parallel/DistributedDummy.hpp"
typedef edge::data::SparseEntities SE;
struct Ch { int_spType spType; };
typedef std::size_t S;
typedef std::vector<S> V;
static const S X = std::numeric_limits<S>::max();
static bool is( Ch const & c, int_spType t ) { return (c.spType & t) == t; }
static std::vector<Ch> chars( vh::Rng & r, S n ) { std::vector<Ch> c(n+1); double d = r.pick(std::vector<double>{0,0.05,0.3,0.7,1}); for( auto & x: c ) { x.spType = 0; for( int b = 0; b < 5; b++ ) if( r.p(d) ) x.spType |= ((int_spType)1)<<(b*(b<4?1:7)); } return c; }
static int_spType ty( vh::Rng & r ) { return r.p(0.1) ? 0 : r.p(0.2) ? (((int_spType)1)<<28)|r.i(0,3) : r.i(1,15); }
static V ids( std::vector<Ch> const & c, S n, int_spType t ) { V v( n, X ); S k = 0; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) v[i] = k++; return v; }
static S cnt( std::vector<Ch> const & c, S a, S b, int_spType t ) { S k = 0; for( S i = a; i < b; i++ ) k += is(c[i],t); return k; }
#define EQ(key,a,b) do { vh::stat("eval_comparisons"); vh::check( (a)==(b), key, "%s is %zu, expected %zu", #a, (S)(a), (S)(b) ); } while(0)
static void eqv( char const * key, V const & a, V const & b ) { vh::stat("eval_comparisons"); if( a == b ) return; for( S i = 0; i < std::max(a.size(),b.size()); i++ ) { S x = i < a.size() ? a[i] : 0, y = i < b.size() ? b[i] : 0; if( i >= a.size() || i >= b.size() || x != y ) { vh::fail( key, vh::fmt("entry %zu is %zu, expected %zu (of %zu)", i, x, y, b.size()) ); return; } } }

static void sparse( vh::Rng & r ) {
  S n = r.i(0,200); auto c = chars( r, n ); int_spType t = ty(r), t2 = ty(r);
  EQ( "nSp", SE::nSp( n, t, c.data() ), cnt( c, 0, n, t ) );
  { int ni = n; EQ( "nSp-int", (S) SE::nSp( ni, t, c.data() ), cnt( c, 0, n, t ) ); }
  // denseToSparse
  { unsigned short g = r.i(1,5); V in(g), se(g), oi(g,7), os(g,7), ei(g), es(g); S left = n; for( auto & x: in ) left -= (x = r.i(0,left)); for( auto & x: se ) left -= (x = r.i(0,left));
    SE::denseToSparse( g, t, c.data(), in.data(), se.data(), oi.data(), os.data() );
    S f = 0; for( int k = 0; k < g; k++ ) { ei[k] = cnt( c, f, f+in[k], t ); f += in[k]; } for( int k = 0; k < g; k++ ) { es[k] = cnt( c, f, f+se[k], t ); f += se[k]; }
    eqv( "denseToSparse-inner", oi, ei ); eqv( "denseToSparse-send", os, es ); }
  // sub-regions
  { S f = r.i(0,n); unsigned k = r.i(0,6); V sz(k), a(k,3), b(k,3), ea(k), eb(k); S left = n-f, p = f; for( unsigned i = 0; i < k; i++ ) { sz[i] = r.i(0,left); left -= sz[i]; ea[i] = cnt( c, 0, p, t ); eb[i] = cnt( c, p, p+sz[i], t ); p += sz[i]; }
    SE::subRgnsSpId( f, k, sz.data(), t, c.data(), a.data(), b.data() ); eqv( "subRgns-first", a, ea ); eqv( "subRgns-size", b, eb ); }
  // inherit
  { auto d = c; SE::inherit( n, t, t2, d.data() ); V a, b; for( S i = 0; i <= n; i++ ) { a.push_back( d[i].spType ); b.push_back( i < n && is(c[i],t) ? (c[i].spType|t2) : c[i].spType ); } eqv( "inherit", a, b ); }
  // links
  { V o( n, 12345 ), e( n, 12345 ); S k = 0; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) e[k++] = i; SE::linkSpDe( n, t, c.data(), o.data() ); eqv( "linkSpDe", o, e ); }
  { V o( n, 12345 ), e( n, 12345 ); V i1 = ids( c, n, t2 ); S k = 0; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) e[k++] = i1[i]; SE::linkSpSp( n, t, t2, c.data(), o.data() ); eqv( "linkSpSp", o, e ); }
  // flat adjacency
  S m = r.i(1,150); auto c1 = chars( r, m ); unsigned short na = r.i(1,6); V ad( n*na );
  bool miss = r.p(0.5); for( auto & x: ad ) x = miss && r.p(0.15) ? X : r.i(0,m-1);
  V i1 = ids( c1, m, t2 );
  { auto d = c1; SE::propAdj( n, na, ad.data(), t, t2, c.data(), d.data() ); auto e = c1; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) for( int a = 0; a < na; a++ ) if( ad[i*na+a] != X ) e[ad[i*na+a]].spType |= t2; V a, b; for( S i = 0; i <= m; i++ ) { a.push_back(d[i].spType); b.push_back(e[i].spType); } eqv( "propAdj", a, b ); }
  { V o( n*na, X ), e( n*na, X ); S k = 0; for( S i = 0; i < n; i++ ) { bool s = false; for( int a = 0; a < na; a++ ) s |= ad[i*na+a] != X && is( c1[ad[i*na+a]], t2 ); if( !s ) continue; for( int a = 0; a < na; a++ ) e[k*na+a] = ad[i*na+a] == X ? X : i1[ad[i*na+a]]; k++; }
    SE::linkSpAdjSst( n, na, ad.data(), t2, c1.data(), o.data() ); eqv( "linkSpAdjSst", o, e ); }
  { V o( n*na, 12345 ), e( n*na, 12345 ); S k = 0; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) { for( int a = 0; a < na; a++ ) e[k*na+a] = ad[i*na+a] == X ? X : i1[ad[i*na+a]]; k++; }
    SE::linkSpAdjDst( n, na, ad.data(), t, t2, c.data(), c1.data(), o.data() ); eqv( "linkSpAdjDst", o, e ); }
  // dynamic adjacency
  { V raw; std::vector<S> off; for( S i = 0; i < n; i++ ) { off.push_back( raw.size() ); int k = r.i(0,7); for( int j = 0; j < k; j++ ) raw.push_back( r.i(0,m-1) ); } off.push_back( raw.size() ); raw.push_back( 0 );
    std::vector<S const *> p; for( auto o: off ) p.push_back( raw.data()+o );
    std::vector<S *> pm; for( auto o: off ) pm.push_back( raw.data()+o );
    { auto d = c1, e = c1; SE::propAdj( n, p.data(), t, t2, c.data(), d.data() ); for( S i = 0; i < n; i++ ) if( is(c[i],t) ) for( S j = off[i]; j < off[i+1]; j++ ) e[raw[j]].spType |= t2; V a, b; for( S i = 0; i <= m; i++ ) { a.push_back(d[i].spType); b.push_back(e[i].spType); } eqv( "propAdj-dyn", a, b ); }
    V er, ep; for( S i = 0; i < n; i++ ) if( is(c[i],t) ) { ep.push_back( er.size() ); for( S j = off[i]; j < off[i+1]; j++ ) if( is( c1[raw[j]], t2 ) ) er.push_back( i1[raw[j]] ); } S np = ep.size(); ep.push_back( er.size() );
    S nr = 99, npt = 99; SE::nLinkSpAdjDst( n, p.data(), t, t2, c.data(), c1.data(), nr, npt ); EQ( "nLinkSpAdjDst-raw", nr, er.size() ); EQ( "nLinkSpAdjDst-ptr", npt, np );
    if( nr == er.size() && npt == np ) { V o( nr ); std::vector<S*> op( np+1, nullptr ); SE::linkSpAdjDst( n, p.data(), t, t2, c.data(), c1.data(), o.data(), op.data() ); eqv( "linkSpAdjDst-dyn", o, er ); V oo; for( auto x: op ) oo.push_back( x - o.data() ); eqv( "linkSpAdjDst-dyn-ptr", oo, ep ); } }
  vh::sig( vh::fmt("sp n%zu m%zu a%d t%ld t%ld x%d", n, m, na, (long) t, (long) t2, (int) miss) );
}

static void layout( vh::Rng & r ) {
  // sizes to layout
  t_enLayout l; int g = r.i(1,5); l.timeGroups.resize( g ); l.nEnts = 77;
  for( auto & t: l.timeGroups ) { t.inner.size = r.i(0,30); t.inner.first = 5; int k = r.i(0,4); t.send.resize(k); t.receive.resize(k); for( int j = 0; j < k; j++ ) { t.send[j].size = r.i(0,9); t.receive[j].size = r.i(0,9); t.neRanks.push_back( r.i(0,9) ); t.neTgs.push_back( r.i(0,9) ); } }
  auto q = l; edge::data::EntityLayout::sizesToLayout( l );
  S off = 0; for( int k = 0; k < g; k++ ) { EQ( "layout-inner", l.timeGroups[k].inner.first, off ); EQ( "layout-inner-size", l.timeGroups[k].inner.size, q.timeGroups[k].inner.size ); off += q.timeGroups[k].inner.size; }
  for( int k = 0; k < g; k++ ) { S own = q.timeGroups[k].inner.size; for( S j = 0; j < q.timeGroups[k].send.size(); j++ ) { EQ( "layout-send", l.timeGroups[k].send[j].first, off ); EQ( "layout-send-size", l.timeGroups[k].send[j].size, q.timeGroups[k].send[j].size ); off += q.timeGroups[k].send[j].size; own += q.timeGroups[k].send[j].size; } EQ( "layout-own", l.timeGroups[k].nEntsOwn, own ); vh::check( l.timeGroups[k].neRanks == q.timeGroups[k].neRanks && l.timeGroups[k].neTgs == q.timeGroups[k].neTgs, "layout-neighbors", "neighboring ranks or groups changed" ); }
  EQ( "layout-total", l.nEnts, off );

  // data of adjacent entities: single time group with inner, send and receive entities
  t_enLayout a; a.timeGroups.resize(1); auto & t = a.timeGroups[0]; int nr = r.i(0,4); S o = 0;
  t.inner.first = 0; t.inner.size = r.i(0,20); o = t.inner.size; t.send.resize(nr); t.receive.resize(nr);
  for( auto & s: t.send ) { s.first = o; s.size = r.i(0,6); o += s.size; } t.nEntsOwn = o; S own = o;
  for( auto & s: t.receive ) { s.first = o; s.size = r.i(0,6); o += s.size; } a.nEnts = o; t.nEntsNotOwn = o-own;
  unsigned short na = r.i(1,4); V ad( o*na, X );
  for( S e = 0; e < o; e++ ) for( int k = 0; k < na; k++ ) { if( r.p(0.2) ) continue; if( e < (S) t.inner.size ) { if( own ) ad[e*na+k] = r.i(0,own-1); } else if( e < own ) { if( o ) ad[e*na+k] = r.i(0,o-1); } else { S lo = t.inner.size; if( o > lo ) ad[e*na+k] = r.i(lo,o-1); } }
  bool us = r.p(0.5); V sp( o, X ); for( auto & x: sp ) if( r.p(0.4) ) x = r.i(0,9);
  std::vector<float[3]> dummy; (void) dummy;
  typedef float Raw[3]; std::vector<float> raw( (o*na+1)*3 ); Raw * R = (Raw*) raw.data(); typedef Raw * Ptr4[4];
  std::vector<Raw*> pp( o*4+4, (Raw*) raw.data() ); 
  std::vector<std::vector<unsigned char*>> se, re;
  // pointers are given per entity with na entries: use the matching array type
  #define ADJ(N) { typedef Raw * P[N]; edge::data::DataLayout::adj( na, ad.data(), a, R, (P*) pp.data(), se, re, us ? sp.data() : (S const *) nullptr ); }
  if( na == 1 ) ADJ(1) else if( na == 2 ) ADJ(2) else if( na == 3 ) ADJ(3) else ADJ(4)
  auto act = [&]( S e, int k ) { S x = ad[e*na+k]; if( x == X ) return false; if( us && sp[e] == X && sp[x] == X ) return false; return true; };
  auto inR = [&]( S x, int q ) { return x >= (S) t.receive[q].first && x < (S)(t.receive[q].first+t.receive[q].size); };
  S k = 0; V ex( o*na, X ); V es, er;
  for( S e = 0; e < (S) t.inner.size; e++ ) for( int j = 0; j < na; j++ ) if( act(e,j) ) ex[e*na+j] = k++;
  for( int q = 0; q < nr; q++ ) for( S e = t.send[q].first; e < (S)(t.send[q].first+t.send[q].size); e++ ) for( int j = 0; j < na; j++ ) if( act(e,j) && !inR( ad[e*na+j], q ) ) ex[e*na+j] = k++;
  for( int q = 0; q < nr; q++ ) { es.push_back(k); for( S e = t.send[q].first; e < (S)(t.send[q].first+t.send[q].size); e++ ) for( int j = 0; j < na; j++ ) if( act(e,j) && inR( ad[e*na+j], q ) ) ex[e*na+j] = k++; } es.push_back(k);
  for( int q = 0; q < nr; q++ ) { er.push_back(k); for( S e = t.receive[q].first; e < (S)(t.receive[q].first+t.receive[q].size); e++ ) for( int j = 0; j < na; j++ ) if( act(e,j) && ad[e*na+j] < own ) ex[e*na+j] = k++; } er.push_back(k);
  V gx; for( S i = 0; i < o*na; i++ ) gx.push_back( pp[i] == nullptr ? X : (S)(pp[i]-R) );
  // uniqueness and completeness, independent of the order of the inner data
  std::set<S> u; for( S i = 0; i < o*na; i++ ) { vh::check( (gx[i] == X) == (ex[i] == X), "adj-exists", "pointer %zu is %s", i, gx[i] == X ? "missing" : "set" ); if( gx[i] != X ) { vh::check( gx[i] < k, "adj-range", "pointer %zu outside of the data", i ); vh::check( u.insert(gx[i]).second, "adj-unique", "two adjacencies share the data item %zu", gx[i] ); } }
  V gs, gr; if( vh::check( se.size() == 1 && re.size() == 1, "adj-comm-groups", "%zu/%zu groups", se.size(), re.size() ) ) { for( auto x: se[0] ) gs.push_back( (x-(unsigned char*)R)/sizeof(Raw) ); for( auto x: re[0] ) gr.push_back( (x-(unsigned char*)R)/sizeof(Raw) ); eqv( "adj-send", gs, es ); eqv( "adj-recv", gr, er ); }
  for( S e = t.inner.size; e < o; e++ ) for( int j = 0; j < na; j++ ) if( ex[e*na+j] != X && ex[e*na+j] >= es[0] ) EQ( "adj-comm-order", gx[e*na+j], ex[e*na+j] );
  vh::sig( vh::fmt("lay o%zu nr%d na%d us%d", o, nr, na, (int) us) );
}

static void dynamic( vh::Rng & r ) {
  edge::data::Dynamic d; int n = r.i(1,20); std::vector<std::pair<unsigned char*,S>> b;
  for( int k = 0; k < n; k++ ) { S sz = r.i(0,3000), al = ((S)1)<<r.i(3,12); unsigned char * p = (unsigned char*) (r.p(0.2) ? d.allocate( sz ) : d.allocate( sz, al )); if( sz && !vh::check( p != nullptr, "alloc-null", "no memory for %zu bytes", sz ) ) return; vh::check( ((S) p) % (r.p(0) ? 64 : 8) == 0, "alloc-align8", "alignment" ); (void) al; std::memset( p, k, sz ); b.push_back( {p,sz} ); vh::stat("eval_allocations"); }
  for( int k = 0; k < n; k++ ) for( S i = 0; i < b[k].second; i++ ) if( !vh::check( b[k].first[i] == (unsigned char) k, "alloc-overlap", "allocations overlap" ) ) break;
  for( int k = 0; k < 8; k++ ) { S al = ((S)1)<<r.i(3,14); void * p = d.allocate( r.i(1,1000), al ); vh::check( ((S) p) % al == 0, "alloc-align", "pointer %p isn't aligned to %zu", p, al ); }
  vh::check( ((S) d.allocate( 100 )) % 64 == 0, "alloc-align-default", "default alignment is not 64" );
  // flex
  S m = r.i(0,60); unsigned short ns = r.i(0,4); auto c = chars( r, m ); std::vector<int_spType> t(ns); for( auto & x: t ) x = ty(r); V sz(ns); for( auto & x: sz ) x = r.i(0,9); S bs = r.i(0,5);
  S al = ((S)1)<<r.i(3,9);
  double ** p = d.flex<double>( m, ns, bs, t.data(), sz.data(), c.data(), al );
  S off = 0; double * base = nullptr; if( m > 0 ) base = p[0]; else base = p[0];
  vh::check( ((S) base) % al == 0, "flex-align", "base pointer isn't aligned" );
  bool ok = true;
  for( S e = 0; e < m; e++ ) { ok &= p[e] == base+off; off += bs; }
  vh::check( ok, "flex-base", "base pointers" );
  for( int s = 0; s < ns; s++ ) for( S e = 0; e < m; e++ ) { double * x = nullptr; if( is(c[e],t[s]) ) { x = base+off; off += sz[s]; } if( !vh::check( p[m*(s+1)+e] == x, "flex-sparse", "type %d entity %zu: pointer is %s", s, e, p[m*(s+1)+e] ? "different" : "null" ) ) return; vh::stat("eval_flex pointers"); }
  vh::check( p[(ns+1)*m] == base+off, "flex-ghost", "ghost pointer" );
  for( S i = 0; i < off; i++ ) base[i] = 1; // ASan: memory is sufficient
}

struct D: public edge::parallel::DistributedDummy {
  D(): DistributedDummy( 0, nullptr ) {}
  void go( unsigned short nTgs, unsigned short nF, S nEl, S nBy, S const * cs, unsigned short const * sf, S const * s, unsigned short const * rf, S const * re, unsigned short nb, edge::data::Dynamic & d ) { Distributed::init( nTgs, nF, nEl, nBy, cs, sf, s, rf, re, nb, d ); }
  using Distributed::m_nChs; using Distributed::m_sendMsgs; using Distributed::m_recvMsgs; using Distributed::m_sendBuffers; using Distributed::m_recvBuffers; using Distributed::m_sendBufferSize; using Distributed::m_recvBufferSize; using Distributed::m_nSendsSync; using Distributed::m_nRecvsSync;
  using Distributed::checkSendTgLt; using Distributed::checkRecvTgLt; using Distributed::sendCommBuffers2; using Distributed::recvCommBuffers2;
};
struct Side { V cs, se, re; std::vector<unsigned short> sf, rf; };
static void distributed( vh::Rng & r ) {
  // two ranks with mirrored channels
  unsigned short nT = r.i(1,6), nF = r.i(2,6), nb = r.i(1,2); S nEl = r.i(10,80), nBy = r.i(1,40);
  std::set<std::pair<int,int>> prs; int nc = r.i(0,5); for( int k = 0; k < nc; k++ ) prs.insert( { r.i(0,nT-1), r.i(0,nT-1) } );
  Side s[2]; std::vector<std::pair<int,int>> pa[2]; for( auto & p: prs ) { pa[0].push_back( p ); pa[1].push_back( {p.second,p.first} ); } std::sort( pa[1].begin(), pa[1].end() );
  std::map<std::pair<int,int>,S> nn; S tot = 0; for( auto & p: prs ) { S q = r.i(1,6); if( tot+q > nEl ) q = 1; nn[p] = q; tot += q; }
  for( int x = 0; x < 2; x++ ) {
    std::vector<S> slots( nEl*nF ), slots2; for( S i = 0; i < slots.size(); i++ ) slots[i] = i; slots2 = slots; r.shuffle( slots ); r.shuffle( slots2 );
    s[x].cs.push_back( pa[x].size() ); S u = 0;
    for( auto & p: pa[x] ) { S q = nn[ x == 0 ? p : std::make_pair(p.second,p.first) ]; s[x].cs.insert( s[x].cs.end(), { (S) p.first, (S) 1-x, (S) p.second, q } ); for( S k = 0; k < q; k++, u++ ) { s[x].se.push_back( slots[u]/nF ); s[x].sf.push_back( slots[u]%nF ); s[x].re.push_back( slots2[u]/nF ); s[x].rf.push_back( slots2[u]%nF ); } }
  }
  edge::data::Dynamic dm; D d[2];
  for( int x = 0; x < 2; x++ ) {
    d[x].go( nT, nF, nEl, nBy, s[x].cs.data(), s[x].sf.data(), s[x].se.data(), s[x].rf.data(), s[x].re.data(), nb, dm );
    EQ( "dist-channels", d[x].m_nChs, pa[x].size() ); EQ( "dist-buffers", d[x].nCommBuffers(), nb );
    auto sp = d[x].getSendPtrs(), rp = d[x].getRecvPtrs(); int nrp = nb == 2 ? 4 : 1;
    // expected offsets
    V so( nEl*nF, X ), ro( nEl*nF, X ); S u = 0, os = 0, orr = 0; std::vector<int> rl( nEl*nF, 0 );
    for( S c = 0; c < pa[x].size(); c++ ) {
      int L = pa[x][c].first, R = pa[x][c].second; S q = s[x].cs[1+c*4+3]; S bs = (L > R ? 2 : 1)*nBy, br = (L < R ? 2 : 1)*nBy;
      auto & ms = d[x].m_sendMsgs[c]; auto & mr = d[x].m_recvMsgs[c];
      EQ( "msg-send-size", ms.size, q*bs ); EQ( "msg-recv-size", mr.size, q*br ); EQ( "msg-send-off", ms.offL, os ); EQ( "msg-recv-off", mr.offL, orr );
      vh::check( ms.tgL == L && ms.tgR == R && mr.tgL == L && mr.tgR == R && ms.rank == 1-x && mr.rank == 1-x, "msg-groups", "channel %zu: groups or rank wrong", c );
      for( S k = 0; k < q; k++, u++ ) { so[s[x].se[u]*nF+s[x].sf[u]] = os; ro[s[x].re[u]*nF+s[x].rf[u]] = orr; rl[s[x].re[u]*nF+s[x].rf[u]] = L < R; os += bs; orr += br; }
      for( int lt = 0; lt < 2; lt++ ) for( int t = 0; t < nT; t++ ) { bool e = t == L && (lt || !(L < R)); vh::check( d[x].checkSendTgLt( c, lt, t ) == e, "msg-select-send", "channel %d->%d, group %d, less-than %d", L, R, t, lt ); vh::check( d[x].checkRecvTgLt( c, lt, t ) == e, "msg-select-recv", "channel %d->%d, group %d, less-than %d", L, R, t, lt ); vh::stat("eval_comparisons",2); }
    }
    EQ( "buffer-send-size", d[x].m_sendBufferSize, os ); EQ( "buffer-recv-size", d[x].m_recvBufferSize, orr );
    for( int b = 0; b < nb; b++ ) for( S i = 0; i < nEl*nF; i++ ) vh::check( sp[b][i] == (so[i] == X ? nullptr : d[x].m_sendBuffers + b*os + so[i]), "ptr-send", "buffer %d, slot %zu", b, i );
    for( int b = 0; b < nrp; b++ ) for( S i = 0; i < nEl*nF; i++ ) { S bu = rl[i] ? b/2 : b%2; vh::check( rp[b][i] == (ro[i] == X ? nullptr : d[x].m_recvBuffers + bu*orr + ro[i]), "ptr-recv", "buffer %d, slot %zu, less-than %d", b, i, rl[i] ); }
    vh::stat("eval_comparisons", nEl*nF*(nb+nrp));
    if( os ) { std::memset( d[x].m_sendBuffers, 1, os*nb ); } if( orr ) std::memset( d[x].m_recvBuffers, 1, orr*nb );
  }
  // both sides agree on the messages
  std::set<std::pair<int,int>> tags;
  for( S c = 0; c < pa[0].size(); c++ ) for( S e = 0; e < pa[1].size(); e++ ) if( pa[0][c].first == pa[1][e].second && pa[0][c].second == pa[1][e].first ) {
    vh::check( d[0].m_sendMsgs[c].tag == d[1].m_recvMsgs[e].tag && d[0].m_recvMsgs[c].tag == d[1].m_sendMsgs[e].tag, "msg-tags", "tags of sender and receiver differ: groups %d %d", pa[0][c].first, pa[0][c].second );
    vh::check( d[0].m_sendMsgs[c].size == d[1].m_recvMsgs[e].size && d[0].m_recvMsgs[c].size == d[1].m_sendMsgs[e].size, "msg-sizes", "sizes of sender and receiver differ" );
    vh::check( tags.insert( {0,d[0].m_sendMsgs[c].tag} ).second && tags.insert( {1,d[1].m_sendMsgs[e].tag} ).second, "msg-tag-unique", "two channels share a tag" );
    vh::stat("eval_comparisons",3);
  }
  // buffers of double-buffered schemes over time
  if( nb == 2 ) for( int k = 0; k < 12; k++ ) { int t = r.i(0,nT-1); d[0].m_nSendsSync[t] = k; d[0].m_nRecvsSync[t] = k; unsigned short a, b, c; d[0].sendCommBuffers2( t, a, b, c ); vh::check( a == k%2 && c == k%2 && b == (k%2 ? (k/2)%2 : 65535), "cb-send", "send %d: %d %d %d", k, a, b, c ); d[0].recvCommBuffers2( t, a, b ); vh::check( a == (k/2)%2 && b == k%2, "cb-recv", "recv %d: %d %d", k, a, b ); }
  // single rank: holds all minima
  std::vector<double> v( r.i(1,9) ); for( auto & x: v ) x = r.wild(); std::vector<unsigned short> mn( v.size(), 3 ); auto w = v; edge::parallel::Distributed::min( v.size(), v.data(), mn.data() ); for( S i = 0; i < v.size(); i++ ) vh::check( mn[i] == 1 && v[i] == w[i], "min-single", "value %zu", i );
  vh::sig( vh::fmt("dist t%d f%d b%d c%zu", nT, nF, nb, pa[0].size()) );
}
VH_MAIN { vh::Rng r( seed ); for( long k = 0; k < n; k++ ) { sparse( r ); layout( r ); if( k%3 == 0 ) { dynamic( r ); distributed( r ); } } }
