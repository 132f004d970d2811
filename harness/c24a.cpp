// C24: dense products, transposes, sparse formats
#include "vh.hpp"
#include <io/logging.h>
#include "constants.hpp"
#define private public
#include "linalg/Matrix.h"
#include "data/MmVanilla.hpp"
#undef private
using namespace vh; typedef edge::linalg::Matrix Mx; typedef real_base R;
typedef std::map< std::pair<unsigned,unsigned>, R > Sp;
template<class X> static void products( Rng & r, double eps ) {
  unsigned cr = r.i(1,5), m = r.i(1,9), n = r.i(1,9), k = r.i(1,9), la, lb, lc; bool ac = r.p(0.5); X al = r.p(0.5) ? 1 : r.r(-2,2), be = r.p(0.4) ? 0 : r.p(0.5) ? 1 : r.r(-2,2);
  la = k+r.i(0,2); lb = n+r.i(0,2); lc = n+r.i(0,2);
  std::vector<X> a( m*la*(ac?cr:1) ), b( k*lb*(ac?1:cr) ), c( m*lc*cr ); for( auto & x: a ) x = r.r(-1,1); for( auto & x: b ) x = r.r(-1,1); for( auto & x: c ) x = be == X(0) && r.p(0.3) ? NAN : r.r(-1,1);
  auto c0 = c; auto cv = c;
  if( ac ) Mx::matMulFusedAC<X>( cr,m,n,k,la,lb,lc,al,be,a.data(),b.data(),c.data() ); else Mx::matMulFusedBC<X>( cr,m,n,k,la,lb,lc,al,be,a.data(),b.data(),c.data() );
  edge::data::MmVanilla<X> mm; unsigned g = r.i(0,2); mm.add( g, m,n,k,la,lb,lc,al,be,ac,!ac,cr ); check( mm.m_kernels.size() == g+1 && mm.m_kernels[g].size() == 1, "vanilla-group", "kernel groups" ); mm.m_kernels[g][0]( a.data(), b.data(), cv.data() );
  for( unsigned i = 0; i < m; i++ ) for( unsigned j = 0; j < lc; j++ ) for( unsigned x = 0; x < cr; x++ ) { std::size_t id = (i*lc+j)*cr+x;
    if( j >= n ) { check( memcmp( &c[id], &c0[id], sizeof(X) ) == 0 && memcmp( &cv[id], &c0[id], sizeof(X) ) == 0, "product-padding", "value beyond the matrix changed" ); continue; }
    double e = be == X(0) ? 0 : (double) be*c0[id]; for( unsigned l = 0; l < k; l++ ) e += (double) al*( ac ? a[(i*la+l)*cr+x]*(double) b[l*lb+j] : a[i*la+l]*(double) b[(l*lb+j)*cr+x] );
    check( near( c[id], e, eps, 10 ) && near( cv[id], e, eps, 10 ), ac ? "product-fused-ac" : "product-fused-bc", "m %u n %u k %u ld %u %u %u alpha %g beta %g: entry %u %u run %u/%u is %g (kernel %g), expected %g", m,n,k,la,lb,lc,(double) al,(double) be,i,j,x,cr,(double) c[id],(double) cv[id],e ); }
  std::vector<X> A( m*k ), Bm( k*n ), Cm( m*n, X(7) ); for( auto & x: A ) x = r.r(-1,1); for( auto & x: Bm ) x = r.r(-1,1); Mx::matMulB0( m,n,k,A.data(),Bm.data(),Cm.data() );
  for( unsigned i = 0; i < m; i++ ) for( unsigned j = 0; j < n; j++ ) { double e = 0; for( unsigned l = 0; l < k; l++ ) e += (double) A[i*k+l]*Bm[l*n+j]; check( near( Cm[i*n+j], e, eps, 10 ), "product", "m %u n %u k %u: entry %u %u is %g, expected %g", m,n,k,i,j,(double) Cm[i*n+j],e ); }
  stat("eval_products", 3); sig( fmt("p %d %u %u %u %u %d %d", ac, m, n, k, cr, al == X(1), be == X(0) ? 0 : be == X(1) ? 1 : 2) );
}
static void sparse( Rng & r ) {
  unsigned nr = r.i(1,r.p(0.2)?60:12), nc = r.i(1,r.p(0.3)?60:12); double dens = r.pick( std::vector<double>{0,0.05,0.3,0.7,1} ); R tol = r.p(0.5) ? R(1e-6) : R(1e-3);
  std::vector<R> de( nr*nc ); Sp ref; for( unsigned i = 0; i < nr; i++ ) for( unsigned j = 0; j < nc; j++ ) { R v = 0; if( r.p(dens) ) v = r.wild(-2,2); else if( r.p(0.1) ) v = tol*r.r(-0.9,0.9); de[i*nc+j] = v; if( std::fabs(v) > tol ) ref[{i,j}] = v; }
  std::string in = fmt("%ux%u, %zu non-zeros", nr, nc, ref.size());
  t_matCrd crd; Mx::denseToCrd<R>( nr, nc, de.data(), crd, tol );
  { bool o = crd.nz.size() == ref.size() && crd.ro.size() == ref.size() && crd.co.size() == ref.size(); std::size_t p = 0; if( o ) for( auto & x: ref ) { o &= crd.ro[p] == x.first.first && crd.co[p] == x.first.second && crd.nz[p] == x.second; p++; } check( o, "dense-to-coordinates", "%s: %zu entries", in.c_str(), crd.nz.size() ); }
  auto cr2 = crd; if( r.p(0.3) ) { // other order of the entries
    std::vector<std::size_t> pm; for( std::size_t i = 0; i < crd.nz.size(); i++ ) pm.push_back(i); r.shuffle( pm ); for( std::size_t i = 0; i < pm.size(); i++ ) { cr2.nz[i] = crd.nz[pm[i]]; cr2.ro[i] = crd.ro[pm[i]]; cr2.co[i] = crd.co[pm[i]]; } }
  { t_matCrd t; Mx::transposeCrd( cr2, t ); Sp tr; bool o = t.nz.size() == ref.size(); for( std::size_t i = 0; i < t.nz.size(); i++ ) { if( i && !( std::make_pair(t.ro[i-1],t.co[i-1]) < std::make_pair(t.ro[i],t.co[i]) ) ) o = false; tr[{t.co[i],t.ro[i]}] = t.nz[i]; } check( o && tr == ref, "transpose-coordinates", "%s", in.c_str() ); }
  unsigned sr = r.i(1,nr), sc = r.i(1,nc); Sp sub; for( auto & x: ref ) if( x.first.first < sr && x.first.second < sc ) sub.insert( x );
  check( Mx::getNnzCrd( sr, sc, cr2 ) == sub.size(), "number-of-nonzeros", "%s, sub-matrix %ux%u: %u, expected %zu", in.c_str(), sr, sc, Mx::getNnzCrd( sr, sc, cr2 ), sub.size() );
  auto csr = [&]( t_matCsr const & m, unsigned a, Sp const & e, char const * key ) { bool o = m.rowPtr.size() == a+1 && m.val.size() == e.size() && m.colIdx.size() == e.size() && m.rowPtr[a] == e.size() && m.rowPtr[0] == 0; auto p = e.begin(); if( o ) for( unsigned i = 0; i < a; i++ ) { o &= m.rowPtr[i] <= m.rowPtr[i+1]; if( !o ) break; for( unsigned k = m.rowPtr[i]; k < m.rowPtr[i+1]; k++, ++p ) o &= p->first.first == i && p->first.second == m.colIdx[k] && p->second == m.val[k]; } check( o, key, "%s, sub-matrix %ux%u of %zu non-zeros", in.c_str(), sr, sc, sub.size() ); };
  auto csc = [&]( t_matCsc const & m, unsigned b, Sp const & e0, char const * key, bool fill ) { Sp e; for( auto & x: e0 ) e[{x.first.second,x.first.first}] = x.second;
    if( fill ) { // filled entries are zero, others are kept
      Sp f; bool o = m.colPtr.size() == b+1 && m.colPtr[0] == 0 && m.colPtr[b] == m.val.size() && m.rowIdx.size() == m.val.size(); if( o ) for( unsigned i = 0; i < b; i++ ) { o &= m.colPtr[i] <= m.colPtr[i+1]; for( unsigned k = m.colPtr[i]; o && k < m.colPtr[i+1]; k++ ) { o &= ( k == m.colPtr[i] || m.rowIdx[k-1] < m.rowIdx[k] ) && m.rowIdx[k] < sr; if( m.val[k] != 0 ) f[{i,m.rowIdx[k]}] = m.val[k]; else o &= !e.count({i,m.rowIdx[k]}); } }
      check( o && f == e, key, "%s, sub-matrix %ux%u", in.c_str(), sr, sc ); stat("eval_fill"); return; }
    bool o = m.colPtr.size() == b+1 && m.val.size() == e.size() && m.rowIdx.size() == e.size() && m.colPtr[b] == e.size() && m.colPtr[0] == 0; auto p = e.begin(); if( o ) for( unsigned i = 0; i < b; i++ ) { o &= m.colPtr[i] <= m.colPtr[i+1]; if( !o ) break; for( unsigned k = m.colPtr[i]; k < m.colPtr[i+1]; k++, ++p ) o &= p->first.first == i && p->first.second == m.rowIdx[k] && p->second == m.val[k]; } check( o, key, "%s, sub-matrix %ux%u of %zu non-zeros", in.c_str(), sr, sc, sub.size() ); };
  t_matCsr a; Mx::crdToCsr( sr, sc, cr2, a ); csr( a, sr, sub, "coordinates-to-csr" ); t_matCsc b; Mx::crdToCsc( sr, sc, cr2, b ); csc( b, sc, sub, "coordinates-to-csc", false );
  Mx::denseToCsr<R>( nr, nc, de.data(), a, tol ); csr( a, nr, ref, "dense-to-csr" ); Mx::denseToCsr<R>( nr, nc, de.data(), a, tol, sr, sc ); csr( a, sr, sub, "dense-to-csr" );
  Mx::denseToCsc<R>( nr, nc, de.data(), b, tol ); csc( b, nc, ref, "dense-to-csc", false ); Mx::denseToCsc<R>( nr, nc, de.data(), b, tol, sr, sc ); csc( b, sc, sub, "dense-to-csc", false );
  { std::vector<R> f = de; Mx::fillInQfma<R>( nr, nc, de.data(), f.data(), tol ); bool o = true; for( std::size_t i = 0; i < de.size(); i++ ) if( f[i] != de[i] && !( f[i] == std::numeric_limits<R>::max() && std::fabs(de[i]) <= tol ) ) o = false; check( o, "fill-in", "%s: values changed", in.c_str() ); }
  Mx::denseToCsc<R>( nr, nc, de.data(), b, tol, sr, sc, "qfma" ); csc( b, sc, sub, "dense-to-csc-filled", true );
  { // bounding box of the non-zeros within bounds
    unsigned mx = std::numeric_limits<unsigned>::max(), lo[2], hi[2]; bool bd = r.p(0.5); if( bd ) { lo[0] = r.i(0,nr-1); hi[0] = r.i(lo[0],nr-1); lo[1] = r.i(0,nc-1); hi[1] = r.i(lo[1],nc-1); } else lo[0] = lo[1] = hi[0] = hi[1] = mx;
    unsigned bs[2][2] = {}, e[2][2] = {{mx,0},{mx,0}}; bool any = false; for( auto & x: ref ) { unsigned p[2] = {x.first.first,x.first.second}; if( bd && ( p[0] < lo[0] || p[0] > hi[0] || p[1] < lo[1] || p[1] > hi[1] ) ) continue; any = true; for( int d = 0; d < 2; d++ ) { e[d][0] = std::min(e[d][0],p[d]); e[d][1] = std::max(e[d][1],p[d]); } }
    unsigned ib[2][2] = {{lo[0],hi[0]},{lo[1],hi[1]}}; Mx::getBlockNz( cr2, ib, bs ); if( !any ) e[0][1] = e[1][1] = mx;
    check( memcmp( bs, e, sizeof bs ) == 0, "non-zero-block", "%s: rows %u-%u, columns %u-%u, expected %u-%u, %u-%u", in.c_str(), bs[0][0],bs[0][1],bs[1][0],bs[1][1],e[0][0],e[0][1],e[1][0],e[1][1] ); }
  { unsigned k = std::min(nr,nc); std::vector<R> t( k*k ); for( auto & x: t ) x = r.r(-1,1); auto t0 = t; Mx::transposeDense( k, t.data() ); bool o = true; for( unsigned i = 0; i < k; i++ ) for( unsigned j = 0; j < k; j++ ) o &= t[i*k+j] == t0[j*k+i]; check( o, "transpose", "%u modes", k ); }
  stat("eval_sparse", 10); sig( fmt("s %u %u %zu", nr, nc, ref.size()) );
}
VH_MAIN { Rng r( seed ); for( long i = 0; i < n; i++ ) { products<double>( r, 1e-12 ); products<float>( r, 1e-5 ); sparse( r ); } }
