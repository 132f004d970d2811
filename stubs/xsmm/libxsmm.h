/* Stand-in for LIBXSMM: the part of its interface which EDGE uses, as interpreted reference kernels.
 *  - dense kernels are column-major: C(m,n) = A(m,k) B(k,n) + beta C
 *  - packed kernels are row-major with the fused runs (packed width) as fastest dimension; the sparse operand has a leading dimension of zero,
 *    its values are read from the operand at run time, rows (CSR) and columns (CSC) without entries are left as they are
 * XSMM_KNM=1 in the environment reports the architecture with fill-in (qfma). */
#ifndef VERIF_LIBXSMM_H_
#define VERIF_LIBXSMM_H_
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <new>
#define LIBXSMM_GEMM_FLAGS(A,B) 0
#define LIBXSMM_X86_GENERIC 1002
#define LIBXSMM_X86_AVX512_KNM 1012
typedef enum { LIBXSMM_GEMM_PREFETCH_NONE = 0, LIBXSMM_GEMM_PREFETCH_BL2_VIA_C = 8, LIBXSMM_GEMM_PREFETCH_AL2BL2_VIA_C_AHEAD = 10 } libxsmm_gemm_prefetch_type;
typedef enum { LIBXSMM_GEMM_PRECISION_F64 = 0, LIBXSMM_GEMM_PRECISION_F32 = 1 } libxsmm_gemm_precision;
struct libxsmm_gemm_descriptor { int prec; unsigned m, n, k, ldA, ldB, ldC; double alpha, beta; };
struct libxsmm_descriptor_blob { alignas(8) char data[128]; };
typedef void (*libxsmm_smmfunction)( float const * a, float const * b, float * c, ... );
typedef void (*libxsmm_dmmfunction)( double const * a, double const * b, double * c, ... );
union libxsmm_xmmfunction { void const * ptr; libxsmm_smmfunction smm; libxsmm_dmmfunction dmm; };
struct libxsmm_kernel_info { unsigned nflops; };
namespace vxsmm {
  enum Kind { DENSE, CSR, CSC, AC };
  struct Ker { Kind kind; libxsmm_gemm_descriptor d; unsigned w; std::vector<unsigned> ptr, idx; };
  int const N = 2048;
  inline void die( char const * t ) { std::fprintf( stderr, "XSMM-MISUSE %s\n", t ); std::fflush( stderr ); std::_Exit( 98 ); }
  inline Ker ** slots() { static Ker * s[N] = {}; return s; }
  inline int & used() { static int u = 0; return u; }
  template< typename T > void run( Ker const & k, T const * a, T const * b, T * c ) {
    libxsmm_gemm_descriptor const & d = k.d; bool const z = d.beta == 0; unsigned const w = k.w;
    if( k.kind == DENSE ) {
      for( unsigned j = 0; j < d.n; j++ ) for( unsigned i = 0; i < d.m; i++ ) {
        T s = z ? T(0) : c[ (std::size_t) j*d.ldC+i ]; for( unsigned l = 0; l < d.k; l++ ) s += a[ (std::size_t) l*d.ldA+i ] * b[ (std::size_t) j*d.ldB+l ]; c[ (std::size_t) j*d.ldC+i ] = s; } }
    else if( k.kind == AC ) {
      for( unsigned i = 0; i < d.m; i++ ) for( unsigned j = 0; j < d.n; j++ ) for( unsigned r = 0; r < w; r++ ) {
        T & o = c[ ( (std::size_t) i*d.ldC+j )*w+r ]; T s = z ? T(0) : o; for( unsigned l = 0; l < d.k; l++ ) s += a[ ( (std::size_t) i*d.ldA+l )*w+r ] * b[ (std::size_t) l*d.ldB+j ]; o = s; } }
    else if( k.kind == CSR ) { // sparse A
      for( unsigned i = 0; i < d.m; i++ ) { unsigned e0 = k.ptr[i], e1 = k.ptr[i+1]; if( e0 == e1 ) continue;
        for( unsigned j = 0; j < d.n; j++ ) for( unsigned r = 0; r < w; r++ ) {
          T & o = c[ ( (std::size_t) i*d.ldC+j )*w+r ]; T s = z ? T(0) : o; for( unsigned e = e0; e < e1; e++ ) s += a[e] * b[ ( (std::size_t) k.idx[e]*d.ldB+j )*w+r ]; o = s; } } }
    else { // sparse B
      for( unsigned j = 0; j < d.n; j++ ) { unsigned e0 = k.ptr[j], e1 = k.ptr[j+1]; if( e0 == e1 ) continue;
        for( unsigned i = 0; i < d.m; i++ ) for( unsigned r = 0; r < w; r++ ) {
          T & o = c[ ( (std::size_t) i*d.ldC+j )*w+r ]; T s = z ? T(0) : o; for( unsigned e = e0; e < e1; e++ ) s += a[ ( (std::size_t) i*d.ldA+k.idx[e] )*w+r ] * b[e]; o = s; } } }
  }
  template< int I > void fs( float const * a, float const * b, float * c, ... ) { run< float >( *slots()[I], a, b, c ); }
  template< int I > void fd( double const * a, double const * b, double * c, ... ) { run< double >( *slots()[I], a, b, c ); }
  struct Tab { libxsmm_smmfunction s[N]; libxsmm_dmmfunction d[N]; };
  template< int A, int L > struct Fill { static void go( Tab & t ) { Fill< A, L/2 >::go( t ); Fill< A+L/2, L-L/2 >::go( t ); } };
  template< int A > struct Fill< A, 1 > { static void go( Tab & t ) { t.s[A] = &fs<A>; t.d[A] = &fd<A>; } };
  inline Tab const & tab() { static Tab * t = nullptr; if( t == nullptr ) { t = new Tab; Fill< 0, N >::go( *t ); } return *t; }
  inline libxsmm_xmmfunction add( Kind kd, libxsmm_gemm_descriptor const * d, unsigned w, unsigned const * ptr, unsigned const * idx ) {
    Ker * k = new Ker; k->kind = kd; k->d = *d; k->w = w;
    if( d->alpha != 1 || ( d->beta != 0 && d->beta != 1 ) ) die( "alpha or beta not supported" );
    if( ptr != nullptr ) { unsigned n = kd == CSR ? d->m : d->n; k->ptr.assign( ptr, ptr+n+1 ); for( unsigned i = 0; i < n; i++ ) if( ptr[i] > ptr[i+1] ) die( "decreasing pointers" ); k->idx.assign( idx, idx+ptr[n] ); }
    // identical kernels share a slot
    int i = 0; for( ; i < used(); i++ ) { Ker const & o = *slots()[i]; if( o.kind == k->kind && o.w == k->w && o.ptr == k->ptr && o.idx == k->idx && o.d.prec == d->prec && o.d.m == d->m && o.d.n == d->n && o.d.k == d->k && o.d.ldA == d->ldA && o.d.ldB == d->ldB && o.d.ldC == d->ldC && o.d.beta == d->beta ) break; }
    if( i == used() ) { if( i == N ) die( "too many kernels" ); slots()[used()++] = k; } else delete k;
    libxsmm_xmmfunction f; if( d->prec == LIBXSMM_GEMM_PRECISION_F64 ) f.dmm = tab().d[i]; else f.smm = tab().s[i]; return f;
  }
}
inline int libxsmm_get_target_archid() { char const * e = std::getenv( "XSMM_KNM" ); return e != nullptr && e[0] == '1' ? LIBXSMM_X86_AVX512_KNM : LIBXSMM_X86_GENERIC; }
inline libxsmm_gemm_descriptor * libxsmm_gemm_descriptor_dinit( libxsmm_descriptor_blob * b, libxsmm_gemm_precision p, unsigned m, unsigned n, unsigned k, unsigned ldA, unsigned ldB, unsigned ldC, double alpha, double beta, int, int ) {
  libxsmm_gemm_descriptor * d = new( b->data ) libxsmm_gemm_descriptor; d->prec = p; d->m = m; d->n = n; d->k = k; d->ldA = ldA; d->ldB = ldB; d->ldC = ldC; d->alpha = alpha; d->beta = beta; return d; }
inline libxsmm_xmmfunction libxsmm_xmmdispatch( libxsmm_gemm_descriptor const * d ) {
  if( d->ldA < d->m || d->ldB < d->k || d->ldC < d->m ) vxsmm::die( "leading dimension too small" ); return vxsmm::add( vxsmm::DENSE, d, 1, nullptr, nullptr ); }
inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csr( libxsmm_gemm_descriptor const * d, unsigned w, unsigned const * ptr, unsigned const * idx, void const * ) {
  if( d->ldA != 0 || d->ldB < d->n || d->ldC < d->n ) vxsmm::die( "leading dimension too small" ); return vxsmm::add( vxsmm::CSR, d, w, ptr, idx ); }
inline libxsmm_xmmfunction libxsmm_create_packed_spxgemm_csc( libxsmm_gemm_descriptor const * d, unsigned w, unsigned const * ptr, unsigned const * idx, void const * ) {
  if( d->ldB != 0 || d->ldA < d->k || d->ldC < d->n ) vxsmm::die( "leading dimension too small" ); return vxsmm::add( vxsmm::CSC, d, w, ptr, idx ); }
inline libxsmm_xmmfunction libxsmm_create_packed_xgemm_ac_rm( libxsmm_gemm_descriptor const * d, unsigned w ) {
  if( d->ldA < d->k || d->ldB < d->n || d->ldC < d->n ) vxsmm::die( "leading dimension too small" ); return vxsmm::add( vxsmm::AC, d, w, nullptr, nullptr ); }
inline void libxsmm_get_kernel_info( void const *, libxsmm_kernel_info * i ) { i->nflops = 0; }
#endif
