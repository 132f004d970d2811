// Writes a point source description (HDF5) from a text: dim nq n; then per source: coords, scalings, t0, dt, ns, samples
#include <hdf5.h>
#include <cstdio>
#include <cstdint>
#include <vector>
static void w( hid_t f, char const *n, int r, hsize_t const *d, hid_t t, void const *v ) {
  hid_t s = H5Screate_simple( r, d, NULL );
  hid_t x = H5Dcreate( f, n, t == H5T_NATIVE_UINT64 ? H5T_STD_U64LE : H5T_IEEE_F32LE, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT );
  H5Dwrite( x, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, v );
  H5Dclose( x ); H5Sclose( s );
}
int main( int, char **a ) {
  FILE *i = fopen( a[1], "r" );
  int dim, nq, n; if( fscanf( i, "%d %d %d", &dim, &nq, &n ) != 3 ) return 1;
  std::vector<float> pt, sc, tp, ts; std::vector<uint64_t> pp(1, 0);
  auto rd = [&]( std::vector<float> & v, int k ) { for( int j = 0; j < k; j++ ) { double x; if( fscanf( i, "%lf", &x ) != 1 ) x = 0; v.push_back( x ); } };
  for( int s = 0; s < n; s++ ) {
    rd( pt, dim ); rd( sc, nq ); rd( tp, 2 ); int m; if( fscanf( i, "%d", &m ) != 1 ) return 1;
    rd( ts, m ); pp.push_back( ts.size() );
  }
  hid_t f = H5Fcreate( a[2], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT );
  hsize_t d[2] = { (hsize_t) n, (hsize_t) dim };
  w( f, "points", 2, d, H5T_NATIVE_FLOAT, pt.data() );
  d[1] = nq; w( f, "scalings", 2, d, H5T_NATIVE_FLOAT, sc.data() );
  d[1] = 2; w( f, "time_parameters", 2, d, H5T_NATIVE_FLOAT, tp.data() );
  d[0] = n+1; w( f, "time_pointers", 1, d, H5T_NATIVE_UINT64, pp.data() );
  d[0] = ts.size(); w( f, "time_series", 1, d, H5T_NATIVE_FLOAT, ts.data() );
  H5Fclose( f );
}
