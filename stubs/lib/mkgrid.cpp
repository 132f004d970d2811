// Writes a grid (HDF5: x, y double, z float) from a text: nx ny; x; y; z
#include <hdf5.h>
#include <cstdio>
#include <vector>
static void w( hid_t f, char const *n, hsize_t k, hid_t t, hid_t ft, void const *v ) {
  hid_t s = H5Screate_simple( 1, &k, NULL ), x = H5Dcreate( f, n, ft, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT );
  H5Dwrite( x, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, v ); H5Dclose( x ); H5Sclose( s );
}
int main( int, char **a ) {
  FILE *i = fopen( a[1], "r" ); int nx, ny; if( !i || fscanf( i, "%d %d", &nx, &ny ) != 2 ) return 1;
  std::vector<double> x( nx ), y( ny ); std::vector<float> z( nx*ny );
  for( auto & v : x ) if( fscanf( i, "%lf", &v ) != 1 ) return 1;
  for( auto & v : y ) if( fscanf( i, "%lf", &v ) != 1 ) return 1;
  for( auto & v : z ) if( fscanf( i, "%f", &v ) != 1 ) return 1;
  hid_t f = H5Fcreate( a[2], H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT );
  w( f, "x", nx, H5T_NATIVE_DOUBLE, H5T_IEEE_F64LE, x.data() ); w( f, "y", ny, H5T_NATIVE_DOUBLE, H5T_IEEE_F64LE, y.data() ); w( f, "z", nx*ny, H5T_NATIVE_FLOAT, H5T_IEEE_F32LE, z.data() );
  H5Fclose( f );
}
