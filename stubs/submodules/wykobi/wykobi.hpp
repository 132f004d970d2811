// Stand-in for the (absent) Wykobi submodule: the few geometric primitives EDGE calls.
#ifndef VERIF_WYKOBI_STUB_HPP
#define VERIF_WYKOBI_STUB_HPP
#include <cmath>
#include <cstddef>
namespace wykobi {
  template< typename T > struct point2d { T x = 0, y = 0;
    T & operator[]( std::size_t i ) { return i == 0 ? x : y; }
    T const & operator[]( std::size_t i ) const { return i == 0 ? x : y; } };
  template< typename T > struct point3d { T x = 0, y = 0, z = 0;
    T & operator[]( std::size_t i ) { return i == 0 ? x : (i == 1 ? y : z); }
    T const & operator[]( std::size_t i ) const { return i == 0 ? x : (i == 1 ? y : z); } };
  template< typename T, std::size_t D > struct triangle;
  template< typename T > struct triangle<T,2> { point2d<T> p[3];
    point2d<T> & operator[]( std::size_t i ) { return p[i]; }
    point2d<T> const & operator[]( std::size_t i ) const { return p[i]; } };
  template< typename T > struct triangle<T,3> { point3d<T> p[3];
    point3d<T> & operator[]( std::size_t i ) { return p[i]; }
    point3d<T> const & operator[]( std::size_t i ) const { return p[i]; } };

  template< typename T > inline T distance( point3d<T> const & a, point3d<T> const & b ) {
    double d = 0; for( int i = 0; i < 3; i++ ) d += double(a[i]-b[i])*double(a[i]-b[i]);
    return T( std::sqrt(d) );
  }
  namespace detail {
    // closest point on a triangle in R^3 (Ericson, Real-Time Collision Detection)
    inline void closest( double const a[3], double const b[3], double const c[3], double const p[3], double o[3] ) {
      auto dot = []( double const x[3], double const y[3] ) { return x[0]*y[0]+x[1]*y[1]+x[2]*y[2]; };
      double ab[3], ac[3], ap[3], bp[3], cp[3];
      for( int i = 0; i < 3; i++ ) { ab[i]=b[i]-a[i]; ac[i]=c[i]-a[i]; ap[i]=p[i]-a[i]; bp[i]=p[i]-b[i]; cp[i]=p[i]-c[i]; }
      double d1=dot(ab,ap), d2=dot(ac,ap);
      if( d1<=0 && d2<=0 ) { for(int i=0;i<3;i++) o[i]=a[i]; return; }
      double d3=dot(ab,bp), d4=dot(ac,bp);
      if( d3>=0 && d4<=d3 ) { for(int i=0;i<3;i++) o[i]=b[i]; return; }
      double vc=d1*d4-d3*d2;
      if( vc<=0 && d1>=0 && d3<=0 ) { double v=d1/(d1-d3); for(int i=0;i<3;i++) o[i]=a[i]+v*ab[i]; return; }
      double d5=dot(ab,cp), d6=dot(ac,cp);
      if( d6>=0 && d5<=d6 ) { for(int i=0;i<3;i++) o[i]=c[i]; return; }
      double vb=d5*d2-d1*d6;
      if( vb<=0 && d2>=0 && d6<=0 ) { double w=d2/(d2-d6); for(int i=0;i<3;i++) o[i]=a[i]+w*ac[i]; return; }
      double va=d3*d6-d5*d4;
      if( va<=0 && (d4-d3)>=0 && (d5-d6)>=0 ) { double w=(d4-d3)/((d4-d3)+(d5-d6)); for(int i=0;i<3;i++) o[i]=b[i]+w*(c[i]-b[i]); return; }
      double den=1.0/(va+vb+vc), v=vb*den, w=vc*den;
      for(int i=0;i<3;i++) o[i]=a[i]+ab[i]*v+ac[i]*w;
    }
  }
  template< typename T > inline point2d<T> closest_point_on_triangle_from_point( triangle<T,2> const & t, T px, T py ) {
    double v[3][3], p[3] = { double(px), double(py), 0 }, o[3];
    for( int i = 0; i < 3; i++ ) { v[i][0] = t[i][0]; v[i][1] = t[i][1]; v[i][2] = 0; }
    double s[3];
    for( int i = 0; i < 3; i++ ) { int j = (i+1)%3;
      s[i] = (v[j][0]-v[i][0])*(p[1]-v[i][1]) - (v[j][1]-v[i][1])*(p[0]-v[i][0]); }
    point2d<T> r;
    if( (s[0]>=0 && s[1]>=0 && s[2]>=0) || (s[0]<=0 && s[1]<=0 && s[2]<=0) ) { r.x = px; r.y = py; return r; }
    detail::closest( v[0], v[1], v[2], p, o );
    r.x = T(o[0]); r.y = T(o[1]); return r;
  }
  template< typename T > inline point3d<T> closest_point_on_triangle_from_point( triangle<T,3> const & t, point3d<T> const & pt ) {
    double v[3][3], p[3], o[3];
    for( int i = 0; i < 3; i++ ) { p[i] = pt[i]; for( int d = 0; d < 3; d++ ) v[i][d] = t[i][d]; }
    detail::closest( v[0], v[1], v[2], p, o );
    point3d<T> r; r.x = T(o[0]); r.y = T(o[1]); r.z = T(o[2]); return r;
  }
  // angle w.r.t. the x-axis in degrees, [0,360)
  template< typename T > inline T robust_cartesian_angle( T x, T y ) {
    double a = std::atan2( double(y), double(x) ) * 180.0 / 3.141592653589793238462643383279502;
    if( a < 0 ) a += 360.0;
    return T(a);
  }
}
#endif
