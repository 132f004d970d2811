// C20: geometry, mappings, quadrature points, series, half-spaces, small matrices: random inputs against independent formulas
#include "vh.hpp"
#include <io/logging.h>
#include "constants.hpp"
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "linalg/Shape.hpp"
#include "linalg/Series.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
#include "dg/QuadraturePoints.h"
#include "data/SparseEntities.hpp"
using namespace vh;
using namespace edge::linalg;
typedef long double LD;
static char const * nm( t_entityType e ) { return e==LINE?"line":e==QUAD4R?"quad4r":e==TRIA3?"tria3":e==HEX8R?"hex8r":e==TET4?"tet4":"?"; }
struct V3 { double x[3]; double operator[](int i) const { return x[i]; } double & operator[](int i) { return x[i]; } };
static V3 operator-( V3 a, V3 b ) { return {{a[0]-b[0],a[1]-b[1],a[2]-b[2]}}; }
static V3 operator+( V3 a, V3 b ) { return {{a[0]+b[0],a[1]+b[1],a[2]+b[2]}}; }
static V3 operator*( double s, V3 a ) { return {{s*a[0],s*a[1],s*a[2]}}; }
static double dot( V3 a, V3 b ) { return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; }
static V3 cross( V3 a, V3 b ) { return {{a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]}}; }
static double len( V3 a ) { return std::sqrt(dot(a,a)); }

// an element: vertex coordinates in [dim][vertex] storage of three dimensions
struct El { t_entityType t; int nd, nv; std::vector<V3> v; double size; std::vector<double> soa; };
// reference vertices, written down independently: line, quad (counter-clockwise), tria, hex (bottom, top), tet
static std::vector<V3> refVe( t_entityType t ) {
  if( t == LINE ) return { {{0,0,0}},{{1,0,0}} };
  if( t == TRIA3 ) return { {{0,0,0}},{{1,0,0}},{{0,1,0}} };
  if( t == QUAD4R ) return { {{0,0,0}},{{1,0,0}},{{1,1,0}},{{0,1,0}} };
  if( t == TET4 ) return { {{0,0,0}},{{1,0,0}},{{0,1,0}},{{0,0,1}} };
  return { {{0,0,0}},{{1,0,0}},{{1,1,0}},{{0,1,0}},{{0,0,1}},{{1,0,1}},{{1,1,1}},{{0,1,1}} };
}
// orig, and edges: affine map of the reference element
struct Aff { V3 o, e[3]; V3 operator()( V3 xi ) const { return o + xi[0]*e[0] + xi[1]*e[1] + xi[2]*e[2]; } };
static Aff randAff( Rng & r, t_entityType t, double & size ) {
  int nd = C_ENT[t].N_DIM;
  for(;;) {
    Aff a; size = std::pow( 10.0, r.r(-1,2.5) );
    for( int d = 0; d < 3; d++ ) a.o[d] = d < nd ? r.r(-5,5)*size : 0;
    for( int k = 0; k < 3; k++ ) for( int d = 0; d < 3; d++ ) a.e[k][d] = (d<nd && k<nd) ? r.r(-1,1)*size : (d==k);
    if( t == QUAD4R || t == HEX8R || t == LINE ) for( int k = 0; k < nd; k++ ) for( int d = 0; d < 3; d++ ) a.e[k][d] = d==k ? r.r(0.1,1)*size : 0;
    double det = dot( a.e[0], cross(a.e[1],a.e[2]) );
    double sc = 1; for( int k = 0; k < nd; k++ ) sc *= len(a.e[k]);
    if( det < 0 && nd >= 2 ) { std::swap(a.e[0],a.e[1]); if( nd == 2 || nd == 3 ) det = -det; }
    if( det > 0.08*sc ) return a;
  }
}
static El randEl( Rng & r, t_entityType t, Aff * o=nullptr ) {
  El e; e.t = t; e.nd = C_ENT[t].N_DIM; e.nv = C_ENT[t].N_VERTICES;
  Aff a = randAff( r, t, e.size ); if( o ) *o = a;
  for( V3 x: refVe(t) ) e.v.push_back( a(x) );
  e.soa.resize( 3*e.nv ); for( int d = 0; d < 3; d++ ) for( int v = 0; v < e.nv; v++ ) e.soa[d*e.nv+v] = d<e.nd ? e.v[v][d] : 0;
  return e;
}
// random point of the reference element
static V3 randRef( Rng & r, t_entityType t, double m=0 ) {
  for(;;) { V3 x = {{0,0,0}}; int nd = C_ENT[t].N_DIM; double s = 0; for( int d = 0; d < nd; d++ ) { x[d] = r.r(m,1-m); s += x[d]; }
    if( (t == TRIA3 || t == TET4) && s > 1-m ) continue; return x; }
}
static double mono( V3 x, int a, int b, int c ) { return std::pow(x[0],a)*std::pow(x[1],b)*std::pow(x[2],c); }
static double fac( int n ) { double f = 1; for( int i = 2; i <= n; i++ ) f *= i; return f; }
// integral of x^a y^b z^c over the reference element
static double refInt( t_entityType t, int a, int b, int c ) {
  if( t == LINE ) return 1.0/(a+1);
  if( t == QUAD4R ) return 1.0/(a+1)/(b+1);
  if( t == HEX8R ) return 1.0/(a+1)/(b+1)/(c+1);
  if( t == TRIA3 ) return fac(a)*fac(b)/fac(a+b+2);
  return fac(a)*fac(b)*fac(c)/fac(a+b+c+3);
}
static std::vector<t_entityType> const TS = { LINE, QUAD4R, TRIA3, HEX8R, TET4 };

static void shape( Rng & r ) {
  for( t_entityType t: TS ) {
    int nd = C_ENT[t].N_DIM, nv = C_ENT[t].N_VERTICES; auto rv = refVe(t);
    auto ev = [&]( V3 x, double *o ) { if( t==LINE ) Shape::line(x[0],o); else if( t==QUAD4R ) Shape::quad4(x[0],x[1],o); else if( t==TRIA3 ) Shape::tria3(x[0],x[1],o); else if( t==HEX8R ) Shape::hex8Lin(x[0],x[1],x[2],o); else Shape::tet4(x[0],x[1],x[2],o); };
    for( int v = 0; v < nv; v++ ) { double o[8]; ev(rv[v],o); for( int w = 0; w < nv; w++ ) check( near(o[w],v==w,1e-13), fmt("shape/%s/nodal",nm(t)), "shape function %d is %g at vertex %d", w, o[w], v );
      for( int d = 0; d < 3; d++ ) check( near(C_REF_ELEMENT.VE.ENT[t][d*nv+v],rv[v][d],1e-13), fmt("ref/%s/vertex",nm(t)), "reference vertex %d dimension %d is %g", v, d, C_REF_ELEMENT.VE.ENT[t][d*nv+v] ); }
    V3 x = randRef(r,t); double o[8], s = 0; ev(x,o); V3 y = {{0,0,0}};
    for( int v = 0; v < nv; v++ ) { s += o[v]; y = y + o[v]*rv[v]; }
    check( near(s,1,1e-12) && len(y-x) < 1e-12, fmt("shape/%s/unity",nm(t)), "shape functions sum up to %g, reproduce (%g,%g,%g) for (%g,%g,%g)", s, y[0],y[1],y[2],x[0],x[1],x[2] );
    double d[3][8]; memset(d,0,sizeof d);
    if( t==LINE ) Shape::derLine(d[0]);
    else if( t==QUAD4R ) { double q[2][4]; Shape::derQuad4(x[0],x[1],q); for( int i=0;i<2;i++ ) for( int j=0;j<4;j++ ) d[i][j]=q[i][j]; }
    else if( t==TRIA3 ) { double q[2][3]; Shape::derTria3(q); for( int i=0;i<2;i++ ) for( int j=0;j<3;j++ ) d[i][j]=q[i][j]; }
    else if( t==HEX8R ) Shape::derHex8Lin(x[0],x[1],x[2],d);
    else { double q[3][4]; Shape::derTet4(q); for( int i=0;i<3;i++ ) for( int j=0;j<4;j++ ) d[i][j]=q[i][j]; }
    for( int k = 0; k < nd; k++ ) { V3 p=x,m=x; double h=0.25; p[k]+=h; m[k]-=h; double a[8],b[8]; ev(p,a); ev(m,b);
      for( int v = 0; v < nv; v++ ) check( near(d[k][v],(a[v]-b[v])/(2*h),1e-12), fmt("shape/%s/der",nm(t)), "derivative %d of shape function %d is %g, difference quotient %g", k, v, d[k][v], (a[v]-b[v])/(2*h) ); }
    stat("eval_shape");
  }
}
static void mappings( Rng & r ) {
  for( t_entityType t: TS ) {
    Aff a; El e = randEl(r,t,&a); std::vector<double> ve; for( int d = 0; d < e.nd; d++ ) for( int v = 0; v < e.nv; v++ ) ve.push_back(e.soa[d*e.nv+v]);
    for( int k = 0; k < 4; k++ ) {
      V3 xi = randRef(r,t), x = a(xi); double o[3] = {0,0,0};
      Mappings::refToPhy( t, ve.data(), xi.x, o );
      double err = 0; for( int d = 0; d < e.nd; d++ ) err = std::max(err,std::fabs(o[d]-x[d]));
      check( err <= 1e-11*6*e.size, fmt("map/%s/refToPhy",nm(t)), "reference point (%g,%g,%g) is mapped %g off in an element of size %g", xi[0],xi[1],xi[2],err,e.size );
      if( t != LINE ) { double b[3] = {0,0,0}; Mappings::phyToRef( t, ve.data(), x.x, b ); err = 0; for( int d = 0; d < e.nd; d++ ) err = std::max(err,std::fabs(b[d]-xi[d]));
        check( err <= 1e-7, fmt("map/%s/phyToRef",nm(t)), "physical point of (%g,%g,%g) is mapped to (%g,%g,%g), element of size %g", xi[0],xi[1],xi[2],b[0],b[1],b[2],e.size ); }
    }
    double j[9]; Mappings::evalJac( t, ve.data(), j );
    for( int k = 0; k < e.nd; k++ ) for( int d = 0; d < e.nd; d++ ) check( near(j[k*e.nd+d],a.e[k][d],1e-11,6*e.size), fmt("map/%s/jac",nm(t)), "entry (%d,%d) of the Jacobian is %g instead of %g", k, d, j[k*e.nd+d], a.e[k][d] );
    stat("eval_mappings",9);
    // faces: from face coordinates to the volume, matching points of two sides
    int nf = C_ENT[t].N_FACES, nfv = C_ENT[t].N_FACE_VERTICES; t_entityType ft = C_ENT[t].TYPE_FACES;
    auto fv = [&]( int f, int v ) { V3 x; for( int d = 0; d < 3; d++ ) x[d] = C_REF_ELEMENT.FA.ENT[t][ d*nf*nfv + f*nfv + v ]; return x; };
    if( t != LINE ) {
      std::set<std::string> faces;
      V3 mid = {{0,0,0}}; for( V3 x: refVe(t) ) mid = mid + (1.0/e.nv)*x;
      for( int f = 0; f < nf; f++ ) {
        std::set<int> ids; for( int v = 0; v < nfv; v++ ) for( int w = 0; w < e.nv; w++ ) if( len(fv(f,v)-refVe(t)[w]) < 1e-12 ) ids.insert(w);
        std::string s; for( int i: ids ) s += fmt("%d,",i); faces.insert(s);
        check( (int)ids.size() == nfv, fmt("ref/%s/faceVertices",nm(t)), "face %d has vertices which are not vertices of the element", f );
        // orientation: the vertices of a face turn the outer side to the left (2D: to the right of the edge)
        if( e.nd == 2 ) { V3 tt = fv(f,1)-fv(f,0), n = {{tt[1],-tt[0],0}}; check( dot(n,mid-fv(f,0)) < 0, fmt("ref/%s/orientation",nm(t)), "face %d of the reference element", f ); }
        V3 c = randRef(r,ft); double vol[3] = {0,0,0};
        Mappings::faToVolRef( f, t, c.x, vol );
        V3 ex = fv(f,0) + c[0]*(fv(f,1)-fv(f,0)); if( t==TET4 ) ex = ex + c[1]*(fv(f,2)-fv(f,0)); if( t==HEX8R ) ex = ex + c[1]*(fv(f,3)-fv(f,0));
        double err = 0; for( int d = 0; d < e.nd; d++ ) err = std::max(err,std::fabs(vol[d]-ex[d]));
        check( err < 1e-12, fmt("map/%s/faToVol",nm(t)), "face point (%g,%g) of face %d is mapped to (%g,%g,%g)", c[0],c[1],f,vol[0],vol[1],vol[2] );
        // point of the neighbor: vertex i of the face is vertex (ve-i) of the neighboring one
        for( int vo = 0; vo < (t==TET4?3:1); vo++ ) {
          double n[2] = {0,0}; Mappings::faLocToFaNei( t, c.x, n, vo );
          std::vector<double> b( nfv ), bn( nfv );
          if( nfv == 2 ) { b = {1-c[0],c[0]}; bn = {1-n[0],n[0]}; check( near(b[0],bn[1],1e-12), fmt("map/%s/faLocToFaNei",nm(t)), "point %g of the face is point %g of the neighbor", c[0], n[0] ); }
          else if( t == TET4 ) { b = {1-c[0]-c[1],c[0],c[1]}; bn = {1-n[0]-n[1],n[0],n[1]};
            for( int i = 0; i < 3; i++ ) check( near(b[i],bn[(vo-i+3)%3],1e-12), "map/tet4/faLocToFaNei", "vertex option %d: point (%g,%g) of the face is point (%g,%g) of the neighbor", vo, c[0], c[1], n[0], n[1] ); }
          else check( near(n[0],c[1],1e-12) && near(n[1],c[0],1e-12), "map/hex8r/faLocToFaNei", "point (%g,%g) is (%g,%g) of the neighbor", c[0],c[1],n[0],n[1] );
        }
        if( t != TET4 ) { // mapFaceCoords: all pairs in 2D, opposite faces for hexes
          for( int g = 0; g < nf; g++ ) {
            if( t == HEX8R ) { int const op[6] = {5,3,4,1,2,0}; if( g != op[f] ) continue; }
            V3 exp; V3 p = ex;
            if( t == HEX8R ) { V3 sh = {{0,0,0}}; for( int d = 0; d < 3; d++ ) { bool same = true; for( int v = 1; v < 4; v++ ) same &= std::fabs(fv(f,v)[d]-fv(f,0)[d])<1e-12; if( same ) sh[d] = fv(f,0)[d] < 0.5 ? 1 : -1; } exp = p + sh; }
            else exp = fv(g,1) + c[0]*(fv(g,0)-fv(g,1));
            double ox,oy,oz; Mappings::mapFaceCoords( t, f, g, 0, p[0],p[1],p[2], ox,oy,oz ); V3 got = {{ox,oy,oz}};
            check( len(got-exp) < 1e-11, fmt("map/%s/mapFaceCoords",nm(t)), "(%g,%g,%g) of face %d is (%g,%g,%g) of face %d", p[0],p[1],p[2],f,ox,oy,oz,g );
          }
        }
        stat("eval_faces");
      }
      check( (int)faces.size() == nf, fmt("ref/%s/faces",nm(t)), "the faces of the reference element are not distinct" );
    }
  }
}
static void geom( Rng & r ) {
  for( t_entityType t: {TRIA3,TET4} ) {
    Aff a; El e = randEl(r,t,&a);
    double vol = std::fabs( t==TRIA3 ? 0.5*(a.e[0][0]*a.e[1][1]-a.e[0][1]*a.e[1][0]) : dot(a.e[0],cross(a.e[1],a.e[2]))/6 );
    std::vector<double> ve( e.soa.begin(), e.soa.begin()+e.nd*e.nv );
    double g = Geom::volume( t, ve.data() );
    check( rel(g,vol,1e-9), fmt("geom/%s/volume",nm(t)), "volume %g instead of %g", g, vol );
    // permuted vertices have the same volume
    std::vector<int> p; for( int i = 0; i < e.nv; i++ ) p.push_back(i); r.shuffle(p);
    std::vector<double> vp = ve; for( int d = 0; d < e.nd; d++ ) for( int i = 0; i < e.nv; i++ ) vp[d*e.nv+i] = ve[d*e.nv+p[i]];
    g = Geom::volume( t, vp.data() );
    check( rel(g,vol,1e-9), fmt("geom/%s/volumePermuted",nm(t)), "volume %g instead of %g", g, vol );
    // inscribed circle/sphere: distance of the incenter to all faces
    double per = 0; V3 in = {{0,0,0}};
    for( int i = 0; i < e.nv; i++ ) { double ar; if( t == TRIA3 ) ar = len(e.v[(i+1)%3]-e.v[(i+2)%3]); else ar = 0.5*len(cross(e.v[(i+2)%4]-e.v[(i+1)%4],e.v[(i+3)%4]-e.v[(i+1)%4])); per += ar; in = in + ar*e.v[i]; }
    in = (1/per)*in; double rad = 0;
    if( t == TRIA3 ) { V3 d = e.v[1]-e.v[0]; rad = std::fabs(d[0]*(in-e.v[0])[1]-d[1]*(in-e.v[0])[0])/len(d); }
    else { V3 n = cross(e.v[1]-e.v[0],e.v[2]-e.v[0]); rad = std::fabs(dot(n,in-e.v[0]))/len(n); }
    g = Geom::inDia( t, vp.data() );
    check( rel(g,2*rad,1e-8), fmt("geom/%s/inDia",nm(t)), "diameter of the inscribed circle/sphere %g instead of %g", g, 2*rad );
    stat("eval_geom",3);
  }
  { // faces: normals and tangents
    double s = std::pow(10.0,r.r(-1,3)); V3 v[3]; do { for( auto & x: v ) for( int d = 0; d < 3; d++ ) x[d] = r.r(-1,1)*s; } while( len(cross(v[1]-v[0],v[2]-v[0])) < 0.1*s*s );
    V3 n = cross(v[1]-v[0],v[2]-v[0]); n = (1/len(n))*n; V3 np; do { for( int d = 0; d < 3; d++ ) np[d] = r.r(-2,2)*s; } while( std::fabs(dot(np-v[0],n)) < 0.05*s );
    double so[9]; for( int d = 0; d < 3; d++ ) for( int i = 0; i < 3; i++ ) so[d*3+i] = v[i][d];
    V3 o,t0,t1; Geom::computeOutPtNormal( TRIA3, so, np.x, o.x ); Geom::computeTangents( TRIA3, so, t0.x, t1.x );
    check( near(len(o),1,1e-9) && std::fabs(dot(o,v[1]-v[0])) < 1e-8*s && std::fabs(dot(o,v[2]-v[0])) < 1e-8*s, "geom/tria3/normal", "normal (%g,%g,%g) is not a unit normal of the face", o[0],o[1],o[2] );
    check( dot(o,np-v[0]) < 0, "geom/tria3/normalSide", "normal points to the side of the given point" );
    check( near(len(t0),1,1e-9) && near(len(t1),1,1e-9) && std::fabs(dot(t0,t1)) < 1e-8 && std::fabs(dot(t0,n)) < 1e-8 && std::fabs(dot(t1,n)) < 1e-8, "geom/tria3/tangents", "tangents (%g,%g,%g) (%g,%g,%g) are no orthonormal basis of the face", t0[0],t0[1],t0[2],t1[0],t1[1],t1[2] );
    double ar = Geom::volume( TRIA3, so, 3 ); check( rel(ar,0.5*len(cross(v[1]-v[0],v[2]-v[0])),1e-9), "geom/tria3/area", "area %g", ar );
    // 2D edges
    V3 a = {{v[0][0],v[0][1],0}}, b = {{v[1][0],v[1][1],0}}; V3 d = b-a;
    if( len(d) > 0.05*s ) { V3 q; do { for( int k = 0; k < 2; k++ ) q[k] = r.r(-2,2)*s; q[2]=0; } while( std::fabs(d[0]*(q-a)[1]-d[1]*(q-a)[0])/len(d) < 0.05*s );
      double l2[6] = {a[0],b[0],a[1],b[1],0,0}; Geom::computeOutPtNormal( LINE, l2, q.x, o.x ); Geom::computeTangents( LINE, l2, t0.x, t1.x );
      check( near(len(o),1,1e-9) && std::fabs(dot(o,d)) < 1e-8*s && dot(o,q-a) < 0 && o[2] == 0, "geom/line/normal", "normal (%g,%g,%g) of edge (%g,%g)", o[0],o[1],o[2],d[0],d[1] );
      check( len(cross(t0,d)) < 1e-8*s*len(t0) && dot(t0,d) > 0 && len(t1) == 0, "geom/line/tangent", "tangent (%g,%g)", t0[0], t0[1] );
      double l4[4] = {a[0],b[0],a[1],b[1]}; check( rel(Geom::volume(LINE,l4,2),len(d),1e-9), "geom/line/length", "length %g", Geom::volume(LINE,l4,2) ); }
    // small helpers
    V3 c; Geom::cross3( v[0].x, v[1].x, c.x ); check( len(c-cross(v[0],v[1])) <= 1e-12*s*s, "geom/cross3", "wrong cross product" );
    check( near(Geom::sprod3(v[0].x,v[1].x),dot(v[0],v[1]),1e-12,s*s) && near(Geom::sprod2(v[0].x,v[1].x),v[0][0]*v[1][0]+v[0][1]*v[1][1],1e-12,s*s) && near(Geom::norm3(v[0].x),len(v[0]),1e-12,s), "geom/sprod", "wrong scalar product or norm" );
    check( near(GeomT<3>::sprod(v[0].x,v[1].x),dot(v[0],v[1]),1e-12,s*s) && near(GeomT<3>::normL2(v[0].x),len(v[0]),1e-12,s) && near(GeomT<3>::norm(v[0].x,v[1].x),len(v[1]-v[0]),1e-12,s) && near(GeomTs<3>::norm(v[0].x,v[1].x),len(v[1]-v[0]),1e-12,s), "geom/GeomT", "wrong scalar product or norm" );
    V3 u0 = (1/len(v[0]))*v[0], u1 = (1/len(v[1]))*v[1];
    if( len(v[0]) > 0.1*s && len(v[1]) > 0.1*s && dot(u0,u1) > -0.95 ) {
      double m[3][3]; GeomTs<3>::rotMat( v[0].x, v[1].x, m ); V3 w = {{0,0,0}}; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) w[i] += m[i][j]*u0[j];
      double orth = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { double x = 0; for( int k = 0; k < 3; k++ ) x += m[i][k]*m[j][k]; orth = std::max(orth,std::fabs(x-(i==j))); }
      check( len(w-u1) < 1e-9 && orth < 1e-9, "geom/rotMat", "the rotation maps to (%g,%g,%g) instead of (%g,%g,%g), deviation from orthogonality %g", w[0],w[1],w[2],u1[0],u1[1],u1[2],orth ); }
    { double x[2] = {v[0][0],v[0][1]}, y[2] = {v[1][0],v[1][1]}; double an = GeomTs<2>::angle(x,y); double ex = std::atan2(y[1],y[0])-std::atan2(x[1],x[0]); double df = std::fabs(std::remainder(an-ex,2*M_PI));
      check( df < 1e-6 && an >= 0 && an < 2*M_PI+1e-6, "geom/angle", "angle %g instead of %g", an, ex ); }
    stat("eval_faces_geom",8);
  }
  { // sub-faces of tets (sfAdd): parallel to the diagonals of the parallelepiped
    Aff a; El e = randEl(r,TET4,&a); for( int ty = 0; ty < 2; ty++ ) { V3 n,t0,t1; double ar; Geom::sfAdd( TET4, ty, e.soa.data(), n.x, t0.x, t1.x, ar );
      V3 f[3]; if( ty==0 ) { f[0]=e.v[1]; f[1]=e.v[2]; f[2]=e.v[2]+e.v[3]-e.v[0]; } else { f[0]=e.v[1]; f[1]=e.v[2]+e.v[1]-e.v[0]; f[2]=e.v[2]+e.v[3]-e.v[0]; }
      V3 c = cross(f[1]-f[0],f[2]-f[0]);
      if( std::fabs(dot(c,e.v[0]-f[0]))/len(c) < 1e-3*e.size ) continue;
      check( rel(ar,0.5*len(c),1e-8) && len(cross(n,c)) < 1e-7*len(c) && dot(n,e.v[0]-f[0]) < 0 && near(len(n),1,1e-9), "geom/sfAdd", "additional sub-face of type %d: area %g instead of %g", ty, ar, 0.5*len(c) ); stat("eval_geom"); } }
}
// variational inequality: q is the closest point of the convex hull to p if (p-q)*(v-q)<=0 for all vertices v and q is inside
static void inside( Rng & r ) {
  for( t_entityType t: TS ) {
    Aff a; El e = randEl(r,t,&a); bool simplex = t==TRIA3 || t==TET4;
    for( int k = 0; k < 6; k++ ) {
      V3 xi = {{0,0,0}}; double m = 1e9, s = 0; for( int d = 0; d < e.nd; d++ ) { xi[d] = r.p(0.5) ? r.r(0.01,0.6) : r.r(-0.7,1.7); s += xi[d]; m = std::min(m,xi[d]); if( !simplex ) m = std::min(m,1-xi[d]); }
      if( simplex ) m = std::min(m,1-s);
      if( std::fabs(m) < 1e-3 ) continue;
      V3 x = a(xi); unsigned short in = Geom::inside( t, e.soa.data(), x.x );
      check( in == (m>0?1:0), fmt("geom/%s/inside",nm(t)), "point (%g,%g,%g) of the reference element, margin %g: result %d", xi[0],xi[1],xi[2],m,in );
      double q[3] = {x[0],x[1],x[2]}; Geom::closestPoint( t, e.soa.data(), q ); V3 qq = {{0,0,0}}; for( int d = 0; d < e.nd; d++ ) qq[d] = q[d]; V3 p = {{0,0,0}}; for( int d = 0; d < e.nd; d++ ) p[d] = x[d];
      double worst = 0; for( V3 v: e.v ) { V3 vv = {{0,0,0}}; for( int d = 0; d < e.nd; d++ ) vv[d] = v[d]; worst = std::max( worst, dot(p-qq,vv-qq) ); }
      check( worst <= 1e-7*e.size*e.size*4, fmt("geom/%s/closestPoint",nm(t)), "point (%g,%g,%g) of the reference element: the result is not the closest point", xi[0],xi[1],xi[2] );
      // inside of the element: solve for the reference coordinates
      V3 b = qq - a.o; double A[3][4]; for( int i = 0; i < 3; i++ ) { for( int j = 0; j < 3; j++ ) A[i][j] = a.e[j][i]; A[i][3] = b[i]; } if( e.nd < 3 ) A[2][3] = 0; if( e.nd < 2 ) A[1][3] = 0;
      for( int i = 0; i < 3; i++ ) { int pv = i; for( int j = i; j < 3; j++ ) if( std::fabs(A[j][i]) > std::fabs(A[pv][i]) ) pv = j; std::swap(A[i],A[pv]); for( int j = 0; j < 3; j++ ) if( j != i ) { double f = A[j][i]/A[i][i]; for( int l = 0; l < 4; l++ ) A[j][l] -= f*A[i][l]; } }
      double z[3]; double mm = 1e9, ss = 0; for( int d = 0; d < e.nd; d++ ) { z[d] = A[d][3]/A[d][d]; ss += z[d]; mm = std::min(mm,z[d]); if( !simplex ) mm = std::min(mm,1-z[d]); } if( simplex ) mm = std::min(mm,1-ss);
      check( mm > -1e-7, fmt("geom/%s/closestPointInside",nm(t)), "the closest point of (%g,%g,%g) is outside of the element, margin %g", xi[0],xi[1],xi[2],mm );
      if( m > 0 ) check( len(qq-p) <= 1e-9*e.size, fmt("geom/%s/closestPointIdentity",nm(t)), "a point inside of the element is moved" );
      stat("eval_inside",2);
    }
  }
}
static void quad( Rng & r ) {
  for( t_entityType t: TS ) {
    Aff a; El e = randEl(r,t,&a); int o = r.i(1, t==HEX8R||t==TET4 ? 6 : 9); bool ref = r.p(0.5);
    if( ref ) { a = Aff{ {{0,0,0}}, { {{1,0,0}},{{0,1,0}},{{0,0,1}} } }; e.v = refVe(t); for( int d = 0; d < 3; d++ ) for( int v = 0; v < e.nv; v++ ) e.soa[d*e.nv+v] = e.v[v][d]; }
    if( t == QUAD4R && !ref && r.p(0.5) ) continue;
    std::vector<double> X,Y,Z,W; edge::dg::QuadraturePoints::getQpts( t, o, e.soa.data(), X,Y,Z,W );
    std::size_t n = 1; for( int d = 0; d < e.nd; d++ ) n *= o;
    if( !check( X.size()==n && Y.size()==n && Z.size()==n && W.size()==n, fmt("quad/%s/size",nm(t)), "%zu points for order %d", W.size(), o ) ) continue;
    double det = t==LINE ? a.e[0][0] : e.nd==2 ? a.e[0][0]*a.e[1][1]-a.e[0][1]*a.e[1][0] : dot(a.e[0],cross(a.e[1],a.e[2]));
    // exact for polynomials (in reference coordinates): per dimension 2n-1, collapsed coordinates 2n-2/2n-3 in total
    for( int k = 0; k < 4; k++ ) {
      int A=0,B=0,C=0;
      if( t==TRIA3 ) { int tot = r.i(0,2*o-2); A = r.i(0,tot); B = tot-A; }
      else if( t==TET4 ) { int tot = std::max(0,(int)r.i(0,std::max(0,2*o-3))); A = r.i(0,tot); B = r.i(0,tot-A); C = tot-A-B; if( o == 1 ) A=B=C=0; }
      else { A = r.i(0,2*o-1); if( e.nd > 1 ) B = r.i(0,2*o-1); if( e.nd > 2 ) C = r.i(0,2*o-1); }
      if( o == 1 && t==TET4 ) continue; // a single point is not exact in collapsed coordinates
      double s = 0;
      for( std::size_t q = 0; q < n; q++ ) {
        V3 x = {{X[q],Y[q],Z[q]}}, b = x - a.o; double M[3][4]; for( int i = 0; i < 3; i++ ) { for( int j = 0; j < 3; j++ ) M[i][j] = a.e[j][i]; M[i][3] = i<e.nd ? b[i] : 0; }
        for( int i = 0; i < 3; i++ ) { int pv = i; for( int j = i; j < 3; j++ ) if( std::fabs(M[j][i]) > std::fabs(M[pv][i]) ) pv = j; std::swap(M[i],M[pv]); for( int j = 0; j < 3; j++ ) if( j != i ) { double f = M[j][i]/M[i][i]; for( int l = 0; l < 4; l++ ) M[j][l] -= f*M[i][l]; } }
        V3 xi = {{M[0][3]/M[0][0],M[1][3]/M[1][1],M[2][3]/M[2][2]}}; double mm = 1, ss = 0; for( int d = 0; d < e.nd; d++ ) { mm = std::min(mm,xi[d]); mm = std::min(mm,1-xi[d]); ss += xi[d]; } if( t==TRIA3||t==TET4 ) mm = std::min(mm,1-ss);
        check( mm > -1e-9 && W[q] > 0, fmt("quad/%s/inside",nm(t)), "quadrature point (%g,%g,%g) with weight %g is outside of the element", xi[0],xi[1],xi[2],W[q] );
        s += W[q]*mono(xi,A,B,C);
      }
      check( rel(s,det*refInt(t,A,B,C),1e-8), fmt("quad/%s/exact",nm(t)), "order %d: integral of x^%d y^%d z^%d is %.12g instead of %.12g", o,A,B,C,s,det*refInt(t,A,B,C) );
      stat("eval_quadrature"); sig( fmt("q/%s/%d/%d%d%d",nm(t),o,A,B,C) );
    }
  }
}
static void series( Rng & r ) {
  int n = r.i(2,12); double dx = std::pow(10.0,r.r(-3,1)), x0 = r.r(-5,5)*dx; std::vector<double> v( n*2 ); for( auto & x: v ) x = r.r(-2,2);
  double na = r.p(0.7) ? 0 : r.r(-1,1);
  // piecewise linear inside, na outside
  auto F = [&]( double x, int s ) { // integral of the function from far left
    double L = x0-100*dx; if( x <= x0 ) return na*(x-L);
    double y = na*(x0-L);
    for( int i = 0; i+1 < n; i++ ) { double a = x0+i*dx, b = a+dx; if( x <= a ) break; double e = std::min(b,x); double va = v[i*2+s], ve = va + (v[(i+1)*2+s]-va)*(e-a)/dx; y += 0.5*(va+ve)*(e-a); }
    double end = x0+(n-1)*dx; if( x > end ) y += na*(x-end);
    return y; };
  for( int k = 0; k < 6; k++ ) {
    double a = x0 + dx*( r.p(0.3) ? (double) r.i(-3,n+2) : r.r(-3,n+2) ), b;
    if( r.p(0.5) ) b = a + dx*r.r(0,1.2); else if( r.p(0.3) ) b = x0 + dx*r.i(-3,n+2); else b = a + dx*r.r(0,n+2);
    if( b < a ) std::swap(a,b);
    double o[2]; Series<2>::integrate( dx, x0, (std::size_t)n, (double const (*)[2]) v.data(), a, b, o, na );
    for( int s = 0; s < 2; s++ ) check( near(o[s],F(b,s)-F(a,s),1e-9,dx*n+1e-3), "series/integrate", "%d samples, dx=%g: integral over [%g,%g] (in samples) is %g instead of %g", n, dx, (a-x0)/dx, (b-x0)/dx, o[s], F(b,s)-F(a,s) );
    stat("eval_series"); sig( fmt("s/%d/%d",(int)std::floor((a-x0)/dx),(int)std::floor((b-x0)/dx)) );
  }
  // additive
  double a = x0+dx*r.r(-2,n+1), c = x0+dx*r.r(-2,n+1); if( c < a ) std::swap(a,c); int m = r.i(2,7); double t[2]={0,0}, o[2];
  for( int i = 0; i < m; i++ ) { double s0 = a+(c-a)*i/m, s1 = i==m-1 ? c : a+(c-a)*(i+1)/m; Series<2>::integrate( dx, x0, (std::size_t)n, (double const (*)[2]) v.data(), s0, s1, o, na ); t[0]+=o[0]; t[1]+=o[1]; }
  Series<2>::integrate( dx, x0, (std::size_t)n, (double const (*)[2]) v.data(), a, c, o, na );
  check( near(o[0],t[0],1e-8,dx*n+1e-3) && near(o[1],t[1],1e-8,dx*n+1e-3), "series/additive", "%d pieces sum up to %g instead of %g", m, t[0], o[0] );
  stat("eval_series");
}
template<unsigned short D> static void halfSpaces( Rng & r ) {
  std::vector< std::pair<V3,V3> > hs; Domain<double,D,HalfSpace> dom; int n = r.i(0,4);
  for( int i = 0; i < n; i++ ) { V3 o,nn; do { for( int d = 0; d < 3; d++ ) { o[d] = r.r(-1,1); nn[d] = d<D ? r.wild(-1,2) : 0; } } while( len(nn) < 1e-3 ); hs.push_back({o,nn}); double oo[D], n2[D]; for( int d = 0; d < D; d++ ) { oo[d]=o[d]; n2[d]=nn[d]; } HalfSpace<double,D> h(oo,n2); dom.add(h); }
  for( int k = 0; k < 8; k++ ) {
    V3 p; for( int d = 0; d < 3; d++ ) p[d] = d<D ? r.r(-2,2) : 0; bool in = true, amb = false;
    for( auto & h: hs ) { double s = 0; for( int d = 0; d < D; d++ ) s += (p[d]-h.first[d])*h.second[d]; s /= len(h.second); if( std::fabs(s) < 1e-5 ) amb = true; in = in && s > 0; }
    if( amb ) continue;
    double pp[D]; for( int d = 0; d < D; d++ ) pp[d] = p[d];
    check( dom.inside(pp) == in, fmt("domain/%d",D), "point (%g,%g,%g) and %d half-spaces: inside is %d", p[0],p[1],p[2],n,(int)dom.inside(pp) );
    stat("eval_domain");
  }
  if( !hs.empty() ) { // the hyperplane is included by default and excluded for a positive tolerance
    double o[D], nn[D]; for( int d = 0; d < D; d++ ) { o[d]=hs[0].first[d]; nn[d]=hs[0].second[d]; } HalfSpace<double,D> h(o,nn);
    check( h.inside(o) && !h.inside(o,1e-6), fmt("domain/%d/plane",D), "the origin of a half-space is inside by default only" ); dom.clear(); check( dom.inside(o), fmt("domain/%d/empty",D), "empty domain" ); stat("eval_domain"); }
}
static LD detN( std::vector<std::vector<LD>> a ) { int n = a.size(); LD d = 1; for( int i = 0; i < n; i++ ) { int p = i; for( int j = i; j < n; j++ ) if( fabsl(a[j][i]) > fabsl(a[p][i]) ) p = j; if( a[p][i] == 0 ) return 0; if( p != i ) { std::swap(a[p],a[i]); d = -d; } d *= a[i][i]; for( int j = i+1; j < n; j++ ) { LD f = a[j][i]/a[i][i]; for( int k = i; k < n; k++ ) a[j][k] -= f*a[i][k]; } } return d; }
static void matrices( Rng & r ) {
  double s = std::pow(10.0,r.r(-1,2)); double a[4][4]; for( auto & x: a ) for( double & y: x ) y = r.p(0.15) ? 0 : r.r(-1,1)*s;
  auto D = [&]( int n ) { std::vector<std::vector<LD>> v(n,std::vector<LD>(n)); for( int i = 0; i < n; i++ ) for( int j = 0; j < n; j++ ) v[i][j] = a[i][j]; return (double) detN(v); };
  double a2[2][2], a3[3][3]; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { a3[i][j] = a[i][j]; if( i<2 && j<2 ) a2[i][j] = a[i][j]; }
  check( near(Matrix::det(a2),D(2),1e-10,s*s) && near(Matrix::det(a3),D(3),1e-10,s*s*s) && near(Matrix::det(a),D(4),1e-10,s*s*s*s), "matrix/det", "determinants %g %g %g instead of %g %g %g", Matrix::det(a2),Matrix::det(a3),Matrix::det(a),D(2),D(3),D(4) );
  double i2[2][2], i3[3][3];
  if( std::fabs(D(2)) > 1e-2*s*s ) { Matrix::inv(a2,i2); double e = 0; for( int i = 0; i < 2; i++ ) for( int j = 0; j < 2; j++ ) { double x = 0; for( int k = 0; k < 2; k++ ) x += a2[i][k]*i2[k][j]; e = std::max(e,std::fabs(x-(i==j))); } check( e < 1e-9, "matrix/inv2", "A*inv(A) is off by %g", e ); }
  if( std::fabs(D(3)) > 1e-2*s*s*s ) { Matrix::inv(a3,i3); double e = 0; for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) { double x = 0; for( int k = 0; k < 3; k++ ) x += a3[i][k]*i3[k][j]; e = std::max(e,std::fabs(x-(i==j))); } check( e < 1e-8, "matrix/inv3", "A*inv(A) is off by %g", e ); }
  stat("eval_matrix",5);
}
struct Ch { double coords[3]; };
static void ptToEn( Rng & r ) {
  for( t_entityType t: {TRIA3,TET4,QUAD4R,HEX8R} ) {
    int nd = C_ENT[t].N_DIM, nv = C_ENT[t].N_VERTICES; int n = r.i(1,6); std::vector<Ch> ve; std::vector<int> ev; std::vector<El> es;
    double sz = 1; for( int i = 0; i < n; i++ ) { El e = randEl(r,t); double s0 = e.size; for( auto & v: e.v ) for( int d = 0; d < nd; d++ ) v[d] = v[d]/s0; for( auto & x: e.soa ) x /= s0; es.push_back(e); for( int v = 0; v < nv; v++ ) { Ch c; for( int d = 0; d < 3; d++ ) c.coords[d] = d<nd ? e.v[v][d] : 0; ev.push_back( ve.size() ); ve.push_back(c); } }
    int m = r.i(1,5); std::vector<double> p(m*3); for( int i = 0; i < m; i++ ) for( int d = 0; d < 3; d++ ) p[i*3+d] = d<nd ? r.r(-7,7) : 0;
    std::vector<int> de(m,-7); int own = edge::data::SparseEntities::ptToEn( t, m, (double const (*)[3]) p.data(), n, ev.data(), ve.data(), de.data() );
    check( own == m, fmt("ptToEn/%s/count",nm(t)), "%d of %d points are owned", own, m );
    for( int i = 0; i < m; i++ ) {
      auto dist = [&]( int k ) { double q[3] = {p[i*3],p[i*3+1],p[i*3+2]}; Geom::closestPoint( t, es[k].soa.data(), q ); double s = 0; for( int d = 0; d < nd; d++ ) s += (q[d]-p[i*3+d])*(q[d]-p[i*3+d]); return std::sqrt(s); };
      if( !check( de[i] >= 0 && de[i] < n, fmt("ptToEn/%s/range",nm(t)), "entity %d", de[i] ) ) continue;
      double mn = 1e30; for( int k = 0; k < n; k++ ) mn = std::min(mn,dist(k));
      check( dist(de[i]) <= mn+1e-9*sz, fmt("ptToEn/%s",nm(t)), "entity %d has distance %g, the closest one %g", de[i], dist(de[i]), mn ); stat("eval_ptToEn");
    }
  }
}
VH_MAIN {
  for( long i = 0; i < n; i++ ) {
    Rng r( seed*1000003+i );
    shape(r); mappings(r); geom(r); inside(r); quad(r); series(r); halfSpaces<1>(r); halfSpaces<2>(r); halfSpaces<3>(r); matrices(r); ptToEn(r);
  }
}
