// C09: f-wave solver, net-updates over random meshes, updates, time steps of the shallow water equations.
#include "vh.hpp"
#include <limits>
#include <array>
#define private public
#include "constants.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
#undef private
using namespace vh;
static double const G = 9.80665;

template<class R, unsigned short C> void fwave( Rng & r, double tol ) {
  using F = edge::swe::solvers::Fwave<C>;
  R hL[C], hR[C], huL[C], huR[C], nL[2][C], nR[2][C];
  int kind = r.i(0,5);
  R bL = r.p(0.3) ? 0 : (R) r.r(-100,0), bR = r.p(0.3) ? bL : (R)( r.p(0.5) ? bL+r.r(-1,1) : r.r(-100,0) );
  for( int c = 0; c < C; c++ ) {
    hL[c] = std::fabs( r.wild(-2,3) ); hR[c] = r.p(0.3) ? hL[c] : (R)( r.p(0.5) ? hL[c]*r.r(0.5,2) : std::fabs(r.wild(-2,3)) );
    double cL = std::sqrt(G*hL[c]), cR = std::sqrt(G*hR[c]);
    double f = kind == 1 ? 4 : 1.2;
    huL[c] = hL[c]*cL*r.r(-f,f); huR[c] = r.p(0.2) ? huL[c] : (R)(hR[c]*cR*r.r(-f,f));
    if( kind == 2 ) { hR[c] = hL[c]; huR[c] = huL[c]; bR = bL; }
    if( kind == 3 ) { huL[c] = huR[c] = 0; double e = r.i(0,20); bL = -(R)r.i(1,64); if( !c ) bR = -(R)r.i(1,64); hL[c] = e-bL; hR[c] = e-bR; }
    if( kind == 4 ) { hR[c] = hL[c]; huR[c] = -huL[c]; bR = bL; }
    if( kind == 5 ) { // both supercritical, same direction
      double s = r.p(0.5) ? 1 : -1; double u = s*(3*std::max(cL,cR)+r.r(0,10)); huL[c] = hL[c]*u; huR[c] = hR[c]*u*r.r(1,1.5); }
  }
  if( kind == 3 ) for( int c = 0; c < C; c++ ) { double e = r.i(0,20); hL[c] = e-bL; hR[c] = e-bR; }
  F::nusN( hL, hR, huL, huR, bL, bR, nL, nR );
  stat("eval_fwave", C); sig( fmt("fw %d %d %d", kind, (int) C, (int) sizeof(R)) );
  for( int c = 0; c < C; c++ ) {
    double uL = (double) huL[c]/hL[c], uR = (double) huR[c]/hR[c];
    double f1 = (double) huR[c]-huL[c], pL = uL*huL[c]+0.5*G*hL[c]*hL[c], pR = uR*huR[c]+0.5*G*hR[c]*hR[c], src = 0.5*G*((double)hL[c]+hR[c])*((double)bR-bL);
    double f2 = pR-pL+src, s1 = std::fabs(huL[c])+std::fabs(huR[c]), s2 = pL+pR+std::fabs(src), sp = std::fabs(uL)+std::fabs(uR)+std::sqrt(G*std::max(hL[c],hR[c]));
    std::string in = fmt( "h %.9g %.9g hu %.9g %.9g b %.9g %.9g run %d/%d", (double) hL[c], (double) hR[c], (double) huL[c], (double) huR[c], (double) bL, (double) bR, c, C );
    // sizes of the waves bound the rounding errors; the speeds differ by at least twice the celerity of the average
    double dl = 2*std::sqrt(G*0.5*((double)hL[c]+hR[c])); double b1 = s1 + (sp*s1+s2)/dl, b2 = s2 + sp*b1;
    check( near( (double) nL[0][c]+nR[0][c], f1, tol, b1 ), "fwave-conservation-h", "%s: %g+%g != %g", in.c_str(), (double) nL[0][c], (double) nR[0][c], f1 );
    check( near( (double) nL[1][c]+nR[1][c], f2, tol, b2 ), "fwave-conservation-hu", "%s: %g+%g != %g", in.c_str(), (double) nL[1][c], (double) nR[1][c], f2 );
    if( kind == 2 || kind == 3 ) for( int q = 0; q < 2; q++ ) {
      double s = kind == 3 ? (q?s2:s2/dl) : (q?b2:b1);
      check( near( nL[q][c], 0, tol, s ) && near( nR[q][c], 0, tol, s ), kind == 2 ? "fwave-constant" : "fwave-lake-at-rest", "%s: updates %g %g", in.c_str(), (double) nL[q][c], (double) nR[q][c] ); }
    // reference: Einfeldt speeds, f-waves
    double hr = 0.5*((double)hL[c]+hR[c]), ur = (std::sqrt((double)hL[c])*uL+std::sqrt((double)hR[c])*uR)/(std::sqrt((double)hL[c])+std::sqrt((double)hR[c])), cr = std::sqrt(G*hr);
    double l[2] = { std::min(uL-std::sqrt(G*hL[c]),ur-cr), std::max(uR+std::sqrt(G*hR[c]),ur+cr) };
    double b[2] = { (l[1]*f1-f2)/(l[1]-l[0]), (f2-l[0]*f1)/(l[1]-l[0]) }, eL[2] = {}, eR[2] = {};
    bool clear = std::fabs(l[0]) > 1e-3*sp && std::fabs(l[1]) > 1e-3*sp; // direction of the waves not a matter of rounding
    for( int w = 0; w < 2; w++ ) { double * t = l[w] < 0 ? eL : eR; t[0] += b[w]; t[1] += b[w]*l[w]; }
    if( clear ) for( int q = 0; q < 2; q++ ) check( near( nL[q][c], eL[q], tol*10, q?b2:b1 ) && near( nR[q][c], eR[q], tol*10, q?b2:b1 ), "fwave-upwind", "%s: quantity %d, updates %g %g, expected %g %g", in.c_str(), q, (double) nL[q][c], (double) nR[q][c], eL[q], eR[q] );
    // independence of the fused runs
    R a[2], bb[2], ol[2][1], orr[2][1]; a[0]=hL[c]; a[1]=hR[c]; bb[0]=huL[c]; bb[1]=huR[c];
    edge::swe::solvers::Fwave<1>::nusN( a, a+1, bb, bb+1, bL, bR, ol, orr );
    for( int q = 0; q < 2; q++ ) check( near( ol[q][0], nL[q][c], tol, q?b2:b1 ) && near( orr[q][0], nR[q][c], tol, q?b2:b1 ), "fwave-fused", "%s", in.c_str() );
    // mirrored problem
    bb[0] = -huL[c]; bb[1] = -huR[c]; R ml[2][1], mr[2][1];
    edge::swe::solvers::Fwave<1>::nusN( a+1, a, bb+1, bb, bR, bL, ml, mr );
    if( clear ) for( int q = 0; q < 2; q++ ) { // the momentum changes its sign
      check( near( ml[q][0], q ? -(double)nR[q][c] : nR[q][c], tol*10, q?b2:b1 ) && near( mr[q][0], q ? -(double)nL[q][c] : nL[q][c], tol*10, q?b2:b1 ), "fwave-mirror", "%s quantity %d: %g %g vs %g %g", in.c_str(), q, (double) ml[q][0], (double) mr[q][0], (double) nR[q][c], (double) nL[q][c] ); }
  }
}

struct CF { double area; double outNormal[2]; int_spType spType; };
struct CE { double volume, inDia; };

// random mesh of a rectangle (structured, vertices moved), as triangles or quads, or a line
template< t_entityType EL > struct M {
  static const int ND = C_ENT[EL].N_DIM, NF = C_ENT[EL].N_FACES;
  std::vector< std::array<std::size_t,2> > faEl; std::vector< std::array<std::size_t,NF> > elFa; std::vector<CF> cf; std::vector<CE> ce; std::vector< std::array<double,2> > cen; int nPer = 0;
  int nx, ny;
  void build( Rng & r, int bnd[2] ) { // bnd: 0 periodic, else a sparse type
    nx = r.i(3,9); ny = ND == 1 ? 1 : r.i(3,7); double dx = r.r(0.5,3), dy = ND == 1 ? 1 : r.r(0.5,3), mv = EL == TRIA3 ? 0.2 : 0;
    std::vector< std::array<double,2> > mvv( (nx+1)*(ny+1) ); // movement of the vertices, equal at periodic images
    for( int y = 0; y <= ny; y++ ) for( int x = 0; x <= nx; x++ ) { mvv[y*(nx+1)+x] = { dx*r.r(-mv,mv), dy*r.r(-mv,mv) }; if( x == nx ) mvv[y*(nx+1)+x] = mvv[y*(nx+1)]; if( y == ny ) mvv[y*(nx+1)+x] = mvv[x]; if( x == nx && y == ny ) mvv[y*(nx+1)+x] = mvv[0]; }
    double th = ND == 1 ? 0 : r.r(0,6.28); // rotated domain
    auto ve = [&]( int x, int y ) { std::array<double,2> p = { x*dx, y*dy }; auto & m = mvv[y*(nx+1)+x]; p[0]+=m[0]; p[1]+=m[1]; return std::array<double,2>{ p[0]*cos(th)-p[1]*sin(th), p[0]*sin(th)+p[1]*cos(th) }; };
    struct T { std::vector< std::array<int,2> > v; };
    std::vector<T> els; auto ad = [&]( std::vector< std::array<int,2> > const & v ) { T t; t.v = v; els.push_back(t); };
    for( int y = 0; y < ny; y++ ) for( int x = 0; x < nx; x++ ) {
      if( ND == 1 ) ad( {{{x,0}},{{x+1,0}}} );
      else if( EL == QUAD4R ) ad( {{{x,y}},{{x+1,y}},{{x+1,y+1}},{{x,y+1}}} );
      else if( r.p(0.5) ) { ad( {{{x,y}},{{x+1,y}},{{x+1,y+1}}} ); ad( {{{x,y}},{{x+1,y+1}},{{x,y+1}}} ); }
      else { ad( {{{x,y}},{{x+1,y}},{{x,y+1}}} ); ad( {{{x+1,y}},{{x+1,y+1}},{{x,y+1}}} ); }
    }
    r.shuffle( els );
    std::map< std::vector<int>, std::size_t > ids; elFa.resize( els.size() ); ce.resize( els.size() ); cen.resize( els.size() );
    for( std::size_t e = 0; e < els.size(); e++ ) {
      auto & v = els[e].v; int n = v.size(); double a = 0, per = 0; cen[e] = {0,0};
      for( int k = 0; k < n; k++ ) { auto p = ve(v[k][0],v[k][1]), q = ve(v[(k+1)%n][0],v[(k+1)%n][1]); a += 0.5*(p[0]*q[1]-p[1]*q[0]); per += std::hypot(p[0]-q[0],p[1]-q[1]); cen[e][0] += p[0]/n; cen[e][1] += p[1]/n; }
      if( ND == 1 ) a = std::fabs( ve(v[1][0],0)[0]-ve(v[0][0],0)[0] );
      ce[e].volume = a; ce[e].inDia = ND == 1 ? a : 4*a/per; if( EL == QUAD4R ) ce[e].inDia = std::min(dx,dy);
      int s = r.i(0,NF-1);
      for( int f = 0; f < NF; f++ ) {
        int k = (f+s)%NF; std::array<int,2> p = v[k], q = ND == 1 ? v[k] : v[(k+1)%n];
        std::vector<int> key; bool onB[2] = { p[0]==q[0] && (p[0]==0||p[0]==nx), ND > 1 && p[1]==q[1] && (p[1]==0||p[1]==ny) };
        for( auto w: {p,q} ) { int x = w[0], y = w[1]; if( onB[0] && !bnd[0] ) x %= nx; if( onB[1] && !bnd[1] ) y %= ny; key.push_back( y*100+x ); }
        if( key[0] > key[1] ) std::swap( key[0], key[1] );
        auto it = ids.find( key );
        if( it == ids.end() ) {
          std::size_t id = faEl.size(); ids[key] = id; faEl.push_back( {e, std::numeric_limits<std::size_t>::max()} ); elFa[e][f] = id;
          CF c; auto P = ve(p[0],p[1]), Q = ve(q[0],q[1]); double l = ND == 1 ? 1 : std::hypot(Q[0]-P[0],Q[1]-P[1]); c.area = l;
          if( ND == 1 ) { c.outNormal[0] = k == 0 ? -1 : 1; c.outNormal[1] = 0; } else { c.outNormal[0] = (Q[1]-P[1])/l; c.outNormal[1] = -(Q[0]-P[0])/l; }
          c.spType = 0; for( int d = 0; d < 2; d++ ) if( onB[d] && bnd[d] ) c.spType = bnd[d];
          cf.push_back( c );
        } else { faEl[it->second][1] = e; elFa[e][f] = it->second; }
      }
    }
    // other orientation of some inner faces
    for( std::size_t f = 0; f < faEl.size(); f++ ) if( faEl[f][1] != std::numeric_limits<std::size_t>::max() && r.p(0.5) ) { std::swap( faEl[f][0], faEl[f][1] ); for( int d = 0; d < 2; d++ ) cf[f].outNormal[d] *= -1; }
  }
};

template< t_entityType EL, class R, unsigned short C > void mesh( Rng & r, double tol ) {
  using FV = edge::swe::solvers::FiniteVolume<EL,C>; M<EL> m; const int ND = m.ND, NQ = ND+1;
  int per = r.i(0,2); int bnd[2]; for( int d = 0; d < 2; d++ ) bnd[d] = per == 0 ? 0 : ( per == 1 ? REFLECTING : (r.p(0.5) ? REFLECTING : (r.p(0.5) ? OUTFLOW : 0)) ) ;
  if( per != 0 && r.p(0.3) ) bnd[0] |= bnd[0] ? 1 : 0; // further bits of the sparse type don't matter
  m.build( r, bnd ); std::size_t nE = m.ce.size(), nF = m.faEl.size();
  int kind = r.i(0,3); // 0: lake at rest, 1: waves over bathymetry, 2: flat bathymetry, 3: constant stream
  typedef R D[ C_ENT[EL].N_DIM == 1 ? 2 : 3 ][1][C]; typedef R B[1][1]; typedef R N[2][2][C]; typedef std::size_t E[2]; typedef std::size_t F[ C_ENT[EL].N_FACES ];
  std::vector<R> dofsV( nE*NQ*C ), bathV( nE ), nusV( nF*4*C, 1e9 ); D * dofs = (D*) dofsV.data(); B * bath = (B*) bathV.data(); N * nus = (N*) nusV.data();
  E const * faEl = (E const*) m.faEl.data(); F const * elFa = (F const *) m.elFa.data();
  double eta[C]; for( int c = 0; c < C; c++ ) eta[c] = r.i(0,4); bool dry = kind < 2 && r.p(0.6); double h0 = r.r(1,50);
  double U[2] = { r.r(-3,3), r.r(-3,3) };
  for( std::size_t e = 0; e < nE; e++ ) {
    bath[e][0][0] = kind >= 2 ? -h0 : -(R)r.i(8,64); if( dry && r.p(0.25) ) bath[e][0][0] = r.p(0.5) ? 0 : r.r(0,10);
    for( int c = 0; c < C; c++ ) { bool d = bath[e][0][0] >= 0;
      dofs[e][0][0][c] = d ? 0 : ( kind == 0 ? eta[c]-bath[e][0][0] : kind == 1 ? -bath[e][0][0]+r.r(-2,2) : kind == 2 ? h0*r.r(0.01,2) : h0 );
      for( int q = 1; q < NQ; q++ ) dofs[e][q][0][c] = d || kind == 0 ? 0 : kind == 3 ? h0*U[q-1] : dofs[e][0][0][c]*r.r(-1,1)*(kind==2?std::sqrt(G*h0):3); }
  }
  std::vector<R> dofs0 = dofsV; D * d0 = (D*) dofs0.data();
  // net-updates in two pieces
  std::size_t cut = r.i(0,nF);
  FV::nusN( std::size_t(0), cut, faEl, m.cf.data(), dofs, bath, nus ); FV::nusN( cut, nF-cut, faEl, m.cf.data(), dofs, bath, nus );
  // largest stable step of the reference: sum of face areas times wave speed
  double dt = 1e9, smax = 0;
  smax = 0; for( std::size_t e = 0; e < nE; e++ ) for( int c = 0; c < C; c++ ) { double h = dofs[e][0][0][c]; if( h <= 0 ) continue; smax = std::max( smax, std::hypot( (double) dofs[e][1][0][c], ND > 1 ? (double) dofs[e][NQ-1][0][c] : 0. )/h ); }
  double hm = 0; for( std::size_t e = 0; e < nE; e++ ) for( int c = 0; c < C; c++ ) hm = std::max( hm, (double) dofs[e][0][0][c] );
  smax += std::sqrt( G*hm );
  for( std::size_t e = 0; e < nE; e++ ) { double ar = 0; for( int f = 0; f < m.NF; f++ ) ar += m.cf[elFa[e][f]].area; dt = std::min( dt, m.ce[e].volume/(ar*smax) ); }
  dt *= r.r(0.5,0.999);
  stat("eval_mesh", nE*C); sig( fmt("mesh %d %d %d %d %d %d", (int) EL, (int) C, kind, dry, bnd[0], bnd[1]) );
  std::string in = fmt("el %d, %zu elements, %d runs, kind %d, dry %d, boundaries %d %d", (int) EL, nE, (int) C, kind, dry, bnd[0], bnd[1]);
  cut = r.i(0,nE);
  // sides of faces next to dry elements: no updates for the dry one, wall for the wet one
  double hS = hm, huS = hm*smax, pS = huS*smax;
  for( std::size_t f = 0; f < nF; f++ ) for( int sd = 0; sd < 2; sd++ ) { std::size_t a = faEl[f][sd]; bool gd = a >= nE ? bath[faEl[f][0]][0][0] >= 0 : bath[a][0][0] >= 0;
    if( gd ) for( int q = 0; q < 2; q++ ) for( int c = 0; c < C; c++ ) check( nus[f][sd][q][c] == 0, "dry-update", "%s: update of a dry element", in.c_str() ); }
  FV::update( std::size_t(0), cut, R(dt), faEl, elFa, m.cf.data(), m.ce.data(), (N const*) nus, dofs ); FV::update( cut, nE-cut, R(dt), faEl, elFa, m.cf.data(), m.ce.data(), (N const*) nus, dofs );
  bool closed = true; for( std::size_t f = 0; f < nF; f++ ) if( m.cf[f].spType & OUTFLOW & ~REFLECTING ) if( (m.cf[f].spType & OUTFLOW) == OUTFLOW && (m.cf[f].spType & REFLECTING) != REFLECTING ) closed = false;
  for( int c = 0; c < C; c++ ) {
    double v0 = 0, v1 = 0, mo0[2] = {}, mo1[2] = {};
    for( std::size_t e = 0; e < nE; e++ ) { v0 += d0[e][0][0][c]*m.ce[e].volume; v1 += dofs[e][0][0][c]*m.ce[e].volume; for( int q = 1; q < NQ; q++ ) { mo0[q-1] += d0[e][q][0][c]*m.ce[e].volume; mo1[q-1] += dofs[e][q][0][c]*m.ce[e].volume; } }
    if( closed ) check( rel( v0, v1, tol*50 ), "mass", "%s, run %d: volume of water %.15g -> %.15g", in.c_str(), c, v0, v1 );
    // no external forces: flat bottom, periodic
    if( EL != TRIA3 && kind >= 2 && !bnd[0] && (ND == 1 || !bnd[1]) && !dry ) for( int d = 0; d < ND; d++ ) check( near( mo0[d], mo1[d], tol*100, v0*smax ), "momentum", "%s, run %d: momentum %.15g -> %.15g", in.c_str(), c, mo0[d], mo1[d] );
    for( std::size_t e = 0; e < nE; e++ ) {
      if( kind == 0 || bath[e][0][0] >= 0 ) for( int q = 0; q < NQ; q++ ) check( near( dofs[e][q][0][c], d0[e][q][0][c], tol*50, q ? huS : hS ), kind == 0 ? "lake-at-rest" : "dry-element", "%s, run %d: quantity %d %.9g -> %.9g", in.c_str(), c, q, (double) d0[e][q][0][c], (double) dofs[e][q][0][c] );
      if( kind == 3 && ( !bnd[0] || (bnd[0]&REFLECTING) != REFLECTING ) && ( ND == 1 || !bnd[1] || (bnd[1]&REFLECTING) != REFLECTING ) ) for( int q = 0; q < NQ; q++ ) check( near( dofs[e][q][0][c], d0[e][q][0][c], tol*50, q ? huS : hS ), "constant-stream", "%s, run %d: quantity %d %.9g -> %.9g", in.c_str(), c, q, (double) d0[e][q][0][c], (double) dofs[e][q][0][c] );
      // independent update from the net-updates of the f-wave solver with ghost states
      double ref[3] = { (double) d0[e][0][0][c], (double) d0[e][1][0][c], ND > 1 ? (double) d0[e][NQ-1][0][c] : 0. };
      bool edry = bath[e][0][0] >= 0;
      for( int f = 0; f < m.NF && !edry; f++ ) { CF & cf = m.cf[elFa[e][f]]; std::size_t fa = elFa[e][f]; int sd = faEl[fa][0] == e ? 0 : 1; std::size_t o = faEl[fa][1-sd]; double sg = sd ? -1 : 1;
        double s[2][3]; double n[2] = { sg*cf.outNormal[0], sg*cf.outNormal[1] };
        auto st = [&]( std::size_t x, double * v ) { v[0] = d0[x][0][0][c]; v[1] = n[0]*d0[x][1][0][c] + (ND>1 ? n[1]*d0[x][NQ-1][0][c] : 0); v[2] = bath[x][0][0]; };
        st( e, s[0] ); if( o >= nE || bath[o][0][0] >= 0 ) { bool refl = o < nE || (cf.spType & OUTFLOW) != OUTFLOW; s[1][0] = s[0][0]; s[1][1] = refl ? -s[0][1] : s[0][1]; s[1][2] = s[0][2]; } else st( o, s[1] );
        double h[2] = {s[0][0],s[1][0]}, hu[2] = {s[0][1],s[1][1]}, l[2][1], rr[2][1];
        edge::swe::solvers::Fwave<1>::nusN( h, h+1, hu, hu+1, s[0][2], s[1][2], l, rr );
        double k = dt*cf.area/m.ce[e].volume; ref[0] -= k*l[0][0]; for( int d = 0; d < ND; d++ ) ref[1+d] -= k*n[d]*l[1][0]; }
      for( int q = 0; q < NQ; q++ ) check( near( dofs[e][q][0][c], ref[q], tol*500, q ? huS : hS ), "update", "%s, run %d, element %zu: quantity %d %.9g -> %.9g, expected %.9g", in.c_str(), c, e, q, (double) d0[e][q][0][c], (double) dofs[e][q][0][c], ref[q] );
    }
  }
  // time steps
  double a, b, g; FV::getTimeStepStatistics( nE, m.ce.data(), (D const *) d0, a, b, g );
  double mi = 1e308*10, ma = 0, av = 0; bool anyDry = false;
  for( std::size_t e = 0; e < nE; e++ ) { double x, y, z; FV::getTimeStepStatistics( std::size_t(1), m.ce.data()+e, (D const *)(d0+e), x, y, z ); mi = std::min(mi,x); ma = std::max(ma,x); av += x/nE; if( bath[e][0][0] >= 0 ) { anyDry = true; continue; }
    check( x == y && y == z, "dt-single", "%s: statistics of a single element %g %g %g", in.c_str(), x, y, z );
    for( int c = 0; c < C; c++ ) { double h = d0[e][0][0][c], u = std::hypot( (double) d0[e][1][0][c], ND > 1 ? (double) d0[e][NQ-1][0][c] : 0. )/h;
      check( x > 0 && x*(u+std::sqrt(G*h)) <= m.ce[e].inDia*(1+tol), "dt-cfl", "%s, run %d: time step %g is too large for diameter %g, velocity %g, height %g", in.c_str(), c, x, m.ce[e].inDia, u, h );
      double lim = m.ce[e].inDia/(smax); check( x >= 0.2*lim, "dt-small", "%s: time step %g is far below %g", in.c_str(), x, lim ); } }
  check( a == mi && g == ma && ( anyDry || rel( b, av, 1e-9 ) ), "dt-statistics", "%s: %g %g %g, expected %g %g %g", in.c_str(), a, b, g, mi, av, ma );
}
VH_MAIN { Rng r( seed );
  for( long i = 0; i < n; i++ ) {
    for( int k = 0; k < 20; k++ ) { fwave<double,1>( r, 1e-12 ); fwave<double,4>( r, 1e-12 ); fwave<float,8>( r, 1e-5 ); }
    mesh<LINE,double,1>( r, 1e-12 ); mesh<LINE,float,4>( r, 2e-6 ); mesh<QUAD4R,double,1>( r, 1e-12 ); mesh<QUAD4R,double,8>( r, 1e-12 ); mesh<TRIA3,double,2>( r, 1e-12 ); mesh<TRIA3,double,1>( r, 1e-12 );
  } }
