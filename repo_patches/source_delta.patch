From 67c9ae1c9de6fc780a7f6f090e21bbe5df7fb747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 01/28] add guarded observation points for runtime monitors
 (PP_USE_HOOKS)

---
 src/main.cpp          |  3 +++
 src/monitor/hooks.hpp | 30 ++++++++++++++++++++++++++++++
 src/time/Manager.cpp  | 10 ++++++++++
 3 files changed, 43 insertions(+)
 create mode 100644 src/monitor/hooks.hpp

diff --git a/src/main.cpp b/src/main.cpp
index 0cc6e6f..502fa2a 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -57,6 +57,7 @@ INITIALIZE_EASYLOGGINGPP
 
 #include "monitor/Timer.hpp"
 #include "monitor/instrument.hpp"
+#include "monitor/hooks.hpp"
 
 // include dependencies of the setups
 #if defined PP_T_EQUATIONS_ADVECTION
@@ -332,6 +333,7 @@ l_edgeV.setSpTypes( l_internal.m_vertexChars,
   // write setup
   EDGE_LOG_INFO << "reached synchronization point #0";
   EDGE_LOG_INFO << "  simulation time: " << l_simTime;
+  PP_HOOK_SYNC( 0, l_simTime, l_edgeV, l_internal )
   if( l_config.m_waveFieldInt < l_config.m_endTime ) {
     EDGE_LOG_INFO << "  writing wave field #0";
     l_writer.write( 0 );
@@ -375,6 +377,7 @@ l_edgeV.setSpTypes( l_internal.m_vertexChars,
 
     EDGE_LOG_INFO << "reached synchronization point #" << l_step+1;
     EDGE_LOG_INFO << "  simulation time: " << l_simTime;
+    PP_HOOK_SYNC( l_step+1, l_simTime, l_edgeV, l_internal )
     l_timer.end();
     EDGE_LOG_INFO << "  estimated remaining time: " << (l_endTime / l_simTime - 1.0) * l_timer.elapsed() << " seconds";
     l_timer.start();
diff --git a/src/monitor/hooks.hpp b/src/monitor/hooks.hpp
new file mode 100644
index 0000000..c437644
--- /dev/null
+++ b/src/monitor/hooks.hpp
@@ -0,0 +1,30 @@
+/**
+ * @file This file is part of EDGE.
+ *
+ * @section DESCRIPTION
+ * Observation points for external runtime monitors.
+ * Without PP_USE_HOOKS all of them expand to nothing; with it, the monitor provides edge_hooks.hpp in the include path.
+ **/
+#ifndef EDGE_MONITOR_HOOKS_HPP_
+#define EDGE_MONITOR_HOOKS_HPP_
+
+#ifdef PP_USE_HOOKS
+
+#include "edge_hooks.hpp"
+
+#else
+
+// state at a synchronization point: number of the point, simulation time, mesh, internal data
+#define PP_HOOK_SYNC(step,time,mesh,internal)
+// a worker begins or ends a package of work: time group id, time group, step id, work region, first entity, number of entities
+#define PP_HOOK_WRK_BEG(tgId,tg,step,rgn,first,size)
+#define PP_HOOK_WRK_END(tgId,tg,step,rgn,first,size)
+// a thread polled for work, and got some or not
+#define PP_HOOK_IDLE(work)
+// the time manager begins or ends the simulation of a given amount of time
+#define PP_HOOK_SIM_BEG(time,tgs)
+#define PP_HOOK_SIM_END(time,tgs)
+
+#endif
+
+#endif
diff --git a/src/time/Manager.cpp b/src/time/Manager.cpp
index f418a36..ff12c8d 100644
--- a/src/time/Manager.cpp
+++ b/src/time/Manager.cpp
@@ -25,6 +25,7 @@
 
 #include "Manager.h"
 #include "monitor/instrument.hpp"
+#include "monitor/hooks.hpp"
 
 void edge::time::Manager::schedule() {
 #if defined PP_T_EQUATIONS_ADVECTION
@@ -160,7 +161,9 @@ void edge::time::Manager::compute() {
       else { PP_INSTR_REG_BEG( wrk_rgn_undef, "wrk_rgn_undef" ) }
 #endif
 
+      PP_HOOK_WRK_BEG( l_tg, m_timeGroups[l_tg], l_st, l_id, l_first, l_size )
       m_timeGroups[l_tg]->computeStep( l_st, l_first, l_size, l_enSp, m_recvs );
+      PP_HOOK_WRK_END( l_tg, m_timeGroups[l_tg], l_st, l_id, l_first, l_size )
 
 #ifdef PP_USE_INSTR
       if(      l_id ==  0  ) { PP_INSTR_REG_END( wrk_rgn_0  ) } else if( l_id ==   1  ) { PP_INSTR_REG_END( wrk_rgn_1  ) }
@@ -190,6 +193,8 @@ void edge::time::Manager::compute() {
       m_shared.setStatusTd( parallel::Shared::FIN, l_id );
     }
 
+    PP_HOOK_IDLE( l_wrk )
+
     // non-pure workers are allowed to exit
     if( l_schdCmm == true ) break;
   }
@@ -220,6 +225,8 @@ void edge::time::Manager::simulate( double i_time ) {
   // we are not finished until the scheduling threads decides so
   m_finished = false;
 
+  PP_HOOK_SIM_BEG( i_time, m_timeGroups )
+
   // jump into respective tasks
 #ifdef PP_USE_OMP
 #pragma omp parallel
@@ -229,11 +236,14 @@ void edge::time::Manager::simulate( double i_time ) {
     if( m_shared.isSched() ) schedule();
     if( m_shared.isComm()  ) communicate();
     if( m_shared.isWrk()   ) compute();
+    PP_HOOK_IDLE( false )
   }
 #ifdef PP_USE_OMP
 }
 #endif
 
+  PP_HOOK_SIM_END( i_time, m_timeGroups )
+
   // (re-)balance work regions
   m_shared.balance();
 }
-- 
2.43.0


From 968fdfc9fdd223207f98378b6ce3b29d4c95376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:21 +0000
Subject: [PATCH 02/28] fix: advection steps drop the communication pointers

The casted send and receive pointers were computed but never assigned,
which dereferences a null pointer in MPI-parallel advection runs.
---
 src/impl/advection/inc/time/tgs_steps.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 5c3d9b7..712b979 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -24,7 +24,7 @@
 if( i_step == 0 ) {
   real_base (** l_sendPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
+    l_sendPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->local(  i_first,
                                          i_size,
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
-- 
2.43.0


From f3ef1a692f68ac14eed90ff05a3132285ae8fcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:38 +0000
Subject: [PATCH 03/28] fix: use elastic Lame parameters of remote elements in
 viscoelastic flux solvers

The exchanged background parameters hold the phase Lame parameters, while
those of the local elements are replaced by the elastic ones. Thus, the flux
solvers at partition boundaries differed from those of a single-rank run.
---
 src/impl/seismic/solvers/AderDg.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/impl/seismic/solvers/AderDg.hpp b/src/impl/seismic/solvers/AderDg.hpp
index b91fa2d..45ad10b 100644
--- a/src/impl/seismic/solvers/AderDg.hpp
+++ b/src/impl/seismic/solvers/AderDg.hpp
@@ -26,6 +26,7 @@
 #ifndef EDGE_SEISMIC_SOLVERS_ADER_DG_HPP
 #define EDGE_SEISMIC_SOLVERS_ADER_DG_HPP
 
+#include <algorithm>
 #include <limits>
 #include "constants.hpp"
 #include "mesh/common.hpp"
@@ -215,7 +216,7 @@ class edge::seismic::solvers::AderDg {
      * @param i_faChars face characteristics.
      * @param i_elChars elements characteristics.
      * @param io_bgPars background parameters (phase lambda and mu will be replaced with elastic lambda an mu if TL_N_RMS>0).
-     * @param i_bgParsRe background parameters of the receive elements.
+     * @param i_bgParsRe background parameters of the receive elements (phase lambda and mu if TL_N_RMS>0).
      * @param i_freqCen central frequency for attenuation.
      * @param i_freqRat frequency ratio between upper and lower frequencies for attenuation.
      * @param io_dynMem dynamic memory management.
@@ -271,6 +272,10 @@ class edge::seismic::solvers::AderDg {
              ALIGNMENT.BASE.HEAP,
              io_dynMem );
 
+      // background parameters of the receive elements
+      t_bgPars * l_bgParsRe = new t_bgPars[i_nCommElFa];
+      std::copy( i_bgParsRe, i_bgParsRe+i_nCommElFa, l_bgParsRe );
+
       // init anelastic source matrices and compute elastic Lame parameters in viscoelastic settings
       if( TL_N_RMS > 0 ) {
         AderDgInit< TL_T_EL,
@@ -280,6 +285,17 @@ class edge::seismic::solvers::AderDg {
                                             i_freqRat,
                                             io_bgPars,
                                             m_srcA );
+
+        // the receive elements only require the elastic Lame parameters
+        TL_T_REAL (* l_srcRe)[TL_N_ENS_SRC_A] = new TL_T_REAL[i_nCommElFa * std::size_t(TL_N_RMS)][TL_N_ENS_SRC_A];
+        AderDgInit< TL_T_EL,
+                    TL_MATS_SP >::initSrcA( i_nCommElFa,
+                                            TL_N_RMS,
+                                            i_freqCen,
+                                            i_freqRat,
+                                            l_bgParsRe,
+                                            l_srcRe );
+        delete[] l_srcRe;
       }
 
       // init star matrices
@@ -306,9 +322,11 @@ class edge::seismic::solvers::AderDg {
                                         i_faChars,
                                         i_elChars,
                                         io_bgPars,
-                                        i_bgParsRe,
+                                        l_bgParsRe,
                                         m_fsE,
                                         m_fsA );
+
+      delete[] l_bgParsRe;
     }
 
     /**
-- 
2.43.0


From 2b03d0e07d9ae429190931633c876b24f6d63d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:17 +0000
Subject: [PATCH 04/28] fix: initialize centroid before summing up the vertices

The callers pass uninitialized memory.
---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From ef4a3006413cd4c395b86ab8cfa0fe6ed6c2bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:35 +0000
Subject: [PATCH 05/28] fix: derivative index of the line basis

Index 0 is documented as the derivative with respect to xi, but returned
the value of the basis function.
---
 src/dg/Basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg/Basis.cpp b/src/dg/Basis.cpp
index 3f2f70d..66c3c4f 100644
--- a/src/dg/Basis.cpp
+++ b/src/dg/Basis.cpp
@@ -376,7 +376,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int  i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_entType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_xi,
                                     l_val );
     else             evalBasisDerLine( i_b,
@@ -428,7 +428,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int        i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_enType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_pt[0],
                                     l_val );
     else             evalBasisDerLine( i_b,
-- 
2.43.0


From b1c6f93ecb1cbb52beaabfd952d3084b554346a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:41 +0000
Subject: [PATCH 06/28] fix: setup of the shallow water equations did not
 compile in double precision

---
 src/impl/swe/setup.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/impl/swe/setup.inc b/src/impl/swe/setup.inc
index 3b876ce..b1d40ee 100644
--- a/src/impl/swe/setup.inc
+++ b/src/impl/swe/setup.inc
@@ -54,7 +54,7 @@ if( l_meshData ) {
     l_internal.m_elementModeShared1[l_el][0][0] = l_bath[l_el];
     for( unsigned short l_cr = 0; l_cr < N_CRUNS; l_cr++ ) {
       // add displacement to water column since we share the bathymetry
-      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( -l_bath[l_el] + l_disp[l_cr][l_el], real_base(0) );
+      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( real_base(-l_bath[l_el] + l_disp[l_cr][l_el]), real_base(0) );
       l_internal.m_elementModePrivate1[l_el][1][0][l_cr] = 0;
       l_internal.m_elementModePrivate1[l_el][2][0][l_cr] = 0;
     }
-- 
2.43.0


From f32f830ada3a65a7acdf838343461bdca3798bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:30 +0000
Subject: [PATCH 07/28] fix: series integration over intervals shorter than the
 sampling distance

---
 src/linalg/Series.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..f19e23f 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,8 +74,7 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
-
+                  l_first = std::min( l_first, i_nPts-1 );
 
       // add contribution of the covered intervals
       for( std::size_t l_pt = l_first+1; l_pt < l_last+1; l_pt++ ) {
@@ -87,6 +86,13 @@ class edge::linalg::Series {
         }
       }
 
+      // x1 and x2 are in the same interval: its contributions before and after overlap, remove the interval once
+      for( std::size_t l_pt = l_last+1; l_pt < l_first+1; l_pt++ ) {
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          o_int[l_se] -= l_dxH*( i_vals[l_pt][l_se] + i_vals[l_pt-1][l_se] );
+        }
+      }
+
       // determine the case we are in
       // false: x1/x2 is outside the defined series
       // true:  x1/x2 it outside the defined series
-- 
2.43.0


From 3de7a5684c629c9139693202e62c47fdbde0325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:01 +0000
Subject: [PATCH 08/28] fix: CFL condition of the shallow water equations
 considers all momentum components

---
 src/impl/swe/solvers/FiniteVolume.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..15fa26d 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,14 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // magnitude of the momentum
+          double l_hu = 0;
+          for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ )
+            l_hu += double(i_dofs[l_el][1+l_di][0][l_ru]) * double(i_dofs[l_el][1+l_di][0][l_ru]);
+          l_hu = std::sqrt( l_hu );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_hu,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From 3450389a309d7b908a0b6a1ceb407974407e25ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:40 +0000
Subject: [PATCH 09/28] fix: 2D linear slip weakening: traction acts in the
 direction of the total shear stress

The sign of the perturbed traction was taken from the background shear stress.
If the total shear stress points in the opposite direction (or the background
shear stress is zero), friction accelerated the slip.
---
 src/impl/seismic/solvers/FrictionLaws.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/seismic/solvers/FrictionLaws.hpp b/src/impl/seismic/solvers/FrictionLaws.hpp
index 01ecfff..030a989 100644
--- a/src/impl/seismic/solvers/FrictionLaws.hpp
+++ b/src/impl/seismic/solvers/FrictionLaws.hpp
@@ -141,9 +141,9 @@ class edge::seismic::solvers::FrictionLaws< 2, TL_N_CRUNS > {
 
       // perturb middle states and update friction coefficient
       for( unsigned short l_ru = 0; l_ru < TL_N_CRUNS; l_ru++ ) {
-        // compute traction
-        o_tr[l_ru] = o_st[l_ru] - std::abs(i_ss0[l_ru]);
-        o_tr[l_ru] = (i_ss0[l_ru] > 0) ? o_tr[l_ru] : -o_tr[l_ru];
+        // compute traction: fault strength, acting in the direction of the total shear stress
+        o_tr[l_ru]  = ( i_ss0[l_ru] + i_ms[2][l_ru] > 0 ) ? o_st[l_ru] : -o_st[l_ru];
+        o_tr[l_ru] -= i_ss0[l_ru];
 
         // fall back to middle state if the fault is locked
         o_tr[l_ru] = (o_per[l_ru]) ? o_tr[l_ru] : i_ms[2][l_ru];
-- 
2.43.0


From 4c7a9a30fcb1478e6ed6d603aeaa9d2c94ee09b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:59 +0000
Subject: [PATCH 10/28] fix: EDGE-V: number of elements of empty partitions at
 the end was uninitialized

---
 tools/edge_v/src/mesh/Partition.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/edge_v/src/mesh/Partition.cpp b/tools/edge_v/src/mesh/Partition.cpp
index d20788d..08fb5e8 100644
--- a/tools/edge_v/src/mesh/Partition.cpp
+++ b/tools/edge_v/src/mesh/Partition.cpp
@@ -233,6 +233,8 @@ void edge_v::mesh::Partition::kWay( t_idx          i_nParts,
   m_nPas = i_nParts;
   if( m_nPaEls != nullptr ) delete[] m_nPaEls;
   m_nPaEls = new t_idx[ i_nParts ];
+  // partitions without elements are possible and not covered by the counts below
+  for( t_idx l_pa = 0; l_pa < i_nParts; l_pa++ ) m_nPaEls[l_pa] = 0;
   nPaEls( m_mesh.nEls(),
           m_elPa,
           m_nPaEls );
-- 
2.43.0


From 0e28e2e481f202d00baa90c5f68de2bcd3d05520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:57 +0000
Subject: [PATCH 11/28] fix: velocity models freed their data twice if free()
 was called before the destructor

---
 tools/edge_v/src/models/GridExpression.cpp | 3 +++
 tools/edge_v/src/models/seismic/Ucvm.cpp   | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/tools/edge_v/src/models/GridExpression.cpp b/tools/edge_v/src/models/GridExpression.cpp
index 17e45c3..95c54e8 100644
--- a/tools/edge_v/src/models/GridExpression.cpp
+++ b/tools/edge_v/src/models/GridExpression.cpp
@@ -33,6 +33,9 @@ edge_v::models::GridExpression::GridExpression( io::Grid    const * i_grid,
 void edge_v::models::GridExpression::free() {
   if( m_speedsMin != nullptr ) delete[] m_speedsMin;
   if( m_speedsMax != nullptr ) delete[] m_speedsMax;
+
+  m_speedsMin = nullptr;
+  m_speedsMax = nullptr;
 }
 
 edge_v::models::GridExpression::~GridExpression() {
diff --git a/tools/edge_v/src/models/seismic/Ucvm.cpp b/tools/edge_v/src/models/seismic/Ucvm.cpp
index e7a761e..df56068 100644
--- a/tools/edge_v/src/models/seismic/Ucvm.cpp
+++ b/tools/edge_v/src/models/seismic/Ucvm.cpp
@@ -42,6 +42,10 @@ void edge_v::models::seismic::Ucvm::free() {
   if( m_velP != nullptr ) delete[] m_velP;
   if( m_velS != nullptr ) delete[] m_velS;
   if( m_rho  != nullptr ) delete[] m_rho;
+
+  m_velP = nullptr;
+  m_velS = nullptr;
+  m_rho = nullptr;
 }
 
 edge_v::models::seismic::Ucvm::~Ucvm() {
-- 
2.43.0


From 3bb15ce3e9ccd3d0a9c54de92e8f8e9e01e45767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 12/28] fix: ids above the signed 64-bit range were clamped in
 HDF5 files of EDGE-V

---
 tools/edge_v/src/io/Hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/io/Hdf5.cpp b/tools/edge_v/src/io/Hdf5.cpp
index b8a1e2c..32d6912 100644
--- a/tools/edge_v/src/io/Hdf5.cpp
+++ b/tools/edge_v/src/io/Hdf5.cpp
@@ -183,7 +183,7 @@ void edge_v::io::Hdf5::set( std::string const & i_name,
        i_nValues,
        l_data,
        H5T_NATIVE_ULONG,
-       H5T_STD_I64LE );
+       H5T_STD_U64LE );
 
   // free memory
   delete[] l_data;
-- 
2.43.0


From 3f79b1437710099d0b4490ad47c0b219d485c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:44 +0000
Subject: [PATCH 13/28] fix: tsunami models used the bathymetry of the vertices
 for centroid-based time steps

---
 tools/edge_v/src/main.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tools/edge_v/src/main.cpp b/tools/edge_v/src/main.cpp
index 4ef81ae..ed7dacd 100644
--- a/tools/edge_v/src/main.cpp
+++ b/tools/edge_v/src/main.cpp
@@ -262,6 +262,11 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    // bathymetry is part of the expression and required at the same points
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
@@ -522,6 +527,11 @@ int main( int   i_argc,
 
   if( l_config.getCenCfl() ) {
     EDGE_V_LOG_INFO << "re-initializing velocity model at elements' centroids";
+    // bathymetry is part of the expression and required at the same points
+    if( l_tsunamiGridBath != nullptr ) {
+      l_tsunamiGridBath->init( l_mesh->nEls(),
+                               l_mesh->getCentroidsEl() );
+    }
     l_velMod->init( l_mesh->nEls(),
                     l_mesh->getCentroidsEl() );
   }
-- 
2.43.0


From 42053b665b2a330380dabc7462fb28fdb7458181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 14/28] fix: edge_cut: minimum coarse spacing in y compares
 neighboring coarse points

---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..8e8b6eb 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -313,7 +313,7 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   // derive minimum dx and dy in the coarse mesh
   for( std::size_t l_ve = 0; l_ve < m_ny[1]-1; l_ve++ ) {
     std::size_t l_veNext = (l_ve+1) * m_refRatio;
-    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve] );
+    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve*m_refRatio] );
     m_dMin[1] = std::min( m_dMin[1], l_diff );
   }
   for( std::size_t l_ve = 0; l_ve < (m_nx[0]-m_refRatio)*m_ny[0]; l_ve+=m_ny[0]*m_refRatio ) {
-- 
2.43.0


From 939c6819f7e653fb227491c96b57aa5dcae56039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 15/28] fix: edge_cut: sort points of a column by y if their
 x-coordinates differ by less than epsilon

---
 tools/edge_cut/src/mesh/Extrude.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index 8e8b6eb..c582a70 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -294,6 +294,15 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   EDGE_CUT_CHECK_EQ( i_nVes%m_ny[0], 0 );
   m_nx[0] = i_nVes / m_ny[0];
 
+  // sort by y within the columns, whose x-coordinates are only equal up to epsilon
+  for( std::size_t l_ve = 0; l_ve < i_nVes; l_ve += m_ny[0] ) {
+    std::sort( m_veCrdsSurf.begin() + l_ve,
+               m_veCrdsSurf.begin() + l_ve + m_ny[0],
+               []( point const & i_p0, point const & i_p1 ) {
+                 return std::get<1>( i_p0 ) < std::get<1>( i_p1 );
+               } );
+  }
+
   // derive refinement ratio nad number of coarse cells
   for( unsigned short l_le = 0; l_le < i_nLevels; l_le++)
     m_refRatio *= 2;
-- 
2.43.0


From 4d2eecdb2b10b177d71c0eae3fd5b421ab35e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 16/28] fix: edge_cut: write coordinates of the surfaces in
 full precision

---
 tools/edge_cut/src/main.cpp         | 9 +++++++++
 tools/edge_cut/src/mesh/Extrude.cpp | 1 +
 2 files changed, 10 insertions(+)

diff --git a/tools/edge_cut/src/main.cpp b/tools/edge_cut/src/main.cpp
index cfc4441..d8e2326 100644
--- a/tools/edge_cut/src/main.cpp
+++ b/tools/edge_cut/src/main.cpp
@@ -22,6 +22,7 @@
  * @section DESCRIPTION
  * This is the main file of EDGEcut.
  **/
+#include <limits>
 #include "io/logging.hpp"
 INITIALIZE_EASYLOGGINGPP
 #include "io/OptionParser.h"
@@ -85,6 +86,14 @@ int main( int i_argc, char *i_argv[] ) {
   std::ofstream l_top(    l_config.getMeshOutTop(),
                           std::ios::out );
 
+  // keep the coordinates of the grid
+  l_left.precision(   std::numeric_limits< double >::max_digits10 );
+  l_right.precision(  std::numeric_limits< double >::max_digits10 );
+  l_front.precision(  std::numeric_limits< double >::max_digits10 );
+  l_back.precision(   std::numeric_limits< double >::max_digits10 );
+  l_bottom.precision( std::numeric_limits< double >::max_digits10 );
+  l_top.precision(    std::numeric_limits< double >::max_digits10 );
+
   // write
   EDGE_CUT_LOG_INFO << "writing output meshes";
   l_ext.writeOff( l_left,
diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index c582a70..a12d4f8 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -454,6 +454,7 @@ void edge_cut::mesh::Extrude::writeOff( std::ostream & io_left,
 
   // top
   std::stringstream l_top;
+  l_top.precision( io_top.precision() );
   writePtsOff( m_veCrdsSurf,
                l_top );
   std::size_t l_nTria = writeTriaOff( m_nx[0],
-- 
2.43.0


From 0d69007dcd8ea73ec8cef235bce9c04d3213aa38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:43 +0000
Subject: [PATCH 17/28] fix: flat bathymetry of shallow water setups without a
 model is below sea level, such that elements are not considered to be dry

---
 src/impl/swe/setup.inc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/setup.inc b/src/impl/swe/setup.inc
index b1d40ee..e144ba3 100644
--- a/src/impl/swe/setup.inc
+++ b/src/impl/swe/setup.inc
@@ -86,8 +86,9 @@ l_shared.regWrkRgn( 0, 1, 1,
 
 // initialize Bathymetry and DOFs
 if( !l_meshData ) {
+  // flat bathymetry, has to be below sea level since the solver considers all other elements to be dry
   for( std::size_t l_el = 0; l_el < l_edgeV.nEls(); l_el++ )
-    l_internal.m_elementModeShared1[l_el][0][0] = 0;
+    l_internal.m_elementModeShared1[l_el][0][0] = -1;
 
   edge::setups::InitialDofs<
     T_SDISC.ELEMENT,
-- 
2.43.0


From a89471e1a553f94dd62c02960ded01000207382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 18/28] fix: absolute tolerance of point-in-element queries
 rejected points of small elements, receivers in small tets were fatal

---
 src/linalg/Geom.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/linalg/Geom.hpp b/src/linalg/Geom.hpp
index dd902f4..f0e2cec 100644
--- a/src/linalg/Geom.hpp
+++ b/src/linalg/Geom.hpp
@@ -663,6 +663,12 @@ class edge::linalg::Geom {
           l_box[l_di][1] = std::max( l_box[l_di][1], i_vertices[l_di*l_nEnVes + l_ve] );
         }
       }
+      // tolerance for the determinants, which scale with the size of the entity
+      TL_T_REAL l_tolDet = TOL.LINALG;
+      for( unsigned short l_di = 0; l_di < l_nDims; l_di++ ) {
+        l_tolDet *= std::min( TL_T_REAL(1), l_box[l_di][1] - l_box[l_di][0] );
+      }
+
       // shortcut if point is not in the surrounding box
       for( unsigned short l_di = 0; l_di < l_nDims; l_di++ ) {
         if( l_box[l_di][0] > i_pt[l_di]+TOL.LINALG ||
@@ -696,9 +702,9 @@ class edge::linalg::Geom {
             l_det = Matrix::det( (TL_T_REAL (*)[3]) l_directed );
           }
           else EDGE_LOG_FATAL;
-          l_inside  = l_inside  && ( l_det >  TOL.LINALG );
-          l_outside = l_outside || ( l_det < -TOL.LINALG );
-          l_face    = l_face    ||   std::abs( l_det ) < TOL.LINALG;
+          l_inside  = l_inside  && ( l_det >  l_tolDet );
+          l_outside = l_outside || ( l_det < -l_tolDet );
+          l_face    = l_face    ||   std::abs( l_det ) < l_tolDet;
         }
       }
 
@@ -768,8 +774,8 @@ class edge::linalg::Geom {
           io_pt[l_di] = l_pt[l_di];
       }
       else if( i_enType == TET4 ) {
-        // query faces if the point is not inside
-        if( inside( i_enType, i_veCrds, io_pt ) == 0 ) {
+        // query faces if the point is not inside, points close to a face might be outside as well
+        if( inside( i_enType, i_veCrds, io_pt ) != 1 ) {
           // minimum distance to point
           TL_T_REAL l_distMin = std::numeric_limits< TL_T_REAL >::max();
 
-- 
2.43.0


From 207463a15d1b26100f3c26e7e77b1533d6c45448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 19/28] fix: bases of tria3 and tet4 elements were nan at the
 singularity of the collapsed coordinates, e.g. for receivers at vertices

---
 src/dg/Basis.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/dg/Basis.cpp b/src/dg/Basis.cpp
index 66c3c4f..0723acf 100644
--- a/src/dg/Basis.cpp
+++ b/src/dg/Basis.cpp
@@ -282,6 +282,13 @@ void edge::dg::Basis::evalBasisTria( unsigned int  b,
   double val, valDxi1, valDxi2;
   val = valDxi1 = valDxi2 = std::numeric_limits< double >::max();
 
+  // move points at the singularity of the collapsed coordinates slightly inside
+  double l_off = 1E-12;
+  if( std::abs( 1 - xi_2 ) < l_off ) {
+    xi_1 += l_off * ( 1.0/3.0 - xi_1 );
+    xi_2 += l_off * ( 1.0/3.0 - xi_2 );
+  }
+
   if( i_der == 0 ) {
 #include "generated/basis_tria_der_xi1.inc"
     o_val = valDxi1;
@@ -306,6 +313,14 @@ void edge::dg::Basis::evalBasisTet( unsigned int  b,
   double val, valDxi1, valDxi2, valDxi3;
   val = valDxi1 = valDxi2 = std::numeric_limits< double >::max();
 
+  // move points at the singularity of the collapsed coordinates slightly inside
+  double l_off = 1E-12;
+  if( std::abs( 1 - xi_2 - xi_3 ) < l_off || std::abs( 1 - xi_3 ) < l_off ) {
+    xi_1 += l_off * ( 0.25 - xi_1 );
+    xi_2 += l_off * ( 0.25 - xi_2 );
+    xi_3 += l_off * ( 0.25 - xi_3 );
+  }
+
   if( i_der == 0 ) {
 #include "generated/basis_tet_der_xi1.inc"
     o_val = valDxi1;
-- 
2.43.0


From 579e7953b809a346566a085bcfefc190b6aee49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:58 +0000
Subject: [PATCH 20/28] fix: redundant slashes in paths stopped the creation of
 directories

---
 src/io/FileSystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/FileSystem.hpp b/src/io/FileSystem.hpp
index 192a28e..979172f 100644
--- a/src/io/FileSystem.hpp
+++ b/src/io/FileSystem.hpp
@@ -90,7 +90,8 @@ class edge::io::FileSystem {
       struct stat l_stat;
 
       // create until all sub-directories are there
-      while( l_dir0 != "" ) {
+      while( l_dir0 != "" || l_dir1 != "" ) {
+        // add slash, redundant ones in the path have empty components
         if( l_dir0 != "/" ) l_dir0 += "/";
         l_dirCreate += l_dir0;
 
-- 
2.43.0


From 2056ce93ff13dbd4757769ff12e54ee4e8fc3083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:32 +0000
Subject: [PATCH 21/28] fix: edge_pre: hex sub-cell mappings follow the
 dimension-wise order of the vertices

The shape functions of intSc assumed counter-clockwise vertices, while scSv
orders the vertices of sub-cells dimension-wise: the mappings were twisted
and the scatter and gather operators of hexahedral elements wrong.
---
 tools/edge_pre/edge_pre/sc/grid/Generic.py | 2 +-
 tools/edge_pre/edge_pre/sc/grid/Hex.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tools/edge_pre/edge_pre/sc/grid/Generic.py b/tools/edge_pre/edge_pre/sc/grid/Generic.py
index 3770265..75102f3 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Generic.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Generic.py
@@ -156,6 +156,6 @@ def absJacDet( i_syms,
 
   # compute absolute determinant
   l_jac = sympy.Matrix( l_jac )
-  l_aDet = sympy.Abs( l_jac.det() )
+  l_aDet = sympy.Abs( sympy.expand( l_jac.det() ) )
 
   return l_aDet
\ No newline at end of file
diff --git a/tools/edge_pre/edge_pre/sc/grid/Hex.py b/tools/edge_pre/edge_pre/sc/grid/Hex.py
index 744786e..bec1e1d 100644
--- a/tools/edge_pre/edge_pre/sc/grid/Hex.py
+++ b/tools/edge_pre/edge_pre/sc/grid/Hex.py
@@ -277,15 +277,15 @@ def scSfSc( i_deg ):
 def intSc( i_deg, i_syms ):
   assert( len(i_syms) == 3 )
 
-  # hex shape functions
+  # hex shape functions, follows the dimension-wise order of the sub-cells' vertices
   l_shape = [ (1 - i_syms[0]) * (1 - i_syms[1]) * (1 - i_syms[2]),
                i_syms[0]      * (1 - i_syms[1]) * (1 - i_syms[2]),
-               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) *  i_syms[1]      * (1 - i_syms[2]),
+               i_syms[0]      *  i_syms[1]      * (1 - i_syms[2]),
               (1 - i_syms[0]) * (1 - i_syms[1]) *  i_syms[2],
                i_syms[0]      * (1 - i_syms[1]) *  i_syms[2],
-               i_syms[0]      *  i_syms[1]      *  i_syms[2],
-              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2] ]
+              (1 - i_syms[0]) *  i_syms[1]      *  i_syms[2],
+               i_syms[0]      *  i_syms[1]      *  i_syms[2] ]
 
   # get sub-cell coords
   l_svs = svs( i_deg )
-- 
2.43.0


From fbd8ac5f8e1a2babcaab4f0a5391ed3769f606a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 22/28] fix: data race on the worker offset in Shared::init

All threads of the team wrote the shared member m_wrkOff concurrently.
It is now assigned by the thread which also determines the number of workers, before the barrier.
---
 src/parallel/Shared.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/parallel/Shared.cpp b/src/parallel/Shared.cpp
index dedbda7..60c4d4e 100644
--- a/src/parallel/Shared.cpp
+++ b/src/parallel/Shared.cpp
@@ -51,18 +51,18 @@ void edge::parallel::Shared::init( bool i_separateWrks ) {
 
     // check for at least one worker
     EDGE_CHECK( m_nWrks > 0 );
+
+    // assign worker-id
+    if( m_nWrks == g_nThreads ) {
+      m_wrkOff = 0;
+    }
+    else {
+      m_wrkOff = -1;
+    }
   }
 
 #pragma omp barrier
 
-  // assign worker-id
-  if( m_nWrks == g_nThreads ) {
-    m_wrkOff = 0;
-  }
-  else {
-    m_wrkOff = -1;
-  }
-
   // check that no other threads wrote in private thread num
   // no guarantee that this check will discover this however
   EDGE_CHECK( g_thread == omp_get_thread_num() );
-- 
2.43.0


From 4406f9c4fa20b1f83ddfce876c89703c242a04dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 23/28] fix: data race on the sparse types of elements with
 several point sources

The sparse types were updated in a parallel loop over the sources, while two sources might be located in the same element.
---
 src/impl/seismic/setups/PointSources.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/impl/seismic/setups/PointSources.hpp b/src/impl/seismic/setups/PointSources.hpp
index be7fc78..48db05f 100644
--- a/src/impl/seismic/setups/PointSources.hpp
+++ b/src/impl/seismic/setups/PointSources.hpp
@@ -822,10 +822,7 @@ class edge::seismic::setups::PointSources {
                 l_srcIds[l_cr] );
         EDGE_CHECK_EQ( l_srcEls[l_cr].size(), l_srcIds[l_cr].size() );
 
-        // update the sparse types
-#ifdef PP_USE_OMP
-#pragma omp parallel for
-#endif
+        // update the sparse types, elements might have more than one point source
         for( std::size_t l_ps = 0; l_ps < l_srcEls[l_cr].size(); l_ps++ ) {
           io_charsEl[ l_srcEls[l_cr][l_ps] ].spType |= i_spTy;
         }
-- 
2.43.0


From e490e37735fd01c193bb6151577515fa822a897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:10 +0000
Subject: [PATCH 24/28] fix: data race of the receivers' flush with writes of
 other time groups

flushIf flushed the receivers of all time groups after a time group finished a step, while workers of the other time groups might write to their buffers.
Only the receivers of the finished time group are flushed now.
---
 src/impl/seismic/inc/time/man_sched.inc | 4 ++--
 src/io/Receivers.cpp                    | 6 +++++-
 src/io/Receivers.h                      | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/impl/seismic/inc/time/man_sched.inc b/src/impl/seismic/inc/time/man_sched.inc
index b9169a8..92f4a51 100644
--- a/src/impl/seismic/inc/time/man_sched.inc
+++ b/src/impl/seismic/inc/time/man_sched.inc
@@ -161,8 +161,8 @@ for( unsigned short l_tg = 0; l_tg < m_timeGroups.size(); l_tg++ ) {
     m_cflow[l_tg][2] = 3;
     m_cflow[l_tg][4] = 1;
 
-    // flush receivers if buffer size gets low
-    m_recvs.flushIf();
+    // flush the time group's receivers if buffer size gets low
+    m_recvs.flushIf( l_tg );
   }
 
   // issue recvs
diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 5670676..b6dbbdc 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -322,8 +322,12 @@ void edge::io::Receivers::flushAll() {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) flush( l_re );
 }
 
-void edge::io::Receivers::flushIf( unsigned int i_tresh ) {
+void edge::io::Receivers::flushIf( int_tg       i_tg,
+                                   unsigned int i_tresh ) {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) {
+    // other time groups might write to their receivers' buffers
+    if( m_recvs[l_re].tg != i_tg ) continue;
+
     if( m_buffSize - m_recvs[l_re].nBuff < i_tresh ) flush( l_re );
   }
 }
diff --git a/src/io/Receivers.h b/src/io/Receivers.h
index 89ea06f..c8f4d90 100644
--- a/src/io/Receivers.h
+++ b/src/io/Receivers.h
@@ -166,11 +166,13 @@ class edge::io::Receivers {
                        const real_base i_dofs[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] );
 
     /**
-     * Flushes receiver's buffers to disk if the remaining size in the buffer if below the treshold.
+     * Flushes the buffers of a time group's receivers to disk if the remaining size in the buffer if below the treshold.
      *
+     * @param i_tg time group, whose receivers are flushed; the time group is not allowed to write receivers while flushing.
      * @param i_treshold, which triggers writers if the buffers remaining entries is below. 
      **/
-    virtual void flushIf( unsigned int i_tresh=50 );
+    virtual void flushIf( int_tg       i_tg,
+                          unsigned int i_tresh=50 );
 };
 
 #endif
-- 
2.43.0


From 47f7ec03b8b8d4ab99756ecdee45e080200485aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:58 +0000
Subject: [PATCH 25/28] fix: fault output starting after the first boundary
 face wrote vertices not matching the cells

---
 src/io/InternalBoundary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/InternalBoundary.hpp b/src/io/InternalBoundary.hpp
index 310b296..665b2f5 100644
--- a/src/io/InternalBoundary.hpp
+++ b/src/io/InternalBoundary.hpp
@@ -338,13 +338,14 @@ class edge::io::InternalBoundary {
       l_file += "_" + parallel::g_rankStr;
       l_file += "_" + std::to_string((unsigned long long) m_writeStep) + ".vtk";
 
-      int l_nPts = i_size * TL_N_FA_SVS;
+      // vertex ids are those of all boundary faces: write the vertices from the first face on
+      int l_nPts = (i_first + i_size) * TL_N_FA_SVS;
       int l_nCells = i_size * TL_N_SFS;
 
       edge_write_unstructured_mesh( l_file.c_str(),
                                     m_binary,
                                     l_nPts,
-                                    m_svCrds[i_first][0],
+                                    m_svCrds[0][0],
                                     i_nQts,
                                     l_nCells,
                                     m_visitElType,
-- 
2.43.0


From 7a28db49b235bf0c2e4c3832b5a4a31fc979500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:28 +0000
Subject: [PATCH 26/28] fix: fused viscoelastic volume kernel used scratch of
 the previous dimension where the sparse products write nothing

---
 src/impl/seismic/kernels/VolIntFused.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/impl/seismic/kernels/VolIntFused.hpp b/src/impl/seismic/kernels/VolIntFused.hpp
index b26837f..ba418d1 100644
--- a/src/impl/seismic/kernels/VolIntFused.hpp
+++ b/src/impl/seismic/kernels/VolIntFused.hpp
@@ -377,14 +377,6 @@ class edge::seismic::kernels::VolIntFused: edge::seismic::kernels::VolInt< TL_T_
             for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) l_scratch[l_qt][l_md][l_cr] = 0;
       }
 
-      // set scratch memory to zero for attenuation, which multiplies by stiffness matrices first
-      if( TL_N_RMS > 0 ) {
-        for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ )
-          for( unsigned short l_md = 0; l_md < TL_N_MDS; l_md++ )
-#pragma omp simd
-            for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) o_scratch[l_qt][l_md][l_cr] = 0;
-      }
-
       // iterate over dimensions
       for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ ) {
         // elastic: utilize zero-block in star matrix multiplication
@@ -401,6 +393,12 @@ class edge::seismic::kernels::VolIntFused: edge::seismic::kernels::VolInt< TL_T_
         }
         // viscoelastic: re-use stiffness matrix multiplication
         else {
+          // reset scratch memory, since the sparse kernels do not touch modes without entries in this dimension's stiffness matrix
+          for( unsigned short l_qt = 0; l_qt < TL_N_QTS_E; l_qt++ )
+            for( unsigned short l_md = 0; l_md < TL_N_MDS; l_md++ )
+#pragma omp simd
+              for( unsigned short l_cr = 0; l_cr < TL_N_CRS; l_cr++ ) o_scratch[l_qt][l_md][l_cr] = 0;
+
           // multiply with stiffness and inverse mass matrix
           m_mm.m_kernels[0][l_di]( i_tDofsE[0][0],
                                    m_stiff[l_di],
-- 
2.43.0


From ae1cea1c0309102d0af0edba760ffaa454b9fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:28 +0000
Subject: [PATCH 27/28] fix: recvs_extract_cols: derive the dialect from the
 data, not from the comment header

---
 tools/processing/recvs_extract_cols.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/processing/recvs_extract_cols.py b/tools/processing/recvs_extract_cols.py
index f5961e2..731b49a 100755
--- a/tools/processing/recvs_extract_cols.py
+++ b/tools/processing/recvs_extract_cols.py
@@ -41,8 +41,9 @@ def readCsv( i_file, i_col ):
 
   # read file
   with open( i_file, 'r' ) as l_fi:
-    # detect dialect
-    l_sniff = csv.Sniffer().sniff( l_fi.read(), [',', ' '] )
+    # detect dialect, comments do not follow it
+    l_rows = [ l_ro for l_ro in l_fi if l_ro.lstrip()[:1] != '#' ]
+    l_sniff = csv.Sniffer().sniff( ''.join( l_rows ), [',', ' '] )
     l_fi.seek(0)
 
     l_csv = csv.reader( l_fi, l_sniff, skipinitialspace=True )
-- 
2.43.0


From fb275b1c1a240d383c2562d7b1af8d3d550d2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:28 +0000
Subject: [PATCH 28/28] fix: more receiver samples in a time step than space
 left in the buffers were fatal

---
 src/io/Receivers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index b6dbbdc..0668723 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -258,8 +258,8 @@ void edge::io::Receivers::writeRecvAll(       int_el    i_spEn,
 
   for( std::size_t l_re = l_first; l_re < m_recvs.size(); l_re++ ) {
     if( m_recvs[l_re].en == l_firstEn ) {
-      // check our bufffer isn't overflowing
-      EDGE_CHECK_LT( m_recvs[l_re].nBuff, m_buffSize );
+      // write the buffer if there is no space left
+      if( m_recvs[l_re].nBuff >= m_buffSize ) flush( l_re );
 
       // iterate over quantities
       for( int_qt l_qt = 0; l_qt < N_QUANTITIES; l_qt++ ) {
-- 
2.43.0

