From 18c767a6046d25af69ddce7e730e8e297bf37f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:33 +0000
Subject: [PATCH 01/23] dst: guarded step observer and spline-degree override
 (MATTER_DST, off by default)

---
 src/simulation/simulation.cpp |  5 +++++
 src/simulation/simulation.hpp | 19 +++++++++++++++++++
 src/tools.hpp                 |  4 ++++
 3 files changed, 28 insertions(+)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 2e2b745..1e11efc 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -158,6 +158,8 @@ void Simulation::simulate(){
     // Total runtime of simulation
     std::chrono::steady_clock::time_point begin = std::chrono::steady_clock::now();
 
+    MATTER_DST_POINT("begin");
+
     while (frame < end_frame){
         if (!reduce_verbose){
             std::cout << "Frame: "               << frame  << " / "    << end_frame  << std::endl;
@@ -170,6 +172,7 @@ void Simulation::simulate(){
             return;
         time += dt;
         current_time_step++;
+        MATTER_DST_POINT("step");
         if(frame_dt*(frame+1) - time < min_dt*1.1){
             frame++;
             std::cout << "End of frame " << frame << std::endl;
@@ -234,6 +237,7 @@ void Simulation::advanceStep(){
     timer t_p2g; t_p2g.start();
     P2G();
     t_p2g.stop(); runtime_p2g += t_p2g.get_timing();
+    MATTER_DST_POINT("p2g");
 
     // checkMassConservation();
     // checkMomentumConservation();
@@ -241,6 +245,7 @@ void Simulation::advanceStep(){
     timer t_euler; t_euler.start();
     explicitEulerUpdate();
     t_euler.stop(); runtime_euler += t_euler.get_timing();
+    MATTER_DST_POINT("euler");
 
     // addExternalParticleGravity();
 
diff --git a/src/simulation/simulation.hpp b/src/simulation/simulation.hpp
index bdbd093..45b389b 100644
--- a/src/simulation/simulation.hpp
+++ b/src/simulation/simulation.hpp
@@ -20,6 +20,18 @@
 #include "../objects/object_general.hpp"
 #include "../objects/object_plate.hpp"
 
+#ifdef MATTER_DST // deterministic-simulation hooks (off by default)
+#include <functional>
+class Simulation;
+struct DstView{ // read-only view handed to the observer
+  T time;
+  T dt;
+  unsigned int frame;
+  unsigned int step;
+  const Grid* grid;
+};
+#endif
+
 class Simulation{
 public:
   Simulation();
@@ -27,6 +39,13 @@ public:
 
   int exit = 0;
 
+#ifdef MATTER_DST
+  std::function<void(const char*, Simulation&, const DstView&)> dst_observer;
+  #define MATTER_DST_POINT(point) if (dst_observer) dst_observer(point, *this, DstView{time, dt, frame, current_time_step, &grid})
+#else
+  #define MATTER_DST_POINT(point)
+#endif
+
 #ifdef THREEDIM
   const unsigned int dim = 3;
 #else
diff --git a/src/tools.hpp b/src/tools.hpp
index 9243644..a485f6f 100644
--- a/src/tools.hpp
+++ b/src/tools.hpp
@@ -18,7 +18,11 @@
 /////////////// USER PARAMETERS (GLOBAL) //////////
 typedef double T; // float or double
 // #define THREEDIM // Uncomment for 2D
+#if defined(MATTER_DST) && defined(MATTER_DST_SPLINEDEG) // deterministic-simulation builds
+#define SPLINEDEG MATTER_DST_SPLINEDEG
+#else
 #define SPLINEDEG 2 // Quadratic B-spline
+#endif
 // #define WARNINGS // Write more debug info to screen
 ///////////////////////////////////////////////////
 
-- 
2.43.0


From a7eddce56a14deee251f806e5ae1fb5d97a8592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:09 +0000
Subject: [PATCH 02/23] fix: add periodic ghost particles serially

PBCAddParticles appended to the particle vectors in an omp critical section
while other threads of the same loop were reading those vectors, so that a
reallocation invalidated the memory under the readers.
---
 src/simulation/pbc.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 0795fd8..22e6281 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -40,7 +40,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
 
     num_add_pbc_particles = 0;
 
-    #pragma omp parallel for reduction(+:num_add_pbc_particles) num_threads(n_threads)
+    // NB: serial, since the loop appends to the same vectors that it reads from
     for(int p = 0; p < Np; p++){
 
         TV part_x = particles.x[p]; // copy
@@ -49,14 +49,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = Lx - part_x(0);
         if ( diff < safety_factor*dx && diff > 0){
             part_x(0) = -diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -64,14 +61,11 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         diff = part_x(0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
-            #pragma omp critical
-            {
-                particles.x.push_back(part_x);
-                particles.v.push_back(particles.v[p]);
-                particles.F.push_back(particles.F[p]);
-                particles.Bmat.push_back(particles.Bmat[p]);
-                particles.tau.push_back(particles.tau[p]);
-            }
+            particles.x.push_back(part_x);
+            particles.v.push_back(particles.v[p]);
+            particles.F.push_back(particles.F[p]);
+            particles.Bmat.push_back(particles.Bmat[p]);
+            particles.tau.push_back(particles.tau[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
-- 
2.43.0


From 6e88ceb7d29f8113e64b5a894f361f230e073cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 03/23] fix: count projected particles with a reduction in G2P

All threads incremented the shared counter plastic_count, a data race that
made the reported number of projections depend on the thread schedule.
---
 src/simulation/g2p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/g2p.cpp b/src/simulation/g2p.cpp
index 1e6ef21..2bca78a 100644
--- a/src/simulation/g2p.cpp
+++ b/src/simulation/g2p.cpp
@@ -19,7 +19,7 @@ void Simulation::G2P(){
     #pragma omp parallel num_threads(n_threads)
     {
 
-        #pragma omp for nowait
+        #pragma omp for nowait reduction(+:plastic_count)
         for(int p = 0; p < Np; p++){
             TV xp = particles.x[p];
             TV vp    = TV::Zero();
-- 
2.43.0


From e994dda093be85c3f4cebd8045cdd698dddbc6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:20 +0000
Subject: [PATCH 04/23] fix: give periodic ghost particles the friction of
 their original

P2G reads particles.muI of every particle when use_mibf is set, but the
periodic ghosts were added without that entry (read out of bounds).
---
 src/simulation/pbc.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 22e6281..3556864 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -17,6 +17,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
         particles.x.push_back(part_x-incr);
@@ -24,6 +25,7 @@ void Simulation::PBCAddParticles1D(){
         particles.F.push_back(particles.F[p]);
         particles.Bmat.push_back(particles.Bmat[p]);
         particles.tau.push_back(particles.tau[p]);
+        particles.muI.push_back(particles.muI[p]);
         num_add_pbc_particles++;
 
     } // end loop over p
@@ -54,6 +56,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -66,6 +69,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.F.push_back(particles.F[p]);
             particles.Bmat.push_back(particles.Bmat[p]);
             particles.tau.push_back(particles.tau[p]);
+            particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
             continue; // go directly to next p
         }
@@ -91,6 +95,7 @@ void Simulation::PBCDelParticles(){
     particles.F.erase(   particles.F.end()   -num_add_pbc_particles, particles.F.end()   );
     particles.Bmat.erase(particles.Bmat.end()-num_add_pbc_particles, particles.Bmat.end());
     particles.tau.erase( particles.tau.end() -num_add_pbc_particles, particles.tau.end() );
+    particles.muI.erase( particles.muI.end() -num_add_pbc_particles, particles.muI.end() );
     Np = particles.x.size();
 
 #ifdef WARNINGS
-- 
2.43.0


From 867de62ee0e560c0ebdf4cfbdab7ebe3eb6571c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:30 +0000
Subject: [PATCH 05/23] fix: complete the set of periodic ghost particles

A particle exactly at x = Lx got no image at x = 0, and a particle within the
safety distance of both ends of a narrow domain got only one of its two
images, so that mass and momentum were missing near the periodic ends.
---
 src/simulation/pbc.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simulation/pbc.cpp b/src/simulation/pbc.cpp
index 3556864..46991a0 100644
--- a/src/simulation/pbc.cpp
+++ b/src/simulation/pbc.cpp
@@ -49,7 +49,7 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
         T diff;
 
         diff = Lx - part_x(0);
-        if ( diff < safety_factor*dx && diff > 0){
+        if ( diff < safety_factor*dx && diff >= 0){
             part_x(0) = -diff;
             particles.x.push_back(part_x);
             particles.v.push_back(particles.v[p]);
@@ -58,10 +58,9 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.tau.push_back(particles.tau[p]);
             particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
-            continue; // go directly to next p
         }
 
-        diff = part_x(0);
+        diff = particles.x[p](0);
         if ( diff < safety_factor*dx && diff >= 0 ){
             part_x(0) = Lx + diff;
             particles.x.push_back(part_x);
@@ -71,7 +70,6 @@ void Simulation::PBCAddParticles(unsigned int safety_factor){
             particles.tau.push_back(particles.tau[p]);
             particles.muI.push_back(particles.muI[p]);
             num_add_pbc_particles++;
-            continue; // go directly to next p
         }
 
     } // end loop over p
-- 
2.43.0


From b95b816f1c92d53461fa7278e5b8c8ec964e2212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:38 +0000
Subject: [PATCH 06/23] fix: include the periodic images in the MUSL transfer

The second transfer of MUSL divides by the grid mass, which contains the
contributions of the periodic ghosts, but summed momentum without them, so
velocities near the periodic ends were too small.
---
 src/simulation/musl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/musl.cpp b/src/simulation/musl.cpp
index 5ab5e98..3209f1b 100644
--- a/src/simulation/musl.cpp
+++ b/src/simulation/musl.cpp
@@ -25,6 +25,10 @@ void Simulation::MUSL(){
     } // end loop over particles
 
 
+    // The periodic images must also contribute to the second transfer
+    if (pbc)
+        PBCAddParticles(4);
+
     std::fill( grid.v.begin(), grid.v.end(), TV::Zero() );
 
     #pragma omp parallel num_threads(n_threads)
@@ -87,6 +91,8 @@ void Simulation::MUSL(){
 
     } // end omp parallel
 
+    if (pbc)
+        PBCDelParticles();
 
     for (int l = 0; l<grid_nodes; l++){
         T mi = grid.mass[l];
-- 
2.43.0


From e604705bbde43b4ba67017b834d49b01f6f58197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:09 +0000
Subject: [PATCH 07/23] fix: expand the grid when a particle moves exactly a
 multiple of dx

The expansion was rounded down with the tolerance subtracted, so for a
displacement of exactly k*dx the grid was one node short and the transfers
read past the end of the grid.
---
 src/simulation/remesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulation/remesh.cpp b/src/simulation/remesh.cpp
index a1fd82f..d615bb7 100644
--- a/src/simulation/remesh.cpp
+++ b/src/simulation/remesh.cpp
@@ -230,7 +230,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_x_init-max_x)/dx - 1e-8*dx) );
         high_x = high_x_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_x-max_x_init)/dx + 1e-8) );
         high_x = high_x_init + expansion_factor * dx;
     }
 
@@ -239,7 +239,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_x-min_x_init)/dx - 1e-8*dx) );
         low_x = low_x_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_x_init-min_x)/dx + 1e-8) );
         low_x = low_x_init - expansion_factor * dx;
     }
 
@@ -248,7 +248,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_y_init-max_y)/dx - 1e-8*dx) );
         high_y = high_y_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_y-max_y_init)/dx + 1e-8) );
         high_y = high_y_init + expansion_factor * dx;
     }
 
@@ -257,7 +257,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_y-min_y_init)/dx - 1e-8*dx) );
         low_y = low_y_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_y_init-min_y)/dx + 1e-8) );
         low_y = low_y_init - expansion_factor * dx;
     }
 #ifdef THREEDIM
@@ -266,7 +266,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(max_z_init-max_z)/dx - 1e-8*dx) );
         high_z = high_z_init - reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(max_z-max_z_init)/dx + 1e-8) );
         high_z = high_z_init + expansion_factor * dx;
     }
 
@@ -275,7 +275,7 @@ void Simulation::remeshFixedCont(){
         unsigned int reduction_factor = std::floor( std::max(0.0,(min_z-min_z_init)/dx - 1e-8*dx) );
         low_z = low_z_init + reduction_factor * dx;
     } else{
-        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx - 1e-8*dx) );
+        unsigned int expansion_factor = std::floor( std::max(0.0,(min_z_init-min_z)/dx + 1e-8) );
         low_z = low_z_init - expansion_factor * dx;
     }
 #endif
-- 
2.43.0


From 2c4336cd97592ad9f267a3fa31c8dd51994eab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:18 +0000
Subject: [PATCH 08/23] fix: reduce both tangential components on 3D plates
 with friction

The second tangential component was computed from the already reduced first
one, so Coulomb friction on 3D plates changed the sliding direction and did
not remove the prescribed amount of tangential velocity.
---
 src/simulation/boundary_collision.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulation/boundary_collision.cpp b/src/simulation/boundary_collision.cpp
index 227815e..55ebfa5 100644
--- a/src/simulation/boundary_collision.cpp
+++ b/src/simulation/boundary_collision.cpp
@@ -114,8 +114,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -136,8 +136,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -158,8 +158,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
@@ -189,8 +189,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vx_rel*vx_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vz_rel*vz_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (y) must be set to zero
@@ -210,8 +210,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vz_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vz_rel*vz_rel/(vy_rel*vy_rel));
-                        vz_rel = sgn(vz_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vz_rel*vz_rel));
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vz_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (x) must be set to zero
@@ -231,8 +231,8 @@ void Simulation::boundaryCollision(int index, TV Xi, TV& vi){
                         vy_rel = 0;
                     }
                     else { // just reduce tangential component
-                        vx_rel = sgn(vx_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vy_rel*vy_rel/(vx_rel*vx_rel));
-                        vy_rel = sgn(vy_rel) * (vel_t - fric_vel_n) / std::sqrt(1 + vx_rel*vx_rel/(vy_rel*vy_rel));
+                        vx_rel *= (vel_t - fric_vel_n) / vel_t;
+                        vy_rel *= (vel_t - fric_vel_n) / vel_t;
                     }
 
                     // normal component (z) must be set to zero
-- 
2.43.0


From 14c0e611ea9547ff3960bb975b630e873833ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:18 +0000
Subject: [PATCH 09/23] fix: initialise the normal of the ground in 3D

The third component was left uninitialised.
---
 src/objects/object_ground.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/objects/object_ground.hpp b/src/objects/object_ground.hpp
index 55b8d10..97d3c76 100644
--- a/src/objects/object_ground.hpp
+++ b/src/objects/object_ground.hpp
@@ -26,7 +26,7 @@ public:
 
     TV normal(const TV& X_in) const override {
 
-        TV n;
+        TV n = TV::Zero();
         
         n(0) = 0;
         n(1) = 1;
-- 
2.43.0


From add6a950947a094a91a4d8422bae7ee4a321104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:11 +0000
Subject: [PATCH 10/23] fix: detect failing output and announce a frame only
 when it is on disk

last_written.txt was written while the frame file was still buffered in its
stream, so a crash could leave the marker ahead of the data, and write errors
(full disk, I/O errors) on any output file went unnoticed.
---
 src/simulation/save_data.cpp  | 25 +++++++++++++++++++++++++
 src/simulation/simulation.cpp |  5 +++++
 2 files changed, 30 insertions(+)

diff --git a/src/simulation/save_data.cpp b/src/simulation/save_data.cpp
index f8fd041..f6bb34f 100644
--- a/src/simulation/save_data.cpp
+++ b/src/simulation/save_data.cpp
@@ -163,9 +163,20 @@ void Simulation::saveParticleData(std::string extra){
 
     file.write(out, true);
 
+    out.close(); // flush before announcing the frame in last_written.txt
+    if (!out){
+        std::cerr << "Could not write " << filename << std::endl;
+        exit = 1;
+        return;
+    }
+
     std::ofstream outFile(directory + sim_name + "/last_written.txt");
     outFile << std::to_string(frame) << "\n";
     outFile.close();
+    if (!outFile){
+        std::cerr << "Could not write last_written.txt" << std::endl;
+        exit = 1;
+    }
 
 } // end saveParticleData()
 
@@ -255,6 +266,12 @@ void Simulation::saveGridData(std::string extra){
 
     file.write(out, true);
 
+    out.close();
+    if (!out){
+        std::cerr << "Could not write " << filename << std::endl;
+        exit = 1;
+    }
+
 } // end saveGridData()
 
 
@@ -361,6 +378,10 @@ void Simulation::saveInfo(){
              << Np                  << "\n"   // 3
              << particle_volume     << "\n";  // 4
     infoFile.close();
+    if (!infoFile){
+        std::cerr << "Could not write info.txt" << std::endl;
+        exit = 1;
+    }
 }
 
 void Simulation::saveTiming(){
@@ -373,5 +394,9 @@ void Simulation::saveTiming(){
              << runtime_euler              << "\n"   // 4
              << runtime_defgrad            << "\n";  // 5
     timeFile.close();
+    if (!timeFile){
+        std::cerr << "Could not write info_timing.txt" << std::endl;
+        exit = 1;
+    }
 }
 
diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 1e11efc..e1cfe68 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -63,6 +63,7 @@ void Simulation::createDirectory(){
     std::ifstream in(file_in, std::ios::binary);
     std::ofstream out(file_out, std::ios::binary);
     out << in.rdbuf();
+    out.close();
     if (!(in && out)){
         std::cerr << "Initial setup " << file_in << " was NOT successfully copied to " << file_out << std::endl;
         exit = 1;
@@ -153,6 +154,8 @@ void Simulation::simulate(){
     if (save_sim){
         saveInfo();
         saveParticleData();
+        if (exit == 1)
+            return;
     }
 
     // Total runtime of simulation
@@ -181,6 +184,8 @@ void Simulation::simulate(){
                 if (save_grid)
                     saveGridData();
                 // saveAvgData();
+                if (exit == 1)
+                    return;
             }
 
         }
-- 
2.43.0


From b6c1ebfd7d736a7b62b9947315fb68f6a4f7ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:11 +0000
Subject: [PATCH 11/23] fix: do not rewrite the final frame after it was
 announced

Whenever the end of the simulation is reached, the last frame was just saved;
saving it again truncated a file that last_written.txt already named.
---
 src/simulation/simulation.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index e1cfe68..439d539 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -191,12 +191,6 @@ void Simulation::simulate(){
         }
         if (std::abs(final_time-time) < min_dt*1.1 || final_time < time){
             std::cout << "The simulation ended at time = " << time << std::endl;
-            if (save_sim){
-                saveParticleData();
-                if (save_grid)
-                    saveGridData();
-                // saveAvgData();
-            }
             break;
         }
     }
-- 
2.43.0


From 0933a19d595cf157d7e3c275628515f63ec3a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:11 +0000
Subject: [PATCH 12/23] fix: remove the marker of an earlier run before
 overwriting its frames

Running again into the same folder kept the old last_written.txt while the
frames it names were being overwritten.
---
 src/simulation/simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 439d539..cdf63db 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -152,6 +152,7 @@ void Simulation::simulate(){
     final_time = end_frame * frame_dt;
 
     if (save_sim){
+        std::remove((directory + sim_name + "/last_written.txt").c_str()); // may be left from an earlier run
         saveInfo();
         saveParticleData();
         if (exit == 1)
-- 
2.43.0


From 20c1c24a3f75dda738e1c4f725fb04f323d5cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:11 +0000
Subject: [PATCH 13/23] fix: no 0/0 friction on grid nodes without mass

---
 src/simulation/p2g.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/p2g.cpp b/src/simulation/p2g.cpp
index c06ff3f..1d724d2 100644
--- a/src/simulation/p2g.cpp
+++ b/src/simulation/p2g.cpp
@@ -126,7 +126,7 @@ void Simulation::P2G(){
         else
             grid.v[l].setZero();
         //grid.v[l] = (mi > 0) ? grid.v[l]/mi : TV::Zero(); // condition ? result_if_true : result_if_false
-        if (use_mibf)
+        if (use_mibf && mi > 0)
             grid.friction[l] /= mi;
     }
 
-- 
2.43.0


From 483d69b707f6e118adc93bd8f50daef0e0e668f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:20 +0000
Subject: [PATCH 14/23] fix: zero stress beyond the tensile cap of VMVisc

The elastic deformation was reset to a rotation, but the stress was still
computed from the trial strain and thus inconsistent with it.
---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 21f9e1f..3e156fe 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -188,6 +188,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             if (p_trial < p_min * exp(-xi * particles.eps_pl_vol[p])){
                 T delta_gamma = q_trial / f_mu_prefac;
                 T eps_pl_vol_inst = -p_trial/K;
+                hencky.setZero();
                 particles.F[p] = svd.matrixU() * svd.matrixV().transpose();
                 particles.eps_pl_vol[p] += eps_pl_vol_inst;
                 particles.eps_pl_dev[p] += (1.0/d_prefac) * delta_gamma;
-- 
2.43.0


From 675dd42726b3bf63f418589b653521f0c94ed6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 15/23] fix: set p_c for MCC without hardening

With use_mibf the friction muI was computed from an uninitialised p_c.
---
 src/simulation/plasticity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 3e156fe..8623f60 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -555,6 +555,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             bool perform_rma;
             T p_c;
             if (hardening_law == HardeningLaw::NoHard){ // Exponential Explicit Hardening
+                p_c = p0;
                    perform_rma =       MCCRMAExplicit(p_stress, q_stress, exit, M, p0, beta, mu, K, f_mu_prefac);
                 // perform_rma = MCCRMAExplicitOnevar(p_stress, q_stress, exit, M, p0, beta, mu, K);
             }
-- 
2.43.0


From e954bd86bbb94cdb9669d6a34f6f1c81b0591e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 16/23] fix: keep p_special and p_c - p_stress positive in
 MCCMui

Within the tolerance of the return mapping, p_stress may lie slightly outside
of [-beta*p_c, p_c]; the square roots then gave NaN friction and viscosity,
and with use_mibf NaN velocities at the boundaries.
---
 src/simulation/plasticity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 8623f60..3d0a891 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -511,7 +511,8 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     else if (hardening_law == HardeningLaw::SinhImpl){
                         p_c = std::max( K * std::sinh(-xi*particles.eps_pl_vol[p] + std::asinh(p0/K)) , p_stress + stress_tolerance );
                     }
-                    T p_special = p_stress + beta * p_c + stress_tolerance; // always larger than 0
+                    p_c = std::max(p_c, p_stress + stress_tolerance);
+                    T p_special = std::max(p_stress + beta * p_c, T(0)) + stress_tolerance; // always larger than 0
 
                     T fac_a = f_mu_prefac * dt; // always positive
 
-- 
2.43.0


From 5dc269a3fdc7931701d723888b964170549efb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:16 +0000
Subject: [PATCH 17/23] fix: no negative mu(I) contribution under tension in
 DPMui

With cohesion (or volume correction), a yielding state may have a negative
pressure. The rate-dependent friction then became negative, and the return
mapping overshot the yield surface and even reversed the shear stress.
---
 src/simulation/plasticity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 3d0a891..1e9dcca 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -437,7 +437,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                 T p_special = p_trial+p_shift - p_tip + stress_tolerance; // p_special is positive.
 
                 T fac_a = f_mu_prefac * dt; // always positive
-                T fac_b = p_trial*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
+                T fac_b = std::max(p_trial, T(0))*(mu_2-mu_1) + f_mu_prefac*dt*fac_Q*std::sqrt(p_special) - (q_trial-q_yield);
                 T fac_c = -(q_trial-q_yield) * fac_Q * std::sqrt(p_special); // always negative 
 
                 // this is gamma_dot:
-- 
2.43.0


From 287e498c50edf7970f34fb6edb60dd870001f9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:23 +0000
Subject: [PATCH 18/23] fix: keep p on the yield surface when the implicit MCC
 return mapping stops at its midpoint

---
 src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp | 1 +
 src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 46c948f..5df67fd 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -68,6 +68,7 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < 1e-4) {
             // if p == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // the tolerance above may exceed the size of a very small yield surface
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
             
             // rescale values
diff --git a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
index 3a3fea3..8402bb3 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_sinh_onevar.hpp
@@ -63,6 +63,7 @@ bool MCCRMAImplicitSinhOnevar(T& p, T& q, int& exit, T M, T p00, T beta, T mu, T
         T midpoint = (p0 - beta * p0) * 0.5;  // Find p-center of yield surface to avoid div-by-0 error
         if (std::abs(p - midpoint) < T(1.e-4)) {
             // if p_t == midpoint then we map q to top of yield surface since no plastic change
+            p = std::min(std::max(p, -beta * p0), p0); // the tolerance above may exceed the size of a very small yield surface
             q = M * std::sqrt((p0 - p) * (beta * p0 + p) / damping_factor);
 
             // rescale values
-- 
2.43.0


From 4824c2fc6a3b0d2b28498b26b464c2e566c2450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:46 +0000
Subject: [PATCH 19/23] fix: no negative material-induced friction in DPVisc
 and MCCVisc

---
 src/simulation/plasticity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index 1e9dcca..e88d2ce 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -384,7 +384,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     if (std::abs(p_trial + p_shift) < 1e-10)
                         particles.muI[p] = 1e10;
                     else
-                        particles.muI[p] = ((q_trial - f_mu_prefac * delta_gamma) - q_cohesion) / (p_trial + p_shift);
+                        particles.muI[p] = std::max(T(0), ((q_trial - f_mu_prefac * delta_gamma) - q_cohesion) / (p_trial + p_shift)); // negative under tension
                 }
 
                 hencky -= (1.0/d_prefac) * delta_gamma * hencky_deviatoric;
@@ -682,7 +682,7 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
                     }
                     else{
                         if (use_duvaut_lions_formulation){
-                            particles.muI[p] = ( (e_mu_prefac*h_dev-q_trial*(1-b))/b ) / std::sqrt((p_stress + beta * p_c) * (p_c - p_stress));
+                            particles.muI[p] = std::max(T(0), ( (e_mu_prefac*h_dev-q_trial*(1-b))/b ) / std::sqrt((p_stress + beta * p_c) * (p_c - p_stress)));
                         }
                         else{
                             particles.muI[p] = q_stress / std::sqrt((p_stress + beta * p_c) * (p_c - p_stress));
-- 
2.43.0


From bda37b1ffe00824239df65edceca5c968ce1aec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:51 +0000
Subject: [PATCH 20/23] fix: MCC implicit return mapping overflows when the
 yield surface has vanished

---
 .../mcc_rma_implicit_exponential_onevar.hpp                | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
index 5df67fd..9cf0a57 100644
--- a/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
+++ b/src/plasticity_helpers/mcc_rma_implicit_exponential_onevar.hpp
@@ -44,6 +44,13 @@ bool MCCRMAImplicitExponentialOnevar(T& p, T& q, int& exit, T M, T p00, T beta,
         return false;
     }
 
+    // After extreme dilation the yield surface has vanished numerically and the rescaling below would overflow
+    if (p0_t < 1e-30 * p00){
+        p = std::min(std::max(p, -beta * p0_t), p0_t);
+        q = 0;
+        return true;
+    }
+
     // ALT 1: Rescale 
     T scale_factor = 1./p0_t; 
     T p0 = 1.; 
-- 
2.43.0


From e58d0af103435b011155733cbe88aafd22c67cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:31 +0000
Subject: [PATCH 21/23] fix: refuse plates of a type that does not exist in
 this dimension instead of ignoring them

---
 src/simulation/simulation.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index cdf63db..1d44965 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -84,6 +84,18 @@ void Simulation::simulate(){
         return;
     }
 
+    for (const auto& plate : plates){
+        bool valid_type = plate->plate_type == PlateType::top  || plate->plate_type == PlateType::bottom
+                       || plate->plate_type == PlateType::left || plate->plate_type == PlateType::right;
+        if (dim == 3)
+            valid_type = valid_type || plate->plate_type == PlateType::front || plate->plate_type == PlateType::back;
+        if (!valid_type){
+            debug("Invalid plate type for a ", dim, "D simulation");
+            exit = 1;
+            return;
+        }
+    }
+
     if (dim == 3){
         debug("This is a 3D simulation.");
     }
-- 
2.43.0


From 591eeed7c66e0de370094935722526668b99eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:45 +0000
Subject: [PATCH 22/23] fix: stop the run on an invalid elastic or plastic
 model

---
 src/simulation/plasticity.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/plasticity.cpp b/src/simulation/plasticity.cpp
index e88d2ce..38c0406 100644
--- a/src/simulation/plasticity.cpp
+++ b/src/simulation/plasticity.cpp
@@ -26,6 +26,10 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
             TV Kirchhoff_principal = lambda*e_trace*TV::Ones() + T(2.)*mu*hencky;
             particles.tau[p] = svd.matrixU() * Kirchhoff_principal.array().matrix().asDiagonal() * svd.matrixU().transpose();
         }
+        else{
+            debug("You specified an unvalid ELASTIC model!");
+            exit = 1;
+        }
     }
 
     else if (plastic_model == PlasticModel::VM || plastic_model == PlasticModel::DP || plastic_model == PlasticModel::DPSoft || plastic_model == PlasticModel::MCC || plastic_model == PlasticModel::VMVisc || plastic_model == PlasticModel::DPVisc || plastic_model == PlasticModel::MCCVisc || plastic_model == PlasticModel::DPMui || plastic_model == PlasticModel::MCCMui){
@@ -707,12 +711,14 @@ void Simulation::plasticity(unsigned int p, unsigned int & plastic_count, TM & F
         }
         else{
             debug("You specified an unvalid ELASTIC model!");
+            exit = 1;
         }
 
     } // end plastic_model type
 
     else{
         debug("You specified an unvalid PLASTIC model!");
+        exit = 1;
     }
 
 } // end plasticity
-- 
2.43.0


From bc98013411f2807bcb671de489d2c25fe7862fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:01 +0000
Subject: [PATCH 23/23] fix: keep periodic images inside the grid when rounding
 puts one on the outer edge

An image 4 dx outside the domain needs a node one further out than the
grid had; the particle-to-grid loops then read past the end of grid.x.
---
 src/simulation/simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/simulation.cpp b/src/simulation/simulation.cpp
index 1d44965..e77f272 100644
--- a/src/simulation/simulation.cpp
+++ b/src/simulation/simulation.cpp
@@ -230,7 +230,7 @@ void Simulation::advanceStep(){
 
     if (pbc){
         if (current_time_step == 0)
-            remeshFixed(4);
+            remeshFixed(5); // one more than the layer of images, as rounding may put an image on its outer edge
     }
     else{
         if (current_time_step == 0) {
-- 
2.43.0

