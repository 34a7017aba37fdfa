From fbcc005e971a148bffe4c7e9258b1737c295c064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:54 +0000
Subject: [PATCH 01/37] fix: V4 move_p never returns for a particle on a
 reflecting wall with zero normal displacement

---
 src/species_advance/standard/move_p.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/species_advance/standard/move_p.cc b/src/species_advance/standard/move_p.cc
index d1c3b20..ef320f6 100644
--- a/src/species_advance/standard/move_p.cc
+++ b/src/species_advance/standard/move_p.cc
@@ -85,10 +85,14 @@ move_p( particle_t       * RESTRICT ALIGNED(128) p,
     // zero, can generally never be smaller than FLT_EPS/2.  Thus,
     // likewise, the divide will never underflow either.
 
+    // A component without displacement never ends the streak.  (A
+    // particle exactly on a reflecting boundary with zero displacement
+    // normal to it would otherwise be reflected over and over.)
+
     // FIXME: THIS COULD PROBABLY BE DONE EVEN FASTER
     sgn_dr = copysign( one,  dr );
     v0     = copysign( tiny, dr );
-    store_4x1( (sgn_dr-r) / ((dr+dr)+v0), stack_vf );
+    store_4x1( merge( dr==v4float( 0.0f ), one, (sgn_dr-r) / ((dr+dr)+v0) ), stack_vf );
     /**/                          type = 3;             f0 = 1;
     f1 = stack_vf[0]; if( f1<f0 ) type = 0; if( f1<f0 ) f0 = f1; // Branchless cmov
     f1 = stack_vf[1]; if( f1<f0 ) type = 1; if( f1<f0 ) f0 = f1;
-- 
2.43.0


From e8456a88b6f57354c073bd8fda35e44ad39b7783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:29 +0000
Subject: [PATCH 02/37] fix: poynting_flux clears its whole buffer

---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..04261c9 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(float));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From ba18675f477b1442e3f0772500a8f387199f438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:27 +0000
Subject: [PATCH 03/37] fix: legacy sort leaves a stale partition behind when
 the species is empty

---
 src/species_advance/standard/sort_p.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..3992802 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -43,9 +43,12 @@ sort_p( species_t * sp )
 
   int i, j;
 
-  // Do not need to sort.
+  // Do not need to sort, but every voxel is empty now.
   if ( np == 0 )
+  {
+    CLEAR( partition, nc1 );
     return;
+  }
 
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
-- 
2.43.0


From d25d1020398636db9a329c940b69cbe28c561ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:00 +0000
Subject: [PATCH 04/37] fix: shuffle truncated its 64-bit draws to 32 bits and
 could not reach most orders

---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From 522a49b1c50de003c62916392ff258b11afd61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 05/37] fix: runs with hard sphere or large angle Coulomb
 collisions ended in an error

The parameters of a unary or binary collision model stayed registered with the
checkpoint service after the model was deleted, so halt_services called ERROR.
---
 src/collision/binary.cc | 8 ++++++++
 src/collision/unary.cc  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/collision/binary.cc b/src/collision/binary.cc
index 2fb761f..bde3388 100644
--- a/src/collision/binary.cc
+++ b/src/collision/binary.cc
@@ -74,6 +74,14 @@ delete_binary_collision_model( collision_op_t * cop )
   binary_collision_model_t * cm
     = (binary_collision_model_t *) cop->params;
 
+  // The model is the last user of its parameters.  Drop their registration or
+  // halt_checkpt will complain about them when the run ends.
+
+  if ( object_id( cm->params ) )
+  {
+    UNREGISTER_OBJECT( cm->params );
+  }
+
   FREE( cm->name );
   FREE( cm );
 
diff --git a/src/collision/unary.cc b/src/collision/unary.cc
index b0964a7..29b56f3 100644
--- a/src/collision/unary.cc
+++ b/src/collision/unary.cc
@@ -60,6 +60,14 @@ delete_unary_collision_model( collision_op_t * cop )
 {
   unary_collision_model_t * cm = ( unary_collision_model_t * ) cop->params;
 
+  // The model is the last user of its parameters.  Drop their registration or
+  // halt_checkpt will complain about them when the run ends.
+
+  if ( object_id( cm->params ) )
+  {
+    UNREGISTER_OBJECT( cm->params );
+  }
+
   FREE( cm->name );
   FREE( cm );
 
-- 
2.43.0


From bd44c37489189cad6f7d32da228fbd51f537cdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 06/37] fix: a checkpoint written during initialization could
 not be restored

The simulation pointer was only registered after initialize(), which already
calls the user diagnostics.
---
 deck/main.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deck/main.cc b/deck/main.cc
index f9f7fb1..a2ca10b 100644
--- a/deck/main.cc
+++ b/deck/main.cc
@@ -97,8 +97,11 @@ int main(int argc, char** argv)
             log_printf( "*** Initializing\n" );
         }
         simulation = new vpic_simulation();
-        simulation->initialize( argc, argv );
+
+        // Register before initializing as initialize runs the user diagnostics,
+        // which may write a checkpoint already
         REGISTER_OBJECT( &simulation, checkpt_main, restore_main, NULL );
+        simulation->initialize( argc, argv );
     }
 
     // Do any post init/restore simulation modifications
-- 
2.43.0


From 0de4480dc279a3ddc1f6ce3f73eec8e1f5d2c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 07/37] fix: short checkpoint reads and writes were ignored

A truncated checkpoint restored uninitialised state and a checkpoint on a full
disk could pass for a good one.
---
 src/util/checkpt/checkpt_io.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/checkpt/checkpt_io.h b/src/util/checkpt/checkpt_io.h
index 2dd6513..53c8221 100644
--- a/src/util/checkpt/checkpt_io.h
+++ b/src/util/checkpt/checkpt_io.h
@@ -48,8 +48,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->read(reinterpret_cast<char *>(data), sz);
+		if(fileIO->read(reinterpret_cast<char *>(data), sz) != sz) {
+  			ERROR(("Unable to read %lu bytes from the checkpt (truncated?)",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_read
 
 	static void checkpt_write(checkpt_t * checkpt, const void * data,
@@ -59,8 +61,10 @@ struct CheckPtIO {
 
 		FileIO * fileIO = reinterpret_cast<FileIO *>(checkpt);
 
-		// FIXME: add return values
-		fileIO->write(reinterpret_cast<const char *>(data), sz);
+		if(fileIO->write(reinterpret_cast<const char *>(data), sz) != sz) {
+  			ERROR(("Unable to write %lu bytes to the checkpt (disk full?)",
+				(unsigned long)sz));
+		} // if
 	} // checkpt_write
 
 }; // struct CheckPtIO
-- 
2.43.0


From 7ddcaf0a76774b3ea75102ba12b4c31b908ba761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 08/37] fix: refuse to append a particle boundary condition or
 collision operator twice

The last element of a list has no next either, so appending it again
passed the check and made a list that never ends.
---
 src/boundary/boundary.cc   | 5 ++++-
 src/collision/collision.cc | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/boundary/boundary.cc b/src/boundary/boundary.cc
index 5e3f61d..5893c13 100644
--- a/src/boundary/boundary.cc
+++ b/src/boundary/boundary.cc
@@ -66,8 +66,11 @@ delete_particle_bc_list( particle_bc_t * pbc_list ) {
 particle_bc_t *
 append_particle_bc( particle_bc_t * pbc,
                     particle_bc_t ** pbc_list ) {
+  particle_bc_t * p;
   if( !pbc || !pbc_list ) ERROR(( "Bad args" ));
-  if( pbc->next ) ERROR(( "Particle boundary condition already in a list" ));
+  /* The last element of a list has no next either */
+  LIST_FOR_EACH( p, *pbc_list ) if( p==pbc ) break;
+  if( p || pbc->next ) ERROR(( "Particle boundary condition already in a list" ));
   // Assumes reflective/absorbing are -1, -2
   pbc->id   = -3-num_particle_bc( *pbc_list );
   pbc->next = *pbc_list;
diff --git a/src/collision/collision.cc b/src/collision/collision.cc
index 2c1c89b..827f394 100644
--- a/src/collision/collision.cc
+++ b/src/collision/collision.cc
@@ -74,7 +74,11 @@ delete_collision_op_list( collision_op_t * cop_list ) {
 collision_op_t *
 append_collision_op( collision_op_t * cop,
                      collision_op_t ** cop_list ) {
+  collision_op_t * c;
   if( !cop || !cop_list || cop->next ) ERROR(( "Bad args" ));
+  /* The last element of a list has no next either */
+  LIST_FOR_EACH( c, *cop_list )
+    if( c==cop ) ERROR(( "Collision operator already in a list" ));
   cop->next = *cop_list;
   *cop_list = cop;
   return cop;
-- 
2.43.0


From ce441c9b0acdc3b3852d7e6b529386914dc56ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 09/37] fix: detect obsolete arguments in OpenMP builds too

Only the pthread dispatcher looked for them; an OpenMP build ignored
-tpp, -restore and -restart silently.
---
 src/util/pipelines/pipelines_helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util/pipelines/pipelines_helper.cc b/src/util/pipelines/pipelines_helper.cc
index 60c6d80..224c1e9 100644
--- a/src/util/pipelines/pipelines_helper.cc
+++ b/src/util/pipelines/pipelines_helper.cc
@@ -14,6 +14,9 @@ omp_boot( int * pargc,
 
   if ( omp_helper.n_pipeline != 0 ) ERROR(( "OMP container has already booted" ));
 
+  // Attempt to detect if any old-style arguments exist, and if so warn the user.
+  detect_old_style_arguments( pargc, pargv );
+
   n_pipeline = strip_cmdline_int( pargc, pargv, "--tpp", 1 );
 
   omp_set_num_threads( n_pipeline );
-- 
2.43.0


From d8dff58485ab2ec42a58cc437534f63a2be8f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 10/37] fix: give every particle a Child-Langmuir emitter emits
 its weight

The weight was overwritten by the age of the first particle of a face,
so all further ones of that face got a random weight.
---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From 0cb39acb11a7d45b1d32e160bec5b5fbd0943be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 11/37] fix: do not age an injected particle without a mover
 for it

The warning was given but the mover was still written past the end of
the mover array.
---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..4ece4cb 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From 209f1731ee987eea284bc661755958ff68591eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:19 +0000
Subject: [PATCH 12/37] fix: refuse species a particle boundary handler has no
 storage for

maxwellian_reflux and absorb_tally size their arrays by the species that are
defined when the handler is made. A species defined later indexed past their
ends, silently corrupting memory and losing its own count or temperatures.
---
 src/boundary/absorb_tally.cc      | 3 +++
 src/boundary/maxwellian_reflux.cc | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/boundary/absorb_tally.cc b/src/boundary/absorb_tally.cc
index 3a1468a..52b112d 100644
--- a/src/boundary/absorb_tally.cc
+++ b/src/boundary/absorb_tally.cc
@@ -23,6 +23,9 @@ interact_absorb_tally( absorb_tally_t      * RESTRICT at,
                        particle_injector_t * RESTRICT pi,
                        int                            max_pi,
                        int                            face ) {
+  if( sp->id<0 || sp->id>=num_species( at->sp_list ) )
+    ERROR(( "Species \"%s\" is not in the species list of this handler",
+            sp->name ));
   at->tally[ sp->id ]++;
   accumulate_rhob( at->fa->f, p, at->fa->g, sp->q );
   return 0;
diff --git a/src/boundary/maxwellian_reflux.cc b/src/boundary/maxwellian_reflux.cc
index b4f411f..45820d6 100644
--- a/src/boundary/maxwellian_reflux.cc
+++ b/src/boundary/maxwellian_reflux.cc
@@ -67,6 +67,9 @@ interact_maxwellian_reflux( maxwellian_reflux_t * RESTRICT mr,
   /**/  rng_t  * RESTRICT rng = mr->rng;
 
   const int32_t sp_id   = sp->id;
+  if( sp_id<0 || sp_id>=num_species( mr->sp_list ) )
+    ERROR(( "Species \"%s\" is not in the species list of this handler",
+            sp->name ));
   const float   ut_para = mr->ut_para[sp_id]; 
   const float   ut_perp = mr->ut_perp[sp_id];
 
@@ -236,6 +239,9 @@ set_reflux_temp( /**/  particle_bc_t * RESTRICT pbc,
                  float ut_perp ) {
   if( !pbc || !sp || ut_para<0 || ut_perp<0 ) ERROR(( "Bad args" ));
   maxwellian_reflux_t * RESTRICT mr = (maxwellian_reflux_t *)pbc->params;
+  if( sp->id<0 || sp->id>=num_species( mr->sp_list ) )
+    ERROR(( "Species \"%s\" is not in the species list of this handler",
+            sp->name ));
   mr->ut_para[sp->id] = ut_para;
   mr->ut_perp[sp->id] = ut_perp;
 }
-- 
2.43.0


From 6a79b0ff495b858fc833edcdffc0b1b23317a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 13/37] fix: draw collision pairs within the voxel however many
 particles it holds

UINT_MAX/(UINT_MAX/nk) exceeds nk, not just equals it, for most nk above
65536. The largest random words then picked a particle of the next voxel, or
one beyond the end of the species.
---
 src/collision/pipeline/binary_pipeline.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index e359530..714258a 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -117,8 +117,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
          of getting k on 0:nk-1 and l on 0:nl-1 and uses the
          preferred high order randgen bits). */
   
-      do { k = (int)(uirand(rng)/rk); } while( k==nk ); k += k0;
-      do { l = (int)(uirand(rng)/rl); } while( l==nl ); l += l0;
+      do { k = (int)(uirand(rng)/rk); } while( k>=nk ); k += k0;
+      do { l = (int)(uirand(rng)/rl); } while( l>=nl ); l += l0;
      
       /* Compute the probability that a physical particle in the
          species whose candidate computational particle has the least
-- 
2.43.0


From 010889d64448aab79c3053db59403d70fac90151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 14/37] fix: leave comoving particles alone in Takizuka-Abe
 without scattering

With a zero scattering width (zero cvar0, a neutral species or zero weights),
a pair without relative motion evaluated 0*inf and got momenta that are not a
number.
---
 src/collision/pipeline/takizuka_abe_pipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/pipeline/takizuka_abe_pipeline.cc b/src/collision/pipeline/takizuka_abe_pipeline.cc
index 2bfd89a..9fe7970 100644
--- a/src/collision/pipeline/takizuka_abe_pipeline.cc
+++ b/src/collision/pipeline/takizuka_abe_pipeline.cc
@@ -47,7 +47,7 @@
     t0 = 1;                                                             \
     t2 = 1/ur;                                                          \
     t1 = std*sqrtf(t2)*t2;                                              \
-    CMOV(t1,t0);                                                        \
+    t1 = (t1<t0) ? t1 : t0; /* Also when std=ur=0 (t1 is not a number) */ \
     dd = t1*frandn(rng);                                                \
                                                                         \
     t0 = 2*dd/(1+dd*dd);                                                \
-- 
2.43.0


From d0d5d205cfde81b702ffa39f5eafd5ade536e179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 15/37] fix: refuse a Langevin operator with too few random
 number generators

Every pipeline uses its own generator. Like the other collision operators,
refuse a pool with fewer instead of reading past its end.
---
 src/collision/langevin.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision/langevin.cc b/src/collision/langevin.cc
index f7bf2a1..ed5043e 100644
--- a/src/collision/langevin.cc
+++ b/src/collision/langevin.cc
@@ -64,9 +64,10 @@ langevin( float kT,
 {
   langevin_t * l;
 
-  if ( !sp    ||
-       !rp    ||
-       kT < 0 ||
+  if ( !sp                     ||
+       !rp                     ||
+       rp->n_rng < N_PIPELINE  ||
+       kT < 0                  ||
        nu < 0 )
   {
     ERROR( ( "Bad args" ) );
-- 
2.43.0


From a5bb450a7d6d9a18fb8b78ed11575b57dae21097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 16/37] fix: end each record of a species dump with a newline

The records of all species ran together on one line, so that the charge of
one species and the name of the next could not be told apart.
---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..9108a46 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From 0caa71a57d1344c65effc6aa09c15e71f989ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 17/37] fix: include the ghost cells in interleaved hydro dumps

The array was written as if it had no ghost cells: the dimensions did not
match the storage, so the first nx*ny*nz cells of the padded array were
written, and the last ones, including interior cells, were missing.
field_dump and the banded format write all cells.
---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 9108a46..ff565e0 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -837,9 +837,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From 06c16d6e26353063cc7f026a6fa539aab0fb4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 18/37] fix: do not shift the unstrided axes of strided dumps

When only some of the strides were 1, the axes without a stride were read one
cell too low: the low ghost cell was written twice and the last interior cell
was missing. For a 2d mesh (one cell along an axis) only ghost values were
written.
---
 src/vpic/dump.cc | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index ff565e0..ddea3b5 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -530,6 +530,15 @@ vpic_simulation::global_header( const char * base,
   if( fileIO.close() ) ERROR(( "File close failed on global header!!!" ));
 }
 
+// Mesh index of the k-th (k>0) interior element output with the given stride.
+
+static inline size_t
+strided_index( size_t k,
+               size_t stride )
+{
+  return ( stride == 1 ) ? k : k*stride-1;
+}
+
 void
 vpic_simulation::field_dump( DumpParameters & dumpParams,
 			     field_t *f,
@@ -653,9 +662,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : strided_index( k, kstride );
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : strided_index( j, jstride );
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : strided_index( i, istride );
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               fileIO.write(&fref[varlist[v]], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
@@ -690,9 +699,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : strided_index( k, kstride );
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : strided_index( j, jstride );
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : strided_index( i, istride );
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -819,9 +828,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : strided_index( k, kstride );
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : strided_index( j, jstride );
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : strided_index( i, istride );
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -852,9 +861,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : strided_index( k, kstride );
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : strided_index( j, jstride );
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : strided_index( i, istride );
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From 27429f4e991d6093ab9e067db83dff45abe5688a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:22 +0000
Subject: [PATCH 19/37] fix: write the selected variables of banded dumps only

The materials of a field are 16 bit numbers, as the global header says, but
banded dumps took them for 32 bit words: they wrote words that hold two
materials and, for fmat and cmat, values of the next cell (beyond the array
for the last one). Mask bits that belong to no variable were counted as
variables and made the dump write through uninitialized variable numbers.
---
 src/vpic/dump.cc | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index ddea3b5..ee1c668 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -539,6 +539,19 @@ strided_index( size_t k,
   return ( stride == 1 ) ? k : k*stride-1;
 }
 
+// Write a single variable of a cell. The materials, which come last, are
+// smaller than the other variables.
+
+static void
+write_field_variable( FileIO & fileIO,
+                      const field_t * f,
+                      size_t v )
+{
+  const size_t first_material = total_field_variables - 8;
+  if ( v < first_material ) fileIO.write( &f->ex + v, 1 );
+  else fileIO.write( &f->ematx + ( v - first_material ), 1 );
+}
+
 void
 vpic_simulation::field_dump( DumpParameters & dumpParams,
 			     field_t *f,
@@ -631,12 +644,11 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     WRITE_ARRAY_HEADER(f, 3, dim, fileIO);
 
     // Create a variable list of field values to output.
-    size_t numvars = std::min(dumpParams.output_vars.bitsum(),
-                              total_field_variables);
-    size_t * varlist = new size_t[numvars];
+    size_t numvars = 0;
+    size_t varlist[total_field_variables];
 
-    for(size_t i(0), c(0); i<total_field_variables; i++)
-      if(dumpParams.output_vars.bitset(i)) varlist[c++] = i;
+    for(size_t i(0); i<total_field_variables; i++)
+      if(dumpParams.output_vars.bitset(i)) varlist[numvars++] = i;
 
     if( rank()==VERBOSE_rank ) printf("\nBEGIN_OUTPUT\n");
 
@@ -649,8 +661,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) {
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, &f(i,j,k), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -665,8 +676,7 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : strided_index( k, kstride );
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : strided_index( j, jstride );
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : strided_index( i, istride );
-              const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              write_field_variable( fileIO, &f(ioff,joff,koff), varlist[v] );
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
@@ -675,8 +685,6 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       }
     }
 
-    delete[] varlist;
-
   }
 
   // band_interleave
@@ -808,11 +816,10 @@ vpic_simulation::hydro_dump( const char * speciesname,
     /*
      * Create a variable list of hydro values to output.
      */
-    size_t numvars = std::min(dumpParams.output_vars.bitsum(),
-                              total_hydro_variables);
-    size_t * varlist = new size_t[numvars];
-    for(size_t i(0), c(0); i<total_hydro_variables; i++)
-      if( dumpParams.output_vars.bitset(i) ) varlist[c++] = i;
+    size_t numvars = 0;
+    size_t varlist[total_hydro_variables];
+    for(size_t i(0); i<total_hydro_variables; i++)
+      if( dumpParams.output_vars.bitset(i) ) varlist[numvars++] = i;
 
     // More efficient for standard case
     if(istride == 1 && jstride == 1 && kstride == 1)
@@ -837,8 +844,6 @@ vpic_simulation::hydro_dump( const char * speciesname,
       }
       }
 
-    delete[] varlist;
-
   }
 
   // band_interleave
-- 
2.43.0


From b44132736ebcb4c3c33f2e252213152d5d8381fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:29 +0000
Subject: [PATCH 20/37] fix: load only the words asked for in the 512 bit
 transposing loads

They demanded 64 byte alignment of places that the interface and the field
solver only align to 8 or 16 bytes, and crashed, and read beyond them.
---
 src/util/v16/v16_avx512.h | 128 +++++++++++++++++++-------------------
 1 file changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 92452e4..d083bb4 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -624,22 +624,22 @@ namespace v16
     __m512 t00, t01, t02,      t04,      t06,      t08, t09, t10,      t12,      t14;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a00 ) ) );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a01 ) ) );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a02 ) ) );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a03 ) ) );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a04 ) ) );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a05 ) ) );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a06 ) ) );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a07 ) ) );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a08 ) ) );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a09 ) ) );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a10 ) ) );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a11 ) ) );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a12 ) ) );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a13 ) ) );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a14 ) ) );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_castps128_ps512( _mm_castpd_ps( _mm_load_sd( (const double *)a15 ) ) );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t02   = _mm512_unpacklo_ps( u02, u03 );                            //  32  48  33  49  36  52  37  53  40  56  41  57  44  60  45  61
@@ -700,22 +700,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a00 ) );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a01 ) );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a02 ) );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a03 ) );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a04 ) );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a05 ) );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a06 ) );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a07 ) );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a08 ) );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a09 ) );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a10 ) );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a11 ) );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a12 ) );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a13 ) );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a14 ) );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a15 ) );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
@@ -780,22 +780,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a00 ) );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a01 ) );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a02 ) );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a03 ) );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a04 ) );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a05 ) );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a06 ) );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a07 ) );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a08 ) );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a09 ) );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a10 ) );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a11 ) );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a12 ) );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a13 ) );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a14 ) );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_castps128_ps512( _mm_load_ps( (const float *)a15 ) );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
@@ -868,22 +868,22 @@ namespace v16
     __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
     __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    u00   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a00 ) );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
+    u01   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a01 ) );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
+    u02   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a02 ) );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
+    u03   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a03 ) );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
+    u04   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a04 ) );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
+    u05   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a05 ) );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
+    u06   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a06 ) );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
+    u07   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a07 ) );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
+    u08   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a08 ) );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
+    u09   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a09 ) );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
+    u10   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a10 ) );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
+    u11   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a11 ) );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
+    u12   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a12 ) );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
+    u13   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a13 ) );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
+    u14   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a14 ) );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
+    u15   = _mm512_castps256_ps512( _mm256_load_ps( (const float *)a15 ) );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
 
     t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
     t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
-- 
2.43.0


From 33af15678d3578c1db4156edc7e227c566d4376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 21/37] fix: negating a vector of floats takes minus zero for
 zero, as for a float

---
 src/util/v16/v16_avx512.h      |  2 +-
 src/util/v16/v16_portable.h    | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v0.h | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v1.h |  2 +-
 src/util/v4/v4_portable.h      |  8 ++++----
 src/util/v4/v4_portable_v0.h   |  8 ++++----
 src/util/v4/v4_portable_v1.h   |  2 +-
 src/util/v8/v8_portable.h      | 16 ++++++++--------
 src/util/v8/v8_portable_v0.h   | 16 ++++++++--------
 src/util/v8/v8_portable_v1.h   |  2 +-
 10 files changed, 60 insertions(+), 60 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index d083bb4..c185b7e 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -2529,7 +2529,7 @@ namespace v16
     v16int b;
 
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index b71cb49..4d2ae65 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable_v0.h b/src/util/v16/v16_portable_v0.h
index b71cb49..4d2ae65 100644
--- a/src/util/v16/v16_portable_v0.h
+++ b/src/util/v16/v16_portable_v0.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable_v1.h b/src/util/v16/v16_portable_v1.h
index e021fc3..ced0382 100644
--- a/src/util/v16/v16_portable_v1.h
+++ b/src/util/v16/v16_portable_v1.h
@@ -3304,7 +3304,7 @@ namespace v16
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..58df873 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable_v0.h b/src/util/v4/v4_portable_v0.h
index 1298169..58df873 100644
--- a/src/util/v4/v4_portable_v0.h
+++ b/src/util/v4/v4_portable_v0.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable_v1.h b/src/util/v4/v4_portable_v1.h
index 125b800..8ea2d71 100644
--- a/src/util/v4/v4_portable_v1.h
+++ b/src/util/v4/v4_portable_v1.h
@@ -913,7 +913,7 @@ namespace v4
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index e59b145..a57b356 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable_v0.h b/src/util/v8/v8_portable_v0.h
index e59b145..a57b356 100644
--- a/src/util/v8/v8_portable_v0.h
+++ b/src/util/v8/v8_portable_v0.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable_v1.h b/src/util/v8/v8_portable_v1.h
index 6f3eb04..13f68b6 100644
--- a/src/util/v8/v8_portable_v1.h
+++ b/src/util/v8/v8_portable_v1.h
@@ -1238,7 +1238,7 @@ namespace v8
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 8; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
-- 
2.43.0


From 95e977c65d4c2d81dd5055be0218d4095eb7d115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 22/37] fix: copysign of the portable vector classes copies the
 sign of minus zero and NaN

---
 src/util/v16/v16_portable.h    | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v0.h | 32 ++++++++++++++++----------------
 src/util/v16/v16_portable_v1.h |  2 +-
 src/util/v4/v4_portable.h      |  8 ++++----
 src/util/v4/v4_portable_v0.h   |  8 ++++----
 src/util/v4/v4_portable_v1.h   |  2 +-
 src/util/v8/v8_portable.h      | 16 ++++++++--------
 src/util/v8/v8_portable_v0.h   | 16 ++++++++--------
 src/util/v8/v8_portable_v1.h   |  2 +-
 9 files changed, 59 insertions(+), 59 deletions(-)

diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index 4d2ae65..7b0824d 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3871,67 +3871,67 @@ namespace v16
     float t;
 
     t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
+    if( b.i[ 0] < 0 ) t = -t;
     c.f[ 0] = t;
 
     t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
+    if( b.i[ 1] < 0 ) t = -t;
     c.f[ 1] = t;
 
     t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
+    if( b.i[ 2] < 0 ) t = -t;
     c.f[ 2] = t;
 
     t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
+    if( b.i[ 3] < 0 ) t = -t;
     c.f[ 3] = t;
 
     t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
+    if( b.i[ 4] < 0 ) t = -t;
     c.f[ 4] = t;
 
     t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
+    if( b.i[ 5] < 0 ) t = -t;
     c.f[ 5] = t;
 
     t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
+    if( b.i[ 6] < 0 ) t = -t;
     c.f[ 6] = t;
 
     t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
+    if( b.i[ 7] < 0 ) t = -t;
     c.f[ 7] = t;
 
     t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
+    if( b.i[ 8] < 0 ) t = -t;
     c.f[ 8] = t;
 
     t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
+    if( b.i[ 9] < 0 ) t = -t;
     c.f[ 9] = t;
 
     t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
+    if( b.i[10] < 0 ) t = -t;
     c.f[10] = t;
 
     t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
+    if( b.i[11] < 0 ) t = -t;
     c.f[11] = t;
 
     t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
+    if( b.i[12] < 0 ) t = -t;
     c.f[12] = t;
 
     t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
+    if( b.i[13] < 0 ) t = -t;
     c.f[13] = t;
 
     t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
+    if( b.i[14] < 0 ) t = -t;
     c.f[14] = t;
 
     t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
+    if( b.i[15] < 0 ) t = -t;
     c.f[15] = t;
 
     return c;
diff --git a/src/util/v16/v16_portable_v0.h b/src/util/v16/v16_portable_v0.h
index 4d2ae65..7b0824d 100644
--- a/src/util/v16/v16_portable_v0.h
+++ b/src/util/v16/v16_portable_v0.h
@@ -3871,67 +3871,67 @@ namespace v16
     float t;
 
     t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
+    if( b.i[ 0] < 0 ) t = -t;
     c.f[ 0] = t;
 
     t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
+    if( b.i[ 1] < 0 ) t = -t;
     c.f[ 1] = t;
 
     t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
+    if( b.i[ 2] < 0 ) t = -t;
     c.f[ 2] = t;
 
     t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
+    if( b.i[ 3] < 0 ) t = -t;
     c.f[ 3] = t;
 
     t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
+    if( b.i[ 4] < 0 ) t = -t;
     c.f[ 4] = t;
 
     t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
+    if( b.i[ 5] < 0 ) t = -t;
     c.f[ 5] = t;
 
     t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
+    if( b.i[ 6] < 0 ) t = -t;
     c.f[ 6] = t;
 
     t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
+    if( b.i[ 7] < 0 ) t = -t;
     c.f[ 7] = t;
 
     t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
+    if( b.i[ 8] < 0 ) t = -t;
     c.f[ 8] = t;
 
     t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
+    if( b.i[ 9] < 0 ) t = -t;
     c.f[ 9] = t;
 
     t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
+    if( b.i[10] < 0 ) t = -t;
     c.f[10] = t;
 
     t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
+    if( b.i[11] < 0 ) t = -t;
     c.f[11] = t;
 
     t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
+    if( b.i[12] < 0 ) t = -t;
     c.f[12] = t;
 
     t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
+    if( b.i[13] < 0 ) t = -t;
     c.f[13] = t;
 
     t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
+    if( b.i[14] < 0 ) t = -t;
     c.f[14] = t;
 
     t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
+    if( b.i[15] < 0 ) t = -t;
     c.f[15] = t;
 
     return c;
diff --git a/src/util/v16/v16_portable_v1.h b/src/util/v16/v16_portable_v1.h
index ced0382..fdbe0c6 100644
--- a/src/util/v16/v16_portable_v1.h
+++ b/src/util/v16/v16_portable_v1.h
@@ -3436,7 +3436,7 @@ namespace v16
     for( int j = 0; j < 16; j++ )
     {
       t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
+      if( b.i[j] < 0 ) t = -t;
       c.f[j] = t;
     }
 
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 58df873..1461a81 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -1081,19 +1081,19 @@ namespace v4
     float t;
 
     t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
+    if ( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
+    if ( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
+    if ( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
+    if ( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     return c;
diff --git a/src/util/v4/v4_portable_v0.h b/src/util/v4/v4_portable_v0.h
index 58df873..1461a81 100644
--- a/src/util/v4/v4_portable_v0.h
+++ b/src/util/v4/v4_portable_v0.h
@@ -1081,19 +1081,19 @@ namespace v4
     float t;
 
     t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
+    if ( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
+    if ( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
+    if ( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
+    if ( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     return c;
diff --git a/src/util/v4/v4_portable_v1.h b/src/util/v4/v4_portable_v1.h
index 8ea2d71..6f66f95 100644
--- a/src/util/v4/v4_portable_v1.h
+++ b/src/util/v4/v4_portable_v1.h
@@ -1048,7 +1048,7 @@ namespace v4
     for( int j = 0; j < 4; j++ )
     {
       t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
+      if( b.i[j] < 0 ) t = -t;
       c.f[j] = t;
     }
 
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index a57b356..eaa30ee 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1541,35 +1541,35 @@ namespace v8
     float t;
 
     t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
+    if( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
+    if( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
+    if( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
+    if( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
+    if( b.i[4] < 0 ) t = -t;
     c.f[4] = t;
 
     t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
+    if( b.i[5] < 0 ) t = -t;
     c.f[5] = t;
 
     t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
+    if( b.i[6] < 0 ) t = -t;
     c.f[6] = t;
 
     t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
+    if( b.i[7] < 0 ) t = -t;
     c.f[7] = t;
 
     return c;
diff --git a/src/util/v8/v8_portable_v0.h b/src/util/v8/v8_portable_v0.h
index a57b356..eaa30ee 100644
--- a/src/util/v8/v8_portable_v0.h
+++ b/src/util/v8/v8_portable_v0.h
@@ -1541,35 +1541,35 @@ namespace v8
     float t;
 
     t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
+    if( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
+    if( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
+    if( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
+    if( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
+    if( b.i[4] < 0 ) t = -t;
     c.f[4] = t;
 
     t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
+    if( b.i[5] < 0 ) t = -t;
     c.f[5] = t;
 
     t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
+    if( b.i[6] < 0 ) t = -t;
     c.f[6] = t;
 
     t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
+    if( b.i[7] < 0 ) t = -t;
     c.f[7] = t;
 
     return c;
diff --git a/src/util/v8/v8_portable_v1.h b/src/util/v8/v8_portable_v1.h
index 13f68b6..ab8fff2 100644
--- a/src/util/v8/v8_portable_v1.h
+++ b/src/util/v8/v8_portable_v1.h
@@ -1370,7 +1370,7 @@ namespace v8
     for( int j = 0; j < 8; j++ )
     {
       t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
+      if( b.i[j] < 0 ) t = -t;
       c.f[j] = t;
     }
 
-- 
2.43.0


From 23ecb5a8eb0cf63f52eb8442d17e497ed33e7759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 23/37] fix: a NaN differs from everything and is true in the
 256 bit classes too

---
 src/util/v8/v8_avx.h  | 10 +++++-----
 src/util/v8/v8_avx2.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/v8/v8_avx.h b/src/util/v8/v8_avx.h
index 2fd8c23..23d5208 100644
--- a/src/util/v8/v8_avx.h
+++ b/src/util/v8/v8_avx.h
@@ -1384,7 +1384,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1393,8 +1393,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1404,8 +1404,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
diff --git a/src/util/v8/v8_avx2.h b/src/util/v8/v8_avx2.h
index 315969f..0961d16 100644
--- a/src/util/v8/v8_avx2.h
+++ b/src/util/v8/v8_avx2.h
@@ -1580,7 +1580,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1589,8 +1589,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1600,8 +1600,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
-- 
2.43.0


From ab7c1de6f09633f44676088b0bc757d2b5a975e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 24/37] fix: set_point_region_bc with a handler for the
 interior did not compile

---
 deck/wrapper.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index f5b5c81..2f629c4 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -176,12 +176,12 @@ vpic_simulation::user_particle_collisions( void )
             if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
           }                                                              \
           if( _ipbc ) {                                                  \
-            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc         \
-            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc         \
-            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc         \
-            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc         \
-            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc         \
-            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc         \
+            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
+            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc;        \
+            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc;        \
+            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc;        \
+            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc;        \
+            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc;        \
           }                                                              \
           _n += 6;                                                       \
     }}}                                                                  \
-- 
2.43.0


From f27d7b584f88cdf9e3dd5583558675c4b2226549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 25/37] fix: set_region_field evaluated its equations one cell
 too far along the axes on which a component lies at the low side of its cell

---
 deck/wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index 2f629c4..bcf602d 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -393,9 +393,9 @@ vpic_simulation::user_particle_collisions( void )
     const double _dx = grid->dx, _dy = grid->dy, _dz = grid->dz;      \
     const double _c  = grid->cvac;                                    \
     const int    _nx = grid->nx, _ny = grid->ny, _nz = grid->nz;      \
-    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*_k, _zc = _z0 + _dz*(_k-0.5); \
-    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*_j, _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
-    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*_i, _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
+    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*(_k-1), _zc = _z0 + _dz*(_k-0.5); \
+    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*(_j-1), _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
+    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*(_i-1), _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
           int _rccc, _rlcc, _rclc, _rllc, _rccl, _rlcl, _rcll;        \
           x = _xc; y = _yc; z = _zc; _rccc = (rgn);                   \
           x = _xl;                   _rlcc = (rgn);                   \
-- 
2.43.0


From b7a9abfda8ee77b0d46b4cf52ec626a8ccc3b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:59 +0000
Subject: [PATCH 26/37] fix: surface arguments of region commands changed the
 interior although it was to be left unchanged

---
 deck/wrapper.h | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index bcf602d..4d5c030 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -168,12 +168,12 @@ vpic_simulation::user_particle_collisions( void )
           x = _xn; y = _yh;          _r011 = (rgn);                      \
           x = _xh;                   _r111 = (rgn);                      \
           if( _epbc ) {                                                  \
-            if( _r000 || _r010 || _r001 || _r011 ) _n[0] = _epbc;        \
-            if( _r000 || _r001 || _r100 || _r101 ) _n[1] = _epbc;        \
-            if( _r000 || _r100 || _r010 || _r110 ) _n[2] = _epbc;        \
-            if( _r100 || _r110 || _r101 || _r111 ) _n[3] = _epbc;        \
-            if( _r010 || _r011 || _r110 || _r111 ) _n[4] = _epbc;        \
-            if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
+            if( (_r000 || _r010 || _r001 || _r011) && !(_r000 && _r010 && _r001 && _r011) ) _n[0] = _epbc; \
+            if( (_r000 || _r001 || _r100 || _r101) && !(_r000 && _r001 && _r100 && _r101) ) _n[1] = _epbc; \
+            if( (_r000 || _r100 || _r010 || _r110) && !(_r000 && _r100 && _r010 && _r110) ) _n[2] = _epbc; \
+            if( (_r100 || _r110 || _r101 || _r111) && !(_r100 && _r110 && _r101 && _r111) ) _n[3] = _epbc; \
+            if( (_r010 || _r011 || _r110 || _r111) && !(_r010 && _r011 && _r110 && _r111) ) _n[4] = _epbc; \
+            if( (_r001 || _r101 || _r011 || _r111) && !(_r001 && _r101 && _r011 && _r111) ) _n[5] = _epbc; \
           }                                                              \
           if( _ipbc ) {                                                  \
             if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;        \
@@ -230,14 +230,16 @@ vpic_simulation::user_particle_collisions( void )
           x = _xc; y = _yl;          _rcll = (rgn);		       \
           x = _xl;                   _rlll = (rgn);		       \
           if( _smat!=-1 ) {                                            \
-            if( _rccc || _rclc || _rccl || _rcll )  _f->ematx = _smat; \
-            if( _rccc || _rccl || _rlcc || _rlcl )  _f->ematy = _smat; \
-            if( _rccc || _rlcc || _rclc || _rllc )  _f->ematz = _smat; \
-            if( _rccc || _rlcc )                    _f->fmatx = _smat; \
-            if( _rccc || _rclc )                    _f->fmaty = _smat; \
-            if( _rccc || _rccl )                    _f->fmatz = _smat; \
-            if( _rccc || _rlcc || _rclc || _rllc ||		       \
-                _rccl || _rlcl || _rcll || _rlll )  _f->nmat  = _smat; \
+            if( (_rccc || _rclc || _rccl || _rcll) && !(_rccc && _rclc && _rccl && _rcll) ) _f->ematx = _smat; \
+            if( (_rccc || _rccl || _rlcc || _rlcl) && !(_rccc && _rccl && _rlcc && _rlcl) ) _f->ematy = _smat; \
+            if( (_rccc || _rlcc || _rclc || _rllc) && !(_rccc && _rlcc && _rclc && _rllc) ) _f->ematz = _smat; \
+            if( !_rccc != !_rlcc )                  _f->fmatx = _smat; \
+            if( !_rccc != !_rclc )                  _f->fmaty = _smat; \
+            if( !_rccc != !_rccl )                  _f->fmatz = _smat; \
+            if( ( _rccc || _rlcc || _rclc || _rllc ||                  \
+                  _rccl || _rlcl || _rcll || _rlll ) &&                \
+               !( _rccc && _rlcc && _rclc && _rllc &&                  \
+                  _rccl && _rlcl && _rcll && _rlll ) ) _f->nmat = _smat; \
           }                                                            \
           if( _vmat!=-1 ) {                                            \
             if( _rccc && _rclc && _rccl && _rcll )  _f->ematx = _vmat; \
-- 
2.43.0


From 750b35f545599b833e5bb4bdf5edd2f25b3f7820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:30 +0000
Subject: [PATCH 27/37] fix: sizing a buffer of a port one beyond the last was
 accepted and wrote outside the tables

---
 src/util/mp/DMPPolicy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/mp/DMPPolicy.h b/src/util/mp/DMPPolicy.h
index 535e14b..4b783fc 100644
--- a/src/util/mp/DMPPolicy.h
+++ b/src/util/mp/DMPPolicy.h
@@ -245,7 +245,7 @@ struct DMPPolicy {
                        int sz ) {
     char * ALIGNED(128) buf;
   
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
   
     // If there already a large enough buffer, we are done
     if( mp->rbuf_sz[port]>=sz ) return;
@@ -276,7 +276,7 @@ struct DMPPolicy {
     char * ALIGNED(128) buf;
   
     // Check input arguments
-    if( !mp || port<0 || port>mp->n_port || sz<1 ) ERROR(( "Bad args" ));
+    if( !mp || port<0 || port>=mp->n_port || sz<1 ) ERROR(( "Bad args" ));
 
     // Is there already a large enough buffer
     if( mp->sbuf_sz[port]>=sz ) return;
-- 
2.43.0


From 8a0c43118322512338ff8b3ff451a53060f7db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 28/37] fix: the warning about magnetic conductivity printed an
 argument that was not passed

---
 src/field_advance/standard/sfa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field_advance/standard/sfa.cc b/src/field_advance/standard/sfa.cc
index 7d22365..74a85e1 100644
--- a/src/field_advance/standard/sfa.cc
+++ b/src/field_advance/standard/sfa.cc
@@ -94,7 +94,7 @@ create_sfa_params( grid_t * g,
     if( cg2>=1 )
       WARNING(( "\"%s\" Courant condition estimate = %e", m->name, sqrt(cg2) ));
     if( m->zetax!=0 || m->zetay!=0 || m->zetaz!=0 )
-      WARNING(( "\"%s\" magnetic conductivity is not supported" ));
+      WARNING(( "\"%s\" magnetic conductivity is not supported", m->name ));
     n_mc++;
   }
 
-- 
2.43.0


From 16895b19e23ada6db07eb7dcb29dfd990ad77187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 29/37] fix: a dump to a full disk could lose data without an
 error

Writes larger than the C library's buffer fail at once and leave nothing for
the close to report; the dumps only look at what the close returns.
---
 src/util/io/StandardIOPolicy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/io/StandardIOPolicy.h b/src/util/io/StandardIOPolicy.h
index 15c1540..071c6c0 100644
--- a/src/util/io/StandardIOPolicy.h
+++ b/src/util/io/StandardIOPolicy.h
@@ -106,9 +106,12 @@ StandardIOPolicy::open(const char * filename, FileIOMode mode)
 
 inline int32_t StandardIOPolicy::close()
 	{
+		// A write that failed earlier has lost its data even if the close goes
+		// well
+		const bool failed = ferror(handle_);
 		int32_t status = fclose(handle_);
 		is_open_ = false;
-		return status;
+		return failed ? EOF : status;
 	} // StandardIOPolicy::~StandardIOPolicy
 
 inline int64_t StandardIOPolicy::size()
-- 
2.43.0


From 93854b1be7391679a60d70f2049f1a1c971acefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 30/37] fix: a file object that was never opened could say it
 is open

---
 src/util/io/StandardIOPolicy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/io/StandardIOPolicy.h b/src/util/io/StandardIOPolicy.h
index 071c6c0..9f3de37 100644
--- a/src/util/io/StandardIOPolicy.h
+++ b/src/util/io/StandardIOPolicy.h
@@ -27,7 +27,7 @@ class StandardIOPolicy
 	public:
 
 		//! Constructor
-		StandardIOPolicy() : handle_(nullptr) {}
+		StandardIOPolicy() : is_open_(false), handle_(nullptr) {}
 
 		//! Destructor
 		~StandardIOPolicy() {}
-- 
2.43.0


From 5b426e605dbd7ce26fbbabbcbb54f5ea75095463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:51 +0000
Subject: [PATCH 31/37] fix: BitField::bitsset took its mask for the number of
 a bit

---
 src/util/bitfield.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/bitfield.h b/src/util/bitfield.h
index 1bca916..de029ba 100644
--- a/src/util/bitfield.h
+++ b/src/util/bitfield.h
@@ -51,8 +51,7 @@ class BitField
 		 * Check whether bits in mask are set.
 		----------------------------------------------------------------------*/
 		bool bitsset(uint32_t mask) const {
-			uint32_t tmp = 1<<mask;
-			return tmp & bits_;
+			return (mask & bits_) == mask;
 		} // bitset
 
 		/*!---------------------------------------------------------------------
-- 
2.43.0


From 8231c70d8fc1f09a7820779a8b85db03c0779552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:51 +0000
Subject: [PATCH 32/37] fix: trunc_granular overflowed for quotients that do
 not fit an int

---
 src/vpic/vpic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/vpic.h b/src/vpic/vpic.h
index 55c04c2..3df2f51 100644
--- a/src/vpic/vpic.h
+++ b/src/vpic/vpic.h
@@ -648,7 +648,7 @@ protected:
   }
 
   // Truncate "a" to the nearest integer multiple of "b"
-  inline double trunc_granular( double a, double b ) { return b*int(a/b); }
+  inline double trunc_granular( double a, double b ) { return b*std::trunc(a/b); }
 
   // Compute the remainder of a/b
   inline double remainder( double a, double b ) { return std::remainder(a,b); }
-- 
2.43.0


From 435ec789a0044a4ea643f05b9077cd7b0dc54ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:25 +0000
Subject: [PATCH 33/37] fix: timing table counted one accumulate_rho_p too few
 per divergence cleaning

---
 src/vpic/advance.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/advance.cc b/src/vpic/advance.cc
index 4b2d13b..0bd6b5d 100644
--- a/src/vpic/advance.cc
+++ b/src/vpic/advance.cc
@@ -142,7 +142,7 @@ int vpic_simulation::advance(void) {
     if( rank()==0 ) MESSAGE(( "Divergence cleaning electric field" ));
 
     TIC FAK->clear_rhof( field_array ); TOC( clear_rhof,1 );
-    if( species_list ) TIC LIST_FOR_EACH( sp, species_list ) accumulate_rho_p( field_array, sp ); TOC( accumulate_rho_p, species_list->id );
+    if( species_list ) TIC LIST_FOR_EACH( sp, species_list ) accumulate_rho_p( field_array, sp ); TOC( accumulate_rho_p, num_species( species_list ) );
     TIC FAK->synchronize_rho( field_array ); TOC( synchronize_rho, 1 );
 
     for( int round=0; round<num_div_e_round; round++ ) {
-- 
2.43.0


From 686f6206e765c10ee205c2c1fc114bf9cc0688e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 34/37] fix: timing table printed shares of a total time of
 zero as -2147483648%

---
 src/util/profile/profile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/profile/profile.cc b/src/util/profile/profile.cc
index e270b03..8bd73ab 100644
--- a/src/util/profile/profile.cc
+++ b/src/util/profile/profile.cc
@@ -23,6 +23,7 @@ update_profile( int dump ) {
   // Avoid div by zero which gives confusing prints for when status interval
   // divides num_steps
   if (sum == 0) { sum = 1.0; }
+  if (sum_total == 0) { sum_total = 1.0; }
 
   if( dump )
   {
-- 
2.43.0


From c20bc68987b8bf5640c9f722acce01e99d48275e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:01 +0000
Subject: [PATCH 35/37] fix: an aligned allocation whose padded size overflows
 was granted a few bytes

---
 src/util/util_base.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/util_base.cc b/src/util/util_base.cc
index 704cd3d..87c3b94 100644
--- a/src/util/util_base.cc
+++ b/src/util/util_base.cc
@@ -212,8 +212,9 @@ util_malloc_aligned( const char * err,
 
   a--;
 
-  // Allocate the raw unaligned memory.  Abort if the allocation fails.
-  mem_u = (char *) malloc( n + a + sizeof(char *) );
+  // Allocate the raw unaligned memory.  Abort if the allocation fails
+  // (or if the padded size does not fit in a size_t).
+  mem_u = n + a + sizeof(char *) < n ? NULL : (char *) malloc( n + a + sizeof(char *) );
 
   if ( !mem_u )
     ERROR( ( err, (unsigned long) n, (unsigned long) a ) );
-- 
2.43.0


From 4df37bfb5ff975dca2716884b90e4fcbbd4cb2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:52 +0000
Subject: [PATCH 36/37] fix: checkpoint names of more than 255 characters no
 longer smash the stack

---
 deck/main.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/deck/main.cc b/deck/main.cc
index a2ca10b..b97caae 100644
--- a/deck/main.cc
+++ b/deck/main.cc
@@ -46,11 +46,11 @@ vpic_simulation** restore_main(void)
  */
 void checkpt(const char* fbase, int tag)
 {
-    char fname[256];
     if( !fbase ) ERROR(( "NULL filename base" ));
-    sprintf( fname, "%s.%i.%i", fbase, tag, world_rank );
+    const std::string fname = std::string( fbase ) + "." + std::to_string( tag )
+                            + "." + std::to_string( world_rank );
     if( world_rank==0 ) log_printf( "*** Checkpointing to \"%s\"\n", fbase );
-    checkpt_objects( fname );
+    checkpt_objects( fname.c_str() );
 }
 
 /**
@@ -81,9 +81,8 @@ int main(int argc, char** argv)
         // reanimate all the objects and issue a final barrier to
         // so that all processes come of a restore together.
         if( world_rank==0 ) log_printf( "*** Restoring from \"%s\"\n", fbase );
-        char fname[256];
-        sprintf( fname, "%s.%i", fbase, world_rank );
-        restore_objects( fname );
+        const std::string fname = std::string( fbase ) + "." + std::to_string( world_rank );
+        restore_objects( fname.c_str() );
         mp_barrier();
         reanimate_objects();
         mp_barrier();
-- 
2.43.0


From 48dca7d9ea1ad910fe5194554942bfdbce3e1fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:52 +0000
Subject: [PATCH 37/37] fix: dump names of more than 255 characters no longer
 smash the stack

---
 src/vpic/dump.cc | 50 ++++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index ee1c668..a213ee7 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -137,16 +137,16 @@ namespace dump_type {
 
 void
 vpic_simulation::dump_grid( const char *fbase ) {
-  char fname[256];
+  std::string fname;
   FileIO fileIO;
   int dim[4];
 
   if( !fbase ) ERROR(( "Invalid filename" ));
   if( rank()==0 ) MESSAGE(( "Dumping grid to \"%s\"", fbase ));
 
-  sprintf( fname, "%s.%i", fbase, rank() );
-  FileIOStatus status = fileIO.open(fname, io_write);
-  if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
+  fname = std::string( fbase ) + "." + std::to_string( rank() );
+  FileIOStatus status = fileIO.open(fname.c_str(), io_write);
+  if( status==fail ) ERROR(( "Could not open \"%s\".", fname.c_str() ));
 
   /* IMPORTANT: these values are written in WRITE_HEADER_V0 */
   nxout = grid->nx;
@@ -183,7 +183,7 @@ vpic_simulation::dump_fields( const char *fbase,
                               int ftag,
                               field_t *f )
 {
-  char fname[256];
+  std::string fname;
   FileIO fileIO;
   int dim[3];
 
@@ -191,11 +191,12 @@ vpic_simulation::dump_fields( const char *fbase,
 
   if( rank()==0 ) MESSAGE(( "Dumping fields to \"%s\"", fbase ));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
+  if( ftag ) fname = std::string( fbase ) + "." + std::to_string( (long)step() );
+  else       fname = fbase;
+  fname += "." + std::to_string( rank() );
 
-  FileIOStatus status = fileIO.open(fname, io_write);
-  if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
+  FileIOStatus status = fileIO.open(fname.c_str(), io_write);
+  if( status==fail ) ERROR(( "Could not open \"%s\".", fname.c_str() ));
 
   // default is to use VPIC native field data
   if ( f == NULL ) f = field_array->f;
@@ -225,7 +226,7 @@ vpic_simulation::dump_hydro( const char *sp_name,
                              hydro_t *h )
 {
   species_t *sp;
-  char fname[256];
+  std::string fname;
   FileIO fileIO;
   int dim[3];
 
@@ -247,10 +248,12 @@ vpic_simulation::dump_hydro( const char *sp_name,
   if( rank()==0 )
     MESSAGE(("Dumping \"%s\" hydro fields to \"%s\"",sp->name,fbase));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
-  FileIOStatus status = fileIO.open(fname, io_write);
-  if( status==fail) ERROR(( "Could not open \"%s\".", fname ));
+  if( ftag ) fname = std::string( fbase ) + "." + std::to_string( (long)step() );
+  else       fname = fbase;
+  fname += "." + std::to_string( rank() );
+
+  FileIOStatus status = fileIO.open(fname.c_str(), io_write);
+  if( status==fail) ERROR(( "Could not open \"%s\".", fname.c_str() ));
 
   /* IMPORTANT: these values are written in WRITE_HEADER_V0 */
   nxout = grid->nx;
@@ -276,7 +279,7 @@ vpic_simulation::dump_particles( const char *sp_name,
                                  int ftag )
 {
   species_t *sp;
-  char fname[256];
+  std::string fname;
   FileIO fileIO;
   int dim[1], buf_start;
   static particle_t * ALIGNED(128) p_buf = NULL;
@@ -292,10 +295,12 @@ vpic_simulation::dump_particles( const char *sp_name,
   if( rank()==0 )
     MESSAGE(("Dumping \"%s\" particles to \"%s\"",sp->name,fbase));
 
-  if( ftag ) sprintf( fname, "%s.%li.%i", fbase, (long)step(), rank() );
-  else       sprintf( fname, "%s.%i", fbase, rank() );
-  FileIOStatus status = fileIO.open(fname, io_write);
-  if( status==fail ) ERROR(( "Could not open \"%s\"", fname ));
+  if( ftag ) fname = std::string( fbase ) + "." + std::to_string( (long)step() );
+  else       fname = fbase;
+  fname += "." + std::to_string( rank() );
+
+  FileIOStatus status = fileIO.open(fname.c_str(), io_write);
+  if( status==fail ) ERROR(( "Could not open \"%s\"", fname.c_str() ));
 
   /* IMPORTANT: these values are written in WRITE_HEADER_V0 */
   nxout = grid->nx;
@@ -408,14 +413,13 @@ vpic_simulation::global_header( const char * base,
   if( rank() ) return;
 
   // Open the file for output
-  char filename[256];
-  sprintf(filename, "%s.vpc", base);
+  const std::string filename = std::string(base) + ".vpc";
 
   FileIO fileIO;
   FileIOStatus status;
 
-  status = fileIO.open(filename, io_write);
-  if(status == fail) ERROR(("Failed opening file: %s", filename));
+  status = fileIO.open(filename.c_str(), io_write);
+  if(status == fail) ERROR(("Failed opening file: %s", filename.c_str()));
 
   print_hashed_comment(fileIO, "Header version information");
   fileIO.print("VPIC_HEADER_VERSION 1.0.0\n\n");
-- 
2.43.0

