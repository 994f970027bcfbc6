From c0e5a385544858e9575a7af8e3830075903820ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 01/26] fix: legacy particle sort leaves a stale voxel
 partition for an empty species

---
 src/species_advance/standard/sort_p.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/species_advance/standard/sort_p.cc b/src/species_advance/standard/sort_p.cc
index 935d6fa..e14b577 100644
--- a/src/species_advance/standard/sort_p.cc
+++ b/src/species_advance/standard/sort_p.cc
@@ -43,9 +43,13 @@ sort_p( species_t * sp )
 
   int i, j;
 
-  // Do not need to sort.
+  // Do not need to sort, but users of the partition (e.g. collision operators)
+  // still need every voxel to be marked as empty.
   if ( np == 0 )
+  {
+    CLEAR( partition, nc1 );
     return;
+  }
 
   // Allocate the sorting intermediate. Making this into a static is done to
   // avoid heap shredding.
-- 
2.43.0


From 81ebeb8b55cddbbce11aeb414d062ffc273062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 02/26] fix: divergence cleaning turns the fields of a single
 cell mesh into NaN

---
 .../standard/pipeline/clean_div_b_pipeline.cc             | 8 ++++++--
 .../standard/pipeline/clean_div_b_pipeline_v16.cc         | 4 +++-
 .../standard/pipeline/clean_div_b_pipeline_v4.cc          | 4 +++-
 .../standard/pipeline/clean_div_b_pipeline_v8.cc          | 4 +++-
 .../standard/pipeline/clean_div_e_pipeline.h              | 3 ++-
 .../standard/pipeline/vacuum_clean_div_e_pipeline.h       | 3 ++-
 6 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
index 37bf069..3d1e8df 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline.cc
@@ -38,7 +38,9 @@ clean_div_b_pipeline_scalar( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = px*px + py*py + pz*pz;
+
+  if ( alphadt > 0 ) alphadt = 0.3888889/alphadt;  // No cleaning in 0d
 
   px *= alphadt;
   py *= alphadt;
@@ -110,7 +112,9 @@ clean_div_b_pipeline( field_array_t * RESTRICT fa )
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = px*px + py*py + pz*pz;
+
+  if ( alphadt > 0 ) alphadt = 0.3888889/alphadt;  // No cleaning in 0d
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
index 098ab95..287b2c4 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v16.cc
@@ -31,7 +31,9 @@ clean_div_b_pipeline_v16( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = px*px + py*py + pz*pz;
+
+  if ( alphadt > 0 ) alphadt = 0.3888889/alphadt;  // No cleaning in 0d
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
index 058dc9a..3878b95 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v4.cc
@@ -31,7 +31,9 @@ clean_div_b_pipeline_v4( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = px*px + py*py + pz*pz;
+
+  if ( alphadt > 0 ) alphadt = 0.3888889/alphadt;  // No cleaning in 0d
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
index 66ea318..84c244f 100644
--- a/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
+++ b/src/field_advance/standard/pipeline/clean_div_b_pipeline_v8.cc
@@ -31,7 +31,9 @@ clean_div_b_pipeline_v8( pipeline_args_t * args,
   py = ( ny > 1 ) ? g->rdy : 0;
   pz = ( nz > 1 ) ? g->rdz : 0;
 
-  alphadt = 0.3888889/( px*px + py*py + pz*pz );
+  alphadt = px*px + py*py + pz*pz;
+
+  if ( alphadt > 0 ) alphadt = 0.3888889/alphadt;  // No cleaning in 0d
 
   px *= alphadt;
   py *= alphadt;
diff --git a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
index bfd7b15..1c8ee45 100644
--- a/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float rd2  = _rdx*_rdx + _rdy*_rdy + _rdz*_rdz;                   \
+  const float alphadt = ( rd2>0 ) ? 0.3888889/rd2 : 0; /* None in 0d */  \
   const float px   = alphadt*_rdx;                                       \
   const float py   = alphadt*_rdy;                                       \
   const float pz   = alphadt*_rdz;                                       \
diff --git a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
index 4d85ba2..5062886 100644
--- a/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
+++ b/src/field_advance/standard/pipeline/vacuum_clean_div_e_pipeline.h
@@ -23,7 +23,8 @@ typedef struct pipeline_args
   const float _rdx = (nx>1) ? g->rdx : 0;                                \
   const float _rdy = (ny>1) ? g->rdy : 0;                                \
   const float _rdz = (nz>1) ? g->rdz : 0;                                \
-  const float alphadt = 0.3888889/( _rdx*_rdx + _rdy*_rdy + _rdz*_rdz ); \
+  const float rd2  = _rdx*_rdx + _rdy*_rdy + _rdz*_rdz;                   \
+  const float alphadt = ( rd2>0 ) ? 0.3888889/rd2 : 0; /* None in 0d */  \
   const float px   = (alphadt*_rdx)*m->drivex;                           \
   const float py   = (alphadt*_rdy)*m->drivey;                           \
   const float pz   = (alphadt*_rdz)*m->drivez;                           \
-- 
2.43.0


From 717f707733d8e95afc28b3689e93c1b16ad21b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 03/26] fix: portable copysign ignores the sign of zero, so
 move_p can loop forever at a reflecting wall

---
 src/util/v16/v16_portable.h | 34 +++++++++++++++++-----------------
 src/util/v4/v4_neon.h       |  4 ++--
 src/util/v4/v4_portable.h   | 10 +++++-----
 src/util/v8/v8_portable.h   | 18 +++++++++---------
 4 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index b71cb49..dd2ced2 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3868,70 +3868,70 @@ namespace v16
   inline v16float copysign( const v16float &a, const v16float &b )
   {
     v16float c;
-    float t;
+    float t; // the integer view of b tests its sign bit, so -0 is negative
 
     t = ::fabs( a.f[ 0] );
-    if( b.f[ 0] < 0 ) t = -t;
+    if( b.i[ 0] < 0 ) t = -t;
     c.f[ 0] = t;
 
     t = ::fabs( a.f[ 1] );
-    if( b.f[ 1] < 0 ) t = -t;
+    if( b.i[ 1] < 0 ) t = -t;
     c.f[ 1] = t;
 
     t = ::fabs( a.f[ 2] );
-    if( b.f[ 2] < 0 ) t = -t;
+    if( b.i[ 2] < 0 ) t = -t;
     c.f[ 2] = t;
 
     t = ::fabs( a.f[ 3] );
-    if( b.f[ 3] < 0 ) t = -t;
+    if( b.i[ 3] < 0 ) t = -t;
     c.f[ 3] = t;
 
     t = ::fabs( a.f[ 4] );
-    if( b.f[ 4] < 0 ) t = -t;
+    if( b.i[ 4] < 0 ) t = -t;
     c.f[ 4] = t;
 
     t = ::fabs( a.f[ 5] );
-    if( b.f[ 5] < 0 ) t = -t;
+    if( b.i[ 5] < 0 ) t = -t;
     c.f[ 5] = t;
 
     t = ::fabs( a.f[ 6] );
-    if( b.f[ 6] < 0 ) t = -t;
+    if( b.i[ 6] < 0 ) t = -t;
     c.f[ 6] = t;
 
     t = ::fabs( a.f[ 7] );
-    if( b.f[ 7] < 0 ) t = -t;
+    if( b.i[ 7] < 0 ) t = -t;
     c.f[ 7] = t;
 
     t = ::fabs( a.f[ 8] );
-    if( b.f[ 8] < 0 ) t = -t;
+    if( b.i[ 8] < 0 ) t = -t;
     c.f[ 8] = t;
 
     t = ::fabs( a.f[ 9] );
-    if( b.f[ 9] < 0 ) t = -t;
+    if( b.i[ 9] < 0 ) t = -t;
     c.f[ 9] = t;
 
     t = ::fabs( a.f[10] );
-    if( b.f[10] < 0 ) t = -t;
+    if( b.i[10] < 0 ) t = -t;
     c.f[10] = t;
 
     t = ::fabs( a.f[11] );
-    if( b.f[11] < 0 ) t = -t;
+    if( b.i[11] < 0 ) t = -t;
     c.f[11] = t;
 
     t = ::fabs( a.f[12] );
-    if( b.f[12] < 0 ) t = -t;
+    if( b.i[12] < 0 ) t = -t;
     c.f[12] = t;
 
     t = ::fabs( a.f[13] );
-    if( b.f[13] < 0 ) t = -t;
+    if( b.i[13] < 0 ) t = -t;
     c.f[13] = t;
 
     t = ::fabs( a.f[14] );
-    if( b.f[14] < 0 ) t = -t;
+    if( b.i[14] < 0 ) t = -t;
     c.f[14] = t;
 
     t = ::fabs( a.f[15] );
-    if( b.f[15] < 0 ) t = -t;
+    if( b.i[15] < 0 ) t = -t;
     c.f[15] = t;
 
     return c;
diff --git a/src/util/v4/v4_neon.h b/src/util/v4/v4_neon.h
index 7aaed08..f1fa38d 100644
--- a/src/util/v4/v4_neon.h
+++ b/src/util/v4/v4_neon.h
@@ -1409,13 +1409,13 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
+    float t; // the integer view of b tests its sign bit, so -0 is negative
 
     ALWAYS_VECTORIZE
     for( int j = 0; j < 4; j++ )
     {
       t = ::fabs( a.f[j] );
-      if( b.f[j] < 0 ) t = -t;
+      if( b.i[j] < 0 ) t = -t;
       c.f[j] = t;
     }
 
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index 1298169..eb10229 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -1078,22 +1078,22 @@ namespace v4
   inline v4float copysign( const v4float &a, const v4float &b )
   {
     v4float c;
-    float t;
+    float t; // the integer view of b tests its sign bit, so -0 is negative
 
     t = ::fabs( a.f[0] );
-    if ( b.f[0] < 0 ) t = -t;
+    if( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if ( b.f[1] < 0 ) t = -t;
+    if( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if ( b.f[2] < 0 ) t = -t;
+    if( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if ( b.f[3] < 0 ) t = -t;
+    if( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     return c;
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index e59b145..ef0b24c 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1538,38 +1538,38 @@ namespace v8
   inline v8float copysign( const v8float &a, const v8float &b )
   {
     v8float c;
-    float t;
+    float t; // the integer view of b tests its sign bit, so -0 is negative
 
     t = ::fabs( a.f[0] );
-    if( b.f[0] < 0 ) t = -t;
+    if( b.i[0] < 0 ) t = -t;
     c.f[0] = t;
 
     t = ::fabs( a.f[1] );
-    if( b.f[1] < 0 ) t = -t;
+    if( b.i[1] < 0 ) t = -t;
     c.f[1] = t;
 
     t = ::fabs( a.f[2] );
-    if( b.f[2] < 0 ) t = -t;
+    if( b.i[2] < 0 ) t = -t;
     c.f[2] = t;
 
     t = ::fabs( a.f[3] );
-    if( b.f[3] < 0 ) t = -t;
+    if( b.i[3] < 0 ) t = -t;
     c.f[3] = t;
 
     t = ::fabs( a.f[4] );
-    if( b.f[4] < 0 ) t = -t;
+    if( b.i[4] < 0 ) t = -t;
     c.f[4] = t;
 
     t = ::fabs( a.f[5] );
-    if( b.f[5] < 0 ) t = -t;
+    if( b.i[5] < 0 ) t = -t;
     c.f[5] = t;
 
     t = ::fabs( a.f[6] );
-    if( b.f[6] < 0 ) t = -t;
+    if( b.i[6] < 0 ) t = -t;
     c.f[6] = t;
 
     t = ::fabs( a.f[7] );
-    if( b.f[7] < 0 ) t = -t;
+    if( b.i[7] < 0 ) t = -t;
     c.f[7] = t;
 
     return c;
-- 
2.43.0


From 76e5b819073c10f182c0f9643f7a5c8cc6a99779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 04/26] fix: dump_species runs all species together on one line

---
 src/vpic/dump.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 89c05f2..9108a46 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -89,7 +89,7 @@ vpic_simulation::dump_species( const char *fname ) {
   FileIOStatus status = fileIO.open(fname, io_write);
   if( status==fail ) ERROR(( "Could not open \"%s\".", fname ));
   LIST_FOR_EACH( sp, species_list )
-    fileIO.print( "%s %i %e %e", sp->name, sp->id, sp->q, sp->m );
+    fileIO.print( "%s %i %e %e\n", sp->name, sp->id, sp->q, sp->m );
   if( fileIO.close() ) ERROR(( "File close failed on dump species!!!" ));
 }
 
-- 
2.43.0


From 2f80d16a107c0236ca8a6cae352046559c8e4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 05/26] fix: strided dumps shift axes whose stride is not two

---
 src/vpic/dump.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 9108a46..dbcdb0d 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -653,9 +653,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     else
     {
       for(size_t v(0); v<numvars; v++) {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
               fileIO.write(&fref[varlist[v]], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
@@ -690,9 +690,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
 
     else
     {
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
             fileIO.write( &f( ioff, joff, koff ), 1 );
       }
       }
@@ -819,9 +819,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
     else
 
       for(size_t v(0); v<numvars; v++)
-      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
               const uint32_t * href = reinterpret_cast<uint32_t *>(&hydro(ioff,joff,koff));
               fileIO.write(&href[varlist[v]], 1);
       }
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : k*kstride-1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : j*jstride-1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : i*istride-1;
+      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From b594639fa71305cdb8d61946e6ab181dc4312e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 06/26] fix: interleaved hydro dump writes a misaligned part of
 the moment array

---
 src/vpic/dump.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index dbcdb0d..1f81b11 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -837,9 +837,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
   {
     WRITE_HEADER_V0( dump_type::hydro_dump, sp->id, sp->q/sp->m, dumpStep, fileIO );
 
-    dim[0] = nxout;
-    dim[1] = nyout;
-    dim[2] = nzout;
+    dim[0] = nxout+2;
+    dim[1] = nyout+2;
+    dim[2] = nzout+2;
 
     WRITE_ARRAY_HEADER(h, 3, dim, fileIO);
 
@@ -852,9 +852,9 @@ vpic_simulation::hydro_dump( const char * speciesname,
 
     else
     {
-      for(size_t k(0); k<nzout; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
-      for(size_t j(0); j<nyout; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
-      for(size_t i(0); i<nxout; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
+      for(size_t k(0); k<nzout+2; k++) { const size_t koff = (k == 0) ? 0 : (k == nzout+1) ? grid->nz+1 : (k-1)*kstride+1;
+      for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
+      for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
             fileIO.write( &hydro( ioff, joff, koff ), 1 );
       }
       }
-- 
2.43.0


From e9b822f141de23dd0ea91a0db76843fcbe536e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 07/26] fix: banded dumps use uninitialised variable indices
 when unused bits are selected

---
 src/vpic/dump.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 1f81b11..115693a 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -622,12 +622,11 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
     WRITE_ARRAY_HEADER(f, 3, dim, fileIO);
 
     // Create a variable list of field values to output.
-    size_t numvars = std::min(dumpParams.output_vars.bitsum(),
-                              total_field_variables);
-    size_t * varlist = new size_t[numvars];
+    size_t numvars = 0;
+    size_t * varlist = new size_t[total_field_variables];
 
-    for(size_t i(0), c(0); i<total_field_variables; i++)
-      if(dumpParams.output_vars.bitset(i)) varlist[c++] = i;
+    for(size_t i(0); i<total_field_variables; i++)
+      if(dumpParams.output_vars.bitset(i)) varlist[numvars++] = i;
 
     if( rank()==VERBOSE_rank ) printf("\nBEGIN_OUTPUT\n");
 
@@ -799,11 +798,10 @@ vpic_simulation::hydro_dump( const char * speciesname,
     /*
      * Create a variable list of hydro values to output.
      */
-    size_t numvars = std::min(dumpParams.output_vars.bitsum(),
-                              total_hydro_variables);
-    size_t * varlist = new size_t[numvars];
-    for(size_t i(0), c(0); i<total_hydro_variables; i++)
-      if( dumpParams.output_vars.bitset(i) ) varlist[c++] = i;
+    size_t numvars = 0;
+    size_t * varlist = new size_t[total_hydro_variables];
+    for(size_t i(0); i<total_hydro_variables; i++)
+      if( dumpParams.output_vars.bitset(i) ) varlist[numvars++] = i;
 
     // More efficient for standard case
     if(istride == 1 && jstride == 1 && kstride == 1)
-- 
2.43.0


From ef75a53f8a515c1259ae3f6f07a797a1e7c196f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 08/26] fix: banded field dump reads past the field array for
 material variables

---
 src/vpic/dump.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vpic/dump.cc b/src/vpic/dump.cc
index 115693a..0d00bf0 100644
--- a/src/vpic/dump.cc
+++ b/src/vpic/dump.cc
@@ -640,7 +640,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) {
       for(size_t i(0); i<nxout+2; i++) {
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(i,j,k));
-              fileIO.write(&fref[varlist[v]], 1);
+              // The material ids following the 16 float variables are narrower
+              if(varlist[v]<16) fileIO.write(&fref[varlist[v]], 1);
+              else fileIO.write(&reinterpret_cast<const material_id *>(fref+16)[varlist[v]-16], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(i,j,k).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << i << " " << j << " " << k << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << j << " " << k << std::endl;
@@ -656,7 +658,9 @@ vpic_simulation::field_dump( DumpParameters & dumpParams,
       for(size_t j(0); j<nyout+2; j++) { const size_t joff = (j == 0) ? 0 : (j == nyout+1) ? grid->ny+1 : (j-1)*jstride+1;
       for(size_t i(0); i<nxout+2; i++) { const size_t ioff = (i == 0) ? 0 : (i == nxout+1) ? grid->nx+1 : (i-1)*istride+1;
               const uint32_t * fref = reinterpret_cast<uint32_t *>(&f(ioff,joff,koff));
-              fileIO.write(&fref[varlist[v]], 1);
+              // The material ids following the 16 float variables are narrower
+              if(varlist[v]<16) fileIO.write(&fref[varlist[v]], 1);
+              else fileIO.write(&reinterpret_cast<const material_id *>(fref+16)[varlist[v]-16], 1);
               if(rank()==VERBOSE_rank) printf("%f ", f(ioff,joff,koff).ex);
               if(rank()==VERBOSE_rank) std::cout << "(" << ioff << " " << joff << " " << koff << ")" << std::endl;
       } if(rank()==VERBOSE_rank) std::cout << std::endl << "ROW_BREAK " << joff << " " << koff << std::endl;
-- 
2.43.0


From 3881a39a4b9b8cc8359e17ab2199d56ae48c47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:08 +0000
Subject: [PATCH 09/26] fix: poynting_flux sums uninitialised memory away from
 the left boundary

---
 src/vpic/diagnostics.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vpic/diagnostics.cc b/src/vpic/diagnostics.cc
index 7d00523..04261c9 100644
--- a/src/vpic/diagnostics.cc
+++ b/src/vpic/diagnostics.cc
@@ -42,7 +42,7 @@ double vpic_simulation::poynting_flux(double e0) {
 		ERROR(("Failed pvec allocation in poynting flux diagnostic"));
 	} // if
 
-	memset(pvec, 0, stride);
+	memset(pvec, 0, stride*sizeof(float));
 
 	int ix, k1, k2;
 	RANK_TO_INDEX( int(rank()), ix);
-- 
2.43.0


From b0dc449d5f9a9de64c05ec0b7756f979a1799f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 10/26] fix: shuffle truncates its 64-bit divisor and leaves
 most elements in place

---
 src/util/rng/rng.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rng/rng.cc b/src/util/rng/rng.cc
index 4215670..c343ce4 100644
--- a/src/util/rng/rng.cc
+++ b/src/util/rng/rng.cc
@@ -489,7 +489,7 @@ shuffle( rng_t * RESTRICT r,
          size_t sz_ele,
          size_t str_ele,
          size_t n_ele ) {
-  uint32_t a, d;
+  uint64_t a, d;
   size_t i, j, k;
 
   if( n_ele<2 || !sz_ele ) return _x;
-- 
2.43.0


From 1e459e0da284f12842d80da055d3dc5aba06f2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:36 +0000
Subject: [PATCH 11/26] fix: emitter gives later particles of a face the ageing
 time as their weight

---
 src/emitter/child_langmuir.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/emitter/child_langmuir.cc b/src/emitter/child_langmuir.cc
index cbeb5c2..d2945bb 100644
--- a/src/emitter/child_langmuir.cc
+++ b/src/emitter/child_langmuir.cc
@@ -66,7 +66,7 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
   int np = sp->np, np_skipped = 0;
   int nm = sp->nm, nm_skipped = 0;
 
-  float w, ux, uy, uz;
+  float w, age, ux, uy, uz;
   int c, cc, i, np_emit;
 
   // Loop over all components of the region
@@ -104,12 +104,12 @@ emit_child_langmuir( child_langmuir_t * RESTRICT              cl,
         /* Age the particle */                                          \
                                                                         \
         if( nm>=max_nm ) { nm_skipped++; continue; }                    \
-        w = ( frand_c0(rng)*cdt ) /                                     \
+        age = ( frand_c0(rng)*cdt ) /                                   \
           sqrtf( ( u##X*u##X + u##Y*u##Y ) + ( u##Z*u##Z + 1 ) );       \
         DECLARE_ALIGNED_ARRAY( particle_mover_t, 16, local_pm, 1 );     \
-        local_pm->disp##X = w*u##X*rd##X;                               \
-        local_pm->disp##Y = w*u##Y*rd##Y;                               \
-        local_pm->disp##Z = w*u##Z*rd##Z;                               \
+        local_pm->disp##X = age*u##X*rd##X;                             \
+        local_pm->disp##Y = age*u##Y*rd##Y;                             \
+        local_pm->disp##Z = age*u##Z*rd##Z;                             \
         local_pm->i       = np-1;                                       \
         if (move_p( p, local_pm, a, g, qsp )) {                         \
             pm[nm++] = local_pm[0];                                     \
-- 
2.43.0


From 24d304981d4231a77e715ce54865d68d1db7d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 12/26] fix: inject_particle ages through a mover past the end
 of the mover array

---
 src/vpic/misc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vpic/misc.cc b/src/vpic/misc.cc
index b1c24af..4ece4cb 100644
--- a/src/vpic/misc.cc
+++ b/src/vpic/misc.cc
@@ -84,8 +84,10 @@ vpic_simulation::inject_particle( species_t * sp,
   if( update_rhob ) accumulate_rhob( field_array->f, p, grid, -sp->q );
 
   if( age!=0 ) {
-    if( sp->nm>=sp->max_nm )
+    if( sp->nm>=sp->max_nm ) {
       WARNING(( "No movers available to age injected  particle" ));
+      return;
+    }
     particle_mover_t * pm = sp->pm + sp->nm;
     age *= grid->cvac*grid->dt/sqrt( ux*ux + uy*uy + uz*uz + 1 );
     pm->dispx = ux*age*grid->rdx;
-- 
2.43.0


From 23831da088d33bf39b60a3e0f15a9e67d78e600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 13/26] fix: set_point_region_bc does not compile

---
 deck/wrapper.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index f5b5c81..cce78c7 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -176,12 +176,12 @@ vpic_simulation::user_particle_collisions( void )
             if( _r001 || _r101 || _r011 || _r111 ) _n[5] = _epbc;        \
           }                                                              \
           if( _ipbc ) {                                                  \
-            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc         \
-            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc         \
-            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc         \
-            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc         \
-            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc         \
-            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc         \
+            if( _r000 && _r010 && _r001 && _r011 ) _n[0] = _ipbc;         \
+            if( _r000 && _r001 && _r100 && _r101 ) _n[1] = _ipbc;         \
+            if( _r000 && _r100 && _r010 && _r110 ) _n[2] = _ipbc;         \
+            if( _r100 && _r110 && _r101 && _r111 ) _n[3] = _ipbc;         \
+            if( _r010 && _r011 && _r110 && _r111 ) _n[4] = _ipbc;         \
+            if( _r001 && _r101 && _r011 && _r111 ) _n[5] = _ipbc;         \
           }                                                              \
           _n += 6;                                                       \
     }}}                                                                  \
-- 
2.43.0


From 7e8b5062a1e77c17b6056e3ae9c40368ec84ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:15 +0000
Subject: [PATCH 14/26] fix: set_region_field evaluates fields on edges and
 faces one cell too far

---
 deck/wrapper.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deck/wrapper.h b/deck/wrapper.h
index cce78c7..7159109 100644
--- a/deck/wrapper.h
+++ b/deck/wrapper.h
@@ -393,9 +393,9 @@ vpic_simulation::user_particle_collisions( void )
     const double _dx = grid->dx, _dy = grid->dy, _dz = grid->dz;      \
     const double _c  = grid->cvac;                                    \
     const int    _nx = grid->nx, _ny = grid->ny, _nz = grid->nz;      \
-    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*_k, _zc = _z0 + _dz*(_k-0.5); \
-    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*_j, _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
-    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*_i, _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
+    for( int _k=0; _k<_nz+2; _k++ ) { const double _zl = _z0 + _dz*(_k-1.5), _ze = _z0 + _dz*(_k-1), _zc = _z0 + _dz*(_k-0.5); \
+    for( int _j=0; _j<_ny+2; _j++ ) { const double _yl = _y0 + _dy*(_j-1.5), _ye = _y0 + _dy*(_j-1), _yc = _y0 + _dy*(_j-0.5); field_t *_f = &field(0,_j,_k); \
+    for( int _i=0; _i<_nx+2; _i++ ) { const double _xl = _x0 + _dx*(_i-1.5), _xe = _x0 + _dx*(_i-1), _xc = _x0 + _dx*(_i-0.5); double x, y, z; \
           int _rccc, _rlcc, _rclc, _rllc, _rccl, _rlcl, _rcll;        \
           x = _xc; y = _yc; z = _zc; _rccc = (rgn);                   \
           x = _xl;                   _rlcc = (rgn);                   \
-- 
2.43.0


From 711eb55c9f28304645436b7f4470d9ec691c60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 15/26] fix: takizuka_abe turns momenta of comoving pairs into
 NaN at zero collision rate

---
 src/collision/pipeline/takizuka_abe_pipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/pipeline/takizuka_abe_pipeline.cc b/src/collision/pipeline/takizuka_abe_pipeline.cc
index 2bfd89a..90908e5 100644
--- a/src/collision/pipeline/takizuka_abe_pipeline.cc
+++ b/src/collision/pipeline/takizuka_abe_pipeline.cc
@@ -45,7 +45,7 @@
     tz = stack[2];                                                      \
                                                                         \
     t0 = 1;                                                             \
-    t2 = 1/ur;                                                          \
+    t2 = 1/(ur + FLT_MIN);                                              \
     t1 = std*sqrtf(t2)*t2;                                              \
     CMOV(t1,t0);                                                        \
     dd = t1*frandn(rng);                                                \
-- 
2.43.0


From 1dde13d032c5fa912eb070f3e5e54274048ecf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 16/26] fix: binary collision rates overflow for more than
 46340 particles in a voxel

---
 src/collision/pipeline/binary_pipeline.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision/pipeline/binary_pipeline.cc b/src/collision/pipeline/binary_pipeline.cc
index e359530..03f27ab 100644
--- a/src/collision/pipeline/binary_pipeline.cc
+++ b/src/collision/pipeline/binary_pipeline.cc
@@ -41,7 +41,8 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
   const float  dtinterval_dV = ( g->dt * (float)cm->interval ) / g->dV;
 
   float pr_norm, pr_coll, wk, wl, w_max, w_min;
-  int v, v1, k, k0, nk, rk, l, l0, nl, rl, np, nc, type, n_large_pr = 0;
+  double np; /* nk nl overflows an int for about 46,000 particles per voxel */
+  int v, v1, k, k0, nk, rk, l, l0, nl, rl, nc, type, n_large_pr = 0;
 
   /* Stripe the (mostly non-ghost) voxels over threads for load balance */
 
@@ -80,7 +81,7 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
       l0 = k0;
       nl = nk;
       rl = rk;
-      np = nk*(nk+1) >> 1;
+      np = 0.5*(double)nk*((double)nk+1);
       nc = (int)( 0.5 + sample*(double)nk );
     }
 
@@ -97,7 +98,7 @@ binary_pipeline_scalar( binary_collision_model_t * RESTRICT cm,
       nl = spj_partition[v+1] - l0;
       if( !nl ) continue; /* Nothing to do */
       rl = UINT_MAX / (unsigned)nl;
-      np = nk*nl;
+      np = (double)nk*(double)nl;
       nc = (int)( 0.5 + sample*(double)(nk>nl ? nk : nl) );
     }
 
-- 
2.43.0


From ffb32f420ce13f6ccba972855c492682ec92d4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 17/26] fix: langevin drives the species to a temperature off
 by a factor of c

---
 src/collision/collision.h                   |  4 ++--
 src/collision/pipeline/langevin_pipeline.cc | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/collision/collision.h b/src/collision/collision.h
index 4a79cbd..a1d5a5f 100644
--- a/src/collision/collision.h
+++ b/src/collision/collision.h
@@ -68,13 +68,13 @@ takizuka_abe( const char       * RESTRICT name,
    thermal bath temperature.  This method is stable (e.g. if you set
    nu very large, it is equivalent to resampling your particle
    normal momenta from a normal distribution with
-   uth = sqrt(kT/mc)) every time this operator is applied (in MD,
+   uth = sqrt(kT/mc^2)) every time this operator is applied (in MD,
    this is called an Anderson thermostat).  This method is only
    intended to be used when the temperature is non-relativistic.
 
    For the pedants, this operator applies exactly (in exact
    arithmetic), the stochastic operator:
-     du = -nu dt + sqrt((2kT)/(mc)) dW
+     du = -nu dt + sqrt((2kT)/(mc^2)) dW
    for the finite duration:
      sp->g->dt * interval
    every interval time step to all the particle momenta in the
diff --git a/src/collision/pipeline/langevin_pipeline.cc b/src/collision/pipeline/langevin_pipeline.cc
index a32748c..9ba2412 100644
--- a/src/collision/pipeline/langevin_pipeline.cc
+++ b/src/collision/pipeline/langevin_pipeline.cc
@@ -53,13 +53,13 @@ apply_langevin_pipeline( langevin_t * l )
 
   /* Decay and drive have a fun derivation.  We want to integrate the
      stochastic equation:
-       du = -nu u dt + sqrt( 2 kT / mc ) dW
+       du = -nu u dt + sqrt( 2 kT / mc^2 ) dW
      For small dt, this is:
-       u_1 = u_0 ( 1- nu dt ) + RANDN( 2 kT nu dt / mc )
+       u_1 = u_0 ( 1- nu dt ) + RANDN( 2 kT nu dt / mc^2 )
      where RANDN( var ) is a normal random number with _variance_ var.
      Let:
        a = nu dt
-       b = 2 kT nu dt / mc
+       b = 2 kT nu dt / mc^2
      Then:
        u_1 = (1-a) u_0 + RANDN( b )
      We can get more accurate by making N substeps of length dt/N.
@@ -83,14 +83,14 @@ apply_langevin_pipeline( langevin_t * l )
                = ( 1-exp(-2a) ) b / (2a)
      subtituting a and b into decay and drive yields:
        decay   = exp(-nu dt)
-       drive   = sqrt( (1-exp(-2 nu dt)) kT / mc )
+       drive   = sqrt( (1-exp(-2 nu dt)) kT / mc^2 )
      In the limit nu dt small:
        decay -> 1 - nu dt
-       drive -> sqrt( 2 nu dt kT / mc )
+       drive -> sqrt( 2 nu dt kT / mc^2 )
      reproducing the infinitesimal stochastic differential equation.
      In the limit nu dt large:
        decay -> 0
-       drive -> sqrt( kT / mc )
+       drive -> sqrt( kT / mc^2 )
      which is equivalent to resampling the momentum with the
      desired temperature. */
 
@@ -103,7 +103,7 @@ apply_langevin_pipeline( langevin_t * l )
   COPY( args->rng, l->rp->rng, N_PIPELINE );
 
   args->decay = exp( -nudt );
-  args->drive = sqrt( ( -expm1( -2 * nudt ) * l->kT ) / ( l->sp->m * l->sp->g->cvac ) );
+  args->drive = sqrt( ( -expm1( -2 * nudt ) * l->kT ) / ( l->sp->m * l->sp->g->cvac * l->sp->g->cvac ) );
   args->np    = l->sp->np;
 
   EXEC_PIPELINES( langevin, args, 0 );
-- 
2.43.0


From 67a6bd2eea001232f1cb5b43e78aeefbd3430b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 18/26] fix: accelerated move_p never finishes particles on a
 face with displacement -0

---
 src/species_advance/standard/move_p.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/species_advance/standard/move_p.cc b/src/species_advance/standard/move_p.cc
index d1c3b20..55267d5 100644
--- a/src/species_advance/standard/move_p.cc
+++ b/src/species_advance/standard/move_p.cc
@@ -86,8 +86,12 @@ move_p( particle_t       * RESTRICT ALIGNED(128) p,
     // likewise, the divide will never underflow either.
 
     // FIXME: THIS COULD PROBABLY BE DONE EVEN FASTER
-    sgn_dr = copysign( one,  dr );
-    v0     = copysign( tiny, dr );
+    // Note: a component without displacement points away from the nearer
+    // face such that it never ends a streak.  Otherwise, a particle on a
+    // face with displacement -0 bounces between the two sides of the face
+    // (or, if it is a reflecting boundary, off the boundary forever).
+    sgn_dr = copysign( one,  merge( dr==v4float( 0.0f ), -r, dr ) );
+    v0     = copysign( tiny, sgn_dr );
     store_4x1( (sgn_dr-r) / ((dr+dr)+v0), stack_vf );
     /**/                          type = 3;             f0 = 1;
     f1 = stack_vf[0]; if( f1<f0 ) type = 0; if( f1<f0 ) f0 = f1; // Branchless cmov
-- 
2.43.0


From 9ea751b8902e0f0c3ab884a0b3596f81559bcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 19/26] fix: emitter.h names the thermal momenta of
 child_langmuir in the wrong order

---
 src/emitter/emitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter/emitter.h b/src/emitter/emitter.h
index 4efc8c4..c4fc441 100644
--- a/src/emitter/emitter.h
+++ b/src/emitter/emitter.h
@@ -70,8 +70,8 @@ child_langmuir( /**/  species_t            * RESTRICT sp,  // Species to emit
                 /**/  accumulator_array_t  * RESTRICT aa,  // For Jf accum (aging)
                 /**/  rng_pool_t           * RESTRICT rp,  // Random number pool
                 int   n_emit_per_face, // Particles to emit per face per step
-                float ut_perp,         // Perpendicular normalized thermal momentum
                 float ut_para,         // Parallel normalized thermal momentum
+                float ut_perp,         // Perpendicular normalized thermal momentum
                 float thresh_e_norm,   // Only emit if E_norm>thresh_e_norm
                 float norm );          // Child-langmuir normalization
 
-- 
2.43.0


From 7fb08ed8f72c4dd47140c7bd1a0c39d540e8fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 20/26] fix: AVX-512 load_16x2_tr needs only 8-byte aligned
 addresses

It loaded 64 aligned bytes behind every pointer, but it is declared for
8-byte aligned pointers and the field solver passes addresses of pairs of
components inside field_t and material coefficients, so advance_b, advance_e
and compute_curl_b crash in every AVX-512 build.
---
 src/util/v16/v16_avx512.h | 82 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 92452e4..747a65e 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -621,51 +621,53 @@ namespace v16
 			    const void * ALIGNED(8) a15,
 			    v16 &b00, v16 &b01 )
   {
-    __m512 t00, t01, t02,      t04,      t06,      t08, t09, t10,      t12,      t14;
-    __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
+    b00.i[ 0] = ((const int * ALIGNED(8))a00)[0];
+    b01.i[ 0] = ((const int * ALIGNED(8))a00)[1];
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    b00.i[ 1] = ((const int * ALIGNED(8))a01)[0];
+    b01.i[ 1] = ((const int * ALIGNED(8))a01)[1];
 
-    t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
-    t02   = _mm512_unpacklo_ps( u02, u03 );                            //  32  48  33  49  36  52  37  53  40  56  41  57  44  60  45  61
-    t04   = _mm512_unpacklo_ps( u04, u05 );                            //  64  80  65  81  68  84  69  85  72  88  73  89  76  92  77  93
-    t06   = _mm512_unpacklo_ps( u06, u07 );                            //  96 112  97 113 100 116 101 117 104 120 105 121 108 124 109 125
-    t08   = _mm512_unpacklo_ps( u08, u09 );                            // 128 144 129 145 132 148 133 149 136 152 137 153 140 156 141 157
-    t10   = _mm512_unpacklo_ps( u10, u11 );                            // 160 176 161 177 164 180 165 181 168 184 169 185 172 188 173 189
-    t12   = _mm512_unpacklo_ps( u12, u13 );                            // 192 208 193 209 196 212 197 213 200 216 201 217 204 220 205 221
-    t14   = _mm512_unpacklo_ps( u14, u15 );                            // 224 240 225 241 228 244 229 245 232 248 233 249 236 252 237 253
+    b00.i[ 2] = ((const int * ALIGNED(8))a02)[0];
+    b01.i[ 2] = ((const int * ALIGNED(8))a02)[1];
 
-    u00   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //   0  16  32  48   4  20  36  52   8  24  40  56  12  28  44  60
-    u01   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //   1  17  33  49   5  21  37  53   9  25  41  57  13  29  45  61
-    u04   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //  64  80  96 112  68  84 100 116  72  88 104 120  76  92 108 124
-    u05   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //  65  81  97 113  69  85 101 117  73  89 105 121  77  93 109 125
-    u08   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 128 144 160 176 132 148 164 180 136 152 168 184 140 156 172 188
-    u09   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 129 145 161 177 133 149 165 181 137 153 169 185 141 157 173 189
-    u12   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 192 208 224 240 196 212 228 244 200 216 232 248 204 220 236 252
-    u13   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 193 209 225 241 197 213 229 245 201 217 233 249 205 221 237 253
+    b00.i[ 3] = ((const int * ALIGNED(8))a03)[0];
+    b01.i[ 3] = ((const int * ALIGNED(8))a03)[1];
 
-    t00   = _mm512_shuffle_f32x4( u00, u04, 0x88 );                    //   0  16  32  48   8  24  40  56  64  80  96 112  72  88 104 120
-    t01   = _mm512_shuffle_f32x4( u01, u05, 0x88 );                    //   1  17  33  49   9  25  41  57  65  81  97 113  73  89 105 121
-    t08   = _mm512_shuffle_f32x4( u08, u12, 0x88 );                    // 128 144 160 176 136 152 168 184 192 208 224 240 200 216 232 248
-    t09   = _mm512_shuffle_f32x4( u09, u13, 0x88 );                    // 129 145 161 177 137 153 169 185 193 209 225 241 201 217 233 249
+    b00.i[ 4] = ((const int * ALIGNED(8))a04)[0];
+    b01.i[ 4] = ((const int * ALIGNED(8))a04)[1];
 
-    b00.v = _mm512_shuffle_f32x4( t00, t08, 0x88 );                    //   0  16  32  48  64  80  96 112 128 144 160 176 192 208 224 240
-    b01.v = _mm512_shuffle_f32x4( t01, t09, 0x88 );                    //   1  17  33  49  66  81  97 113 129 145 161 177 193 209 225 241
+    b00.i[ 5] = ((const int * ALIGNED(8))a05)[0];
+    b01.i[ 5] = ((const int * ALIGNED(8))a05)[1];
+
+    b00.i[ 6] = ((const int * ALIGNED(8))a06)[0];
+    b01.i[ 6] = ((const int * ALIGNED(8))a06)[1];
+
+    b00.i[ 7] = ((const int * ALIGNED(8))a07)[0];
+    b01.i[ 7] = ((const int * ALIGNED(8))a07)[1];
+
+    b00.i[ 8] = ((const int * ALIGNED(8))a08)[0];
+    b01.i[ 8] = ((const int * ALIGNED(8))a08)[1];
+
+    b00.i[ 9] = ((const int * ALIGNED(8))a09)[0];
+    b01.i[ 9] = ((const int * ALIGNED(8))a09)[1];
+
+    b00.i[10] = ((const int * ALIGNED(8))a10)[0];
+    b01.i[10] = ((const int * ALIGNED(8))a10)[1];
+
+    b00.i[11] = ((const int * ALIGNED(8))a11)[0];
+    b01.i[11] = ((const int * ALIGNED(8))a11)[1];
+
+    b00.i[12] = ((const int * ALIGNED(8))a12)[0];
+    b01.i[12] = ((const int * ALIGNED(8))a12)[1];
+
+    b00.i[13] = ((const int * ALIGNED(8))a13)[0];
+    b01.i[13] = ((const int * ALIGNED(8))a13)[1];
+
+    b00.i[14] = ((const int * ALIGNED(8))a14)[0];
+    b01.i[14] = ((const int * ALIGNED(8))a14)[1];
+
+    b00.i[15] = ((const int * ALIGNED(8))a15)[0];
+    b01.i[15] = ((const int * ALIGNED(8))a15)[1];
   }
 
   inline void load_16x2_bc( const void * ALIGNED(64) a00,
-- 
2.43.0


From 3b286e08296356d8e1b54944ebfefcbadd0894c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:27 +0000
Subject: [PATCH 21/26] fix: portable and AVX-512 vector ! treats a negative
 zero as zero

! tested the bits of the float lanes, so !(-0) was false, unlike the scalar
operator and the SSE, AVX and AVX2 versions.
---
 src/util/v16/v16_avx512.h   |  2 +-
 src/util/v16/v16_portable.h | 32 ++++++++++++++++----------------
 src/util/v4/v4_portable.h   |  8 ++++----
 src/util/v8/v8_portable.h   | 16 ++++++++--------
 4 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 747a65e..24b663e 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -2531,7 +2531,7 @@ namespace v16
     v16int b;
 
     for( int j = 0; j < 16; j++ )
-      b.i[j] = a.i[j] ? 0 : -1;
+      b.i[j] = a.f[j] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v16/v16_portable.h b/src/util/v16/v16_portable.h
index dd2ced2..437beb5 100644
--- a/src/util/v16/v16_portable.h
+++ b/src/util/v16/v16_portable.h
@@ -3623,22 +3623,22 @@ namespace v16
   {
     v16int b;
 
-    b.i[ 0] = a.i[ 0] ? 0 : -1;
-    b.i[ 1] = a.i[ 1] ? 0 : -1;
-    b.i[ 2] = a.i[ 2] ? 0 : -1;
-    b.i[ 3] = a.i[ 3] ? 0 : -1;
-    b.i[ 4] = a.i[ 4] ? 0 : -1;
-    b.i[ 5] = a.i[ 5] ? 0 : -1;
-    b.i[ 6] = a.i[ 6] ? 0 : -1;
-    b.i[ 7] = a.i[ 7] ? 0 : -1;
-    b.i[ 8] = a.i[ 8] ? 0 : -1;
-    b.i[ 9] = a.i[ 9] ? 0 : -1;
-    b.i[10] = a.i[10] ? 0 : -1;
-    b.i[11] = a.i[11] ? 0 : -1;
-    b.i[12] = a.i[12] ? 0 : -1;
-    b.i[13] = a.i[13] ? 0 : -1;
-    b.i[14] = a.i[14] ? 0 : -1;
-    b.i[15] = a.i[15] ? 0 : -1;
+    b.i[ 0] = a.f[ 0] ? 0 : -1;
+    b.i[ 1] = a.f[ 1] ? 0 : -1;
+    b.i[ 2] = a.f[ 2] ? 0 : -1;
+    b.i[ 3] = a.f[ 3] ? 0 : -1;
+    b.i[ 4] = a.f[ 4] ? 0 : -1;
+    b.i[ 5] = a.f[ 5] ? 0 : -1;
+    b.i[ 6] = a.f[ 6] ? 0 : -1;
+    b.i[ 7] = a.f[ 7] ? 0 : -1;
+    b.i[ 8] = a.f[ 8] ? 0 : -1;
+    b.i[ 9] = a.f[ 9] ? 0 : -1;
+    b.i[10] = a.f[10] ? 0 : -1;
+    b.i[11] = a.f[11] ? 0 : -1;
+    b.i[12] = a.f[12] ? 0 : -1;
+    b.i[13] = a.f[13] ? 0 : -1;
+    b.i[14] = a.f[14] ? 0 : -1;
+    b.i[15] = a.f[15] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v4/v4_portable.h b/src/util/v4/v4_portable.h
index eb10229..cf8b4bc 100644
--- a/src/util/v4/v4_portable.h
+++ b/src/util/v4/v4_portable.h
@@ -938,10 +938,10 @@ namespace v4
   {
     v4int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
 
     return b;
   }
diff --git a/src/util/v8/v8_portable.h b/src/util/v8/v8_portable.h
index ef0b24c..6612e34 100644
--- a/src/util/v8/v8_portable.h
+++ b/src/util/v8/v8_portable.h
@@ -1365,14 +1365,14 @@ namespace v8
   {
     v8int b;
 
-    b.i[0] = a.i[0] ? 0 : -1;
-    b.i[1] = a.i[1] ? 0 : -1;
-    b.i[2] = a.i[2] ? 0 : -1;
-    b.i[3] = a.i[3] ? 0 : -1;
-    b.i[4] = a.i[4] ? 0 : -1;
-    b.i[5] = a.i[5] ? 0 : -1;
-    b.i[6] = a.i[6] ? 0 : -1;
-    b.i[7] = a.i[7] ? 0 : -1;
+    b.i[0] = a.f[0] ? 0 : -1;
+    b.i[1] = a.f[1] ? 0 : -1;
+    b.i[2] = a.f[2] ? 0 : -1;
+    b.i[3] = a.f[3] ? 0 : -1;
+    b.i[4] = a.f[4] ? 0 : -1;
+    b.i[5] = a.f[5] ? 0 : -1;
+    b.i[6] = a.f[6] ? 0 : -1;
+    b.i[7] = a.f[7] ? 0 : -1;
 
     return b;
   }
-- 
2.43.0


From 12069fc6978a73e405f7505160658d26c3fa257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 22/26] fix: AVX vector float != && || hold for NaN lanes like
 the scalar operators

The comparisons were ordered, so NaN != x was false and NaN counted as zero
in && and ||, unlike the scalar operators and the other vector versions.
---
 src/util/v8/v8_avx.h  | 10 +++++-----
 src/util/v8/v8_avx2.h | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/util/v8/v8_avx.h b/src/util/v8/v8_avx.h
index 2fd8c23..23d5208 100644
--- a/src/util/v8/v8_avx.h
+++ b/src/util/v8/v8_avx.h
@@ -1384,7 +1384,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1393,8 +1393,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1404,8 +1404,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
diff --git a/src/util/v8/v8_avx2.h b/src/util/v8/v8_avx2.h
index 315969f..0961d16 100644
--- a/src/util/v8/v8_avx2.h
+++ b/src/util/v8/v8_avx2.h
@@ -1580,7 +1580,7 @@ namespace v8
   LOGICAL( <,  _mm256_cmp_ps, _CMP_LT_OS  )
   LOGICAL( >,  _mm256_cmp_ps, _CMP_GT_OS  )
   LOGICAL( ==, _mm256_cmp_ps, _CMP_EQ_OS  )
-  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_OS )
+  LOGICAL( !=, _mm256_cmp_ps, _CMP_NEQ_US )
   LOGICAL( <=, _mm256_cmp_ps, _CMP_LE_OS  )
   LOGICAL( >=, _mm256_cmp_ps, _CMP_GE_OS  )
 
@@ -1589,8 +1589,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_and_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			 _mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
@@ -1600,8 +1600,8 @@ namespace v8
     v8int c;
     __m256 vzero = _mm256_setzero_ps();
 
-    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_OS ),
-			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_OS ) );
+    c.v = _mm256_or_ps( _mm256_cmp_ps( a.v, vzero, _CMP_NEQ_US ),
+			_mm256_cmp_ps( b.v, vzero, _CMP_NEQ_US ) );
 
     return c;
   }
-- 
2.43.0


From 2a2d72d4d1560848be9009e5f264ad8e20ce4c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 23/26] fix: AVX-512 load_16x3_tr and load_16x4_tr need only
 16-byte aligned addresses

The v16 kernels of the field solver and of the particle diagnostics pass
addresses of component triples inside field_t (80 bytes) and of the momentum
inside particle_t, as the v4 and v8 kernels do; the loads required (and read)
64 aligned bytes, so advance_b, advance_e, compute_curl_b, load_interpolator
and others crash in every AVX-512 build.
---
 src/util/v16/v16_avx512.h | 335 +++++++++++++++++---------------------
 1 file changed, 151 insertions(+), 184 deletions(-)

diff --git a/src/util/v16/v16_avx512.h b/src/util/v16/v16_avx512.h
index 24b663e..0bbbf0c 100644
--- a/src/util/v16/v16_avx512.h
+++ b/src/util/v16/v16_avx512.h
@@ -95,39 +95,39 @@ namespace v16
 				     v16 &a, v16 &b ) ALWAYS_INLINE;
     friend inline void load_16x2_bc( const void * ALIGNED(8) a00,
 				     v16 &a, v16 &b ) ALWAYS_INLINE;
-    friend inline void load_16x3_tr( const void * ALIGNED(64) a00,
-				     const void * ALIGNED(64) a01,
-				     const void * ALIGNED(64) a02,
-				     const void * ALIGNED(64) a03,
-				     const void * ALIGNED(64) a04,
-				     const void * ALIGNED(64) a05,
-				     const void * ALIGNED(64) a06,
-				     const void * ALIGNED(64) a07,
-				     const void * ALIGNED(64) a08,
-				     const void * ALIGNED(64) a09,
-				     const void * ALIGNED(64) a10,
-				     const void * ALIGNED(64) a11,
-				     const void * ALIGNED(64) a12,
-				     const void * ALIGNED(64) a13,
-				     const void * ALIGNED(64) a14,
-				     const void * ALIGNED(64) a15,
+    friend inline void load_16x3_tr( const void * ALIGNED(16) a00,
+				     const void * ALIGNED(16) a01,
+				     const void * ALIGNED(16) a02,
+				     const void * ALIGNED(16) a03,
+				     const void * ALIGNED(16) a04,
+				     const void * ALIGNED(16) a05,
+				     const void * ALIGNED(16) a06,
+				     const void * ALIGNED(16) a07,
+				     const void * ALIGNED(16) a08,
+				     const void * ALIGNED(16) a09,
+				     const void * ALIGNED(16) a10,
+				     const void * ALIGNED(16) a11,
+				     const void * ALIGNED(16) a12,
+				     const void * ALIGNED(16) a13,
+				     const void * ALIGNED(16) a14,
+				     const void * ALIGNED(16) a15,
 				     v16 &a, v16 &b, v16 &c ) ALWAYS_INLINE;
-    friend inline void load_16x4_tr( const void * ALIGNED(64) a00,
-				     const void * ALIGNED(64) a01,
-				     const void * ALIGNED(64) a02,
-				     const void * ALIGNED(64) a03,
-				     const void * ALIGNED(64) a04,
-				     const void * ALIGNED(64) a05,
-				     const void * ALIGNED(64) a06,
-				     const void * ALIGNED(64) a07,
-				     const void * ALIGNED(64) a08,
-				     const void * ALIGNED(64) a09,
-				     const void * ALIGNED(64) a10,
-				     const void * ALIGNED(64) a11,
-				     const void * ALIGNED(64) a12,
-				     const void * ALIGNED(64) a13,
-				     const void * ALIGNED(64) a14,
-				     const void * ALIGNED(64) a15,
+    friend inline void load_16x4_tr( const void * ALIGNED(16) a00,
+				     const void * ALIGNED(16) a01,
+				     const void * ALIGNED(16) a02,
+				     const void * ALIGNED(16) a03,
+				     const void * ALIGNED(16) a04,
+				     const void * ALIGNED(16) a05,
+				     const void * ALIGNED(16) a06,
+				     const void * ALIGNED(16) a07,
+				     const void * ALIGNED(16) a08,
+				     const void * ALIGNED(16) a09,
+				     const void * ALIGNED(16) a10,
+				     const void * ALIGNED(16) a11,
+				     const void * ALIGNED(16) a12,
+				     const void * ALIGNED(16) a13,
+				     const void * ALIGNED(16) a14,
+				     const void * ALIGNED(16) a15,
 				     v16 &a, v16 &b, v16 &c, v16 &d ) ALWAYS_INLINE;
     friend inline void load_16x8_tr( const void * ALIGNED(64) a00,
 				     const void * ALIGNED(64) a01,
@@ -681,171 +681,138 @@ namespace v16
     b01.v = _mm512_set1_ps( t00[1] );
   }
 
-  inline void load_16x3_tr( const void * ALIGNED(64) a00,
-                            const void * ALIGNED(64) a01,
-                            const void * ALIGNED(64) a02,
-                            const void * ALIGNED(64) a03,
-			    const void * ALIGNED(64) a04,
-			    const void * ALIGNED(64) a05,
-			    const void * ALIGNED(64) a06,
-			    const void * ALIGNED(64) a07,
-			    const void * ALIGNED(64) a08,
-                            const void * ALIGNED(64) a09,
-                            const void * ALIGNED(64) a10,
-                            const void * ALIGNED(64) a11,
-			    const void * ALIGNED(64) a12,
-			    const void * ALIGNED(64) a13,
-			    const void * ALIGNED(64) a14,
-			    const void * ALIGNED(64) a15,
+  inline void load_16x3_tr( const void * ALIGNED(16) a00,
+                            const void * ALIGNED(16) a01,
+                            const void * ALIGNED(16) a02,
+                            const void * ALIGNED(16) a03,
+			    const void * ALIGNED(16) a04,
+			    const void * ALIGNED(16) a05,
+			    const void * ALIGNED(16) a06,
+			    const void * ALIGNED(16) a07,
+			    const void * ALIGNED(16) a08,
+                            const void * ALIGNED(16) a09,
+                            const void * ALIGNED(16) a10,
+                            const void * ALIGNED(16) a11,
+			    const void * ALIGNED(16) a12,
+			    const void * ALIGNED(16) a13,
+			    const void * ALIGNED(16) a14,
+			    const void * ALIGNED(16) a15,
 			    v16 &b00, v16 &b01, v16 &b02 )
   {
-    __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
-    __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
+    __m128 t0, t1, t2, t3;
+
+    t0 = _mm_load_ps( (const float *)a00 );
+    t1 = _mm_load_ps( (const float *)a01 );
+    t2 = _mm_load_ps( (const float *)a02 );
+    t3 = _mm_load_ps( (const float *)a03 );
+
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
+
+    b00.v = _mm512_castps128_ps512( t0 );
+    b01.v = _mm512_castps128_ps512( t1 );
+    b02.v = _mm512_castps128_ps512( t2 );
+
+    t0 = _mm_load_ps( (const float *)a04 );
+    t1 = _mm_load_ps( (const float *)a05 );
+    t2 = _mm_load_ps( (const float *)a06 );
+    t3 = _mm_load_ps( (const float *)a07 );
+
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
+
+    b00.v = _mm512_insertf32x4( b00.v, t0, 1 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 1 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 1 );
+
+    t0 = _mm_load_ps( (const float *)a08 );
+    t1 = _mm_load_ps( (const float *)a09 );
+    t2 = _mm_load_ps( (const float *)a10 );
+    t3 = _mm_load_ps( (const float *)a11 );
+
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
+
+    b00.v = _mm512_insertf32x4( b00.v, t0, 2 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 2 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 2 );
+
+    t0 = _mm_load_ps( (const float *)a12 );
+    t1 = _mm_load_ps( (const float *)a13 );
+    t2 = _mm_load_ps( (const float *)a14 );
+    t3 = _mm_load_ps( (const float *)a15 );
+
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
+
+    b00.v = _mm512_insertf32x4( b00.v, t0, 3 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 3 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 3 );
+  }
+
+  inline void load_16x4_tr( const void * ALIGNED(16) a00,
+			    const void * ALIGNED(16) a01,
+			    const void * ALIGNED(16) a02,
+			    const void * ALIGNED(16) a03,
+			    const void * ALIGNED(16) a04,
+			    const void * ALIGNED(16) a05,
+			    const void * ALIGNED(16) a06,
+			    const void * ALIGNED(16) a07,
+			    const void * ALIGNED(16) a08,
+			    const void * ALIGNED(16) a09,
+			    const void * ALIGNED(16) a10,
+			    const void * ALIGNED(16) a11,
+			    const void * ALIGNED(16) a12,
+			    const void * ALIGNED(16) a13,
+			    const void * ALIGNED(16) a14,
+			    const void * ALIGNED(16) a15,
+			    v16 &b00, v16 &b01, v16 &b02, v16 &b03 )
+  {
+    __m128 t0, t1, t2, t3;
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    t0 = _mm_load_ps( (const float *)a00 );
+    t1 = _mm_load_ps( (const float *)a01 );
+    t2 = _mm_load_ps( (const float *)a02 );
+    t3 = _mm_load_ps( (const float *)a03 );
 
-    t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
-    t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
-    t02   = _mm512_unpacklo_ps( u02, u03 );                            //  32  48  33  49  36  52  37  53  40  56  41  57  44  60  45  61
-    t03   = _mm512_unpackhi_ps( u02, u03 );                            //  34  50  35  51  38  54  39  55  42  58  43  59  46  62  47  63
-    t04   = _mm512_unpacklo_ps( u04, u05 );                            //  64  80  65  81  68  84  69  85  72  88  73  89  76  92  77  93
-    t05   = _mm512_unpackhi_ps( u04, u05 );                            //  66  82  67  83  70  86  71  87  74  90  75  91  78  94  79  95
-    t06   = _mm512_unpacklo_ps( u06, u07 );                            //  96 112  97 113 100 116 101 117 104 120 105 121 108 124 109 125
-    t07   = _mm512_unpackhi_ps( u06, u07 );                            //  98 114  99 115 102 118 103 119 106 122 107 123 110 126 111 127
-    t08   = _mm512_unpacklo_ps( u08, u09 );                            // 128 144 129 145 132 148 133 149 136 152 137 153 140 156 141 157
-    t09   = _mm512_unpackhi_ps( u08, u09 );                            // 130 146 131 147 134 150 135 151 138 154 139 155 142 158 143 159
-    t10   = _mm512_unpacklo_ps( u10, u11 );                            // 160 176 161 177 164 180 165 181 168 184 169 185 172 188 173 189
-    t11   = _mm512_unpackhi_ps( u10, u11 );                            // 162 178 163 179 166 182 167 183 170 186 171 187 174 190 175 191
-    t12   = _mm512_unpacklo_ps( u12, u13 );                            // 192 208 193 209 196 212 197 213 200 216 201 217 204 220 205 221
-    t13   = _mm512_unpackhi_ps( u12, u13 );                            // 194 210 195 211 198 214 199 215 202 218 203 219 206 222 207 223
-    t14   = _mm512_unpacklo_ps( u14, u15 );                            // 224 240 225 241 228 244 229 245 232 248 233 249 236 252 237 253
-    t15   = _mm512_unpackhi_ps( u14, u15 );                            // 226 242 227 243 230 246 231 247 234 250 235 251 238 254 239 255
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
 
-    u00   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //   0  16  32  48   4  20  36  52   8  24  40  56  12  28  44  60
-    u01   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //   1  17  33  49   5  21  37  53   9  25  41  57  13  29  45  61
-    u02   = _mm512_shuffle_ps( t01, t03, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //   2  18  34  50   6  22  38  54  10  26  42  58  14  30  46  62
-    u04   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //  64  80  96 112  68  84 100 116  72  88 104 120  76  92 108 124
-    u05   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //  65  81  97 113  69  85 101 117  73  89 105 121  77  93 109 125
-    u06   = _mm512_shuffle_ps( t05, t07, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //  66  82  98 114  70  86 102 118  74  90 106 122  78  94 110 126
-    u08   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 128 144 160 176 132 148 164 180 136 152 168 184 140 156 172 188
-    u09   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 129 145 161 177 133 149 165 181 137 153 169 185 141 157 173 189
-    u10   = _mm512_shuffle_ps( t09, t11, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 130 146 162 178 134 150 166 182 138 154 170 186 142 158 174 190
-    u12   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 192 208 224 240 196 212 228 244 200 216 232 248 204 220 236 252
-    u13   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 193 209 225 241 197 213 229 245 201 217 233 249 205 221 237 253
-    u14   = _mm512_shuffle_ps( t13, t15, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 194 210 226 242 198 214 230 246 202 218 234 250 206 222 238 254
+    b00.v = _mm512_castps128_ps512( t0 );
+    b01.v = _mm512_castps128_ps512( t1 );
+    b02.v = _mm512_castps128_ps512( t2 );
+    b03.v = _mm512_castps128_ps512( t3 );
 
-    t00   = _mm512_shuffle_f32x4( u00, u04, 0x88 );                    //   0  16  32  48   8  24  40  56  64  80  96 112  72  88 104 120
-    t01   = _mm512_shuffle_f32x4( u01, u05, 0x88 );                    //   1  17  33  49   9  25  41  57  65  81  97 113  73  89 105 121
-    t02   = _mm512_shuffle_f32x4( u02, u06, 0x88 );                    //   2  18  34  50  10  26  42  58  66  82  98 114  74  90 106 122
-    t08   = _mm512_shuffle_f32x4( u08, u12, 0x88 );                    // 128 144 160 176 136 152 168 184 192 208 224 240 200 216 232 248
-    t09   = _mm512_shuffle_f32x4( u09, u13, 0x88 );                    // 129 145 161 177 137 153 169 185 193 209 225 241 201 217 233 249
-    t10   = _mm512_shuffle_f32x4( u10, u14, 0x88 );                    // 130 146 162 178 138 154 170 186 194 210 226 242 202 218 234 250
+    t0 = _mm_load_ps( (const float *)a04 );
+    t1 = _mm_load_ps( (const float *)a05 );
+    t2 = _mm_load_ps( (const float *)a06 );
+    t3 = _mm_load_ps( (const float *)a07 );
 
-    b00.v = _mm512_shuffle_f32x4( t00, t08, 0x88 );                    //   0  16  32  48  64  80  96 112 128 144 160 176 192 208 224 240
-    b01.v = _mm512_shuffle_f32x4( t01, t09, 0x88 );                    //   1  17  33  49  66  81  97 113 129 145 161 177 193 209 225 241
-    b02.v = _mm512_shuffle_f32x4( t02, t10, 0x88 );                    //   2  18  34  50  67  82  98 114 130 146 162 178 194 210 226 242
-  }
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
 
-  inline void load_16x4_tr( const void * ALIGNED(64) a00,
-			    const void * ALIGNED(64) a01,
-			    const void * ALIGNED(64) a02,
-			    const void * ALIGNED(64) a03,
-			    const void * ALIGNED(64) a04,
-			    const void * ALIGNED(64) a05,
-			    const void * ALIGNED(64) a06,
-			    const void * ALIGNED(64) a07,
-			    const void * ALIGNED(64) a08,
-			    const void * ALIGNED(64) a09,
-			    const void * ALIGNED(64) a10,
-			    const void * ALIGNED(64) a11,
-			    const void * ALIGNED(64) a12,
-			    const void * ALIGNED(64) a13,
-			    const void * ALIGNED(64) a14,
-			    const void * ALIGNED(64) a15,
-			    v16 &b00, v16 &b01, v16 &b02, v16 &b03 )
-  {
-    __m512 t00, t01, t02, t03, t04, t05, t06, t07, t08, t09, t10, t11, t12, t13, t14, t15;
-    __m512 u00, u01, u02, u03, u04, u05, u06, u07, u08, u09, u10, u11, u12, u13, u14, u15;
+    b00.v = _mm512_insertf32x4( b00.v, t0, 1 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 1 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 1 );
+    b03.v = _mm512_insertf32x4( b03.v, t3, 1 );
 
-    u00   = _mm512_load_ps( (const float *)a00 );                      //   0   1   2   3   4   5   6   7   8   9  10  11  12  13  14  15
-    u01   = _mm512_load_ps( (const float *)a01 );                      //  16  17  18  19  20  21  22  23  24  25  26  27  28  29  30  31
-    u02   = _mm512_load_ps( (const float *)a02 );                      //  32  33  34  35  36  37  38  39  40  41  42  43  44  45  46  47
-    u03   = _mm512_load_ps( (const float *)a03 );                      //  48  49  50  51  52  53  54  55  56  57  58  59  60  61  62  63
-    u04   = _mm512_load_ps( (const float *)a04 );                      //  64  65  66  67  68  69  70  71  72  73  74  75  76  77  78  79
-    u05   = _mm512_load_ps( (const float *)a05 );                      //  80  81  82  83  84  85  86  87  88  89  90  91  92  93  94  95
-    u06   = _mm512_load_ps( (const float *)a06 );                      //  96  97  98  99 100 101 102 103 104 105 106 107 108 109 110 111
-    u07   = _mm512_load_ps( (const float *)a07 );                      // 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127
-    u08   = _mm512_load_ps( (const float *)a08 );                      // 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143
-    u09   = _mm512_load_ps( (const float *)a09 );                      // 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
-    u10   = _mm512_load_ps( (const float *)a10 );                      // 160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175
-    u11   = _mm512_load_ps( (const float *)a11 );                      // 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191
-    u12   = _mm512_load_ps( (const float *)a12 );                      // 192 193 194 195 196 197 198 199 200 201 202 203 204 205 206 207
-    u13   = _mm512_load_ps( (const float *)a13 );                      // 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223
-    u14   = _mm512_load_ps( (const float *)a14 );                      // 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
-    u15   = _mm512_load_ps( (const float *)a15 );                      // 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255
+    t0 = _mm_load_ps( (const float *)a08 );
+    t1 = _mm_load_ps( (const float *)a09 );
+    t2 = _mm_load_ps( (const float *)a10 );
+    t3 = _mm_load_ps( (const float *)a11 );
 
-    t00   = _mm512_unpacklo_ps( u00, u01 );                            //   0  16   1  17   4  20   5  21   8  24   9  25  12  28  13  29 
-    t01   = _mm512_unpackhi_ps( u00, u01 );                            //   2  18   3  19   6  22   7  23  10  26  11  27  14  30  15  31
-    t02   = _mm512_unpacklo_ps( u02, u03 );                            //  32  48  33  49  36  52  37  53  40  56  41  57  44  60  45  61
-    t03   = _mm512_unpackhi_ps( u02, u03 );                            //  34  50  35  51  38  54  39  55  42  58  43  59  46  62  47  63
-    t04   = _mm512_unpacklo_ps( u04, u05 );                            //  64  80  65  81  68  84  69  85  72  88  73  89  76  92  77  93
-    t05   = _mm512_unpackhi_ps( u04, u05 );                            //  66  82  67  83  70  86  71  87  74  90  75  91  78  94  79  95
-    t06   = _mm512_unpacklo_ps( u06, u07 );                            //  96 112  97 113 100 116 101 117 104 120 105 121 108 124 109 125
-    t07   = _mm512_unpackhi_ps( u06, u07 );                            //  98 114  99 115 102 118 103 119 106 122 107 123 110 126 111 127
-    t08   = _mm512_unpacklo_ps( u08, u09 );                            // 128 144 129 145 132 148 133 149 136 152 137 153 140 156 141 157
-    t09   = _mm512_unpackhi_ps( u08, u09 );                            // 130 146 131 147 134 150 135 151 138 154 139 155 142 158 143 159
-    t10   = _mm512_unpacklo_ps( u10, u11 );                            // 160 176 161 177 164 180 165 181 168 184 169 185 172 188 173 189
-    t11   = _mm512_unpackhi_ps( u10, u11 );                            // 162 178 163 179 166 182 167 183 170 186 171 187 174 190 175 191
-    t12   = _mm512_unpacklo_ps( u12, u13 );                            // 192 208 193 209 196 212 197 213 200 216 201 217 204 220 205 221
-    t13   = _mm512_unpackhi_ps( u12, u13 );                            // 194 210 195 211 198 214 199 215 202 218 203 219 206 222 207 223
-    t14   = _mm512_unpacklo_ps( u14, u15 );                            // 224 240 225 241 228 244 229 245 232 248 233 249 236 252 237 253
-    t15   = _mm512_unpackhi_ps( u14, u15 );                            // 226 242 227 243 230 246 231 247 234 250 235 251 238 254 239 255
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
 
-    u00   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //   0  16  32  48   4  20  36  52   8  24  40  56  12  28  44  60
-    u01   = _mm512_shuffle_ps( t00, t02, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //   1  17  33  49   5  21  37  53   9  25  41  57  13  29  45  61
-    u02   = _mm512_shuffle_ps( t01, t03, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //   2  18  34  50   6  22  38  54  10  26  42  58  14  30  46  62
-    u03   = _mm512_shuffle_ps( t01, t03, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //   3  19  35  51   7  23  39  55  11  27  43  59  15  31  47  63
-    u04   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //  64  80  96 112  68  84 100 116  72  88 104 120  76  92 108 124
-    u05   = _mm512_shuffle_ps( t04, t06, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //  65  81  97 113  69  85 101 117  73  89 105 121  77  93 109 125
-    u06   = _mm512_shuffle_ps( t05, t07, _MM_SHUFFLE( 1, 0, 1, 0 ) );  //  66  82  98 114  70  86 102 118  74  90 106 122  78  94 110 126
-    u07   = _mm512_shuffle_ps( t05, t07, _MM_SHUFFLE( 3, 2, 3, 2 ) );  //  67  83  99 115  71  87 103 119  75  91 107 123  79  95 111 127
-    u08   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 128 144 160 176 132 148 164 180 136 152 168 184 140 156 172 188
-    u09   = _mm512_shuffle_ps( t08, t10, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 129 145 161 177 133 149 165 181 137 153 169 185 141 157 173 189
-    u10   = _mm512_shuffle_ps( t09, t11, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 130 146 162 178 134 150 166 182 138 154 170 186 142 158 174 190
-    u11   = _mm512_shuffle_ps( t09, t11, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 131 147 163 179 135 151 167 183 139 155 171 187 143 159 175 191
-    u12   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 192 208 224 240 196 212 228 244 200 216 232 248 204 220 236 252
-    u13   = _mm512_shuffle_ps( t12, t14, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 193 209 225 241 197 213 229 245 201 217 233 249 205 221 237 253
-    u14   = _mm512_shuffle_ps( t13, t15, _MM_SHUFFLE( 1, 0, 1, 0 ) );  // 194 210 226 242 198 214 230 246 202 218 234 250 206 222 238 254
-    u15   = _mm512_shuffle_ps( t13, t15, _MM_SHUFFLE( 3, 2, 3, 2 ) );  // 195 211 227 243 199 215 231 247 203 219 235 251 207 223 239 255
+    b00.v = _mm512_insertf32x4( b00.v, t0, 2 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 2 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 2 );
+    b03.v = _mm512_insertf32x4( b03.v, t3, 2 );
 
-    t00   = _mm512_shuffle_f32x4( u00, u04, 0x88 );                    //   0  16  32  48   8  24  40  56  64  80  96 112  72  88 104 120
-    t01   = _mm512_shuffle_f32x4( u01, u05, 0x88 );                    //   1  17  33  49   9  25  41  57  65  81  97 113  73  89 105 121
-    t02   = _mm512_shuffle_f32x4( u02, u06, 0x88 );                    //   2  18  34  50  10  26  42  58  66  82  98 114  74  90 106 122
-    t03   = _mm512_shuffle_f32x4( u03, u07, 0x88 );                    //   3  19  35  51  11  27  43  59  67  83  99 115  75  91 107 123
-    t08   = _mm512_shuffle_f32x4( u08, u12, 0x88 );                    // 128 144 160 176 136 152 168 184 192 208 224 240 200 216 232 248
-    t09   = _mm512_shuffle_f32x4( u09, u13, 0x88 );                    // 129 145 161 177 137 153 169 185 193 209 225 241 201 217 233 249
-    t10   = _mm512_shuffle_f32x4( u10, u14, 0x88 );                    // 130 146 162 178 138 154 170 186 194 210 226 242 202 218 234 250
-    t11   = _mm512_shuffle_f32x4( u11, u15, 0x88 );                    // 131 147 163 179 139 155 171 187 195 211 227 243 203 219 235 251
+    t0 = _mm_load_ps( (const float *)a12 );
+    t1 = _mm_load_ps( (const float *)a13 );
+    t2 = _mm_load_ps( (const float *)a14 );
+    t3 = _mm_load_ps( (const float *)a15 );
 
-    b00.v = _mm512_shuffle_f32x4( t00, t08, 0x88 );                    //   0  16  32  48  64  80  96 112 128 144 160 176 192 208 224 240
-    b01.v = _mm512_shuffle_f32x4( t01, t09, 0x88 );                    //   1  17  33  49  66  81  97 113 129 145 161 177 193 209 225 241
-    b02.v = _mm512_shuffle_f32x4( t02, t10, 0x88 );                    //   2  18  34  50  67  82  98 114 130 146 162 178 194 210 226 242
-    b03.v = _mm512_shuffle_f32x4( t03, t11, 0x88 );                    //   3  19  35  51  68  83  99 115 131 147 163 179 195 211 227 243
+    _MM_TRANSPOSE4_PS( t0, t1, t2, t3 );
+
+    b00.v = _mm512_insertf32x4( b00.v, t0, 3 );
+    b01.v = _mm512_insertf32x4( b01.v, t1, 3 );
+    b02.v = _mm512_insertf32x4( b02.v, t2, 3 );
+    b03.v = _mm512_insertf32x4( b03.v, t3, 3 );
   }
 
   inline void load_16x8_tr( const void * ALIGNED(64) a00,
-- 
2.43.0


From 34ba6d6684df4f0b7bb5ff71e8457f8817a351d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 24/26] fix: deleting hard sphere and large angle Coulomb
 models leaves their parameters registered

---
 src/collision/binary.h               |  3 +++
 src/collision/hard_sphere.cc         | 34 +++++++++++++++++++++++++---
 src/collision/large_angle_coulomb.cc | 34 +++++++++++++++++++++++++---
 src/collision/unary.h                |  3 +++
 4 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/src/collision/binary.h b/src/collision/binary.h
index aa16dd3..1dc06ec 100644
--- a/src/collision/binary.h
+++ b/src/collision/binary.h
@@ -17,6 +17,9 @@ typedef struct binary_collision_model
   int n_large_pr[ MAX_PIPELINE ];
 } binary_collision_model_t;
 
+void
+delete_binary_collision_model( collision_op_t * cop );
+
 void
 apply_binary_collision_model_pipeline( binary_collision_model_t * cm );
 
diff --git a/src/collision/hard_sphere.cc b/src/collision/hard_sphere.cc
index 495d922..738b02c 100644
--- a/src/collision/hard_sphere.cc
+++ b/src/collision/hard_sphere.cc
@@ -1,4 +1,6 @@
-#include "collision.h"
+#define IN_collision
+#include "binary.h"
+#include "unary.h"
 
 /* Private interface *********************************************************/
 
@@ -359,6 +361,26 @@ restore_hard_sphere( void )
   return hs;
 }
 
+/* The model parameters are registered objects owned by the collision model. */
+
+void
+delete_hard_sphere_fluid( collision_op_t * cop )
+{
+  void * params = ( (unary_collision_model_t *) cop->params )->params;
+  UNREGISTER_OBJECT( params );
+  FREE( params );
+  delete_unary_collision_model( cop );
+}
+
+void
+delete_hard_sphere( collision_op_t * cop )
+{
+  void * params = ( (binary_collision_model_t *) cop->params )->params;
+  UNREGISTER_OBJECT( params );
+  FREE( params );
+  delete_binary_collision_model( cop );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -376,6 +398,7 @@ hard_sphere_fluid( const char * RESTRICT name, /* Model name */
                    const int interval )        /* How often to apply this */
 {
   hard_sphere_t * hs;
+  collision_op_t * cop;
 
   if( n0<0 || kT0<0 || m0<=0 || r0<0 ||
       !sp || sp->m<=0 || rsp<0 ) ERROR(( "Bad args" ));
@@ -396,10 +419,12 @@ hard_sphere_fluid( const char * RESTRICT name, /* Model name */
   hs->ut2          += FLT_MIN;
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return unary_collision_model( name,
+  cop = unary_collision_model( name,
                    (unary_rate_constant_func_t)hard_sphere_fluid_rate_constant,
                    (unary_collision_func_t)    hard_sphere_fluid_collision,
                                 hs, sp, rp, interval );
+  cop->delete_cop = delete_hard_sphere_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -413,6 +438,7 @@ hard_sphere( const char * RESTRICT name, /* Model name */
              const int interval )        /* How often to apply this */
 {
   hard_sphere_t * hs;
+  collision_op_t * cop;
 
   if( !spi || spi->m<=0 || ri<0 ||
       !spj || spj->m<=0 || rj<0 || spi->g!=spj->g ) ERROR(( "Bad args" ));
@@ -424,8 +450,10 @@ hard_sphere( const char * RESTRICT name, /* Model name */
   hs->Kc       = spi->g->cvac*M_PI*(ri+rj)*(ri+rj);
 
   REGISTER_OBJECT( hs, checkpt_hard_sphere, restore_hard_sphere, NULL );
-  return binary_collision_model( name,
+  cop = binary_collision_model( name,
                         (binary_rate_constant_func_t)hard_sphere_rate_constant,
                         (binary_collision_func_t)    hard_sphere_collision,
                                  hs, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_hard_sphere;
+  return cop;
 }
diff --git a/src/collision/large_angle_coulomb.cc b/src/collision/large_angle_coulomb.cc
index d2e2845..28f1a01 100644
--- a/src/collision/large_angle_coulomb.cc
+++ b/src/collision/large_angle_coulomb.cc
@@ -1,4 +1,6 @@
-#include "collision.h"
+#define IN_collision
+#include "binary.h"
+#include "unary.h"
 
 /* Private interface *********************************************************/
 
@@ -207,6 +209,26 @@ restore_large_angle_coulomb( void )
   return lac;
 }
 
+/* The model parameters are registered objects owned by the collision model. */
+
+void
+delete_large_angle_coulomb_fluid( collision_op_t * cop )
+{
+  void * params = ( (unary_collision_model_t *) cop->params )->params;
+  UNREGISTER_OBJECT( params );
+  FREE( params );
+  delete_unary_collision_model( cop );
+}
+
+void
+delete_large_angle_coulomb( collision_op_t * cop )
+{
+  void * params = ( (binary_collision_model_t *) cop->params )->params;
+  UNREGISTER_OBJECT( params );
+  FREE( params );
+  delete_binary_collision_model( cop );
+}
+
 /* Public interface **********************************************************/
 
 collision_op_t *
@@ -225,6 +247,7 @@ large_angle_coulomb_fluid(
     const int interval )        /* How often to apply this */
 {
   large_angle_coulomb_t * lac;
+  collision_op_t * cop;
 
   if( n0<0 || kT0<0 || !q0 || m0<=0 || !sp || !sp->q || sp->m<=0 || bmax<0 )
     ERROR(( "Bad args" ));
@@ -251,10 +274,12 @@ large_angle_coulomb_fluid(
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return unary_collision_model( name,
+  cop = unary_collision_model( name,
            (unary_rate_constant_func_t)large_angle_coulomb_fluid_rate_constant,
            (unary_collision_func_t)    large_angle_coulomb_fluid_collision,
                                 lac, sp, rp, interval );
+  cop->delete_cop = delete_large_angle_coulomb_fluid;
+  return cop;
 }
 
 collision_op_t *
@@ -267,6 +292,7 @@ large_angle_coulomb( const char * RESTRICT name, /* Model name */
                      const int interval )        /* How often to apply this */
 {
   large_angle_coulomb_t * lac;
+  collision_op_t * cop;
 
   if( !spi || !spi->q || spi->m<=0 || 
       !spj || !spj->q || spj->m<=0 || spi->g!=spj->g ) ERROR(( "Bad args" ));
@@ -282,8 +308,10 @@ large_angle_coulomb( const char * RESTRICT name, /* Model name */
   REGISTER_OBJECT( lac,
                    checkpt_large_angle_coulomb,
                    restore_large_angle_coulomb, NULL );
-  return binary_collision_model( name,
+  cop = binary_collision_model( name,
                 (binary_rate_constant_func_t)large_angle_coulomb_rate_constant,
                 (binary_collision_func_t)    large_angle_coulomb_collision,
                                  lac, spi, spj, rp, sample, interval );
+  cop->delete_cop = delete_large_angle_coulomb;
+  return cop;
 }
diff --git a/src/collision/unary.h b/src/collision/unary.h
index c14b92b..0cd008f 100644
--- a/src/collision/unary.h
+++ b/src/collision/unary.h
@@ -15,6 +15,9 @@ typedef struct unary_collision_model
   int n_large_pr[ MAX_PIPELINE ];
 } unary_collision_model_t;
 
+void
+delete_unary_collision_model( collision_op_t * cop );
+
 void
 apply_unary_collision_model_pipeline( unary_collision_model_t * cm );
 
-- 
2.43.0


From 4d92703598bec3d859efee5afb2250348f08f754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 25/26] fix: OpenMP EXEC_PIPELINES scales the argument stride
 by the argument size twice

---
 src/util/pipelines/pipelines_exec_omp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/pipelines/pipelines_exec_omp.h b/src/util/pipelines/pipelines_exec_omp.h
index bbd24a8..9f01483 100644
--- a/src/util/pipelines/pipelines_exec_omp.h
+++ b/src/util/pipelines/pipelines_exec_omp.h
@@ -30,7 +30,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v16( args+id*sizeof(*args)*str, id, N_PIPELINE );    \
+      name##_pipeline_v16( args+id*str, id, N_PIPELINE );                  \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -49,7 +49,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v8( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v8( args+id*str, id, N_PIPELINE );                   \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -68,7 +68,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_v4( args+id*sizeof(*args)*str, id, N_PIPELINE );     \
+      name##_pipeline_v4( args+id*str, id, N_PIPELINE );                   \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
@@ -87,7 +87,7 @@
     _Pragma( TOSTRING( omp for ) )                                         \
     for( int id = 0; id < N_PIPELINE; id++ )                               \
     {                                                                      \
-      name##_pipeline_scalar( args+id*sizeof(*args)*str, id, N_PIPELINE ); \
+      name##_pipeline_scalar( args+id*str, id, N_PIPELINE );               \
     }                                                                      \
   }                                                                        \
   name##_pipeline_scalar( args+str*N_PIPELINE, N_PIPELINE, N_PIPELINE );
-- 
2.43.0


From ed4520942c3bfc5c3c5096113b330d111e6db172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 26/26] fix: a checkpoint written by the initial diagnostics
 cannot be restored

---
 deck/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deck/main.cc b/deck/main.cc
index f9f7fb1..0dea00e 100644
--- a/deck/main.cc
+++ b/deck/main.cc
@@ -97,8 +97,8 @@ int main(int argc, char** argv)
             log_printf( "*** Initializing\n" );
         }
         simulation = new vpic_simulation();
-        simulation->initialize( argc, argv );
         REGISTER_OBJECT( &simulation, checkpt_main, restore_main, NULL );
+        simulation->initialize( argc, argv );
     }
 
     // Do any post init/restore simulation modifications
-- 
2.43.0

