From 96c7c6e709fee4127008daeab2744c46ff1d4c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 01/61] fix: pd_classify must not free the diagram its caller
 owns

pd_classify released the pd_code_t passed to it (with a bare free, and only on
the path that computes a HOMFLY), so a caller that goes on using or frees its
diagram, as tools/processpdstor.c does, hit a use after free / double free.
---
 src/plcTopology.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index aa5335b..7b5e753 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1643,7 +1643,6 @@ plc_knottype *pd_classify(pd_code_t *pdC, int *nposs)
   }
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From a67e55ee2859046240def9d53dfc14e2970d8770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 02/61] fix: plc_classify leaked the arrays of its intermediate
 diagram

A pd_code_t owns its edge, crossing, component and face buffers; free() only
released the outer struct.
---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 7b5e753..bfe82dd 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1549,7 +1549,7 @@ plc_knottype *plc_classify(gsl_rng *rng, plCurve *L, int *nposs)
   if (pdC == NULL) { *nposs = 0; return NULL; } /* For a singular polygon, don't classify. */
 
   ccode = pdcode_to_ccode(pdC);  /* The number of crossings is 2 + the number of \n's in ccode. */
-  free(pdC); /* We're not going to use this again, may as well free it now */
+  pd_code_free(&pdC); /* We're not going to use this again, may as well free it now */
 
   if (ccode == NULL) { *nposs = 0; return NULL; } // Otherwise you WILL segfault
 
-- 
2.43.0


From 660b4d2d346e83ebc7999dd2839b07679d215bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 03/61] fix: nplc_vmadd overwrote its first operand

An nplc_vector holds a pointer to its coordinates, so A.c[i] += ... changed the
caller's vector and returned an alias of it, unlike every other operation in
nvector.c, which returns a new vector.
---
 src/nvector.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/nvector.c b/src/nvector.c
index a326ddd..d41acc6 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -354,9 +354,11 @@ inline nplc_vector nplc_vlincomb(double a,nplc_vector A,
 inline nplc_vector nplc_vmadd(nplc_vector A, double s, nplc_vector B) {
  
   int i,n;
+  nplc_vector ret;
   n = nplc_vect_dim(A,B);
-  for(i=0;i<n;i++) { A.c[i] += s*B.c[i]; }
-  return A;
+  ret = nplc_vect_new(n);
+  for(i=0;i<n;i++) { ret.c[i] = A.c[i] + s*B.c[i]; }
+  return ret;
 
 }
 
-- 
2.43.0


From ef77441a26320ebd6fe7a045d860cd9dfa1e5854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:26 +0000
Subject: [PATCH 04/61] fix: octrope_est_mem estimated from the previous call's
 octree depth instead of the requested one

---
 src/octrope.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index c319f16..4f0bbb5 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -123,7 +123,7 @@ int octrope_est_mem(const int num_edges)
   int log_2;
 
   octrope_error_num = octrope_error_str[0] = 0;
-  my_octree_levels = octree_levels;
+  my_octree_levels = requested_levels;
   temp_int = num_edges;
   log_2 = 0;
   while (temp_int) {
-- 
2.43.0


From 181726411507c849c042861749a11992f0467a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:26 +0000
Subject: [PATCH 05/61] fix: pd_code_from_plCurve drew its rotation axis from
 rand() instead of the caller's generator

---
 src/plcTopology.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index bfe82dd..fd7db04 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -28,6 +28,7 @@ Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 #include"plcTopology.h"
 #include"homfly.h"
 #include"octrope.h"
+#include <gsl/gsl_randist.h>
 
 
 #include <stdio.h>
@@ -1341,7 +1342,7 @@ pd_code_t *pd_code_from_plCurve(gsl_rng *rng, plCurve *L) {
 
     /* Step 1. Rotate the whole thing randomly. */
 
-    if (!pd_code_from_plCurve_debug) { new_axis = plc_random_vect(); }
+    if (!pd_code_from_plCurve_debug) { gsl_ran_dir_3d(rng,&new_axis.c[0],&new_axis.c[1],&new_axis.c[2]); }
 
     plc_random_rotate(workingL,new_axis);
 
-- 
2.43.0


From 6a48997693bccc31a0c248cfe459284afa19cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:39 +0000
Subject: [PATCH 06/61] fix: realloc_or_die returned the block realloc had just
 released

---
 src/ordie.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordie.c b/src/ordie.c
index 6c614e8..c61be80 100644
--- a/src/ordie.c
+++ b/src/ordie.c
@@ -183,6 +183,6 @@ void *realloc_or_die_internal(void *ptr, size_t newsize,
   
   }
 
-  return ptr;
+  return newptr;
 
 }
-- 
2.43.0


From 1e46cf6c763b2ae602ae80f974945711a5a9ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:39 +0000
Subject: [PATCH 07/61] fix: lu_decmp and octree_to_skel released their scratch
 buffer and file only on some paths

---
 src/matrix.c  | 1 +
 src/octrope.c | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/matrix.c b/src/matrix.c
index 7913804..b4277a1 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -99,6 +99,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
 
     if (big == 0.0) {
 
+      free(cvt);
       *ok = false;
       return NULL;
 
diff --git a/src/octrope.c b/src/octrope.c
index 4f0bbb5..2e24bd5 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -911,6 +911,7 @@ int ramp_check(varr *edge, const plc_vector v[3],
 void octree_to_skel(box *B,FILE *outfile) 
 {
   int cnt;
+  int opened_here = false;
   
   if (outfile == NULL) {
     outfile = fopen("boxes.vect","w");
@@ -919,6 +920,7 @@ void octree_to_skel(box *B,FILE *outfile)
       octrope_error_num = 10;
       return;
     }
+    opened_here = true;
     fprintf(outfile,"VECT\n");
   }
   if (octree_leaf(B)) {
@@ -941,6 +943,7 @@ void octree_to_skel(box *B,FILE *outfile)
       }
     }
   }
+  if (opened_here) { fclose(outfile); }
 }
 
 #define LU_DOUBLE_TYPE long double
-- 
2.43.0


From cd947ffdf70f5b6a03980d0ebae4650ad8bfb5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:39 +0000
Subject: [PATCH 08/61] fix: diagram checks and isomorphism searches leaked
 their scratch arrays on the failing return

---
 src/pd_isomorphisms.c | 21 ++++++++++++++++-----
 src/pd_multidx.c      |  4 +++-
 src/pdcode.c          | 24 ++++++++++++++++++------
 3 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 510598a..e914559 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -560,13 +560,15 @@ bool pd_edgemaps_ok(unsigned int nedgemaps,pd_edgemap_t **edgemap_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "edgemap_buf contains\n"
 		      "%EDGEMAP == \n"
 		      "%EDGEMAP at positions %d, %d \n"
 		      "(sorted) emb_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      emb_copy[i],emb_copy[i+1],j,k,i,i+1);
+      free(emb_copy);
+      return false;
 
     }
 
@@ -2043,11 +2045,13 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 
       if (iso->edgemap->orient[this_edge] != comp_or[comp]) {
 
-	return pd_error(SRCLOC,
+	pd_error(SRCLOC,
 			"edge %d (edge %d of comp %d) edgemap or %OR does \n"
 			"not match edge %d (edge 0 of comp %d) or %OR",NULL,
 			this_edge,compedge,comp,iso->edgemap->orient[this_edge],
 			start_edge,comp,comp_or[comp]);
+	free(comp_or);
+	return false;
 
       }
 
@@ -2087,12 +2091,14 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 
       if (!pdint_in_cyclic_order(pos1,pos2,pdB->comp[comp1].nedges,comp_or[comp])) {
 
-	return pd_error(SRCLOC,
+	pd_error(SRCLOC,
 			"along comp %d of pdA, edges %d and %d (global edges %d and %d) map to\n"
 			"edges %d and %d of comp %d of pdB (global edges %d and %d) which are not\n"
 			"in cyclic order %OR",NULL,
 			comp,compedge,(compedge+1)%pdA->comp[comp].nedges,
 			edge1,edge2,pos1,pos2,comp1,after1,after2,&(comp_or[comp]));
+	free(comp_or);
+	return false;
 
       }
 
@@ -2205,13 +2211,15 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 				&(after_facemap_face->edge[0]),
 				nedges,iso->facemap->orient)) {
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "%FACEMAP takes %d -> %OR %d, but \n"
 		      "%EDGEMAP takes %FACEPTR -> %FACEPTR != %FACEPTR\n"
 		      "with orientation %OR.\n",
 		      NULL,iso->facemap,face,iso->facemap->orient,iso->facemap->perm->map[face],
 		      iso->edgemap,&(pdA->face[face]),&after_edgemap_face,
 		      after_facemap_face);
+      free(after_edgemap_face.edge); free(after_edgemap_face.orient);
+      return false;
 
     }
 
@@ -2272,13 +2280,15 @@ bool      pd_isos_unique(unsigned int nisos,pd_iso_t **iso_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "iso_buf contains\n"
 		      "%ISO == \n"
 		      "%ISO at positions %d, %d \n"
 		      "(sorted) isobuf_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      isobuf_copy[i],isobuf_copy[i+1],j,k,i,i+1);
+      free(isobuf_copy);
+      return false;
 
     }
 
@@ -2591,6 +2601,7 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
     if (pdA->comp[i].nedges != pdB->comp[comp_perm->map[i]].nedges) {
 
+      pd_free_container(&isos,pd_free_fake);
       pd_free_perm((void **)(&comp_perm));
       *nisos = 0;
       return NULL;
diff --git a/src/pd_multidx.c b/src/pd_multidx.c
index a8f865a..c35e03f 100644
--- a/src/pd_multidx.c
+++ b/src/pd_multidx.c
@@ -274,13 +274,15 @@ bool pd_multidxs_unique(unsigned int nmultidxs,pd_multidx_t **multidx_buf)
 
       assert(ifound && iplusfound);
 
-      return pd_error(SRCLOC,
+      pd_error(SRCLOC,
 		      "multidx_buf contains\n"
 		      "%MULTIDX == \n"
 		      "%MULTIDX at positions %d, %d \n"
 		      "(sorted) mb_copy buf positions are %d, %d\n"
 		      ,NULL,
 		      mb_copy[i],mb_copy[i+1],j,k,i,i+1);
+      free(mb_copy);
+      return false;
 
     }
 
diff --git a/src/pdcode.c b/src/pdcode.c
index 354efaf..a8b188b 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2153,8 +2153,10 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (!(pd->cross[cross].sign == PD_POS_ORIENTATION || pd->cross[cross].sign == PD_NEG_ORIENTATION || pd->cross[cross].sign == PD_UNSET_ORIENTATION)) {
 
-      return pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
+      pd_error(SRCLOC,"%CROSS contains illegal sign %d in pd %PD",pd,
 		      cross,pd->cross[cross].sign);
+      free(edge_seen);
+      return false;
 
     }
 
@@ -2164,9 +2166,11 @@ bool pd_cross_ok(pd_code_t *pd)
 
       if (!(edge < pd->nedges)) {
 
-	return pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
+	pd_error(SRCLOC,"%CROSS contains illegal edge number %d (not < number of edges %d) in pd %PD",
 			pd,
 			cross,edge,pd->nedges);
+	free(edge_seen);
+	return false;
 
       }
 
@@ -2194,7 +2198,9 @@ bool pd_cross_ok(pd_code_t *pd)
 
       } else {
 
-	return pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
+	pd_error(SRCLOC,"%EDGE not seen twice in %PD",pd,edge);
+	free(edge_seen);
+	return false;
 
       }
     }
@@ -2207,8 +2213,10 @@ bool pd_cross_ok(pd_code_t *pd)
 
     if (pd_cross_cmp(&(pd->cross[cross]),&(pd->cross[cross-1])) < 0) {
 
-      return pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
+      pd_error(SRCLOC,"%CROSS and %CROSS are out of order in %PD",
 		      pd,cross-1,cross);
+      free(edge_seen);
+      return false;
 
     }
 
@@ -2445,7 +2453,9 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
-      return pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
+      pd_error(SRCLOC,"components %COMP and %COMP of %PD have duplicate tags",pd,compA,compB);
+      free(tagset);
+      return false;
 
     }
 
@@ -2464,7 +2474,9 @@ bool pd_comps_ok(pd_code_t *pd)
 
       }
 
-      return pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
+      pd_error(SRCLOC,"component %COMP has illegal tag (< 'A')",pd,compA);
+      free(tagset);
+      return false;
 
     }
 
-- 
2.43.0


From 6fe4f6c8e510acd8a6602e508ecaedc97c36134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:39 +0000
Subject: [PATCH 09/61] fix: projection and HOMFLY helpers in plcTopology
 leaked intermediate objects

---
 src/plcTopology.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index fd7db04..7869210 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -306,6 +306,7 @@ char *pd_homfly_timeout(pd_code_t *pd, int timeout)
   }
 
   if (homfly_lmpoly == NULL) {
+      free(ccode);
       return NULL; // NULL signifies timeout or other error in plc_lmpoly
   }
 
@@ -670,6 +671,7 @@ plCurve *make_zprojection_generic(gsl_rng *rng, plCurve *L) {
     if (safe_radius < 1e-16) {
 
       fprintf(stderr,"plc_ccode: plCurve is numerically singular. Can't compute projection.\n");
+      plc_free(Lcopy);
       return NULL;
 
     }
@@ -869,6 +871,7 @@ crossing_container *findcrossings(plCurve *L) {
 	      fprintf(stderr,"plc_ccode: Unexpected error computing "
 		      "crossings for (supposedly) generic L.\n");
 	      crossing_container_free(&cc);
+	      plc_free(Lproj);
 	      return NULL;
 
 	    }
-- 
2.43.0


From 938182babcfd1cf724d37f30c029c749c11dbf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 10/61] fix: Toric Symplectic checks and log writers leaked
 scratch arrays and the configuration string

---
 src/plcToricSymplectic.c              |  2 ++
 src/plcToricSymplecticTriangulation.c | 26 +++++++++++++-------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index fc1202b..cc6fb0b 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -1206,6 +1206,7 @@ double   tsmcmc_equilateral_expectation(gsl_rng *rng,double integrand(plCurve *L
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
@@ -1526,6 +1527,7 @@ double   tsmcmc_fixed_ftc_expectation(gsl_rng *rng,double integrand(plCurve *L,
 	fprintf(run_params.logfile,"{ \"step number\"->%d, %s, \"integrand\"->%g, \"sample mean\"->%g }\n",
 		i,configuration,ival,(double)(gips->sample_sum/(long double)(i)));
 	fflush(run_params.logfile);
+	free(configuration);
     }
 
   }
diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 8ea9482..e9b4bd4 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -408,7 +408,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
     if (!tsmcmc_chord_ok(T,T.triangles[i].parent_chord,T.triangles[i].parent_type)) { 
 
       printf("T.triangles[%d].parent chord not ok.\n",i);
-      return false;
+      free(daughterof); return false;
 
     }
       
@@ -417,7 +417,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       if (!tsmcmc_chord_ok(T,T.triangles[i].daughter_chord[j],T.triangles[i].daughter_type[j])) {
 	
 	printf("T.triangles[%d].daughter_chord[%d] not ok.\n",i,j);
-	return false;
+	free(daughterof); return false;
 
       }
 
@@ -426,7 +426,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("T.triangles[%d].daughter_tri[%d] = %d illegal (<-1 or >T.ntri-1 = %d)\n",
 	       i,j,T.triangles[i].daughter_tri[j],T.ntri-1);
 
-	return false;
+	free(daughterof); return false;
 
       }
 
@@ -436,7 +436,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 
 	  printf("Triangle %d is a daughter of BOTH triangle %d and triangle %d.\n",
 		 T.triangles[i].daughter_tri[j],i,daughterof[T.triangles[i].daughter_tri[j]]);
-	  return false;
+	  free(daughterof); return false;
 	  
 	}
 	
@@ -459,7 +459,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
-	return false;
+	free(daughterof); return false;
 	
       } 
 
@@ -473,7 +473,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
-	return false;
+	free(daughterof); return false;
 	
       } 
 
@@ -489,7 +489,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
       tsmcmc_print_chord(T,T.triangles[i].daughter_chord[0],T.triangles[i].daughter_type[0]); printf("\n");
       printf("daughter 1:"); tsmcmc_print_chord(T,T.triangles[i].daughter_chord[1],T.triangles[i].daughter_type[1]); printf("\n");
 
-      return false;
+      free(daughterof); return false;
 
     } 
 
@@ -506,7 +506,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
-	return false;
+	free(daughterof); return false;
 	
       } 
 
@@ -521,7 +521,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	printf("parent_chord:"); 
 	tsmcmc_print_chord(T,T.triangles[i].parent_chord,T.triangles[i].parent_type); printf("\n");
 	
-	return false;
+	free(daughterof); return false;
 	
       } 
 
@@ -541,7 +541,7 @@ bool tsmcmc_triangulation_ok(tsmcmc_triangulation_t T)
 	
 	printf("BOTH triangle %d and triangle %d don't appear as a daughter.\n",
 	       i,roottri);
-	return false;
+	free(daughterof); return false;
 	
       } else {
 	
@@ -1052,7 +1052,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 
       printf("tsmcmc_polygon_embedding_ok: edge %d has actual length %g != edge_lengths[%d] == %g\n",
 	     i,new_edge_lengths[i],i,edge_lengths[i]);
-      return false; 
+      free(new_edge_lengths); return false; 
 
     }
 
@@ -1073,7 +1073,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
       
       printf("tsmcmc_polygon_embedding_ok: diagonal %d has actual length %g != diagonal_lengths[%d] == %g\n",
 	     i,new_diagonal_lengths[i],i,diagonal_lengths[i]);
-      return false; 
+      free(new_diagonal_lengths); return false; 
       
     }
 
@@ -1096,7 +1096,7 @@ bool tsmcmc_polygon_embedding_ok(plCurve *L,
 	
 	printf("tsmcmc_polygon_embedding_ok: dihedral %d has angle %g != dihedral_angles[%d] == %g \n",
 	       i,new_dihedral_angles[i],i,dihedral_angles[i]);
-	return false; 
+	free(new_dihedral_angles); free(dihedral_defined); return false; 
 	
       }
 
-- 
2.43.0


From f9aa8d2187860847ca4ccfef29724f0d3ba34e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 11/61] fix: KnotTheory_to_polynomial allocated a pointer's
 worth of memory for the polynomial and leaked it on malformed input

---
 src/polynomials.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 2592d96..9656a88 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -649,7 +649,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   }
 
-  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t *));
+  homfly_polynomial_t *homfly = calloc(1,sizeof(homfly_polynomial_t));
   assert(homfly != NULL);
   homfly->mono = calloc(nterms,sizeof(monomial_t));
   assert(homfly->mono != NULL);
@@ -665,6 +665,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
       pd_error( SRCLOC ,"ran out of monomials early: expected %d, got as far as %d\n",
 		NULL, nterms, i);
+      free(homfly->mono); free(homfly);
       return NULL;
 
     }
@@ -673,6 +674,7 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 	       &(homfly->mono[i].coeff),&(homfly->mono[i].l), &(homfly->mono[i].m)) != 3) {
 
       pd_error( SRCLOC ,"failed to decode monomial %s", NULL, monostring);
+      free(homfly->mono); free(homfly);
       return NULL;
 
     }
-- 
2.43.0


From 4555616fec68ea28eb5716f49c5df46af39fef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 12/61] fix: crossing moves leaked scratch arrays and the
 rejected R3 result

---
 src/pd_crossingmoves.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pd_crossingmoves.c b/src/pd_crossingmoves.c
index 6b6f72f..3e0be14 100644
--- a/src/pd_crossingmoves.c
+++ b/src/pd_crossingmoves.c
@@ -149,6 +149,7 @@ void pd_compacting_copy(void *source, size_t obj_size, size_t nobj,
     for(i=0;i<nobj;i++) {
       tidx[i] = PD_UNSET_IDX;
     }
+    free(uniquedeletions);
     return;
   }
 
@@ -1712,6 +1713,8 @@ v         |                     |         ^
         free(compstate);
         free(new_crossing_idx_A); free(new_crossing_idx_B);
         free(new_edge_idx_A); free(new_edge_idx_B);
+        free(A_crossings); free(B_crossings);
+        free(A_edges); free(B_edges);
 
         /* Finally, we return the results. */
 
@@ -1909,6 +1912,7 @@ pd_code_t *pd_R3_triangle_flip(pd_code_t *pd, pd_idx_t f)
 
     if (pd->face[f].nedges != 3) {
         // Should also check for 3 vertices... hmm
+        pd_code_free(&ret);
         return NULL;
     }
 
-- 
2.43.0


From 573b41f25c4bec6f9219d073e969076e77a275ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 13/61] fix: tangle checks and tangle slides leaked their
 working storage on error returns

---
 src/pd_tangles.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 992bceb..3093604 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -253,7 +253,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
       pd_error(SRCLOC,
 	       "edge %d occurs more than once in the edge list of %TANGLE",
 	       pd,scratch[i],t);
-      return false;
+      free(scratch); return false;
 
     }
 
@@ -286,14 +286,14 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     if (!pd_xor(pos_face[i] == t->face[i],neg_face[i] == t->face[i])) {
 
       pd_printf("edge t->edge[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],i,t->face[i]);
-      return false;
+      free(pos_face); free(neg_face); return false;
 
     }
 
     if (!pd_xor(pos_face[i] == t->face[(i+1)%t->nedges],neg_face[i] == t->face[(i+1)%t->nedges])) {
 
       pd_printf("edge t->e[%d] = %EDGE is not on face t->face[%d] %FACE exactly once: tangle test fails in %PD\n",pd,i,t->edge[i],(i+1)%(t->nedges),t->face[(i+1)%t->nedges]);
-      return false;
+      free(pos_face); free(neg_face); return false;
 
     }
 
@@ -641,6 +641,7 @@ void pd_regenerate_tangle_err(pd_code_t *pd, pd_tangle_t *t, int *err)
 	       pd,t,scratch[i]);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(scratch);
           return;
       } else {
           exit(1);
@@ -2288,6 +2289,7 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 	     pd,overstrand_edges[0],pd->edge[overstrand_edges[0]].tail,t);
     if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
           return;
       } else {
           exit(1);
@@ -2309,6 +2311,7 @@ void pd_tangle_slide_err(pd_code_t *pd,pd_tangle_t *t,
 	     pd,overstrand_edges[n-1],pd->edge[overstrand_edges[n-1]].tail,t);
     if (err) {
         pd_err_set(err, PD_TANGLE_ERROR);
+        free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
         return;
     } else {
         exit(1);
@@ -2589,6 +2592,8 @@ end_anchor   | 	    Tangle     	 |
 		 "fully deleted in %PD",pd_working,i);
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -2613,6 +2618,8 @@ end_anchor   | 	    Tangle     	 |
 	     n,n-1,UNSET_count);
     if (err) {
         pd_err_set(err, PD_TANGLE_ERROR);
+        free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+        pd_code_free(&pd_working);
         return;
     } else {
         exit(1);
@@ -2687,6 +2694,8 @@ end_anchor   | 	    Tangle     	 |
 		 i);
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -2713,6 +2722,8 @@ end_anchor   | 	    Tangle     	 |
 
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -2728,6 +2739,8 @@ end_anchor   | 	    Tangle     	 |
 		 pd_working,i);
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -2742,6 +2755,8 @@ end_anchor   | 	    Tangle     	 |
 		 "both set and both unset (?)\n",pd_working,i);
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -2763,6 +2778,8 @@ end_anchor   | 	    Tangle     	 |
 	     n,n-2,n-1,2*n-3,UNSET_count);
     if (err) {
         pd_err_set(err, PD_TANGLE_ERROR);
+        free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+        pd_code_free(&pd_working);
         return;
     } else {
         exit(1);
@@ -2827,6 +2844,8 @@ end_anchor   | 	    Tangle     	 |
 	       ncomplementary_edges,i);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+          pd_code_free(&pd_working);
           return;
       } else {
           exit(1);
@@ -2843,6 +2862,8 @@ end_anchor   | 	    Tangle     	 |
 	       ncomplementary_edges,i);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+          pd_code_free(&pd_working);
           return;
       } else {
           exit(1);
@@ -2923,6 +2944,8 @@ end_anchor   | 	    Tangle     	 |
 	       i,(int)(complementary_or[i]));
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+          pd_code_free(&pd_working);
           return;
       } else {
           exit(1);
@@ -3128,6 +3151,8 @@ end_anchor   | 	    Tangle     	 |
 		 pd_working,ncomplementary_edges-i,pd->nedges,pd->MAXEDGES);
         if (err) {
             pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
             return;
         } else {
             exit(1);
@@ -3472,6 +3497,7 @@ end_anchor   | 	    Tangle     	 |
 		   pd_working->comp[i].nedges);
           if (err) {
               pd_err_set(err, PD_TANGLE_ERROR);
+              pd_code_free(&pd_working);
               return;
           } else {
               exit(1);
@@ -3523,6 +3549,7 @@ end_anchor   | 	    Tangle     	 |
 	       pd_working,i);
       if (err) {
           pd_err_set(err, PD_TANGLE_ERROR);
+          free(edge_appears); pd_code_free(&pd_working);
           return;
       } else {
           exit(1);
-- 
2.43.0


From eee849f47a8550ef133bb7470afb771fad553dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:04 +0000
Subject: [PATCH 14/61] fix: nplCurve vertex buffers, constraint list nodes and
 temporary vectors were never released

---
 src/nplCurve.c | 14 ++++++++++++--
 src/nvector.c  |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 309087e..cff9cab 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -685,6 +685,7 @@ void nplc_unconstrain(nplCurve * const L, const int cmp,
   zero_vect = nplc_vect_buf_new(nplc_dim(L),2);
 
   nplc_set_constraint(L,cmp,vert,num_verts,nunconstrained,zero_vect);
+  nplc_vect_buf_free(2,zero_vect);
 }
 
 /*
@@ -896,6 +897,12 @@ void nplc_write(FILE *outfile, nplCurve * const L) {
   free(cst_nums);
   cst_nums = NULL;
 
+  while (cst_list != NULL) { /* The vectors still belong to L */
+    cst2 = cst_list;
+    cst_list = cst_list->next;
+    free(cst2);
+  }
+
   /* And we're done. */
   return;
 }
@@ -1722,6 +1729,7 @@ double nplc_subarc_length(const nplCurve * const L, const int cmp,
   double length1, length2;
   int v, v1, v2, start, end;
   nplc_strand *cp;
+  nplc_vector edge;
 
   assert(L != NULL);
   assert(cmp >= 0);
@@ -1751,11 +1759,13 @@ double nplc_subarc_length(const nplCurve * const L, const int cmp,
 
   length1 = length2 = 0.0;
   for (v = start; v < end; v++) {
+    edge = nplc_vect_diff(cp->vt[v+1],cp->vt[v]);
     if (v >= v1 && v < v2) {
-      length1 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length1 += nplc_norm(edge);
     } else {
-      length2 += nplc_norm(nplc_vect_diff(cp->vt[v+1],cp->vt[v]));
+      length2 += nplc_norm(edge);
     }
+    nplc_vect_free(&edge);
   }
 
   return ((cp->open) ? length1 : ((length1 <= length2) ? length1 : length2));
diff --git a/src/nvector.c b/src/nvector.c
index d41acc6..dfaa1f2 100644
--- a/src/nvector.c
+++ b/src/nvector.c
@@ -93,6 +93,8 @@ void nplc_vect_buf_free(int bufsize,nplc_vector *buf)
 
   }
 
+  free(buf);
+
 }
 
 int nplc_vect_dim(nplc_vector A,nplc_vector B) 
-- 
2.43.0


From 5e4dee4248342f791e4eedff4b4f23f5f6a73029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 15/61] fix: plc_read_knottype released an interior pointer,
 ran on after releasing its result and never set the factor count

---
 src/plcTopology.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index 7869210..c200900 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -1727,7 +1727,7 @@ void plc_write_knottype(FILE *out, plc_knottype kt)
 plc_knottype *plc_read_knottype(const char *kt)
 /* Reads the knot type as a human would write it: 3_1#5_2, for example. Returns NULL if it can't parse the knot_type. */
 {
-  char *primecomp;
+  char *primecomp, *tokstate = NULL;
   plc_knottype *working_kt;
   int pc = 0;
   char *working_copy = calloc(strlen(kt)+10,sizeof(char));
@@ -1735,7 +1735,15 @@ plc_knottype *plc_read_knottype(const char *kt)
   int maxind[19] = {0, 0, 1, 1, 2, 3, 7, 21, 49, 165, 552, 2176, 9988, 46972, 253293, 1388705, 8053393, 48266466, 294130458};
 
   working_kt = calloc(1,sizeof(plc_knottype));
-  while((primecomp = strtok_r(working_copy,"#",&working_copy)) != NULL) {
+  for(primecomp = strtok_r(working_copy,"#",&tokstate);primecomp != NULL;primecomp = strtok_r(NULL,"#",&tokstate)) {
+
+    if (pc == MAXPRIMEFACTORS) {
+      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
+	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
+      free(working_copy);
+      free(working_kt);
+      return NULL;
+    }
 
     if (sscanf(primecomp,"%d_%d",&(working_kt->cr[pc]),&(working_kt->ind[pc])) != 2) {
       fprintf(stderr,"plc_read_knottype: Could not parse prime component %s in knot type %s.\n",primecomp,kt);
@@ -1744,8 +1752,8 @@ plc_knottype *plc_read_knottype(const char *kt)
       return NULL;
     }
 
-    if (working_kt->cr[pc] < 0 || working_kt->cr[pc] > 19) {
-      fprintf(stderr,"plc_read_knottype: Prime component type %s has <0 or >19 crossings. Such knots cannot be classified.\n",primecomp);
+    if (working_kt->cr[pc] < 0 || working_kt->cr[pc] > 18) {
+      fprintf(stderr,"plc_read_knottype: Prime component type %s has <0 or >18 crossings. Such knots cannot be classified.\n",primecomp);
       free(working_copy);
       free(working_kt);
       return NULL;
@@ -1761,16 +1769,9 @@ plc_knottype *plc_read_knottype(const char *kt)
 
     pc++;
 
-    if (pc == MAXPRIMEFACTORS) {
-      fprintf(stderr,"plc_read_knottype: Knot type %s has more than maximum number (%d) of prime components for this build of plcurve.\n"
-	      "The library can be recompiled to change the upper bound on prime components by changing plcTopology.h.",kt,pc);
-      free(working_copy);
-      free(working_kt);
-
-    }
-    
   }
 
+  working_kt->nf = pc;
   free(working_copy);
   return working_kt;
 }
-- 
2.43.0


From ec9849e027f586f2a20c2cdfba5970fb02404f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:26 +0000
Subject: [PATCH 16/61] fix: pd_tangle_free left the caller's pointer dangling

---
 src/pd_tangles.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 3093604..539b935 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -181,6 +181,7 @@ void pd_tangle_free(pd_tangle_t **T)
   }
 
   free(t);
+  *T = NULL;
 
 }
 
-- 
2.43.0


From d853d9ee298407b37989552e2faa02da288e8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:02 +0000
Subject: [PATCH 17/61] fix: pd_read_KnotTheory leaked the diagram it rejects

---
 src/pdcode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index a8b188b..d1c706d 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4276,6 +4276,7 @@ ones we don't need.
   if (!pd_ok(pd)) {
 
     printf("pd_read_KnotTheory: Regenerated PD does not pass pd_ok. Suspect data is corrupt.\n");
+    pd_code_free(&pd);
     return NULL;
 
   }
-- 
2.43.0


From 6ba8382ccec7f9397c3a42be4439d4d719619f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 18/61] fix: plc_symmetrize rebuilds the wraparound vertices

---
 src/symmetries.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index ccd9d2d..216e915 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -513,6 +513,8 @@ void plc_symmetrize(plCurve *L)
 	  
   free(point_covered);
 
+  plc_fix_wrap(L);  /* We have moved vertices */
+
 }
 
 void plc_symmetrize_variation(plCurve *L,plc_vector *buffer)
-- 
2.43.0


From 5b7ff5bfa794be4dd1e50b9ded277ca352384aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:04 +0000
Subject: [PATCH 19/61] fix: nplc_component sets the wraparound vertices of the
 new curve

---
 src/nplCurve.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index cff9cab..1fa265c 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -422,6 +422,8 @@ nplCurve *nplc_component(int cp,nplCurve *L)
     Lcp->cp[0].clr[i] = L->cp[cp].clr[i];
 
   }
+
+  nplc_fix_wrap(Lcp);
   
   return Lcp;
 
-- 
2.43.0


From a93b86e02b32b5dc66e6759d681bc8cc381e0ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:10 +0000
Subject: [PATCH 20/61] fix: pd_printf advances past %CROSSPTR, accepts %ISO at
 any position, keeps the end of an unknown conversion

---
 src/pdcode.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index d1c706d..64f1960 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -4636,7 +4636,7 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
 	      cross->edge[3],
 	      pd_print_or(cross->sign));
 
-	nxtconv += 8;
+	nxtconv += 9;
 
     }  else if (!strncmp(nxtconv,"%CROSSMAP",9)) { /* Crossing map */
 
@@ -4760,7 +4760,7 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
 
       nxtconv += 7;
 
-    } else if (!strncmp(nxtconv,"%ISO ",5)) { /* pd_code -> pd_code isomorphism */
+    } else if (!strncmp(nxtconv,"%ISO",4)) { /* pd_code -> pd_code isomorphism */
 
       pd_iso_t *iso = (pd_iso_t *) va_arg(ap,void *);
       char *printed;
@@ -4831,13 +4831,13 @@ void pd_vfprintf(FILE *stream, char *infmt, pd_code_t *pd, va_list ap )
 
     } else { /* A standard or unrecognized format conversion */
 
-      char *adv;
+      char *adv, end;
       for(adv=nxtconv;!isspace(*adv) && *adv != 0;adv++);
       /* Advance the pointer to the next whitespace or end of string. */
-      *adv = 0; /* Terminate the string there */
+      end = *adv; *adv = 0; /* Terminate the string there */
 
       fprintf(stream,"%s",nxtconv); /* Copy the format conversion into stream */
-      *adv = ' ';
+      *adv = end;
       nxtconv = adv;
 
     }
-- 
2.43.0


From 244b136599f79bc1be80552ee5d0f9f8fb189444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:11 +0000
Subject: [PATCH 21/61] fix: pd_read leaves room for the terminator when it
 reads a hash

---
 src/pdcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 64f1960..b3fa720 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3161,7 +3161,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
      want the sscanf pattern to reflect PD_HASHSIZE (which might change) */
 
   char hash_template[1024];
-  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE);
+  sprintf(hash_template," pd %%%d[a-zA-Z0-9+/] %%lu ",PD_HASHSIZE-1);
 
   int sscanf_result = sscanf(pd_line,hash_template,hash,&input_temp);
 
-- 
2.43.0


From 9bb3fefdef54f381ae0769b439398f9fb9f47d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:11 +0000
Subject: [PATCH 22/61] fix: error messages give every conversion the argument
 it takes

---
 src/pd_isomorphisms.c | 21 ++++++++++-----------
 src/pd_perm.c         |  8 ++++----
 src/pd_tangles.c      | 22 +++++++++++-----------
 src/pdcode.c          | 12 ++++++------
 4 files changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index e914559..35bf14c 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -731,8 +731,8 @@ bool pd_edgemap_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_edgemap_t *edgemap)
 
   	return pd_error(SRCLOC,"%EDGEMAP takes edges in comp %d of pdA to orientations %OR, %OR in pdB",
   			pdA,edgemap,comp,
-			target_or,
-			this_or);
+			&target_or,
+			&this_or);
 
       }
 
@@ -2048,8 +2048,8 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 	pd_error(SRCLOC,
 			"edge %d (edge %d of comp %d) edgemap or %OR does \n"
 			"not match edge %d (edge 0 of comp %d) or %OR",NULL,
-			this_edge,compedge,comp,iso->edgemap->orient[this_edge],
-			start_edge,comp,comp_or[comp]);
+			this_edge,compedge,comp,&(iso->edgemap->orient[this_edge]),
+			start_edge,comp,&(comp_or[comp]));
 	free(comp_or);
 	return false;
 
@@ -2148,9 +2148,9 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 		      "%CROSSMAP takes %d -> %OR %d, but \n"
 		      "%EDGEMAP takes %CROSSPTR -> %CROSSPTR != %CROSSPTR\n"
 		      "with orientation %OR.\n",
-		      NULL,iso->crossmap,cross,iso->crossmap->orient,iso->crossmap->perm->map[cross],
+		      NULL,iso->crossmap,cross,&(iso->crossmap->orient),iso->crossmap->perm->map[cross],
 		      iso->edgemap,&(pdA->cross[cross]),&after_edgemap_cross,
-		      after_crossmap_cross);
+		      after_crossmap_cross,&(iso->crossmap->orient));
 
     }
 
@@ -2213,11 +2213,10 @@ bool pd_iso_consistent(pd_code_t *pdA,pd_code_t *pdB,pd_iso_t *iso)
 
       pd_error(SRCLOC,
 		      "%FACEMAP takes %d -> %OR %d, but \n"
-		      "%EDGEMAP takes %FACEPTR -> %FACEPTR != %FACEPTR\n"
-		      "with orientation %OR.\n",
-		      NULL,iso->facemap,face,iso->facemap->orient,iso->facemap->perm->map[face],
-		      iso->edgemap,&(pdA->face[face]),&after_edgemap_face,
-		      after_facemap_face);
+		      "%EDGEMAP does not take the edges of the first face to those\n"
+		      "of the second with orientation %OR.\n",
+		      NULL,iso->facemap,face,&(iso->facemap->orient),iso->facemap->perm->map[face],
+		      iso->edgemap,&(iso->facemap->orient));
       free(after_edgemap_face.edge); free(after_edgemap_face.orient);
       return false;
 
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 41cf09b..3266c64 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -198,7 +198,7 @@ bool pd_perm_ok(void *permP)
     if (perm->pc_idx > pd_nperms(perm)) {
 
       return pd_error(SRCLOC,"%PERM precomputed idx # %d > # %d-element precomp perms == %d",NULL,
-		      perm,perm->pc_idx,pd_nperms(perm));
+		      perm,perm->pc_idx,perm->n,pd_nperms(perm));
 
     }
 
@@ -208,8 +208,8 @@ bool pd_perm_ok(void *permP)
 
       if (perm->map[i] != pd_pc_perm[perm->n][perm->pc_idx].p[i]) {
 
-	return pd_error(SRCLOC,"%PERM != %PERM with index %d\n",NULL,
-			perm,&(pd_pc_perm[perm->n][perm->pc_idx]),perm->pc_idx);
+	return pd_error(SRCLOC,"%PERM != precomputed permutation with index %d\n",NULL,
+			perm,perm->pc_idx);
 
       }
 
@@ -224,7 +224,7 @@ bool pd_perm_ok(void *permP)
     if (perm->map[i] >= perm->n) { 
 
       return pd_error(SRCLOC,"%PERM contains illegal index %d at position %d",NULL,
-		      perm->map[i],i);
+		      perm,perm->map[i],i);
 
     }
 
diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index 539b935..f8af6c6 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -335,7 +335,7 @@ bool pd_tangle_ok(pd_code_t *pd,pd_tangle_t *t)
     } else {
 
       pd_error(SRCLOC,"edge_bdy_or[%d] is set to %d, which is not in (== %d) or out (== %d)\n",
-	       pd,i,in,out);
+	       pd,i,t->edge_bdy_or[i],in,out);
 
       return false;
 
@@ -605,7 +605,7 @@ void pd_regenerate_tangle_err(pd_code_t *pd, pd_tangle_t *t, int *err)
   if (t->nedges == 0 || t->nedges > pd->nedges) {
 
     pd_error(SRCLOC,"value for # of tangle edges (%d) doesn't "
-	     "make sense for %d edge PD code",pd,t->nedges);
+	     "make sense for %d edge PD code",pd,t->nedges,pd->nedges);
     if (err) {
         pd_err_set(err, PD_TANGLE_ERROR);
         return;
@@ -1567,7 +1567,7 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
 
       } else {
 
-	pd_error(SRCLOC,"overstrand data %BUFFER and border face data %BUFFER\n"
+	pd_error(SRCLOC,"overstrand data and border face data\n"
 		 "aren't enough to uniquely determine a collection of tangle\n"
 		 "slide edges (and complementary edges) in %TANGLE",pd,t);
 
@@ -1590,8 +1590,8 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
   if (correct_match == PD_UNSET_IDX) {
 
     pd_error(SRCLOC,
-	     "found the sequence of border faces %BUFFER on the boundary\n"
-	     "of %TANGLE, but couldn't match the overstrand data %BUFFER\n",
+	     "found the sequence of border faces on the boundary\n"
+	     "of %TANGLE, but couldn't match the overstrand data\n",
 	     pd,t);
     /* Now we've got to free the matches... */
     pd_idx_t k;
@@ -1650,7 +1650,7 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
     } else {
 
       pd_error(SRCLOC,"match[correct_match].orient = %OR, neither POS nor NEG\n",
-	       pd,match[correct_match].orient);
+	       pd,&(match[correct_match].orient));
       exit(1);
 
     }
@@ -1722,7 +1722,7 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
     } else {
 
       pd_error(SRCLOC,"match[correct_match].orient = %OR, which is not pos or neg",
-	       pd,match[correct_match].orient);
+	       pd,&(match[correct_match].orient));
 
       /* Now we've got to free the matches... */
       pd_idx_t k;
@@ -2064,9 +2064,9 @@ bool pdint_check_tslide_data_ok_and_find_te(pd_code_t *pd,pd_tangle_t *t,
 
     if (scratchA[i] != scratchB[i]) {
 
-      pd_printf("expected tangle_slide_edges %BUFFER \n"
-		"and complementary_edges %BUFFER \n"
-		"to partition t->edges %BUFFER \n"
+      pd_printf("expected tangle_slide_edges\n"
+		"and complementary_edges\n"
+		"to partition t->edges\n"
 		"at end of pdint_check_tslide_data_ok_and_find_te\n"
 		"but this didn't happen.\n",NULL);
 
@@ -3111,7 +3111,7 @@ end_anchor   | 	    Tangle     	 |
       { enter_pos = 3; exit_pos = 1; }
     else {
       pd_error(SRCLOC,"overstrand_orientation is %OR, neither POS nor NEG.\n",
-	       pd_working,overstrand_orientation); exit(1);
+	       pd_working,&overstrand_orientation); exit(1);
     }
 
     /* Change the head and headpos of e[0] to join the edge to first new crossing. */
diff --git a/src/pdcode.c b/src/pdcode.c
index b3fa720..7a729ae 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -192,7 +192,7 @@ pd_or_t pd_compose_or(pd_or_t a,pd_or_t b)
 
   }
 
-  pd_error(SRCLOC,"pd_compose_or called with orientations %c %c \n",NULL,pd_print_or(a),pd_print_or(b));
+  pd_error(SRCLOC,"pd_compose_or called with orientations %OR %OR \n",NULL,&a,&b);
   exit(1);
 }
 
@@ -218,7 +218,7 @@ int pd_or_cmp(const void *A, const void *B)
   /* We should never get here. */
 
   pd_error(SRCLOC,"pd_or_cmp passed illegal orientation pair orA == %OR, orB == %OR",NULL,
-	   orA,orB);
+	   &orA,&orB);
   exit(1);
 }
 
@@ -531,9 +531,9 @@ pd_edge_t pd_oriented_edge(pd_edge_t e,pd_or_t orient)
 
   } else {
 
-    pd_error(SRCLOC,"passed or = %c, neither PD_POS_ORIENTATION"\
+    pd_error(SRCLOC,"passed or = %OR, neither PD_POS_ORIENTATION"\
 	     "nor PD_NEG_ORIENTATION",
-	     NULL,pd_print_or(orient));
+	     NULL,&orient);
     exit(1);
 
   }
@@ -2302,14 +2302,14 @@ bool pd_edges_ok(pd_code_t *pd)
       if (pd->edge[hc->edge[nextpos]].tail != e->head ||
 	  pd->edge[hc->edge[nextpos]].tailpos != nextpos) {
 
-	return pd_error(SRCLOC,"%EDGE is supposed to be followed by %EDGE at %CROSS, but orientations disagree\n in pd %PD",pd,edge,hc->edge[nextpos]);
+	return pd_error(SRCLOC,"%EDGE is supposed to be followed by %EDGE at %CROSS, but orientations disagree\n in pd %PD",pd,edge,hc->edge[nextpos],e->head);
 
       }
 
       if (pd->edge[tc->edge[prevpos]].head != e->tail ||
 	  pd->edge[tc->edge[prevpos]].headpos != prevpos) {
 
-	return pd_error(SRCLOC,"%EDGE is supposed to be followed by %EDGE at %CROSS, but orientations disagree\n in pd %PD",pd,edge,tc->edge[prevpos]);
+	return pd_error(SRCLOC,"%EDGE is supposed to be followed by %EDGE at %CROSS, but orientations disagree\n in pd %PD",pd,edge,tc->edge[prevpos],e->tail);
 
       }
 
-- 
2.43.0


From 6db563abdf55c4deff6f785247b4dd8d707d742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 23/61] fix: plc_turning_angle sets ok at the ends of an open
 component

---
 src/plCurve.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/plCurve.c b/src/plCurve.c
index 69ff4f1..6d6b269 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1594,6 +1594,7 @@ double plc_turning_angle(plCurve * const L, const int cp, const int invt, bool *
   
   if (L->cp[cp].open && (vt <= 0 || vt >= L->cp[cp].nv-1)) { // Addressing past ends of open curve yields zero
 
+    if (ok != NULL) { *ok = true; }
     return 0;
 
   } 
-- 
2.43.0


From abdc95e3f83740f45e9f7dcf07ca2c391803f597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 24/61] fix: plc_convert_to_spline does not lose a failed
 tangent

---
 src/splines.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/splines.c b/src/splines.c
index 251f6e7..8b9bac9 100755
--- a/src/splines.c
+++ b/src/splines.c
@@ -224,6 +224,11 @@ plc_spline *plc_convert_to_spline(plCurve * const L,bool *ok)
   assert(L != NULL);
   assert(L->nc >= 1);
 
+  /* The result is ok only if every tangent below could be computed. */
+
+  bool tan_ok = true;
+  if (ok != NULL) { *ok = true; }
+
   plc_fix_wrap(L);
 
   ns = (int*)calloc((size_t)L->nc,sizeof(int));
@@ -313,11 +318,13 @@ plc_spline *plc_convert_to_spline(plCurve * const L,bool *ok)
     /* ...together with values yp1 and ypn for the first derivative at
        the first and last samples... */
 
-    yp1 = plc_mean_tangent(L,comp,0,ok);
+    yp1 = plc_mean_tangent(L,comp,0,ok != NULL ? &tan_ok : NULL);
+    if (ok != NULL && !tan_ok) { *ok = false; }
 
     if (L->cp[comp].open) {
 
-      ypn = plc_mean_tangent(L,comp,L->cp[comp].nv-1,ok);
+      ypn = plc_mean_tangent(L,comp,L->cp[comp].nv-1,ok != NULL ? &tan_ok : NULL);
+      if (ok != NULL && !tan_ok) { *ok = false; }
 
     } else {
 
-- 
2.43.0


From 62e95dc5b9e3ebb21c33d53d8179b0f842d41ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 25/61] fix: lu_decmp and geyer_ips_value set ok on success

---
 src/geyer_estimators.c | 1 +
 src/matrix.c           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/geyer_estimators.c b/src/geyer_estimators.c
index 511330e..19e38f7 100644
--- a/src/geyer_estimators.c
+++ b/src/geyer_estimators.c
@@ -680,6 +680,7 @@ double geyer_ips_value(geyer_ips_t *gips,double *error,bool *ok)
   if (gips->samples == 0) { 
 
     if (error != NULL) { *error = 0; } 
+    *ok = true;
     return 0;
 
   }
diff --git a/src/matrix.c b/src/matrix.c
index b4277a1..180c400 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -188,6 +188,7 @@ plc_matrix  *lu_decmp(plc_matrix *A,int index[3],double *d,bool *ok)
 
   /* We are now done. Our mission is to return the data. */
 
+  *ok = true;
   return cvt;
 
   }
-- 
2.43.0


From 337d2bb09a9756088626c9a71aa4811a520f4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 26/61] fix: pd_tangle_slide_err reports every failure through
 err

---
 src/pd_tangles.c | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/pd_tangles.c b/src/pd_tangles.c
index f8af6c6..ec04306 100644
--- a/src/pd_tangles.c
+++ b/src/pd_tangles.c
@@ -2654,6 +2654,14 @@ end_anchor   | 	    Tangle     	 |
 		 "from the overstrand, the first overstrand edge should have HEAD\n"
 		 "crossing (only) unset. However, it is %EDGE.\n",
 		 pd_working,i);
+        if (err) {
+            pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
+            return;
+        } else {
+            exit(1);
+        }
 
       }
 
@@ -2669,6 +2677,14 @@ end_anchor   | 	    Tangle     	 |
 		 "from the overstrand, the last overstrand edge should have TAIL\n"
 		 "crossing (only) unset. However, it is %EDGE.\n",
 		 pd_working,i);
+        if (err) {
+            pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
+            return;
+        } else {
+            exit(1);
+        }
 
       }
 
@@ -3111,7 +3127,15 @@ end_anchor   | 	    Tangle     	 |
       { enter_pos = 3; exit_pos = 1; }
     else {
       pd_error(SRCLOC,"overstrand_orientation is %OR, neither POS nor NEG.\n",
-	       pd_working,&overstrand_orientation); exit(1);
+	       pd_working,&overstrand_orientation);
+        if (err) {
+            pd_err_set(err, PD_TANGLE_ERROR);
+            free(tangle_slide_edges); free(complementary_edges); free(complementary_or);
+            pd_code_free(&pd_working);
+            return;
+        } else {
+            exit(1);
+        }
     }
 
     /* Change the head and headpos of e[0] to join the edge to first new crossing. */
-- 
2.43.0


From 3abbc5bf115f2ef3f6014a648767f58562444b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:49 +0000
Subject: [PATCH 27/61] fix: pd_read and pd_read_KnotTheory return NULL and an
 error code for every corrupt file

---
 src/pdcode.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 7a729ae..4c98549 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3295,7 +3295,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	pd_error(SRCLOC,
 		 "Reading 0 crossing pd code, we found eof before a component tag. ",NULL);
 	pd_err_set(err, PD_BAD_FORMAT);
-	exit(1);
+	return NULL;
 
       }
     }
@@ -3435,6 +3435,7 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 	     "nc <ncomps>\n"
 	     "where <ncomps> is a positive integer\n"
 	     "but this one doesn't",pd);
+    pd_err_set(err, PD_BAD_FORMAT);
     pd_code_free(&pd); return NULL;
 
   }
@@ -3639,7 +3640,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
   pd_regenerate_crossings(pd); /* If the crossings were not in canonical order, fix it. */
 
-  pd_err_check(pd_ok(pd), err, PD_NOT_OK, pd);
+  if (!pd_ok(pd)) {
+
+    pd_err_set(err, PD_NOT_OK);
+    pd_code_free(&pd);
+    return NULL;
+
+  }
+
   if (strstr(pd->hash,"unset") != NULL) { pd_regenerate_hash(pd); }
 
   return pd;
@@ -4262,7 +4270,9 @@ ones we don't need.
       pd_error(SRCLOC,
 	       "read_KnotTheory unable to maintain crossing signs across pd_regenerate call\n"
 	       "there must be a problem with edges generated by pd_read_KnotTheory.",pd);
-      exit(1);
+      free(crbuf);
+      pd_code_free(&pd);
+      return NULL;
 
     }
 
-- 
2.43.0


From 4be6f506f538de7b12b8fdeb25805f942cf492e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:14 +0000
Subject: [PATCH 28/61] fix: octrope_strutfile_read rejects negative components
 and vertices

---
 src/octrope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 2e24bd5..0cf8130 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2194,7 +2194,8 @@ void octrope_strutfile_read(plCurve *L,
 
     ts = (*strutlist)[i];
 
-    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc) {
+    if (ts.component[0] >= L->nc || ts.component[1] >= L->nc ||
+        ts.component[0] < 0 || ts.component[1] < 0) {
 
       octrope_error_num = 66;
       sprintf(octrope_error_str,
@@ -2206,7 +2207,8 @@ void octrope_strutfile_read(plCurve *L,
     }
 
     if (ts.lead_vert[0] >= L->cp[ts.component[0]].nv ||
-        ts.lead_vert[1] >= L->cp[ts.component[1]].nv) {
+        ts.lead_vert[1] >= L->cp[ts.component[1]].nv ||
+        ts.lead_vert[0] < 0 || ts.lead_vert[1] < 0) {
 
       octrope_error_num = 67;
       sprintf(octrope_error_str,
-- 
2.43.0


From 8f1f52ba426fb46821d69ba901d1175ae30f1aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:14 +0000
Subject: [PATCH 29/61] fix: plc_read rejects bad vertex, color and constraint
 numbers; room for more than nine constraints

---
 src/plCurve.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/plCurve.c b/src/plCurve.c
index 6d6b269..96dc412 100755
--- a/src/plCurve.c
+++ b/src/plCurve.c
@@ -1235,6 +1235,16 @@ void plc_fix_wrap(plCurve * const L) {
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
+    if (nvarray[i] < 1) {
+      *error_num = PLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad number of vertices %d in component %d.\n",
+          nvarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
@@ -1251,6 +1261,16 @@ void plc_fix_wrap(plCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0 || ccarray[i] > nvarray[i]) {
+      *error_num = PLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "plc_read: Bad number of colors %d for component %d.\n",
+          ccarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
@@ -1307,11 +1327,13 @@ void plc_fix_wrap(plCurve * const L) {
         "plc_read: Couldn't parse constraint number from '%s'.\n",place);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+    if ((size_t)cst_num >= cst_list_len) {
+      size_t old_len = cst_list_len;
+      cst_list_len = 10*((size_t)cst_num/10 + 1); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(plc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,(cst_list_len-old_len)*sizeof(plc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1421,7 +1443,8 @@ void plc_fix_wrap(plCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || (size_t)cst_num >= cst_list_len) {
           plc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
-- 
2.43.0


From 034c77be593dccad2c6435311d9fea325a2cef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:14 +0000
Subject: [PATCH 30/61] fix: nplc_read rejects bad dimensions, vertex, color
 and constraint numbers

---
 src/nplCurve.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/nplCurve.c b/src/nplCurve.c
index 1fa265c..464ea00 100644
--- a/src/nplCurve.c
+++ b/src/nplCurve.c
@@ -1191,6 +1191,13 @@ void nplc_fix_wrap(nplCurve * const L) {
 
   }
 
+  if (dim < 1) {
+    *error_num = NPLC_E_NO_VECT;
+    (void)snprintf(error_str,error_str_len,
+		   "nplc_read: Bad dimension %d.\n",dim);
+    return NULL;
+  }
+
   /* Now we read the three integers giving vertices, components, and colors. */
 
   if (scanints(file,3,&ncomp,&nverts,&ncolors) != 3) {
@@ -1233,6 +1240,16 @@ void nplc_fix_wrap(nplCurve * const L) {
     /* A negative number of vertices indicates a CLOSED component. */
     open[i] = (nvarray[i] >= 0);
     nvarray[i] = abs(nvarray[i]);
+    if (nvarray[i] < 1) {
+      *error_num = NPLC_E_BAD_CVRT_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Bad number of vertices %d in component %d.\n",
+          nvarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
@@ -1249,6 +1266,16 @@ void nplc_fix_wrap(nplCurve * const L) {
       free(ccarray);
       return NULL;
     }
+    if (ccarray[i] < 0) {
+      *error_num = NPLC_E_BAD_CLR_LINE;
+      (void)snprintf(error_str,error_str_len,
+          "nplc_read: Bad number of colors %d for component %d.\n",
+          ccarray[i],i);
+      free(nvarray);
+      free(open);
+      free(ccarray);
+      return NULL;
+    }
   }
   /*@=loopexec@*/
 
@@ -1305,11 +1332,13 @@ void nplc_fix_wrap(nplCurve * const L) {
         "nplc_read: Couldn't parse constraint number from '%s'.\n",place);
       return NULL;
     }
-    if (cst_num+1 > (int)cst_list_len) {
-      cst_list_len = (size_t)(10*((cst_num+11) % 10)); /* Allocate by 10s */
+    if ((size_t)cst_num >= cst_list_len) {
+      size_t old_len = cst_list_len;
+      cst_list_len = 10*((size_t)cst_num/10 + 1); /* Allocate by 10s */
       assert(cst_list->next == NULL);
       cst_list = realloc(cst_list,cst_list_len*sizeof(nplc_constraint));
       assert(cst_list != NULL);
+      memset(&cst_list[old_len],0,(cst_list_len-old_len)*sizeof(nplc_constraint));
     }
     place = strtok(NULL, space); /* The constraint type */
     place_not_null;
@@ -1421,7 +1450,8 @@ void nplc_fix_wrap(nplCurve * const L) {
         memmove(comment,place,strlen(place)+1);
         place = strtok(comment,space); /* Cst: */
         place_not_null;
-        if (sscanf(&comment[5],"%d",&cst_num) != 1) {
+        if (sscanf(&comment[5],"%d",&cst_num) != 1 ||
+            cst_num < 0 || (size_t)cst_num >= cst_list_len) {
           nplc_free(L);
           assert(cst_list->next == NULL);
           free(cst_list);
-- 
2.43.0


From 80be4df6ca85be9189d5cf162859a2a101bc67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:14 +0000
Subject: [PATCH 31/61] fix: pd_faces_ok rejects faces without edges instead of
 dividing by zero

---
 src/pdcode.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index 4c98549..e41f411 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2545,6 +2545,12 @@ bool pd_faces_ok(pd_code_t *pd)
 
     pd_face_t *f = &(pd->face[face]);
 
+    if (f->nedges == 0) {
+
+      return pd_error(SRCLOC,"face %d has no edges in pd %PD",pd,face);
+
+    }
+
     for(edge=0,nxt_edge= 1 % f->nedges;
 	edge<f->nedges;
 	edge++,nxt_edge = (edge+1) % f->nedges) {
-- 
2.43.0


From ad58e7db56ca4036ba540974b8c7da8f9cb0c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 32/61] fix: pd_read_KnotTheory rejects edge numbers out of
 range

---
 src/pdcode.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pdcode.c b/src/pdcode.c
index e41f411..341b8c6 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3736,6 +3736,28 @@ ones we don't need.
 
   }
 
+  /* Every edge number should be between 1 and the number of edges. */
+
+  int check_cr, check_pos;
+
+  for(check_cr=0;check_cr<crbuf_used;check_cr++) {
+
+    for(check_pos=0;check_pos<4;check_pos++) {
+
+      if (crbuf[check_cr].edge[check_pos] < 1 ||
+	  crbuf[check_cr].edge[check_pos] > 2*crbuf_used) {
+
+	printf("pd_read_KnotTheory: Crossing %d refers to an edge not in 1..%d\n",
+	       check_cr,2*crbuf_used);
+	free(crbuf);
+	return NULL;
+
+      }
+
+    }
+
+  }
+
   /* We have now read all the crossings and won't bother with the file anymore. Our job is
      to extract the information needed to allocate and fill a pd_code_t from this buffer,
      then free it. The first task is to allocate space for the code. */
-- 
2.43.0


From 4d2aeb12e235aad15ca6672ea1f651116b104110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 33/61] fix: pd_read rejects edges that refer to crossings out
 of range

---
 src/pdcode.c | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 341b8c6..b52d11f 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -3430,6 +3430,18 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     pd->edge[edge].head = (pd_idx_t)(input_temp3);
     pd->edge[edge].headpos = (pd_pos_t)(input_temp4);
 
+    if (pd->edge[edge].tail >= pd->ncross || pd->edge[edge].head >= pd->ncross ||
+	pd->edge[edge].tailpos >= 4 || pd->edge[edge].headpos >= 4) {
+
+      pd_error(SRCLOC,
+	       "edge %d refers to a crossing or position which doesn't exist\n"
+	       "in a pd code with %d crossings\n",pd,edge,pd->ncross);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
+
   }
 
   /* nc   <ncomps> */
@@ -3480,23 +3492,23 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
 
     pd->comp[comp].nedges = (pd_idx_t)(input_temp);
 
-    /* We haven't allocated space in the component. */
-
-    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
-    assert(pd->comp[comp].edge != NULL);
-
     if (pd->comp[comp].nedges > pd->MAXEDGES) {
 
       pd_error(SRCLOC,
                "Reading component which appears to be valid but has %d edges. "
                "We expect only a maximum of pd->MAXEDGES = %d.\n",
-               pd,pd->nedges,pd->MAXEDGES);
+               pd,pd->comp[comp].nedges,pd->MAXEDGES);
       pd_err_set(err, PD_BAD_FORMAT);
       pd_code_free(&pd);
       return NULL;
 
     }
 
+    /* We haven't allocated space in the component. */
+
+    pd->comp[comp].edge = calloc(pd->comp[comp].nedges,sizeof(pd_idx_t));
+    assert(pd->comp[comp].edge != NULL);
+
     for(edge=0;edge<pd->comp[comp].nedges;edge++) {
 
       if(fscanf(infile," %lu ",&input_temp) != 1) {
@@ -3518,7 +3530,14 @@ pd_code_t *pd_read_err(FILE *infile, int *err)
     /* Skip whitespace until we find a character... */
 
     char testchar;
-    fscanf(infile," %c",&testchar);
+    if (fscanf(infile," %c",&testchar) != 1) {
+
+      pd_error(SRCLOC,"pdcode file ends after component %d\n",pd,comp);
+      pd_err_set(err, PD_BAD_FORMAT);
+      pd_code_free(&pd);
+      return NULL;
+
+    }
 
     if (testchar == 't') { /* for tag */
 
-- 
2.43.0


From 784cb6f28089d570a034c28ddfc42afd1d0cff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 34/61] fix: perm and iperm stay inside the permutation array
 they are given

---
 src/plwhitten.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plwhitten.c b/src/plwhitten.c
index 3f9b729..b5af28e 100644
--- a/src/plwhitten.c
+++ b/src/plwhitten.c
@@ -68,7 +68,7 @@ int  perm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=0;i<permsize;i++) {
+  for(i=0;i<permsize-1;i++) {
     
     if (perm[i] == ind) { return perm[i+1]; }
 
@@ -81,7 +81,7 @@ int  iperm(int permsize,int *perm,int ind)
 {
   int i;
 
-  for(i=permsize;i>0;i--) {
+  for(i=permsize-1;i>0;i--) {
     
     if (perm[i] == ind) { return perm[i-1]; }
 
-- 
2.43.0


From 87190853542b65b3c1e750248abd72d9a135b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:51 +0000
Subject: [PATCH 35/61] fix: tsmcmc_vert_chord rejects the chord number one
 past the last

---
 src/plcToricSymplecticTriangulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index e9b4bd4..1c8b8fa 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -201,12 +201,12 @@ int tsmcmc_vert_chord(tsmcmc_triangulation_t T,int vt,int chord,chordtype_t type
 
   if (type == diagonal) {
 
-    assert(chord >= 0 && chord <= T.ndiags);
+    assert(chord >= 0 && chord < T.ndiags);
     return T.diags[chord].vt[vt];
 
   } else { 
     
-    assert(chord >= 0 && chord <= T.nedges);
+    assert(chord >= 0 && chord < T.nedges);
     return T.edges[chord].vt[vt];
 
   }
-- 
2.43.0


From 4bcc0acf4b4dca9eccf95f89799a27c42924b0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:14 +0000
Subject: [PATCH 36/61] fix: plc_dihedrals does not write past an odd number of
 angles

---
 src/plc_dihedrals.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plc_dihedrals.c b/src/plc_dihedrals.c
index bc7890c..007f12f 100644
--- a/src/plc_dihedrals.c
+++ b/src/plc_dihedrals.c
@@ -107,6 +107,8 @@ float *plc_dihedral_angles(const plCurve * const L, unsigned int *ndihedrals)
     angles[i] = plc_angle(plc_normal(a,b,d,&ok1),plc_normal(b,c,d,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
     i++;
+
+    if (i >= *ndihedrals) { break; } /* An odd limit ends in the middle of a 4-tuple */
     
     angles[i] = plc_angle(plc_normal(a,b,c,&ok1),plc_normal(c,d,a,&ok2),&ok3);
     if (!ok1 || !ok2 || !ok3) { angles[i] = -1.0; }
-- 
2.43.0


From 2feb2df1aa3a8ca53befa5e09fd91a28e695cb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:14 +0000
Subject: [PATCH 37/61] fix: plc_loop_closure reads the closing arc's only
 component

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 13ab911..cf7bc3f 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1239,7 +1239,7 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
   assert(newVerts != NULL);
 
   for(vt=0;vt<openL->cp[cp].nv;vt++) { newVerts[vt] = openL->cp[cp].vt[vt]; }
-  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[cp].vt[ca_vt]; }
+  for(ca_vt=1;ca_vt<closureArc->cp[0].nv-1 && vt < nEdges;ca_vt++,vt++) { newVerts[vt] = closureArc->cp[0].vt[ca_vt]; }
 
   assert(ca_vt == closureArc->cp[0].nv-1 && vt == nEdges); /* These should finish at the same time */
 
-- 
2.43.0


From afd66d846048e5552f6ffd6af64943792ca2b9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:14 +0000
Subject: [PATCH 38/61] fix: plc_vhda_polygon rejects 2 edges, which it has no
 room to build

---
 src/plcRandomPolygon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index cf7bc3f..21770b0 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -690,7 +690,7 @@ plCurve *plc_vhda_polygon(gsl_rng *r,int nEdges)
    Varela, Hinson, Diao, Arsuaga, J. Phys. A. 42 (2009) */
 
 {
-  if (nEdges < 2 || nEdges > 100000000) {
+  if (nEdges < 3 || nEdges > 100000000) {
 
     fprintf(stderr,
 	    "plc_random_equilateral_closed_polygon: Can't "
-- 
2.43.0


From 64a8f40253b7fe432d7282aba0093d4ec8d97318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 39/61] fix: pd_copy keeps the uid and the component tag of a
 diagram without crossings

---
 src/pdcode.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index b52d11f..7c8a08e 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2741,7 +2741,12 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 {
   if (pd->ncross == 0) {
 
-    return pd_build_unknot(0);
+    pd_code_t *pdU = pd_build_unknot(0);
+
+    pdU->uid = pd->uid;
+    if (pd->ncomps > 0) { pdU->comp[0].tag = pd->comp[0].tag; }
+
+    return pdU;
 
   }
 
-- 
2.43.0


From 48db005acb8e2a1c89fe5943788bccf2d1ab7053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 40/61] fix: pd_copy keeps the tag of a component without edges

---
 src/pdcode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdcode.c b/src/pdcode.c
index 7c8a08e..fd63a11 100644
--- a/src/pdcode.c
+++ b/src/pdcode.c
@@ -2788,10 +2788,10 @@ pd_code_t *pd_copy_newsize(pd_code_t *pd, pd_idx_t MAXVERTS)
 
       for(edge=0;edge<pdA->comp[cmp].nedges;edge++) { pdA->comp[cmp].edge[edge] = pd->comp[cmp].edge[edge]; }
 
-      pdA->comp[cmp].tag = pd->comp[cmp].tag;
-
     }
 
+    pdA->comp[cmp].tag = pd->comp[cmp].tag;
+
   }
 
   for(cr=0;cr<pdA->ncross;cr++) {
-- 
2.43.0


From bc5ef34001eced6bf03ec7223005291f5546c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:59 +0000
Subject: [PATCH 41/61] fix: pd_stareq_perm keeps the precomputed index of the
 permutation current

---
 src/pd_perm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_perm.c b/src/pd_perm.c
index 3266c64..9123ddf 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -501,6 +501,8 @@ void pd_stareq_perm(pd_perm_t *A,pd_perm_t *B)
   
   memcpy(A->map,newmap,n*sizeof(pd_idx_t));
   free(newmap);
+
+  pd_regenerate_pcidx(A); /* The map has changed, so the precomputed index has to follow. */
 }
   
 unsigned int pd_perm_period(pd_perm_t *A) 
-- 
2.43.0


From 078ca8e78dfbbbb153baba7e12e1ad11e16b341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:54 +0000
Subject: [PATCH 42/61] fix: composed edge maps carry the precomputed index of
 their permutation

---
 src/pd_isomorphisms.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 35bf14c..5b3ab96 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -773,6 +773,8 @@ pd_edgemap_t  *pd_compose_edgemaps(pd_edgemap_t *A,pd_edgemap_t *B)
 
   }
 
+  pd_regenerate_pcidx(AstarB->perm);
+
   return AstarB;
 
 }
@@ -784,6 +786,7 @@ void           pd_stareq_edgemap(pd_edgemap_t *A,pd_edgemap_t *B)
   AstarB = pd_compose_edgemaps(A,B);
   memcpy(A->perm->map,AstarB->perm->map,A->perm->n*sizeof(pd_idx_t));
   memcpy(A->orient,AstarB->orient,A->perm->n*sizeof(pd_or_t));
+  A->perm->pc_idx = AstarB->perm->pc_idx;
   pd_free_edgemap(&AstarB);
 }
 
-- 
2.43.0


From 6ada441fac6fadf33228be4d1109cc0a29570b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:57 +0000
Subject: [PATCH 43/61] fix: pd_diagram_isotopic ended the program when
 components match out of order

---
 src/pd_isomorphisms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_isomorphisms.c b/src/pd_isomorphisms.c
index 5b3ab96..0ec714a 100644
--- a/src/pd_isomorphisms.c
+++ b/src/pd_isomorphisms.c
@@ -2586,6 +2586,8 @@ pd_iso_t **pd_build_diagram_isotopies(pd_code_t *pdA,pd_code_t *pdB,unsigned int
 
   /* We SHOULD have assembled a permutation of components. */
 
+  pd_regenerate_pcidx(comp_perm);
+
   if (!pd_perm_ok(comp_perm)) {
 
     pd_error(SRCLOC,"matching tags in pd_diagram_isotopic yielded component permutation %PERM, which is not ok\n",pdA,comp_perm);
-- 
2.43.0


From 30eb053bed3ac891962f4ef772b6b8a93bdad981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 44/61] fix: octrope_struts reports a failed octree build
 instead of searching it

---
 src/octrope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/octrope.c b/src/octrope.c
index 0cf8130..c7196be 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1646,6 +1646,7 @@ int octrope_struts(plCurve *L,
   /* Build the Octree */
   plc_fix_wrap(L);
   B = build_octree(L,sl_size,mem,memsize);
+  if (B == NULL) { free_octmem(); return -1; } /* build_octree has set octrope_error_num */
   max_turn = max_turning_angle(L);
 
   /* We now set pi_count, which is a lower bound on the number of edges 
-- 
2.43.0


From 8bd7102142f13a12a6477694951b9e8d0930db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 45/61] fix: octrope_strutfile_read checks the buffers it
 allocated, not their addresses

---
 src/octrope.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octrope.c b/src/octrope.c
index c7196be..98c0496 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -2165,7 +2165,7 @@ void octrope_strutfile_read(plCurve *L,
   (*strutlist) = (octrope_strut *)calloc(*n_struts,sizeof(octrope_strut));
   (*mrlist)    = (octrope_mrloc *)calloc(*n_mrloc,sizeof(octrope_mrloc));
 
-  if (strutlist == NULL || mrlist == NULL) {
+  if ((*strutlist == NULL && *n_struts > 0) || (*mrlist == NULL && *n_mrloc > 0)) {
 
     octrope_error_num = 50;
     sprintf(octrope_error_str,
-- 
2.43.0


From 5d9ee17e3fa7e1f6c3d8af5dd803921f92ac60ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 46/61] fix: tsmcmc starting polygons check the buffers they
 allocated, not their addresses

---
 src/plcToricSymplectic.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index cc6fb0b..8acb447 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -98,9 +98,9 @@ void tsmcmc_regular_ngon(tsmcmc_triangulation_t T,
 
   /* Now we convert to edgelengths, diagonals, and dihedrals. */
 
-  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(edge_lengths != NULL);
-  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(diagonal_lengths != NULL);
-  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(dihedral_angles != NULL);
+  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(*edge_lengths != NULL);
+  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(*diagonal_lengths != NULL);
+  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(*dihedral_angles != NULL);
   bool *dihedrals_defined = calloc(T.ndiags,sizeof(bool)); assert(dihedrals_defined != NULL);
 
   tsmcmc_compute_edgelengths(L,T,*edge_lengths);
@@ -252,9 +252,9 @@ void tsmcmc_regular_failure_to_close_ngon(tsmcmc_triangulation_t T,
 
   /* Now we convert to edgelengths, diagonals, and dihedrals. */
 
-  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(edge_lengths != NULL);
-  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(diagonal_lengths != NULL);
-  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(dihedral_angles != NULL);
+  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(*edge_lengths != NULL);
+  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(*diagonal_lengths != NULL);
+  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(*dihedral_angles != NULL);
   bool *dihedrals_defined = calloc(T.ndiags,sizeof(bool)); assert(dihedrals_defined != NULL);
 
   tsmcmc_compute_edgelengths(L,T,*edge_lengths);
@@ -333,9 +333,9 @@ void tsmcmc_folded_triangle(tsmcmc_triangulation_t T,
 
   /* Now we convert to edgelengths, diagonals, and dihedrals. */
 
-  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(edge_lengths != NULL);
-  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(diagonal_lengths != NULL);
-  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(dihedral_angles != NULL);
+  *edge_lengths     = calloc(T.nedges,sizeof(double)); assert(*edge_lengths != NULL);
+  *diagonal_lengths = calloc(T.ndiags,sizeof(double)); assert(*diagonal_lengths != NULL);
+  *dihedral_angles  = calloc(T.ndiags,sizeof(double)); assert(*dihedral_angles != NULL);
   bool *dihedrals_defined = calloc(T.ndiags,sizeof(bool)); assert(dihedrals_defined != NULL);
 
   tsmcmc_compute_edgelengths(L,T,*edge_lengths);
-- 
2.43.0


From 9a67871489bb47811b0d27711c63aa4655126c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 47/61] fix: tsmcmc_edgepermute_step stops if the polygon
 cannot be embedded

---
 src/plcToricSymplectic.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/plcToricSymplectic.c b/src/plcToricSymplectic.c
index 8acb447..51b70df 100644
--- a/src/plcToricSymplectic.c
+++ b/src/plcToricSymplectic.c
@@ -863,6 +863,13 @@ void tsmcmc_edgepermute_step(gsl_rng *rng,tsmcmc_triangulation_t T,
   assert(edgeset != NULL);
   L = tsmcmc_embed_polygon(T,edge_lengths,diagonal_lengths,dihedral_angles);
 
+  if (L == NULL) {
+
+    printf("tsmcmc_edgepermute_step: Could not embed a polygon with the given coordinates.\n");
+    exit(1);
+
+  }
+
   for(i=0;i<T.nedges;i++) { edgeset[i] = plc_vect_diff(L->cp[0].vt[i+1],L->cp[0].vt[i]); }
 
   /*
-- 
2.43.0


From fff5e4ceef27d9d71f690bf6b6bfa1323c644f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 48/61] fix: pd_split_diagram checks the array it allocated,
 not its address

---
 src/pd_splitdiagram.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pd_splitdiagram.c b/src/pd_splitdiagram.c
index d1c0838..bdb240c 100644
--- a/src/pd_splitdiagram.c
+++ b/src/pd_splitdiagram.c
@@ -153,7 +153,7 @@ pd_idx_t pd_split_diagram(pd_code_t *pd,pd_code_t ***pd_children)
   */
 
   *pd_children = calloc(ncodes,sizeof(pd_code_t *));
-  assert(pd_children != NULL);
+  assert(*pd_children != NULL);
      
   for(i=0;i<ncodes;i++) { 
 
-- 
2.43.0


From f69de959a6e9935483a161a411ff07ab8e74059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 49/61] fix: plc_dihedral_angle accepts ok == NULL on every
 path

---
 src/vector.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 5b8e18f..6eea466 100755
--- a/src/vector.c
+++ b/src/vector.c
@@ -418,10 +418,9 @@ double plc_dihedral_angle(plc_vector A, plc_vector B, plc_vector C, plc_vector D
   /* With these three vectors, we should be able to compute the dihedral. */
   /* If we got this far, we'll get a result. */
 
-  *ok = true;
-
-  double theta = plc_angle(normABC,normACD,ok);
-  if (!(*ok)) { return 0; } 
+  double theta = plc_angle(normABC,normACD,&local_ok);
+  if (ok != NULL) { *ok = local_ok; }
+  if (!local_ok) { return 0; } 
 
   /* We have the angle. The question is how the angle is oriented. */
 
-- 
2.43.0


From 55f3199b10d6c4d5419775652452f1b36e624ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 50/61] fix: pd_display_pdstor handles an empty store

---
 src/pd_storage.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index c2852af..ce29f82 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -542,6 +542,7 @@ void pd_display_pdstor(FILE *stream,pd_stor_t *pdstor) /* Prints a representatio
   pd_uid_t   uid_min,uid_max;
 
   pd = pd_stor_firstelt(pdstor);
+  if (pd == NULL) { return; } /* An empty store has no hashes to list. */
   strncpy(cur_hash,pd->hash,32);
   uid_min = pd->uid;
   uid_max = pd->uid;
-- 
2.43.0


From 78e1c666e5d67c71459e886bd1df2f7940c9ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 51/61] fix: plc_loop_closure returns NULL if there is no
 closing arc

---
 src/plcRandomPolygon.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plcRandomPolygon.c b/src/plcRandomPolygon.c
index 21770b0..ed7cde7 100644
--- a/src/plcRandomPolygon.c
+++ b/src/plcRandomPolygon.c
@@ -1210,6 +1210,14 @@ plCurve *plc_loop_closure(gsl_rng *r,int cp,plCurve *openL,int nEdges)
 
   closureArc = plc_random_ftc_internal(r,nEdges - (openL->cp[cp].nv-1),closureLength,ftc,false);
 
+  if (closureArc == NULL) {
+
+    fprintf(stderr,"plc_loop_closure: Can't close gap of %g with %d edges of total length %g.\n",
+	    ftc,nEdges - (openL->cp[cp].nv-1),closureLength);
+    return NULL;
+
+  }
+
   /* There are two cases. If the original curve is already (numerically) closed, there is no operation here. */
   /* Otherwise, we'll need to rotate and translate the closureArc into place. */
 
-- 
2.43.0


From f9bc5d920da5f989a817890d8cff9d8cbf1c7712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 52/61] fix: plc_rotation_group and plc_symmetry_group_copy
 pass on a NULL group

---
 src/symmetries.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symmetries.c b/src/symmetries.c
index 216e915..a852f6b 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -314,6 +314,7 @@ plc_symmetry_group *plc_symmetry_group_copy(plc_symmetry_group *G)
 
   plc_symmetry_group *build;
   build = plc_symmetry_group_new(G->n);
+  if (build == NULL) { return NULL; }
   
   int i;
   for(i=0;i<G->n;i++) {
@@ -337,6 +338,7 @@ plc_symmetry_group *plc_rotation_group(plCurve *L,plc_vector axis, int n)
   plc_symmetry_group *build;
 
   build = plc_symmetry_group_new(n);
+  if (build == NULL) { return NULL; } /* There is no group of order n <= 0 */
 
   /* We now try to set up the group. */
 
-- 
2.43.0


From 002747638a3cfb84d7d555935f196056b364e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 53/61] fix: plc_coordplanes_reflection_group checks all four
 symmetries

---
 src/symmetries.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symmetries.c b/src/symmetries.c
index a852f6b..1db688f 100644
--- a/src/symmetries.c
+++ b/src/symmetries.c
@@ -442,7 +442,7 @@ plc_symmetry_group *plc_coordplanes_reflection_group(plCurve *L)
   /* We need to scan and make sure the builds succeeded. */
 
   int i;
-  for(i=0;i<2;i++) {
+  for(i=0;i<4;i++) {
 
     if (build->sym[i] == NULL) {
 
-- 
2.43.0


From be727b077b95a0b451bc06eca78fd8ba2196997e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 54/61] fix: the *_unique checks reordered the caller's buffer

pd_perms_unique, pd_cyclics_unique, pd_dihedrals_unique and pd_orientations_unique (and pd_compperms_ok through them)
sorted the buffer they were asked to look at; they now sort a copy, as pd_isos_unique and pd_multidxs_unique do, and
accept an empty buffer.
---
 src/pd_cyclic.c      | 20 +++++++++++++++-----
 src/pd_dihedral.c    | 20 +++++++++++++++-----
 src/pd_orientation.c | 20 +++++++++++++++-----
 src/pd_perm.c        | 20 +++++++++++++++-----
 4 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/pd_cyclic.c b/src/pd_cyclic.c
index 8825e68..b2f1d8a 100644
--- a/src/pd_cyclic.c
+++ b/src/pd_cyclic.c
@@ -260,21 +260,31 @@ bool pd_cyclics_unique(unsigned int ncyclics,pd_cyclic_t **cyclic_buf)
 
   /* Check to see if the cyclics are unique */
 
-  qsort(cyclic_buf,ncyclics,sizeof(pd_cyclic_t *),pd_cyclic_cmp);
+  /* (We sort a copy: the caller's buffer stays in the caller's order.) */
+
+  pd_cyclic_t **sorted;
+  sorted = calloc(ncyclics + 1,sizeof(pd_cyclic_t *));
+  assert(sorted != NULL);
+  memcpy(sorted,cyclic_buf,ncyclics*sizeof(pd_cyclic_t *));
+
+  qsort(sorted,ncyclics,sizeof(pd_cyclic_t *),pd_cyclic_cmp);
 
   unsigned int i;
 
-  for(i=0;i<ncyclics-1;i++) {
+  for(i=0;i+1<ncyclics;i++) {
 
-    if (pd_cyclic_cmp(&(cyclic_buf[i]),&(cyclic_buf[i+1])) == 0) {
+    if (pd_cyclic_cmp(&(sorted[i]),&(sorted[i+1])) == 0) {
 
-      return pd_error(SRCLOC,"cyclic_buf contains %CYCLIC == %CYCLIC at positions %d, %d \n",NULL,
-		      cyclic_buf[i],cyclic_buf[i+1],i,i+1);
+      pd_error(SRCLOC,"cyclic_buf contains %CYCLIC == %CYCLIC at positions %d, %d \n",NULL,
+		      sorted[i],sorted[i+1],i,i+1);
+      free(sorted);
+      return false;
 
     }
 
   }
 
+  free(sorted);
   return true;
 
 }
diff --git a/src/pd_dihedral.c b/src/pd_dihedral.c
index c57d274..b81c6d4 100644
--- a/src/pd_dihedral.c
+++ b/src/pd_dihedral.c
@@ -347,21 +347,31 @@ bool pd_dihedrals_unique(unsigned int ndihedrals,pd_dihedral_t **dihedral_buf)
 
   /* Check to see if the dihedrals are unique */
 
-  qsort(dihedral_buf,ndihedrals,sizeof(pd_dihedral_t *),pd_dihedral_cmp);
+  /* (We sort a copy: the caller's buffer stays in the caller's order.) */
+
+  pd_dihedral_t **sorted;
+  sorted = calloc(ndihedrals + 1,sizeof(pd_dihedral_t *));
+  assert(sorted != NULL);
+  memcpy(sorted,dihedral_buf,ndihedrals*sizeof(pd_dihedral_t *));
+
+  qsort(sorted,ndihedrals,sizeof(pd_dihedral_t *),pd_dihedral_cmp);
 
   unsigned int i;
 
-  for(i=0;i<ndihedrals-1;i++) {
+  for(i=0;i+1<ndihedrals;i++) {
 
-    if (pd_dihedral_cmp(&(dihedral_buf[i]),&(dihedral_buf[i+1])) == 0) {
+    if (pd_dihedral_cmp(&(sorted[i]),&(sorted[i+1])) == 0) {
 
-      return pd_error(SRCLOC,"dihedral_buf contains %DIHEDRAL == %DIHEDRAL at positions %d, %d \n",NULL,
-		      dihedral_buf[i],dihedral_buf[i+1],i,i+1);
+      pd_error(SRCLOC,"dihedral_buf contains %DIHEDRAL == %DIHEDRAL at positions %d, %d \n",NULL,
+		      sorted[i],sorted[i+1],i,i+1);
+      free(sorted);
+      return false;
 
     }
 
   }
 
+  free(sorted);
   return true;
 
 }
diff --git a/src/pd_orientation.c b/src/pd_orientation.c
index b020dbc..62e0782 100644
--- a/src/pd_orientation.c
+++ b/src/pd_orientation.c
@@ -175,21 +175,31 @@ bool pd_orientations_unique(unsigned int norientations,pd_orientation_t **orient
 
   /* Check to see if the orientations are unique */
 
-  qsort(orientation_buf,norientations,sizeof(pd_orientation_t *),pd_orientation_cmp);
+  /* (We sort a copy: the caller's buffer stays in the caller's order.) */
+
+  pd_orientation_t **sorted;
+  sorted = calloc(norientations + 1,sizeof(pd_orientation_t *));
+  assert(sorted != NULL);
+  memcpy(sorted,orientation_buf,norientations*sizeof(pd_orientation_t *));
+
+  qsort(sorted,norientations,sizeof(pd_orientation_t *),pd_orientation_cmp);
 
   unsigned int i;
 
-  for(i=0;i<norientations-1;i++) {
+  for(i=0;i+1<norientations;i++) {
 
-    if (pd_orientation_cmp(&(orientation_buf[i]),&(orientation_buf[i+1])) == 0) {
+    if (pd_orientation_cmp(&(sorted[i]),&(sorted[i+1])) == 0) {
 
-      return pd_error(SRCLOC,"orientation_buf contains %ORIENTATION == %ORIENTATION at positions %d, %d \n",NULL,
-		      orientation_buf[i],orientation_buf[i+1],i,i+1);
+      pd_error(SRCLOC,"orientation_buf contains %ORIENTATION == %ORIENTATION at positions %d, %d \n",NULL,
+		      sorted[i],sorted[i+1],i,i+1);
+      free(sorted);
+      return false;
 
     }
 
   }
 
+  free(sorted);
   return true;
 
 }
diff --git a/src/pd_perm.c b/src/pd_perm.c
index 9123ddf..72e0d56 100644
--- a/src/pd_perm.c
+++ b/src/pd_perm.c
@@ -316,21 +316,31 @@ bool pd_perms_unique(unsigned int nperms,pd_perm_t **perm_buf)
 
   /* Check to see if the permutations are unique */
 
-  qsort(perm_buf,nperms,sizeof(pd_perm_t *),pd_perm_cmp);
+  /* (We sort a copy: the caller's buffer stays in the caller's order.) */
+
+  pd_perm_t **sorted;
+  sorted = calloc(nperms + 1,sizeof(pd_perm_t *));
+  assert(sorted != NULL);
+  memcpy(sorted,perm_buf,nperms*sizeof(pd_perm_t *));
+
+  qsort(sorted,nperms,sizeof(pd_perm_t *),pd_perm_cmp);
 
   unsigned int i;
 
-  for(i=0;i<nperms-1;i++) {
+  for(i=0;i+1<nperms;i++) {
 
-    if (pd_perms_eq(perm_buf[i],perm_buf[i+1])) {
+    if (pd_perms_eq(sorted[i],sorted[i+1])) {
 
-      return pd_error(SRCLOC,"perm_buf contains %PERM == %PERM at positions %d, %d \n",NULL,
-		      perm_buf[i],perm_buf[i+1],i,i+1);
+      pd_error(SRCLOC,"perm_buf contains %PERM == %PERM at positions %d, %d \n",NULL,
+		      sorted[i],sorted[i+1],i,i+1);
+      free(sorted);
+      return false;
 
     }
 
   }
 
+  free(sorted);
   return true;
 
 }
-- 
2.43.0


From 7a1cb0eb22f06752098421d4b120fe54709b5164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:23 +0000
Subject: [PATCH 55/61] fix: polynomials_eq and KnotTheory_to_polynomial
 changed their arguments

A comparison reordered the monomials of both polynomials; the parser left the string it was given cut into pieces by
strtok. Both now work on copies.
---
 src/polynomials.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/polynomials.c b/src/polynomials.c
index 9656a88..069c66b 100644
--- a/src/polynomials.c
+++ b/src/polynomials.c
@@ -657,15 +657,20 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 
   /* Now we tokenize on the pluses */
 
+  char *scratch; /* strtok writes into the string it works on */
+  scratch = calloc(strlen(knottheoryform) + 1,sizeof(char));
+  assert(scratch != NULL);
+  strcpy(scratch,knottheoryform);
+
   char *monostring;
   int i;
-  for(monostring = strtok(knottheoryform,"+"),i=0;i<nterms;i++,monostring = strtok(NULL,"+")) {
+  for(monostring = strtok(scratch,"+"),i=0;i<nterms;i++,monostring = strtok(NULL,"+")) {
 
     if (monostring == NULL) {
 
       pd_error( SRCLOC ,"ran out of monomials early: expected %d, got as far as %d\n",
 		NULL, nterms, i);
-      free(homfly->mono); free(homfly);
+      free(homfly->mono); free(homfly); free(scratch);
       return NULL;
 
     }
@@ -674,13 +679,15 @@ homfly_polynomial_t *KnotTheory_to_polynomial(char *knottheoryform)
 	       &(homfly->mono[i].coeff),&(homfly->mono[i].l), &(homfly->mono[i].m)) != 3) {
 
       pd_error( SRCLOC ,"failed to decode monomial %s", NULL, monostring);
-      free(homfly->mono); free(homfly);
+      free(homfly->mono); free(homfly); free(scratch);
       return NULL;
 
     }
 
   }
 
+  free(scratch);
+
   /* Finally, we sort terms. */
 
   qsort(homfly->mono,homfly->nmonomials,sizeof(monomial_t),monomial_cmp);
@@ -696,21 +703,34 @@ bool  polynomials_eq(homfly_polynomial_t *a, homfly_polynomial_t *b)
 {
   if (a->nmonomials != b->nmonomials) { return false; }
 
-  qsort(a->mono,a->nmonomials,sizeof(monomial_t),monomial_cmp);
-  qsort(b->mono,b->nmonomials,sizeof(monomial_t),monomial_cmp);
+  /* We sort copies: the polynomials themselves stay as they are. */
+
+  monomial_t *amono = calloc(a->nmonomials + 1,sizeof(monomial_t));
+  monomial_t *bmono = calloc(b->nmonomials + 1,sizeof(monomial_t));
+  assert(amono != NULL && bmono != NULL);
+
+  memcpy(amono,a->mono,a->nmonomials*sizeof(monomial_t));
+  memcpy(bmono,b->mono,b->nmonomials*sizeof(monomial_t));
+
+  qsort(amono,a->nmonomials,sizeof(monomial_t),monomial_cmp);
+  qsort(bmono,b->nmonomials,sizeof(monomial_t),monomial_cmp);
 
   pd_idx_t i;
+  bool eq = true;
 
   for(i=0;i<a->nmonomials;i++) {
 
-    if (monomial_cmp(&(a->mono[i]),&(b->mono[i])) != 0) {
+    if (monomial_cmp(&(amono[i]),&(bmono[i])) != 0) {
 
-      return false;
+      eq = false;
 
     }
 
   }
 
-  return true;
+  free(amono);
+  free(bmono);
+
+  return eq;
 
 }
-- 
2.43.0


From b6395576a3c86386d584df511ed3bab7148dc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:20 +0000
Subject: [PATCH 56/61] fix: crossing comparison functions give 0 for equal
 crossings

---
 src/plcTopology.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index c200900..fafe20e 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -435,7 +435,8 @@ int crossing_compare(const void *A, const void *B) {
 
     assert(as > 0 && bs > 0);
     if (as < bs) { return -1; }
-    else { return +1; }
+    else if (as > bs) { return +1; }
+    else { return 0; }
 
   }
 
@@ -448,7 +449,8 @@ int crossing_reference_compare(const void *A,const void *B) {
   crossing_reference *b = (crossing_reference *)(B);
 
   if (a->s < b->s) { return -1; }
-  else { return 1; }
+  else if (a->s > b->s) { return 1; }
+  else { return 0; }
 
 }
 
-- 
2.43.0


From 9a8086a99e025381eed3390fd7dd678edd5bdcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:20 +0000
Subject: [PATCH 57/61] fix: crossing_strand_cmp is an exact order; strands
 closer than 1e-8 were mixed up

---
 src/plcTopology.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plcTopology.c b/src/plcTopology.c
index fafe20e..5c62209 100644
--- a/src/plcTopology.c
+++ b/src/plcTopology.c
@@ -998,7 +998,7 @@ int crossing_strand_cmp(const void *A,const void *B)
 
   }
 
-  if (fabs(a->s - b->s) < 1e-8) { return 0; } /* These are the same guy! */
+  if (a->s == b->s) { return 0; } /* These are the same guy! */
 
   return (a->s < b->s) ? -1 : 1;
 
-- 
2.43.0


From c9541950862e3de43e94e34fe02e02e6d5396843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:37 +0000
Subject: [PATCH 58/61] fix: nn_cmp gives 0 for points with the same coordinate

---
 src/nearest_neighbor.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nearest_neighbor.c b/src/nearest_neighbor.c
index f217168..75feceb 100644
--- a/src/nearest_neighbor.c
+++ b/src/nearest_neighbor.c
@@ -83,7 +83,10 @@ int  nn_cmp (const void *i1, const void *i2)
   int *I1 = (int *)i1;
   int *I2 = (int *)i2;
 
-  return (GLOB_NN_BUFFER[*I1].c[GLOB_SEARCH_DIMENSION] > GLOB_NN_BUFFER[*I2].c[GLOB_SEARCH_DIMENSION]) ? 1 : -1;
+  double c1 = GLOB_NN_BUFFER[*I1].c[GLOB_SEARCH_DIMENSION];
+  double c2 = GLOB_NN_BUFFER[*I2].c[GLOB_SEARCH_DIMENSION];
+
+  return (c1 > c2) - (c1 < c2);
 }     
 
 
-- 
2.43.0


From c65af4dba34a0e8e2c0ef05704905e23e59682ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:37 +0000
Subject: [PATCH 59/61] fix: tchord_cmp gives 0 when a chord is compared with
 itself

---
 src/plcToricSymplecticTriangulation.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plcToricSymplecticTriangulation.c b/src/plcToricSymplecticTriangulation.c
index 1c8b8fa..c9c67b2 100644
--- a/src/plcToricSymplecticTriangulation.c
+++ b/src/plcToricSymplecticTriangulation.c
@@ -1231,6 +1231,8 @@ int tchord_cmp(const void *A,const void *B) {
   struct typed_chord *tcA = (struct typed_chord *)(A);
   struct typed_chord *tcB = (struct typed_chord *)(B);
 
+  if (tcA->type == tcB->type && tcA->num == tcB->num) { return 0; } /* The same chord */
+
   /* The first thing to take care of is edges, which either come first or last 
      no matter what. */
 
-- 
2.43.0


From d27eb76777a54bf57737ce212b808180e2c50024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:55 +0000
Subject: [PATCH 60/61] fix: pd_free_pdstor accepts a handle that is already
 empty

---
 src/pd_storage.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pd_storage.c b/src/pd_storage.c
index ce29f82..bee1a63 100644
--- a/src/pd_storage.c
+++ b/src/pd_storage.c
@@ -89,6 +89,8 @@ void pd_free_pdstor(pd_stor_t **pdstor)
   uint8_t hash[32];
   Word_t  bytes_freed_all_hashes;
 
+  if (*pdstor == NULL) { return; } /* Nothing to free. */
+
   hash[0] = 0;
   JSLF(PValue_hash,(*pdstor)->PJSLArray,hash);
   /* Find the first entry in the JudySL of hashes */
-- 
2.43.0


From e2aef0b117f97d01489c8042cd04d4d401c41702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:00 +0000
Subject: [PATCH 61/61] fix: octrope_poca, octrope_thickness and octrope
 returned unset values when the computation failed

---
 src/octrope.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/octrope.c b/src/octrope.c
index 98c0496..8e7287d 100755
--- a/src/octrope.c
+++ b/src/octrope.c
@@ -1751,7 +1751,7 @@ inline double octrope_curvelength(const plCurve *L)
  */
 inline double octrope_poca(plCurve *L, void *mem, const int memsize) 
 {
-  double min_strut_length;
+  double min_strut_length = 0; /* Not set by octrope_struts when it fails. */
 
   /* Don't set octrope_error_num, trust octrope_minrad to take care of that */
   octrope_struts(L,0,0,NULL,0,&min_strut_length,mem,memsize);
@@ -1780,7 +1780,7 @@ inline double octrope_minradval(plCurve *L)
 inline double octrope_thickness(plCurve *L, void *mem, 
                                 const int memsize, const double lambda) 
 {
-  double thickness;
+  double thickness = 0; /* Not set by octrope when it fails. */
 
   /* Don't set octrope_error_num, trust octrope_minrad to take care of that */
   octrope(L,                        NULL    /* ropelength       */,
@@ -1809,7 +1809,7 @@ inline double octrope_thickness(plCurve *L, void *mem,
 inline double octrope_ropelength(plCurve *L, void *mem, 
                                  const int memsize, const double lambda) 
 {
-  double ropelength;
+  double ropelength = 0; /* Not set by octrope when it fails. */
 
   /* Don't set octrope_error_num, trust octrope_minrad to take care of that */
   octrope(L,                        &ropelength,
@@ -1850,7 +1850,7 @@ void octrope(plCurve *L,
 
              const double lambda)
 {
-  double min_strutlength;
+  double min_strutlength = 0;  /* Not set by octrope_struts when it fails. */
   double min_rad = 0.0;
   double tot_length = 0.0;
   double thickness = 0.0;
-- 
2.43.0

