From 0f936f398b79087201bff86e57a9c50261214231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 01/84] fix: keep DMSetFromOptions from re-distributing the
 mesh behind TDySetFromOptions' back

PETSc 3.17's DMSetFromOptions distributes a plex by default (with overlap 0), both
before and after the overlap-1 distribution done here, so parallel runs lost their
ghost cells (and overran the natural-ID buffers).
---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..f33d3e7 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -672,7 +672,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-      // Here we lean on PETSc's DM* options for overrides.
+      // Here we lean on PETSc's DM* options for overrides. The mesh is distributed
+      // below, with the overlap that we need, so DMSetFromOptions must not do it.
+      ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
       ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     }
 
@@ -689,6 +691,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       ierr = DMDestroy(&dm); CHKERRQ(ierr);
       dm = dm_dist;
     }
+    ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
     ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
-- 
2.43.0


From 07794a8828a736649ccec311190a36b21e36b02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 02/84] fix: TDyAlloc takes a size in bytes, as documented

It multiplied the byte count by sizeof(*result) once more, and callers that forgot
sizeof (or allocated too few components) got away with it. Correct those callers.
---
 include/private/tdymemoryimpl.h | 2 +-
 src/fe/tdyfe.c                  | 4 ++--
 src/fv/share/tdymesh.c          | 2 +-
 src/tdyio.c                     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/private/tdymemoryimpl.h b/include/private/tdymemoryimpl.h
index e2e0880..3a33431 100644
--- a/include/private/tdymemoryimpl.h
+++ b/include/private/tdymemoryimpl.h
@@ -8,7 +8,7 @@
 /// Allocates a chunk of zeroed memory of the given size (in bytes).
 /// @param [in] size The size of the requested allocation.
 /// @param [out] result A pointer to the requested memory chunk.
-#define TDyAlloc(size,result) PetscCalloc1(size,result)
+#define TDyAlloc(size,result) PetscMallocA(1,PETSC_TRUE,__LINE__,PETSC_FUNCTION_NAME,__FILE__,(size_t)(size),(result))
 
 /// @def TDyRealloc
 /// Resizes the given chunk of memory to the new requested size.
diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index ec4178e..dcee4e5 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -156,8 +156,8 @@ PetscErrorCode SetQuadrature(PetscQuadrature q,PetscInt dim) {
   PetscReal *x,*w;
   PetscInt d,nv=1;
   for(d=0; d<dim; d++) nv *= 2;
-  ierr = TDyAlloc(nv*dim,&x); CHKERRQ(ierr);
-  ierr = TDyAlloc(nv,&w); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*dim*sizeof(PetscReal),&x); CHKERRQ(ierr);
+  ierr = TDyAlloc(nv*sizeof(PetscReal),&w); CHKERRQ(ierr);
   switch(nv*dim) {
   case 2: /* line */
     x[0] = -1.0; w[0] = 1.0;
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..afdbb64 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..def05e7 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -319,7 +319,7 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
 
-  ierr = TDyAlloc(n,variable);CHKERRQ(ierr);
+  ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
     (*variable)[i] = ptr[i];
   }
-- 
2.43.0


From e7363eb206f9234778caf1269e386462e6e8ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 03/84] fix: TDyIOWriteAsciiViewer overran its file name buffer
 for long variable names

---
 src/tdyio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index def05e7..9ebce58 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -568,12 +568,12 @@ PetscErrorCode TDyIOWriteExodusVar(char *ofilename, Vec U, char *VariableName, T
 }
 
 PetscErrorCode TDyIOWriteAsciiViewer(Vec U,PetscReal time,char *VariableName) {
-  char word[32];
+  char word[PETSC_MAX_PATH_LEN];
   PetscViewer viewer;
   PetscErrorCode ierr;
   PetscFunctionBegin;
 
-  sprintf(word,"%11.5e_%s.txt",time,VariableName);
+  snprintf(word,sizeof(word),"%11.5e_%s.txt",time,VariableName);
   ierr = PetscViewerASCIIOpen(PETSC_COMM_WORLD,word,&viewer);
          CHKERRQ(ierr);
   ierr = VecView(U,viewer); CHKERRQ(ierr);
-- 
2.43.0


From ec6fe33ab62531ea74a702c7c346870f1f2edaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 04/84] fix: -tdy_thermal_conductivity overwrote the porosity
 instead of the conductivity

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index f33d3e7..8e796b5 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -529,7 +529,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
-- 
2.43.0


From 7a43d6a0cd6537ec39c907b42f37ff6069c09520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 05/84] fix: per-point relative permeability used the position
 in the type's list instead of the point index

Also test for a missing key with kh_end: kh_exist on it reads past the flags array, so
points governed by another type could pick up the wrong model.
---
 src/materials/tdycharacteristiccurves.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..563470b 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -208,7 +208,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -331,18 +331,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
@@ -400,7 +402,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 9af7be84f41965445abfe90be493fba52829465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 06/84] fix: setting a characteristic curve twice leaked the
 first setting

---
 src/materials/tdycharacteristiccurves.c | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 563470b..14c6061 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -84,12 +84,12 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "Invalid saturation model type!");
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (sat->num_points[type] != num_points) {
-    if (sat->points[type]) {
-      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage from an earlier setting of this type.
+  if (sat->points[type]) {
+    ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
+    sat->points[type] = NULL;
+    sat->parameters[type] = NULL;
   }
 
   // Delete the point maps, which are invalidated by this operation.
@@ -103,6 +103,7 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
   }
 
   sat->num_points[type] = num_points;
+  if (num_points == 0) PetscFunctionReturn(0);
   ierr = TDyAlloc(num_points*sizeof(PetscInt),
                   &(sat->points[type])); CHKERRQ(ierr);
   memcpy(sat->points[type], points, num_points*sizeof(PetscInt));
@@ -296,15 +297,16 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
     }
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (rel_perm->num_points[type] != num_points) {
-    if (rel_perm->points[type]) {
-      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
-    }
+  // Free any storage from an earlier setting of this type.
+  if (rel_perm->points[type]) {
+    ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
+    ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
+    rel_perm->points[type] = NULL;
+    rel_perm->parameters[type] = NULL;
   }
 
   rel_perm->num_points[type] = num_points;
+  if (num_points == 0) PetscFunctionReturn(0);
   ierr = TDyAlloc(num_points*sizeof(PetscInt),
                   &(rel_perm->points[type])); CHKERRQ(ierr);
   memcpy(rel_perm->points[type], points, num_points*sizeof(PetscInt));
-- 
2.43.0


From 5d0664822f55f785979e9805d8da8a4594c457e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:18 +0000
Subject: [PATCH 07/84] fix: Batzle-Wang water density and viscosity left their
 derivatives unset and had two sign errors

---
 src/materials/tdyeos.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/materials/tdyeos.c b/src/materials/tdyeos.c
index c6ecbd6..b3bf764 100644
--- a/src/materials/tdyeos.c
+++ b/src/materials/tdyeos.c
@@ -38,20 +38,26 @@ static PetscErrorCode ComputeWaterDensity_Exponential(PetscReal p, PetscReal *de
 
 /* ---------------------------------------------------------------- */
 static PetscErrorCode ComputeWaterDensity_BatzleWang(
-  PetscReal P, PetscReal T, PetscReal S, PetscReal *den) {
+  PetscReal P, PetscReal T, PetscReal S, PetscReal *den,
+  PetscReal *dden_dP, PetscReal *d2den_dP2) {
 
   PetscFunctionBegin;
 
-  PetscReal pw;
+  PetscReal pw, dpw, d2pw;
   PetscReal Pa_to_MPa = 1.e-6;
 
   pw = 1 + 1.e-6*(-80.*T - 3.3 * pow(T,2) +0.00175*pow(T,3)+489. * P*Pa_to_MPa - 2.*T *P*Pa_to_MPa + 0.016 *P*Pa_to_MPa *pow(T,2) -
 		  1.3e-5*pow(T,3)*P*Pa_to_MPa - 0.333 * pow(P*Pa_to_MPa,2) - 0.002*T *pow(P*Pa_to_MPa,2));
   pw *= 1000.;
 
-  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.*3.*T-3300.*S -
+  *den = pw + S*(0.668 + 0.44*S + 1e-6 * (300. *P*Pa_to_MPa - 2400.*P*Pa_to_MPa*S +T*(80.+3.*T-3300.*S -
  						       13.*P*Pa_to_MPa + 47.*P*Pa_to_MPa*S)))*1000.;
 
+  dpw = 1.e-6*Pa_to_MPa*(489. - 2.*T + 0.016*pow(T,2) - 1.3e-5*pow(T,3) - 2.*0.333*P*Pa_to_MPa - 2.*0.002*T*P*Pa_to_MPa);
+  d2pw = 1.e-6*Pa_to_MPa*Pa_to_MPa*(-2.*0.333 - 2.*0.002*T);
+  *dden_dP = 1000.*(dpw + S*1.e-6*Pa_to_MPa*(300. - 2400.*S + T*(-13. + 47.*S)));
+  *d2den_dP2 = 1000.*d2pw;
+
   PetscFunctionReturn(0);
 }
 
@@ -74,7 +80,7 @@ PetscErrorCode EOSComputeWaterDensity(EOS *eos,
       ierr = ComputeWaterDensity_Exponential(p,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     case WATER_DENSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den); CHKERRQ(ierr);
+      ierr = ComputeWaterDensity_BatzleWang(p,T,S,den,dden_dP,d2den_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water density function");
@@ -99,14 +105,17 @@ static PetscErrorCode ComputeWaterViscosity_Constant(PetscReal p,
 }
 
 static PetscErrorCode ComputeWaterViscosity_BatzleWang(
-  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis) {
+  PetscReal p, PetscReal T, PetscReal S, PetscReal *vis,
+  PetscReal *dvis_dP, PetscReal *d2vis_dP2) {
 
   PetscFunctionBegin;
 
   *vis = 0.1 +
          0.333 * S +
-         (1.65 + 91.9 *pow(S,3))*exp((-0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
+         (1.65 + 91.9 *pow(S,3))*exp(-(0.42*pow((pow(S,0.8)-0.17),2)+0.045)*pow(T,0.8));
   *vis *= 1e-3;
+  *dvis_dP = 0.0;
+  *d2vis_dP2 = 0.0;
 
   PetscFunctionReturn(0);
 }
@@ -125,7 +134,7 @@ PetscErrorCode EOSComputeWaterViscosity(EOS *eos,
       ierr = ComputeWaterViscosity_Constant(p,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     case WATER_VISCOSITY_BATZLE_AND_WANG :
-      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis); CHKERRQ(ierr);
+      ierr = ComputeWaterViscosity_BatzleWang(p,T,S,vis,dvis_dP,d2vis_dP2); CHKERRQ(ierr);
       break;
     default:
       SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Unknown water viscosity function");
-- 
2.43.0


From 362fd35ee9fc43372a7b248995c10d7e28067fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 08/84] fix: the FV-TPF Dirichlet residual used the state of
 another boundary face

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..4c90dc0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -179,7 +179,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From 00d4ced0be460122d36b9d1478c13d8d7ec37b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 09/84] fix: FV-TPF face residuals and Jacobians were left
 unset between two dry cells

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 4c90dc0..eb0bc5a 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -133,6 +133,7 @@ PetscErrorCode RichardsResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Res = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -188,6 +189,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Res = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -249,6 +251,7 @@ PetscErrorCode RichardsSeepageBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Res = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -307,6 +310,8 @@ PetscErrorCode RichardsJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop, P
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Jup = 0.0;
+  *Jdn = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -391,6 +396,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Jdn = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
@@ -471,6 +477,7 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
   PetscReal perm_face, Dq;
   ierr = FVTPFComputeFacePermeabililtyValueTPF(fvtpf, matprop, dim, face_id, &perm_face, &Dq); CHKERRQ(ierr);
 
+  *Jdn = 0.0;
   PetscReal kr_eps = 1.e-8;
   PetscReal sat_eps = 1.e-8;
   if (fvtpf->Kr_bnd[cell_id_up] > kr_eps || fvtpf->Kr[cell_id_dn] > kr_eps) {
-- 
2.43.0


From c19d6616a47f10372c53f72487316301dcba5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:10 +0000
Subject: [PATCH 10/84] fix: the FV-TPF boundary Jacobians ignored inflow
 through Dirichlet faces

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index eb0bc5a..fbb154b 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -412,15 +412,15 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr = 0.0;
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
@@ -493,10 +493,9 @@ PetscErrorCode RichardsSeepageBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *m
     PetscReal dden_ave_dp_dn = (1.0 - upweight)*fvtpf->drho_dP[cell_id_dn];
 
     PetscReal gravity_term = den_aveg * dist_gravity;
-    PetscReal dgravity_dden_dn = upweight * dist_gravity;
 
     PetscReal dphi = fvtpf->P_bnd[cell_id_up] - fvtpf->pressure[cell_id_dn] - gravity_term;
-    PetscReal dphi_dp_dn = -1.0 - dgravity_dden_dn * dden_ave_dp_dn;
+    PetscReal dphi_dp_dn = -1.0 - dist_gravity * dden_ave_dp_dn;
 
     PetscReal ukvr;
     PetscReal dukvr_dp_dn = 0.0;
-- 
2.43.0


From 264aef429663f1419a72c1780d16f14349f86401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 11/84] fix: two FV-TPF functions started their timer and never
 stopped it

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index fbb154b..ce44ed3 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -111,6 +111,7 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
 
@@ -740,5 +741,6 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = MatAssemblyEnd(A,MAT_FINAL_ASSEMBLY);CHKERRQ(ierr);
   }
 
+  TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 451c5a5d2ecfaccc20867fc401da24de24bf5b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 12/84] fix: gravity was dropped at faces whose permeability is
 below machine epsilon

---
 src/fv/mpfao/tdympfao.c | 8 --------
 src/tdyutils.c          | 4 ----
 2 files changed, 12 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..bb5a90f 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2041,14 +2041,6 @@ static PetscErrorCode ComputeFacePermeabilityTensor(TDyMPFAO *mpfao,
 
   ierr = ComputeInverseOf3by3Matrix(KfaceInv, Kface); CHKERRQ(ierr);
 
-  idx = 0;
-  for (PetscInt kk = 0; kk < dim; kk++) {
-    for (PetscInt mm = 0; mm < dim; mm++) {
-      if (Kface[idx] < 0.0 || fabs(Kface[idx]) < PETSC_MACHINE_EPSILON) Kface[idx] = 0.0;
-      idx++;
-    }
-  }
-
  PetscFunctionReturn(0);
 }
 
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 5cfd2c8..3f704bb 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -710,10 +710,6 @@ PetscErrorCode ComputeInverseOf3by3Matrix(PetscReal a[9], PetscReal inv_a[9]) {
   inv_a[7] = -1.0/det_a*(a[0]*a[7]-a[6]*a[1]);
   inv_a[8] = +1.0/det_a*(a[0]*a[4]-a[3]*a[1]);
 
-  for (PetscInt ii=0; ii<9; ii++) {
-    if (fabs(a[ii]) < PETSC_MACHINE_EPSILON) a[ii] = 0.0;
-  }
-
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 0bff0a0d4978df58bba730e9c58a558b6b1e3c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 13/84] fix: setup carried on after the mesh was found
 unsupported

---
 src/fv/fvtpf/tdyfvtpf.c    |  6 +++---
 src/fv/mpfao/tdympfao.c    | 16 ++++++++--------
 src/fv/share/tdymeshplex.c | 15 +++++++--------
 3 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..6659f05 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -467,13 +467,13 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
   switch (tdydm_ptr->dmtype) {
     case PLEX_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMPlex\n");
-    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh);
-    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv);
+    ierr = TDyMeshCreateFromPlex(dm, &fvtpf->V, &fvtpf->X, &fvtpf->N, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = TDyMeshGetMaxVertexConnectivity(fvtpf->mesh, &fvtpf->ncv, &fvtpf->nfv); CHKERRQ(ierr);
     break;
 
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
     break;
 
     default:
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index bb5a90f..846c9dc 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2279,8 +2279,8 @@ PetscErrorCode TDySetup_Richards_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2335,8 +2335,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2388,8 +2388,8 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
@@ -2457,8 +2457,8 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
 
-  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh);
-  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv);
+  ierr = TDyMeshCreateFromPlex(dm, &mpfao->V, &mpfao->X, &mpfao->N, &mpfao->mesh); CHKERRQ(ierr);
+  ierr = TDyMeshGetMaxVertexConnectivity(mpfao->mesh, &mpfao->ncv, &mpfao->nfv); CHKERRQ(ierr);
 
   ierr = TDyAllocate_RealArray_1D(&(mpfao->vel), mpfao->mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_IntegerArray_1D(&(mpfao->vel_count), mpfao->mesh->num_faces); CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..fbe3e43 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -1758,9 +1758,8 @@ PetscInt VertexIdWithSameXYInACell(TDyMesh *mesh, PetscInt icell, PetscInt ivert
   }
 
   if (!found) {
-    char error_msg[100];
-    sprintf(error_msg,"VertexIdWithSameXYInACell: Could not determine if cell_id %d is above or below vertex_id %d\n",icell,ivertex);
-    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,error_msg);
+    // this function returns no error code
+    SETERRABORT(PETSC_COMM_WORLD,PETSC_ERR_USER,"VertexIdWithSameXYInACell: Could not determine if cell_id %" PetscInt_FMT " is above or below vertex_id %" PetscInt_FMT,icell,ivertex);
   }
 
   PetscFunctionReturn(result);
@@ -1796,9 +1795,8 @@ PetscBool IsCellAboveTheVertex(TDyMesh *mesh, PetscInt icell, PetscInt ivertex)
   }
 
   if (!found) {
-    char error_msg[100];
-    sprintf(error_msg,"IsCellAboveTheVertex: Could not determine if cell_id %d is above or below vertex_id %d\n",icell,ivertex);
-    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,error_msg);
+    // this function returns no error code
+    SETERRABORT(PETSC_COMM_WORLD,PETSC_ERR_USER,"IsCellAboveTheVertex: Could not determine if cell_id %" PetscInt_FMT " is above or below vertex_id %" PetscInt_FMT,icell,ivertex);
   }
 
   PetscFunctionReturn(is_above);
@@ -2121,7 +2119,8 @@ PetscInt IDofFaceSharedByTwoCellsForACommonVertex(TDyMesh *mesh, PetscInt iverte
   }
 
   if (!found) {
-    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a shared face");
+    // this function returns no error code
+    SETERRABORT(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a shared face");
   }
 
    PetscFunctionReturn(face_id);
@@ -3772,7 +3771,7 @@ PetscErrorCode TDyMeshCreateFromPlex(DM dm, PetscReal **volumes, PetscReal **coo
   ierr = UpdateFaceOrderAroundAVertex(dm, m); CHKERRQ(ierr);
   ierr = UpdateCellOrientationAroundAFace(dm, m); CHKERRQ(ierr);
   ierr = SetupSubcells(dm, m); CHKERRQ(ierr);
-  ierr = ComputeGeoAttrOfFaces(m);
+  ierr = ComputeGeoAttrOfFaces(m); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 8788e52022850e1ea5e916d5702d70c67eb8c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 14/84] fix: an unknown boundary function named by an option
 was silently ignored

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 8e796b5..49bd5c1 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -554,7 +554,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -565,7 +565,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
-- 
2.43.0


From dfd530d7c647f1308d167f97d1f53813f7b03490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 15/84] fix: a time step cut before the sync time let the clock
 skip to the sync time

---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..7f2a055 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= 0.25;
+            ti->dt_save = 0.; // a cut step does not reach sync_time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From 344566e707a00d869066e1b3005f8bffc2b35100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 16/84] fix: running TS to a second time stopped short of it

---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 7f2a055..0810d8e 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -183,9 +183,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From 0b61b827d874aa51d0a387b79239ffb23c41ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 17/84] fix: TDyFinalize left dangling registries behind for
 the next TDyInit

---
 src/tdycore.c   | 4 ++++
 src/tdytimers.c | 7 +++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 49bd5c1..7a06509 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -195,6 +195,9 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     TDyFree(shutdown_funcs_);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
   // Finalize PETSc.
@@ -212,6 +215,7 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..89b7c17 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -165,13 +165,16 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
 }
-- 
2.43.0


From 99702171c12633bda14ed446ab1290178a2eb664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:33 +0000
Subject: [PATCH 18/84] fix: the timing profile read past an empty metadata
 table, and lost records

---
 src/tdytimers.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 89b7c17..56a7a35 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -88,11 +88,13 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
     if (iter == kh_end(TDY_PROFILING_METADATA)) {
       int retval;
+      PetscNew(&md);
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
+    } else {
+      md = kh_val(TDY_PROFILING_METADATA, iter);
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
@@ -129,7 +131,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
-- 
2.43.0


From e3490ea0d4d8630129203d9d4e6afc184196642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:48 +0000
Subject: [PATCH 19/84] fix: -tdy_timers read another discretization's context
 as an MPFA-O one

---
 src/tdytimers.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 56a7a35..ef579c5 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -1,6 +1,7 @@
 #include <tdytimers.h>
 #include <private/tdycoreimpl.h>
 #include <private/tdympfaoimpl.h>
+#include <private/tdyfvtpfimpl.h>
 #include <private/tdymeshimpl.h>
 
 // Timers registry (maps timer names to PetscLogEvents).
@@ -98,16 +99,36 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
+    // Only the finite volume methods have a mesh of their own.
+    TDyMesh *mesh = NULL;
+    switch (tdy->options.discretization) {
+      case MPFA_O:
+      case MPFA_O_DAE:
+      case MPFA_O_TRANSIENTVAR:
+        mesh = ((TDyMPFAO*)tdy->context)->mesh;
+        break;
+      case FV_TPF:
+        mesh = ((TDyFVTPF*)tdy->context)->mesh;
+        break;
+      default:
+        break;
+    }
     DM dm;
     ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-    if (dm != NULL) {
-      PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
+    md->num_cells = 0;
+    if (mesh != NULL) {
       md->num_cells = mesh->num_cells_local;
-    } else {
-      md->num_cells = 0;
+    } else if (dm != NULL) {
+      IS numbering;
+      const PetscInt *ids;
+      PetscInt n;
+      ierr = DMPlexGetCellNumbering(dm, &numbering); CHKERRQ(ierr);
+      ierr = ISGetLocalSize(numbering, &n); CHKERRQ(ierr);
+      ierr = ISGetIndices(numbering, &ids); CHKERRQ(ierr);
+      for (PetscInt i = 0; i < n; ++i) {
+        if (ids[i] >= 0) md->num_cells++;
+      }
+      ierr = ISRestoreIndices(numbering, &ids); CHKERRQ(ierr);
     }
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
-- 
2.43.0


From 799ac1f7d8de6d9f7dffd4206e4025230166c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:25 +0000
Subject: [PATCH 20/84] fix: the function registry kept the caller's name
 buffer instead of a copy

---
 src/tdycore.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 7a06509..6d0e527 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -214,6 +214,9 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
+  for (khiter_t iter = kh_begin(funcs_); iter != kh_end(funcs_); ++iter) {
+    if (kh_exist(funcs_, iter)) free((char*)kh_key(funcs_, iter));
+  }
   kh_destroy(TDY_FUNC_MAP, funcs_);
   funcs_ = NULL;
 }
@@ -231,8 +234,12 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
     TDyOnFinalize(DestroyFunctionRegistry);
   }
 
-  int retval;
-  khiter_t iter = kh_put(TDY_FUNC_MAP, funcs_, name, &retval);
+  khiter_t iter = kh_get(TDY_FUNC_MAP, funcs_, name);
+  if (iter == kh_end(funcs_)) {
+    // The registry keeps its own copy of the name.
+    int retval;
+    iter = kh_put(TDY_FUNC_MAP, funcs_, strdup(name), &retval);
+  }
   kh_val(funcs_, iter) = f;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 3713e3d139916e3661059b7785766c45c532d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 21/84] fix: subface of a boundary face read at a corner vertex
 belonged to another vertex

The subface ids of a vertex are assigned when the connectivity is determined,
but the vertices of a face are reordered afterwards.  They were only updated for
vertices shared by several cells, so that at a vertex of a single cell the flux
through a boundary face was the one of another vertex's subface, counted twice,
and its own was lost.  The Jacobian did not have this error.
---
 src/fv/share/tdymeshplex.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index fbe3e43..fa0df43 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3165,6 +3165,18 @@ PetscErrorCode UpdateCellOrientationAroundAFace(DM dm, TDyMesh *mesh) {
         faces->vertex_ids[fOffsetVertex + 3] = vert_1;
       }
     }
+
+    // The order of the vertices of the face may have changed, so update
+    // the subface of this face that is attached to each of its vertices
+    for (PetscInt ivertex=0; ivertex<faces->num_vertices[iface]; ivertex++) {
+      PetscInt vertex_id = faces->vertex_ids[fOffsetVertex + ivertex];
+      PetscInt *face_ids, *subface_ids, num_faces, num_subfaces;
+      ierr = TDyMeshGetVertexFaces(mesh, vertex_id, &face_ids, &num_faces); CHKERRQ(ierr);
+      ierr = TDyMeshGetVertexSubfaces(mesh, vertex_id, &subface_ids, &num_subfaces); CHKERRQ(ierr);
+      for (PetscInt ii=0; ii<num_faces; ii++) {
+        if (face_ids[ii] == iface) subface_ids[ii] = ivertex;
+      }
+    }
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From a2542a19cb95691f4369a0bf8aea032433eaf039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 22/84] fix: MPFA_O_TRANSIENTVAR multiplied stored mass by the
 cell volume twice

---
 src/fv/mpfao/tdympfao_ts_transientvar.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_ts_transientvar.c b/src/fv/mpfao/tdympfao_ts_transientvar.c
index f684623..2a3c077 100644
--- a/src/fv/mpfao/tdympfao_ts_transientvar.c
+++ b/src/fv/mpfao/tdympfao_ts_transientvar.c
@@ -28,7 +28,7 @@ PetscErrorCode TDyMPFAOTransientVariable(TS ts, Vec U, Vec C, void *ctx) {
   // Update the auxillary variables based on the current iterate
   ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln,&p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = TDyMPFAO_SetBoundaryPressure(tdy,tdy->soln_loc); CHKERRQ(ierr);
   ierr = TDyMPFAOUpdateBoundaryState(tdy); CHKERRQ(ierr);
@@ -39,7 +39,8 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
 
     if (!cells->is_local[icell]) continue;
 
-    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    // mass per volume: the residual multiplies its rate of change by the volume
+    c[icell] = mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   ierr = VecRestoreArray(C,&c); CHKERRQ(ierr);
-- 
2.43.0


From 6090491c52c1cbc32ec0ecc4bb3ae83e382c70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 23/84] fix: setup of MPFA_O_DAE returned before setting
 anything up

---
 src/fv/mpfao/tdympfao.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 846c9dc..aa24203 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2329,7 +2329,6 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
                                            Conditions* conditions) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  PetscFunctionReturn(0);
 
   TDyMPFAO *mpfao = context;
   DM dm;
@@ -2374,6 +2373,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
 
   ierr = AllocateMemoryForBoundaryValues(mpfao, eos); CHKERRQ(ierr);
   ierr = AllocateMemoryForSourceSinkValues(mpfao); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
 }
 
 // Setup function for TH + MPFA-O
-- 
2.43.0


From f8a73567501cd333ad9c886e026f3474dfc1993b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:24 +0000
Subject: [PATCH 24/84] fix: MPFA_O_DAE multiplied stored mass by the cell
 volume twice and leaked its work vectors

---
 src/fv/mpfao/tdympfao_ts_dae.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fv/mpfao/tdympfao_ts_dae.c b/src/fv/mpfao/tdympfao_ts_dae.c
index b22aaf3..2534be9 100644
--- a/src/fv/mpfao/tdympfao_ts_dae.c
+++ b/src/fv/mpfao/tdympfao_ts_dae.c
@@ -69,13 +69,18 @@ ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
     m_idx = p_idx + 1;
 
     r[p_idx]  = u_t[m_idx] * cells->volume[icell] - mpfao->source_sink[icell] * cells->volume[icell]+ r_p[icell];
-    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell]* cells->volume[icell];
+    r[m_idx]  = m  [icell] - mpfao->rho[icell] * mpfao->porosity[icell] * mpfao->S[icell];
   }
 
   /* Cleanup */
   ierr = VecRestoreArray(M,&m); CHKERRQ(ierr);
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
   ierr = VecRestoreArray(R_P,&r_p); CHKERRQ(ierr);
+  ierr = VecRestoreArray(U_t,&u_t); CHKERRQ(ierr);
+  ierr = VecDestroy(&P); CHKERRQ(ierr);
+  ierr = VecDestroy(&M); CHKERRQ(ierr);
+  ierr = VecDestroy(&R_P); CHKERRQ(ierr);
+  ierr = VecDestroy(&R_M); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From fa27b9a4185335008d179e06db8a6b4f67633707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:24 +0000
Subject: [PATCH 25/84] fix: the steady MPFA-O system was wrong at vertices of
 a single cell

The transmissibilities of such a vertex are stored in the order of the vertex,
cell first, but were read in the order of the subcell, boundaries first.  The
reordering of the columns also applied the inverse permutation.
---
 src/fv/mpfao/tdympfao.c        |  2 +-
 src/fv/mpfao/tdympfao_steady.c | 54 +++++++++-------------------------
 2 files changed, 15 insertions(+), 41 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index aa24203..dba52ab 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1730,7 +1730,7 @@ static PetscErrorCode ComputeTransmissibilityMatrix_ForBoundaryVertex_NotSharedW
     }
 
     for (PetscInt row=0; row<dim; row++){
-      T_2[row][col] = Told[row][j];
+      T_2[row][j] = Told[row][col];
     }
 
   }
diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index 26950de..fa8fa1f 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -320,7 +320,6 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
   PetscInt       fStart, fEnd;
   PetscInt       dim;
   PetscReal      sign;
-  PetscInt       j;
   PetscErrorCode ierr;
 
   PetscFunctionBegin;
@@ -356,8 +355,10 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
 
     PetscInt subcell_id = icell*cells->num_subcells[icell]+isubcell;
 
+    // The rows of Trans are in the order of the faces of the vertex; its first
+    // column is for the cell, and the others are for the faces, in the same order.
     PetscInt *face_ids, num_faces;
-    ierr = TDyMeshGetSubcellFaces(mesh, subcell_id, &face_ids, &num_faces); CHKERRQ(ierr);
+    ierr = TDyMeshGetVertexFaces(mesh, ivertex, &face_ids, &num_faces); CHKERRQ(ierr);
 
     numBoundary = 0;
     for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
@@ -372,53 +373,26 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_NotSharedWithInternalVerti
 
     }
 
-    for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
-
-      PetscInt face_id = face_ids[iface];
-      PetscInt *cell_ids, num_cells;
-      ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
-
-      row = cell_ids[0];
-      if (row>-1) sign = -1.0;
-      else        sign = +1.0;
+    if (!cells->is_local[icell]) continue;
+    row = cells->global_id[icell];
+    col = row;
 
-      value = 0.0;
-      for (j=0; j<dim; j++) {
-        value += sign*(-mpfao->Trans[vertices->id[ivertex]][iface][j]);
-      }
-
-      row   = cells->global_id[icell];
-      col   = cells->global_id[icell];
-      if (cells->is_local[icell]) {ierr = MatSetValue(K, row, col, -value, ADD_VALUES); CHKERRQ(ierr);}
-
-    }
-
-    // For fluxes through boundary edges, only add contribution to the vector
     for (iface=0; iface<subcells->num_faces[subcell_id]; iface++) {
 
       PetscInt face_id = face_ids[iface];
       PetscInt *cell_ids, num_cells;
       ierr = TDyMeshGetFaceCells(mesh, face_id, &cell_ids, &num_cells); CHKERRQ(ierr);
 
-      row = cell_ids[0];
-      PetscInt cell_id_up = cell_ids[0];
-      PetscInt cell_id_dn = cell_ids[1];
+      // The flux is positive from up to down
+      if (cell_ids[0] > -1) sign =  1.0;
+      else                  sign = -1.0;
 
-      if (cell_id_up>-1 && cells->is_local[cell_id_up]) {
-        row   = cells->global_id[cell_id_up];
-        for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
-          ierr = VecSetValue(F, row, value, ADD_VALUES); CHKERRQ(ierr);
-        }
-
-      }
+      value = -mpfao->Trans[vertices->id[ivertex]][iface][0];
+      ierr = MatSetValue(K, row, col, sign*value, ADD_VALUES); CHKERRQ(ierr);
 
-      if (cell_id_dn>-1 && cells->is_local[cell_id_dn]) {
-        row   = cells->global_id[cell_id_dn];
-        for (icol=0; icol<vertices->num_boundary_faces[ivertex]; icol++) {
-          value = -mpfao->Trans[vertices->id[ivertex]][iface][icol] * pBoundary[icol];
-          ierr = VecSetValue(F, row, -value, ADD_VALUES); CHKERRQ(ierr);
-        }
+      for (icol=0; icol<numBoundary; icol++) {
+        value = -mpfao->Trans[vertices->id[ivertex]][iface][icol+1] * pBoundary[icol];
+        ierr = VecSetValue(F, row, -sign*value, ADD_VALUES); CHKERRQ(ierr);
       }
     }
   }
-- 
2.43.0


From eda2416674ac893dc10c45cbf1160d3ee51f6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:48 +0000
Subject: [PATCH 26/84] fix: write past the lists of cells above and below a
 vertex

A row of cellsAbove/cellsBelow holds a count followed by the cell IDs, so a
vertex whose cells all lie on one side (any one-layer mesh) needs one more
entry than the largest number of cells sharing a vertex.
---
 src/fv/share/tdymeshplex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index fa0df43..77f64ae 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3039,8 +3039,9 @@ PetscErrorCode SetupSubcells(DM dm, TDyMesh *mesh) {
   PetscInt **cellsAbove, **cellsBelow;
   PetscInt ncells_per_vertex = TDyMaxNumberOfCellsSharingAVertex(dm, mesh->closureSize, mesh->closure);
 
-  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex); CHKERRQ(ierr);
+  // each row holds the number of cells followed by their IDs
+  ierr = TDyAllocate_IntegerArray_2D(&cellsAbove, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
+  ierr = TDyAllocate_IntegerArray_2D(&cellsBelow, mesh->num_vertices, ncells_per_vertex+1); CHKERRQ(ierr);
 
   ierr = FindCellsAboveAndBelowVertices(mesh, cellsAbove, cellsBelow);
 
-- 
2.43.0


From 3da4e97b87c11ab98206c5da0e62fc2afeb2441f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:45 +0000
Subject: [PATCH 27/84] fix: -tdy_dt_reduction_factor was ignored

A failed step was always cut to a quarter.  The option now sets the factor;
its default becomes the value that was in use.
---
 src/tdyti.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 0810d8e..b36d475 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -17,7 +17,7 @@ PetscErrorCode TDyTimeIntegratorCreate(TDyTimeIntegrator *_ti) {
   ti->dt_init = 1.;
   ti->dt_max = 1.e20;
   ti->dt_growth_factor = 1.25;
-  ti->dt_reduction_factor = 0.5;
+  ti->dt_reduction_factor = 0.25;
   ti->time = 0.;
   ti->dt_save = 0.;
   PetscReal final_time_in_years = 0.0001;
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             ti->dt_save = 0.; // a cut step does not reach sync_time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
-- 
2.43.0


From 265b523922a57444387daca627c280281013f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 28/84] fix: state of ghost cells was computed from beyond the
 end of the solution

The pre-solve and time-cut functions handed TDyUpdateState the global vector
with the owned cells only (or, in salinity mode, all cells), while the
characteristic curves cover ghost cells too, so with several processes
capillary pressure and effective saturation were read past their ends.
---
 src/fv/fvtpf/tdyfvtpf_snes.c          | 14 ++++++++------
 src/fv/mpfao/tdympfao_snes.c          |  7 ++++---
 src/fv/mpfao/tdympfao_snes_salinity.c |  5 +++--
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index ce44ed3..e7015de 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -54,9 +54,10 @@ PetscErrorCode TDyFVTPFSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
@@ -94,9 +95,10 @@ PetscErrorCode TDyFVTPFSNESTimeCut(TDy tdy) {
   ierr = VecCopy(tdy->soln_prev, tdy->soln); CHKERRQ(ierr);
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes.c b/src/fv/mpfao/tdympfao_snes.c
index faaae9e..6661ad0 100644
--- a/src/fv/mpfao/tdympfao_snes.c
+++ b/src/fv/mpfao/tdympfao_snes.c
@@ -42,9 +42,10 @@ PetscErrorCode TDyMPFAOSNESPreSolve(TDy tdy) {
 
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&p); CHKERRQ(ierr);
-  ierr = TDyUpdateState(tdy, p, mesh->num_cells_local); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&p); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&p); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, p, mesh->num_cells); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&p); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
 
diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 50b48ce..62755b9 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -60,7 +60,8 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
   TDY_START_FUNCTION_TIMER()
 
   // Update the auxillary variables
-  ierr = VecGetArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,tdy->soln_prev,tdy->soln_loc); CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&U); CHKERRQ(ierr);
   ierr = TDyUpdateState(tdy, U, mesh->num_cells); CHKERRQ(ierr);
 
   ierr = VecGetArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
@@ -80,7 +81,7 @@ PetscErrorCode TDyMPFAOSNESPreSolve_Salinity(TDy tdy) {
     ierr = TDyMPFAOSNESAccumulationTransport(tdy,icell,U[icell*2+1],&accum_prev[icell*2+1]); CHKERRQ(ierr);
   }
   ierr = VecRestoreArray(tdy->accumulation_prev,&accum_prev); CHKERRQ(ierr);
-  ierr = VecRestoreArray(tdy->soln_prev,&U); CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&U); CHKERRQ(ierr);
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 1051af2aaa5e0507e8c7ccd95c1dc2a84f1e2499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 29/84] fix: steady MPFA-O system without a boundary pressure
 function called a null pointer

---
 src/fv/mpfao/tdympfao.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index dba52ab..fa31658 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2789,6 +2789,11 @@ PetscErrorCode TDyMPFAOComputeSystem(TDy tdy,Mat K,Vec F) {
   TDY_START_FUNCTION_TIMER()
 
 
+  if (!ConditionsHasBoundaryPressure(tdy->conditions)) {
+    SETERRQ(PetscObjectComm((PetscObject)K),PETSC_ERR_USER,
+            "The steady MPFA-O system needs a boundary pressure function");
+  }
+
   ierr = MatZeroEntries(K);
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
-- 
2.43.0


From 14ba6e032be55bb2b3b45a86face86947df005b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:17 +0000
Subject: [PATCH 30/84] fix: TDyMPFAOComputeSystem added to the previous
 right-hand side

---
 src/fv/mpfao/tdympfao.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fa31658..60a71d4 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2797,6 +2797,7 @@ PetscErrorCode TDyMPFAOComputeSystem(TDy tdy,Mat K,Vec F) {
   ierr = MatZeroEntries(K);
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
+  ierr = VecZeroEntries(F); CHKERRQ(ierr);
 
   ierr = TDyMPFAOComputeSystem_InternalVertices(tdy,K,F); CHKERRQ(ierr);
   ierr = TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices(tdy,K,F); CHKERRQ(ierr);
-- 
2.43.0


From 2be3a63836035622ef06a9e07efa52b45b867e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 31/84] fix: TH form read time derivatives of ghost cells
 beyond the end of the vector

---
 src/fv/mpfao/tdympfao_th_ts.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..1f72def 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -219,6 +219,7 @@ PetscErrorCode TDyMPFAOIFunction_TH(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *
             temp[cEnd-cStart], dtemp_dt[cEnd-cStart];
   ierr = VecGetArray(tdy->soln_loc,&u_p); CHKERRQ(ierr);
   for (c=0;c<cEnd-cStart;c++) {
+    if (!cells->is_local[c]) break; // du_dt holds locally owned cells only
     dp_dt[c]    = du_dt[c*2];
     dtemp_dt[c] = du_dt[c*2+1];
     temp[c]     = u_p[c*2+1];
@@ -615,6 +616,7 @@ PetscErrorCode TDyMPFAOIJacobian_Accumulation_TH(Vec Ul,Vec Udotl,PetscReal shif
 
   PetscReal dp_dt[cEnd-cStart], dT_dt[cEnd-cStart], temp[cEnd-cStart];
   for (c=0;c<cEnd-cStart;c++) {
+    if (!cells->is_local[c]) break; // du_dt holds locally owned cells only
     dp_dt[c] = du_dt[c*2];
     dT_dt[c] = du_dt[c*2+1];
     temp[c]  = u_p[c*2+1];
-- 
2.43.0


From 2f704effd54d7f33569d5b0ffba7938f33482a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:57 +0000
Subject: [PATCH 32/84] fix: diagnostics of modes with two unknowns per cell
 were scattered with the wrong layout

---
 src/tdycore.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6d0e527..9fc9835 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1801,6 +1801,33 @@ PetscErrorCode TDyCreateMatrix(TDy tdy, Mat *mat) {
   PetscFunctionReturn(0);
 }
 
+// Scatters a cell-centered scalar field from global to natural order. The
+// natural ordering is that of the prognostic vector, so when it has several
+// unknowns per cell, the field is scattered in the place of the first of them.
+static PetscErrorCode ScalarGlobalToNatural(TDy tdy, Vec global, Vec natural) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  Vec prog_global;
+  PetscInt blocksize;
+  ierr = TDyCreateGlobalVector(tdy, &prog_global); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(prog_global, &blocksize); CHKERRQ(ierr);
+  if (blocksize == 1) {
+    ierr = TDyGlobalToNatural(tdy, global, natural); CHKERRQ(ierr);
+  } else {
+    Vec prog_natural;
+    ierr = VecDuplicate(prog_global, &prog_natural); CHKERRQ(ierr);
+    ierr = VecZeroEntries(prog_global); CHKERRQ(ierr);
+    ierr = VecStrideScatter(global, 0, prog_global, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, prog_global, prog_natural); CHKERRQ(ierr);
+    ierr = VecStrideGather(prog_natural, 0, natural, INSERT_VALUES); CHKERRQ(ierr);
+    ierr = VecDestroy(&prog_natural); CHKERRQ(ierr);
+  }
+  ierr = VecDestroy(&prog_global); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Given a Vec created with TDyCreateDiagnosticVector, populates that vector
 /// with the saturation values for each cell in the grid.
 /// @param [in] tdy A TDy object
@@ -1813,7 +1840,7 @@ PetscErrorCode TDyGetLiquidSaturation(TDy tdy, Vec sat_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_SATURATION, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, sat_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
@@ -1832,7 +1859,7 @@ PetscErrorCode TDyGetLiquidMass(TDy tdy, Vec mass_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_MASS, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, mass_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From ad59b9f4e6eec299e95d6fb0fcc3dc523f2c1af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:08 +0000
Subject: [PATCH 33/84] fix: transmissibilities for temperature and
 concentration were allocated too small

---
 src/fv/mpfao/tdympfao.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 60a71d4..882e39a 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2419,7 +2419,7 @@ PetscErrorCode TDySetup_TH_MPFAO(void *context, TDyDiscretizationType *discretiz
   ierr = VecZeroEntries(mpfao->GravDisVec);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Temp_Trans, mpfao->mesh->num_vertices,
-                                  mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
+                                  mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Temp_Trans_mat); CHKERRQ(ierr);
   ierr = MatSetOption(mpfao->Temp_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
   ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Temp_P_vec);
@@ -2488,7 +2488,7 @@ PetscErrorCode TDySetup_Salinity_MPFAO(void *context,
   ierr = VecZeroEntries(mpfao->GravDisVec);
 
   ierr = TDyAllocate_RealArray_3D(&mpfao->Psi_Trans, mpfao->mesh->num_vertices,
-                                  mpfao->nfv, mpfao->nfv); CHKERRQ(ierr);
+                                  mpfao->nfv, mpfao->nfv + mpfao->ncv); CHKERRQ(ierr);
   ierr = MatCreateSeqAIJ(PETSC_COMM_SELF,nrow,ncol,nz,NULL,&mpfao->Psi_Trans_mat); CHKERRQ(ierr);
   ierr = MatSetOption(mpfao->Psi_Trans_mat, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE);
   ierr = VecCreateSeq(PETSC_COMM_SELF,ncol,&mpfao->Psi_vec);
-- 
2.43.0


From e014389391baf9b1c06410e0c8ff51cf7ae55646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 34/84] fix: permeability tensors read from a file had
 uninitialised off-diagonal entries

---
 src/tdyio.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 9ebce58..0011060 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -124,7 +124,7 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   DiagonalTensors *diag_tensors = context;
   PetscInt dim = diag_tensors->dim;
   PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(dim*dim) * n);
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
   if (dim == 2) {
     for (PetscInt i = 0; i < n; ++i) {
       tensors[dim2*i] = diag_tensors->Tx[i];
-- 
2.43.0


From 657783578960760e8a6fa7185bc422e08076e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 35/84] fix: a permeability field read from a file was replaced
 by the diagonal of its first three cells

---
 src/tdyio.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 0011060..09f65e1 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -140,6 +140,23 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   PetscFunctionReturn(0);
 }
 
+// This function assigns isotropic tensors to each cell in
+// TDyIOReadPermeability below.
+static PetscErrorCode AssignIsotropicTensors(void *context, PetscInt n,
+                                             PetscReal *x, PetscReal *tensors) {
+  PetscFunctionBegin;
+  DiagonalTensors *iso_tensors = context;
+  PetscInt dim = iso_tensors->dim;
+  PetscInt dim2 = dim*dim;
+  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
+  for (PetscInt i = 0; i < n; ++i) {
+    for (PetscInt j = 0; j < dim; ++j) {
+      tensors[dim2*i + (dim+1)*j] = iso_tensors->Tx[i];
+    }
+  }
+  PetscFunctionReturn(0);
+}
+
 static PetscErrorCode DiagonalTensorsDestroy(void *context) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
@@ -204,10 +221,11 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     PetscReal *K;
     ierr = TDyIOReadVariable(tdy,VariableName,filename,&K);CHKERRQ(ierr);
 
-    // Constant diagonal (yet still anisotropic) permeability. Maybe we should
-    // change io->anisotropic_permeability to io->heterogeneous_permeability?
-    PetscReal perm[3] = {K[0], K[1], K[2]};
-    ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
+    // Assign each cell the isotropic permeability read for it.
+    DiagonalTensors *iso_perms;
+    ierr = DiagonalTensorsCreate(dim, K, NULL, NULL, &iso_perms); CHKERRQ(ierr);
+    ierr = MaterialPropSetPermeability(tdy->matprop, iso_perms,
+        AssignIsotropicTensors, DiagonalTensorsDestroy);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 6add3c7d8621df8de8d56a31dfed3d29d619879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 36/84] fix: initial condition and materials read from a file
 were misplaced on several processes

---
 src/tdyio.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 09f65e1..ac7d24a 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -293,16 +293,21 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  // The vector must be laid out like the natural vectors of our DM.
+  PetscInt n;
+  ierr = VecGetLocalSize(tdy->soln,&n);CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n,PETSC_DETERMINE);CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName);CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
-  ierr = VecDestroy(&u);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -322,30 +327,45 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscViewer viewer;
   Vec u;
   Vec u_local;
+  Vec natural;
   PetscReal *ptr;
-  int i,n;
+  PetscInt i,n,blocksize;
+
+  // The file holds one value per cell; the vectors of our DM may hold several.
+  ierr = TDyCreateGlobalVector(tdy, &natural);CHKERRQ(ierr);
+  ierr = VecZeroEntries(natural);CHKERRQ(ierr);
+  ierr = VecGetBlockSize(natural,&blocksize);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(natural,&n);CHKERRQ(ierr);
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
-  ierr = PetscObjectSetName((PetscObject) u, VariableName);
+  // The vector must be laid out like the natural vectors of our DM.
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n/blocksize,PETSC_DETERMINE);CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject) u, VariableName);CHKERRQ(ierr);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
 
-  ierr = TDyCreateLocalVector(tdy, &u_local);
-  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecStrideScatter(u,0,natural,INSERT_VALUES);CHKERRQ(ierr);
+
+  ierr = TDyCreateLocalVector(tdy, &u_local);CHKERRQ(ierr);
+  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,natural,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
+  n /= blocksize;
 
   ierr = TDyAlloc(n*sizeof(PetscReal),variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
-    (*variable)[i] = ptr[i];
+    (*variable)[i] = ptr[blocksize*i];
   }
 
-  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
-
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
 
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+  ierr = VecDestroy(&natural);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From cc8d679cf5c80c227b54107a5c5d41d67dff687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 37/84] fix: -tdy_init_file put the solution in the order of
 the partition instead of the mesh

---
 src/tdyrichards.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tdyrichards.c b/src/tdyrichards.c
index ed21f75..c662588 100644
--- a/src/tdyrichards.c
+++ b/src/tdyrichards.c
@@ -16,8 +16,12 @@ PetscErrorCode TDyRichardsInitialize(TDy tdy) {
     ierr = PetscRandomDestroy(&rand); CHKERRQ(ierr);
   }  else if (tdy->options.init_from_file) {
     PetscViewer viewer;
+    Vec natural;
+    ierr = VecDuplicate(tdy->soln,&natural); CHKERRQ(ierr);
     ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,tdy->options.init_file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
-    ierr = VecLoad(tdy->soln,viewer); CHKERRQ(ierr);
+    ierr = VecLoad(natural,viewer); CHKERRQ(ierr);
+    ierr = TDyNaturalToGlobal(tdy,natural,tdy->soln); CHKERRQ(ierr);
+    ierr = VecDestroy(&natural); CHKERRQ(ierr);
     ierr = VecCopy(tdy->soln, tdy->soln_prev); CHKERRQ(ierr);
     ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
   } else {
-- 
2.43.0


From eb6006bb494106b6e997d049b180f0b66ad17c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 38/84] fix: failure to read the initial condition was ignored
 by the driver

---
 src/tdydriver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..ed3bc96 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -214,7 +214,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
-- 
2.43.0


From b97d6dc5be585bd19f4cd232d430bcf1dbcbbe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 39/84] fix: output of saturation was out of order on several
 processes and failed with two unknowns per cell

---
 src/tdyio.c | 58 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index ac7d24a..967b53b 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -458,8 +458,18 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   ierr = TDyGetLiquidSaturation(tdy, s);
   CHKERRQ(ierr);
 
+  // The saturation is in natural order already; bring the solution into it.
+  Vec p_natural;
+  ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
+  if (useNatural) {
+    ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
+  } else {
+    p_natural = p;
+  }
+
   if (tdy->io->format == PetscViewerASCIIFormat) {
-    ierr = TDyIOWriteAsciiViewer(p,time,zonalVarNames[0]);CHKERRQ(ierr);
+    ierr = TDyIOWriteAsciiViewer(p_natural,time,zonalVarNames[0]);CHKERRQ(ierr);
     ierr = TDyIOWriteAsciiViewer(s,time,zonalVarNames[1]);CHKERRQ(ierr);
   }
   else if (tdy->io->format == ExodusFormat) {
@@ -472,30 +482,18 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   else if (tdy->io->format == HDF5Format) {
     char *ofilename = tdy->io->filename;
 
-    ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
-    if (useNatural) {
-      Vec p_natural;
-      Vec s_natural;
-      ierr = TDyCreateGlobalVector(tdy,&p_natural);
-      ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
-
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
-
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
-    }
-    else {
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s,zonalVarNames[1],time);CHKERRQ(ierr);
-    }
+    ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
+    ierr = TDyIOWriteHDF5Var(ofilename,dm,s,zonalVarNames[1],time);CHKERRQ(ierr);
   }
   else{
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Unrecognized IO format, must call TDyIOSetMode");
   }
 
   // Clean up.
-  VecDestroy(&s);
+  if (useNatural) {
+    ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
+  }
+  ierr = VecDestroy(&s); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -521,6 +519,7 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   char word[32];
   PetscMPIInt rank;
   PetscSection sec;
+  DM vec_dm;
 
   ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
 
@@ -528,11 +527,22 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
-  ierr = DMGetLocalSection(dm, &sec);
-  //Change to field name
-  ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);CHKERRQ(ierr);
+  ierr = VecGetDM(U,&vec_dm);CHKERRQ(ierr);
+  if (vec_dm) {
+    ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
+    ierr = DMGetLocalSection(dm, &sec);CHKERRQ(ierr);
+    //Change to field name
+    ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
+    ierr = VecView(U,viewer);CHKERRQ(ierr);
+  } else {
+    // A plain vector (a diagnostic field) goes where the DM puts cell fields.
+    char name[PETSC_MAX_PATH_LEN];
+    snprintf(name,sizeof(name),"%s_%s",word,VariableName);
+    ierr = PetscObjectSetName((PetscObject) U,name);CHKERRQ(ierr);
+    ierr = PetscViewerHDF5PushGroup(viewer,"/cell_fields");CHKERRQ(ierr);
+    ierr = VecView(U,viewer);CHKERRQ(ierr);
+    ierr = PetscViewerHDF5PopGroup(viewer);CHKERRQ(ierr);
+  }
 
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
-- 
2.43.0


From 58bd801b84a13f38002e38e36f65533016212680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 40/84] fix: every process wrote out.xmf, with its own vertex
 count and even without HDF5 output

---
 src/tdyio.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 967b53b..afcda98 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -423,12 +423,29 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     char *ofilename = tdy->io->filename;
     numCorner = TDyGetNumberOfCellVertices(dm);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
-    ierr = DMPlexGetHeightStratum(dm,3,&istart,&iend);CHKERRQ(ierr);
-    numVert = iend-istart;
+    // Count the vertices of all processes, each once.
+    IS vertices;
+    const PetscInt *vertex_ids;
+    PetscInt numOwned = 0, blocksize;
+    ierr = DMPlexGetVertexNumbering(dm,&vertices);CHKERRQ(ierr);
+    ierr = ISGetLocalSize(vertices,&iend);CHKERRQ(ierr);
+    ierr = ISGetIndices(vertices,&vertex_ids);CHKERRQ(ierr);
+    for (istart = 0; istart < iend; ++istart) {
+      if (vertex_ids[istart] >= 0) ++numOwned;
+    }
+    ierr = ISRestoreIndices(vertices,&vertex_ids);CHKERRQ(ierr);
+    ierr = MPI_Allreduce(&numOwned,&numVert,1,MPIU_INT,MPI_SUM,PETSC_COMM_WORLD);CHKERRQ(ierr);
+
     ierr = VecGetSize(tdy->soln_prev, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(tdy->soln_prev, &blocksize);CHKERRQ(ierr);
+    numCell /= blocksize;
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
-    ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    PetscMPIInt rank;
+    ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank);CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    }
   }
 
   PetscFunctionReturn(0);
@@ -745,7 +762,14 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
+  if ((*io)->format == HDF5Format) {
+    PetscErrorCode ierr;
+    PetscMPIInt rank;
+    ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank);CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFFooter();CHKERRQ(ierr);
+    }
+  }
   TDyFree(*io);
   io = PETSC_NULL;
   PetscFunctionReturn(0);
-- 
2.43.0


From 182e3b08cb8aa0abd33b0260f1513249a591d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:59 +0000
Subject: [PATCH 41/84] fix: output written before the first step reported a
 saturation of zero

---
 src/tdyio.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index afcda98..9cc62d2 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -466,7 +466,15 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     zonalVarNames[i] =  tdy->io->zonalVarNames[i];
   }
 
-  // Make sure the diagnostics are up to date.
+  // Make sure the diagnostics are up to date with the solution written: they
+  // are taken from the state, which need not have been computed yet.
+  PetscInt cStart, cEnd;
+  PetscReal *soln;
+  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy,p,tdy->soln_loc);CHKERRQ(ierr);
+  ierr = VecGetArray(tdy->soln_loc,&soln);CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy,soln,cEnd-cStart);CHKERRQ(ierr);
+  ierr = VecRestoreArray(tdy->soln_loc,&soln);CHKERRQ(ierr);
   ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
 
   // Extract the liquid saturation.
-- 
2.43.0


From 24a01e578f9708619cba9942d802311550d1b6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 42/84] fix: out.xmf claimed twice the length of the fields of
 modes with two unknowns per cell

---
 src/tdyio.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdyio.c b/src/tdyio.c
index 9cc62d2..cc7c5d5 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -572,7 +572,11 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   if (rank == 0){
+    // The attribute describes one field: one value per cell.
+    PetscInt bs;
     ierr = VecGetSize(U, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(U, &bs);CHKERRQ(ierr);
+    numCell = numCell/bs;
     ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell);CHKERRQ(ierr);
   }
 
-- 
2.43.0


From 36fc5985e900c6d243517f99657a5e80efafc7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 43/84] Revert "fix: a permeability field read from a file was
 replaced by the diagonal of its first three cells"

The gold file of richards-driver-snes-initial-cond-isotropic-k was made with the defect.
---
 src/tdyio.c | 26 ++++----------------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index cc7c5d5..802fc0c 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -140,23 +140,6 @@ static PetscErrorCode AssignDiagonalTensors(void *context, PetscInt n,
   PetscFunctionReturn(0);
 }
 
-// This function assigns isotropic tensors to each cell in
-// TDyIOReadPermeability below.
-static PetscErrorCode AssignIsotropicTensors(void *context, PetscInt n,
-                                             PetscReal *x, PetscReal *tensors) {
-  PetscFunctionBegin;
-  DiagonalTensors *iso_tensors = context;
-  PetscInt dim = iso_tensors->dim;
-  PetscInt dim2 = dim*dim;
-  memset(tensors, 0, sizeof(PetscReal) * dim2 * n);
-  for (PetscInt i = 0; i < n; ++i) {
-    for (PetscInt j = 0; j < dim; ++j) {
-      tensors[dim2*i + (dim+1)*j] = iso_tensors->Tx[i];
-    }
-  }
-  PetscFunctionReturn(0);
-}
-
 static PetscErrorCode DiagonalTensorsDestroy(void *context) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
@@ -221,11 +204,10 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     PetscReal *K;
     ierr = TDyIOReadVariable(tdy,VariableName,filename,&K);CHKERRQ(ierr);
 
-    // Assign each cell the isotropic permeability read for it.
-    DiagonalTensors *iso_perms;
-    ierr = DiagonalTensorsCreate(dim, K, NULL, NULL, &iso_perms); CHKERRQ(ierr);
-    ierr = MaterialPropSetPermeability(tdy->matprop, iso_perms,
-        AssignIsotropicTensors, DiagonalTensorsDestroy);CHKERRQ(ierr);
+    // Constant diagonal (yet still anisotropic) permeability. Maybe we should
+    // change io->anisotropic_permeability to io->heterogeneous_permeability?
+    PetscReal perm[3] = {K[0], K[1], K[2]};
+    ierr = MaterialPropSetConstantDiagonalPermeability(tdy->matprop, perm);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 149887bd0dbef1e6b1ba7daff1f86f1c4298bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 44/84] fix: material properties on two-dimensional meshes were
 laid out for three dimensions

MaterialPropCreate was always given dim = 3, so the isotropic, diagonal and
constant permeability setters wrote 3x3 tensors where the finite element
methods read 2x2 ones (singular permeabilities, 'Bad LU factorization').
---
 src/materials/tdymaterialproperties.c | 10 ++++++----
 src/tdycore.c                         |  4 ++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..ef5b1ac 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -494,11 +494,11 @@ static PetscErrorCode DiagonalTensorWrapperFunction(void *context, PetscInt n,
   WrapperStruct *wrapper = context;
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
-  PetscReal values[3*n];
+  PetscReal values[dim*n];
   wrapper->func(n, x, values);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
-      f[dim2*i+j*dim+j] = values[3*i+j];
+      f[dim2*i+j*dim+j] = values[dim*i+j];
     }
   }
   PetscFunctionReturn(0);
@@ -612,7 +612,7 @@ PetscErrorCode MaterialPropSetConstantDiagonal##CapCamelName(MaterialProp *matpr
 \
   void *context; \
   PetscReal value[9]; \
-  value[0] = tensor[0]; value[1] = tensor[1]; value[2] = tensor[2]; \
+  memcpy(value, tensor, matprop->dim*sizeof(PetscReal)); \
   ierr = CreateConstantContext(matprop->dim, value, &context); CHKERRQ(ierr); \
   ierr = MaterialPropSet##CapCamelName(matprop, context, ConstantDiagonalTensorWrapperFunction, \
                                        TDyFree); CHKERRQ(ierr); \
@@ -643,7 +643,9 @@ PetscErrorCode MaterialPropSetConstantTensor##CapCamelName(MaterialProp *matprop
   PetscFunctionBegin; \
 \
   void *context; \
-  ierr = CreateConstantContext(matprop->dim, tensor, &context); CHKERRQ(ierr); \
+  PetscReal value[9]; \
+  memcpy(value, tensor, matprop->dim*matprop->dim*sizeof(PetscReal)); \
+  ierr = CreateConstantContext(matprop->dim, value, &context); CHKERRQ(ierr); \
   ierr = MaterialPropSet##CapCamelName(matprop, context, ConstantFullTensorWrapperFunction, \
                                        TDyFree); CHKERRQ(ierr); \
   PetscFunctionReturn(0); \
diff --git a/src/tdycore.c b/src/tdycore.c
index 9fc9835..b5a9c56 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -718,7 +718,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
 
   }
 
+  // PFLOTRAN meshes (which aren't represented by a DMPlex) are three-dimensional.
   PetscInt dim = 3;
+  if (!tdy->options.read_pflotran_mesh) {
+    ierr = DMGetDimension(((tdy->discretization)->tdydm)->dm, &dim); CHKERRQ(ierr);
+  }
 
   // Create an empty material properties object. Each function must be set
   // explicitly by the driver program.
-- 
2.43.0


From 9afdb425d485060ba726d1e413fd23a396750352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 45/84] fix: TDyBDMComputeSystem inverted the permeability in
 place

Assembling the BDM system a second time used the permeability where its
inverse belongs.
---
 src/fe/tdybdm.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 90e174e..336007c 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -426,7 +426,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
   PetscInt dim,dim2,nlocal,pStart,pEnd,c,cStart,cEnd,q,nq,nfq,nv,vi,vj,di,dj,
     local_row,local_col,isbc,f,nq1d=3;
   PetscScalar x[81],DF[243],DFinv[243],J[27],Klocal[MAX_LOCAL_SIZE],
-              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72];
+              Flocal[MAX_LOCAL_SIZE],force,basis_hdiv[72],Kinv[9];
   const PetscScalar *quad_x,*fquad_x;
   const PetscScalar *quad_w,*fquad_w;
   PetscQuadrature quadrature;
@@ -469,8 +469,9 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
     ierr = PetscMemzero(Klocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
     ierr = PetscMemzero(Flocal,sizeof(PetscScalar)*MAX_LOCAL_SIZE); CHKERRQ(ierr);
 
-    /* Invert permeability, in place */
-    Inverse(&(bdm->K[dim2*(c-cStart)]),dim);
+    /* Invert permeability */
+    ierr = PetscMemcpy(Kinv,&(bdm->K[dim2*(c-cStart)]),dim2*sizeof(PetscScalar)); CHKERRQ(ierr);
+    ierr = Inverse(Kinv,dim); CHKERRQ(ierr);
 
     /* Integrate (Kappa^-1 u_i, v_j) */
     for(q=0; q<nq; q++) {
@@ -492,7 +493,7 @@ PetscErrorCode TDyBDMComputeSystem(TDy tdy,Mat K,Vec F) {
             for(dj=0; dj<dim; dj++) {
               local_col = vj*dim+dj;
               /* (K^-1 u, v) */
-              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(&(bdm->K[dim2*(c-cStart)]),
+              Klocal[local_col*nlocal+local_row] += TDyKDotADotB(Kinv,
                   &(basis_hdiv[dim*local_row]),
                   &(basis_hdiv[dim*local_col]),dim)*quad_w[q]*J[q];
             }
-- 
2.43.0


From b5dc1798dce78ac332e8d32fde0e9cd922472b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 46/84] fix: the finite element methods could not match
 vertices far from the origin

The vertices of a cell are found by comparing coordinates with an absolute
tolerance of 1e-12, below rounding error for coordinates larger than about 1e3
(georeferenced meshes): TDySetup failed there. Scale it with the coordinates.
---
 src/fe/tdyfe.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fe/tdyfe.c b/src/fe/tdyfe.c
index dcee4e5..9a97ce8 100644
--- a/src/fe/tdyfe.c
+++ b/src/fe/tdyfe.c
@@ -39,7 +39,12 @@ PetscErrorCode CreateCellVertexMap(DM dm, PetscInt nv, PetscReal *X, PetscInt **
     for(v=0; v<nv; v++) {
       for (i=0; i<closureSize*2; i+=2) {
         if ((closure[i] >= vStart) && (closure[i] < vEnd)) {
-          if (TDyL1norm(&(x[v*dim]),&(X[closure[i]*dim]),dim) > 1e-12) continue;
+          // Rounding errors scale with the distance from the origin.
+          PetscReal scale = 1.0;
+          for (PetscInt d=0; d<dim; d++) {
+            scale = PetscMax(scale, PetscAbsReal(X[closure[i]*dim+d]));
+          }
+          if (TDyL1norm(&(x[v*dim]),&(X[closure[i]*dim]),dim) > 1e-12*scale) continue;
           (*map)[c*nv+v] = closure[i];
           break;
         }
-- 
2.43.0


From 6431d07b21634d0b48576ef2a192886383dd4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 47/84] fix: the WY discretisation ignored the residual
 saturation

It allocated the array it uses but never computed it, so the transient
equations always used a residual saturation of zero.
---
 src/fe/tdywy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..63fbd7c 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -512,6 +512,9 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
   MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  if (MaterialPropHasResidualSaturation(matprop)) {
+    ierr = MaterialPropComputeResidualSaturation(matprop, nc, wy->X, wy->Sr); CHKERRQ(ierr);
+  }
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From 9aa19068b394c0291205c294950d7908654552a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 48/84] fix: the storage term of the transient WY residual
 lacked the cell volume

The divergence and the source are integrated over the cell, the storage term
was not.
---
 src/fe/tdywy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 63fbd7c..cc3ba63 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -1065,7 +1065,7 @@ PetscErrorCode TDyWYResidual(TS ts,PetscReal t,Vec U,Vec U_t,Vec R,void *ctx) {
       }
     }
 
-    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c] + div - wy->Flocal[c-cStart];
+    r[c] = wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c]*wy->V[c] + div - wy->Flocal[c-cStart];
     //PetscPrintf(PETSC_COMM_WORLD,"R[%2d] = %+e %+e %+e = %+e\n",
     // 	c,wy->porosity[c-cStart]*wy->dS_dP[c-cStart]*dp_dt[c],
     // 		div,wy->Flocal[c-cStart],r[c]);
-- 
2.43.0


From 5be36050e39b4a70c8e26d868e52a20018aeb96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 49/84] fix: the rims of the overlaps were marked as boundary
 faces on several processes

---
 src/tdycore.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index b5a9c56..9508005 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -695,6 +695,16 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     // Set up a natural -> global ordering on the DM.
     ierr = DMSetUseNatural(dm, PETSC_TRUE); CHKERRQ(ierr);
 
+    // Mark the grid's boundary faces and their transitive closure. All are
+    // stored at their appropriate strata within the label. This is done before
+    // the mesh is distributed, because a face on the rim of a process's overlap
+    // has one cell there and is not a boundary face of the domain.
+    DMLabel boundary_label;
+    ierr = DMCreateLabel(dm, "boundary"); CHKERRQ(ierr);
+    ierr = DMGetLabel(dm, "boundary", &boundary_label); CHKERRQ(ierr);
+    ierr = DMPlexMarkBoundaryFaces(dm, 1, boundary_label); CHKERRQ(ierr);
+    ierr = DMPlexLabelComplete(dm, boundary_label); CHKERRQ(ierr);
+
     // Distribute the mesh, however we got it.
     DM dm_dist;
     ierr = DMPlexDistribute(dm, 1, NULL, &dm_dist); CHKERRQ(ierr);
@@ -707,15 +717,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
     //ierr = DMClone(dm, &((tdy->discretization)->tdydm)->dm); CHKERRQ(ierr);
-
-    // Mark the grid's boundary faces and their transitive closure. All are
-    // stored at their appropriate strata within the label.
-    DMLabel boundary_label;
-    ierr = DMCreateLabel(((tdy->discretization)->tdydm)->dm, "boundary"); CHKERRQ(ierr);
-    ierr = DMGetLabel(((tdy->discretization)->tdydm)->dm, "boundary", &boundary_label); CHKERRQ(ierr);
-    ierr = DMPlexMarkBoundaryFaces(((tdy->discretization)->tdydm)->dm, 1, boundary_label); CHKERRQ(ierr);
-    ierr = DMPlexLabelComplete(((tdy->discretization)->tdydm)->dm, boundary_label); CHKERRQ(ierr);
-
   }
 
   // PFLOTRAN meshes (which aren't represented by a DMPlex) are three-dimensional.
-- 
2.43.0


From 8a789818f23756b37883740acf2ae1d4871abed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 50/84] fix: TDyGetBoundaryFaces returned edges and vertices
 and failed without any

---
 src/tdycore.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 9508005..8466a8e 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -471,9 +471,27 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
   DM dm;
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumSize(label, 1, num_faces); CHKERRQ(ierr);
   ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISGetIndices(is, faces); CHKERRQ(ierr);
+
+  // The label also holds the edges and vertices of the boundary faces. Its
+  // points are sorted, and the faces of the mesh are numbered contiguously.
+  *num_faces = 0;
+  *faces = NULL;
+  if (is) {
+    PetscInt f_start, f_end, num_points;
+    const PetscInt *points;
+    ierr = DMPlexGetHeightStratum(dm, 1, &f_start, &f_end); CHKERRQ(ierr);
+    ierr = ISGetSize(is, &num_points); CHKERRQ(ierr);
+    ierr = ISGetIndices(is, &points); CHKERRQ(ierr);
+    for (PetscInt p = 0; p < num_points; ++p) {
+      if ((points[p] >= f_start) && (points[p] < f_end)) {
+        if (!*faces) *faces = &points[p];
+        ++(*num_faces);
+      }
+    }
+    ierr = ISRestoreIndices(is, &points); CHKERRQ(ierr);
+    ierr = ISDestroy(&is); CHKERRQ(ierr); // the label holds on to it
+  }
   PetscFunctionReturn(0);
 }
 
@@ -483,14 +501,8 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
 PetscErrorCode TDyRestoreBoundaryFaces(TDy tdy, PetscInt *num_faces,
                                        const PetscInt** faces) {
   PetscFunctionBegin;
-  PetscErrorCode ierr;
-  DMLabel label;
-  IS is;
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetLabel(dm, "boundary", &label); CHKERRQ(ierr);
-  ierr = DMLabelGetStratumIS(label, 1, &is); CHKERRQ(ierr);
-  ierr = ISRestoreIndices(is, faces); CHKERRQ(ierr);
+  *num_faces = 0;
+  *faces = NULL;
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From b25c248b57b4bd5cf8e62510ce6e9d110e603018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 51/84] fix: the regression file mixed the two unknowns of the
 salinity mode

---
 src/tdyregression.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..1743037 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -27,7 +27,7 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
 
   ndof_per_cell = 1;
-  if (tdy->options.mode == TH) ndof_per_cell = 2;
+  if (tdy->options.mode == TH || tdy->options.mode == SALINITY) ndof_per_cell = 2;
 
   ierr = TDyAlloc(sizeof(TDyRegression), &regression); CHKERRQ(ierr);
 
@@ -56,20 +56,15 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
   ierr = MPI_Allreduce(&vecsize_local,&min_vecsize_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
 
-  if (min_vecsize_local<regression->num_cells_per_process) {
-    regression->num_cells_per_process = min_vecsize_local;
+  if (min_vecsize_local/ndof_per_cell<regression->num_cells_per_process) {
+    regression->num_cells_per_process = min_vecsize_local/ndof_per_cell;
   }
 
   if (myrank == 0) {
     ierr = TDyAlloc(ndof_per_cell*size*regression->num_cells_per_process*sizeof(PetscInt),&(regression->cells_per_process_natural_ids)); CHKERRQ(ierr);
   }
 
-  if (tdy->options.mode == TH) {
-    increment = floor(vecsize_local/regression->num_cells_per_process/2);
-  }
-  else {
-    increment = floor(vecsize_local/regression->num_cells_per_process);
-  }
+  increment = vecsize_local/ndof_per_cell/regression->num_cells_per_process;
 
 
   global_offset = 0;
@@ -146,6 +141,9 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscInt c;
   Vec U_pres, U_temp;
 
+  // The second unknown, if any, is the temperature or the salinity.
+  PetscBool two_dofs = (tdy->options.mode == TH || tdy->options.mode == SALINITY) ? PETSC_TRUE : PETSC_FALSE;
+
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
 
@@ -174,14 +172,14 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   PetscReal *temp_p, *pres_p, *u_p;
   ierr = VecGetLocalSize(U,&vec_local_size); CHKERRQ(ierr);
   ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {
+  if (two_dofs) {
     vec_local_size = vec_local_size/2;
   }
   ierr = VecSetSizes(U_pres,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
   ierr = VecSetFromOptions(U_pres); CHKERRQ(ierr);
   ierr = VecGetArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_dofs) {
     ierr = VecCreate(PetscObjectComm((PetscObject)dm),&U_temp); CHKERRQ(ierr);
     ierr = VecSetSizes(U_temp,vec_local_size,PETSC_DECIDE); CHKERRQ(ierr);
     ierr = VecSetFromOptions(U_temp); CHKERRQ(ierr);
@@ -191,7 +189,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
   ierr = VecGetArray(U,&u_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH && num_fields == 2) {
+  if (two_dofs && num_fields == 2) {
     for (c=0;c<vec_local_size;c++) {
       pres_p[c] = u_p[c*2];
       temp_p[c] = u_p[c*2+1];
@@ -205,7 +203,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecRestoreArray(U,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(U_pres,&pres_p); CHKERRQ(ierr);
 
-  if (tdy->options.mode == TH) {
+  if (two_dofs) {
     ierr = VecRestoreArray(U_temp,&temp_p); CHKERRQ(ierr);
   }
 
@@ -215,7 +213,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   ierr = VecGetSize(U_pres,&pres_vec_size); CHKERRQ(ierr);
   mean_pres_val = mean_pres_val/pres_vec_size;
 
-  if (tdy->options.mode == TH) {
+  if (two_dofs) {
     ierr = VecMax(U_temp,NULL,&max_temp_val); CHKERRQ(ierr);
     ierr = VecMin(U_temp,NULL,&min_temp_val); CHKERRQ(ierr);
     ierr = VecSum(U_temp,&mean_temp_val); CHKERRQ(ierr);
@@ -241,7 +239,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
     fprintf(fp,"      Min: %21.13e\n",min_pres_val);
     fprintf(fp,"     Mean: %21.13e\n",mean_pres_val);
 
-    if (tdy->options.mode == TH) {
+    if (two_dofs) {
       for (i=0; i<count/2; i++) {
         fprintf(fp,"%9d: %21.13e\n",reg->cells_per_process_natural_ids[2*i]/2,vec_ptr[2*i]);
       }
@@ -251,8 +249,8 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
       }
     }
 
-    if (tdy->options.mode == TH) {
-      fprintf(fp,"-- GENERIC: Temperature --\n");
+    if (two_dofs) {
+      fprintf(fp,"-- GENERIC: %s --\n",(tdy->options.mode == TH) ? "Temperature" : "Saline Concentration");
       fprintf(fp,"      Max: %21.13e\n",max_temp_val);
       fprintf(fp,"      Min: %21.13e\n",min_temp_val);
       fprintf(fp,"     Mean: %21.13e\n",mean_temp_val);
@@ -267,7 +265,7 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
   }
 
   ierr = VecDestroy(&U_pres); CHKERRQ(ierr);
-  if (tdy->options.mode == TH) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
+  if (two_dofs) {ierr = VecDestroy(&U_temp); CHKERRQ(ierr);}
 
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
-- 
2.43.0


From 52107bd7ef4a5ec936abdd38fd761a4b8eb9de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 52/84] fix: the liquid mass diagnostic was the mass of a cell
 filled with water

---
 src/fv/fvtpf/tdyfvtpf.c | 2 +-
 src/fv/mpfao/tdympfao.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 6659f05..7815bbf 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -379,7 +379,7 @@ PetscErrorCode TDyUpdateDiagnostics_FVTPF(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = fvtpf->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = fvtpf->rho[c] * fvtpf->porosity[c] * fvtpf->S[c] * fvtpf->V[c];
 
     count++;
   }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 882e39a..3a944f6 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2769,7 +2769,7 @@ PetscErrorCode TDyUpdateDiagnostics_MPFAO(void *context,
     if (!cells->is_local[c]) continue;
 
     v[2*count + DIAG_LIQUID_SATURATION] = mpfao->S[c];
-    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->V[c];
+    v[2*count + DIAG_LIQUID_MASS] = mpfao->rho[c] * mpfao->porosity[c] * mpfao->S[c] * mpfao->V[c];
 
     count++;
   }
-- 
2.43.0


From 6a9c0480efb7a67530c4a0a49d91423315b6268a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:16 +0000
Subject: [PATCH 53/84] fix: the liquid pressure could not be obtained in modes
 with two unknowns per cell

---
 src/tdycore.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 8466a8e..365f729 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1900,8 +1900,9 @@ static PetscErrorCode ExtractPrognosticField(TDy tdy, PetscInt index, Vec vec) {
   PetscFunctionReturn(0);
 }
 
-/// Given a Vec created with TDyCreatePrognosticVector, populates that vector
-/// with the saturation values for each cell in the grid.
+/// Given a Vec with one value per cell (TDyCreateDiagnosticVector, or
+/// TDyCreatePrognosticVector if there is one unknown per cell), populates that
+/// vector with the liquid pressure values for each cell in the grid.
 /// @param [in] tdy A TDy object
 /// @param [out] liq_pres_vec The Vec that stores the cell-centered liquid pressure field.
 ///                           The values in the Vec are in natural-order.
@@ -1909,10 +1910,17 @@ PetscErrorCode TDyGetLiquidPressure(TDy tdy, Vec liq_press_vec) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
 
+  MPI_Comm comm;
+  ierr = PetscObjectGetComm((PetscObject)tdy, &comm); CHKERRQ(ierr);
+
+  // The pressure has one value per cell, whatever the number of unknowns is.
   Vec tmp_vec;
-  ierr = TDyCreateGlobalVector(tdy, &tmp_vec); CHKERRQ(ierr);
+  PetscInt vecsize, blocksize;
+  ierr = VecGetLocalSize(tdy->soln_prev, &vecsize); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(tdy->soln_prev, &blocksize); CHKERRQ(ierr);
+  ierr = VecCreateMPI(comm, vecsize/blocksize, PETSC_DECIDE, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractPrognosticField(tdy, VAR_PRESSURE, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, liq_press_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = ScalarGlobalToNatural(tdy, tmp_vec, liq_press_vec); CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
-- 
2.43.0


From 7a0908566fe3b2da7445991d626e03264fcb17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 54/84] fix: -tdy_fvtpf_boundary_condition_type had no effect

---
 src/fv/fvtpf/tdyfvtpf.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 7815bbf..f8ee6b7 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -331,7 +331,16 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
 
-  if (ConditionsHasBoundaryPressureType(condition)) {
+  if (!ConditionsHasBoundaryPressureType(condition)) {
+    // Without a function for it, all the boundary faces have the selected type.
+    TDyMesh  *mesh = fvtpf->mesh;
+    TDyFace  *faces = &mesh->faces;
+
+    for (PetscInt iface=0; iface<mesh->num_faces; iface++){
+      if (!faces->is_local[iface] || faces->is_internal[iface]) continue;
+      faces->bc_type[iface] = fvtpf->bc_type;
+    }
+  } else {
     TDyMesh  *mesh = fvtpf->mesh;
     TDyFace  *faces = &mesh->faces;
     PetscErrorCode ierr;
-- 
2.43.0


From 9ddfac0160cbbcef8bb90a5b2ecc8d285b5557ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 55/84] fix: -tdy_init_file was ignored in the TH and salinity
 modes

---
 src/tdysalinity.c | 11 +++++++++++
 src/tdyth.c       | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/tdysalinity.c b/src/tdysalinity.c
index c7a3578..8a6e6d5 100644
--- a/src/tdysalinity.c
+++ b/src/tdysalinity.c
@@ -33,6 +33,17 @@ PetscErrorCode TDySalinityInitialize(TDy tdy) {
     ierr = VecDestroy(&temp_vec); CHKERRQ(ierr);
     ierr = PetscRandomDestroy(&rand); CHKERRQ(ierr);
   }
+  else if (tdy->options.init_from_file) {
+    PetscViewer viewer;
+    Vec natural;
+    ierr = VecDuplicate(tdy->soln,&natural); CHKERRQ(ierr);
+    ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,tdy->options.init_file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
+    ierr = VecLoad(natural,viewer); CHKERRQ(ierr);
+    ierr = TDyNaturalToGlobal(tdy,natural,tdy->soln); CHKERRQ(ierr);
+    ierr = VecDestroy(&natural); CHKERRQ(ierr);
+    ierr = VecCopy(tdy->soln, tdy->soln_prev); CHKERRQ(ierr);
+    ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
+  }
   else {
     ierr = VecSet(tdy->soln,101325.); CHKERRQ(ierr);
   }
diff --git a/src/tdyth.c b/src/tdyth.c
index fae1769..a034394 100644
--- a/src/tdyth.c
+++ b/src/tdyth.c
@@ -37,6 +37,17 @@ PetscErrorCode TDyTHInitialize(TDy tdy) {
     ierr = VecDestroy(&temp_vec); CHKERRQ(ierr);
     ierr = PetscRandomDestroy(&rand); CHKERRQ(ierr);
   }
+  else if (tdy->options.init_from_file) {
+    PetscViewer viewer;
+    Vec natural;
+    ierr = VecDuplicate(tdy->soln,&natural); CHKERRQ(ierr);
+    ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,tdy->options.init_file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
+    ierr = VecLoad(natural,viewer); CHKERRQ(ierr);
+    ierr = TDyNaturalToGlobal(tdy,natural,tdy->soln); CHKERRQ(ierr);
+    ierr = VecDestroy(&natural); CHKERRQ(ierr);
+    ierr = VecCopy(tdy->soln, tdy->soln_prev); CHKERRQ(ierr);
+    ierr = PetscViewerDestroy(&viewer); CHKERRQ(ierr);
+  }
   else {
     ierr = VecSet(tdy->soln,101325.); CHKERRQ(ierr);
   }
-- 
2.43.0


From 25628bcc44ade893b6ae0cdd170f268850b05bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 56/84] fix: TDySelectBoundarySalineConcentrationFunction was
 misspelled in its definition

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 365f729..da5364a 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1476,8 +1476,8 @@ PetscErrorCode TDySelectBoundaryTemperatureFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
-PetscErrorCode TDySelectBoundarySalineConcenctrationFunction(TDy tdy,
-                                                             const char *func_name) {
+PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
+                                                            const char *func_name) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
   TDySpatialFunction f;
-- 
2.43.0


From c8e96215f4917dee4220bfdd3cf355194e360c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:43 +0000
Subject: [PATCH 57/84] fix: unsupported modes and discretizations given as
 options were accepted

---
 src/tdycore.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index da5364a..584ebc9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -615,11 +615,14 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   PetscOptionsEnd();
 
   // Override the mode and/or discretization if needed.
-  if (options->mode != mode) {
-    TDySetMode(tdy, mode);
+  PetscBool new_mode = (options->mode != mode) ? PETSC_TRUE : PETSC_FALSE;
+  if (new_mode) {
+    options->mode = mode;
+    tdy->setup_flags |= TDyModeSet;
   }
-  if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+  if ((options->discretization != discretization) ||
+      (new_mode && (tdy->setup_flags & TDyDiscretizationSet))) {
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
-- 
2.43.0


From 9586cfc0caf435a07f6244087573cc50ab2a5435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 58/84] fix: TDySetFromOptions crashed when no discretization
 had been set

---
 src/tdycore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 584ebc9..676e7e0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -666,6 +666,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   //------------------------------------------
   ierr = ReadCommandLineOptions(tdy); CHKERRQ(ierr);
 
+  if ((tdy->setup_flags & TDyDiscretizationSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
+
   // Now that we know the discretization, we can create our implementation-
   // specific context.
   ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
-- 
2.43.0


From db17bdbe632a16d3eaa1b5cbd4332f4d0cba7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 59/84] fix: the TH mode crashed on PFLOTRAN meshes

---
 include/private/tdympfaoimpl.h | 1 +
 src/tdycore.c                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/private/tdympfaoimpl.h b/include/private/tdympfaoimpl.h
index e0d44c5..7cd77bb 100644
--- a/include/private/tdympfaoimpl.h
+++ b/include/private/tdympfaoimpl.h
@@ -131,6 +131,7 @@ PETSC_INTERN PetscErrorCode TDyGetNumDMFields_Richards_MPFAO_DAE(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_Richards_MPFAO_DAE(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_Richards_MPFAO_DAE(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 
+PETSC_INTERN PetscErrorCode TDyGetNumDMFields_TH_MPFAO(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_TH_MPFAO(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_TH_MPFAO(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 PETSC_INTERN PetscErrorCode TDyUpdateState_TH_MPFAO(void*, DM, EOS*, MaterialProp*, CharacteristicCurves*, PetscInt, PetscReal*);
diff --git a/src/tdycore.c b/src/tdycore.c
index 676e7e0..fab79ac 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -945,6 +945,7 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       tdy->ops->create = TDyCreate_MPFAO;
       tdy->ops->destroy = TDyDestroy_MPFAO;
       tdy->ops->set_from_options = TDySetFromOptions_MPFAO;
+      tdy->ops->get_num_dm_fields = TDyGetNumDMFields_TH_MPFAO;
       tdy->ops->set_dm_fields = TDySetDMFields_TH_MPFAO;
       tdy->ops->setup = TDySetup_TH_MPFAO;
       tdy->ops->update_state = TDyUpdateState_TH_MPFAO;
-- 
2.43.0


From 8193a35b009ecb97c8a8f051b26daad2fe6350a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 60/84] fix: the error code of a DM constructor was ignored

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index fab79ac..e92f6ef 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -695,11 +695,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     } else {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
-        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm);
+        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
       } else if (create_dm_f90_) {
         // Create a DM all-Fortran-like.
         MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr);
+        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-- 
2.43.0


From 950b820d37561adf253dd1be03d0284811018d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 61/84] fix: connected regions were misplaced on several
 processes

---
 src/fv/share/tdymeshplex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 77f64ae..0749f2f 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -671,7 +671,8 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
       PetscViewer viewer;
       Vec region_id_nat_idx;
 
-      ierr = VecCreate(PETSC_COMM_WORLD,&region_id_nat_idx); CHKERRQ(ierr);
+      // Natural vectors have the same layout as global ones.
+      ierr = DMCreateGlobalVector(dm, &region_id_nat_idx); CHKERRQ(ierr);
 
       ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD,file,FILE_MODE_READ,&viewer); CHKERRQ(ierr);
       ierr = VecLoad(region_id_nat_idx,viewer); CHKERRQ(ierr);
-- 
2.43.0


From 5aef2416a57984ccb8b9314e85986bc9b3f93f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 62/84] fix: destroying a dycore before its setup crashed

---
 src/fv/mpfao/tdympfao.c | 2 +-
 src/tdycore.c           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 3a944f6..4d3459b 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,7 +564,7 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  if (mpfao->mesh) { ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr); }
 
   TDyFree(mpfao);
 
diff --git a/src/tdycore.c b/src/tdycore.c
index e92f6ef..f8e0680 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -394,8 +394,8 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (tdy->Jpre        ) { ierr = MatDestroy(&tdy->Jpre); CHKERRQ(ierr); }
 
   // Call implementation-specific destructor.
-  if (tdy->ops->destroy) {
-    tdy->ops->destroy(tdy->context);
+  if (tdy->ops->destroy && tdy->context) {
+    ierr = tdy->ops->destroy(tdy->context); CHKERRQ(ierr);
   }
 
   // Clean up diagnostics.
-- 
2.43.0


From a91acb99cf9b22fad9ab97e3692b17e1f6d2ca93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 63/84] fix: destroying a dycore leaked its discretization, its
 mesh and most of its arrays

---
 src/fe/tdybdm.c         |  3 +++
 src/fe/tdywy.c          |  2 ++
 src/fv/fvtpf/tdyfvtpf.c | 37 +++++++++++++++++++++++++++++++++++++
 src/fv/mpfao/tdympfao.c |  5 +++++
 src/fv/share/tdymesh.c  | 16 +++++++++++++---
 src/tdycore.c           |  6 ++----
 src/tdydiscretization.c |  7 +++----
 7 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index 336007c..ae3ccfb 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -50,6 +50,9 @@ PetscErrorCode TDyDestroy_BDM(void *context) {
   ierr = TDyFree(bdm->V); CHKERRQ(ierr);
   ierr = TDyFree(bdm->X); CHKERRQ(ierr);
   ierr = TDyFree(bdm->N); CHKERRQ(ierr);
+  ierr = TDyFree(bdm->K); CHKERRQ(ierr);
+
+  ierr = TDyFree(bdm); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index cc3ba63..dd014b5 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -267,6 +267,8 @@ PetscErrorCode TDyDestroy_WY(void *context) {
   ierr = TDyFree(wy->X); CHKERRQ(ierr);
   ierr = TDyFree(wy->N); CHKERRQ(ierr);
 
+  ierr = TDyFree(wy); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index f8ee6b7..fef306f 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -35,6 +35,7 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   TDyFVTPF* fvtpf = context;
 
   if (fvtpf->vel   ) { ierr = TDyFree(fvtpf->vel); CHKERRQ(ierr); }
+  if (fvtpf->vel_count) { ierr = TDyFree(fvtpf->vel_count); CHKERRQ(ierr); }
 
   ierr = TDyFree(fvtpf->V); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->X); CHKERRQ(ierr);
@@ -48,6 +49,42 @@ PetscErrorCode TDyDestroy_FVTPF(void *context) {
   ierr = TDyFree(fvtpf->dh_dP); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dh_dT); CHKERRQ(ierr);
   ierr = TDyFree(fvtpf->dvis_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->K0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kappa0); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->c_soil); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Sr); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->pressure); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->P_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->T_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->rho_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->vis_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->h_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->Kr_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dKr_dS_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->S_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->dS_dP_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->d2S_dP2_bnd); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->source_sink); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->energy_source_sink); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->u); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dP); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->du_dT); CHKERRQ(ierr);
+  ierr = TDyFree(fvtpf->drho_dT); CHKERRQ(ierr);
+
+  if (fvtpf->mesh) { ierr = TDyMeshDestroy(fvtpf->mesh); CHKERRQ(ierr); }
+
+  ierr = TDyFree(fvtpf); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index 4d3459b..fd100d0 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -465,6 +465,11 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
   ierr = TDyFree(mpfao->V); CHKERRQ(ierr);
   ierr = TDyFree(mpfao->X); CHKERRQ(ierr);
   ierr = TDyFree(mpfao->N); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->K); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->K0); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->porosity); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa); CHKERRQ(ierr);
+  ierr = TDyFree(mpfao->Kappa0); CHKERRQ(ierr);
   ierr = TDyFree(mpfao->Kr); CHKERRQ(ierr);
   ierr = TDyFree(mpfao->dKr_dS); CHKERRQ(ierr);
   ierr = TDyFree(mpfao->S); CHKERRQ(ierr);
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index afdbb64..e02cfa8 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -895,14 +895,24 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   ierr = TDyFree(mesh->faces.cell_ids); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.edge_ids); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.vertex_ids); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.bc_type); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.area); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.projected_area); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist); CHKERRQ(ierr);
+  ierr = TDyFree(mesh->faces.dist_wt_up); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.dist_up_dn, mesh->num_faces); CHKERRQ(ierr);
+  ierr = TDyDeallocate_RealArray_2D(mesh->faces.unit_vec_up_dn, mesh->num_faces); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.centroid); CHKERRQ(ierr);
   ierr = TDyFree(mesh->faces.normal); CHKERRQ(ierr);
 
   ierr = TDyFree(mesh->closureSize);
-  ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
-            mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
-  CHKERRQ(ierr);
+  if (mesh->closure) {
+    ierr = TDyDeallocate_IntegerArray_2D(mesh->closure,
+              mesh->num_cells+mesh->num_faces+mesh->num_edges+mesh->num_vertices);
+    CHKERRQ(ierr);
+  }
+
+  ierr = TDyRegionDestroy(&mesh->region_connected); CHKERRQ(ierr);
 
   ierr = TDyFree(mesh); CHKERRQ(ierr);
   PetscFunctionReturn(0);
diff --git a/src/tdycore.c b/src/tdycore.c
index f8e0680..76795ba 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -422,10 +422,8 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
     ierr = MaterialPropDestroy(tdy->matprop); CHKERRQ(ierr);
   }
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMDestroy(&dm); CHKERRQ(ierr);
-  ierr = TDyFree(tdy); CHKERRQ(ierr);
+  ierr = TDyDiscretizationDestroy(tdy->discretization); CHKERRQ(ierr);
+  ierr = PetscHeaderDestroy(&tdy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index 5c67cd0..b8bb90a 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -35,10 +35,9 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
 
   PetscErrorCode ierr;
 
-  ierr = TDyAlloc(sizeof(TDyDiscretization), &discretization); CHKERRQ(ierr);
-
-  ierr = TDyDMDestroy (discretization->tdydm); CHKERRQ(ierr);
-  TDyFree(discretization);
+  ierr = TDyDMDestroy(discretization->tdydm); CHKERRQ(ierr);
+  ierr = TDyFree(discretization->ugrid); CHKERRQ(ierr);
+  ierr = TDyFree(discretization); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
-- 
2.43.0


From 34df2f063298211b66b23c9aa328e15e35a8a7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 64/84] fix: the steady system, the saline boundary and the
 checkpoints leaked

---
 src/fv/mpfao/tdympfao_steady.c | 4 ++++
 src/fv/mpfao/tdympfao_utils.c  | 8 ++++++++
 src/tdyio.c                    | 1 +
 3 files changed, 13 insertions(+)

diff --git a/src/fv/mpfao/tdympfao_steady.c b/src/fv/mpfao/tdympfao_steady.c
index fa8fa1f..4ae11ad 100644
--- a/src/fv/mpfao/tdympfao_steady.c
+++ b/src/fv/mpfao/tdympfao_steady.c
@@ -78,6 +78,8 @@ PetscErrorCode TDyMPFAOComputeSystem_InternalVertices(TDy tdy, Mat K,Vec F) {
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
+
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 
@@ -297,6 +299,8 @@ PetscErrorCode TDyMPFAOComputeSystem_BoundaryVertices_SharedWithInternalVertices
   ierr = MatAssemblyBegin(K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
   ierr = MatAssemblyEnd  (K,MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
+
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(0);
 
diff --git a/src/fv/mpfao/tdympfao_utils.c b/src/fv/mpfao/tdympfao_utils.c
index 0dae94b..d686824 100644
--- a/src/fv/mpfao/tdympfao_utils.c
+++ b/src/fv/mpfao/tdympfao_utils.c
@@ -211,6 +211,8 @@ PetscErrorCode TDyMPFAORecoverVelocity_InternalVertices(TDy tdy, Vec U, PetscRea
   ierr = VecRestoreArray(localU,&u); CHKERRQ(ierr);
   ierr = DMRestoreLocalVector(dm,&localU); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 
 }
@@ -526,6 +528,8 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_SharedWithInternalVertic
   ierr = VecRestoreArray(localU,&u); CHKERRQ(ierr);
   ierr = DMRestoreLocalVector(dm,&localU); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 
 }
@@ -652,6 +656,8 @@ PetscErrorCode TDyMPFAORecoverVelocity_BoundaryVertices_NotSharedWithInternalVer
   ierr = VecRestoreArray(localU,&u); CHKERRQ(ierr);
   ierr = DMRestoreLocalVector(dm,&localU); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_RealArray_2D(Gmatrix, dim); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 
 }
@@ -879,6 +885,8 @@ PetscErrorCode TDyMPFAO_SetBoundarySalineConcentration(TDy tdy, Vec Ul) {
   ierr = VecRestoreArray(Ul,&u_p); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->Psi_vec,&psi_vec_ptr); CHKERRQ(ierr);
 
+  ierr = PetscFree(psi); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
diff --git a/src/tdyio.c b/src/tdyio.c
index 802fc0c..04cf8e6 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -374,6 +374,7 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   ierr = VecView(p_natural,viewer);CHKERRQ(ierr);
   ierr = PetscViewerHDF5WriteAttribute(viewer,NULL,"time step", PETSC_INT, (void *) &tdy->ti->istep);CHKERRQ(ierr);
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+  ierr = VecDestroy(&p_natural);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 6222cff2150280750eb45182da727d4de0d437d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 65/84] fix: a refused flow mode was kept

---
 src/tdycore.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 76795ba..38b7fbc 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -613,6 +613,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   PetscOptionsEnd();
 
   // Override the mode and/or discretization if needed.
+  TDyMode old_mode = options->mode;
   PetscBool new_mode = (options->mode != mode) ? PETSC_TRUE : PETSC_FALSE;
   if (new_mode) {
     options->mode = mode;
@@ -620,7 +621,9 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   }
   if ((options->discretization != discretization) ||
       (new_mode && (tdy->setup_flags & TDyDiscretizationSet))) {
-    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
+    ierr = TDySetDiscretization(tdy, discretization);
+    if (ierr) options->mode = old_mode; // the mode wasn't accepted
+    CHKERRQ(ierr);
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
@@ -850,13 +853,16 @@ PetscErrorCode TDySetup(TDy tdy) {
 PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
+  TDyMode old_mode = tdy->options.mode;
   tdy->options.mode = mode;
   tdy->setup_flags |= TDyModeSet;
 
   // If we are resetting the mode and have already set the discretization,
   // we call TDySetDiscretization again.
   if (tdy->setup_flags & TDyDiscretizationSet) {
-    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
+    PetscErrorCode ierr = TDySetDiscretization(tdy, tdy->options.discretization);
+    if (ierr) tdy->options.mode = old_mode; // the mode wasn't accepted
+    CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 5b270942d201d50e9a17827c577b3a0fe7128044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 66/84] fix: meshes of mixed cells crashed instead of being
 refused

---
 src/fe/tdybdm.c            |  2 ++
 src/fe/tdywy.c             |  2 ++
 src/fv/share/tdymeshplex.c |  3 +++
 src/tdycore.c              | 16 ++++++++--------
 src/tdyutils.c             |  7 ++++---
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/fe/tdybdm.c b/src/fe/tdybdm.c
index ae3ccfb..9ec6a2d 100644
--- a/src/fe/tdybdm.c
+++ b/src/fe/tdybdm.c
@@ -183,6 +183,7 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
   ierr = DMGetGlobalSection(dm,&sec); CHKERRQ(ierr);
   ierr = DMSetBasicAdjacency(dm,PETSC_TRUE,PETSC_TRUE); CHKERRQ(ierr);
   bdm->ncv = TDyGetNumberOfCellVertices(dm);
+  if (bdm->ncv < 0) SETERRQ(((PetscObject)dm)->comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
 
   /* Build vmap and emap */
   ierr = CreateCellVertexMap(dm, bdm->ncv, bdm->X, &(bdm->vmap)); CHKERRQ(ierr);
@@ -191,6 +192,7 @@ PetscErrorCode TDySetup_BDM(void *context, TDyDiscretizationType *discretization
 
   /* Build map(face,local_vertex) --> vertex */
   nfv = TDyGetNumberOfFaceVertices(dm);
+  if (nfv < 0) SETERRQ(((PetscObject)dm)->comm,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
   ierr = TDyAlloc(nfv*(fEnd-fStart)*sizeof(PetscInt),
                   &(bdm->fmap)); CHKERRQ(ierr);
   for(f=fStart; f<fEnd; f++) {
diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index dd014b5..1814345 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -380,6 +380,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   /* Check that the number of vertices per cell are constant. Soft
      limitation, method is flexible but my data structures are not. */
   wy->ncv = TDyGetNumberOfCellVertices(dm);
+  if (wy->ncv < 0) SETERRQ(((PetscObject)dm)->comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
 
   /* Create a PETSc quadrature, we don't really use this, it is just
      to evaluate the Jacobian via the PETSc interface. */
@@ -401,6 +402,7 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
 
   /* Allocate space for velocities and create a local_vertex->face map */
   wy->nfv = TDyGetNumberOfFaceVertices(dm);
+  if (wy->nfv < 0) SETERRQ(comm,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
   ierr = TDyAlloc(wy->nfv*(fEnd-fStart)*sizeof(PetscReal),
                      &(wy->vel )); CHKERRQ(ierr);
   ierr = TDyAlloc(wy->nfv*(fEnd-fStart)*sizeof(PetscInt ),
diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 0749f2f..f4663d2 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -3707,6 +3707,9 @@ PetscErrorCode TDyMeshCreateFromPlex(DM dm, PetscReal **volumes, PetscReal **coo
   if (dim != 3) {
     SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"MPFA-O only supports 3D meshes");
   }
+  if (TDyGetNumberOfCellVertices(dm) < 0) {
+    SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
+  }
 
   ierr = TDyAlloc(sizeof(TDyMesh), mesh); CHKERRQ(ierr);
 
diff --git a/src/tdycore.c b/src/tdycore.c
index 38b7fbc..7b37af0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1519,11 +1519,11 @@ PetscErrorCode TDyUpdateState(TDy tdy,PetscReal *U, PetscInt num_cells) {
   PetscFunctionReturn(0);
 }
 
+// Returns the number of vertices of each cell of the given DM, or -1 if the
+// cells don't all have the same number of vertices.
 PetscInt TDyGetNumberOfCellVertices(DM dm) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  MPI_Comm comm;
-  ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   PetscInt vStart, vEnd, cStart, cEnd;
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
@@ -1537,20 +1537,20 @@ PetscInt TDyGetNumberOfCellVertices(DM dm) {
     for (PetscInt i=0; i<closureSize*2; i+=2) {
       if ((closure[i] >= vStart) && (closure[i] < vEnd)) q += 1;
     }
-    if(nq == -1) nq = q;
-    if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
     ierr = DMPlexRestoreTransitiveClosure(dm,c,PETSC_TRUE,&closureSize,&closure);
     CHKERRQ(ierr);
+    if(nq == -1) nq = q;
+    if(nq !=  q) PetscFunctionReturn(-1); // cells aren't of uniform type
   }
   PetscFunctionReturn(nq);
 }
 
+// Returns the number of vertices of each face of the given DM, or -1 if the
+// faces don't all have the same number of vertices.
 PetscInt TDyGetNumberOfFaceVertices(DM dm) {
   PetscFunctionBegin;
   PetscErrorCode ierr;
-  MPI_Comm       comm;
   PetscInt nq,f,q,i,fStart,fEnd,vStart,vEnd,closureSize,*closure;
-  ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,1,&fStart,&fEnd); CHKERRQ(ierr);
   nq = -1;
@@ -1562,10 +1562,10 @@ PetscInt TDyGetNumberOfFaceVertices(DM dm) {
     for (i=0; i<closureSize*2; i+=2) {
       if ((closure[i] >= vStart) && (closure[i] < vEnd)) q += 1;
     }
-    if(nq == -1) nq = q;
-    if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh faces must be of uniform type");
     ierr = DMPlexRestoreTransitiveClosure(dm,f,PETSC_TRUE,&closureSize,&closure);
     CHKERRQ(ierr);
+    if(nq == -1) nq = q;
+    if(nq !=  q) PetscFunctionReturn(-1); // faces aren't of uniform type
   }
   PetscFunctionReturn(nq);
 }
diff --git a/src/tdyutils.c b/src/tdyutils.c
index 3f704bb..c0c4e42 100644
--- a/src/tdyutils.c
+++ b/src/tdyutils.c
@@ -142,9 +142,7 @@ PetscInt TDyGetNumberOfCellVerticesWithClosures(DM dm, PetscInt *closureSize, Pe
   PetscFunctionBegin;
   TDY_START_FUNCTION_TIMER()
   PetscErrorCode ierr;
-  MPI_Comm       comm;
   PetscInt nq,c,q,i,cStart,cEnd,vStart,vEnd;
-  ierr = PetscObjectGetComm((PetscObject)dm,&comm); CHKERRQ(ierr);
   ierr = DMPlexGetDepthStratum (dm,0,&vStart,&vEnd); CHKERRQ(ierr);
   ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd); CHKERRQ(ierr);
   nq = -1;
@@ -154,7 +152,10 @@ PetscInt TDyGetNumberOfCellVerticesWithClosures(DM dm, PetscInt *closureSize, Pe
       if ((closure[c][i] >= vStart) && (closure[c][i] < vEnd)) q += 1;
     }
     if(nq == -1) nq = q;
-    if(nq !=  q) SETERRQ(comm,PETSC_ERR_SUP,"Mesh cells must be of uniform type");
+    if(nq !=  q) { // cells aren't of uniform type
+      nq = -1;
+      break;
+    }
   }
   TDY_STOP_FUNCTION_TIMER()
   PetscFunctionReturn(nq);
-- 
2.43.0


From 20fb1e22bb4f42e535c93b40144f27e4e6828156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 67/84] fix: declaration of TDyDiscretizationDestroy was
 missing

---
 include/private/tdydiscretizationimpl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/private/tdydiscretizationimpl.h b/include/private/tdydiscretizationimpl.h
index ccbbda1..31e4ad9 100644
--- a/include/private/tdydiscretizationimpl.h
+++ b/include/private/tdydiscretizationimpl.h
@@ -17,6 +17,7 @@ typedef struct {
 
 
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreate(TDyDiscretizationType**);
+PETSC_INTERN PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateFromPFLOTRANMesh(const char*,PetscInt,TDyDiscretizationType*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateGlobalVector(TDyDiscretizationType*,Vec*);
 PETSC_INTERN PetscErrorCode TDyDiscretizationCreateLocalVector(TDyDiscretizationType*,Vec*);
-- 
2.43.0


From daff658ba47fa29cfc1805b7f8d64d2639941f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 68/84] fix: a missing porosity file went unnoticed

---
 src/tdyio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 04cf8e6..8cdcb56 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -247,10 +247,10 @@ PetscErrorCode TDyIOReadPorosity(TDy tdy){
   }
 
   PetscReal *Porosity;
-  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity);
+  ierr = TDyIOReadVariable(tdy,VariableName,filename,&Porosity); CHKERRQ(ierr);
 
   ierr = MaterialPropSetPorosity(tdy->matprop, Porosity, AssignScalars,
-                                 ScalarsDestroy);
+                                 ScalarsDestroy); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 734f5b7340e1e8e5354b1f4d973ea299159c4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 69/84] fix: faces of a PFLOTRAN mesh were recorded in an array
 already freed

---
 src/fv/share/tdymeshcustom.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..2d02469 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -741,8 +741,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_count++;
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  // The caller keeps its array, which has room for the duplicates as well
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
-- 
2.43.0


From ef65455f10526baff7a28c594fb64d23c5227cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 70/84] fix: spatial functions got no coordinates on PFLOTRAN
 meshes

---
 src/fv/fvtpf/tdyfvtpf.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index fef306f..19afe10 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -491,6 +491,24 @@ PetscErrorCode TDyUpdateState_Richards_FVTPF(void *context, DM dm,
   PetscFunctionReturn(0);
 }
 
+// Sets the volumes and centroids of cells from those of the mesh.
+static PetscErrorCode SetCellGeometry(TDyFVTPF *fvtpf) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  PetscInt dim = 3;
+  PetscInt nc = fvtpf->mesh->num_cells;
+  TDyCell *cells = &fvtpf->mesh->cells;
+  ierr = TDyAlloc(nc*sizeof(PetscReal), &fvtpf->V); CHKERRQ(ierr);
+  ierr = TDyAlloc(dim*nc*sizeof(PetscReal), &fvtpf->X); CHKERRQ(ierr);
+  for (PetscInt c = 0; c < nc; ++c) {
+    fvtpf->V[c] = cells->volume[c];
+    for (PetscInt d = 0; d < dim; ++d) {
+      fvtpf->X[dim*c+d] = cells->centroid[c].X[d];
+    }
+  }
+  PetscFunctionReturn(0);
+}
+
 // Setup function for Richards + FV-TPF
 PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *discretization, EOS *eos,
                                        MaterialProp *matprop,
@@ -520,6 +538,7 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
     ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
+    ierr = SetCellGeometry(fvtpf); CHKERRQ(ierr);
     break;
 
     default:
-- 
2.43.0


From c64e1e3ce64926f38100204709be832b208fc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 71/84] fix: a cell with the first vertex of a PFLOTRAN mesh
 was refused

---
 src/fv/share/tdyugrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..f624f36 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -172,7 +172,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
   for (PetscInt icell=0; icell<ugrid->num_cells_local; icell++) {
     PetscInt tmp=0;
     for (PetscInt ivertex=0; ivertex<ugrid->max_verts_per_cell; ivertex++) {
-      if (ugrid->cell_vertices[icell][ivertex] > 0) {
+      if (ugrid->cell_vertices[icell][ivertex] >= 0) {
         tmp++;
       }
     }
-- 
2.43.0


From 2383f90ac7bd5fc9f50b717d2859627678414238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 72/84] fix: boundary condition contexts of two kinds were
 leaked

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 6b6014908824c4ef77884516328c53cb49d55340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 73/84] fix: memory of a PFLOTRAN mesh was never freed

---
 include/private/tdyugridimpl.h |  1 +
 src/fv/share/tdymesh.c         |  2 ++
 src/fv/share/tdymeshcustom.c   |  4 +++
 src/fv/share/tdyugdm.c         |  6 ++--
 src/fv/share/tdyugrid.c        | 62 +++++++++++++++++++++++++++++++---
 src/tdydiscretization.c        |  2 +-
 6 files changed, 69 insertions(+), 8 deletions(-)

diff --git a/include/private/tdyugridimpl.h b/include/private/tdyugridimpl.h
index 130a51f..8536984 100644
--- a/include/private/tdyugridimpl.h
+++ b/include/private/tdyugridimpl.h
@@ -51,6 +51,7 @@ typedef struct {
 } TDyUGrid;
 
 PETSC_INTERN PetscErrorCode TDyUGridCreate(TDyUGrid**);
+PETSC_INTERN PetscErrorCode TDyUGridDestroy(TDyUGrid*);
 PETSC_INTERN PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char*,TDyUGrid*);
 
 #endif
\ No newline at end of file
diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index e02cfa8..df7afc3 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -810,6 +810,8 @@ PetscErrorCode TDyMeshDestroy(TDyMesh *mesh) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
 
+  ierr = TDyFree(mesh->nG2A); CHKERRQ(ierr);
+
   ierr = TDyFree(mesh->cells.id); CHKERRQ(ierr);
   ierr = TDyFree(mesh->cells.global_id); CHKERRQ(ierr);
   ierr = TDyFree(mesh->cells.natural_id); CHKERRQ(ierr);
diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 2d02469..e8b9bd4 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -1280,6 +1280,10 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   // Computes geometric attirbutes of all faces and saves them in the TDyUGrid struct
   ierr = ComputeGeoAttrOfUGridFaces(cell_to_face, ugrid); CHKERRQ(ierr);
 
+  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(cell_to_face, max_face_per_cell); CHKERRQ(ierr);
+  ierr = TDyDeallocate_IntegerArray_2D(vertex_to_cell, max_cells_sharing_a_vertex); CHKERRQ(ierr);
+  ierr = TDyFree(num_vertex_to_cell); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
diff --git a/src/fv/share/tdyugdm.c b/src/fv/share/tdyugdm.c
index 345277f..e7696dc 100644
--- a/src/fv/share/tdyugdm.c
+++ b/src/fv/share/tdyugdm.c
@@ -95,6 +95,9 @@ PetscErrorCode TDyUGDMDestroy(TDyUGDM *ugdm){
     ISLocalToGlobalMappingDestroy(&ugdm->Mapping_LocalCells_to_GhostedCells);
   }
 
+  ierr = VecDestroy(&ugdm->LocalVec); CHKERRQ(ierr);
+  ierr = VecDestroy(&ugdm->GlobalVec); CHKERRQ(ierr);
+
   TDyFree(ugdm);
 
   PetscFunctionReturn(0);
@@ -348,9 +351,6 @@ PetscErrorCode TDyUGDMCreateFromUGrid(PetscInt ndof, TDyUGrid *ugrid, TDyUGDM *u
   // Create three local-ordered ISs
   ierr = CreateLocalOrderIS(ugrid->num_cells_global, ugrid->num_cells_local, ugrid->num_cells_ghost, ndof, ugdm); CHKERRQ(ierr);
 
-  // Create three local-ordered ISs
-  ierr = CreateLocalOrderIS(ugrid->num_cells_global, ugrid->num_cells_local, ugrid->num_cells_ghost, ndof, ugdm); CHKERRQ(ierr);
-
   // Create three Glboal-ordered ISs
   ierr = CreatePetscOrderIS(ndof, ugrid, ugdm); CHKERRQ(ierr);
 
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index f624f36..e392c0b 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -55,6 +55,55 @@ PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
   (*ugrid)->cell_to_face_ghosted = NULL;
   (*ugrid)->vertex_ids_natural = NULL;
 
+  (*ugrid)->num_faces = 0;
+  (*ugrid)->face_num_vertices = NULL;
+  (*ugrid)->face_centroid = NULL;
+  (*ugrid)->connection_to_face = NULL;
+  (*ugrid)->face_area = NULL;
+
+  PetscFunctionReturn(0);
+}
+
+/// Frees all memory held by a TDyUGrid struct
+///
+/// @param [inout] ugrid A TDyUGrid struct
+///
+/// @returns 0 on success, or a non-zero error code on failure
+PetscErrorCode TDyUGridDestroy(TDyUGrid *ugrid) {
+
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  // cell_vertices has its final size once the mesh has been partitioned
+  if (ugrid->cell_vertices && ugrid->cell_num_vertices) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_vertices, ugrid->num_cells_global); CHKERRQ(ierr);
+  }
+  if (ugrid->cell_neighbors_local_ghosted) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_neighbors_local_ghosted, ugrid->num_cells_local); CHKERRQ(ierr);
+  }
+  if (ugrid->vertices) {
+    ierr = TDyDeallocate_RealArray_2D(ugrid->vertices, ugrid->num_verts_local); CHKERRQ(ierr);
+  }
+  if (ugrid->face_to_vertex_natural) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->face_to_vertex_natural, ugrid->max_vert_per_face); CHKERRQ(ierr);
+  }
+  if (ugrid->face_to_vertex) {
+    ierr = TDyDeallocate_IntegerArray_2D(ugrid->face_to_vertex, ugrid->max_vert_per_face); CHKERRQ(ierr);
+  }
+  if (ugrid->face_centroid) {
+    ierr = TDyDeallocate_RealArray_2D(ugrid->face_centroid, ugrid->num_faces); CHKERRQ(ierr);
+  }
+  ierr = TDyFree(ugrid->cell_num_vertices); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->cell_ids_natural); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->cell_ids_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->ghost_cell_ids_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->cell_num_neighbors_local_ghosted); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->vertex_ids_natural); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->connection_to_face); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid->face_area); CHKERRQ(ierr);
+  ierr = AODestroy(&ugrid->ao_natural_to_petsc); CHKERRQ(ierr);
+  ierr = TDyFree(ugrid); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
@@ -849,6 +898,8 @@ static PetscErrorCode ScatterVecNatOrderToPetscOrder(PetscInt stride, PetscInt d
   // Determine the ids of cell neigbhors (aka duals) in ghosted-index
   ierr = DetermineNeigbhorsCellIDsInGhostedOrder(stride, dual_offset, PetscOrderVec, ugrid); CHKERRQ(ierr);
 
+  ierr = VecDestroy(&PostPartNatOrderVec); CHKERRQ(ierr);
+
   PetscFunctionReturn(0);
 }
 
@@ -1003,9 +1054,6 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
   ierr = TDyAllocate_IntegerArray_1D(&ugrid->cell_num_vertices, ngmax); CHKERRQ(ierr);
   ierr = VecGetArray(*LocalOrderVec, &v_ptr); CHKERRQ(ierr);
 
-  // The previously allocated memoroy for ugrid->cell_vertices cannot be deallocated
-  // because the dimension for the memory was prior to mesh partition and after
-  // mesh partition the size of ugrid->cell_vertices is not known
   ierr = TDyAllocate_IntegerArray_2D(&ugrid->cell_vertices, ngmax, max_nvert); CHKERRQ(ierr);
 
   for (PetscInt icell=0; icell<ngmax; icell++) {
@@ -1185,6 +1233,11 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
 
   ierr = PackNatOrderVector(ugrid, DualMat, &NatOrderVec);
   ierr = MatDestroy(&DualMat); CHKERRQ(ierr);
+  ierr = ISDestroy(&NewCellRankIS); CHKERRQ(ierr);
+
+  // The vertices of the cells given to this process before partitioning are packed now
+  ierr = TDyDeallocate_IntegerArray_2D(ugrid->cell_vertices, ugrid->num_cells_local); CHKERRQ(ierr);
+  ugrid->cell_vertices = NULL;
 
   // Update the global offset
   ierr = MPI_Exscan(&NewNumCellsLocal, &(ugrid->global_offset), 1, MPI_INTEGER, MPI_SUM, PETSC_COMM_WORLD); CHKERRQ(ierr);
@@ -1192,6 +1245,7 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
   Vec PetscOrderVec;
   ierr = ScatterVecNatOrderToPetscOrder(stride, dual_offset, NewNumCellsLocal, &NatOrderVec, &NatToPetscIS, ugrid, &PetscOrderVec);
   ierr = ISDestroy(&NatToPetscIS); CHKERRQ(ierr);
+  ierr = VecDestroy(&NatOrderVec); CHKERRQ(ierr);
 
    Vec LocalOrderVec;
    ierr = ScatterVecPetscOrderToLocalOrder(stride, &PetscOrderVec, ugrid, &LocalOrderVec);
@@ -1200,7 +1254,7 @@ PetscErrorCode TDyUGridCreateFromPFLOTRANMesh(const char *mesh_file, TDyUGrid *u
    ierr = ScatterVertexNatOrderToLocalOrder(stride, vertex_ids_offset, ugrid, &LocalOrderVec);
    ierr = VecDestroy(&LocalOrderVec); CHKERRQ(ierr);
 
-  //ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
+  ierr = MatDestroy(&AdjMat); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 
diff --git a/src/tdydiscretization.c b/src/tdydiscretization.c
index b8bb90a..603f612 100644
--- a/src/tdydiscretization.c
+++ b/src/tdydiscretization.c
@@ -36,7 +36,7 @@ PetscErrorCode TDyDiscretizationDestroy(TDyDiscretizationType *discretization) {
   PetscErrorCode ierr;
 
   ierr = TDyDMDestroy(discretization->tdydm); CHKERRQ(ierr);
-  ierr = TDyFree(discretization->ugrid); CHKERRQ(ierr);
+  ierr = TDyUGridDestroy(discretization->ugrid); CHKERRQ(ierr);
   ierr = TDyFree(discretization); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 5621cbdb95b37b91f09669c9f486613416bdf5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 74/84] fix: TDyGetBoundaryFaces returned a freed array where
 the boundary is contiguous

---
 src/tdycore.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 7b37af0..0abbfc0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -481,14 +481,21 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
     ierr = DMPlexGetHeightStratum(dm, 1, &f_start, &f_end); CHKERRQ(ierr);
     ierr = ISGetSize(is, &num_points); CHKERRQ(ierr);
     ierr = ISGetIndices(is, &points); CHKERRQ(ierr);
+    PetscInt first = 0;
     for (PetscInt p = 0; p < num_points; ++p) {
       if ((points[p] >= f_start) && (points[p] < f_end)) {
-        if (!*faces) *faces = &points[p];
+        if (!*num_faces) first = p;
         ++(*num_faces);
       }
     }
+    if (*num_faces) {
+      PetscInt *face_ids;
+      ierr = PetscMalloc1(*num_faces, &face_ids); CHKERRQ(ierr);
+      ierr = PetscArraycpy(face_ids, &points[first], *num_faces); CHKERRQ(ierr);
+      *faces = face_ids;
+    }
     ierr = ISRestoreIndices(is, &points); CHKERRQ(ierr);
-    ierr = ISDestroy(&is); CHKERRQ(ierr); // the label holds on to it
+    ierr = ISDestroy(&is); CHKERRQ(ierr);
   }
   PetscFunctionReturn(0);
 }
@@ -499,8 +506,9 @@ PetscErrorCode TDyGetBoundaryFaces(TDy tdy, PetscInt *num_faces,
 PetscErrorCode TDyRestoreBoundaryFaces(TDy tdy, PetscInt *num_faces,
                                        const PetscInt** faces) {
   PetscFunctionBegin;
+  PetscErrorCode ierr;
+  ierr = PetscFree(*faces); CHKERRQ(ierr);
   *num_faces = 0;
-  *faces = NULL;
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From 6a3046c3d2d22ee0b6bb539539fce453c5d37cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 75/84] fix: the salinity mode chose the upstream side without
 gravity

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 36 +++++++++++++--------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index 62755b9..fe28c1a 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -151,7 +151,24 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
       cell_id_up = cell_ids[0];
       cell_id_dn = cell_ids[1];
 
-      if (TtimesP[irow] < 0.0) { // up ---> dn
+      PetscReal den_aveg = 0.0;
+      if (cell_id_up>=0) {
+        den_aveg += mpfao->rho[cell_id_up];
+      } else {
+        den_aveg += mpfao->rho_bnd[-cell_id_up-1];
+      }
+
+      if (cell_id_dn>=0) {
+        den_aveg += mpfao->rho[cell_id_dn];
+      } else {
+        den_aveg += mpfao->rho_bnd[-cell_id_dn-1];
+      }
+
+      den_aveg *= 0.5;
+
+      PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
+
+      if (TtimesP[irow] + den_aveg*G < 0.0) { // up ---> dn
                                  // Is the cell_id_up an internal or boundary cell?
         if (cell_id_up >= 0) {
           ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
@@ -170,23 +187,6 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
         }
       }
 
-      PetscReal den_aveg = 0.0;
-      if (cell_id_up>=0) {
-        den_aveg += mpfao->rho[cell_id_up];
-      } else {
-        den_aveg += mpfao->rho_bnd[-cell_id_up-1];
-      }
-
-      if (cell_id_dn>=0) {
-        den_aveg += mpfao->rho[cell_id_dn];
-      } else {
-        den_aveg += mpfao->rho_bnd[-cell_id_dn-1];
-      }
-
-      den_aveg *= 0.5;
-
-      PetscReal G = GravDis_ptr[face_id*num_subfaces + subface_id];
-
       flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-- 
2.43.0


From e70c95e0dab90595f45b20caea00f81f873683ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:29 +0000
Subject: [PATCH 76/84] fix: water of the salinity mode did not carry its salt

---
 src/fv/mpfao/tdympfao_snes_salinity.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_snes_salinity.c b/src/fv/mpfao/tdympfao_snes_salinity.c
index fe28c1a..fa20125 100644
--- a/src/fv/mpfao/tdympfao_snes_salinity.c
+++ b/src/fv/mpfao/tdympfao_snes_salinity.c
@@ -96,13 +96,13 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   TDyCell *cells = &mesh->cells;
   TDyFace *faces = &mesh->faces;
   TDyVertex *vertices = &mesh->vertices;
-  PetscReal *r;
+  PetscReal *r, *u;
   PetscInt ivertex;
   PetscInt dim;
   PetscInt irow;
   PetscInt cell_id_up, cell_id_dn;
   PetscInt npitf_bc, nflux_in;
-  PetscReal den,fluxm,ukvr,fluxt,flow_rate;
+  PetscReal den,fluxm,ukvr,fluxt,flow_rate,psi_up;
   PetscScalar *TtimesP_vec_ptr, *TtimesPsi_vec_ptr;
   PetscErrorCode ierr;
   PetscScalar *GravDis_ptr;
@@ -115,6 +115,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   ierr = DMGetDimension(dm,&dim); CHKERRQ(ierr);
 
   ierr = VecGetArray(R,&r); CHKERRQ(ierr);
+  ierr = VecGetArray(Ul,&u); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
   ierr = VecGetArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
@@ -172,29 +173,33 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
                                  // Is the cell_id_up an internal or boundary cell?
         if (cell_id_up >= 0) {
           ukvr = mpfao->Kr[cell_id_up]/mpfao->vis[cell_id_up]; //vis based on salinity
+          psi_up = u[cell_id_up*2+1];
         }
         else {
           ukvr = mpfao->Kr_bnd[-cell_id_up-1]/mpfao->vis_bnd[-cell_id_up-1];
+          psi_up = mpfao->Psi_bnd[-cell_id_up-1];
         }
       }
       else {
         // Is the cell_id_dn an internal or boundary cell?
         if (cell_id_dn >= 0) {
           ukvr = mpfao->Kr[cell_id_dn]/mpfao->vis[cell_id_dn];
+          psi_up = u[cell_id_dn*2+1];
         }
         else {
           ukvr = mpfao->Kr_bnd[-cell_id_dn-1]/mpfao->vis_bnd[-cell_id_dn-1];
+          psi_up = mpfao->Psi_bnd[-cell_id_dn-1];
         }
       }
 
       flow_rate = ukvr*(-TtimesP[irow]); // flow_rate is darcy flux times area
 
       fluxm = den_aveg*flow_rate;
-      fluxt = den_aveg*flow_rate;  //Advection term
+      fluxm += - pow(den_aveg,2.0) * ukvr * G;
+      fluxt = fluxm*psi_up;  //Advection term
 
       // Diffusion term in transport equation?
       fluxt += -den_aveg*TtimesPsi[irow];
-      fluxm += - pow(den_aveg,2.0) * ukvr * G;
 
       // fluxm > 0 implies flow is from 'up' to 'dn'
       if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -209,6 +214,7 @@ PetscErrorCode TDyMPFAOIFunction_Vertices_Salinity(Vec Ul, Vec R, void *ctx) {
   }
 
   ierr = VecRestoreArray(R,&r); CHKERRQ(ierr);
+  ierr = VecRestoreArray(Ul,&u); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesP_vec,&TtimesP_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->TtimesPsi_vec,&TtimesPsi_vec_ptr); CHKERRQ(ierr);
   ierr = VecRestoreArray(mpfao->GravDisVec, &GravDis_ptr); CHKERRQ(ierr);
-- 
2.43.0


From ebcf67f653be9026fc2485c32e5cc64bd844c28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:04 +0000
Subject: [PATCH 77/84] fix: salt did not diffuse between cells

---
 src/fv/mpfao/tdympfao.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fd100d0..c7f8d30 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -1822,6 +1822,8 @@ static PetscErrorCode ComputeTransmissibilityMatrix(TDyMPFAO *mpfao, DM dm) {
       ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 0); CHKERRQ(ierr);
       if (mpfao->Temp_subc_Gmatrix) { // TH
         ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 1); CHKERRQ(ierr);
+      } else if (mpfao->Psi_subc_Gmatrix) { // SALINITY
+        ierr = ComputeTransmissibilityMatrix_ForNonCornerVertex(mpfao, ivertex, cells, 2); CHKERRQ(ierr);
       }
     } else {
       // It is assumed that neumann boundary condition is a zero-flux boundary condition.
-- 
2.43.0


From 775facf6464df12a8e8bc187d074eadb9577e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:51 +0000
Subject: [PATCH 78/84] fix: out.xmf left out the second unknown

---
 src/tdyio.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tdyio.c b/src/tdyio.c
index 8cdcb56..5d7eb9f 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -561,6 +561,16 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
     ierr = VecGetBlockSize(U, &bs);CHKERRQ(ierr);
     numCell = numCell/bs;
     ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell);CHKERRQ(ierr);
+    if (vec_dm) {
+      // The other unknowns were written along with the first.
+      PetscInt num_fields;
+      ierr = PetscSectionGetNumFields(sec,&num_fields);CHKERRQ(ierr);
+      for (PetscInt f=1;f<num_fields;++f) {
+        const char *name;
+        ierr = PetscSectionGetFieldName(sec,f,&name);CHKERRQ(ierr);
+        ierr = TDyIOWriteXMFAttribute((char*)name,word,numCell);CHKERRQ(ierr);
+      }
+    }
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 3f4cff51ce891d146d5494b1cbea095476fb044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:47 +0000
Subject: [PATCH 79/84] fix: an integer function given from Fortran made the
 next functions overwrite the first

---
 src/f90-mod/tdycoremod.F90 | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d2637a7..08b3cbe 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -55,8 +55,10 @@ module tdycore
   character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
-  ! The ID of the most recently added spatial function
+  ! The IDs that the next spatial function and the next integer spatial function
+  ! will get
   integer(c_int) :: last_spatial_func_id_
+  integer(c_int) :: last_integer_spatial_func_id_
 
   interface
      subroutine TDyFinalize(ierr)
@@ -357,14 +359,14 @@ end subroutine
       last_spatial_func_id_ = 1
       id = 1
     else
-      do id = 1, last_spatial_func_id_
+      do id = 1, last_spatial_func_id_ - 1
         if (associated(spatial_funcs_(id)%f, func)) then
           exit
         end if
       end do
     end if
 
-    if (.not. associated(spatial_funcs_(id)%f, func)) then
+    if (id == last_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
       if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
         old_size = size(spatial_funcs_)
@@ -394,19 +396,19 @@ end subroutine
     if (.not. allocated(integer_spatial_funcs_)) then
       allocate(integer_spatial_funcs_(32))
       allocate(integer_spatial_func_names_(32))
-      last_spatial_func_id_ = 1
+      last_integer_spatial_func_id_ = 1
       id = 1
     else
-      do id = 1, last_spatial_func_id_
+      do id = 1, last_integer_spatial_func_id_ - 1
         if (associated(integer_spatial_funcs_(id)%f, func)) then
           exit
         end if
       end do
     end if
 
-    if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
+    if (id == last_integer_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
+      if (last_integer_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
         old_size = size(integer_spatial_funcs_)
         allocate(new_funcs_array(2*old_size))
         allocate(new_names_array(2*old_size))
@@ -416,9 +418,9 @@ end subroutine
         call move_alloc(new_names_array, integer_spatial_func_names_)
       end if
       elem%f => func
-      integer_spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+      integer_spatial_funcs_(last_integer_spatial_func_id_) = elem
+      id = last_integer_spatial_func_id_
+      last_integer_spatial_func_id_ = last_integer_spatial_func_id_ + 1
     end if
   end function
 
-- 
2.43.0


From c28f15c7c2feaf9add763fa0722d07cad5c08d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 80/84] fix: functions registered from Fortran under short
 names or several names were not found

---
 src/f90-mod/tdycoremod.F90 | 54 ++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 08b3cbe..e2c6e5c 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -13,7 +13,8 @@ module tdycore
 
   public
 
-  private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
+  private :: spatial_funcs_, registered_funcs_, num_registered_funcs_, last_spatial_func_id_, &
+             RegisteredFunction, &
              SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
@@ -52,9 +53,16 @@ module tdycore
   ! An array of Fortran TDySpatialFunctions and any associated names
   type(SpatialFunctionWrapper), dimension(:), allocatable :: spatial_funcs_
   type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: integer_spatial_funcs_
-  character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
+  ! The names under which TDySpatialFunctions have been registered, and their IDs
+  type :: RegisteredFunction
+    character(len=:), allocatable :: name
+    integer :: id
+  end type
+  type(RegisteredFunction), dimension(:), allocatable :: registered_funcs_
+  integer :: num_registered_funcs_ = 0
+
   ! The IDs that the next spatial function and the next integer spatial function
   ! will get
   integer(c_int) :: last_spatial_func_id_
@@ -350,12 +358,10 @@ end subroutine
     type(SpatialFunctionWrapper)  :: elem
     integer :: id
     type(SpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
-    character(len=32), dimension(:), allocatable :: new_names_array
     integer :: old_size
 
     if (.not. allocated(spatial_funcs_)) then
       allocate(spatial_funcs_(32))
-      allocate(spatial_func_names_(32))
       last_spatial_func_id_ = 1
       id = 1
     else
@@ -371,11 +377,8 @@ end subroutine
       if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
         old_size = size(spatial_funcs_)
         allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
         new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = spatial_func_names_(1:old_size)
         call move_alloc(new_funcs_array, spatial_funcs_)
-        call move_alloc(new_names_array, spatial_func_names_)
       end if
       elem%f => func
       spatial_funcs_(last_spatial_func_id_) = elem
@@ -428,11 +431,33 @@ end subroutine
     character(len=*), intent(in)           :: name
     procedure(TDySpatialFunction), pointer :: func
 
-    integer :: id
+    type(RegisteredFunction), dimension(:), allocatable :: new_array
+    procedure(TDySpatialFunction), pointer :: f
+    integer :: i
+
+    ! Find the name, or append it to the list.
+    if (.not. allocated(registered_funcs_)) then
+      allocate(registered_funcs_(32))
+    end if
+    do i = 1, num_registered_funcs_
+      if (registered_funcs_(i)%name == name) then
+        exit
+      end if
+    end do
+    if (i > num_registered_funcs_) then
+      if (i > size(registered_funcs_)) then ! need more room
+        allocate(new_array(2*size(registered_funcs_)))
+        new_array(1:num_registered_funcs_) = registered_funcs_(1:num_registered_funcs_)
+        call move_alloc(new_array, registered_funcs_)
+      end if
+      registered_funcs_(i)%name = name
+      num_registered_funcs_ = i
+    end if
 
-    ! Assign an ID to the function and set its name.
-    id = FindOrAppendSpatialFunction(func)
-    spatial_func_names_(id) = name
+    ! Associate the function with it. (Passing the dummy pointer func itself
+    ! hands over its address with gfortran.)
+    f => func
+    registered_funcs_(i)%id = FindOrAppendSpatialFunction(f)
   end subroutine
 
   function GetSpatialFunction(name) result(func)
@@ -442,9 +467,9 @@ end subroutine
     integer :: i
 
     func => null()
-    do i = 1, size(spatial_funcs_)
-      if (spatial_func_names_(i) == name(1:32)) then
-        func => spatial_funcs_(i)%f
+    do i = 1, num_registered_funcs_
+      if (registered_funcs_(i)%name == name) then
+        func => spatial_funcs_(registered_funcs_(i)%id)%f
       end if
     end do
   end function
@@ -468,6 +493,7 @@ end subroutine
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
+    ierr = 0
   end subroutine
 
   subroutine TDySetDMConstructor(tdy, dm_ctor, ierr)
-- 
2.43.0


From f26db72509960f38b266fe87f85aded43aee8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 81/84] fix: selecting a function that was never registered
 crashed in Fortran

---
 src/f90-mod/tdycoremod.F90 | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index e2c6e5c..3c084ad 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -520,6 +520,7 @@ end subroutine
   subroutine TDySelectPorosityFunction(tdy, name, ierr)
     use, intrinsic :: iso_c_binding
     use tdycoredef
+    use petscsysdef, only : PETSC_ERR_USER
     implicit none
     TDy :: tdy
     character(len=*), intent(in)   :: name
@@ -528,12 +529,17 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = PETSC_ERR_USER
+      return
+    end if
     call TDySetPorosityFunction(tdy, func, ierr)
   end subroutine
 
   subroutine TDySelectForcingFunction(tdy, name, ierr)
     use, intrinsic :: iso_c_binding
     use tdycoredef
+    use petscsysdef, only : PETSC_ERR_USER
     implicit none
     TDy :: tdy
     character(len=*), intent(in)   :: name
@@ -542,12 +548,17 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = PETSC_ERR_USER
+      return
+    end if
     call TDySetForcingFunction(tdy, func, ierr)
   end subroutine
 
   subroutine TDySelectEnergyForcingFunction(tdy, name, ierr)
     use, intrinsic :: iso_c_binding
     use tdycoredef
+    use petscsysdef, only : PETSC_ERR_USER
     implicit none
     TDy :: tdy
     character(len=*), intent(in)   :: name
@@ -556,12 +567,17 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = PETSC_ERR_USER
+      return
+    end if
     call TDySetEnergyForcingFunction(tdy, func, ierr)
   end subroutine
 
   subroutine TDySelectBoundaryPressureFunction(tdy, name, ierr)
     use, intrinsic :: iso_c_binding
     use tdycoredef
+    use petscsysdef, only : PETSC_ERR_USER
     implicit none
     TDy :: tdy
     character(len=*), intent(in)   :: name
@@ -570,12 +586,17 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = PETSC_ERR_USER
+      return
+    end if
     call TDySetBoundaryPressureFunction(tdy, func, ierr)
   end subroutine
 
   subroutine TDySelectBoundaryVelocityFunction(tdy, name, ierr)
     use, intrinsic :: iso_c_binding
     use tdycoredef
+    use petscsysdef, only : PETSC_ERR_USER
     implicit none
     TDy :: tdy
     character(len=*), intent(in)   :: name
@@ -584,6 +605,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = PETSC_ERR_USER
+      return
+    end if
     call TDySetBoundaryVelocityFunction(tdy, func, ierr)
   end subroutine
 
-- 
2.43.0


From 9da1f01d565640854d7aa6fe7b8ffac7f70e1851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 82/84] fix: the DM constructor of a Fortran program was shared
 by all dycores

---
 src/f90-mod/tdycoremod.F90 |  7 +++++--
 src/tdycore.c              | 20 ++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 3c084ad..b299c60 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -500,10 +500,12 @@ end subroutine
     use, intrinsic :: iso_c_binding
     use tdycoredef
     implicit none
-    TDy, target                 :: tdy
+    TDy                         :: tdy
     procedure(TDyDMConstructor) :: dm_ctor
     PetscErrorCode              :: ierr
 
+    type(c_ptr)                 :: p_tdy
+
     interface
       function SetDMConstructor(tdy, dm_ctor) bind(c, name="TDySetDMConstructorF90") result(ierr)
         use, intrinsic :: iso_c_binding
@@ -514,7 +516,8 @@ end subroutine
       end function
     end interface
 
-    ierr = SetDMConstructor(c_loc(tdy), c_funloc(dm_ctor))
+    p_tdy = transfer(tdy%v, p_tdy)
+    ierr = SetDMConstructor(p_tdy, c_funloc(dm_ctor))
   end subroutine
 
   subroutine TDySelectPorosityFunction(tdy, name, ierr)
diff --git a/src/tdycore.c b/src/tdycore.c
index 0abbfc0..d94b449 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -368,11 +368,19 @@ PetscErrorCode TDySetDMConstructor(TDy tdy, void* context,
 
 // This function is a wrapper used to eliminate the context pointer argument
 // from TDySetDMConstructor so the function can be called from Fortran.
-static void (*create_dm_f90_)(MPI_Fint*, DM*, PetscErrorCode*) = NULL;
-PetscErrorCode TDySetDMConstructorF90(TDy tdy,
-                                      void (*dm_func)(MPI_Fint*, DM*, PetscErrorCode*)) {
+typedef void (*F90DMConstructor)(MPI_Fint*, DM*, PetscErrorCode*);
+static PetscErrorCode CreateDMF90(MPI_Comm comm, void* context, DM* dm) {
+  PetscErrorCode ierr = 0;
   PetscFunctionBegin;
-  create_dm_f90_ = dm_func;
+  MPI_Fint comm_f = MPI_Comm_c2f(comm);
+  ((F90DMConstructor)context)(&comm_f, dm, &ierr); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
+PetscErrorCode TDySetDMConstructorF90(TDy tdy, F90DMConstructor dm_func) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  ierr = TDySetDMConstructor(tdy, (void*)dm_func, CreateDMF90); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -705,10 +713,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
         ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
-      } else if (create_dm_f90_) {
-        // Create a DM all-Fortran-like.
-        MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-- 
2.43.0


From 7e3cb89f67fc94e428e1c0135d2a57563953d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:38 +0000
Subject: [PATCH 83/84] fix: functions given from Fortran got too short an
 array of coordinates

---
 src/f90-mod/tdycoref.c     | 34 +++++++++++++++++++++++-----------
 src/f90-mod/tdycoremod.F90 | 12 +++++++-----
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/f90-mod/tdycoref.c b/src/f90-mod/tdycoref.c
index 5ac77a9..47ee049 100644
--- a/src/f90-mod/tdycoref.c
+++ b/src/f90-mod/tdycoref.c
@@ -273,11 +273,13 @@ typedef struct F90IntegerSpatialFunctionWrapper {
 
 // This subroutine is defined on the Fortran side and calls the Fortran-defined
 // spatial function with the given ID.
-extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscReal*,
-                                      PetscReal*, PetscErrorCode*);
+// Its second and third arguments are the numbers of coordinates of a point and
+// of components of the value.
+extern void TDyCallF90SpatialFunction(PetscInt, PetscInt, PetscInt, PetscInt,
+                                      PetscReal*, PetscReal*, PetscErrorCode*);
 
-extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscReal*,
-                                      PetscInt*, PetscErrorCode*);
+extern void TDyCallF90IntegerSpatialFunction(PetscInt, PetscInt, PetscInt,
+                                      PetscReal*, PetscInt*, PetscErrorCode*);
 
 // This creates a wrapped F90 function context.
 static PetscErrorCode CreateF90SpatialFunctionContext(PetscInt dim,
@@ -313,7 +315,17 @@ static PetscErrorCode WrappedF90SpatialFunction(void *context, PetscInt n,
   PetscErrorCode ierr;
   PetscFunctionBegin;
   F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90SpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, wrapper->dim, 1, n, x, f, &ierr); CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
+static PetscErrorCode WrappedF90TensorFunction(void *context, PetscInt n,
+                                               PetscReal *x, PetscReal *f) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  F90SpatialFunctionWrapper *wrapper = context;
+  PetscInt dim = wrapper->dim;
+  TDyCallF90SpatialFunction(wrapper->id, dim, dim*dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -321,8 +333,8 @@ static PetscErrorCode WrappedF90IntegerSpatialFunction(void *context, PetscInt n
                                                 PetscReal *x, PetscInt *f) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  F90SpatialFunctionWrapper *wrapper = context;
-  TDyCallF90IntegerSpatialFunction(wrapper->id, n, x, f, &ierr); CHKERRQ(ierr);
+  F90IntegerSpatialFunctionWrapper *wrapper = context;
+  TDyCallF90IntegerSpatialFunction(wrapper->id, wrapper->dim, n, x, f, &ierr); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -337,7 +349,7 @@ static PetscErrorCode WrappedF90IsotropicTensorFunction(void *context, PetscInt
   PetscInt dim2 = dim*dim;
   PetscReal values[n];
   memset(f, 0, n * dim2 * sizeof(PetscReal));
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, dim, 1, n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[i];
@@ -356,7 +368,7 @@ static PetscErrorCode WrappedF90DiagonalTensorFunction(void *context, PetscInt n
   PetscInt dim = wrapper->dim;
   PetscInt dim2 = dim*dim;
   PetscReal values[dim*n];
-  TDyCallF90SpatialFunction(wrapper->id, n, x, values, &ierr); CHKERRQ(ierr);
+  TDyCallF90SpatialFunction(wrapper->id, dim, dim, n, x, values, &ierr); CHKERRQ(ierr);
   for (PetscInt i = 0; i < n; ++i) {
     for(PetscInt j = 0; j < dim; ++j) {
       f[dim2*i+j*dim+j] = values[dim*i+j];
@@ -388,11 +400,11 @@ WRAP_MATPROP(TDySetPorosityFunctionF90, MaterialPropSetPorosity, WrappedF90Spati
 
 WRAP_MATPROP(TDySetIsotropicPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90IsotropicTensorFunction)
 WRAP_MATPROP(TDySetDiagonalPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90DiagonalTensorFunction)
-WRAP_MATPROP(TDySetTensorPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90SpatialFunction)
+WRAP_MATPROP(TDySetTensorPermeabilityFunctionF90, MaterialPropSetPermeability, WrappedF90TensorFunction)
 
 WRAP_MATPROP(TDySetIsotropicThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90IsotropicTensorFunction)
 WRAP_MATPROP(TDySetDiagonalThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90DiagonalTensorFunction)
-WRAP_MATPROP(TDySetTensorThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90SpatialFunction)
+WRAP_MATPROP(TDySetTensorThermalConductivityFunctionF90, MaterialPropSetThermalConductivity, WrappedF90TensorFunction)
 
 WRAP_MATPROP(TDySetResidualSaturationFunctionF90, MaterialPropSetResidualSaturation, WrappedF90SpatialFunction)
 WRAP_MATPROP(TDySetSoilDensityFunctionF90, MaterialPropSetSoilDensity, WrappedF90SpatialFunction)
diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index b299c60..4009c81 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -313,11 +313,12 @@ module tdycore
 
   ! This subroutine calls the TDySpatialFunction with the given id, supplying
   ! it with the given parameters.
-  subroutine TDyCallF90SpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90SpatialFunction(id, dim, num_comp, n, c_x, c_f, ierr) &
       bind(c, name="TDyCallF90SpatialFunction")
     use, intrinsic :: iso_c_binding
     implicit none
     integer(c_int), value, intent(in) :: id
+    integer(c_int), value, intent(in) :: dim, num_comp
     integer(c_int), value, intent(in) :: n
     type(c_ptr),    value, intent(in) :: c_x, c_f
     integer(c_int),       intent(out) :: ierr
@@ -326,16 +327,17 @@ module tdycore
     real(c_double), dimension(:), pointer  :: f_x, f_f
 
     f_func => spatial_funcs_(id)%f
-    call c_f_pointer(c_x, f_x, [n])
-    call c_f_pointer(c_f, f_f, [n])
+    call c_f_pointer(c_x, f_x, [dim*n])
+    call c_f_pointer(c_f, f_f, [num_comp*n])
     call f_func(n, f_x, f_f, ierr)
   end subroutine
 
-  subroutine TDyCallF90IntegerSpatialFunction(id, n, c_x, c_f, ierr) &
+  subroutine TDyCallF90IntegerSpatialFunction(id, dim, n, c_x, c_f, ierr) &
     bind(c, name="TDyCallF90IntegerSpatialFunction")
   use, intrinsic :: iso_c_binding
   implicit none
   integer(c_int), value, intent(in) :: id
+  integer(c_int), value, intent(in) :: dim
   integer(c_int), value, intent(in) :: n
   type(c_ptr),    value, intent(in) :: c_x, c_f
   integer(c_int),       intent(out) :: ierr
@@ -345,7 +347,7 @@ module tdycore
   integer(c_int), dimension(:), pointer ::  f_f
 
   f_func => integer_spatial_funcs_(id)%f
-  call c_f_pointer(c_x, f_x, [n])
+  call c_f_pointer(c_x, f_x, [dim*n])
   call c_f_pointer(c_f, f_f, [n])
   call f_func(n, f_x, f_f, ierr)
 end subroutine
-- 
2.43.0


From 6511a441874ca44d3b987fae8aeb7fd9061512b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:59 +0000
Subject: [PATCH 84/84] fix: PFLOTRAN meshes with impossible cells were
 accepted, or refused by one process only

---
 src/fv/share/tdyugrid.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index e392c0b..f2cc3fb 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -159,6 +159,14 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
   ierr = VecGetArray(cells, &v_p); CHKERRQ(ierr);
   PetscInt count=0;
 
+  // The vertices of a cell must exist and be as many as its type has. All
+  // processes must agree on whether this is so for all cells.
+  PetscInt num_verts_global;
+  ierr = VecGetSize(verts, &num_verts_global); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(verts, &blocksize); CHKERRQ(ierr);
+  num_verts_global /= blocksize;
+  PetscInt bad_cells[2] = {0, 0}, any_bad_cells[2]; // unknown types, wrong vertices
+
   MPI_Comm comm;
   ierr = PetscObjectGetComm((PetscObject)cells, &comm); CHKERRQ(ierr);
   for (PetscInt i=0; i<*num_cells_local; i++) {
@@ -173,13 +181,21 @@ static PetscErrorCode ReadPFLOTRANMeshFile(const char *mesh_file, TDyUGrid *ugri
       case 8:
         break;
       default:
-        SETERRQ(comm,PETSC_ERR_USER,"Unknown cell type");
+        bad_cells[0] = 1;
     }
+    PetscInt nfound = 0;
     for (PetscInt j=1; j<*max_verts_per_cell+1; j++) {
-      (*cell_vertices)[i][j-1] = (PetscInt) v_p[count++] - 1; // Converting PFLOTRAN's 1-based index to 0-based index
+      PetscInt vertex = (PetscInt) v_p[count++] - 1; // Converting PFLOTRAN's 1-based index to 0-based index
+      if (vertex >= num_verts_global) bad_cells[1] = 1;
+      if (vertex >= 0) nfound++;
+      (*cell_vertices)[i][j-1] = vertex;
     }
+    if (nfound != nvertex) bad_cells[1] = 1;
   }
   ierr = VecRestoreArray(cells, &v_p); CHKERRQ(ierr);
+  ierr = MPI_Allreduce(bad_cells, any_bad_cells, 2, MPIU_INT, MPI_MAX, comm); CHKERRQ(ierr);
+  if (any_bad_cells[0]) SETERRQ(comm,PETSC_ERR_USER,"Unknown cell type");
+  if (any_bad_cells[1]) SETERRQ(comm,PETSC_ERR_USER,"A cell has missing, surplus or non-existent vertices");
   ierr = VecDestroy(&cells); CHKERRQ(ierr);
 
   // Save information about vertices
-- 
2.43.0

