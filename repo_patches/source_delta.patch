From 963a7ba34eaaaeeab00fc807a0b6575352c14ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 01/57] fix: honour -tdy_dt_reduction_factor when a time step
 is cut

The option was read and documented but cuts always used 0.25.
---
 src/tdyti.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index c29f9ea..b102fd0 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -139,7 +139,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           ierr = SNESGetConvergedReason(ti->snes,&reason); CHKERRQ(ierr);
           if (reason < 0) {
             icut++;
-            ti->dt *= 0.25;
+            ti->dt *= ti->dt_reduction_factor;
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From aad51489397cf7b9d2d9d95d6e951dfef930baf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 02/57] fix: cutting a step shortened for the sync time must
 not jump the clock

TDyTimeIntegratorUpdateDT advanced the clock to the sync time although the
converged (cut) step covered only a part of the interval.
---
 src/tdyti.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index b102fd0..12181e5 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -140,6 +140,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           if (reason < 0) {
             icut++;
             ti->dt *= ti->dt_reduction_factor;
+            ti->dt_save = 0.; // the step no longer ends at the sync time
             ierr = TDySetDtimeForSNESSolver(tdy,ti->dt); CHKERRQ(ierr);
             PetscChar message[1000];
             sprintf(message,"-> Cut time step: snes=%d icut=%d time=%12.5e dt=%12.5e\n",reason,icut,ti->time,ti->dt);
-- 
2.43.0


From d1160a3def862b85f3c22609e77cb67c12ec2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 03/57] fix: TS runs after the first must reach their target
 time

TSSetMaxTime takes an absolute time, not the length of the run.
---
 src/tdyti.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 12181e5..2c8f6a6 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -183,9 +183,8 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
       break;
     case TDyTS:
       ti = tdy->ti;
-      PetscReal delta_time = sync_time - ti->time;
       ierr = TSSetTimeStep(ti->ts,ti->dt_init); CHKERRQ(ierr);
-      ierr = TSSetMaxTime(ti->ts,delta_time); CHKERRQ(ierr);
+      ierr = TSSetMaxTime(ti->ts,sync_time); CHKERRQ(ierr);
       ierr = TSSolve(ti->ts,tdy->soln); CHKERRQ(ierr);
       ierr = TSGetTime(ti->ts,&ti->time); CHKERRQ(ierr);
       ierr = TDyPostSolve(tdy, tdy->soln); CHKERRQ(ierr);
-- 
2.43.0


From 1037ff5097942c80f39e934b52584018a6a6d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:53 +0000
Subject: [PATCH 04/57] fix: write output for completed time steps only

After a failed nonlinear solve the output of the previous step was written
a second time.
---
 src/tdyti.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdyti.c b/src/tdyti.c
index 2c8f6a6..fca82ce 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -160,7 +160,7 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
           sprintf(message,"\nTime step %d: time = %f dt = %f ni = %d li = %d rsn = %s\n\n",
             ti->istep,ti->time,ti->dt,nit,lit, SNESConvergedReasons[reason]);
           ierr = PetscPrintf(PETSC_COMM_WORLD,message); CHKERRQ(ierr);
-          if (tdy->io->output_timestep_interval > 0) {
+          if (solver_converged && tdy->io->output_timestep_interval > 0) {
             if ((tdy->ti->istep)%(tdy->io->output_timestep_interval) == 0) {
               ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr);
             }
-- 
2.43.0


From bb390f0718bbe1570ba8aff687f97464e285bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 05/57] fix: release salinity source and boundary pressure type
 contexts with their conditions

---
 src/tdyconditions.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 0f3247c..62ea1a7 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -16,7 +16,9 @@ PetscErrorCode ConditionsDestroy(Conditions* conditions) {
   PetscFunctionBegin;
   ConditionsSetForcing(conditions, NULL, NULL, NULL);
   ConditionsSetEnergyForcing(conditions, NULL, NULL, NULL);
+  ConditionsSetSalinitySource(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryPressure(conditions, NULL, NULL, NULL);
+  ConditionsSetBoundaryPressureType(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryVelocity(conditions, NULL, NULL, NULL);
   ConditionsSetBoundaryTemperature(conditions, NULL, NULL, NULL);
   ConditionsSetBoundarySalineConcentration(conditions, NULL, NULL, NULL);
-- 
2.43.0


From 61e95772d408db296b47f33f544c8275b8b65bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 06/57] fix: define
 TDySelectBoundarySalineConcentrationFunction under its declared name

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index be5714e..0b05f2b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1445,8 +1445,8 @@ PetscErrorCode TDySelectBoundaryTemperatureFunction(TDy tdy,
   PetscFunctionReturn(0);
 }
 
-PetscErrorCode TDySelectBoundarySalineConcenctrationFunction(TDy tdy,
-                                                             const char *func_name) {
+PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy tdy,
+                                                            const char *func_name) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
   TDySpatialFunction f;
-- 
2.43.0


From 21b1a88adb139e57d32c2fa3182cc65ea8a966d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 07/57] fix: -tdy_thermal_conductivity sets the thermal
 conductivity, not the porosity

---
 src/tdycore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 0b05f2b..06eb8ec 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -529,7 +529,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   ierr = PetscOptionsReal("-tdy_permability", "Value of permeability", NULL, options->permeability, &options->permeability, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_density", "Value of soil density", NULL, options->soil_density, &options->soil_density, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_soil_specific_heat", "Value of soil specific heat", NULL, options->soil_specific_heat, &options->soil_specific_heat, NULL); CHKERRQ(ierr);
-  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->porosity, &options->porosity, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsReal("-tdy_thermal_conductivity", "Value of thermal conductivity", NULL, options->thermal_conductivity, &options->thermal_conductivity, NULL); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Characteristic curve options
-- 
2.43.0


From e2f05c04e2a2820c6be6c0666f8913e25937cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 08/57] fix: the driver keeps a saline molecular weight that
 has been set

---
 src/tdydriver.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index ff4ba1e..d4c14af 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -80,8 +80,10 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
           tdy->options.soil_specific_heat); CHKERRQ(ierr);
     }
   } else if (tdy->options.mode == SALINITY) {
-    ierr = TDySetConstantSalineMolecularWeight(tdy,
-      tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    if (!MaterialPropHasSalineMolecularWeight(tdy->matprop)) {
+      ierr = TDySetConstantSalineMolecularWeight(tdy,
+        tdy->options.saline_molecular_weight);CHKERRQ(ierr);
+    }
     if (!MaterialPropHasSalineDiffusivity(tdy->matprop)) {
       ierr = TDySetConstantIsotropicSalineDiffusivity(tdy,
         tdy->options.saline_diffusivity);CHKERRQ(ierr);
-- 
2.43.0


From 3a2dfb35aff76fe6722ed045cd53f642f3772d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 09/57] fix: the function registry owns its names and can be
 rebuilt after TDyFinalize

---
 src/tdycore.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 06eb8ec..fcdb0d9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -211,7 +211,11 @@ static khash_t(TDY_FUNC_MAP)* funcs_ = NULL;
 
 // This function is called on finalization to destroy the function registry.
 static void DestroyFunctionRegistry() {
+  for (khiter_t iter = kh_begin(funcs_); iter != kh_end(funcs_); ++iter) {
+    if (kh_exist(funcs_, iter)) TDyFree((char*)kh_key(funcs_, iter));
+  }
   kh_destroy(TDY_FUNC_MAP, funcs_);
+  funcs_ = NULL;
 }
 
 /// Registers a named function that evaluates a scalar quantity on a set of
@@ -229,6 +233,11 @@ PetscErrorCode TDyRegisterFunction(const char* name, TDySpatialFunction f) {
 
   int retval;
   khiter_t iter = kh_put(TDY_FUNC_MAP, funcs_, name, &retval);
+  if (retval > 0) { // new entry: the registry keeps its own copy of the name
+    char *key;
+    PetscErrorCode ierr = PetscStrallocpy(name, &key); CHKERRQ(ierr);
+    kh_key(funcs_, iter) = key;
+  }
   kh_val(funcs_, iter) = f;
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From f2acbec883e096da10b8e21f3116ab646b3457cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 10/57] fix: TDyFinalize forgets the shutdown functions it has
 called

---
 src/tdycore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index fcdb0d9..53a9ee9 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -195,6 +195,9 @@ PetscErrorCode TDyFinalize() {
       shutdown_funcs_[i]();
     }
     TDyFree(shutdown_funcs_);
+    shutdown_funcs_ = NULL;
+    num_shutdown_funcs_ = 0;
+    shutdown_funcs_cap_ = 0;
   }
 
   // Finalize PETSc.
-- 
2.43.0


From 9e214c859754e727ef138a71b689ee49c1cb927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 11/57] fix: timers and profiling stages do not survive
 TDyFinalize

---
 src/tdytimers.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index bf6a0e7..5b1b8dc 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -165,13 +165,17 @@ void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
+    TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
+    TDY_PROFILING_STAGES = NULL;
   }
-  TimingMetadata* val;
-  kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
   if (TDY_PROFILING_METADATA != NULL) {
+    TimingMetadata* val;
+    kh_foreach_value(TDY_PROFILING_METADATA, val, PetscFree(val));
     kh_destroy(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA);
+    TDY_PROFILING_METADATA = NULL;
   }
+  timersEnabled_ = PETSC_FALSE;
 }
-- 
2.43.0


From 60765e0b3c6325e49d3e97e04c1ae7f38883e85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 12/57] fix: writing a timing profile without metadata must not
 run off the table

---
 src/tdytimers.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 5b1b8dc..043de78 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -129,7 +129,8 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 
     // Fetch the metadata for the first TDy instance.
     khiter_t md_iter = kh_begin(TDY_PROFILING_METADATA);
-    while (!kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
+    while (md_iter != kh_end(TDY_PROFILING_METADATA) &&
+           !kh_exist(TDY_PROFILING_METADATA, md_iter)) ++md_iter;
     if (md_iter == kh_end(TDY_PROFILING_METADATA)) {
       // No metadata was recorded. We're finished.
       return 0;
-- 
2.43.0


From 239e3acce4b5546250e86f825ba7e0527294841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:57 +0000
Subject: [PATCH 13/57] fix: a dycore can be destroyed at any point before its
 setup

TDyDestroy called the discretization's destructor before the discretization
had a context, and the MPFA-O destructor dereferenced the mesh that only
TDySetup creates.
---
 src/fv/mpfao/tdympfao.c | 2 +-
 src/tdycore.c           | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index fcd24f1..c665cdc 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -564,7 +564,7 @@ PetscErrorCode TDyDestroy_MPFAO(void *context) {
     ierr = TDyFree(mpfao->mu_saline); CHKERRQ(ierr);
   }
 
-  ierr = TDyMeshDestroy(mpfao->mesh);
+  if (mpfao->mesh) { ierr = TDyMeshDestroy(mpfao->mesh); CHKERRQ(ierr); }
 
   TDyFree(mpfao);
 
diff --git a/src/tdycore.c b/src/tdycore.c
index 53a9ee9..f767456 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -394,9 +394,10 @@ PetscErrorCode TDyDestroy(TDy *_tdy) {
   if (tdy->J           ) { ierr = MatDestroy(&tdy->J   ); CHKERRQ(ierr); }
   if (tdy->Jpre        ) { ierr = MatDestroy(&tdy->Jpre); CHKERRQ(ierr); }
 
-  // Call implementation-specific destructor.
-  if (tdy->ops->destroy) {
-    tdy->ops->destroy(tdy->context);
+  // Call implementation-specific destructor (the context is created by
+  // TDySetFromOptions).
+  if (tdy->ops->destroy && tdy->context) {
+    ierr = tdy->ops->destroy(tdy->context); CHKERRQ(ierr);
   }
 
   // Clean up diagnostics.
-- 
2.43.0


From 2e97160d9cd61713da50a82b66845726682007fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 14/57] fix: an unsupported mode/discretization pair leaves the
 dycore as it was

TDySetMode kept the new mode when the discretization did not support it, and
errors about the pair given on the command line were ignored (and the pair was
applied one half at a time), so TDySetFromOptions went on with function
pointers of another discretization or none. TDySetFromOptions without any
discretization is an error now, and it reports its step as done only when it is.
---
 src/tdycore.c | 55 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index f767456..a87568e 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -509,6 +509,25 @@ PetscErrorCode TDyView(TDy tdy,PetscViewer viewer) {
   PetscFunctionReturn(0);
 }
 
+// Sets the mode and the discretization together. If the pair is not supported,
+// both are left as they were.
+static PetscErrorCode SetModeAndDiscretization(TDy tdy, TDyMode mode,
+                                               TDyDiscretization discretization) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+  TDyMode old_mode = tdy->options.mode;
+  TDySetupFlags old_flags = tdy->setup_flags;
+  tdy->options.mode = mode;
+  tdy->setup_flags |= TDyModeSet;
+  ierr = TDySetDiscretization(tdy, discretization);
+  if (ierr) {
+    tdy->options.mode = old_mode;
+    tdy->setup_flags = old_flags;
+  }
+  CHKERRQ(ierr);
+  PetscFunctionReturn(0);
+}
+
 /// Reads command line options specified by the user
 ///
 /// @param [inout] tdy A TDy struct
@@ -531,7 +550,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   PetscValidHeaderSpecific(tdy,TDY_CLASSID,1);
   PetscObjectOptionsBegin((PetscObject)tdy);
-  PetscBool flag;
+  PetscBool flag, mode_given, discretization_given;
 
   TDyMode mode = options->mode;
   TDyDiscretization discretization = options->discretization;
@@ -555,7 +574,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   // Model options
   PetscOptionsBegin(comm,NULL,"TDyCore: Model options","");
-  ierr = PetscOptionsEnum("-tdy_mode","Flow mode", "TDySetMode",TDyModes,(PetscEnum)options->mode, (PetscEnum *)&mode, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsEnum("-tdy_mode","Flow mode", "TDySetMode",TDyModes,(PetscEnum)options->mode, (PetscEnum *)&mode, &mode_given); CHKERRQ(ierr);
   ierr = PetscOptionsReal("-tdy_gravity", "Magnitude of gravity vector", NULL, options->gravity_constant, &options->gravity_constant, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsEnum("-tdy_water_density","Water density vertical profile", "TDySetWaterDensityType", TDyWaterDensityTypes, (PetscEnum)options->rho_type, (PetscEnum *)&options->rho_type, NULL); CHKERRQ(ierr);
   ierr = PetscOptionsEnum("-tdy_water_viscosity","Water viscosity model", "TDySetWaterViscosityType", TDyWaterViscosityTypes, (PetscEnum)options->mu_type, (PetscEnum *)&options->mu_type, NULL); CHKERRQ(ierr);
@@ -601,15 +620,18 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   // Numerics options
   PetscOptionsBegin(comm,NULL,"TDyCore: Numerics options","");
-  ierr = PetscOptionsEnum("-tdy_discretization","Discretization", "TDySetDiscretization",TDyDiscretizations, (PetscEnum)options->discretization,(PetscEnum *)&discretization, NULL); CHKERRQ(ierr);
+  ierr = PetscOptionsEnum("-tdy_discretization","Discretization", "TDySetDiscretization",TDyDiscretizations, (PetscEnum)options->discretization,(PetscEnum *)&discretization, &discretization_given); CHKERRQ(ierr);
   PetscOptionsEnd();
 
   // Override the mode and/or discretization if needed.
-  if (options->mode != mode) {
-    TDySetMode(tdy, mode);
+  if (mode_given && (discretization_given || (tdy->setup_flags & TDyDiscretizationSet))) {
+    ierr = SetModeAndDiscretization(tdy, mode, discretization); CHKERRQ(ierr);
+  } else if (discretization_given) {
+    ierr = TDySetDiscretization(tdy, discretization); CHKERRQ(ierr);
   }
-  if (options->discretization != discretization) {
-    TDySetDiscretization(tdy, discretization);
+  if ((tdy->setup_flags & TDyDiscretizationSet) == 0) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetMode and TDySetDiscretization (or use -tdy_mode and -tdy_discretization) before TDySetFromOptions()");
   }
 
   ierr = PetscOptionsBool("-tdy_init_with_random_field","Initialize solution with a random field","",options->init_with_random_field,&(options->init_with_random_field),NULL); CHKERRQ(ierr);
@@ -662,9 +684,6 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     ierr = tdy->ops->set_from_options(tdy->context, &tdy->options); CHKERRQ(ierr);
   }
 
-  // Wrap up and indicate that options are set.
-  tdy->setup_flags |= TDyOptionsSet;
-
   // Create our DM.
   if (tdy->options.read_pflotran_mesh) {
     PetscInt ndof = tdy->ops->get_num_dm_fields(tdy->context);
@@ -677,11 +696,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
     } else {
       if (tdy->ops->create_dm) {
         // We've been instructed to create a DM ourselves.
-        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm);
+        ierr = tdy->ops->create_dm(comm, tdy->create_dm_context, &dm); CHKERRQ(ierr);
       } else if (create_dm_f90_) {
         // Create a DM all-Fortran-like.
         MPI_Fint comm_f = MPI_Comm_c2f(comm);
-        create_dm_f90_(&comm_f, &dm, &ierr);
+        create_dm_f90_(&comm_f, &dm, &ierr); CHKERRQ(ierr);
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
@@ -726,6 +745,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   // Create characteristic curves.
   ierr = CharacteristicCurvesCreate(&tdy->cc); CHKERRQ(ierr);
 
+  // Wrap up and indicate that options are set.
+  tdy->setup_flags |= TDyOptionsSet;
+
   PetscFunctionReturn(0);
 }
 
@@ -826,13 +848,14 @@ PetscErrorCode TDySetup(TDy tdy) {
 PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
-  tdy->options.mode = mode;
-  tdy->setup_flags |= TDyModeSet;
 
   // If we are resetting the mode and have already set the discretization,
-  // we call TDySetDiscretization again.
+  // the discretization must be set again for the new mode.
   if (tdy->setup_flags & TDyDiscretizationSet) {
-    PetscInt ierr = TDySetDiscretization(tdy, tdy->options.discretization); CHKERRQ(ierr);
+    PetscErrorCode ierr = SetModeAndDiscretization(tdy, mode, tdy->options.discretization); CHKERRQ(ierr);
+  } else {
+    tdy->options.mode = mode;
+    tdy->setup_flags |= TDyModeSet;
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 76e09f6e53ca0ae5d3e6b914c9570ba3d07a2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 15/57] fix: the TH mode tells a PFLOTRAN mesh how many fields
 it has

---
 include/private/tdympfaoimpl.h | 1 +
 src/tdycore.c                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/private/tdympfaoimpl.h b/include/private/tdympfaoimpl.h
index e0d44c5..7cd77bb 100644
--- a/include/private/tdympfaoimpl.h
+++ b/include/private/tdympfaoimpl.h
@@ -131,6 +131,7 @@ PETSC_INTERN PetscErrorCode TDyGetNumDMFields_Richards_MPFAO_DAE(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_Richards_MPFAO_DAE(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_Richards_MPFAO_DAE(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 
+PETSC_INTERN PetscErrorCode TDyGetNumDMFields_TH_MPFAO(void*);
 PETSC_INTERN PetscErrorCode TDySetDMFields_TH_MPFAO(void*, DM);
 PETSC_INTERN PetscErrorCode TDySetup_TH_MPFAO(void*, TDyDiscretizationType*, EOS*, MaterialProp*, CharacteristicCurves*, Conditions*);
 PETSC_INTERN PetscErrorCode TDyUpdateState_TH_MPFAO(void*, DM, EOS*, MaterialProp*, CharacteristicCurves*, PetscInt, PetscReal*);
diff --git a/src/tdycore.c b/src/tdycore.c
index a87568e..c84191b 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -942,6 +942,7 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       tdy->ops->create = TDyCreate_MPFAO;
       tdy->ops->destroy = TDyDestroy_MPFAO;
       tdy->ops->set_from_options = TDySetFromOptions_MPFAO;
+      tdy->ops->get_num_dm_fields = TDyGetNumDMFields_TH_MPFAO;
       tdy->ops->set_dm_fields = TDySetDMFields_TH_MPFAO;
       tdy->ops->setup = TDySetup_TH_MPFAO;
       tdy->ops->update_state = TDyUpdateState_TH_MPFAO;
-- 
2.43.0


From 3266fa5f854ec526f44c6e836b93bfe339e1b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 16/57] fix: an unknown function name given by option is an
 error for pressure and velocity too

---
 src/tdycore.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index c84191b..c7cdbb0 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -586,7 +586,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
   char func_name[PETSC_MAX_PATH_LEN];
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_pressure_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryPressureFunction(tdy, func_name);
+    ierr = TDySelectBoundaryPressureFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_pressure_bc_value", "Constant boundary pressure", NULL, options->boundary_pressure, &options->boundary_pressure,&flag); CHKERRQ(ierr);
     if (flag) {
@@ -597,7 +597,7 @@ static PetscErrorCode ReadCommandLineOptions(TDy tdy) {
 
   ierr = PetscOptionsGetString(NULL, NULL, "-tdy_velocity_bc_func", func_name, sizeof(func_name), &flag); CHKERRQ(ierr);
   if (flag) {
-    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name);
+    ierr = TDySelectBoundaryVelocityFunction(tdy, func_name); CHKERRQ(ierr);
   } else {
     ierr = PetscOptionsReal("-tdy_velocity_bc_value", "Constant normal boundary velocity", NULL, options->boundary_velocity, &options->boundary_velocity,&flag); CHKERRQ(ierr);
     if (flag) {
-- 
2.43.0


From 2bc277b5b09df7dab24c2193b7a3c1f3604c19f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 17/57] fix: setting a property or condition before
 TDySetFromOptions is an error, not a crash

---
 src/materials/tdymaterialproperties.c | 22 ++++++++++++++++++++++
 src/tdyconditions.c                   |  8 ++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/materials/tdymaterialproperties.c b/src/materials/tdymaterialproperties.c
index 85f8451..d85d035 100644
--- a/src/materials/tdymaterialproperties.c
+++ b/src/materials/tdymaterialproperties.c
@@ -4,6 +4,12 @@
 #include <tdytimers.h>
 #include <private/tdyoptions.h>
 
+// Material properties exist only after TDySetFromOptions.
+#define CheckMaterialProp(matprop) \
+  do { \
+    if (!(matprop)) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Material properties must be set after TDySetFromOptions()"); \
+  } while (0)
+
 /// Creates a new MaterialProp instance without any functions assigned for
 /// computing its properties.
 /// @param [in] dim The spatial dimension of the domain associated with the
@@ -46,6 +52,7 @@ PetscErrorCode MaterialPropSetPermeability(MaterialProp *matprop, void *context,
                                            PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                            PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->permeability_context && matprop->permeability_dtor)
     matprop->permeability_dtor(matprop->permeability_context);
   matprop->permeability_context = context;
@@ -63,6 +70,7 @@ PetscErrorCode MaterialPropSetPorosity(MaterialProp *matprop, void *context,
                                        PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                        PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->porosity_context && matprop->porosity_dtor)
     matprop->porosity_dtor(matprop->porosity_context);
   matprop->porosity_context = context;
@@ -80,6 +88,7 @@ PetscErrorCode MaterialPropSetThermalConductivity(MaterialProp *matprop, void *c
                                                   PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                   PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->thermal_conductivity_context && matprop->thermal_conductivity_dtor)
     matprop->thermal_conductivity_dtor(matprop->thermal_conductivity_context);
   matprop->thermal_conductivity_context = context;
@@ -97,6 +106,7 @@ PetscErrorCode MaterialPropSetResidualSaturation(MaterialProp *matprop, void *co
                                                  PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                  PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->residual_saturation_context && matprop->residual_saturation_dtor)
     matprop->residual_saturation_dtor(matprop->residual_saturation_context);
   matprop->residual_saturation_context = context;
@@ -114,6 +124,7 @@ PetscErrorCode MaterialPropSetSoilDensity(MaterialProp *matprop, void *context,
                                           PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                           PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->soil_density_context && matprop->soil_density_dtor)
     matprop->soil_density_dtor(matprop->soil_density_context);
   matprop->soil_density_context = context;
@@ -131,6 +142,7 @@ PetscErrorCode MaterialPropSetSoilSpecificHeat(MaterialProp *matprop, void *cont
                                                PetscErrorCode(*f)(void*,int,PetscReal*,PetscReal*),
                                                PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->soil_specific_heat_context && matprop->soil_specific_heat_dtor)
     matprop->soil_specific_heat_dtor(matprop->soil_specific_heat_context);
   matprop->soil_specific_heat_context = context;
@@ -148,6 +160,7 @@ PetscErrorCode MaterialPropSetSalineDiffusivity(MaterialProp *matprop, void *con
                                                 PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                 PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->saline_diffusivity_context && matprop->saline_diffusivity_dtor)
     matprop->saline_diffusivity_dtor(matprop->saline_diffusivity_context);
   matprop->saline_diffusivity_context = context;
@@ -165,6 +178,7 @@ PetscErrorCode MaterialPropSetSalineMolecularWeight(MaterialProp *matprop, void
                                                     PetscErrorCode(*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                     PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  CheckMaterialProp(matprop);
   if (matprop->saline_molecular_weight_context && matprop->saline_molecular_weight_dtor)
     matprop->saline_molecular_weight_dtor(matprop->saline_molecular_weight_context);
   matprop->saline_molecular_weight_context = context;
@@ -545,6 +559,7 @@ PetscErrorCode MaterialPropSetConstant##CapCamelName(MaterialProp *matprop, \
                                                      PetscReal scalar) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   PetscReal value[9]; \
@@ -562,6 +577,7 @@ PetscErrorCode MaterialPropSetHeterogeneous##CapCamelName(MaterialProp *matprop,
                                                           TDyScalarSpatialFunction f) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   ierr = CreateSpatialContext(matprop->dim, f, &context); CHKERRQ(ierr); \
@@ -577,6 +593,7 @@ PetscErrorCode MaterialPropSetConstantIsotropic##CapCamelName(MaterialProp *matp
                                                               PetscReal tensor) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   PetscReal value[9]; \
@@ -594,6 +611,7 @@ PetscErrorCode MaterialPropSetHeterogeneousIsotropic##CapCamelName(MaterialProp
                                                                    TDyScalarSpatialFunction f) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   ierr = CreateSpatialContext(matprop->dim, f, &context); CHKERRQ(ierr); \
@@ -609,6 +627,7 @@ PetscErrorCode MaterialPropSetConstantDiagonal##CapCamelName(MaterialProp *matpr
                                                              PetscReal tensor[3]) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   PetscReal value[9]; \
@@ -626,6 +645,7 @@ PetscErrorCode MaterialPropSetHeterogeneousDiagonal##CapCamelName(MaterialProp *
                                                                   TDyVectorSpatialFunction f) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   ierr = CreateSpatialContext(matprop->dim, f, &context); CHKERRQ(ierr); \
@@ -641,6 +661,7 @@ PetscErrorCode MaterialPropSetConstantTensor##CapCamelName(MaterialProp *matprop
                                                            PetscReal tensor[9]) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   ierr = CreateConstantContext(matprop->dim, tensor, &context); CHKERRQ(ierr); \
@@ -656,6 +677,7 @@ PetscErrorCode MaterialPropSetHeterogeneousTensor##CapCamelName(MaterialProp *ma
                                                                 TDyTensorSpatialFunction f) { \
   PetscErrorCode ierr; \
   PetscFunctionBegin; \
+  CheckMaterialProp(matprop); \
 \
   void *context; \
   ierr = CreateSpatialContext(matprop->dim, f, &context); CHKERRQ(ierr); \
diff --git a/src/tdyconditions.c b/src/tdyconditions.c
index 62ea1a7..c03dad0 100644
--- a/src/tdyconditions.c
+++ b/src/tdyconditions.c
@@ -35,6 +35,7 @@ PetscErrorCode ConditionsSetForcing(Conditions *conditions, void *context,
                                     PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                     PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->forcing_context && conditions->forcing_dtor)
     conditions->forcing_dtor(conditions->forcing_context);
   conditions->forcing_context = context;
@@ -52,6 +53,7 @@ PetscErrorCode ConditionsSetEnergyForcing(Conditions *conditions, void *context,
                                           PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                           PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->energy_forcing_context && conditions->energy_forcing_dtor)
     conditions->energy_forcing_dtor(conditions->energy_forcing_context);
   conditions->energy_forcing_context = context;
@@ -69,6 +71,7 @@ PetscErrorCode ConditionsSetSalinitySource(Conditions *conditions, void *context
                                            PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                            PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->salinity_source_context && conditions->salinity_source_dtor)
     conditions->salinity_source_dtor(conditions->salinity_source_context);
   conditions->salinity_source_context = context;
@@ -86,6 +89,7 @@ PetscErrorCode ConditionsSetBoundaryPressure(Conditions *conditions, void *conte
                                              PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                              PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->boundary_pressure_context && conditions->boundary_pressure_dtor)
     conditions->boundary_pressure_dtor(conditions->boundary_pressure_context);
   conditions->boundary_pressure_context = context;
@@ -103,6 +107,7 @@ PetscErrorCode ConditionsSetBoundaryPressureType(Conditions *conditions, void *c
                                                  PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscInt*),
                                                  PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->boundary_pressure_type_context && conditions->boundary_pressure_type_dtor)
     conditions->boundary_pressure_type_dtor(conditions->boundary_pressure_type_context);
   conditions->boundary_pressure_type_context = context;
@@ -121,6 +126,7 @@ PetscErrorCode ConditionsSetBoundaryVelocity(Conditions *conditions,
                                              PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                              PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->boundary_velocity_context && conditions->boundary_velocity_dtor)
     conditions->boundary_velocity_dtor(conditions->boundary_velocity_context);
   conditions->boundary_velocity_context = context;
@@ -139,6 +145,7 @@ PetscErrorCode ConditionsSetBoundaryTemperature(Conditions *conditions,
                                                 PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                 PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->boundary_temperature_context && conditions->boundary_temperature_dtor)
     conditions->boundary_temperature_dtor(conditions->boundary_temperature_context);
   conditions->boundary_temperature_context = context;
@@ -157,6 +164,7 @@ PetscErrorCode ConditionsSetBoundarySalineConcentration(Conditions *conditions,
                                                         PetscErrorCode (*f)(void*,PetscInt,PetscReal*,PetscReal*),
                                                         PetscErrorCode (*dtor)(void*)) {
   PetscFunctionBegin;
+  if (!conditions) SETERRQ(PETSC_COMM_SELF,PETSC_ERR_USER,"Conditions must be set after TDySetFromOptions()");
   if (conditions->boundary_saline_conc_context && conditions->boundary_saline_conc_dtor)
     conditions->boundary_saline_conc_dtor(conditions->boundary_saline_conc_context);
   conditions->boundary_saline_conc_context = context;
-- 
2.43.0


From fc4ceae5cb943c95e0ce86b0d759a9d88e9cb071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 18/57] fix: timing metadata follow the dycore they describe,
 for every discretization

---
 src/tdytimers.c | 47 +++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/tdytimers.c b/src/tdytimers.c
index 043de78..132f23f 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -1,7 +1,6 @@
 #include <tdytimers.h>
 #include <private/tdycoreimpl.h>
-#include <private/tdympfaoimpl.h>
-#include <private/tdymeshimpl.h>
+#include <private/tdydiscretizationimpl.h>
 
 // Timers registry (maps timer names to PetscLogEvents).
 khash_t(TDY_TIMER_MAP)* TDY_TIMERS = NULL;
@@ -78,6 +77,30 @@ PetscErrorCode TDyAddProfilingStage(const char* name) {
   return 0;
 }
 
+// Counts the cells owned by this process.
+static PetscErrorCode GetNumOwnedCells(TDy tdy, int *num_cells) {
+  PetscErrorCode ierr;
+
+  *num_cells = 0;
+  TDyDM *tdydm = tdy->discretization->tdydm;
+  if (tdydm->dmtype == TDYCORE_DM_TYPE) {
+    *num_cells = tdy->discretization->ugrid->num_cells_local;
+  } else if (tdydm->dm) {
+    PetscInt cStart, cEnd, num_leaves;
+    const PetscInt *leaves;
+    PetscSF sf;
+    ierr = DMPlexGetHeightStratum(tdydm->dm,0,&cStart,&cEnd); CHKERRQ(ierr);
+    ierr = DMGetPointSF(tdydm->dm, &sf); CHKERRQ(ierr);
+    ierr = PetscSFGetGraph(sf, NULL, &num_leaves, &leaves, NULL); CHKERRQ(ierr);
+    *num_cells = cEnd - cStart;
+    for (PetscInt i = 0; i < num_leaves; ++i) { // leave out ghost cells
+      PetscInt point = leaves ? leaves[i] : i;
+      if ((point >= cStart) && (point < cEnd)) --(*num_cells);
+    }
+  }
+  return 0;
+}
+
 PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 
   PetscErrorCode ierr;
@@ -88,25 +111,17 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
     khint64_t tdy_addr = (khint64_t)tdy;
     khiter_t iter = kh_get(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr);
     TimingMetadata* md;
-    PetscNew(&md);
     if (iter == kh_end(TDY_PROFILING_METADATA)) {
+      ierr = PetscNew(&md); CHKERRQ(ierr);
       int retval;
       iter = kh_put(TDY_PROFILING_MD_MAP, TDY_PROFILING_METADATA, tdy_addr, &retval);
       kh_val(TDY_PROFILING_METADATA, iter) = md;
+    } else {
+      md = kh_val(TDY_PROFILING_METADATA, iter);
     }
     md->mode = tdy->options.mode;
     md->discretization = tdy->options.discretization;
-    TDyMPFAO *mpfao = tdy->context;
-    TDyMesh *mesh = mpfao->mesh;
-    DM dm;
-    ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-    if (dm != NULL) {
-      PetscInt cStart, cEnd;
-      DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);
-      md->num_cells = mesh->num_cells_local;
-    } else {
-      md->num_cells = 0;
-    }
+    ierr = GetNumOwnedCells(tdy, &md->num_cells); CHKERRQ(ierr);
     MPI_Comm_size(PETSC_COMM_WORLD, &(md->num_proc));
   }
   return 0;
@@ -115,7 +130,7 @@ PetscErrorCode TDySetTimingMetadata(TDy tdy) {
 PetscErrorCode TDyWriteTimingProfile(const char* filename) {
   if (timersEnabled_) {
     PetscViewer log;
-    PetscViewerASCIIOpen(PETSC_COMM_WORLD, "tdycore_profile.csv", &log);
+    PetscViewerASCIIOpen(PETSC_COMM_WORLD, filename, &log);
     PetscViewerFormat format = PETSC_VIEWER_ASCII_CSV;
     PetscViewerPushFormat(log, format);
     PetscLogView(log);
@@ -148,7 +163,7 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
                  0, PETSC_COMM_WORLD);
       const char* mode_name = TDyModes[md->mode];
       const char* disc_name = TDyDiscretizations[md->discretization];
-      FILE* f = fopen("tdycore_profile.csv", "a");
+      FILE* f = fopen(filename, "a");
       fprintf(f, "METADATA\n");
       fprintf(f, "Mode,Discretization,NumProc,NumCells\n");
       fprintf(f, "%s,%s,%d,%d", mode_name, disc_name, md->num_proc, num_cells);
-- 
2.43.0


From 110cf31abf0b951fb5b3d2a47126cea82ea90dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 19/57] fix: the timer and stage registries keep their own
 copies of names

---
 include/tdytimers.h |  4 +++-
 src/tdytimers.c     | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/tdytimers.h b/include/tdytimers.h
index 11e7859..85c1054 100644
--- a/include/tdytimers.h
+++ b/include/tdytimers.h
@@ -30,7 +30,9 @@ static inline PetscLogEvent TDyGetTimer(const char* name) {
   if (iter == kh_end(TDY_TIMERS)) {
     PetscLogEventRegister(name, TDY_CLASSID, &timer);
     int retval;
-    iter = kh_put(TDY_TIMER_MAP, TDY_TIMERS, name, &retval);
+    char *key; // the registry keeps its own copy of the name
+    PetscStrallocpy(name, &key);
+    iter = kh_put(TDY_TIMER_MAP, TDY_TIMERS, key, &retval);
     kh_val(TDY_TIMERS, iter) = timer;
   } else {
     timer = kh_val(TDY_TIMERS, iter);
diff --git a/src/tdytimers.c b/src/tdytimers.c
index 132f23f..65334bb 100644
--- a/src/tdytimers.c
+++ b/src/tdytimers.c
@@ -71,7 +71,9 @@ PetscErrorCode TDyAddProfilingStage(const char* name) {
   if (iter == kh_end(TDY_PROFILING_STAGES)) {
     PetscLogStageRegister(name, &stage);
     int retval;
-    iter = kh_put(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, name, &retval);
+    char *key; // the registry keeps its own copy of the name
+    PetscStrallocpy(name, &key);
+    iter = kh_put(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, key, &retval);
     kh_val(TDY_PROFILING_STAGES, iter) = stage;
   }
   return 0;
@@ -180,10 +182,16 @@ PetscErrorCode TDyWriteTimingProfile(const char* filename) {
 void TDyDestroyTimers() {
   // Free the various registries.
   if (TDY_TIMERS != NULL) {
+    for (khiter_t iter = kh_begin(TDY_TIMERS); iter != kh_end(TDY_TIMERS); ++iter) {
+      if (kh_exist(TDY_TIMERS, iter)) PetscFree(kh_key(TDY_TIMERS, iter));
+    }
     kh_destroy(TDY_TIMER_MAP, TDY_TIMERS);
     TDY_TIMERS = NULL;
   }
   if (TDY_PROFILING_STAGES != NULL) {
+    for (khiter_t iter = kh_begin(TDY_PROFILING_STAGES); iter != kh_end(TDY_PROFILING_STAGES); ++iter) {
+      if (kh_exist(TDY_PROFILING_STAGES, iter)) PetscFree(kh_key(TDY_PROFILING_STAGES, iter));
+    }
     kh_destroy(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES);
     TDY_PROFILING_STAGES = NULL;
   }
-- 
2.43.0


From 593c0f29ac4a77378811ffea7249e8b31bea1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 20/57] fix: setting up the MPFA-O DAE discretization does
 something

---
 src/fv/mpfao/tdympfao.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fv/mpfao/tdympfao.c b/src/fv/mpfao/tdympfao.c
index c665cdc..686df03 100644
--- a/src/fv/mpfao/tdympfao.c
+++ b/src/fv/mpfao/tdympfao.c
@@ -2337,8 +2337,6 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
                                            Conditions* conditions) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
-  PetscFunctionReturn(0);
-
   TDyMPFAO *mpfao = context;
   DM dm;
   ierr = TDyDiscretizationGetDM(discretization,&dm); CHKERRQ(ierr);
@@ -2382,6 +2380,8 @@ PetscErrorCode TDySetup_Richards_MPFAO_DAE(void *context, TDyDiscretizationType
 
   ierr = AllocateMemoryForBoundaryValues(mpfao, eos); CHKERRQ(ierr);
   ierr = AllocateMemoryForSourceSinkValues(mpfao); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
 }
 
 // Setup function for TH + MPFA-O
-- 
2.43.0


From d4b05f7cbf3022b7b0e02932a2801018cc841616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 21/57] fix: the face-to-cell map of a PFLOTRAN mesh is used
 after it is freed

---
 src/fv/share/tdymeshcustom.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 5b54a99..69e4870 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -741,8 +741,7 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
       face_count++;
     }
   }
-  ierr = TDyDeallocate_IntegerArray_2D(face_to_cell, 2); CHKERRQ(ierr);
-  ierr = TDyAllocate_IntegerArray_2D(&face_to_cell, 2, face_count); CHKERRQ(ierr);
+  // (The caller owns face_to_cell, so its entries are updated in place.)
   for (PetscInt iface=0; iface<face_count; iface++) {
     for (PetscInt i=0; i<2; i++) {
       face_to_cell[i][iface] = tmp_int_2d[i][iface];
-- 
2.43.0


From c161c43f4248f132de641bc8538c6334c03c9be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 22/57] fix: TDyDriverInitializeTDy before TDySetFromOptions is
 an error, not a crash

---
 src/tdydriver.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index d4c14af..12f3299 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -10,6 +10,10 @@
 PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
   PetscErrorCode ierr;
   PetscFunctionBegin;
+  if ((tdy->setup_flags & TDyOptionsSet) == 0) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_USER,
+      "You must call TDySetFromOptions before TDyDriverInitializeTDy()");
+  }
   TDyEnterProfilingStage("TDycore Setup");
   TDY_START_FUNCTION_TIMER()
   TS ts;
-- 
2.43.0


From 317aca5561bf4cef7135631684ca7c05b7d43986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 23/57] fix: running or stepping a dycore without a time
 integrator is an error, not a crash

---
 src/tdyti.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tdyti.c b/src/tdyti.c
index fca82ce..2354f2b 100644
--- a/src/tdyti.c
+++ b/src/tdyti.c
@@ -92,6 +92,10 @@ PetscErrorCode TDyTimeIntegratorSetTargetTime(TDyTimeIntegrator ti, PetscReal sy
 
 PetscErrorCode TDyTimeIntegratorSetTimeStep(TDy tdy, PetscReal dt) {
   PetscFunctionBegin;
+  if (!tdy->ti) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_USER,
+      "You must call TDyDriverInitializeTDy before TDyTimeIntegratorSetTimeStep()");
+  }
   tdy->ti->dt_init = dt;
   tdy->ti->dt = dt;
   PetscFunctionReturn(0);
@@ -108,6 +112,11 @@ PetscErrorCode TDyTimeIntegratorRunToTime(TDy tdy,PetscReal sync_time) {
   PetscBool solver_converged;
   PetscInt max_time_step_cuts = 25;
 
+  if (!tdy->ti) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_USER,
+      "You must call TDyDriverInitializeTDy before TDyTimeIntegratorRunToTime()");
+  }
+
   switch(tdy->ti->time_integration_method) {
     case TDySNES:
       ti = tdy->ti;
-- 
2.43.0


From 50e89cabba6827b044e290e893dffff36947a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 24/57] fix: a PFLOTRAN mesh for a discretization that cannot
 read one is an error, not a crash

---
 src/tdycore.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index c7cdbb0..aae1d8e 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -675,6 +675,11 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
   //------------------------------------------
   ierr = ReadCommandLineOptions(tdy); CHKERRQ(ierr);
 
+  if (tdy->options.read_pflotran_mesh && (tdy->options.discretization != FV_TPF)) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "-tdy_read_pflotran_mesh is only supported for the FV_TPF discretization");
+  }
+
   // Now that we know the discretization, we can create our implementation-
   // specific context.
   ierr = tdy->ops->create(&tdy->context); CHKERRQ(ierr);
-- 
2.43.0


From 0cbfc21cb657d8fae5c60803c4ba409c16ad5347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 25/57] fix: changing mode or discretization after
 TDySetFromOptions is an error, not a crash

---
 src/tdycore.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index aae1d8e..2f7dc62 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -854,6 +854,12 @@ PetscErrorCode TDySetMode(TDy tdy, TDyMode mode) {
   PetscValidPointer(tdy,1);
   PetscFunctionBegin;
 
+  // TDySetFromOptions creates data for the mode and discretization.
+  if (tdy->setup_flags & TDyOptionsSet) {
+    SETERRQ(PetscObjectComm((PetscObject)tdy),PETSC_ERR_USER,
+      "You must call TDySetMode before TDySetFromOptions()");
+  }
+
   // If we are resetting the mode and have already set the discretization,
   // the discretization must be set again for the new mode.
   if (tdy->setup_flags & TDyDiscretizationSet) {
@@ -881,6 +887,10 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
     SETERRQ(comm,PETSC_ERR_USER,
       "You must call TDySetMode before TDySetDiscretization");
   }
+  if (tdy->setup_flags & TDyOptionsSet) {
+    SETERRQ(comm,PETSC_ERR_USER,
+      "You must call TDySetDiscretization before TDySetFromOptions()");
+  }
 
   // Set function pointers for operations.
   if (tdy->options.mode == RICHARDS) {
-- 
2.43.0


From 28ad1bcf5cd12d865a2cc567211f673ea33b5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 26/57] fix: TDySetDiscretization refuses a mode that does not
 exist

---
 src/tdycore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdycore.c b/src/tdycore.c
index 2f7dc62..6d3bf74 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -981,6 +981,8 @@ PetscErrorCode TDySetDiscretization(TDy tdy, TDyDiscretization discretization) {
       SETERRQ(comm,PETSC_ERR_USER,
         "The SALINITY mode does not support the selected discretization!");
     }
+  } else {
+    SETERRQ(comm,PETSC_ERR_USER, "Invalid mode given!");
   }
   tdy->options.discretization = discretization;
   tdy->setup_flags |= TDyDiscretizationSet;
-- 
2.43.0


From 41c57efa0ae9a0538f88f57c0cf0d3b02005d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 27/57] fix: every point uses the saturation and relative
 permeability model assigned to it last

---
 src/materials/tdycharacteristiccurves.c | 142 ++++++++++++++++--------
 1 file changed, 97 insertions(+), 45 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 5427c23..565b2f5 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -37,6 +37,78 @@ PetscErrorCode CharacteristicCurvesDestroy(CharacteristicCurves *cc) {
   PetscFunctionReturn(0);
 }
 
+/// Assigns a model to a set of points. Each point belongs to the model to which
+/// it was assigned last, so the points are removed from all models first.
+/// @param [in] num_types the number of models
+/// @param [in] num_params the number of parameters per point for each model
+/// @param [in] type the model assigned to the points
+/// @param [in] n the number of points to which the model is assigned
+/// @param [in] points the indices of these points
+/// @param [in] parameters the model parameters for these points
+/// @param [inout] num_points_of the number of points belonging to each model
+/// @param [inout] points_of the indices of the points belonging to each model
+/// @param [inout] parameters_of the parameters of these points
+static PetscErrorCode AssignPoints(PetscInt num_types, const PetscInt num_params[],
+                                   PetscInt type, PetscInt n,
+                                   PetscInt *points, PetscReal *parameters,
+                                   PetscInt num_points_of[], PetscInt *points_of[],
+                                   PetscReal *parameters_of[]) {
+  PetscFunctionBegin;
+  PetscErrorCode ierr;
+
+  if (n == 0) PetscFunctionReturn(0);
+
+  khash_t(CharacteristicCurvesPointMap) *assigned =
+    kh_init(CharacteristicCurvesPointMap);
+  for (PetscInt i = 0; i < n; ++i) {
+    int ret;
+    khiter_t iter = kh_put(CharacteristicCurvesPointMap, assigned, points[i], &ret);
+    kh_value(assigned, iter) = i;
+  }
+
+  // Remove the points from the models to which they belong.
+  for (PetscInt t = 0; t < num_types; ++t) {
+    PetscInt np = num_params[t], count = 0;
+    for (PetscInt i = 0; i < num_points_of[t]; ++i) {
+      khiter_t iter = kh_get(CharacteristicCurvesPointMap, assigned, points_of[t][i]);
+      if (iter == kh_end(assigned)) {
+        points_of[t][count] = points_of[t][i];
+        memmove(&(parameters_of[t][np*count]), &(parameters_of[t][np*i]),
+                np*sizeof(PetscReal));
+        ++count;
+      }
+    }
+    num_points_of[t] = count;
+  }
+
+  // Append them to the points of the given model.
+  PetscInt np = num_params[type], offset = num_points_of[type];
+  PetscInt *new_points;
+  PetscReal *new_parameters;
+  ierr = TDyAlloc((offset+n)*sizeof(PetscInt), &new_points); CHKERRQ(ierr);
+  ierr = TDyAlloc(np*(offset+n)*sizeof(PetscReal), &new_parameters); CHKERRQ(ierr);
+  if (points_of[type]) {
+    memcpy(new_points, points_of[type], offset*sizeof(PetscInt));
+    memcpy(new_parameters, parameters_of[type], np*offset*sizeof(PetscReal));
+    ierr = TDyFree(points_of[type]); CHKERRQ(ierr);
+    ierr = TDyFree(parameters_of[type]); CHKERRQ(ierr);
+  }
+  for (PetscInt i = 0; i < n; ++i) {
+    // (A point that occurs more than once gets the parameters given last.)
+    khiter_t iter = kh_get(CharacteristicCurvesPointMap, assigned, points[i]);
+    if (kh_value(assigned, iter) == i) {
+      new_points[offset] = points[i];
+      memcpy(&(new_parameters[np*offset]), &(parameters[np*i]), np*sizeof(PetscReal));
+      ++offset;
+    }
+  }
+  num_points_of[type] = offset;
+  points_of[type] = new_points;
+  parameters_of[type] = new_parameters;
+  kh_destroy(CharacteristicCurvesPointMap, assigned);
+  PetscFunctionReturn(0);
+}
+
 /// Creates a new instance of a saturation model.
 PetscErrorCode SaturationCreate(Saturation **sat) {
   PetscFunctionBegin;
@@ -52,7 +124,14 @@ PetscErrorCode SaturationDestroy(Saturation *sat) {
   PetscErrorCode ierr;
   int num_types = (int)(sizeof(sat->points)/sizeof(sat->points[0]));
   for (int type = 0; type < num_types; ++type) {
-    SaturationSetType(sat, type, 0, NULL, NULL);
+    if (sat->point_maps[type]) {
+      khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
+      kh_destroy(CharacteristicCurvesPointMap, point_map);
+    }
+    if (sat->points[type]) {
+      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
+      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
+    }
   }
   ierr = TDyFree(sat); CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -75,23 +154,10 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
-  int num_params = 0;
-  if (type == SAT_FUNC_GARDNER) {
-    num_params = 3;
-  } else if (type == SAT_FUNC_VAN_GENUCHTEN) {
-    num_params = 2;
-  } else {
+  if ((type != SAT_FUNC_GARDNER) && (type != SAT_FUNC_VAN_GENUCHTEN)) {
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "Invalid saturation model type!");
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (sat->num_points[type] != num_points) {
-    if (sat->points[type]) {
-      ierr = TDyFree(sat->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(sat->parameters[type]); CHKERRQ(ierr);
-    }
-  }
-
   // Delete the point maps, which are invalidated by this operation.
   int num_types = (int)(sizeof(sat->points)/sizeof(sat->points[0]));
   for (int type = 0; type < num_types; ++type) {
@@ -102,13 +168,9 @@ PetscErrorCode SaturationSetType(Saturation *sat, SaturationType type,
     }
   }
 
-  sat->num_points[type] = num_points;
-  ierr = TDyAlloc(num_points*sizeof(PetscInt),
-                  &(sat->points[type])); CHKERRQ(ierr);
-  memcpy(sat->points[type], points, num_points*sizeof(PetscInt));
-  ierr = TDyAlloc(num_params*num_points*sizeof(PetscReal),
-                  &(sat->parameters[type])); CHKERRQ(ierr);
-  memcpy(sat->parameters[type], parameters, num_params*num_points*sizeof(PetscReal));
+  const PetscInt num_params[] = {3, 2}; // Gardner, Van Genuchten
+  ierr = AssignPoints(num_types, num_params, type, num_points, points, parameters,
+                      sat->num_points, sat->points, sat->parameters); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
@@ -250,7 +312,14 @@ PetscErrorCode RelativePermeabilityDestroy(RelativePermeability *rel_perm) {
   PetscErrorCode ierr;
   int num_types = (int)(sizeof(rel_perm->points)/sizeof(rel_perm->points[0]));
   for (int type = 0; type < num_types; ++type) {
-    RelativePermeabilitySetType(rel_perm, type, 0, NULL, NULL);
+    if (rel_perm->point_maps[type]) {
+      khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
+      kh_destroy(CharacteristicCurvesPointMap, point_map);
+    }
+    if (rel_perm->points[type]) {
+      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
+      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
+    }
   }
   ierr = TDyFree(rel_perm); CHKERRQ(ierr);
   PetscFunctionReturn(0);
@@ -276,12 +345,7 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
   PetscFunctionBegin;
   PetscErrorCode ierr;
 
-  int num_params = 0;
-  if (type == REL_PERM_FUNC_IRMAY) {
-    num_params = 1;
-  } else if (type == REL_PERM_FUNC_MUALEM) {
-    num_params = 9;
-  } else {
+  if ((type != REL_PERM_FUNC_IRMAY) && (type != REL_PERM_FUNC_MUALEM)) {
     SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
             "Invalid relative permeability model type!");
   }
@@ -296,22 +360,10 @@ PetscErrorCode RelativePermeabilitySetType(RelativePermeability *rel_perm,
     }
   }
 
-  // If we're changing the number of points for this type, free storage.
-  if (rel_perm->num_points[type] != num_points) {
-    if (rel_perm->points[type]) {
-      ierr = TDyFree(rel_perm->points[type]); CHKERRQ(ierr);
-      ierr = TDyFree(rel_perm->parameters[type]); CHKERRQ(ierr);
-    }
-  }
-
-  rel_perm->num_points[type] = num_points;
-  ierr = TDyAlloc(num_points*sizeof(PetscInt),
-                  &(rel_perm->points[type])); CHKERRQ(ierr);
-  memcpy(rel_perm->points[type], points, num_points*sizeof(PetscInt));
-  ierr = TDyAlloc(num_params*num_points*sizeof(PetscReal),
-                  &(rel_perm->parameters[type])); CHKERRQ(ierr);
-  memcpy(rel_perm->parameters[type], parameters,
-         num_params*num_points*sizeof(PetscReal));
+  const PetscInt num_params[] = {1, 9}; // Irmay, Mualem
+  ierr = AssignPoints(num_types, num_params, type, num_points, points, parameters,
+                      rel_perm->num_points, rel_perm->points,
+                      rel_perm->parameters); CHKERRQ(ierr);
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From e0bae22f9e1296cfddc0537803c1490840d59868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 28/57] fix: RelativePermeabilityCompute takes values at the
 points of a model, not in its order of points

---
 src/materials/tdycharacteristiccurves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 565b2f5..212f0d6 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -383,18 +383,20 @@ PetscErrorCode RelativePermeabilityCompute(RelativePermeability *rel_perm,
     PetscInt num_points = rel_perm->num_points[type];
     if (type == REL_PERM_FUNC_IRMAY) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][i];
-        RelativePermeability_Irmay(m, Se[i], &(Kr[i]), &(dKrdSe[i]));
+        RelativePermeability_Irmay(m, Se[j], &(Kr[j]), &(dKrdSe[j]));
       }
     } else if (type == REL_PERM_FUNC_MUALEM) {
       for (PetscInt i = 0; i < num_points; ++i) {
+        PetscInt j = rel_perm->points[type][i];
         PetscReal m = rel_perm->parameters[type][9*i];
         PetscReal poly_x0 = rel_perm->parameters[type][9*i+1]; // cubic interp cutoff
         PetscReal poly_x1 = rel_perm->parameters[type][9*i+2]; // cubic interp cutoff
         PetscReal poly_dx = rel_perm->parameters[type][9*i+4]; // cubic interp cutoff
         PetscReal *poly_coeffs = &(rel_perm->parameters[type][9*i+5]); // interp coeffs
-        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[i], &(Kr[i]),
-                                    &(dKrdSe[i]));
+        RelativePermeability_Mualem(m, poly_x0, poly_x1, poly_dx, poly_coeffs, Se[j], &(Kr[j]),
+                                    &(dKrdSe[j]));
       }
     } else {
       SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER,
-- 
2.43.0


From d64a776b2d1c0a19a1fc863e85917b53d39f0ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 29/57] fix: points without a model are not looked up past the
 end of the point map

---
 src/materials/tdycharacteristiccurves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/materials/tdycharacteristiccurves.c b/src/materials/tdycharacteristiccurves.c
index 212f0d6..0c3a552 100644
--- a/src/materials/tdycharacteristiccurves.c
+++ b/src/materials/tdycharacteristiccurves.c
@@ -270,7 +270,7 @@ PetscErrorCode SaturationComputeOnPoints(Saturation *sat,
       khash_t(CharacteristicCurvesPointMap) *point_map = sat->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the saturation and its derivatives on points belonging to
           // this type.
@@ -454,7 +454,7 @@ PetscErrorCode RelativePermeabilityComputeOnPoints(RelativePermeability *rel_per
       khash_t(CharacteristicCurvesPointMap) *point_map = rel_perm->point_maps[type];
       if (kh_size(point_map) != 0) {
         khiter_t iter = kh_get(CharacteristicCurvesPointMap, point_map, i1);
-        if (kh_exist(point_map, iter)) {
+        if (iter != kh_end(point_map)) {
           PetscInt j = kh_value(point_map, iter);
           // Compute the relative permeability and its derivative on points
           // belonging to this type.
-- 
2.43.0


From 51d66205982c661366ac2b7aca1d1a22082d0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 30/57] fix: WY uses the residual saturation it is given

---
 src/fe/tdywy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fe/tdywy.c b/src/fe/tdywy.c
index 7c17ed4..63fbd7c 100644
--- a/src/fe/tdywy.c
+++ b/src/fe/tdywy.c
@@ -512,6 +512,9 @@ PetscErrorCode TDySetup_WY(void *context, TDyDiscretizationType *discretization,
   ierr = MaterialPropComputePermeability(matprop, nc, wy->X, wy->K0); CHKERRQ(ierr);
   memcpy(wy->K, wy->K0, 9*sizeof(PetscReal)*nc);
   MaterialPropComputePorosity(matprop, nc, wy->X, wy->porosity);
+  if (MaterialPropHasResidualSaturation(matprop)) {
+    ierr = MaterialPropComputeResidualSaturation(matprop, nc, wy->X, wy->Sr); CHKERRQ(ierr);
+  }
 
   /* Setup the section, 1 dof per cell */
   PetscSection sec;
-- 
2.43.0


From ba9aecce248fe8a8a7f68c0726b417f81b1681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 31/57] fix: Fortran integer spatial functions are numbered
 apart from the others

---
 src/f90-mod/tdycoremod.F90 | 45 +++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index d2637a7..e4049c9 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -13,7 +13,7 @@ module tdycore
 
   public
 
-  private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, &
+  private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, last_integer_spatial_func_id_, &
              SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
@@ -55,8 +55,9 @@ module tdycore
   character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
-  ! The ID of the most recently added spatial function
+  ! The IDs that the next spatial functions will be given
   integer(c_int) :: last_spatial_func_id_
+  integer(c_int) :: last_integer_spatial_func_id_
 
   interface
      subroutine TDyFinalize(ierr)
@@ -355,16 +356,15 @@ end subroutine
       allocate(spatial_funcs_(32))
       allocate(spatial_func_names_(32))
       last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
     end if
 
-    if (.not. associated(spatial_funcs_(id)%f, func)) then
+    do id = 1, last_spatial_func_id_ - 1
+      if (associated(spatial_funcs_(id)%f, func)) then
+        exit
+      end if
+    end do
+
+    if (id == last_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
       if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
         old_size = size(spatial_funcs_)
@@ -394,19 +394,18 @@ end subroutine
     if (.not. allocated(integer_spatial_funcs_)) then
       allocate(integer_spatial_funcs_(32))
       allocate(integer_spatial_func_names_(32))
-      last_spatial_func_id_ = 1
-      id = 1
-    else
-      do id = 1, last_spatial_func_id_
-        if (associated(integer_spatial_funcs_(id)%f, func)) then
-          exit
-        end if
-      end do
+      last_integer_spatial_func_id_ = 1
     end if
 
-    if (.not. associated(integer_spatial_funcs_(id)%f, func)) then
+    do id = 1, last_integer_spatial_func_id_ - 1
+      if (associated(integer_spatial_funcs_(id)%f, func)) then
+        exit
+      end if
+    end do
+
+    if (id == last_integer_spatial_func_id_) then
       ! We didn't find the function, so we must append it.
-      if (last_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
+      if (last_integer_spatial_func_id_ > size(integer_spatial_funcs_)) then ! need more room
         old_size = size(integer_spatial_funcs_)
         allocate(new_funcs_array(2*old_size))
         allocate(new_names_array(2*old_size))
@@ -416,9 +415,9 @@ end subroutine
         call move_alloc(new_names_array, integer_spatial_func_names_)
       end if
       elem%f => func
-      integer_spatial_funcs_(last_spatial_func_id_) = elem
-      id = last_spatial_func_id_
-      last_spatial_func_id_ = last_spatial_func_id_ + 1
+      integer_spatial_funcs_(last_integer_spatial_func_id_) = elem
+      id = last_integer_spatial_func_id_
+      last_integer_spatial_func_id_ = last_integer_spatial_func_id_ + 1
     end if
   end function
 
-- 
2.43.0


From 415303e09e970a86c7a73849c9bf3ba2c67788ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 32/57] fix: names of Fortran functions refer to what was
 registered last, unknown ones are errors

---
 src/f90-mod/tdycoremod.F90 | 67 ++++++++++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index e4049c9..7fba986 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -13,7 +13,7 @@ module tdycore
 
   public
 
-  private :: spatial_funcs_, spatial_func_names_, last_spatial_func_id_, last_integer_spatial_func_id_, &
+  private :: spatial_funcs_, spatial_func_names_, spatial_func_ids_, last_spatial_func_id_, last_integer_spatial_func_id_, &
              SpatialFunctionWrapper, IntegerSpatialFunctionWrapper, FindOrAppendSpatialFunction, &
              RegisterSpatialFunction, GetSpatialFunction
 
@@ -49,12 +49,16 @@ module tdycore
     procedure(TDyIntegerSpatialFunction), pointer, nopass :: f => null()
   end type
 
-  ! An array of Fortran TDySpatialFunctions and any associated names
+  ! An array of Fortran TDySpatialFunctions
   type(SpatialFunctionWrapper), dimension(:), allocatable :: spatial_funcs_
   type(IntegerSpatialFunctionWrapper), dimension(:), allocatable :: integer_spatial_funcs_
-  character(len=32), dimension(:), allocatable :: spatial_func_names_
   character(len=32), dimension(:), allocatable :: integer_spatial_func_names_
 
+  ! The names under which TDySpatialFunctions have been registered, and the IDs
+  ! of the functions registered most recently under these names
+  character(len=32), dimension(:), allocatable :: spatial_func_names_
+  integer, dimension(:), allocatable           :: spatial_func_ids_
+
   ! The IDs that the next spatial functions will be given
   integer(c_int) :: last_spatial_func_id_
   integer(c_int) :: last_integer_spatial_func_id_
@@ -349,12 +353,10 @@ end subroutine
     type(SpatialFunctionWrapper)  :: elem
     integer :: id
     type(SpatialFunctionWrapper), dimension(:), allocatable :: new_funcs_array
-    character(len=32), dimension(:), allocatable :: new_names_array
     integer :: old_size
 
     if (.not. allocated(spatial_funcs_)) then
       allocate(spatial_funcs_(32))
-      allocate(spatial_func_names_(32))
       last_spatial_func_id_ = 1
     end if
 
@@ -369,11 +371,8 @@ end subroutine
       if (last_spatial_func_id_ > size(spatial_funcs_)) then ! need more room
         old_size = size(spatial_funcs_)
         allocate(new_funcs_array(2*old_size))
-        allocate(new_names_array(2*old_size))
         new_funcs_array(1:old_size) = spatial_funcs_(1:old_size)
-        new_names_array(1:old_size) = spatial_func_names_(1:old_size)
         call move_alloc(new_funcs_array, spatial_funcs_)
-        call move_alloc(new_names_array, spatial_func_names_)
       end if
       elem%f => func
       spatial_funcs_(last_spatial_func_id_) = elem
@@ -425,23 +424,42 @@ end subroutine
     character(len=*), intent(in)           :: name
     procedure(TDySpatialFunction), pointer :: func
 
-    integer :: id
+    character(len=32) :: key
+    integer :: i, id
+
+    if (.not. allocated(spatial_func_names_)) then
+      allocate(spatial_func_names_(0))
+      allocate(spatial_func_ids_(0))
+    end if
 
-    ! Assign an ID to the function and set its name.
+    ! Assign an ID to the function, to which the name refers from now on.
     id = FindOrAppendSpatialFunction(func)
-    spatial_func_names_(id) = name
+    key = name
+    do i = 1, size(spatial_func_names_)
+      if (spatial_func_names_(i) == key) then
+        spatial_func_ids_(i) = id
+        return
+      end if
+    end do
+    spatial_func_names_ = [spatial_func_names_, key]
+    spatial_func_ids_ = [spatial_func_ids_, id]
   end subroutine
 
+  ! This function returns the function most recently registered under the given
+  ! name, or null() if there is none.
   function GetSpatialFunction(name) result(func)
     character(len=*), intent(in)  :: name
     procedure(TDySpatialFunction), pointer :: func
 
+    character(len=32) :: key
     integer :: i
 
     func => null()
-    do i = 1, size(spatial_funcs_)
-      if (spatial_func_names_(i) == name(1:32)) then
-        func => spatial_funcs_(i)%f
+    if (.not. allocated(spatial_func_names_)) return
+    key = name
+    do i = 1, size(spatial_func_names_)
+      if (spatial_func_names_(i) == key) then
+        func => spatial_funcs_(spatial_func_ids_(i))%f
       end if
     end do
   end function
@@ -465,6 +483,7 @@ end subroutine
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
+    ierr = 0
   end subroutine
 
   subroutine TDySetDMConstructor(tdy, dm_ctor, ierr)
@@ -499,6 +518,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! function not found
+      return
+    end if
     call TDySetPorosityFunction(tdy, func, ierr)
   end subroutine
 
@@ -513,6 +536,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! function not found
+      return
+    end if
     call TDySetForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -527,6 +554,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! function not found
+      return
+    end if
     call TDySetEnergyForcingFunction(tdy, func, ierr)
   end subroutine
 
@@ -541,6 +572,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! function not found
+      return
+    end if
     call TDySetBoundaryPressureFunction(tdy, func, ierr)
   end subroutine
 
@@ -555,6 +590,10 @@ end subroutine
     procedure(TDySpatialFunction), pointer :: func
 
     func => GetSpatialFunction(name)
+    if (.not. associated(func)) then
+      ierr = -1 ! function not found
+      return
+    end if
     call TDySetBoundaryVelocityFunction(tdy, func, ierr)
   end subroutine
 
-- 
2.43.0


From 917d5dee7e526e929cd68ff4a548c3b980cf452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 33/57] fix: Fortran functions can be registered and set as
 forcings and velocities

gfortran hands a dummy procedure pointer on to a dummy procedure without
dereferencing it, so the address of the pointer was stored and called.
---
 src/f90-mod/tdycoremod.F90 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/f90-mod/tdycoremod.F90 b/src/f90-mod/tdycoremod.F90
index 7fba986..6ea8568 100644
--- a/src/f90-mod/tdycoremod.F90
+++ b/src/f90-mod/tdycoremod.F90
@@ -422,7 +422,7 @@ end subroutine
 
   subroutine RegisterSpatialFunction(name, func)
     character(len=*), intent(in)           :: name
-    procedure(TDySpatialFunction), pointer :: func
+    procedure(TDySpatialFunction) :: func
 
     character(len=32) :: key
     integer :: i, id
@@ -479,7 +479,7 @@ end subroutine
     use, intrinsic :: iso_c_binding
     implicit none
     character(len=*), intent(in)            :: name
-    procedure(TDySpatialFunction), pointer  :: func
+    procedure(TDySpatialFunction) :: func
     PetscErrorCode                          :: ierr
 
     call RegisterSpatialFunction(name, func)
@@ -602,7 +602,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -628,7 +628,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
@@ -706,7 +706,7 @@ end subroutine
     use tdycoredef
     implicit none
     TDy                                    :: tdy
-    procedure(TDySpatialFunction), pointer :: f
+    procedure(TDySpatialFunction) :: f
     PetscErrorCode                         :: ierr
 
     type(c_ptr)    :: p_tdy
-- 
2.43.0


From 0162cd718a0e64cdd4e6a43378beafe3e605f605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:34 +0000
Subject: [PATCH 34/57] fix: regression files name no cell twice and can be
 written for unstructured grids

In TH mode the number of cells per process was clamped to the number of
unknowns, so small meshes listed cell 0 several times; a process without
cells divided by zero; the DM of an unstructured grid has no section.
---
 src/tdyregression.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/tdyregression.c b/src/tdyregression.c
index 237957f..bce5e90 100644
--- a/src/tdyregression.c
+++ b/src/tdyregression.c
@@ -56,19 +56,17 @@ PetscErrorCode TDyRegressionInitialize(TDy tdy) {
 
   ierr = MPI_Allreduce(&vecsize_local,&min_vecsize_local,1,MPIU_INT,MPI_MIN,PetscObjectComm((PetscObject)dm)); CHKERRQ(ierr);
 
-  if (min_vecsize_local<regression->num_cells_per_process) {
-    regression->num_cells_per_process = min_vecsize_local;
+  if (min_vecsize_local/ndof_per_cell<regression->num_cells_per_process) {
+    regression->num_cells_per_process = min_vecsize_local/ndof_per_cell;
   }
 
   if (myrank == 0) {
     ierr = TDyAlloc(ndof_per_cell*size*regression->num_cells_per_process*sizeof(PetscInt),&(regression->cells_per_process_natural_ids)); CHKERRQ(ierr);
   }
 
-  if (tdy->options.mode == TH) {
-    increment = floor(vecsize_local/regression->num_cells_per_process/2);
-  }
-  else {
-    increment = floor(vecsize_local/regression->num_cells_per_process);
+  increment = 0;
+  if (regression->num_cells_per_process > 0) {
+    increment = vecsize_local/ndof_per_cell/regression->num_cells_per_process;
   }
 
 
@@ -167,9 +165,11 @@ PetscErrorCode TDyRegressionOutput(TDy tdy, Vec U) {
 
 
   PetscSection sec;
-  PetscInt num_fields;
+  PetscInt num_fields = 0;
   ierr = DMGetLocalSection(dm,&sec); CHKERRQ(ierr);
-  ierr = PetscSectionGetNumFields(sec,&num_fields); CHKERRQ(ierr);
+  if (sec) { // the DM of an unstructured grid has no section
+    ierr = PetscSectionGetNumFields(sec,&num_fields); CHKERRQ(ierr);
+  }
 
   PetscReal *temp_p, *pres_p, *u_p;
   ierr = VecGetLocalSize(U,&vec_local_size); CHKERRQ(ierr);
-- 
2.43.0


From ec613049e90dc99830992887ff6212df05c337d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 35/57] fix: the first vertex of an unstructured grid counts as
 a vertex of its cells

---
 src/fv/share/tdyugrid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 0450776..f624f36 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -172,7 +172,7 @@ static PetscErrorCode DetermineMaxNumVerticesActivePerCell(TDyUGrid *ugrid) {
   for (PetscInt icell=0; icell<ugrid->num_cells_local; icell++) {
     PetscInt tmp=0;
     for (PetscInt ivertex=0; ivertex<ugrid->max_verts_per_cell; ivertex++) {
-      if (ugrid->cell_vertices[icell][ivertex] > 0) {
+      if (ugrid->cell_vertices[icell][ivertex] >= 0) {
         tmp++;
       }
     }
-- 
2.43.0


From a5be5c890ccd439d1b56445fd5c5c054891b64bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 36/57] fix: a process may own no cell of an unstructured grid

---
 src/fv/share/tdyugrid.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index f624f36..4f7f584 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -977,9 +977,11 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
   ierr = PetscSortIntWithPermutation(numVertices, IntArray1, IntArray2); CHKERRQ(ierr);
 
   PetscInt count=0;
-  PetscInt idx=IntArray2[count];
-  IntArray3[0] = IntArray1[idx];
-  IntArray4[idx] = count;
+  if (numVertices > 0) { // a process need not own any cell
+    PetscInt idx=IntArray2[count];
+    IntArray3[0] = IntArray1[idx];
+    IntArray4[idx] = count;
+  }
 
   for (PetscInt ivertex=0; ivertex<numVertices; ivertex++) {
     PetscInt idx=IntArray2[ivertex];
@@ -991,7 +993,7 @@ static PetscErrorCode ChangeVertexNatOrderToLocalOrder(PetscInt stride, PetscInt
     IntArray4[IntArray2[ivertex]] = count;
   }
 
-  numVertices = count+1;
+  if (numVertices > 0) numVertices = count+1;
   *NewNumVertices = numVertices;
 
   // Save vertex ids in natural-order
-- 
2.43.0


From b2ec3397f77bb4e1fa5453fe6bd7a395436c3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 37/57] fix: a mesh is distributed once, with its ghost cells
 and natural numbers

---
 src/tdycore.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6d3bf74..6efa43c 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -709,7 +709,9 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       } else {
         ierr = DMPlexCreate(comm, &dm); CHKERRQ(ierr);
       }
-      // Here we lean on PETSc's DM* options for overrides.
+      // Here we lean on PETSc's DM* options for overrides. The mesh is
+      // distributed below, once it has fields and a natural ordering.
+      ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
       ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     }
 
@@ -726,6 +728,7 @@ PetscErrorCode TDySetFromOptions(TDy tdy) {
       ierr = DMDestroy(&dm); CHKERRQ(ierr);
       dm = dm_dist;
     }
+    ierr = DMPlexDistributeSetDefault(dm, PETSC_FALSE); CHKERRQ(ierr);
     ierr = DMSetFromOptions(dm); CHKERRQ(ierr);
     ierr = DMViewFromOptions(dm, NULL, "-dm_view"); CHKERRQ(ierr);
     ((tdy->discretization)->tdydm)->dm = dm;
-- 
2.43.0


From 4a6a3dd17c80e9e18153678c079c4fadfa24b833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 38/57] fix: with two fields per cell every cell has its own
 natural number

---
 src/fv/share/tdymeshplex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index d3674b2..559a1e1 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -628,7 +628,7 @@ static PetscErrorCode SaveNaturalIDs(TDyMesh *mesh, DM dm){
     ierr = VecGetArray(natural, &entries); CHKERRQ(ierr);
     for (PetscInt i = 0; i < natural_size; ++i) {
       if (i % num_fields == 0) {
-        entries[i] = i + cum_natural_size/num_fields - natural_size/num_fields;
+        entries[i] = i/num_fields + cum_natural_size/num_fields - natural_size/num_fields;
       }
       else {
         entries[i] = 0;
-- 
2.43.0


From 059d5dfe3ad7cd222302ba8c96464a1987a4afc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:52 +0000
Subject: [PATCH 39/57] fix: corner vertices know their position in the faces
 that share them

---
 src/fv/share/tdymeshplex.c | 51 +++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/fv/share/tdymeshplex.c b/src/fv/share/tdymeshplex.c
index 559a1e1..3b430cd 100644
--- a/src/fv/share/tdymeshplex.c
+++ b/src/fv/share/tdymeshplex.c
@@ -1527,6 +1527,36 @@ PetscErrorCode UpdateIthTraversalOrder(TDyVertex *vertices, PetscInt ivertex, TD
   PetscFunctionReturn(0);
 }
 
+/* -------------------------------------------------------------------------- */
+/// Sets the position of a vertex within each of the faces that share it.
+static PetscErrorCode UpdateSubfaceIDsOfAVertex(TDyMesh *mesh, PetscInt ivertex) {
+
+  PetscFunctionBegin;
+
+  TDyFace *faces = &mesh->faces;
+  PetscErrorCode ierr;
+
+  PetscInt *vertex_face_ids, *subface_ids, num_faces, num_subfaces;
+  ierr = TDyMeshGetVertexFaces(mesh, ivertex, &vertex_face_ids, &num_faces); CHKERRQ(ierr);
+  ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
+
+  for (PetscInt iface=0; iface<num_faces; iface++) {
+    PetscInt face_id = vertex_face_ids[iface];
+    PetscInt fOffsetVertex = faces->vertex_offset[face_id];
+    PetscBool found = PETSC_FALSE;
+    for (PetscInt ii=0; ii<faces->num_vertices[face_id]; ii++) {
+      if (faces->vertex_ids[fOffsetVertex + ii] == ivertex) {
+        subface_ids[iface] = ii;
+        found = PETSC_TRUE;
+        break;
+      }
+    }
+    if (!found) SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a vertex within a face");
+  }
+
+  PetscFunctionReturn(0);
+}
+
 /* -------------------------------------------------------------------------- */
 PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, PetscInt ivertex, TDyCell *cells, TDyFace *faces, TDySubcell *subcells, PetscInt **cell_up2dw, PetscInt nUp2Dw) {
 
@@ -1538,9 +1568,7 @@ PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, Pe
 
   PetscErrorCode ierr;
   PetscInt *vertex_face_ids, vertex_num_faces;
-  PetscInt *subface_ids, num_subfaces;
   ierr = TDyMeshGetVertexFaces(mesh, ivertex, &vertex_face_ids, &vertex_num_faces); CHKERRQ(ierr);
-  ierr = TDyMeshGetVertexSubfaces(mesh, ivertex, &subface_ids, &num_subfaces); CHKERRQ(ierr);
 
   PetscInt boundary_cell_count = 0;
 
@@ -1695,19 +1723,7 @@ PetscErrorCode SetupUpwindFacesForSubcell(TDyMesh *mesh, TDyVertex *vertices, Pe
 
   // Since vertices->face_ids[] has been updated, now
   // update vertices->subface_ids[]
-  for (PetscInt iface=0; iface<vertices->num_faces[ivertex]; iface++) {
-    PetscInt face_id = vertex_face_ids[iface];
-    PetscInt fOffsetVertex = faces->vertex_offset[face_id];
-    PetscBool found = PETSC_FALSE;
-    for (PetscInt ii=0; ii<faces->num_vertices[face_id]; ii++) {
-      if (faces->vertex_ids[fOffsetVertex + ii] == ivertex) {
-        subface_ids[iface] = ii;
-        found = PETSC_TRUE;
-        break;
-      }
-    }
-    if (!found) SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Did not find a vertex within a face");
-  }
+  ierr = UpdateSubfaceIDsOfAVertex(mesh, ivertex); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
@@ -3168,6 +3184,11 @@ PetscErrorCode UpdateCellOrientationAroundAFace(DM dm, TDyMesh *mesh) {
     }
   }
 
+  // The order of the vertices of faces may have changed
+  for (PetscInt ivertex=0; ivertex<mesh->num_vertices; ivertex++) {
+    ierr = UpdateSubfaceIDsOfAVertex(mesh, ivertex); CHKERRQ(ierr);
+  }
+
   PetscFunctionReturn(0);
 }
 
-- 
2.43.0


From ede08238914192344918c4fceda3d0f86bf7c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:36 +0000
Subject: [PATCH 40/57] fix: an initial condition file is read for any sizes of
 the processes' parts

---
 src/tdyio.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 53f7d65..92c6b70 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -275,16 +275,21 @@ PetscErrorCode TDyIOReadIC(TDy tdy){
     strcpy(VariableName, tdy->io->ic_dataset);
   }
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  // Natural vectors are laid out like the solution.
+  PetscInt n;
+  ierr = VecCreate(PETSC_COMM_WORLD,&u);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(tdy->soln,&n);CHKERRQ(ierr);
+  ierr = VecSetSizes(u,n,PETSC_DETERMINE);CHKERRQ(ierr);
 
   ierr = PetscObjectSetName((PetscObject) u, VariableName);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,tdy->io->ic_filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = TDySetInitialCondition(tdy,u);CHKERRQ(ierr);
 
-  ierr = VecDestroy(&u);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From daefcacff3247913b70ff7d41909fb8d3b839f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 41/57] fix: the driver reports an initial condition file it
 cannot read

---
 src/tdydriver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tdydriver.c b/src/tdydriver.c
index 12f3299..a54181a 100644
--- a/src/tdydriver.c
+++ b/src/tdydriver.c
@@ -220,7 +220,7 @@ PetscErrorCode TDyDriverInitializeTDy(TDy tdy) {
    size_t len;
    ierr = PetscStrlen(tdy->io->ic_filename, &len); CHKERRQ(ierr);
    if (len){
-     TDyIOReadIC(tdy); CHKERRQ(ierr);
+     ierr = TDyIOReadIC(tdy); CHKERRQ(ierr);
    }
   // finish set of time integrators
   switch(tdy->ti->time_integration_method) {
-- 
2.43.0


From c91d23a1ed2865fad6b4d51e5873dc399a60be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 42/57] fix: property files give every cell its value for any
 partition and number of unknowns

---
 src/tdyio.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 92c6b70..4c8d9b3 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -312,26 +312,38 @@ PetscErrorCode TDyIOReadVariable(TDy tdy, char *VariableName, char *filename, Pe
   PetscReal *ptr;
   int i,n;
 
-  ierr = VecCreate(PETSC_COMM_WORLD,&u);
+  // The file holds one value per cell: a natural vector with one component.
+  Vec natural;
+  PetscInt bs;
+  ierr = TDyCreateGlobalVector(tdy, &natural); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(natural, &bs); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(natural, &n); CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&u); CHKERRQ(ierr);
+  ierr = VecSetSizes(u, n/bs, PETSC_DETERMINE); CHKERRQ(ierr);
   ierr = PetscObjectSetName((PetscObject) u, VariableName);
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,filename,FILE_MODE_READ,&viewer);CHKERRQ(ierr);
   ierr = VecLoad(u,viewer);CHKERRQ(ierr);
+  ierr = VecStrideScatter(u, 0, natural, INSERT_VALUES); CHKERRQ(ierr);
 
   ierr = TDyCreateLocalVector(tdy, &u_local);
-  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,u,&u_local);CHKERRQ(ierr);
+  ierr = TDyDiscretizationNaturaltoLocal(tdy->discretization,natural,&u_local);CHKERRQ(ierr);
 
   ierr = VecGetArray(u_local,&ptr);CHKERRQ(ierr);
   ierr = VecGetSize(u_local,&n);CHKERRQ(ierr);
+  n /= bs;
 
   ierr = TDyAlloc(n,variable);CHKERRQ(ierr);
   for (i = 0;i<n;++i){
-    (*variable)[i] = ptr[i];
+    (*variable)[i] = ptr[i*bs];
   }
 
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   ierr = VecRestoreArray(u_local,&ptr);CHKERRQ(ierr);
+  ierr = VecDestroy(&u_local);CHKERRQ(ierr);
+  ierr = VecDestroy(&natural);CHKERRQ(ierr);
+  ierr = VecDestroy(&u);CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
 }
-- 
2.43.0


From 700ddfd66609a722ccd8471d8fbe48c797d77ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 43/57] fix: diagnostic fields are put in natural order for any
 number of unknowns

---
 src/tdycore.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tdycore.c b/src/tdycore.c
index 6efa43c..574da62 100644
--- a/src/tdycore.c
+++ b/src/tdycore.c
@@ -1822,6 +1822,24 @@ static PetscErrorCode ExtractDiagnosticField(TDy tdy, PetscInt index, Vec vec) {
   PetscFunctionReturn(0);
 }
 
+// Puts a scalar cell-centered field in natural order. The transfers move all the
+// unknowns of a cell together, so the field travels as their first component.
+static PetscErrorCode DiagnosticFieldToNatural(TDy tdy, Vec field, Vec natural_field) {
+  PetscErrorCode ierr;
+  PetscFunctionBegin;
+
+  Vec global, natural;
+  ierr = TDyCreateGlobalVector(tdy, &global); CHKERRQ(ierr);
+  ierr = VecDuplicate(global, &natural); CHKERRQ(ierr);
+  ierr = VecStrideScatter(field, 0, global, INSERT_VALUES); CHKERRQ(ierr);
+  ierr = TDyGlobalToNatural(tdy, global, natural); CHKERRQ(ierr);
+  ierr = VecStrideGather(natural, 0, natural_field, INSERT_VALUES); CHKERRQ(ierr);
+  ierr = VecDestroy(&global); CHKERRQ(ierr);
+  ierr = VecDestroy(&natural); CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 /// Creates a matrix
 /// @param [in] tdy A TDy object
 /// @param [out] mat A matrix
@@ -1856,7 +1874,7 @@ PetscErrorCode TDyGetLiquidSaturation(TDy tdy, Vec sat_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_SATURATION, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = DiagnosticFieldToNatural(tdy, tmp_vec, sat_vec);CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   CHKERRQ(ierr);
@@ -1875,7 +1893,7 @@ PetscErrorCode TDyGetLiquidMass(TDy tdy, Vec mass_vec) {
   Vec tmp_vec;
   ierr = TDyCreateDiagnosticVector(tdy, &tmp_vec); CHKERRQ(ierr);
   ierr = ExtractDiagnosticField(tdy, DIAG_LIQUID_MASS, tmp_vec); CHKERRQ(ierr);
-  ierr = TDyGlobalToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr); CHKERRQ(ierr);
+  ierr = DiagnosticFieldToNatural(tdy, tmp_vec, mass_vec);CHKERRQ(ierr);
   ierr = VecDestroy(&tmp_vec); CHKERRQ(ierr);
 
   PetscFunctionReturn(0);
-- 
2.43.0


From 780053943e8716fd16984ae25a03892294563fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 44/57] fix: output files hold every quantity in natural order

---
 src/tdyio.c | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 4c8d9b3..f0fb6e3 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -438,8 +438,12 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
   CHKERRQ(ierr);
 
   if (tdy->io->format == PetscViewerASCIIFormat) {
-    ierr = TDyIOWriteAsciiViewer(p,time,zonalVarNames[0]);CHKERRQ(ierr);
+    Vec p_natural;
+    ierr = TDyCreateGlobalVector(tdy,&p_natural); CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
+    ierr = TDyIOWriteAsciiViewer(p_natural,time,zonalVarNames[0]);CHKERRQ(ierr);
     ierr = TDyIOWriteAsciiViewer(s,time,zonalVarNames[1]);CHKERRQ(ierr);
+    ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
   }
   else if (tdy->io->format == ExodusFormat) {
     char *ofilename = tdy->io->filename;
@@ -454,15 +458,13 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     ierr = DMGetUseNatural(dm, &useNatural); CHKERRQ(ierr);
     if (useNatural) {
       Vec p_natural;
-      Vec s_natural;
       ierr = TDyCreateGlobalVector(tdy,&p_natural);
       ierr = TDyGlobalToNatural(tdy, p, p_natural);CHKERRQ(ierr);
 
-      ierr = TDyCreateGlobalVector(tdy, &s_natural);
-      ierr = TDyGlobalToNatural(tdy, s, s_natural);CHKERRQ(ierr);
-
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p_natural,zonalVarNames[0],time);CHKERRQ(ierr);
-      ierr = TDyIOWriteHDF5Var(ofilename,dm,s_natural,zonalVarNames[1],time);CHKERRQ(ierr);
+      // The saturation is in natural order already.
+      ierr = TDyIOWriteHDF5Var(ofilename,dm,s,zonalVarNames[1],time);CHKERRQ(ierr);
+      ierr = VecDestroy(&p_natural); CHKERRQ(ierr);
     }
     else {
       ierr = TDyIOWriteHDF5Var(ofilename,dm,p,zonalVarNames[0],time);CHKERRQ(ierr);
@@ -496,10 +498,11 @@ PetscErrorCode TDyIOInitializeHDF5(char *ofilename, DM dm){
 PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,PetscReal time){
   PetscViewer viewer;
   PetscErrorCode ierr;
-  PetscInt numCell;
-  char word[32];
+  PetscInt numCell, bs;
+  char word[32], dataset[PETSC_MAX_PATH_LEN];
   PetscMPIInt rank;
   PetscSection sec;
+  DM u_dm;
 
   ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
 
@@ -507,17 +510,27 @@ PetscErrorCode TDyIOWriteHDF5Var(char *ofilename,DM dm,Vec U,char *VariableName,
 
   ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
 
-  ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
-  ierr = DMGetLocalSection(dm, &sec);
-  //Change to field name
-  ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
-  ierr = VecView(U,viewer);CHKERRQ(ierr);
+  ierr = VecGetDM(U, &u_dm); CHKERRQ(ierr);
+  if (u_dm) {
+    ierr = PetscObjectSetName((PetscObject) U,word);CHKERRQ(ierr);
+    ierr = DMGetLocalSection(dm, &sec);
+    //Change to field name
+    ierr = PetscSectionSetFieldName(sec, 0, VariableName); CHKERRQ(ierr);
+    ierr = VecView(U,viewer);CHKERRQ(ierr);
+  } else { // a scalar field without a DM goes beside the fields of the DM
+    sprintf(dataset,"%s_%s",word,VariableName);
+    ierr = PetscObjectSetName((PetscObject) U,dataset);CHKERRQ(ierr);
+    ierr = PetscViewerHDF5PushGroup(viewer,"/cell_fields");CHKERRQ(ierr);
+    ierr = VecView(U,viewer);CHKERRQ(ierr);
+    ierr = PetscViewerHDF5PopGroup(viewer);CHKERRQ(ierr);
+  }
 
   ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
 
   if (rank == 0){
     ierr = VecGetSize(U, &numCell);CHKERRQ(ierr);
-    ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(U, &bs);CHKERRQ(ierr);
+    ierr = TDyIOWriteXMFAttribute(VariableName,word,numCell/bs);CHKERRQ(ierr);
   }
 
   PetscFunctionReturn(0);
-- 
2.43.0


From e8b7d5d88f56fb539d5a428c7c2d2ee37ea5acd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:43 +0000
Subject: [PATCH 45/57] fix: the description of the output file is written
 once, and only with the file

---
 src/tdyio.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index f0fb6e3..5a3e26c 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -386,7 +386,9 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
   char *zonalVarNames[num_vars];
 
-  PetscInt dim,istart,iend,numCell,numVert,numCorner;
+  PetscInt dim,numCell,numVert,numCorner,bs;
+  PetscMPIInt rank;
+  Vec coordinates;
 
   for (n=0;n<num_vars;++n){
     zonalVarNames[n] =  tdy->io->zonalVarNames[n];
@@ -402,12 +404,18 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     char *ofilename = tdy->io->filename;
     numCorner = TDyGetNumberOfCellVertices(dm);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
-    ierr = DMPlexGetHeightStratum(dm,3,&istart,&iend);CHKERRQ(ierr);
-    numVert = iend-istart;
+    ierr = DMGetCoordinates(dm,&coordinates);CHKERRQ(ierr);
+    ierr = VecGetSize(coordinates,&numVert);CHKERRQ(ierr);
+    numVert /= dim;
     ierr = VecGetSize(tdy->soln_prev, &numCell);CHKERRQ(ierr);
+    ierr = VecGetBlockSize(tdy->soln_prev, &bs);CHKERRQ(ierr);
+    numCell /= bs;
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
-    ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
+    if (rank == 0) {
+      ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
+    }
   }
 
   PetscFunctionReturn(0);
@@ -727,7 +735,12 @@ PetscErrorCode TDyIOWriteXMFFooter(){
 
 PetscErrorCode TDyIODestroy(TDyIO *io) {
   PetscFunctionBegin;
-  TDyIOWriteXMFFooter();
+  // Only the process that describes the output file completes the description.
+  PetscMPIInt rank;
+  MPI_Comm_rank(PETSC_COMM_WORLD,&rank);
+  if (*io && (*io)->format == HDF5Format && rank == 0) {
+    TDyIOWriteXMFFooter();
+  }
   TDyFree(*io);
   io = PETSC_NULL;
   PetscFunctionReturn(0);
-- 
2.43.0


From 4d4a86d9c07ade73a4cfe85611f2dd8ef29952df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 46/57] fix: the output file describes the cells in the order
 of its fields

---
 src/tdyio.c | 48 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 5a3e26c..5a06814 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -375,6 +375,48 @@ PetscErrorCode TDyIOOutputCheckpoint(TDy tdy){
   PetscFunctionReturn(0);
 }
 
+// PETSc describes the cells of a distributed mesh in the order of their owners.
+// This puts the description in the (natural) order of the fields in the file.
+static PetscErrorCode TDyIOPutCellsInNaturalOrder(TDy tdy, char *ofilename, PetscInt numCorner) {
+  PetscFunctionBegin;
+  PetscErrorCode ierr;
+  PetscViewer viewer;
+  Vec cells, corner, global, natural;
+  PetscInt n, bs;
+
+  ierr = TDyCreateGlobalVector(tdy,&global);CHKERRQ(ierr);
+  ierr = VecDuplicate(global,&natural);CHKERRQ(ierr);
+  ierr = VecGetLocalSize(global,&n);CHKERRQ(ierr);
+  ierr = VecGetBlockSize(global,&bs);CHKERRQ(ierr);
+  n /= bs;
+  ierr = VecCreateMPI(PETSC_COMM_WORLD,n,PETSC_DETERMINE,&corner);CHKERRQ(ierr);
+  ierr = VecCreate(PETSC_COMM_WORLD,&cells);CHKERRQ(ierr);
+  ierr = VecSetSizes(cells,n*numCorner,PETSC_DETERMINE);CHKERRQ(ierr);
+  ierr = VecSetBlockSize(cells,numCorner);CHKERRQ(ierr);
+  ierr = PetscObjectSetName((PetscObject)cells,"cells");CHKERRQ(ierr);
+
+  ierr = PetscViewerHDF5Open(PETSC_COMM_WORLD,ofilename,FILE_MODE_APPEND,&viewer);CHKERRQ(ierr);
+  ierr = PetscViewerHDF5PushGroup(viewer,"/viz/topology");CHKERRQ(ierr);
+  ierr = VecLoad(cells,viewer);CHKERRQ(ierr);
+  for (PetscInt i=0; i<numCorner; ++i) {
+    ierr = VecStrideGather(cells,i,corner,INSERT_VALUES);CHKERRQ(ierr);
+    ierr = VecStrideScatter(corner,0,global,INSERT_VALUES);CHKERRQ(ierr);
+    ierr = TDyGlobalToNatural(tdy,global,natural);CHKERRQ(ierr);
+    ierr = VecStrideGather(natural,0,corner,INSERT_VALUES);CHKERRQ(ierr);
+    ierr = VecStrideScatter(corner,i,cells,INSERT_VALUES);CHKERRQ(ierr);
+  }
+  ierr = VecView(cells,viewer);CHKERRQ(ierr);
+  ierr = PetscViewerHDF5PopGroup(viewer);CHKERRQ(ierr);
+  ierr = PetscViewerDestroy(&viewer);CHKERRQ(ierr);
+
+  ierr = VecDestroy(&cells);CHKERRQ(ierr);
+  ierr = VecDestroy(&corner);CHKERRQ(ierr);
+  ierr = VecDestroy(&global);CHKERRQ(ierr);
+  ierr = VecDestroy(&natural);CHKERRQ(ierr);
+
+  PetscFunctionReturn(0);
+}
+
 PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   PetscFunctionBegin;
   PetscErrorCode ierr;
@@ -387,7 +429,7 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
   char *zonalVarNames[num_vars];
 
   PetscInt dim,numCell,numVert,numCorner,bs;
-  PetscMPIInt rank;
+  PetscMPIInt rank,size;
   Vec coordinates;
 
   for (n=0;n<num_vars;++n){
@@ -412,6 +454,10 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     numCell /= bs;
 
     ierr = TDyIOInitializeHDF5(ofilename,dm);CHKERRQ(ierr);
+    ierr = MPI_Comm_size(PETSC_COMM_WORLD,&size); CHKERRQ(ierr);
+    if (size > 1) {
+      ierr = TDyIOPutCellsInNaturalOrder(tdy,ofilename,numCorner);CHKERRQ(ierr);
+    }
     ierr = MPI_Comm_rank(PETSC_COMM_WORLD,&rank); CHKERRQ(ierr);
     if (rank == 0) {
       ierr = TDyIOWriteXMFHeader(numCell,dim,numVert,numCorner);CHKERRQ(ierr);
-- 
2.43.0


From 40568169eabf166a43288dfb8e8537ea743cf6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 47/57] fix: permeability files can be read for meshes from
 files

---
 src/tdyio.c | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 5a06814..95f940c 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -168,7 +168,7 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
   char VariableNameX[PETSC_MAX_PATH_LEN];
   char VariableNameY[PETSC_MAX_PATH_LEN];
   char VariableNameZ[PETSC_MAX_PATH_LEN];
-  PetscInt dim;
+  PetscInt dim = 3; // of the tensors (see MaterialPropCreate)
   size_t len;
   char *filename = tdy->io->permeability_filename;
 
@@ -179,12 +179,6 @@ PetscErrorCode TDyIOReadPermeability(TDy tdy){
     strcpy(VariableName, tdy->io->permeability_dataset);
   }
 
-  DM dm;
-  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
-  ierr = DMGetDimension(dm, &dim);
-  PetscInt cStart,cEnd;
-  ierr = DMPlexGetHeightStratum(dm,0,&cStart,&cEnd);CHKERRQ(ierr);
-
   if (tdy->io->anisotropic_permeability) {
     // Set up a function/context that assigns a diagonal anisotropic
     // permeability to each cell.
-- 
2.43.0


From 86f50b77565ac7653f49a625ea725da2bcb75ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 48/57] fix: output holds the saturation of the solution it is
 written with

---
 src/tdyio.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/tdyio.c b/src/tdyio.c
index 95f940c..0c3208b 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -476,7 +476,28 @@ PetscErrorCode TDyIOWriteVec(TDy tdy){
     zonalVarNames[i] =  tdy->io->zonalVarNames[i];
   }
 
-  // Make sure the diagnostics are up to date.
+  // Make sure the diagnostics are up to date with the solution.
+  Vec p_local, u_local;
+  PetscReal *u;
+  PetscInt n, bs;
+  ierr = TDyCreateLocalVector(tdy, &p_local); CHKERRQ(ierr);
+  ierr = TDyGlobalToLocal(tdy, p, p_local); CHKERRQ(ierr);
+  ierr = VecGetLocalSize(p_local, &n); CHKERRQ(ierr);
+  ierr = VecGetBlockSize(p, &bs); CHKERRQ(ierr);
+  u_local = p_local;
+  if (tdy->options.discretization == MPFA_O_DAE) {
+    // The state is computed from the pressures only.
+    ierr = VecSetBlockSize(p_local, bs); CHKERRQ(ierr);
+    ierr = VecCreateSeq(PETSC_COMM_SELF, n/bs, &u_local); CHKERRQ(ierr);
+    ierr = VecStrideGather(p_local, 0, u_local, INSERT_VALUES); CHKERRQ(ierr);
+  }
+  ierr = VecGetArray(u_local, &u); CHKERRQ(ierr);
+  ierr = TDyUpdateState(tdy, u, n/bs); CHKERRQ(ierr);
+  ierr = VecRestoreArray(u_local, &u); CHKERRQ(ierr);
+  if (u_local != p_local) {
+    ierr = VecDestroy(&u_local); CHKERRQ(ierr);
+  }
+  ierr = VecDestroy(&p_local); CHKERRQ(ierr);
   ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
 
   // Extract the liquid saturation.
-- 
2.43.0


From 21e189e4b6473a9799a7e1564f44a3e21a99f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 49/57] fix: output files can be written when a process has no
 cells

---
 src/tdyio.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tdyio.c b/src/tdyio.c
index 0c3208b..5e86468 100644
--- a/src/tdyio.c
+++ b/src/tdyio.c
@@ -439,6 +439,8 @@ PetscErrorCode TDyIOSetMode(TDy tdy, TDyIOFormat format){
     strcpy(tdy->io->filename, "out.h5");
     char *ofilename = tdy->io->filename;
     numCorner = TDyGetNumberOfCellVertices(dm);
+    // (a process may have no cells)
+    ierr = MPI_Allreduce(MPI_IN_PLACE,&numCorner,1,MPIU_INT,MPI_MAX,PETSC_COMM_WORLD);CHKERRQ(ierr);
     ierr = DMGetDimension(dm,&dim);CHKERRQ(ierr);
     ierr = DMGetCoordinates(dm,&coordinates);CHKERRQ(ierr);
     ierr = VecGetSize(coordinates,&numVert);CHKERRQ(ierr);
-- 
2.43.0


From 759eb4848d6e5dd38bf6134a1e663d31b3635a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 50/57] fix: the unit vectors across the faces have room for
 three components

---
 src/fv/share/tdymesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/share/tdymesh.c b/src/fv/share/tdymesh.c
index 1306f79..afdbb64 100644
--- a/src/fv/share/tdymesh.c
+++ b/src/fv/share/tdymesh.c
@@ -292,7 +292,7 @@ PetscErrorCode AllocateFaces(
   ierr = TDyAllocate_RealArray_1D(&faces->dist,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_1D(&faces->dist_wt_up,num_faces); CHKERRQ(ierr);
   ierr = TDyAllocate_RealArray_2D(&faces->dist_up_dn,num_faces,2); CHKERRQ(ierr);
-  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,2); CHKERRQ(ierr);
+  ierr = TDyAllocate_RealArray_2D(&faces->unit_vec_up_dn,num_faces,3); CHKERRQ(ierr);
 
   ierr = TDyAllocate_TDyCoordinate_1D(num_faces, &faces->centroid); CHKERRQ(ierr);
   ierr = TDyAllocate_TDyVector_1D(num_faces, &faces->normal); CHKERRQ(ierr);
-- 
2.43.0


From 4544773572e306ed1b594b6fa97be9cbd8e69a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 51/57] fix: a fixed-pressure face of FV-TPF uses its own
 boundary values

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 6d4f7f9..4c90dc0 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -179,7 +179,7 @@ PetscErrorCode RichardsBCResidual(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
 
   PetscInt *cell_ids, num_face_cells;
   ierr = TDyMeshGetFaceCells(fvtpf->mesh, face_id, &cell_ids, &num_face_cells); CHKERRQ(ierr);
-  PetscInt cell_id_up = -cell_ids[0] + 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
+  PetscInt cell_id_up = -cell_ids[0] - 1; // cell up is a boundary cell with negative ids, determine the id to use from *_bnd variables
   PetscInt cell_id_dn = cell_ids[1];      // cell dn is an internal cell
 
   PetscReal dist_gravity, upweight;
-- 
2.43.0


From fd882c582733ea63d5b6b0d68762ccb1795c24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 52/57] fix: the Jacobian of FV-TPF has the inflow through
 fixed-pressure faces

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index 4c90dc0..cbe07bf 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -415,6 +415,7 @@ PetscErrorCode RichardsBCJacobian(TDyFVTPF *fvtpf, DM dm, MaterialProp *matprop,
     PetscReal dukvr_dp_dn = 0.0;
 
     if (dphi >= 0.0) {
+      ukvr = fvtpf->Kr_bnd[cell_id_up]/fvtpf->vis_bnd[cell_id_up];
     } else {
       PetscReal Kr = fvtpf->Kr[cell_id_dn];
       PetscReal vis = fvtpf->vis[cell_id_dn];
-- 
2.43.0


From e378175592af011057c34b2328419983dc1a00a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:02 +0000
Subject: [PATCH 53/57] fix: no flux of FV-TPF is left unset between dry cells

---
 src/fv/fvtpf/tdyfvtpf_snes.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fv/fvtpf/tdyfvtpf_snes.c b/src/fv/fvtpf/tdyfvtpf_snes.c
index cbe07bf..c6c5248 100644
--- a/src/fv/fvtpf/tdyfvtpf_snes.c
+++ b/src/fv/fvtpf/tdyfvtpf_snes.c
@@ -576,7 +576,7 @@ PetscErrorCode TDyFVTPFSNESFunction(SNES snes,Vec U,Vec R,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Res;
+    PetscReal Res = 0.0;
     ierr = RichardsResidual(fvtpf, dm, tdy->matprop, iface, &Res);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -666,7 +666,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     PetscInt cell_id_up = cell_ids[0];
     PetscInt cell_id_dn = cell_ids[1];
 
-    PetscReal Jup, Jdn;
+    PetscReal Jup = 0.0, Jdn = 0.0;
     ierr = RichardsJacobian(fvtpf, dm, tdy->matprop, iface, &Jup, &Jdn);
 
     if (cell_id_up >= 0 && cells->is_local[cell_id_up]) {
@@ -695,7 +695,7 @@ PetscErrorCode TDyFVTPFSNESJacobian(SNES snes,Vec U,Mat A, Mat B,void *ctx) {
     ierr = TDyMeshGetFaceCells(mesh, iface, &cell_ids, &num_face_cells); CHKERRQ(ierr);
 
     PetscInt cell_id_dn = cell_ids[1];
-    PetscReal Jdn;
+    PetscReal Jdn = 0.0;
     switch (faces->bc_type[iface]) {
     case DIRICHLET_BC:
       ierr = RichardsBCJacobian(fvtpf, dm, tdy->matprop, iface, &Jdn);
-- 
2.43.0


From 3cda732583222bbfd18a89cf8ea4cf08b48883c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 54/57] fix: functions of position can be used for meshes from
 files

---
 src/fv/fvtpf/tdyfvtpf.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index 97b8737..d8b1428 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -473,7 +473,18 @@ PetscErrorCode TDySetup_Richards_FVTPF(void *context, TDyDiscretizationType *dis
 
     case TDYCORE_DM_TYPE:
     ierr = PetscPrintf(PETSC_COMM_WORLD,"  Creating Mesh using DMShell\n");
-    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh);
+    ierr = TDyMeshCreateFromDiscretization(discretization, &fvtpf->mesh); CHKERRQ(ierr);
+
+    // Keep the volumes and centroids of the cells, as for a DMPlex.
+    PetscInt num_cells = fvtpf->mesh->num_cells;
+    ierr = TDyAllocate_RealArray_1D(&fvtpf->V, num_cells); CHKERRQ(ierr);
+    ierr = TDyAllocate_RealArray_1D(&fvtpf->X, 3*num_cells); CHKERRQ(ierr);
+    for (PetscInt c = 0; c < num_cells; ++c) {
+      fvtpf->V[c] = fvtpf->mesh->cells.volume[c];
+      for (PetscInt d = 0; d < 3; ++d) {
+        fvtpf->X[3*c+d] = fvtpf->mesh->cells.centroid[c].X[d];
+      }
+    }
     break;
 
     default:
-- 
2.43.0


From 3de10d101937b9c0aed325598025aa26f8ec3abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 55/57] fix: the type of boundary condition given for FV-TPF is
 used

---
 src/fv/fvtpf/tdyfvtpf.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fv/fvtpf/tdyfvtpf.c b/src/fv/fvtpf/tdyfvtpf.c
index d8b1428..571fa80 100644
--- a/src/fv/fvtpf/tdyfvtpf.c
+++ b/src/fv/fvtpf/tdyfvtpf.c
@@ -331,7 +331,13 @@ static PetscErrorCode AllocateMemoryForSourceSinkValues(TDyFVTPF *fvtpf) {
 
 static PetscErrorCode SetFaceBoundaryConditionType(TDyFVTPF *fvtpf, Conditions *condition) {
 
-  if (ConditionsHasBoundaryPressureType(condition)) {
+  if (!ConditionsHasBoundaryPressureType(condition)) {
+    // use the type given by the options on the whole boundary
+    TDyFace *faces = &fvtpf->mesh->faces;
+    for (PetscInt iface=0; iface<fvtpf->mesh->num_faces; iface++) {
+      if (!faces->is_internal[iface]) faces->bc_type[iface] = fvtpf->bc_type;
+    }
+  } else if (ConditionsHasBoundaryPressureType(condition)) {
     TDyMesh  *mesh = fvtpf->mesh;
     TDyFace  *faces = &mesh->faces;
     PetscErrorCode ierr;
-- 
2.43.0


From 1989d5b58e59b33cefba673272850f7fc987fd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:24 +0000
Subject: [PATCH 56/57] fix: a vertex of a mesh from a file can be shared by
 any number of cells

---
 src/fv/share/tdymeshcustom.c | 36 ++++++++++++++++++++++++++++++++----
 src/fv/share/tdyugrid.c      |  2 +-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/fv/share/tdymeshcustom.c b/src/fv/share/tdymeshcustom.c
index 69e4870..5aed16e 100644
--- a/src/fv/share/tdymeshcustom.c
+++ b/src/fv/share/tdymeshcustom.c
@@ -784,6 +784,37 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
   PetscFunctionReturn(0);
 }
 
+/// Finds the largest number of cells that share a vertex
+///
+/// @param [inout] ugrid A TDyUGrid struct
+///
+/// @returns 0 on success, or a non-zero error code on failure
+static PetscErrorCode ComputeMaxCellsSharingAVertex(TDyUGrid *ugrid) {
+
+  PetscErrorCode ierr;
+  PetscInt *num_cells;
+
+  ierr = TDyAllocate_IntegerArray_1D(&num_cells, ugrid->num_verts_local); CHKERRQ(ierr);
+  for (PetscInt ivertex=0; ivertex<ugrid->num_verts_local; ivertex++) {
+    num_cells[ivertex] = 0;
+  }
+
+  ugrid->max_cells_sharing_a_vertex = 0;
+  for (PetscInt icell=0; icell<ugrid->num_cells_global; icell++) {
+    for (PetscInt ivertex=0; ivertex<ugrid->cell_num_vertices[icell]; ivertex++) {
+      PetscInt vertex_id = ugrid->cell_vertices[icell][ivertex];
+
+      if (vertex_id < 0) continue;
+
+      num_cells[vertex_id]++;
+      ugrid->max_cells_sharing_a_vertex = PetscMax(ugrid->max_cells_sharing_a_vertex, num_cells[vertex_id]);
+    }
+  }
+  TDyFree(num_cells);
+
+  PetscFunctionReturn(0);
+}
+
 /// Creates a mapping to find cell IDs that share a vertex
 ///
 /// @param [in] ugrid A TDyUGrid struct
@@ -794,7 +825,6 @@ static PetscErrorCode UpdateMapsC2F_F2C_F2V(TDyUGrid *ugrid, PetscInt **cell_to_
 static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell, PetscInt **vertex_to_cell) {
 
   PetscInt num_vertices_local = ugrid->num_verts_local;
-  PetscInt max_cells_sharing_a_vertex = ugrid->max_cells_sharing_a_vertex;
   PetscInt ngmax = ugrid->num_cells_global;
 
   for (PetscInt ivertex=0; ivertex<num_vertices_local; ivertex++){
@@ -814,9 +844,6 @@ static PetscErrorCode SetupMap_V2C(TDyUGrid *ugrid, PetscInt *num_vertex_to_cell
       vertex_to_cell[idx][vertex_id] = icell;
 
       num_vertex_to_cell[vertex_id]++;
-      if (num_vertex_to_cell[ivertex] > max_cells_sharing_a_vertex) {
-        SETERRQ(PETSC_COMM_WORLD,PETSC_ERR_USER,"Vertex is shared by more than max_cells_sharing_a_vertex");
-      }
     }
   }
 
@@ -1241,6 +1268,7 @@ static PetscErrorCode TDySetupFacesFromDiscretization(TDyDiscretizationType *dis
   PetscInt num_vertices_local = ugrid->num_verts_local;
   PetscInt ngmax = ugrid->num_cells_global;
 
+  ierr = ComputeMaxCellsSharingAVertex(ugrid); CHKERRQ(ierr);
   PetscInt max_cells_sharing_a_vertex = ugrid->max_cells_sharing_a_vertex;
   PetscInt max_vert_per_face = ugrid->max_vert_per_face;
   PetscInt max_face_per_cell = ugrid->max_face_per_cell;
diff --git a/src/fv/share/tdyugrid.c b/src/fv/share/tdyugrid.c
index 4f7f584..afb97a9 100644
--- a/src/fv/share/tdyugrid.c
+++ b/src/fv/share/tdyugrid.c
@@ -46,7 +46,7 @@ PetscErrorCode TDyUGridCreate(TDyUGrid **ugrid) {
 
   (*ugrid)->ao_natural_to_petsc = NULL;
 
-  (*ugrid)->max_cells_sharing_a_vertex = 24;
+  (*ugrid)->max_cells_sharing_a_vertex = 0;
   (*ugrid)->max_vert_per_face = 4;
   (*ugrid)->max_face_per_cell = 6;
 
-- 
2.43.0


From 872708ffc673aaf24d9ced03329549608016006f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 57/57] fix: in the TH Jacobian the head does not rise with
 temperature as with pressure

---
 src/fv/mpfao/tdympfao_th_ts.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fv/mpfao/tdympfao_th_ts.c b/src/fv/mpfao/tdympfao_th_ts.c
index 94b19ee..06b631c 100644
--- a/src/fv/mpfao/tdympfao_th_ts.c
+++ b/src/fv/mpfao/tdympfao_th_ts.c
@@ -494,7 +494,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[2] =
             dden_dTup * ukvr       * TtimesP[irow] +
             den       * dukvr_dTup * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) ;
+            den       * ukvr       * T * dden_dTup * gz ;
           Jac[1] =
             dden_dPup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPup * TtimesP[irow]            * uh +
@@ -503,7 +503,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[3] =
             dden_dTup * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTup * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTup*gz) * uh +
+            den       * ukvr       * T * dden_dTup * gz * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTup;
         } else if (cell_id_dn > -1 && cell_id == cell_id_dn) {
           Jac[0] =
@@ -513,7 +513,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[2] =
             dden_dTdn * ukvr       * TtimesP[irow] +
             den       * dukvr_dTdn * TtimesP[irow] +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) ;
+            den       * ukvr       * T * dden_dTdn * gz ;
           Jac[1] =
             dden_dPdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dPdn * TtimesP[irow]            * uh +
@@ -522,7 +522,7 @@ PetscErrorCode TDyMPFAOIJacobian_Vertices_TH(Vec Ul, Mat A, void *ctx) {
           Jac[3] =
             dden_dTdn * ukvr       * TtimesP[irow]            * uh +
             den       * dukvr_dTdn * TtimesP[irow]            * uh +
-            den       * ukvr       * T * (1.0 + dden_dTdn*gz) * uh +
+            den       * ukvr       * T * dden_dTdn * gz * uh +
             den       * ukvr       * TtimesP[irow]            * duh_dTdn;
         } else {
           Jac[0] = den * ukvr * T * (1.0 + 0.*gz);
-- 
2.43.0

