/* Run the transient driver flow and record every solver call, every accepted step and the clock.
   PETSc's own SNESSolve is wrapped at link time (-Wl,--wrap=SNESSolve), to observe and to inject failures. */
#include "common.h"
#include <private/tdycoreimpl.h>
#include <private/tdytiimpl.h>
#include <string.h>

static TDy g_tdy = NULL;
static PetscInt ncall = 0, nfail = 0, failat[64], dumpv = 1;
static PetscInt tsn = 0;
PetscErrorCode __real_SNESSolve(SNES, Vec, Vec);
PetscErrorCode __wrap_SNESSolve(SNES snes, Vec b, Vec x) {
  PetscErrorCode ierr; PetscBool inj = PETSC_FALSE; SNESConvergedReason r; PetscInt it;
  PetscFunctionBegin;
  PetscBool mine = (g_tdy && g_tdy->ti && g_tdy->ti->time_integration_method == TDySNES) ? PETSC_TRUE : PETSC_FALSE;
  if (mine) {
    HOUT("X B %d %.17g %.17g %d\n", (int)ncall, g_tdy->ti->time, g_tdy->dtime, (int)g_tdy->ti->istep);
    if (dumpv) { ierr = H_dump_vec("prev", ncall, g_tdy->soln_prev); CHKERRQ(ierr); ierr = H_dump_vec("guess", ncall, x); CHKERRQ(ierr); }
  }
  ierr = __real_SNESSolve(snes, b, x); CHKERRQ(ierr);
  for (PetscInt i = 0; i < nfail; i++) if (failat[i] == ncall) inj = PETSC_TRUE;
  if (mine && inj) {
    PetscScalar *a; PetscInt n;
    ierr = VecGetLocalSize(x, &n); CHKERRQ(ierr); ierr = VecGetArray(x, &a); CHKERRQ(ierr);
    for (PetscInt i = 0; i < n; i++) a[i] = a[i]*1.5 + 777.0;   /* what a diverged solve leaves behind */
    ierr = VecRestoreArray(x, &a); CHKERRQ(ierr);
    ierr = SNESSetConvergedReason(snes, SNES_DIVERGED_MAX_IT); CHKERRQ(ierr);
  }
  ierr = SNESGetConvergedReason(snes, &r); CHKERRQ(ierr);
  ierr = SNESGetIterationNumber(snes, &it); CHKERRQ(ierr);
  if (mine) {
    HOUT("X E %d %d %d %d\n", (int)ncall, (int)r, (int)it, (int)inj);
    if (dumpv) { ierr = H_dump_vec("sol", ncall, x); CHKERRQ(ierr); }
    ncall++;
  }
  PetscFunctionReturn(0);
}
static PetscErrorCode mon(TS ts, PetscInt step, PetscReal t, Vec u, void *ctx) {
  PetscErrorCode ierr; PetscReal dt;
  PetscFunctionBegin;
  ierr = TSGetTimeStep(ts, &dt); CHKERRQ(ierr);
  HOUT("X T %d %d %.17g %.17g\n", (int)tsn, (int)step, t, dt);
  if (dumpv) { ierr = H_dump_vec("tsol", tsn, u); CHKERRQ(ierr); }
  tsn++;
  PetscFunctionReturn(0);
}

int main(int argc, char **argv) {
  PetscErrorCode ierr; TDy tdy; PetscInt mode = RICHARDS, disc = MPFA_O, nbc = -1, ngm = -1, bs = 1, ns = 16, one = 1, diag = 0, mat = 1, ic = 1, writes = 0;
  PetscReal sync[16]; PetscBool f, reg = PETSC_FALSE;
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  H_fields_from_options();
  ierr = H_open(); CHKERRQ(ierr);
  ierr = H_enum("-h_mode", TDyModes, &mode); CHKERRQ(ierr);
  ierr = H_enum("-h_disc", TDyDiscretizations, &disc); CHKERRQ(ierr);
  ierr = H_enum("-h_bctype", TDyBoundaryConditionTypes, &nbc); CHKERRQ(ierr);
  ierr = H_enum("-h_gmatrix", TDyMPFAOGmatrixMethods, &ngm); CHKERRQ(ierr);
  PetscOptionsGetRealArray(NULL,NULL,"-h_sync",sync,&ns,&f); if (!f) ns = 0;
  nfail = 64; PetscOptionsGetIntArray(NULL,NULL,"-h_failat",failat,&nfail,&f); if (!f) nfail = 0;
  PetscOptionsGetInt(NULL,NULL,"-h_dumpv",&dumpv,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_diag",&diag,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_mat",&mat,NULL);      /* 0: leave materials to the driver's options */
  PetscOptionsGetInt(NULL,NULL,"-h_ic",&ic,NULL);        /* 0: leave the initial condition to the driver */
  PetscOptionsGetInt(NULL,NULL,"-h_writes",&writes,NULL);
  PetscOptionsHasName(NULL,NULL,"-h_reg",&reg);
  PetscBool nodm = PETSC_FALSE; PetscOptionsHasName(NULL,NULL,"-h_nodm",&nodm);
  ierr = TDyCreate(PETSC_COMM_WORLD, &tdy); CHKERRQ(ierr);
  ierr = TDySetMode(tdy, (TDyMode)mode); CHKERRQ(ierr);
  ierr = TDySetDiscretization(tdy, (TDyDiscretization)disc); CHKERRQ(ierr);
  if (!nodm) { ierr = TDySetDMConstructor(tdy, NULL, H_dm); CHKERRQ(ierr); }
  ierr = TDySetFromOptions(tdy); CHKERRQ(ierr);
  ierr = H_check_cells(tdy); CHKERRQ(ierr);
  if (nbc >= 0) { ierr = TDyMPFAOSetBoundaryConditionType(tdy, (TDyBoundaryConditionType)nbc); CHKERRQ(ierr); }
  if (ngm >= 0) { ierr = TDyMPFAOSetGmatrixMethod(tdy, (TDyMPFAOGmatrixMethod)ngm); CHKERRQ(ierr); }
  if (mat) { ierr = H_apply_materials(tdy, mode); CHKERRQ(ierr); }
  ierr = H_apply_conditions(tdy, mode); CHKERRQ(ierr);
  ierr = TDyDriverInitializeTDy(tdy); CHKERRQ(ierr);
  ierr = H_dump_mesh(tdy, &bs); CHKERRQ(ierr);
  if (ic) {
    int su[3] = {S_P, mode == SALINITY ? S_C : S_T, -1};
    if (H_has(S_P)) {
      ierr = H_fill(tdy, tdy->soln, bs, su, 0); CHKERRQ(ierr);
      ierr = TDySetPreviousSolutionForSNESSolver(tdy, tdy->soln); CHKERRQ(ierr);
    }
  }
  if (tdy->ti->time_integration_method == TDyTS) { ierr = TSMonitorSet(tdy->ti->ts, mon, NULL, NULL); CHKERRQ(ierr); }
  g_tdy = tdy;
  ierr = H_dump_vec("init", 0, tdy->soln); CHKERRQ(ierr);
  HOUT("X I %.17g %.17g %.17g\n", tdy->ti->time, tdy->ti->dt, tdy->ti->final_time);
  if (writes) { ierr = TDyIOSetIOProcess(tdy->io, PETSC_TRUE); CHKERRQ(ierr); ierr = TDyIOSetMode(tdy, writes == 2 ? PetscViewerASCIIFormat : HDF5Format); CHKERRQ(ierr); ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr); }
  if (!ns) { ns = 1; sync[0] = tdy->ti->final_time; }
  for (PetscInt i = 0; i < ns; i++) {
    ierr = TDyTimeIntegratorRunToTime(tdy, sync[i]); CHKERRQ(ierr);
    HOUT("X R %d %.17g %.17g %.17g %d %d\n", (int)i, sync[i], tdy->ti->time, tdy->ti->dt, (int)tdy->ti->istep, (int)ncall);
    ierr = H_dump_vec("end", i, tdy->soln); CHKERRQ(ierr);
    ierr = H_dump_vec("endprev", i, tdy->soln_prev); CHKERRQ(ierr);
    if (diag) {
      Vec d; ierr = TDyCreateDiagnosticVector(tdy, &d); CHKERRQ(ierr);
      ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
      ierr = TDyGetLiquidSaturation(tdy, d); CHKERRQ(ierr); ierr = H_dump_vec("sat", i, d); CHKERRQ(ierr);
      ierr = TDyGetLiquidMass(tdy, d); CHKERRQ(ierr); ierr = H_dump_vec("mass", i, d); CHKERRQ(ierr);
      ierr = TDyGetLiquidPressure(tdy, d); CHKERRQ(ierr); ierr = H_dump_vec("pres", i, d); CHKERRQ(ierr);
      ierr = VecDestroy(&d); CHKERRQ(ierr);
    }
    if (writes) { ierr = TDyIOWriteVec(tdy); CHKERRQ(ierr); }
  }
  (void)one;
  if (reg) { ierr = TDyOutputRegression(tdy, tdy->soln_prev); CHKERRQ(ierr); }
  g_tdy = NULL;
  HOUT("DONE\n");
  ierr = TDyDestroy(&tdy); CHKERRQ(ierr);
  if (H_out) fclose(H_out);
  ierr = TDyFinalize(); CHKERRQ(ierr);
  return 0;
}
