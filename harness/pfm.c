/* Residuals and Jacobians on a mesh read from a PFLOTRAN file; states come in, and results go out, in the order of the file. */
#include "common.h"

static PetscErrorCode state(TDy tdy, PetscViewer in, Vec n, Vec g) {
  PetscErrorCode ierr;
  PetscFunctionBegin;
  ierr = VecLoad(n, in); CHKERRQ(ierr);
  ierr = TDySetInitialCondition(tdy, n); CHKERRQ(ierr);
  ierr = TDyGetInitialCondition(tdy, g); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
static PetscErrorCode once(PetscInt base) {
  PetscErrorCode ierr; TDy tdy; PetscInt mode = RICHARDS, disc = MPFA_O, nst = 1, jac = 0, ts_ = 0, nbc = -1, ngm = -1, nodm = 0; PetscReal dt = 1000.0, shift = 1e-6; char f[256] = "";
  PetscFunctionBegin;
  ierr = H_enum("-h_mode", TDyModes, &mode); CHKERRQ(ierr);
  ierr = H_enum("-h_disc", TDyDiscretizations, &disc); CHKERRQ(ierr);
  ierr = H_enum("-h_bctype", TDyBoundaryConditionTypes, &nbc); CHKERRQ(ierr);
  ierr = H_enum("-h_gmatrix", TDyMPFAOGmatrixMethods, &ngm); CHKERRQ(ierr);
  PetscOptionsGetInt(NULL,NULL,"-h_nstate",&nst,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_jac",&jac,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_ts",&ts_,NULL);
  PetscOptionsGetReal(NULL,NULL,"-h_dt",&dt,NULL);
  PetscOptionsGetReal(NULL,NULL,"-h_shift",&shift,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_plex",&nodm,NULL);
  PetscOptionsGetString(NULL,NULL,"-h_vec",f,sizeof f,NULL);
  ierr = TDyCreate(PETSC_COMM_WORLD, &tdy); CHKERRQ(ierr);
  ierr = TDySetMode(tdy, (TDyMode)mode); CHKERRQ(ierr);
  ierr = TDySetDiscretization(tdy, (TDyDiscretization)disc); CHKERRQ(ierr);
  if (nodm) { ierr = TDySetDMConstructor(tdy, NULL, H_dm); CHKERRQ(ierr); }
  ierr = TDySetFromOptions(tdy); CHKERRQ(ierr);
  if (ngm >= 0) { ierr = TDyMPFAOSetGmatrixMethod(tdy, (TDyMPFAOGmatrixMethod)ngm); CHKERRQ(ierr); }
  if (nbc >= 0) { ierr = TDyMPFAOSetBoundaryConditionType(tdy, (TDyBoundaryConditionType)nbc); CHKERRQ(ierr); }
  ierr = H_apply_materials(tdy, mode); CHKERRQ(ierr);
  ierr = H_apply_conditions(tdy, mode); CHKERRQ(ierr);
  ierr = TDySetup(tdy); CHKERRQ(ierr);
  ierr = TDyCreateVectors(tdy); CHKERRQ(ierr);
  ierr = TDyCreateJacobian(tdy); CHKERRQ(ierr);
  Vec U, Up, F, Ud, n; Mat J; PetscInt rs, re;
  ierr = TDyCreatePrognosticVector(tdy, &U); CHKERRQ(ierr);
  ierr = VecDuplicate(U, &Up); CHKERRQ(ierr); ierr = VecDuplicate(U, &F); CHKERRQ(ierr);
  ierr = VecDuplicate(U, &Ud); CHKERRQ(ierr); ierr = VecDuplicate(U, &n); CHKERRQ(ierr);
  ierr = VecGetOwnershipRange(U, &rs, &re); CHKERRQ(ierr);
  for (PetscInt i = rs; i < re; i++) { ierr = VecSetValue(F, i, i, INSERT_VALUES); CHKERRQ(ierr); }
  ierr = VecAssemblyBegin(F); CHKERRQ(ierr); ierr = VecAssemblyEnd(F); CHKERRQ(ierr);
  ierr = TDyGlobalToNatural(tdy, F, n); CHKERRQ(ierr); ierr = H_dump_vec("where", base + 0, n); CHKERRQ(ierr);
  ierr = TDyCreateMatrix(tdy, &J); CHKERRQ(ierr);
  SNES snes = NULL; TS ts = NULL; DM dm;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  if (ts_) {
    ierr = TSCreate(PETSC_COMM_WORLD, &ts); CHKERRQ(ierr); ierr = TSSetDM(ts, dm); CHKERRQ(ierr); ierr = TSSetType(ts, TSBEULER); CHKERRQ(ierr);
    ierr = TDySetIFunction(ts, tdy); CHKERRQ(ierr);
    ierr = TDySetIJacobian(ts, tdy); CHKERRQ(ierr);
  } else {
    ierr = SNESCreate(PETSC_COMM_WORLD, &snes); CHKERRQ(ierr); ierr = TDySetSNESFunction(snes, tdy); CHKERRQ(ierr);
    if (jac) { ierr = TDySetSNESJacobian(snes, tdy); CHKERRQ(ierr); }
    ierr = TDySetDtimeForSNESSolver(tdy, dt); CHKERRQ(ierr);
  }
  PetscViewer in; ierr = PetscViewerBinaryOpen(PETSC_COMM_WORLD, f, FILE_MODE_READ, &in); CHKERRQ(ierr);
  for (PetscInt s = 0; s < nst; s++) {
    ierr = state(tdy, in, n, Up); CHKERRQ(ierr); if (ts_) { ierr = VecCopy(Up, Ud); CHKERRQ(ierr); }
    ierr = state(tdy, in, n, U); CHKERRQ(ierr);
    ierr = H_dump_vec("U", base + s, U); CHKERRQ(ierr);
    if (!ts_) { ierr = TDySetPreviousSolutionForSNESSolver(tdy, Up); CHKERRQ(ierr); ierr = TDyPreSolveSNESSolver(tdy); CHKERRQ(ierr); }
    ierr = ts_ ? TSComputeIFunction(ts, 0.0, U, Ud, F, PETSC_FALSE) : SNESComputeFunction(snes, U, F); CHKERRQ(ierr);
    ierr = VecSet(n, -7.0); CHKERRQ(ierr);
    ierr = TDyGlobalToNatural(tdy, F, n); CHKERRQ(ierr);
    ierr = H_dump_vec("F", base + s, n); CHKERRQ(ierr);
    if (jac) {
      Mat A, P;
      if (ts_) { ierr = TSGetIJacobian(ts, &A, &P, NULL, NULL); CHKERRQ(ierr); ierr = TSComputeIJacobian(ts, 0.0, U, Ud, shift, A, P, PETSC_FALSE); CHKERRQ(ierr); }
      else { ierr = SNESGetJacobian(snes, &A, &P, NULL, NULL); CHKERRQ(ierr); ierr = SNESComputeJacobian(snes, U, A, P); CHKERRQ(ierr); }
      ierr = H_dump_mat("J", base + s, P); CHKERRQ(ierr);
    }
  }
  ierr = PetscViewerDestroy(&in); CHKERRQ(ierr);
  ierr = VecDestroy(&U); CHKERRQ(ierr); ierr = VecDestroy(&Up); CHKERRQ(ierr); ierr = VecDestroy(&F); CHKERRQ(ierr); ierr = VecDestroy(&Ud); CHKERRQ(ierr); ierr = VecDestroy(&n); CHKERRQ(ierr);
  ierr = MatDestroy(&J); CHKERRQ(ierr);
  if (snes) { ierr = SNESDestroy(&snes); CHKERRQ(ierr); } if (ts) { ierr = TSDestroy(&ts); CHKERRQ(ierr); }
  ierr = TDyDestroy(&tdy); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
/* -h_rounds N: the whole life of a dycore N times, with the memory held by PETSc's allocator after each */
int main(int argc, char **argv) {
  PetscErrorCode ierr; PetscInt rounds = 1; PetscLogDouble m; int rank;
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
  H_fields_from_options();
  ierr = H_register(); CHKERRQ(ierr);
  ierr = H_open(); CHKERRQ(ierr);
  PetscOptionsGetInt(NULL,NULL,"-h_rounds",&rounds,NULL);
  for (PetscInt i = 0; i < rounds; i++) {
    ierr = once(i * 100); CHKERRQ(ierr);
    ierr = PetscMallocGetCurrentUsage(&m); CHKERRQ(ierr);
    HOUT("X M %d %d %.0f\n", (int)i, rank, m);
  }
  HOUT("DONE\n"); if (H_out) fclose(H_out);
  return TDyFinalize();
}
