/* Assemble residuals and Jacobians of the finite-volume discretisations at given states. */
#include "common.h"
#include <string.h>

int main(int argc, char **argv) {
  PetscErrorCode ierr; TDy tdy; PetscInt mode = RICHARDS, disc = MPFA_O, nst = 1, fd = 0, jac = 0, rep = 0, ts_ = 0, ngm = -1, nbc = -1, diag = 0, nojactwice = 0;
  PetscReal dt = 1000.0, shift = 1e-3;
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  H_fields_from_options();
  ierr = H_register(); CHKERRQ(ierr);
  ierr = H_open(); CHKERRQ(ierr);
  ierr = H_enum("-h_mode", TDyModes, &mode); CHKERRQ(ierr);
  ierr = H_enum("-h_disc", TDyDiscretizations, &disc); CHKERRQ(ierr);
  ierr = H_enum("-h_gmatrix", TDyMPFAOGmatrixMethods, &ngm); CHKERRQ(ierr);
  ierr = H_enum("-h_bctype", TDyBoundaryConditionTypes, &nbc); CHKERRQ(ierr);
  PetscOptionsGetInt(NULL,NULL,"-h_nstate",&nst,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_fd",&fd,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_jac",&jac,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_repeat",&rep,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_ts",&ts_,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_diag",&diag,NULL);
  PetscOptionsGetReal(NULL,NULL,"-h_dt",&dt,NULL);
  PetscOptionsGetReal(NULL,NULL,"-h_shift",&shift,NULL);
  ierr = TDyCreate(PETSC_COMM_WORLD, &tdy); CHKERRQ(ierr);
  PetscInt amode = mode, adisc = disc, arho = -1, amu = -1; /* what the public functions are given, when the options say something else */
  ierr = H_enum("-h_api_mode", TDyModes, &amode); CHKERRQ(ierr); ierr = H_enum("-h_api_disc", TDyDiscretizations, &adisc); CHKERRQ(ierr);
  ierr = H_enum("-h_api_density", TDyWaterDensityTypes, &arho); CHKERRQ(ierr); ierr = H_enum("-h_api_viscosity", TDyWaterViscosityTypes, &amu); CHKERRQ(ierr);
  ierr = TDySetMode(tdy, (TDyMode)amode); CHKERRQ(ierr);
  ierr = TDySetDiscretization(tdy, (TDyDiscretization)adisc); CHKERRQ(ierr);
  PetscBool nodm = PETSC_FALSE; PetscOptionsHasName(NULL,NULL,"-h_nodm",&nodm);
  if (!nodm) { ierr = TDySetDMConstructor(tdy, NULL, H_dm); CHKERRQ(ierr); }
  ierr = TDySetFromOptions(tdy); CHKERRQ(ierr);
  ierr = H_check_cells(tdy); CHKERRQ(ierr);
  if (ngm >= 0) { ierr = TDyMPFAOSetGmatrixMethod(tdy, (TDyMPFAOGmatrixMethod)ngm); CHKERRQ(ierr); }
  if (nbc >= 0) { ierr = TDyMPFAOSetBoundaryConditionType(tdy, (TDyBoundaryConditionType)nbc); CHKERRQ(ierr); }
  if (arho >= 0) { ierr = TDySetWaterDensityType(tdy, (TDyWaterDensityType)arho); CHKERRQ(ierr); }
  if (amu >= 0) { ierr = TDySetWaterViscosityType(tdy, (TDyWaterViscosityType)amu); CHKERRQ(ierr); }
  ierr = H_apply_materials(tdy, mode); CHKERRQ(ierr);
  ierr = H_apply_conditions(tdy, mode); CHKERRQ(ierr);
  ierr = TDySetup(tdy); CHKERRQ(ierr);
  ierr = TDyCreateVectors(tdy); CHKERRQ(ierr);
  ierr = TDyCreateJacobian(tdy); CHKERRQ(ierr);
  PetscInt bs; ierr = H_dump_mesh(tdy, &bs); CHKERRQ(ierr);
  DM dm; ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  PetscInt nat = 0; PetscOptionsGetInt(NULL,NULL,"-h_nat",&nat,NULL);
  if (nat) { /* natural order: positions of the cells through every scatter of the public interface */
    Vec g, n, b;
    ierr = TDyCreatePrognosticVector(tdy, &g); CHKERRQ(ierr); ierr = VecDuplicate(g, &n); CHKERRQ(ierr); ierr = VecDuplicate(g, &b); CHKERRQ(ierr);
    for (int k = 0; k < 3; k++) {
      char nm[16];
      ierr = H_fill_coord(tdy, g, bs, k); CHKERRQ(ierr);
      ierr = VecSet(n, -7.0); CHKERRQ(ierr); ierr = VecSet(b, -7.0); CHKERRQ(ierr);
      ierr = TDyGlobalToNatural(tdy, g, n); CHKERRQ(ierr);
      snprintf(nm, sizeof nm, "nat%c", "xyz"[k]); ierr = H_dump_vec(nm, 0, n); CHKERRQ(ierr);
      ierr = TDySetInitialCondition(tdy, n); CHKERRQ(ierr);
      ierr = TDyGetInitialCondition(tdy, b); CHKERRQ(ierr);
      if (mode == RICHARDS && disc != MPFA_O_DAE) {
        Vec q; ierr = VecDuplicate(b, &q); CHKERRQ(ierr); ierr = TDyGetLiquidPressure(tdy, q); CHKERRQ(ierr);
        snprintf(nm, sizeof nm, "fst%c", "xyz"[k]); ierr = H_dump_vec(nm, 0, q); CHKERRQ(ierr);
        ierr = VecDestroy(&q); CHKERRQ(ierr);
      }
      snprintf(nm, sizeof nm, "ini%c", "xyz"[k]); ierr = H_dump_vec(nm, 0, b); CHKERRQ(ierr);
      snprintf(nm, sizeof nm, "glo%c", "xyz"[k]); ierr = H_dump_vec(nm, 0, g); CHKERRQ(ierr);
      if (mode == RICHARDS && disc != MPFA_O_DAE) { /* the previous solution as the user reads it back */
        ierr = TDySetPreviousSolutionForSNESSolver(tdy, g); CHKERRQ(ierr);
        ierr = TDyGetLiquidPressure(tdy, b); CHKERRQ(ierr);
        snprintf(nm, sizeof nm, "prv%c", "xyz"[k]); ierr = H_dump_vec(nm, 0, b); CHKERRQ(ierr);
      }
    }
    ierr = VecDestroy(&g); CHKERRQ(ierr); ierr = VecDestroy(&n); CHKERRQ(ierr); ierr = VecDestroy(&b); CHKERRQ(ierr);
  }
  int su[3] = {S_P, mode == SALINITY ? S_C : S_T, -1}, sp[3] = {S_PP, mode == SALINITY ? S_CP_ : S_TP, -1}, sd[3] = {S_PD, mode == SALINITY ? S_CD : S_TD, -1};
  Vec U, Up, F, F2, Ud; Mat J;
  ierr = TDyCreatePrognosticVector(tdy, &U); CHKERRQ(ierr);
  ierr = VecDuplicate(U, &Up); CHKERRQ(ierr); ierr = VecDuplicate(U, &F); CHKERRQ(ierr);
  ierr = VecDuplicate(U, &F2); CHKERRQ(ierr); ierr = VecDuplicate(U, &Ud); CHKERRQ(ierr);
  ierr = VecSet(Ud, 0.0); CHKERRQ(ierr);
  ierr = TDyCreateMatrix(tdy, &J); CHKERRQ(ierr);
  ierr = MatSetOption(J, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
  SNES snes = NULL; TS ts = NULL;
  if (ts_) {
    ierr = TSCreate(PETSC_COMM_WORLD, &ts); CHKERRQ(ierr);
    ierr = TSSetDM(ts, dm); CHKERRQ(ierr);
    ierr = TSSetType(ts, TSBEULER); CHKERRQ(ierr);
    ierr = TDySetIFunction(ts, tdy); CHKERRQ(ierr);
    ierr = TDySetIJacobian(ts, tdy); CHKERRQ(ierr);
  } else {
    ierr = SNESCreate(PETSC_COMM_WORLD, &snes); CHKERRQ(ierr);
    ierr = TDySetSNESFunction(snes, tdy); CHKERRQ(ierr);
    if (jac) { ierr = TDySetSNESJacobian(snes, tdy); CHKERRQ(ierr); }
    ierr = TDySetDtimeForSNESSolver(tdy, dt); CHKERRQ(ierr);
  }
  PetscInt steady = 0; PetscOptionsGetInt(NULL,NULL,"-h_steady",&steady,NULL);
  if (steady) { /* the linear system of the steady MPFA-O formulation */
    Mat K; Vec b; ierr = TDyCreateMatrix(tdy, &K); CHKERRQ(ierr); ierr = TDyCreatePrognosticVector(tdy, &b); CHKERRQ(ierr);
    ierr = MatSetOption(K, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE); CHKERRQ(ierr);
    ierr = TDyMPFAOComputeSystem(tdy, K, b); CHKERRQ(ierr);
    ierr = H_dump_mat("A", 0, K); CHKERRQ(ierr); ierr = H_dump_vec("b", 0, b); CHKERRQ(ierr);
    ierr = MatDestroy(&K); CHKERRQ(ierr); ierr = VecDestroy(&b); CHKERRQ(ierr);
  }
#define EVAL(u, f) (ts_ ? TSComputeIFunction(ts, 0.0, u, Ud, f, PETSC_FALSE) : SNESComputeFunction(snes, u, f))
  for (PetscInt s = 0; s < nst; s++) {
    ierr = H_fill(tdy, U, bs, su, s); CHKERRQ(ierr);
    ierr = H_fill(tdy, Up, bs, sp, s); CHKERRQ(ierr);
    if (ts_) { ierr = H_fill(tdy, Ud, bs, sd, s); CHKERRQ(ierr); }
    ierr = H_dump_vec("U", s, U); CHKERRQ(ierr);
    if (ts_) { ierr = H_dump_vec("Ud", s, Ud); CHKERRQ(ierr); }
    else {
      ierr = H_dump_vec("Up", s, Up); CHKERRQ(ierr);
      ierr = TDySetPreviousSolutionForSNESSolver(tdy, Up); CHKERRQ(ierr);
      ierr = TDyPreSolveSNESSolver(tdy); CHKERRQ(ierr);
    }
    ierr = EVAL(U, F); CHKERRQ(ierr);
    ierr = H_dump_vec("F", s, F); CHKERRQ(ierr);
    if (diag) {
      Vec d1, d2; ierr = TDyCreateDiagnosticVector(tdy, &d1); CHKERRQ(ierr); ierr = VecDuplicate(d1, &d2); CHKERRQ(ierr);
      ierr = TDyUpdateDiagnostics(tdy); CHKERRQ(ierr);
      ierr = TDyGetLiquidSaturation(tdy, d1); CHKERRQ(ierr); ierr = TDyGetLiquidMass(tdy, d2); CHKERRQ(ierr);
      ierr = H_dump_vec("sat", s, d1); CHKERRQ(ierr); ierr = H_dump_vec("mass", s, d2); CHKERRQ(ierr);
      if (diag > 1) { ierr = TDyPostSolve(tdy, U); CHKERRQ(ierr); Vec p; ierr = TDyCreateDiagnosticVector(tdy, &p); CHKERRQ(ierr); ierr = TDyGetLiquidPressure(tdy, p); CHKERRQ(ierr); ierr = H_dump_vec("pres", s, p); CHKERRQ(ierr); ierr = VecDestroy(&p); CHKERRQ(ierr); }
      ierr = VecDestroy(&d1); CHKERRQ(ierr); ierr = VecDestroy(&d2); CHKERRQ(ierr);
    }
    if (jac) {
      if (ts_) {
        Mat A, P; ierr = TSGetIJacobian(ts, &A, &P, NULL, NULL); CHKERRQ(ierr);
        ierr = TSComputeIJacobian(ts, 0.0, U, Ud, shift, A, P, PETSC_FALSE); CHKERRQ(ierr);
        ierr = H_dump_mat("J", s, P); CHKERRQ(ierr);
      } else {
        Mat A, P; ierr = SNESGetJacobian(snes, &A, &P, NULL, NULL); CHKERRQ(ierr);
        ierr = SNESComputeJacobian(snes, U, A, P); CHKERRQ(ierr);
        ierr = H_dump_mat("J", s, P); CHKERRQ(ierr);
      }
    }
    if (fd) { /* residuals at U +- h e_j, for every unknown j; h per field */
      PetscReal h[3] = {1.0, 1e-3, 1e-6}; PetscInt nh = 3, gn, rs, re;
      PetscOptionsGetRealArray(NULL,NULL,"-h_fdh",h,&nh,NULL);
      ierr = VecGetSize(U, &gn); CHKERRQ(ierr); ierr = VecGetOwnershipRange(U, &rs, &re); CHKERRQ(ierr);
      Vec W; ierr = VecDuplicate(U, &W); CHKERRQ(ierr);
      for (PetscInt j = 0; j < gn; j++) for (int sgn = -1; sgn <= 1; sgn += 2) {
        PetscReal hh = h[j % bs];
        ierr = VecCopy(U, W); CHKERRQ(ierr);
        if (j >= rs && j < re) { ierr = VecSetValue(W, j, sgn*hh, ADD_VALUES); CHKERRQ(ierr); }
        ierr = VecAssemblyBegin(W); CHKERRQ(ierr); ierr = VecAssemblyEnd(W); CHKERRQ(ierr);
        if (ts_) { Vec Us = Ud; Vec Ut; ierr = VecDuplicate(Ud,&Ut); CHKERRQ(ierr); ierr = VecCopy(Ud,Ut); CHKERRQ(ierr);
          if (j >= rs && j < re) { ierr = VecSetValue(Ut, j, sgn*hh*shift, ADD_VALUES); CHKERRQ(ierr); }
          ierr = VecAssemblyBegin(Ut); CHKERRQ(ierr); ierr = VecAssemblyEnd(Ut); CHKERRQ(ierr);
          ierr = TSComputeIFunction(ts, 0.0, W, Ut, F2, PETSC_FALSE); CHKERRQ(ierr); ierr = VecDestroy(&Ut); CHKERRQ(ierr); (void)Us;
        } else { ierr = SNESComputeFunction(snes, W, F2); CHKERRQ(ierr); }
        char nm[32]; snprintf(nm, sizeof nm, "FD%c%d", sgn < 0 ? 'm' : 'p', (int)j);
        ierr = H_dump_vec(nm, s, F2); CHKERRQ(ierr);
      }
      ierr = VecDestroy(&W); CHKERRQ(ierr);
    }
    if (rep) { ierr = EVAL(U, F2); CHKERRQ(ierr); ierr = H_dump_vec("Frep", s, F2); CHKERRQ(ierr); }
  }
  HOUT("DONE\n");
  ierr = VecDestroy(&U); CHKERRQ(ierr); ierr = VecDestroy(&Up); CHKERRQ(ierr); ierr = VecDestroy(&F); CHKERRQ(ierr);
  ierr = VecDestroy(&F2); CHKERRQ(ierr); ierr = VecDestroy(&Ud); CHKERRQ(ierr); ierr = MatDestroy(&J); CHKERRQ(ierr);
  if (snes) { ierr = SNESDestroy(&snes); CHKERRQ(ierr); }
  if (ts) { ierr = TSDestroy(&ts); CHKERRQ(ierr); }
  ierr = TDyDestroy(&tdy); CHKERRQ(ierr);
  if (H_out) fclose(H_out);
  ierr = TDyFinalize(); CHKERRQ(ierr);
  return 0;
}
