/* The mixed finite-element discretisations: assemble the systems and record them with the mesh they were assembled on. */
#include "common.h"
#include <string.h>

int main(int argc, char **argv) {
  PetscErrorCode ierr; TDy tdy; PetscInt disc = WY, quad = -1, times = 1, ts_ = 0; PetscInt bs;
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  H_fields_from_options();
  ierr = H_open(); CHKERRQ(ierr);
  ierr = H_enum("-h_disc", TDyDiscretizations, &disc); CHKERRQ(ierr);
  ierr = H_enum("-h_quad", TDyQuadratureTypes, &quad); CHKERRQ(ierr);
  PetscOptionsGetInt(NULL,NULL,"-h_times",&times,NULL);
  PetscOptionsGetInt(NULL,NULL,"-h_ts",&ts_,NULL);
  ierr = TDyCreate(PETSC_COMM_WORLD, &tdy); CHKERRQ(ierr);
  ierr = TDySetMode(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = TDySetDiscretization(tdy, (TDyDiscretization)disc); CHKERRQ(ierr);
  ierr = TDySetDMConstructor(tdy, NULL, H_dm); CHKERRQ(ierr);
  ierr = TDySetFromOptions(tdy); CHKERRQ(ierr);
  ierr = H_check_cells(tdy); CHKERRQ(ierr);
  if (quad >= 0) {
    if (disc == WY) { ierr = TDyWYSetQuadrature(tdy, (TDyQuadratureType)quad); CHKERRQ(ierr); }
    else { ierr = TDyBDMSetQuadrature(tdy, (TDyQuadratureType)quad); CHKERRQ(ierr); }
  }
  ierr = H_apply_materials(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = H_apply_conditions(tdy, RICHARDS); CHKERRQ(ierr);
  ierr = TDySetup(tdy); CHKERRQ(ierr);
  ierr = H_dump_mesh(tdy, &bs); CHKERRQ(ierr);
  ierr = H_dump_cells(tdy); CHKERRQ(ierr);
  ierr = H_dump_boundary(tdy); CHKERRQ(ierr);
  if (ts_) {
    DM dm; TS ts; Vec U, Ud, R;
    ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
    ierr = TDyCreatePrognosticVector(tdy, &U); CHKERRQ(ierr); ierr = VecDuplicate(U, &Ud); CHKERRQ(ierr); ierr = VecDuplicate(U, &R); CHKERRQ(ierr);
    ierr = TSCreate(PETSC_COMM_WORLD, &ts); CHKERRQ(ierr);
    ierr = TSSetDM(ts, dm); CHKERRQ(ierr);
    ierr = TSSetType(ts, TSBEULER); CHKERRQ(ierr);
    ierr = TDySetIFunction(ts, tdy); CHKERRQ(ierr);
    for (PetscInt s = 0; s < ts_; s++) {
      int su = S_P, sd = S_PD;
      ierr = H_fill(tdy, U, 1, &su, s); CHKERRQ(ierr); ierr = H_fill(tdy, Ud, 1, &sd, s); CHKERRQ(ierr);
      ierr = VecSet(R, -3.0); CHKERRQ(ierr);
      ierr = TSComputeIFunction(ts, 0.0, U, Ud, R, PETSC_FALSE); CHKERRQ(ierr);
      ierr = H_dump_vec("U", s, U); CHKERRQ(ierr); ierr = H_dump_vec("Ud", s, Ud); CHKERRQ(ierr); ierr = H_dump_vec("R", s, R); CHKERRQ(ierr);
    }
    ierr = TSDestroy(&ts); CHKERRQ(ierr);
    ierr = VecDestroy(&U); CHKERRQ(ierr); ierr = VecDestroy(&Ud); CHKERRQ(ierr); ierr = VecDestroy(&R); CHKERRQ(ierr);
  } else for (PetscInt s = 0; s < times; s++) {
    Mat K; Vec F;
    ierr = TDyCreatePrognosticVector(tdy, &F); CHKERRQ(ierr);
    ierr = TDyCreateMatrix(tdy, &K); CHKERRQ(ierr);
    ierr = VecSet(F, 0.0); CHKERRQ(ierr);
    if (disc == WY) { ierr = TDyWYComputeSystem(tdy, K, F); CHKERRQ(ierr); }
    else { ierr = TDyBDMComputeSystem(tdy, K, F); CHKERRQ(ierr); }
    ierr = H_dump_mat("K", s, K); CHKERRQ(ierr);
    ierr = H_dump_vec("F", s, F); CHKERRQ(ierr);
    ierr = MatDestroy(&K); CHKERRQ(ierr); ierr = VecDestroy(&F); CHKERRQ(ierr);
  }
  ierr = TDyDestroy(&tdy); CHKERRQ(ierr);
  HOUT("DONE\n");
  if (H_out) fclose(H_out);
  ierr = TDyFinalize(); CHKERRQ(ierr);
  return 0;
}
