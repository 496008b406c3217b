/* Carries out a script of library calls: the C twin of fapi.F90. */
#include <tdycore.h>
#include <petsc/private/petscimpl.h>
#include <petscdmplex.h>
#include <stdio.h>
#include <string.h>

#define NF 48
#define NG 40
static PetscReal fc[4*NF], gc[6*NG];
static PetscInt fn[3] = {1, 1, 1}, ncall[NF+1], npoint[NF+1], mcall[NG+1];

static void fld(PetscInt k, PetscInt n, PetscReal *x, PetscReal *f) {
  const PetscReal *c = fc + 4*(k-1);
  ncall[k]++; npoint[k] += n;
  for (PetscInt i = 0; i < n; i++) f[i] = c[0] + c[1]*x[3*i] + c[2]*x[3*i+1] + c[3]*x[3*i+2];
}
static void ifld(PetscInt k, PetscInt n, PetscReal *x, PetscInt *f) {
  const PetscReal *c = gc + 6*(k-1);
  mcall[k]++;
  for (PetscInt i = 0; i < n; i++) f[i] = (PetscInt)(c[0] + c[1]*x[3*i] + c[2]*x[3*i+1] + c[3]*x[3*i+2] > 0 ? c[4] : c[5]);
}
#define F1(k) static void f##k(PetscInt n, PetscReal *x, PetscReal *f) { fld(k, n, x, f); }
#define G1(k) static void g##k(PetscInt n, PetscReal *x, PetscInt *f) { ifld(k, n, x, f); }
#define TEN(M) M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) M(13) M(14) M(15) M(16) M(17) M(18) M(19) M(20) \
  M(21) M(22) M(23) M(24) M(25) M(26) M(27) M(28) M(29) M(30) M(31) M(32) M(33) M(34) M(35) M(36) M(37) M(38) M(39) M(40)
TEN(F1) F1(41) F1(42) F1(43) F1(44) F1(45) F1(46) F1(47) F1(48)
TEN(G1)
#define FP(k) f##k,
#define GP(k) g##k,
static TDySpatialFunction pick[NF+1] = {NULL, TEN(FP) f41, f42, f43, f44, f45, f46, f47, f48};
static TDyScalarSpatialIntegerFunction gpick[NG+1] = {NULL, TEN(GP)};

static PetscErrorCode makedm(MPI_Comm comm, void *ctx, DM *dm) {
  PetscReal lower[3] = {0, 0, 0}, upper[3] = {1.0*fn[0], 2.0*fn[1], 0.5*fn[2]};
  return DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, fn, lower, upper, NULL, PETSC_TRUE, dm);
}
static int line;
static void dump(Vec x) {
  char f[32]; PetscViewer v; snprintf(f, sizeof f, "v%d.bin", line);
  PetscViewerBinaryOpen(PETSC_COMM_WORLD, f, FILE_MODE_WRITE, &v); VecView(x, v); PetscViewerDestroy(&v);
}
static void dumpmat(Mat x) {
  char f[32]; PetscViewer v; snprintf(f, sizeof f, "m%d.bin", line);
  PetscViewerBinaryOpen(PETSC_COMM_WORLD, f, FILE_MODE_WRITE, &v); MatView(x, v); PetscViewerDestroy(&v);
}

int main(int argc, char **argv) {
  PetscErrorCode e = TDyInit(argc, argv); if (e) return e; PetscPushErrorHandler(PetscReturnErrorHandler, NULL); /* the default one ends all processes but the first */
  PetscMPIInt rank; MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
  FILE *cf = fopen("coef", "r"); if (!cf) return 3;
  for (int i = 0; i < 4*NF; i++) if (fscanf(cf, "%lf", &fc[i]) != 1) return 3;
  for (int i = 0; i < 6*NG; i++) if (fscanf(cf, "%lf", &gc[i]) != 1) return 3;
  fclose(cf);
  PetscInt cnt = 3; PetscOptionsGetIntArray(NULL, NULL, "-f_n", fn, &cnt, NULL);
  char script[256], text[256]; PetscOptionsGetString(NULL, NULL, "-f_script", script, sizeof script, NULL);
  TDy tdys[4] = {0}; Vec U[4] = {0}; SNES sn[4] = {0};
  FILE *fp = fopen(script, "r"); if (!fp) return 3;
  while (fgets(text, sizeof text, fp)) {
    char op[32], a[64] = ""; int s, at = 0; PetscInt k; PetscReal v;
    line++;
    if (sscanf(text, "%d %31s %n", &s, op, &at) < 2) continue;
    char *rest = text + at; sscanf(rest, "%63s", a); k = atoi(a); v = atof(a);
    TDy t = tdys[s]; PetscErrorCode ierr = 0;
#define OP(n) else if (!strcmp(op, n))
    if (!strcmp(op, "finalize")) break;
    OP("create") ierr = TDyCreate(PETSC_COMM_WORLD, &tdys[s]);
    OP("mode") ierr = TDySetMode(t, (TDyMode)k);
    OP("disc") ierr = TDySetDiscretization(t, (TDyDiscretization)k);
    OP("dens") ierr = TDySetWaterDensityType(t, (TDyWaterDensityType)k);
    OP("gmat") ierr = TDyMPFAOSetGmatrixMethod(t, (TDyMPFAOGmatrixMethod)k);
    OP("bct") ierr = TDyMPFAOSetBoundaryConditionType(t, (TDyBoundaryConditionType)k);
    OP("pbct") ierr = TDySetBoundaryPressureTypeFunction(t, gpick[k]);
    OP("poro") ierr = TDySetPorosityFunction(t, pick[k]);
    OP("pbc") ierr = TDySetBoundaryPressureFunction(t, pick[k]);
    OP("src") ierr = TDySetForcingFunction(t, pick[k]);
    OP("esrc") ierr = TDySetEnergyForcingFunction(t, pick[k]);
    OP("vbc") ierr = TDySetBoundaryVelocityFunction(t, pick[k]);
    OP("sr") ierr = TDySetResidualSaturationFunction(t, pick[k]);
    OP("reg") { int j; sscanf(rest, "%63s %d", a, &j); ierr = TDyRegisterFunction(a, pick[j]); }
    OP("selporo") { TDySpatialFunction f; ierr = TDyGetFunction(a, &f); if (!ierr) ierr = TDySetPorosityFunction(t, f); }
    OP("selpbc") ierr = TDySelectBoundaryPressureFunction(t, a);
    OP("selsrc") ierr = TDySelectForcingFunction(t, a);
    OP("selesrc") ierr = TDySelectEnergyForcingFunction(t, a);
    OP("selvbc") ierr = TDySelectBoundaryVelocityFunction(t, a);
    OP("cporo") ierr = TDySetConstantPorosity(t, v);
    OP("csr") ierr = TDySetConstantResidualSaturation(t, v);
    OP("cperm") { PetscReal K[9]; char *q = rest; for (int i = 0; i < 9; i++) K[i] = strtod(q, &q); ierr = TDySetConstantTensorPermeability(t, K); }
    OP("ctor") ierr = TDySetDMConstructor(t, NULL, makedm);
    OP("fromopt") ierr = TDySetFromOptions(t);
    OP("setup") ierr = TDySetup(t);
    OP("driver") ierr = TDyDriverInitializeTDy(t);
    OP("vectors") ierr = TDyCreateVectors(t);
    OP("jac") ierr = TDyCreateJacobian(t);
    OP("dim") { DM dm; PetscInt d = 0; ierr = TDyGetDM(t, &dm); DMGetDimension(dm, &d); if (!rank) printf("@D %d %d\n", line, (int)d); }
    OP("ic") {
      Vec n; PetscViewer vw; ierr = TDyCreatePrognosticVector(t, &U[s]); VecDuplicate(U[s], &n);
      PetscViewerBinaryOpen(PETSC_COMM_WORLD, a, FILE_MODE_READ, &vw); VecLoad(n, vw); PetscViewerDestroy(&vw);
      ierr = TDySetInitialCondition(t, n); if (!ierr) ierr = TDyGetInitialCondition(t, U[s]);
      dump(U[s]); VecDestroy(&n);
    }
    OP("snes") {
      SNESCreate(PETSC_COMM_WORLD, &sn[s]); ierr = TDySetSNESFunction(sn[s], t); if (!ierr) ierr = TDySetSNESJacobian(sn[s], t);
      SNESSetFromOptions(sn[s]);
    }
    OP("dt") ierr = TDySetDtimeForSNESSolver(t, v);
    OP("pre") ierr = TDyPreSolveSNESSolver(t);
    OP("resid") { Vec F; VecDuplicate(U[s], &F); ierr = SNESComputeFunction(sn[s], U[s], F); dump(F); VecDestroy(&F); }
    OP("matrix") { Mat J = NULL; ierr = TDyCreateMatrix(t, &J); if (!ierr) ierr = SNESComputeJacobian(sn[s], U[s], J, J); if (!ierr) dumpmat(J); MatDestroy(&J); }
    OP("ts") {
      Vec F, Ud; TS ts; VecDuplicate(U[s], &F); VecDuplicate(U[s], &Ud); VecSet(Ud, 0.125); TSCreate(PETSC_COMM_WORLD, &ts);
      ierr = TDySetIFunction(ts, t); if (!ierr) ierr = TDySetIJacobian(ts, t);
      if (!ierr) ierr = TSComputeIFunction(ts, 0.0, U[s], Ud, F, PETSC_FALSE);
      dump(F); TSDestroy(&ts); VecDestroy(&F); VecDestroy(&Ud);
    }
    OP("solve") { SNESConvergedReason r; ierr = SNESSolve(sn[s], NULL, U[s]); SNESGetConvergedReason(sn[s], &r); if (!rank) printf("@R %d %d\n", line, (int)r); dump(U[s]); }
    OP("post") ierr = TDyPostSolve(t, U[s]);
    OP("diag") ierr = TDyUpdateDiagnostics(t);
    else if (!strcmp(op, "sat") || !strcmp(op, "mass") || !strcmp(op, "pres")) {
      Vec D; ierr = TDyCreateDiagnosticVector(t, &D);
      if (!ierr) { ierr = *op == 's' ? TDyGetLiquidSaturation(t, D) : *op == 'm' ? TDyGetLiquidMass(t, D) : TDyGetLiquidPressure(t, D); dump(D); VecDestroy(&D); }
    }
    OP("nat") { Vec n; VecDuplicate(U[s], &n); ierr = TDyGlobalToNatural(t, U[s], n); dump(n); VecDestroy(&n); }
    OP("state") { PetscScalar *x; PetscInt n; VecGetLocalSize(U[s], &n); VecGetArray(U[s], &x); ierr = TDyUpdateState(t, x, n); VecRestoreArray(U[s], &x); }
    OP("setdt") ierr = TDyTimeIntegratorSetTimeStep(t, v);
    OP("run") ierr = TDyTimeIntegratorRunToTime(t, v);
    OP("treg") ierr = TDyTimeIntegratorOutputRegression(t);
    OP("oreg") ierr = TDyOutputRegression(t, U[s]);
    OP("destroy") ierr = TDyDestroy(&tdys[s]);
    else if (!rank) printf("@? %s\n", op);
    if (!rank) { printf("@C %d %s %d\n", line, op, (int)ierr); fflush(stdout); }
  }
  fclose(fp);
  for (int k = 1; k <= NF; k++) if (ncall[k]) printf("@N %d %d %d %d\n", rank, k, (int)ncall[k], (int)npoint[k]);
  for (int k = 1; k <= NG; k++) if (mcall[k]) printf("@I %d %d %d\n", rank, k, (int)mcall[k]);
  printf("@S %d 0\n", rank); fflush(stdout);
  e = TDyFinalize();
  if (!rank) printf("@DONE %d\n", (int)e);
  return 0;
}
