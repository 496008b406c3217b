/* A script of calls of the public interface, on up to three dycore instances.  Each line of -h_script is

     <slot> <call> [arguments]

   For every call one record "X C <line> <ierr>" is written (errors are returned, not fatal), preceded by
   "X W <line>" so that a call that never comes back is known. */
#include "common.h"
#include <string.h>
#include <malloc.h>
#include <unistd.h>
#include <private/tdycoreimpl.h>   /* for the state the drivers reach into: tdy->soln */

static PetscErrorCode quiet(MPI_Comm c, int line, const char *fn, const char *file, PetscErrorCode n, PetscErrorType p, const char *mess, void *ctx) {
  if (p == PETSC_ERROR_INITIAL) { HOUT("X M %d %s\n", (int)n, fn ? fn : "?"); fprintf(stderr, "ERR %s:%d %s: %s\n", file, line, fn, mess ? mess : ""); }
  return n ? n : PETSC_ERR_USER;
}
typedef struct { TDy tdy; int mode, disc, bs; SNES snes; TS ts; Vec U, F, V; Mat J; PetscReal dt; } Inst;
static Inst in[H_NB];
static int hooks[16], nhook;
static void hk(int k) { HOUT("X H %d\n", k); hooks[nhook++ % 16] = k; }
static void hk0(void) { hk(0); } static void hk1(void) { hk(1); } static void hk2(void) { hk(2); } static void hk3(void) { hk(3); }
static void (*hks[4])(void) = {hk0, hk1, hk2, hk3};
static void g0(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; i++) f[i] = 1000; }
static void g1(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; i++) f[i] = 1001; }
static void g2(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; i++) f[i] = 1002; }
static void g3(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; i++) f[i] = 1003; }
static TDySpatialFunction gs[4] = {g0, g1, g2, g3};

static PetscErrorCode vecs(Inst *in_) { /* work vectors of the harness */
  PetscErrorCode ierr;
  PetscFunctionBegin;
  if (!in_->U) {
    ierr = TDyCreatePrognosticVector(in_->tdy, &in_->U); CHKERRQ(ierr);
    ierr = VecDuplicate(in_->U, &in_->F); CHKERRQ(ierr); ierr = VecDuplicate(in_->U, &in_->V); CHKERRQ(ierr);
    ierr = VecGetBlockSize(in_->U, &in_->bs); CHKERRQ(ierr);
    ierr = VecSet(in_->U, 90000.0); CHKERRQ(ierr); ierr = VecSet(in_->V, 0.0); CHKERRQ(ierr);
  }
  PetscFunctionReturn(0);
}
static PetscErrorCode clean(Inst *in_) {
  PetscErrorCode ierr;
  PetscFunctionBegin;
  ierr = SNESDestroy(&in_->snes); CHKERRQ(ierr); ierr = TSDestroy(&in_->ts); CHKERRQ(ierr); ierr = MatDestroy(&in_->J); CHKERRQ(ierr);
  ierr = VecDestroy(&in_->U); CHKERRQ(ierr); ierr = VecDestroy(&in_->F); CHKERRQ(ierr); ierr = VecDestroy(&in_->V); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
static void dump(int s, const char *what, int tag, Vec v) { char nm[32]; snprintf(nm, sizeof nm, "%s%d", what, s); H_dump_vec(nm, tag, v); }

static int argc_; static char **argv_;
static PetscErrorCode call(int s, const char *c, int na, char **a, int line) {
  Inst *in_ = &in[s]; TDy t = in_->tdy; PetscErrorCode ierr; PetscInt k = na > 0 ? atoi(a[0]) : 0; PetscReal x = na > 0 ? atof(a[0]) : 0;
  int su[3] = {S_P, in_->mode == SALINITY ? S_C : S_T, -1}, sp[3] = {S_PP, in_->mode == SALINITY ? S_CP_ : S_TP, -1}, sd[3] = {S_PD, in_->mode == SALINITY ? S_CD : S_TD, -1};
#define IS(n) (!strcmp(c, n))
#define R(e) do { ierr = (e); if (ierr) return ierr; return 0; } while (0)
#define D(e) do { ierr = (e); if (ierr) return ierr; } while (0)
  if (IS("opt"))    R(PetscOptionsSetValue(NULL, a[0], na > 1 ? a[1] : NULL));
  if (IS("unopt"))  R(PetscOptionsClearValue(NULL, a[0]));
  if (IS("fields")) { H_fields_from_options(); return 0; }
  if (IS("create")) { ierr = TDyCreate(PETSC_COMM_WORLD, &in_->tdy); in_->mode = RICHARDS; in_->disc = MPFA_O; in_->dt = 1000; return ierr; }
  if (IS("mode"))   { ierr = TDySetMode(t, (TDyMode)k); if (!ierr) in_->mode = k; return ierr; }
  if (IS("disc"))   { ierr = TDySetDiscretization(t, (TDyDiscretization)k); if (!ierr) in_->disc = k; return ierr; }
  if (IS("dm"))     R(TDySetDMConstructor(t, NULL, H_dm));
  if (IS("fromopt")){ ierr = TDySetFromOptions(t); if (!ierr) { TDyDiscretization d; TDyGetDiscretization(t, &d); in_->disc = d; in_->mode = t->options.mode; } return ierr; }
  if (IS("mat"))    R(H_apply_materials(t, in_->mode));
  if (IS("cond"))   R(H_apply_conditions(t, in_->mode));
  if (IS("setup"))  R(TDySetup(t));
  if (IS("vectors"))R(TDyCreateVectors(t));
  if (IS("jac"))    R(TDyCreateJacobian(t));
  if (IS("dtime"))  R(TDySetDtimeForSNESSolver(t, x));
  if (IS("rho"))    R(TDySetWaterDensityType(t, (TDyWaterDensityType)k));
  if (IS("mu"))     R(TDySetWaterViscosityType(t, (TDyWaterViscosityType)k));
  if (IS("gmat"))   R(TDyMPFAOSetGmatrixMethod(t, (TDyMPFAOGmatrixMethod)k));
  if (IS("bct"))    R(TDyMPFAOSetBoundaryConditionType(t, (TDyBoundaryConditionType)k));
  if (IS("wyquad")) R(TDyWYSetQuadrature(t, (TDyQuadratureType)k));
  if (IS("bdmquad"))R(TDyBDMSetQuadrature(t, (TDyQuadratureType)k));
  if (IS("sel")) {
    if (!strcmp(a[0], "src")) R(TDySelectForcingFunction(t, a[1]));
    if (!strcmp(a[0], "esrc")) R(TDySelectEnergyForcingFunction(t, a[1]));
    if (!strcmp(a[0], "pbc")) R(TDySelectBoundaryPressureFunction(t, a[1]));
    if (!strcmp(a[0], "vbc")) R(TDySelectBoundaryVelocityFunction(t, a[1]));
    if (!strcmp(a[0], "tbc")) R(TDySelectBoundaryTemperatureFunction(t, a[1]));
    if (!strcmp(a[0], "cbc")) R(TDySelectBoundarySalineConcentrationFunction(t, a[1]));
    return 0;
  }
  if (IS("reg")) { /* the caller's storage for the name does not outlive the call */
    char *nm = strdup(a[0]); ierr = TDyRegisterFunction(nm, gs[atoi(a[1])]); memset(nm, 'z', strlen(nm)); free(nm); return ierr; }
  if (IS("regfields")) { H_bank = s; ierr = H_register(); H_bank = 0; return ierr; }
  if (IS("get")) { TDySpatialFunction f = NULL; ierr = TDyGetFunction(a[0], &f); int w = -1; for (int i = 0; i < 4; i++) if (f == gs[i]) w = i; HOUT("X G %d %d\n", line, ierr ? -2 : w); return ierr; }
  if (IS("hook"))   R(TDyOnFinalize(hks[k]));
  if (IS("inited")) { HOUT("X Y %d %d\n", line, (int)TDyInitialized()); return 0; }
  if (IS("finalize")) R(TDyFinalize());
  if (IS("init"))   { /* the options of the command line again: the first finalization removed them */
    if (k) { ierr = TDyInitNoArguments(); if (!ierr) { int c_ = argc_; char **v_ = argv_; ierr = PetscOptionsInsert(NULL, &c_, &v_, NULL); } } else ierr = TDyInit(argc_, argv_);
    PetscPushErrorHandler(quiet, NULL); return ierr; }
  if (IS("heap")) { struct mallinfo2 m; PetscLogDouble pm = 0; m = mallinfo2(); PetscMallocGetCurrentUsage(&pm); HOUT("X U %d %lld %.0f\n", line, (long long)(m.uordblks + m.hblkhd), pm); return 0; }
  if (IS("setsnes")){ if (!in_->snes) D(SNESCreate(PETSC_COMM_WORLD, &in_->snes)); R(TDySetSNESFunction(in_->snes, t)); }
  if (IS("setjac")) { if (!in_->snes) D(SNESCreate(PETSC_COMM_WORLD, &in_->snes)); R(TDySetSNESJacobian(in_->snes, t)); }
  if (IS("setts") || IS("setijac")) {
    if (!in_->ts) { DM dm; D(TSCreate(PETSC_COMM_WORLD, &in_->ts)); D(TSSetType(in_->ts, TSBEULER)); D(TDyGetDM(t, &dm)); if (dm) D(TSSetDM(in_->ts, dm)); }
    if (IS("setts")) R(TDySetIFunction(in_->ts, t)); else R(TDySetIJacobian(in_->ts, t)); }
  if (IS("prev"))   { D(vecs(in_)); D(H_fill(t, in_->V, in_->bs, sp, k)); R(TDySetPreviousSolutionForSNESSolver(t, in_->V)); }
  if (IS("presolve")) R(TDyPreSolveSNESSolver(t));
  if (IS("eval"))   { D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); D(SNESComputeFunction(in_->snes, in_->U, in_->F)); dump(s, "F", line, in_->F); return 0; }
  if (IS("evalj"))  { Mat A, P; char nm[16]; D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); D(SNESGetJacobian(in_->snes, &A, &P, NULL, NULL)); D(MatSetOption(P, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE)); D(SNESComputeJacobian(in_->snes, in_->U, A, P)); snprintf(nm, sizeof nm, "J%d", s); R(H_dump_mat(nm, line, P)); }
  if (IS("evalt"))  { D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); D(H_fill(t, in_->V, in_->bs, sd, k)); D(TSComputeIFunction(in_->ts, 0.0, in_->U, in_->V, in_->F, PETSC_FALSE)); dump(s, "F", line, in_->F); return 0; }
  if (IS("evaltj")) { Mat A, P; char nm[16]; D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); D(H_fill(t, in_->V, in_->bs, sd, k)); D(TSGetIJacobian(in_->ts, &A, &P, NULL, NULL)); D(TSComputeIJacobian(in_->ts, 0.0, in_->U, in_->V, 1e-3, A, P, PETSC_FALSE)); snprintf(nm, sizeof nm, "J%d", s); R(H_dump_mat(nm, line, P)); }
  if (IS("fe")) { Mat K; Vec b, u; char nm[16]; /* a finite-element system, from zero, and its solution */
    D(TDyCreateMatrix(t, &K)); D(TDyCreatePrognosticVector(t, &b)); ierr = in_->disc == WY ? TDyWYComputeSystem(t, K, b) : TDyBDMComputeSystem(t, K, b); if (ierr) return ierr;
    snprintf(nm, sizeof nm, "K%d", s); D(H_dump_mat(nm, line, K)); dump(s, "b", line, b);
    (void)u; D(MatDestroy(&K)); D(VecDestroy(&b)); return 0; }
  if (IS("steady")) { Mat K; Vec b; char nm[16];
    D(TDyCreateMatrix(t, &K)); D(TDyCreatePrognosticVector(t, &b)); D(MatSetOption(K, MAT_NEW_NONZERO_ALLOCATION_ERR, PETSC_FALSE)); D(TDyMPFAOComputeSystem(t, K, b));
    snprintf(nm, sizeof nm, "K%d", s); D(H_dump_mat(nm, line, K)); dump(s, "b", line, b); D(MatDestroy(&K)); D(VecDestroy(&b)); return 0; }
  if (IS("post"))   { D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); R(TDyPostSolve(t, in_->U)); }
  if (IS("diag"))   R(TDyUpdateDiagnostics(t));
  if (IS("sat") || IS("mass") || IS("pres")) {
    Vec v = NULL; 
    if ((t->setup_flags & TDySetupFinished) && t->ops->update_diagnostics) D(TDyCreateDiagnosticVector(t, &v)); else D(VecCreateSeq(PETSC_COMM_SELF, 1, &v));
    ierr = IS("sat") ? TDyGetLiquidSaturation(t, v) : IS("mass") ? TDyGetLiquidMass(t, v) : TDyGetLiquidPressure(t, v);
    if (!ierr) dump(s, c, line, v);
    VecDestroy(&v); return ierr; }
  if (IS("dvec"))   { Vec v = NULL; ierr = TDyCreateDiagnosticVector(t, &v); if (!ierr) VecDestroy(&v); return ierr; }
  if (IS("pvec"))   { Vec v = NULL; ierr = TDyCreatePrognosticVector(t, &v); if (!ierr) VecDestroy(&v); return ierr; }
  if (IS("matrix")) { Mat v = NULL; ierr = TDyCreateMatrix(t, &v); if (!ierr) MatDestroy(&v); return ierr; }
  if (IS("setic"))  { D(vecs(in_)); D(H_fill(t, in_->V, in_->bs, sp, k)); R(TDySetInitialCondition(t, in_->V)); }
  if (IS("getic"))  { D(vecs(in_)); D(TDyGetInitialCondition(t, in_->V)); dump(s, "ic", line, in_->V); return 0; }
  if (IS("g2n"))    { D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); D(TDyGlobalToNatural(t, in_->U, in_->V)); dump(s, "nat", line, in_->V); return 0; }
  if (IS("dim"))    { PetscInt d; D(TDyGetDimension(t, &d)); HOUT("X D %d %d\n", line, (int)d); return 0; }
  if (IS("getdisc")){ TDyDiscretization d; D(TDyGetDiscretization(t, &d)); HOUT("X D %d %d\n", line, (int)d); return 0; }
  if (IS("getmode")){ HOUT("X D %d %d\n", line, (int)t->options.mode); return 0; }
  if (IS("faces"))  { PetscInt n; const PetscInt *f; D(TDyGetBoundaryFaces(t, &n, &f)); HOUT("X B %d %d", line, (int)n); for (PetscInt i = 0; i < n; i++) HOUT(" %d", (int)f[i]); HOUT("\n"); R(TDyRestoreBoundaryFaces(t, &n, &f)); }
  if (IS("view"))   R(TDyView(t, PETSC_VIEWER_STDOUT_WORLD));
  if (IS("regr"))   { D(vecs(in_)); D(H_fill(t, in_->U, in_->bs, su, k)); R(TDyOutputRegression(t, in_->U)); }
  if (IS("driver")) R(TDyDriverInitializeTDy(t));
  if (IS("iomode")) R(TDyIOSetMode(t, (TDyIOFormat)k));
  if (IS("write"))  R(TDyIOWriteVec(t));
  if (IS("chk"))    R(TDyIOOutputCheckpoint(t));
  if (IS("run"))    R(TDyTimeIntegratorRunToTime(t, x));
  if (IS("setdt"))  R(TDyTimeIntegratorSetTimeStep(t, x));
  if (IS("soln"))   { dump(s, "S", line, t->soln); return 0; }
  if (IS("cells"))  { HOUT("X K %d\n", s); PetscInt bs; R(H_dump_mesh(t, &bs)); }
  if (IS("clean"))  R(clean(in_));
  if (IS("destroy")){ D(clean(in_)); ierr = TDyDestroy(&in_->tdy); HOUT("X Z %d %d\n", line, in_->tdy == NULL); return ierr; }
  fprintf(stderr, "harness: unknown call %s\n", c); exit(64);
}

int main(int argc, char **argv) {
  char file[PETSC_MAX_PATH_LEN], buf[1024]; PetscInt mtest = 0; PetscErrorCode ierr;
  MPI_Init(&argc, &argv); /* so that TDyInit and TDyFinalize can be called more than once */
  argc_ = argc; argv_ = argv;
  ierr = TDyInit(argc, argv); if (ierr) return 65;
  PetscOptionsGetString(NULL, NULL, "-h_script", file, sizeof file, NULL);
  PetscOptionsGetInt(NULL, NULL, "-h_oneline", &mtest, NULL);
  H_fields_from_options();
  H_open();
  PetscPushErrorHandler(quiet, NULL);
  FILE *f = fopen(file, "r"); if (!f) { perror(file); return 64; }
  int line = 0;
  while (fgets(buf, sizeof buf, f)) {
    char *a[8]; int na = 0;
    for (char *p = strtok(buf, " \n"); p && na < 8; p = strtok(NULL, " \n")) a[na++] = p;
    if (na < 2) continue;
    int s = atoi(a[0]);
    HOUT("X W %d\n", line); fflush(stdout);
    H_bank = s;
    ierr = call(s, a[1], na - 2, a + 2, line);
    HOUT("X C %d %d\n", line, (int)ierr);
    if (!ierr && !strcmp(a[1], "fromopt")) H_check_cells(in[s].tdy);
    line++;
  }
  fclose(f);
  if (H_out) fclose(H_out);
  fflush(NULL);
  int fin; MPI_Finalized(&fin);
  if (!fin && TDyInitialized()) { TDyFinalize(); }
  if (!fin) MPI_Finalize();
  return 0;
}
