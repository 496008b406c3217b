/* Shared parts of the harness: spatial fields, meshes, dumps.  Public API of TDycore only. */
#include "common.h"
#include <string.h>
#include <stdint.h>
#include <unistd.h>

const char *slot_names[S_N] = {
  "poro","kxx","kxy","kxz","kyy","kyz","kzz","txx","txy","txz","tyy","tyz","tzz",
  "dxx","dxy","dxz","dyy","dyz","dzz","sr","rho","cp","mw","src","esrc","pbc","pbct","vbc","tbc","cbc",
  "P","Pprev","T","Tprev","C","Cprev","Pdot","Tdot","Cdot"};
enum { K_NONE=0, K_CONST, K_LIN, K_HASH, K_LHASH, K_SMOOTH, K_STEP, K_QUAD, K_PWL };
typedef struct { int kind; PetscReal p[8]; } Spec;
/* several sets of fields, so that different dycore instances in one process can have different ones */
static Spec bank[H_NB][S_N];
int H_bank = 0;
#define spec (bank[H_bank])
static PetscReal Q[9] = {1,0,0,0,1,0,0,0,1}, T0[3] = {0,0,0};
static PetscReal quantum = 1e-6;
FILE *H_out = NULL;

static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31);
}
PetscReal H_hash(const PetscReal *x, PetscInt n, PetscInt seed) {
  uint64_t h = mix((uint64_t)seed * 7919u + 12345u);
  for (PetscInt i = 0; i < n; i++) {
    int64_t k = (int64_t)PetscFloorReal(x[i]/quantum + 0.38196601);
    h = mix(h ^ (uint64_t)k);
  }
  return (PetscReal)(h >> 11) / 9007199254740992.0;
}
PetscBool H_has(int s) { return spec[s].kind ? PETSC_TRUE : PETSC_FALSE; }
static PetscBool is_state(int s) { return s >= S_P ? PETSC_TRUE : PETSC_FALSE; }
static PetscInt h_dim = 3;

PetscReal H_eval(int s, const PetscReal *xin, PetscInt state) {
  PetscReal d[3] = {0,0,0}, x[3] = {0,0,0};
  for (int i = 0; i < h_dim; i++) d[i] = xin[i] - T0[i];
  for (int i = 0; i < 3; i++) x[i] = Q[i]*d[0] + Q[3+i]*d[1] + Q[6+i]*d[2]; /* Q^T d */
  const PetscReal *p = spec[s].p;
  PetscInt ds = is_state(s) ? 1000*state : 0;
  switch (spec[s].kind) {
  case K_CONST: return p[0];
  case K_LIN:   return p[0] + p[1]*x[0] + p[2]*x[1] + p[3]*x[2];
  case K_HASH:  return p[0] + (p[1]-p[0])*H_hash(x, h_dim, (PetscInt)p[2]+ds);
  case K_LHASH: return p[0]*PetscPowReal(p[1]/p[0], H_hash(x, h_dim, (PetscInt)p[2]+ds));
  case K_SMOOTH:return p[0] + p[1]*PetscSinReal(p[2]*x[0]+p[3]*x[1]+p[4]*x[2]+p[5]+0.7*(is_state(s)?state:0));
  case K_STEP:  return x[(int)p[0]] < p[1] ? p[2] : p[3];
  case K_PWL:   return p[2] + p[3]*x[0] + p[4]*x[1] + p[5]*x[2] + (x[(int)p[0]] > p[1] ? p[6]*(x[(int)p[0]]-p[1]) : 0.0); /* axis,pos,a,gx,gy,gz,extra slope beyond */
  case K_QUAD:  return p[0] + p[1]*x[0]*x[0] + p[2]*x[1]*x[1] + p[3]*x[2]*x[2];
  }
  return 0.0;
}
static void parse(int s, const char *t) {
  static const struct { const char *n; int k; } kinds[] = {{"const",K_CONST},{"lin",K_LIN},{"hash",K_HASH},
    {"lhash",K_LHASH},{"smooth",K_SMOOTH},{"step",K_STEP},{"quad",K_QUAD},{"pwl",K_PWL}};
  if (!strcmp(t, "none")) { spec[s].kind = 0; return; }
  const char *c = strchr(t, ':');
  size_t l = c ? (size_t)(c - t) : strlen(t);
  for (int i = 0; i < 8; i++) if (strlen(kinds[i].n) == l && !strncmp(kinds[i].n, t, l)) {
    spec[s].kind = kinds[i].k;
    const char *q = c ? c + 1 : "";
    for (int j = 0; j < 8 && *q; j++) { char *e; spec[s].p[j] = strtod(q, &e); q = *e == ',' ? e+1 : e; if (e == q && *e != ',') break; }
    return;
  }
  fprintf(stderr, "harness: bad field %s\n", t); exit(64);
}
void H_fields_from_options(void) {
  char name[64], val[256]; PetscBool f; PetscInt n;
  for (int s = 0; s < S_N; s++) {
    snprintf(name, sizeof name, "-h_f_%s", slot_names[s]);
    PetscOptionsGetString(NULL, NULL, name, val, sizeof val, &f);
    if (f) parse(s, val);
  }
  n = 9; PetscOptionsGetRealArray(NULL, NULL, "-h_q", Q, &n, NULL);
  n = 3; PetscOptionsGetRealArray(NULL, NULL, "-h_t", T0, &n, NULL);
  PetscOptionsGetInt(NULL, NULL, "-h_dim", &h_dim, NULL);
  PetscOptionsGetReal(NULL, NULL, "-h_quantum", &quantum, NULL);
}

/* one C function per slot and bank, since TDycore's spatial functions carry no context */
#define WITH(b, ...) do { int o_ = H_bank; H_bank = b; __VA_ARGS__; H_bank = o_; } while (0)
#define SF1(s, b) static void f##b##_##s(PetscInt n, PetscReal *x, PetscReal *f) { WITH(b, for (PetscInt i = 0; i < n; i++) f[i] = H_eval(s, x + h_dim*i, 0)); }
#define SF(s) SF1(s,0) SF1(s,1) SF1(s,2) static TDySpatialFunction f_##s[H_NB] = {f0_##s, f1_##s, f2_##s};
SF(S_PORO) SF(S_KXX) SF(S_TXX) SF(S_DXX) SF(S_SR) SF(S_RHO) SF(S_CP) SF(S_MW) SF(S_SRC) SF(S_ESRC) SF(S_PBC) SF(S_VBC) SF(S_TBC) SF(S_CBC)
#define PBCT1(b) static void f##b##_pbct(PetscInt n, PetscReal *x, PetscInt *f) { WITH(b, for (PetscInt i = 0; i < n; i++) f[i] = (PetscInt)PetscFloorReal(H_eval(S_PBCT, x + h_dim*i, 0))); }
PBCT1(0) PBCT1(1) PBCT1(2)
static TDyScalarSpatialIntegerFunction f_pbct[H_NB] = {f0_pbct, f1_pbct, f2_pbct};
/* rotate tensors with the map: K' = Q K Q^T */
static void tens(int s0, const PetscReal *x, PetscReal *k) {
  PetscReal a[9];
  a[0]=H_eval(s0,x,0); a[1]=a[3]=H_eval(s0+1,x,0); a[2]=a[6]=H_eval(s0+2,x,0);
  a[4]=H_eval(s0+3,x,0); a[5]=a[7]=H_eval(s0+4,x,0); a[8]=H_eval(s0+5,x,0);
  if (h_dim == 2) { k[0]=a[0]; k[1]=k[2]=a[1]; k[3]=a[4]; return; }
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
    PetscReal v = 0; for (int l = 0; l < 3; l++) for (int m = 0; m < 3; m++) v += Q[3*i+l]*a[3*l+m]*Q[3*j+m];
    k[3*i+j] = v;
  }
}
#define TF1(s, b) static void t##b##_##s(PetscInt n, PetscReal *x, PetscReal *f) { WITH(b, for (PetscInt i = 0; i < n; i++) tens(s, x + h_dim*i, f + h_dim*h_dim*i)); } \
  static void d##b##_##s(PetscInt n, PetscReal *x, PetscReal *f) { WITH(b, for (PetscInt i = 0; i < n; i++) { PetscReal k[9]; tens(s, x + h_dim*i, k); for (int j = 0; j < h_dim; j++) f[h_dim*i+j] = k[j*(h_dim+1)]; }); }
#define TF(s) TF1(s,0) TF1(s,1) TF1(s,2) static TDySpatialFunction t_##s[H_NB] = {t0_##s, t1_##s, t2_##s}, d_##s[H_NB] = {d0_##s, d1_##s, d2_##s};
TF(S_KXX) TF(S_TXX) TF(S_DXX)

static const PetscReal origin[3] = {0,0,0};
#define C0(s) H_eval(s, origin, 0)
/* style: 0 function, 1 constant API (fields must be constant) */
PetscErrorCode H_apply_materials(TDy tdy, PetscInt mode) {
  PetscErrorCode ierr; char kst[3][8] = {"iso","iso","iso"}; PetscInt capi = 0; PetscReal k[9];
  PetscFunctionBegin;
  PetscOptionsGetInt(NULL, NULL, "-h_capi", &capi, NULL);
  PetscOptionsGetString(NULL, NULL, "-h_kstyle", kst[0], 8, NULL);
  PetscOptionsGetString(NULL, NULL, "-h_tstyle", kst[1], 8, NULL);
  PetscOptionsGetString(NULL, NULL, "-h_dstyle", kst[2], 8, NULL);
#define SCAL(s, CONSTF, FUNF) if (H_has(s)) { if (capi) { ierr = CONSTF(tdy, C0(s)); CHKERRQ(ierr);} else { ierr = FUNF(tdy, f_##s[H_bank]); CHKERRQ(ierr);} }
  SCAL(S_PORO, TDySetConstantPorosity, TDySetPorosityFunction)
  SCAL(S_SR, TDySetConstantResidualSaturation, TDySetResidualSaturationFunction)
#define TENS(s, st, P) if (H_has(s)) { tens(s, origin, k); PetscReal kd[3] = {k[0], k[h_dim+1], h_dim == 3 ? k[8] : 0}; \
    if (!strcmp(st,"iso")) { if (capi) {ierr = TDySetConstantIsotropic##P(tdy,k[0]); CHKERRQ(ierr);} else {ierr = TDySetIsotropic##P##Function(tdy,f_##s[H_bank]); CHKERRQ(ierr);} } \
    else if (!strcmp(st,"diag")) { if (capi) {ierr = TDySetConstantDiagonal##P(tdy,kd); CHKERRQ(ierr);} else {ierr = TDySetDiagonal##P##Function(tdy,d_##s[H_bank]); CHKERRQ(ierr);} } \
    else { if (capi) {ierr = TDySetConstantTensor##P(tdy,k); CHKERRQ(ierr);} else {ierr = TDySetTensor##P##Function(tdy,t_##s[H_bank]); CHKERRQ(ierr);} } }
  TENS(S_KXX, kst[0], Permeability)
  if (mode == TH) {
    SCAL(S_RHO, TDySetConstantSoilDensity, TDySetSoilDensityFunction)
    SCAL(S_CP, TDySetConstantSoilSpecificHeat, TDySetSoilSpecificHeatFunction)
    TENS(S_TXX, kst[1], ThermalConductivity)
  }
  if (mode == SALINITY) {
    SCAL(S_MW, TDySetConstantSalineMolecularWeight, TDySetSalineMolecularWeightFunction)
    TENS(S_DXX, kst[2], SalineDiffusivity)
  }
  PetscFunctionReturn(0);
}
PetscErrorCode H_apply_conditions(TDy tdy, PetscInt mode) {
  PetscErrorCode ierr;
  PetscFunctionBegin;
  char via[16] = "fn"; PetscOptionsGetString(NULL, NULL, "-h_bcvia", via, sizeof via, NULL);
  if (!strcmp(via, "select")) { /* by the names under which the fields were registered */
    if (H_has(S_SRC)) { ierr = TDySelectForcingFunction(tdy, "h_src"); CHKERRQ(ierr); }
    if (H_has(S_ESRC)) { ierr = TDySelectEnergyForcingFunction(tdy, "h_esrc"); CHKERRQ(ierr); }
    if (H_has(S_PBC)) { ierr = TDySelectBoundaryPressureFunction(tdy, "h_pbc"); CHKERRQ(ierr); }
    if (H_has(S_VBC)) { ierr = TDySelectBoundaryVelocityFunction(tdy, "h_vbc"); CHKERRQ(ierr); }
    if (H_has(S_TBC)) { ierr = TDySelectBoundaryTemperatureFunction(tdy, "h_tbc"); CHKERRQ(ierr); }
  }
  if (H_has(S_PBCT)) { ierr = TDySetBoundaryPressureTypeFunction(tdy, f_pbct[H_bank]); CHKERRQ(ierr); }
  if (H_has(S_CBC))  { ierr = TDySetBoundarySalineConcentrationFunction(tdy, f_S_CBC[H_bank]); CHKERRQ(ierr); }
  if (strcmp(via, "fn")) PetscFunctionReturn(0); /* select: done; cli: left to the options */
  if (H_has(S_SRC))  { ierr = TDySetForcingFunction(tdy, f_S_SRC[H_bank]); CHKERRQ(ierr); }
  if (H_has(S_ESRC)) { ierr = TDySetEnergyForcingFunction(tdy, f_S_ESRC[H_bank]); CHKERRQ(ierr); }
  if (H_has(S_PBC))  { ierr = TDySetBoundaryPressureFunction(tdy, f_S_PBC[H_bank]); CHKERRQ(ierr); }
  if (H_has(S_VBC))  { ierr = TDySetBoundaryVelocityFunction(tdy, f_S_VBC[H_bank]); CHKERRQ(ierr); }
  if (H_has(S_TBC))  { ierr = TDySetBoundaryTemperatureFunction(tdy, f_S_TBC[H_bank]); CHKERRQ(ierr); }
  PetscFunctionReturn(0);
}
/* registers the fields under h_<slot>; the names' storage is reused, as a caller's may be */
PetscErrorCode H_register(void) {
  PetscErrorCode ierr; char nm[16];
  PetscFunctionBegin;
#define REG(s) snprintf(nm, sizeof nm, "h_%s", slot_names[s]); ierr = TDyRegisterFunction(nm, f_##s[H_bank]); CHKERRQ(ierr);
  REG(S_SRC) REG(S_ESRC) REG(S_PBC) REG(S_VBC) REG(S_TBC)
  memset(nm, 'x', sizeof nm - 1);
  PetscFunctionReturn(0);
}

/* ---- meshes: integer-lattice boxes (hex or wedge), then graded, perturbed, sheared, mapped ---- */
PetscErrorCode H_dm(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode ierr; char type[32] = "box"; PetscInt n[3] = {2,2,2}, nn = 3, seed = 1, simplex = 0;
  PetscReal lo[3] = {0,0,0}, hi[3] = {1,1,1}, grade = 0, pert = 0, zpert = 0, column = 0, shear[9] = {1,0,0,0,1,0,0,0,1};
  PetscFunctionBegin;
  PetscOptionsGetString(NULL, NULL, "-h_mesh", type, sizeof type, NULL);
  PetscOptionsGetIntArray(NULL, NULL, "-h_n", n, &nn, NULL);
  nn = 3; PetscOptionsGetRealArray(NULL, NULL, "-h_lo", lo, &nn, NULL);
  nn = 3; PetscOptionsGetRealArray(NULL, NULL, "-h_hi", hi, &nn, NULL);
  PetscOptionsGetReal(NULL, NULL, "-h_grade", &grade, NULL);   /* max ratio of widths - 1 */
  PetscOptionsGetReal(NULL, NULL, "-h_pert", &pert, NULL);     /* interior vertices, fraction of a cell */
  PetscOptionsGetReal(NULL, NULL, "-h_zpert", &zpert, NULL);
  PetscOptionsGetReal(NULL, NULL, "-h_column", &column, NULL); /* z shift as a function of (x,y), fraction of height */
  nn = 9; PetscOptionsGetRealArray(NULL, NULL, "-h_shear", shear, &nn, NULL);
  PetscOptionsGetInt(NULL, NULL, "-h_seed", &seed, NULL);
  PetscInt faces[3] = {n[0],n[1],n[2]};
  PetscReal l0[3] = {0,0,0}, l1[3] = {(PetscReal)n[0],(PetscReal)n[1],(PetscReal)n[2]};
  DMBoundaryType per[3] = {DM_BOUNDARY_NONE,DM_BOUNDARY_NONE,DM_BOUNDARY_NONE};
  if (!strcmp(type, "wedge")) {
    /* every quadrilateral column is cut into two triangular prisms, along a hashed diagonal */
    PetscMPIInt rk; MPI_Comm_rank(comm, &rk);
    PetscInt nv = 0, nc = 0, *cl = NULL; PetscReal *xv = NULL;
    PetscInt NX = n[0]+1, NY = n[1]+1;
    if (!rk) {
      nv = NX*NY*(n[2]+1); nc = 2*n[0]*n[1]*n[2];
      cl = malloc(sizeof(PetscInt)*6*nc); xv = malloc(sizeof(PetscReal)*3*nv);
      for (PetscInt k = 0; k <= n[2]; k++) for (PetscInt j = 0; j < NY; j++) for (PetscInt i = 0; i < NX; i++) {
        PetscReal *p = xv + 3*(i + NX*(j + NY*k)); p[0] = i; p[1] = j; p[2] = k; }
      PetscInt q = 0;
      for (PetscInt k = 0; k < n[2]; k++) for (PetscInt j = 0; j < n[1]; j++) for (PetscInt i = 0; i < n[0]; i++) {
        PetscInt b0 = i + NX*(j + NY*k), t[2][3], up = NX*NY;
        PetscReal kk[2] = {i+0.25, j+0.25};
        if (H_hash(kk,2,seed+5) < 0.5) { t[0][0]=b0; t[0][1]=b0+1; t[0][2]=b0+1+NX; t[1][0]=b0; t[1][1]=b0+1+NX; t[1][2]=b0+NX; }
        else { t[0][0]=b0; t[0][1]=b0+1; t[0][2]=b0+NX; t[1][0]=b0+1; t[1][1]=b0+1+NX; t[1][2]=b0+NX; }
        for (int m = 0; m < 2; m++) { PetscInt *w6 = cl + 6*q++; w6[0]=t[m][0]; w6[1]=t[m][1]; w6[2]=t[m][2]; w6[3]=t[m][0]+up; w6[4]=t[m][1]+up; w6[5]=t[m][2]+up; }
      }
    }
    ierr = DMPlexCreateFromCellListPetsc(comm, 3, nc, nv, 6, PETSC_TRUE, cl, 3, xv, dm); CHKERRQ(ierr);
    free(cl); free(xv);
  } else {
    simplex = !strcmp(type, "tet");
    ierr = DMPlexCreateBoxMesh(comm, h_dim, simplex ? PETSC_TRUE : PETSC_FALSE, faces, l0, l1, per, PETSC_TRUE, dm); CHKERRQ(ierr);
  }
  ierr = DMViewFromOptions(*dm, NULL, "-h_dm_view"); CHKERRQ(ierr);
  Vec c; PetscScalar *a; PetscInt sz;
  ierr = DMGetCoordinatesLocal(*dm, &c); CHKERRQ(ierr);
  ierr = VecGetLocalSize(c, &sz); CHKERRQ(ierr);
  ierr = VecGetArray(c, &a); CHKERRQ(ierr);
  PetscReal *w[3];
  for (int d = 0; d < h_dim; d++) {
    w[d] = malloc(sizeof(PetscReal)*(n[d]+1)); w[d][0] = 0;
    for (PetscInt i = 0; i < n[d]; i++) { PetscReal k[2] = {d+0.25, i+0.25}; w[d][i+1] = w[d][i] + PetscPowReal(1+grade, H_hash(k,2,seed+17)); }
    PetscReal s = w[d][n[d]]; for (PetscInt i = 0; i <= n[d]; i++) w[d][i] /= s;
  }
  for (PetscInt v = 0; v < sz/h_dim; v++) {
    PetscReal *x = a + h_dim*v, y[3] = {0,0,0}; PetscInt IX[3] = {0,0,0}; PetscBool in = PETSC_TRUE;
    for (int d = 0; d < h_dim; d++) { IX[d] = (PetscInt)PetscFloorReal(x[d]+0.5); y[d] = w[d][IX[d]]; if (IX[d]==0||IX[d]==n[d]) in = PETSC_FALSE; }
    /* horizontal moves are shared by a whole column of vertices; vertical ones are per vertex */
    for (int d = 0; d < h_dim; d++) {
      PetscReal am = (d == 2) ? zpert : pert;
      if (am <= 0 || IX[d]==0 || IX[d]==n[d]) continue;
      PetscBool edge = PETSC_FALSE; /* keep the outer box a box */
      for (int e = 0; e < PetscMin(h_dim,2); e++) if (IX[e]==0||IX[e]==n[e]) edge = PETSC_TRUE;
      if (edge) continue;
      PetscReal k[4] = {IX[0]+0.25,IX[1]+0.25,d == 2 ? IX[2]+0.25 : 0.25,d+0.25};
      PetscReal h = PetscMin(w[d][IX[d]+1]-w[d][IX[d]], w[d][IX[d]]-w[d][IX[d]-1]);
      y[d] += am*h*(2*H_hash(k,4,seed+91)-1);
    }
    (void)in;
    for (int d = 0; d < h_dim; d++) y[d] = lo[d] + (hi[d]-lo[d])*y[d];
    if (column > 0 && h_dim == 3) { PetscReal k[2] = {IX[0]+0.25, !strcmp(type,"wedge") ? IX[1]+0.25 : 0.25}; y[2] += column*(hi[2]-lo[2])*(2*H_hash(k,2,seed+33)-1); }
    PetscReal z[3] = {0,0,0}, u[3];
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) z[i] += shear[3*i+j]*y[j];
    for (int i = 0; i < 3; i++) { u[i] = T0[i]; for (int j = 0; j < 3; j++) u[i] += Q[3*i+j]*z[j]; }
    for (int d = 0; d < h_dim; d++) x[d] = u[d];
  }
  for (int d = 0; d < h_dim; d++) free(w[d]);
  ierr = VecRestoreArray(c, &a); CHKERRQ(ierr);
  /* a random renumbering of the mesh points (cells, vertices, faces, edges among themselves) */
  PetscInt perm = 0;
  PetscOptionsGetInt(NULL, NULL, "-h_perm", &perm, NULL);
  if (perm) {
    PetscInt pS, pE, dep; ierr = DMPlexGetChart(*dm, &pS, &pE); CHKERRQ(ierr);
    PetscInt *ix; ierr = PetscMalloc1(pE-pS, &ix); CHKERRQ(ierr);
    for (PetscInt p = pS; p < pE; p++) ix[p-pS] = p;
    ierr = DMPlexGetDepth(*dm, &dep); CHKERRQ(ierr);
    for (PetscInt h = 0; h <= dep; h++) {
      PetscInt a0, a1; ierr = DMPlexGetDepthStratum(*dm, h, &a0, &a1); CHKERRQ(ierr);
      for (PetscInt i = a1-1; i > a0; i--) {
        PetscReal k[2] = {i+0.25, h+0.25};
        PetscInt j = a0 + (PetscInt)(H_hash(k,2,perm)*(i-a0+1)); if (j > i) j = i;
        PetscInt t = ix[i-pS]; ix[i-pS] = ix[j-pS]; ix[j-pS] = t;
      }
    }
    IS is; DM pdm; ierr = ISCreateGeneral(PETSC_COMM_SELF, pE-pS, ix, PETSC_OWN_POINTER, &is); CHKERRQ(ierr);
    ierr = DMPlexPermute(*dm, is, &pdm); CHKERRQ(ierr);
    ierr = ISDestroy(&is); CHKERRQ(ierr);
    ierr = DMDestroy(dm); CHKERRQ(ierr);
    *dm = pdm;
  }
  PetscFunctionReturn(0);
}

/* ---- dumps ---- */
PetscErrorCode H_open(void) {
  char out[PETSC_MAX_PATH_LEN], p[PETSC_MAX_PATH_LEN+16]; PetscBool f; PetscMPIInt r;
  PetscFunctionBegin;
  PetscOptionsGetString(NULL, NULL, "-h_out", out, sizeof out, &f);
  MPI_Comm_rank(PETSC_COMM_WORLD, &r);
  if (f) { snprintf(p, sizeof p, "%s.%d", out, (int)r); H_out = fopen(p, "w"); if (!H_out) { perror(p); exit(64); } setvbuf(H_out, NULL, _IOLBF, 1 << 16); }
  PetscFunctionReturn(0);
}
/* a partition that leaves a process without cells is not a supported configuration: say so and stop */
PetscErrorCode H_check_cells(TDy tdy) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce, n, m; PetscMPIInt rk, sz;
  PetscFunctionBegin;
  MPI_Comm_size(PETSC_COMM_WORLD, &sz);
  if (sz == 1) PetscFunctionReturn(0);
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  n = ce - cs; MPI_Allreduce(&n, &m, 1, MPIU_INT, MPI_MIN, PETSC_COMM_WORLD);
  if (m == 0) { MPI_Comm_rank(PETSC_COMM_WORLD, &rk); if (!rk) { printf("HARNESS: a process has no cells\n"); fflush(stdout); } MPI_Barrier(PETSC_COMM_WORLD); MPI_Finalize(); _exit(0); }
  PetscFunctionReturn(0);
}
static PetscErrorCode goffset(DM dm, PetscInt c, PetscInt *off) {
  PetscSection g; PetscErrorCode ierr;
  PetscFunctionBegin;
  ierr = DMGetGlobalSection(dm, &g); CHKERRQ(ierr);
  ierr = PetscSectionGetOffset(g, c, off); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
PetscErrorCode H_dump_mesh(TDy tdy, PetscInt *bs) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce, fs, fe, dof = 1; PetscSection sec;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 1, &fs, &fe); CHKERRQ(ierr);
  ierr = DMGetLocalSection(dm, &sec); CHKERRQ(ierr);
  if (ce > cs) { ierr = PetscSectionGetDof(sec, cs, &dof); CHKERRQ(ierr); }
  if (dof < 1) dof = 1;
  if (bs) *bs = dof;
  HOUT("N %d %d %d\n", (int)(ce-cs), (int)(fe-fs), (int)dof);
  for (PetscInt c = cs; c < ce; c++) {
    PetscReal v, x[3] = {0,0,0}; PetscInt off;
    ierr = DMPlexComputeCellGeometryFVM(dm, c, &v, x, NULL); CHKERRQ(ierr);
    ierr = goffset(dm, c, &off); CHKERRQ(ierr);
    int own = off >= 0; if (!own) off = -(off+1);
    HOUT("C %d %d %d %.17g %.17g %.17g %.17g\n", (int)c, own, (int)off, x[0], x[1], x[2], v);
  }
  for (PetscInt f = fs; f < fe; f++) {
    PetscReal v, x[3] = {0,0,0}, nrm[3] = {0,0,0}; PetscInt ns, o[2] = {-1,-1}; const PetscInt *s; int own = 0, t = -1;
    PetscInt co;
    ierr = DMPlexGetSupportSize(dm, f, &ns); CHKERRQ(ierr);
    ierr = DMPlexGetSupport(dm, f, &s); CHKERRQ(ierr);
    for (PetscInt i = 0; i < ns; i++) { ierr = goffset(dm, s[i], &co); CHKERRQ(ierr); if (co >= 0) own = 1; o[i] = co < 0 ? -(co+1) : co; }
    if (!own) continue;
    ierr = DMPlexComputeCellGeometryFVM(dm, f, &v, x, nrm); CHKERRQ(ierr);
    if (H_has(S_PBCT)) t = (int)PetscFloorReal(H_eval(S_PBCT, x, 0));
    HOUT("F %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d\n", (int)f, (int)o[0], (int)o[1], v,
         nrm[0], nrm[1], nrm[2], x[0], x[1], x[2], H_has(S_PBC) ? H_eval(S_PBC,x,0) : 0.0, H_has(S_VBC) ? H_eval(S_VBC,x,0) : 0.0,
         H_has(S_TBC) ? H_eval(S_TBC,x,0) : 0.0, H_has(S_CBC) ? H_eval(S_CBC,x,0) : 0.0, t);
  }
  /* the cell-wise material fields the harness supplied */
  for (int s = 0; s <= S_ESRC; s++) if (H_has(s)) { ierr = H_dump_field_cells(tdy, s, 0); CHKERRQ(ierr); }
  PetscFunctionReturn(0);
}
PetscErrorCode H_dump_field_cells(TDy tdy, int slot, PetscInt state) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  HOUT("L %s %d", slot_names[slot], (int)state);
  for (PetscInt c = cs; c < ce; c++) {
    PetscReal v, x[3] = {0,0,0}, k[9]; PetscInt off;
    ierr = goffset(dm, c, &off); CHKERRQ(ierr);
    if (off < 0) continue;
    ierr = DMPlexComputeCellGeometryFVM(dm, c, &v, x, NULL); CHKERRQ(ierr);
    int base = -1;
    if (slot >= S_KXX && slot <= S_KZZ) base = S_KXX; else if (slot >= S_TXX && slot <= S_TZZ) base = S_TXX; else if (slot >= S_DXX && slot <= S_DZZ) base = S_DXX;
    if (base >= 0 && h_dim == 3) {
      static const int m[6] = {0,1,2,4,5,8};
      tens(base, x, k); HOUT(" %d:%.17g", (int)off, k[m[slot-base]]);
    } else HOUT(" %d:%.17g", (int)off, H_eval(slot, x, state));
  }
  HOUT("\n");
  PetscFunctionReturn(0);
}
PetscErrorCode H_dump_vec(const char *name, PetscInt state, Vec v) {
  const PetscScalar *a; PetscInt s, e; PetscErrorCode ierr;
  PetscFunctionBegin;
  ierr = VecGetOwnershipRange(v, &s, &e); CHKERRQ(ierr);
  ierr = VecGetArrayRead(v, &a); CHKERRQ(ierr);
  HOUT("V %s %d %d", name, (int)state, (int)s);
  for (PetscInt i = 0; i < e-s; i++) HOUT(" %.17g", a[i]);
  HOUT("\n");
  ierr = VecRestoreArrayRead(v, &a); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
PetscErrorCode H_dump_mat(const char *name, PetscInt state, Mat m) {
  PetscInt s, e; PetscErrorCode ierr;
  PetscFunctionBegin;
  ierr = MatGetOwnershipRange(m, &s, &e); CHKERRQ(ierr);
  HOUT("M %s %d", name, (int)state);
  for (PetscInt i = s; i < e; i++) {
    PetscInt nc; const PetscInt *c; const PetscScalar *v;
    ierr = MatGetRow(m, i, &nc, &c, &v); CHKERRQ(ierr);
    for (PetscInt j = 0; j < nc; j++) if (v[j] != 0.0) HOUT(" %d:%d:%.17g", (int)i, (int)c[j], v[j]);
    ierr = MatRestoreRow(m, i, &nc, &c, &v); CHKERRQ(ierr);
  }
  HOUT("\n");
  PetscFunctionReturn(0);
}
PetscErrorCode H_fill(TDy tdy, Vec v, PetscInt bs, const int *slots, PetscInt state) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce, rs; PetscScalar *a;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  ierr = VecGetOwnershipRange(v, &rs, NULL); CHKERRQ(ierr);
  ierr = VecGetArray(v, &a); CHKERRQ(ierr);
  for (PetscInt c = cs; c < ce; c++) {
    PetscReal vol, x[3] = {0,0,0}; PetscInt off;
    ierr = goffset(dm, c, &off); CHKERRQ(ierr);
    if (off < 0) continue;
    ierr = DMPlexComputeCellGeometryFVM(dm, c, &vol, x, NULL); CHKERRQ(ierr);
    for (PetscInt b = 0; b < bs; b++) a[off-rs+b] = slots[b] < 0 ? 0.0 : H_eval(slots[b], x, state);
  }
  ierr = VecRestoreArray(v, &a); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
/* component b of cell c: coordinate k of its centroid, plus b times a thousand */
PetscErrorCode H_fill_coord(TDy tdy, Vec v, PetscInt bs, PetscInt k) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce, rs; PetscScalar *a;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  ierr = VecGetOwnershipRange(v, &rs, NULL); CHKERRQ(ierr);
  ierr = VecGetArray(v, &a); CHKERRQ(ierr);
  for (PetscInt c = cs; c < ce; c++) {
    PetscReal vol, x[3] = {0,0,0}; PetscInt off;
    ierr = goffset(dm, c, &off); CHKERRQ(ierr);
    if (off < 0) continue;
    ierr = DMPlexComputeCellGeometryFVM(dm, c, &vol, x, NULL); CHKERRQ(ierr);
    for (PetscInt b = 0; b < bs; b++) a[off-rs+b] = x[k] + 1000.0*b;
  }
  ierr = VecRestoreArray(v, &a); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
PetscErrorCode H_enum(const char *opt, const char *const *list, PetscInt *v) {
  char s[64]; PetscBool f;
  PetscFunctionBegin;
  PetscOptionsGetString(NULL, NULL, opt, s, sizeof s, &f);
  if (f) { PetscBool m = PETSC_FALSE; PetscInt i;
    for (i = 0; list[i]; i++) { PetscStrcasecmp(list[i], s, &m); if (m) { *v = i; break; } }
    if (!m) { fprintf(stderr, "harness: %s %s\n", opt, s); exit(64); } }
  PetscFunctionReturn(0);
}

/* every cell with its faces: outward area normal as PETSc stores it, centroid, vertices in closure order, values of g and f */
PetscErrorCode H_dump_cells(TDy tdy) {
  DM dm; PetscErrorCode ierr; PetscInt cs, ce, fs, fe, vs, ve, dim, g0, g1; PetscSection cs_; Vec cv; const PetscScalar *a;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMGetDimension(dm, &dim); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 0, &cs, &ce); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 1, &fs, &fe); CHKERRQ(ierr);
  ierr = DMPlexGetDepthStratum(dm, 0, &vs, &ve); CHKERRQ(ierr);
  ierr = DMGetCoordinateSection(dm, &cs_); CHKERRQ(ierr);
  ierr = DMGetCoordinatesLocal(dm, &cv); CHKERRQ(ierr);
  ierr = VecGetArrayRead(cv, &a); CHKERRQ(ierr);
  for (PetscInt c = cs; c < ce; c++) {
    const PetscInt *cone; PetscInt nc;
    ierr = DMPlexGetPointGlobal(dm, c, &g0, &g1); CHKERRQ(ierr);
    int own = g0 >= 0; if (g0 < 0) g0 = -(g0+1);
    if (!own) continue;
    ierr = DMPlexGetConeSize(dm, c, &nc); CHKERRQ(ierr);
    ierr = DMPlexGetCone(dm, c, &cone); CHKERRQ(ierr);
    for (PetscInt i = 0; i < nc; i++) {
      PetscReal A, x[3] = {0,0,0}, n[3] = {0,0,0}; PetscInt ns, fo, f1, ncl, *cl = NULL, k = 0;
      ierr = DMPlexComputeCellGeometryFVM(dm, cone[i], &A, x, n); CHKERRQ(ierr);
      ierr = DMPlexGetSupportSize(dm, cone[i], &ns); CHKERRQ(ierr);
      PetscSection gs; PetscInt ps, pe; fo = 0;
      ierr = DMGetGlobalSection(dm, &gs); CHKERRQ(ierr); ierr = PetscSectionGetChart(gs, &ps, &pe); CHKERRQ(ierr);
      if (cone[i] >= ps && cone[i] < pe) { ierr = DMPlexGetPointGlobal(dm, cone[i], &fo, &f1); CHKERRQ(ierr); } /* only the mixed methods number faces */
      if (fo < 0) fo = -(fo+1);
      HOUT("X CF %d %d %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g", (int)g0, (int)fo, ns == 1, A, n[0], n[1], n[2], x[0], x[1], x[2], H_has(S_PBC) ? H_eval(S_PBC,x,0) : 0.0);
      ierr = DMPlexGetTransitiveClosure(dm, cone[i], PETSC_TRUE, &ncl, &cl); CHKERRQ(ierr);
      for (PetscInt j = 0; j < 2*ncl; j += 2) if (cl[j] >= vs && cl[j] < ve) k++;
      HOUT(" %d", (int)k);
      for (PetscInt j = 0; j < 2*ncl; j += 2) if (cl[j] >= vs && cl[j] < ve) {
        PetscInt o; PetscReal y[3] = {0,0,0}; ierr = PetscSectionGetOffset(cs_, cl[j], &o); CHKERRQ(ierr);
        for (PetscInt d = 0; d < dim; d++) y[d] = a[o+d];
        HOUT(" %.17g %.17g %.17g %.17g %.17g", y[0], y[1], y[2], H_has(S_SRC) ? H_eval(S_SRC,y,0) : 0.0, H_has(S_PBC) ? H_eval(S_PBC,y,0) : 0.0);
      }
      HOUT("\n");
      ierr = DMPlexRestoreTransitiveClosure(dm, cone[i], PETSC_TRUE, &ncl, &cl); CHKERRQ(ierr);
    }
  }
  ierr = VecRestoreArrayRead(cv, &a); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}

/* the boundary faces the library reports: point, whether it is a face, cells on this process, centroid */
PetscErrorCode H_dump_boundary(TDy tdy) {
  DM dm; PetscErrorCode ierr; PetscInt n = 0, fs, fe, ns; const PetscInt *f = NULL;
  PetscFunctionBegin;
  ierr = TDyGetDM(tdy, &dm); CHKERRQ(ierr);
  ierr = DMPlexGetHeightStratum(dm, 1, &fs, &fe); CHKERRQ(ierr);
  ierr = TDyGetBoundaryFaces(tdy, &n, &f); CHKERRQ(ierr);
  HOUT("X NBF %d\n", (int)n);
  for (PetscInt i = 0; i < n; i++) {
    PetscReal A = 0, x[3] = {0,0,0}, v[3];
    int ok = f[i] >= fs && f[i] < fe;
    ns = 0;
    if (ok) { ierr = DMPlexComputeCellGeometryFVM(dm, f[i], &A, x, v); CHKERRQ(ierr); ierr = DMPlexGetSupportSize(dm, f[i], &ns); CHKERRQ(ierr); }
    HOUT("X BF %d %d %d %.17g %.17g %.17g %.17g\n", (int)f[i], ok, (int)ns, A, x[0], x[1], x[2]);
  }
  ierr = TDyRestoreBoundaryFaces(tdy, &n, &f); CHKERRQ(ierr);
  PetscFunctionReturn(0);
}
