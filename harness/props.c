/* Evaluate constitutive relations: commands from a script, one X record per result. */
#include "common.h"
#include <private/tdycoreimpl.h>
#include <private/tdycharacteristiccurvesimpl.h>
#include <private/tdyeosimpl.h>

static FILE *in;
static int RI(void) { int v = 0; if (fscanf(in, "%d", &v) != 1) v = 0; return v; }
static double RR(void) { double v = 0; if (fscanf(in, "%lf", &v) != 1) v = 0; return v; }
static PetscInt  *ints(int n) { PetscInt *a = malloc(sizeof(*a)*(n+1)); for (int i = 0; i < n; i++) a[i] = RI(); return a; }
static PetscReal *reals(int n) { PetscReal *a = malloc(sizeof(*a)*(n+1)); for (int i = 0; i < n; i++) a[i] = RR(); return a; }
static PetscReal *nans(int n) { PetscReal *a = malloc(sizeof(*a)*(n+1)); for (int i = 0; i < n; i++) a[i] = NAN; return a; }
static void out(const char *k, int n, PetscReal *a) { HOUT("X %s", k); for (int i = 0; i < n; i++) HOUT(" %.17g", a[i]); HOUT("\n"); }

int main(int argc, char **argv) {
  PetscErrorCode ierr; char fn[PETSC_MAX_PATH_LEN] = "script", w[32];
  ierr = TDyInit(argc, argv); CHKERRQ(ierr);
  ierr = H_open(); CHKERRQ(ierr);
  PetscOptionsGetString(NULL,NULL,"-h_script",fn,sizeof fn,NULL);
  in = fopen(fn, "r");
  CharacteristicCurves *cc; ierr = CharacteristicCurvesCreate(&cc); CHKERRQ(ierr);
  while (in && fscanf(in, "%31s", w) == 1) {
    if (!strcmp(w, "eos")) { /* type P T S */
      EOS e; memset(&e, 0, sizeof e); e.density_type = RI(); e.viscosity_type = RI(); e.enthalpy_type = WATER_ENTHALPY_CONSTANT;
      PetscReal P = RR(), T = RR(), S = RR(), v[9];
      for (int i = 0; i < 9; i++) v[i] = NAN;
      ierr = EOSComputeWaterDensity(&e, P, T, S, v, v+1, v+2); CHKERRQ(ierr);
      ierr = EOSComputeWaterViscosity(&e, P, T, S, v+3, v+4, v+5); CHKERRQ(ierr);
      ierr = EOSComputeWaterEnthalpy(&e, T, P, v+6, v+7, v+8); CHKERRQ(ierr);
      out("EOS", 9, v);
    } else if (!strcmp(w, "frac")) { /* Psi mw den */
      EOS e; memset(&e, 0, sizeof e); PetscReal a = RR(), b = RR(), c = RR(), f = NAN;
      ierr = EOSComputeSalinityFraction(&e, a, b, c, &f); CHKERRQ(ierr); out("FRAC", 1, &f);
    } else if (!strcmp(w, "satset")) { /* type n nparam points params */
      int t = RI(), n = RI(), np = RI(); PetscInt *p = ints(n); PetscReal *q = reals(n*np);
      ierr = SaturationSetType(cc->saturation, t, n, p, q); CHKERRQ(ierr);
      for (int i = 0; i < n; i++) p[i] = -12345; for (int i = 0; i < n*np; i++) q[i] = NAN; /* the arrays are the caller's */
      free(p); free(q);
    } else if (!strcmp(w, "sat")) { /* n Sr Pc */
      int n = RI(); PetscReal *Sr = reals(n), *Pc = reals(n), *S = nans(n), *d = nans(n), *d2 = nans(n);
      ierr = SaturationCompute(cc->saturation, Sr, Pc, S, d, d2); CHKERRQ(ierr);
      out("S", n, S); out("S", n, d); out("S", n, d2); free(Sr); free(Pc); free(S); free(d); free(d2);
    } else if (!strcmp(w, "satpts")) { /* n points Sr Pc */
      int n = RI(); PetscInt *p = ints(n); PetscReal *Sr = reals(n), *Pc = reals(n), *S = nans(n), *d = nans(n), *d2 = nans(n);
      ierr = SaturationComputeOnPoints(cc->saturation, n, p, Sr, Pc, S, d, d2); CHKERRQ(ierr);
      out("S", n, S); out("S", n, d); out("S", n, d2); free(p); free(Sr); free(Pc); free(S); free(d); free(d2);
    } else if (!strcmp(w, "krset")) { /* type n points; then per point: m (Irmay) or m x0 x1 x2 dx (Mualem) */
      int t = RI(), n = RI(); PetscInt *p = ints(n); PetscReal *q = malloc(sizeof(*q)*(9*n+1));
      for (int i = 0; i < n; i++) {
        if (t == REL_PERM_FUNC_IRMAY) q[i] = RR();
        else {
          for (int k = 0; k < 5; k++) q[9*i+k] = RR();
          ierr = RelativePermeability_Mualem_GetSmoothingCoeffs(q[9*i], q[9*i+1], q[9*i+2], q[9*i+3], q[9*i+4], q+9*i+5); CHKERRQ(ierr);
        }
      }
      ierr = RelativePermeabilitySetType(cc->rel_perm, t, n, p, q); CHKERRQ(ierr);
      for (int i = 0; i < n; i++) p[i] = -12345;
      free(p); free(q);
    } else if (!strcmp(w, "kr")) { /* n Se */
      int n = RI(); PetscReal *Se = reals(n), *k = nans(n), *d = nans(n);
      ierr = RelativePermeabilityCompute(cc->rel_perm, Se, k, d); CHKERRQ(ierr);
      out("K", n, k); out("K", n, d); free(Se); free(k); free(d);
    } else if (!strcmp(w, "krpts")) {
      int n = RI(); PetscInt *p = ints(n); PetscReal *Se = reals(n), *k = nans(n), *d = nans(n);
      ierr = RelativePermeabilityComputeOnPoints(cc->rel_perm, n, p, Se, k, d); CHKERRQ(ierr);
      out("K", n, k); out("K", n, d); free(p); free(Se); free(k); free(d);
    } else break;
  }
  if (in) fclose(in);
  HOUT("DONE\n");
  ierr = CharacteristicCurvesDestroy(cc); CHKERRQ(ierr);
  if (H_out) fclose(H_out);
  ierr = TDyFinalize(); CHKERRQ(ierr);
  return 0;
}
