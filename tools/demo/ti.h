// A FV-TPF dycore on a 2x1x1 box, driven by the built-in integrator; which
// nonlinear solves fail is decided by `fails` (consulted once per solve).
#include <tdycore.h>
#include <private/tdycoreimpl.h>
#include <private/tdyioimpl.h>
#include <private/tdytiimpl.h>
#include <math.h>
#include <string.h>
#define CK(x) do { PetscErrorCode e_ = (x); if (e_) { fprintf(stderr, "line %d: error %d\n", __LINE__, e_); exit(3); } } while (0)
static int (*fails)(int solve) = NULL;
static int nsolve;
static TDy tdy;
static PetscErrorCode conv(SNES s, PetscInt it, PetscReal x, PetscReal g, PetscReal f, SNESConvergedReason *r, void *c) {
  if (it == 0) { *r = SNES_CONVERGED_ITERATING; return 0; }
  ++nsolve;
  *r = fails && fails(nsolve) ? SNES_DIVERGED_MAX_IT : SNES_CONVERGED_ITS;
  return 0;
}
static void pressure(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1; }
static void kinds(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = NEUMANN_BC; }
static void start(void) {
  const char *o[] = {"-dm_plex_simplex", "0", "-dm_plex_dim", "3", "-dm_plex_box_faces", "2,1,1", "-dm_plex_box_lower", "0,0,0", "-dm_plex_box_upper", "2,1,1",
                     "-snes_linesearch_type", "basic", "-pc_type", "lu"};
  for (int i = 0; i < 14; i += 2) CK(PetscOptionsSetValue(NULL, o[i], o[i + 1]));
  CK(TDyCreate(PETSC_COMM_WORLD, &tdy)); CK(TDySetMode(tdy, RICHARDS)); CK(TDySetDiscretization(tdy, FV_TPF)); CK(TDySetFromOptions(tdy));
  CK(TDySetBoundaryPressureTypeFunction(tdy, kinds));
  CK(TDyDriverInitializeTDy(tdy));
  PetscInt n; PetscReal *a; CK(VecGetLocalSize(tdy->soln, &n)); CK(VecGetArray(tdy->soln, &a));
  for (int i = 0; i < n; ++i) a[i] = 90000 + 500 * i;
  CK(VecRestoreArray(tdy->soln, &a));
  CK(TDySetPreviousSolutionForSNESSolver(tdy, tdy->soln));
  CK(SNESSetConvergenceTest(tdy->ti->snes, conv, NULL, NULL));
}
static int near(double a, double b) { return fabs(a - b) <= 1e-9 * (1 + fabs(b)); }
