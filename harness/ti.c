// Time integration (specs/TimeIntegrator.tla): the real TDyTimeIntegratorRunToTime
// is driven with a scripted nonlinear solver whose outcomes come from the
// specification. What each solve is asked to do (effective step size, previous
// state, initial guess) is recovered from the real residual, not from the
// integrator's own variables.
#include "vh.h"
#include <petsc/private/snesimpl.h>
#include <petscviewerhdf5.h>
#include <dirent.h>
#include <unistd.h>
#include <math.h>

#define NST 100
#define GARBAGE 90
static TDy T;
static int nouts, iout, next_state, solves, ts_mode, stopped;
static char outs[8192];
static PetscReal mtab[NST];
static PetscReal P_of(int id) { return id == GARBAGE ? 55555. : 100000. - 500. * id; }
static int state_of_vec(Vec v) {
  PetscReal lo, hi;
  if (!v) return -2;
  VecMin(v, NULL, &lo); VecMax(v, NULL, &hi);
  for (int i = 0; i < NST; ++i) if (fabs(lo - P_of(i)) < 1e-6 && fabs(hi - P_of(i)) < 1e-6) return i;
  return -1;
}
static void natural_state(Vec *v, int id) { VHCHK(VecDuplicate(T->soln, v)); VHCHK(VecSet(*v, P_of(id))); }

// -- files written by the run -----------------------------------------------
static int read_is_dyadic_time(const char *name, double *t) {
  char *end; *t = strtod(name, &end);
  if (end == name || *end != '_') return 0;
  char buf[64]; snprintf(buf, sizeof buf, "%11.5e", T->ti->time);
  if (!strncmp(buf, name, strlen(buf))) *t = T->ti->time;   // name of the current clock: exact
  return 1;
}
static int cmpname(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void scan_files(void) {
  DIR *d = opendir("."); struct dirent *e; char *names[512]; int n = 0;
  while ((e = readdir(d))) if (e->d_name[0] != '.' && n < 512) names[n++] = strdup(e->d_name);
  closedir(d);
  qsort(names, n, sizeof(char *), cmpname);
  for (int i = 0; i < n; ++i) {
    double t; size_t L = strlen(names[i]);
    if (L > 7 && !strcmp(names[i] + L - 7, "_chk.h5") && read_is_dyadic_time(names[i], &t)) {
      PetscViewer v; Vec u; PetscInt step = -1; PetscBool has = PETSC_FALSE;
      int sid = -3;
      if (!PetscViewerHDF5Open(PETSC_COMM_WORLD, names[i], FILE_MODE_READ, &v)) {
        const char *ds[] = {"fields/IC", "IC"};
        for (int k = 0; k < 2 && sid == -3; ++k) {
          VecCreate(PETSC_COMM_WORLD, &u); PetscObjectSetName((PetscObject)u, ds[k]);
          if (!VecLoad(u, v)) sid = state_of_vec(u);
          VecDestroy(&u);
        }
        PetscViewerHDF5HasAttribute(v, NULL, "time step", &has);
        if (has) PetscViewerHDF5ReadAttribute(v, NULL, "time step", PETSC_INT, NULL, &step);
        PetscViewerDestroy(&v);
      }
      LOG("{\"e\":\"Chk\",\"t\":%s,\"step\":%d,\"st\":%d}", vh_dy(t), (int)step, sid);
      unlink(names[i]);
    } else if (strstr(names[i], "_LiquidPressure.txt") && read_is_dyadic_time(names[i], &t)) {
      FILE *f = fopen(names[i], "r"); char l[256]; int sid = -1, first = 1;
      while (f && fgets(l, sizeof l, f)) {
        char *end; double x = strtod(l, &end);
        if (end == l) continue;
        int id = -1;
        for (int k = 0; k < NST; ++k) if (fabs(x - P_of(k)) < 1) id = k;
        if (first) sid = id; else if (id != sid) sid = -1;
        first = 0;
      }
      if (f) fclose(f);
      LOG("{\"e\":\"Out\",\"t\":%s,\"st\":%d}", vh_dy(t), sid);
      unlink(names[i]);
    }
  }
  for (int i = 0; i < n; ++i) free(names[i]);
}

// -- the scripted nonlinear solver -------------------------------------------
static PetscReal resid0(SNES snes, Vec X, int id) {
  Vec F = snes->vec_func; const PetscScalar *a; PetscReal r;
  VHCHK(VecSet(X, P_of(id)));
  VHCHK(SNESComputeFunction(snes, X, F));
  VHCHK(VecGetArrayRead(F, &a)); r = a[0]; VecRestoreArrayRead(F, &a);
  return r;
}
static PetscReal dt_est; static int prev_est;
static void observe(SNES snes) {
  Vec W; VHCHK(VecDuplicate(snes->vec_sol, &W));
  PetscReal ra = resid0(snes, W, 2), rb = resid0(snes, W, 40);
  VecDestroy(&W);
  dt_est = (mtab[2] - mtab[40]) / (ra - rb);
  PetscReal mp = mtab[2] - ra * dt_est, best = 1e300; prev_est = -1;
  for (int i = 0; i < NST; ++i) if (fabs(mp - mtab[i]) < best) { best = fabs(mp - mtab[i]); prev_est = i; }
  if (best > 0.01 * fabs(mtab[2] - mtab[1])) prev_est = -1;
}
static PetscErrorCode ScriptSolve(SNES snes) {
  int guess = state_of_vec(snes->vec_sol); char oc = iout < nouts ? outs[iout] : 'S';   // S: the script ends here
  double dt; int prev;
  ++iout; ++solves;
  if (ts_mode) {
    PetscReal h; TSGetTimeStep(T->ti->ts, &h); dt = h;
    Vec u; TSGetSolution(T->ti->ts, &u); prev = state_of_vec(u); guess = prev;
  } else {
    observe(snes); prev = prev_est; dt = dt_est;
    if (T->ti->dt != 0 && fabs(dt - T->ti->dt) <= 1e-6 * fabs(T->ti->dt)) dt = T->ti->dt;  // undo round-off
  }
  scan_files();
  int ns = oc == 'C' ? next_state++ : oc == 'S' ? 0 : GARBAGE;
  LOG("{\"e\":\"Solve\",\"dt\":%s,\"prev\":%d,\"guess\":%d,\"oc\":\"%c\",\"new\":%d}", vh_dy(dt), prev, guess, oc, ns);
  PetscReal p = P_of(ns);
  if (oc == 'S') { stopped = 1; return PETSC_ERR_USER; }
  VHCHK(VecSet(snes->vec_sol, p));
  snes->iter = 1; snes->reason = oc == 'C' ? SNES_CONVERGED_FNORM_ABS : SNES_DIVERGED_MAX_IT;
  return 0;
}
static PetscErrorCode ScriptNone(SNES snes) { return 0; }
static PetscErrorCode ScriptCreate(SNES snes) {
  snes->ops->setup = ScriptNone; snes->ops->solve = ScriptSolve; snes->ops->destroy = ScriptNone;
  snes->ops->setfromoptions = NULL; snes->ops->view = NULL; snes->ops->reset = NULL;
  snes->usesksp = PETSC_FALSE; snes->usesnpc = PETSC_FALSE;
  return 0;
}
static double run_t0;
static PetscErrorCode TsMonitor(TS ts, PetscInt step, PetscReal t, Vec u, void *ctx) {
  LOG("{\"e\":\"TsAt\",\"t\":%s,\"st\":%d}", vh_dy(t), state_of_vec(u));
  return 0;
}
static void calibrate(void) {
  // stored mass of every state, from the residual itself with a known step and state
  Vec v; SNES snes = T->ti->snes;
  PetscReal dt0 = T->dtime;
  VHCHK(TDySetDtimeForSNESSolver(T, 1.0));
  VHCHK(VecDuplicate(T->soln, &v)); VHCHK(VecSet(v, P_of(1)));
  VHCHK(TDySetPreviousSolutionForSNESSolver(T, v));
  VHCHK(TDyPreSolveSNESSolver(T));
  VHCHK(SNESSetUp(snes));
  Vec W; VHCHK(VecDuplicate(T->soln, &W));
  for (int i = 0; i < NST; ++i) mtab[i] = resid0(snes, W, i);   // = m(i) - m(1)
  VecDestroy(&W); VecDestroy(&v);
  T->dtime = dt0;
}
static void velocity0(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 0; }
static void neumann(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = NEUMANN_BC; }

static void run_scenario(void) {
  TDyDiscretization disc = FV_TPF; int n; T = NULL; nouts = iout = solves = stopped = 0; next_state = 2; ts_mode = 0; int created = 0;
  vh_clean_scratch(); vh_clear_options(); outs[0] = 0;
  vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", "2,1,2");
  vh_opt("-dm_plex_box_lower", "0,0,0"); vh_opt("-dm_plex_box_upper", "2,1,2");
  vh_opt("-tdy_gravity", "0"); vh_opt("-snes_type", "vhscript");
  vh_opt("-ts_type", "beuler"); vh_opt("-ts_adapt_type", "none"); vh_opt("-ts_max_steps", "100000");
  while ((n = vh_line())) {
    if (!strcmp(tok[0], "E")) break;
    else if (!strcmp(tok[0], "opt")) vh_opt(tok[1], n > 2 ? tok[2] : NULL);
    else if (!strcmp(tok[0], "disc")) disc = !strcmp(tok[1], "MPFA_O") ? MPFA_O : FV_TPF;
    else if (!strcmp(tok[0], "ts")) { ts_mode = 1; vh_opt("-tdy_time_integration_method", "TS"); disc = MPFA_O; }
    else if (!strcmp(tok[0], "outs")) { strcpy(outs, n > 1 ? tok[1] : ""); nouts = strlen(outs); }
    else if (!strcmp(tok[0], "go")) {
      if (disc == MPFA_O) vh_opt("-tdy_mpfao_boundary_condition_type", "NEUMANN_BC");
      VHCHK(TDyCreate(PETSC_COMM_WORLD, &T)); VHCHK(TDySetMode(T, RICHARDS)); VHCHK(TDySetDiscretization(T, disc));
      VHCHK(TDySetFromOptions(T));
      if (disc == FV_TPF) VHCHK(TDySetBoundaryPressureTypeFunction(T, neumann));
      VHCHK(TDySetBoundaryVelocityFunction(T, velocity0));
      VHCHK(TDyDriverInitializeTDy(T));
      VHCHK(TDyIOSetMode(T, PetscViewerASCIIFormat));
      created = 1;
      if (!ts_mode) calibrate();
      Vec v; natural_state(&v, 1); VHCHK(TDySetInitialCondition(T, v)); 
      if (!ts_mode) VHCHK(TDySetPreviousSolutionForSNESSolver(T, T->soln));
      VecDestroy(&v);
      if (ts_mode) VHCHK(TSMonitorSet(T->ti->ts, TsMonitor, NULL, NULL));
      vh_clean_scratch();
    } else if (stopped) { continue;
    } else if (!strcmp(tok[0], "step")) {
      double dt = vh_from_dy(atoi(tok[1]), atoi(tok[2]));
      VHCHK(TDyTimeIntegratorSetTimeStep(T, dt));
      LOG("{\"e\":\"SetStep\",\"dt\":%s}", vh_dy(dt));
    } else if (!strcmp(tok[0], "run")) {
      double t = vh_from_dy(atoi(tok[1]), atoi(tok[2])); run_t0 = T->ti->time;
      LOG("{\"e\":\"Run\",\"target\":%s}", vh_dy(t));
      PetscErrorCode e = TDyTimeIntegratorRunToTime(T, t);
      if (stopped) continue;
      scan_files();
      LOG("{\"e\":\"RunEnd\",\"ok\":%s,\"time\":%s,\"step\":%d,\"st\":%d,\"cur\":%d}", e ? "false" : "true", vh_dy(T->ti->time),
          (int)T->ti->istep, state_of_vec(T->soln_prev), state_of_vec(T->soln));
    }
  }
  if (created) VHCHK(TDyDestroy(&T));
  vh_clean_scratch();
}
int mode_ti(void) {
  VHCHK(SNESRegister("vhscript", ScriptCreate));
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d}", id);
    run_scenario();
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
