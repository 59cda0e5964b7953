// The life of dycores (specs/Lifecycle.tla): calls in any order, supported and
// unsupported combinations, destruction at any point.
#include "vh.h"
#include <private/tdymaterialpropertiesimpl.h>
#include <private/tdyconditionsimpl.h>
#include <private/tdytiimpl.h>
#define ND 2
static TDy D[ND];
static int ctx_cells[8];
static void one(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1.; }
static void p0(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 90000.; }
static void v0(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 0.; }
static void t0(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 298.; }
static void ptype(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = NEUMANN_BC; }
static PetscErrorCode create_dm(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode e; PetscReal lo[3] = {0, 0, 0}, up[3] = {1, 1, 1}; PetscInt faces[3] = {*(int *)ctx, 1, 1};
  e = DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, faces, lo, up, NULL, PETSC_TRUE, dm); CHKERRQ(e);
  return 0;
}
static void props(TDy t) {
  TDyMode m = t->options.mode;
  VHCHK(TDySetPorosityFunction(t, one)); VHCHK(TDySetConstantIsotropicPermeability(t, 1.e-12)); VHCHK(TDySetConstantResidualSaturation(t, 0.1));
  if (m == TH) { VHCHK(TDySetSoilDensityFunction(t, one)); VHCHK(TDySetSoilSpecificHeatFunction(t, one)); VHCHK(TDySetConstantIsotropicThermalConductivity(t, 1.)); }
  if (m == SALINITY) { VHCHK(TDySetConstantIsotropicSalineDiffusivity(t, 1.e-9)); VHCHK(TDySetConstantSalineMolecularWeight(t, 58.)); }
  VHCHK(TDySetBoundaryPressureFunction(t, p0)); VHCHK(TDySetBoundaryVelocityFunction(t, v0));
  if (m == TH) VHCHK(TDySetBoundaryTemperatureFunction(t, t0));
  VHCHK(TDySetBoundaryPressureTypeFunction(t, ptype));
}
static int cli_mode = -1, cli_disc = -1, cli_mesh, cli_meth = -1, cli_out;
static void options(void) {
  static const char *M[] = {"RICHARDS", "TH", "SALINITY"}, *Q[] = {"SNES", "TS"};
  char b[64];
  vh_clear_options();
  if (cli_mode >= 0) vh_opt("-tdy_mode", TDyModes[cli_mode]);
  if (cli_disc >= 0) vh_opt("-tdy_discretization", TDyDiscretizations[cli_disc]);
  if (cli_meth >= 0) vh_opt("-tdy_time_integration_method", Q[cli_meth]);
  if (cli_out) vh_opt("-tdy_output_mesh", "1");
  if (cli_mesh) { sprintf(b, "row%d.h5", cli_mesh); if (access(b, 0)) vh_write_row(b, cli_mesh); vh_opt("-tdy_read_pflotran_mesh", b); }
  vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", "2,1,1");
  vh_opt("-tdy_mpfao_boundary_condition_type", "NEUMANN_BC"); vh_opt("-tdy_gravity", "0");
  vh_opt("-pc_type", "lu");
  if (getenv("VH_OPTS")) PetscOptionsInsertString(NULL, getenv("VH_OPTS"));
}
static void view(int e) {
  char b[1024]; int k = 0;
  for (int i = 0; i < ND; ++i) {
    k += sprintf(b + k, "%s", i ? "," : "");
    if (!D[i]) { k += sprintf(b + k, "{\"live\":false,\"mode\":0,\"disc\":0,\"cells\":0,\"size\":0}"); continue; }
    TDyDiscretization d; DM dm; int cells = -1, size = -1; Vec v;
    VHCHK(TDyGetDiscretization(D[i], &d));
    if (D[i]->discretization->tdydm->dmtype == TDYCORE_DM_TYPE) cells = -2;
    else {
      VHCHK(TDyGetDM(D[i], &dm));
      if (dm) { PetscInt a, z; VHCHK(DMPlexGetHeightStratum(dm, 0, &a, &z)); cells = z - a; }
    }
    v = NULL;
    if (!TDyCreatePrognosticVector(D[i], &v)) { PetscInt n; VHCHK(VecGetSize(v, &n)); size = n; }
    if (v) VecDestroy(&v);
    k += sprintf(b + k, "{\"live\":true,\"mode\":%d,\"disc\":%d,\"cells\":%d,\"size\":%d}", (int)D[i]->options.mode, (int)d, cells, size);
  }
  LOG(",\"ok\":%s,\"v\":[%s]}", e ? "false" : "true", b);
}
static void run_scenario(void) {
  int n;
  cli_mode = cli_disc = cli_meth = -1; cli_mesh = cli_out = 0;
  while ((n = vh_line()) && strcmp(tok[0], "E")) {
    const char *op = tok[0]; PetscErrorCode e = 0;
    int a = n > 1 ? atoi(tok[1]) : 0, b = n > 2 ? atoi(tok[2]) : 0, c = n > 3 ? atoi(tok[3]) : 0;
    fprintf(vh_out, "{\"e\":\"%s\",\"i\":%d,\"a\":%d,\"b\":%d", op, a, b, c); fflush(vh_out);
    options();
    if (!strcmp(op, "new")) e = TDyCreate(PETSC_COMM_WORLD, &D[a]);
    else if (!strcmp(op, "mode")) e = TDySetMode(D[a], b);
    else if (!strcmp(op, "disc")) e = TDySetDiscretization(D[a], b);
    else if (!strcmp(op, "ctor")) { ctx_cells[b] = b; e = TDySetDMConstructor(D[a], &ctx_cells[b], create_dm); }
    else if (!strcmp(op, "cli")) { cli_mode = b; cli_disc = c; }
    else if (!strcmp(op, "mesh")) { cli_mesh = b; }
    else if (!strcmp(op, "out")) { cli_out = b; }
    else if (!strcmp(op, "from")) e = TDySetFromOptions(D[a]);
    else if (!strcmp(op, "set")) switch (b) {
      case 0: e = TDySetPorosityFunction(D[a], one); break;
      case 1: e = TDySetConstantIsotropicPermeability(D[a], 1.e-12); break;
      case 2: e = TDySetBoundaryPressureFunction(D[a], p0); break;
      case 3: e = TDySetForcingFunction(D[a], v0); break;
    }
    else if (!strcmp(op, "setup")) { if (b) props(D[a]); e = TDySetup(D[a]); }
    else if (!strcmp(op, "init")) { cli_meth = c; options(); if (b) props(D[a]); e = TDyDriverInitializeTDy(D[a]); cli_meth = -1;
      if (!e) {   // an unsaturated state, so that a closed domain has a solution
        Vec x = D[a]->soln; PetscScalar *p; PetscInt m, nc = D[a]->options.mode == RICHARDS && D[a]->options.discretization != MPFA_O_DAE ? 1 : 2; VHCHK(VecGetLocalSize(x, &m)); VHCHK(VecGetArray(x, &p));
        for (int k = 0; k < m; ++k) p[k] = k % nc == 0 ? 90000. : D[a]->options.mode == TH ? 298. : D[a]->options.mode == SALINITY ? .01 : p[k];
        VHCHK(VecRestoreArray(x, &p));
        if (D[a]->ti->time_integration_method == TDySNES) VHCHK(TDySetPreviousSolutionForSNESSolver(D[a], x));
      }
    }
    else if (!strcmp(op, "step")) e = TDyTimeIntegratorSetTimeStep(D[a], 0.5);
    else if (!strcmp(op, "run")) e = TDyTimeIntegratorRunToTime(D[a], D[a]->ti ? D[a]->ti->time + 1. : 1.);
    else if (!strcmp(op, "ask")) {
      Vec v = NULL, w = NULL; Mat m = NULL;
      switch (b) {
        case 0: e = TDyUpdateDiagnostics(D[a]); break;
        case 1: e = TDyCreateDiagnosticVector(D[a], &v); if (!e) { PetscInt q; VHCHK(VecGetSize(v, &q)); fprintf(vh_out, ",\"len\":%d", (int)q); } break;
        case 2: e = TDyCreateMatrix(D[a], &m); if (!e) { PetscInt q; VHCHK(MatGetSize(m, &q, NULL)); fprintf(vh_out, ",\"len\":%d", (int)q); } break;
        case 3: if (TDyCreateDiagnosticVector(D[a], &v)) { e = TDyGetLiquidSaturation(D[a], NULL); } else e = TDyGetLiquidSaturation(D[a], v); break;
        case 4: e = TDyCreateVectors(D[a]); break;
        case 5: e = TDyCreateJacobian(D[a]); break;
        case 6: { PetscInt q; e = TDyGetDimension(D[a], &q); if (!e) fprintf(vh_out, ",\"len\":%d", (int)q); break; }
      }
      if (v) VecDestroy(&v); if (m) MatDestroy(&m);
    }
    else if (!strcmp(op, "del")) { e = TDyDestroy(&D[a]); D[a] = NULL; }
    else vh_die(__FILE__, __LINE__, 0);
    view(e);
  }
}
int mode_life(void) {
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d}", id);
    run_scenario();
    for (int i = 0; i < ND; ++i) if (D[i]) { VHCHK(TDyDestroy(&D[i])); D[i] = NULL; }
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
