// The parameters of a dycore, by options and by calls (specs/Options.tla).
#include "vh.h"
#include <private/tdyioimpl.h>
#include <private/tdytiimpl.h>
#include <private/tdyregressionimpl.h>
#include <private/tdymaterialpropertiesimpl.h>
#include <private/tdyconditionsimpl.h>
#include <private/tdycharacteristiccurvesimpl.h>
#include <private/tdyeosimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdywyimpl.h>
#include <private/tdybdmimpl.h>
#include <math.h>
static TDy D; static char st[8];   // new, opts, set, run
static double val;
static void fa(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 111.; }
static void fb(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 222.; }
static void fv(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1.5; }
static int first;
static void s(const char *k, const char *v) { fprintf(vh_out, "%s\"%s\":\"%s\"", first ? "" : ",", k, v); first = 0; }
static void r(const char *k, double v) { char b[64]; sprintf(b, "%.10g", v); s(k, b); }
static void r5(const char *k, double v) { char b[64]; sprintf(b, "%.5g", v); s(k, b); }
static int cells(void) {
  if (D->discretization->tdydm->dmtype == TDYCORE_DM_TYPE) return D->discretization->ugrid->num_cells_local;
  DM dm; PetscInt a, z; VHCHK(TDyGetDM(D, &dm)); VHCHK(DMPlexGetHeightStratum(dm, 0, &a, &z)); return z - a;
}
static void start(const char *file, int n, double base) {   // a vector to start from
  Vec v; PetscViewer w; PetscScalar *p;
  VHCHK(VecCreateSeq(PETSC_COMM_SELF, n, &v)); VHCHK(VecGetArray(v, &p)); for (int i = 0; i < n; ++i) p[i] = base + i; VHCHK(VecRestoreArray(v, &p));
  VHCHK(PetscViewerBinaryOpen(PETSC_COMM_SELF, file, FILE_MODE_WRITE, &w)); VHCHK(VecView(v, w)); VHCHK(PetscViewerDestroy(&w)); VHCHK(VecDestroy(&v));
}
static void gmsh(const char *file, int n) {   // a row of n hexahedra
  FILE *f = fopen(file, "w"); int k = 0;
  fprintf(f, "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$Nodes\n%d\n", 4 * (n + 1));
  for (int i = 0; i <= n; ++i) for (int j = 0; j < 4; ++j) fprintf(f, "%d %d %d %d\n", ++k, i, j & 1, j >> 1);
  fprintf(f, "$EndNodes\n$Elements\n%d\n", n);
  for (int i = 0; i < n; ++i) { int a = 4 * i + 1, b = a + 4; fprintf(f, "%d 5 2 1 1 %d %d %d %d %d %d %d %d\n", i + 1, a, b, b + 1, a + 1, a + 2, b + 2, b + 3, a + 3); }
  fprintf(f, "$EndElements\n"); fclose(f);
}
static const char *onoff(PetscBool b) { return b ? "1" : "0"; }
static void tensor(const char *k, const double *v) {
  char b[96]; sprintf(b, "%.10g", v[0]);
  for (int i = 0; i < 9; ++i) if (v[i] != (i % 4 ? 0. : v[0])) sprintf(b, "?");
  s(k, b);
}
static void look(void) {
  first = 1;
  fprintf(vh_out, ",\"seen\":{");
  TDyOptions *o = &D->options; TDyIO io = D->io; int later = strcmp(st, "new"), up = later && strcmp(st, "opts"), run = !strcmp(st, "run");
  s("io_kfile", io->permeability_filename); s("io_kset", io->permeability_dataset); s("io_pfile", io->porosity_filename); s("io_pset", io->porosity_dataset);
  s("io_icfile", io->ic_filename); s("io_icset", io->ic_dataset); s("io_aniso", onoff(io->anisotropic_permeability)); s("io_cp", onoff(io->enable_checkpoint));
  r("io_cpint", io->checkpoint_timestep_interval); r("io_outint", io->output_timestep_interval);
  r("porosity", o->porosity); r("permeability", o->permeability); r("soil_density", o->soil_density); r("soil_heat", o->soil_specific_heat);
  r("conductivity", o->thermal_conductivity); r("residual", o->residual_saturation); r("vg_m", o->vangenuchten_m); r("vg_alpha", o->vangenuchten_alpha); r("gravity", o->gravity_constant);
  if (D->setup_flags & TDyModeSet) s("mode", TDyModes[o->mode]);
  if (D->setup_flags & TDyDiscretizationSet) s("disc", TDyDiscretizations[o->discretization]);
  s("density", TDyWaterDensityTypes[o->rho_type]); s("viscosity", TDyWaterViscosityTypes[o->mu_type]);
  s("random", onoff(o->init_with_random_field)); s("init_file", o->init_from_file ? o->init_file : ""); s("output_mesh", onoff(o->output_mesh)); s("regression", onoff(o->regression_testing));
  TDyMPFAO *mp = NULL; TDyFVTPF *tp = NULL;
  if (later) switch (o->discretization) {
    case FV_TPF: tp = D->context; s("fvtpf_bc", TDyBoundaryConditionTypes[tp->bc_type]); break;
    case WY: if (getenv("VH_QUAD")) s("quadrature", TDyQuadratureTypes[((TDyWY *)D->context)->qtype]); break;
    case BDM: s("quadrature", TDyQuadratureTypes[((TDyBDM *)D->context)->qtype]); break;
    default: mp = D->context; s("gmatrix", TDyMPFAOGmatrixMethods[mp->gmatrix_method]); s("mpfao_bc", TDyBoundaryConditionTypes[mp->bc_type]);
  }
  if (up && D->regression) { TDyRegression *g = D->regression; r("reg_cells", g->num_cells_per_process); s("reg_file", g->filename); }
  if (run) {
    r("final_time", D->ti->final_time); r("dt_max", D->ti->dt_max); r("dt_init", D->ti->dt == D->ti->dt_init ? D->ti->dt : -1); r("growth", D->ti->dt_growth_factor); r("reduction", D->ti->dt_reduction_factor);
    s("method", D->ti->time_integration_method == TDySNES ? "SNES" : "TS");
  }
  // what they lead to
  double x[6] = {.5, .5, .5, 1.5, .5, .5}, f[2], T[18] = {0};
  if (later) {
    Conditions *c = D->conditions;
#define BC(k, N) if (ConditionsHas##N(c)) { f[0] = f[1] = -1; VHCHK(ConditionsCompute##N(c, 1, x, f)); r(k, f[0]); } else s(k, "none")
    BC("bc_pressure", BoundaryPressure); BC("bc_velocity", BoundaryVelocity); BC("bc_temperature", BoundaryTemperature);
    r("e_cells", cells());
    if (mp || tp) { double *g = mp ? mp->gravity : tp->gravity; r("e_gravity", g[0] == 0 && g[1] == 0 ? g[2] : -1); }
  }
  if (up) {
    MaterialProp *m = D->matprop;
#define EQ(k, N) if (MaterialPropHas##N(m)) { VHCHK(MaterialPropCompute##N(m, 2, x, f)); r(k, f[0] == f[1] ? f[0] : -1); }
    EQ("e_porosity", Porosity) EQ("e_residual", ResidualSaturation) 
    if (MaterialPropHasPermeability(m)) { VHCHK(MaterialPropComputePermeability(m, 2, x, T)); tensor("e_permeability", T + 9); }
    if (o->mode == TH) {
      EQ("e_soil_density", SoilDensity) EQ("e_soil_heat", SoilSpecificHeat)
      if (MaterialPropHasThermalConductivity(m)) { memset(T, 0, sizeof T); VHCHK(MaterialPropComputeThermalConductivity(m, 2, x, T)); tensor("e_conductivity", T + 9); }
    }
    double a, b, c, d, d2;   // models of water told apart by what they depend on
    VHCHK(EOSComputeWaterDensity(&D->eos, 2e5, 25, .01, &a, &d, &d2)); VHCHK(EOSComputeWaterDensity(&D->eos, 4e7, 25, .01, &b, &d, &d2)); VHCHK(EOSComputeWaterDensity(&D->eos, 2e5, 60, .2, &c, &d, &d2));
    s("e_density", a == b && a == c ? "CONSTANT" : a == c ? "EXPONENTIAL" : "BATZLE_AND_WANG");
    VHCHK(EOSComputeWaterViscosity(&D->eos, 2e5, 25, .01, &a, &d, &d2)); VHCHK(EOSComputeWaterViscosity(&D->eos, 2e5, 60, .2, &c, &d, &d2));
    s("e_viscosity", a == c ? "CONSTANT" : "BATZLE_AND_WANG");
    if (mp || tp || o->discretization == WY) {
      PetscInt id = 0; double Sr = .25, Pc = 1e4, S = -1, Se = .5, K = -1;
      VHCHK(SaturationComputeOnPoints(D->cc->saturation, 1, &id, &Sr, &Pc, &S, &d, &d2)); r5("e_se", (S - Sr) / (1 - Sr));
      VHCHK(RelativePermeabilityComputeOnPoints(D->cc->rel_perm, 1, &id, &Se, &K, &d)); r5("e_kr", K);
    }
  }
  if (run) {
    PetscScalar *p; PetscInt n; int u = 1, i1 = 1, i2 = 1; VHCHK(VecGetLocalSize(D->soln, &n)); VHCHK(VecGetArray(D->soln, &p));
    for (int i = 0; i < n; ++i) { u &= p[i] == p[0]; i1 &= p[i] == 50000 + i; i2 &= p[i] == 60000 + i; }
    VHCHK(VecRestoreArray(D->soln, &p));
    s("e_start", i1 ? "init.bin" : i2 ? "init2.bin" : u ? "uniform" : "random");
  }
  fprintf(vh_out, "}");
}
static PetscErrorCode set(const char *p, const char *v) {
#define IS(x) !strcmp(p, x)
#define PICK(names, n) ({ int k = -1; for (int i = 0; i < n; ++i) if (!strcmp(names[i], v)) k = i; if (k < 0) vh_die(__FILE__, __LINE__, 0); k; })
  val = atof(v);
  if (IS("mode")) return TDySetMode(D, PICK(TDyModes, 3));
  if (IS("disc")) return TDySetDiscretization(D, PICK(TDyDiscretizations, 6));
  if (IS("density")) return TDySetWaterDensityType(D, PICK(TDyWaterDensityTypes, 3));
  if (IS("viscosity")) return TDySetWaterViscosityType(D, PICK(TDyWaterViscosityTypes, 2));
  if (IS("gmatrix")) return TDyMPFAOSetGmatrixMethod(D, PICK(TDyMPFAOGmatrixMethods, 2));
  if (IS("mpfao_bc")) return TDyMPFAOSetBoundaryConditionType(D, PICK(TDyBoundaryConditionTypes, 3));
  if (IS("quadrature")) return TDyBDMSetQuadrature(D, PICK(TDyQuadratureTypes, 2));
  if (IS("dt_init")) return TDyTimeIntegratorSetTimeStep(D, val);
  if (IS("porosity")) return TDySetConstantPorosity(D, val);
  if (IS("permeability")) return TDySetConstantIsotropicPermeability(D, val);
  if (IS("residual")) return TDySetConstantResidualSaturation(D, val);
  if (IS("conductivity")) return TDySetConstantIsotropicThermalConductivity(D, val);
  if (IS("soil_density")) return TDySetConstantSoilDensity(D, val);
  if (IS("soil_heat")) return TDySetConstantSoilSpecificHeat(D, val);
  if (IS("pressure")) return TDySetBoundaryPressureFunction(D, fv);
  if (IS("velocity")) return TDySetBoundaryVelocityFunction(D, fv);
  if (IS("temperature")) return TDySetBoundaryTemperatureFunction(D, fv);
  vh_die(__FILE__, __LINE__, 0); return 0;
}
static void run_scenario(void) {
  int n, dead = 0;
  D = NULL; strcpy(st, "none"); unsetenv("VH_QUAD");
  vh_clear_options();
  vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", "4,1,1");
  while ((n = vh_line()) && strcmp(tok[0], "E")) {
    const char *op = tok[0]; PetscErrorCode e = 0;
    if (!strcmp(op, "put")) {
      vh_opt(tok[1], n > 2 ? tok[2] : "");
      if (!strcmp(tok[1], "-tdy_quadrature")) setenv("VH_QUAD", "1", 1);
      LOG("{\"e\":\"put\",\"o\":\"%s\",\"v\":\"%s\"}", tok[1], n > 2 ? tok[2] : "");
      continue;
    }
    if (dead) continue;
    fprintf(vh_out, "{\"e\":\"%s\"", op); fflush(vh_out);
    const char *next = NULL;
    if (!strcmp(op, "new")) { e = TDyCreate(PETSC_COMM_WORLD, &D); next = "new"; }
    else if (!strcmp(op, "set")) { fprintf(vh_out, ",\"p\":\"%s\",\"v\":\"%s\"", tok[1], tok[2]); e = set(tok[1], tok[2]); }
    else if (!strcmp(op, "from")) { e = TDySetFromOptions(D); next = "opts"; }
    else if (!strcmp(op, "setup")) { if (D->options.mode == SALINITY) { VHCHK(TDySetConstantIsotropicSalineDiffusivity(D, 1.e-9)); VHCHK(TDySetConstantSalineMolecularWeight(D, 58.)); } e = TDySetup(D); next = "set"; }
    else if (!strcmp(op, "drive")) {
      if (D->options.init_from_file) { int k = cells() * (D->options.mode != RICHARDS || D->options.discretization == MPFA_O_DAE ? 2 : 1); start("init.bin", k, 50000.); start("init2.bin", k, 60000.); }
      e = TDyDriverInitializeTDy(D); next = "run";
    }
    else vh_die(__FILE__, __LINE__, 0);
    if (e && next) dead = 1; else if (next) strcpy(st, next);
    if (!dead) look();
    LOG(",\"ok\":%s%s}", e ? "false" : "true", dead ? ",\"seen\":{}" : "");
  }
  if (D && strcmp(st, "none")) VHCHK(TDyDestroy(&D));
}
int mode_opts(void) {
  VHCHK(TDyRegisterFunction("fa", fa)); VHCHK(TDyRegisterFunction("fb", fb));
  vh_write_row("row3.h5", 3); vh_write_row("row5.h5", 5); gmsh("three.msh", 3); gmsh("five.msh", 5);
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d}", id);
    run_scenario();
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
