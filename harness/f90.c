// Functions set from Fortran (specs/Fortran.tla). Each scenario runs in a process
// of its own, because the Fortran registry lives as long as the process.
#include "vh.h"
#include <private/tdymaterialpropertiesimpl.h>
#include <private/tdyconditionsimpl.h>
#include <sys/wait.h>
int fh_new(int), fh_set(int, int, int), fh_const(int, int, int), fh_reg(const char *, int, int), fh_sel(int, int, const char *, int);
TDy fh_ptr(int);
// the Fortran interface of these ends here: the number of a function is what
// Fortran passes for it when it is set as a porosity
PetscErrorCode __real_TDySetPorosityFunctionF90(TDy, PetscInt);
static int capture, caught;
PetscErrorCode __wrap_TDySetPorosityFunctionF90(TDy t, PetscInt id) {
  if (capture) { caught = id; return 0; }
  return __real_TDySetPorosityFunctionF90(t, id);
}
typedef PetscErrorCode (*SET)(TDy, PetscInt);
#define W(f) PetscErrorCode f(TDy, PetscInt) __attribute__((weak));
W(TDySetIsotropicPermeabilityFunctionF90) W(TDySetDiagonalPermeabilityFunctionF90) W(TDySetTensorPermeabilityFunctionF90)
W(TDySetIsotropicThermalConductivityFunctionF90) W(TDySetDiagonalThermalConductivityFunctionF90) W(TDySetTensorThermalConductivityFunctionF90)
W(TDySetSoilDensityFunctionF90) W(TDySetBoundaryTemperatureFunctionF90)
static int live[8];
// quantities: 1 porosity 2 residual 3 forcing 4 energy 5 pressure 6 velocity 7 type 8 permeability 9 conductivity 10 soil density 11 temperature
static int c_set(int d, int q, int k) {
  SET f[2][3] = {{TDySetIsotropicPermeabilityFunctionF90, TDySetDiagonalPermeabilityFunctionF90, TDySetTensorPermeabilityFunctionF90},
                 {TDySetIsotropicThermalConductivityFunctionF90, TDySetDiagonalThermalConductivityFunctionF90, TDySetTensorThermalConductivityFunctionF90}};
  capture = 1; caught = -1; int e = fh_set(d, 1, k); capture = 0;
  if (e || caught < 0) return e ? e : 1;
  SET s = q == 10 ? TDySetSoilDensityFunctionF90 : q == 11 ? TDySetBoundaryTemperatureFunctionF90 : f[q - 8][k > 50 ? 2 : k > 40 ? 1 : 0];
  return s(fh_ptr(d), caught);
}
static int scalar(PetscErrorCode e, double *f) {
  if (e) return 998;
  if (f[0] == f[1]) return f[0] > 0 && f[0] < 10 ? -(int)f[0] : 999;
  int k = (int)(f[0] / 1000);
  return f[0] == 1000 * k + 1 && f[1] == 1000 * k + 2 ? k : 999;
}
static int tensor(PetscErrorCode e, double *f) {
  if (e) return 998;
  int k = (int)(f[0] / 1000);
  if (f[0] < 1000) { k = f[0] / 10; for (int i = 0; i < 18; ++i) if (f[i] != 10 * k + i % 9 + 1) return 999; return -k; }
  for (int i = 0; i < 18; ++i) {
    int c = i % 9, p = i / 9, full = k > 50, diag = k > 40, on = c % 4 == 0;
    if (f[i] != (full || (on && diag) ? 1000 * k + 10 * c + 1 + p : on ? 1000 * k + 1 + p : 0)) return 999;
  }
  return k;
}
static void look(void) {
  int first = 1;
  fprintf(vh_out, ",\"seen\":[");
  for (int d = 1; d < 8; ++d) if (live[d]) {
    TDy t = fh_ptr(d); MaterialProp *m = t->matprop; Conditions *c = t->conditions;
    double x[6] = {1, 0, 0, 2, 0, 0}, f[18]; int v[12]; PetscInt b[2];
#define S(q, o, P, N) v[q] = 0; if (P##Has##N(o)) { f[0] = f[1] = -5; PetscErrorCode e = P##Compute##N(o, 2, x, f); v[q] = scalar(e, f); }
#define T(q, o, P, N) v[q] = 0; if (P##Has##N(o)) { memset(f, 0, sizeof f); PetscErrorCode e = P##Compute##N(o, 2, x, f); v[q] = tensor(e, f); }
    S(1, m, MaterialProp, Porosity) S(2, m, MaterialProp, ResidualSaturation) S(3, c, Conditions, Forcing) S(4, c, Conditions, EnergyForcing)
    S(5, c, Conditions, BoundaryPressure) S(6, c, Conditions, BoundaryVelocity) S(10, m, MaterialProp, SoilDensity) S(11, c, Conditions, BoundaryTemperature)
    T(8, m, MaterialProp, Permeability) T(9, m, MaterialProp, ThermalConductivity)
    v[7] = 0; if (ConditionsHasBoundaryPressureType(c)) { b[0] = b[1] = -5; v[7] = ConditionsAssignBoundaryPressureType(c, 2, x, b) ? 998 : b[0] % 10 == 1 && b[1] == b[0] + 1 ? b[0] / 10 : 999; }
    fprintf(vh_out, "%s{\"d\":%d,\"v\":[", first ? "" : ",", d); first = 0;
    for (int q = 1; q < 12; ++q) fprintf(vh_out, "%s%d", q > 1 ? "," : "", v[q]);
    fprintf(vh_out, "]}");
  }
  fprintf(vh_out, "]");
}
static void run(char (*ops)[200], int n) {
  for (int i = 0; i < n; ++i) {
    char op[20], name[80]; int d = 0, q = 0, k = 0, e = 0;
    sscanf(ops[i], "%19s", op); fprintf(vh_out, "{\"e\":\"%s\"", op); fflush(vh_out);
    if (!strcmp(op, "new")) { sscanf(ops[i], "%*s %d", &d); if ((e = fh_new(d))) vh_die(__FILE__, __LINE__, e); live[d] = 1; fprintf(vh_out, ",\"d\":%d", d); }
    else if (!strcmp(op, "del")) { sscanf(ops[i], "%*s %d", &d); TDy t = fh_ptr(d); VHCHK(TDyDestroy(&t)); live[d] = 0; fprintf(vh_out, ",\"d\":%d", d); }
    else if (!strcmp(op, "reg")) { sscanf(ops[i], "%*s %79s %d", name, &k); for (char *s = name; *s; ++s) if (*s == '~') *s = ' '; e = fh_reg(name, strlen(name), k); sscanf(ops[i], "%*s %79s", name); fprintf(vh_out, ",\"n\":\"%s\",\"k\":%d", name, k); }
    else if (!strcmp(op, "sel")) { sscanf(ops[i], "%*s %d %d %79s", &d, &q, name); for (char *s = name; *s; ++s) if (*s == '~') *s = ' '; e = fh_sel(d, q, name, strlen(name)); sscanf(ops[i], "%*s %*d %*d %79s", name); fprintf(vh_out, ",\"d\":%d,\"q\":%d,\"n\":\"%s\"", d, q, name); }
    else {
      sscanf(ops[i], "%*s %d %d %d", &d, &q, &k); fprintf(vh_out, ",\"d\":%d,\"q\":%d,\"k\":%d", d, q, k); fflush(vh_out);
      e = !strcmp(op, "const") ? fh_const(d, q, k) : q < 8 ? fh_set(d, q, k) : c_set(d, q, k);
    }
    if (e == 12345) vh_die(__FILE__, __LINE__, e);
    look();
    LOG(",\"ok\":%s}", e ? "false" : "true");
  }
}
int mode_f90(void) {
  static char ops[400][200];
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]), n = 0, k, st;
    while ((k = vh_line()) && strcmp(tok[0], "E")) { ops[n][0] = 0; for (int i = 0; i < k; ++i) { strcat(ops[n], tok[i]); strcat(ops[n], " "); } ++n; }
    LOG("{\"e\":\"Begin\",\"s\":%d}", id); fflush(NULL);
    pid_t p = getenv("VH_NOFORK") ? 0 : fork();
    if (!p) { alarm(30);
      vh_clear_options(); vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", "1,1,1");
      run(ops, n); fflush(NULL); _exit(0);
    }
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { fprintf(stderr, "scenario %d ended with status %d\n", id, st); exit(3); }
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
