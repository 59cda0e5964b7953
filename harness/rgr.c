// Regression files (specs/Regression.tla): what TDyOutputRegression writes for
// given solutions.
#include "vh.h"
#include <private/tdydiscretizationimpl.h>
#include <math.h>
static TDy D[8]; static int dof[8]; static char fname[8][64];
static void neumann(PetscInt n, PetscReal *x, PetscInt *t) { for (int i = 0; i < n; ++i) t[i] = NEUMANN_BC; }
// solutions are base + v/1024; anything else in the file is written as -99999
static int undo(double f, double base, double scale) {
  double v = (f - base) * 1024 * scale, r = floor(v + .5);
  return fabs(v - r) < 1e-4 * scale + 1e-3 && fabs(r) < 1e9 ? (int)r : -99999;
}
static void section(FILE *f, double base, long n, const char *name) {
  char line[200]; double v[3] = {NAN, NAN, NAN}; const char *lab[] = {"Max:", "Min:", "Mean:"}; long pos; int first = 1, bad = 0;
  for (int i = 0; i < 3; ++i) { char l[20]; if (!fgets(line, sizeof line, f) || sscanf(line, "%19s %lf", l, v + i) != 2 || strcmp(l, lab[i])) bad = 1; }
  fprintf(vh_out, "\"%s\":{\"max\":%d,\"min\":%d,\"sum\":%d,\"cells\":[", name, bad ? -99999 : undo(v[0], base, 1), bad ? -99999 : undo(v[1], base, 1), bad ? -99999 : undo(v[2], base, n));
  while ((pos = ftell(f)), fgets(line, sizeof line, f)) {
    int id; double x;
    if (line[0] == '-') { fseek(f, pos, SEEK_SET); break; }
    if (sscanf(line, "%d: %lf", &id, &x) != 2) { id = -1; x = NAN; }
    fprintf(vh_out, "%s[%d,%d]", first ? "" : ",", id, undo(x, base, 1)); first = 0;
  }
  fprintf(vh_out, "]}");
}
static struct { double base, tbase; long n; } last[4];   // what was last written to r1, r2, r3
static void report(int j) {
  char path[100], line[200]; int k = 0; double base = last[j].base, tbase = last[j].tbase; long n = last[j].n;
  sprintf(path, "r%d.regression", j);
  FILE *f = fopen(path, "r");
  fprintf(vh_out, "{");
  if (f) while (fgets(line, sizeof line, f)) {
    const char *s = !strcmp(line, "-- PRESSURE: Liquid Pressure --\n") ? "p" : !strcmp(line, "-- GENERIC: Temperature --\n") ? "t" : "other";
    fprintf(vh_out, "%s", k++ ? "," : ""); section(f, *s == 't' ? tbase : base, n, s);
  }
  fprintf(vh_out, "}");
  if (f) fclose(f);
}
int mode_rgr(void) {
  char b[64]; int sid = 0;
  while (vh_line()) {
    if (!strcmp(tok[0], "S")) { sid = atoi(tok[1]); LOG("{\"e\":\"Begin\",\"s\":%d}", sid); vh_clean_scratch(); MPI_Barrier(MPI_COMM_WORLD); }
    else if (!strcmp(tok[0], "E")) {
      for (int i = 0; i < 8; ++i) if (D[i]) VHCHK(TDyDestroy(&D[i]));
      LOG("{\"e\":\"Done\",\"s\":%d}", sid);
    }
    // new d kind nx ny nz n name: kind 0 MPFA-O Richards, 1 MPFA-O TH, 2 FV-TPF, 3 WY
    else if (!strcmp(tok[0], "new")) {
      int d = atoi(tok[1]), kind = atoi(tok[2]), n = atoi(tok[6]);
      vh_clear_options();
      if (kind == 2) { if (!vh_rank) remove("m.h5"); vh_write_row("m.h5", atoi(tok[3]) * atoi(tok[4]) * atoi(tok[5])); vh_opt("-tdy_read_pflotran_mesh", "m.h5"); }
      else {
        sprintf(b, "%s,%s,%s", tok[3], tok[4], tok[5]);
        vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", b);
      }
      vh_opt("-tdy_regression_test", "true"); vh_opt("-tdy_regression_test_filename", tok[7]);
      if (n != 2 || sid % 2) { sprintf(b, "%d", n); vh_opt("-tdy_regression_test_num_cells_per_process", b); }
      strcpy(fname[d], tok[7]); dof[d] = kind == 1 ? 2 : 1;
      VHCHK(TDyCreate(PETSC_COMM_WORLD, &D[d])); VHCHK(TDySetMode(D[d], kind == 1 ? TH : RICHARDS));
      VHCHK(TDySetDiscretization(D[d], kind == 2 ? FV_TPF : kind == 3 ? WY : MPFA_O));
      VHCHK(TDySetFromOptions(D[d]));
      VHCHK(TDySetConstantPorosity(D[d], .25)); VHCHK(TDySetConstantIsotropicPermeability(D[d], 1e-10)); VHCHK(TDySetConstantIsotropicThermalConductivity(D[d], 1));
      VHCHK(TDySetConstantSoilDensity(D[d], 2650)); VHCHK(TDySetConstantSoilSpecificHeat(D[d], 1000)); VHCHK(TDySetConstantResidualSaturation(D[d], .1));
      if (kind == 2) VHCHK(TDySetBoundaryPressureTypeFunction(D[d], neumann));
      int e = TDySetup(D[d]);
      PetscInt loc = 0, all[64] = {0}; Vec U;
      if (!e) { VHCHK(TDyCreateGlobalVector(D[d], &U)); VHCHK(VecGetLocalSize(U, &loc)); VHCHK(VecDestroy(&U)); }
      MPI_Gather(&loc, 1, MPIU_INT, all, 1, MPIU_INT, 0, MPI_COMM_WORLD);
      if (vh_out) {
        fprintf(vh_out, "{\"e\":\"new\",\"d\":%d,\"th\":%s,\"n\":%d,\"f\":\"%s\",\"own\":[", d, kind == 1 ? "true" : "false", n, tok[7]);
        for (int r = 0; r < vh_size; ++r) fprintf(vh_out, "%s%d", r ? "," : "", (int)all[r] / dof[d]);
        LOG("],\"ok\":%s}", e ? "false" : "true");
      }
    }
    else if (!strcmp(tok[0], "del")) { int d = atoi(tok[1]); VHCHK(TDyDestroy(&D[d])); LOG("{\"e\":\"del\",\"d\":%d}", d); }
    // out d how base tbase modulus a c: entry i of the solution is (a*i*i + c*i) mod modulus - modulus/2
    else {
      int d = atoi(tok[1]), how = atoi(tok[2]), m = atoi(tok[5]), a = atoi(tok[6]), c = atoi(tok[7]), e;
      double base = atof(tok[3]), tb = atof(tok[4]); PetscInt lo, hi, N; Vec U; int own = 0;
      if (how == 0) { VHCHK(TDyCreateGlobalVector(D[d], &U)); own = 1; }
      else { if (!D[d]->soln_prev) VHCHK(TDyCreateVectors(D[d])); U = D[d]->soln_prev; }
      VHCHK(VecGetOwnershipRange(U, &lo, &hi)); VHCHK(VecGetSize(U, &N));
#define VAL(i) ((int)(((long)a * (i) * (i) + (long)c * (i)) % m) - m / 2)
      for (PetscInt i = lo; i < hi; ++i) VHCHK(VecSetValue(U, i, (dof[d] == 2 && i % 2 ? tb : base) + VAL(i) / 1024., INSERT_VALUES));
      VHCHK(VecAssemblyBegin(U)); VHCHK(VecAssemblyEnd(U));
      if (how) VHCHK(VecCopy(U, D[d]->soln));
      e = how ? TDyTimeIntegratorOutputRegression(D[d]) : TDyOutputRegression(D[d], U);
      if (vh_out) {
        fprintf(vh_out, "{\"e\":\"out\",\"d\":%d,\"u\":[", d);
        for (PetscInt i = 0; i < N; ++i) fprintf(vh_out, "%s%d", i ? "," : "", VAL(i));
        fprintf(vh_out, "],"); int j = atoi(fname[d] + 1); last[j].base = base; last[j].tbase = tb; last[j].n = N / dof[d];
        fprintf(vh_out, "\"files\":["); for (j = 1; j <= 3; ++j) { if (j > 1) fprintf(vh_out, ","); report(j); }
        LOG("],\"ok\":%s}", e ? "false" : "true");
      }
      if (own) VHCHK(VecDestroy(&U));
    }
  }
  return 0;
}
