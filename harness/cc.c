// Saturation and relative permeability models per point (specs/Curves.tla).
#include "vh.h"
#include "cc_table.h"
#include <private/tdycharacteristiccurvesimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdywyimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <math.h>
PETSC_EXTERN PetscErrorCode TDyFVTPFUpdateBoundaryState(TDy);
PETSC_EXTERN PetscErrorCode TDyMPFAOUpdateBoundaryState(TDy);
#define NPT 16
static CharacteristicCurves *cc; static TDy D; static int np, disc, mode;
static int nsat(int t) { return t ? 2 : 3; }
static double sr(int p) { return p % 2 ? .25 : 0.; }
static long fix(double v) { return isfinite(v) && fabs(v) < 100. ? lround(v * 1e6) : -999999999; }
static void ints(const char *k, int n, const long *v) { fprintf(vh_out, ",\"%s\":[", k); for (int i = 0; i < n; ++i) fprintf(vh_out, "%s%ld", i ? "," : "", v[i]); fprintf(vh_out, "]"); }
static void vals(const char *k, int n, const double *v) { long w[64]; for (int i = 0; i < n; ++i) w[i] = fix(v[i]); ints(k, n, w); }
static void kr_params(int t, int q, double *o) {
  if (t == 0) { o[0] = KRP[0][q][0]; return; }
  double m = KRP[1][q][0], x1 = KRP[1][q][1], x2 = 1., x0 = (x1 + x2) / 2, dx = (x2 - x1) / 2;
  o[0] = m; o[1] = x0; o[2] = x1; o[3] = x2; o[4] = dx;
  VHCHK(RelativePermeability_Mualem_GetSmoothingCoeffs(m, x0, x1, x2, dx, o + 5));
}
static void assign(int q, int t, int n, const int *p, const int *m) {
  // the arguments are freed at once: points and parameters are copied
  PetscInt *pts = malloc(n * sizeof(PetscInt)); int w = q ? (t ? 9 : 1) : nsat(t);
  PetscReal *prm = malloc(n * w * sizeof(PetscReal));
  for (int i = 0; i < n; ++i) { pts[i] = p[i]; if (q) kr_params(t, m[i], prm + w * i); else for (int j = 0; j < w; ++j) prm[w * i + j] = SATP[t][m[i]][j]; }
  if (q) VHCHK(RelativePermeabilitySetType(cc->rel_perm, t, n, pts, prm)); else VHCHK(SaturationSetType(cc->saturation, t, n, pts, prm));
  memset(pts, 1, n * sizeof(PetscInt)); memset(prm, 0, n * w * sizeof(PetscReal)); free(pts); free(prm);
}
static void look(int r) {
  double Sr[64], Pc[64], S[64], d[64], d2[64], Se[64], K[64]; PetscInt ord[64]; long lo[64]; int no = np + 1;
  for (int p = 0; p < np; ++p) { Sr[p] = sr(p); Pc[p] = PCL[(r + p) % NPC]; Se[p] = SEL[(r + p) % NSE]; S[p] = K[p] = -9; }
  VHCHK(SaturationCompute(cc->saturation, Sr, Pc, S, d, d2)); VHCHK(RelativePermeabilityCompute(cc->rel_perm, Se, K, d));
  fprintf(vh_out, "{\"e\":\"look\",\"r\":%d", r); vals("sa", np, S); vals("ka", np, K);
  int step = r % 2 ? np - 1 : 1;
  for (int k = 0; k < no; ++k) { ord[k] = (r + k * step) % np; lo[k] = ord[k]; Sr[k] = sr(ord[k]); Pc[k] = PCL[(r + k + 1) % NPC]; Se[k] = SEL[(r + k + 1) % NSE]; S[k] = K[k] = -9; }
  VHCHK(SaturationComputeOnPoints(cc->saturation, no, ord, Sr, Pc, S, d, d2)); VHCHK(RelativePermeabilityComputeOnPoints(cc->rel_perm, no, ord, Se, K, d));
  ints("ord", no, lo); vals("so", no, S); vals("ko", no, K);
  LOG("}");
}
static void srf(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = sr((int)floor(x[3 * i])); }
static void one(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1.; }
static void make(int dsc, int n, int m) {
  static const int discs[] = {FV_TPF, MPFA_O, MPFA_O, MPFA_O, WY, MPFA_O_DAE, MPFA_O_TRANSIENTVAR}, modes[] = {RICHARDS, RICHARDS, TH, SALINITY, RICHARDS, RICHARDS, RICHARDS};
  char b[64];
  disc = discs[dsc]; mode = modes[dsc];
  vh_clear_options();
  vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3");
  sprintf(b, "%d,1,1", n); vh_opt("-dm_plex_box_faces", b); vh_opt("-dm_plex_box_lower", "0,0,0"); vh_opt("-dm_plex_box_upper", b);
  sprintf(b, "%.17g", SATP[1][m][0]); vh_opt("-tdy_vangenuchten_param_m", b);
  sprintf(b, "%.17g", SATP[1][m][1]); vh_opt("-tdy_vangenuchten_param_alpha", b);
  VHCHK(TDyCreate(PETSC_COMM_WORLD, &D)); VHCHK(TDySetMode(D, mode)); VHCHK(TDySetDiscretization(D, disc)); VHCHK(TDySetFromOptions(D));
  VHCHK(TDySetConstantPorosity(D, .25)); VHCHK(TDySetConstantIsotropicPermeability(D, 1.)); VHCHK(TDySetResidualSaturationFunction(D, srf));
  if (mode == TH) { VHCHK(TDySetSoilDensityFunction(D, one)); VHCHK(TDySetSoilSpecificHeatFunction(D, one)); VHCHK(TDySetConstantIsotropicThermalConductivity(D, 1.)); }
  if (mode == SALINITY) { VHCHK(TDySetConstantIsotropicSalineDiffusivity(D, 1.)); VHCHK(TDySetConstantSalineMolecularWeight(D, 58.)); }
  VHCHK(TDySetBoundaryPressureFunction(D, one));
  VHCHK(TDySetup(D));
  VHCHK(CharacteristicCurvesDestroy(cc)); cc = D->cc; np = n;
}
static void update(int r) {
  double U[128], pref = 101325., *S, *K; int dof = mode == RICHARDS ? 1 : 2;
  for (int p = 0; p < np; ++p) { U[dof * p] = pref - PCL[(r + p) % NPC]; if (dof > 1) U[2 * p + 1] = mode == TH ? 298. : .01; }
  VHCHK(TDyUpdateState(D, U, np));
  TDyMesh *mesh = NULL; double *P = NULL, *Sb = NULL, *Kb = NULL;
  if (disc == FV_TPF) { TDyFVTPF *c = D->context; S = c->S; K = c->Kr; mesh = c->mesh; P = c->P_bnd; }
  else if (disc == WY) { TDyWY *c = D->context; S = c->S; K = c->Kr; }
  else { TDyMPFAO *c = D->context; S = c->S; K = c->Kr; mesh = c->mesh; P = c->P_bnd; }
  fprintf(vh_out, "{\"e\":\"up\",\"r\":%d", r); vals("s", np, S); vals("k", np, K);
  fprintf(vh_out, ",\"bnd\":["); int first = 1;
  if (mesh) {
    for (int b = 0; b < mesh->num_boundary_faces; ++b) P[b] = pref - PCL[(r + b) % NPC];
    if (disc == FV_TPF) { TDyFVTPF *c = D->context; VHCHK(TDyFVTPFUpdateBoundaryState(D)); Sb = c->S_bnd; Kb = c->Kr_bnd; }
    else { TDyMPFAO *c = D->context; VHCHK(TDyMPFAOUpdateBoundaryState(D)); Sb = c->S_bnd; Kb = c->Kr_bnd; }
    for (int f = 0; f < mesh->num_faces; ++f) {
      PetscInt *id, k; VHCHK(TDyMeshGetFaceCells(mesh, f, &id, &k));
      if (mesh->faces.is_internal[f]) continue;
      int cell = id[0] >= 0 ? id[0] : id[1], b = -(id[0] >= 0 ? id[1] : id[0]) - 1;
      // the cell is where the face is
      fprintf(vh_out, "%s[%d,%d,%ld,%ld]", first ? "" : ",", b, (int)floor(mesh->cells.centroid[cell].X[0]), fix(Sb[b]), fix(Kb[b])); first = 0;
    }
  }
  LOG("]}");
}
static void sweep(int p) {
  double Sr = sr(p), S = 0, K = 0, d, d2, ls = -1, lk = -1; int so = 0, sd = 0, ko = 0, kd = 0; PetscInt i = p;
  for (int j = 0; j <= 3000; ++j) {   // pressure rises: capillary pressure falls from 1000 to -1
    double pc = j < 2500 ? 1000. * pow(1.e-7, j / 2500.) : .5 - (j - 2500) / 333., Se;
    S = K = -9;
    VHCHK(SaturationComputeOnPoints(cc->saturation, 1, &i, &Sr, &pc, &S, &d, &d2));
    Se = (S - Sr) / (1. - Sr);
    VHCHK(RelativePermeabilityComputeOnPoints(cc->rel_perm, 1, &i, &Se, &K, &d));
    if (j == 2500) ls = lk = -1;      // the sweep starts again near zero
    if (!(S >= Sr && S <= 1.)) ++so;
    if (!(K >= 0. && K <= 1. + 1e-9)) ++ko;
    if (S < ls) ++sd;
    if (K < lk - 1e-9) ++kd;
    ls = S; lk = K;
  }
  LOG("{\"e\":\"sweep\",\"p\":%d,\"sout\":%d,\"sdec\":%d,\"kout\":%d,\"kdec\":%d}", p, so, sd, ko, kd);
}
static void run_scenario(void) {
  int n;
  VHCHK(CharacteristicCurvesCreate(&cc)); D = NULL;
  while ((n = vh_line()) && strcmp(tok[0], "E")) {
    if (!strcmp(tok[0], "as")) {   // as q t r k p m p m ...
      int q = atoi(tok[1]), t = atoi(tok[2]), r = atoi(tok[3]), k = atoi(tok[4]), p[64], m[64]; long lp[64], lm[64];
      for (int i = 0; i < k; ++i) { lp[i] = p[i] = atoi(tok[5 + 2 * i]); lm[i] = m[i] = atoi(tok[6 + 2 * i]); }
      assign(q, t, k, p, m);
      fprintf(vh_out, "{\"e\":\"as\",\"q\":%d,\"t\":%d", q, t); ints("p", k, lp); ints("m", k, lm); LOG("}");
      look(r);
    } else if (!strcmp(tok[0], "dy")) {
      make(atoi(tok[1]), atoi(tok[2]), atoi(tok[3]));
      LOG("{\"e\":\"dy\",\"c\":%d,\"m\":%d}", np, atoi(tok[3]));
    } else if (!strcmp(tok[0], "up")) update(atoi(tok[1]));
    else if (!strcmp(tok[0], "sweep")) sweep(atoi(tok[1]));
    else vh_die(__FILE__, __LINE__, 0);
  }
  if (D) { VHCHK(TDyDestroy(&D)); D = NULL; } else VHCHK(CharacteristicCurvesDestroy(cc));
}
int mode_cc(void) {
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]); vh_line(); np = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d,\"n\":%d}", id, np);
    run_scenario();
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
