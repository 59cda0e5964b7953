// The discrete problem (specs/Flux.tla): residual, Jacobian and steps of the real
// code for chosen properties, boundary faces and states. Meshes and partitions as in
// io.c (src 0: from a DM, src 1: from a file).
#define mode_mesh mode_mesh_of_flux
#include "mesh.c"
#undef mode_mesh
#include <private/tdyioimpl.h>
#include <private/tdytiimpl.h>
#include <private/tdycharacteristiccurvesimpl.h>
#include <petsc/private/matimpl.h>
#define PREF 101325.
#define RHO 998.
static int src, ids[MAXC], lids[MAXC], no, nlc, gmap[MAXC], grow;   // as in io.c; gmap: global order -> input cell
static int cn[MAXC], kx[MAXC][3], phi4[MAXC], nbf, bft[2048], bfp[2048]; static double bfx[2048][3];
static PetscErrorCode apply(MatPartitioning p, IS *is) {
  PetscInt lo, hi, *r; PetscErrorCode e;
  e = MatGetOwnershipRange(p->adj, &lo, &hi); if (e) return e;
  e = PetscMalloc1(hi - lo + 1, &r); if (e) return e;
  for (PetscInt i = lo; i < hi; ++i) r[i - lo] = part[i];
  return ISCreateGeneral(PETSC_COMM_WORLD, hi - lo, r, PETSC_OWN_POINTER, is);
}
static PetscErrorCode makem(MatPartitioning p) { p->ops->apply = apply; return 0; }
// the input cell with these corners / around this point
static int input(int n, double (*x)[3]) {
  for (int c = 0; c < nc; ++c) {
    int hit = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < cn[c]; ++j) hit += fabs(x[i][0] - X[C[c][j]][0]) + fabs(x[i][1] - X[C[c][j]][1]) + fabs(x[i][2] - X[C[c][j]][2]) < 1e-6;
    if (hit == cn[c] && n == cn[c]) return c;
  }
  return -1;
}
static int around(const PetscReal *x) {   // (the nearest centre)
  int best = -1; double d = 1e99;
  for (int c = 0; c < nc; ++c) {
    double m[3] = {0}, q = 0;
    for (int j = 0; j < cn[c]; ++j) for (int k = 0; k < 3; ++k) m[k] += X[C[c][j]][k] / cn[c];
    for (int k = 0; k < 3; ++k) q += (m[k] - x[k]) * (m[k] - x[k]);
    if (q < d) { d = q; best = c; }
  }
  return best;
}
static void f_phi(PetscInt n, PetscReal *x, PetscReal *v) { for (int i = 0; i < n; ++i) v[i] = phi4[around(x + 3 * i)] / 4.; }
static void f_K(PetscInt n, PetscReal *x, PetscReal *v) { for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) v[3 * i + k] = kx[around(x + 3 * i)][k] * 9.94e-4; }
static int bface(const PetscReal *x) {   // (a face that is not listed: the first one)
  for (int f = 0; f < nbf; ++f) if (fabs(bfx[f][0] - x[0]) + fabs(bfx[f][1] - x[1]) + fabs(bfx[f][2] - x[2]) < 1e-6) return f;
  return -1;
}
static void f_type(PetscInt n, PetscReal *x, PetscInt *t) { for (int i = 0; i < n; ++i) { int f = bface(x + 3 * i); t[i] = f < 0 ? NEUMANN_BC : bft[f] == 0 ? DIRICHLET_BC : bft[f] == 1 ? NEUMANN_BC : SEEPAGE_BC; } }
static void f_P(PetscInt n, PetscReal *x, PetscReal *p) { for (int i = 0; i < n; ++i) { int f = bface(x + 3 * i); p[i] = f < 0 ? 3e7 : PREF + bfp[f]; } }
static void f_T(PetscInt n, PetscReal *x, PetscReal *t) { for (int i = 0; i < n; ++i) t[i] = 35.; }
static void identify(void) {
  no = nlc = 0;
  if (src) {
    TDyUGrid *g; TDyDiscretizationGetTDyUGrid(T->discretization, &g); no = g->num_cells_local; nlc = g->num_cells_global;
    for (int c = 0; c < nlc; ++c) {
      double x[8][3]; int n = g->cell_num_vertices[c];
      for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) x[i][k] = g->vertices[g->cell_vertices[c][i]][k];
      lids[c] = input(n, x); if (c < no) ids[c] = lids[c];
    }
  } else {
    DM dm; PetscInt c0, c1, v0, v1, lo = -1; PetscSection sec, gsec; Vec xl; const PetscScalar *p;
    VHCHK(TDyGetDM(T, &dm)); VHCHK(DMPlexGetHeightStratum(dm, 0, &c0, &c1)); VHCHK(DMPlexGetDepthStratum(dm, 0, &v0, &v1));
    VHCHK(DMGetGlobalSection(dm, &gsec)); VHCHK(DMGetCoordinateSection(dm, &sec)); VHCHK(DMGetCoordinatesLocal(dm, &xl)); VHCHK(VecGetArrayRead(xl, &p));
    for (PetscInt c = c0; c < c1; ++c) {
      PetscInt n, *cl = NULL, k = 0, o, d; double x[64][3];
      VHCHK(DMPlexGetTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl));
      for (PetscInt i = 0; i < 2 * n; i += 2) if (cl[i] >= v0 && cl[i] < v1) { VHCHK(PetscSectionGetOffset(sec, cl[i], &o)); for (int j = 0; j < 3; ++j) x[k][j] = p[o + j]; ++k; }
      VHCHK(DMPlexRestoreTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl));
      lids[nlc++] = input((int)k, x);
      VHCHK(PetscSectionGetDof(gsec, c, &d)); VHCHK(PetscSectionGetOffset(gsec, c, &o));
      if (d > 0) { if (lo < 0) lo = o; ids[(o - lo) / d] = lids[nlc - 1]; ++no; }
    }
    VHCHK(VecRestoreArrayRead(xl, &p));
  }
  int *n = calloc(vh_size, sizeof(int)), *o = calloc(vh_size + 1, sizeof(int));
  MPI_Allgather(&no, 1, MPI_INT, n, 1, MPI_INT, MPI_COMM_WORLD); for (int r = 0; r < vh_size; ++r) o[r + 1] = o[r] + n[r];
  grow = o[vh_rank]; MPI_Allgatherv(ids, no, MPI_INT, gmap, n, o, MPI_INT, MPI_COMM_WORLD); free(n); free(o);
}
static int open_(int kind, int lattice, int n, char **o) {   // opens a run with the driver
  static const int disc[] = {MPFA_O, MPFA_O, WY, BDM, FV_TPF, MPFA_O_DAE, MPFA_O};   // (1: with temperature, 6: with salinity)
  vh_clear_options(); nd = kind == 1 || kind == 5 || kind == 6 ? 2 : 1;
  vh_opt("-tdy_vangenuchten_param_m", ".5"); vh_opt("-tdy_vangenuchten_param_alpha", "8.333333333333333333e-4");
  vh_opt("-ksp_rtol", "1e-14"); vh_opt("-snes_rtol", "1e-10"); vh_opt("-snes_stol", "1e-14"); vh_opt("-snes_atol", "1e-6"); vh_opt("-ksp_type", "gmres"); vh_opt("-pc_type", "jacobi"); vh_opt("-ksp_gmres_restart", "200");
  int bp = 0, bt = 0;
  for (int i = 0; i < n; i += 2) {
    if (!strcmp(o[i], "bp")) bp = 1; else if (!strcmp(o[i], "bt")) bt = 1;
    else vh_opt(o[i], i + 1 < n && strcmp(o[i + 1], "-") ? o[i + 1] : NULL);
  }
  if (npart) vh_opt("-mat_partitioning_type", "vh");
  if (src) {
    double *c = calloc((size_t)nc * (CN + 1), sizeof(double));
    for (int i = 0; i < nc; ++i) { c[i * (CN + 1)] = cn[i]; for (int j = 0; j < cn[i]; ++j) c[i * (CN + 1) + 1 + j] = C[i][j] + 1; }
    if (!vh_rank) remove("m.h5");
    vh_write_mesh("m.h5", nc, CN, c, nv, &X[0][0]); free(c);
    vh_opt("-tdy_read_pflotran_mesh", "m.h5");
  }
  if (TDyCreate(PETSC_COMM_WORLD, &T) || TDySetMode(T, kind == 1 ? TH : kind == 6 ? SALINITY : RICHARDS) || TDySetDiscretization(T, disc[kind])) return 1;
  if (!src && TDySetDMConstructor(T, NULL, construct)) return 1;
  if (TDySetFromOptions(T)) return 1;
  if (TDySetConstantResidualSaturation(T, lattice ? 0 : .1) || TDySetPorosityFunction(T, f_phi) || TDySetDiagonalPermeabilityFunction(T, f_K)) return 1;
  if (kind == 1 && (TDySetConstantIsotropicThermalConductivity(T, 1.) || TDySetConstantSoilDensity(T, 2650.) || TDySetConstantSoilSpecificHeat(T, 1000.))) return 1;
  if (bp && TDySetBoundaryPressureFunction(T, f_P)) return 1;
  if (bp && kind == 1 && TDySetBoundaryTemperatureFunction(T, f_T)) return 1;
  if (bt && TDySetBoundaryPressureTypeFunction(T, f_type)) return 1;
  if (TDyDriverInitializeTDy(T)) return 1;
  if (lattice) {   // the square of the effective saturation
    TDyMesh *m = kind == 4 ? ((TDyFVTPF *)T->context)->mesh : ((TDyMPFAO *)T->context)->mesh; int k = m->num_cells;
    PetscInt *pts = calloc(k + 1, sizeof(PetscInt)); PetscReal *prm = calloc(2 * k + 1, sizeof(PetscReal));
    for (int i = 0; i < k; ++i) { pts[i] = i; prm[i] = 2.; }
    int e = RelativePermeabilitySetType(T->cc->rel_perm, REL_PERM_FUNC_IRMAY, k, pts, prm); free(pts); free(prm); if (e) return 1;
  }
  return 0;
}
// vectors in the order of the input cells
static void natural(Vec v, double *x) {
  const PetscScalar *a; double *y = calloc((size_t)nc * nd + 1, sizeof(double));
  VHCHK(VecGetArrayRead(v, &a)); for (int i = 0; i < no; ++i) for (int d = 0; d < nd; ++d) y[nd * ids[i] + d] = a[nd * i + d]; VHCHK(VecRestoreArrayRead(v, &a));
  MPI_Allreduce(y, x, nc * nd, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); free(y);
}
static void assign(Vec v, int n, char **t) {   // one number per unknown: pressure relative to the reference, temperature in tenths
  PetscScalar *a; VHCHK(VecGetArray(v, &a));
  for (int i = 0; i < no; ++i) for (int d = 0; d < nd; ++d) { int k = nd * ids[i] + d; double q = k < n ? atof(t[k]) : 0; a[nd * i + d] = d ? q / 10 : PREF + q; }
  VHCHK(VecRestoreArray(v, &a));
}
static int F(Vec u, Vec r) {   // the residual of the code for a state
  if (!T->ti->snes && !T->ti->ts) return 1;
  if (T->ti->time_integration_method == TDyTS) {
    Vec w; VHCHK(VecDuplicate(u, &w)); VHCHK(VecZeroEntries(w)); int e = TSComputeIFunction(T->ti->ts, 0., u, w, r, PETSC_FALSE); VHCHK(VecDestroy(&w)); return e;
  }
  return SNESComputeFunction(T->ti->snes, u, r);
}
static void jacobian(double s) {   // [row, column, value * s] of the entries that are not zero
  PetscInt lo, hi; int first = 1; VHCHK(MatGetOwnershipRange(T->J, &lo, &hi));
  put("[");
  for (PetscInt i = lo; i < hi; ++i) {
    PetscInt n; const PetscInt *c; const PetscScalar *v; VHCHK(MatGetRow(T->J, i, &n, &c, &v));
    for (PetscInt k = 0; k < n; ++k) if (fabs(v[k]) * s > 1e-3) { put("%s[%d,%d,%d]", first ? "" : ",", gmap[i] + 1, gmap[c[k]] + 1, IR(v[k] * s)); first = 0; }
    VHCHK(MatRestoreRow(T->J, i, &n, &c, &v));
  }
  put("]"); gather();
}
static void nums(const char *name, int n, double *x, double s) { if (!vh_out) return; fprintf(vh_out, ",\"%s\":[", name); for (int i = 0; i < n; ++i) fprintf(vh_out, "%s%d", i ? "," : "", IR(x[i] * s)); fprintf(vh_out, "]"); }
static double mass(void) {   // what the cells hold
  TDyMesh *m = T->options.discretization == FV_TPF ? ((TDyFVTPF *)T->context)->mesh : ((TDyMPFAO *)T->context)->mesh; double s = 0, t;
  PetscReal *rho = T->options.discretization == FV_TPF ? ((TDyFVTPF *)T->context)->rho : ((TDyMPFAO *)T->context)->rho, *S = T->options.discretization == FV_TPF ? ((TDyFVTPF *)T->context)->S : ((TDyMPFAO *)T->context)->S;
  PetscScalar *p; VHCHK(TDyGlobalToLocal(T, T->soln, T->soln_loc)); VHCHK(VecGetArray(T->soln_loc, &p)); VHCHK(TDyUpdateState(T, p, m->num_cells)); VHCHK(VecRestoreArray(T->soln_loc, &p));
  for (int c = 0; c < m->num_cells; ++c) if (m->cells.is_local[c]) {
    s += rho[c] * S[c] * phi4[lids[c]] / 4. * m->cells.volume[c];
  }
  MPI_Allreduce(&s, &t, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); return t;
}
#define OK(name) do { MPI_Allreduce(MPI_IN_PLACE, &e, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (vh_out) fprintf(vh_out, "{\"e\":\"%s\",\"ok\":%s", name, TF(!e)); } while (0)
int mode_flux(void) {
  int sid = 0, n, kind = 0, e; double x[2 * MAXC], y[2 * MAXC];
  VHCHK(PetscPartitionerRegister("vh", make)); VHCHK(MatPartitioningRegister("vh", makem));
  while ((n = vh_line())) {
    if (!strcmp(tok[0], "S")) { sid = atoi(tok[1]); vh_clean_scratch(); LOG("{\"e\":\"Begin\",\"s\":%d}", sid); nc = nv = npart = src = nbf = 0; MPI_Barrier(MPI_COMM_WORLD); }
    else if (!strcmp(tok[0], "E")) { if (T) VHCHK(TDyDestroy(&T)); T = NULL; LOG("{\"e\":\"Done\",\"s\":%d}", sid); }
    else if (!strcmp(tok[0], "c")) { CN = nc && CN > n - 1 ? CN : n - 1; cn[nc] = n - 1; for (int j = 1; j < n; ++j) C[nc][j - 1] = atoi(tok[j]); kx[nc][0] = kx[nc][1] = kx[nc][2] = 1; phi4[nc] = 1; ++nc; }
    else if (!strcmp(tok[0], "v")) { for (int j = 0; j < 3; ++j) X[nv][j] = atof(tok[j + 1]); ++nv; }
    else if (!strcmp(tok[0], "part")) { npart = 0; for (int j = 1; j < n; ++j) part[npart++] = atoi(tok[j]); }
    else if (!strcmp(tok[0], "src")) src = atoi(tok[1]);
    else if (!strcmp(tok[0], "k")) { int c = atoi(tok[1]); for (int d = 0; d < 3; ++d) kx[c][d] = atoi(tok[2 + d]); phi4[c] = atoi(tok[5]); }
    else if (!strcmp(tok[0], "bf")) { for (int d = 0; d < 3; ++d) bfx[nbf][d] = atof(tok[1 + d]); bft[nbf] = atoi(tok[4]); bfp[nbf++] = atoi(tok[5]); }
    else if (!strcmp(tok[0], "open")) {   // open kind lattice [option value]...
      e = open_(kind = atoi(tok[1]), atoi(tok[2]), n - 3, tok + 3);
      OK("open"); if (!e) identify(); if (!e && T->ti->time_integration_method == TDySNES) VHCHK(TDySetDtimeForSNESSolver(T, .01));
      if (vh_out) {
        fprintf(vh_out, ",\"src\":%d,\"kind\":%d,\"lattice\":%s,\"np\":%d,\"opt\":[", src, kind, TF(atoi(tok[2])), vh_size);
        for (int i = 3; i < n; ++i) fprintf(vh_out, "%s\"%s\"", i > 3 ? "," : "", tok[i]);
        fprintf(vh_out, "],\"C\":["); for (int c = 0; c < nc; ++c) { fprintf(vh_out, "%s[", c ? "," : ""); for (int j = 0; j < cn[c]; ++j) fprintf(vh_out, "%s%d", j ? "," : "", C[c][j]); fprintf(vh_out, "]"); }
        fprintf(vh_out, "],\"X\":["); for (int v = 0; v < nv; ++v) fprintf(vh_out, "%s[%d,%d,%d]", v ? "," : "", (int)X[v][0], (int)X[v][1], (int)X[v][2]);
        fprintf(vh_out, "],\"k\":["); for (int c = 0; c < nc; ++c) fprintf(vh_out, "%s[%d,%d,%d]", c ? "," : "", kx[c][0], kx[c][1], kx[c][2]);
        fprintf(vh_out, "],\"phi4\":["); for (int c = 0; c < nc; ++c) fprintf(vh_out, "%s%d", c ? "," : "", phi4[c]);
        fprintf(vh_out, "],\"bf\":["); for (int f = 0; f < nbf; ++f) fprintf(vh_out, "%s{\"x\":[%d,%d,%d],\"t\":%d,\"p\":%d}", f ? "," : "", (int)bfx[f][0], (int)bfx[f][1], (int)bfx[f][2], bft[f], bfp[f]);
        fprintf(vh_out, "],\"ids\":");
      }
      LIST(e ? 0 : no, "%d", ids[i] + 1); gather(); LOG("}");
    }
    else if (!strcmp(tok[0], "prev")) {   // prev d...: the state the step starts from
      e = 0; assign(T->soln_prev, n - 1, tok + 1); if (T->ti->time_integration_method == TDySNES) e = TDyPreSolveSNESSolver(T);
      OK("prev"); if (vh_out) { fprintf(vh_out, ",\"u\":["); for (int i = 1; i < n; ++i) fprintf(vh_out, "%s%d", i > 1 ? "," : "", atoi(tok[i])); LOG("]}"); }
    }
    else if (!strcmp(tok[0], "res") || !strcmp(tok[0], "jac")) {   // res|jac d...
      int j = *tok[0] == 'j'; Vec u, r; VHCHK(VecDuplicate(T->soln, &u)); VHCHK(VecDuplicate(T->soln, &r)); assign(u, n - 1, tok + 1);
      e = F(u, r); if (j && !e) e = SNESComputeJacobian(T->ti->snes, u, T->J, T->J);
      OK(j ? "jac" : "res"); if (vh_out) { fprintf(vh_out, ",\"u\":["); for (int i = 1; i < n; ++i) fprintf(vh_out, "%s%d", i > 1 ? "," : "", atoi(tok[i])); fprintf(vh_out, "]"); }
      natural(r, x); nums("r", nc, x, 50 / RHO);
      if (j) { if (vh_out) fprintf(vh_out, ",\"j\":"); jacobian(125000 / RHO); }
      LOG("}"); VHCHK(VecDestroy(&u)); VHCHK(VecDestroy(&r));
    }
    else if (!strcmp(tok[0], "sum")) {   // sum d...: does everything that leaves a cell arrive in another?
      Vec u, r; double s[2] = {0}, a[2] = {0}; VHCHK(VecDuplicate(T->soln, &u)); VHCHK(VecDuplicate(T->soln, &r)); assign(u, n - 1, tok + 1);
      VHCHK(VecCopy(u, T->soln_prev)); e = T->ti->time_integration_method == TDySNES ? TDyPreSolveSNESSolver(T) : 0; if (!e) e = F(u, r);
      OK("sum"); natural(r, x); for (int i = 0; i < nc; ++i) for (int d = 0; d < nd; ++d) { s[d] += x[nd * i + d]; a[d] += fabs(x[nd * i + d]); }
      if (kind == 5) s[1] = a[1] = 0;
      double big[2] = {1e-30, 1e-30}; for (int i = 0; i < nc; ++i) for (int d = 0; d < nd; ++d) big[d] = fmax(big[d], fabs(x[nd * i + d]));
      if (vh_out) { fprintf(vh_out, ",\"q\":["); for (int i = 0; i < nc * nd; ++i) fprintf(vh_out, "%s%d", i ? "," : "", a[i % nd] > 1e-9 ? RR(x[i] / big[i % nd] * 1e8) : 0); fprintf(vh_out, "]"); }
      LOG(",\"def\":[%d,%d],\"flow\":%s}", RR(fmin(1e9, fabs(s[0]) / fmax(a[0], 1e-30) * 1e12)), RR(fmin(1e9, fabs(s[1]) / fmax(a[1], 1e-30) * 1e12)), TF(a[0] > 1e-9));
      VHCHK(VecDestroy(&u)); VHCHK(VecDestroy(&r));
    }
    else if (!strcmp(tok[0], "near")) {   // near c by d...: whose residuals change with the unknown of a cell
      int c = atoi(tok[1]), by = atoi(tok[2]); Vec u, r; VHCHK(VecDuplicate(T->soln, &u)); VHCHK(VecDuplicate(T->soln, &r)); assign(u, n - 3, tok + 3);
      e = F(u, r); natural(r, x); for (int i = 0; i < no; ++i) if (ids[i] == c) VHCHK(VecSetValue(u, (grow + i) * nd, by, ADD_VALUES));
      VHCHK(VecAssemblyBegin(u)); VHCHK(VecAssemblyEnd(u)); if (!e) e = F(u, r); natural(r, y);
      OK("near"); double big = 0; for (int i = 0; i < nc * nd; ++i) big = fmax(big, fmax(fabs(x[i]), fabs(y[i])));
      if (vh_out) { int first = 1; fprintf(vh_out, ",\"c\":%d,\"moved\":[", c + 1); for (int i = 0; i < nc; ++i) if (fabs(x[nd * i] - y[nd * i]) > 1e-12 * big) { fprintf(vh_out, "%s%d", first ? "" : ",", i + 1); first = 0; } LOG("]}"); }
      VHCHK(VecDestroy(&u)); VHCHK(VecDestroy(&r));
    }
    else if (!strcmp(tok[0], "fd")) {   // fd d...: the Jacobian against differences of residuals, parts in 10^6 of the largest entry of a column
      Vec u, r; VHCHK(VecDuplicate(T->soln, &u)); VHCHK(VecDuplicate(T->soln, &r)); assign(u, n - 1, tok + 1);
      int ts = T->ti->time_integration_method == TDyTS, N = nc * nd; double worst = 0, *J = calloc((size_t)N * N, sizeof(double)), *K = calloc((size_t)N * N, sizeof(double)), *f = calloc((size_t)N * 5, sizeof(double));
      VHCHK(VecCopy(u, T->soln_prev)); e = ts ? 0 : TDyPreSolveSNESSolver(T);
      if (!e && ts) { Vec w; VHCHK(VecDuplicate(u, &w)); VHCHK(VecZeroEntries(w)); e = F(u, r) || TSComputeIJacobian(T->ti->ts, 0., u, w, 10., T->J, T->J, PETSC_FALSE); VHCHK(VecDestroy(&w)); }
      else if (!e) e = F(u, r) || SNESComputeJacobian(T->ti->snes, u, T->J, T->J);
      PetscInt lo, hi; VHCHK(MatGetOwnershipRange(T->J, &lo, &hi));
      for (PetscInt i = lo; i < hi; ++i) {
        PetscInt m; const PetscInt *c; const PetscScalar *v; VHCHK(MatGetRow(T->J, i, &m, &c, &v));
        for (PetscInt k = 0; k < m; ++k) K[(nd * gmap[i / nd] + i % nd) * N + nd * gmap[c[k] / nd] + c[k] % nd] += v[k];
        VHCHK(MatRestoreRow(T->J, i, &m, &c, &v));
      }
      MPI_Allreduce(K, J, N * N, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
      for (int c = 0; c < N && !e; ++c) {
        double h = c % nd ? 1e-4 : 1;
        for (int s = 0; s < 5 && !e; ++s) {   // at -h, -h/2, 0, h/2, h
          assign(u, n - 1, tok + 1);
          for (int i = 0; i < no; ++i) if (ids[i] == c / nd) VHCHK(VecSetValue(u, (grow + i) * nd + c % nd, (s - 2) * h / 2, ADD_VALUES));
          VHCHK(VecAssemblyBegin(u)); VHCHK(VecAssemblyEnd(u));
          if (ts) { Vec w; VHCHK(VecDuplicate(u, &w)); VHCHK(VecWAXPY(w, -1, T->soln_prev, u)); VHCHK(VecScale(w, 10)); e = TSComputeIFunction(T->ti->ts, 0., u, w, r, PETSC_FALSE); VHCHK(VecDestroy(&w)); }   // (rates of change ten times the change)
          else e = F(u, r);
          natural(r, f + s * N);
        }
        for (int q = 0; q < nd; ++q) {
          double big = 1e-30, tiny = 0;
          for (int i = q; i < N; i += nd) {
            big = fmax(big, fmax(fabs(J[i * N + c]), fabs(f[4 * N + i] - f[i]) / 2 / h));
            for (int s = 0; s < 5; ++s) tiny = fmax(tiny, 4e-13 * fabs(f[s * N + i]) / h);   // (what rounding makes of zero)
          }
          // (a face may open or turn its flow on one side of the state, within the difference: the other side counts)
          for (int i = q; i < N; i += nd) {
            double j = J[i * N + c], d = fabs(j - (f[4 * N + i] - f[i]) / 2 / h);
            d = fmin(d, fabs(j - (4 * f[3 * N + i] - f[4 * N + i] - 3 * f[2 * N + i]) / h));
            d = fmin(d, fabs(j + (4 * f[N + i] - f[i] - 3 * f[2 * N + i]) / h));
            worst = fmax(worst, fmax(0, d - tiny) / big);
          }
        }
      }
      free(f);
      OK("fd"); LOG(",\"err\":%d}", RR(fmin(1e9, worst * 1e6))); free(J); free(K); VHCHK(VecDestroy(&u)); VHCHK(VecDestroy(&r));
    }
    else if (!strcmp(tok[0], "run")) {   // run t d...: from a state to a time
      assign(T->soln, n - 2, tok + 2); VHCHK(VecCopy(T->soln, T->soln_prev)); double m0 = mass(), m1;
      e = TDyTimeIntegratorRunToTime(T, atof(tok[1])); OK("run"); m1 = mass(); natural(T->soln, x);
      if (vh_out) { fprintf(vh_out, ",\"u\":["); for (int i = 2; i < n; ++i) fprintf(vh_out, "%s%d", i > 2 ? "," : "", atoi(tok[i])); fprintf(vh_out, "]"); }
      for (int i = 0; i < nc; ++i) x[i] = floor((x[i] - PREF) * 1000 + .5);
      nums("sol", nc, x, 1); LOG(",\"steps\":%d,\"lost\":%d}", (int)T->ti->istep, RR(fmin(1e9, fabs(m1 - m0) / m0 * 1e9)));
    }
    else if (!strcmp(tok[0], "close")) { e = TDyDestroy(&T); T = NULL; OK("close"); LOG("}"); }
  }
  return 0;
}
