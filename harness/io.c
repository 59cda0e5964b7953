// Files of a run (specs/Files.tla): checkpoints, initial states, property files and
// output. Meshes and partitions as in mesh.c (src 0) or from a file (src 1).
#define mode_mesh mode_mesh_of_io
#include "mesh.c"
#undef mode_mesh
#include <private/tdyioimpl.h>
#include <private/tdytiimpl.h>
#include <petsc/private/matimpl.h>
#include <hdf5.h>
#include <dirent.h>
#include <tdyio.h>
static int src, ids[MAXC], lids[MAXC], no, nlc;   // input cells in global order (owned) and in local order
static PetscErrorCode apply(MatPartitioning p, IS *is) {
  PetscInt lo, hi, *r; PetscErrorCode e;
  e = MatGetOwnershipRange(p->adj, &lo, &hi); if (e) return e;
  e = PetscMalloc1(hi - lo + 1, &r); if (e) return e;
  for (PetscInt i = lo; i < hi; ++i) r[i - lo] = part[i];
  return ISCreateGeneral(PETSC_COMM_WORLD, hi - lo, r, PETSC_OWN_POINTER, is);
}
static PetscErrorCode makem(MatPartitioning p) { p->ops->apply = apply; return 0; }
static void neumann(PetscInt n, PetscReal *x, PetscInt *t) { for (int i = 0; i < n; ++i) t[i] = NEUMANN_BC; }
// the input cell with these corners
static int input(int n, double (*x)[3]) {
  for (int c = 0; c < nc; ++c) {
    int hit = 0;
    for (int i = 0; i < n; ++i) for (int j = 0; j < CN; ++j) hit += fabs(x[i][0] - X[C[c][j]][0]) + fabs(x[i][1] - X[C[c][j]][1]) + fabs(x[i][2] - X[C[c][j]][2]) < 1e-6;
    if (hit == CN && n == CN) return c;
  }
  return -1;
}
static void identify(void) {
  no = nlc = 0;
  if (src) {
    TDyUGrid *g; TDyDiscretizationGetTDyUGrid(T->discretization, &g); no = g->num_cells_local; nlc = g->num_cells_global;
    for (int c = 0; c < nlc; ++c) {
      double x[8][3]; int n = g->cell_num_vertices[c];
      for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) x[i][k] = g->vertices[g->cell_vertices[c][i]][k];
      lids[c] = input(n, x); if (c < no) ids[c] = lids[c];
    }
    return;
  }
  DM dm; PetscInt c0, c1, v0, v1, lo = -1; PetscSection sec, gsec; Vec xl; const PetscScalar *p;
  VHCHK(TDyGetDM(T, &dm)); VHCHK(DMPlexGetHeightStratum(dm, 0, &c0, &c1)); VHCHK(DMPlexGetDepthStratum(dm, 0, &v0, &v1));
  VHCHK(DMGetGlobalSection(dm, &gsec)); VHCHK(DMGetCoordinateSection(dm, &sec)); VHCHK(DMGetCoordinatesLocal(dm, &xl)); VHCHK(VecGetArrayRead(xl, &p));
  for (PetscInt c = c0; c < c1; ++c) {
    PetscInt n, *cl = NULL, k = 0, o, d; double x[64][3];
    VHCHK(DMPlexGetTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl));
    for (PetscInt i = 0; i < 2 * n; i += 2) if (cl[i] >= v0 && cl[i] < v1) { VHCHK(PetscSectionGetOffset(sec, cl[i], &o)); for (int j = 0; j < 3; ++j) x[k][j] = p[o + j]; ++k; }
    VHCHK(DMPlexRestoreTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl));
    lids[nlc++] = input((int)k, x);
    VHCHK(PetscSectionGetDof(gsec, c, &d)); VHCHK(PetscSectionGetOffset(gsec, c, &o));
    if (d > 0) { if (lo < 0) lo = o; ids[(o - lo) / d] = lids[nlc - 1]; ++no; }
  }
  VHCHK(VecRestoreArrayRead(xl, &p));
}
static void props(int kind) {
  VHCHK(TDySetConstantResidualSaturation(T, .1));
  if (kind == 1) { VHCHK(TDySetConstantIsotropicThermalConductivity(T, 1.)); VHCHK(TDySetConstantSoilDensity(T, 2650.)); VHCHK(TDySetConstantSoilSpecificHeat(T, 1000.)); }
}
static int open_(int kind, int drive, int n, char **o) {
  static const int disc[] = {MPFA_O, MPFA_O, WY, BDM, FV_TPF, MPFA_O_DAE};
  vh_clear_options(); nd = kind == 1 || kind == 5 ? 2 : 1;
  vh_opt("-tdy_vangenuchten_param_m", ".5"); vh_opt("-tdy_vangenuchten_param_alpha", "8.333333333333333333e-4");
  for (int i = 0; i < n; i += 2) vh_opt(o[i], i + 1 < n && strcmp(o[i + 1], "-") ? o[i + 1] : NULL);
  if (npart) vh_opt("-mat_partitioning_type", "vh");
  if (src) {
    double *c = calloc((size_t)nc * (CN + 1), sizeof(double));
    for (int i = 0; i < nc; ++i) { c[i * (CN + 1)] = CN; for (int j = 0; j < CN; ++j) c[i * (CN + 1) + 1 + j] = C[i][j] + 1; }
    if (!vh_rank) remove("m.h5");
    vh_write_mesh("m.h5", nc, CN, c, nv, &X[0][0]); free(c);
    vh_opt("-tdy_read_pflotran_mesh", "m.h5");
  }
  if (TDyCreate(PETSC_COMM_WORLD, &T) || TDySetMode(T, kind == 1 ? TH : RICHARDS) || TDySetDiscretization(T, disc[kind])) return 1;
  if (!src && TDySetDMConstructor(T, NULL, construct)) return 1;
  if (TDySetFromOptions(T)) return 1;
  props(kind);
  if (kind == 4 && TDySetBoundaryPressureTypeFunction(T, neumann)) return 1;
  if (drive) return TDyDriverInitializeTDy(T);
  if (TDySetConstantPorosity(T, .25) || TDySetConstantIsotropicPermeability(T, 1e-10)) return 1;
  return TDySetup(T) || TDyTimeIntegratorCreate(&T->ti) || TDyCreateVectors(T) || TDyCreateJacobian(T);
}
static double val(const char *m, int a, int c, int i, int d) {
  static const int Pc[] = {0, 900, 1600, 2880, 2250, 640, 500};
  int k = (a * i * i + c * i + 31 * d) % 9973;
  if (*m == 's') return d ? k + .25 : 101325. - Pc[k % 7] + (k % 7 ? 0 : 3 * i);
  return *m == 'x' ? 90000. + k : k + .25 * d;
}
static void vals(Vec v) { const PetscScalar *a; PetscInt n; VHCHK(VecGetLocalSize(v, &n)); VHCHK(VecGetArrayRead(v, &a)); LIST((int)n, "%d", IR(4 * PetscRealPart(a[i]))); VHCHK(VecRestoreArrayRead(v, &a)); }
#define VEC(name, v) do { if (vh_out) fprintf(vh_out, ",\"%s\":", name); vals(v); gather(); } while (0)
static int state(const char *m, int a, int c, int upd) {   // the state of a run, as after a step
  Vec s[] = {T->soln, T->soln_prev}; PetscScalar *p; int e = 0;
  for (int k = 0; k < 2; ++k) { VHCHK(VecGetArray(s[k], &p)); for (int i = 0; i < no; ++i) for (int d = 0; d < nd; ++d) p[nd * i + d] = val(m, a, c, ids[i], d); VHCHK(VecRestoreArray(s[k], &p)); }
  if (TDyGlobalToLocal(T, T->soln, T->soln_loc)) return 1;
  if (upd) { VHCHK(VecGetArray(T->soln_loc, &p)); e = TDyUpdateState(T, p, nlc); VHCHK(VecRestoreArray(T->soln_loc, &p)); }
  return e;
}
static void one(const char *file, const char *name, int n, const double *a, int append) {
  if (!vh_rank) {
    PetscViewer v; Vec x;
    VHCHK(PetscViewerHDF5Open(PETSC_COMM_SELF, file, append ? FILE_MODE_APPEND : FILE_MODE_WRITE, &v));
    VHCHK(VecCreateSeqWithArray(PETSC_COMM_SELF, 1, n, a, &x)); VHCHK(PetscObjectSetName((PetscObject)x, name)); VHCHK(VecView(x, v));
    VHCHK(VecDestroy(&x)); VHCHK(PetscViewerDestroy(&v));
  }
  MPI_Barrier(MPI_COMM_WORLD);
}
// every dataset of a file, numbers times 10^6 when they are not integers
static int nds; static char pre[256];
static void dataset(hid_t f, const char *name) {
  hid_t d = H5Dopen2(f, name, H5P_DEFAULT), s = H5Dget_space(d); hsize_t dim[8]; int r = H5Sget_simple_extent_ndims(s); size_t n = 1;
  H5Sget_simple_extent_dims(s, dim, NULL); for (int i = 0; i < r; ++i) n *= dim[i];
  double *x = malloc(sizeof(double) * (n + 1)); H5Dread(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x);
  fprintf(vh_out, "%s{\"n\":\"%s/%s\",\"dim\":[", nds++ ? "," : "", pre, name);
  for (int i = 0; i < r; ++i) fprintf(vh_out, "%s%d", i ? "," : "", (int)dim[i]);
  fprintf(vh_out, "],\"x4\":["); for (size_t i = 0; i < n; ++i) fprintf(vh_out, "%s%d", i ? "," : "", IR(4 * x[i]));
  fprintf(vh_out, "],\"e5\":["); for (size_t i = 0; i < n; ++i) fprintf(vh_out, "%s%d", i ? "," : "", fabs(x[i]) < 20000 ? RR(1e5 * x[i]) : -99999);
  fprintf(vh_out, "]}"); free(x); H5Sclose(s); H5Dclose(d);
}
static herr_t each(hid_t g, const char *name, const H5L_info_t *l, void *ctx) {
  H5O_info_t o; size_t n = strlen(pre);
  if (H5Oget_info_by_name(g, name, &o, H5P_DEFAULT) < 0) return 0;
  if (o.type == H5O_TYPE_DATASET) dataset(g, name);
  else if (o.type == H5O_TYPE_GROUP) { hid_t q = H5Gopen2(g, name, H5P_DEFAULT); snprintf(pre + n, sizeof pre - n, "/%s", name); H5Literate(q, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, each, NULL); pre[n] = 0; H5Gclose(q); }
  return 0;
}
static void dump(const char *suffix) {   // files whose names end like this
  MPI_Barrier(MPI_COMM_WORLD);
  if (!vh_out) return;
  struct dirent **l; int n = scandir(".", &l, NULL, alphasort), k = 0;
  fprintf(vh_out, "{\"e\":\"dump\",\"suffix\":\"%s\",\"files\":[", suffix);
  for (int i = 0; i < n; ++i) {
    size_t a = strlen(l[i]->d_name), b = strlen(suffix);
    if (a >= b && !strcmp(l[i]->d_name + a - b, suffix)) {
      H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
      hid_t f = H5Fopen(l[i]->d_name, H5F_ACC_RDONLY, H5P_DEFAULT); nds = 0; pre[0] = 0;
      char *e; double t = strtod(l[i]->d_name, &e);
      fprintf(vh_out, "%s{\"n\":\"%s\",\"t\":%d,\"rest\":\"%s\"", k++ ? "," : "", l[i]->d_name, IR(t), e);
      int st = -1; if (f >= 0 && H5Aexists_by_name(f, "/", "time step", H5P_DEFAULT) > 0) { hid_t q = H5Aopen_by_name(f, "/", "time step", H5P_DEFAULT, H5P_DEFAULT); H5Aread(q, H5T_NATIVE_INT, &st); H5Aclose(q); }
      fprintf(vh_out, ",\"step\":%d,\"ds\":[", st);
      if (f >= 0) { H5Literate(f, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, each, NULL); H5Fclose(f); }
      fprintf(vh_out, "]}");
    }
    free(l[i]);
  }
  free(l);
  fprintf(vh_out, "],\"xmf\":[");
  FILE *x = fopen("out.xmf", "r"); char s[4096]; k = 0;
  if (x) { while (fgets(s, sizeof s, x)) { fprintf(vh_out, "%s\"", k++ ? "," : ""); for (char *p = s; *p; ++p) if (*p == '"' || *p == '\\') fprintf(vh_out, "\\%c", *p); else if (*p >= ' ') fputc(*p, vh_out); fprintf(vh_out, "\""); } fclose(x); }
  LOG("]}");
}
#define OK(name) do { MPI_Allreduce(MPI_IN_PLACE, &e, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD); if (vh_out) fprintf(vh_out, "{\"e\":\"%s\",\"ok\":%s", name, TF(!e)); } while (0)
int mode_io(void) {
  int sid = 0, n, kind = 0, e;
  VHCHK(PetscPartitionerRegister("vh", make)); VHCHK(MatPartitioningRegister("vh", makem));
  while ((n = vh_line())) {
    if (!strcmp(tok[0], "S")) { sid = atoi(tok[1]); vh_clean_scratch(); LOG("{\"e\":\"Begin\",\"s\":%d}", sid); nc = nv = npart = src = 0; MPI_Barrier(MPI_COMM_WORLD); }
    else if (!strcmp(tok[0], "E")) { if (T) VHCHK(TDyDestroy(&T)); T = NULL; LOG("{\"e\":\"Done\",\"s\":%d}", sid); }
    else if (!strcmp(tok[0], "c")) { CN = n - 1; for (int j = 1; j < n; ++j) C[nc][j - 1] = atoi(tok[j]); ++nc; }
    else if (!strcmp(tok[0], "v")) { for (int j = 0; j < 3; ++j) X[nv][j] = atof(tok[j + 1]); ++nv; }
    else if (!strcmp(tok[0], "part")) { npart = 0; for (int j = 1; j < n; ++j) part[npart++] = atoi(tok[j]); }
    else if (!strcmp(tok[0], "src")) src = atoi(tok[1]);
    else if (!strcmp(tok[0], "open")) {   // open kind drive [option value]...
      e = open_(kind = atoi(tok[1]), atoi(tok[2]), n - 3, tok + 3);
      OK("open"); if (!e) identify();
      if (vh_out) {
        fprintf(vh_out, ",\"src\":%d,\"kind\":%d,\"drive\":%s,\"nd\":%d,\"nc\":%d,\"np\":%d,\"opt\":[", src, kind, TF(atoi(tok[2])), nd, nc, vh_size);
        for (int i = 3; i < n; ++i) fprintf(vh_out, "%s\"%s\"", i > 3 ? "," : "", tok[i]);
        fprintf(vh_out, "],\"cn\":%d,\"nv\":%d,\"C\":[", CN, nv);
        for (int c = 0; c < nc; ++c) { fprintf(vh_out, "%s[", c ? "," : ""); for (int j = 0; j < CN; ++j) fprintf(vh_out, "%s%d", j ? "," : "", C[c][j]); fprintf(vh_out, "]"); }
        fprintf(vh_out, "],\"X\":["); for (int v = 0; v < nv; ++v) fprintf(vh_out, "%s[%d,%d,%d]", v ? "," : "", (int)X[v][0], (int)X[v][1], (int)X[v][2]);
        fprintf(vh_out, "],\"ids\":");
      }
      LIST(e ? 0 : no, "%d", ids[i]); gather(); if (vh_out) fprintf(vh_out, ",\"lids\":"); LIST(e ? 0 : nlc, "%d", lids[i]); gather();
      if (!e) { VEC("u", T->soln); VEC("v", T->soln_prev); VEC("w", T->soln_loc); }
      // what the library uses as the properties of its cells
      PetscReal *phi = NULL, *K = NULL; if (!e) { phi = kind == 4 ? ((TDyFVTPF *)T->context)->porosity : kind < 2 || kind == 5 ? ((TDyMPFAO *)T->context)->porosity : NULL; K = kind == 4 ? ((TDyFVTPF *)T->context)->K0 : kind < 2 || kind == 5 ? ((TDyMPFAO *)T->context)->K0 : NULL; }
      if (vh_out) fprintf(vh_out, ",\"phi\":"); LIST(phi ? nlc : 0, "%d", IR(phi[i] * 16384)); gather();
      if (vh_out) fprintf(vh_out, ",\"K\":"); put("["); for (int c = 0; K && c < nlc; ++c) { put(c ? "," : ""); LIST(9, "%d", IR(K[9 * c + i] * 1e12)); } put("]"); gather();
      LOG("}");
    }
    else if (!strcmp(tok[0], "state")) { e = state(tok[1], atoi(tok[2]), atoi(tok[3]), n > 4); OK("state"); VEC("v", T->soln_prev); LOG(",\"m\":\"%s\"}", tok[1]); }
    else if (!strcmp(tok[0], "chk")) {   // chk time step
      T->ti->time = atof(tok[1]); T->ti->istep = atoi(tok[2]); e = TDyIOOutputCheckpoint(T);
      OK("chk"); LOG(",\"t\":%d,\"step\":%d}", atoi(tok[1]), atoi(tok[2]));
    }
    else if (!strcmp(tok[0], "mkic")) {   // mkic file dataset nd a c
      int k = atoi(tok[3]); double *x = calloc(nc * k + 1, sizeof(double)); for (int i = 0; i < nc; ++i) for (int d = 0; d < k; ++d) x[k * i + d] = val("n", atoi(tok[4]), atoi(tok[5]), i, d);
      one(tok[1], tok[2], nc * k, x, !access(tok[1], F_OK)); if (vh_out) { fprintf(vh_out, "{\"e\":\"file\",\"n\":\"%s\",\"ds\":\"%s\",\"x\":[", tok[1], tok[2]); for (int i = 0; i < nc * k; ++i) fprintf(vh_out, "%s%d", i ? "," : "", IR(4 * x[i])); LOG("]}"); }
      free(x);
    }
    else if (!strcmp(tok[0], "mkpr")) {   // mkpr file dataset scale(1/..) a c: one positive value for every cell
      double *x = calloc(nc + 1, sizeof(double)); for (int i = 0; i < nc; ++i) x[i] = (1 + (atoi(tok[4]) * i * i + atoi(tok[5]) * i) % 997) / atof(tok[3]);
      one(tok[1], tok[2], nc, x, !access(tok[1], F_OK)); if (vh_out) { fprintf(vh_out, "{\"e\":\"file\",\"n\":\"%s\",\"ds\":\"%s\",\"x\":[", tok[1], tok[2]); for (int i = 0; i < nc; ++i) fprintf(vh_out, "%s%d", i ? "," : "", IR(x[i] * atof(tok[3]))); LOG("]}"); }
      free(x);
    }
    else if (!strcmp(tok[0], "readic")) {   // readic file [dataset]
      strcpy(T->io->ic_filename, tok[1]); strcpy(T->io->ic_dataset, n > 2 ? tok[2] : "");
      e = TDyIOReadIC(T); OK("readic"); if (vh_out) fprintf(vh_out, ",\"n\":\"%s\",\"ds\":\"%s\"", tok[1], n > 2 ? tok[2] : "IC");
      VEC("u", T->soln); VEC("v", T->soln_prev); VEC("w", T->soln_loc); LOG("}");
    }
    else if (!strcmp(tok[0], "close")) { e = TDyDestroy(&T); T = NULL; OK("close"); LOG("}"); }
    else if (!strcmp(tok[0], "out")) { e = TDyIOSetMode(T, strcmp(tok[1], "hdf5") ? PetscViewerASCIIFormat : HDF5Format); OK("out"); LOG(",\"fmt\":\"%s\"}", tok[1]); }
    else if (!strcmp(tok[0], "write")) { T->ti->time = atof(tok[1]); e = TDyIOWriteVec(T); OK("write"); LOG(",\"t\":%d}", atoi(tok[1])); }
    else if (!strcmp(tok[0], "diag")) {   // the diagnostics as the library hands them out
      Vec s, m, p; e = TDyUpdateDiagnostics(T) || TDyCreateDiagnosticVector(T, &s) || TDyCreateDiagnosticVector(T, &m) || TDyCreatePrognosticVector(T, &p);
      if (!e) e = TDyGetLiquidSaturation(T, s) || TDyGetLiquidMass(T, m);
      OK("diag"); if (!e) { if (vh_out) fprintf(vh_out, ",\"s\":"); const PetscScalar *a; PetscInt k; VHCHK(VecGetLocalSize(s, &k)); VHCHK(VecGetArrayRead(s, &a)); LIST((int)k, "%d", RR(1e5 * a[i])); VHCHK(VecRestoreArrayRead(s, &a)); gather(); VHCHK(VecDestroy(&s)); VHCHK(VecDestroy(&m)); VHCHK(VecDestroy(&p)); }
      LOG("}");
    }
    else if (!strcmp(tok[0], "dump")) dump(tok[1]);
  }
  return 0;
}
