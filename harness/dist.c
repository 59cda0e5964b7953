// Unstructured grids read from a file (specs/Distribute.tla): how they are spread
// over processes, the mesh built from them, and moving vectors between orders.
#include "vh.h"
#include <private/tdydiscretizationimpl.h>
#include <private/tdymeshimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <petsc/private/matimpl.h>
#include <stdarg.h>
#include <math.h>
PETSC_INTERN PetscErrorCode TDyMeshCreateFromDiscretization(TDyDiscretizationType *, TDyMesh **);
#define MAXC 256
static int nc, nv, maxv, C[MAXC][8], CN[MAXC], npart, part[MAXC]; static double X[1024][3];
static char *buf; static size_t len, cap;
static void put(const char *f, ...) {
  va_list a; va_start(a, f);
  if (cap - len < 4096) buf = realloc(buf, cap = cap * 2 + 65536);
  len += vsnprintf(buf + len, 4096, f, a); va_end(a);
}
static int IR(double x) { double r = floor(x + .5); return fabs(x - r) <= 1e-6 + 1e-9 * fabs(r) && fabs(r) < 2e9 ? (int)r : -99999; }
static int RR(double x) { return fabs(x) < 2e9 ? (int)floor(x + .5) : -99999; }   // (rounded)
#define LIST(n, ...) do { put("["); for (int i_ = 0; i_ < (n); ++i_) { int i = i_; put(i ? "," : ""); put(__VA_ARGS__); } put("]"); } while (0)
// writes what every process has put, in the order of the processes
static void gather(void) {
  int n = (int)len, *all = calloc(vh_size, sizeof(int)), *off = calloc(vh_size + 1, sizeof(int)); char *s = NULL;
  MPI_Gather(&n, 1, MPI_INT, all, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (!vh_rank) { for (int r = 0; r < vh_size; ++r) off[r + 1] = off[r] + all[r]; s = malloc(off[vh_size] + 1); }
  MPI_Gatherv(buf, n, MPI_CHAR, s, all, off, MPI_CHAR, 0, MPI_COMM_WORLD);
  if (!vh_rank) { fprintf(vh_out, "["); for (int r = 0; r < vh_size; ++r) { if (r) fprintf(vh_out, ","); fwrite(s + off[r], 1, all[r], vh_out); } fprintf(vh_out, "]"); free(s); }
  free(all); free(off); len = 0;
}
// a partitioner that does what the script says
static PetscErrorCode apply(MatPartitioning p, IS *is) {
  PetscInt lo, hi, *r; PetscErrorCode e;
  e = MatGetOwnershipRange(p->adj, &lo, &hi); if (e) return e;
  e = PetscMalloc1(hi - lo + 1, &r); if (e) return e;
  for (PetscInt i = lo; i < hi; ++i) r[i - lo] = part[i];
  return ISCreateGeneral(PETSC_COMM_WORLD, hi - lo, r, PETSC_OWN_POINTER, is);
}
static PetscErrorCode make(MatPartitioning p) { p->ops->apply = apply; return 0; }
static TDy T; static TDyDiscretizationType *dz; static TDyMesh *M; static int nd;
static void neumann(PetscInt n, PetscReal *x, PetscInt *t) { for (int i = 0; i < n; ++i) t[i] = NEUMANN_BC; }
static void write_mesh(void) {
  double *c = calloc((size_t)nc * (maxv + 1), sizeof(double));
  for (int i = 0; i < nc; ++i) { c[i * (maxv + 1)] = CN[i]; for (int j = 0; j < CN[i]; ++j) c[i * (maxv + 1) + 1 + j] = C[i][j] + 1; }
  if (!vh_rank) remove("m.h5");
  vh_write_mesh("m.h5", nc, maxv, c, nv, &X[0][0]); free(c);
}
static int load(int kind) {
  vh_clear_options();
  if (npart) vh_opt("-mat_partitioning_type", "vh");
  if (kind == 0) {   // through a dycore
    vh_opt("-tdy_read_pflotran_mesh", "m.h5"); nd = 1;
    if (TDyCreate(PETSC_COMM_WORLD, &T) || TDySetMode(T, RICHARDS) || TDySetDiscretization(T, FV_TPF) || TDySetFromOptions(T)) return 1;
    if (TDySetConstantPorosity(T, .25) || TDySetConstantIsotropicPermeability(T, 1e-10) || TDySetConstantResidualSaturation(T, .1) || TDySetBoundaryPressureTypeFunction(T, neumann)) return 1;
    if (TDySetup(T)) return 1;
    dz = T->discretization; M = ((TDyFVTPF *)T->context)->mesh;
    return 0;
  }
  nd = kind; T = NULL;
  return TDyDiscretizationCreate(&dz) || TDyDiscretizationCreateFromPFLOTRANMesh("m.h5", nd, dz) || TDyMeshCreateFromDiscretization(dz, &M);
}
static void tables(void) {
  TDyUGrid *g; TDyDiscretizationGetTDyUGrid(dz, &g);
  int nl = g->num_cells_local, ng = g->num_cells_global;
  put("{\"nl\":%d,\"ng\":%d,\"off\":%d,\"nat\":", nl, (int)g->num_cells_ghost, (int)g->global_offset);
  LIST(ng, "%d", (int)g->cell_ids_natural[i]);
  put(",\"pet\":"); LIST(ng, "%d", (int)(i < nl ? g->cell_ids_petsc[i] : g->ghost_cell_ids_petsc[i - nl]));
  put(",\"vn\":"); LIST(g->num_verts_local, "%d", (int)g->vertex_ids_natural[i]);
  put(",\"vx\":"); LIST(g->num_verts_local, "[%d,%d,%d]", IR(g->vertices[i][0]), IR(g->vertices[i][1]), IR(g->vertices[i][2]));
  put(",\"cv\":["); for (int c = 0; c < ng; ++c) { if (c) put(","); LIST(g->cell_num_vertices[c], "%d", (int)g->cell_vertices[c][i]); }
  put("],\"nb\":["); for (int c = 0; c < nl; ++c) { if (c) put(","); LIST(g->cell_num_neighbors_local_ghosted[c], "%d", (int)g->cell_neighbors_local_ghosted[c][i]); }
  put("]}");
}
#define V3(p, s, f) f((p)[0] * (s)), f((p)[1] * (s)), f((p)[2] * (s))
static void mesh(void) {
  TDyUGrid *g; TDyDiscretizationGetTDyUGrid(dz, &g);
  int n = M->num_cells; TDyFace *F = &M->faces;
  put("{\"nl\":%d,\"nat\":", (int)M->num_cells_local); LIST(n, "%d", (int)M->cells.natural_id[i]);
  put(",\"vol\":"); LIST(n, "%d", IR(6 * M->cells.volume[i]));
  put(",\"cen\":"); LIST(n, "[%d,%d,%d]", V3(M->cells.centroid[i].X, 120, IR));
  put(",\"loc\":"); LIST(n, "%s", M->cells.is_local[i] ? "true" : "false");
  put(",\"faces\":[");
  for (int f = 0; f < M->num_faces; ++f) {
    PetscInt *c, k; TDyMeshGetFaceCells(M, f, &c, &k);
    int u = g->connection_to_face[f], m = F->num_vertices[f];
    put("%s{\"c\":[%d,%d],\"n\":%d,\"v\":", f ? "," : "", (int)c[0], (int)PetscAbs(c[1]), m); LIST(m, "%d", (int)g->face_to_vertex[i][u]);
    put(",\"area4\":%d,\"dist2\":%d,\"pad\":%d", IR(4 * F->area[f] * F->area[f]), IR(14400 * F->dist[f] * F->dist[f]), IR(240 * F->projected_area[f] * F->dist[f]));
    put(",\"wt\":%d,\"up\":%d,\"dn\":%d,\"dist\":%d,\"uv\":[%d,%d,%d]}", RR(1e4 * F->dist_wt_up[f]), RR(1e3 * F->dist_up_dn[f][0]), RR(1e3 * F->dist_up_dn[f][1]), RR(1e3 * F->dist[f]), V3(F->unit_vec_up_dn[f], 1e4, RR));
  }
  put("],\"all\":[");
  for (int f = 0; f < g->num_faces; ++f) {
    int m = 0; while (m < 4 && g->face_to_vertex[m][f] >= 0) ++m;
    put("%s{\"v\":", f ? "," : ""); LIST(m, "%d", (int)g->face_to_vertex[i][f]);
    put(",\"area4\":%d,\"cen\":[%d,%d,%d]}", IR(4 * g->face_area[f] * g->face_area[f]), V3(g->face_centroid[f], 120, IR));
  }
  put("]}");
}
static void values(Vec v) { const PetscScalar *a; PetscInt n; VHCHK(VecGetLocalSize(v, &n)); VHCHK(VecGetArrayRead(v, &a)); LIST((int)n, "%d", IR(PetscRealPart(a[i]))); VHCHK(VecRestoreArrayRead(v, &a)); }
static void fill(Vec v, int a, int c, int local) {
  PetscInt n, lo = 0; PetscScalar *p;
  VHCHK(VecGetLocalSize(v, &n)); if (!local) VHCHK(VecGetOwnershipRange(v, &lo, NULL)); else lo = 100 * vh_rank;
  VHCHK(VecGetArray(v, &p)); for (PetscInt i = 0; i < n; ++i) p[i] = (a * (lo + i) * (lo + i) + c * (lo + i)) % 9973; VHCHK(VecRestoreArray(v, &p));
}
static void move(const char *op, int a, int c) {
  Vec gl, lo, na; int e = 0; Vec x, y; DM dm;
  VHCHK(TDyDiscretizationCreateGlobalVector(dz, &gl)); VHCHK(TDyDiscretizationCreateLocalVector(dz, &lo)); VHCHK(VecDuplicate(gl, &na));
  VHCHK(VecSet(gl, -7)); VHCHK(VecSet(lo, -8)); VHCHK(VecSet(na, -9));
  VHCHK(TDyDiscretizationGetDM(dz, &dm));
  x = !strcmp(op, "l2g") ? lo : op[0] == 'n' ? na : gl; y = !strcmp(op + 1, "2l") ? lo : op[2] == 'n' ? na : gl;
  fill(x, a, c, x == lo);
  if (!strcmp(op, "n2g")) e = T ? TDyNaturalToGlobal(T, na, gl) : TDyDiscretizationNaturalToGlobal(dz, na, gl);
  else if (!strcmp(op, "g2n")) e = T ? TDyGlobalToNatural(T, gl, na) : TDyDiscretizationGlobalToNatural(dz, gl, na);
  else if (!strcmp(op, "g2l")) e = T ? TDyGlobalToLocal(T, gl, lo) : TDyDiscretizationGlobalToLocal(dz, gl, lo);
  else if (!strcmp(op, "n2l")) e = TDyDiscretizationNaturaltoLocal(dz, na, &lo);
  else { e = DMLocalToGlobalBegin(dm, lo, INSERT_VALUES, gl); if (!e) e = DMLocalToGlobalEnd(dm, lo, INSERT_VALUES, gl); }
  if (vh_out) fprintf(vh_out, "{\"e\":\"move\",\"op\":\"%s\",\"nd\":%d,\"ok\":%s,\"a\":", op, nd, e ? "false" : "true");
  values(x); gather(); if (vh_out) fprintf(vh_out, ",\"b\":"); values(y); gather(); LOG("}");
  VHCHK(VecDestroy(&gl)); VHCHK(VecDestroy(&lo)); VHCHK(VecDestroy(&na));
}
int mode_dist(void) {
  int sid = 0, n;
  VHCHK(MatPartitioningRegister("vh", make));
  while ((n = vh_line())) {
    if (!strcmp(tok[0], "S")) { sid = atoi(tok[1]); LOG("{\"e\":\"Begin\",\"s\":%d}", sid); nc = nv = npart = 0; MPI_Barrier(MPI_COMM_WORLD); }
    else if (!strcmp(tok[0], "E")) { if (T) VHCHK(TDyDestroy(&T)); LOG("{\"e\":\"Done\",\"s\":%d}", sid); }
    else if (!strcmp(tok[0], "c")) { CN[nc] = n - 1; for (int j = 1; j < n; ++j) C[nc][j - 1] = atoi(tok[j]); ++nc; }
    else if (!strcmp(tok[0], "v")) { for (int j = 0; j < 3; ++j) X[nv][j] = atof(tok[j + 1]); ++nv; }
    else if (!strcmp(tok[0], "part")) { for (int j = 1; j < n; ++j) part[npart++] = atoi(tok[j]); }
    else if (!strcmp(tok[0], "load")) {   // load kind maxv: kind 0 through a dycore, otherwise that many values per cell
      maxv = atoi(tok[2]); write_mesh();
      int e = load(atoi(tok[1])); MPI_Allreduce(MPI_IN_PLACE, &e, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (vh_out) {
        fprintf(vh_out, "{\"e\":\"load\",\"np\":%d,\"ok\":%s,\"C\":[", vh_size, e ? "false" : "true");
        for (int c = 0; c < nc; ++c) { fprintf(vh_out, "%s[", c ? "," : ""); for (int j = 0; j < CN[c]; ++j) fprintf(vh_out, "%s%d", j ? "," : "", C[c][j]); fprintf(vh_out, "]"); }
        fprintf(vh_out, "],\"X\":["); for (int v = 0; v < nv; ++v) fprintf(vh_out, "%s[%d,%d,%d]", v ? "," : "", (int)X[v][0], (int)X[v][1], (int)X[v][2]);
        fprintf(vh_out, "],\"part\":["); for (int c = 0; c < npart; ++c) fprintf(vh_out, "%s%d", c ? "," : "", part[c]);
        fprintf(vh_out, "],\"T\":");
      }
      if (!e) tables(); else put("{}");
      gather(); if (vh_out) fprintf(vh_out, ",\"M\":");
      if (!e) mesh(); else put("{}");
      gather(); LOG("}");
    }
    else move(tok[0], atoi(tok[1]), atoi(tok[2]));
  }
  return 0;
}
