// Meshes made from a DM (specs/Plex.tla): what the tables of the mesh say, and
// moving vectors between orders. Input cells as in dist.c.
#include "vh.h"
#include <private/tdydiscretizationimpl.h>
#include <private/tdymeshimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <petscpartitioner.h>
#include <petsc/private/partitionerimpl.h>
#include <petscdmplex.h>
#include <stdarg.h>
#include <math.h>
#define MAXC 256
static int nc, nv, C[MAXC][8], CN, npart, part[MAXC]; static double X[1024][3];
static char *buf; static size_t len, cap;
static void put(const char *f, ...) {
  va_list a; va_start(a, f);
  if (cap - len < 4096) buf = realloc(buf, cap = cap * 2 + 65536);
  len += vsnprintf(buf + len, 4096, f, a); va_end(a);
}
static int IR(double x) { double r = floor(x + .5); return fabs(x - r) <= 1e-6 + 1e-9 * fabs(r) && fabs(r) < 2e9 ? (int)r : -99999; }
static int RR(double x) { return fabs(x) < 2e9 ? (int)floor(x + .5) : -99999; }
#define LIST(n, ...) do { put("["); for (int i_ = 0; i_ < (n); ++i_) { int i = i_; put(i ? "," : ""); put(__VA_ARGS__); } put("]"); } while (0)
#define V3(p, s, f) f((p)[0] * (s)), f((p)[1] * (s)), f((p)[2] * (s))
#define TF(x) ((x) ? "true" : "false")
static void gather(void) {
  int n = (int)len, *all = calloc(vh_size, sizeof(int)), *off = calloc(vh_size + 1, sizeof(int)); char *s = NULL;
  MPI_Gather(&n, 1, MPI_INT, all, 1, MPI_INT, 0, MPI_COMM_WORLD);
  if (!vh_rank) { for (int r = 0; r < vh_size; ++r) off[r + 1] = off[r] + all[r]; s = malloc(off[vh_size] + 1); }
  MPI_Gatherv(buf, n, MPI_CHAR, s, all, off, MPI_CHAR, 0, MPI_COMM_WORLD);
  if (!vh_rank) { fprintf(vh_out, "["); for (int r = 0; r < vh_size; ++r) { if (r) fprintf(vh_out, ","); fwrite(s + off[r], 1, all[r], vh_out); } fprintf(vh_out, "]"); free(s); }
  free(all); free(off); len = 0;
}
// a partitioner that does what the script says
static PetscErrorCode partition(PetscPartitioner p, PetscInt np, PetscInt nvert, PetscInt *start, PetscInt *adj, PetscSection vs, PetscSection ts, PetscSection sec, IS *is) {
  PetscErrorCode e; PetscInt *q, k = 0;
  for (PetscInt c = 0; c < nvert; ++c) { e = PetscSectionAddDof(sec, part[c], 1); if (e) return e; }
  e = PetscSectionSetUp(sec); if (e) return e;
  e = PetscMalloc1(nvert + 1, &q); if (e) return e;
  for (PetscInt r = 0; r < np; ++r) for (PetscInt c = 0; c < nvert; ++c) if (part[c] == r) q[k++] = c;
  return ISCreateGeneral(PETSC_COMM_SELF, nvert, q, PETSC_OWN_POINTER, is);
}
static PetscErrorCode make(PetscPartitioner p) { p->noGraph = PETSC_TRUE; p->ops->partition = partition; return 0; }
static TDy T; static int nd; static TDyMesh *M;
static PetscErrorCode construct(MPI_Comm comm, void *ctx, DM *dm) {
  PetscErrorCode e; PetscInt *c = calloc((size_t)nc * CN + 1, sizeof(PetscInt)); PetscPartitioner p;
  for (int i = 0; i < nc; ++i) {
    PetscInt q[8]; for (int j = 0; j < CN; ++j) q[j] = C[i][j];
    e = DMPlexInvertCell(CN == 8 ? DM_POLYTOPE_HEXAHEDRON : CN == 6 ? DM_POLYTOPE_TRI_PRISM : DM_POLYTOPE_TETRAHEDRON, q); if (e) return e;
    for (int j = 0; j < CN; ++j) c[i * CN + j] = q[j];
  }
  // (as the mesh readers of PETSc do: cells with their types, then the faces)
  DM d; e = DMPlexCreateFromCellListPetsc(comm, 3, vh_rank ? 0 : nc, vh_rank ? 0 : nv, CN, PETSC_FALSE, c, 3, &X[0][0], &d); if (e) return e;
  for (int i = 0; i < (vh_rank ? 0 : nc); ++i) { DMLabel l; e = DMPlexGetCellTypeLabel(d, &l); if (!e) e = DMLabelClearValue(l, i, DM_POLYTOPE_TRI_PRISM_TENSOR); if (e) return e; e = DMPlexSetCellType(d, i, CN == 8 ? DM_POLYTOPE_HEXAHEDRON : CN == 6 ? DM_POLYTOPE_TRI_PRISM : DM_POLYTOPE_TETRAHEDRON); if (e) return e; }
  e = DMPlexInterpolate(d, dm); if (e) return e;
  e = DMPlexCopyCoordinates(d, *dm); if (e) return e;
  e = DMDestroy(&d); if (e) return e;
  free(c);
  if (npart) { e = DMPlexGetPartitioner(*dm, &p); if (e) return e; e = PetscPartitionerSetType(p, "vh"); if (e) return e; }
  return 0;
}
static int load(int kind) {   // 0 MPFA-O, 1 MPFA-O TH, 2 WY, 3 BDM, 4 FV-TPF, 5 MPFA-O DAE
  static const int disc[] = {MPFA_O, MPFA_O, WY, BDM, FV_TPF, MPFA_O_DAE};
  vh_clear_options(); nd = kind == 1 || kind == 5 ? 2 : 1; M = NULL;
  if (TDyCreate(PETSC_COMM_WORLD, &T) || TDySetMode(T, kind == 1 ? TH : RICHARDS) || TDySetDiscretization(T, disc[kind]) || TDySetDMConstructor(T, NULL, construct)) return 1;
  return TDySetFromOptions(T);
}
static void tables(void) {
  DM dm; PetscInt c0, c1, v0, v1; PetscSection sec, gsec; Vec xl; const PetscScalar *x; int nl = 0;
  VHCHK(TDyGetDM(T, &dm));
  VHCHK(DMPlexGetHeightStratum(dm, 0, &c0, &c1)); VHCHK(DMPlexGetDepthStratum(dm, 0, &v0, &v1));
  VHCHK(DMGetGlobalSection(dm, &gsec)); VHCHK(DMGetCoordinateSection(dm, &sec)); VHCHK(DMGetCoordinatesLocal(dm, &xl)); VHCHK(VecGetArrayRead(xl, &x));
  put("{\"dof\":"); LIST(c1 - c0, "%d", (PetscSectionGetDof(gsec, c0 + i, &v1), v1 < 0 ? -(v1 + 1) : (int)v1));
  put(",\"own\":"); LIST(c1 - c0, "%s", (PetscSectionGetDof(gsec, c0 + i, &v1), nl += v1 >= 0, TF(v1 >= 0)));
  put(",\"pet\":"); LIST(c1 - c0, "%d", (PetscSectionGetOffset(gsec, c0 + i, &v1), v1 < 0 ? -(v1 + 1) : (int)v1));
  VHCHK(DMPlexGetDepthStratum(dm, 0, &v0, &v1));
  put(",\"v\":[");   // the corners of every cell
  for (PetscInt c = c0; c < c1; ++c) {
    PetscInt n, *cl = NULL, k = 0, o; put("%s[", c > c0 ? "," : "");
    VHCHK(DMPlexGetTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl));
    for (PetscInt i = 0; i < 2 * n; i += 2) if (cl[i] >= v0 && cl[i] < v1) { VHCHK(PetscSectionGetOffset(sec, cl[i], &o)); put("%s[%d,%d,%d]", k++ ? "," : "", V3(x + o, 1, IR)); }
    VHCHK(DMPlexRestoreTransitiveClosure(dm, c, PETSC_TRUE, &n, &cl)); put("]");
  }
  put("]}");
  VHCHK(VecRestoreArrayRead(xl, &x));
}
static int setup(int kind) {
  for (int k = 0; k < 1; ++k) {
    if (TDySetConstantPorosity(T, .25) || TDySetConstantIsotropicPermeability(T, 1e-10) || TDySetConstantResidualSaturation(T, .1)) return 1;
    if (kind == 1 && (TDySetConstantIsotropicThermalConductivity(T, 1.) || TDySetConstantSoilDensity(T, 2650.) || TDySetConstantSoilSpecificHeat(T, 1000.))) return 1;
  }
  int e = TDySetup(T); if (e) return e;
  M = kind == 4 ? ((TDyFVTPF *)T->context)->mesh : ((TDyMPFAO *)T->context)->mesh;
  return 0;
}
static void sub3(const char *name, PetscInt *p) { put(",\"%s\":[%d,%d,%d]", name, (int)p[0], (int)p[1], (int)p[2]); }
static void mesh(void) {
  TDyCell *c = &M->cells; TDyFace *F = &M->faces; TDyVertex *V = &M->vertices; TDyEdge *E = &M->edges; PetscInt *p, k; int *nat = calloc(M->num_cells + 1, sizeof(int)), n;
  VHCHK(TDyMeshGetLocalCellNaturalIDs(M, &k, nat)); n = (int)k; put("{\"nat\":"); LIST(n, "%d", nat[i]);
  VHCHK(TDyMeshGetNumLocalCells(M, &k)); put(",\"nl\":%d,\"nbf\":%d", (int)k, (int)M->num_boundary_faces);
  VHCHK(TDyMeshGetCellIsLocal(M, &k, nat)); put(",\"isl\":"); LIST((int)k, "%s", TF(nat[i])); free(nat);
  put(",\"cells\":[");
  for (int i = 0; i < M->num_cells; ++i) {
    PetscReal vol; TDyCoordinate x; TDyMeshGetCellVolume(M, i, &vol); TDyMeshGetCellCentroid(M, i, &x);
    put("%s{\"id\":%d,\"gid\":%d,\"nat\":%d,\"loc\":%s,\"vol\":%d,\"cen\":[%d,%d,%d],\"v\":", i ? "," : "", (int)c->id[i], (int)c->global_id[i], (int)c->natural_id[i], TF(c->is_local[i]), IR(6 * vol), V3(x.X, 120, IR));
    TDyMeshGetCellVertices(M, i, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"e\":"); TDyMeshGetCellEdges(M, i, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"f\":"); TDyMeshGetCellFaces(M, i, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"sub\":[");
    for (int s = 0; s < c->num_subcells[i]; ++s) {
      int id = i * c->num_subcells[i] + s; PetscReal *a;
      put("%s{\"n\":%d", s ? "," : "", (int)M->subcells.num_faces[id]);
      TDyMeshGetSubcellFaces(M, id, &p, &k); sub3("f", p); TDyMeshGetSubcellVertices(M, id, &p, &k); sub3("v", p);
      TDyMeshGetSubcellIsFaceUp(M, id, &p, &k); sub3("up", p); TDyMeshGetSubcellFaceUnknownIdxs(M, id, &p, &k); sub3("u", p);
      TDyMeshGetSubcellFaceFluxIdxs(M, id, &p, &k); sub3("x", p);
      TDyMeshGetSubcellFaceAreas(M, id, &a, &k); put(",\"a\":[%d,%d,%d],\"T\":%d", IR(576 * a[0] * a[0]), IR(576 * a[1] * a[1]), IR(576 * a[2] * a[2]), IR(216 * M->subcells.T[id]));
      TDyVector *nu; TDyMeshGetSubcellNuVectors(M, id, &nu, &k); put(",\"nu\":"); LIST(3, "[%d,%d,%d]", V3(nu[i].V, 14400, IR));
      TDyCoordinate *fc; TDyMeshGetSubcellFaceCentroids(M, id, &fc, &k); put(",\"fc\":"); LIST(3, "[%d,%d,%d]", V3(fc[i].X, 96, IR)); put("}");
    }
    put("]}");
  }
  put("],\"faces\":[");
  for (int f = 0; f < M->num_faces; ++f) {
    PetscReal a; TDyCoordinate x; TDyVector N; TDyMeshGetFaceArea(M, f, &a); TDyMeshGetFaceCentroid(M, f, &x); TDyMeshGetFaceNormal(M, f, &N);
    TDyMeshGetFaceCells(M, f, &p, &k);
    put("%s{\"c\":[%d,%d],\"nc\":%d,\"int\":%s,\"loc\":%s,\"area4\":%d,\"cen\":[%d,%d,%d],\"na\":[%d,%d,%d],\"v\":", f ? "," : "", (int)p[0], (int)p[1], (int)F->num_cells[f], TF(F->is_internal[f]), TF(F->is_local[f]), IR(4 * a * a), V3(x.X, 120, IR), V3(N.V, 2 * a, IR));
    TDyMeshGetFaceVertices(M, f, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"e\":"); p = F->edge_ids + F->edge_offset[f]; LIST((int)F->num_edges[f], "%d", (int)p[i]);
    put(",\"wt\":%d,\"up\":%d,\"dn\":%d,\"pa\":%d,\"uv\":[%d,%d,%d]}", RR(1e4 * F->dist_wt_up[f]), RR(1e3 * F->dist_up_dn[f][0]), RR(1e3 * F->dist_up_dn[f][1]), RR(1e3 * F->projected_area[f]), V3(F->unit_vec_up_dn[f], 1e4, RR));
  }
  put("],\"verts\":[");
  for (int v = 0; v < M->num_vertices; ++v) {
    put("%s{\"x\":[%d,%d,%d],\"loc\":%s,\"c\":", v ? "," : "", V3(V->coordinate[v].X, 1, IR), TF(V->is_local[v]));
    TDyMeshGetVertexInternalCells(M, v, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"s\":"); p = V->subcell_ids + V->subcell_offset[v]; { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"f\":"); TDyMeshGetVertexFaces(M, v, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"sf\":"); TDyMeshGetVertexSubfaces(M, v, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"b\":"); TDyMeshGetVertexBoundaryFaces(M, v, &p, &k); { PetscInt *q = p; LIST((int)k, "%d", (int)q[i]); }
    put(",\"e\":"); p = V->edge_ids + V->edge_offset[v]; LIST((int)V->num_edges[v], "%d", (int)p[i]);
    put("}");
  }
  put("],\"edges\":[");
  for (int e = 0; e < M->num_edges; ++e) put("%s{\"v\":[%d,%d],\"cen\":[%d,%d,%d],\"len2\":%d}", e ? "," : "", (int)E->vertex_ids[2 * e], (int)E->vertex_ids[2 * e + 1], V3(E->centroid[e].X, 2, IR), IR(E->length[e] * E->length[e]));
  put("]}");
}
static void values(Vec v) { const PetscScalar *a; PetscInt n; VHCHK(VecGetLocalSize(v, &n)); VHCHK(VecGetArrayRead(v, &a)); LIST((int)n, "%d", IR(PetscRealPart(a[i]))); VHCHK(VecRestoreArrayRead(v, &a)); }
static void fill(Vec v, int a, int c, int local) {
  PetscInt n, lo = 0; PetscScalar *p;
  VHCHK(VecGetLocalSize(v, &n)); if (!local) VHCHK(VecGetOwnershipRange(v, &lo, NULL)); else lo = 100 * vh_rank;
  VHCHK(VecGetArray(v, &p)); for (PetscInt i = 0; i < n; ++i) p[i] = (a * (lo + i) * (lo + i) + c * (lo + i)) % 9973; VHCHK(VecRestoreArray(v, &p));
}
static void move(const char *op, int a, int c) {
  Vec gl, lo, na; int e = 0; Vec x, y; DM dm; TDyDiscretizationType *dz = T->discretization;
  VHCHK(TDyDiscretizationCreateGlobalVector(dz, &gl)); VHCHK(TDyDiscretizationCreateLocalVector(dz, &lo)); VHCHK(TDyDiscretizationCreateNaturalVector(dz, &na));
  VHCHK(VecSet(gl, -7)); VHCHK(VecSet(lo, -8)); VHCHK(VecSet(na, -9));
  VHCHK(TDyDiscretizationGetDM(dz, &dm));
  x = !strcmp(op, "l2g") ? lo : op[0] == 'n' ? na : gl; y = !strcmp(op + 1, "2l") ? lo : op[2] == 'n' ? na : gl;
  fill(x, a, c, x == lo);
  if (!strcmp(op, "n2g")) e = c % 2 ? TDyNaturalToGlobal(T, na, gl) : TDyDiscretizationNaturalToGlobal(dz, na, gl);
  else if (!strcmp(op, "g2n")) e = c % 2 ? TDyGlobalToNatural(T, gl, na) : TDyDiscretizationGlobalToNatural(dz, gl, na);
  else if (!strcmp(op, "g2l")) e = c % 2 ? TDyGlobalToLocal(T, gl, lo) : TDyDiscretizationGlobalToLocal(dz, gl, lo);
  else if (!strcmp(op, "n2l")) e = TDyDiscretizationNaturaltoLocal(dz, na, &lo);
  else { e = DMLocalToGlobalBegin(dm, lo, INSERT_VALUES, gl); if (!e) e = DMLocalToGlobalEnd(dm, lo, INSERT_VALUES, gl); }
  if (vh_out) fprintf(vh_out, "{\"e\":\"move\",\"op\":\"%s\",\"nd\":%d,\"ok\":%s,\"a\":", op, nd, e ? "false" : "true");
  values(x); gather(); if (vh_out) fprintf(vh_out, ",\"b\":"); values(y); gather(); LOG("}");
  VHCHK(VecDestroy(&gl)); VHCHK(VecDestroy(&lo)); VHCHK(VecDestroy(&na));
}
int mode_mesh(void) {
  int sid = 0, n, kind = 0;
  VHCHK(PetscPartitionerRegister("vh", make));
  while ((n = vh_line())) {
    if (!strcmp(tok[0], "S")) { sid = atoi(tok[1]); LOG("{\"e\":\"Begin\",\"s\":%d}", sid); nc = nv = npart = 0; MPI_Barrier(MPI_COMM_WORLD); }
    else if (!strcmp(tok[0], "E")) { if (T) VHCHK(TDyDestroy(&T)); LOG("{\"e\":\"Done\",\"s\":%d}", sid); }
    else if (!strcmp(tok[0], "c")) { CN = n - 1; for (int j = 1; j < n; ++j) C[nc][j - 1] = atoi(tok[j]); ++nc; }
    else if (!strcmp(tok[0], "v")) { for (int j = 0; j < 3; ++j) X[nv][j] = atof(tok[j + 1]); ++nv; }
    else if (!strcmp(tok[0], "part")) { for (int j = 1; j < n; ++j) part[npart++] = atoi(tok[j]); }
    else if (!strcmp(tok[0], "load")) {   // load kind
      int e = load(kind = atoi(tok[1])); MPI_Allreduce(MPI_IN_PLACE, &e, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (vh_out) {
        fprintf(vh_out, "{\"e\":\"load\",\"kind\":%d,\"np\":%d,\"nd\":%d,\"ok\":%s,\"C\":[", kind, vh_size, nd, e ? "false" : "true");
        for (int c = 0; c < nc; ++c) { fprintf(vh_out, "%s[", c ? "," : ""); for (int j = 0; j < CN; ++j) fprintf(vh_out, "%s%d", j ? "," : "", C[c][j]); fprintf(vh_out, "]"); }
        fprintf(vh_out, "],\"X\":["); for (int v = 0; v < nv; ++v) fprintf(vh_out, "%s[%d,%d,%d]", v ? "," : "", (int)X[v][0], (int)X[v][1], (int)X[v][2]);
        fprintf(vh_out, "],\"part\":["); for (int c = 0; c < npart; ++c) fprintf(vh_out, "%s%d", c ? "," : "", part[c]);
        fprintf(vh_out, "],\"T\":");
      }
      if (!e) tables(); else put("{}");
      gather(); LOG("}");
    }
    else if (!strcmp(tok[0], "setup")) {
      int e = setup(kind); MPI_Allreduce(MPI_IN_PLACE, &e, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
      if (vh_out) fprintf(vh_out, "{\"e\":\"setup\",\"ok\":%s,\"M\":", e ? "false" : "true");
      if (!e) mesh(); else put("{}");
      gather(); LOG("}");
    }
    else move(tok[0], atoi(tok[1]), atoi(tok[2]));
  }
  return 0;
}
