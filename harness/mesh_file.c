// Writing PFLOTRAN-format HDF5 meshes: /Domain/Cells [n][1+maxv] (number of vertices,
// 1-based vertex ids, padded with zeros) and /Domain/Vertices [nv][3].
#include "vh.h"
#include <petscviewerhdf5.h>
static void put(PetscViewer v, const char *name, int n, int bs, const double *a) {
  Vec x;
  VHCHK(VecCreateSeqWithArray(PETSC_COMM_SELF, bs, (PetscInt)n * bs, a, &x));
  VHCHK(PetscObjectSetName((PetscObject)x, name));
  VHCHK(VecView(x, v)); VHCHK(VecDestroy(&x));
}
void vh_write_mesh(const char *file, int ncell, int maxv, const double *cells, int nv, const double *xyz) {
  if (!vh_rank) {
    PetscViewer v;
    VHCHK(PetscViewerHDF5Open(PETSC_COMM_SELF, file, FILE_MODE_WRITE, &v));
    VHCHK(PetscViewerHDF5PushGroup(v, "/Domain"));
    put(v, "Cells", ncell, maxv + 1, cells); put(v, "Vertices", nv, 3, xyz);
    VHCHK(PetscViewerHDF5PopGroup(v)); VHCHK(PetscViewerDestroy(&v));
  }
  MPI_Barrier(MPI_COMM_WORLD);
}
// a row of n hexahedra (PFLOTRAN vertex order: bottom counterclockwise, then top)
void vh_write_row(const char *file, int n) {
  double *c = malloc(sizeof(double) * 9 * n), *x = malloc(sizeof(double) * 12 * (n + 1)); int k = 0;
  for (int i = 0; i <= n; ++i) for (int j = 0; j < 4; ++j) { x[k++] = i; x[k++] = j & 1; x[k++] = j >> 1; }
  for (int i = 0; i < n; ++i) {
    int a = 4 * i + 1, b = a + 4; double q[9] = {8, a, b, b + 1, a + 1, a + 2, b + 2, b + 3, a + 3};
    memcpy(c + 9 * i, q, sizeof q);
  }
  vh_write_mesh(file, n, 8, c, 4 * (n + 1), x);
  free(c); free(x);
}
