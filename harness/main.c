#include "vh.h"
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <math.h>
FILE *vh_out, *vh_in;
int vh_rank, vh_size;
char vh_scratch[PETSC_MAX_PATH_LEN];
char *tok[VH_MAXTOK];
static char linebuf[1 << 20];

void vh_die(const char *file, int line, int err) {
  fprintf(stderr, "HARNESS-FAILURE %s:%d err=%d\n", file, line, err);
  fflush(NULL);
  if (vh_size > 1) MPI_Abort(MPI_COMM_WORLD, 3);
  _exit(3);
}
int vh_line(void) {
  for (;;) {
    if (!fgets(linebuf, sizeof(linebuf), vh_in)) return 0;
    int n = 0;
    for (char *p = strtok(linebuf, " \t\r\n"); p && n < VH_MAXTOK; p = strtok(NULL, " \t\r\n")) tok[n++] = p;
    if (n) return n;
  }
}
const char *vh_dy(double x) {
  static char buf[8][64]; static int ib;
  char *b = buf[ib = (ib + 1) % 8];
  for (int k = 0; k <= 30; ++k) {
    double y = ldexp(x, 2 * k);
    if (fabs(y) < 2147483000. && y == floor(y)) { sprintf(b, "{\"n\":%d,\"k\":%d}", (int)y, k); return b; }
  }
  sprintf(b, "{\"n\":-1,\"k\":-1}");
  return b;
}
double vh_from_dy(int n, int k) { return ldexp((double)n, -2 * k); }
void vh_clear_options(void) { PetscOptionsClear(NULL); }
void vh_opt(const char *name, const char *value) { PetscOptionsSetValue(NULL, name, value); }
void vh_clean_scratch(void) {
  if (vh_rank) return;
  DIR *d = opendir(vh_scratch); if (!d) return;
  struct dirent *e;
  while ((e = readdir(d))) {
    char path[2 * PETSC_MAX_PATH_LEN]; struct stat st;
    snprintf(path, sizeof path, "%s/%s", vh_scratch, e->d_name);
    if (!lstat(path, &st) && S_ISREG(st.st_mode)) unlink(path);
  }
  closedir(d);
}
static struct { const char *name; int (*f)(void); int own_init; } modes[] = {
#define M(n, own) {#n, mode_##n, own},
#include "modes.inc"
  {NULL, NULL, 0}};

// PETSc's allocators touch every page of a cleared block; TDyIOCreate asks for
// 1.4 GB, so cleared blocks come from calloc here (untouched pages stay free).
static PetscErrorCode lazy_malloc(size_t n, PetscBool clear, int l, const char *f, const char *g, void **p) {
  *p = clear ? calloc(1, n ? n : 1) : malloc(n ? n : 1);
  if (*p && !clear) memset(*p, 0xa5, n < 4096 ? n : 4096);
  return *p ? 0 : PETSC_ERR_MEM;
}
static PetscErrorCode lazy_realloc(size_t n, int l, const char *f, const char *g, void **p) {
  if (!n) { free(*p); *p = NULL; return 0; }
  *p = realloc(*p, n);
  return *p ? 0 : PETSC_ERR_MEM;
}
static PetscErrorCode lazy_free(void *p, int l, const char *f, const char *g) { free(p); return 0; }
void vh_malloc(void) { PetscMallocSet(lazy_malloc, lazy_free, lazy_realloc); }

// usage: vh MODE SCRIPT TRACE SCRATCHDIR
int main(int argc, char **argv) {
  if (argc < 5) { fprintf(stderr, "usage: vh MODE SCRIPT TRACE SCRATCH\n"); return 2; }
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &vh_rank); MPI_Comm_size(MPI_COMM_WORLD, &vh_size);
  vh_in = fopen(argv[2], "r");
  if (!vh_in) vh_die(__FILE__, __LINE__, 0);
  if (!vh_rank) { vh_out = fopen(argv[3], "w"); if (!vh_out) vh_die(__FILE__, __LINE__, 0); }
  if (!realpath(argv[4], vh_scratch) || chdir(vh_scratch)) vh_die(__FILE__, __LINE__, 0);
  if (!getenv("VH_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) vh_die(__FILE__, __LINE__, 0); }
  for (int i = 0; modes[i].name; ++i)
    if (!strcmp(modes[i].name, argv[1])) {
      int own = modes[i].own_init, rc;
      char *av[] = {argv[0], NULL};
      VHCHK(PetscMallocSet(lazy_malloc, lazy_free, lazy_realloc));
      if (!own) {
        VHCHK(TDyInit(1, av));
        PetscPushErrorHandler(getenv("VH_VERBOSE") ? PetscTraceBackErrorHandler : PetscReturnErrorHandler, NULL);
      }
      rc = modes[i].f();
      if (vh_out) { LOG("{\"e\":\"End\"}"); fclose(vh_out); }
      fflush(NULL);
      if (vh_size > 1) { MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); }
      _exit(rc);   // the trace is complete; teardown is exercised by the areas themselves
    }
  fprintf(stderr, "unknown mode %s\n", argv[1]);
  return 2;
}
