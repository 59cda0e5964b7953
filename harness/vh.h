// Common part of the conformance harness: scripts in, ndjson traces out.
#ifndef VH_H
#define VH_H
#include <petsc.h>
#include <tdycore.h>
#include <private/tdycoreimpl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern FILE *vh_out;    // trace (one JSON object per line)
extern FILE *vh_in;     // script
extern int   vh_rank, vh_size;
extern char  vh_scratch[];   // private scratch directory (the current directory)

#define LOG(...) do { if (vh_out) { fprintf(vh_out, __VA_ARGS__); fputc('\n', vh_out); fflush(vh_out);} } while (0)
#define VHCHK(e) do { PetscErrorCode e_ = (e); if (e_) vh_die(__FILE__, __LINE__, (int)e_); } while (0)
void vh_die(const char *file, int line, int err);  // failure of the harness itself

// Reads the next script line and splits it into tokens; returns the number of
// tokens (0 at end of file). Tokens stay valid until the next call.
#define VH_MAXTOK 4096
extern char *tok[VH_MAXTOK];
int vh_line(void);

// A double as the dyadic rational n/4^k (smallest k); {-1,-1} if it is not one.
const char *vh_dy(double x);
double vh_from_dy(int n, int k);

void vh_clear_options(void);            // drops every PETSc option
void vh_opt(const char *name, const char *value);
void vh_clean_scratch(void);            // removes the regular files of the scratch directory

void vh_write_mesh(const char *file, int ncell, int maxv, const double *cells, int nv, const double *xyz);
void vh_write_row(const char *file, int n);   // a row of n unit hexahedra
void vh_malloc(void);                   // installs the harness's allocator for the next PETSc session

// Areas
int mode_lib(void);
int mode_ti(void);
int mode_slots(void);
int mode_life(void);
int mode_reg(void);
int mode_fin(void);
int mode_mesh(void);
int mode_dist(void);
int mode_flux(void);
int mode_cc(void);
int mode_opts(void);
int mode_io(void);
int mode_rgr(void);
int mode_timers(void);
int mode_f90(void);
#endif
