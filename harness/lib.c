// Library sessions (specs/Library.tla): initialization, shutdown hooks, the
// function registry with selection by name, timers, stages and the profile.
#include "vh.h"
#include <tdytimers.h>
#include <private/tdyconditionsimpl.h>
#include <math.h>
#include <unistd.h>
#include <petsclog.h>

#define NN 8       // watched names
#define NF 5       // functions
#define NH 2       // dycores
#define NT 3       // timers
#define NS 9       // stage names
#define BULK 200
static TDy D[NH];
static int up;

#define FN(k) static void F_##k(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 1000 * k + x[3 * i]; }
FN(1) FN(2) FN(3) FN(4) FN(5)
static TDySpatialFunction FF[] = {0, F_1, F_2, F_3, F_4, F_5};
static int fidx(TDySpatialFunction f) { for (int k = 1; k <= NF; ++k) if (FF[k] == f) return k; return -1; }

// names that are easy to confuse
static const char *NAMES[NN + 1] = {0, "p", "pp", "p ", "P", "pressure", "pressure_bc", "pressure_bc_", "temperature_with_quite_a_long_name_that_differs_only_at_the_end_1"};
static const char *STAGES[NS + 1] = {0, "Main Stage", "TDycore Setup", "TDycore Stepping", "TDycore I/O", "a", "b", "TDycore", "a stage with blanks", "aa"};
static const char *TIMERS[NT + 1] = {0, "vh_timer_1", "vh_timer_2", "vh_hook_timer"};
static char buf[256];   // a name buffer that is overwritten after every call
static const char *lend(const char *s, int style) { if (!style) return s; strcpy(buf, s); return buf; }
static void scribble(void) { memset(buf, '#', 200); buf[200] = 0; }

static char sb[1 << 16]; static int ns;
#define PUT(...) (ns += sprintf(sb + ns, __VA_ARGS__))

static int look(const char *n) { TDySpatialFunction f = NULL; return TDyGetFunction(n, &f) ? 0 : fidx(f); }
static void timer(int k, int style) {
  PetscLogEvent ev = TDyGetTimer(lend(TIMERS[k], style)); scribble();
  TDyStartTimer(ev); TDyStopTimer(ev);
}
static int stage_now(void) {
  PetscStageLog log; int s;
  VHCHK(PetscLogGetStageLog(&log));
  VHCHK(PetscStageLogGetCurrent(log, &s));
  if (s < 0) return 0;
  for (int k = 1; k <= NS; ++k) if (!strcmp(log->stageInfo[s].name, STAGES[k])) return k;
  return -1;
}
// hook calls of the current TDyFinalize
static char hb[1 << 16]; static int hn, nhook;
static void hook(int id) {
  int alive = 0;
  if (TDY_PROFILING_STAGES && TDY_TIMERS && PetscInitializeCalled && !PetscFinalizeCalled) { alive = 1; timer(3, 0); }
  hn += sprintf(hb + hn, "%s{\"h\":%d,\"alive\":%d,\"look\":[", nhook++ ? "," : "", id, alive);
  for (int k = 1; k <= NN; ++k) hn += sprintf(hb + hn, "%s%d", k > 1 ? "," : "", alive ? look(NAMES[k]) : 0);
  hn += sprintf(hb + hn, "]}");
}
#define HK(a) static void H##a(void) { hook(a); }
#define HK10(a) HK(a##0) HK(a##1) HK(a##2) HK(a##3) HK(a##4) HK(a##5) HK(a##6) HK(a##7) HK(a##8) HK(a##9)
HK10(1) HK10(2) HK10(3) HK10(4)
#define HL10(a) H##a##0, H##a##1, H##a##2, H##a##3, H##a##4, H##a##5, H##a##6, H##a##7, H##a##8, H##a##9
static void (*HH[])(void) = {HL10(1), HL10(2), HL10(3), HL10(4)};   // ids 10..49

static int cond(TDy t, int c) {
  PetscReal x[3] = {.5, .5, .5}, f = -1; Conditions *o = t->conditions; PetscErrorCode e = 0;
  switch (c) {
#define Q(P, Name) case P: if (!ConditionsHas##Name(o)) return 0; e = ConditionsCompute##Name(o, 1, x, &f); break;
    Q(1, Forcing) Q(2, EnergyForcing) Q(3, BoundaryPressure) Q(4, BoundaryVelocity) Q(5, BoundaryTemperature) Q(6, BoundarySalineConcentration)
  }
  if (e) return -2;
  if (f > 100 && f < 200) return (int)f;                                    // constant
  for (int k = 1; k <= NF; ++k) if (f == 1000 * k + .5) return k;
  return -1;
}
static PetscErrorCode sel(TDy t, int c, const char *n) {
  switch (c) {
    case 1: return TDySelectForcingFunction(t, n);
    case 2: return TDySelectEnergyForcingFunction(t, n);
    case 3: return TDySelectBoundaryPressureFunction(t, n);
    case 4: return TDySelectBoundaryVelocityFunction(t, n);
    case 5: return TDySelectBoundaryTemperatureFunction(t, n);
    default: return TDySelectBoundarySalineConcentrationFunction(t, n);
  }
}
static PetscErrorCode setf(TDy t, int c, int k) {
  if (k > 100) switch (c) {
    case 3: return ConditionsSetConstantBoundaryPressure(t->conditions, k);
    case 4: return ConditionsSetConstantBoundaryVelocity(t->conditions, k);
    case 5: return ConditionsSetConstantBoundaryTemperature(t->conditions, k);
    default: return ConditionsSetConstantBoundarySalineConcentration(t->conditions, k);
  }
  switch (c) {
    case 1: return TDySetForcingFunction(t, FF[k]);
    case 2: return TDySetEnergyForcingFunction(t, FF[k]);
    case 3: return TDySetBoundaryPressureFunction(t, FF[k]);
    case 4: return TDySetBoundaryVelocityFunction(t, FF[k]);
    case 5: return TDySetBoundaryTemperatureFunction(t, FF[k]);
    default: return TDySetBoundarySalineConcentrationFunction(t, FF[k]);
  }
}
// number of times each of our timers was recorded, per stage name
static void counts(void) {
  PetscStageLog log; int first = 1, dup = 0;
  VHCHK(PetscLogGetStageLog(&log));
  for (int k = 1; k <= NS; ++k) { int m = 0; for (int s = 0; s < log->numStages; ++s) m += !strcmp(log->stageInfo[s].name, STAGES[k]); dup += m > 1; }
  PUT(",\"dup\":%d,\"cnt\":[", dup);
  for (int k = 1; k <= NS; ++k) {
    int c[NT + 1] = {0};
    for (int s = 0; s < log->numStages; ++s) if (!strcmp(log->stageInfo[s].name, STAGES[k]))
      for (int t = 1; t <= NT; ++t) {
        PetscLogEvent ev; PetscEventPerfLog el = log->stageInfo[s].eventLog;
        VHCHK(PetscLogEventGetId(TIMERS[t], &ev));
        if (ev >= 0 && ev < el->numEvents) c[t] += el->eventInfo[ev].count;
      }
    PUT("%s[%d,%d,%d]", first ? "" : ",", c[1], c[2], c[3]); first = 0;
  }
  PUT("]");
}
static void obs(PetscErrorCode e) {
  int first = 1, bulk = 0;
  PUT(",\"ok\":%s,\"up\":%s", e ? "false" : "true", TDyInitialized() ? "true" : "false");
  PUT(",\"look\":["); for (int k = 1; k <= NN; ++k) PUT("%s%d", k > 1 ? "," : "", up ? look(NAMES[k]) : 0);
  for (int i = 0; up && i < BULK; ++i) { sprintf(buf, "bulk_%d", i); int f = look(buf); if (f == i % NF + 1) bulk += 1; else if (f) bulk += 1000; }
  scribble();
  PUT("],\"bulk\":%d,\"cur\":%d,\"cond\":[", bulk, up ? stage_now() : 0);
  for (int i = 0; i < NH; ++i) if (D[i] && D[i]->conditions) {
    PUT("%s{\"i\":%d,\"v\":[", first ? "" : ",", i); first = 0;
    for (int c = 1; c <= 6; ++c) PUT("%s%d", c > 1 ? "," : "", cond(D[i], c));
    PUT("]}");
  }
  PUT("]");
  if (up) counts();
  PUT("}");
  LOG("%s", sb);
}
// The profile: counts of our timers per stage (rank 0) and the metadata line.
static void profile(const char *path) {
  int c[NS + 1][NT + 1], stage[NS + 1], md = 0; memset(c, 0, sizeof c); memset(stage, 0, sizeof stage);
  char line[8192], mode[64] = "", disc[64] = ""; int np = 0, nc = 0, lines = 0;
  FILE *f = fopen(path, "r");
  PUT(",\"file\":%s", f ? "true" : "false");
  while (f && fgets(line, sizeof line, f)) {
    if (!strncmp(line, "METADATA", 8)) { md++; continue; }
    if (!strncmp(line, "Mode,", 5)) continue;
    if (md) { if (sscanf(line, "%63[^,],%63[^,],%d,%d", mode, disc, &np, &nc) == 4) lines++; continue; }
    char *a = strtok(line, ","), *b = strtok(NULL, ","), *r = strtok(NULL, ","), *n = strtok(NULL, ",");
    if (!n) continue;
    for (int k = 1; k <= NS; ++k) if (!strcmp(a, STAGES[k])) { stage[k] = 1; for (int t = 1; t <= NT; ++t) if (!strcmp(b, TIMERS[t]) && !atoi(r)) c[k][t] += atoi(n); }
  }
  if (f) fclose(f);
  int mi = 0, di = 0;
  for (int k = 0; k < 3; ++k) if (!strcmp(mode, TDyModes[k])) mi = k + 1;
  for (int k = 0; k < 6; ++k) if (!strcmp(disc, TDyDiscretizations[k])) di = k + 1;
  PUT(",\"nmd\":%d,\"md\":[%d,%d,%d,%d],\"prof\":[", lines, mi, di, np, nc);
  for (int k = 1; k <= NS; ++k) PUT("%s[%d,%d,%d]", k > 1 ? "," : "", c[k][1], c[k][2], c[k][3]);
  PUT("]");
}
static void *ADDR[64]; static int naddr;
static int addr(void *p) { for (int i = 0; i < naddr; ++i) if (ADDR[i] == p) return i + 1; if (naddr < 64) ADDR[naddr++] = p; return naddr; }
static PetscErrorCode create_dm(MPI_Comm comm, void *ctx, DM *dm) {
  const PetscInt *f = ctx; PetscReal lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  return DMPlexCreateBoxMesh(comm, 3, PETSC_FALSE, f, lo, hi, NULL, PETSC_TRUE, dm);
}
static void one(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = .5; }
static void ptype(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = 1; }

static void start(int way, int timers) {
  char *av[] = {"vh", timers == 1 ? "-tdy_timers" : NULL, NULL};
  if (!up) vh_malloc();
  PetscErrorCode e;
  if (way) { if (!PetscInitializeCalled) { int ac = 1; char **pv = av; VHCHK(PetscInitialize(&ac, &pv, NULL, NULL)); } e = TDyInitNoArguments(); }
  else e = TDyInit(timers == 1 ? 2 : 1, av);
  if (!up) PetscPushErrorHandler(getenv("VH_VERBOSE") ? PetscTraceBackErrorHandler : PetscReturnErrorHandler, NULL);
  up = !e;
  ns = sprintf(sb, "{\"e\":\"Init\",\"way\":%d,\"t\":%d", way, timers);
  // our stages and timers that the library knows already
  int left = 0;
  for (int k = 5; k <= NS; ++k) if (kh_get(TDY_PROFILING_STAGE_MAP, TDY_PROFILING_STAGES, STAGES[k]) != kh_end(TDY_PROFILING_STAGES)) left++;
  for (int k = 1; k <= NT; ++k) if (kh_get(TDY_TIMER_MAP, TDY_TIMERS, TIMERS[k]) != kh_end(TDY_TIMERS)) left++;
  PUT(",\"left\":%d", left);
  obs(e);
}
static void finish_(void) {
  PetscMPIInt was = 0;
  unlink("tdycore_profile.csv");
  hn = nhook = 0; hb[0] = 0; naddr = 0;
  PetscErrorCode e = TDyFinalize();
  up = 0;
  ns = sprintf(sb, "{\"e\":\"Fin\",\"calls\":[%s]", hb);
  profile("tdycore_profile.csv");
  PUT(",\"petsc\":%s", PetscFinalizeCalled || !PetscInitializeCalled ? "false" : "true");
  obs(e); (void)was;
}
static void run_scenario(void) {
  int n;
  while ((n = vh_line()) && strcmp(tok[0], "E")) {
    const char *op = tok[0]; PetscErrorCode e = 0;
    int a = n > 1 ? atoi(tok[1]) : 0, b = n > 2 ? atoi(tok[2]) : 0, c = n > 3 ? atoi(tok[3]) : 0;
    ns = 0;
    if (!strcmp(op, "init")) { start(a, b); continue; }
    if (!strcmp(op, "fin")) { finish_(); continue; }
    if (!strcmp(op, "enable")) { e = TDyEnableTimers(); PUT("{\"e\":\"Enable\""); }
    else if (!strcmp(op, "hook")) { e = TDyOnFinalize(HH[a - 10]); PUT("{\"e\":\"Hook\",\"h\":%d", a); }
    else if (!strcmp(op, "reg")) { e = TDyRegisterFunction(lend(NAMES[a], c), FF[b]); scribble(); PUT("{\"e\":\"Reg\",\"n\":%d,\"f\":%d", a, b); }
    else if (!strcmp(op, "many")) {   // register bulk_lo .. bulk_hi-1
      for (int i = a; i < b && !e; ++i) { sprintf(buf, "bulk_%d", i); e = TDyRegisterFunction(buf, FF[i % NF + 1]); scribble(); }
      PUT("{\"e\":\"Many\",\"lo\":%d,\"hi\":%d", a, b);
    }
    else if (!strcmp(op, "new")) {    // new i cells disc mode [p-name v-name t-name]: 0 none, k NAMES[k], -1 unknown
      int disc = c, mode = atoi(tok[4]); PetscInt faces[3] = {b, 1, 1};
      vh_clear_options();
      static const char *O[] = {"-tdy_pressure_bc_func", "-tdy_velocity_bc_func", "-tdy_temperature_bc_func"};
      for (int k = 0; k < 3; ++k) { int m = atoi(tok[5 + k]); if (m) { char v[128]; snprintf(v, sizeof v, "%s", m < 0 ? "nobody" : NAMES[m]); vh_opt(O[k], v); } }
      VHCHK(TDyCreate(PETSC_COMM_WORLD, &D[a])); VHCHK(TDySetMode(D[a], mode)); VHCHK(TDySetDiscretization(D[a], disc));
      VHCHK(TDySetDMConstructor(D[a], faces, create_dm));
      e = TDySetFromOptions(D[a]);
      vh_clear_options();
      PUT("{\"e\":\"New\",\"i\":%d,\"o\":[%s,%s,%s]", a, tok[5], tok[6], tok[7]);
      if (e) { VHCHK(TDyDestroy(&D[a])); D[a] = NULL; }
    }
    else if (!strcmp(op, "sel")) {    // sel i cond name style
      const char *nm = b == 0 ? "" : c < 0 ? "nobody" : NAMES[c];
      e = sel(D[a], b, lend(nm, atoi(tok[4]))); scribble();
      PUT("{\"e\":\"Sel\",\"i\":%d,\"c\":%d,\"n\":%d", a, b, c);
    }
    else if (!strcmp(op, "setf")) { e = setf(D[a], b, c); PUT("{\"e\":\"SetF\",\"i\":%d,\"c\":%d,\"k\":%d", a, b, c); }
    else if (!strcmp(op, "setup")) {  // properties, then TDySetup
      TDy t = D[a];
      VHCHK(TDySetPorosityFunction(t, one)); VHCHK(TDySetIsotropicPermeabilityFunction(t, one)); VHCHK(TDySetResidualSaturationFunction(t, one));
      if (t->options.mode == TH) { VHCHK(TDySetSoilDensityFunction(t, one)); VHCHK(TDySetSoilSpecificHeatFunction(t, one)); VHCHK(TDySetIsotropicThermalConductivityFunction(t, one)); }
      if (t->options.mode == SALINITY) { VHCHK(TDySetIsotropicSalineDiffusivityFunction(t, one)); VHCHK(TDySetSalineMolecularWeightFunction(t, one)); }
      if (t->options.discretization == FV_TPF) VHCHK(TDySetBoundaryPressureTypeFunction(t, ptype));
      e = TDySetup(t);
      PUT("{\"e\":\"Setup\",\"i\":%d,\"at\":%d", a, addr(t));
    }
    else if (!strcmp(op, "del")) { e = TDyDestroy(&D[a]); D[a] = NULL; PUT("{\"e\":\"Del\",\"i\":%d", a); }
    else if (!strcmp(op, "stage")) { e = TDyAddProfilingStage(lend(STAGES[a], b)); scribble(); PUT("{\"e\":\"Stage\",\"n\":%d", a); }
    else if (!strcmp(op, "enter")) { const char *s = lend(STAGES[a], b); TDyEnterProfilingStage(s); scribble(); PUT("{\"e\":\"Enter\",\"n\":%d", a); }
    else if (!strcmp(op, "exit")) { const char *s = lend(STAGES[a], b); TDyExitProfilingStage(s); scribble(); PUT("{\"e\":\"Exit\",\"n\":%d", a); }
    else if (!strcmp(op, "tick")) { for (int k = 0; k < b; ++k) timer(a, c); PUT("{\"e\":\"Tick\",\"t\":%d,\"times\":%d", a, b); }
    else if (!strcmp(op, "write")) { char f[32]; sprintf(f, "prof_%d.csv", a); e = TDyWriteTimingProfile(f); PUT("{\"e\":\"Write\""); profile(f); unlink(f); }
    else vh_die(__FILE__, __LINE__, 0);
    obs(e);
  }
}
int mode_lib(void) {
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d}", id);
    run_scenario();
    if (up) { for (int i = 0; i < NH; ++i) if (D[i]) { TDyDestroy(&D[i]); D[i] = NULL; } hn = nhook = 0; TDyFinalize(); up = 0; }
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
