// Properties and conditions (specs/Slots.tla): what every live dycore yields for
// every quantity after every call, and which user contexts were released.
#include "vh.h"
#include <private/tdymaterialpropertiesimpl.h>
#include <private/tdyconditionsimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <private/tdympfaoimpl.h>
#include <math.h>
#define NI 4
#define NP 16
static TDy D[NI]; static int disc_of[NI];
static int stale;               // a released context was used
static int rel[4096], nrel;     // contexts released by the current call

static int pt(PetscReal *x) { return x[0] < 2 ? 1 : 2; }
static PetscReal comp(int k, int p, int c) { return (c % 4 == 0 ? 5000 : 0) + 100 * k + 10 * p + c; }
#define FN(k) \
  static void S_##k(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) f[i] = 100 * k + 10 * pt(x + 3 * i); } \
  static void V_##k(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) for (int c = 0; c < 3; ++c) f[3 * i + c] = comp(k, pt(x + 3 * i), 4 * c); } \
  static void T_##k(PetscInt n, PetscReal *x, PetscReal *f) { for (int i = 0; i < n; ++i) for (int c = 0; c < 9; ++c) f[9 * i + c] = comp(k, pt(x + 3 * i), c); } \
  static void I_##k(PetscInt n, PetscReal *x, PetscInt *f) { for (int i = 0; i < n; ++i) f[i] = (k + pt(x + 3 * i)) % 3; }
FN(1) FN(2) FN(3)
typedef void (*SF)(PetscInt, PetscReal *, PetscReal *);
typedef void (*IF_)(PetscInt, PetscReal *, PetscInt *);
static SF SS[] = {0, S_1, S_2, S_3}, VV[] = {0, V_1, V_2, V_3}, TT[] = {0, T_1, T_2, T_3};
static IF_ II[] = {0, I_1, I_2, I_3};

typedef struct { int id, live, k; } Cx;
static Cx cx[4096]; static int ncx;
static Cx *C(void *c) { Cx *x = c; if (!x->live) stale = 1; return x; }
static PetscErrorCode CxS(void *c, PetscInt n, PetscReal *x, PetscReal *f) { SS[C(c)->k](n, x, f); return 0; }
static PetscErrorCode CxT(void *c, PetscInt n, PetscReal *x, PetscReal *f) { TT[C(c)->k](n, x, f); return 0; }
static PetscErrorCode CxI(void *c, PetscInt n, PetscReal *x, PetscInt *f) { II[C(c)->k](n, x, f); return 0; }
static PetscErrorCode CxD(void *c) { Cx *x = c; x->live = 0; if (nrel < 4096) rel[nrel++] = x->id; return 0; }
typedef PetscErrorCode (*XF)(void *, PetscInt, PetscReal *, PetscReal *);
typedef PetscErrorCode (*XI)(void *, PetscInt, PetscReal *, PetscInt *);

PETSC_EXTERN PetscErrorCode TDySelectBoundarySalineConcentrationFunction(TDy, const char *) __attribute__((weak));

#define SCALAR(P, Name) \
  if (p == P && !strcmp(f, "kc")) return TDySetConstant##Name(t, 10 * k); \
  if (p == P && !strcmp(f, "kf")) return TDySet##Name##Function(t, SS[k]);
#define TENSOR(P, Name) \
  if (p == P && !strcmp(f, "ic")) return TDySetConstantIsotropic##Name(t, 10 * k); \
  if (p == P && !strcmp(f, "if")) return TDySetIsotropic##Name##Function(t, SS[k]); \
  if (p == P && !strcmp(f, "dc")) return TDySetConstantDiagonal##Name(t, dg); \
  if (p == P && !strcmp(f, "df")) return TDySetDiagonal##Name##Function(t, VV[k]); \
  if (p == P && !strcmp(f, "tc")) return TDySetConstantTensor##Name(t, tn); \
  if (p == P && !strcmp(f, "tf")) return TDySetTensor##Name##Function(t, TT[k]);
static PetscErrorCode set_op(TDy t, int p, const char *f, int k) {
  PetscReal dg[9], tn[9];
  for (int c = 0; c < 9; ++c) { dg[c] = c < 3 ? comp(k, 0, 4 * c) : -7; tn[c] = comp(k, 0, c); }
  SCALAR(1, Porosity) TENSOR(2, Permeability) TENSOR(3, ThermalConductivity) SCALAR(4, ResidualSaturation)
  SCALAR(5, SoilDensity) SCALAR(6, SoilSpecificHeat) TENSOR(7, SalineDiffusivity) SCALAR(8, SalineMolecularWeight)
  if (!strcmp(f, "f")) switch (p) {
    case 9: return TDySetForcingFunction(t, SS[k]);
    case 10: return TDySetEnergyForcingFunction(t, SS[k]);
    case 12: return TDySetBoundaryPressureFunction(t, SS[k]);
    case 13: return TDySetBoundaryPressureTypeFunction(t, II[k]);
    case 14: return TDySetBoundaryVelocityFunction(t, SS[k]);
    case 15: return TDySetBoundaryTemperatureFunction(t, SS[k]);
    case 16: return TDySetBoundarySalineConcentrationFunction(t, SS[k]);
  }
  if (!strcmp(f, "c")) switch (p) {
    case 12: return ConditionsSetConstantBoundaryPressure(t->conditions, 10 * k);
    case 14: return ConditionsSetConstantBoundaryVelocity(t->conditions, 10 * k);
    case 15: return ConditionsSetConstantBoundaryTemperature(t->conditions, 10 * k);
    case 16: return ConditionsSetConstantBoundarySalineConcentration(t->conditions, 10 * k);
  }
  if (!strcmp(f, "n")) {
    char name[16]; PetscErrorCode e;
    sprintf(name, k ? "vhs%d" : "vh_nosuch", k);
    switch (p) {
      case 9: e = TDySelectForcingFunction(t, name); break;
      case 10: e = TDySelectEnergyForcingFunction(t, name); break;
      case 12: e = TDySelectBoundaryPressureFunction(t, name); break;
      case 14: e = TDySelectBoundaryVelocityFunction(t, name); break;
      case 15: e = TDySelectBoundaryTemperatureFunction(t, name); break;
      case 16: e = TDySelectBoundarySalineConcentrationFunction ? TDySelectBoundarySalineConcentrationFunction(t, name) : PETSC_ERR_SUP; break;
      default: vh_die(__FILE__, __LINE__, p);
    }
    memset(name, '?', sizeof name);
    return e;
  }
  vh_die(__FILE__, __LINE__, p); return 1;
}
static PetscErrorCode ctx_op(TDy t, int p, int k, int id, int dtor) {
  Cx *c = &cx[ncx++]; c->id = id; c->live = 1; c->k = k;
  PetscErrorCode (*d)(void *) = dtor ? CxD : NULL;
  MaterialProp *m = t->matprop; Conditions *o = t->conditions;
  switch (p) {
    case 1: return MaterialPropSetPorosity(m, c, CxS, d);
    case 2: return MaterialPropSetPermeability(m, c, CxT, d);
    case 3: return MaterialPropSetThermalConductivity(m, c, CxT, d);
    case 4: return MaterialPropSetResidualSaturation(m, c, CxS, d);
    case 5: return MaterialPropSetSoilDensity(m, c, CxS, d);
    case 6: return MaterialPropSetSoilSpecificHeat(m, c, CxS, d);
    case 7: return MaterialPropSetSalineDiffusivity(m, c, CxT, d);
    case 8: return MaterialPropSetSalineMolecularWeight(m, c, CxS, d);
    case 9: return ConditionsSetForcing(o, c, CxS, d);
    case 10: return ConditionsSetEnergyForcing(o, c, CxS, d);
    case 11: return ConditionsSetSalinitySource(o, c, CxS, d);
    case 12: return ConditionsSetBoundaryPressure(o, c, CxS, d);
    case 13: return ConditionsSetBoundaryPressureType(o, c, CxI, d);
    case 14: return ConditionsSetBoundaryVelocity(o, c, CxS, d);
    case 15: return ConditionsSetBoundaryTemperature(o, c, CxS, d);
    case 16: return ConditionsSetBoundarySalineConcentration(o, c, CxS, d);
  }
  return 1;
}
static char sb[1 << 16]; static int ns;
static void put(PetscReal v) {
  ns += sprintf(sb + ns, fabs(v) < 1e6 && v == floor(v) ? "%d" : "-1", (int)v);
}
static const PetscReal defaults[NP + 1] = {0, 0.25, 1.e-12, 1.0, 0.15, 2650., 1000., 1.e-6, 58.44};
// For setup: the documented default of the slot is written as -2.
static void putd(int p, PetscReal v) { if (p <= 8 && v == defaults[p]) ns += sprintf(sb + ns, "-2"); else put(v); }
static void snap_slot(TDy t, int p) {
  PetscReal x[6] = {1, .5, .5, 3, .5, .5}, f[18]; PetscInt fi[2] = {-9, -9};
  MaterialProp *m = t->matprop; Conditions *o = t->conditions; int has = 0, nv = 2;
  for (int i = 0; i < 18; ++i) f[i] = 0;
  switch (p) {
#define Q(P, Name, N) case P: nv = N; if ((has = MaterialPropHas##Name(m))) VHCHK(MaterialPropCompute##Name(m, 2, x, f)); break;
    Q(1, Porosity, 2) Q(2, Permeability, 18) Q(3, ThermalConductivity, 18) Q(4, ResidualSaturation, 2) Q(5, SoilDensity, 2) Q(6, SoilSpecificHeat, 2)
    Q(7, SalineDiffusivity, 18) Q(8, SalineMolecularWeight, 2)
#undef Q
#define Q(P, Name) case P: if ((has = ConditionsHas##Name(o))) for (int i = 0; i < 2; ++i) VHCHK(ConditionsCompute##Name(o, 1, x + 3 * i, f + i)); break;
    Q(9, Forcing) Q(10, EnergyForcing) Q(11, SalinitySource) Q(12, BoundaryPressure) Q(14, BoundaryVelocity) Q(15, BoundaryTemperature) Q(16, BoundarySalineConcentration)
#undef Q
    case 13: if ((has = ConditionsHasBoundaryPressureType(o))) { VHCHK(ConditionsAssignBoundaryPressureType(o, 2, x, fi)); f[0] = fi[0]; f[1] = fi[1]; } break;
  }
  ns += sprintf(sb + ns, "[");
  for (int i = 0; has && i < nv; ++i) { if (i) ns += sprintf(sb + ns, ","); putd(p, f[i]); }
  ns += sprintf(sb + ns, "]");
}
static const char *snapshot(void) {
  int first = 1; ns = sprintf(sb, "[");
  for (int i = 0; i < NI; ++i) if (D[i]) {
    ns += sprintf(sb + ns, "%s{\"i\":%d,\"v\":[", first ? "" : ",", i); first = 0;
    for (int p = 1; p <= NP; ++p) { if (p > 1) ns += sprintf(sb + ns, ","); snap_slot(D[i], p); }
    ns += sprintf(sb + ns, "]}");
  }
  sprintf(sb + ns, "]");
  return sb;
}
static const char *rels(void) {
  static char b[1 << 15]; int n = sprintf(b, "[");
  for (int i = 0; i < nrel; ++i) n += sprintf(b + n, "%s%d", i ? "," : "", rel[i]);
  sprintf(b + n, "]"); return b;
}
// what the discretization itself holds after setup, slots 1..8 ([]: it keeps nothing)
static const char *caches(TDy t, int disc) {
  PetscReal *a[9] = {0};
  if (disc == FV_TPF) { TDyFVTPF *c = t->context; a[1] = c->porosity; a[2] = c->K0; a[3] = c->Kappa; a[4] = c->Sr; a[5] = c->rho_soil; a[6] = c->c_soil; }
  else { TDyMPFAO *c = t->context; a[1] = c->porosity; a[2] = c->K0; a[3] = c->Kappa; a[4] = c->Sr; a[5] = c->rho_soil; a[6] = c->c_soil; a[7] = c->D_saline; a[8] = c->mu_saline; }
  ns = sprintf(sb, "[");
  for (int p = 1; p <= 8; ++p) {
    int nv = p == 2 || p == 3 || p == 7 ? 18 : 2;
    ns += sprintf(sb + ns, "%s[", p > 1 ? "," : "");
    for (int i = 0; a[p] && i < nv; ++i) { if (i) ns += sprintf(sb + ns, ","); putd(p, a[p][i]); }
    ns += sprintf(sb + ns, "]");
  }
  sprintf(sb + ns, "]");
  return sb;
}
static void tail(PetscErrorCode e) {
  const char *r = rels();
  char s[1 << 16]; strcpy(s, snapshot());
  LOG(",\"ok\":%s,\"rel\":%s,\"stale\":%d,\"snap\":%s}", e ? "false" : "true", r, stale, s);
}
#define LOGH(...) do { if (vh_out) fprintf(vh_out, __VA_ARGS__); } while (0)
static void run_scenario(void) {
  int n;
  vh_clear_options();
  ncx = stale = 0;
  while ((n = vh_line()) && strcmp(tok[0], "E")) {
    int i = atoi(tok[1]); nrel = 0;
    PetscErrorCode e = 0;
    if (!strcmp(tok[0], "new")) {   // new i disc mode [opt value]...
      int mode = atoi(tok[3]); disc_of[i] = !strcmp(tok[2], "MPFA_O") ? MPFA_O : FV_TPF;
      vh_clear_options();
      vh_opt("-dm_plex_simplex", "0"); vh_opt("-dm_plex_dim", "3"); vh_opt("-dm_plex_box_faces", "2,1,1");
      vh_opt("-dm_plex_box_lower", "0,0,0"); vh_opt("-dm_plex_box_upper", "4,1,1");
      for (int a = 4; a + 1 < n; a += 2) vh_opt(tok[a], tok[a + 1]);
      VHCHK(TDyCreate(PETSC_COMM_WORLD, &D[i])); VHCHK(TDySetMode(D[i], mode)); VHCHK(TDySetDiscretization(D[i], disc_of[i]));
      VHCHK(TDySetFromOptions(D[i]));
      LOGH("{\"e\":\"New\",\"i\":%d", i);
    } else if (!strcmp(tok[0], "set")) {
      e = set_op(D[i], atoi(tok[2]), tok[3], atoi(tok[4]));
      LOGH("{\"e\":\"Set\",\"i\":%d,\"p\":%s,\"f\":\"%s\",\"k\":%s", i, tok[2], tok[3], tok[4]);
    } else if (!strcmp(tok[0], "ctx")) {
      e = ctx_op(D[i], atoi(tok[2]), atoi(tok[3]), atoi(tok[4]), atoi(tok[5]));
      LOGH("{\"e\":\"Ctx\",\"i\":%d,\"p\":%s,\"k\":%s,\"id\":%s,\"dtor\":%s", i, tok[2], tok[3], tok[4], tok[5]);
    } else if (!strcmp(tok[0], "del")) {
      e = TDyDestroy(&D[i]); D[i] = NULL;
      LOGH("{\"e\":\"Del\",\"i\":%d", i);
    } else if (!strcmp(tok[0], "setup") || !strcmp(tok[0], "drv")) {
      int drv = !strcmp(tok[0], "drv");
      vh_opt("-tdy_time_integration_method", D[i]->options.mode == TH ? "TS" : "SNES");   // TH supports TS only, salinity SNES only
      e = drv ? TDyDriverInitializeTDy(D[i]) : TDySetup(D[i]);
      LOGH("{\"e\":\"Setup\",\"i\":%d,\"drv\":%s,\"cache\":%s", i, drv ? "true" : "false", e ? "[]" : caches(D[i], disc_of[i]));
    }
    tail(e);
  }
  for (int i = 0; i < NI; ++i) if (D[i]) { VHCHK(TDyDestroy(&D[i])); D[i] = NULL; }
}
int mode_slots(void) {
  for (int k = 1; k <= 3; ++k) { static char nm[4][16]; sprintf(nm[k], "vhs%d", k); VHCHK(TDyRegisterFunction(nm[k], SS[k])); }
  while (vh_line()) if (!strcmp(tok[0], "S")) {
    int id = atoi(tok[1]);
    LOG("{\"e\":\"Begin\",\"s\":%d}", id);
    run_scenario();
    LOG("{\"e\":\"Done\",\"s\":%d}", id);
  }
  return 0;
}
