// Generic M-DOODZ model driven by a scenario file: the public API only.
//   driver INPUT.txt SCENARIO
// Scenario: whitespace-separated lines (SI units everywhere)
//   bc pure|simple|auto|lin|freeslip|mixed
//   f NAME const C | lin C CX CZ | gauss A X0 Z0 W | cosx A K PH | cosz A K PH | box V X0 X1 Z0 Z1 | ell V XC ZC RX RZ ANG
//      (terms of one field add up; box/ell override what precedes them)
//      NAME: T P Txx Tzz Txz d phi rho X noise Vx Vz aniso topo bcvx bcvz bctW bctE bctS bctN bctF bccW.. F11 F12 F21 F22 phase dual
//   bct W|E|S|N|F TYPE            (value = field bctW .. ; absent field: 0)
//   bcc W|E|S|N|F TYPE
//   bcp POSITION TYPE             (pressure BC type by position name, else -1)
//   bcx POSITION TYPE / bcz POSITION TYPE   velocity BC for bc=mixed (value = field bcvx / bcvz, or bcsx/bcsz for type 13 or 2)
//   ph ...                        same primitives, integer phase (box/ell/const)
//   adjust PHASE T                phase -> PHASE where T > T
//   surfphase N
//   rnd I
#include "mdoodz.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

typedef struct { int kind; double a[8]; } Term;
typedef struct { char name[16]; int n; Term t[64]; } Field;
static Field F[64];
static int   nF;
static Field *get(const char *n) {
  for (int i = 0; i < nF; i++) if (!strcmp(F[i].name, n)) return &F[i];
  return NULL;
}
static double ev(const Field *f, double x, double z) {
  double v = 0.0;
  for (int i = 0; i < f->n; i++) {
    const double *a = f->t[i].a;
    switch (f->t[i].kind) {
      case 0: v += a[0]; break;
      case 1: v += a[0] + a[1] * x + a[2] * z; break;
      case 2: v += a[0] * exp(-((x - a[1]) * (x - a[1]) + (z - a[2]) * (z - a[2])) / (a[3] * a[3])); break;
      case 3: v += a[0] * cos(a[1] * x + a[2]); break;
      case 4: v += a[0] * cos(a[1] * z + a[2]); break;
      case 5: if (x >= a[1] && x < a[2] && z >= a[3] && z < a[4]) v = a[0]; break;
      case 6: {
        double c = cos(a[5]), s = sin(a[5]), X = x - a[1], Z = z - a[2];
        double u = (X * c + Z * s) / a[3], w = (-X * s + Z * c) / a[4];
        if (u * u + w * w < 1.0) v = a[0];
      } break;
    }
  }
  return v;
}
static double fld(const char *n, double x, double z) { Field *f = get(n); return f ? ev(f, x, z) : 0.0; }

static char bcmode[16] = "auto";
static int  bctT[5], bccT[5], bcpT[10], bcxT[10], bczT[10], hasBct, hasBcc, hasBcp, surfphase, adjPhase = -1, callT, mutseed;
static double adjT;
static const char *POSN[10] = {"NE", "NW", "SE", "SW", "INTERNAL", "N", "S", "W", "E", "free_surface"};
static int pos(const char *s) { for (int i = 0; i < 10; i++) if (!strcmp(s, POSN[i])) return i; fprintf(stderr, "bad position %s\n", s); exit(99); }
static int side(const char *s) { const char *p = strchr("WESNF", s[0]); return (int) (p - "WESNF"); }

#define SX (c.x * in->scaling.L)
#define SZ (c.z * in->scaling.L)
#define PCB(NAME, U) static double cb_##NAME(MdoodzInput *in, Coordinates c, int ph) { (void) ph; return fld(#NAME, SX, SZ) / (U); }
PCB(P, in->scaling.S) PCB(Txx, in->scaling.S) PCB(Tzz, in->scaling.S) PCB(Txz, in->scaling.S) PCB(d, in->scaling.L)
PCB(phi, 1.0) PCB(rho, in->scaling.rho) PCB(X, 1.0) PCB(noise, 1.0)
static double cb_T(MdoodzInput *in, Coordinates c) { return fld("T", SX, SZ) / in->scaling.T; }
static double cb_Vx(MdoodzInput *in, Coordinates c) { return fld("Vx", SX, SZ) / in->scaling.V; }
static double cb_Vz(MdoodzInput *in, Coordinates c) { return fld("Vz", SX, SZ) / in->scaling.V; }
static double cb_an(MdoodzInput *in, Coordinates c, int ph, double pre) { (void) ph; (void) pre; return fld("aniso", SX, SZ); }
static Tensor2D cb_F(MdoodzInput *in, Coordinates c, int ph) {
  (void) ph; Tensor2D t; memset(&t, 0, sizeof t);
  t.xx = fld("F11", SX, SZ); t.xz = fld("F12", SX, SZ); t.zx = fld("F21", SX, SZ); t.zz = fld("F22", SX, SZ);
  return t;
}
static int cb_ph(MdoodzInput *in, Coordinates c) { return (int) floor(fld("phase", SX, SZ) + 0.5); }
static int cb_dual(MdoodzInput *in, Coordinates c, int ph) { (void) ph; return (int) floor(fld("dual", SX, SZ) + 0.5); }
static int cb_adj(MdoodzInput *in, Coordinates c, double T, int ph) { (void) c; return (T * in->scaling.T > adjT) ? adjPhase : ph; }
static double cb_topo(MdoodzInput *in, double x) { return fld("topo", x * in->scaling.L, 0.0) / in->scaling.L; }
static int cb_topph(MdoodzInput *in, double x) { (void) in; (void) x; return surfphase; }

static double clampz(MdoodzInput *in, double z) { return z > in->model.zmax ? in->model.zmax : (z < in->model.zmin ? in->model.zmin : z); }
static double clampx(MdoodzInput *in, double x) { return x > in->model.xmax ? in->model.xmax : (x < in->model.xmin ? in->model.xmin : x); }

static SetBC cb_bcx(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC b = {0.0, -1};
  if (p == INTERNAL) return b;
  double x = clampx(in, c.x) * in->scaling.L, z = clampz(in, c.z) * in->scaling.L;
  if (!strcmp(bcmode, "lin")) {
    b.type  = (p == W || p == E) ? 0 : 11;
    b.value = fld("bcvx", x, z) / in->scaling.V;
  } else if (!strcmp(bcmode, "freeslip")) {
    b.type = (p == W || p == E) ? 0 : 13;
  } else if (!strcmp(bcmode, "mixed")) {
    b.type  = (char) bcxT[p];
    if (b.type == 13 || b.type == 2) b.value = fld("bcsx", x, z) / in->scaling.S;
    else if (b.type >= 0) b.value = fld("bcvx", x, z) / in->scaling.V;
  } else if (!strcmp(bcmode, "pure")) return SetPureShearBCVx(in, p, c);
  else if (!strcmp(bcmode, "simple")) return SetSimpleShearBCVx(in, p, c);
  else return SetPureOrSimpleShearBCVx(in, p, c);
  return b;
}
static SetBC cb_bcz(MdoodzInput *in, POSITION p, Coordinates c) {
  SetBC b = {0.0, -1};
  if (p == INTERNAL) return b;
  double x = clampx(in, c.x) * in->scaling.L, z = clampz(in, c.z) * in->scaling.L;
  if (!strcmp(bcmode, "lin")) {
    b.type  = (p == S || p == N) ? 0 : 11;
    b.value = fld("bcvz", x, z) / in->scaling.V;
  } else if (!strcmp(bcmode, "freeslip")) {
    b.type = (p == S || p == N) ? 0 : 13;
  } else if (!strcmp(bcmode, "mixed")) {
    b.type  = (char) bczT[p];
    if (b.type == 13 || b.type == 2) b.value = fld("bcsz", x, z) / in->scaling.S;
    else if (b.type >= 0) b.value = fld("bcvz", x, z) / in->scaling.V;
  } else if (!strcmp(bcmode, "pure")) return SetPureShearBCVz(in, p, c);
  else if (!strcmp(bcmode, "simple")) return SetSimpleShearBCVz(in, p, c);
  else return SetPureOrSimpleShearBCVz(in, p, c);
  return b;
}
static int sideOf(POSITION p) { return p == W ? 0 : p == E ? 1 : p == S ? 2 : p == N ? 3 : 4; }
static SetBC cb_bct(MdoodzInput *in, POSITION p, Coordinates c, double Tg) {
  static const char *nm[5] = {"bctW", "bctE", "bctS", "bctN", "bctF"};
  int s = sideOf(p);
  SetBC b; b.type = (char) bctT[s];
  double v = fld(nm[s], SX, SZ);
  b.value  = (b.type == constant_heatflux) ? v / (in->scaling.W / in->scaling.L / in->scaling.L) : v / in->scaling.T;
  (void) Tg;
  return b;
}
static SetBC cb_bcc(MdoodzInput *in, POSITION p, Coordinates c, double g) {
  static const char *nm[5] = {"bccW", "bccE", "bccS", "bccN", "bccF"};
  int s = sideOf(p);
  SetBC b; b.type = (char) bccT[s];
  b.value = fld(nm[s], SX, SZ) / (b.type == constant_heatflux ? in->scaling.V : 1.0);
  (void) g;
  return b;
}
static char cb_bcp(MdoodzInput *in, POSITION p) { (void) in; return (char) bcpT[p]; }

static void readScenario(const char *fn) {
  FILE *f = fopen(fn, "r");
  if (!f) { fprintf(stderr, "no scenario\n"); exit(99); }
  char line[1024];
  while (fgets(line, sizeof line, f)) {
    char *tok[16]; int nt = 0;
    for (char *s = strtok(line, " \t\r\n"); s && nt < 16; s = strtok(NULL, " \t\r\n")) tok[nt++] = s;
    if (!nt || tok[0][0] == '#') continue;
    if (!strcmp(tok[0], "f")) {
      Field *q = get(tok[1]);
      if (!q) { q = &F[nF++]; strncpy(q->name, tok[1], 15); }
      Term *t = &q->t[q->n++];
      static const char *K[] = {"const", "lin", "gauss", "cosx", "cosz", "box", "ell"};
      t->kind = -1;
      for (int i = 0; i < 7; i++) if (!strcmp(tok[2], K[i])) t->kind = i;
      if (t->kind < 0) { fprintf(stderr, "bad term %s\n", tok[2]); exit(99); }
      for (int i = 3; i < nt; i++) t->a[i - 3] = atof(tok[i]);
    } else if (!strcmp(tok[0], "bc")) strncpy(bcmode, tok[1], 15);
    else if (!strcmp(tok[0], "bct")) { bctT[side(tok[1])] = atoi(tok[2]); hasBct = 1; }
    else if (!strcmp(tok[0], "bcc")) { bccT[side(tok[1])] = atoi(tok[2]); hasBcc = 1; }
    else if (!strcmp(tok[0], "bcp")) { if (!hasBcp) for (int i = 0; i < 10; i++) bcpT[i] = -1; bcpT[pos(tok[1])] = atoi(tok[2]); hasBcp = 1; }
    else if (!strcmp(tok[0], "bcx")) bcxT[pos(tok[1])] = atoi(tok[2]);
    else if (!strcmp(tok[0], "bcz")) bczT[pos(tok[1])] = atoi(tok[2]);
    else if (!strcmp(tok[0], "adjust")) { adjPhase = atoi(tok[1]); adjT = atof(tok[2]); }
    else if (!strcmp(tok[0], "surfphase")) surfphase = atoi(tok[1]);
    else { fprintf(stderr, "bad scenario line %s\n", tok[0]); exit(99); }
  }
  fclose(f);
  (void) callT; (void) mutseed;
}

int main(int argc, char **argv) {
  if (argc < 3) return 99;
  readScenario(argv[2]);
  srand(1);
  SetParticles_ff sp; memset(&sp, 0, sizeof sp);
  SetBCs_ff sb; memset(&sb, 0, sizeof sb);
  BuildInitialTopography_ff bt; memset(&bt, 0, sizeof bt);
  if (get("T")) sp.SetTemperature = cb_T;
  if (get("P")) sp.SetPressure = cb_P;
  if (get("Txx")) sp.SetTxx = cb_Txx;
  if (get("Tzz")) sp.SetTzz = cb_Tzz;
  if (get("Txz")) sp.SetTxz = cb_Txz;
  if (get("d")) sp.SetGrainSize = cb_d;
  if (get("phi")) sp.SetPorosity = cb_phi;
  if (get("rho")) sp.SetDensity = cb_rho;
  if (get("X")) sp.SetXComponent = cb_X;
  if (get("noise")) sp.SetNoise = cb_noise;
  if (get("Vx")) sp.SetHorizontalVelocity = cb_Vx;
  if (get("Vz")) sp.SetVerticalVelocity = cb_Vz;
  if (get("aniso")) sp.SetAnisoAngle = cb_an;
  if (get("F11")) sp.SetDefGrad = cb_F;
  if (get("phase")) sp.SetPhase = cb_ph;
  if (get("dual")) sp.SetDualPhase = cb_dual;
  if (adjPhase >= 0) sp.AdjustPhaseToTemperature = cb_adj;
  sb.SetBCVx = cb_bcx; sb.SetBCVz = cb_bcz;
  if (hasBct) sb.SetBCT = cb_bct;
  if (hasBcc) sb.SetBCC = cb_bcc;
  if (hasBcp) sb.SetBCPType = cb_bcp;
  if (get("topo")) bt.SetSurfaceZCoord = cb_topo;
  bt.SetSurfacePhase = cb_topph;
  MdoodzSetup setup; memset(&setup, 0, sizeof setup);
  setup.SetParticles = &sp; setup.SetBCs = &sb; setup.BuildInitialTopography = &bt;
  RunMDOODZ(argv[1], &setup);
  puts("DRIVER-DONE");
  return 0;
}
