// Written by tools/mkcurves.py.
#define NPC 10
#define NSE 11
static const double PCL[NPC] = {-1000.0, -0.25, 0.0, 0.02, 0.375, 0.75, 1.3333333333333333, 2.4, 10.0, 80.0}, SEL[NSE] = {0.0, 0.05, 0.2, 0.5, 0.8, 0.93, 0.96, 0.985, 0.992, 0.998, 1.0};
static const double SATP[2][8][3] = {{{0.5, 1.0, 1.0}, {0.5, 2.0, 0.5}, {0.2, 0.5, 0.25}, {0.9, 0.8, 2.0}}, {{0.5, 1.0}, {0.75, 0.5}, {0.25, 2.0}, {0.8, 0.125}}};
static const double KRP[2][8][2] = {{{2.0}, {3.0}, {1.0}, {1.5}}, {{0.5, 0.99}, {0.75, 0.99}, {0.25, 0.99}, {0.8, 0.99}, {0.6, 0.9}}};
