// The lattice of particles: the same list on every rank and in the oracle.
#ifndef PLAT_H
#define PLAT_H
#include "hv.h"
#include <vector>
#include <math.h>
struct GP { int cell[3]; double off[3], u[3]; float w; int sp; };
// kind 0: offsets x directions over all cells; magnitude um. kind 1: few, one per cell and direction; kind 2: dense hashed population of n per cell
static inline std::vector<GP> plattice(const World& w, int kind, double um, int per, int nsp) {
  std::vector<GP> v; static const double O[4] = { -1, -0.58, 0.37, 1 }, O1[2] = { -0.71, 0.83 }; int id = 0; GP p; int c[3];
  for (c[2] = 1; c[2] <= w.n[2]; c[2]++) for (c[1] = 1; c[1] <= w.n[1]; c[1]++) for (c[0] = 1; c[0] <= w.n[0]; c[0]++) {
    for (int a = 0; a < 3; a++) p.cell[a] = c[a];
    if (kind == 2) { for (int i = 0; i < per; i++) { for (int a = 0; a < 3; a++) { p.off[a] = (float)hval(31, a, i, gkey(c)); p.u[a] = (float)(um * hval(32, a, i, gkey(c))); } p.sp = i % nsp; p.w = 1 + id++ * (1.f / (1 << 20)); v.push_back(p); } continue; }
    int no = kind == 0 ? 4 : 2; const double* o = kind == 0 ? O : O1;
    for (int a = 0; a < no; a++) for (int b = 0; b < no; b++) for (int e = 0; e < no; e++) for (int d = 0; d < 27; d++) {
      if (kind == 1 && (d + a + 2 * b + 4 * e) % per) continue;
      int dd[3] = { d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1 }; double l = sqrt((double)(dd[0] * dd[0] + dd[1] * dd[1] + dd[2] * dd[2])); if (!l) l = 1;
      p.off[0] = (float)o[a]; p.off[1] = (float)o[b]; p.off[2] = (float)o[e]; for (int k = 0; k < 3; k++) p.u[k] = (float)(um * dd[k] / l * (1 + 0.03 * k)); p.sp = (a + b + e + d) % nsp; p.w = 1 + id++ * (1.f / (1 << 20)); v.push_back(p); } }
  return v; }
#endif
