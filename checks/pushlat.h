// Fields and particles of the push / hydro / energy cases: the same on every rank and in the oracle.
#ifndef PUSHLAT_H
#define PUSHLAT_H
#include "hv.h"
#include <vector>
#include <math.h>
struct PP { int cell[3]; float off[3], u[3], w; };
// fields live on the global mesh: value of component c at global site I
static inline float pfield(int c, const int* I, double se, double sb, int flat) { double s = c <= EZ ? se : sb; if (flat) return (float)(s * hval(8, c)); return (float)(s * (0.4 * hval(8, c) + 0.6 * hval(9, c, gkey(I)))); }
// np<0: the complete lattice; otherwise np members of it, spread over it
static inline std::vector<PP> pushlat(const World& w, long np, int salt) {
  static const double O[5] = { -1, -0.6, 0.02, 0.45, 1 }, M[6] = { 0, 1e-5, 0.02, 0.7, 4, 300 };
  std::vector<PP> v; long tot = 125 * 27 * 6, n = np < 0 ? tot : np;
  for (long i = 0; i < n; i++) { long k = np < 0 ? i : (long)(hmix(i * 31 + salt) % tot); PP p; int d = k % 27, m = k / 27 % 6, o = k / 162; int dd[3] = { d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1 };
    double l = sqrt((double)(dd[0] * dd[0] + dd[1] * dd[1] + dd[2] * dd[2])); if (!l) l = 1; p.off[0] = O[o % 5]; p.off[1] = O[o / 5 % 5]; p.off[2] = O[o / 25];
    for (int a = 0; a < 3; a++) { p.u[a] = (float)(M[m] * dd[a] / l * (1 + 0.07 * a)); p.cell[a] = 1 + (int)(hmix(k * 3 + a + 1000 * salt) % w.n[a]); } p.w = (float)(1 + i * (1.0 / (1 << 16))); v.push_back(p); }
  return v; }
#endif
