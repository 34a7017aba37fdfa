// Shared by the scenarios and the oracles: deterministic data and the description of the global problem.
#ifndef CHECK_HV_H
#define CHECK_HV_H
#include <stdint.h>
static inline uint64_t hmix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
// deterministic pseudo values in [-1,1): data of the enumerated cases, the same on every rank and in the oracle
static inline double hval(uint64_t a, uint64_t b = 0, uint64_t c = 0, uint64_t d = 0, uint64_t e = 0) { return (double)(int64_t)hmix(hmix(hmix(hmix(hmix(a + 0x9e3779b97f4a7c15ull) + b * 3) + c * 5) + d * 7) + e * 11) / 9223372036854775808.0; }
// The global mesh and its partition. bc: lo x,y,z then hi x,y,z; 0 periodic, -1..-4 as in grid.h
struct World {
  int n[3], p[3], bc[6]; double d[3], lo[3]; double c, eps0, dt;
  enum { NPAR = 12 };
  static World make(int nx, int ny, int nz, int px = 1, int py = 1, int pz = 1, int bx = 0, int by = 0, int bz = 0) {
    World w; w.n[0] = nx; w.n[1] = ny; w.n[2] = nz; w.p[0] = px; w.p[1] = py; w.p[2] = pz; int b[3] = { bx, by, bz }; for (int a = 0; a < 3; a++) w.bc[a] = w.bc[a + 3] = b[a]; w.consts(); return w; }
  void consts() { d[0] = 0.5; d[1] = 0.625; d[2] = 0.75; lo[0] = -1.25; lo[1] = 0.5; lo[2] = 2; c = 1.25; eps0 = 0.8; dt = 0.21875; }
  template<class V> void pack(V& v) const { v.resize(NPAR); for (int i = 0; i < 3; i++) { v[i] = n[i]; v[3 + i] = p[i]; v[6 + i] = bc[i]; v[9 + i] = bc[3 + i]; } }
  template<class F> static World unpack(F get) { World w; for (int i = 0; i < 3; i++) { w.n[i] = (int)get(i); w.p[i] = (int)get(3 + i); w.bc[i] = (int)get(6 + i); w.bc[3 + i] = (int)get(9 + i); } w.consts(); return w; }
  int nranks() const { return p[0] * p[1] * p[2]; }
  int ln(int a) const { return n[a] / p[a]; }
  void index(int r, int ix[3]) const { ix[0] = r % p[0]; ix[1] = r / p[0] % p[1]; ix[2] = r / p[0] / p[1]; }
  bool per(int a) const { return bc[a] == 0; }
  // canonical global index of local index i on a rank at index ix along axis a; node: shared positions identified
  int glob(int a, int ix, int i, bool cell) const { int I = ix * ln(a) + i; if (per(a)) { I = (I - 1) % n[a]; if (I < 0) I += n[a]; I++; } return I; }
  int hi(int a, bool cell) const { return (cell || per(a)) ? n[a] : n[a] + 1; }
};
enum { EX, EY, EZ, BX, BY, BZ, TX, TY, TZ, JX, JY, JZ, RHOF, RHOB, DIVE, DIVB, NCOMP };
static const int STAG[NCOMP] = { 1, 2, 4, 6, 5, 3, 1, 2, 4, 1, 2, 4, 0, 0, 0, 7 };   // bit a set: cell centred along axis a
static const char* const CNAME[NCOMP] = { "ex","ey","ez","cbx","cby","cbz","tcax","tcay","tcaz","jfx","jfy","jfz","rhof","rhob","div_e_err","div_b_err" };
static inline uint64_t gkey(const int* I) { return (uint64_t)(I[0] + 64 * (I[1] + 64 * I[2])); }
static const double MATPAR[3][9] = { { 1,1,1, 1,1,1, 0,0,0 }, { 1.5,2,2.5, 1.25,1.5,2, 0,0,0 }, { 2,1.25,1.75, 1.5,1.75,1.25, .3,.5,.7 } };
// materials by site: slot 0-2 e edges, 3 node, 4-6 faces
static inline int matid(int nmat, int slot, const int* I) { return nmat == 1 ? 0 : (int)((hval(77, slot, gkey(I)) + 1) * 0.5 * nmat * 0.999999); }
#endif
