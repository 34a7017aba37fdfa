// Reference model: the discrete field equations on the undivided global mesh, in double precision.
#ifndef FIELD_MODEL_H
#define FIELD_MODEL_H
#include "hv.h"
#include <math.h>
#include <functional>
#include <vector>
struct GM {
  World w; int nmat, mat0; double damp; int N[3];
  std::vector<double> F[NCOMP]; double M[3][16]; // decay, drive x3, rmu, eps, nonconductive
  GM(const World& w_, int nm, int m0, double dp) : w(w_), nmat(nm), mat0(m0), damp(dp) {
    for (int a = 0; a < 3; a++) N[a] = w.n[a] + 2; for (auto& f : F) f.assign(N[0] * N[1] * N[2], 0);
    for (int m = 0; m < 3; m++) { const double* q = MATPAR[m]; bool cond = false; for (int a = 0; a < 3; a++) { double s = q[6 + a] * w.dt / (q[a] * w.eps0); M[m][a] = exp(-s); M[m][3 + a] = s == 0 ? 1 / q[a] : (1 - exp(-s)) / (s * q[a]); M[m][6 + a] = 1 / q[3 + a]; M[m][9 + a] = q[a]; if (s) cond = true; } M[m][12] = cond ? 0 : 1; } }
  int id(int i, int j, int k) const { return i + N[0] * (j + N[1] * k); }
  int id(const int* I) const { return id(I[0], I[1], I[2]); }
  double& at(int c, const int* I) { return F[c][id(I)]; }
  double p(int a) const { return w.n[a] > 1 ? 1 / w.d[a] : 0; }
  template<class Fn> void loop(int st, Fn f) { int I[3]; for (I[2] = 1; I[2] <= w.hi(2, st >> 2 & 1); I[2]++) for (I[1] = 1; I[1] <= w.hi(1, st >> 1 & 1); I[1]++) for (I[0] = 1; I[0] <= w.hi(0, st & 1); I[0]++) f(I); }
  // value at index displaced along one axis; periodic axes wrap; beyond a wall the ghost rule g(low?, mirrored index) decides
  typedef std::function<double(int, int, const int*, const int*)> Ghost; // (axis, side, ghost index, index just inside)
  double get(int c, const int* I0, int a, int off, const Ghost& g) {
    int I[3] = { I0[0], I0[1], I0[2] }; I[a] += off; bool cell = STAG[c] >> a & 1;
    if (w.per(a)) { if (I[a] < 1) I[a] += w.n[a]; if (I[a] > w.n[a]) I[a] -= w.n[a]; return at(c, I); }
    int hi = cell ? w.n[a] : w.n[a] + 1; if (I[a] >= 1 && I[a] <= hi) return at(c, I);
    int J[3] = { I[0], I[1], I[2] }; J[a] = I[a] < 1 ? 1 : hi; return g(a, I[a] < 1 ? 0 : 1, I, J); }
  int mat(int slot, int st, const int* I) { int J[3]; for (int a = 0; a < 3; a++) { J[a] = I[a]; bool cell = st >> a & 1; if (w.per(a)) { if (J[a] < 1) J[a] += w.n[a]; if (J[a] > w.n[a]) J[a] -= w.n[a]; } else { int h = cell ? w.n[a] : w.n[a] + 1; if (J[a] < 1) J[a] = 1; if (J[a] > h) J[a] = h; } } return nmat == 1 ? mat0 : matid(nmat, slot, J); }
  double nowall(int, int, const int*, const int*) { return 0; }
  void wall_tang(bool tca) { for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) if (w.bc[a + 3 * s] == -1) for (int b = 0; b < 3; b++) if (b != a) loop(STAG[EX + b], [&](int* I) { if (I[a] == (s ? w.n[a] + 1 : 1)) { at(EX + b, I) = 0; at(TX + b, I) = 0; } }); }
  void wall_normb() { for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) if (w.bc[a + 3 * s] == -2) loop(STAG[BX + a], [&](int* I) { if (I[a] == (s ? w.n[a] + 1 : 1)) at(BX + a, I) = 0; }); }
  void advance_b(double frac) { Ghost none = [](int, int, const int*, const int*) { return NAN; };
    for (int a = 0; a < 3; a++) { int b = (a + 1) % 3, c = (a + 2) % 3; loop(STAG[BX + a], [&](int* I) { double curl = p(b) * (w.n[b] > 1 ? get(EX + c, I, b, 1, none) - at(EX + c, I) : 0) - p(c) * (w.n[c] > 1 ? get(EX + b, I, c, 1, none) - at(EX + b, I) : 0); at(BX + a, I) -= frac * w.c * w.dt * curl; }); }
    wall_normb(); }
  // ghost tangential cb beyond walls; absorbing walls keep their own state
  void ghost_tang_b() { double hig = (w.n[0] > 1 || w.n[1] > 1 || w.n[2] > 1) ? 1.03527618 : 1.; std::vector<double> nb[3]; for (int b = 0; b < 3; b++) nb[b] = F[BX + b];
    for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) { int bc = w.bc[a + 3 * s]; if (!bc) continue;
      for (int b = 0; b < 3; b++) if (b != a) { int t = 3 - a - b; /* third axis */
        loop(STAG[BX + b], [&](int* I0) { int in = s ? w.n[a] : 1; if (I0[a] != in) return; int G[3] = { I0[0], I0[1], I0[2] }; G[a] = s ? w.n[a] + 1 : 0; int J[3] = { I0[0], I0[1], I0[2] }; J[a] = in; double v;
          if (bc == -1) v = at(BX + b, J); else if (bc == -2 || bc == -3) v = -at(BX + b, J);
          else { double k = w.c * w.dt / w.d[a], dr = k * hig, decay = (1 - dr) / (1 + dr), drive = 2 * dr / (1 + dr);
            // curl E at the half cell: (curl E)_b with normal derivative on the wall and tangential derivative of the normal component
            int f0[3] = { I0[0], I0[1], I0[2] }, f1[3] = { I0[0], I0[1], I0[2] }; f0[a] = s ? w.n[a] : 1; f1[a] = f0[a] + 1;
            double dn = k * (at(EX + t, f1) - at(EX + t, f0));
            int e0[3] = { I0[0], I0[1], I0[2] }; e0[a] = s ? w.n[a] : 1; int e1[3] = { e0[0], e0[1], e0[2] }; e1[t]++; if (w.per(t) && e1[t] > w.n[t]) e1[t] = 1;
            double dt_ = w.c * w.dt / w.d[t] * (at(EX + a, e1) - at(EX + a, e0)); if (w.n[t] == 1 && w.per(t)) dt_ = 0;
            // Faraday: d cb_b/dt = -(curl E)_b ; for (a,b,t) cyclic (curl E)_b = d_t E_a - d_a E_t
            double cyc = (b == (a + 1) % 3) ? 1 : -1; v = decay * at(BX + b, G) + drive * at(BX + b, J) + cyc * (-dn + dt_) ; }
          nb[b][id(G)] = v; }); } }
    for (int b = 0; b < 3; b++) F[BX + b] = nb[b]; }
  double curlb(int a, const int* I) { // (c dt) curl (B/mu) on edge a
    int b = (a + 1) % 3, c = (a + 2) % 3; double r = 0; Ghost g = [&](int ax, int s, const int* G, const int*) { return 0.0; }; (void)g;
    for (int h = 0; h < 2; h++) { int ax = h ? c : b, comp = h ? b : c; if (w.n[ax] == 1) continue; double v[2]; for (int o = 0; o < 2; o++) { int K[3] = { I[0], I[1], I[2] }; K[ax] -= o; int m = mat(4 + comp, STAG[BX + comp], K); Ghost gh = [&](int, int, const int* G, const int*) { return at(BX + comp, G); }; v[o] = get(BX + comp, I, ax, -o, gh) * M[m][6 + comp]; } r += (h ? -1 : 1) * p(ax) * (v[0] - v[1]); }
    return r * w.c * w.dt; }
  void advance_e() { ghost_tang_b(); std::vector<double> nt[3];
    for (int a = 0; a < 3; a++) { nt[a] = F[TX + a]; loop(STAG[EX + a], [&](int* I) { nt[a][id(I)] = (1 + damp) * curlb(a, I) - damp * at(TX + a, I); }); }
    for (int a = 0; a < 3; a++) { F[TX + a] = nt[a]; loop(STAG[EX + a], [&](int* I) { int m = mat(a, STAG[EX + a], I); at(EX + a, I) = M[m][a] * at(EX + a, I) + M[m][3 + a] * (at(TX + a, I) - w.dt / w.eps0 * at(JX + a, I)); }); }
    wall_tang(true); }
  void compute_curl_b() { ghost_tang_b(); std::vector<double> nt[3]; for (int a = 0; a < 3; a++) { nt[a] = F[TX + a]; loop(STAG[EX + a], [&](int* I) { nt[a][id(I)] = curlb(a, I); }); } for (int a = 0; a < 3; a++) F[TX + a] = nt[a]; wall_tang(true); }
  double div_eps_e(const int* I) { double r = 0; for (int a = 0; a < 3; a++) if (w.n[a] > 1) { double v[2]; for (int o = 0; o < 2; o++) { int K[3] = { I[0], I[1], I[2] }; K[a] -= o; int m = mat(a, STAG[EX + a], K);
      Ghost gh = [&](int ax, int s, const int*, const int* J) { int bc = w.bc[ax + 3 * s]; int J2[3] = { J[0], J[1], J[2] }; J2[ax] += s ? -1 : 1; return bc == -1 ? at(EX + a, J) : bc == -4 ? 2 * at(EX + a, J) - at(EX + a, J2) : -at(EX + a, J); };
      v[o] = get(EX + a, I, a, -o, gh) * M[m][9 + a]; } r += p(a) * (v[0] - v[1]); } return r; }
  bool onwall(const int* I, int type) { for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) if (w.bc[a + 3 * s] == type && I[a] == (s ? w.n[a] + 1 : 1)) return true; return false; }
  void compute_rhob() { loop(0, [&](int* I) { at(RHOB, I) = onwall(I, -1) ? 0 : M[mat(3, 0, I)][12] * (w.eps0 * div_eps_e(I) - at(RHOF, I)); }); }
  void compute_div_e_err() { loop(0, [&](int* I) { at(DIVE, I) = (onwall(I, -1) || onwall(I, -4)) ? 0 : M[mat(3, 0, I)][12] * (div_eps_e(I) - (at(RHOF, I) + at(RHOB, I)) / w.eps0); }); }
  double alphadt() { return 0.3888889 / (p(0) * p(0) + p(1) * p(1) + p(2) * p(2)); }
  void clean_div_e() { Ghost none = [](int, int, const int*, const int*) { return NAN; }; for (int a = 0; a < 3; a++) if (w.n[a] > 1) loop(STAG[EX + a], [&](int* I) { at(EX + a, I) += M[mat(a, STAG[EX + a], I)][3 + a] * alphadt() * p(a) * (get(DIVE, I, a, 1, none) - at(DIVE, I)); }); wall_tang(true); }
  void compute_div_b_err() { Ghost none = [](int, int, const int*, const int*) { return NAN; }; loop(7, [&](int* I) { double r = 0; for (int a = 0; a < 3; a++) if (w.n[a] > 1) r += p(a) * (get(BX + a, I, a, 1, none) - at(BX + a, I)); at(DIVB, I) = r; }); }
  void clean_div_b() { Ghost gh = [&](int ax, int s, const int*, const int* J) { int bc = w.bc[ax + 3 * s]; return bc == -1 ? at(DIVB, J) : bc == -4 ? 0 : -at(DIVB, J); };
    for (int a = 0; a < 3; a++) if (w.n[a] > 1) loop(STAG[BX + a], [&](int* I) { at(BX + a, I) += alphadt() * p(a) * (get(DIVB, I, a, 0, gh) - get(DIVB, I, a, -1, gh)); }); wall_normb(); }
  void sync() { wall_tang(true); wall_normb(); }
  void energy(double* en) { double v0 = 0.5 * w.eps0 * w.d[0] * w.d[1] * w.d[2]; for (int c = 0; c < 6; c++) { en[c] = 0; int comp = c < 3 ? EX + c : BX + c - 3, st = STAG[comp]; loop(st, [&](int* I) { double wt = 1; for (int a = 0; a < 3; a++) if (!(st >> a & 1) && !w.per(a) && (I[a] == 1 || I[a] == w.n[a] + 1)) wt *= 0.5; double k = c < 3 ? M[mat(c, st, I)][9 + c] : M[mat(1 + c, st, I)][6 + c - 3]; en[c] += v0 * wt * k * at(comp, I) * at(comp, I); }); } }
  double rms_div_e() { double s = 0; loop(0, [&](int* I) { double wt = 1; for (int a = 0; a < 3; a++) if (!w.per(a) && (I[a] == 1 || I[a] == w.n[a] + 1)) wt *= 0.5; s += wt * at(DIVE, I) * at(DIVE, I); }); return w.eps0 * sqrt(s / (w.n[0] * w.n[1] * w.n[2])); }
  double rms_div_b() { double s = 0; loop(7, [&](int* I) { s += at(DIVB, I) * at(DIVB, I); }); return w.eps0 * sqrt(s / (w.n[0] * w.n[1] * w.n[2])); }
  // all copies of a shared site on the ranks: f(rank, local voxel)
  template<class Fn> void copies(int st, const int* I, Fn f) { for (int r = 0; r < w.nranks(); r++) { int ix[3]; w.index(r, ix); int l[3][2], nl[3]; for (int a = 0; a < 3; a++) { nl[a] = 0; int ln = w.ln(a); bool cell = st >> a & 1; for (int i = 1; i <= (cell ? ln : ln + 1); i++) if (w.glob(a, ix[a], i, cell) == I[a]) l[a][nl[a]++] = i; }
      for (int z = 0; z < nl[2]; z++) for (int y = 0; y < nl[1]; y++) for (int x = 0; x < nl[0]; x++) f(r, l[0][x] + (w.ln(0) + 2) * (l[1][y] + (w.ln(1) + 2) * l[2][z])); } }
  void dense(int seed, int partial) { for (int c = 0; c < NCOMP; c++) { loop(STAG[c], [&](int* I) { double x; if (partial >> c & 1) { x = 0; int n = 0; copies(STAG[c], I, [&](int r, int v) { x += (float)hval(seed + 1000, c, v, r); n++; }); if (c == RHOB || c < JX) x /= n; } else x = (float)hval(seed, c, gkey(I)); at(c, I) = x; });
      if (c >= BX && c <= BZ) for (int k = 0; k < N[2]; k++) for (int j = 0; j < N[1]; j++) for (int i = 0; i < N[0]; i++) { int I[3] = { i, j, k }; bool out = false; for (int a = 0; a < 3; a++) if (!w.per(a) && (I[a] < 1 || I[a] > w.hi(a, STAG[c] >> a & 1))) out = true; if (out) at(c, I) = (float)hval(seed, c, gkey(I)); } } }
  void sync_jf() { for (int b = 0; b < 3; b++) loop(STAG[JX + b], [&](int* I) { for (int a = 0; a < 3; a++) if (a != b) for (int s = 0; s < 2; s++) if (int bc = w.bc[a + 3 * s]) if (I[a] == (s ? w.n[a] + 1 : 1)) at(JX + b, I) *= bc == -1 ? 0 : 2; }); }
  void sync_rho() { loop(0, [&](int* I) { for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) if (int bc = w.bc[a + 3 * s]) if (I[a] == (s ? w.n[a] + 1 : 1)) { at(RHOF, I) *= bc == -1 ? 0 : 2; if (bc == -1) at(RHOB, I) = 0; } }); }
  void zero() { for (auto& f : F) f.assign(f.size(), 0); }
  std::vector<double> scal; // scalar results of ops, in order: energies(6), rms
  void apply(char o, std::vector<double>* en = 0, std::vector<double>* rms = 0) { switch (o) { case 'b': advance_b(.5); break; case 'B': advance_b(1); break; case 'e': advance_e(); break; case 'c': compute_curl_b(); break; case 'r': compute_rhob(); break; case 'd': compute_div_e_err(); break; case 'D': clean_div_e(); break; case 'm': compute_div_b_err(); break; case 'M': clean_div_b(); break; case 's': sync(); break; case 'j': sync_jf(); break; case 'R': sync_rho(); break;
    case 'x': for (int a = 0; a < 3; a++) F[JX + a].assign(F[0].size(), 0); break; case 'y': F[RHOF].assign(F[0].size(), 0); break;
    case 'E': { double e[6]; energy(e); if (en) en->insert(en->end(), e, e + 6); break; } case 'n': if (rms) rms->push_back(rms_div_e()); break; case 'N': if (rms) rms->push_back(rms_div_b()); break; } }
};
#endif
