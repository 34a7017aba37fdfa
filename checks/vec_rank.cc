// C20: the short vector classes. Built without the rest of the program, once per implementation (-DVW=4|8|16).
// The oracle is scalar arithmetic lane by lane and the documented layout of the transposing loads and stores.
#include "vmc.h"
#include <math.h>
#include <stdio.h>
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <vector>
#include <utility>
#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define CAT3_(a,b,c) a##b##c
#define CAT3(a,b,c) CAT3_(a,b,c)
#define CAT4_(a,b,c,d) a##b##c##d
#define CAT4(a,b,c,d) CAT4_(a,b,c,d)
#ifdef V1
# define V1H_(w) #w
# if VW==4
#  define IN_v4_h
#  include "util/v4/v4_portable_v1.h"
# elif VW==8
#  define IN_v8_h
#  include "util/v8/v8_portable_v1.h"
# else
#  define IN_v16_h
#  include "util/v16/v16_portable_v1.h"
# endif
#elif VW==4
# include "util/v4/v4.h"
#elif VW==8
# include "util/v8/v8.h"
#else
# include "util/v16/v16.h"
#endif
enum { W = VW };
namespace N = CAT(v,VW);
typedef N::CAT(v,VW) V; typedef N::CAT3(v,VW,int) VI; typedef N::CAT3(v,VW,float) VF;
static double n_states, n_trans;
#define BAD vmc_fail
typedef std::make_index_sequence<W> LANES;
// ------------------------------------------------------------------ values
union B { int i; float f; unsigned u; };
static B bi(int i) { B b; b.i = i; return b; } static B bf(float f) { B b; b.f = f; return b; }
template<class X> static inline X* hide(X* p) { asm volatile("" : "+r"(p) : : "memory"); return p; }
static VI VIof(const int* p) { VI a; for (int j = 0; j < W; j++) a[j] = p[j]; return a; }
static VF VFof(const float* p) { VF a; for (int j = 0; j < W; j++) a[j] = p[j]; return a; }
static V Vof(const int* p) { return VIof(p); }
static bool same(float x, float y) { return (x != x && y != y) || bf(x).i == bf(y).i; }
static bool eqnum(float x, float y) { return (x != x && y != y) || x == y; }
static bool close(float x, double y, double rel, double abs_ = 0) { if (y != y) return x != x; if (isinf((float)y) || isinf(x)) return (double)x == (double)(float)y || (fabs(y) > 3.4e38 && fabsf(x) > 3.4e38f && (x > 0) == (y > 0)); return fabs(x - y) <= rel * fabs(y) + abs_ + 1.5e-45; }
static std::vector<int> ints(bool T) { std::vector<int> v = { 0, 1, -1, 2, -2, 3, -3, 7, -7, 31, -31, 32, 100, -100, 255, 256, 65535, 65536, -65536, 46340, 46341, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 0x55555555, (int)0xaaaaaaaau, 0x3f800000, (int)0xbf800000u, 0x7f800000, (int)0xff800000u, 0x7fc00000, (int)0xffc00000u, 0x00800000, 0x007fffff, 0x12345678 };
  if (T) for (int k = 0; k < 32; k++) for (int d = -1; d <= 1; d++) { v.push_back((int)((1u << k) + d)); v.push_back((int)(~(1u << k) + d)); } return v; }
static std::vector<float> floats(bool T) { std::vector<float> v = { 0.f, -0.f, 1.f, -1.f, 2.f, -2.f, 0.5f, -0.5f, 3.f, -3.f, 1.0000001f, 0.99999994f, 1e-3f, -1e-3f, 0.1f, -0.7f, 1e10f, -1e10f, 1e-10f, 3.4028235e38f, -3.4028235e38f, 1.17549435e-38f, -1.17549435e-38f, 1e-45f, -1e-45f, 1e-40f, INFINITY, -INFINITY, NAN, 16777216.f, 16777215.f, -8388608.5f, 3.1415927f, 1234.567f, 1e20f, -1e-20f };
  if (T) for (int e = -149; e < 128; e += 3) for (float m : { 1.f, 1.2345678f, 1.9999999f, -1.5f }) v.push_back(ldexpf(m, e)); return v; }
// every pair of values in every lane, with different neighbours
template<class X, class F> static void pairs(const std::vector<X>& v, F f) { size_t n = v.size(), P = n * n; for (size_t p = 0; p < P; p++) { X a[W], b[W]; for (int j = 0; j < W; j++) { size_t q = (p + j * (n + 1)) % P; a[j] = v[q / n]; b[j] = v[q % n]; } f(a, b); n_states++; n_trans += W; } }
template<class X, class F> static void singles(const std::vector<X>& v, F f) { size_t n = v.size(); for (size_t p = 0; p < n; p++) { X a[W]; for (int j = 0; j < W; j++) a[j] = v[(p + 5 * j) % n]; f(a); n_states++; n_trans += W; } }
// ------------------------------------------------------------------ integers
#define LANE(key, cond, got, want, ...) do { if (!(cond)) BAD("%s: lane %d gives %d, not %d, for " , key, j, (int)(got), (int)(want)); } while (0)
static void two(const char* key, int j, int got, int want, int a, int b) { if (got != want) BAD("%s: lane %d of %d,%d gives %d instead of %d", key, j, a, b, got, want); }
static void one(const char* key, int j, int got, int want, int a) { if (got != want) BAD("%s: lane %d of %d gives %d instead of %d", key, j, a, got, want); }
static bool fits(long long x) { return x >= INT_MIN && x <= INT_MAX; }
static void int_ops(bool T) {
  auto v = ints(T);
  #define LOOP for (int j = 0; j < W; j++)
  // where an operation is not defined in C for one lane, that lane is given harmless operands
  #define BIN(op, def, expr) pairs(v, [&](int* A, int* Bb) { int a0[W], b0[W]; LOOP { long long a = A[j], b = Bb[j]; bool ok = (def); a0[j] = ok ? A[j] : 6; b0[j] = ok ? Bb[j] : 3; } \
    VI a = VIof(a0), b = VIof(b0), c = *hide(&a) op *hide(&b); VI d = a; d op##= *hide(&b); LOOP { long long a_ = a0[j], b_ = b0[j]; (void)a_; (void)b_; int w = (int)(expr); two(#op, j, c[j], w, a0[j], b0[j]); two(#op "=", j, d[j], w, a0[j], b0[j]); if (a(j) != a0[j] || b(j) != b0[j]) BAD("operand: %s changes its operands", #op); } })
  BIN(+, fits(a + b), a_ + b_); BIN(-, fits(a - b), a_ - b_); BIN(*, fits(a * b), a_ * b_);
  BIN(/, b != 0 && fits(a / b), a_ / b_); BIN(%, b != 0 && fits(a / b), a_ % b_);
  BIN(^, true, a_ ^ b_); BIN(&, true, a_ & b_); BIN(|, true, a_ | b_);
  BIN(<<, b >= 0 && b < 32 && a >= 0 && fits(a << b), a_ << b_); BIN(>>, b >= 0 && b < 32, a_ >> b_);
  #define LOG(op) pairs(v, [&](int* A, int* Bb) { VI a = VIof(A), b = VIof(Bb), c = *hide(&a) op *hide(&b); LOOP two(#op, j, c[j], (A[j] op Bb[j]) ? -1 : 0, A[j], Bb[j]); })
  LOG(<); LOG(>); LOG(==); LOG(!=); LOG(<=); LOG(>=); LOG(&&); LOG(||);
  singles(v, [&](int* A) { VI a = VIof(A), p = +*hide(&a), t = ~*hide(&a), n = !*hide(&a); LOOP { one("+", j, p[j], A[j], A[j]); one("~", j, t[j], ~A[j], A[j]); one("!", j, n[j], A[j] ? 0 : -1, A[j]); }
    int s[W]; LOOP s[j] = A[j] == INT_MIN ? 5 : A[j]; VI b = VIof(s), m = -*hide(&b), ab = abs(*hide(&b)); LOOP { one("negate", j, m[j], -s[j], s[j]); one("abs", j, ab[j], s[j] < 0 ? -s[j] : s[j], s[j]); }
    int u[W]; LOOP u[j] = A[j] == INT_MIN || A[j] == INT_MAX ? 9 : A[j]; VI c = VIof(u); VI r = c++; LOOP { one("x++", j, r[j], u[j], u[j]); one("x++ after", j, c[j], u[j] + 1, u[j]); } r = ++c; LOOP { one("++x", j, r[j], u[j] + 2 > u[j] ? u[j] + 2 : u[j] + 2, u[j]); }
    c = VIof(u); r = c--; LOOP { one("x--", j, r[j], u[j], u[j]); one("x-- after", j, c[j], u[j] - 1, u[j]); } c = VIof(u); r = --c; LOOP { one("--x", j, r[j], u[j] - 1, u[j]); one("--x after", j, c[j], u[j] - 1, u[j]); }
    VI k(A[0]); LOOP one("broadcast", j, k[j], A[0], A[0]); k = VIof(A); LOOP one("copy", j, k(j), A[j], A[j]); VF f = V(k); LOOP { float x = f[j]; if (bf(x).i != A[j] && x == x) BAD("reinterpret: lane %d of %08x reads %08x as a float", j, A[j], bf(x).i); } VI back = f; LOOP one("reinterpret", j, back[j], A[j], A[j]);
    VI z = VIof(A); for (int q = 0; q < W; q++) { z[q] = 77; LOOP one("element", j, z(j), j <= q ? 77 : A[j], A[j]); } });
}
static int mkvi_args[W];
template<size_t... I> static VI mkvi(std::index_sequence<I...>) { return VI(mkvi_args[I]...); }
template<size_t... I> static VF mkvf(const float* f, std::index_sequence<I...>) { return VF(f[I]...); }
static void constructors() { for (int q = 0; q < W; q++) { int e[W]; float f[W]; LOOP { e[j] = mkvi_args[j] = (j + q) % W * 1000 + 7; f[j] = (j + q) % W * 1000 + 7.5f; } VI a = mkvi(LANES()); VF b = mkvf(f, LANES()); LOOP { one("constructor", j, a[j], e[j], e[j]); if (b[j] != f[j]) BAD("constructor: lane %d of the float constructor is %g, not %g", j, b[j], f[j]); } n_states++; n_trans += 2 * W; } }
// ------------------------------------------------------------------ masks
static void masks(bool T) {
  static const int nz[] = { -1, 1, INT_MIN, 0x7fc00000, 2, (int)0xff800000u };
  for (int x : nz) for (unsigned m = 0; m < 1u << W; m++) { int a[W]; LOOP a[j] = m >> j & 1 ? x : 0; V v = Vof(a); int y = any(*hide(&v)), l = all(*hide(&v)); if (!!y != (m != 0)) BAD("any: of lanes %x holding %08x is %d", m, x, y); if (!!l != (m == (1u << W) - 1)) BAD("all: of lanes %x holding %08x is %d", m, x, l); n_states++; n_trans += 2; }
  for (unsigned m = 0; m < 1u << W; m++) { int c[W], a[W], b[W]; LOOP { c[j] = m >> j & 1 ? -1 : 0; a[j] = 0x7f800000 + j * 0x01010101 + m; b[j] = ~(j * 0x00f0f0f1 + (int)m * 3); } VI vc = VIof(c); V va = Vof(a), vb = Vof(b);
    VI z = czero(*hide(&vc), *hide(&va)), n = notczero(*hide(&vc), *hide(&va)), g = merge(*hide(&vc), *hide(&va), *hide(&vb)); LOOP { int s = m >> j & 1; two("czero", j, z[j], s ? 0 : a[j], c[j], a[j]); two("notczero", j, n[j], s ? a[j] : 0, c[j], a[j]); two("merge", j, g[j], s ? a[j] : b[j], a[j], b[j]); } n_states++; n_trans += 3 * W; }
}
// ------------------------------------------------------------------ permutations
static int src[W]; static V vsrc;
static void srcset(int salt) { LOOP src[j] = (j + 1) * 0x01030507 ^ salt; vsrc = Vof(src); }
template<size_t n> static void spl() { VI s = N::splat<(int)n>(*hide(&vsrc)); LOOP one("splat", j, s[j], src[n], n); n_states++; n_trans += W; }
template<size_t... I> static void spl_all(std::index_sequence<I...>) { int d[] = { (spl<I>(), 0)... }; (void)d; }
template<class M, size_t... I> static void shf_(std::index_sequence<I...>) { VI s = N::shuffle<M::at(I)...>(*hide(&vsrc)); LOOP one(M::name(), j, s[j], src[M::at(j)], M::at(j)); n_states++; n_trans += W; }
template<class M> static void shf() { shf_<M>(LANES()); }
template<int R> struct Rot { static constexpr int at(int k) { return (k + R) % W; } static const char* name() { return "shuffle rotate"; } };
template<int R> struct Xor { static constexpr int at(int k) { return k ^ R; } static const char* name() { return "shuffle exchange"; } };
template<int R> struct One { static constexpr int at(int k) { return k == R / W ? R % W : k; } static const char* name() { return "shuffle one lane"; } };
template<int R> struct Mul { static constexpr int at(int k) { return (k * (2 * (R % (W / 2)) + 1) + R / (W / 2)) % W; } static const char* name() { return "shuffle stride"; } };
template<int R> struct Dig { static constexpr int at(int k) { return (R >> 2 * (k % 4) & 3) + k / 4 * 4 % W; } static const char* name() { return "shuffle"; } };
template<int R> struct Low { static constexpr int at(int k) { return (R >> 2 * (k % 4) & 3) * (W / 4) + (k * 7 + R) % (W / 4); } static const char* name() { return "shuffle spread"; } };
template<template<int> class M, size_t... I> static void shfs(std::index_sequence<I...>) { int d[] = { (shf<M<(int)I>>(), 0)... }; (void)d; }
template<size_t... I> static void transpose_(V* a, std::index_sequence<I...>) { N::transpose(a[I]...); }
static void perms() {
  for (int salt : { 0, -1 }) { srcset(salt); spl_all(LANES()); shfs<Rot>(LANES()); shfs<Xor>(LANES()); shfs<One>(std::make_index_sequence<W * W>()); shfs<Mul>(std::make_index_sequence<W * W / 2>()); shfs<Dig>(std::make_index_sequence<256>()); shfs<Low>(std::make_index_sequence<256>()); }
  int a[W], b[W]; LOOP { a[j] = 100 + j; b[j] = -7 * j - 3; } V va = Vof(a), vb = Vof(b); swap(*hide(&va), *hide(&vb)); VI ia = va, ib = vb; LOOP { one("swap", j, ia[j], b[j], j); one("swap", j, ib[j], a[j], j); }
  V m[W]; for (int r = 0; r < W; r++) { int x[W]; LOOP x[j] = r * 1000 + j * 17 + 0x7f800000; m[r] = Vof(x); } transpose_(hide(&m[0]), LANES()); for (int r = 0; r < W; r++) { VI x = m[r]; LOOP two("transpose", j, x[j], j * 1000 + r * 17 + 0x7f800000, r, j); } n_states += 2; n_trans += W * W + 2 * W;
}
// ------------------------------------------------------------------ memory
struct Mem { int* base; int n; Mem() { n = 16384; base = (int*)mmap(0, n * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect((char*)base + n * 4, 4096, PROT_NONE); } ~Mem() { munmap(base, n * 4 + 4096); }
  void fill() { for (int k = 0; k < n; k++) base[k] = k * 0x9e3779b1u ^ 0x5a5a1234; } int was(int k) const { return k * 0x9e3779b1u ^ 0x5a5a1234; } };
static Mem* M;
static void untouched(const char* key, const std::vector<char>& mine) { for (int k = 0; k < M->n; k++) if (!mine[k] && M->base[k] != M->was(k)) BAD("%s: writes the word at offset %d that it has no business with", key, k); }
static void flat(int align) {
  const int st = align / 4;
  for (int o = 0; o <= 4 * W; o += st) { int *p = M->base + 1024 + o, *q = M->base + 2048 + 3 * st; std::vector<char> mine(M->n, 0); auto own = [&](int* x) { for (int k = 0; k < W; k++) mine[x - M->base + k] = 1; };
    M->fill(); int c[W]; LOOP c[j] = p[j]; V a; N::CAT3(load_,VW,x1)(hide(p), a); VI ia = a; LOOP one("load_x1", j, ia[j], c[j], o); untouched("load_x1", mine);
    int x[W]; LOOP x[j] = 0x7fa00000 + j * 99; a = Vof(x); own(p); N::CAT3(store_,VW,x1)(*hide(&a), hide(p)); LOOP one("store_x1", j, p[j], x[j], o); untouched("store_x1", mine);
    M->fill(); N::CAT3(stream_,VW,x1)(*hide(&a), hide(p)); __sync_synchronize(); hide(p); LOOP one("stream_x1", j, p[j], x[j], o); untouched("stream_x1", mine);
    M->fill(); N::CAT3(clear_,VW,x1)(hide(p)); hide(p); LOOP one("clear_x1", j, p[j], 0, o); untouched("clear_x1", mine);
    M->fill(); LOOP c[j] = q[j]; N::CAT3(copy_,VW,x1)(hide(p), hide(q)); hide(p); LOOP one("copy_x1", j, p[j], c[j], o); untouched("copy_x1", mine);
    M->fill(); LOOP x[j] = p[j]; own(q); N::CAT3(swap_,VW,x1)(hide(p), hide(q)); hide(p); LOOP { one("swap_x1", j, p[j], c[j], o); one("swap_x1", j, q[j], x[j], o); } untouched("swap_x1", mine);
    float* f = (float*)p; float v[W], w[W]; LOOP { v[j] = 1.5f * j - 3; w[j] = 0.25f * j + 7; } VF vf = VFof(v);
    #define RMW(name, op) M->fill(); LOOP f[j] = w[j]; std::fill(mine.begin(), mine.end(), 0); own(p); N::CAT4(name,_,VW,x1)(hide(f), *hide(&vf)); hide(f); LOOP if (!eqnum(f[j], w[j] op v[j])) BAD(#name "_x1: lane %d is %g, not %g", j, f[j], w[j] op v[j]); untouched(#name "_x1", mine);
    RMW(increment, +) RMW(decrement, -) RMW(scale, *)
    n_states += 9; n_trans += 9 * W; }
}
// the W places a transposed access addresses: several arrangements, all aligned as the interface asks
static void arrange(int kind, int align, int words, int rows, int* at) { int st = align / 4, need = (words + st - 1) / st * st; for (int r = 0; r < rows; r++) { int k = kind == 0 ? r : kind == 1 ? rows - 1 - r : kind == 2 ? r * 7 % rows : r ^ 1; int step = kind == 3 ? need + st : kind == 1 ? need + 3 * st : need; at[r] = 1024 + (kind == 2 ? st : 0) + k * step; }
  if (kind == 4) for (int r = 0; r < rows; r++) at[r] = M->n - (rows - r) * need; }   // the last one ends where memory ends
template<size_t... R> static void ld(int K, int** p, V* b, std::index_sequence<R...>) {
  switch (K) { case 1: N::CAT3(load_,VW,x1_tr)(p[R]..., b[0]); break; case 2: N::CAT3(load_,VW,x2_tr)(p[R]..., b[0], b[1]); break; case 3: N::CAT3(load_,VW,x3_tr)(p[R]..., b[0], b[1], b[2]); break; case 4: N::CAT3(load_,VW,x4_tr)(p[R]..., b[0], b[1], b[2], b[3]); break;
#if VW>=8
  case 8: N::CAT3(load_,VW,x8_tr)(p[R]..., b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]); break;
#endif
#if VW==16
  case 16: N::load_16x16_tr(p[R]..., b[R]...); break;
#endif
  } }
template<size_t... R> static void sto(int K, int** p, V* b, std::index_sequence<R...>) {
  switch (K) { case 1: N::CAT3(store_,VW,x1_tr)(b[0], p[R]...); break; case 2: N::CAT3(store_,VW,x2_tr)(b[0], b[1], p[R]...); break; case 3: N::CAT3(store_,VW,x3_tr)(b[0], b[1], b[2], p[R]...); break; case 4: N::CAT3(store_,VW,x4_tr)(b[0], b[1], b[2], b[3], p[R]...); break;
#if VW>=8
  case 8: N::CAT3(store_,VW,x8_tr)(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], p[R]...); break;
#endif
#if VW==16
  case 16: N::store_16x16_tr(b[R]..., p[R]...); break;
#endif
  } }
static void tr() {
  for (int K : { 1, 2, 3, 4, 8, 16 }) { if (K > W && K > 4) continue; int al = K == 1 ? 4 : K == 2 ? 8 : W == 4 ? 16 : W == 8 ? (K == 8 ? 32 : 16) : 64;
    for (int kind = 0; kind < 5; kind++) { int at[W]; arrange(kind, al, K, W, at); int* p[W]; LOOP p[j] = M->base + at[j]; char key[32];
      // a load of three may read the fourth word of the aligned group
      M->fill(); V b[16]; for (auto& x : b) x = Vof(p[0] - 64); snprintf(key, sizeof key, "load_x%d_tr", K); ld(K, hide(&p[0]), hide(&b[0]), LANES()); for (int k = 0; k < K; k++) { VI x = b[k]; LOOP if (x[j] != M->was(at[j] + k)) BAD("%s: lane %d of vector %d is not word %d of place %d (arrangement %d)", key, j, k, k, j, kind); } std::vector<char> mine(M->n, 0); untouched(key, mine);
      snprintf(key, sizeof key, "store_x%d_tr", K); for (int k = 0; k < 16; k++) { int x[W]; LOOP x[j] = k * 5000 + j * 3 + 0x7f900000; b[k] = Vof(x); } LOOP for (int k = 0; k < K; k++) mine[at[j] + k] = 1; sto(K, hide(&p[0]), hide(&b[0]), LANES()); hide(M->base); LOOP for (int k = 0; k < K; k++) if (p[j][k] != k * 5000 + j * 3 + 0x7f900000) BAD("%s: word %d of place %d is not lane %d of vector %d (arrangement %d)", key, k, j, j, k, kind); untouched(key, mine);
      n_states += 2; n_trans += 2 * K * W; } }
}
#if VW==16
template<size_t... R> static void pp(int** p, V* b, bool st, std::index_sequence<R...>) { if (st) N::store_16x16_tr_p(b[R]..., p[R]...); else N::load_16x16_tr_p(p[R]..., b[R]...); }
static void packed() { for (int K : { 8, 16 }) for (int kind = 0; kind < 5; kind++) { int at[16]; arrange(kind, 64, 16, K, at); int* p[16]; for (int j = 0; j < K; j++) p[j] = M->base + at[j]; M->fill(); V b[16]; for (auto& x : b) x = Vof(M->base);
    auto go = [&](bool st) { if (K == 16) { pp(p, b, st, LANES()); return; } if (st) N::store_16x8_tr_p(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]); else N::load_16x8_tr_p(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]); };
    auto where = [&](int k, int l) { return at[k / 8 * 8 + l / 2] + l % 2 * 8 + k % 8; };   // two particles of eight words per place, eight places per group
    hide(&p[0]); go(false); for (int k = 0; k < K; k++) { VI x = b[k]; for (int l = 0; l < 16; l++) if (x[l] != M->was(where(k, l))) BAD("load_x%d_tr_p: lane %d of vector %d is wrong (arrangement %d)", K, l, k, kind); } std::vector<char> mine(M->n, 0); untouched("load_tr_p", mine);
    for (int k = 0; k < K; k++) { int x[16]; for (int l = 0; l < 16; l++) { x[l] = k * 5000 + l * 3 + 0x7f900000; mine[where(k, l)] = 1; } b[k] = Vof(x); } go(true); hide(M->base); for (int k = 0; k < K; k++) for (int l = 0; l < 16; l++) if (M->base[where(k, l)] != k * 5000 + l * 3 + 0x7f900000) BAD("store_x%d_tr_p: lane %d of vector %d is in the wrong place (arrangement %d)", K, l, k, kind); untouched("store_tr_p", mine); n_states += 2; n_trans += 32 * K; } }
#endif
// ------------------------------------------------------------------ floats
static void f2(const char* key, int j, float got, float want, float a, float b) { if (!same(got, want)) BAD("%s: lane %d of %.9g,%.9g gives %.9g instead of %.9g", key, j, a, b, got, want); }
static void float_ops(bool T) {
  auto v = floats(T);
  #define FBIN(op) pairs(v, [&](float* A, float* Bb) { VF a = VFof(A), b = VFof(Bb), c = *hide(&a) op *hide(&b); VF d = a; d op##= *hide(&b); LOOP { volatile float x = A[j], y = Bb[j]; float w = x op y; f2(#op, j, c[j], w, x, y); f2(#op "=", j, d[j], w, x, y); } })
  FBIN(+); FBIN(-); FBIN(*); FBIN(/);
  #define FLOG(op) pairs(v, [&](float* A, float* Bb) { VF a = VFof(A), b = VFof(Bb); VI c = *hide(&a) op *hide(&b); LOOP { volatile float x = A[j], y = Bb[j]; int w = (x op y) ? -1 : 0; if (c[j] != w) BAD("%s: lane %d of %.9g,%.9g gives %d", #op, j, A[j], Bb[j], c[j]); } })
  FLOG(<); FLOG(>); FLOG(==); FLOG(!=); FLOG(<=); FLOG(>=); FLOG(&&); FLOG(||);
  singles(v, [&](float* A) { VF a = VFof(A), p = +*hide(&a), m = -*hide(&a); VI n = !*hide(&a); LOOP { f2("+", j, p[j], A[j], A[j], 0); if (!eqnum(m[j], -A[j])) BAD("negate: lane %d of %.9g gives %.9g", j, A[j], m[j]); if (n[j] != (A[j] == 0 ? -1 : 0)) BAD("!: lane %d of %.9g gives %d", j, A[j], n[j]); }
    VF c = VFof(A), r = c++; LOOP { f2("x++", j, r[j], A[j], A[j], 0); f2("x++ after", j, c[j], A[j] + 1, A[j], 0); } c = VFof(A); r = ++c; LOOP { f2("++x", j, r[j], A[j] + 1, A[j], 0); f2("++x after", j, c[j], A[j] + 1, A[j], 0); }
    c = VFof(A); r = c--; LOOP { f2("x--", j, r[j], A[j], A[j], 0); f2("x-- after", j, c[j], A[j] - 1, A[j], 0); } c = VFof(A); r = --c; LOOP { f2("--x", j, r[j], A[j] - 1, A[j], 0); f2("--x after", j, c[j], A[j] - 1, A[j], 0); }
    VF k(A[0]); LOOP f2("broadcast", j, k[j], A[0], A[0], 0); k = a; LOOP f2("copy", j, k(j), A[j], A[j], 0); for (int q = 0; q < W; q++) { k[q] = 2.5f; LOOP f2("element", j, k(j), j <= q ? 2.5f : A[j], A[j], 0); } });
  auto iv = ints(T); pairs(iv, [&](int* A, int* Bb) { VI m = VIof(A); VF a = V(VIof(Bb)); VI c = V(clear_bits(*hide(&m), *hide(&a))), s = V(set_bits(*hide(&m), *hide(&a))), t = V(toggle_bits(*hide(&m), *hide(&a))); LOOP { two("clear_bits", j, c[j], Bb[j] & ~A[j], A[j], Bb[j]); two("set_bits", j, s[j], Bb[j] | A[j], A[j], Bb[j]); two("toggle_bits", j, t[j], Bb[j] ^ A[j], A[j], Bb[j]); } });
}
static void fn1(const char* key, const std::vector<float>& v, VF (*f)(const VF&), double (*g)(double), double rel) { singles(v, [&](float* A) { float x[W]; LOOP x[j] = A[j]; VF a = VFof(x), r = f(*hide(&a)); LOOP { double w = g(x[j]); if (!(rel == 0 ? same(r[j], (float)w) : close(r[j], w, rel))) BAD("%s: lane %d of %.9g gives %.9g instead of %.9g", key, j, x[j], r[j], w); } }); }
static void fn2(const char* key, const std::vector<float>& v, VF (*f)(const VF&, const VF&), double (*g)(double, double), double rel) { pairs(v, [&](float* A, float* Bb) { VF a = VFof(A), b = VFof(Bb), r = f(*hide(&a), *hide(&b)); LOOP { double w = g(A[j], Bb[j]); if (!(rel == 0 ? same(r[j], (float)w) : close(r[j], w, rel))) BAD("%s: lane %d of %.9g,%.9g gives %.9g instead of %.9g", key, j, A[j], Bb[j], r[j], w); } }); }
static void math_fns(bool T) {
  auto v = floats(T);
  #define F1(fn, rel) fn1(#fn, v, [](const VF& a) { return VF(N::fn(a)); }, [](double x) -> double { return ::fn(x); }, rel);
  F1(acos, 2e-6) F1(asin, 2e-6) F1(atan, 2e-6) F1(ceil, 0) F1(cos, 2e-6) F1(cosh, 2e-6) F1(exp, 2e-6) F1(fabs, 0) F1(floor, 0) F1(log, 2e-6) F1(log10, 2e-6) F1(sin, 2e-6) F1(sinh, 2e-6) F1(sqrt, 0) F1(tan, 2e-6) F1(tanh, 2e-6)
  #define F2(fn, rel) fn2(#fn, v, [](const VF& a, const VF& b) { return VF(N::fn(a, b)); }, [](double x, double y) -> double { return ::fn(x, y); }, rel);
  F2(atan2, 2e-6) F2(pow, 4e-6) F2(fmod, 0) F2(copysign, 0)
}
static std::vector<float> grid(bool T, int e0, int e1) { std::vector<float> v; for (int e = e0; e < e1; e += T ? 1 : e + 3 < e1 ? 3 : 1) for (int m = 0; m < (T ? 64 : 16); m++) v.push_back(ldexpf(1 + m / (T ? 64.f : 16.f) + 1e-6f * m, e)); return v; }
static VF rsq(const VF& a) { return N::rsqrt(a); } static VF rc(const VF& a) { return N::rcp(a); } static double rsq_(double x) { return 1 / ::sqrt(x); } static double rc_(double x) { return 1 / x; }
// the refinement steps multiply by the cube (square) of the first approximation; that is representable in these ranges
#if defined V1 || defined USE_V4_PORTABLE || defined USE_V8_PORTABLE || defined USE_V16_PORTABLE
# define OUT ""
#else
# define OUT "-range"
#endif
static void range(bool T, bool root) { for (int hi = 0; hi < 2; hi++) { if (root) fn1("rsqrt" OUT, grid(T, hi ? 84 : -125, hi ? 125 : -84), rsq, rsq_, 1e-6); else fn1("rcp" OUT, grid(T, hi ? 62 : -125, hi ? 125 : -62), rc, rc_, 1e-6); } }
static void approx(bool T) {
  auto v = grid(T, -125, 125);
  fn1("rsqrt_approx", v, [](const VF& a) { return VF(N::rsqrt_approx(a)); }, rsq_, 1e-3); fn1("rcp_approx", v, [](const VF& a) { return VF(N::rcp_approx(a)); }, rc_, 1e-3);
  fn1("rsqrt", grid(T, -84, 84), rsq, rsq_, 1e-6); fn1("rcp", grid(T, -62, 62), rc, rc_, 1e-6);
  std::vector<float> w = { 0.f, 1.f, -1.f, 0.3f, -2.7f, 1e-4f, 1234.5f, -9e5f, 1e-20f, 3e15f, 0.99999994f };
  for (float c0 : w) pairs(w, [&](float* A, float* Bb) { float C[W]; LOOP C[j] = c0 * (1 + j % 3); VF a = VFof(A), b = VFof(Bb), c = VFof(C), x = fma(*hide(&a), *hide(&b), *hide(&c)), y = fms(*hide(&a), *hide(&b), *hide(&c)), z = fnms(*hide(&a), *hide(&b), *hide(&c)); LOOP { double p = (double)A[j] * Bb[j], q = C[j], t = 1.3e-7 * (::fabs(p) + ::fabs(q)); if (!close(x[j], p + q, 0, t)) BAD("fma: lane %d of %g,%g,%g gives %.9g", j, A[j], Bb[j], C[j], x[j]); if (!close(y[j], p - q, 0, t)) BAD("fms: lane %d of %g,%g,%g gives %.9g", j, A[j], Bb[j], C[j], y[j]); if (!close(z[j], q - p, 0, t)) BAD("fnms: lane %d of %g,%g,%g gives %.9g", j, A[j], Bb[j], C[j], z[j]); } });
#if VW==4
  std::vector<float> u = { -1, -0.75f, -0.3f, 0, 0.1f, 0.5f, 0.9f, 1 }; for (float x : u) for (float y : u) for (float z : u) { VF l(x, y, z, 99.f), h(5.f); trilinear(*hide(&l), *hide(&h)); for (int k = 0; k < 8; k++) { double e = (k & 1 ? 1. + x : 1. - x) * (k & 2 ? 1. + y : 1. - y) * (k & 4 ? 1. + z : 1. - z); float g = k < 4 ? l[k] : h[k - 4]; if (!close(g, e, 1e-6, 1e-7)) BAD("trilinear: weight %d at %g,%g,%g is %g", k, x, y, z, g); } n_states++; n_trans += 8; }
#endif
}
extern "C" void rank_main(int) {
  bool T = vmc_par(1) != 0; Mem mem; M = &mem;
  switch ((int)vmc_par(0)) { case 0: int_ops(T); constructors(); break; case 1: masks(T); break; case 2: perms(); break; case 3: flat(W == 4 ? 16 : W == 8 ? 32 : 64); break; case 4: tr();
#if VW==16
    packed();
#endif
    break; case 5: float_ops(T); break; case 6: math_fns(T); break; case 7: approx(T); break; case 8: range(T, true); break; case 9: range(T, false); break; }
  vmc_count("states", n_states); vmc_count("transitions", n_trans); vmc_count("distinct", n_states);
}
