// C19: random numbers. The oracle is an independent SFMT-11213 with a byte cursor, the documented lattices and
// intervals, and the exact distributions; raw words are injected by overwriting the generator's current block.
#include "deck.h"
static double n_states, n_trans;
#define BAD vmc_fail
// ------------------------------------------------------------------ reference generator
struct Ref { uint32_t u[352]; unsigned cur;
  void seed(int s) { u[0] = (uint32_t)s; for (int n = 1; n < 352; n++) u[n] = 1812433253u * (u[n - 1] ^ (u[n - 1] >> 30)) + n;
    static const uint32_t par[4] = { 0x00000001u, 0x00000000u, 0xe8148000u, 0xd0c7afa3u }; int b = 0; for (int n = 0; n < 4; n++) b ^= __builtin_parity(u[n] & par[n]);
    if (!b) u[0] ^= 1; cur = 1408; }
  static void shl(uint32_t* o, const uint32_t* a, int by) { unsigned __int128 v; memcpy(&v, a, 16); v <<= 8 * by; memcpy(o, &v, 16); }
  static void shr(uint32_t* o, const uint32_t* a, int by) { unsigned __int128 v; memcpy(&v, a, 16); v >>= 8 * by; memcpy(o, &v, 16); }
  void next() { static const uint32_t msk[4] = { 0xeffff7fbu, 0xffffffefu, 0xdfdfbfffu, 0x7fffdbfdu }; const int N = 88, M = 68;
    for (int n = 0; n < N; n++) { uint32_t *a = u + 4 * n, *b = u + 4 * ((n + M) % N), *c = u + 4 * ((n + N - 2) % N), *d = u + 4 * ((n + N - 1) % N), x[4], y[4]; shl(x, a, 3); shr(y, c, 3);
      for (int k = 0; k < 4; k++) a[k] ^= x[k] ^ ((b[k] >> 7) & msk[k]) ^ y[k] ^ (d[k] << 14); } cur = 0; }
  uint64_t draw(unsigned sz) { cur = (cur + sz - 1) / sz * sz; if (cur >= 1408) next(); uint64_t v = 0; memcpy(&v, (char*)u + cur, sz); cur += sz; return v; } };
// ------------------------------------------------------------------ word injection
static rng_t* J; static uint32_t* JW; static int JN;
static bool inject_setup() { rng_t* a = new_rng(20); std::vector<uint32_t> w(352); for (auto& x : w) x = u32rand(a); delete_rng(a);
  J = new_rng(20); u32rand(J); JW = NULL; JN = 0; uint32_t* base = (uint32_t*)J; for (int o = 0; o < 64 && !JW; o++) if (!memcmp(base + o, w.data(), 4 * 300)) JW = base + o; if (!JW) return false; JW += 1; JN = 351; return true; }
static inline void inject_reset() { seed_rng(J, 20); u32rand(J); }   // the next JN words drawn are JW[0..JN-1]
static inline void inject_reset64() { seed_rng(J, 20); u64rand(J); } // the next words drawn are JW[1..JN-1]
// ------------------------------------------------------------------ single precision conversions
static void fconv(uint64_t lo, uint64_t hi) {
  std::vector<float> x(JN); 
  for (int v = 0; v < 4; v++) { uint64_t half = 0; 
    for (uint64_t w = lo; w < hi; w += JN) { int m = (int)std::min<uint64_t>(JN, hi - w); inject_reset(); for (int k = 0; k < m; k++) JW[k] = (uint32_t)(w + k);
      (v == 0 ? frand_fill : v == 1 ? frand_c0_fill : v == 2 ? frand_c1_fill : frand_c_fill)(J, x.data(), 1, m);
      for (int k = 0; k < m; k++) { uint32_t u = (uint32_t)(w + k); double f = x[k]; bool ok;
        if (v == 0) ok = f * 16777216. == 2. * (u >> 9) + 1;
        else { double z = f * 16777216. - (double)(u >> 8); ok = v == 1 ? z == 0 : v == 2 ? z == 1 : (z == 0 || z == 1); if (v == 3) { half += z == 1; if ((u & 255) == 255) { if (half != 128) BAD("bias: frand_c rounds %d of the 256 words around %08x up", (int)half, u); half = 0; } } }
        if (!ok) BAD("value: frand%s of raw word %08x is %.9g", v == 0 ? "" : v == 1 ? "_c0" : v == 2 ? "_c1" : "_c", u, f); } n_trans += m; }
    n_states += hi - lo; }
  // endpoints, through the single-value entry points
  struct { uint32_t u; int v; double want; } ep[] = { { 0, 3, 0. }, { 0xffffffffu, 3, 1. }, { 0, 1, 0. }, { 0xffffffffu, 2, 1. }, { 0, 2, 1. / 16777216 }, { 0xffffffffu, 1, 1 - 1. / 16777216 }, { 0, 0, 1. / 16777216 }, { 0xffffffffu, 0, 1 - 1. / 16777216 } };
  for (auto& e : ep) { inject_reset(); JW[0] = e.u; float f = e.v == 0 ? frand(J) : e.v == 1 ? frand_c0(J) : e.v == 2 ? frand_c1(J) : frand_c(J); n_trans++; if (f != e.want) BAD("endpoint: variant %d of raw word %08x is %.9g", e.v, e.u, f); }
  for (uint64_t w = lo; w < hi; w += 4099 * 64) { inject_reset(); uint32_t u = (uint32_t)w; for (int k = 0; k < 4; k++) JW[k] = u; float a[4] = { frand(J), frand_c0(J), frand_c1(J), frand_c(J) }, b[4]; inject_reset(); for (int k = 0; k < 4; k++) JW[k] = u; frand_fill(J, b, 1, 1); frand_c0_fill(J, b + 1, 1, 1); frand_c1_fill(J, b + 2, 1, 1); frand_c_fill(J, b + 3, 1, 1); n_trans += 4; if (memcmp(a, b, sizeof a)) BAD("fill: single and filled values of raw word %08x differ", u); }
}
// ------------------------------------------------------------------ double precision conversions
static void dconv(bool T) {
  std::vector<uint64_t> W; for (int b = 0; b < 64; b++) { W.push_back(1ull << b); W.push_back(~(1ull << b)); W.push_back((1ull << b) - 1); W.push_back(~((1ull << b) - 1)); }
  int B = T ? 11 : 9; for (int a = 0; a < (1 << B); a++) for (int c = 0; c < (1 << (T ? 14 : 13)); c++) for (int m = 0; m < 3; m++) { uint64_t mid = m == 0 ? 0 : m == 1 ? ~0ull : 0x5a5a5a5a5a5a5a5aull; uint64_t mask = ~0ull >> B & ~((1ull << (T ? 14 : 13)) - 1); W.push_back((uint64_t)a << (64 - B) | (mid & mask) | (uint64_t)c); }
  int per = (JN - 1) / 2; std::vector<double> x(per);
  for (int v = 0; v < 4; v++) for (size_t w = 0; w < W.size(); w += per) { int m = (int)std::min<size_t>(per, W.size() - w); inject_reset64(); memcpy(JW + 1, &W[w], 8 * m); (v == 0 ? drand_fill : v == 1 ? drand_c0_fill : v == 2 ? drand_c1_fill : drand_c_fill)(J, x.data(), 1, m);
    for (int k = 0; k < m; k++) { uint64_t u = W[w + k]; long double f = x[k]; long double S = 9007199254740992.L; bool ok; n_trans++; n_states++; if (v == 0) ok = f * S == 2.L * (u >> 12) + 1; else { long double z = f * S - (long double)(u >> 11); ok = v == 1 ? z == 0 : v == 2 ? z == 1 : (z == 0 || z == 1) ; } if (!ok) BAD("value: drand%s of raw word %016llx is %.17g", v == 0 ? "" : v == 1 ? "_c0" : v == 2 ? "_c1" : "_c", (unsigned long long)u, x[k]); } }
  for (int v = 0; v < 4; v++) for (int e = 0; e < 2; e++) { inject_reset64(); uint64_t u = e ? ~0ull : 0; memcpy(JW + 1, &u, 8); double f = v == 0 ? drand(J) : v == 1 ? drand_c0(J) : v == 2 ? drand_c1(J) : drand_c(J); long double S = 9007199254740992.L; long double want = v == 0 ? (e ? 1 - 1 / S : 1 / S) : v == 1 ? (e ? 1 - 1 / S : 0) : v == 2 ? (e ? 1 : 1 / S) : e; n_trans++; if (f != want) BAD("endpoint: double variant %d of raw word %016llx is %.17g", v, (unsigned long long)u, f); }
}
// ------------------------------------------------------------------ exponential
static void expo() {
  // every one of the 2^24 words that differ in their upper 24 bits
  std::vector<double> th; for (int k = 0; k < 400; k++) th.push_back(0.001 * pow(16000., k / 399.)); std::vector<double> cnt(th.size() + 1, 0); double sum = 0; std::vector<float> x(JN); double tot = 16777216.;
  for (uint32_t w = 0; w < (1u << 24); w += JN) { int m = (int)std::min<uint32_t>(JN, (1u << 24) - w); inject_reset(); for (int k = 0; k < m; k++) JW[k] = (w + k) << 8 | (hmix(w + k) & 255); frande_fill(J, x.data(), 1, m); for (int k = 0; k < m; k++) { float f = x[k]; n_trans++; if (!(f >= 0) || f > 40) BAD("range: frande gave %g", f); sum += f; cnt[std::lower_bound(th.begin(), th.end(), (double)f) - th.begin()]++; } }
  double c = 0; for (size_t k = 0; k < th.size(); k++) { c += cnt[k]; double p = c / tot, q = -expm1(-th[k]); n_trans++; if (fabs(p - q) > 1e-6) BAD("exponential: %.8f of all single-precision values are below %g, should be %.8f", p, th[k], q); } if (fabs(sum / tot - 1) > 1e-4) BAD("exponential: mean %g", sum / tot);
  n_states += tot; std::fill(cnt.begin(), cnt.end(), 0); int per = (JN - 1) / 2; std::vector<double> y(per); int R = 1 << 21;
  for (int w = 0; w < R; w += per) { int m = std::min(per, R - w); inject_reset64(); for (int k = 0; k < m; k++) { uint64_t u = (uint64_t)(w + k) << 43 | (1ull << 42); memcpy(JW + 1 + 2 * k, &u, 8); } drande_fill(J, y.data(), 1, m); for (int k = 0; k < m; k++) { n_trans++; if (!(y[k] >= 0) || y[k] > 40) BAD("range: drande gave %g", y[k]); cnt[std::lower_bound(th.begin(), th.end(), y[k]) - th.begin()]++; } }
  c = 0; for (size_t k = 0; k < th.size(); k++) { c += cnt[k]; double p = c / R, q = -expm1(-th[k]); if (fabs(p - q) > 2e-6) BAD("exponential: %.8f of the double-precision values are below %g, should be %.8f", p, th[k], q); } n_states += R;
}
// ------------------------------------------------------------------ normal: stratified first, second and third word
static void normal_(bool dbl, int jb, int part, int parts) {
  // emits partial histograms; the sum over the parts is judged by the host
  std::vector<double> th; for (int k = -160; k <= 160; k++) th.push_back(k * 0.03125); std::vector<double> cnt(th.size() + 1, 0); int low = dbl ? 10 : 8, Y = 16, Z = 16; double mx = 0, m2 = 0, m4 = 0, tot = 0;
  // words that stand for "the generator went on to another draw": two that are accepted at once, with values of their own
  auto put = [&](const uint64_t* w, int n) { if (!dbl) { inject_reset(); for (int k = 0; k < n; k++) JW[k] = (uint32_t)w[k]; return (double)frandn(J); } inject_reset64(); memcpy(JW + 1, w, 8 * n); return drandn(J); };
  uint64_t SA = dbl ? 0x0123456789abc800ull | 200 : 0x01234500ull | 80, SB = dbl ? 0x02468ace13579800ull | 201 : 0x02345600ull | 81, wa[8], wb[8]; for (int k = 0; k < 8; k++) wa[k] = SA, wb[k] = k ? SA : SB;
  double va = put(wa, 8), vb = put(wb, 8); auto count = [&](double v, double wt) { n_trans++; if (!(fabs(v) < 12)) BAD("range: a normal deviate is %g", v); tot += wt; if (fabs(v) > mx) mx = fabs(v); m2 += wt * v * v; m4 += wt * v * v * v * v; cnt[std::lower_bound(th.begin(), th.end(), v) - th.begin()] += wt; };
  for (int l = 0; l < (1 << low); l++) { if (l % parts != part) continue; for (int j = 0; j < (1 << jb); j++) { uint64_t g = hmix(((uint64_t)l << 30) + j), w[8]; for (int k = 3; k < 8; k++) w[k] = SA;
      if (!dbl) w[0] = ((((uint64_t)j << 32) / (1 << jb) + (g % ((1ull << 32) >> jb))) & ~255ull) | l; else w[0] = ((((uint64_t)j << (64 - jb)) | ((g << 8) >> jb)) & ~1023ull) | l;
      w[1] = SA; w[2] = SA; double v1 = put(w, 8); w[1] = SB; double v2 = put(w, 8); w[1] = SA; w[2] = SB; double v3 = put(w, 8);
      if (v1 == v2 && v1 == v3 && v1 != va) { count(v1, 1); continue; } // the first word settles it
      for (int y = 0; y < Y; y++) { uint64_t h2 = hmix(g + 12345 + y); w[1] = dbl ? ((uint64_t)y << 60) | (h2 >> 4) : ((uint64_t)y << 28) | (h2 & 0x0fffffff); w[2] = SA; v1 = put(w, 8); w[2] = SB; v2 = put(w, 8);
        if (v1 == va && v2 == vb) continue; // refused: the deviate is drawn afresh
        if (v1 == v2 && v1 != va) { count(v1, 1. / Y); continue; }
        for (int z = 0; z < Z; z++) { uint64_t h3 = hmix(h2 + 999 + z); w[2] = dbl ? ((uint64_t)z << 60) | (h3 >> 4) : ((uint64_t)z << 28) | (h3 & 0x0fffffff); v1 = put(w, 8); if (v1 != va) count(v1, 1. / (Y * Z)); } } } }
  n_states = n_trans; vmc_emit("hist", cnt.data(), cnt.size()); double mm[2] = { m2, m4 }; vmc_emit("mom", mm, 2); vmc_emit("th", th.data(), th.size());
}
// ------------------------------------------------------------------ draw sequences of every mix of types
typedef uint64_t (*drawf)(rng_t*, int fill); 
#define DR(pfx, type) static uint64_t d_##pfx(rng_t* r, int fill) { if (!fill) return (uint64_t)pfx##rand(r); type b[9]; memset(b, 0x55, sizeof b); pfx##rand_fill(r, b, 3, 1); type t = b[0]; memset(b, 0x55, sizeof(type)); for (size_t k = 0; k < sizeof b; k++) if (((char*)b)[k] != 0x55) BAD("fill: " #pfx "rand_fill wrote beyond its element"); return (uint64_t)t; }
DR(c, char) DR(uc, unsigned char) DR(h, short) DR(uh, unsigned short) DR(i, int) DR(ui, unsigned) DR(l, long) DR(ul, unsigned long) DR(i8, int8_t) DR(u8, uint8_t) DR(i16, int16_t) DR(u16, uint16_t) DR(i32, int32_t) DR(u32, uint32_t) DR(i64, int64_t) DR(u64, uint64_t)
static struct { drawf f; unsigned sz; int sg; const char* name; } DF[] = { { d_c, 1, 1, "c" }, { d_uc, 1, 0, "uc" }, { d_h, 2, 1, "h" }, { d_uh, 2, 0, "uh" }, { d_i, 4, 1, "i" }, { d_ui, 4, 0, "ui" }, { d_l, 8, 1, "l" }, { d_ul, 8, 0, "ul" }, { d_i8, 1, 1, "i8" }, { d_u8, 1, 0, "u8" }, { d_i16, 2, 1, "i16" }, { d_u16, 2, 0, "u16" }, { d_i32, 4, 1, "i32" }, { d_u32, 4, 0, "u32" }, { d_i64, 8, 1, "i64" }, { d_u64, 8, 0, "u64" } };
static void sequences(int depth, int first) {
  int seeds[] = { 0, 1, 7, -1, 0x7fffffff, 12345 }; rng_t* r = new_rng(0); Ref q;
  if (first < 0) { // long streams of one type, every seed of a range
    for (int s = -300; s <= 300; s++) { seed_rng(r, s); q.seed(s); n_states++; for (int k = 0; k < 1100; k++) { n_trans++; uint32_t a = u32rand(r), b = (uint32_t)q.draw(4); if (a != b) BAD("stream: word %d of seed %d is %08x, the generator's definition gives %08x", k, s, a, b); } }
    for (int t = 0; t < 16; t++) for (int s : seeds) { seed_rng(r, s); q.seed(s); n_states++; for (int k = 0; k < 3100; k++) { n_trans++; uint64_t a = DF[t].f(r, k & 1), b = q.draw(DF[t].sz) >> DF[t].sg; if (a != b) BAD("stream: %srand draw %d of seed %d is %llx, should be %llx", DF[t].name, k, s, (unsigned long long)a, (unsigned long long)b); } }
    delete_rng(r); return; }
  // every sequence of `depth` draws, starting at every cursor position near the end of a block and at its start
  long tot = 1; for (int i = 0; i < depth - 1; i++) tot *= 16;
  for (int off = 0; off < 19; off++) { int skip = off < 3 ? off : 1408 - 18 + (off - 3) + 1; for (long c = 0; c < tot; c++) { int s = seeds[(c + off) % 6]; static std::vector<uint8_t> junk(2000); seed_rng(r, s); q.seed(s); if (skip) { u8rand_fill(r, junk.data(), 1, skip); for (int k = 0; k < skip; k++) if (q.draw(1) != junk[k]) BAD("stream: u8rand_fill byte %d of seed %d", k, s); }
      long x = c; n_states++; for (int d = 0; d < depth; d++) { int t = d == 0 ? first : (int)(x % 16); if (d) x /= 16; n_trans++; uint64_t a = DF[t].f(r, (int)(c >> d) & 1), b = q.draw(DF[t].sz) >> DF[t].sg; if (a != b) BAD("mix: seed %d, after %d bytes, sequence %ld: draw %d (%srand) is %llx, should be %llx", s, skip, c, d, DF[t].name, (unsigned long long)a, (unsigned long long)b); } } }
  delete_rng(r);
}
// ------------------------------------------------------------------ permutations and shuffles
static int lcm_(int n) { int l = 1; for (int k = 2; k <= n; k++) { int a = l, b = k; while (b) { int t = a % b; a = b; b = t; } l = l / a * k; } return l; }
static void check_counts(const char* what, const std::map<std::vector<int>, long>& cnt, int n, long tot) { long f = 1; for (int k = 2; k <= n; k++) f *= k; if ((long)cnt.size() != f) BAD("reach: %s of %d elements reaches %zu of %ld orders", what, n, cnt.size(), f); for (auto& kv : cnt) if (kv.second != tot / f) BAD("bias: %s of %d elements gives one order %ld times of %ld, should be %ld", what, n, kv.second, tot, tot / f); }
static std::vector<int> do_shuffle(int n, int sz, int str, int pad) { static std::vector<unsigned char> b; b.assign(n * str + 64, 0); for (size_t k = 0; k < b.size(); k++) b[k] = (unsigned char)(hmix(k) | 1); std::vector<unsigned char> o; unsigned char* x = &b[0] + pad; for (int i = 0; i < n; i++) for (int k = 0; k < sz; k++) x[i * str + k] = k == 0 ? (unsigned char)(i & 255) : k == 1 ? (unsigned char)(i >> 8) : (unsigned char)hmix(i * 64 + k); o = b;
  void* ret = shuffle(J, x, sz, str, n); if (ret != x) BAD("return: shuffle does not return its argument"); std::vector<int> p(n); std::vector<char> seen(n, 0); for (int i = 0; i < n; i++) { int v = x[i * str]; if (sz > 1) v |= x[i * str + 1] << 8; else if (n > 256) v = i; if (v < 0 || v >= n || (seen[v] && n <= 256)) BAD("content: %d elements of size %d stride %d: slot %d holds no element or one twice", n, sz, str, i); seen[v] = 1; for (int k = 2; k < sz; k++) if (x[i * str + k] != (unsigned char)hmix(v * 64 + k)) BAD("content: element %d of size %d is torn", v, sz); p[i] = v; }
  for (size_t k = 0; k < b.size(); k++) { long r = (long)k - pad; bool in = r >= 0 && r < (long)n * str && r % str < sz; if (!in && b[k] != o[k]) BAD("gap: shuffle wrote byte %ld between or beyond the elements (size %d stride %d)", r, sz, str); } n_trans++; return p; }
static void perms(int n, bool shuf) {
  long L = lcm_(n), tot = 1; for (int k = 0; k < n - 1; k++) tot *= L; std::map<std::vector<int>, long> cnt; std::vector<int> x(n); 
  for (long c = 0; c < tot; c++) { long y = c; if (shuf) inject_reset64(); else inject_reset(); for (int k = 0; k < n - 1; k++) { double f = ((y % L) + 0.5) / L; y /= L; if (shuf) { uint64_t u = (uint64_t)(f * 18446744073709551616.); memcpy(JW + 1 + 2 * k, &u, 8); } else JW[k] = (uint32_t)(f * 4294967296.); }
    if (shuf) x = do_shuffle(n, 4, 4, 0); else { if (randperm(J, x.data(), n) != x.data()) BAD("return: randperm does not return its argument"); std::vector<char> s(n, 0); for (int v : x) { if (v < 0 || v >= n || s[v]) BAD("content: randperm(%d) is no permutation", n); s[v] = 1; } n_trans++; } cnt[x]++; n_states++; }
  check_counts(shuf ? "shuffle" : "randperm", cnt, n, tot);
}
static void bigperms() {
  for (int n = 0; n <= 70; n++) for (int shuf = 0; shuf < 2; shuf++) { std::set<std::vector<int> > got; int m = n ? n : 1; std::vector<int> x(n); for (int b = 0; b < m; b++) { double f = (b + 0.5) / m; if (shuf) { inject_reset64(); uint64_t u = (uint64_t)(f * 18446744073709551616.); memcpy(JW + 1, &u, 8); x = do_shuffle(n, 2, 2, 0); } else { inject_reset(); JW[0] = (uint32_t)(f * 4294967296.); randperm(J, x.data(), n); std::vector<char> s(n, 0); for (int v : x) { if (v < 0 || v >= n || s[v]) BAD("content: randperm(%d) is no permutation", n); s[v] = 1; } } got.insert(x); n_states++; } if ((int)got.size() != m) BAD("reach: %s of %d: %d equal slices of the first word give only %zu different orders", shuf ? "shuffle" : "randperm", n, m, got.size()); }
  // extreme words, element sizes, strides, alignments
  for (int n : { 0, 1, 2, 3, 5, 17, 300 }) for (int sz = 1; sz <= 24; sz++) for (int st : { sz, sz + 1, 2 * sz, sz + 3, 3 * sz, 64 }) for (int pat = 0; pat < 4; pat++) { int pad = (st % sz == 0 && (sz == 2 || sz == 4 || sz == 8)) ? 8 : 8 + pat; if (sz > 2 && n > 256 && 0) continue; inject_reset64(); if (pat < 3) for (int k = 0; k < JN; k++) JW[k] = pat == 0 ? 0 : pat == 1 ? (k < 40 ? 0xffffffffu : 5u * k) : 0x80000000u; do_shuffle(n, sz, st, pad); n_states++; }
  for (int n : { 1, 2, 3, 10, 255, 1000 }) for (int pat = 0; pat < 3; pat++) { inject_reset(); for (int k = 0; k < JN; k++) JW[k] = pat == 0 ? 0 : pat == 1 ? (k < 40 ? 0xffffffffu : 5u * k) : 0x80000000u; std::vector<int> x(n); randperm(J, x.data(), n); std::vector<char> s(n, 0); for (int v : x) { if (v < 0 || v >= n || s[v]) BAD("content: randperm(%d) is no permutation", n); s[v] = 1; } n_states++; }
}
// ------------------------------------------------------------------ fills of every float kind equal singles, any stride
static void fills() {
  rng_t *a = new_rng(3), *b = new_rng(3); 
#define FT(nm, type) for (int st = 1; st <= 3; st++) for (int n = 0; n <= 420; n += n < 20 ? 1 : 57) for (int pre = 0; pre < 9; pre++) { seed_rng(a, n + pre); seed_rng(b, n + pre); for (int k = 0; k < pre; k++) { u8rand(a); u8rand(b); } std::vector<type> x(n * st + 4, (type)77); if (nm##_fill(a, x.data(), st, n) != x.data()) BAD("return: " #nm "_fill"); n_states++; for (int k = 0; k < (int)x.size(); k++) { n_trans++; type want = (k % st == 0 && k / st < n) ? nm(b) : (type)77; if (memcmp(&x[k], &want, sizeof want)) BAD("fill: " #nm "_fill stride %d count %d: element %d is not the one the single draw gives", st, n, k); } if (u32rand(a) != u32rand(b)) BAD("fill: " #nm "_fill consumes a different amount"); }
  FT(frand, float) FT(frand_c0, float) FT(frand_c1, float) FT(frand_c, float) FT(drand, double) FT(drand_c0, double) FT(drand_c1, double) FT(drand_c, double) FT(frandn, float) FT(drandn, double) FT(frande, float) FT(drande, double) FT(u32rand, uint32_t) FT(i64rand, int64_t) FT(hrand, short)
  delete_rng(a); delete_rng(b);
}
// ------------------------------------------------------------------ pools
static void print_rng(const char* key, rng_t* r) { double d[3] = { (double)u32rand(r), (double)u32rand(r), (double)u32rand(r) }; vmc_emit(key, d, 3); }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); boot_all();
  bool need = mode <= 6; if (need && !inject_setup()) { vmc_count("noinject", 1); vmc_count("states", 1); halt_services(); return; }
  switch (mode) {
  case 0: fconv((uint64_t)vmc_par(1), (uint64_t)vmc_par(2)); break;
  case 1: dconv(vmc_par(1) != 0); break;
  case 2: expo(); break;
  case 3: normal_(false, (int)vmc_par(1), (int)vmc_par(2), (int)vmc_par(3)); break;
  case 4: normal_(true, (int)vmc_par(1), (int)vmc_par(2), (int)vmc_par(3)); break;
  case 5: perms((int)vmc_par(1), vmc_par(2) != 0); break;
  case 6: bigperms(); break;
  case 7: sequences((int)vmc_par(1), (int)vmc_par(2)); break;
  case 8: fills(); break;
  case 9: { // pools: which seeds do the generators really start from?  fingerprints are judged by the host
    int n = (int)vmc_par(1); for (int seed = 0; seed <= (int)vmc_par(2); seed++) { rng_pool_t *a = new_rng_pool(n, seed, 0), *b = new_rng_pool(n, seed, 1); if (a->n_rng != n) BAD("pool size"); char k[32]; sprintf(k, "l%d", seed); for (int i = 0; i < n; i++) print_rng(k, a->rng[i]); sprintf(k, "s%d", seed); for (int i = 0; i < n; i++) print_rng(k, b->rng[i]);
      seed_rng_pool(b, seed, 0); sprintf(k, "l%d", seed + 1000); for (int i = 0; i < n; i++) print_rng(k, b->rng[i]); delete_rng_pool(a); delete_rng_pool(b); n_states += 2 * n; n_trans += 6 * n; } } break;
  case 10: { HK = Hooks(); simulation = new vpic_simulation(); VS* s = simulation; s->seed_entropy((int)vmc_par(1)); int n = s->entropy->n_rng; if (n < PIPE_N) BAD("size: the entropy pool has %d generators for %d pipelines", n, PIPE_N); if (s->sync_entropy->n_rng != n) BAD("size: sync pool"); for (int i = 0; i < n; i++) { print_rng("l0", s->entropy->rng[i]); print_rng("s0", s->sync_entropy->rng[i]); } 
      for (int i = 0; i < n; i++) if (s->rng(i) != s->entropy->rng[i] || s->sync_rng(i) != s->sync_entropy->rng[i]) BAD("access: rng(i)"); 
      for (int k = 0; k < 400; k++) { double u = s->uniform(s->rng(0), -3, 5); if (!(u > -3 && u < 5)) BAD("uniform out of (low,high): %g", u); n_trans++; } n_states += 2 * n; delete simulation; simulation = NULL; } break;
  }
  if (need) delete_rng(J);
  vmc_count("states", n_states); vmc_count("transitions", n_trans); vmc_count("distinct", std::min(n_states, 100000.)); vmc_count("traces", n_states); halt_services();
}
