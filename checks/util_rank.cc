// C30: allocation, index and partition macros, lists, old-style options.
#include "deck.h"
static long nst, ntr;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
struct AR { void* p; size_t n, a; int kind; const char* e; };
static void do_alloc(void* v) { AR* r = (AR*)v; if (r->kind == 0) util_malloc(r->e, &r->p, r->n); else if (r->kind == 1) util_malloc_aligned(r->e, &r->p, r->n, r->a); else if (r->kind == 2) util_malloc(r->e, NULL, r->n); else util_malloc_aligned(r->e, NULL, r->n, r->a); }
static bool ends(AR& r) { return vmc_try(do_alloc, &r) == 1; }
// every history of allocations and releases of up to three blocks
struct Block { unsigned char* p; size_t n, a; int tag; bool al; };
static const size_t SZ[][2] = { { 0, 0 }, { 1, 0 }, { 7, 0 }, { 4096, 0 }, { 0, 16 }, { 1, 1 }, { 5, 8 }, { 100, 16 }, { 64, 64 }, { 1, 128 }, { 129, 128 }, { 33, 4096 } }; enum { NSZ = sizeof SZ / sizeof SZ[0] };
static void histories(int depth, int first) { const int NB = 3, NO = NSZ + NB; std::vector<int> op(depth, 0); op[0] = first; int tag = 0;
  for (;;) { Block b[NB]; for (auto& x : b) x.p = NULL, x.n = 0; std::string h = "history"; int next = 0;
    for (int o : op) { char t[20]; sprintf(t, " %d", o); h += t; nst++;
      if (o < NSZ) { Block& x = b[next]; next = (next + 1) % NB; if (x.p) { void* q = x.p; if (x.al) util_free_aligned(&q); else util_free(&q); WANT(!q, "free: the pointer is not cleared; %s", h.c_str()); } x.n = SZ[o][0]; x.a = SZ[o][1]; x.al = x.a != 0; x.tag = ++tag & 255; void* q = (void*)0x10; if (x.al) util_malloc_aligned("no memory %lu %lu", &q, x.n, x.a); else util_malloc("no memory %lu", &q, x.n); x.p = (unsigned char*)q; WANT(x.n ? q != NULL : q == NULL, "malloc: %zu bytes give %p; %s", x.n, q, h.c_str()); size_t al = !x.al ? sizeof(void*) : x.a < 16 ? 16 : x.a; if (x.n && (x.al || x.n >= 16) && vmc_par(3) == 0) WANT((size_t)q % al == 0, "malloc: %zu bytes aligned to %zu are at %p; %s", x.n, x.a, q, h.c_str()); if (x.n && x.al) WANT((size_t)q % al == 0, "malloc: %zu bytes aligned to %zu are at %p; %s", x.n, x.a, q, h.c_str()); if (x.n) memset(x.p, x.tag, x.n); }
      else { Block& x = b[o - NSZ]; void* q = x.p; if (x.al && x.p) util_free_aligned(&q); else util_free(&q); WANT(!q, "free: the pointer is not cleared; %s", h.c_str()); x.p = NULL; x.n = 0; }
      for (auto& x : b) for (size_t i = 0; x.p && i < x.n; i++) WANT(x.p[i] == x.tag, "malloc: byte %zu of a block of %zu was changed; %s", i, x.n, h.c_str()); vmc_guard_check(); }
    for (auto& x : b) { void* q = x.p; if (x.al && x.p) util_free_aligned(&q); else util_free(&q); } int k = depth - 1; while (k > 0 && ++op[k] == NO) op[k--] = 0; if (k <= 0) break; } }
static void refusals() { // every alignment up to 300, every request that cannot be met
  util_free(NULL); util_free_aligned(NULL); for (size_t a = 0; a <= 300; a++) for (size_t n : { (size_t)0, (size_t)1, (size_t)50 }) for (const char* e : { (const char*)NULL, "told %lu %lu" }) { AR r = { (void*)8, n, a, 1, e }; bool bad = !a || (a & (a - 1)); nst++; bool x = ends(r); WANT(x == bad, "refuse: alignment %zu is %s", a, bad ? "accepted" : "refused"); if (!x) { WANT((r.p == NULL) == (n == 0), "malloc: %zu bytes aligned to %zu give %p", n, a, r.p); if (r.p) { WANT((size_t)r.p % a == 0, "malloc: alignment %zu gives %p", a, r.p); memset(r.p, 1, n); util_free_aligned(&r.p); } } }
  for (const char* e : { (const char*)NULL, "told %lu %lu" }) { AR r = { 0, 5, 16, 2, e }; WANT(ends(r), "refuse: allocation without a place for the pointer"); r.kind = 3; WANT(ends(r), "refuse: aligned allocation without a place for the pointer"); }
  for (size_t d = 0; d < 600; d++) for (size_t a : { 1, 16, 64, 128, 256 }) { AR r = { NULL, (size_t)-1 - d, a, 1, NULL }; nst++; WANT(ends(r), "refuse: a request for %zu bytes aligned to %zu is granted", r.n, a); AR q = { NULL, (size_t)-1 - d, 0, 0, NULL }; WANT(ends(q), "refuse: a request for %zu bytes is granted", q.n); }
  for (int np = -1; np > -200; np--) { struct T { static void f(void* v) { particle_t* p = NULL; int n = *(int*)v; MALLOC_ALIGNED(p, n, 128); } static void g(void* v) { double* p = NULL; int n = *(int*)v; MALLOC(p, n); } }; nst++; WANT(vmc_try(T::f, &np) == 1 && vmc_try(T::g, &np) == 1, "refuse: room for %d particles is granted", np); } }
template <class T> static void copies(int sz) { T a[8], b[8], c[8]; for (int n = 0; n <= 8; n++) for (int k = 0; k + n <= 8; k++) { nst++; for (int i = 0; i < 8; i++) memset(a + i, 1 + i, sizeof(T)), memset(b + i, 101 + i, sizeof(T)), memset(c + i, 1 + i, sizeof(T)); COPY(b, a + k, n); for (int i = 0; i < 8; i++) WANT(((unsigned char*)(b + i))[sizeof(T) - 1] == (i < n ? 1 + k + i : 101 + i), "copy: %d elements of %d bytes", n, sz); MOVE(c, c + k, n); for (int i = 0; i < 8; i++) WANT(*(unsigned char*)(c + i) == (i < n ? 1 + k + i : 1 + i), "move: %d elements", n); for (int i = 0; i < 8; i++) memset(c + i, 1 + i, sizeof(T)); MOVE(c + k, c, n); for (int i = 0; i < 8; i++) WANT(*(unsigned char*)(c + i) == (i >= k && i < k + n ? 1 + i - k : 1 + i), "move: %d elements up by %d", n, k); CLEAR(b + k, n); for (int i = 0; i < 8; i++) WANT(((unsigned char*)(b + i))[sizeof(T) - 1] ? i < k || i >= k + n : i >= k && i < k + n, "clear: %d elements", n); } }
static int depthcheck(int d) { int bad = 0; char pad[40]; DECLARE_ALIGNED_ARRAY(char, 128, x, 5); DECLARE_ALIGNED_ARRAY(double, 64, y, 3); memset(pad, d, sizeof pad); memset(x, d, 5); y[0] = y[2] = d; bad += (size_t)x % 128 != 0 || (size_t)y % 64 != 0; if (d) { char more[8] = { (char)d }; bad += depthcheck(d - 1) + (more[0] != (char)d); } for (int i = 0; i < 5; i++) bad += x[i] != (char)d; bad += y[0] != d; return bad; }
struct node { int v; node* next; };
static void macros(bool T) {
  for (size_t a = 1; a <= 4096; a *= 2) for (size_t u = 0; u <= 2 * a + 70; u++) { nst++; size_t r = POW2_CEIL(u, a); WANT(r >= u && r - u < a && r % a == 0, "ceil: of %zu to %zu is %zu", u, a, r); size_t p = PAD(u, a); WANT(p >= 1 && p <= a && (u + p) % a == 0, "pad: of %zu to %zu is %zu", u, a, p); double* q = ALIGN_PTR(double, (char*)u, a); WANT((size_t)q == r, "align: pointer %zu to %zu is %p", u, a, (void*)q); }
  int MN = T ? 700 : 260; for (int P = 1; P <= 18; P++) for (int b : { 1, 2, 3, 4, 8, 16 }) for (int q = 0; q <= MN + 12; q++) { int N = q <= MN ? q : 2147483647 - (q - MN - 1) * 7919, at = 0, lo = 2147483647, hi = 0; nst++; for (int p = 0; p <= P; p++) { int i, n; DISTRIBUTE(N, b, p, P, i, n); WANT(i == at && n >= 0, "distribute: piece %d of %d of %d (by %d) starts at %d, the one before ends at %d", p, P, N, b, i, at); at += n; if (p < P) { WANT(n % b == 0, "distribute: piece of %d, not a multiple of %d", n, b); lo = std::min(lo, n); hi = std::max(hi, n); } else WANT(n == N % b, "distribute: remainder %d of %d (by %d)", n, N, b); } WANT(at == N && hi - lo <= b, "distribute: %d elements by %d over %d pieces: %d in all, pieces of %d to %d", N, b, P, at, lo, hi); }
  for (int xl = -1; xl < 2; xl++) for (int nx = 1; nx < 5; nx++) for (int yl = -1; yl < 2; yl++) for (int ny = 1; ny < 4; ny++) { int xh = xl + nx - 1, yh = yl + ny - 1, e = 0; for (int y = yl; y <= yh; y++) for (int x = xl; x <= xh; x++, e++) { nst++; WANT(INDEX_FORTRAN_2(x, y, xl, xh, yl, yh) == e && INDEX_C_2(y, x, yl, yh, xl, xh) == e, "index: (%d,%d)", x, y); } for (int zl = -1; zl < 2; zl++) for (int nz = 1; nz < 4; nz++) { int zh = zl + nz - 1; e = 0; for (int z = zl; z <= zh; z++) for (int y = yl; y <= yh; y++) for (int x = xl; x <= xh; x++, e++) { nst++; WANT(INDEX_FORTRAN_3(x, y, z, xl, xh, yl, yh, zl, zh) == e && INDEX_C_3(z, y, x, zl, zh, yl, yh, xl, xh) == e && INDEX_FORTRAN_1(x, xl, xh) == x - xl && INDEX_C_1(x, xl, xh) == x - xl, "index: (%d,%d,%d)", x, y, z); } } }
  for (int f = 0; f < 31; f++) for (int l = f; l < 31; l++) { uint32_t w = 0; uint64_t v = 0; for (int i = f; i <= l; i++) w |= 1u << i, v |= (uint64_t)1 << (i + 20); nst++; WANT(MASK_BIT_RANGE(uint32_t, f, l) == w && MASK_BIT_RANGE(uint64_t, f + 20, l + 20) == v, "mask: bits %d to %d", f, l); }
  for (int n = 0; n < 6; n++) { std::vector<node> v(n); node* head = NULL; for (int i = n; i--;) v[i].v = i, v[i].next = head, head = &v[i]; int c = 0; node* q; LIST_FOR_EACH(q, head) { WANT(q->v == c, "list: order"); c++; } WANT(c == n && !q, "list: %d of %d nodes visited", c, n); for (int k = -1; k <= n; k++) { nst++; LIST_FIND_FIRST(q, head, q->v == k || q->v == k + 2); int w = k >= 0 && k < n ? k : k + 2 < n ? k + 2 : -1; WANT((q ? q->v : -1) == w, "list: the first node %d or %d of %d", k, k + 2, n); } }
  copies<char>(1); copies<double>(8); copies<particle_t>(32); copies<field_t>(80); WANT(depthcheck(40) == 0, "align: of an array on the stack"); }
// old-style options are refused, everything else is left alone
struct DA { int ac; char** av; }; static void detect(void* v) { DA* d = (DA*)v; detect_old_style_arguments(&d->ac, &d->av); }
static void options(int maxlen) { static const char* W[] = { "deck", "-tpp", "-tpp=2", "-tppx", "--tpp", "tpp", "-restore", "-restore=x", "--restore", "-restart", "-restartx", "--restart", "restart", "a=b", "", "-", "-tp", "%s%n", "=" }; const int N = sizeof W / sizeof W[0]; for (int len = 0; len <= maxlen; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= N; for (int c = 0; c < tot; c++) { std::vector<std::string> a; int d = c; bool bad = false; int eq = 0; for (int i = 0; i < len; i++, d /= N) { a.push_back(W[d % N]); const std::string& s = a.back(); if (bad) continue; bad = !s.compare(0, 4, "-tpp") || !s.compare(0, 8, "-restore") || s == "-restart"; if (!bad && s.find('=') != std::string::npos) eq++; } std::vector<char*> p; for (auto& s : a) p.push_back(&s[0]); std::vector<std::string> b = a; p.push_back(NULL); std::vector<char*> p0 = p; DA x = { len, p.data() }; vmc_log_clear(); nst++; int r = vmc_try(detect, &x); std::string all; for (auto& s : b) all += " '" + s + "'"; WANT((r == 1) == bad, "old options:%s %s", all.c_str(), bad ? "accepted" : "refused"); if (r == 1) continue; std::string lg = vmc_log(); WANT(x.ac == len && x.av == p.data() && p == p0 && a == b, "old options:%s were changed", all.c_str()); WANT((lg.find("Warning") != std::string::npos) == (eq > 0), "old options:%s: %s", all.c_str(), eq ? "no warning" : "a warning"); } } }
extern "C" void rank_main(int) { boot_all(); switch ((int)vmc_par(0)) { case 0: histories((int)vmc_par(2), (int)vmc_par(1)); break; case 1: refusals(); break; case 2: macros(vmc_par(1) != 0); break; default: options((int)vmc_par(1)); } halt_services(); vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst / 5); }
