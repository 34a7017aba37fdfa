// C26: message ports and collectives against a model of what was sent.
#include "deck.h"
static long nst, ntr;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
template <class F> static bool refused(F f) { return vmc_try([](void* a) { (*(F*)a)(); }, &f) == 1; }
static const int SZ[3] = { 1, 5, 12 }; enum { NP = 2 };
static unsigned char pat(int seed, int k) { return (unsigned char)(seed * 37 + k * 11 + 5); }
// one message object and what is known of it
struct Model {
  mp_t* mp; int want[2][NP]; std::vector<int> known[2][NP]; int seed;
  unsigned char* buf(int s, int p) { return (unsigned char*)(s ? mp_send_buffer(mp, p) : mp_recv_buffer(mp, p)); }
  void size(int s, int p, int n) { unsigned char* b = buf(s, p); int w = want[s][p]; (s ? mp_size_send_buffer : mp_size_recv_buffer)(mp, p, n);
    if (n <= w) WANT(buf(s, p) == b, "size: port %d: the buffer moved although it was large enough", p); if (n > w) want[s][p] = n; WANT(buf(s, p) && ((size_t)buf(s, p) & 127) == 0, "size: port %d: no buffer aligned to 128 bytes after asking for %d bytes", p, n); }
  void write(int p) { unsigned char* b = buf(1, p); seed++; known[1][p].assign(want[1][p], 0); for (int k = 0; k < want[1][p]; k++) known[1][p][k] = b[k] = pat(seed, k); }
  void exchange(int p, int q, int n) { if (n > want[1][p] || n > want[0][q]) return; mp_begin_recv(mp, q, n, world_rank, 7); mp_begin_send(mp, p, n, world_rank, 7); mp_end_recv(mp, q); mp_end_send(mp, p);
    auto& r = known[0][q]; if ((int)r.size() < n) r.resize(n, -1); for (int k = 0; k < n; k++) r[k] = k < (int)known[1][p].size() ? known[1][p][k] : -1; }
  void check(const char* after) { nst++; for (int s = 0; s < 2; s++) for (int p = 0; p < NP; p++) { unsigned char* b = buf(s, p); if (!want[s][p]) WANT(!b, "fresh: port %d has a buffer before one was asked for", p); for (size_t k = 0; k < known[s][p].size(); k++) if (known[s][p][k] >= 0) WANT(b[k] == known[s][p][k], "content: byte %zu of the %s buffer of port %d is %d, it was %d (after %s)", k, s ? "send" : "receive", p, b[k], known[s][p][k], after); } }
};
enum { NOP = 2 * NP * 3 + NP + NP * NP * 3 };
static char opname[64]; static void op(Model& m, int o) {
  if (o < 12) { int s = o / 6, p = o / 3 % 2, n = SZ[o % 3]; sprintf(opname, "size %s %d %d", s ? "send" : "recv", p, n); m.size(s, p, n); return; } o -= 12;
  if (o < NP) { sprintf(opname, "write %d", o); m.write(o); return; } o -= NP;
  int n = SZ[o % 3], p = o / 3 % 2, q = o / 6; sprintf(opname, "exchange %d->%d %d", p, q, n); m.exchange(p, q, n); }
static void ports() { int depth = (int)vmc_par(1), first = (int)vmc_par(2); long tot = 1; for (int i = 1; i < depth; i++) tot *= NOP;
  for (long c = 0; c < tot; c++) { Model m; memset(m.want, 0, sizeof m.want); m.seed = 0; m.mp = new_mp(NP); m.check("start"); long r = c; int o = first; for (int i = 0; i < depth; i++) { op(m, o); m.check(opname); o = r % NOP; r /= NOP; } delete_mp(m.mp); } }
static void misuse() {
  WANT(refused([] { new_mp(0); }) && refused([] { new_mp(-1); }), "refused: a message object without ports is accepted"); delete_mp(NULL);
  for (int np = 1; np <= 4; np++) { mp_t* mp = new_mp(np); 
    for (int port = -2; port <= np + 1; port++) { bool ok = port >= 0 && port < np; nst++;
      WANT(refused([&] { mp_size_recv_buffer(mp, port, 8); }) == !ok, "port: mp_size_recv_buffer with port %d of %d is %s", port, np, ok ? "refused" : "accepted"); WANT(refused([&] { mp_size_send_buffer(mp, port, 8); }) == !ok, "port: mp_size_send_buffer with port %d of %d is %s", port, np, ok ? "refused" : "accepted");
      WANT(refused([&] { mp_recv_buffer(mp, port); }) == !ok && refused([&] { mp_send_buffer(mp, port); }) == !ok, "port: buffer of port %d of %d", port, np);
      if (!ok) { WANT(refused([&] { mp_begin_recv(mp, port, 1, 0, 1); }) && refused([&] { mp_begin_send(mp, port, 1, 0, 1); }) && refused([&] { mp_end_recv(mp, port); }) && refused([&] { mp_end_send(mp, port); }), "port: a transfer on port %d of %d is accepted", port, np); continue; }
      for (int n : { 0, -1 }) WANT(refused([&] { mp_size_recv_buffer(mp, port, n); }) && refused([&] { mp_size_send_buffer(mp, port, n); }) && refused([&] { mp_begin_recv(mp, port, n, 0, 1); }) && refused([&] { mp_begin_send(mp, port, n, 0, 1); }), "size: %d bytes are accepted", n);
      for (int r : { -1, world_size, world_size + 1 }) WANT(refused([&] { mp_begin_recv(mp, port, 8, r, 1); }) && refused([&] { mp_begin_send(mp, port, 8, r, 1); }), "rank: a transfer with rank %d of %d is accepted", r, world_size);
      WANT(refused([&] { mp_begin_recv(mp, port, 800, 0, 1); }) && refused([&] { mp_begin_send(mp, port, 800, 0, 1); }), "size: a transfer larger than the buffer is accepted");
      mp_begin_recv(mp, port, 8, world_rank, 3); mp_begin_send(mp, port, 5, world_rank, 3); WANT(refused([&] { mp_end_recv(mp, port); }), "short: a message shorter than expected is accepted"); mp_end_send(mp, port); }
    delete_mp(mp); }
  WANT(refused([] { mp_size_recv_buffer(NULL, 0, 1); }) && refused([] { mp_size_send_buffer(NULL, 0, 1); }) && refused([] { mp_recv_buffer(NULL, 0); }) && refused([] { mp_send_buffer(NULL, 0); }) && refused([] { mp_begin_recv(NULL, 0, 1, 0, 0); }) && refused([] { mp_begin_send(NULL, 0, 1, 0, 0); }) && refused([] { mp_end_recv(NULL, 0); }) && refused([] { mp_end_send(NULL, 0); }), "refused: no object");
  double d[4]; int i[4]; int64_t l[4]; unsigned char u[4];
  WANT(refused([&] { mp_allsum_d(NULL, d, 1); }) && refused([&] { mp_allsum_d(d, NULL, 1); }) && refused([&] { mp_allsum_d(d, d + 2, 0); }) && refused([&] { mp_allsum_d(d, d + 1, 2); }) && refused([&] { mp_allsum_d(d + 1, d, 2); }), "refused: mp_allsum_d");
  WANT(refused([&] { mp_allsum_i(NULL, i, 1); }) && refused([&] { mp_allsum_i(i, NULL, 1); }) && refused([&] { mp_allsum_i(i, i + 2, 0); }) && refused([&] { mp_allsum_i(i, i + 1, 2); }) && refused([&] { mp_allsum_i(i + 1, i, 2); }), "refused: mp_allsum_i");
  WANT(refused([&] { mp_allgather_i(NULL, i, 1); }) && refused([&] { mp_allgather_i(i, NULL, 1); }) && refused([&] { mp_allgather_i(i, i + 2, 0); }) && refused([&] { mp_allgather_i64(NULL, l, 1); }) && refused([&] { mp_allgather_i64(l, NULL, 1); }) && refused([&] { mp_allgather_i64(l, l + 2, 0); }), "refused: mp_allgather");
  WANT(refused([&] { mp_gather_uc(NULL, u, 1); }) && (world_rank || refused([&] { mp_gather_uc(u, NULL, 1); })) && refused([&] { mp_gather_uc(u, u + 2, 0); }), "refused: mp_gather_uc");
  WANT(refused([&] { mp_send_i(NULL, 1, 0); }) && refused([&] { mp_send_i(i, 0, 0); }) && refused([&] { mp_send_i(i, 1, -1); }) && refused([&] { mp_send_i(i, 1, world_size); }) && refused([&] { mp_recv_i(NULL, 1, 0); }) && refused([&] { mp_recv_i(i, 0, 0); }) && refused([&] { mp_recv_i(i, 1, -1); }) && refused([&] { mp_recv_i(i, 1, world_size); }), "refused: mp_send_i, mp_recv_i"); }
// every rank talks to every rank over one port per peer and direction, in every order of beginning and of ending
static void peers() { int P = world_size, variant = (int)vmc_par(1); std::vector<int> o(2 * P), e; for (int i = 0; i < 2 * P; i++) o[i] = i; e = o; long cnt = 0; std::vector<std::vector<int>> perms; do perms.push_back(o); while (std::next_permutation(o.begin(), o.end())); long n = perms.size(); long lim = (long)vmc_par(2);
  mp_t* mp = new_mp(P + 1); for (long c = 0; c < n && c < lim; c++) { nst++; const auto& b = perms[(c * (variant ? 7 : 1) + world_rank * variant * 5) % n]; const auto& f = perms[(c * 11 + world_rank * 3 + variant) % n]; 
    auto len = [&](int from, int to) { return 1 + (int)((from * 3 + to * 5 + c) % 17); };
    for (int r = 0; r < P; r++) { mp_size_send_buffer(mp, r, len(world_rank, r)); mp_size_recv_buffer(mp, r, len(r, world_rank)); unsigned char* q = (unsigned char*)mp_send_buffer(mp, r); for (int k = 0; k < len(world_rank, r); k++) q[k] = pat(world_rank * 8 + r + c, k); }
    for (int x : b) { int r = x % P; if (x < P) mp_begin_recv(mp, r, len(r, world_rank), r, 3 + r); else mp_begin_send(mp, r, len(world_rank, r), r, 3 + world_rank); }
    for (int x : f) { int r = x % P; if (x < P) { mp_end_recv(mp, r); unsigned char* q = (unsigned char*)mp_recv_buffer(mp, r); for (int k = 0; k < len(r, world_rank); k++) WANT(q[k] == pat(r * 8 + world_rank + c, k), "peers: byte %d of the message of rank %d is not what that rank sent", k, r); } else mp_end_send(mp, r); } cnt++; }
  // several messages to one peer, told apart by their tags only
  int to = (world_rank + 1) % P, from = (world_rank + P - 1) % P; for (long c = 0; c < n && c < 24; c++) { std::vector<int> q = { 0, 1, 2 }; for (int i = 0; i < c % 6; i++) std::next_permutation(q.begin(), q.end()); mp_t* t = new_mp(3); for (int i = 0; i < 3; i++) { mp_size_send_buffer(t, i, 4); mp_size_recv_buffer(t, i, 4); *(int*)mp_send_buffer(t, i) = 100 * world_rank + i; } for (int i = 0; i < 3; i++) mp_begin_recv(t, q[i], 4, from, 20 + q[i]); for (int i = 2; i >= 0; i--) mp_begin_send(t, i, 4, to, 20 + i); for (int i = 0; i < 3; i++) { mp_end_recv(t, i); WANT(*(int*)mp_recv_buffer(t, i) == 100 * from + i, "tags: port %d received the message meant for another tag", i); } for (int i = 0; i < 3; i++) mp_end_send(t, i); delete_mp(t); nst++; }
  delete_mp(mp); }
static void collect() { int P = world_size; const int G = 3;
  for (int n = 1; n <= 5; n++) for (int v = 0; v < 6; v++) { nst++;
    auto val = [&](int r, int k) -> double { switch (v) { case 0: return r + 1; case 1: return (r == k % P) ? 1000 : 0; case 2: return -(r * 7 + k); case 3: return 1 << (r * 3 + k % 3); case 4: return 123456 * (r - 1) + k; } return k; };
    double ds = 0; (void)ds; std::vector<double> d(n + 2 * G, -9), D(n + 2 * G, -9); std::vector<int> i(n + 2 * G, -9), I(n + 2 * G, -9); for (int k = 0; k < n; k++) { d[G + k] = val(world_rank, k) + 0.25; i[G + k] = (int)val(world_rank, k); } auto d0 = d; auto i0 = i; mp_allsum_d(&d[G], &D[G], n); mp_allsum_i(&i[G], &I[G], n); WANT(d == d0 && i == i0, "sum: the local values have changed");
    for (int k = -G; k < n + G; k++) { double w = -9; if (k >= 0 && k < n) { w = 0; for (int r = 0; r < P; r++) w += val(r, k); } WANT(D[G + k] == (w == -9 && (k < 0 || k >= n) ? -9 : w + 0.25 * P), "sum: mp_allsum_d of %d values: value %d is %g", n, k, D[G + k]); WANT(I[G + k] == (k >= 0 && k < n ? (int)w : -9), "sum: mp_allsum_i of %d values: value %d is %d", n, k, I[G + k]); }
    std::vector<int> gi(n * P + 2 * G, -9); mp_allgather_i(&i[G], &gi[G], n); std::vector<int64_t> l(n + 2 * G, -9), gl(n * P + 2 * G, -9); for (int k = 0; k < n; k++) l[G + k] = (int64_t)val(world_rank, k) * 5000000001LL - world_rank; mp_allgather_i64(&l[G], &gl[G], n);
    std::vector<unsigned char> u(n + 2 * G, 9), gu(n * P + 2 * G, 9); for (int k = 0; k < n; k++) u[G + k] = (unsigned char)(200 + world_rank * 11 + k); mp_gather_uc(&u[G], world_rank ? NULL : &gu[G], n);
    for (int k = -G; k < n * P + G; k++) { bool in = k >= 0 && k < n * P; int r = in ? k / n : 0, j = in ? k % n : 0; WANT(gi[G + k] == (in ? (int)val(r, j) : -9), "gather: mp_allgather_i of %d values: value %d is %d", n, k, gi[G + k]); WANT(gl[G + k] == (in ? (int64_t)val(r, j) * 5000000001LL - r : -9), "gather: mp_allgather_i64 of %d values: value %d is %lld", n, k, (long long)gl[G + k]); WANT(gu[G + k] == (in && !world_rank ? (unsigned char)(200 + r * 11 + j) : 9), "gather: mp_gather_uc of %d values: value %d is %d", n, k, gu[G + k]); }
    for (int a = 0; a < P; a++) for (int b = 0; b < P; b++) if (a != b) { if (world_rank == a) mp_send_i(&i[G], n, b); if (world_rank == b) { std::vector<int> q(n + 2 * G, -9); mp_recv_i(&q[G], n, a); for (int k = -G; k < n + G; k++) WANT(q[G + k] == (k >= 0 && k < n ? (int)val(a, k) : -9), "pair: value %d sent from %d to %d is %d", k, a, b, q[G + k]); } }
    mp_barrier(); }
  // turnstiles: never more than n ranks inside
  long* m = vmc_shared(); for (int n = 1; n <= P + 1; n++) { mp_barrier(); nst++; BEGIN_TURNSTILE(n) { long in = ++m[40]; if (in > m[41]) m[41] = in; WANT(in <= n, "turnstile: %ld ranks are inside a turnstile of %d", in, n); vmc_yield(); m[42 + n]++; m[40]--; } END_TURNSTILE; mp_barrier(); WANT(m[42 + n] == P && m[40] == 0, "turnstile: %ld of %d ranks went through a turnstile of %d", m[42 + n], P, n); } }
// the clock and the communicator of a boot: rank and size are those of the run, also after halting and booting again
extern "C" void rank_main(int) { boot_all(); switch ((int)vmc_par(0)) { case 0: ports(); break; case 1: misuse(); break; case 2: peers(); break; case 3: collect(); break; }
  vmc_guard_check();
  vmc_count("states", nst); vmc_count("transitions", ntr); halt_services(); WANT(world_rank == 0 && world_size == 1, "halt: rank and size remain set"); }
