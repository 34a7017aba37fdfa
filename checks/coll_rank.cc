// C18: collision operators on every small population, with observing models plugged into the real pairing code.
#include <array>
#include "deck.h"
#define IN_collision
#include "collision/unary.h"
#include "collision/binary.h"
static long nst, ntr; static VS* s; static grid_t* g; static species_t *A, *B, *Cc; static const double DT = 0.05, CV = 1.25, MA = 1.5, MB = 0.4, QA = -0.75, QB = 2;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
static int NX = 4, NY = 4, NZ = 4; static double L[3] = { 2, 3, 1.6 };
static void open(int np) { HK = Hooks(); HK.init = [=](VS* v) { v->define_units(CV, 0.8); v->define_timestep(DT); v->verbose = 0; v->define_periodic_grid(0, 0, 0, L[0], L[1], L[2], NX, NY, NZ, 1, 1, 1); v->define_material("vacuum", 1); v->define_field_array(); v->define_species("a", QA, MA, np, 8, 0, 0); v->define_species("b", QB, MB, np, 8, 0, 0); v->define_species("c", 1, 1, np, 8, 0, 0); }; s = simulation = new vpic_simulation(); s->initialize(0, NULL); g = s->grid; A = s->find_species("a"); B = s->find_species("b"); Cc = s->find_species("c"); }
static void close() { delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; A->np = B->np = Cc->np = 0; s->finalize(); delete s; simulation = NULL; }
static uint64_t rs; static double rnd() { rs += 0x9e3779b97f4a7c15ull; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return (double)((z ^ (z >> 31)) >> 11) / 9007199254740992.; } // only to lay out particles
static int voxel(int k) { return VOXEL(1 + k % NX, 1 + k / NX % NY, 1 + k / NX / NY, NX, NY, NZ); }
static void fill(species_t* sp, std::function<int(int)> count, std::function<float(int)> weight, double uth) { std::vector<particle_t> P; int id = 0; for (int k = 0; k < NX * NY * NZ; k++) for (int c = count(k); c; c--) { particle_t p; p.i = voxel(k); p.dx = rnd() * 1.9 - 0.95; p.dy = (float)(id - 30000) / 65536; p.dz = rnd() * 1.9 - 0.95; p.ux = uth * (rnd() * 2 - 1); p.uy = uth * (rnd() * 2 - 0.7); p.uz = uth * (rnd() - 0.6); p.w = weight(id++); P.push_back(p); } for (size_t i = P.size(); i > 1; i--) std::swap(P[i - 1], P[(size_t)(rnd() * i)]); memcpy(sp->p, P.data(), P.size() * sizeof(particle_t)); sp->np = (int)P.size(); sp->nm = 0; sp->last_sorted = INT64_MIN; }
typedef std::map<int, particle_t> Snap; static int idof(const particle_t& p) { return (int)lround(p.dy * 65536 + 30000); }
static Snap snap(species_t* sp) { Snap m; for (int i = 0; i < sp->np; i++) { int id = idof(sp->p[i]); if (m.count(id)) vmc_fail("particles: particle %d of species %s is there twice", id, sp->name); m[id] = sp->p[i]; } return m; }
static bool still(const particle_t& a, const particle_t& b) { return a.dx == b.dx && a.dy == b.dy && a.dz == b.dz && a.i == b.i && a.w == b.w; } static bool same(const particle_t& a, const particle_t& b) { return still(a, b) && a.ux == b.ux && a.uy == b.uy && a.uz == b.uz; }
static void check_still(const char* what, species_t* sp, const Snap& o, bool equal) { WANT(sp->np == (int)o.size() && sp->nm == 0, "particles: %s leaves %d of %zu particles of species %s", what, sp->np, o.size(), sp->name); Snap n = snap(sp); for (auto& e : o) { auto it = n.find(e.first); WANT(it != n.end() && still(it->second, e.second), "particles: %s moves, reweighs or loses particle %d of species %s", what, e.first, sp->name); if (equal) WANT(same(it->second, e.second), "bystander: %s changes particle %d of species %s", what, e.first, sp->name); WANT(std::isfinite(it->second.ux) && std::isfinite(it->second.uy) && std::isfinite(it->second.uz), "finite: %s gives particle %d of species %s the momentum %g %g %g", what, e.first, sp->name, it->second.ux, it->second.uy, it->second.uz); } }
static void mix(species_t* sp) { for (int i = sp->np; i > 1; i--) std::swap(sp->p[i - 1], sp->p[(int)(rnd() * i)]); sp->last_sorted = INT64_MIN; }
// ---- observing models
struct Pair { int i, j, vi, vj, type; }; static std::vector<std::vector<Pair>> cand, hits; static float (*rate2)(const particle_t*, const particle_t*); static species_t *X, *Y;
static float obs_rate(void*, const species_t* a, const species_t* b, const particle_t* p, const particle_t* q) { if (a != X || b != Y) vmc_fail("species: the model is asked about other species"); if (p < X->p || p >= X->p + X->np || q < Y->p || q >= Y->p + Y->np) vmc_fail("voxel: a candidate is no particle of its species (index %ld of %d and %ld of %d)", (long)(p - X->p), X->np, (long)(q - Y->p), Y->np); if (p->i != q->i) vmc_fail("voxel: candidates of voxels %d and %d", p->i, q->i); cand[p->i].push_back({ (int)(p - X->p), (int)(q - Y->p), p->i, q->i, 0 }); return rate2(p, q); }
static void obs_coll(void*, const species_t* a, const species_t* b, particle_t* p, particle_t* q, rng_t*, int type) { if (a != X || b != Y || p->i != q->i) vmc_fail("voxel: a collision across voxels or species"); hits[p->i].push_back({ (int)(p - X->p), (int)(q - Y->p), p->i, q->i, type }); }
static float one(const particle_t*, const particle_t*) { return 1e9f; } static float none(const particle_t*, const particle_t*) { return 0; } static float RATE; static float some(const particle_t*, const particle_t*) { return RATE; }
static void clear() { cand.assign(g->nv, {}); hits.assign(g->nv, {}); }
static void pairing() {
  open(4000); s->grid->step = 0; int intra = (int)vmc_par(1); X = A; Y = intra ? A : B; double W[4] = { 1, 1, 0.25, 8 };
  for (double sample : { 0., 0.4, 1., 1.5, 3. }) for (int interval : { 1, 2, 3, 0, -1 }) for (int wk = 0; wk < 3; wk++) for (int kind = 0; kind < 2; kind++) { rate2 = kind ? one : none; fill(A, [](int k) { return k % 7; }, [&](int i) { return wk == 0 ? 1.f : wk == 1 ? (float)W[i % 4] : 0.5f + i % 5; }, 0.5); fill(B, [](int k) { return (k / 7 + 3) % 8; }, [&](int i) { return wk == 0 ? 1.f : (float)W[(i + 1) % 4]; }, 0.5); fill(Cc, [](int k) { return k % 3; }, [](int) { return 1.f; }, 0.5); Snap a = snap(A), b = snap(B), c = snap(Cc); collision_op_t* op = binary_collision_model("observe", obs_rate, obs_coll, NULL, X, Y, s->entropy, sample, interval); append_collision_op(op, &s->collision_op_list);
      for (int step = 5; step < 9; step++) { g->step = step; clear(); if (step == 6) A->last_sorted = B->last_sorted = INT64_MIN; if (step >= 7) { species_t* z = step == 7 ? A : B, *y = step == 7 ? B : A; sort_p(z); z->last_sorted = step; mix(y); } apply_collision_op_list(s->collision_op_list); bool act = interval > 0 && step % interval == 0; check_still("a model without effect", A, a, true); check_still("a model without effect", B, b, true); check_still("a model without effect", Cc, c, true);
        for (int k = 0; k < NX * NY * NZ; k++) { int v = voxel(k), nk = k % 7, nl = intra ? nk : (k / 7 + 3) % 8; double t = (intra ? 0.5 : 1) * sample * std::max(nk, nl); int nc = act && nk && nl ? (int)floor(0.5 + t) : 0; nst++; WANT((int)cand[v].size() == nc, "candidates: %zu instead of %d pairs of %d and %d particles tested (sample %g, interval %d, step %d)", cand[v].size(), nc, nk, nl, sample, interval, step); WANT(hits[v].size() == (kind ? cand[v].size() : 0), "probability: %zu of %zu pairs with a %s rate collide", hits[v].size(), cand[v].size(), kind ? "huge" : "zero"); for (size_t n = 0; n < hits[v].size(); n++) { Pair& h = hits[v][n]; WANT(h.i == cand[v][n].i && h.j == cand[v][n].j, "pairs: another pair collides than was tested"); float wi = X->p[h.i].w, wj = Y->p[h.j].w; WANT(wi == wj ? h.type == 3 : wi < wj ? (h.type & 1) && h.type <= 3 : (h.type & 2) && h.type <= 3, "update rule: type %d for weights %g and %g", h.type, wi, wj); } } for (int v = 0; v < g->nv; v++) { bool in = false; for (int k = 0; k < NX * NY * NZ; k++) if (voxel(k) == v) in = true; WANT(in || cand[v].empty(), "voxel: candidates in a ghost voxel"); } }
      delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  // frequencies: every pair equally often, collisions with their probability, the heavier partner updated in proportion
  rate2 = some; float wa[4] = { 1, 1, 0.25, 4 }, wb[4] = { 1, 2, 0.5, 1 }; for (int nk = 1; nk <= 4; nk++) for (int nl = 1; nl <= (intra ? 1 : 4); nl++) for (double pr : { 0.3, 0.8 }) { int n2 = intra ? nk : nl; fill(A, [&](int) { return nk; }, [&](int i) { return intra ? 1.f + (i & 1) : wa[i % 4]; }, 0.5); fill(B, [&](int) { return nl; }, [&](int i) { return wb[i % 4]; }, 0.5); double sample = 4, t = (intra ? 0.5 : 1) * sample * std::max(nk, n2); int nc = (int)floor(t + 0.5); double np = intra ? nk * (nk + 1) / 2 : nk * nl; RATE = pr / (DT * 2 / g->dV * np / nc); collision_op_t* op = binary_collision_model("freq", obs_rate, obs_coll, NULL, X, Y, s->entropy, sample, 2); append_collision_op(op, &s->collision_op_list); std::map<std::pair<int, int>, double> cnt, hc; std::map<std::pair<float, float>, double> tot, both; double wtot = 0, whit = 0, wvar = 0; g->step = 2; sort_p(A); sort_p(B); A->last_sorted = B->last_sorted = 2; for (int rep = 0; rep < 120; rep++) { clear(); apply_collision_op_list(s->collision_op_list); for (int k = 0; k < NX * NY * NZ; k++) { int v = voxel(k); for (auto& h : cand[v]) { cnt[{ h.i - A->partition[v], h.j - Y->partition[v] }]++; double q = std::min(1., pr * std::max(X->p[h.i].w, Y->p[h.j].w)); wtot += q; wvar += q * (1 - q); } for (auto& h : hits[v]) { whit++; float a = X->p[h.i].w, b = Y->p[h.j].w; if (a != b) { tot[{ a, b }]++; if (h.type == 3) both[{ a, b }]++; else WANT(h.type == (a < b ? 1 : 2), "update rule: the heavier of %g and %g is updated alone", a, b); } } } }
      nst++; double N = 120. * NX * NY * NZ * nc, e = N / (nk * n2); for (int i = 0; i < nk; i++) for (int j = 0; j < n2; j++) WANT(fabs(cnt[{ i, j }] - e) < 6 * sqrt(e), "pairs: pair %d,%d of %d x %d is drawn %g times, expected %g", i, j, nk, n2, cnt[{ i, j }], e); WANT(fabs(whit - wtot) < 6 * sqrt(wvar) + 1e-3 * wtot, "probability: %g collisions instead of %g", whit, wtot); for (auto& x : tot) { double q = std::min(x.first.first, x.first.second) / std::max(x.first.first, x.first.second), m = x.second * q; if (x.second > 100) WANT(fabs(both[x.first] - m) < 6 * sqrt(m * (1 - q)) + 2, "update rule: with weights %g and %g the heavier is updated %g of %g times", x.first.first, x.first.second, both[x.first], x.second); } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  close(); }
// ---- unary
static std::vector<int> tested, struck; static float urate; static float obs_urate(void*, const species_t* a, const particle_t* p) { if (a != A || p < A->p || p >= A->p + A->np) vmc_fail("species: the model is asked about another particle"); tested[p - A->p]++; return urate; } static void obs_ucoll(void*, const species_t*, particle_t* p, rng_t*) { struck[p - A->p]++; }
static void unary() {
  open(4000); for (int np = 0; np < 90; np++) for (int interval : { 1, 2, 3, 0 }) for (int kind = 0; kind < 2; kind++) { rs = np; fill(A, [&](int k) { return k == 5 ? np : 0; }, [](int) { return 1.f; }, 0.5); fill(B, [](int k) { return k % 3; }, [](int) { return 1.f; }, 0.5); Snap a = snap(A), b = snap(B); collision_op_t* op = unary_collision_model("u", obs_urate, obs_ucoll, NULL, A, s->entropy, interval); append_collision_op(op, &s->collision_op_list); urate = kind ? 1 / (DT * (interval ? interval : 1)) * 1.001 : 0; for (int step = 6; step < 9; step++) { g->step = step; tested.assign(np + 1, 0); struck.assign(np + 1, 0); apply_collision_op_list(s->collision_op_list); bool act = interval > 0 && step % interval == 0; for (int i = 0; i < np; i++) { WANT(tested[i] == act, "unary: particle %d of %d is tested %d times (interval %d, step %d)", i, np, tested[i], interval, step); WANT(struck[i] == (act && kind), "unary: particle with a %s collision probability", kind ? "full" : "zero"); } check_still("a model without effect", A, a, true); check_still("a model without effect", B, b, true); nst++; } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  fill(A, [](int k) { return k == 5 ? 3999 : 0; }, [](int) { return 1.f; }, 0.5); for (double pr : { 0.1, 0.5, 0.9 }) { collision_op_t* op = unary_collision_model("u", obs_urate, obs_ucoll, NULL, A, s->entropy, 3); append_collision_op(op, &s->collision_op_list); urate = pr / (DT * 3); double h = 0; for (int rep = 0; rep < 10; rep++) { g->step = 3 * rep; tested.assign(4000, 0); struck.assign(4000, 0); apply_collision_op_list(s->collision_op_list); for (int x : struck) h += x; } nst++; double n = 39990; WANT(fabs(h - n * pr) < 6 * sqrt(n * pr * (1 - pr)), "unary: %g of %g collide instead of a share of %g", h, n, pr); delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  close(); }
// ---- the operators themselves
static collision_op_t* make(int kind, species_t* a, species_t* b, int interval, double strength, double sample = 1) { return kind == 0 ? hard_sphere("hs", a, 0.6 * strength, b, 0.9 * strength, s->entropy, sample, interval) : kind == 1 ? large_angle_coulomb("lac", a, b, 1.1 * strength, s->entropy, sample, interval) : takizuka_abe("ta", a, b, s->entropy, 0.02 * strength, interval); }
static const char* KN[] = { "hard spheres", "large-angle Coulomb", "Takizuka-Abe" };
static void mom(species_t* sp, double m, std::vector<std::array<double, 4>>& M) { for (int i = 0; i < sp->np; i++) { particle_t& p = sp->p[i]; auto& x = M[p.i]; double w = p.w * m; x[0] += w * p.ux; x[1] += w * p.uy; x[2] += w * p.uz; x[3] += w * (p.ux * (double)p.ux + p.uy * (double)p.uy + p.uz * (double)p.uz); } }
static void conserve() {
  open(4000); int kind = (int)vmc_par(1); for (int intra = 0; intra < 3; intra++) for (int shift = 0; shift < 8; shift++) for (int interval : { 1, 3, 0 }) for (double strength : { 0.1, 1., 30. }) { species_t *a = intra == 2 ? B : A, *b = intra == 1 ? A : B; bool in = intra != 0; fill(A, [&](int k) { return (k + shift) % 8; }, [](int) { return 0.5f; }, 0.3); fill(B, [&](int k) { return (k / 8 + shift) % 9; }, [](int) { return 0.5f; }, 0.4); fill(Cc, [](int k) { return k % 3; }, [](int) { return 0.5f; }, 0.5); if (shift == 3) { for (int i = 0; i < A->np; i++) A->p[i].ux = A->p[i].uy = A->p[i].uz = 0; } if (shift == 4) for (species_t* sp : { A, B }) for (int i = 0; i < sp->np; i++) { sp->p[i].ux = 0.25; sp->p[i].uy = 0; sp->p[i].uz = i % 2 ? 0 : -1e-3; } Snap o[3] = { snap(A), snap(B), snap(Cc) }; collision_op_t* op = make(kind, a, b, interval, strength); append_collision_op(op, &s->collision_op_list);
      for (int step = 5; step < 8; step++) { g->step = step; std::vector<std::array<double, 4>> M0(g->nv, { 0, 0, 0, 0 }), M1 = M0; if (!in || a == A) mom(A, MA, M0); if (!in || a == B) mom(B, MB, M0); if (step == 7) { species_t* z = shift % 2 ? A : B, *y = shift % 2 ? B : A; sort_p(z); z->last_sorted = step; mix(y); } Snap b4[3] = { snap(A), snap(B), snap(Cc) }; apply_collision_op_list(s->collision_op_list); bool act = interval && step % interval == 0; check_still(KN[kind], A, b4[0], !act || (in && a == B)); check_still(KN[kind], B, b4[1], !act || (in && a == A)); check_still(KN[kind], Cc, b4[2], true); if (!in || a == A) mom(A, MA, M1); if (!in || a == B) mom(B, MB, M1); Snap na = snap(A), nb = snap(B); for (int k = 0; k < NX * NY * NZ; k++) { int v = voxel(k), nk = (k + shift) % 8, nl = (k / 8 + shift) % 9; nst++; double sc = 5e-6 * 0.5 * MA * 8; for (int c = 0; c < 4; c++) WANT(fabs(M1[v][c] - M0[v][c]) <= sc, "conservation: %s change the %s of a cell with %d and %d particles from %.8g to %.8g", KN[kind], c == 3 ? "energy" : "momentum", nk, nl, M0[v][c], M1[v][c]); bool can = in ? (a == A ? nk : nl) > 1 : nk && nl; if (!can) { for (auto& e : b4[0]) if (e.second.i == v) WANT(same(na[e.first], e.second), "partner: %s change a particle without a partner", KN[kind]); for (auto& e : b4[1]) if (e.second.i == v) WANT(same(nb[e.first], e.second), "partner: %s change a particle without a partner", KN[kind]); } else if (kind == 2 && act && shift != 3 && shift != 4) { for (auto& e : (in && a == B ? b4[1] : b4[0])) if (e.second.i == v) WANT(!same((in && a == B ? nb : na)[e.first], e.second), "coverage: Takizuka-Abe leaves a particle of a cell with %d and %d untouched", nk, nl); if (!in) for (auto& e : b4[1]) if (e.second.i == v) WANT(!same(nb[e.first], e.second), "coverage: Takizuka-Abe leaves a particle of a cell with %d and %d untouched", nk, nl); } } }
      delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  // Takizuka-Abe among equals: mean square deflection with two and with three particles per cell, all relative speeds equal
  if (kind == 2) for (int nk = 2; nk <= 3; nk++) for (double v : { 0.2, 0.6 }) { double d2 = 0, n = 0, cv0 = 2e-4 * v * v * v; for (int rep = 0; rep < 60; rep++) { fill(A, [=](int) { return nk; }, [](int) { return 0.5f; }, 0.3); std::map<int, int> c; for (int i = 0; i < A->np; i++) { particle_t& p = A->p[i]; int k = c[p.i]++; p.ux = 0.1 + (k == 1 ? v : k == 2 ? v / 2 : 0); p.uy = -0.2 + (k == 2 ? v * sqrt(3.) / 2 : 0); p.uz = 0.3; } Snap o = snap(A); append_collision_op(takizuka_abe("ta", A, A, s->entropy, cv0, 2), &s->collision_op_list); g->step = 2; A->last_sorted = INT64_MIN; apply_collision_op_list(s->collision_op_list); Snap m = snap(A); for (auto& e : o) { particle_t &p = e.second, &q = m[e.first]; d2 += pow(p.ux - q.ux, 2) + pow(p.uy - q.uy, 2) + pow(p.uz - q.uz, 2); n++; } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; } double mu = MA / 2, var = cv0 * pow(QA, 4) / (mu * mu) * nk * 0.5 * DT * 2 / g->dV / (v * v * v), want = v * v / 4 * 4 * var; nst++; WANT(fabs(d2 / n / want - 1) < 0.12, "angle: Takizuka-Abe among %d particles of a cell: mean square deflection %g instead of %g", nk, d2 / n, want); }
  if (kind == 2) for (int rev = 0; rev < 2; rev++) for (int nk = 2; nk <= 5; nk++) { const float W[5] = { 1, 6, 2, 9, 3 }; double v = 0.4, cv0 = 2e-6 * v * v * v, d2 = 0, n = 0, dens = 0; for (int k = 0; k < nk; k++) dens += W[k]; for (int rep = 0; rep < 50; rep++) { fill(rev ? B : A, [=](int) { return nk; }, [&](int i) { return W[i % nk]; }, 0); fill(rev ? A : B, [=](int) { return nk; }, [](int) { return 100.f; }, 0); for (int i = 0; i < A->np; i++) A->p[i].ux = v; Snap o = snap(rev ? B : A); append_collision_op(takizuka_abe("ta", A, B, s->entropy, cv0, 2), &s->collision_op_list); g->step = 2; apply_collision_op_list(s->collision_op_list); Snap m = snap(rev ? B : A); for (auto& e : o) { particle_t &p = e.second, &q = m[e.first]; d2 += pow(p.ux - q.ux, 2) + pow(p.uy - q.uy, 2) + pow(p.uz - q.uz, 2); n++; } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; } double mu = MA * MB / (MA + MB), mi = rev ? MA / (MA + MB) : MB / (MA + MB), var = cv0 * QA * QA * QB * QB / (mu * mu) * dens * DT * 2 / g->dV / (v * v * v), want = v * v * mi * mi * 4 * var; nst++; WANT(fabs(d2 / n / want - 1) < 0.1, "angle: Takizuka-Abe off %d particles of a total weight of %g: mean square deflection %g instead of %g", nk, dens, d2 / n, want); }
  // nothing to scatter off: no effect, and no damage
  if (kind == 2) { fill(A, [](int k) { return k % 5; }, [](int) { return 1.f; }, 0.3); for (int i = 0; i < A->np; i += 2) A->p[i].ux = A->p[i].uy = A->p[i].uz = 0; for (int i = 0; i < A->np; i++) if (i % 7 == 0) A->p[i].ux = 1e-30; Snap o = snap(A); append_collision_op(takizuka_abe("ta", A, A, s->entropy, 0, 1), &s->collision_op_list); g->step = 3; for (int r = 0; r < 4; r++) { apply_collision_op_list(s->collision_op_list); check_still("Takizuka-Abe without collisions", A, o, false); Snap n = snap(A); for (auto& e : o) { particle_t& p = n[e.first]; WANT(fabs(p.ux - e.second.ux) <= 1e-12 + 1e-6 * fabs(e.second.ux), "zero rate: Takizuka-Abe with a collision parameter of zero changes a momentum"); } } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  close(); }
// single pairs: angles, update rule with unequal weights
static void angles() {
  NX = 8; NY = 8; NZ = 4; open(4000); int kind = (int)vmc_par(1); float WA[4] = { 1, 3, 1, 0.5 }, WB[4] = { 1, 1, 4, 0.5 }; for (int wk = 0; wk < 4; wk++) for (int dir = 0; dir < 6; dir++) for (double speed : { 0.02, 0.5 }) { static const double D[6][3] = { { 1, 0.1, 0 }, { 0, 1, 0.2 }, { 0.1, 0, -1 }, { -0.5, 0.6, 0.6 }, { 1, 1, 1 }, { -1, 0, 0 } }; double n = 0, up[2] = { 0 }, x1 = 0, x2 = 0, x4 = 0, az[4] = { 0 }, both = 0, lt[20] = { 0 }; int R = 16; for (int rep = 0; rep < R; rep++) { fill(A, [](int) { return 1; }, [&](int) { return WA[wk]; }, 0.1); fill(B, [](int) { return 1; }, [&](int) { return WB[wk]; }, 0.1); double nd = sqrt(D[dir][0] * D[dir][0] + D[dir][1] * D[dir][1] + D[dir][2] * D[dir][2]); for (int i = 0; i < A->np; i++) { particle_t& p = A->p[i]; p.ux = 0.05 + speed * D[dir][0] / nd; p.uy = -0.1 + speed * D[dir][1] / nd; p.uz = 0.2 + speed * D[dir][2] / nd; } for (int i = 0; i < B->np; i++) { particle_t& p = B->p[i]; p.ux = 0.05; p.uy = -0.1; p.uz = 0.2; } std::map<int, particle_t> a, b; for (int i = 0; i < A->np; i++) a[A->p[i].i] = A->p[i]; for (int i = 0; i < B->np; i++) b[B->p[i].i] = B->p[i];
        double mu = MA * MB / (MA + MB), cv0 = 0.001 * pow(speed, 3), bmax = 0.7 / (speed * speed); collision_op_t* op = kind == 0 ? hard_sphere("hs", A, 200, B, 300, s->entropy, 1, 2) : kind == 1 ? large_angle_coulomb("lac", A, B, bmax, s->entropy, 1, 2) : takizuka_abe("ta", A, B, s->entropy, cv0, 2); append_collision_op(op, &s->collision_op_list); g->step = 4; if (kind == 1) { binary_collision_model_t* cm = (binary_collision_model_t*)op->params; cm->sample = 1; double K = CV * M_PI * bmax * bmax * speed, pr = std::max(WA[wk], WB[wk]) * K * DT * 2 / g->dV; if (pr < 1) vmc_fail("set-up: a pair would not surely collide (%g)", pr); } apply_collision_op_list(s->collision_op_list);
        std::map<int, particle_t> na, nb; for (int i = 0; i < A->np; i++) na[A->p[i].i] = A->p[i]; for (int i = 0; i < B->np; i++) nb[B->p[i].i] = B->p[i];
        for (auto& e : a) { particle_t &p = e.second, &q = b[e.first], &p1 = na[e.first], &q1 = nb[e.first]; double u[3] = { p.ux - q.ux, p.uy - q.uy, p.uz - q.uz }, cm[3] = { (MA * p.ux + MB * q.ux) / (MA + MB), (MA * p.uy + MB * q.uy) / (MA + MB), (MA * p.uz + MB * q.uz) / (MA + MB) }; bool ua = !same(p, p1), ub = !same(q, q1); nst++; if (!ua && !ub) { WANT(kind == 1 || kind == 2, "update rule: nobody is updated"); continue; } n++; up[0] += ua; up[1] += ub; both += ua && ub; bool la = p.w <= q.w, lb = q.w <= p.w; WANT((!la || ua) && (!lb || ub), "update rule: the lighter of weights %g and %g is not updated", p.w, q.w); double v[3], tol = 3e-6 * (0.3 + speed); if (ua) { v[0] = (p1.ux - cm[0]) * (MA + MB) / MB; v[1] = (p1.uy - cm[1]) * (MA + MB) / MB; v[2] = (p1.uz - cm[2]) * (MA + MB) / MB; } if (ub) { double w[3] = { (cm[0] - q1.ux) * (MA + MB) / MA, (cm[1] - q1.uy) * (MA + MB) / MA, (cm[2] - q1.uz) * (MA + MB) / MA }; if (ua) for (int c = 0; c < 3; c++) WANT(fabs(w[c] - v[c]) <= 2 * tol * (MA + MB) / MB, "conservation: momentum of a pair"); for (int c = 0; c < 3; c++) v[c] = w[c]; } double u2 = u[0] * u[0] + u[1] * u[1] + u[2] * u[2], v2 = v[0] * v[0] + v[1] * v[1] + v[2] * v[2], uv = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]; WANT(fabs(sqrt(v2) - sqrt(u2)) <= tol * (MA + MB) / MB * 2, "conservation: the relative speed of a pair changes from %g to %g (%s)", sqrt(u2), sqrt(v2), KN[kind]);
          double c = uv / sqrt(u2 * v2); c = std::min(1., std::max(-1., c)); double th = acos(c), X; if (kind == 0) X = 0.5 * (1 + c); else if (kind == 1) { double t = tan(0.5 * th), t0 = fabs(QA * QB) / (4 * M_PI * 0.8 * mu * CV * CV * speed * speed * bmax); X = t0 * t0 / (t * t); if (speed > 0.1) WANT(X <= 1.01, "angle: a large-angle Coulomb collision beyond the cutoff (ratio %g)", X); } else { double t = tan(0.5 * th), var = cv0 * QA * QA * QB * QB / (mu * mu) * std::min(WA[wk], WB[wk]) * DT * 2 / g->dV / pow(speed, 3); X = t * t / std::min(1., var); } x1 += X; x2 += X * X; x4 += X * X * X * X; if (X >= 0 && X < 1) lt[(int)(X * 20)]++;
          double e1[3], e2[3]; int k = 0; for (int a2 = 1; a2 < 3; a2++) if (fabs(u[a2]) < fabs(u[k])) k = a2; double ax[3] = { 0, 0, 0 }; ax[k] = 1; for (int z = 0; z < 3; z++) e1[z] = ax[(z + 1) % 3] * u[(z + 2) % 3] - ax[(z + 2) % 3] * u[(z + 1) % 3]; double l1 = sqrt(e1[0] * e1[0] + e1[1] * e1[1] + e1[2] * e1[2]); for (int z = 0; z < 3; z++) e1[z] /= l1; for (int z = 0; z < 3; z++) e2[z] = (u[(z + 1) % 3] * e1[(z + 2) % 3] - u[(z + 2) % 3] * e1[(z + 1) % 3]) / sqrt(u2); double a1 = 0, a2 = 0; for (int z = 0; z < 3; z++) { a1 += v[z] * e1[z]; a2 += v[z] * e2[z]; } double r = sqrt(a1 * a1 + a2 * a2); if (r > 0) { az[0] += a1 / r; az[1] += a2 / r; az[2] += (a1 * a1 - a2 * a2) / (r * r); az[3] += 2 * a1 * a2 / (r * r); } }
        delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
      double tn = n; WANT(n >= R * NX * NY * NZ * (kind ? 0.9 : 1), "probability: only %g of %d pairs with a full collision probability collide", n, R * NX * NY * NZ); x1 /= n; x2 /= n; double want1 = kind == 2 ? 1 : 0.5, sd = kind == 2 ? sqrt(2 / n) : sqrt(1 / (12 * n)); if (!(kind == 1 && speed < 0.1)) WANT(fabs(x1 - want1) < 6 * sd + 0.004, "angle: %s deflect by an angle whose measure has the mean %g instead of %g (weights %g %g, speed %g)", KN[kind], x1, want1, WA[wk], WB[wk], speed); if (kind != 2 && !(kind == 1 && speed < 0.1)) for (int z = 0; z < 20; z++) WANT(fabs(lt[z] - n / 20) < 6 * sqrt(n / 20) + 0.004 * n, "angle: %s: %g of %g deflections in part %d of 20 of the cross section", KN[kind], lt[z], n, z); if (kind == 2) WANT(fabs(x2 - 3) < 1, "angle: Takizuka-Abe: fourth moment %g", x2); for (int z = 0; z < 4; z++) WANT(fabs(az[z] / n) < 6 / sqrt(2 * n), "angle: %s: preferred azimuth (%g)", KN[kind], az[z] / n);
      double q = std::min(WA[wk], WB[wk]) / std::max(WA[wk], WB[wk]), h = WA[wk] > WB[wk] ? up[0] : up[1]; if (q < 1) WANT(fabs(h / tn - q) < 6 * sqrt(q * (1 - q) / tn), "update rule: the heavier of weights %g and %g is updated in a share of %g", WA[wk], WB[wk], h / tn); else WANT(both == tn, "update rule: equal weights but not both updated"); }
  close(); }
// ---- drag and diffusion
static void drag() {
  open(30000); for (double nu : { 0., 0.3, 7., 400. }) for (double kT : { 0., 0.02, 1.5 }) for (int interval : { 1, 4, 0 }) for (species_t* sp : { A, B }) { double m = sp == A ? MA : MB; species_t* other = sp == A ? B : A; bool big = interval == 4; fill(sp, [&](int k) { return big ? 400 : k % 5; }, [](int) { return 1.f; }, 0.7); fill(other, [](int k) { return k % 3; }, [](int) { return 1.f; }, 0.7); append_collision_op(langevin(kT, nu, sp, s->entropy, interval), &s->collision_op_list); for (int step = 7; step < 10; step++) { g->step = step; Snap o = snap(sp), oo = snap(other); apply_collision_op_list(s->collision_op_list); bool act = interval && step % interval == 0; check_still("drag", sp, o, !act); check_still("drag", other, oo, true); if (!act) continue; double x = nu * interval * DT, dec = exp(-x), var = (1 - exp(-2 * x)) * kT / (m * CV); Snap n = snap(sp); double s1[3] = { 0 }, s2[3] = { 0 }, cx[3] = { 0 }, cc[3] = { 0 }, N = 0; nst++; for (auto& e : o) { particle_t &p = e.second, &q = n[e.first]; double r[3] = { q.ux - dec * p.ux, q.uy - dec * p.uy, q.uz - dec * p.uz }, u[3] = { p.ux, p.uy, p.uz }; for (int a = 0; a < 3; a++) { if (var == 0) WANT(fabs(r[a]) <= 2e-6, "drag: momentum %g becomes %g instead of %g", u[a], r[a] + dec * u[a], dec * u[a]); else WANT(fabs(r[a]) <= 7 * sqrt(var), "drag: a kick of %g deviations", r[a] / sqrt(var)); s1[a] += r[a]; s2[a] += r[a] * r[a]; cx[a] += r[a] * r[(a + 1) % 3]; cc[a] += r[a] * u[a]; } N++; } if (N > 1000 && var > 0) for (int a = 0; a < 3; a++) { WANT(fabs(s1[a] / N) < 6 * sqrt(var / N) && fabs(s2[a] / N - var) < 6 * var * sqrt(2 / N), "drag: kicks along axis %d have mean %g and mean square %g instead of %g (rate %g, temperature %g)", a, s1[a] / N, s2[a] / N, var, nu, kT); WANT(fabs(cx[a] / N) < 6 * var / sqrt(N), "drag: kicks along two axes are correlated"); WANT(fabs(cc[a] / N) < 6 * sqrt(var / N), "drag: the decay of the momentum is not exp(-nu t)"); } } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  for (int np = 0; np < 70; np++) { rs = np; fill(A, [&](int k) { return k == 9 ? np : 0; }, [](int) { return 1.f; }, 0.5); Snap o = snap(A); append_collision_op(langevin(0, 3, A, s->entropy, 1), &s->collision_op_list); g->step = 1; apply_collision_op_list(s->collision_op_list); Snap n = snap(A); nst++; for (auto& e : o) WANT(fabs(n[e.first].ux - exp(-3 * DT) * e.second.ux) <= 1e-6, "drag: particle %d of %d is dragged by %g", e.first, np, n[e.first].ux / e.second.ux); delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  close(); }
// ---- collisions with a fluid
static double Kexact(double n, double R, double vt, double v) { if (vt == 0) return n * M_PI * R * R * v; if (v < 1e-4 * vt) return n * M_PI * R * R * vt * sqrt(8 / M_PI); return n * M_PI * R * R * ((v + vt * vt / v) * erf(v / (sqrt(2.) * vt)) + vt * sqrt(2 / M_PI) * exp(-v * v / (2 * vt * vt))); }
static void fluid() {
  open(60000); int kind = (int)vmc_par(1); double n0 = 0.3, m0s[2] = { 0.7, 1e6 }, vd[3] = { 0.2, -0.3, 0.1 };
  for (double m0 : m0s) for (double kT : { 0., 0.01, 1. }) for (species_t* sp : { A, B }) { double m = sp == A ? MA : MB, R = kind == 0 ? 0.5 : 0.8, vt = sqrt(kT / m0); collision_op_t* op = kind == 0 ? hard_sphere_fluid("f", n0, vd[0], vd[1], vd[2], kT, m0, 0.2, sp, 0.3, s->entropy, 2) : large_angle_coulomb_fluid("f", n0, vd[0], vd[1], vd[2], kT, -1.1, m0, sp, 0.8, s->entropy, 2); double zs = 0, zn = 0; append_collision_op(op, &s->collision_op_list); unary_collision_model_t* cm = (unary_collision_model_t*)op->params;
    for (int d = 0; d < 6; d++) for (double v = 1e-3; v < 3; v *= 1.3) { particle_t p; memset(&p, 0, sizeof p); double dd[6][3] = { { 1, 0, 0 }, { 0, -1, 0 }, { 0, 0, 1 }, { 0.6, 0.8, 0 }, { 0, -0.8, 0.6 }, { -1, 0, 0 } }; p.ux = (vd[0] + v * dd[d][0]) / CV; p.uy = (vd[1] + v * dd[d][1]) / CV; p.uz = (vd[2] + v * dd[d][2]) / CV; double k = cm->rate_constant(cm->params, sp, &p), w = Kexact(n0, R, vt, v); nst++; WANT(fabs(k - w) <= 0.006 * w + 1e-5 * n0 * R * R, "fluid: the collision rate at speed %g in a fluid of thermal speed %g is %g instead of %g", v, vt, k, w); }
    fill(sp, [](int) { return 60; }, [](int) { return 1.f; }, 0.5); Snap o = snap(sp); g->step = 4; double expect = 0, var = 0, hit = 0; for (auto& e : o) { particle_t& p = e.second; double v = CV * sqrt(pow(p.ux - vd[0] / CV, 2) + pow(p.uy - vd[1] / CV, 2) + pow(p.uz - vd[2] / CV, 2)), pr = std::min(1., DT * 2 * Kexact(n0, R, vt, v)); expect += pr; var += pr * (1 - pr); } apply_collision_op_list(s->collision_op_list); check_still("a fluid", sp, o, false); Snap n = snap(sp); for (auto& e : o) { particle_t &p = e.second, &q = n[e.first]; if (same(p, q)) continue; hit++; nst++; if (kT == 0) { double cmv[3], a2 = 0, b2 = 0, ab = 0; double u[3] = { p.ux, p.uy, p.uz }, w[3] = { q.ux, q.uy, q.uz }; for (int a = 0; a < 3; a++) { cmv[a] = (m * u[a] + m0 * vd[a] / CV) / (m + m0); a2 += pow(u[a] - cmv[a], 2); b2 += pow(w[a] - cmv[a], 2); ab += (u[a] - cmv[a]) * (w[a] - cmv[a]); } { double ur2 = a2 * pow((m + m0) / m0, 2), mu = m * m0 / (m + m0), cth = std::min(1., std::max(-1., ab / sqrt(a2 * b2))), tn = tan(0.5 * acos(cth)), t0 = fabs((sp == A ? QA : QB) * 1.1) / (4 * M_PI * 0.8 * mu * CV * CV * ur2 * 0.8), Z = kind == 0 ? 0.5 * (1 + cth) : t0 * t0 / (tn * tn); if (kind == 1) WANT(Z <= 1.02 || tn < 0.02, "angle: a large-angle Coulomb collision with a fluid beyond the cutoff (ratio %g)", Z); zs += Z; zn++; } WANT(fabs(sqrt(a2) - sqrt(b2)) <= 5e-6, "fluid: a collision with a resting partner of mass %g changes the speed in the centre-of-mass frame from %g to %g", m0, sqrt(a2), sqrt(b2)); } } WANT(fabs(hit - expect) < 6 * sqrt(var) + 0.01 * expect, "fluid: %g collisions instead of %g", hit, expect);
    if (zn > 300) WANT(fabs(zs / zn - 0.5) < 6 / sqrt(12 * zn) + 0.005, "angle: the deflections by a fluid have the mean measure %g instead of 0.5 (%s, %g collisions)", zs / zn, KN[kind], zn);
    if (kT == 0.01) { // long contact: the particles take over drift and temperature
      if (kind == 0 && m0 < 10) { fill(sp, [](int) { return 200; }, [](int) { return 1.f; }, 0.05); delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; append_collision_op(hard_sphere_fluid("f", 40, vd[0], vd[1], vd[2], kT, m0, 0.2, sp, 0.3, s->entropy, 1), &s->collision_op_list); double t = 0, c = 0, dr[3] = { 0 }; for (int st = 0; st < 140; st++) { g->step = st; apply_collision_op_list(s->collision_op_list); if (st >= 100 && st % 4 == 0) for (int i = 0; i < sp->np; i++) { double u[3] = { sp->p[i].ux, sp->p[i].uy, sp->p[i].uz }; for (int a = 0; a < 3; a++) { dr[a] += u[a]; t += pow(u[a] - vd[a] / CV, 2); } c++; } } double T = m * CV * CV * t / (3 * c); nst++; for (int a = 0; a < 3; a++) WANT(fabs(dr[a] / c - vd[a] / CV) < 0.004, "fluid: particles drift at %g in a fluid that drifts at %g", dr[a] / c, vd[a] / CV); WANT(T > 0.7 * kT && T < 1.3 * kT, "fluid: particles reach the temperature %g in a fluid of temperature %g", T, kT); } }
    delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; }
  close(); }
// ---- refusals and large cells
static void limits() {
  open(110000); rng_pool_t* few = new_rng_pool(1, 3, 0); int np = PIPE_N; X = A; Y = B;
#define NO(e) do { nst++; WANT(refused([&] { e; }), "refused: " #e " is accepted"); } while (0)
  NO(binary_collision_model("n", NULL, obs_coll, NULL, A, B, s->entropy, 1, 1)); NO(binary_collision_model("n", obs_rate, NULL, NULL, A, B, s->entropy, 1, 1)); NO(binary_collision_model("n", obs_rate, obs_coll, NULL, NULL, B, s->entropy, 1, 1)); NO(binary_collision_model("n", obs_rate, obs_coll, NULL, A, NULL, s->entropy, 1, 1)); NO(binary_collision_model("n", obs_rate, obs_coll, NULL, A, B, NULL, 1, 1)); NO(binary_collision_model("", obs_rate, obs_coll, NULL, A, B, s->entropy, 1, 1)); NO(binary_collision_model(NULL, obs_rate, obs_coll, NULL, A, B, s->entropy, 1, 1));
  NO(unary_collision_model("n", NULL, obs_ucoll, NULL, A, s->entropy, 1)); NO(unary_collision_model("n", obs_urate, NULL, NULL, A, s->entropy, 1)); NO(unary_collision_model("n", obs_urate, obs_ucoll, NULL, NULL, s->entropy, 1)); NO(unary_collision_model("n", obs_urate, obs_ucoll, NULL, A, NULL, 1)); NO(unary_collision_model("", obs_urate, obs_ucoll, NULL, A, s->entropy, 1)); static int unregistered; NO(unary_collision_model("n", obs_urate, obs_ucoll, &unregistered, A, s->entropy, 1)); NO(binary_collision_model("n", obs_rate, obs_coll, &unregistered, A, B, s->entropy, 1, 1));
  NO(takizuka_abe("n", NULL, B, s->entropy, 1, 1)); NO(takizuka_abe("n", A, NULL, s->entropy, 1, 1)); NO(takizuka_abe("n", A, B, NULL, 1, 1)); NO(takizuka_abe("", A, B, s->entropy, 1, 1)); NO(langevin(-1, 1, A, s->entropy, 1)); NO(langevin(1, -1, A, s->entropy, 1)); NO(langevin(1, 1, NULL, s->entropy, 1)); NO(langevin(1, 1, A, NULL, 1)); NO(hard_sphere("n", A, -1, B, 1, s->entropy, 1, 1)); NO(hard_sphere("n", NULL, 1, B, 1, s->entropy, 1, 1)); NO(hard_sphere_fluid("n", -1, 0, 0, 0, 1, 1, 1, A, 1, s->entropy, 1)); NO(hard_sphere_fluid("n", 1, 0, 0, 0, -1, 1, 1, A, 1, s->entropy, 1)); NO(hard_sphere_fluid("n", 1, 0, 0, 0, 1, 0, 1, A, 1, s->entropy, 1)); NO(large_angle_coulomb_fluid("n", 1, 0, 0, 0, 1, 0, 1, A, 1, s->entropy, 1)); NO(large_angle_coulomb("n", NULL, B, 1, s->entropy, 1, 1)); NO(append_collision_op(NULL, &s->collision_op_list));
  if (np > 1) { NO(binary_collision_model("n", obs_rate, obs_coll, NULL, A, B, few, 1, 1)); NO(unary_collision_model("n", obs_urate, obs_ucoll, NULL, A, few, 1)); NO(takizuka_abe("n", A, B, few, 1, 1)); NO(langevin(1, 1, A, few, 1)); }
  delete_rng_pool(few);
  // cells with so many particles that the raw random words do not divide evenly; the largest words are forced
  if (np == 1) { rng_t* a = new_rng(20); std::vector<uint32_t> w(352); for (auto& x : w) x = u32rand(a); delete_rng(a); rng_t* J = s->entropy->rng[0]; seed_rng(J, 20); u32rand(J); uint32_t* base = (uint32_t*)J; int off = -1; for (int o = 0; o < 64 && off < 0; o++) if (!memcmp(base + o, w.data(), 4 * 300)) off = o; if (off < 0) vmc_count("noforce", 1); else for (int big : { 3, 7, 65535, 65536, 65537, 70001, 99991, 100000 }) for (int intra = 0; intra < 2; intra++) { X = A; Y = intra ? A : B; rate2 = none; fill(A, [=](int k) { return k == 20 ? big : k == 21 ? 300 : 0; }, [](int) { return 1.f; }, 0.1); fill(B, [=](int k) { return k == 20 ? big : k == 21 ? 300 : 0; }, [](int) { return 1.f; }, 0.1); append_collision_op(binary_collision_model("o", obs_rate, obs_coll, NULL, X, Y, s->entropy, 100. / big, 1), &s->collision_op_list); g->step = 3; sort_p(A); sort_p(B); A->last_sorted = B->last_sorted = 3; clear(); for (uint32_t base0 : { 0xffffffffu, 0xfffffff0u, 0xffff8000u }) { seed_rng(J, 20); u32rand(J); for (int z = 0; z < 351; z++) base[off + 1 + z] = base0 - (base0 == 0xffffffffu ? 0 : (uint32_t)(z * 37)); apply_collision_op_list(s->collision_op_list); nst++; } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; } }
  if (np == 1) { rng_t* a = new_rng(20); std::vector<uint32_t> w(352); for (auto& x : w) x = u32rand(a); delete_rng(a); rng_t* J = s->entropy->rng[0]; seed_rng(J, 20); u32rand(J); uint32_t* base = (uint32_t*)J; int off = -1; for (int o = 0; o < 64 && off < 0; o++) if (!memcmp(base + o, w.data(), 4 * 300)) off = o; if (off >= 0) for (int nk = 1; nk < 9; nk++) for (int at = 0; at < 24; at++) for (uint32_t word : { 0xffffffffu, 0u, 0xfffffffeu, 0x80000000u }) for (int intra = 0; intra < 2; intra++) { fill(A, [=](int k) { return nk + k % 2; }, [](int) { return 1.f; }, 0.1); fill(B, [=](int k) { return k % 5; }, [](int) { return 1.f; }, 0.1); Snap o = snap(A), ob = snap(B); append_collision_op(takizuka_abe("t", A, intra ? A : B, s->entropy, 1, 1), &s->collision_op_list); g->step = 3; sort_p(A); sort_p(B); A->last_sorted = B->last_sorted = 3; std::vector<std::array<double, 4>> M0(g->nv, { 0, 0, 0, 0 }), M1 = M0; mom(A, MA, M0); mom(B, MB, M0); seed_rng(J, 20); u32rand(J); for (int z = 0; z < 351; z++) if (z == at || at == 23) base[off + 1 + z] = word; apply_collision_op_list(s->collision_op_list); nst++; check_still("Takizuka-Abe", A, o, false); check_still("Takizuka-Abe", B, ob, intra); for (int v = 0; v < g->nv; v++) for (int i = A->partition[v]; i < (v + 1 < g->nv ? A->partition[v + 1] : A->np); i++) WANT(A->p[i].i == v, "order: Takizuka-Abe leaves a particle of voxel %d among those of voxel %d", A->p[i].i, v); mom(A, MA, M1); mom(B, MB, M1); for (int v = 0; v < g->nv; v++) for (int c = 0; c < 4; c++) WANT(fabs(M1[v][c] - M0[v][c]) <= 1e-5, "conservation: with an extreme random word"); delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; } }
  close(); }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); rs = 77 + mode; boot_all(); if (mode == 0) pairing(); else if (mode == 1) unary(); else if (mode == 2) conserve(); else if (mode == 3) angles(); else if (mode == 4) drag(); else if (mode == 5) fluid(); else limits();
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst); mp_barrier(); halt_services(); }
