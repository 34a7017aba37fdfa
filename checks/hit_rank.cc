// C21: particles launched at walls with handlers, against a geometric model of their paths.
#include "deck.h"
static long nst, ntr, nhit; static int P[3], N[3], nl[3], C[3], how; static VS* s; static grid_t* g; static double lo[3], hi[3];
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
enum { PERIODIC, REFLECT, ABSORB, TALLY1, REFLUX1, TALLY2, REFLUX2 };
struct Plane { int axis, k, kind[2]; }; // kind[0]: what a particle moving up meets, kind[1]: moving down
static std::vector<Plane> planes; static particle_bc_t* H[7]; static const double DT = 0.09, CV = 1.25; static const double SQ[2] = { -0.75, 2 }, SM[2] = { 1.5, 1 };
static double ut[7][2][2]; // handler, species, para/perp
static double cell(int a) { return (hi[a] - lo[a]) / N[a]; }
static double gx0(int a) { return a == 0 ? g->x0 : a == 1 ? g->y0 : g->z0; } static double gx1(int a) { return a == 0 ? g->x1 : a == 1 ? g->y1 : g->z1; }
static void vox(int i, int* v) { v[0] = i % (nl[0] + 2); v[1] = i / (nl[0] + 2) % (nl[1] + 2); v[2] = i / (nl[0] + 2) / (nl[1] + 2); }
static double where(const particle_t* p, int a) { int v[3]; vox(p->i, v); double d = a == 0 ? p->dx : a == 1 ? p->dy : p->dz; return gx0(a) + (v[a] - 1 + 0.5 * (d + 1)) * (gx1(a) - gx0(a)) / nl[a]; }
static bool valid(const particle_t* p) { int v[3]; vox(p->i, v); for (int a = 0; a < 3; a++) if (v[a] < 1 || v[a] > nl[a]) return false; return fabs(p->dx) <= 1 && fabs(p->dy) <= 1 && fabs(p->dz) <= 1; }
static int64_t code(int kind) { return kind == REFLECT ? reflect_particles : kind == ABSORB ? absorb_particles : get_particle_bc_id(H[kind]); }
static species_t* spc(int i) { species_t* sp; LIST_FOR_EACH(sp, s->species_list) if (sp->id == i) return sp; return NULL; }
static void deck(VS* v, int np) { v->define_units(CV, 0.8); v->define_timestep(DT); v->verbose = 0; v->define_periodic_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], N[0], N[1], N[2], P[0], P[1], P[2]); g = v->grid; nl[0] = g->nx; nl[1] = g->ny; nl[2] = g->nz; C[0] = world_rank % P[0]; C[1] = world_rank / P[0] % P[1]; C[2] = world_rank / P[0] / P[1];
  v->define_material("vacuum", 1); v->define_field_array(); for (int i = 0; i < 2; i++) v->define_species(i ? "ion" : "el", SQ[i], SM[i], np, np, 0, 0); for (int h : { TALLY1, REFLUX1, TALLY2, REFLUX2 }) H[h] = v->define_particle_bc(h == TALLY1 || h == TALLY2 ? absorb_tally(v->species_list, v->field_array) : maxwellian_reflux(v->species_list, v->entropy)); species_t* sp; for (int h : { REFLUX1, REFLUX2 }) LIST_FOR_EACH(sp, v->species_list) set_reflux_temp(H[h], sp, ut[h][sp->id][0], ut[h][sp->id][1]);
  int dom[6][3] = { { -1, 0, 0 }, { 0, -1, 0 }, { 0, 0, -1 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } };
  for (const Plane& p : planes) for (int z = 0; z < 2; z++) if (p.kind[z]) { bool outer = (z == 0 && p.k == N[p.axis]) || (z == 1 && p.k == 0); int cellk = z == 0 ? p.k - 1 : p.k, v0 = cellk - C[p.axis] * nl[p.axis] + 1; if (v0 < 1 || v0 > nl[p.axis]) continue; int tag = p.axis + (z == 0 ? 3 : 0); int* d = dom[tag]; if (outer) { v->set_domain_field_bc(BOUNDARY(d[0], d[1], d[2]), pec_fields); v->set_domain_particle_bc(BOUNDARY(d[0], d[1], d[2]), (int)code(p.kind[z])); } else { int b = (p.axis + 1) % 3, c = (p.axis + 2) % 3, w[3]; w[p.axis] = v0; for (w[b] = 1; w[b] <= nl[b]; w[b]++) for (w[c] = 1; w[c] <= nl[c]; w[c]++) g->neighbor[6 * VOXEL(w[0], w[1], w[2], nl[0], nl[1], nl[2]) + tag] = code(p.kind[z]); } } }
static void open(int np) { HK = Hooks(); HK.init = [=](VS* v) { deck(v, np); }; s = simulation = new vpic_simulation(); s->initialize(0, NULL); }
static void close() { s->finalize(); delete s; simulation = NULL; }
struct R { int sp; double x[3], u[3]; float w; /* prediction: */ int end; bool tie; double h[3], vel[3], left; int flip[3]; bool up; int ax; }; // end: 0 still there, else the kind of wall that took it
static void trace(R& r) { double gm = sqrt(1 + r.u[0] * r.u[0] + r.u[1] * r.u[1] + r.u[2] * r.u[2]); r.end = 0; r.tie = false; r.left = DT; r.ax = -1; for (int a = 0; a < 3; a++) { r.h[a] = r.x[a]; r.vel[a] = r.u[a] * CV / gm; r.flip[a] = 0; }
  for (int it = 0; it < 50; it++) { double best = r.left; const Plane* bp = NULL; int n = 0; static Plane wrap; for (int a = 0; a < 3; a++) if (r.vel[a]) for (int k = 0; k <= N[a]; k++) { double t = (lo[a] + k * cell(a) - r.h[a]) / r.vel[a]; if (it && a == r.ax && fabs(t * r.vel[a]) < 1e-9) t = -1; if (t < 0 || t > r.left) continue; const Plane* q = NULL; for (const Plane& p : planes) if (p.axis == a && p.k == k) q = &p; int z = r.vel[a] < 0; bool w = !q || !q->kind[z]; if (w && k != (z ? 0 : N[a])) continue; if (fabs(t - best) * fabs(r.vel[a]) < 3e-5 * cell(a)) n++; else if (t < best) n = 0; if (t <= best) { best = t; if (w) { wrap.axis = a; wrap.k = k; wrap.kind[0] = wrap.kind[1] = 0; bp = &wrap; } else bp = q; } }
    for (int a = 0; a < 3; a++) r.h[a] += r.vel[a] * best; r.left -= best; if (n) r.tie = true; if (!bp) return; int a = bp->axis, z = r.vel[a] < 0, kd = bp->kind[z]; r.ax = a; r.h[a] = lo[a] + bp->k * cell(a); if (!kd) { r.h[a] += z ? hi[a] - lo[a] : lo[a] - hi[a]; } else if (kd == REFLECT) { r.vel[a] = -r.vel[a]; r.flip[a] ^= 1; } else { r.end = kd; r.up = !z; return; } } vmc_fail("model: endless path"); }
static int owner(const R& r) { int c[3]; for (int a = 0; a < 3; a++) { double t = (r.h[a] - lo[a]) / cell(a); int k = a == r.ax ? (int)lround(t) - (r.up ? 1 : 0) : (int)floor(t); c[a] = std::min(std::max(k, 0), N[a] - 1) / nl[a]; } return c[0] + P[0] * (c[1] + P[1] * c[2]); }
static void put_rhob(std::vector<double>& m, const R& r, double q) { int v[3]; double f[3]; for (int a = 0; a < 3; a++) { double t = (r.h[a] - lo[a]) / cell(a); int k = a == r.ax ? (int)lround(t) - (r.up ? 1 : 0) : (int)floor(t); k = std::min(std::max(k, 0), N[a] - 1); f[a] = t - k; v[a] = k - C[a] * nl[a] + 1; } for (int k = 0; k < 8; k++) { double w = q * r.w / g->dV; int e[3]; for (int a = 0; a < 3; a++) { int b = k >> a & 1; e[a] = v[a] + b; w *= b ? f[a] : 1 - f[a]; if (e[a] == 1 || e[a] == nl[a] + 1) w *= 2; } m[VOXEL(e[0], e[1], e[2], nl[0], nl[1], nl[2])] += w; } }
static void launch(std::vector<R>& W) { for (size_t i = 0; i < W.size(); i++) { R& r = W[i]; species_t* sp = spc(r.sp); int v[3]; float o[3]; bool in = true; for (int a = 0; a < 3; a++) { double t = (r.x[a] - lo[a]) / cell(a); int k = (int)floor(t); v[a] = k - C[a] * nl[a] + 1; o[a] = 2 * (t - k) - 1; if (v[a] < 1 || v[a] > nl[a]) in = false; } if (!in) continue; int vx = VOXEL(v[0], v[1], v[2], nl[0], nl[1], nl[2]); double gm = sqrt(1 + r.u[0] * r.u[0] + r.u[1] * r.u[1] + r.u[2] * r.u[2]), k = CV * DT / gm; if (how == 0) s->inject_particle_raw(sp, o[0], o[1], o[2], vx, r.u[0], r.u[1], r.u[2], r.w, r.u[0] * k / cell(0), r.u[1] * k / cell(1), r.u[2] * k / cell(2), 0); else s->inject_particle_raw(sp, o[0], o[1], o[2], vx, r.u[0], r.u[1], r.u[2], r.w); }
  species_t* sp; if (how) { memset(s->interpolator_array->i, 0, sizeof(interpolator_t) * g->nv); LIST_FOR_EACH(sp, s->species_list) advance_p(sp, s->accumulator_array, s->interpolator_array); } reduce_accumulator_array(s->accumulator_array); for (int k = 0, left = 1; left; k++) { WANT(k < 100, "movers: a motion does not end"); boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); int nm = 0; LIST_FOR_EACH(sp, s->species_list) nm += sp->nm; mp_allsum_i(&nm, &left, 1); } }
static void aim(int from) {
  static const double O[3] = { -0.87, 0.13, 0.94 }; int nc = N[0] * N[1] * N[2];
  for (int sub = 0; sub < 26; sub += 1) { int d = sub < 13 ? sub : sub + 1; if (from >= 0 && sub % 3 != from) continue; double um = sub % 4 == 0 ? 0.25 : 3; std::vector<R> W; int id = 0; for (int c = 0; c < nc; c++) for (int o = 0; o < 27; o++) { int cc[3] = { c % N[0], c / N[0] % N[1], c / N[0] / N[1] }, oo[3] = { o % 3, o / 3 % 3, o / 9 }, dd[3] = { d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1 }; R r; r.sp = (c + o) % 2; for (int a = 0; a < 3; a++) { r.x[a] = lo[a] + (cc[a] + 0.5 + 0.5 * (O[oo[a]] + 0.003 * ((o + a) % 5))) * cell(a); r.u[a] = (float)(um * (dd[a] * (1 + 0.1 * a) + 0.02 * (a - 0.7))); } r.w = 1 + id++ / 65536.f; trace(r); W.push_back(r); }
    open((int)W.size() * 8 + 64); clear_accumulator_array(s->accumulator_array); for (int i = 0; i < g->nv; i++) s->field_array->f[i].rhob = 0; launch(W);
    std::vector<double> rb(g->nv, 0.); long tl[7][2] = { { 0 } }; bool tie = false; for (R& r : W) { if (r.tie) { tie = true; continue; } if ((r.end == ABSORB || r.end == TALLY1 || r.end == TALLY2) && owner(r) == world_rank) { put_rhob(rb, r, SQ[r.sp]); if (r.end != ABSORB) tl[r.end][r.sp]++; } }
    std::vector<int> seen(W.size(), 0), tot(W.size()), again(W.size(), 0), tota(W.size()); double J[3] = { 0 }; species_t* sp;
    LIST_FOR_EACH(sp, s->species_list) for (int n = 0; n < sp->np; n++) { particle_t* p = sp->p + n; int k = (int)lround((p->w - 1) * 65536.); WANT(k >= 0 && k < (int)W.size() && valid(p) && p->w == W[k].w && W[k].sp == sp->id, "damaged: a particle has the weight %g, voxel %d", p->w, p->i); seen[k]++; R& r = W[k]; if (r.tie) continue; double u[3] = { p->ux, p->uy, p->uz }; if (r.end == 0) { for (int a = 0; a < 3; a++) { double L = hi[a] - lo[a], df = fabs(where(p, a) - r.h[a]); while (df > 0.5 * L) df = fabs(df - L); WANT(df <= 8e-6 * cell(a), "untouched: position along axis %d is %g instead of %g", a, where(p, a), r.h[a]); double w = r.flip[a] ? -r.u[a] : r.u[a]; WANT(fabs(u[a] - w) <= 2e-6 * (1 + fabs(w)), "untouched: momentum along axis %d is %g instead of %g", a, u[a], w); } continue; }
      if (r.end == ABSORB || r.end == TALLY1 || r.end == TALLY2) { vmc_fail("removed: a particle which met %s is still there", r.end == ABSORB ? "an absorbing wall" : "a tallying wall"); }
      // re-emitted: from the point of the hit, away from the wall, for the rest of the step
      int hd = r.end; double upara = ut[hd][r.sp][0], uperp = ut[hd][r.sp][1], away = (r.up ? -1 : 1) * u[r.ax]; R q = r; double gm = sqrt(1 + u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); // it may go on to other walls: undo their reflections by trying the eight signs
      bool ok = false; std::string why; for (int sg = 0; sg < 8 && !ok; sg++) { double uu[3]; bool fit = true; for (int a = 0; a < 3; a++) uu[a] = sg >> a & 1 ? -u[a] : u[a]; if ((r.up ? -1 : 1) * uu[r.ax] < 0) continue; q = r; for (int a = 0; a < 3; a++) { q.x[a] = r.h[a]; q.u[a] = uu[a]; q.x[a] = std::min(std::max(q.x[a], lo[a]), hi[a]); } q.x[r.ax] += (r.up ? -1 : 1) * 1e-10 * cell(r.ax); double keep = r.left; { R t = q; t.end = 0; t.left = keep; double sc = keep / DT; // the path of the remaining time, traced as a full step with a scaled velocity
            double v[3]; for (int a = 0; a < 3; a++) v[a] = uu[a] * CV / gm * sc; t.tie = false; t.ax = -1; for (int a = 0; a < 3; a++) { t.h[a] = q.x[a]; t.flip[a] = 0; } double b2 = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) / (CV * CV), k = 1 / sqrt(1 - b2); for (int a = 0; a < 3; a++) t.u[a] = v[a] / CV * k; trace(t); if (t.tie || t.end) { if (t.end == REFLUX1 || t.end == REFLUX2 || t.tie) { ok = true; again[(int)lround((p->w - 1) * 65536.)]++; } continue; } for (int a = 0; a < 3 && fit; a++) { if ((t.flip[a] != 0) != ((sg >> a & 1) != 0)) fit = false; double L = hi[a] - lo[a], df = fabs(where(p, a) - t.h[a]); while (df > 0.5 * L) df = fabs(df - L); if (df > 2e-5 * cell(a)) { fit = false; if (sg == 0) { char b[200]; snprintf(b, sizeof b, "axis %d is %g instead of %g", a, where(p, a), t.h[a]); why = b; } } } if (fit) ok = true; } }
      if (!ok) { double um = 8 * std::max(std::max(ut[hd][r.sp][0], ut[hd][r.sp][1]), 1e-3), reach = r.left * CV * um / sqrt(1 + um * um) + 1e-4; bool near = false; for (const Plane& p : planes) for (int z = 0; z < 2; z++) if ((p.kind[z] == REFLUX1 || p.kind[z] == REFLUX2) && p.axis != r.ax && fabs(lo[p.axis] + p.k * cell(p.axis) - r.h[p.axis]) <= reach) near = true; if (near) { ok = true; again[(int)lround((p->w - 1) * 65536.)]++; } } // re-emitted again, from a wall nearby
      WANT(ok, "re-emitted: a particle from the %s wall of axis %d is not where it should be (%s), momentum away from the wall %g", r.up ? "upper" : "lower", r.ax, why.c_str(), away); int k0 = (int)lround((p->w - 1) * 65536.); if (!again[k0]) { WANT(fabs(u[r.ax]) <= 8 * upara, "re-emitted: normal momentum %g for a temperature momentum of %g", u[r.ax], upara); for (int a = 0; a < 3; a++) if (a != r.ax) WANT(fabs(u[a]) <= 8 * uperp, "re-emitted: tangential momentum %g for a temperature momentum of %g", u[a], uperp); nhit++; } }
    mp_allsum_i(seen.data(), tot.data(), (int)seen.size()); mp_allsum_i(again.data(), tota.data(), (int)again.size()); long lost[2] = { 0, 0 }, gone[2] = { 0, 0 }; for (size_t i = 0; i < W.size(); i++) { R& r = W[i]; WANT(tot[i] <= 1, "copies: a particle is there %d times", tot[i]); if (r.tie) { gone[r.sp] += !tot[i]; continue; } if (!r.end) WANT(tot[i] == 1, "untouched: a particle that met no wall with a handler is gone"); if ((r.end == REFLUX1 || r.end == REFLUX2) && !tot[i]) { lost[r.sp]++; gone[r.sp]++; } if (r.end == ABSORB || r.end == TALLY1 || r.end == TALLY2) gone[r.sp]++; }
    bool sinks = false; for (const Plane& p : planes) for (int z = 0; z < 2; z++) if (p.kind[z] == ABSORB || p.kind[z] == TALLY1 || p.kind[z] == TALLY2) sinks = true; if (!sinks) WANT(!lost[0] && !lost[1], "re-emitted: %ld particles are gone", lost[0] + lost[1]);
    for (size_t i = 0; i < again.size(); i++) if (tota[i]) tie = true; bool exact = !tie && !lost[0] && !lost[1]; double amb = exact ? 0 : 1; mp_allsum_d(&amb, &J[0], 1); amb = J[0];
    int T[4], TT[4], Z = 0; for (int h : { TALLY1, TALLY2 }) for (int i = 0; i < 2; i++) { int t = get_absorb_tally(H[h])[i]; T[Z++] = t; if (amb == 0) WANT(t == tl[h][i], "tally: handler %d counts %d particles of species %d instead of %ld on this rank", h, t, i, tl[h][i]); else WANT(t >= tl[h][i], "tally: handler %d counts %d particles of species %d, fewer than %ld", h, t, i, tl[h][i]); } mp_allsum_i(T, TT, 4);
    bool hasabs = false; for (const Plane& p : planes) if (p.kind[0] == ABSORB || p.kind[1] == ABSORB) hasabs = true; if (!hasabs) for (int i = 0; i < 2; i++) WANT(TT[i] + TT[2 + i] == gone[i], "tally: %d particles of species %d counted, %ld gone", TT[i] + TT[2 + i], i, gone[i]);
    if (amb == 0) for (int i = 0; i < g->nv; i++) { double t = s->field_array->f[i].rhob; WANT(fabs(t - rb[i]) <= 1e-4 * (fabs(rb[i]) + 0.2 / g->dV), "charge: the wall carries %g instead of %g at node %d", t, rb[i], i); }
    double qs = 0, Q; for (int k = 1; k <= nl[2] + 1; k++) for (int j = 1; j <= nl[1] + 1; j++) for (int i = 1; i <= nl[0] + 1; i++) { double w = s->field(i, j, k).rhob; int e[3] = { i, j, k }; for (int a = 0; a < 3; a++) if (e[a] == 1 || e[a] == nl[a] + 1) w *= 0.5; qs += w * g->dV; } mp_allsum_d(&qs, &Q, 1); double want = 0, sc = 1; for (size_t i = 0; i < W.size(); i++) if (!tot[i]) { want += SQ[W[i].sp] * W[i].w; sc += 2; } WANT(fabs(Q - want) <= 1e-5 * sc, "charge: %g left on the walls by particles of charge %g", Q, want);
    nst += (long)W.size(); LIST_FOR_EACH(sp, s->species_list) sp->np = 0; close(); }
  int hit = (int)nhit, ht; mp_allsum_i(&hit, &ht, 1); bool rf = false; for (const Plane& p : planes) for (int z = 0; z < 2; z++) if (p.kind[z] == REFLUX1 || p.kind[z] == REFLUX2) rf = true; if (rf) WANT(ht > 20, "coverage: only %d exact re-emissions", ht); }
// the current of the reversed path: one particle at a time, all faces
static void paths() {
  for (int sub = 0; sub < 26; sub++) { int d = sub < 13 ? sub : sub + 1, dd[3] = { d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1 }; for (int k = 0; k < 8; k++) for (int i = 0; i < 2; i++) { R r; r.sp = i; r.w = 1.5; for (int a = 0; a < 3; a++) { double o = k >> a & 1 ? 0.91 : -0.93; int c = k >> a & 1 ? N[a] - 1 : 0; r.x[a] = lo[a] + (c + 0.5 + 0.5 * o) * cell(a); r.u[a] = (float)(2 * dd[a] + 0.04 * (a - 0.7)); } trace(r); std::vector<R> W(1, r); open(64); clear_accumulator_array(s->accumulator_array); launch(W); species_t* sp = spc(i); double loc[3] = { 0 }, tot[3]; accumulator_t* a0 = s->accumulator_array->a; for (int v = 0; v < g->nv; v++) for (int z = 0; z < 4; z++) { loc[0] += a0[v].jx[z]; loc[1] += a0[v].jy[z]; loc[2] += a0[v].jz[z]; } mp_allsum_d(loc, tot, 3); double f[3] = { 0 }, ff[3]; int n = sp->np, nn; mp_allsum_i(&n, &nn, 1); double hn[3]; if (sp->np) { for (int a = 0; a < 3; a++) f[a] = where(sp->p, a); } mp_allsum_d(f, ff, 3); nst++; WANT(nn == (r.end == ABSORB || r.end == TALLY1 || r.end == TALLY2 ? 0 : 1) || r.tie || r.end == REFLUX1 || r.end == REFLUX2, "current: %d particles left", nn); if (nn > 1) vmc_fail("copies: %d particles left of one", nn);
        bool wall = true; for (const Plane& p : planes) if (p.k != 0 && p.k != N[p.axis]) wall = false; if (wall) for (int a = 0; a < 3; a++) { bool per = true; for (const Plane& p : planes) if (p.axis == a) per = false; hn[a] = nn ? ff[a] : r.h[a]; double path = hn[a] - r.x[a], L = hi[a] - lo[a], got = tot[a] * 0.25 * cell(a) / (SQ[i] * r.w), df = fabs(got - path); if (per) while (df > 0.5 * L) df = fabs(df - L); if (!nn && (r.tie || r.end == REFLUX1 || r.end == REFLUX2)) continue; WANT(df <= 2e-5 * cell(a), "current: a particle moved by %g along axis %d but its current is that of a motion of %g (end %d)", path, a, got, r.end); }
        LIST_FOR_EACH(sp, s->species_list) sp->np = 0; close(); } } }
// law of the re-emitted momenta for each face and species
static void law() {
  struct Mo { double n, m1, m2, t[2], tt[2], nt[2], tu; }; const int M = 24000; open(2 * M); species_t* sp; int ax = planes[0].axis, z = planes[0].k ? 0 : 1, kd = planes[0].kind[z]; double sgn = z ? 1 : -1; LIST_FOR_EACH(sp, s->species_list) for (int inc = 0; inc < 2; inc++) { sp->np = sp->nm = 0; for (int n = 0; n < M; n++) { double u[3], o[3], um = inc ? 4 : 0.4; for (int a = 0; a < 3; a++) { u[a] = a == ax ? -sgn * um : (inc ? 0.3 : -0.01) * (a + 1); o[a] = a == ax ? -sgn * 0.999 : 0.01; } int v[3]; for (int a = 0; a < 3; a++) v[a] = a == ax ? (z ? 1 : nl[a]) : (nl[a] + 1) / 2; double k = CV * DT / sqrt(1 + u[0] * u[0] + u[1] * u[1] + u[2] * u[2]); s->inject_particle_raw(sp, o[0], o[1], o[2], VOXEL(v[0], v[1], v[2], nl[0], nl[1], nl[2]), u[0], u[1], u[2], 1, u[0] * k / cell(0), u[1] * k / cell(1), u[2] * k / cell(2), 0); } int before = sp->np; boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); WANT(sp->np == before && sp->nm == 0, "law: %d of %d particles left", sp->np, before);
    double up = ut[kd][sp->id][0], ue = ut[kd][sp->id][1], m1 = 0, m2 = 0, t[2] = { 0 }, tt[2] = { 0 }, nt[2] = { 0 }, t4[2] = { 0 }, tu = 0; for (int n = 0; n < sp->np; n++) { particle_t* p = sp->p + n; double u[3] = { p->ux, p->uy, p->uz }, un = sgn * u[ax]; WANT(un > 0, "law: a particle does not move away from the wall"); m1 += un; m2 += un * un; for (int b = 0; b < 2; b++) { double w = u[(ax + 1 + b) % 3]; t[b] += w; tt[b] += w * w; t4[b] += w * w * w * w; nt[b] += w * un; } tu += u[(ax + 1) % 3] * u[(ax + 2) % 3]; } double n = sp->np; nst++; m1 /= n; m2 /= n; WANT(fabs(m1 - 1.2533 * up) < 0.03 * up && fabs(m2 - 2 * up * up) < 0.08 * up * up, "law: normal momentum of species %d from the %s wall of axis %d has mean %g and mean square %g for a temperature momentum of %g", sp->id, z ? "lower" : "upper", ax, m1, m2, up); for (int b = 0; b < 2; b++) { WANT(fabs(t[b] / n) <= 0.04 * ue && fabs(tt[b] / n - ue * ue) <= 0.06 * ue * ue && fabs(t4[b] / n - 3 * ue * ue * ue * ue) <= 0.5 * ue * ue * ue * ue, "law: tangential momentum of species %d has mean %g and mean square %g for a temperature momentum of %g", sp->id, t[b] / n, tt[b] / n, ue); WANT(fabs(nt[b] / n) <= 0.06 * up * ue, "law: normal and tangential momentum are correlated"); } WANT(fabs(tu / n) <= 0.05 * ue * ue, "law: tangential momenta are correlated"); sp->np = 0; }
  close(); }
// 32 handlers, each on its own face of its own cell; bad arguments; a species defined after the handlers
static void many() {
  planes.clear(); open(4096); particle_bc_t* T[32]; delete_particle_bc_list(s->particle_bc_list); s->particle_bc_list = NULL; int nb = 0; for (; nb < 32; nb++) T[nb] = s->define_particle_bc(absorb_tally(s->species_list, s->field_array)); int k = 0; std::vector<std::pair<int, int>> F; for (int z = 1; z <= nl[2]; z++) for (int y = 1; y <= nl[1]; y++) for (int x = 1; x <= nl[0]; x++) for (int f = 0; f < 6; f++) { int v = VOXEL(x, y, z, nl[0], nl[1], nl[2]); g->neighbor[6 * v + f] = get_particle_bc_id(T[k % 32]); F.push_back({ v, f }); k++; }
  for (size_t i = 0; i < F.size(); i++) for (int sp = 0; sp < 2; sp++) { species_t* q = spc(sp); double d[3] = { 0, 0, 0 }; int f = F[i].second; d[f % 3] = f < 3 ? -1.5 : 1.5; s->inject_particle_raw(q, 0.1, -0.2, 0.3, F[i].first, d[0], d[1], d[2], 1, d[0], d[1], d[2], 0); boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); WANT(q->np == 0, "many: particle not removed"); nst++; for (int b = 0; b < 32; b++) for (int o = 0; o < 2; o++) { int w = 0; for (size_t j = 0; j <= i; j++) if ((int)(j % 32) == b) w += j < i || o <= sp; WANT(get_absorb_tally(T[b])[o] == w, "many: handler %d counts %d of species %d instead of %d", b, get_absorb_tally(T[b])[o], o, w); } if (i > 200) break; }
  species_t* el = spc(0); WANT(refused([&] { maxwellian_reflux(NULL, s->entropy); }) && refused([&] { maxwellian_reflux(s->species_list, NULL); }) && refused([&] { absorb_tally(NULL, s->field_array); }) && refused([&] { absorb_tally(s->species_list, NULL); }) && refused([&] { get_absorb_tally(NULL); }), "refused: a handler without its objects is accepted"); particle_bc_t* mr = maxwellian_reflux(s->species_list, s->entropy); WANT(refused([&] { set_reflux_temp(NULL, el, 1, 1); }) && refused([&] { set_reflux_temp(mr, NULL, 1, 1); }) && refused([&] { set_reflux_temp(mr, el, -1, 1); }) && refused([&] { set_reflux_temp(mr, el, 1, -0.1); }), "refused: bad re-emission temperatures are accepted"); particle_bc_t* x = s->define_particle_bc(mr); (void)x; WANT(refused([&] { boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); }), "many: a 33rd handler is accepted silently"); 
  close(); }
static void late() { // a species the handler does not know: refused, or else treated like any other
  planes.clear(); Plane pl = { 0, 0, { 0, TALLY1 } }; planes.push_back(pl); pl = Plane{ 0, N[0], { REFLUX1, 0 } }; planes.push_back(pl); open(256); for (int i = 0; i < 40; i++) { char nm[16]; snprintf(nm, sizeof nm, "late%d", i); if (i + 2 < 32) s->define_species(nm, 1, 1, 256, 256, 0, 0); } int ns = num_species(s->species_list); for (int i = 2; i < ns; i++) { species_t* sp = spc(i); nst++; bool r = refused([&] { set_reflux_temp(H[REFLUX1], sp, 0.3, 0); }); if (!r) { int v = VOXEL(nl[0], 1, 1, nl[0], nl[1], nl[2]); s->inject_particle_raw(sp, 0.9, 0, 0, v, 2, 0, 0, 1, 0.1, 0, 0, 0); boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); WANT(sp->np == 1 && sp->p[0].ux < 0 && sp->p[0].uy == 0, "late: species %d, defined after the handler, is not re-emitted with its temperature", i); for (int j = 0; j < 2; j++) { species_t* o = spc(j); s->inject_particle_raw(o, 0.9, 0, 0, v, 2, 0, 0, 1, 0.1, 0, 0, 0); boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); WANT(o->np == 1 && fabs(o->p[0].ux) < 9 * ut[REFLUX1][j][0], "late: another species has changed"); o->np = 0; } sp->np = 0; }
    int v = VOXEL(1, 1, 1, nl[0], nl[1], nl[2]); int t0 = get_absorb_tally(H[TALLY1])[0], t1 = get_absorb_tally(H[TALLY1])[1]; int before = -1; bool rr = refused([&] { s->inject_particle_raw(sp, -0.9, 0, 0, v, -2, 0, 0, 1, -0.1, 0, 0, 0); boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); }); WANT(rr || !r, "late: a species the re-emitting wall refuses is accepted by the tallying wall"); if (!rr) WANT(get_absorb_tally(H[TALLY1])[i] == 1, "late: particle of species %d, defined after the handler, is not counted", i); WANT(get_absorb_tally(H[TALLY1])[0] == t0 && get_absorb_tally(H[TALLY1])[1] == t1, "late: another species is counted"); (void)before; sp->np = sp->nm = 0; }
  species_t* sp; LIST_FOR_EACH(sp, s->species_list) sp->np = sp->nm = 0; close(); }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); how = (int)vmc_par(1); for (int a = 0; a < 3; a++) { P[a] = (int)vmc_par(2 + a); N[a] = (int)vmc_par(5 + a); lo[a] = -1 + a; hi[a] = lo[a] + N[a] * (0.125 + 0.03125 * a); }
  int np = (int)vmc_par(8); for (int i = 0; i < np; i++) { Plane p = { (int)vmc_par(9 + 4 * i), (int)vmc_par(10 + 4 * i), { (int)vmc_par(11 + 4 * i), (int)vmc_par(12 + 4 * i) } }; planes.push_back(p); }
  double small = mode == 2 ? 1 : 0.35; for (int i = 0; i < 2; i++) { ut[REFLUX1][i][0] = small * (i ? 0.6 : 0.15); ut[REFLUX1][i][1] = small * (i ? 0.1 : 0.4); ut[REFLUX2][i][0] = small * (i ? 0.05 : 0.3); ut[REFLUX2][i][1] = i ? small * 0.25 : 0; }
  boot_all(); if (mode == 0) aim((int)vmc_par(40)); else if (mode == 1) paths(); else if (mode == 2) law(); else if (mode == 3) many(); else late();
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst); mp_barrier(); halt_services(); }
