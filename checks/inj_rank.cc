// C17: injection at every kind of position, ageing, and surface emission, against a geometric model.
#include "deck.h"
static long nst, ntr; static int P[3], N[3], nl[3], kind, C[3]; static VS* s; static grid_t* g; static species_t* sp; static double lo[3], hi[3];
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
static double gx0(int a) { return a == 0 ? g->x0 : a == 1 ? g->y0 : g->z0; } static double gx1(int a) { return a == 0 ? g->x1 : a == 1 ? g->y1 : g->z1; }
static double cell(int a) { return (hi[a] - lo[a]) / N[a]; }
static bool periodic(int a) { return kind == 0 || N[a] == 1; }
static void deck(VS* v, double dt, int np, int nm, double q = -0.75, double m = 1.5) { v->define_units(1.25, 0.8); v->define_timestep(dt); v->verbose = 0; const double* l = lo; const double* h = hi;
  if (kind == 0) v->define_periodic_grid(l[0], l[1], l[2], h[0], h[1], h[2], N[0], N[1], N[2], P[0], P[1], P[2]); else if (kind == 1) v->define_absorbing_grid(l[0], l[1], l[2], h[0], h[1], h[2], N[0], N[1], N[2], P[0], P[1], P[2], absorb_particles); else v->define_reflecting_grid(l[0], l[1], l[2], h[0], h[1], h[2], N[0], N[1], N[2], P[0], P[1], P[2]);
  v->define_material("vacuum", 1); v->define_field_array(); v->define_species("s", q, m, np, nm, 0, 0); }
static void open(double dt, int np, int nm, double q = -0.75, double m = 1.5) { HK = Hooks(); HK.init = [=](VS* v) { deck(v, dt, np, nm, q, m); }; s = simulation = new vpic_simulation(); s->initialize(0, NULL); g = s->grid; sp = s->species_list; nl[0] = g->nx; nl[1] = g->ny; nl[2] = g->nz; C[0] = world_rank % P[0]; C[1] = world_rank / P[0] % P[1]; C[2] = world_rank / P[0] / P[1]; }
static void close() { s->finalize(); delete s; simulation = NULL; }
static void vox(int i, int* v) { v[0] = i % (nl[0] + 2); v[1] = i / (nl[0] + 2) % (nl[1] + 2); v[2] = i / (nl[0] + 2) / (nl[1] + 2); }
static double where(const particle_t* p, int a) { int v[3]; vox(p->i, v); double d = a == 0 ? p->dx : a == 1 ? p->dy : p->dz; return gx0(a) + (v[a] - 1 + 0.5 * (d + 1)) * (gx1(a) - gx0(a)) / nl[a]; }
static bool valid(const particle_t* p) { int v[3]; vox(p->i, v); for (int a = 0; a < 3; a++) if (v[a] < 1 || v[a] > nl[a]) return false; return fabs(p->dx) <= 1 && fabs(p->dy) <= 1 && fabs(p->dz) <= 1; }
static void zero_rhob() { for (int i = 0; i < g->nv; i++) s->field_array->f[i].rhob = 0; }
static double total_rhob() { double t = 0; for (int k = 1; k <= nl[2] + 1; k++) for (int j = 1; j <= nl[1] + 1; j++) for (int i = 1; i <= nl[0] + 1; i++) { double w = s->field(i, j, k).rhob; int e[3] = { i, j, k }; for (int a = 0; a < 3; a++) if (e[a] == 1 || e[a] == nl[a] + 1) w *= 0.5; t += w; } return t * g->dV; }
// exactly one owner for every position of a lattice
static void positions() {
  open(0.05, 8, 8); std::vector<double> X[3]; float mine[6] = { g->x0, g->y0, g->z0, g->x1, g->y1, g->z1 }; std::vector<int> all(6 * world_size); mp_allgather_i((int*)mine, all.data(), 6); double bl[3], bh[3];
  for (int a = 0; a < 3; a++) { std::set<double> q; bl[a] = 1e300; bh[a] = -1e300; for (int r = 0; r < world_size; r++) for (int z = 0; z < 2; z++) { float f; memcpy(&f, &all[6 * r + 3 * z + a], 4); double d = f; q.insert(d); q.insert(nextafter(d, -1e300)); q.insert(nextafter(d, 1e300)); bl[a] = std::min(bl[a], d); bh[a] = std::max(bh[a], d); } double h = (bh[a] - bl[a]) / N[a]; for (int k = 0; k <= N[a]; k++) { for (double o : { 0., 0.25, 0.93 }) q.insert(bl[a] + (k + o) * h); double d = bl[a] + k * h; q.insert(nextafter(d, -1e300)); q.insert(d + 1e-9 * h); } q.insert(bl[a] - 0.3 * h); q.insert(bh[a] + 7 * h); X[a].assign(q.begin(), q.end()); }
  size_t nt = X[0].size() * X[1].size() * X[2].size(), n = 0; std::vector<int> own((nt + 3) / 4 + 4, 0); unsigned char* ow = (unsigned char*)own.data(); zero_rhob(); particle_t* p = sp->p; int v[3], sy = g->sy, sz = g->sz;
  for (double z : X[2]) for (double y : X[1]) for (double x : X[0]) { size_t id = n++; double c[3] = { x, y, z }, u[3] = { 1.1 + id, -0.3, 1e-3 * (id % 7) }, w = 0.25 + id % 5; int ub = id % 4 != 3; sp->np = 0; sp->nm = 0; if (ub && id % 2) s->inject_particle(sp, x, y, z, u[0], u[1], u[2], w); else s->inject_particle(sp, x, y, z, u[0], u[1], u[2], w, 0, ub); nst++; WANT(sp->np <= 1 && sp->nm == 0, "count: %d particles added", sp->np); ow[id] = sp->np; if (!sp->np) continue;
    WANT(valid(p), "voxel: position %.17g %.17g %.17g is put at %g %g %g of voxel %d", x, y, z, p->dx, p->dy, p->dz, p->i); WANT(p->ux == (float)u[0] && p->uy == (float)u[1] && p->uz == (float)u[2] && p->w == (float)w, "particle: momentum or weight"); for (int a = 0; a < 3; a++) { double e = fabs(where(p, a) - c[a]); WANT(e <= 3e-7 * cell(a) + 1e-14 * fabs(c[a]), "position: axis %d is %.9g instead of %.9g (cells of %g, ranks %dx%dx%d, mesh %dx%dx%d)", a, where(p, a), c[a], cell(a), P[0], P[1], P[2], N[0], N[1], N[2]); }
    vox(p->i, v); double f[3] = { 0.5 * (1 + p->dx), 0.5 * (1 + p->dy), 0.5 * (1 + p->dz) }; for (int k = 0; k < 8; k++) { double ww = ub ? 0.75 * w / g->dV : 0; for (int a = 0; a < 3; a++) { int b = k >> a & 1, at = v[a] + b; ww *= b ? f[a] : 1 - f[a]; if (at == 1 || at == nl[a] + 1) ww *= 2; } float& q = s->field_array->f[p->i + (k & 1) + sy * (k >> 1 & 1) + sz * (k >> 2)].rhob; WANT(fabs(q - ww) <= 1e-5 * w / g->dV, "compensation: the bound charge at corner %d of the voxel is %g instead of %g", k, q, ww); q = 0; } }
  for (int i = 0; i < g->nv; i++) WANT(s->field_array->f[i].rhob == 0, "compensation: bound charge away from the particle"); sp->np = 0;
  std::vector<int> A(own.size() * world_size); mp_allgather_i(own.data(), A.data(), (int)own.size()); n = 0; for (double z : X[2]) for (double y : X[1]) for (double x : X[0]) { size_t id = n++; double c[3] = { x, y, z }; int cnt = 0; for (int r = 0; r < world_size; r++) cnt += ((unsigned char*)(A.data() + r * own.size()))[id]; bool in = true; for (int a = 0; a < 3; a++) if (c[a] < bl[a] || c[a] > bh[a] || (c[a] == bh[a] && periodic(a))) in = false; WANT(cnt == in, "owner: a particle injected at %.17g %.17g %.17g appears on %d ranks (box %.9g %.9g %.9g to %.9g %.9g %.9g, ranks %dx%dx%d, kind %d)", x, y, z, cnt, bl[0], bl[1], bl[2], bh[0], bh[1], bh[2], P[0], P[1], P[2], kind); }
  close(); }
// aged particles: after the boundary rounds each is once at its start plus its displacement, and the current is that of the motion
static void ageing(int raw) {
  static const double O[3] = { -0.83, 0.11, 0.92 }; int ntot = N[0] * N[1] * N[2] * 27; for (int sub = 0; sub < 26; sub++) for (double age : { 0.3, 1., 2.25 }) { if (raw && age == 1) continue; open(0.09, ntot * 2, ntot * 2); clear_accumulator_array(s->accumulator_array); zero_rhob(); int d = sub < 13 ? sub : sub + 1; struct R { double x[3], u[3], dsp[3]; float w; }; std::vector<R> want; double jx[3] = { 0 }, um = sub % 3 == 0 ? 0.2 : 2.5; int id = 0;
      for (int c = 0; c < N[0] * N[1] * N[2]; c++) for (int o = 0; o < 27; o++) { int cc[3] = { c % N[0], c / N[0] % N[1], c / N[0] / N[1] }, oo[3] = { o % 3, o / 3 % 3, o / 9 }, dd[3] = { d % 3 - 1, d / 3 % 3 - 1, d / 9 - 1 }; R r; double g2 = 1; for (int a = 0; a < 3; a++) { r.x[a] = lo[a] + (cc[a] + 0.5 + 0.5 * O[oo[a]]) * cell(a); r.u[a] = um * dd[a] * (1 + 0.1 * a) + 0.01; g2 += r.u[a] * r.u[a]; } for (int a = 0; a < 3; a++) r.dsp[a] = r.u[a] * age * 1.25 * 0.09 / sqrt(g2); r.w = 1 + id++ / 65536.f; want.push_back(r); for (int a = 0; a < 3; a++) jx[a] += -0.75 * r.w * r.dsp[a] / 0.09;
        if (!raw) s->inject_particle(sp, r.x[0], r.x[1], r.x[2], r.u[0], r.u[1], r.u[2], r.w, age, o & 1); else { int v[3]; bool in = true; for (int a = 0; a < 3; a++) { v[a] = cc[a] - C[a] * nl[a] + 1; if (v[a] < 1 || v[a] > nl[a]) in = false; } if (in) s->inject_particle_raw(sp, O[oo[0]], O[oo[1]], O[oo[2]], VOXEL(v[0], v[1], v[2], nl[0], nl[1], nl[2]), r.u[0], r.u[1], r.u[2], r.w, r.dsp[0] / g->dx, r.dsp[1] / g->dy, r.dsp[2] / g->dz, o & 1); } }
      double rb = total_rhob(), rbs; mp_allsum_d(&rb, &rbs, 1); double exp_rb = 0; for (size_t i = 0; i < want.size(); i++) if (i % 27 & 1) exp_rb += 0.75 * want[i].w; WANT(fabs(rbs - exp_rb) <= 1e-5 * exp_rb, "compensation: total bound charge %g instead of %g", rbs, exp_rb);
      reduce_accumulator_array(s->accumulator_array); for (int r = 0; r < 6; r++) boundary_p(s->particle_bc_list, sp, s->field_array, s->accumulator_array); WANT(sp->nm == 0, "ageing: movers left"); 
      std::vector<int> seen(want.size(), 0), tot(want.size()); for (int n = 0; n < sp->np; n++) { particle_t* p = sp->p + n; int k = (int)lround((p->w - 1) * 65536.); WANT(k >= 0 && k < (int)want.size() && valid(p), "ageing: a particle is damaged"); seen[k]++; R& r = want[k]; for (int a = 0; a < 3; a++) { double x = r.x[a] + r.dsp[a], u = r.u[a], L = hi[a] - lo[a], got = where(p, a), gu = a == 0 ? p->ux : a == 1 ? p->uy : p->uz; if (periodic(a)) { double df = fabs(got - x); while (df > 0.5 * L) df = fabs(df - L); WANT(df <= 3e-6 * cell(a), "ageing: axis %d is %.9g instead of %.9g (age %g)", a, got, x, age); } else { bool flip = false; for (int z = 0; z < 8; z++) { if (x < lo[a]) x = 2 * lo[a] - x, flip = !flip; else if (x > hi[a]) x = 2 * hi[a] - x, flip = !flip; } if (flip) u = -u; WANT(fabs(got - x) <= 5e-6 * cell(a), "ageing: axis %d is %.9g instead of %.9g after a reflection (age %g)", a, got, x, age); } WANT(fabs(gu - u) <= 1e-6, "ageing: momentum %g instead of %g", gu, u); } }
      mp_allsum_i(seen.data(), tot.data(), (int)seen.size()); for (size_t i = 0; i < tot.size(); i++) WANT(tot[i] == 1, "ageing: particle %zu is there %d times", i, tot[i]); nst += (long)want.size();
      if (kind == 0) { s->field_array->kernel->clear_jf(s->field_array); unload_accumulator_array(s->field_array, s->accumulator_array); s->field_array->kernel->synchronize_jf(s->field_array); double J[3] = { 0 }, Js[3]; for (int k = 1; k <= nl[2]; k++) for (int j = 1; j <= nl[1]; j++) for (int i = 1; i <= nl[0]; i++) { field_t& f = s->field(i, j, k); J[0] += f.jfx; J[1] += f.jfy; J[2] += f.jfz; } mp_allsum_d(J, Js, 3); for (int a = 0; a < 3; a++) { double tol = 1e-4 * (fabs(jx[a]) + 1); WANT(fabs(Js[a] * g->dV - jx[a]) <= tol, "current: total along axis %d is %g instead of %g (age %g)", a, Js[a] * g->dV, jx[a], age); } }
      sp->np = 0; close(); } }
// every small capacity: what does not fit is refused or not aged, and nothing is written beyond the storage
static void capacity() {
  open(0.09, 40, 40); particle_t* p = sp->p; particle_mover_t* pm = sp->pm; for (int mnp = 1; mnp <= 6; mnp++) for (int mnm = 0; mnm <= 6; mnm++) for (int pat = 0; pat < 3; pat++) { memset(p, 0x5a, 40 * sizeof *p); memset(pm, 0x5a, 40 * sizeof *pm); sp->np = sp->nm = 0; sp->max_np = mnp; sp->max_nm = mnm; clear_accumulator_array(s->accumulator_array); nst++;
      for (int k = 0; k < 8; k++) { double age = pat == 0 ? 1 : pat == 1 ? k & 1 : (k % 3) * 0.5; double x = gx1(0) - 0.01 * cell(0), y = 0.5 * (gx0(1) + gx1(1)), z = 0.4 * gx0(2) + 0.6 * gx1(2); int np = sp->np, nm = sp->nm; bool r = refused([&] { s->inject_particle(sp, x, y, z, 3, 0.1, 0.1, 1 + k, age); }); WANT(r == (np >= mnp), "capacity: injection into storage for %d with %d there was %s", mnp, np, r ? "refused" : "accepted"); WANT(sp->np == (r ? np : np + 1) && sp->nm >= nm && sp->nm <= mnm && sp->nm <= nm + 1, "capacity: %d particles and %d movers in storage for %d and %d", sp->np, sp->nm, mnp, mnm); if (!r) { particle_t* q = p + np; bool pend = sp->nm == nm + 1; WANT(q->w == 1 + k && fabs(q->ux) == 3, "capacity: particle damaged"); particle_t t = *q; if (pend) { WANT(pm[nm].i == np, "capacity: mover of another particle"); t.i >>= 3; } WANT(valid(&t), "capacity: particle not valid"); if (age && !pend && nm >= mnm) WANT(fabs(where(&t, 0) - x) < 1e-5 * cell(0), "capacity: aged without a mover"); } }
      for (char* c = (char*)(p + mnp); c < (char*)(p + 40); c++) WANT(*c == 0x5a, "overrun: particle storage"); for (char* c = (char*)(pm + mnm); c < (char*)(pm + 40); c++) WANT(*c == 0x5a, "overrun: mover storage for %d", mnm); }
  sp->np = sp->nm = 0; sp->max_np = sp->max_nm = 40; WANT(refused([&] { s->inject_particle(sp, gx0(0), gx0(1), gx0(2), 0, 0, 0, -1); }), "refused: a negative weight is accepted"); WANT(refused([&] { s->inject_particle(NULL, gx0(0), gx0(1), gx0(2), 0, 0, 0, 1); }), "refused: no species is accepted"); close(); }
static void emission() {
  struct Sp { double q, m; }; for (Sp S : { Sp{ -1, 1 }, Sp{ 2, 3 }, Sp{ -0.5, 0.25 } }) { open(0.05, 60000, 60000, S.q, S.m); interpolator_t* fi = s->interpolator_array->i; rng_pool_t* rp = s->entropy; int nv = g->nv; double A[3] = { cell(1) * cell(2), cell(2) * cell(0), cell(0) * cell(1) };
    for (int npf : { 1, 2, 5 }) for (int var = 0; var < 3; var++) { double th = var == 1 ? 0.6 : 0, norm = var == 2 ? CCUBE : CHILD_LANGMUIR, upa = 0.1 + 0.3 * var, upe = var == 1 ? 0 : 0.2; emitter_t* e = s->define_emitter(child_langmuir(sp, s->interpolator_array, s->field_array, s->accumulator_array, rp, npf, upa, upe, th, norm)); int32_t* comp = size_emitter(e, 2);
      for (int type = 0; type < 27; type++) for (int cellk = 0; cellk < 3; cellk++) for (double E : { 0., 0.6, -0.6, 1.3, -1.3, 0.05 }) { nst++; int d[3] = { type % 3 - 1, type / 3 % 3 - 1, type / 9 - 1 }, nz = 0, ax = 0; for (int a = 0; a < 3; a++) if (d[a]) nz++, ax = a; int v[3] = { cellk == 0 ? 1 : cellk == 1 ? nl[0] : 2, cellk == 0 ? 1 : nl[1], cellk == 1 ? nl[2] : 1 }, i = VOXEL(v[0], v[1], v[2], nl[0], nl[1], nl[2]); double wall = d[ax] < 0 ? 0 : 1; comp[0] = COMPONENT_ID(i, type); comp[1] = COMPONENT_ID(i, BOUNDARY(0, 0, 0)); memset(fi, 0, sizeof *fi * nv); fi[i].ex = ax == 0 ? E : -7; fi[i].ey = ax == 1 ? E : -8; fi[i].ez = ax == 2 ? E : 9; if (nz != 1) fi[i].ex = fi[i].ey = fi[i].ez = E; sp->np = sp->nm = 0; zero_rhob(); clear_accumulator_array(s->accumulator_array); apply_emitter_list(s->emitter_list);
        float Ef = E, thf = th; bool on = nz == 1 && -d[ax] * S.q * Ef > fabs(S.q) * thf; WANT(sp->np == (on ? npf : 0), "emission: %d particles instead of %d from component %d with a normal field of %g, threshold %g, charge %g", sp->np, on ? npf : 0, type, E, th, S.q); if (!on) { WANT(fabs(total_rhob()) == 0, "emission: bound charge without a particle"); continue; } WANT(sp->nm == 0, "emission: movers left inside the box");
        double Q = norm * 0.8 * 0.05 * sqrt(fabs(S.q) / S.m) * pow(fabs(E), 1.5) / sqrt(cell(ax)) * A[ax], J[3] = { 0 }, Jt = 0, qt = 0; for (int n = 0; n < npf; n++) { particle_t* p = sp->p + n; WANT(valid(p), "emission: particle outside its voxel"); qt += p->w * fabs(S.q); WANT(fabs(p->w * fabs(S.q) - Q / npf) <= 2e-5 * Q, "emission: particle %d of %d carries the charge %g instead of %g", n, npf, p->w * fabs(S.q), Q / npf); double u[3] = { p->ux, p->uy, p->uz }; WANT(u[ax] * d[ax] <= 0, "emission: the particle moves into the wall (component %d, u %g)", type, u[ax]); double gm = sqrt(1 + u[0] * u[0] + u[1] * u[1] + u[2] * u[2]), step = 1.25 * 0.05 / gm; double face = lo[ax] + (v[ax] - 1 + wall) * cell(ax), dn = (where(p, ax) - face) * -d[ax], L = hi[ax] - lo[ax]; while (dn < -0.01 * cell(ax)) dn += L; double full = fabs(u[ax]) * step, age = full > 0 ? dn / full : 0, slack = 4e-6 * cell(ax) / (full + 1e-12) + 1e-4; WANT(age >= -slack && age <= 1 + slack, "emission: the particle is %g of its motion away from the face (component %d)", age, type);
          for (int a = 0; a < 3; a++) { if (a == ax) { J[a] += S.q * p->w * u[a] * step * age / 0.05; } else { if (upe == 0) WANT(fabs(u[a]) < 1e-6, "emission: tangential momentum without a temperature"); J[a] += S.q * p->w * u[a] * step * age / 0.05; double t = (where(p, a) - age * u[a] * step - lo[a]) / cell(a) - (v[a] - 1); while (t < -0.5) t += N[a]; while (t > N[a] - 0.5) t -= N[a]; double sl = 1e-4 + fabs(u[a]) * step / cell(a) * slack; WANT(t >= -sl && t <= 1 + sl, "emission: the particle did not start on its face (axis %d, %g)", a, t); } } Jt += fabs(S.q) * p->w; }
        WANT(fabs(qt - Q) <= 2e-5 * Q, "emission: total charge %g instead of %g", qt, Q); double rb = total_rhob(), sg = S.q > 0 ? -1 : 1; WANT(fabs(rb - sg * Q) <= 3e-5 * Q, "emission: compensating charge %g instead of %g", rb, sg * Q);
        reduce_accumulator_array(s->accumulator_array); s->field_array->kernel->clear_jf(s->field_array); unload_accumulator_array(s->field_array, s->accumulator_array); s->field_array->kernel->synchronize_jf(s->field_array); double K[3] = { 0 }; for (int k = 1; k <= nl[2]; k++) for (int j = 1; j <= nl[1]; j++) for (int l = 1; l <= nl[0]; l++) { field_t& f = s->field(l, j, k); K[0] += f.jfx; K[1] += f.jfy; K[2] += f.jfz; } for (int a = 0; a < 3; a++) WANT(fabs(K[a] * g->dV - J[a]) <= 3e-3 * (fabs(J[a])) + 2e-4 * Jt, "emission: current along axis %d is %g instead of %g", a, K[a] * g->dV, J[a]); }
      // limited storage
      { memset(fi, 0, sizeof *fi * nv); int i = VOXEL(1, 1, 1, nl[0], nl[1], nl[2]); fi[i].ex = S.q > 0 ? 4 : -4; comp[0] = comp[1] = COMPONENT_ID(i, BOUNDARY(-1, 0, 0)); for (int mnp = 0; mnp <= 2 * npf + 1; mnp++) for (int mnm = 0; mnm <= 3; mnm++) { nst++; memset(sp->p, 0x5a, sizeof *sp->p * 40); memset(sp->pm, 0x5a, sizeof *sp->pm * 40); sp->np = sp->nm = 0; sp->max_np = mnp; sp->max_nm = mnm; zero_rhob(); apply_emitter_list(s->emitter_list); WANT(sp->np == std::min(mnp, 2 * npf) && sp->nm <= mnm, "capacity: %d particles emitted into storage for %d", sp->np, mnp); double q = 0; for (int n = 0; n < sp->np; n++) { WANT(valid(sp->p + n), "capacity: emitted particle not valid"); q += sp->p[n].w; if (!mnm) WANT(sp->p[n].dx == -1, "capacity: aged without a mover"); } WANT(fabs(total_rhob() + S.q * q) <= 3e-5 * fabs(S.q * q), "capacity: compensating charge"); for (char* c = (char*)(sp->p + mnp); c < (char*)(sp->p + 40); c++) WANT(*c == 0x5a, "overrun: particle storage"); for (char* c = (char*)(sp->pm + mnm); c < (char*)(sp->pm + 40); c++) WANT(*c == 0x5a, "overrun: mover storage"); } sp->max_np = sp->max_nm = 60000; }
      // distribution: scales with the temperatures, covers the face and the ages
      { memset(fi, 0, sizeof *fi * nv); int i = VOXEL(2, 1, 1, nl[0], nl[1], nl[2]); fi[i].ey = S.q > 0 ? -2 : 2; comp[0] = comp[1] = COMPONENT_ID(i, BOUNDARY(0, 1, 0)); double m1 = 0, m2 = 0, t1 = 0, t2 = 0, tt = 0, dmin[3] = { 9, 9, 9 }, dmax[3] = { -9, -9, -9 }; int n = 0; sp->np = sp->nm = 0; seed_rng_pool(rp, 5, 0); while (sp->np + 2 * npf < 30000) apply_emitter_list(s->emitter_list); for (n = 0; n < sp->np; n++) { particle_t* p = sp->p + n; m1 -= p->uy; m2 += p->uy * p->uy; t1 += p->ux + p->uz; t2 += p->ux * p->ux; tt += p->uz * p->uz; double gm = sqrt(1 + p->ux * p->ux + p->uy * p->uy + p->uz * p->uz), age = (lo[1] + cell(1) - where(p, 1)) / (-p->uy / gm * 1.25 * 0.05); double x = (where(p, 0) - age * p->ux / gm * 1.25 * 0.05 - lo[0]) / cell(0) - 1, z = (where(p, 2) - age * p->uz / gm * 1.25 * 0.05 - lo[2]) / cell(2); double c[3] = { x, age, z }; if (-p->uy > 0.3 * upa) for (int a = 0; a < 3; a++) { dmin[a] = std::min(dmin[a], c[a] > N[a] - 0.5 ? c[a] - N[a] : c[a]); dmax[a] = std::max(dmax[a], c[a] > N[a] - 0.5 ? c[a] - N[a] : c[a]); } } nst++; (void)tt; m1 /= n; m2 /= n; t1 /= 2. * n; t2 /= n; tt /= n; WANT(fabs(m1 - 1.2533 * upa) < 0.03 * upa && fabs(m2 - 2 * upa * upa) < 0.06 * upa * upa, "distribution: normal momentum has mean %g and mean square %g for a temperature momentum %g", m1, m2, upa); WANT(fabs(t1) < 0.03 * upe + 1e-9 && fabs(t2 - upe * upe) < 0.06 * upe * upe + 1e-9 && fabs(tt - upe * upe) < 0.06 * upe * upe + 1e-9, "distribution: tangential momenta"); for (int a = 0; a < 3; a++) WANT(dmin[a] < 0.01 && dmax[a] > 0.99, "distribution: starts or ages cover %g to %g along axis %d", dmin[a], dmax[a], a); }
      delete_emitter_list(s->emitter_list); s->emitter_list = NULL; sp->np = sp->nm = 0; }
    close(); } }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); kind = (int)vmc_par(1); for (int a = 0; a < 3; a++) { P[a] = (int)vmc_par(2 + a); N[a] = (int)vmc_par(5 + a); } int box = (int)vmc_par(8); static const double L[4][3] = { { 0, 0, 0 }, { -1.7, 0.3, 2e4 }, { -1, -1e-3, 0.1 }, { 1. / 3, -7, 1e3 } }, H[4][3] = { { 1, 2, 3 }, { 1.9, 7.1, 2e4 + 64 }, { 1, 2e-3, 0.7 }, { 10. / 3, -1, 1.1e3 } }; for (int a = 0; a < 3; a++) { lo[a] = L[box][a]; hi[a] = H[box][a]; } if (mode) for (int a = 0; a < 3; a++) { lo[a] = -1 + a; hi[a] = lo[a] + N[a] * (0.5 + 0.125 * a); }
  boot_all(); if (mode == 0) positions(); else if (mode == 1) ageing((int)vmc_par(9)); else if (mode == 2) capacity(); else emission();
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst); mp_barrier(); halt_services(); }
