// C23: storage at and below the demand. Every array ends at an inaccessible page but for the slack of its alignment, which must keep its fill.
#define IN_emitter
#include "emitter/emitter_private.h"
#include "deck.h"
#include "plat.h"
#include "rich.h"
#include <regex>
static VS* s; static grid_t* g; static int mode;
#define WANT(c, ...) do { vmc_count("transitions", 1); if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static void slack(const char* what, const void* a, size_t n, size_t sz) { uintptr_t e = (uintptr_t)a + n * sz, q = (e + 4095) & ~(uintptr_t)4095; for (uintptr_t x = e; x < q; x++) if (*(unsigned char*)x != 0xA7) vmc_fail("memory: byte %ld after the end of %s was overwritten", (long)(x - e), what); }
static void arrays(VS* s) {
  grid_t* g = s->grid; slack("the fields", s->field_array->f, g->nv, sizeof(field_t)); 
  if (s->interpolator_array) slack("the interpolators", s->interpolator_array->i, g->nv, sizeof(interpolator_t)); if (s->accumulator_array) slack("the accumulators", s->accumulator_array->a, (size_t)s->accumulator_array->stride * (s->accumulator_array->n_pipeline + 1), sizeof(accumulator_t)); if (s->hydro_array) slack("the hydro moments", s->hydro_array->h, (size_t)s->hydro_array->stride * (s->hydro_array->n_pipeline + 1), sizeof(hydro_t));
  for (species_t* sp = s->species_list; sp; sp = sp->next) { WANT(sp->np >= 0 && sp->np <= sp->max_np, "storage: %d particles in room for %d", sp->np, sp->max_np); WANT(sp->nm >= 0 && sp->nm <= sp->max_nm, "storage: %d movers in room for %d", sp->nm, sp->max_nm); slack("the particles", sp->p, sp->max_np, sizeof(particle_t)); slack("the movers", sp->pm, sp->max_nm, sizeof(particle_mover_t)); slack("the partition", sp->partition, g->nv + 1, sizeof(int)); }
  vmc_guard_check();
}
static bool valid(grid_t* g, const particle_t& p) { int v = p.i, X = g->nx + 2, Y = g->ny + 2, i = v % X, j = v / X % Y, k = v / X / Y; return v >= 0 && v < g->nv && i >= 1 && i <= g->nx && j >= 1 && j <= g->ny && k >= 1 && k <= g->nz && fabsf(p.dx) <= 1 && fabsf(p.dy) <= 1 && fabsf(p.dz) <= 1 && std::isfinite(p.ux) && std::isfinite(p.uy) && std::isfinite(p.uz) && std::isfinite(p.w); }
static void room(species_t* sp, int np, int nm) { particle_t* p; particle_mover_t* m; if (np < 1) np = 1; if (nm < 1) nm = 1; MALLOC_ALIGNED(p, np, 128); memcpy(p, sp->p, sizeof(particle_t) * sp->np); FREE_ALIGNED(sp->p); sp->p = p; sp->max_np = np; MALLOC_ALIGNED(m, nm, 128); memcpy(m, sp->pm, sizeof(particle_mover_t) * sp->nm); FREE_ALIGNED(sp->pm); sp->pm = m; sp->max_nm = nm; }
static double reported(const char* re) { std::string t = vmc_log(); std::regex r(re); double n = 0; for (std::sregex_iterator i(t.begin(), t.end(), r), e; i != e; ++i) n += atof((*i)[1].str().c_str()); return n; }
static int P[3], N[3], ixr[3];
static void make_world(int walls, int np, int nm) { boot_all(); HK = Hooks(); simulation = s = new vpic_simulation(); for (int a = 0; a < 3; a++) P[a] = (int)vmc_par(1 + a), N[a] = (int)vmc_par(4 + a); int r = world_rank; ixr[0] = r % P[0]; ixr[1] = r / P[0] % P[1]; ixr[2] = r / P[0] / P[1];
  s->define_units(1, 1); s->define_timestep(0.45); s->verbose = 0; if (walls) s->define_absorbing_grid(0, 0, 0, N[0], N[1], N[2], N[0], N[1], N[2], P[0], P[1], P[2], absorb_particles); else s->define_periodic_grid(0, 0, 0, N[0], N[1], N[2], N[0], N[1], N[2], P[0], P[1], P[2]); g = s->grid; s->define_material("vacuum", 1); s->define_field_array(NULL, 0); s->define_species("a", -1, 1, np, nm, 0, 0); s->seed_entropy(3); load_interpolator_array(s->interpolator_array, s->field_array); }
static void fill(species_t* sp, int np, int pattern, int id0) { // pattern: which particles leave their cell and how
  sp->np = sp->nm = 0; for (int n = 0; n < np; n++) { particle_t& p = sp->p[sp->np++]; bool go = pattern == 0 || (pattern == 1 && n % 2) || (pattern == 2 && n % 3 == 0) || (pattern == 3 && n >= np / 2); int c = n % (g->nx * g->ny * g->nz), i = 1 + c % g->nx, j = 1 + c / g->nx % g->ny, k = 1 + c / g->nx / g->ny; int d = n % 6, a = d % 3, up = d / 3; if (go) { int* l[3] = { &i, &j, &k }, m[3] = { g->nx, g->ny, g->nz }; *l[a] = up ? m[a] : 1; } p.i = VOXEL(i, j, k, g->nx, g->ny, g->nz); float q[3] = { (float)(0.1 * hval(1, n)), (float)(0.1 * hval(2, n)), (float)(0.1 * hval(3, n)) }, u[3] = { 0, 0, 0 }; if (go) { q[a] = up ? 0.95f : -0.95f; u[a] = up ? 2 : -2; u[(a + 1) % 3] = n % 5 ? 0.01f : (n % 2 ? 3 : -3); } p.dx = q[0]; p.dy = q[1]; p.dz = q[2]; p.ux = u[0]; p.uy = u[1]; p.uz = u[2]; p.w = id0 + n; }
}
static void advance_room() { // par 7 largest population, 8 pattern
  make_world(1, 200, 400); species_t* sp = s->species_list; int pat = (int)vmc_par(8); const char* RE = "ran out of storage for ([0-9]+) movers";
  for (int np = 0; np <= (int)vmc_par(7); np += np < 20 ? 1 : 5) {
    room(sp, 200, 400); fill(sp, np, pat, 1); std::vector<particle_t> p0(sp->p, sp->p + np); clear_accumulator_array(s->accumulator_array); vmc_log_clear(); advance_p(sp, s->accumulator_array, s->interpolator_array); double lost = reported(RE); WANT(lost == 0, "movers: %g lost with ample room", lost); std::vector<particle_t> p1(sp->p, sp->p + np); std::map<int, particle_mover_t> mv; for (int q = 0; q < sp->nm; q++) mv[sp->pm[q].i] = sp->pm[q]; WANT((int)mv.size() == sp->nm, "movers: a particle has two"); size_t na = (size_t)s->accumulator_array->stride * (s->accumulator_array->n_pipeline + 1) * sizeof(accumulator_t); std::string acc((char*)s->accumulator_array->a, na); int need = (int)mv.size();
    for (int cap = 1; cap <= need + 17; cap += cap < need + 3 ? 1 : 5) { sp->nm = 0; room(sp, np ? np : 1, cap); memcpy(sp->p, p0.data(), sizeof(particle_t) * np); clear_accumulator_array(s->accumulator_array); vmc_log_clear(); advance_p(sp, s->accumulator_array, s->interpolator_array); vmc_count("states", 1); vmc_count("distinct", 1); arrays(s);
      std::set<int> have; for (int q = 0; q < sp->nm; q++) { int i = sp->pm[q].i; auto it = mv.find(i); WANT(it != mv.end(), "movers: a mover for particle %d of %d, which needs none (room for %d)", i, np, cap); WANT(have.insert(i).second, "movers: two for particle %d", i); WANT(!memcmp(&it->second, &sp->pm[q], 16), "movers: the mover of particle %d differs from the one made with ample room", i); }
      double lost = reported(RE); WANT(lost == need - sp->nm, "movers: %d of %d kept in room for %d, %g reported lost", sp->nm, need, cap, lost); if (cap >= need + 15) {} 
      for (int n = 0; n < np; n++) { particle_t want = p1[n]; if (mv.count(n) && !have.count(n)) want.i >>= 3; WANT(!memcmp(&want, sp->p + n, sizeof want), "particles: particle %d of %d is spoiled when there is room for %d movers", n, np, cap); if (!have.count(n)) WANT(valid(g, sp->p[n]), "particles: particle %d is outside the box", n); }
      WANT(!memcmp(acc.data(), s->accumulator_array->a, na), "currents depend on the room for movers (%d)", cap); }
  }
}
static void receive() { // par 7 leavers per rank, 8 pattern, 9: 0 dynamic, 1 fixed storage; 10 handler
  int leave = (int)vmc_par(7), pat = (int)vmc_par(8), fixed = (int)vmc_par(9), hand = (int)vmc_par(10); make_world(hand, 4000, 4000); s->define_species("b", 2, 3, 4000, 4000, 0, 0); species_t* S[2] = { find_species_id(0, s->species_list), find_species_id(1, s->species_list) };
  if (hand) { particle_bc_t* bc = s->define_particle_bc(maxwellian_reflux(s->species_list, s->entropy)); for (int k = 0; k < 2; k++) set_reflux_temp(bc, S[k], 0.3, 0.4); const int B[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) }; for (int f = 0; f < 6; f++) { int a = f % 3; if (ixr[a] == (f < 3 ? 0 : P[a] - 1)) s->set_domain_particle_bc(B[f], get_particle_bc_id(bc)); } }
  for (int stay = 0; stay <= 300; stay = stay ? stay * 5 + 5 : 3) for (int c = 0; c <= leave + 2; c += c < 3 || c >= leave ? 1 : 3) for (int d = 0; d < 3; d++) for (int big = 0; big < 2; big++) {
    double id[2], w1[2], w2[2]; vmc_log_clear();
    for (int k = 0; k < 2; k++) { room(S[k], 4000, 4000); int n = k ? leave / 2 : leave; if (world_rank % 2 && big == 0) n = 0; fill(S[k], n + stay, n ? pat : 4, 1 + world_rank * 4000 + k * 2000); if (n) for (int q = n; q < n + stay; q++) S[k]->p[q].ux = S[k]->p[q].uy = S[k]->p[q].uz = 0, S[k]->p[q].dx = S[k]->p[q].dy = S[k]->p[q].dz = 0; w1[k] = w2[k] = 0; for (int q = 0; q < S[k]->np; q++) { double w = S[k]->p[q].w; w1[k] += w; w2[k] += w * w; } id[k] = S[k]->np; }
    clear_accumulator_array(s->accumulator_array); for (int k = 0; k < 2; k++) { advance_p(S[k], s->accumulator_array, s->interpolator_array); room(S[k], S[k]->np + (big ? 1000 : 0) + c, S[k]->nm + d); }
    double tot[6] = { id[0], id[1], w1[0], w1[1], w2[0], w2[1] }, all[6]; mp_allsum_d(tot, all, 6); double open = 1; int round = 0; for (; round < 12; round++) { boundary_p(s->particle_bc_list, s->species_list, s->field_array, s->accumulator_array); arrays(s); open = S[0]->nm + S[1]->nm; double o; mp_allsum_d(&open, &o, 1); if (o == 0) break; }
    double now[6] = { 0 }; for (int k = 0; k < 2; k++) for (int q = 0; q < S[k]->np; q++) { particle_t& p = S[k]->p[q]; if (!valid(g, p)) vmc_fail("particles: particle %g is outside the box after arriving (room %d)", p.w, S[k]->max_np); now[k]++; now[2 + k] += p.w; now[4 + k] += (double)p.w * p.w; }
    double drop = fixed ? reported("Dropped ([0-9]+) particles") : 0, lost; { double t[6]; mp_allsum_d(now, t, 6); mp_allsum_d(&drop, &lost, 1); if (!fixed) { for (int q = 0; q < 6; q++) WANT(t[q] == all[q], "particles: %s of species %d is %.17g instead of %.17g after %d stayed and %d left each rank, room for %d more", q < 2 ? "number" : q < 4 ? "sum of the identities" : "sum of the squared identities", q % 2, t[q], all[q], stay, leave, c); WANT(round < 12, "particles: movers are never finished"); } else WANT(t[0] + t[1] + lost == all[0] + all[1], "particles: %g kept and %g reported dropped of %g", t[0] + t[1], lost, all[0] + all[1]); }
    vmc_count("states", 1); vmc_count("distinct", 1); }
}
static void emit_room() { // par 7 per face, 8 side
  make_world(1, 200, 200); species_t* sp = s->species_list; int npf = (int)vmc_par(7), side = (int)vmc_par(8); for (int v = 0; v < g->nv; v++) s->field(v).ex = side ? 1 : -1; load_interpolator_array(s->interpolator_array, s->field_array); 
  emitter_t* em = s->define_emitter(child_langmuir(sp, s->interpolator_array, s->field_array, s->accumulator_array, s->entropy, npf, 0.5, 3, 0, CHILD_LANGMUIR)); int nc = g->ny * g->nz; int32_t* c = size_emitter(em, nc); int q = 0; for (int k = 1; k <= g->nz; k++) for (int j = 1; j <= g->ny; j++) c[q++] = COMPONENT_ID(VOXEL(side ? g->nx : 1, j, k, g->nx, g->ny, g->nz), side ? BOUNDARY(1, 0, 0) : BOUNDARY(-1, 0, 0));
  int total = nc * npf; for (int have = 0; have < 3; have++) for (int cap = 1; cap <= total + have + 2; cap++) for (int cm = 1; cm <= total + 2; cm += cm < 3 || cm > total - 2 ? 1 : 3) { sp->np = sp->nm = 0; room(sp, cap, cm); for (int n = 0; n < have && n < cap; n++) { fill(sp, n + 1, 4, 7); } int np0 = sp->np; std::vector<particle_t> p0(sp->p, sp->p + np0); clear_accumulator_array(s->accumulator_array); for (int v = 0; v < g->nv; v++) s->field(v).rhob = 0; vmc_log_clear(); em->emit(em->params, em->component, em->n_component); arrays(s);
    int got = sp->np - np0; WANT(got == std::min(total, cap - np0), "emission: %d particles into room for %d", got, cap - np0); WANT(!np0 || !memcmp(p0.data(), sp->p, sizeof(particle_t) * np0), "emission: earlier particles are spoiled"); WANT(reported("Did not emit ([0-9]+)") == total - got, "emission: %d particles left out, %g reported", total - got, reported("Did not emit ([0-9]+)")); WANT(reported("Did not age ([0-9]+)") <= got, "emission: ageing"); double qs = 0, rb = 0; std::set<int> mm; for (int n = 0; n < sp->nm; n++) { WANT(sp->pm[n].i >= np0 && sp->pm[n].i < sp->np && mm.insert(sp->pm[n].i).second, "emission: a mover names particle %d", sp->pm[n].i); sp->p[sp->pm[n].i].i >>= 3; } for (int n = np0; n < sp->np; n++) { WANT(valid(g, sp->p[n]), "emission: particle outside the box"); qs += sp->p[n].w * sp->q; } for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { double w = 1; if (i == 1 || i == g->nx + 1) w /= 2; if (j == 1 || j == g->ny + 1) w /= 2; if (k == 1 || k == g->nz + 1) w /= 2; rb += w * s->field(i, j, k).rhob * g->dV; } WANT(fabs(rb + qs) <= 1e-4 * fabs(qs) + 1e-7, "emission: the charge left behind is %g for %g emitted", rb, qs); sp->nm = 0; vmc_count("states", 1); vmc_count("distinct", 1); }
}
static void whole() { // par 7 rich bits, 8 movers, 9 spare particles, 10 steps
  RC.bits = (int)vmc_par(7); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(1 + a); RC.n[a] = (int)vmc_par(4 + a); } boot_all(); HK = Hooks(); simulation = s = new vpic_simulation(); rich_hooks(); HK.init = [](VS* s) { rich_init(s); for (species_t* sp = s->species_list; sp; sp = sp->next) room(sp, sp->np + (int)vmc_par(9), (int)vmc_par(8)); };
  s->initialize(0, NULL); s->num_step = 1 << 20; arrays(s); for (int n = 0; n < (int)vmc_par(10); n++) { s->advance(); arrays(s); for (species_t* sp = s->species_list; sp; sp = sp->next) { WANT(sp->nm == 0, "movers: %d left after a step", sp->nm); for (int q = 0; q < sp->np; q++) WANT(valid(s->grid, sp->p[q]), "particles: particle %d of '%s' is not valid after step %d", q, sp->name, (int)s->step()); } vmc_count("states", 1); vmc_count("distinct", 1); } HK = Hooks();
}
extern "C" void rank_main(int) { mode = (int)vmc_par(0); if (mode == 0) advance_room(); else if (mode == 1) receive(); else if (mode == 2) emit_room(); else whole(); s->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services(); }
