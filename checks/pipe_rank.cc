// The same work under every number of pipelines, order of jobs and build; conflicting accesses of concurrent jobs.
#define rank_main field_main
#include "field_rank.cc"
#undef rank_main
#include "rich.h"
// par: 18 kind (0 field kernels, 1 particle kernels, 2 whole steps, 3 collisions), 19 mode (0 real dispatcher, 1 jobs then host, accesses recorded, 2 host first, jobs backwards)
#if defined(VPIC_USE_PTHREADS)
static struct { pipeline_func_t fn; char* args; int sz, str, on, mode; } D;
static void ov_job(int p) { D.fn(D.args + (size_t)p * D.sz * D.str, p, thread.n_pipeline); }
static void ov_dispatch(pipeline_func_t fn, void* args, int sz, int str) {
  if (D.on) vmc_fail("dispatch: work is dispatched before the previous work was waited for"); D.fn = fn; D.args = (char*)args; D.sz = sz; D.str = str; D.on = 1; vmc_count("dispatches", 1);
  if (D.mode == 1) { bool rec = world_size == 1; if (rec) { vmc_region_begin(); vmc_region_stack(__builtin_frame_address(0)); } for (int p = 0; p < thread.n_pipeline; p++) { if (rec) vmc_region_tag(p); ov_job(p); } if (rec) vmc_region_tag(thread.n_pipeline); }
}
static void ov_wait() { if (!D.on) return; D.on = 0; if (D.mode == 2) for (int p = thread.n_pipeline - 1; p >= 0; p--) ov_job(p); if (D.mode == 1 && world_size == 1) { const char* m = vmc_region_end(); if (m) vmc_fail("overlap: %s", m); } }
static pipeline_dispatcher_t saved; static void install() { saved = thread; D.on = 0; D.mode = (int)vmc_par(19); if (D.mode) { thread.dispatch = ov_dispatch; thread.wait = ov_wait; } }
static void restore_it() { thread.dispatch = saved.dispatch; thread.wait = saved.wait; }
#else
static void install() { if ((int)vmc_par(19) == 1 && world_size == 1) vmc_tsan_mode(3); }
static void restore_it() { vmc_tsan_mode(0); }
#endif
static VS* S0; static grid_t* G0;
static void setup(int np_each, int species, int max_nm) { // world as for the fields; walls reflect particles
  W = World::unpack([](int i) { return vmc_par(i); }); boot_all(); W.index(world_rank, ix); HK = Hooks(); simulation = new vpic_simulation(); S0 = simulation; n_mats = (int)vmc_par(12); damp = vmc_par(13); seed = (int)vmc_par(16); partial = 0; init(S0); G0 = S0->grid;
  const int B[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) }; for (int f = 0; f < 6; f++) { int a = f % 3; if (W.bc[f] && ix[a] == (f < 3 ? 0 : W.p[a] - 1)) S0->set_domain_particle_bc(B[f], vmc_par(23) ? absorb_particles : reflect_particles); }
  field_array_t* fa = S0->field_array; mats(fa); sites(G0, [&](int i, int j, int k, int v) { for (int c = 0; c < NCOMP; c++) { int I[3]; gidx(STAG[c], i, j, k, I); *comp(fa->f[v], c) = c <= BZ ? 0.3 * hval(seed, c, gkey(I)) : 0; } });
  for (int q = 0; q < species; q++) { char nm[8]; sprintf(nm, "s%d", q); species_t* sp = S0->define_species(nm, q ? 1.5 : -1, q ? 4 : 1, np_each * 2 + 64, max_nm, q ? 3 : 2, q & 1); int cells = W.n[0] * W.n[1] * W.n[2];
    for (int n = 0; n < np_each; n++) { int c = (int)((hval(21, q, n) + 1) * 0.5 * cells) % cells, l[3] = { c % W.n[0], c / W.n[0] % W.n[1], c / W.n[0] / W.n[1] }; bool m = true; for (int a = 0; a < 3; a++) { if (l[a] / W.ln(a) != ix[a]) m = false; l[a] = l[a] % W.ln(a) + 1; } if (!m) continue; particle_t& p = sp->p[sp->np++]; p.dx = 0.95 * hval(22, q, n); p.dy = 0.95 * hval(23, q, n); p.dz = 0.95 * hval(24, q, n); p.i = VOXEL(l[0], l[1], l[2], G0->nx, G0->ny, G0->nz); p.ux = 0.8 * hval(25, q, n); p.uy = 0.8 * hval(26, q, n); p.uz = 0.8 * hval(27, q, n); p.w = 0.25 + n * (1. / 4096); } }
}
static void where(const particle_t& p, VD& o, bool id = true) { int v = p.i, l[3] = { v % (G0->nx + 2), v / (G0->nx + 2) % (G0->ny + 2), v / (G0->nx + 2) / (G0->ny + 2) }; double off[3] = { p.dx, p.dy, p.dz }; if (id) o.push_back(p.w); for (int a = 0; a < 3; a++) o.push_back(ix[a] * W.ln(a) + l[a] - 1 + (off[a] + 1) / 2); o.push_back(p.ux); o.push_back(p.uy); o.push_back(p.uz); }
static void emit_p(species_t* sp, const char* key, bool by_weight) { std::vector<int> o(sp->np); for (int n = 0; n < sp->np; n++) o[n] = n; if (by_weight) std::sort(o.begin(), o.end(), [&](int a, int b) { return sp->p[a].w < sp->p[b].w; }); VD v; for (int n : o) where(sp->p[n], v); vmc_emit(key, v.data(), v.size()); }
static void emit_f(const char* key, int c0, int c1) { VD o; for (int c = c0; c <= c1; c++) sites(G0, [&](int i, int j, int k, int v) { if (owned(G0, c, i, j, k)) o.push_back(*comp(S0->field_array->f[v], c)); }); vmc_emit(key, o.data(), o.size()); }
static void emit_h(const char* key) { VD o; for (int k = 1; k <= G0->nz + 1; k++) for (int j = 1; j <= G0->ny + 1; j++) for (int i = 1; i <= G0->nx + 1; i++) { hydro_t& h = S0->hydro(i, j, k); o.insert(o.end(), &h.jx, &h.jx + 14); } vmc_emit(key, o.data(), o.size()); }
static void particles() { // par 14 first material, 20 particles, 21 room for movers
  int np = (int)vmc_par(20); setup(np, 1, (int)vmc_par(21)); species_t* sp = S0->species_list; interpolator_array_t* ia = S0->interpolator_array; std::vector<particle_t> p0(sp->p, sp->p + sp->np);
  auto reset = [&] { sp->np = (int)p0.size(); sp->nm = 0; if (!p0.empty()) memcpy(sp->p, p0.data(), p0.size() * sizeof(particle_t)); };
  sp->sort_out_of_place = 0; sort_p(sp); { std::vector<particle_t> s(sp->p, sp->p + sp->np); VD part; for (int v = 0; v < G0->nv; v++) part.push_back(sp->partition[v]); vmc_emit("exact partition", part.data(), part.size()); std::sort(s.begin(), s.end(), [](const particle_t& a, const particle_t& b) { return a.i != b.i ? a.i < b.i : a.w < b.w; }); bool ok = true; for (int n = 0; n + 1 < sp->np; n++) if (sp->p[n].i > sp->p[n + 1].i) ok = false; if (!ok) vmc_fail("sort: particles are out of order"); vmc_bytes("exact sorted", s.data(), s.size() * sizeof(particle_t)); VD o; for (auto& p : s) where(p, o); vmc_emit("exact population", o.data(), o.size()); }
  sp->sort_out_of_place = 1; reset(); sort_p(sp); { VD part; for (int v = 0; v < G0->nv; v++) part.push_back(sp->partition[v]); vmc_emit("exact partition out of place", part.data(), part.size()); emit_p(sp, "exact sorted out of place", true); }
  load_interpolator_array(ia, S0->field_array); { VD o; for (int k = 1; k <= G0->nz; k++) for (int j = 1; j <= G0->ny; j++) for (int i = 1; i <= G0->nx; i++) { interpolator_t& f = ia->i[VOXEL(i, j, k, G0->nx, G0->ny, G0->nz)]; float* q = &f.ex; o.insert(o.end(), q, q + 18); } vmc_emit("interpolator", o.data(), o.size()); }
  reset(); uncenter_p(sp, ia); emit_p(sp, "uncentred", false); reset(); center_p(sp, ia); emit_p(sp, "centred", false); reset(); vmc_emit1("energy", energy_p(sp, ia));
  clear_hydro_array(S0->hydro_array); accumulate_hydro_p(S0->hydro_array, sp, ia); 
  synchronize_hydro_array(S0->hydro_array); emit_h("moments");
  reset(); clear_accumulator_array(S0->accumulator_array); for (int n = 0; n < 2; n++) { advance_p(sp, S0->accumulator_array, ia); if (!n) { if (sp->nm > np) vmc_fail("movers: %d movers for %d particles", sp->nm, np); std::map<float, VD> mv; for (int q = 0; q < sp->nm; q++) { int i = sp->pm[q].i; if (i < 0 || i >= sp->np) vmc_fail("movers: a mover names particle %d", i); VD& d = mv[sp->p[i].w]; if (!d.empty()) vmc_fail("movers: two movers name one particle"); d = VD{ sp->p[i].w, (double)(sp->p[i].i & 7), sp->pm[q].dispx, sp->pm[q].dispy, sp->pm[q].dispz }; } VD o; for (auto& m : mv) o.insert(o.end(), m.second.begin(), m.second.end()); vmc_emit("movers", o.data(), o.size()); }
    if (sp->nm) { boundary_p(S0->particle_bc_list, S0->species_list, S0->field_array, S0->accumulator_array); if (sp->nm) boundary_p(S0->particle_bc_list, S0->species_list, S0->field_array, S0->accumulator_array); } emit_p(sp, n ? "advanced twice" : "advanced", true); }
  emit_f("charge left at walls", RHOB, RHOB); reduce_accumulator_array(S0->accumulator_array); S0->field_array->kernel->clear_jf(S0->field_array); unload_accumulator_array(S0->field_array, S0->accumulator_array); S0->field_array->kernel->synchronize_jf(S0->field_array); emit_f("currents", JX, JZ);
  clear_accumulator_array(S0->accumulator_array); { double z = 0; accumulator_t* a = S0->accumulator_array->a; for (long q = 0; q < (long)S0->accumulator_array->stride * (S0->accumulator_array->n_pipeline + 1); q++) { const float* f = (const float*)(a + q); for (unsigned w = 0; w < sizeof(accumulator_t) / sizeof(float); w++) if (f[w] != 0) z++; } if (z) vmc_fail("clear: %g accumulator values are left", z); }
  clear_hydro_array(S0->hydro_array); { double z = 0; for (long q = 0; q < (long)S0->hydro_array->stride * (S0->hydro_array->n_pipeline + 1); q++) { const float* f = (const float*)(S0->hydro_array->h + q); for (int w = 0; w < 14; w++) if (f[w] != 0) z++; } if (z) vmc_fail("clear: %g hydro values are left", z); }
}
static void steps() { // par 20 particles, 22 steps
  setup((int)vmc_par(20), 2, 4000); S0->clean_div_e_interval = 2; S0->clean_div_b_interval = 3; S0->num_div_e_round = 2; S0->num_div_b_round = 1; S0->sync_shared_interval = 2; S0->num_comm_round = 3; S0->num_step = 99; S0->status_interval = 0;
  HK.init = [](VS*) {}; S0->initialize(0, NULL);
  for (int n = 0; n < (int)vmc_par(22); n++) { if (!S0->advance()) break; double en[6]; S0->field_array->kernel->energy_f(en, S0->field_array); vmc_emit("field energy", en, 6); for (species_t* sp = S0->species_list; sp; sp = sp->next) { vmc_emit1("kinetic energy", energy_p(sp, S0->interpolator_array)); } }
  int np = 0; for (species_t* sp = S0->species_list; sp; sp = sp->next) { np += sp->np; emit_p(sp, sp->id ? "particles 1" : "particles 0", true); } emit_f("fields e", EX, EZ); emit_f("fields b", BX, BZ); emit_f("currents", JX, JZ); emit_f("bound charge", RHOB, RHOB);
}
static void collide() { // par 20 bits, 22 steps
  RC.bits = (int)vmc_par(20); for (int a = 0; a < 3; a++) { RC.p[a] = 1; RC.n[a] = (int)vmc_par(a); } boot_all(); HK = Hooks(); simulation = new vpic_simulation(); S0 = simulation; G0 = S0->grid; rich_hooks(); S0->initialize(0, NULL); S0->num_step = 99; 
  for (int n = 0; n < (int)vmc_par(22); n++) { S0->advance(); VD d = rich_digest(S0); vmc_emit("exact digest", d.data(), d.size()); } HK = Hooks();
}
extern "C" void rank_main(int r) {
  after_boot = install; int kind = (int)vmc_par(18);
  if (kind == 0) { field_main(r); restore_it(); return; }
  if (kind == 1) particles(); else if (kind == 2) steps(); else collide();
  restore_it(); S0->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services();
}
