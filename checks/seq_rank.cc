// C24: initialize() and advance() of one simulation against the documented sequence of phases carried out on a twin, for all settings of the intervals.
#include "deck.h"
#include "rich.h"
static long nst, ntr; static int cfg[10]; enum { SI, DE, DB, SY, NDE, NDB, NCR, NS, ST };
struct Snap { int which; double step, time; std::vector<float> em, jf, in, pt; };
static std::vector<Snap> TR; static bool trace_on; static size_t at; static const char* HOOK[] = { "collisions", "particle injection", "current injection", "field injection", "diagnostics", "after" };
static Snap snap(VS* s, int which) { Snap o; grid_t* g = s->grid; o.which = which; o.step = (double)s->step(); o.time = s->time();
  for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { field_t& f = s->field(i, j, k); bool x = i <= g->nx, y = j <= g->ny, z = k <= g->nz; auto& e = o.em; auto& q = o.jf; if (x) e.push_back(f.ex), e.push_back(f.tcax), q.push_back(f.jfx); if (y) e.push_back(f.ey), e.push_back(f.tcay), q.push_back(f.jfy); if (z) e.push_back(f.ez), e.push_back(f.tcaz), q.push_back(f.jfz); if (y && z) e.push_back(f.cbx); if (z && x) e.push_back(f.cby); if (x && y) e.push_back(f.cbz); e.push_back(f.rhob);
    if (x && y && z && s->species_list) { interpolator_t& t = s->interpolator(i, j, k); const float* p = &t.ex; o.in.insert(o.in.end(), p, p + 18); } }
  if (which < 2) o.jf.clear(); if (which < 4) o.in.clear();
  for (species_t* sp = s->species_list; sp; sp = sp->next) { std::vector<const particle_t*> v; for (int n = 0; n < sp->np; n++) v.push_back(sp->p + n); std::stable_sort(v.begin(), v.end(), [](const particle_t* a, const particle_t* b) { if (a->w != b->w) return a->w < b->w; if (a->i != b->i) return a->i < b->i; if (a->ux != b->ux) return a->ux < b->ux; return a->dx < b->dx; }); o.pt.push_back((float)sp->np); o.pt.push_back((float)sp->nm); for (auto p : v) { o.pt.push_back(p->dx); o.pt.push_back(p->dy); o.pt.push_back(p->dz); o.pt.push_back((float)p->i); o.pt.push_back(p->ux); o.pt.push_back(p->uy); o.pt.push_back(p->uz); o.pt.push_back(p->w); } }
  return o; }
static std::string conf() { char b[300]; sprintf(b, "set-up %x on %dx%dx%d ranks, intervals sort %d div e %d (%d rounds) div b %d (%d rounds) sync %d, %d boundary rounds, %d steps, status %d", RC.bits, RC.p[0], RC.p[1], RC.p[2], cfg[SI], cfg[DE], cfg[NDE], cfg[DB], cfg[NDB], cfg[SY], cfg[NCR], cfg[NS], cfg[ST]); return b; }
static void same(const char* what, const std::vector<float>& a, const std::vector<float>& b, const Snap& s) {
  ntr++; if (a.size() != b.size()) vmc_fail("order: %s seen by %s at step %g differ in number (%zu, documented sequence %zu); %s", what, HOOK[s.which], s.step, a.size(), b.size(), conf().c_str()); if (!a.empty() && !memcmp(a.data(), b.data(), 4 * a.size())) return;
  double sc = 1e-3; for (float x : b) if (fabs(x) > sc) sc = fabs(x); for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= 3e-5 * sc)) vmc_fail("order: %s seen by %s at step %g: %.8g, in the documented sequence %.8g; %s", what, HOOK[s.which], s.step, a[i], b[i], conf().c_str()); }
static void hook(VS* s, int which) {
  if (trace_on) { TR.push_back(snap(s, which)); return; } Snap b = snap(s, which); if (at >= TR.size()) vmc_fail("callback: %s is not called at step %g; %s", HOOK[which], b.step, conf().c_str()); const Snap& a = TR[at++];
  if (a.which != which || a.step != b.step || a.time != b.time) vmc_fail("callback: %s called at step %g (time %g) where the documented sequence has %s at step %g (time %g); %s", HOOK[a.which], a.step, a.time, HOOK[which], b.step, b.time, conf().c_str());
  same("fields", a.em, b.em, a); same("currents", a.jf, b.jf, a); same("interpolators", a.in, b.in, a); same("particles", a.pt, b.pt, a); nst++; }
static void setup(VS* s) { rich_init(s); grid_t* g = s->grid; s->clean_div_e_interval = cfg[DE]; s->clean_div_b_interval = cfg[DB]; s->sync_shared_interval = cfg[SY]; s->num_div_e_round = cfg[NDE]; s->num_div_b_round = cfg[NDB]; s->num_comm_round = cfg[NCR]; s->num_step = cfg[NS]; s->status_interval = cfg[ST]; for (species_t* sp = s->species_list; sp; sp = sp->next) sp->sort_interval = cfg[SI];
  for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { field_t& f = s->field(i, j, k); uint64_t q = VOXEL(i, j, k, 8, 8, 8) + 1000 * world_rank; f.ex += 0.02 * hval(91, q); f.ey += 0.02 * hval(92, q); f.ez += 0.02 * hval(93, q); f.cbx += 0.02 * hval(94, q); f.cby += 0.02 * hval(95, q); f.cbz += 0.02 * hval(96, q); } }
#define K s->field_array->kernel
#define FA s->field_array
// what the documentation says, phase by phase
static void ref_initialize(VS* s) {
  s->user_initialization(0, NULL); K->synchronize_tang_e_norm_b(FA); K->compute_div_b_err(FA); K->clean_div_b(FA); K->compute_curl_b(FA); K->clear_rhof(FA); for (species_t* sp = s->species_list; sp; sp = sp->next) accumulate_rho_p(FA, sp); K->synchronize_rho(FA); K->compute_rhob(FA); K->compute_div_e_err(FA); K->clean_div_e(FA); K->synchronize_tang_e_norm_b(FA);
  if (s->species_list) load_interpolator_array(s->interpolator_array, FA); for (species_t* sp = s->species_list; sp; sp = sp->next) uncenter_p(sp, s->interpolator_array); s->user_diagnostics(); }
static void ref_step(VS* s) {
  grid_t* g = s->grid; long t = (long)g->step; species_t* L = s->species_list; auto due = [&](int iv) { return iv > 0 && t % iv == 0; };
  for (species_t* sp = L; sp; sp = sp->next) if (due(cfg[SI])) sort_p(sp);
  if (L) clear_accumulator_array(s->accumulator_array); apply_collision_op_list(s->collision_op_list); s->user_particle_collisions(); for (species_t* sp = L; sp; sp = sp->next) advance_p(sp, s->accumulator_array, s->interpolator_array);
  apply_emitter_list(s->emitter_list); s->user_particle_injection(); if (L) reduce_accumulator_array(s->accumulator_array); for (int r = 0; r < cfg[NCR]; r++) boundary_p(s->particle_bc_list, L, FA, s->accumulator_array);
  for (species_t* sp = L; sp; sp = sp->next) { for (int m = sp->nm - 1; m >= 0; m--) { int i = sp->pm[m].i; particle_t p = sp->p[i]; p.i >>= 3; accumulate_rhob(FA->f, &p, g, sp->q); sp->p[i] = sp->p[--sp->np]; } sp->nm = 0; }
  K->clear_jf(FA); if (L) unload_accumulator_array(FA, s->accumulator_array); K->synchronize_jf(FA); s->user_current_injection(); K->advance_b(FA, 0.5); K->advance_e(FA, 1.0); s->user_field_injection(); K->advance_b(FA, 0.5);
  if (due(cfg[DE])) { K->clear_rhof(FA); for (species_t* sp = L; sp; sp = sp->next) accumulate_rho_p(FA, sp); K->synchronize_rho(FA); for (int r = 0; r < cfg[NDE]; r++) K->compute_div_e_err(FA), K->clean_div_e(FA); }
  if (due(cfg[DB])) for (int r = 0; r < cfg[NDB]; r++) K->compute_div_b_err(FA), K->clean_div_b(FA);
  if (due(cfg[SY])) K->synchronize_tang_e_norm_b(FA); if (L) load_interpolator_array(s->interpolator_array, FA); g->step = t + 1; s->user_diagnostics(); }
static VS* fresh() { HK = Hooks(); rich_hooks(); auto c = HK.coll, p = HK.pinj, j = HK.jinj, f = HK.finj; HK.init = setup;
  HK.coll = [c](VS* s) { hook(s, 0); if (c) c(s); }; HK.pinj = [p](VS* s) { hook(s, 1); if (p) p(s); }; HK.jinj = [j](VS* s) { hook(s, 2); if (j) j(s); }; HK.finj = [f](VS* s) { hook(s, 3); if (f) f(s); }; HK.diag = [](VS* s) { hook(s, 4); }; return simulation = new vpic_simulation(); }
static void one(int total) {
  TR.clear(); trace_on = true; VS* s = fresh(); s->initialize(0, NULL); if (s->step() != 3 || fabs(s->time() - 1.7) > 1e-6) vmc_fail("start: the run does not start at the step and time that were set"); int done = 0; double t0 = s->time();
  for (int k = 0; k < total; k++) { long before = (long)s->step(); size_t nc = TR.size(); int r = s->advance(); bool stop = cfg[NS] > 0 && before >= cfg[NS]; ntr++; if (stop ? r != 0 : r == 0) vmc_fail("end: advance() %s at step %ld; %s", stop ? "goes on" : "stops", before, conf().c_str()); if (stop ? s->step() != before || TR.size() != nc : s->step() != before + 1) vmc_fail("count: the step counter went from %ld to %ld; %s", before, (long)s->step(), conf().c_str()); if (!stop) done++; if (fabs(s->time() - (t0 + done * (double)s->grid->dt)) > 1e-6) vmc_fail("time: %g after %d steps of %g; %s", s->time(), done, s->grid->dt, conf().c_str()); }
  TR.push_back(snap(s, 5)); s->finalize(); delete s;
  trace_on = false; at = 0; s = fresh(); ref_initialize(s); for (int k = 0; k < done; k++) ref_step(s); if (at + 1 != TR.size()) vmc_fail("callback: %s called once too often at step %g; %s", HOOK[TR[at].which], TR[at].step, conf().c_str()); hook(s, 5); s->finalize(); delete s; simulation = NULL; HK = Hooks(); }
extern "C" void rank_main(int) {
  RC.bits = (int)vmc_par(0); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(1 + a); RC.n[a] = (int)vmc_par(4 + a); } int mode = (int)vmc_par(7), M = (int)vmc_par(8); boot_all(); auto base = [] { int d[] = { 2, 2, 3, 2, 2, 2, 3, 0, 0 }; memcpy(cfg, d, sizeof d); };
  if (mode == 0) for (int i = 0; i < M * M * M * M; i++) { base(); cfg[SI] = i % M; cfg[DE] = i / M % M; cfg[DB] = i / M / M % M; cfg[SY] = i / M / M / M % M; cfg[ST] = i % 5; one(7); }
  if (mode == 1) for (int i = 0; i < 4 * M * M; i++) { base(); cfg[NCR] = i % 4; cfg[NDE] = i / 4 % M; cfg[NDB] = i / 4 / M; cfg[ST] = 2; one(4); }
  if (mode == 2) for (int n = -2; n <= 8; n++) for (int i = 0; i < 4; i++) { base(); cfg[NS] = n; cfg[ST] = n == 3 ? -1 : i; if (i == 3) cfg[SI] = cfg[DE] = cfg[DB] = cfg[SY] = -1; one(n <= 0 ? 9 : n + 1); }
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst / 5); mp_barrier(); halt_services(); }
