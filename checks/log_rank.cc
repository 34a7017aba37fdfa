// C29: what a run tells about itself: the timing table, the progress log and the clock.
#include "deck.h"
#include "rich.h"
#include <regex>
static long nst, ntr;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
#define PT profile_internal_use_only
static double now_; static bool virt;
static void tick(double s) { now_ += s; vmc_clock(now_); }
static void probe() { now_ = 1.7e9; vmc_clock(now_); double a = wallclock(); tick(5); virt = fabs(wallclock() - a - 5) < 1e-5; } // false: the code reads a clock that is not under control, times are not judged
static int count_rows() { int n = 0; while (PT[n].name) n++; return n; }
static void zero() { for (int i = 0; PT[i].name; i++) PT[i].t = PT[i].t_total = 0, PT[i].n = PT[i].n_total = 0; }
struct Row { double t, tt; long n, nt; };
struct Line { std::string name; double v[8]; };
static std::vector<Line> table(const std::string& log) { std::vector<Line> o; std::istringstream is(log); std::string l; while (std::getline(is, l)) { size_t b = l.find('|'); if (b == std::string::npos || b < 2) continue; if (l.find('%') == std::string::npos) continue; Line r; std::string nm = l.substr(0, b); size_t a = nm.find_first_not_of(' '), e = nm.find_last_not_of(' '); r.name = a == std::string::npos ? "" : nm.substr(a, e - a + 1); if (sscanf(l.c_str() + b, "| %lf%% %lf %lf %lf | %lf%% %lf %lf %lf", r.v, r.v + 1, r.v + 2, r.v + 3, r.v + 4, r.v + 5, r.v + 6, r.v + 7) != 8) vmc_fail("table: a line that cannot be read: '%s'", l.c_str()); o.push_back(r); } return o; }
static bool near(double a, double b) { return fabs(a - b) <= 0.052 * fabs(b) + 2e-6; } // printed with two digits
static void check_table(const std::vector<Line>& T, const std::vector<Row>& M, const char* after) {
  double s = 0, st = 0; for (auto& r : M) s += r.t, st += r.tt; size_t at = 0; for (size_t i = 0; i < M.size(); i++) { auto& r = M[i]; if (!r.n && !r.nt) continue; std::string nm = std::string(PT[i].name).substr(0, 26); WANT(at < T.size() && T[at].name == nm, "table: '%s' is missing, or not where it belongs; %s", nm.c_str(), after); const double* v = T[at++].v;
    if (virt) { double p = s > 0 ? 100 * r.t / s : 0, pt = st > 0 ? 100 * r.tt / st : 0; WANT(fabs(v[0] - p) <= 1 && fabs(v[4] - pt) <= 1, "table: shares %g%%, %g%% of '%s', expected %g%%, %g%%; %s", v[0], v[4], nm.c_str(), p, pt, after); WANT(near(v[1], r.t) && near(v[5], r.tt), "table: times %g, %g of '%s', expected %g, %g; %s", v[1], v[5], nm.c_str(), r.t, r.tt, after); if (r.n) WANT(near(v[3], r.t / r.n), "table: time per call %g of '%s', expected %g; %s", v[3], nm.c_str(), r.t / r.n, after); if (r.nt) WANT(near(v[7], r.tt / r.nt), "table: total time per call %g of '%s', expected %g; %s", v[7], nm.c_str(), r.tt / r.nt, after); }
    WANT(near(v[2], (double)r.n) && near(v[6], (double)r.nt), "table: counts %g, %g of '%s', expected %ld, %ld; %s", v[2], v[6], nm.c_str(), r.n, r.nt, after); }
  WANT(at == T.size(), "table: '%s' is listed without having been called; %s", T[at].name.c_str(), after); }
// every history of timed operations and updates up to a depth
static std::string hist;
static int NR; static std::vector<Row> M0; static int IX[3]; enum { D = 5 }; static const double DUR[D] = { 0, 1e-4, 1.5, 0.25, 4000.25 }; static const int CN[D] = { 1, 1, 3, 0, 100000 };
static void timed(int which, double d, int n) { switch (which) { case 0: TIC tick(d); TOC(clear_accumulators, n); break; case 1: TIC tick(d); TOC(advance_p, n); break; default: TIC tick(d); TOC(user_diagnostics, n); } }
static void apply(std::vector<Row>& M, int op) { size_t h = hist.size(); (void)h;
  if (op < 3 * D) { int a = op / D, d = op % D; timed(a, DUR[d], CN[d]); M[IX[a]].t += DUR[d]; M[IX[a]].n += CN[d]; }
  else if (op == 3 * D) { TIC { tick(0.5); timed(2, 0.75, 1); if (nst < 0) continue; tick(0.5); } TOC(advance_p, 2); M[IX[1]].t += 1.75; M[IX[1]].n += 2; M[IX[2]].t += 0.75; M[IX[2]].n++; }
  else { bool dump = op == 3 * D + 1; vmc_log_clear(); for (auto& r : M) r.tt += r.t, r.nt += r.n; update_profile(dump); std::string lg = vmc_log(); if (dump) check_table(table(lg), M, hist.c_str()); else WANT(lg.empty(), "table: written although it was not asked for"); for (auto& r : M) r.t = 0, r.n = 0; }
  for (int i = 0; i < NR; i++) { WANT(PT[i].n == M[i].n && PT[i].n_total == M[i].nt, "count: of '%s' is %d (%d in all), expected %ld (%ld); %s", PT[i].name, PT[i].n, PT[i].n_total, M[i].n, M[i].nt, hist.c_str()); if (virt) WANT(fabs(PT[i].t - M[i].t) < 3e-5 && fabs(PT[i].t_total - M[i].tt) < 3e-5, "time: of '%s' is %g (%g in all), expected %g (%g); %s", PT[i].name, PT[i].t, PT[i].t_total, M[i].t, M[i].tt, hist.c_str()); } nst++; }
static void histories(int depth, int first) { NR = count_rows(); IX[0] = profile_internal_use_only_clear_accumulators; IX[1] = profile_internal_use_only_advance_p; IX[2] = profile_internal_use_only_user_diagnostics; WANT(NR == profile_internal_use_only_n_timer && !strcmp(PT[IX[0]].name, "clear_accumulators") && !strcmp(PT[IX[1]].name, "advance_p") && !strcmp(PT[IX[2]].name, "user_diagnostics"), "names: timers have other names"); const int NO = 3 * D + 3; std::vector<int> op(depth, 0); op[0] = first;
  for (;;) { zero(); std::vector<Row> M(NR, Row{ 0, 0, 0, 0 }); hist = "history"; for (int o : op) { char b[20]; sprintf(b, " %d", o); hist += b; apply(M, o); } hist += " table"; apply(M, 3 * D + 1); int k = depth - 1; while (k > 0 && ++op[k] == NO) op[k--] = 0; if (k <= 0) break; } }
// the real main loop: each operation counted as often as it is carried out, time charged to what took it
static int cfg[10]; enum { SI, DE, DB, SY, NDE, NDB, NCR, NS, ST };
static std::map<std::string, Row> W; static std::vector<std::string> LOG; static bool ref; static int nspecies, nemit, ncoll;
#define KN(_) _(advance_b) _(advance_e) _(clear_jf) _(synchronize_jf) _(clear_rhof) _(synchronize_rho) _(compute_rhob) _(compute_curl_b) _(synchronize_tang_e_norm_b) _(compute_div_e_err) _(compute_rms_div_e_err) _(clean_div_e) _(compute_div_b_err) _(compute_rms_div_b_err) _(clean_div_b)
static field_advance_kernels_t KO; enum {
#define X(f) q_##f,
KN(X)
#undef X
};
#define COST(f) (0.5 * (1 << (q_##f % 4)) + 0.125 * q_##f)
static void w_advance_b(field_array_t* f, float x) { KO.advance_b(f, x); tick(COST(advance_b)); } static void w_advance_e(field_array_t* f, float x) { KO.advance_e(f, x); tick(COST(advance_e)); }
#define V(f) static void w_##f(field_array_t* a) { KO.f(a); tick(COST(f)); }
V(clear_jf) V(synchronize_jf) V(clear_rhof) V(synchronize_rho) V(compute_rhob) V(compute_curl_b) V(compute_div_e_err) V(clean_div_e) V(compute_div_b_err) V(clean_div_b)
static double w_synchronize_tang_e_norm_b(field_array_t* a) { double r = KO.synchronize_tang_e_norm_b(a); tick(COST(synchronize_tang_e_norm_b)); return r; } static double w_compute_rms_div_e_err(const field_array_t* a) { double r = KO.compute_rms_div_e_err(a); tick(COST(compute_rms_div_e_err)); return r; } static double w_compute_rms_div_b_err(const field_array_t* a) { double r = KO.compute_rms_div_b_err(a); tick(COST(compute_rms_div_b_err)); return r; }
static void add(const char* n, long c, double t) { Row& r = W[n]; r.n += c; r.t += t; }
static void say(const char* f, ...) { if (world_rank && f[0] != '!') return; if (f[0] == '!') f++; va_list a; va_start(a, f); char b[400]; vsnprintf(b, sizeof b, f, a); va_end(a); LOG.push_back(b); }
static std::string conf() { char b[300]; sprintf(b, "set-up %x on %dx%dx%d ranks, intervals sort %d div e %d (%d rounds) div b %d (%d rounds) sync %d, %d boundary rounds, %d steps, status %d", RC.bits, RC.p[0], RC.p[1], RC.p[2], cfg[SI], cfg[DE], cfg[NDE], cfg[DB], cfg[NDB], cfg[SY], cfg[NCR], cfg[NS], cfg[ST]); return b; }
static void setup(VS* s) { rich_init(s); grid_t* g = s->grid; s->verbose = 1; s->clean_div_e_interval = cfg[DE]; s->clean_div_b_interval = cfg[DB]; s->sync_shared_interval = cfg[SY]; s->num_div_e_round = cfg[NDE]; s->num_div_b_round = cfg[NDB]; s->num_comm_round = cfg[NCR]; s->num_step = cfg[NS]; s->status_interval = cfg[ST]; nspecies = 0; for (species_t* sp = s->species_list; sp; sp = sp->next) sp->sort_interval = cfg[SI], nspecies++;
  for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { field_t& f = s->field(i, j, k); uint64_t q = VOXEL(i, j, k, 8, 8, 8) + 1000 * world_rank; f.ex += 0.02 * hval(91, q); f.ey += 0.02 * hval(92, q); f.ez += 0.02 * hval(93, q); f.cbx += 0.02 * hval(94, q); f.cby += 0.02 * hval(95, q); f.cbz += 0.02 * hval(96, q); }
  nemit = num_emitter(s->emitter_list); ncoll = num_collision_op(s->collision_op_list); field_advance_kernels_t* k = s->field_array->kernel; KO = *k;
#define X(f) k->f = w_##f;
  KN(X)
#undef X
  vmc_log_clear(); tick(13); }
static VS* fresh() { HK = Hooks(); rich_hooks(); auto c = HK.coll, p = HK.pinj, j = HK.jinj, f = HK.finj; HK.init = setup; HK.coll = [c](VS* s) { if (c) c(s); tick(2); }; HK.pinj = [p](VS* s) { if (p) p(s); tick(3); }; HK.jinj = [j](VS* s) { if (j) j(s); tick(4); }; HK.finj = [f](VS* s) { if (f) f(s); tick(7); }; HK.diag = [](VS* s) { tick(11); }; return simulation = new vpic_simulation(); }
// lines of the log that are the main loop's own
static const char* KNOWN[] = { "Checking interdomain synchronization", "Error = ", "Checking magnetic field divergence", "RMS error = ", "Initializing radiation damping fields", "Initializing bound charge density", "Checking electric field divergence", "Rechecking interdomain synchronization", "Uncentering particles", "Performing initial diagnostics", "Initialization complete", "Performance sorting ", "Removing ", "Divergence cleaning ", "Initial rms error", "Cleaned rms error", "Synchronizing shared", "Domain desynchronization", "Completed step" };
static std::vector<std::string> known(const std::string& t) { std::vector<std::string> o; std::istringstream is(t); std::string l; while (std::getline(is, l)) { size_t a = l.find("]: "); std::string q = a == std::string::npos ? l.substr(l.find_first_not_of(" \t") == std::string::npos ? 0 : l.find_first_not_of(" \t")) : l.substr(a + 3); for (auto k : KNOWN) if (!q.compare(0, strlen(k), k)) { o.push_back(q); break; } } return o; }
static std::string skeleton(const std::string& a, std::vector<double>& v) { std::string o; const char* p = a.c_str(); while (*p) { char* e; if (isdigit(*p) || ((*p == '-' || *p == '+' || *p == '.') && isdigit(p[1]))) { double x = strtod(p, &e); v.push_back(x); o += '#'; p = e; } else if (!strncmp(p, "nan", 3) || !strncmp(p, "-nan", 4) || !strncmp(p, "inf", 3)) { v.push_back(1e300); o += '#'; p += *p == '-' ? 4 : 3; } else o += *p++; } return o; }
static void compare_log(const char* when) { std::vector<std::string> got = known(vmc_log()); for (size_t i = 0; i < std::max(got.size(), LOG.size()); i++) { const char* a = i < got.size() ? got[i].c_str() : "(nothing)"; const char* b = i < LOG.size() ? LOG[i].c_str() : "(nothing)"; std::vector<double> x, y; std::string p = skeleton(a, x), q = skeleton(b, y); bool ok = p == q && x.size() == y.size(); for (size_t k = 0; ok && k < x.size(); k++) ok = fabs(x[k] - y[k]) <= 2e-3 * fabs(y[k]) + 2e-6; WANT(ok, "log: %s says '%s' where '%s' is true; %s", when, a, b, conf().c_str()); nst++; } vmc_log_clear(); LOG.clear(); }
static void roll() { for (auto& w : W) { w.second.tt += w.second.t; w.second.nt += w.second.n; } }
static void clear_w() { for (auto& w : W) w.second.t = 0, w.second.n = 0; }
static void compare_counts(const char* when) { for (int i = 0; PT[i].name; i++) { Row r = W.count(PT[i].name) ? W[PT[i].name] : Row{ 0, 0, 0, 0 }; WANT(PT[i].n == r.n && PT[i].n_total == r.nt, "count: %s '%s' is counted %d times (%d in all), carried out %ld (%ld); %s", when, PT[i].name, PT[i].n, PT[i].n_total, r.n, r.nt, conf().c_str()); if (virt) WANT(fabs(PT[i].t - r.t) < 1e-3 && fabs(PT[i].t_total - r.tt) < 1e-3, "time: %s '%s' is charged %g (%g in all), took %g (%g); %s", when, PT[i].name, PT[i].t, PT[i].t_total, r.t, r.tt, conf().c_str()); nst++; } }
static std::vector<Row> rows() { std::vector<Row> o; for (int i = 0; PT[i].name; i++) o.push_back(W.count(PT[i].name) ? W[PT[i].name] : Row{ 0, 0, 0, 0 }); return o; }
#define FA s->field_array
#define OP(f) do { KO.f(FA); add(#f, 1, COST(f)); } while (0)
// the twin carries out the documented sequence and writes down what is true of it
static void ref_initialize(VS* s) { double e; species_t* L = s->species_list; HK.diag = HK.coll = HK.pinj = HK.jinj = HK.finj = NULL; (void)L; add("user_initialization", 1, 13); L = s->species_list;
  say("Checking interdomain synchronization"); e = KO.synchronize_tang_e_norm_b(FA); add("synchronize_tang_e_norm_b", 1, COST(synchronize_tang_e_norm_b)); say("Error = %e (arb units)", e); say("Checking magnetic field divergence"); OP(compute_div_b_err); e = KO.compute_rms_div_b_err(FA); add("compute_rms_div_b_err", 1, COST(compute_rms_div_b_err)); say("RMS error = %e (charge/volume)", e); OP(clean_div_b); say("Initializing radiation damping fields"); OP(compute_curl_b); say("Initializing bound charge density"); OP(clear_rhof); for (species_t* sp = L; sp; sp = sp->next) accumulate_rho_p(FA, sp), add("accumulate_rho_p", 1, 0); OP(synchronize_rho); OP(compute_rhob);
  say("Checking electric field divergence"); OP(compute_div_e_err); e = KO.compute_rms_div_e_err(FA); add("compute_rms_div_e_err", 1, COST(compute_rms_div_e_err)); say("RMS error = %e (charge/volume)", e); OP(clean_div_e); say("Rechecking interdomain synchronization"); e = KO.synchronize_tang_e_norm_b(FA); add("synchronize_tang_e_norm_b", 1, COST(synchronize_tang_e_norm_b)); say("Error = %e (arb units)", e); if (L) { say("Uncentering particles"); load_interpolator_array(s->interpolator_array, FA); add("load_interpolator", 1, 0); } for (species_t* sp = L; sp; sp = sp->next) uncenter_p(sp, s->interpolator_array), add("uncenter_p", 1, 0); say("Performing initial diagnostics"); add("user_diagnostics", 1, 11); say("Initialization complete"); }
static std::function<void(VS*)> U[4];
static void ref_step(VS* s) { grid_t* g = s->grid; long t = (long)g->step; species_t* L = s->species_list; double e; auto due = [&](int iv) { return iv > 0 && t % iv == 0; };
  for (species_t* sp = L; sp; sp = sp->next) if (due(cfg[SI])) { say("Performance sorting \"%s\"", sp->name); sort_p(sp); add("sort_p", 1, 0); }
  if (L) clear_accumulator_array(s->accumulator_array), add("clear_accumulators", 1, 0); if (ncoll) apply_collision_op_list(s->collision_op_list), add("collision_model", 1, 0); if (U[0]) U[0](s); add("user_particle_collisions", 1, 2); for (species_t* sp = L; sp; sp = sp->next) advance_p(sp, s->accumulator_array, s->interpolator_array), add("advance_p", 1, 0);
  if (nemit) apply_emitter_list(s->emitter_list), add("emission_model", 1, 0); if (U[1]) U[1](s); add("user_particle_injection", 1, 3); if (L) reduce_accumulator_array(s->accumulator_array), add("reduce_accumulators", 1, 0); for (int r = 0; r < cfg[NCR]; r++) boundary_p(s->particle_bc_list, L, FA, s->accumulator_array); add("boundary_p", cfg[NCR], 0);
  for (species_t* sp = L; sp; sp = sp->next) { if (sp->nm) say("!Removing %i particles associated with unprocessed %s movers (increase num_comm_round)", sp->nm, sp->name); for (int m = sp->nm - 1; m >= 0; m--) { int i = sp->pm[m].i; particle_t p = sp->p[i]; p.i >>= 3; accumulate_rhob(FA->f, &p, g, sp->q); sp->p[i] = sp->p[--sp->np]; } sp->nm = 0; }
  OP(clear_jf); if (L) unload_accumulator_array(FA, s->accumulator_array), add("unload_accumulator", 1, 0); OP(synchronize_jf); if (U[2]) U[2](s); add("user_current_injection", 1, 4); KO.advance_b(FA, 0.5); add("advance_b", 1, COST(advance_b)); KO.advance_e(FA, 1.0); add("advance_e", 1, COST(advance_e)); if (U[3]) U[3](s); add("user_field_injection", 1, 7); KO.advance_b(FA, 0.5); add("advance_b", 1, COST(advance_b));
  if (due(cfg[DE])) { say("Divergence cleaning electric field"); OP(clear_rhof); for (species_t* sp = L; sp; sp = sp->next) accumulate_rho_p(FA, sp), add("accumulate_rho_p", 1, 0); OP(synchronize_rho); for (int r = 0; r < cfg[NDE]; r++) { OP(compute_div_e_err); if (!r || r == cfg[NDE] - 1) { e = KO.compute_rms_div_e_err(FA); add("compute_rms_div_e_err", 1, COST(compute_rms_div_e_err)); say("%s rms error = %e (charge/volume)", r ? "Cleaned" : "Initial", e); } OP(clean_div_e); } }
  if (due(cfg[DB])) { say("Divergence cleaning magnetic field"); for (int r = 0; r < cfg[NDB]; r++) { OP(compute_div_b_err); if (!r || r == cfg[NDB] - 1) { e = KO.compute_rms_div_b_err(FA); add("compute_rms_div_b_err", 1, COST(compute_rms_div_b_err)); say("%s rms error = %e (charge/volume)", r ? "Cleaned" : "Initial", e); } OP(clean_div_b); } }
  if (due(cfg[SY])) { say("Synchronizing shared tang e, norm b, rho_b"); e = KO.synchronize_tang_e_norm_b(FA); add("synchronize_tang_e_norm_b", 1, COST(synchronize_tang_e_norm_b)); say("Domain desynchronization error = %e (arb units)", e); } if (L) load_interpolator_array(s->interpolator_array, FA), add("load_interpolator", 1, 0); g->step = t + 1; }
struct Seen { std::string log; std::vector<Row> rows; std::vector<Line> tab; bool status; };
static void take(Seen& o) { o.log = vmc_log(); vmc_log_clear(); o.tab = table(o.log); for (int i = 0; PT[i].name; i++) o.rows.push_back(Row{ PT[i].t, PT[i].t_total, PT[i].n, PT[i].n_total }); }
static void give(const Seen& o) { vmc_log_clear(); log_printf("%s", ""); for (int i = 0; PT[i].name; i++) PT[i].t = o.rows[i].t, PT[i].t_total = o.rows[i].tt, PT[i].n = (int)o.rows[i].n, PT[i].n_total = (int)o.rows[i].nt; }
static void one(int total) {
  zero(); std::vector<Seen> seen; VS* s = fresh(); s->initialize(0, NULL); seen.push_back(Seen()); take(seen.back()); for (int k = 0; k < total; k++) { if (!s->advance()) break; seen.push_back(Seen()); take(seen.back()); } size_t steps = seen.size() - 1; s->finalize(); seen.push_back(Seen()); take(seen.back()); delete s;
  W.clear(); LOG.clear(); HK = Hooks(); rich_hooks(); U[0] = HK.coll; U[1] = HK.pinj; U[2] = HK.jinj; U[3] = HK.finj; HK = Hooks(); HK.init = setup; s = simulation = new vpic_simulation(); s->user_initialization(0, NULL); ref_initialize(s);
  for (size_t k = 0; k < seen.size(); k++) { if (k && k <= steps) ref_step(s); bool last = k > steps, status = !k || last || (cfg[ST] > 0 && s->grid->step % cfg[ST] == 0); char when[60]; if (last) strcpy(when, "at the end"); else sprintf(when, k ? "after step %ld" : "after initialization", (long)s->grid->step);
    if (status && k && !last) say("Completed step %ld of %d", (long)s->grid->step, cfg[NS]); vmc_log_clear(); const Seen& o = seen[k];
    if (status) { roll(); if (!world_rank) check_table(o.tab, rows(), (std::string(when) + "; " + conf()).c_str()); else WANT(o.tab.empty(), "table: printed by rank %d %s; %s", world_rank, when, conf().c_str()); clear_w(); } else WANT(o.tab.empty(), "table: printed %s, not a status step; %s", when, conf().c_str());
    if (k && !last) add("user_diagnostics", 1, 11); give(o); compare_counts(when); std::vector<std::string> want = LOG; vmc_log_clear(); { std::vector<std::string> got = known(o.log); for (size_t i = 0; i < std::max(got.size(), want.size()); i++) { const char* a = i < got.size() ? got[i].c_str() : "(nothing)"; const char* b = i < want.size() ? want[i].c_str() : "(nothing)"; std::vector<double> x, y; std::string p = skeleton(a, x), q = skeleton(b, y); bool ok = p == q && x.size() == y.size(); for (size_t c = 0; ok && c < x.size(); c++) ok = fabs(x[c] - y[c]) <= 2e-3 * fabs(y[c]) + 2e-6; WANT(ok, "log: %s rank %d says '%s' where '%s' is true; %s", when, world_rank, a, b, conf().c_str()); nst++; } } LOG.clear(); }
  HK = Hooks(); s->finalize(); delete s; simulation = NULL; zero(); }
static void runs() { RC.bits = (int)vmc_par(1); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(2 + a); RC.n[a] = (int)vmc_par(5 + a); } int mode = (int)vmc_par(8), Mx = (int)vmc_par(9); probe(); boot_all(); auto base = [] { int d[] = { 2, 2, 3, 2, 2, 2, 3, 0, 0 }; memcpy(cfg, d, sizeof d); };
  if (mode == 0) for (int i = 0; i < Mx * Mx * Mx * Mx; i++) { base(); cfg[SI] = i % Mx; cfg[DE] = i / Mx % Mx; cfg[DB] = i / Mx / Mx % Mx; cfg[SY] = i / Mx / Mx / Mx; cfg[ST] = i % 5; one(6); }
  if (mode == 1) for (int i = 0; i < 4 * Mx * Mx; i++) { base(); cfg[NCR] = i % 4; cfg[NDE] = i / 4 % Mx; cfg[NDB] = i / 4 / Mx; cfg[ST] = 2; one(4); }
  if (mode == 2) for (int n = -1; n <= 8; n++) for (int st = -1; st < 5; st++) { base(); cfg[NS] = n; cfg[ST] = st; one(n <= 0 ? 9 : n + 1); }
  mp_barrier(); halt_services(); }
// uptime: the mean over the ranks of the time since they booted
static void clocks() { static const double V[] = { 0, 1, 2.5, 1000.125 }; int n = world_size, tot = 1; n = vmc_nranks(); for (int q = 0; q < n; q++) tot *= 4; now_ = 1.7e9; vmc_clock(now_); probe(); now_ = 1.6e9 + 3600. * vmc_rank(); vmc_clock(now_); double b0 = now_; boot_all(); for (int c = 0; c < tot; c++) { int d = c; double mean = 0; for (int q = 0; q < n; q++, d /= 4) { if (q == world_rank) now_ = b0 + V[d % 4], vmc_clock(now_); mean += V[d % 4] / n; } double u = uptime(); nst++; if (virt) WANT(fabs(u - mean) < 1e-5, "uptime: %.9g, the mean time since the boot is %.9g", u, mean); } halt_services(); }
extern "C" void rank_main(int) { switch ((int)vmc_par(0)) { case 0: probe(); if (!virt) vmc_count("clock not under control", 1); boot_all(); histories((int)vmc_par(2), (int)vmc_par(1)); halt_services(); break; case 1: runs(); break; default: clocks(); } vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst / 5); }
