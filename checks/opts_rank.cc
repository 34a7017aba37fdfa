// C22: options, override files and object lists against models. par 0: mode.
#define DECK_MAIN
#include "deck.h"
#include "collision/collision.h"
#define IN_boundary
#include "boundary/boundary_private.h"
#define IN_emitter
#include "emitter/emitter_private.h"
#define IN_collision
#include "collision/collision_private.h"
#include <unistd.h>
typedef std::string S; typedef std::vector<S> VS_; static long nst, ntr;
static S show(const VS_& v) { S r; for (auto& x : v) r += "[" + x + "]"; return r; }
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
// every vector of up to `depth` arguments over an alphabet, through each of the four functions
static void strip_all(int depth, bool wide) {
  const char* al[] = { "prog", "--a", "--b", "5", "-7", "2.5e-1", "--a=3", "", "--ab", "0x10", "-", "9z" }; int na = wide ? 12 : 8; const char* keys[] = { "--a", "--b", "-" };
  for (int len = 0; len <= depth; len++) { std::vector<int> ix(len, 0); for (;;) { nst++;
      for (int k = 0; k < (wide ? 3 : 2); k++) for (int fn = 0; fn < 5; fn++) { const char* key = keys[k]; std::vector<char*> av; for (int i : ix) av.push_back((char*)al[i]); av.push_back(NULL); std::vector<char*> in = av, out; int last = -1, cnt = 0; for (int i = 0; i < len; i++) { if (strcmp(in[i], key)) out.push_back(in[i]); else { cnt++; if (fn) { i++; if (i < len) last = i; } } } if (fn == 4) { // two options after each other
          const char* k2 = keys[!k]; std::vector<char*> o2; int l2 = -1; for (size_t i = 0; i < out.size(); i++) { if (strcmp(out[i], k2)) o2.push_back(out[i]); else { i++; if (i < out.size()) l2 = (int)i; } } const char* w1 = last < 0 ? "one" : in[last]; const char* w2 = l2 < 0 ? "two" : out[l2]; int ac = len; char** p = av.data(); const char* g1 = strip_cmdline_string(&ac, &p, key, "one"); const char* g2 = strip_cmdline_string(&ac, &p, k2, "two"); WANT(!strcmp(g1, w1) && !strcmp(g2, w2), "strip twice: values"); out = o2; WANT(ac == (int)out.size() && std::equal(out.begin(), out.end(), p) && !p[ac], "strip twice: remaining arguments"); continue; }
        int ac = len; char** p = av.data(); bool ok = true; if (fn == 0) ok = strip_cmdline(&ac, &p, key) == cnt; else if (fn == 1) ok = strip_cmdline_int(&ac, &p, key, -99) == (last < 0 ? -99 : atoi(in[last])); else if (fn == 2) ok = strip_cmdline_double(&ac, &p, key, -99.5) == (last < 0 ? -99.5 : atof(in[last])); else ok = !strcmp(strip_cmdline_string(&ac, &p, key, "none"), last < 0 ? "none" : in[last]);
        if (!ok || ac != (int)out.size() || p[ac] || !std::equal(out.begin(), out.end(), p)) { VS_ a; for (int i : ix) a.push_back(al[i]); vmc_fail("strip: %s of %s: %s", key, show(a).c_str(), ok ? "the other arguments are not kept in order" : "wrong value"); } ntr++; }
      int q = 0; while (q < len && ++ix[q] == na) ix[q++] = 0; if (q == len) break; } } }
static void deck0(VS* s) { s->define_units(1, 1); s->define_timestep(0.1); s->verbose = 0; s->status_interval = 0; s->num_step = 3; s->define_periodic_grid(0, 0, 0, 2, 2, 2, 2, 2, 2, 1, 1, 1); s->define_material("vacuum", 1); s->define_field_array(); }
// real main: which arguments the deck sees, how many pipelines there are, how far the run goes
static void main_run() {
  int steps = 0, pipes = 0; static int seen; seen = 0; HK = Hooks(); HK.init = [&](VS* s) { deck0(s); pipes = PIPE_N; seen++; }; HK.diag = [&](VS* s) { steps = (int)s->step(); };
  bool err = refused([] { deck_main(vmc_argc(), vmc_argv()); }); VS_ want; for (int i = 2; vmc_spar(i)[0] != '\1'; i++) want.push_back(vmc_spar(i)); nst++;
  bool wr = vmc_par(1) != 0; WANT(err == wr, wr ? "obsolete: accepted" : "refused: valid arguments: %s", vmc_last_log()); if (wr) { WANT(!seen, "obsolete: the deck was run before the arguments were refused"); return; }
  VS_ got(U_ARGV); for (size_t i = 0; i < got.size();) if (got[i] == "--modify") { got.erase(got.begin() + i); if (i < got.size()) got.erase(got.begin() + i); } else i++;
  want.insert(want.begin(), got.empty() ? S("?") : got[0]); WANT(got == want, "arguments: the deck was given %s instead of %s", show(got).c_str(), show(want).c_str()); WANT(pipes == (int)vmc_par(2), "pipelines: %d instead of %d", pipes, (int)vmc_par(2)); WANT(steps == (int)vmc_par(3), "steps: %d instead of %d", steps, (int)vmc_par(3)); }
static void modify_all(int depth) {
  boot_sim(deck0); simulation->initialize(0, (char**)(void*)new char*[1]()); struct L { const char* t; int f; double v; }; // field 0 quota, 1 num_step, 2 checkpt, 3 hydro, 4 field, 5 particle
  const L ln[] = { { "quota 12.5", 0, 12.5 }, { "quota 3", 0, 3 }, { "num_step 17", 1, 17 }, { "num_step -4", 1, -4 }, { "num_step\t23", 1, 23 }, { "checkpt_interval 5", 2, 5 }, { "checkpt_interval -5", 2, 0 }, { "hydro_interval   7", 3, 7 }, { "hydro_interval -1", 3, 0 }, { "field_interval 4", 4, 4 }, { "field_interval -2", 4, 0 }, { "particle_interval 9", 5, 9 }, { "particle_interval -9", 5, 0 }, { "particle_interval 0", 5, 0 }, { "# num_step 5", -1, 0 }, { "", -1, 0 }, { "num_step", -1, 0 }, { "quota", -1, 0 }, { "xquota 5", -1, 0 }, { "status_interval 5", -1, 0 }, { "hydro 3", -1, 0 }, { "interval 3", -1, 0 }, { "quota x", -1, 0 } }; int nl = sizeof ln / sizeof *ln;
  VS* s = simulation; auto val = [&](int f) -> double { switch (f) { case 0: return s->quota; case 1: return s->num_step; case 2: return s->checkpt_interval; case 3: return s->hydro_interval; case 4: return s->field_interval; default: return s->particle_interval; } };
  for (int len = 0; len <= depth; len++) { std::vector<int> ix(len, 0); for (;;) { nst++; S t; double w[6]; bool nl_end = (nst & 1) != 0; s->quota = 1.25; s->num_step = 101; s->checkpt_interval = 102; s->hydro_interval = 103; s->field_interval = 104; s->particle_interval = 105; for (int f = 0; f < 6; f++) w[f] = val(f); for (int i = 0; i < len; i++) { t += ln[ix[i]].t; if (i + 1 < len || nl_end) t += "\n"; if (ln[ix[i]].f >= 0) w[ln[ix[i]].f] = ln[ix[i]].v; }
      { FILE* f = fopen("mod", "w"); fputs(t.c_str(), f); fclose(f); } std::vector<char> b((char*)s, (char*)(s + 1)); vmc_log_clear(); s->modify("mod"); for (int f = 0; f < 6; f++) { WANT(val(f) == w[f], "override: parameter %d is %g instead of %g after the file \"%s\"", f, val(f), w[f], t.c_str()); }
      VS* o = (VS*)b.data(); o->quota = s->quota; o->num_step = s->num_step; o->checkpt_interval = s->checkpt_interval; o->hydro_interval = s->hydro_interval; o->field_interval = s->field_interval; o->particle_interval = s->particle_interval; WANT(!memcmp(o, s, sizeof *s), "override: another part of the simulation changed after the file \"%s\"", t.c_str());
      if (nst % 50 == 0) for (int fd = 20; fd < 900; fd++) (void)fd;
      int q = 0; while (q < len && ++ix[q] == nl) ix[q++] = 0; if (q == len) break; } }
  WANT(refused([&] { s->modify("no such file"); }), "override: a missing file is accepted"); end_sim(); }
template<class T> static int chain(T* l) { int n = 0; for (; l && n < 1000; l = l->next) n++; return n; }
static void lists(int depth) {
  boot_sim(deck0); VS* s = simulation; s->initialize(0, new char*[1]()); delete_material_list(s->material_list); s->material_list = NULL; const char* nm[] = { "a", "b", "ab", "A", "", NULL, "a " }; const int NN = 7;
  grid_t* other = new_grid(); grid_t* bare = new_grid(); size_grid(other, 1, 1, 1);
  for (int len = 1; len <= depth; len++) { std::vector<int> ix(len, 0); for (;;) { nst++; VS_ have; // materials
      for (int i = 0; i < len; i++) { const char* n = nm[ix[i]]; bool bad = !n || !*n || std::find(have.begin(), have.end(), n) != have.end(); material_t *m = NULL, *l0 = s->material_list; double e = 1 + i; bool r = refused([&] { m = i & 1 ? s->define_material(n, e, e + 1, e + 2, e + 3) : s->define_material(n, e, e + .1, e + .2, e + 1, e + 1.1, e + 1.2, e + 2, e + 2.1, e + 2.2, e + 3, e + 3.1, e + 3.2); }); WANT(r == bad, "material: name \"%s\" %s", n ? n : "(null)", r ? "refused" : "accepted twice or empty"); if (bad) { WANT(s->material_list == l0, "material: list changed by a refused one"); continue; }
        have.push_back(n); float t = i & 1 ? 0 : .1f, x = (float)e; auto eq = [](float a, float b) { return fabs(a - b) < 1e-5; }; WANT(eq(m->epsx, x) && eq(m->epsy, x + t) && eq(m->epsz, x + 2 * t) && eq(m->mux, x + 1) && eq(m->muy, x + 1 + t) && eq(m->muz, x + 1 + 2 * t) && eq(m->sigmax, x + 2) && eq(m->sigmay, x + 2 + t) && eq(m->sigmaz, x + 2 + 2 * t) && eq(m->zetax, x + 3) && eq(m->zetay, x + 3 + t) && eq(m->zetaz, x + 3 + 2 * t), "material: constants"); WANT(num_material(s->material_list) == (int)have.size() && chain(s->material_list) == (int)have.size(), "material: number");
        for (int k = 0; k < NN; k++) { const char* q = nm[k]; material_t* f = s->lookup_material(q); size_t at = q ? std::find(have.begin(), have.end(), q) - have.begin() : have.size(); WANT(at == have.size() ? !f : f && S(f->name) == q && f->id == (int)at && get_material_id(f) == f->id && s->lookup_material((material_id)at) == f, "material: lookup of \"%s\"", q ? q : "(null)"); } WANT(!s->lookup_material((material_id)have.size()) && !s->lookup_material((material_id)-1) && get_material_id(NULL) == (material_id)-1, "material: lookup of one that does not exist"); WANT(refused([&] { append_material(m, &s->material_list); }), "material: appended twice"); }
      delete_material_list(s->material_list); s->material_list = NULL; have.clear();
      for (int i = 0; i < len; i++) { const char* n = nm[ix[i]]; bool bad = !n || !*n || std::find(have.begin(), have.end(), n) != have.end(); species_t *p = NULL, *l0 = s->species_list; double mnp = i == 0 ? 0 : i == 1 ? 10 : i == 2 ? 1e5 : 4, mnm = i & 1 ? 7 : -1; bool r = refused([&] { p = s->define_species(n, -1 - i, 2 + i, mnp, mnm, 5 + i, i & 1); }); WANT(r == bad, "species: name \"%s\" %s", n ? n : "(null)", r ? "refused" : "accepted twice or empty"); if (bad) { WANT(s->species_list == l0, "species: list changed by a refused one"); continue; }
        have.push_back(n); WANT(p->q == -1 - i && p->m == 2 + i && p->np == 0 && p->nm == 0 && p->max_np >= 1 && p->max_np >= mnp && p->sort_interval == 5 + i && p->sort_out_of_place == (i & 1) && p->g == s->grid, "species: constants"); WANT(mnm > 0 ? p->max_nm >= mnm : p->max_nm >= 16 * (MAX_PIPELINE + 1) && p->max_nm >= (int)(2 * mnp / 25), "species: mover storage"); WANT(num_species(s->species_list) == (int)have.size() && chain(s->species_list) == (int)have.size(), "species: number");
        for (int k = 0; k < NN; k++) { const char* q = nm[k]; species_t* f = s->find_species(q); size_t at = q ? std::find(have.begin(), have.end(), q) - have.begin() : have.size(); WANT(at == have.size() ? !f : f && S(f->name) == q && f->id == (int)at && s->find_species((int32_t)at) == f, "species: lookup of \"%s\"", q ? q : "(null)"); } WANT(!s->find_species((int32_t)have.size()) && !s->find_species((int32_t)-1), "species: lookup of one that does not exist"); WANT(refused([&] { append_species(p, &s->species_list); }), "species: appended twice"); }
      if (have.size()) { WANT(refused([&] { append_species(species("zz", 1, 1, 1, 1, 0, 0, other), &s->species_list); }), "species: one of another grid is accepted"); WANT(num_species(s->species_list) == (int)have.size(), "species: number"); } delete_species_list(s->species_list); s->species_list = NULL;
      int q = 0; while (q < len && ++ix[q] == NN) ix[q++] = 0; if (q == len) break; } }
  WANT(refused([&] { species("x", 1, 1, 1, 1, 0, 0, NULL); }) && refused([&] { species("x", 1, 1, 1, 1, 0, 0, bare); }), "species: accepted without a mesh");
  { material_t* m = s->define_material("top", 1); m->id = max_material - 2; WANT(!refused([&] { s->define_material("last", 1); }) && s->lookup_material("last")->id == max_material - 1, "material: the last one"); WANT(refused([&] { s->define_material("more", 1); }), "material: more than the identity can hold"); }
  // properties a material should not have are reported under its name, each once
  for (int c = 0; c < 64 * 27 * 8; c++) { double em[6], sg[3], ze[3]; int q = c; for (int k = 0; k < 6; k++, q /= 2) em[k] = q & 1 ? -1 - k : 1 + k; for (int k = 0; k < 3; k++, q /= 3) sg[k] = q % 3 - 1; for (int k = 0; k < 3; k++, q /= 2) ze[k] = q & 1; if (depth < 5 && c % 5) continue; nst++;
    delete_material_list(s->material_list); s->material_list = NULL; s->define_material("other", 1); s->define_material("odd one", em[0], em[1], em[2], em[3], em[4], em[5], sg[0], sg[1], sg[2], ze[0], ze[1], ze[2]); int want = ze[0] || ze[1] || ze[2];
    for (int a = 0; a < 3; a++) { want += sg[a] / em[a] < 0; for (int b = 0; b < 3; b++) if (b != a) want += em[b] * em[3 + 3 - a - b] < 0; }
    vmc_log_clear(); field_array_t* fa = new_standard_field_array(s->grid, s->material_list, 0); std::string log = vmc_log(); int got = 0; for (size_t at = 0; (at = log.find("\"odd one\"", at)) != std::string::npos; at++) got++; WANT(got == want && log.find("other") == std::string::npos, "warning: %d of %d unusual properties of a material are reported under its name: %s", got, want, log.c_str()); delete_field_array(fa); }
  // a time step too long for the speed of light in a material is reported, and only then
  { grid_t* G = s->grid; grid_t old = *G; static const double EV[3] = { 0.25, 1, 3 }; static const int NN[5][3] = { { 2, 2, 2 }, { 3, 1, 1 }, { 1, 2, 1 }, { 1, 1, 4 }, { 1, 1, 1 } }; for (int c = 0; c < 729 * 5; c++) { double e[6]; int q = c; for (int k = 0; k < 6; k++, q /= 3) e[k] = EV[q % 3]; if (depth < 5 && c % 3) continue; nst++; double k2[3]; for (int a = 0; a < 3; a++) { int b = (a + 1) % 3, d = (a + 2) % 3; double p1 = e[b] * e[3 + d], p2 = e[d] * e[3 + b]; k2[a] = 1 / (p1 < p2 ? p1 : p2); } double h[3] = { 0.5, 0.75, 1.25 }; double cv = 1.5, sum = 0; for (int a = 0; a < 3; a++) if (NN[q][a] > 1) sum += k2[a] / (h[a] * h[a]); double lim = sum ? 1 / (cv * sqrt(sum)) : 10;
      for (double f : { 0.5, 0.97, 1.03, 2. }) { G->nx = NN[q][0]; G->ny = NN[q][1]; G->nz = NN[q][2]; G->nv = (G->nx + 2) * (G->ny + 2) * (G->nz + 2); G->rdx = 1 / h[0]; G->rdy = 1 / h[1]; G->rdz = 1 / h[2]; G->cvac = cv; G->dt = (float)(f * lim); delete_material_list(s->material_list); s->material_list = NULL; s->define_material("slow one", 100); s->define_material("fast one", e[0], e[1], e[2], e[3], e[4], e[5], 0, 0, 0); vmc_log_clear(); field_array_t* fa = new_standard_field_array(G, s->material_list, 0); std::string log = vmc_log(); bool got = log.find("\"fast one\"") != std::string::npos; delete_field_array(fa); WANT(got == (sum > 0 && f > 1), "courant: a time step of %g times the longest for a material is %sreported (%s)", f, got ? "" : "not ", log.c_str()); } } *G = old; vmc_log_clear(); }
  delete_material_list(s->material_list); s->material_list = NULL; s->define_material("vacuum", 1);
  // boundary handlers, emitters and collision operators: all sequences of new objects and of ones defined before
  species_t* e = s->define_species("e", -1, 1, 10, 10, 0, 0); s->define_species("i", 1, 9, 10, 10, 0, 0); int D = depth + 1;
  for (int kind = 0; kind < 3; kind++) { int na = D + 2; for (int len = 1; len <= D; len++) { std::vector<int> ix(len, 0); for (;;) { bool valid = true; { int n = 0; for (int i = 0; i < len; i++) { if (ix[i] < 2) n++; else if (ix[i] - 2 >= n) valid = false; } }
        if (valid) { nst++; std::vector<void*> obj;
          if (kind == 0) { for (int i = 0; i < len; i++) { if (ix[i] < 2) { particle_bc_t* p = s->define_particle_bc(ix[i] ? absorb_tally(s->species_list, s->field_array) : maxwellian_reflux(s->species_list, s->entropy)); obj.push_back(p); } else WANT(refused([&] { s->define_particle_bc((particle_bc_t*)obj[ix[i] - 2]); }), "handler: accepted twice"); WANT(num_particle_bc(s->particle_bc_list) == (int)obj.size() && chain(s->particle_bc_list) == (int)obj.size(), "handler: number"); for (size_t k = 0; k < obj.size(); k++) WANT(get_particle_bc_id((particle_bc_t*)obj[k]) == -3 - (int)k, "handler: identity"); } delete_particle_bc_list(s->particle_bc_list); s->particle_bc_list = NULL; }
          if (kind == 1) { for (int i = 0; i < len; i++) { if (ix[i] < 2) { emitter_t* p = child_langmuir(e, s->interpolator_array, s->field_array, s->accumulator_array, s->entropy, 1, 1, 1, 1, ix[i] ? CCUBE : CHILD_LANGMUIR); obj.push_back(p); emitter_t* g = NULL; WANT(!refused([&] { g = s->define_emitter(p); }) && g == p, "emitter: new one refused"); int n = ix[i] ? 3 : 0; int32_t* c = size_emitter(p, n); WANT((n == 0) == !c && p->n_component == n, "emitter: size"); if (n) { WANT(refused([&] { size_emitter(p, 2); }), "emitter: sized twice"); } else { WANT(refused([&] { size_emitter(p, -1); }), "emitter: negative size"); } } else { emitter_t* g = NULL; WANT(!refused([&] { g = s->define_emitter((emitter_t*)obj[ix[i] - 2]); }) && g == obj[ix[i] - 2], "emitter: repeated definition refused"); } WANT(num_emitter(s->emitter_list) == (int)obj.size() && chain(s->emitter_list) == (int)obj.size(), "emitter: number"); } delete_emitter_list(s->emitter_list); s->emitter_list = NULL; }
          if (kind == 2) { for (int i = 0; i < len; i++) { if (ix[i] < 2) { obj.push_back(s->define_collision_op(ix[i] ? langevin(.1, .1, e, s->entropy, 1) : takizuka_abe("t", e, e, s->entropy, .1, 1))); } else WANT(refused([&] { s->define_collision_op((collision_op_t*)obj[ix[i] - 2]); }), "operator: accepted twice"); WANT(num_collision_op(s->collision_op_list) == (int)obj.size() && chain(s->collision_op_list) == (int)obj.size(), "operator: number"); std::set<void*> u; for (collision_op_t* c = s->collision_op_list; c; c = c->next) u.insert(c); for (void* o : obj) WANT(u.count(o), "operator: lost"); } delete_collision_op_list(s->collision_op_list); s->collision_op_list = NULL; } }
        int q = 0; while (q < len && ++ix[q] == na) ix[q++] = 0; if (q == len) break; } } }
  WANT(get_particle_bc_id((particle_bc_t*)absorb_particles) == absorb_particles && get_particle_bc_id((particle_bc_t*)reflect_particles) == reflect_particles, "handler: built-in ones"); WANT(refused([&] { s->define_emitter(NULL); }) && refused([&] { s->define_particle_bc(NULL); }) && refused([&] { s->define_collision_op(NULL); }) && refused([&] { append_material(NULL, &s->material_list); }) && refused([&] { append_species(NULL, &s->species_list); }), "list: nothing is accepted as an object"); }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); if (mode == 0) strip_all((int)vmc_par(1), vmc_par(2) != 0); else if (mode == 1) main_run(); else if (mode == 2) modify_all((int)vmc_par(1)); else lists((int)vmc_par(1));
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst); }
