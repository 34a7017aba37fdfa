// C28: the helper functions input decks are written with.
#include "deck.h"
static long nst, ntr;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
static VS* s; static grid_t* g;
static void begin() { boot_all(); HK = Hooks(); simulation = s = new vpic_simulation(); s->verbose = 0; g = s->grid; }
static void end() { for (species_t* o = s->species_list; o; o = o->next) o->np = 0; s->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services(); }
static bool close_(double a, double b, double tol = 4e-16) { return a == b || fabs(a - b) <= tol * (fabs(a) + fabs(b)); }
static void numbers() { begin();
  // Courant length: a wave along the mesh's diagonal must not cross more than the mesh resolves
  static const double LS[] = { 0.125, 0.5, 1, 3, 10, 1e-6, 7e5 }, NS[] = { 1, 2, 3, 7, 128 }; for (double lx : LS) for (double ly : LS) for (double lz : LS) for (double nx : NS) for (double ny : NS) for (double nz : NS) { nst++; double L[3] = { lx, ly, lz }, n[3] = { nx, ny, nz }, w = 0; for (int a = 0; a < 3; a++) if (n[a] > 1) w += (n[a] / L[a]) * (n[a] / L[a]); double got = s->courant_length(lx, ly, lz, nx, ny, nz); WANT(w > 0 ? close_(got, 1 / sqrt(w), 1e-14) : std::isinf(got) && got > 0, "courant: the length for %g %g %g cells over %g %g %g is %g", nx, ny, nz, lx, ly, lz, got); }
  // truncation: a multiple of b, not larger than a, within b of it
  std::vector<double> A; for (int k = -40; k <= 40; k++) { A.push_back(k); A.push_back(k * 0.375); A.push_back(k * 1000003.); A.push_back(k * 1e9 + 7); A.push_back(k * 3e10 + 1); } for (double b : { 1., 2., 3., 7., 0.5, 0.75, 64., 1024., 4097., 1e6, -2. }) for (double a : A) { nst++; double r = s->trunc_granular(a, b), q = r / b; WANT(q == floor(q) && fabs(r) <= fabs(a) && fabs(a - r) < fabs(b) && (r == 0 || (r < 0) == (a < 0)), "truncate: %.17g to a multiple of %g gives %.17g", a, b, r); }
  // remainder: a minus the nearest multiple of b
  for (double b : { 1., 2., 3., 7., 10., 0.5, 0.75, 100., 4097. }) for (double a : A) { nst++; double r = s->remainder(a, b); long double k = ((long double)a - r) / b; WANT(fabs(r) <= b / 2 && fabsl(k - roundl(k)) < 1e-6L, "remainder: of %g by %g is %g", a, b, r); if (a == floor(a) && b == floor(b)) WANT((r == 0) == (fmod(a, b) == 0), "remainder: of %g by %g is %g", a, b, r); }
  // deviates: affine in the generator's own; inside the interval
  rng_t* r1 = new_rng(3); rng_t* r2 = new_rng(3); static const double LH[][2] = { { 0, 1 }, { -1, 1 }, { 5, 5 }, { 3, -3 }, { 1e9, 1e9 + 1 }, { -1e-9, 1e9 }, { 0, 0 }, { -7, -6.5 } }; for (int sd = -20; sd <= 20; sd++) for (auto& x : LH) { seed_rng(r1, sd); seed_rng(r2, sd); nst++; for (int k = 0; k < 400; k++) { double d = drand(r2), u = s->uniform(r1, x[0], x[1]), lo = std::min(x[0], x[1]), hi = std::max(x[0], x[1]), w = x[0] + d * (x[1] - x[0]); WANT(u >= lo && u <= hi && fabs(u - w) <= 4e-16 * (fabs(x[0]) + fabs(x[1])), "uniform: on (%g,%g) the deviate %.17g becomes %.17g", x[0], x[1], d, u); } for (int k = 0; k < 200; k++) { double d = drandn(r2), u = s->normal(r1, x[0], x[1]); WANT(close_(u - x[0], x[1] * d, 1e-14) || fabs(u - (x[0] + x[1] * d)) <= 4e-16 * (fabs(x[0]) + fabs(x[1] * d)), "normal: mean %g, deviation %g, standard deviate %g: %g", x[0], x[1], d, u); } WANT(u32rand(r1) == u32rand(r2), "stream: a deviate uses another number of draws"); } delete_rng(r1); delete_rng(r2);
  // time
  for (double t0 : { 0., -3.5, 1e6 }) for (double dt : { 1., 0.1, 1e-7, 0.21875 }) for (int64_t st : { (int64_t)0, (int64_t)1, (int64_t)777, (int64_t)1 << 31, ((int64_t)1 << 40) + 1 }) { nst++; s->define_timestep((float)dt, t0, st); WANT(s->step() == st && s->time() == t0 + (double)(float)dt * (double)st && g->dt == (float)dt && g->t0 == t0, "time: of step %ld is %.17g", (long)st, s->time()); s->step() = st + 5; WANT(s->time() == t0 + (double)(float)dt * (double)(st + 5), "time: after five more steps than %ld", (long)st); } s->define_timestep(0.1f);
  for (double c : { 1., 3e8, 0.3 }) for (double e : { 1., 8.8e-12 }) { nst++; s->define_units((float)c, (float)e); WANT(g->cvac == (float)c && g->eps0 == (float)e, "units: not set"); } s->define_units(1, 1); WANT(s->rank() == world_rank && s->nproc() == world_size, "rank: or number of processes"); s->define_periodic_grid(0, 0, 0, 1, 1, 1, world_size, 1, 1, world_size, 1, 1); end(); }
static void arrays() { // accessors on every mesh of a range; storage of species
  int L[3]; for (int a = 0; a < 3; a++) L[a] = (int)vmc_par(1 + a); begin(); s->define_units(1, 1); s->define_timestep(0.1f); s->define_periodic_grid(0, 0, 0, L[0] * world_size, L[1], L[2], L[0] * world_size, L[1], L[2], world_size, 1, 1); material_t* v = s->define_material("vacuum", 1); material_t* w = s->define_material("glass", 2, 3); s->define_field_array(NULL, 0);
  std::set<int> seen; for (int k = 0; k <= g->nz + 1; k++) for (int j = 0; j <= g->ny + 1; j++) for (int i = 0; i <= g->nx + 1; i++) { nst++; int q = i + (g->nx + 2) * (j + (g->ny + 2) * k); WANT(s->voxel(i, j, k) == q && seen.insert(q).second && q < g->nv, "voxel: %d %d %d is number %d", i, j, k, s->voxel(i, j, k)); WANT(&s->field(i, j, k) == s->field_array->f + q && &s->field(q) == s->field_array->f + q && &s->interpolator(i, j, k) == s->interpolator_array->i + q && &s->interpolator(q) == s->interpolator_array->i + q && &s->hydro(i, j, k) == s->hydro_array->h + q && &s->hydro(q) == s->hydro_array->h + q, "accessor: at %d %d %d", i, j, k); } WANT((int)seen.size() == g->nv, "voxel: %zu of %d reached", seen.size(), g->nv);
  WANT(s->lookup_material("glass") == w && s->lookup_material("vacuum") == v && !s->lookup_material("glas") && s->lookup_material(v->id) == v && s->lookup_material(w->id) == w && !s->lookup_material((material_id)7), "material: not found"); WANT(w->epsx == 2 && w->epsy == 2 && w->epsz == 2 && w->mux == 3 && w->muy == 3 && w->muz == 3 && !w->sigmax && !w->sigmaz && !w->zetay, "material: isotropic properties");
  int n = 0; static const double NP[] = { 1, 2, 100, 1000.75, 12345, 400000 }, NM[] = { 0, 1, 17, 500.5, -1, -3 }; for (double np : NP) for (double nm : NM) for (int si : { 0, 1, 20 }) { nst++; char nme[40]; sprintf(nme, "sp %d", n++); species_t* sp = s->define_species(nme, -1.5, 2.5, np, nm, si, n & 1); WANT(sp->q == -1.5f && sp->m == 2.5f && sp->sort_interval == si && sp->sort_out_of_place == (n & 1) && sp->np == 0 && sp->nm == 0 && sp->g == g && s->find_species(nme) == sp && s->find_species(sp->id) == sp, "species: '%s' is not what was defined", nme); WANT(sp->max_np >= (int)np, "species: room for %d particles, %g requested", sp->max_np, np); if (nm >= 0) WANT(sp->max_nm >= (int)nm, "species: room for %d movers, %g requested", sp->max_nm, nm); else WANT(sp->max_nm >= 16 * (MAX_PIPELINE + 1) && sp->max_nm >= (int)(2 * np / 25), "species: room for %d movers by default with %g particles", sp->max_nm, np);
    memset(sp->p, 1, sizeof(particle_t) * sp->max_np); memset(sp->pm, 1, sizeof(particle_mover_t) * sp->max_nm); for (species_t** q = &s->species_list; *q; q = &(*q)->next) if ((*q)->np) vmc_fail("species: storage of '%s' overlaps", (*q)->name); }
  end(); }
extern "C" void rank_main(int) { if (vmc_par(0) == 0) numbers(); else arrays(); vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); }
