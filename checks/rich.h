// A deck that can use every kind of object, and a digest of everything a run produces.
#ifndef CHECK_RICH_H
#define CHECK_RICH_H
#include "collision/collision.h"
enum { R_SPECIES2 = 1, R_MATERIAL = 2, R_CUSTOMBC = 4, R_EMIT = 8, R_LANGEVIN = 16, R_TA = 32, R_HS = 64, R_LAC = 128, R_FLUID = 256, R_INJECT = 512, R_CLEAN = 1024, R_SORT = 2048, R_OPEN = 4096, R_USER = 8192, R_NOPART = 16384, R_METAL = 32768, R_AGE = 65536, R_ALL = 131071 & ~R_NOPART & ~R_METAL, R_UNEVEN = 131072 };
struct Rich { int bits, p[3], n[3]; };
static Rich RC;
static particle_bc_t *rc_reflux, *rc_tally; 
struct RGlob { double count; uint32_t last; char name[16]; size_t tally; };
static inline bool rb(int b) { return (RC.bits & b) != 0; }
static void rich_init(VS* s) {
  s->define_units(1, 1); s->define_timestep(0.4, 0.5, 3); s->num_step = 0; s->verbose = 0; const int* n = RC.n; const int* p = RC.p;
  s->status_interval = 3; s->num_comm_round = 3; 
  if (rb(R_CLEAN)) { s->clean_div_e_interval = 2; s->clean_div_b_interval = 3; s->sync_shared_interval = 2; s->num_div_e_round = 2; s->num_div_b_round = 1; }
  if (rb(R_METAL)) s->define_reflecting_grid(0, 0, 0, n[0], n[1], n[2], n[0], n[1], n[2], p[0], p[1], p[2]);
  else if (rb(R_OPEN)) s->define_absorbing_grid(0, 0, 0, n[0], n[1], n[2], n[0], n[1], n[2], p[0], p[1], p[2], absorb_particles);
  else s->define_periodic_grid(0, 0, 0, n[0], n[1], n[2], n[0], n[1], n[2], p[0], p[1], p[2]);
  grid_t* g = s->grid; material_t* v = s->define_material("vacuum", 1); material_t* d = v; if (rb(R_MATERIAL)) d = s->define_material("glass", 2, 1.5, 2.5, 1, 1.25, 1, 0.1, 0, 0.2);
  s->define_field_array(NULL, rb(R_CLEAN) ? 0.05 : 0);
  int r = world_rank, ix = r % p[0], iy = r / p[0] % p[1], iz = r / p[0] / p[1];
  for (int k = 0; k <= g->nz + 1; k++) for (int j = 0; j <= g->ny + 1; j++) for (int i = 0; i <= g->nx + 1; i++) { field_t& f = s->field(i, j, k); int I = (ix * g->nx + i + n[0] - 1) % n[0], J = (iy * g->ny + j + n[1] - 1) % n[1], K = (iz * g->nz + k + n[2] - 1) % n[2]; int q = I + 64 * (J + 64 * K); f.ex = 0.2 * hval(1, q); f.ey = 0.2 * hval(2, q); f.ez = 0.2 * hval(3, q); f.cbx = 0.3 * hval(4, q); f.cby = 0.3 * hval(5, q); f.cbz = 0.3 * hval(6, q); if (rb(R_EMIT)) f.ex += -3; if (rb(R_MATERIAL) && (I & 1)) f.ematx = f.ematy = f.ematz = f.fmatx = f.fmaty = f.fmatz = f.nmat = f.cmat = d->id; }
  { RGlob* G = (RGlob*)s->user_global; G->count = 0.5; G->last = 99; strcpy(G->name, "global"); rc_tally = rc_reflux = NULL; }
  if (rb(R_NOPART)) return;
  species_t *e = s->define_species("electron", -1, 1, 4000, 2000, rb(R_SORT) ? 2 : 0, rb(R_SORT)), *io = e;
  if (rb(R_SPECIES2)) io = s->define_species("ion", 2, 20, 4000, 2000, rb(R_SORT) ? 3 : 0, 0);
  s->seed_entropy(7);
  int np = 0;
  for (species_t* sp = s->species_list; sp; sp = sp->next) for (int c = 0; c < n[0] * n[1] * n[2]; c++) for (int q = 0; q < 3; q++) { if (rb(R_UNEVEN) && (c % n[0] || c / n[0] % n[1] > 1)) continue; double x = c % n[0] + 0.5 + 0.49 * hval(11, c, q), y = c / n[0] % n[1] + 0.5 + 0.49 * hval(12, c, q), z = c / n[0] / n[1] + 0.5 + 0.49 * hval(13, c, q); s->inject_particle(sp, x, y, z, 0.4 * hval(14, c, q, sp->id), 0.4 * hval(15, c, q, sp->id), 0.4 * hval(16, c, q, sp->id), 0.01 + 0.001 * (np++ % 7)); }
  if (rb(R_CUSTOMBC)) { rc_reflux = s->define_particle_bc(maxwellian_reflux(s->species_list, s->entropy)); rc_tally = s->define_particle_bc(absorb_tally(s->species_list, s->field_array)); for (species_t* sp = s->species_list; sp; sp = sp->next) set_reflux_temp(rc_reflux, sp, 0.2f + 0.1f * sp->id, 0.3f);
    for (int k = 1; k <= g->nz; k++) for (int j = 1; j <= g->ny; j++) { if (ix == 0) g->neighbor[6 * VOXEL(1, j, k, g->nx, g->ny, g->nz) + 0] = get_particle_bc_id(rc_reflux); if (ix == p[0] - 1) g->neighbor[6 * VOXEL(g->nx, j, k, g->nx, g->ny, g->nz) + 3] = get_particle_bc_id(rc_tally); } }
  if (rb(R_EMIT) && ix == 0) { emitter_t* em = s->define_emitter(child_langmuir(e, s->interpolator_array, s->field_array, s->accumulator_array, s->entropy, 2, 0.1, 0.2, 0.01, CHILD_LANGMUIR)); int32_t* c = size_emitter(em, g->ny); for (int j = 1; j <= g->ny; j++) c[j - 1] = COMPONENT_ID(VOXEL(1, j, 1, g->nx, g->ny, g->nz), BOUNDARY(-1, 0, 0)); }
  if (rb(R_LANGEVIN)) s->define_collision_op(langevin(0.05, 0.3, e, s->entropy, 2));
  if (rb(R_TA)) { s->define_collision_op(takizuka_abe("ta", e, io, s->entropy, 0.01, 1)); }
  if (rb(R_HS)) s->define_collision_op(hard_sphere("hs", e, 0.5, io, 1, s->entropy, 1, 1));
  if (rb(R_LAC)) s->define_collision_op(large_angle_coulomb("lac", e, io, 1.5, s->entropy, 1, 2));
  if (rb(R_FLUID)) { s->define_collision_op(hard_sphere_fluid("hsf", 0.5, 0.1, 0, 0, 0.02, 3, 0.4, io, 0.3, s->entropy, 1)); s->define_collision_op(large_angle_coulomb_fluid("lacf", 0.3, 0, 0.1, 0, 0.02, 1, 2, e, 1.2, s->entropy, 1)); }
  if (rc_tally) ((RGlob*)s->user_global)->tally = object_id(rc_tally);
}
static void rich_hooks() {
  HK.init = [](VS* s) { rich_init(s); };
  if (rb(R_INJECT)) HK.pinj = [](VS* s) { if (!s->species_list || s->species_list->np + 3 > s->species_list->max_np) return; grid_t* g = s->grid; RGlob* G = (RGlob*)s->user_global; for (int q = 0; q < 3; q++) { double x = s->uniform(s->rng(0), g->x0, g->x1), y = s->uniform(s->rng(0), g->y0, g->y1), z = s->uniform(s->rng(0), g->z0, g->z1); s->inject_particle(s->species_list, x, y, z, s->normal(s->rng(0), 0, 0.2), 0.3, -0.1, 0.005 * (1 + q), rb(R_AGE) ? 0.5 * q : 0., q & 1); } G->count++; G->last = u32rand(s->sync_rng(0)); };
  if (rb(R_USER)) { HK.jinj = [](VS* s) { s->field(1, 1, 1).jfy += 0.01 * sin(0.3 * s->step()); }; HK.finj = [](VS* s) { s->field(2, 1, 1).ez += 0.002 * ((RGlob*)s->user_global)->count; }; HK.coll = [](VS* s) { for (species_t* sp = s->species_list; sp; sp = sp->next) for (int n = 0; n < sp->np; n += 5) sp->p[n].ux *= 0.999f; }; }
}
static inline double dig(const void* d, size_t n, uint64_t h = 1469598103934665603ull) { const unsigned char* c = (const unsigned char*)d; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; h ^= h >> 29; return (double)(h & 0xffffffffffffull); }
static const char* const RICH_ITEM[] = { "step", "time", "ex", "ey", "ez", "cbx", "cby", "cbz", "tca", "jf", "rhob", "materials", "particles 0", "particles 1", "counts", "sort state", "random numbers", "user globals", "tallies", "field energies", "kinetic energies", "hydro moments", "controls", "grid", "material list", "species list", "object lists" };
// digest of everything that is meaningful between two steps; draws from the generators, the same in every run
static std::vector<double> rich_digest(VS* s) {
  std::vector<double> o; grid_t* g = s->grid; o.push_back((double)g->step); o.push_back(s->time()); int nx = g->nx, ny = g->ny, nz = g->nz;
  std::vector<float> c[10]; std::vector<int> mt; for (int k = 1; k <= nz + 1; k++) for (int j = 1; j <= ny + 1; j++) for (int i = 1; i <= nx + 1; i++) { field_t& f = s->field(i, j, k); bool bx = i <= nx, by = j <= ny, bz = k <= nz; if (bx) c[0].push_back(f.ex); if (by) c[1].push_back(f.ey); if (bz) c[2].push_back(f.ez); if (by && bz) c[3].push_back(f.cbx); if (bz && bx) c[4].push_back(f.cby); if (bx && by) c[5].push_back(f.cbz); if (bx) c[6].push_back(f.tcax), c[7].push_back(f.jfx); if (by) c[6].push_back(f.tcay), c[7].push_back(f.jfy); if (bz) c[6].push_back(f.tcaz), c[7].push_back(f.jfz); c[8].push_back(f.rhob); if (bx && by && bz) { mt.push_back(f.ematx); mt.push_back(f.ematy); mt.push_back(f.ematz); mt.push_back(f.nmat); mt.push_back(f.fmatx); mt.push_back(f.fmaty); mt.push_back(f.fmatz); mt.push_back(f.cmat); } }
  for (int q = 0; q < 9; q++) o.push_back(dig(c[q].data(), 4 * c[q].size())); o.push_back(dig(mt.data(), 4 * mt.size()));
  double cnt = 0, so = 0; for (int id = 0; id < 2; id++) { species_t* sp = s->species_list ? find_species_id(id, s->species_list) : NULL; o.push_back(sp ? dig(sp->p, sizeof(particle_t) * sp->np) : 0); if (sp) { cnt = cnt * 1e5 + sp->np * 16 + sp->nm; so = so * 1e6 + sp->last_sorted * 100 + sp->sort_interval * 2 + sp->sort_out_of_place; } }
  o.push_back(cnt); o.push_back(so);
  { std::vector<uint32_t> w; for (int q = 0; q < 2; q++) { rng_pool_t* rp = q ? s->sync_entropy : s->entropy; for (int i = 0; i < rp->n_rng; i++) for (int d = 0; d < 3; d++) w.push_back(u32rand(rp->rng[i])); } o.push_back(dig(w.data(), 4 * w.size())); }
  o.push_back(dig(s->user_global, sizeof s->user_global));
  { double h = 0; RGlob* G = (RGlob*)s->user_global; if (G->tally) { int* t = get_absorb_tally((particle_bc_t*)object_ptr(G->tally)); for (int q = 0; q < num_species(s->species_list); q++) h = h * 1000 + t[q]; } o.push_back(h); }
  double en[6]; s->field_array->kernel->energy_f(en, s->field_array); o.push_back(dig(en, sizeof en)); double ke = 0; for (species_t* sp = s->species_list; sp; sp = sp->next) ke = ke * 3 + energy_p(sp, s->interpolator_array); o.push_back(ke);
  if (s->species_list) { clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, s->species_list, s->interpolator_array); synchronize_hydro_array(s->hydro_array); std::vector<float> h; for (int k = 1; k <= nz + 1; k++) for (int j = 1; j <= ny + 1; j++) for (int i = 1; i <= nx + 1; i++) { hydro_t& q = s->hydro(i, j, k); h.insert(h.end(), &q.jx, &q.jx + 14); } o.push_back(dig(h.data(), 4 * h.size())); } else o.push_back(0);
  { double q[12] = { (double)s->num_step, (double)s->num_comm_round, (double)s->status_interval, (double)s->clean_div_e_interval, (double)s->num_div_e_round, (double)s->clean_div_b_interval, (double)s->num_div_b_round, (double)s->sync_shared_interval, s->quota, (double)s->checkpt_interval, (double)s->verbose, (double)(s->px + 10 * s->py + 100 * s->pz) }; o.push_back(dig(q, sizeof q)); }
  { double q[20] = { (double)g->nx, (double)g->ny, (double)g->nz, g->dx, g->dy, g->dz, g->rdx, g->rdy, g->rdz, g->x0, g->y1, g->z0, g->cvac, g->eps0, g->dt, g->t0, (double)g->rangel, (double)g->rangeh, (double)g->nv, (double)g->sz }; double h = dig(q, sizeof q) + dig(g->bc, sizeof g->bc) * 3; h += dig(g->neighbor, sizeof(int64_t) * 6 * g->nv) * 5; h += dig(g->range, sizeof(int64_t) * (world_size + 1)) * 7; o.push_back(h); }
  { double h = 0; for (material_t* m = s->material_list; m; m = m->next) { std::string t = m->name; h = h * 3 + dig(t.data(), t.size()) + m->id + m->epsx * 3 + m->epsy * 5 + m->epsz * 7 + m->mux * 11 + m->muy * 13 + m->sigmax * 17 + m->sigmaz * 19; } o.push_back(h); }
  { double h = 0; for (species_t* m = s->species_list; m; m = m->next) { std::string t = m->name; h = h * 3 + dig(t.data(), t.size()) + m->id + m->q * 3 + m->m * 5; } o.push_back(h); }
  { double h = num_particle_bc(s->particle_bc_list) + 10 * num_emitter(s->emitter_list) + 100 * num_collision_op(s->collision_op_list); o.push_back(h); }
  return o;
}
#endif
