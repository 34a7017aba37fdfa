// Particle scenarios: the real time step on a small global mesh cut into ranks.
#include "deck.h"
#include "plat.h"
static World W; static int ix[3];
// par: 0-11 world, 12-17 particle bc lo/hi (0 periodic, -1 reflect, -2 absorb), 18 steps, 19 lattice kind, 20 |u|, 21 per, 22 charge on/off,
//      23 rounds, 24 storage slack (particles), 25 mover storage (<0: ample), 26 dt scale, 27 sort interval, 28 species, 29 measure charge
static field_t& F(field_array_t* fa, int i, int j, int k) { return fa->f[VOXEL(i, j, k, fa->g->nx, fa->g->ny, fa->g->nz)]; }
static void emit_fields(VS* s, const char* key, bool rho) { grid_t* g = s->grid; field_array_t* fa = s->field_array; VD o;
  for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { field_t& f = F(fa, i, j, k); if (rho) { o.push_back((double)f.rhof + f.rhob); } else { o.push_back(f.jfx); o.push_back(f.jfy); o.push_back(f.jfz); } } vmc_emit(key, o.data(), o.size()); }
static void measure_rho(VS* s) { s->field_array->kernel->clear_rhof(s->field_array); species_t* sp; LIST_FOR_EACH(sp, s->species_list) accumulate_rho_p(s->field_array, sp); s->field_array->kernel->synchronize_rho(s->field_array); }
static void emit_particles(VS* s) { species_t* sp; VD o; grid_t* g = s->grid; LIST_FOR_EACH(sp, s->species_list) {
    if (sp->nm) vmc_fail("%d unprocessed movers of %s after the step", sp->nm, sp->name); if (sp->np > sp->max_np) vmc_fail("np %d exceeds max_np %d", sp->np, sp->max_np);
    for (int n = 0; n < sp->np; n++) { particle_t& p = sp->p[n]; int v = p.i, i = v % (g->nx + 2), j = v / (g->nx + 2) % (g->ny + 2), k = v / (g->nx + 2) / (g->ny + 2);
      if (v < 0 || i < 1 || i > g->nx || j < 1 || j > g->ny || k < 1 || k > g->nz) vmc_fail("particle %d of %s (w=%.9g) is in voxel %d (%d,%d,%d), outside the domain of rank %d", n, sp->name, p.w, v, i, j, k, world_rank);
      if (!(fabs(p.dx) <= 1 && fabs(p.dy) <= 1 && fabs(p.dz) <= 1)) vmc_fail("particle %d of %s (w=%.9g) has offset (%g,%g,%g)", n, sp->name, p.w, p.dx, p.dy, p.dz);
      o.push_back((double)sp->id); o.push_back(p.w); o.push_back(ix[0] * W.ln(0) + i - 1 + (p.dx + 1.0) * 0.5); o.push_back(ix[1] * W.ln(1) + j - 1 + (p.dy + 1.0) * 0.5); o.push_back(ix[2] * W.ln(2) + k - 1 + (p.dz + 1.0) * 0.5); o.push_back(p.ux); o.push_back(p.uy); o.push_back(p.uz); } }
  vmc_emit1("np", o.size() / 8); vmc_emit("p", o.data(), o.size()); }
extern "C" void rank_main(int) {
  W = World::unpack([](int i) { return vmc_par(i); }); W.dt *= vmc_par(26);
  boot_all(); W.index(world_rank, ix); HK = Hooks(); simulation = new vpic_simulation(); VS* s = simulation;
  s->define_units(W.c, W.eps0); s->define_timestep(W.dt);
  s->define_periodic_grid(W.lo[0], W.lo[1], W.lo[2], W.lo[0] + W.n[0] * W.d[0], W.lo[1] + W.n[1] * W.d[1], W.lo[2] + W.n[2] * W.d[2], W.n[0], W.n[1], W.n[2], W.p[0], W.p[1], W.p[2]);
  const int B[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) };
  for (int f = 0; f < 6; f++) { int a = f % 3; if (ix[a] != (f < 3 ? 0 : W.p[a] - 1)) continue; if (W.bc[f]) s->set_domain_field_bc(B[f], W.bc[f]); if (vmc_par(12 + f)) s->set_domain_particle_bc(B[f], (int)vmc_par(12 + f)); }
  s->define_material("vacuum", 1); s->define_field_array(NULL, 0);
  int nsp = (int)vmc_par(28); std::vector<GP> L = plattice(W, (int)vmc_par(19), vmc_par(20), (int)vmc_par(21), nsp); bool charged = vmc_par(22) != 0, rho = vmc_par(29) != 0;
  std::vector<species_t*> sps; for (int q = 0; q < nsp; q++) {
    int cnt = 0; for (auto& g : L) { bool mine = g.sp == q; for (int a = 0; a < 3; a++) if ((g.cell[a] - 1) / W.ln(a) != ix[a]) mine = false; cnt += mine; }
    char nm[8]; sprintf(nm, "s%d", q); double mv = vmc_par(25);
    species_t* sp = s->define_species(nm, charged ? (q ? 1e-7 : -1.5e-7) : 0, q ? 3.0 : 1.0, cnt + vmc_par(24) + (cnt + vmc_par(24) < 1 ? 1 : 0), mv < 0 ? cnt + 64 + 40 * (PIPE_N + 1) : mv, (int)vmc_par(27), q & 1); sps.push_back(sp);
    for (auto& g : L) { bool mine = g.sp == q; for (int a = 0; a < 3; a++) if ((g.cell[a] - 1) / W.ln(a) != ix[a]) mine = false; if (!mine) continue;
      particle_t& p = sp->p[sp->np++]; p.dx = g.off[0]; p.dy = g.off[1]; p.dz = g.off[2]; p.ux = g.u[0]; p.uy = g.u[1]; p.uz = g.u[2]; p.w = g.w; p.i = VOXEL((g.cell[0] - 1) % W.ln(0) + 1, (g.cell[1] - 1) % W.ln(1) + 1, (g.cell[2] - 1) % W.ln(2) + 1, s->grid->nx, s->grid->ny, s->grid->nz); } }
  s->num_comm_round = (int)vmc_par(23); s->num_step = (int)vmc_par(18); s->verbose = 0;
  load_interpolator_array(s->interpolator_array, s->field_array);
  if (rho) { measure_rho(s); emit_fields(s, "rho", true); }
  while (s->advance()) { if (rho) { emit_fields(s, "j", false); measure_rho(s); emit_fields(s, "rho", true); } emit_particles(s); vmc_emit1("e", 1); }
  delete simulation; simulation = NULL; halt_services();
}
