// Kernel scenarios on particles: interpolator, push, half pushes, hydro moments, energy, Poynting flux.
#include "deck.h"
#include "pushlat.h"
static World W; static int ix[3];
// par: 0-11 world, 12 se, 13 sb, 14 flat, 15 q, 16 m, 17 np, 18 salt; spar 0: comma separated op strings
static float* comp(field_t& f, int c) { switch (c) { case EX: return &f.ex; case EY: return &f.ey; case EZ: return &f.ez; case BX: return &f.cbx; case BY: return &f.cby; default: return &f.cbz; } }
extern "C" void rank_main(int) {
  W = World::unpack([](int i) { return vmc_par(i); }); boot_all(); W.index(world_rank, ix); HK = Hooks(); simulation = new vpic_simulation(); VS* s = simulation;
  s->define_units(W.c, W.eps0); s->define_timestep(W.dt);
  s->define_periodic_grid(W.lo[0], W.lo[1], W.lo[2], W.lo[0] + W.n[0] * W.d[0], W.lo[1] + W.n[1] * W.d[1], W.lo[2] + W.n[2] * W.d[2], W.n[0], W.n[1], W.n[2], W.p[0], W.p[1], W.p[2]);
  const int B[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) };
  for (int f = 0; f < 6; f++) { int a = f % 3; if (ix[a] != (f < 3 ? 0 : W.p[a] - 1)) continue; if (W.bc[f]) { s->set_domain_field_bc(B[f], W.bc[f]); s->set_domain_particle_bc(B[f], -1); } }
  s->define_material("vacuum", 1); s->define_field_array(NULL, 0); grid_t* g = s->grid;
  double se = vmc_par(12), sb = vmc_par(13); int flat = (int)vmc_par(14);
  for (int k = 0; k <= g->nz + 1; k++) for (int j = 0; j <= g->ny + 1; j++) for (int i = 0; i <= g->nx + 1; i++) for (int c = EX; c <= BZ; c++) { int l[3] = { i, j, k }, I[3]; for (int a = 0; a < 3; a++) I[a] = W.glob(a, ix[a], l[a], STAG[c] >> a & 1); *comp(s->field(i, j, k), c) = pfield(c, I, se, sb, flat); }
  std::vector<PP> L = pushlat(W, (long)vmc_par(17), (int)vmc_par(18)), mine; for (auto& p : L) { bool m = true; for (int a = 0; a < 3; a++) if ((p.cell[a] - 1) / W.ln(a) != ix[a]) m = false; if (m) mine.push_back(p); }
  species_t* sp = s->define_species("s", vmc_par(15), vmc_par(16), mine.size() + 1, mine.size() + 300, 0, 0);
  auto reset = [&] { sp->np = sp->nm = 0; for (auto& q : mine) { particle_t& p = sp->p[sp->np++]; p.dx = q.off[0]; p.dy = q.off[1]; p.dz = q.off[2]; p.ux = q.u[0]; p.uy = q.u[1]; p.uz = q.u[2]; p.w = q.w; p.i = VOXEL((q.cell[0] - 1) % W.ln(0) + 1, (q.cell[1] - 1) % W.ln(1) + 1, (q.cell[2] - 1) % W.ln(2) + 1, g->nx, g->ny, g->nz); } };
  if (vmc_spar(0)[0] == 'P') { for (double e0 : { 1.0, 2.5 }) vmc_emit1("flux", s->poynting_flux(e0)); delete simulation; simulation = NULL; halt_services(); return; }
  load_interpolator_array(s->interpolator_array, s->field_array);
  reset(); if (!vmc_par(17)) clear_hydro_array(s->hydro_array);
  for (const char* q = vmc_spar(0); ; q++) {
    switch (*q) {
      case 'i': { VD o; for (int k = 1; k <= g->nz; k++) for (int j = 1; j <= g->ny; j++) for (int i = 1; i <= g->nx; i++) { interpolator_t& f = s->interpolator_array->i[VOXEL(i, j, k, g->nx, g->ny, g->nz)]; for (float x : { f.ex, f.dexdy, f.dexdz, f.d2exdydz, f.ey, f.deydz, f.deydx, f.d2eydzdx, f.ez, f.dezdx, f.dezdy, f.d2ezdxdy, f.cbx, f.dcbxdx, f.cby, f.dcbydy, f.cbz, f.dcbzdz }) o.push_back(x); } vmc_emit("interp", o.data(), o.size()); break; }
      case 'c': center_p(sp, s->interpolator_array); break; case 'u': uncenter_p(sp, s->interpolator_array); break;
      case 'a': clear_accumulator_array(s->accumulator_array); advance_p(sp, s->accumulator_array, s->interpolator_array); if (sp->nm) vmc_fail("%d movers left over in a fully periodic domain", sp->nm); break;
      case 'E': vmc_emit1("energy", energy_p(sp, s->interpolator_array)); break;
      case 'H': { clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sp, s->interpolator_array); synchronize_hydro_array(s->hydro_array); VD o; for (int k = 1; k <= g->nz + 1; k++) for (int j = 1; j <= g->ny + 1; j++) for (int i = 1; i <= g->nx + 1; i++) { hydro_t& h = s->hydro(i, j, k); for (float x : { h.jx, h.jy, h.jz, h.rho, h.px, h.py, h.pz, h.ke, h.txx, h.tyy, h.tzz, h.tyz, h.tzx, h.txy }) o.push_back(x); } vmc_emit("hydro", o.data(), o.size()); break; }
      case ',': case 0: { VD o; for (int n = 0; n < sp->np; n++) { particle_t& p = sp->p[n]; int v = p.i, l[3] = { v % (g->nx + 2), v / (g->nx + 2) % (g->ny + 2), v / (g->nx + 2) / (g->ny + 2) }; double off[3] = { p.dx, p.dy, p.dz }; for (int a = 0; a < 3; a++) if (l[a] < 1 || l[a] > W.ln(a) || !(fabs(off[a]) <= 1)) vmc_fail("particle %d (w=%.9g) at voxel %d offset (%g,%g,%g)", n, p.w, v, off[0], off[1], off[2]);
          o.push_back(p.w); for (int a = 0; a < 3; a++) o.push_back(ix[a] * W.ln(a) + l[a] - 1 + (off[a] + 1) / 2); o.push_back(p.ux); o.push_back(p.uy); o.push_back(p.uz); } vmc_emit1("np", sp->np); vmc_emit("p", o.data(), o.size()); reset(); break; } }
    if (!*q) break; }
  delete simulation; simulation = NULL; halt_services();
}
