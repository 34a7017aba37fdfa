// C12: after a sort the particles are the same particles, ordered by voxel, and partition delimits them.
#include "deck.h"
static VS* s; static grid_t* g; static species_t* sp; static std::vector<particle_t> before; static double n_states, n_trans; static std::vector<int> inner;
static void fillp(particle_t& p, int n, int v) { p.dx = n * 0.001f - 1; p.dy = n + 0.25f; p.dz = -n; p.i = v; p.ux = 3 * n + 1; p.uy = -2 * n - 1; p.uz = 1e5f + n; p.w = n + 1; }
static void verify(const char* what) {
  int np = (int)before.size(); n_states++; if (sp->np != np) vmc_fail("count: %s: np is %d, was %d", what, sp->np, np);
  std::vector<char> seen(np, 0); int last = -1;
  for (int n = 0; n < np; n++) { particle_t& p = sp->p[n]; n_trans++; int id = (int)p.w - 1; if (!(p.w >= 1) || id >= np || seen[id] || memcmp(&p, &before[id], sizeof p)) vmc_fail("content: %s: slot %d holds a particle that was not there or is there twice (w=%g)", what, n, p.w); seen[id] = 1; if (p.i < last) vmc_fail("order: %s: slot %d is in voxel %d after voxel %d", what, n, p.i, last); last = p.i; }
  for (int v : inner) { int a = sp->partition[v], b = sp->partition[v + 1]; if (a < 0 || b < a || b > np) vmc_fail("partition: %s: voxel %d is said to hold slots [%d,%d) of %d", what, v, a, b, np); n_trans++; int cnt = 0; for (int n = 0; n < np; n++) cnt += sp->p[n].i == v; if (b - a != cnt) vmc_fail("partition: %s: voxel %d holds %d particles, partition says [%d,%d)", what, v, cnt, a, b); for (int n = a; n < b; n++) if (sp->p[n].i != v) vmc_fail("partition: %s: slot %d said to be in voxel %d is in %d", what, n, v, sp->p[n].i); }
}
static void setup(int np, std::function<int(int)> vox) { before.clear(); sp->np = np; for (int n = 0; n < np; n++) { fillp(sp->p[n], n, inner[vox(n)]); before.push_back(sp->p[n]); } }
static void go(const std::string& what) { sp->partition[0] = 12345; sort_p(sp); verify(what.c_str()); if (sp->last_sorted != g->step) vmc_fail("mark: last_sorted is not the current step"); }
extern "C" void rank_main(int) {
  // par: nx ny nz, mode, depth, max np
  boot_all(); HK = Hooks(); simulation = new vpic_simulation(); s = simulation; s->define_units(1, 1); s->define_timestep(0.1); int n[3]; for (int a = 0; a < 3; a++) n[a] = (int)vmc_par(a);
  s->define_periodic_grid(0, 0, 0, n[0], n[1], n[2], n[0], n[1], n[2], 1, 1, 1); s->define_material("v", 1); s->define_field_array(NULL, 0); g = s->grid; int mode = (int)vmc_par(3), depth = (int)vmc_par(4), maxnp = (int)vmc_par(5);
  sp = s->define_species("s", 1, 1, maxnp, 100, 1, (int)vmc_par(6)); maxnp = maxnp < sp->max_np ? maxnp : sp->max_np; for (int k = 1; k <= n[2]; k++) for (int j = 1; j <= n[1]; j++) for (int i = 1; i <= n[0]; i++) inner.push_back(VOXEL(i, j, k, n[0], n[1], n[2])); int V = (int)inner.size(); g->step = 7;
  if (mode == 0) { // every assignment of up to `depth` particles to the voxels
    for (int np = 0; np <= depth; np++) { long tot = 1; for (int i = 0; i < np; i++) tot *= V; for (long c = 0; c < tot; c++) { long x = c; std::vector<int> d(np); for (int i = 0; i < np; i++) { d[i] = x % V; x /= V; } setup(np, [&](int i) { return d[i]; }); char t[64]; sprintf(t, "%d particles, assignment %ld", np, c); go(t); g->step++; } } }
  else if (mode == 1) { // larger populations: every size, several shapes, and again after moving, emptying, shrinking, growing
    for (int np = 0; np <= maxnp; np += np < 40 ? 1 : np < 300 ? 7 : 61) for (int sh = 0; sh < 6; sh++) { setup(np, [&](int i) { switch (sh) { case 0: return (int)(hmix(i * 7 + np) % V); case 1: return i % V; case 2: return V - 1 - i % V; case 3: return i * V / (np ? np : 1); case 4: return sh * 3 % V; default: return (int)((hmix(i) & 1) ? 0 : V - 1); } }); char t[64]; sprintf(t, "%d particles, shape %d", np, sh); go(t); g->step += 2; 
      std::vector<particle_t> q(sp->p, sp->p + sp->np); before.resize(np); for (int i = 0; i < np; i++) { fillp(sp->p[i], i, sp->p[i].i); if (i % 3 == 0) sp->p[i].i = inner[hmix(i + sh) % V]; before[i] = sp->p[i]; } go(std::string(t) + " moved"); if (sh == 2) { setup(0, [](int) { return 0; }); go(std::string(t) + " then emptied"); } } }
  vmc_count("states", n_states); vmc_count("distinct", n_states); vmc_count("transitions", n_trans); vmc_count("traces", n_states);
  delete simulation; simulation = NULL; halt_services();
}
