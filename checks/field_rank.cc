// Field scenarios: a global mesh cut into ranks; kernels applied through the public kernel table.
#include "deck.h"
static World W; static int n_mats, seed, ix[3], partial; static double damp, perturbamp;
enum { PERTURB = 1 << 20 };
static float* comp(field_t& f, int c) { switch (c) { case EX: return &f.ex; case EY: return &f.ey; case EZ: return &f.ez; case BX: return &f.cbx; case BY: return &f.cby; case BZ: return &f.cbz; case TX: return &f.tcax; case TY: return &f.tcay; case TZ: return &f.tcaz;
  case JX: return &f.jfx; case JY: return &f.jfy; case JZ: return &f.jfz; case RHOF: return &f.rhof; case RHOB: return &f.rhob; case DIVE: return &f.div_e_err; default: return &f.div_b_err; } }
static material_id* mslot(field_t& f, int s) { switch (s) { case 0: return &f.ematx; case 1: return &f.ematy; case 2: return &f.ematz; case 3: return &f.nmat; case 4: return &f.fmatx; case 5: return &f.fmaty; default: return &f.fmatz; } }
static const int MST[7] = { 1, 2, 4, 0, 6, 5, 3 };
static void init(VS* s) {
  s->define_units(W.c, W.eps0); s->define_timestep(W.dt);
  s->define_periodic_grid(W.lo[0], W.lo[1], W.lo[2], W.lo[0] + W.n[0] * W.d[0], W.lo[1] + W.n[1] * W.d[1], W.lo[2] + W.n[2] * W.d[2], W.n[0], W.n[1], W.n[2], W.p[0], W.p[1], W.p[2]);
  const int B[6] = { BOUNDARY(-1,0,0), BOUNDARY(0,-1,0), BOUNDARY(0,0,-1), BOUNDARY(1,0,0), BOUNDARY(0,1,0), BOUNDARY(0,0,1) };
  for (int a = 0; a < 3; a++) { if (W.bc[a] && ix[a] == 0) s->set_domain_field_bc(B[a], W.bc[a]); if (W.bc[a + 3] && ix[a] == W.p[a] - 1) s->set_domain_field_bc(B[a + 3], W.bc[a + 3]); }
  int m0 = (int)vmc_par(14);
  for (int m = 0; m < n_mats; m++) { const double* q = MATPAR[n_mats == 1 ? m0 : m]; char nm[8]; sprintf(nm, "m%d", m); s->define_material(nm, q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8]); }
  s->define_field_array(NULL, damp);
}
template<class F> static void sites(grid_t* g, F f) { for (int k = 0; k <= g->nz + 1; k++) for (int j = 0; j <= g->ny + 1; j++) for (int i = 0; i <= g->nx + 1; i++) f(i, j, k, VOXEL(i, j, k, g->nx, g->ny, g->nz)); }
static bool owned(grid_t* g, int c, int i, int j, int k) { int l[3] = { i, j, k }, n[3] = { g->nx, g->ny, g->nz }; for (int a = 0; a < 3; a++) if (l[a] < 1 || l[a] > n[a] + ((STAG[c] >> a & 1) ? 0 : 1)) return false; return true; }
static void gidx(int st, int i, int j, int k, int* I) { int l[3] = { i, j, k }; for (int a = 0; a < 3; a++) I[a] = W.glob(a, ix[a], l[a], st >> a & 1); }
static bool inwall(const int* I, int st) { for (int a = 0; a < 3; a++) if (!W.per(a) && (I[a] < 1 || I[a] > W.n[a] + ((st >> a & 1) ? 0 : 1))) return false; return true; }
static void mats(field_array_t* fa) {
  sites(fa->g, [&](int i, int j, int k, int v) { for (int s = 0; s < 7; s++) { int I[3]; gidx(MST[s], i, j, k, I); for (int a = 0; a < 3; a++) if (!W.per(a)) { int h = W.n[a] + ((MST[s] >> a & 1) ? 0 : 1); if (I[a] < 1) I[a] = 1; if (I[a] > h) I[a] = h; } *mslot(fa->f[v], s) = matid(n_mats, s, I); } fa->f[v].cmat = 0; });
}
static void dense(field_array_t* fa) {   // consistent on shared sites, rubbish in ghosts except the persistent wall ghosts of cb
  sites(fa->g, [&](int i, int j, int k, int v) { for (int c = 0; c < NCOMP; c++) { int I[3]; gidx(STAG[c], i, j, k, I); float x;
    if (!owned(fa->g, c, i, j, k)) { bool wall = c >= BX && c <= BZ; int out = 0; int l[3] = { i, j, k }; for (int a = 0; a < 3; a++) if (!W.per(a) && (I[a] < 1 || I[a] > W.n[a])) out++; (void)l; x = (wall && out) ? hval(seed, c, gkey(I) ) : 1000 * hval(5, c, v, ix[0] + 8 * ix[1] + 64 * ix[2]); }
    else if (partial >> c & 1) x = hval(seed + 1000, c, v, world_rank);
    else x = hval(seed, c, gkey(I));
    *comp(fa->f[v], c) = x; } });
}
static VD outbuf; static std::vector<double> scal;
static void emit(field_array_t* fa, const char* key) {
  outbuf.clear(); for (int c = 0; c < NCOMP; c++) sites(fa->g, [&](int i, int j, int k, int v) { if (owned(fa->g, c, i, j, k)) outbuf.push_back(*comp(fa->f[v], c)); });
  vmc_emit(key, outbuf.data(), outbuf.size());
}
static void apply(field_array_t* fa, char o) {
  field_advance_kernels_t* K = fa->kernel; double en[6], r;
  switch (o) {
    case 'b': K->advance_b(fa, 0.5); break; case 'B': K->advance_b(fa, 1); break; case 'e': K->advance_e(fa, 1); break; case 'c': K->compute_curl_b(fa); break; case 'r': K->compute_rhob(fa); break;
    case 'd': K->compute_div_e_err(fa); break; case 'D': K->clean_div_e(fa); break; case 'm': K->compute_div_b_err(fa); break; case 'M': K->clean_div_b(fa); break;
    case 's': r = K->synchronize_tang_e_norm_b(fa); vmc_emit1("sync", r); break;
    case 'j': K->synchronize_jf(fa); break; case 'R': K->synchronize_rho(fa); break; case 'x': K->clear_jf(fa); break; case 'y': K->clear_rhof(fa); break;
    case 'E': K->energy_f(en, fa); vmc_emit("energy", en, 6); break; case 'n': r = K->compute_rms_div_e_err(fa); vmc_emit1("rms", r); break; case 'N': r = K->compute_rms_div_b_err(fa); vmc_emit1("rms", r); break;
  }
}
extern "C" void rank_main(int) {
  // par: 0-11 world, 12 n_mats, 13 damp, 14 first material, 15 mode (0 dense, 1 impulses), 16 seed, 17 mask of components that start different on each rank; spar: comma separated op strings
  W = World::unpack([](int i) { return vmc_par(i); }); n_mats = (int)vmc_par(12); damp = vmc_par(13); seed = (int)vmc_par(16); partial = (int)vmc_par(17);
  boot_all(); W.index(world_rank, ix); HK = Hooks(); simulation = new vpic_simulation(); init(simulation);
  field_array_t* fa = simulation->field_array; mats(fa);
  std::vector<std::string> ops; { std::string t; for (const char* q = vmc_spar(0);; q++) { if (*q == ',' || !*q) { ops.push_back(t); t.clear(); if (!*q) break; } else t += *q; } }
  for (auto& o : ops) {
    if ((int)vmc_par(15) == 0) { dense(fa); for (char ch : o) apply(fa, ch); emit(fa, "state"); }
    else for (int c = 0; c < DIVE; c++) { int I[3]; for (I[2] = 1; I[2] <= W.hi(2, STAG[c] >> 2 & 1); I[2]++) for (I[1] = 1; I[1] <= W.hi(1, STAG[c] >> 1 & 1); I[1]++) for (I[0] = 1; I[0] <= W.hi(0, STAG[c] & 1); I[0]++) {
      sites(fa->g, [&](int i, int j, int k, int v) { for (int cc = 0; cc < NCOMP; cc++) { float x = 0; if (cc == c && owned(fa->g, c, i, j, k)) { int G[3]; gidx(STAG[c], i, j, k, G); if (G[0] == I[0] && G[1] == I[1] && G[2] == I[2]) x = 1; } *comp(fa->f[v], cc) = x; } });
      for (char ch : o) apply(fa, ch); emit(fa, "state"); } }
  }
  delete simulation; simulation = NULL; halt_services();
}
