// C25: the region commands of input decks against their definition by cell centres and points.
#include "deck.h"
#include "deck/wrapper.h"
#define IN_emitter
#include "emitter/emitter_private.h"
#undef global
static long nst, ntr; static int P[3], N[3], nl[3], C[3], outm; static double lo[3], dd[3]; static unsigned mask; static int ptmode, pth[3]; static long evals, stray;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
// regions by cells: every set of cells of the domain; beyond the domain nothing, everything or the nearest cell
static bool cell_in(int i, int j, int k) { int c[3] = { i, j, k }; for (int a = 0; a < 3; a++) { if (c[a] < 0 || c[a] >= N[a]) { if (outm < 2) return outm; c[a] = c[a] < 0 ? 0 : N[a] - 1; } } return mask >> (c[0] + N[0] * (c[1] + N[1] * c[2])) & 1; }
static int half(int a, double x) { double h = 2 * (x - lo[a]) / dd[a]; int r = (int)lround(h); if (fabs(h - r) > 1e-3) vmc_fail("place: the region is asked about coordinate %g of axis %d, which is no point of the mesh", x, a); return r; }
static bool CIN(double x, double y, double z) { int h[3] = { half(0, x), half(1, y), half(2, z) }; for (int a = 0; a < 3; a++) if (!(h[a] & 1)) vmc_fail("place: the region is asked about a point that is no cell centre"); return cell_in((h[0] - 1) / 2 - (h[0] < 0), (h[1] - 1) / 2 - (h[1] < 0), (h[2] - 1) / 2 - (h[2] < 0)); }
// regions by points: a single point of the half lattice, its complement, or a pattern of parities
static bool point_in(const int* h) { if (ptmode < 2) { bool eq = h[0] == pth[0] && h[1] == pth[1] && h[2] == pth[2]; return eq != (ptmode == 1); } if (ptmode == 2) { int b = 0; for (int a = 0; a < 3; a++) b |= ((h[a] >> 1) & 1) << a; return mask >> b & 1; } int b = 0; for (int a = 0; a < 3; a++) b |= (h[a] & 1) << a; return mask >> b & 1; }
static bool PIN(double x, double y, double z) { int h[3] = { half(0, x), half(1, y), half(2, z) }; return point_in(h); }
static double code(int comp, const int* h) { return 1 + comp + 8 * ((h[0] + 6) + 40 * ((h[1] + 6) + 40 * (h[2] + 6.))); }
static int inregion; // whether equations may be asked only where the region is
static double VAL(int comp, double x, double y, double z) { int h[3] = { half(0, x), half(1, y), half(2, z) }; evals++; if (inregion && !point_in(h)) stray++; return code(comp, h); }
static material_t* M[3]; static particle_bc_t* B[4]; static species_t* sp; 
// the commands, as a deck uses them
struct Deck : vpic_simulation {
  void rmat(material_t* v, material_t* s) { if (v && s) set_region_material(CIN(x, y, z), v, s); else if (v) set_region_material(CIN(x, y, z), v, leave_unchanged); else if (s) set_region_material(CIN(x, y, z), leave_unchanged, s); else set_region_material(CIN(x, y, z), leave_unchanged, leave_unchanged); }
  void pmat(material_t* m) { if (m) set_point_region_material(PIN(x, y, z), m); else set_point_region_material(PIN(x, y, z), leave_unchanged); }
  void rbc(particle_bc_t* v, particle_bc_t* i, particle_bc_t* e) { set_region_bc(CIN(x, y, z), v, i, e); }
  void pbc(particle_bc_t* i, particle_bc_t* e) { set_point_region_bc(PIN(x, y, z), i, e); }
  void rfield() { set_region_field(CIN(x, y, z), VAL(0, x, y, z), VAL(1, x, y, z), VAL(2, x, y, z), VAL(3, x, y, z), VAL(4, x, y, z), VAL(5, x, y, z)); }
  void pfield() { set_point_region_field(PIN(x, y, z), VAL(0, x, y, z), VAL(1, x, y, z), VAL(2, x, y, z), VAL(3, x, y, z), VAL(4, x, y, z), VAL(5, x, y, z)); }
  void allfield() { set_region_field(everywhere, VAL(0, x, y, z), VAL(1, x, y, z), VAL(2, x, y, z), VAL(3, x, y, z), VAL(4, x, y, z), VAL(5, x, y, z)); }
  void allmat(material_t* m) { set_region_material(everywhere, m, m); }
  void vemit(emitter_t* e) { define_volume_emitter(e, CIN(x, y, z)); }
  void semit(emitter_t* e) { define_surface_emitter(e, CIN(x, y, z)); }
  int rep(int64_t n) { int c = 0; repeat(n) c++; return c; }
};
static Deck* D; static grid_t* g; static std::vector<field_t> fill; static std::vector<int64_t> nb0;
static int gl(int a, int l) { return C[a] * nl[a] + l - 1; } // global index of the cell (its low node likewise)
static field_t* F(int i, int j, int k) { return D->field_array->f + VOXEL(i, j, k, nl[0], nl[1], nl[2]); }
static const char* const MN[8] = { "ematx", "ematy", "ematz", "nmat", "fmatx", "fmaty", "fmatz", "cmat" };
static const int MST[8] = { 1, 2, 4, 0, 6, 5, 3, 7 }; // bit a: centred along axis a
static const char* const FN[6] = { "ex", "ey", "ez", "bx", "by", "bz" }; static const int FST[6] = { 1, 2, 4, 6, 5, 3 };
static void prefill() { memcpy(D->field_array->f, fill.data(), fill.size() * sizeof(field_t)); }
static std::string here(int i, int j, int k) { char b[120]; snprintf(b, 120, "of local cell %d,%d,%d (cell %d,%d,%d), region %x beyond %d", i, j, k, gl(0, i), gl(1, j), gl(2, k), mask, outm); return b; }
// how many of the cells around a component are inside, and around how many it is
static void around(int st, int i, int j, int k, int& in, int& of) { in = of = 0; int q[3] = { gl(0, i), gl(1, j), gl(2, k) }; for (int b = 0; b < 8; b++) { if (b & st) continue; of++; if (cell_in(q[0] - (b & 1), q[1] - (b >> 1 & 1), q[2] - (b >> 2))) in++; } }
static void others(const field_t* f, const field_t* w, const char* what, bool mats, int i, int j, int k) { field_t a = *f, b = *w; if (mats) { memset(&a.ematx, 0, 16); memset(&b.ematx, 0, 16); } else { a.ex = a.ey = a.ez = a.cbx = a.cby = a.cbz = b.ex = b.ey = b.ez = b.cbx = b.cby = b.cbz = 0; } WANT(!memcmp(&a, &b, sizeof a), "%s: something else changed %s", what, here(i, j, k).c_str()); }
#define EACH for (int k = 0; k < nl[2] + 2; k++) for (int j = 0; j < nl[1] + 2; j++) for (int i = 0; i < nl[0] + 2; i++)
static void region_materials() { for (int v = 0; v < 3; v++) for (int s = 0; s < 3; s++) { nst++; prefill(); D->rmat(v ? M[v] : NULL, s ? M[s] : NULL); EACH { field_t* f = F(i, j, k); const field_t* w = &fill[f - D->field_array->f]; others(f, w, "material", true, i, j, k); for (int c = 0; c < 8; c++) { int in, of; around(MST[c], i, j, k, in, of); material_id was = (&w->ematx)[c], exp = in == of ? (v ? M[v]->id : was) : in && s ? M[s]->id : was; WANT((&f->ematx)[c] == exp, "material: %s %s is %d, expected %d (inside %d, surface %d)", MN[c], here(i, j, k).c_str(), (&f->ematx)[c], exp, v ? M[v]->id : -1, s ? M[s]->id : -1); } } } }
static void region_fields() { nst++; prefill(); evals = 0; inregion = 0; D->rfield(); long n = 0; EACH { field_t* f = F(i, j, k); const field_t* w = &fill[f - D->field_array->f]; others(f, w, "field", false, i, j, k); int l[3] = { gl(0, i), gl(1, j), gl(2, k) }; for (int c = 0; c < 6; c++) { int in, of, h[3]; around(FST[c], i, j, k, in, of); for (int a = 0; a < 3; a++) h[a] = 2 * l[a] + (FST[c] >> a & 1); const float* q = c < 3 ? &f->ex : &f->cbx; const float* q0 = c < 3 ? &w->ex : &w->cbx; float exp = in ? (float)(code(c, h) * (c < 3 ? 1 : g->cvac)) : q0[c % 3]; n += in > 0; WANT(q[c % 3] == exp, "field: %s %s is %.9g, expected %.9g", FN[c], here(i, j, k).c_str(), q[c % 3], exp); } } WANT(evals == n, "field: the equations are asked %ld times for %ld values", evals, n); }
static void region_bcs(bool all) { for (int v = 0; v < 4; v++) for (int i0 = 0; i0 < 4; i0++) for (int e = 0; e < 4; e++) { if (!all && (v + 2 * i0 + 3 * e + mask) % 4) continue; nst++; memcpy(g->neighbor, nb0.data(), nb0.size() * 8); D->rbc(B[v], B[i0], B[e]); EACH for (int f = 0; f < 6; f++) { int64_t at = 6 * VOXEL(i, j, k, nl[0], nl[1], nl[2]) + f, exp = nb0[at]; int l[3] = { i, j, k }, q[3], r[3]; bool own = true; for (int a = 0; a < 3; a++) { if (l[a] < 1 || l[a] > nl[a]) own = false; q[a] = r[a] = gl(a, l[a]); } r[f % 3] += f < 3 ? -1 : 1; if (own) { bool x = cell_in(q[0], q[1], q[2]), y = cell_in(r[0], r[1], r[2]); particle_bc_t* b = x && y ? B[v] : x ? B[i0] : y ? B[e] : NULL; if (b) exp = get_particle_bc_id(b); } WANT(g->neighbor[at] == exp, "wall: face %d %s leads to %ld, expected %ld (handlers %d %d %d)", f, here(i, j, k).c_str(), (long)g->neighbor[at], (long)exp, v, i0, e); } } memcpy(g->neighbor, nb0.data(), nb0.size() * 8); }
static void emitters() { for (int z = 0; z < 2; z++) { nst++; emitter_t* e = child_langmuir(sp, D->interpolator_array, D->field_array, D->accumulator_array, D->entropy, 1, 0.1, 0.2, 0.3, CHILD_LANGMUIR); if (z) D->semit(e); else D->vemit(e); WANT(num_emitter(D->emitter_list) == 1, "emitter: %d emitters are defined by one command", num_emitter(D->emitter_list)); std::map<int, int> got; for (int n = 0; n < e->n_component; n++) got[e->component[n]]++; EACH { int l[3] = { i, j, k }; bool own = true; int q[3]; for (int a = 0; a < 3; a++) { if (l[a] < 1 || l[a] > nl[a]) own = false; q[a] = gl(a, l[a]); } int v = VOXEL(i, j, k, nl[0], nl[1], nl[2]); bool in = cell_in(q[0], q[1], q[2]); for (int t = 0; t < 27; t++) { int d[3] = { t % 3 - 1, t / 3 % 3 - 1, t / 9 - 1 }, nz = abs(d[0]) + abs(d[1]) + abs(d[2]); bool exp = own && (z ? nz == 1 && !in && cell_in(q[0] + d[0], q[1] + d[1], q[2] + d[2]) : nz == 0 && in); auto it = got.find(COMPONENT_ID(v, BOUNDARY(d[0], d[1], d[2]))); int n = it == got.end() ? 0 : it->second; WANT(n == exp, "emitter: component %d,%d,%d %s is listed %d times, expected %d (%s)", d[0], d[1], d[2], here(i, j, k).c_str(), n, (int)exp, z ? "surface" : "volume"); } } long n = 0; for (auto& p : got) n += p.second; WANT(n == e->n_component, "emitter: count"); delete_emitter_list(D->emitter_list); D->emitter_list = NULL; } }
static void points() { inregion = 1; 
  auto pat = [&]() { for (int m = 0; m < 3; m++) { nst++; prefill(); D->pmat(m ? M[m] : NULL); EACH { field_t* f = F(i, j, k); const field_t* w = &fill[f - D->field_array->f]; others(f, w, "material", true, i, j, k); int l[3] = { gl(0, i), gl(1, j), gl(2, k) }; for (int c = 0; c < 8; c++) { int h[3]; for (int a = 0; a < 3; a++) h[a] = 2 * l[a] + (MST[c] >> a & 1); material_id exp = m && point_in(h) ? M[m]->id : (&w->ematx)[c]; WANT((&f->ematx)[c] == exp, "material: point %s %s is %d, expected %d", MN[c], here(i, j, k).c_str(), (&f->ematx)[c], exp); } } }
    nst++; prefill(); stray = evals = 0; D->pfield(); WANT(stray == 0, "field: an equation is asked outside the region"); long n = 0; EACH { field_t* f = F(i, j, k); const field_t* w = &fill[f - D->field_array->f]; others(f, w, "field", false, i, j, k); int l[3] = { gl(0, i), gl(1, j), gl(2, k) }; for (int c = 0; c < 6; c++) { int h[3]; for (int a = 0; a < 3; a++) h[a] = 2 * l[a] + (FST[c] >> a & 1); bool in = point_in(h); n += in; const float* q = c < 3 ? &f->ex : &f->cbx; const float* q0 = c < 3 ? &w->ex : &w->cbx; float exp = in ? (float)(code(c, h) * (c < 3 ? 1 : g->cvac)) : q0[c % 3]; WANT(q[c % 3] == exp, "field: point %s %s is %.9g, expected %.9g", FN[c], here(i, j, k).c_str(), q[c % 3], exp); } } WANT(evals == n, "field: the equations are asked %ld times for %ld values", evals, n);
    for (int i0 = 0; i0 < 4; i0++) for (int e = 0; e < 4; e++) { nst++; memcpy(g->neighbor, nb0.data(), nb0.size() * 8); D->pbc(B[i0], B[e]); EACH for (int f = 0; f < 6; f++) { int64_t at = 6 * VOXEL(i, j, k, nl[0], nl[1], nl[2]) + f, exp = nb0[at]; int l[3] = { i, j, k }; bool own = true; for (int a = 0; a < 3; a++) if (l[a] < 1 || l[a] > nl[a]) own = false; if (own) { int in = 0; for (int b = 0; b < 8; b++) if ((b >> (f % 3) & 1) == f / 3) { int h[3]; for (int a = 0; a < 3; a++) h[a] = 2 * (gl(a, l[a]) + (b >> a & 1)); in += point_in(h); } particle_bc_t* b = in == 4 ? B[i0] : in ? B[e] : NULL; if (b) exp = get_particle_bc_id(b); } WANT(g->neighbor[at] == exp, "wall: point region, face %d %s leads to %ld, expected %ld (handlers %d %d)", f, here(i, j, k).c_str(), (long)g->neighbor[at], (long)exp, i0, e); } } memcpy(g->neighbor, nb0.data(), nb0.size() * 8); };
  for (ptmode = 2; ptmode < 4; ptmode++) for (mask = 0; mask < 256; mask++) pat();
  for (ptmode = 0; ptmode < 2; ptmode++) for (int z = -2; z <= 2 * N[2] + 2; z++) for (int y = -2; y <= 2 * N[1] + 2; y++) for (int x = -2; x <= 2 * N[0] + 2; x++) { if ((x | y | z) < 0 && ptmode) continue; pth[0] = x; pth[1] = y; pth[2] = z; pat(); } }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0); for (int a = 0; a < 3; a++) { P[a] = (int)vmc_par(1 + a); N[a] = (int)vmc_par(4 + a); nl[a] = N[a] / P[a]; } int box = (int)vmc_par(7), all = (int)vmc_par(8); static const double L[3][6] = { { 0, 0, 0, 1, 1, 1 }, { -1.75, 0.3, 2, 0.7, 0.1, 3 }, { 100, -200, -0.5, 0.25, 7, 0.125 } }; double hi[3]; for (int a = 0; a < 3; a++) { lo[a] = L[box][a]; dd[a] = L[box][3 + a]; hi[a] = lo[a] + N[a] * dd[a]; }
  boot_sim([&](VS* v) { v->define_units(2, 0.8); v->define_timestep(0.01); v->verbose = 0; if (box == 1) v->define_absorbing_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], N[0], N[1], N[2], P[0], P[1], P[2], absorb_particles); else v->define_periodic_grid(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2], N[0], N[1], N[2], P[0], P[1], P[2]);
    M[0] = v->define_material("m0", 1); M[1] = v->define_material("m1", 2); M[2] = v->define_material("m2", 3); v->define_field_array(); sp = v->define_species("s", -1, 1, 10, 10, 0, 0);
    B[0] = NULL; B[1] = (particle_bc_t*)absorb_particles; B[2] = (particle_bc_t*)reflect_particles; B[3] = v->define_particle_bc(absorb_tally(v->species_list, v->field_array));
    D = (Deck*)v; g = v->grid; int r = (int)world_rank; for (int a = 0; a < 3; a++) { C[a] = r % P[a]; r /= P[a]; WANT((a == 0 ? g->nx : a == 1 ? g->ny : g->nz) == nl[a], "mesh"); } fill.assign(v->field_array->f, v->field_array->f + g->nv); 
    for (int q = 0; q < g->nv; q++) { float* f = (float*)&fill[q]; for (int z = 0; z < 16; z++) f[z] = -1 - z - 0.25f * q; material_id* m = &fill[q].ematx; for (int z = 0; z < 8; z++) m[z] = 50 + (z + q) % 7; } nb0.assign(g->neighbor, g->neighbor + 6 * g->nv);
    if (mode == 0) { int nc = N[0] * N[1] * N[2]; for (mask = 0; mask < 1u << nc; mask++) for (outm = 0; outm < 3; outm++) { if (!all && nc > 8 && (mask + outm) % 3) continue; region_materials(); region_fields(); region_bcs(nc <= 6); emitters(); }
      prefill(); inregion = 0; outm = 1; mask = ~0u; D->allmat(M[2]); EACH for (int c = 0; c < 8; c++) WANT((&F(i, j, k)->ematx)[c] == M[2]->id, "material: everywhere leaves something out"); evals = 0; D->allfield(); WANT(evals == 6L * g->nv, "field: everywhere leaves something out"); for (int n : { 0, 1, 2, 17 }) WANT(D->rep(n) == n, "repeat"); nst += 3; }
    else points();
    memcpy(g->neighbor, nb0.data(), nb0.size() * 8); prefill(); memset((void*)v->field_array->f, 0, sizeof(field_t) * g->nv); });
  simulation->initialize(0, NULL); if (!nst) vmc_fail("nothing was checked");
  vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); vmc_count("traces", nst); mp_barrier(); D = NULL; HK = Hooks(); 
  simulation->finalize(); delete simulation; simulation = NULL; halt_services(); }
