// C10, C11: every kind of dump, read back by its documented layout and compared with memory.
#include "deck.h"
#include "plat.h"
#include <regex>
#include <unistd.h>
#define WANT(c, ...) do { vmc_count("transitions", 1); if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
typedef std::string STR;
static VS* s; static grid_t* g; static int P[3], N[3], L[3];
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
static STR slurp(const STR& n) { std::ifstream f(n.c_str(), std::ios::binary); if (!f) vmc_fail("file: '%s' was not written", n.c_str()); std::stringstream b; b << f.rdbuf(); return b.str(); }
static STR fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
template<class T> static void put(STR& o, T v) { o.append((const char*)&v, sizeof v); }
static STR header(int type, long step, const int* n, const float* d, int sp, float qm, int elem, std::vector<int> dims) {
  STR o; for (int c : { 8, 2, 4, 4, 8 }) put(o, (char)c); put(o, (short)0xcafe); put(o, (int)0xdeadbeef); put(o, 1.f); put(o, 1.); put(o, (int)0); put(o, type); put(o, (int)step); for (int a = 0; a < 3; a++) put(o, n[a]); put(o, (float)g->dt); for (int a = 0; a < 3; a++) put(o, d[a]); for (float v : { (float)g->x0, (float)g->y0, (float)g->z0, (float)g->cvac, (float)g->eps0, 0.f }) put(o, v); put(o, (int)world_rank); put(o, (int)world_size); put(o, sp); put(o, qm);
  put(o, elem); put(o, (int)dims.size()); for (int x : dims) put(o, x); return o; }
static void compare(const STR& what, const STR& got, const STR& want, size_t head) {
  vmc_count("transitions", want.size() / 4 + 1); if (got == want) return; size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
  if (i < head && got.size() >= head) vmc_fail("header: byte %zu of %s differs from the documented header", i, what.c_str()); if (got.size() != want.size()) vmc_fail("size: %s has %zu bytes instead of %zu (first difference at %zu)", what.c_str(), got.size(), want.size(), i); vmc_fail("data: byte %zu (value %zu of the data) of %s is not what is in memory", i, (i - head) / 4, what.c_str()); }
static void make_world(int nsp) {
  for (int a = 0; a < 3; a++) P[a] = (int)vmc_par(1 + a), L[a] = (int)vmc_par(4 + a), N[a] = L[a] * P[a]; boot_all(); HK = Hooks(); simulation = s = new vpic_simulation(); s->define_units(1.25, 0.8); s->define_timestep(0.21875); s->verbose = 0; s->define_periodic_grid(-1, 2, 0.5, -1 + 0.5 * N[0], 2 + 0.625 * N[1], 0.5 + 0.75 * N[2], N[0], N[1], N[2], P[0], P[1], P[2]); g = s->grid;
  s->define_material("vacuum", 1); for (int m = 1; m < 4; m++) s->define_material(fmt("mat%d", m).c_str(), 1 + m, 1 + .1 * m, 1 + .2 * m, 1 + .3 * m, 1 + .4 * m, 1 + .5 * m, .1 * m, .2 * m, .3 * m); s->define_field_array(NULL, 0); const char* nm[3] = { "ion", "e-", "beam 2" }; for (int k = 0; k < nsp; k++) s->define_species(nm[k], k ? -1.5 / k : 2, 1.25 + k, 40, 40, 0, 0); s->seed_entropy(5); }
static void paint(void* a, size_t words, uint64_t salt, bool plain) { uint32_t* w = (uint32_t*)a; for (size_t i = 0; i < words; i++) if (plain) ((float*)a)[i] = (float)hval(9, i, salt, world_rank); else w[i] = (uint32_t)hmix(i * 977 + salt * 131071 + world_rank * 7919 + 1); }
static std::vector<int> lines(int n, int stride) { std::vector<int> v; v.push_back(0); for (int k = 1; k <= n / stride; k++) v.push_back(stride == 1 ? k : k * stride - 1); v.push_back(n + 1); return v; }
static void load(species_t* sp, int np, int salt) { if (sp->max_np < np) { FREE_ALIGNED(sp->p); MALLOC_ALIGNED(sp->p, np + 8, 128); sp->max_np = np + 8; } sp->np = np; for (int q = 0; q < np; q++) { particle_t& p = sp->p[q]; p.dx = (float)hval(1, q, salt); p.dy = (float)hval(2, q, salt); p.dz = (float)hval(3, q, salt); int c = (int)(hmix(q + salt) % (uint64_t)(g->nx * g->ny * g->nz)); p.i = VOXEL(1 + c % g->nx, 1 + c / g->nx % g->ny, 1 + c / g->nx / g->ny, g->nx, g->ny, g->nz); p.ux = (float)(2 * hval(4, q, salt)); p.uy = (float)(2 * hval(5, q, salt)); p.uz = (float)(2 * hval(6, q, salt)); p.w = 1 + q + salt * 100000; } }
struct Snap { STR f, h; std::vector<STR> p; long step; Snap() { f.assign((char*)s->field_array->f, g->nv * sizeof(field_t)); h.assign((char*)s->interpolator_array->i, g->nv * sizeof(interpolator_t)); for (species_t* sp = s->species_list; sp; sp = sp->next) { STR t((char*)sp, sizeof *sp); t.append((char*)sp->p, sp->np * sizeof(particle_t)); p.push_back(t); } step = s->step(); }
  void same(const char* what) { Snap n; if (n.f != f || n.h != h || n.p != p || n.step != step) vmc_fail("memory: %s changed the state of the simulation", what); vmc_count("transitions", 4); } };
static std::vector<uint32_t> masks(int nv, bool full) { std::vector<uint32_t> m; uint32_t A = (uint32_t)((1ull << nv) - 1); for (int i = 0; i < nv; i++) m.push_back(1u << i); for (int i = 0; i < nv; i++) { m.push_back(1u << i | 1u << (i + 1) % nv); m.push_back(A & ~(1u << i)); m.push_back((2u << i) - 1); if (full) for (int j = 0; j < i; j++) m.push_back(1u << i | 1u << j); }
  m.push_back(0); m.push_back(A); m.push_back(all); for (uint32_t x : { electric, magnetic, tca, current, emat, fmat, electric | magnetic, current_density | charge_density, stress_tensor, emat | nmat | fmat | cmat }) m.push_back(x & A); m.push_back(1u | 1u << nv); m.push_back(1u << (nv - 1) | 1u << 31 | 3u << (nv + 1)); m.push_back(1u << nv); if (full) for (int i = 0; i < 40; i++) m.push_back((uint32_t)hmix(i + 77)); return m; }
static void want_var(STR& o, const field_t& f, int v) { if (v < 16) o.append((const char*)&f + 4 * v, 4); else { const material_id* m = &f.ematx; o.append((const char*)(m + v - 16), sizeof(material_id)); } }
static void gridded() { // par 0: 0 field 1 hydro; 7 thorough
  int hyd = (int)vmc_par(0), nv = hyd ? 14 : 24; bool full = vmc_par(7) != 0; make_world(2); DumpParameters D; s->dump_mkdir("out"); strcpy(D.baseDir, "out"); strcpy(D.baseFileName, "base"); strcpy(D.name, "x"); field_t* F2; hydro_t* H2; MALLOC_ALIGNED(F2, g->nv, 128); MALLOC_ALIGNED(H2, g->nv, 128);
  int n3[3] = { g->nx, g->ny, g->nz }; species_t* sp = find_species_name("e-", s->species_list); int turn = 0; std::vector<uint32_t> M = masks(nv, full);
  paint(s->field_array->f, g->nv * sizeof(field_t) / 4, 1, true); for (int v = 0; v < g->nv; v++) for (int q = 0; q < 8; q++) (&s->field_array->f[v].ematx)[q] = (material_id)(hmix(v * 8 + q) & 3); load_interpolator_array(s->interpolator_array, s->field_array); load(sp, 30, 1); load(find_species_name("ion", s->species_list), 25, 2);
  for (int sx = 0; sx <= g->nx + 2; sx++) for (int sy = 0; sy <= g->ny + 2; sy++) for (int sz = 0; sz <= g->nz + 2; sz++) { int st[3] = { sx, sy, sz }, bad = 0; for (int a = 0; a < 3; a++) if (!st[a] || n3[a] % st[a]) bad++; D.stride_x = sx; D.stride_y = sy; D.stride_z = sz;
    if (bad) { if (bad == 1 && world_size == 1) { D.format = turn++ % 2 ? band : band_interleave; D.output_vars = BitField(1); WANT(refused([&] { if (hyd) s->hydro_dump("e-", D); else s->field_dump(D); }), "stride: %d %d %d is accepted on a mesh of %d %d %d cells", sx, sy, sz, n3[0], n3[1], n3[2]); vmc_count("states", 1); } continue; }
    int no[3]; float d[3] = { (float)(g->dx * sx), (float)(g->dy * sy), (float)(g->dz * sz) }; std::vector<int> ix[3]; for (int a = 0; a < 3; a++) no[a] = n3[a] / st[a], ix[a] = lines(n3[a], st[a]);
    for (size_t mi = 0; mi < M.size(); mi++) for (int fm = 0; fm < 2; fm++) { if (fm && mi > 3) continue; if (!full && mi > 4 && (mi + sx + sy + sz) % 3) continue; turn++; bool user = turn % 3 == 0; long us = turn % 4 == 1 ? (turn % 8 == 1 ? 0 : 12345 + turn % 7) : -1; s->step() = turn % 5 * 1000003L; long step = us < 0 ? (long)s->step() : us; D.format = fm ? band_interleave : band; uint32_t mask = M[mi]; D.output_vars = BitField(mask);
      if (user) { paint(F2, g->nv * sizeof(field_t) / 4, turn, false); paint(H2, g->nv * sizeof(hydro_t) / 4, turn, false); }
      Snap before; if (hyd) s->hydro_dump("e-", D, user ? H2 : NULL, us); else s->field_dump(D, user ? F2 : NULL, us); before.same("a dump"); STR name = fmt("out/T.%ld/base.%ld.%d", step, step, world_rank), got = slurp(name), want;
      const char* base = hyd ? (const char*)(user ? H2 : s->hydro_array->h) : (const char*)(user ? F2 : s->field_array->f); size_t es = hyd ? sizeof(hydro_t) : sizeof(field_t); want = header(hyd ? 2 : 1, step, no, d, hyd ? sp->id : -1, hyd ? sp->q / sp->m : 0, (int)es, { no[0] + 2, no[1] + 2, no[2] + 2 }); size_t head = want.size();
      auto at = [&](int i, int j, int k) { return base + es * VOXEL(i, j, k, g->nx, g->ny, g->nz); };
      if (fm) { for (int k : ix[2]) for (int j : ix[1]) for (int i : ix[0]) want.append(at(i, j, k), es); } else for (int v = 0; v < nv; v++) if (mask >> v & 1) for (int k : ix[2]) for (int j : ix[1]) for (int i : ix[0]) if (hyd) want.append(at(i, j, k) + 4 * v, 4); else want_var(want, *(const field_t*)at(i, j, k), v);
      compare(fmt("a %s dump with strides %d %d %d of %dx%dx%d cells, variables %#x, %s", hyd ? "hydro" : "field", sx, sy, sz, n3[0], n3[1], n3[2], mask, fm ? "interleaved" : "banded"), got, want, head); unlink(name.c_str()); vmc_count("states", 1); vmc_count("distinct", 1);
      if (hyd && !user && turn % 7 == 0) { STR mem(base, g->nv * es); clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sp, s->interpolator_array); synchronize_hydro_array(s->hydro_array); for (int v = 0; v < g->nv; v++) for (int q = 0; q < 14; q++) { float a = ((float*)(mem.data() + es * v))[q], b = ((float*)&s->hydro_array->h[v])[q]; WANT(fabsf(a - b) <= 1e-3f * (1 + fabsf(b)), "hydro: the dumped moments are not those of the species"); } } } }
  WANT(refused([&] { s->hydro_dump("nobody", D); }), "species: an unknown name is accepted"); FREE_ALIGNED(F2); FREE_ALIGNED(H2);
}
static void centred(species_t* sp, const particle_t& p, double u[3]) { const interpolator_t& f = s->interpolator_array->i[p.i]; double dx = p.dx, dy = p.dy, dz = p.dz, h = (double)sp->q * g->dt / (2. * sp->m * g->cvac), ha[3] = { h * ((double)f.ex + dy * f.dexdy + dz * (f.dexdz + dy * f.d2exdydz)), h * ((double)f.ey + dz * f.deydz + dx * (f.deydx + dz * f.d2eydzdx)), h * ((double)f.ez + dx * f.dezdx + dy * (f.dezdy + dx * f.d2ezdxdy)) }, b[3] = { (double)f.cbx + dx * f.dcbxdx, (double)f.cby + dy * f.dcbydy, (double)f.cbz + dz * f.dcbzdz }, v[3] = { p.ux + ha[0], p.uy + ha[1], p.uz + ha[2] };
  double gam = sqrt(1 + v[0] * v[0] + v[1] * v[1] + v[2] * v[2]), bb = sqrt(b[0] * b[0] + b[1] * b[1] + b[2] * b[2]), t = tan(0.5 * h * bb / gam) / (bb > 0 ? bb : 1), sc = 2 * t / (1 + t * t * bb * bb), w[3]; for (int a = 0; a < 3; a++) { int x = (a + 1) % 3, y = (a + 2) % 3; w[a] = v[a] + t * (v[x] * b[y] - v[y] * b[x]); } for (int a = 0; a < 3; a++) { int x = (a + 1) % 3, y = (a + 2) % 3; u[a] = v[a] + sc * (w[x] * b[y] - w[y] * b[x]); } }
static void particles() { // par 7: first case, 8: cases
  make_world(3); static const int NP[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 100, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 20000, 32767, 32768, 32769, 32784, 40000, 49152, 65535, 65536, 65537, 65552, 70001, 98303, 98304, 98305, 131072, 131073 }; int nn = sizeof NP / sizeof *NP; if (nn != 52) vmc_fail("count");
  for (int v = 0; v < g->nv; v++) { field_t& f = s->field_array->f[v]; for (int q = 0; q < 16; q++) ((float*)&f)[q] = (float)(0.8 * hval(50, v, q, world_rank)); } load_interpolator_array(s->interpolator_array, s->field_array); int n3[3] = { g->nx, g->ny, g->nz }; float d[3] = { g->dx, g->dy, g->dz };
  for (int c = (int)vmc_par(7); c < nn; c += (int)vmc_par(8)) for (int ft = -1; ft < 3; ft++) { int np = NP[(c + world_rank) % nn]; species_t* sp = find_species_name(ft <= 0 ? "e-" : ft == 1 ? "ion" : "beam 2", s->species_list); for (species_t* o = s->species_list; o; o = o->next) load(o, o == sp ? np : 3, o->id); s->step() = 100L * c + ft; Snap before; s->dump_particles(sp->name, "part", ft); before.same("a particle dump"); STR name = ft ? fmt("part.%ld.%d", (long)s->step(), world_rank) : fmt("part.%d", world_rank), got = slurp(name), want = header(3, s->step(), n3, d, sp->id, sp->q / sp->m, sizeof(particle_t), { np }); size_t head = want.size();
    WANT(got.size() == head + sizeof(particle_t) * np, "size: a dump of %d particles has %zu bytes", np, got.size()); WANT(!memcmp(got.data(), want.data(), head), "header: of a dump of %d particles", np); const particle_t* q = (const particle_t*)(got.data() + head);
    for (int n = 0; n < np; n++) { const particle_t& p = sp->p[n]; WANT(q[n].dx == p.dx && q[n].dy == p.dy && q[n].dz == p.dz && q[n].i == p.i && q[n].w == p.w, "particles: entry %d of %d is not particle %d of the species", n, np, n); double u[3]; centred(sp, p, u); double m = 1 + fabs(u[0]) + fabs(u[1]) + fabs(u[2]); WANT(fabs(u[0] - q[n].ux) < 3e-4 * m && fabs(u[1] - q[n].uy) < 3e-4 * m && fabs(u[2] - q[n].uz) < 3e-4 * m, "momentum: particle %d of %d is dumped with %g %g %g, centred in time it has %g %g %g", n, np, q[n].ux, q[n].uy, q[n].uz, u[0], u[1], u[2]); }
    unlink(name.c_str()); vmc_count("states", 1); vmc_count("distinct", 1); }
  WANT(refused([&] { s->dump_particles("nobody", "part", 0); }), "species: an unknown name is accepted"); WANT(refused([&] { s->dump_particles("ion", NULL, 0); }), "file: no name is accepted"); for (species_t* o = s->species_list; o; o = o->next) o->np = 0;
}
static bool num(const STR& t, double v, double tol) { char* e; double x = strtod(t.c_str(), &e); return *e == 0 && e != t.c_str() && fabs(x - v) <= tol; }
static std::vector<STR> words(const STR& l) { std::vector<STR> v; STR w; bool q = false; for (char c : l) { if (c == '"') { q = !q; continue; } if (!q && (c == ' ' || c == '\t')) { if (w.size()) v.push_back(w); w = ""; } else w += c; } if (w.size()) v.push_back(w); return v; }
static std::vector<STR> split(const STR& t) { std::vector<STR> v; std::stringstream b(t); STR l; while (std::getline(b, l)) v.push_back(l); return v; }
static double e6(double v) { return 1e-6 * fabs(v) + 1e-30; }
static void texts() { // par 7: species
  int nsp = (int)vmc_par(7); make_world(nsp); int n3[3] = { g->nx, g->ny, g->nz }; float d[3] = { g->dx, g->dy, g->dz };
  for (int bc = 0; bc < 4; bc++) { if (bc && world_size > 1) break; if (bc) { for (int e = -1; e < 2; e += 2) s->set_domain_field_bc(BOUNDARY(e, 0, 0), -bc), s->set_domain_particle_bc(BOUNDARY(e, 0, 0), reflect_particles), s->set_domain_field_bc(BOUNDARY(0, e, 0), -4), s->set_domain_particle_bc(BOUNDARY(0, e, 0), bc == 1 ? reflect_particles : absorb_particles); } for (int k = 0; k < 3; k++) { s->step() = k * 77L; Snap before; s->dump_grid("grid"); before.same("a grid dump");
    STR w = header(0, s->step(), n3, d, -1, 0, sizeof(g->bc[0]), { 3, 3, 3 }); size_t head = w.size(); w.append((char*)g->bc, 27 * sizeof(g->bc[0])); put(w, (int)sizeof(g->range[0])); put(w, 1); put(w, world_size + 1); w.append((char*)g->range, sizeof(g->range[0]) * (world_size + 1)); put(w, (int)sizeof(g->neighbor[0])); put(w, 4); put(w, 6); for (int a = 0; a < 3; a++) put(w, n3[a] + 2); w.append((char*)g->neighbor, sizeof(g->neighbor[0]) * 6 * g->nv); compare("a grid dump", slurp(fmt("grid.%d", world_rank)), w, head); vmc_count("states", 1); vmc_count("distinct", 1);
    for (int user = 0; user < 2; user++) for (int ft = -1; ft < 3; ft++) { field_t* F; hydro_t* H; MALLOC_ALIGNED(F, g->nv, 128); MALLOC_ALIGNED(H, g->nv, 128); paint(F, g->nv * sizeof(field_t) / 4, k + user, false); paint(H, g->nv * sizeof(hydro_t) / 4, k + user + 9, false); paint(s->field_array->f, g->nv * 20, k, true); load_interpolator_array(s->interpolator_array, s->field_array); for (species_t* sp = s->species_list; sp; sp = sp->next) load(sp, 20 + k, sp->id); Snap b2; s->dump_fields("fd", ft, user ? F : NULL); b2.same("a field dump"); STR tail = ft ? fmt(".%ld.%d", (long)s->step(), world_rank) : fmt(".%d", world_rank);
      w = header(1, s->step(), n3, d, -1, 0, sizeof(field_t), { n3[0] + 2, n3[1] + 2, n3[2] + 2 }); head = w.size(); w.append((char*)(user ? F : s->field_array->f), sizeof(field_t) * g->nv); compare("a raw field dump", slurp("fd" + tail), w, head);
      for (species_t* sp = s->species_list; sp; sp = sp->next) { s->dump_hydro(sp->name, "hd", ft, user ? H : NULL); b2.same("a hydro dump"); w = header(2, s->step(), n3, d, sp->id, sp->q / sp->m, sizeof(hydro_t), { n3[0] + 2, n3[1] + 2, n3[2] + 2 }); head = w.size(); w.append((char*)(user ? H : s->hydro_array->h), sizeof(hydro_t) * g->nv); compare("a raw hydro dump", slurp("hd" + tail), w, head);
        if (!user) { STR mem((char*)s->hydro_array->h, g->nv * sizeof(hydro_t)); clear_hydro_array(s->hydro_array); accumulate_hydro_p(s->hydro_array, sp, s->interpolator_array); synchronize_hydro_array(s->hydro_array); for (int v = 0; v < g->nv; v++) for (int q = 0; q < 14; q++) { float a = ((float*)(mem.data() + sizeof(hydro_t) * v))[q], b = ((float*)&s->hydro_array->h[v])[q]; WANT(fabsf(a - b) <= 1e-3f * (1 + fabsf(b)), "hydro: the dumped moments are not those of '%s'", sp->name); } } vmc_count("states", 1); vmc_count("distinct", 1); }
      FREE_ALIGNED(F); FREE_ALIGNED(H); } 
    unlink("mats"); unlink("specs"); mp_barrier(); s->dump_materials("mats"); s->dump_species("specs"); if (!world_rank) { auto l = split(slurp("mats")); size_t q = 0; for (material_t* m = s->material_list; m; m = m->next, q += 5) { WANT(l.size() >= q + 5 && l[q] == m->name && num(l[q + 1], m->id, 0), "materials: entry %zu is not '%s'", q / 5, m->name); for (int r = 0; r < 3; r++) { auto x = words(l[q + 2 + r]); WANT(x.size() == 3, "materials: line %zu", q + 2 + r); const float V[3][3] = { { m->epsx, m->epsy, m->epsz }, { m->mux, m->muy, m->muz }, { m->sigmax, m->sigmay, m->sigmaz } }; for (int c = 0; c < 3; c++) WANT(num(x[c], V[r][c], e6(V[r][c])), "materials: '%s' row %d column %d", m->name, r, c); } } WANT(q == l.size(), "materials: %zu lines", l.size());
      auto t = split(slurp("specs")); size_t i = 0; for (species_t* sp = s->species_list; sp; sp = sp->next, i++) { WANT(i < t.size(), "species: '%s' has no line of its own", sp->name); STR nm = sp->name; WANT(t[i].compare(0, nm.size() + 1, nm + " ") == 0, "species: line %zu is '%s'", i, t[i].c_str()); auto x = words(t[i].substr(nm.size())); WANT(x.size() == 3 && num(x[0], sp->id, 0) && num(x[1], sp->q, e6(sp->q)) && num(x[2], sp->m, e6(sp->m)), "species: line %zu is '%s'", i, t[i].c_str()); } WANT(i == t.size(), "species: %zu lines for %zu species", t.size(), i); vmc_count("states", 2); vmc_count("distinct", 2); }
    mp_barrier(); } }
  // energies: all ways to begin and continue a file over four dumps
  for (int h = 0; h < 16; h++) { unlink("en"); mp_barrier(); std::vector<std::vector<double>> rows; std::vector<int> heads; for (int k = 0; k < 4; k++) { int app = h >> k & 1; if (!app) rows.clear(), heads.clear(), heads.push_back(0); s->step() = 1000L * h + k; paint(s->field_array->f, g->nv * 20, h * 4 + k, true); load_interpolator_array(s->interpolator_array, s->field_array); for (int v = 0; v < g->nv; v++) memset(&s->field_array->f[v].ematx, 0, 16); for (species_t* sp = s->species_list; sp; sp = sp->next) load(sp, 11 + k, sp->id + 7 * h); Snap b2; if (app) s->dump_energies("en"); else s->dump_energies("en", 0); b2.same("an energy dump"); std::vector<double> r(1, (double)s->step()); double e[6]; s->field_array->kernel->energy_f(e, s->field_array); r.insert(r.end(), e, e + 6); for (species_t* sp = s->species_list; sp; sp = sp->next) r.push_back(energy_p(sp, s->interpolator_array)); rows.push_back(r);
      if (!world_rank) { auto l = split(slurp("en")); size_t q = 0; if (heads.size()) { WANT(l.size() > 2 && l[0][0] == '%' && l[1][0] == '%' && l[2][0] == '%', "energies: no layout"); auto x = words(l[1].substr(1)); std::vector<STR> w = { "step", "ex", "ey", "ez", "bx", "by", "bz" }; for (species_t* sp = s->species_list; sp; sp = sp->next) w.push_back(sp->name); WANT(x == w, "energies: the layout line is '%s'", l[1].c_str()); STR dt = l[2].substr(l[2].find('=') + 1); WANT(num(dt, g->dt, e6(g->dt)), "energies: time step"); q = 3; } WANT(l.size() == q + rows.size(), "energies: %zu lines for %zu dumps", l.size() - q, rows.size()); for (size_t i = 0; i < rows.size(); i++) { auto x = words(l[q + i]); WANT(x.size() == rows[i].size(), "energies: %zu columns", x.size()); for (size_t c = 0; c < x.size(); c++) WANT(num(x[c], rows[i][c], c ? 2e-6 * fabs(rows[i][c]) + 1e-30 : 0), "energies: dump %zu column %zu is %s, it is %g", i, c, x[c].c_str(), rows[i][c]); } } vmc_count("states", 1); vmc_count("distinct", 1); mp_barrier(); } }
  // the global header, by key and value
  static const char* FN[12] = { "Electric Field", "Electric Field Divergence Error", "Magnetic Field", "Magnetic Field Divergence Error", "TCA Field", "Bound Charge Density", "Free Current Field", "Charge Density", "Edge Material", "Node Material", "Face Material", "Cell Material" }; static const int FE[12] = { 3, 1, 3, 1, 3, 1, 3, 1, 3, 1, 3, 1 }; static const uint32_t FM[12] = { electric, div_e_err, magnetic, div_b_err, tca, rhob, current, rhof, emat, nmat, fmat, cmat }; static const char* HN[5] = { "Current Density", "Charge Density", "Momentum Density", "Kinetic Energy Density", "Stress Tensor" }; static const int HE[5] = { 3, 1, 3, 1, 6 }; static const uint32_t HM[5] = { current_density, charge_density, momentum_density, ke_density, stress_tensor };
  for (int f = 0; f < 4096; f += vmc_par(8) ? 1 : 3) { std::vector<DumpParameters> D(1 + (f % 3 == 0 ? 1 : nsp)); std::vector<DumpParameters*> V; std::vector<std::vector<int>> sel(D.size()); for (size_t i = 0; i < D.size(); i++) { uint32_t m = 0; if (!i) { for (int k = 0; k < 12; k++) if (f >> k & 1) m |= FM[k], sel[i].push_back(k); if (f == 4095) m = all; } else { int h = (f * 7 + (int)i * 11) % 32; for (int k = 0; k < 5; k++) if (h >> k & 1) m |= HM[k], sel[i].push_back(k); if (h == 31) m = all; } D[i].output_vars = BitField(m); sprintf(D[i].baseDir, "dir%zu", i); sprintf(D[i].baseFileName, "file%zu_%d", i, f); D[i].stride_x = D[i].stride_y = D[i].stride_z = 1; D[i].format = band; V.push_back(&D[i]); }
    s->global_header("glob", V); if (world_rank) continue; auto l = split(slurp("glob.vpc")); std::vector<STR> o; for (auto& x : l) if (x.size() && x[0] != '#') o.push_back(x); size_t q = 0; auto key = [&](const char* k, std::vector<double> v, double tol) { WANT(q < o.size(), "header: %s is missing", k); auto x = words(o[q++]); WANT(x.size() == v.size() + 1 && x[0] == k, "header: '%s' where %s was expected", o[q - 1].c_str(), k); for (size_t c = 0; c < v.size(); c++) WANT(num(x[c + 1], v[c], tol), "header: %s is %s, not %g", k, x[c + 1].c_str(), v[c]); }; auto skey = [&](const char* k, const STR& v) { WANT(q < o.size() && o[q] == STR(k) + " " + v, "header: '%s' where '%s %s' was expected", q < o.size() ? o[q].c_str() : "", k, v.c_str()); q++; };
    skey("VPIC_HEADER_VERSION", "1.0.0"); key("DATA_HEADER_SIZE", { 123 }, 0); double t = 2e-6; key("GRID_DELTA_T", { g->dt }, t); key("GRID_CVAC", { g->cvac }, t); key("GRID_EPS0", { g->eps0 }, t); double ge[3][2] = { { g->x0, g->x1 }, { g->y0, g->y1 }, { g->z0, g->z1 } }; const char* ax[3] = { "X", "Y", "Z" }; for (int a = 0; a < 3; a++) { auto x = words(q < o.size() ? o[q] : ""); if (x.size() == 3 && !num(x[2], ge[a][1], t)) ge[a][1] = ge[a][0] + P[a] * (ge[a][1] - ge[a][0]); key((STR("GRID_EXTENTS_") + ax[a]).c_str(), { ge[a][0], ge[a][1] }, 4e-6); } for (int a = 0; a < 3; a++) key((STR("GRID_DELTA_") + ax[a]).c_str(), { d[a] }, t); for (int a = 0; a < 3; a++) key((STR("GRID_TOPOLOGY_") + ax[a]).c_str(), { (double)P[a] }, 0);
    for (size_t i = 0; i < D.size(); i++) { if (i == 1) key("NUM_OUTPUT_SPECIES", { D.size() - 1. }, 0); skey(i ? "SPECIES_DATA_DIRECTORY" : "FIELD_DATA_DIRECTORY", D[i].baseDir); skey(i ? "SPECIES_DATA_BASE_FILENAME" : "FIELD_DATA_BASE_FILENAME", D[i].baseFileName); key(i ? "HYDRO_DATA_VARIABLES" : "FIELD_DATA_VARIABLES", { (double)sel[i].size() }, 0); for (int k : sel[i]) { int n = i ? HE[k] : FE[k]; STR w = STR(i ? HN[k] : FN[k]); auto x = words(q < o.size() ? o[q] : ""); q++; WANT(x.size() == 5 && x[0] == w && x[1] == (n == 1 ? "SCALAR" : n == 3 ? "VECTOR" : "TENSOR") && num(x[2], n, 0) && x[3] == (!i && k > 7 ? "INTEGER" : "FLOATING_POINT") && num(x[4], !i && k > 7 ? sizeof(material_id) : 4, 0), "header: variable '%s' of data set %zu", w.c_str(), i); } } WANT(q == o.size(), "header: %zu lines too many", o.size() - q); vmc_count("states", 1); vmc_count("distinct", 1); }
  for (species_t* o = s->species_list; o; o = o->next) o->np = 0;
}
static void names() { // names of files of every length: the dump of the same state under a short name is the reference
  make_world(2); paint(s->field_array->f, g->nv * 20, 3, true); for (int v = 0; v < g->nv; v++) memset(&s->field_array->f[v].ematx, 0, 16); load_interpolator_array(s->interpolator_array, s->field_array); for (species_t* sp = s->species_list; sp; sp = sp->next) load(sp, 20, sp->id); std::vector<int> len; for (int n = 1; n < 270; n += n < 236 ? 13 : 1) len.push_back(n); for (int n : { 300, 505, 510, 511, 512, 513, 700, 1000, 1022, 1023, 1024, 1025, 2000, 2047, 2048, 3000, 4000 }) len.push_back(n); for (int n = 4074; n < 4102; n++) len.push_back(n); len.push_back(5000); STR dir; std::vector<STR> dirs(1, ""); for (int k = 0; k < 21; k++) { dir += STR(190, 'a' + k) + "/"; if (!world_rank && dir.size() < 4090) s->dump_mkdir(dir.c_str()); dirs.push_back(dir); } mp_barrier();
  for (long st : { 7L, 123456789012L }) { s->step() = st; struct K { const char* nm; std::function<void(const char*)> f; STR tail; bool all; }; STR r = fmt(".%d", world_rank), t = fmt(".%ld.%d", st, world_rank); std::vector<DumpParameters> D(2); std::vector<DumpParameters*> V; for (auto& d : D) { d.output_vars = BitField(all); strcpy(d.baseDir, "d"); strcpy(d.baseFileName, "f"); d.stride_x = d.stride_y = d.stride_z = 1; d.format = band; V.push_back(&d); }
    std::vector<K> ks = { { "dump_grid", [&](const char* n) { s->dump_grid(n); }, r, true }, { "dump_fields", [&](const char* n) { s->dump_fields(n); }, t, true }, { "dump_fields", [&](const char* n) { s->dump_fields(n, 0); }, r, true }, { "dump_hydro", [&](const char* n) { s->dump_hydro("e-", n); }, t, true }, { "dump_hydro", [&](const char* n) { s->dump_hydro("e-", n, 0); }, r, true }, { "dump_particles", [&](const char* n) { s->dump_particles("ion", n); }, t, true }, { "dump_particles", [&](const char* n) { s->dump_particles("ion", n, 0); }, r, true }, { "dump_energies", [&](const char* n) { s->dump_energies(n, 0); }, "", false }, { "dump_species", [&](const char* n) { if (!world_rank) s->dump_species(n); }, "", false }, { "dump_materials", [&](const char* n) { if (!world_rank) s->dump_materials(n); }, "", false }, { "global_header", [&](const char* n) { s->global_header(n, V); }, ".vpc", false } };
    for (auto& k : ks) { k.f("ref"); bool mine = k.all || !world_rank; STR want; if (mine) want = slurp("ref" + k.tail); for (int n : len) { size_t q = 0; while (q + 1 < dirs.size() && (int)dirs[q + 1].size() + 2 <= n && n - (int)dirs[q].size() > 180) q++; int rest = n - (int)dirs[q].size(); STR base = dirs[q] + STR(rest, 'f'), full = base + k.tail; bool fits = full.size() < 4096 && rest + k.tail.size() <= 255; if (!fits && world_size > 1) continue; bool no = false; STR keep = base; if (fits) k.f(base.c_str()); else no = refused([&] { k.f(base.c_str()); }); WANT(base == keep, "names: %s overwrites the name it was given", k.nm); vmc_count("states", 1); vmc_count("distinct", 1);
        if (!fits) { WANT(no, "names: %s to a name of %zu characters, which no file can have, is not refused", k.nm, full.size()); continue; } if (mine) { std::ifstream f(full.c_str(), std::ios::binary); WANT((bool)f, "names: %s to a name of %zu characters writes no file of that name", k.nm, full.size()); f.close(); STR got = slurp(full); WANT(got == want, "names: %s to a name of %zu characters writes other contents than to a short one", k.nm, full.size()); unlink(full.c_str()); } if (!k.all) mp_barrier(); } } }
  // the directory and the base name of gridded dumps fill their arrays
  for (int q = 0; q < 4; q++) for (long st : { 7L, 123456789012L }) { DumpParameters D; D.output_vars = BitField(all & ((1u << 14) - 1)); D.stride_x = D.stride_y = D.stride_z = 1; D.format = band; s->step() = st; STR want[2]; for (int big = 0; big < 2; big++) for (int hy = 0; hy < 2; hy++) { STR d(big && q & 1 ? 127 : 3, 'd'), f(big && q & 2 ? 127 : 3, 'f'); strcpy(D.baseDir, d.c_str()); strcpy(D.baseFileName, f.c_str()); if (!world_rank) s->dump_mkdir(d.c_str()); mp_barrier(); if (hy) s->hydro_dump("e-", D); else s->field_dump(D); STR nm = d + fmt("/T.%ld/", st) + f + fmt(".%ld.%d", st, world_rank), got = slurp(nm); if (!big) want[hy] = got; else WANT(got == want[hy], "names: a gridded dump to a long name differs"); unlink(nm.c_str()); mp_barrier(); vmc_count("states", 1); vmc_count("distinct", 1); } }
}
extern "C" void rank_main(int) { int m = (int)vmc_par(0); if (m < 2) gridded(); else if (m == 2) particles(); else if (m == 4) names(); else texts(); for (species_t* o = s->species_list; o; o = o->next) o->np = 0; s->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services(); }
