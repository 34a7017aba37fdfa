// C27: files hold what was written to them, and a write that fails is reported.
#include "deck.h"
#include "util/io/FileUtils.h"
#include <unistd.h>
#include <dirent.h>
#include <fcntl.h>
static long nst, ntr;
#define WANT(c, ...) do { ntr++; if (!(c)) vmc_fail(__VA_ARGS__); } while (0)
typedef std::string STR;
static VS* s; static grid_t* g;
static bool refused(std::function<void()> f) { return vmc_try([](void* p) { (*(std::function<void()>*)p)(); }, &f) == 1; }
static STR fmt(const char* f, ...) { char b[512]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
static bool slurp(const STR& n, STR& o) { o.clear(); int fd = open(n.c_str(), O_RDONLY); if (fd < 0) return false; char b[65536]; ssize_t r; while ((r = read(fd, b, sizeof b)) > 0) o.append(b, r); close(fd); return true; }
static void spit(const STR& n, const STR& c) { int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size()) vmc_fail("harness: cannot write %s", n.c_str()); close(fd); }
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }
// ------------------------------------------------------------------ a file as a vector of bytes
static const char* const MN[6] = { "read", "read_write", "write", "write_read", "append", "append_read" }; static const FileIOMode MODE[6] = { io_read, io_read_write, io_write, io_write_read, io_append, io_append_read };
static const char* const ON[] = { "write 3 bytes", "write 2 ints", "write nothing", "print", "print a lot", "read 2 bytes", "read 2 shorts", "read beyond the end", "seek 0", "seek 3", "seek end", "seek end-2", "seek on by 1", "seek back by 2", "rewind", "tell", "size", "flush", "close and open again", "seek beyond the end" }; enum { NOP = 20 };
struct Model { STR c; long pos; bool rd, wr, app; int last; }; // last: 0 nothing, 1 wrote, 2 read
static bool legal(const Model& m, int op) { bool w = op <= 4, r = op >= 5 && op <= 7; if (w && (!m.wr || m.last == 2)) return false; if (r && (!m.rd || m.last == 1)) return false; return true; }
static STR text(int op, int k) { if (op == 0) return fmt("%c%c\n", 'a' + k, 0) .substr(0, 1) + STR("\0\n", 2); if (op == 1) { int v[2] = { 0x01020300 + k, -k }; return STR((char*)v, 8); } if (op == 2) return ""; if (op == 3) return fmt("%d %s %5.2f\n", -k, "x", 1.5 * k); STR t; for (int i = 0; i < 6000; i++) t += (char)('A' + (i + k) % 26); return t; }
static void apply(FileIO& f, Model& m, int op, int k, const STR& who) {
  if (op <= 4) { STR t = text(op, k); size_t n = 0, want = 0; if (op == 0) n = f.write(t.data(), want = 3); else if (op == 1) { int v[2]; memcpy(v, t.data(), 8); n = f.write(v, want = 2); } else if (op == 2) { double d = 0; n = f.write(&d, want = 0); } else if (op == 3) f.print("%d %s %5.2f\n", -k, "x", 1.5 * k); else f.print("%s", t.c_str()); if (op < 3) WANT(n == want, "write: %s: %zu elements reported written, not %zu", who.c_str(), n, want);
    if (m.app && t.size()) m.pos = m.c.size(); if (t.size()) { if ((long)m.c.size() < m.pos) m.c.resize(m.pos); m.c.replace(m.pos, std::min<size_t>(t.size(), m.c.size() - m.pos), t); m.pos += t.size(); } m.last = 1; return; }
  if (op <= 7) { char b[8192]; memset(b, 0x5a, sizeof b); size_t es = op == 6 ? 2 : 1, ask = op == 7 ? 8000 : 2, n = op == 6 ? f.read((short*)b, ask) : f.read(b, ask); long av = std::max(0L, (long)m.c.size() - m.pos), take = std::min<long>(av, ask * es); WANT(n == take / es, "read: %s: %zu elements read, not %ld", who.c_str(), n, take / (long)es); WANT(!memcmp(b, m.c.data() + std::min<long>(m.pos, m.c.size()), n * es), "read: %s: other bytes than those in the file", who.c_str()); for (size_t i = ask * es; i < sizeof b; i++) if (b[i] != 0x5a) vmc_fail("read: %s: wrote beyond the buffer", who.c_str()); m.pos += take; m.last = 2; return; }
  long to = -1; int64_t r = 0; switch (op) { case 8: to = 0; r = f.seek(0, SEEK_SET); break; case 9: to = 3; r = f.seek(3, SEEK_SET); break; case 10: to = m.c.size(); r = f.seek(0, SEEK_END); break; case 11: to = (long)m.c.size() - 2; r = f.seek((uint64_t)-2, SEEK_END); break; case 12: to = m.pos + 1; r = f.seek(1, SEEK_CUR); break; case 13: to = m.pos - 2; r = f.seek((uint64_t)-2, SEEK_CUR); break; case 14: to = 0; f.rewind(); break; case 19: to = m.c.size() + 4; r = f.seek(to, SEEK_SET); break; }
  if (op <= 14 || op == 19) { bool ok = to >= 0; WANT((r == 0) == ok, "seek: %s: returned %ld", who.c_str(), (long)r); if (ok) m.pos = to, m.last = 0; return; }
  if (op == 15) { long t = f.tell(); WANT(t == m.pos, "tell: %s: position %ld, not %ld", who.c_str(), t, m.pos); return; }
  if (op == 16) { long t = f.size(); WANT(t == (long)m.c.size(), "size: %s: %ld bytes, not %zu", who.c_str(), t, m.c.size()); m.last = 0; return; }
  if (op == 17) { if (m.last != 2) f.flush(), m.last = 0; return; }
}
static void histories() { // par 1 mode, 2 depth, 3 first op of the slice, 4 slices
  int mode = (int)vmc_par(1), depth = (int)vmc_par(2); const STR init[3] = { "", "0123456789", "#" }; bool rd = mode == 0 || mode == 1 || mode == 3 || mode == 5, wr = mode != 0, app = mode >= 4; long tot = 1; for (int i = 0; i < depth; i++) tot *= NOP;
  for (int ini = -1; ini < 2; ini++) { long c0 = 0; for (long c = c0; c < tot; c++) { if (c / (tot / NOP) % (long)vmc_par(4) != (long)vmc_par(3)) continue; int ops[8]; long x = c; for (int d = depth - 1; d >= 0; d--) ops[d] = (int)(x % NOP), x /= NOP;
      STR who = fmt("mode %s, file %s:", MN[mode], ini < 0 ? "absent" : ini ? "of 10 bytes" : "empty"); if (ini < 0) unlink("f"); else spit("f", init[ini]);
      alignas(16) static char raw[sizeof(FileIO)]; memset(raw, 0x5b, sizeof raw); FileIO& f = *new (raw) FileIO; WANT(!f.isOpen(), "open: a file object that was never opened says it is open"); FileIOStatus st = f.open("f", MODE[mode]); bool must = !(ini < 0 && mode < 2); WANT((st == ok) == must, "open: %s open %s", who.c_str(), st == ok ? "succeeded" : "failed"); if (!must) { WANT(!f.isOpen(), "open: %s failed and says it is open", who.c_str()); nst++; ntr++; c = tot; break; }
      WANT(f.isOpen(), "open: %s not open", who.c_str()); Model m; m.c = mode == 2 || mode == 3 || ini < 0 ? "" : init[ini]; m.pos = mode == 4 ? m.c.size() : 0; m.rd = rd; m.wr = wr; m.app = app; m.last = 0; bool skip = false; int d;
      for (d = 0; d < depth; d++) { if (!legal(m, ops[d])) { skip = true; break; } who += fmt(" %s;", ON[ops[d]]); if (ops[d] == 18) { WANT(f.close() == 0, "close: %s failed", who.c_str()); WANT(!f.isOpen(), "close: %s still open", who.c_str()); STR got; slurp("f", got); WANT(got == m.c, "content: %s the file holds %zu bytes, not the %zu that were written (or others)", who.c_str(), got.size(), m.c.size()); WANT(f.open("f", MODE[mode]) == ok, "open: %s failed again", who.c_str()); if (mode == 2 || mode == 3) m.c = ""; m.pos = mode == 4 ? m.c.size() : 0; m.last = 0; } else { apply(f, m, ops[d], d, who); if (ops[d] == 17) { STR got; slurp("f", got); WANT(got == m.c, "flush: %s the file holds %zu bytes, not %zu (or others)", who.c_str(), got.size(), m.c.size()); } } }
      WANT(f.close() == 0, "close: %s failed", who.c_str()); WANT(!f.isOpen(), "close: %s still open", who.c_str()); STR got; slurp("f", got); WANT(got == m.c, "content: %s the file holds %zu bytes, not the %zu that were written (or others)", who.c_str(), got.size(), m.c.size()); nst++;
      if (skip) { long step = 1; for (int i = d + 1; i < depth; i++) step *= NOP; c = (c / step + 1) * step - 1; } } }
  FileIO f; WANT(f.open("nodir/f", MODE[mode]) == fail && !f.isOpen(), "open: a file in a missing directory was opened"); unlink("f");
}
// ------------------------------------------------------------------ direct faults on the file object
static void small() {
  // every mode x every limit x a few patterns of writes: close must not return 0 unless everything arrived
  for (int md = 1; md < 6; md++) for (int pat = 0; pat < 6; pat++) { static const int SZ[6][5] = { { 3, 0, 0, 0, 0 }, { 5, 7, 0, 0, 0 }, { 5000, 3, 0, 0, 0 }, { 3, 9000, 0, 0, 0 }, { 100, 20000, 100, 0, 0 }, { 4000, 4000, 4000, 4000, 0 } }; long tot = 0; for (int k = 0; k < 5; k++) tot += SZ[pat][k];
      for (int fm = 0; fm < 3; fm++) for (long lim = 0; lim <= tot; lim += tot < 30 ? 1 : (lim < 40 || tot - lim < 40 || lim % 4096 < 2 || lim % 4096 > 4093) ? 1 : 17) { if (fm == 2 && lim) break; spit("f", md == 1 ? STR(tot, '.') : STR()); STR want; FileIO f; if (f.open("f", MODE[md]) != ok) vmc_fail("open: %s", MN[md]); vmc_disk_limit(lim, fm); bool told = false; for (int k = 0; k < 5 && SZ[pat][k]; k++) { STR t(SZ[pat][k], 'a' + k); want += t; if (k == 1 && pat < 4) f.print("%s", t.c_str()); else if (f.write(t.data(), t.size()) != t.size()) told = true; } int cl = f.close(); bool trip = vmc_disk_tripped(); vmc_disk_limit(-1, 0); STR got; slurp("f", got); nst++;
          WANT(trip || (!cl && !told && got == want), "fault: no fault in mode %s pattern %d, but %s", MN[md], pat, cl ? "close failed" : told ? "a write failed" : "the content differs"); WANT(!(trip && fm == 2) || cl, "close: mode %s pattern %d: the disk's failure to close is not returned", MN[md], pat); WANT(cl || got == want, "lost: mode %s, writes %d %d %d, %s after %ld bytes: close reports success and the file holds %zu of %zu bytes", MN[md], SZ[pat][0], SZ[pat][1], SZ[pat][2], fm ? "one write fails" : "disk full", lim, got.size(), want.size()); } }
}
// ------------------------------------------------------------------ dumps
static void make_world() {
  int L[3]; for (int a = 0; a < 3; a++) L[a] = (int)vmc_par(4 + a); boot_all(); HK = Hooks(); simulation = s = new vpic_simulation(); s->define_units(1.25, 0.8); s->define_timestep(0.21875); s->verbose = 0; s->define_periodic_grid(-1, 2, 0.5, -1 + 0.5 * L[0] * world_size, 2 + 0.625 * L[1], 0.5 + 0.75 * L[2], L[0] * world_size, L[1], L[2], world_size, 1, 1); g = s->grid; s->define_material("vacuum", 1); for (int m = 1; m < 4; m++) s->define_material(fmt("mat%d", m).c_str(), 1 + m); s->define_field_array(NULL, 0); s->define_species("ion", 2, 1, 400, 40, 0, 0); s->define_species("e-", -1.5, 1, 400, 40, 0, 0); s->seed_entropy(5);
  for (int v = 0; v < g->nv; v++) for (int q = 0; q < 16; q++) ((float*)&s->field_array->f[v])[q] = (float)(0.1 * hval(50, v, q)); load_interpolator_array(s->interpolator_array, s->field_array);
  for (species_t* sp = s->species_list; sp; sp = sp->next) { sp->np = 300; for (int q = 0; q < sp->np; q++) { particle_t& p = sp->p[q]; memset(&p, 0, sizeof p); p.dx = (float)hval(1, q, sp->id); p.dy = (float)hval(2, q, sp->id); p.i = VOXEL(1 + q % g->nx, 1, 1, g->nx, g->ny, g->nz); p.ux = (float)hval(4, q, sp->id); p.w = 1; } }
}
static DumpParameters DP(const STR& dir, DumpFormat fo) { DumpParameters D; strcpy(D.baseDir, dir.c_str()); strcpy(D.baseFileName, "b"); D.stride_x = D.stride_y = D.stride_z = 1; D.format = fo; D.output_vars = BitField(all); return D; }
struct Kind { const char* name; std::function<void(const STR&)> run; const char* file; }; // the directory to write into; the file written there
static std::vector<Kind> kinds() { std::vector<Kind> k; 
  k.push_back({ "dump_energies, begun", [](const STR& d) { s->dump_energies((d + "/en").c_str(), 0); }, "en" }); k.push_back({ "dump_energies, continued", [](const STR& d) { s->dump_energies((d + "/en").c_str()); }, "en" });
  k.push_back({ "dump_species", [](const STR& d) { s->dump_species((d + "/sp").c_str()); }, "sp" }); k.push_back({ "dump_materials", [](const STR& d) { s->dump_materials((d + "/ma").c_str()); }, "ma" });
  k.push_back({ "dump_grid", [](const STR& d) { s->dump_grid((d + "/gr").c_str()); }, "gr.0" }); k.push_back({ "dump_fields", [](const STR& d) { s->dump_fields((d + "/fi").c_str(), 0); }, "fi.0" });
  k.push_back({ "dump_hydro", [](const STR& d) { s->dump_hydro("e-", (d + "/hy").c_str(), 0); }, "hy.0" }); k.push_back({ "dump_particles", [](const STR& d) { s->dump_particles("ion", (d + "/pa").c_str(), 0); }, "pa.0" });
  k.push_back({ "global_header", [](const STR& d) { DumpParameters F = DP("d", band), H = DP("d", band); std::vector<DumpParameters*> v = { &F, &H, &H }; s->global_header((d + "/gh").c_str(), v); }, "gh.vpc" });
  for (int fo = 0; fo < 2; fo++) { DumpFormat f = fo ? band_interleave : band; k.push_back({ fo ? "field_dump, interleaved" : "field_dump, banded", [f](const STR& d) { DumpParameters D = DP(d, f); s->field_dump(D); }, "T.0/b.0.0" }); k.push_back({ fo ? "hydro_dump, interleaved" : "hydro_dump, banded", [f](const STR& d) { DumpParameters D = DP(d, f); s->hydro_dump("e-", D); }, "T.0/b.0.0" });
    k.push_back({ fo ? "field_dump, interleaved, every other point" : "field_dump, banded, every other point", [f](const STR& d) { DumpParameters D = DP(d, f); D.stride_x = 2; s->field_dump(D); }, "T.0/b.0.0" }); k.push_back({ fo ? "hydro_dump, interleaved, every other point" : "hydro_dump, banded, every other point", [f](const STR& d) { DumpParameters D = DP(d, f); D.stride_x = 2; s->hydro_dump("e-", D); }, "T.0/b.0.0" }); }
  return k; }
static void dumps() { // par 1: kind, 2: every byte, 3: the rank whose disk fails
  make_world(); std::vector<Kind> K = kinds(); int ki = (int)vmc_par(1), bad = (int)vmc_par(3); bool many = world_size > 1; if (ki >= (int)K.size()) vmc_fail("harness: kind"); Kind& k = K[ki]; STR name = k.file; if (name[name.size() - 1] == '0' && name[name.size() - 2] == '.') name = name.substr(0, name.size() - 1) + fmt("%d", world_rank); STR file = "o/" + name, before = ki == 1 ? STR("already here\n") : STR(300000, '!'), ref; if (!world_rank) s->dump_mkdir("o"); mp_barrier();
  auto setup = [&] { if (many) { mp_barrier(); if (name == k.file && world_rank && ki < 4) return; } if (ki == 1) spit(file, before); else unlink(file.c_str()); if (many) mp_barrier(); }; setup(); if (refused([&] { k.run("o"); })) vmc_fail("refused: %s with nothing wrong", k.name); if (!slurp(file, ref)) vmc_fail("file: %s did not write %s", k.name, file.c_str()); if (many) mp_barrier();
  // an old, longer file is replaced (or continued)
  if (ki != 1) { spit(file, before); k.run("o"); STR got; slurp(file, got); WANT(got == ref, "replace: %s over an older file leaves %zu bytes instead of %zu (or others)", k.name, got.size(), ref.size()); } else WANT(ref.compare(0, before.size(), before) == 0, "append: the older part of the file is gone");
  if (!many || ki > 3) WANT(refused([&] { k.run("nodir"); }), "open: %s into a missing directory is not reported", k.name); nst += 2; long fresh = ref.size() - (ki == 1 ? before.size() : 0); if (many) { long* sh = vmc_shared(); mp_barrier(); if (world_rank == bad) sh[0] = fresh; mp_barrier(); fresh = sh[0]; } int n0 = nfds(); bool full = vmc_par(2) != 0;
  for (int fm = 0; fm < 3; fm++) for (long lim = 0; lim <= fresh; lim++) { if (fm == 2 && lim) break; if (!full && fresh > 3000 && lim > 300 && fresh - lim > 300 && lim % 4096 > 40 && lim % 4096 < 4056 && lim % 13) continue; if (many && lim % 97 && lim > 3 && fresh - lim > 3) continue; setup(); if (world_rank == bad) vmc_disk_limit(lim, fm); bool r = refused([&] { k.run("o"); }); bool trip = vmc_disk_tripped(); vmc_disk_limit(-1, 0); STR got; bool there = slurp(file, got); nst++; vmc_log_clear();
      WANT(trip || (!r && got == ref), "fault: %s: no fault within %ld bytes, but %s", k.name, lim, r ? "an error is raised" : "the content differs"); WANT(!(fm == 2 && trip) || r, "close: %s: the disk's failure to close the file is not reported", k.name); WANT(r || (there && got == ref), "lost: %s, %s after %ld of %ld bytes: the dump reports success and the file holds %zu of %zu bytes", k.name, fm ? "one write fails" : "disk full", lim, fresh, got.size(), ref.size()); if (nst % 64 == 0 && nfds() > n0 + 400) vmc_fail("descriptors: %s leaves its files open", k.name); }
  mp_barrier(); for (species_t* o = s->species_list; o; o = o->next) o->np = 0; s->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services();
}
// ------------------------------------------------------------------ sets of bits, directories
static void bits() {
  std::vector<uint32_t> V; for (uint32_t b = 0; b < 256; b++) { V.push_back(b); V.push_back(b << 12); V.push_back(b << 24); V.push_back(~b); } for (int i = 0; i < 32; i++) { V.push_back(1u << i); V.push_back(~(1u << i)); V.push_back((1u << i) - 1); }
  for (uint32_t v : V) { BitField b(v); nst++; size_t sum = 0; for (int i = 0; i < 32; i++) { bool w = v >> i & 1; sum += w; WANT(b.bitset(i) == w, "bits: bit %d of %#x", i, v); WANT(b.bitclear(i) == !w, "bits: bit %d of %#x clear", i, v); BitField x(b), y(b); WANT(x.setibit(i) == (v | 1u << i) && y.clearbit(i) == (v & ~(1u << i)) && x.bitset(i) && y.bitclear(i), "bits: setting or clearing bit %d of %#x", i, v); WANT(b.bitset(i) == w, "bits: a copy is not independent"); } WANT(b.bitsum() == sum, "bits: sum of %#x", v); size_t ix[32], part = 0; int n = 0; for (int i = 0; i < 32; i += 1 + (v >> i & 1)) ix[n++] = i, part += v >> i & 1; WANT(b.bitsum(ix, n) == part, "bits: sum of some bits of %#x", v);
    for (size_t q = 0; q < V.size(); q += 3) { uint32_t m = V[q]; BitField x(v), y(v); WANT(x.set(m) == (v | m) && y.clear(m) == (v & ~m), "bits: mask %#x of %#x", m, v); WANT(b.bitsset(m) == ((v & m) == m), "bits: whether the bits of mask %#x are set in %#x", m, v); nst++; } }
  BitField d; WANT(d.bitsum() == 32, "bits: default");
  char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) vmc_fail("harness: getcwd"); size_t n = strlen(cwd); make_world(); for (size_t z = 1; z <= n + 3; z++) { std::vector<char> b(n + 8, '~'); int r = s->dump_cwd(b.data(), z); nst++; WANT((r == 0) == (z > n), "cwd: a buffer of %zu for a path of %zu: %d", z, n, r); for (size_t i = z; i < b.size(); i++) WANT(b[i] == '~', "cwd: wrote beyond a buffer of %zu", z); if (z > n) WANT(!strcmp(b.data(), cwd), "cwd: '%s'", b.data()); }
  WANT(s->dump_mkdir("nd") == 0, "mkdir: failed"); WANT(s->dump_mkdir("nd") != 0, "mkdir: an existing directory is no news"); WANT(s->dump_mkdir("no/nd") != 0, "mkdir: under a missing directory"); WANT(s->dump_mkdir("nd/x") == 0 && access("nd/x", R_OK | W_OK | X_OK) == 0, "mkdir: not usable"); s->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services();
}
extern "C" void rank_main(int) { int m = (int)vmc_par(0); if (m == 0) histories(); else if (m == 1) small(); else if (m == 2) dumps(); else bits(); vmc_count("states", nst); vmc_count("transitions", ntr); vmc_count("distinct", nst); }
