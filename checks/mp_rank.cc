// C09: complete parallel runs (rich deck, every dump) and turnstiles; everything a run produces is emitted.
#define DECK_MAIN
#include "deck.h"
#include "rich.h"
void checkpt(const char*, int);
static int last, dumps;
static void file_hash(const char* what, const char* name, int skip = 0) { FILE* f = fopen(name, "rb"); if (!f) vmc_fail("file: %s was not written", name); std::vector<char> b; int c; while ((c = fgetc(f)) != EOF) b.push_back((char)c); fclose(f); vmc_emit1(what, (double)b.size()); vmc_emit1(what, dig(b.data() + skip, b.size() - skip)); }
extern "C" void rank_main(int) {
  int mode = (int)vmc_par(0);
  if (mode == 0) {
    RC.bits = (int)vmc_par(1); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(2 + a); RC.n[a] = (int)vmc_par(5 + a); } last = (int)vmc_par(8); dumps = (int)vmc_par(9);
    HK = Hooks(); rich_hooks();
    HK.diag = [](VS* s) { int k = (int)s->step() - 3; s->num_step = 3 + last;
      if (dumps) { s->dump_energies("en", k); s->dump_grid("gr"); s->dump_fields("fl"); if (s->species_list) { s->dump_hydro("electron", "hy"); s->dump_particles("electron", "pa"); } s->dump_species("sp"); s->dump_materials("ma");
        DumpParameters d; d.stride_x = d.stride_y = d.stride_z = 1; d.format = band; sprintf(d.baseDir, "fd"); sprintf(d.baseFileName, "fd"); d.output_vars = BitField(electric | magnetic); s->dump_mkdir("fd"); s->field_dump(d); }
      if (dumps == 2) checkpt("ck", k);
      std::vector<double> d = rich_digest(s); char t[32]; sprintf(t, "t%d", k); vmc_emit(t, d.data(), d.size());
      if (dumps) { char n[96]; mp_barrier(); if (world_rank == 0) file_hash("energies file", "en"); const char* f[] = { "gr", "fl" }; for (int q = 0; q < 2; q++) { if (q == 0) sprintf(n, "gr.%d", world_rank); else sprintf(n, "%s.%d.%d", f[q], (int)s->step(), world_rank); file_hash(q ? "field file" : "grid file", n); } } };
    deck_main(vmc_argc(), vmc_argv()); return; }
  // turnstile of width par 1
  boot_all(); int w = (int)vmc_par(1); long* m = vmc_shared(); int seen = 0; 
  for (int q = 0; q < (int)vmc_par(3); q++) { BEGIN_TURNSTILE(w) { m[q]++; if (m[q] > w) vmc_fail("turnstile: %ld ranks are inside a turnstile for %d", m[q], w); vmc_yield(); vmc_yield(); m[q]--; m[32 + q]++; seen++; } END_TURNSTILE; }
  mp_barrier(); for (int q = 0; q < (int)vmc_par(3); q++) if (m[32 + q] != world_size || seen != (int)vmc_par(3)) vmc_fail("turnstile: %ld of %d ranks passed", m[32 + q], world_size);
  halt_services();
}
