// C07: the real deck/main.cc runs a rich deck; the digest of every step is emitted; checkpoints are written after the steps asked for.
#define DECK_MAIN
#include "deck.h"
#include "rich.h"
void checkpt(const char*, int);
static int mode, stop_at, writes; static std::string wbase;
extern "C" void rank_main(int) {
  // par: bits, px,py,pz, nx,ny,nz, last step, steps at which to write (mask); spar: base name of checkpoints
  RC.bits = (int)vmc_par(0); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(1 + a); RC.n[a] = (int)vmc_par(4 + a); } stop_at = (int)vmc_par(7); writes = (int)vmc_par(8); wbase = vmc_spar(0);
  HK = Hooks(); rich_hooks();
  HK.diag = [](VS* s) { int k = (int)s->step() - 3; std::vector<double> d = rich_digest(s); char t[32]; sprintf(t, "t%d", k); vmc_emit(t, d.data(), d.size()); s->num_step = 3 + stop_at; if (writes >> k & 1) { std::string b = wbase.c_str(); checkpt(b.c_str(), k); for (char& c : b) c = 0; } };
  deck_main(vmc_argc(), vmc_argv());
}
