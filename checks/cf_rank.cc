// C08: writes or restores checkpoints of a rich deck through the real deck/main.cc while one rank's file operations fail.
#define DECK_MAIN
#include "deck.h"
#include "rich.h"
void checkpt(const char*, int);
static int stop_at, wstep; static std::string wbase;
extern "C" void rank_main(int rank) {
  // par: bits, p[3], n[3], last step, step at which to write (-1 none), faulty rank, mode, position, xor low, xor high, faulty restore; spar: base
  RC.bits = (int)vmc_par(0); for (int a = 0; a < 3; a++) { RC.p[a] = (int)vmc_par(1 + a); RC.n[a] = (int)vmc_par(4 + a); } stop_at = (int)vmc_par(7); wstep = (int)vmc_par(8); wbase = vmc_spar(0);
  HK = Hooks(); rich_hooks(); bool mine = rank == (int)vmc_par(9), rest = vmc_par(14) != 0;
  HK.diag = [mine, rest](VS* s) { int k = (int)s->step() - 3; s->num_step = 3 + stop_at; if (rest) { vmc_emit1("ran", k); vmc_emit1("tripped", vmc_disk_tripped()); }
    if (k == wstep) { if (mine && !rest) vmc_disk_limit((long long)vmc_par(11), (int)vmc_par(10)); checkpt(wbase.c_str(), k); vmc_emit1("survived", vmc_disk_tripped()); vmc_disk_limit(-1, 0); } };
  if (mine && rest) { vmc_disk_xor((unsigned long long)vmc_par(12) | (unsigned long long)vmc_par(13) << 32); vmc_disk_limit((long long)vmc_par(11), (int)vmc_par(10)); }
  deck_main(vmc_argc(), vmc_argv());
  vmc_emit1("finished", 1);
}
