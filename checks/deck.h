// The "input deck" of every scenario: user callbacks that forward to hooks, and a few helpers.
#ifndef CHECK_DECK_H
#define CHECK_DECK_H
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <iostream>
#include <fstream>
#include <sstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#define private public
#define protected public
#include "vpic/vpic.h"
#undef private
#undef protected
#include "emitter/emitter.h"
#include "boundary/boundary.h"
typedef vpic_simulation VS;
typedef std::vector<double> VD;
struct Hooks { std::function<void(VS*)> init, diag, pinj, jinj, finj, coll; };
static Hooks HK;
static std::vector<std::string> U_ARGV; // what the deck was given
void vpic_simulation::user_initialization(int argc, char** argv) { U_ARGV.clear(); if (argv) U_ARGV.assign(argv, argv + argc); if (argv && argv[argc]) U_ARGV.push_back("(not terminated)"); if (HK.init) HK.init(this); }
void vpic_simulation::user_diagnostics(void) { if (HK.diag) HK.diag(this); }
void vpic_simulation::user_particle_injection(void) { if (HK.pinj) HK.pinj(this); }
void vpic_simulation::user_current_injection(void) { if (HK.jinj) HK.jinj(this); }
void vpic_simulation::user_field_injection(void) { if (HK.finj) HK.finj(this); }
void vpic_simulation::user_particle_collisions(void) { if (HK.coll) HK.coll(this); }
#ifdef DECK_MAIN
# define main deck_main
# include "deck/main.cc"
# undef main
#else
vpic_simulation* simulation = NULL;
void checkpt_main(vpic_simulation** _s) { CHECKPT_PTR(simulation); }
vpic_simulation** restore_main(void) { RESTORE_PTR(simulation); return &simulation; }
#endif
static void (*after_boot)() = NULL;
static void boot_all() { static int ac; static char** av; ac = vmc_argc(); av = vmc_argv(); boot_services(&ac, &av); if (after_boot) after_boot(); }
static VS* boot_sim(std::function<void(VS*)> init) { boot_all(); HK = Hooks(); HK.init = init; simulation = new vpic_simulation(); return simulation; }
static void end_sim() { simulation->finalize(); delete simulation; simulation = NULL; HK = Hooks(); halt_services(); }
#include "hv.h"
#if defined(VPIC_USE_PTHREADS)
# define PIPE_N (thread.n_pipeline)
#else
# define PIPE_N (omp_helper.n_pipeline)
#endif
#endif
