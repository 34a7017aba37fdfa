// C06: the thread dispatcher's own code, driven over boot / dispatch* / wait* / halt histories.
#include "deck.h"

enum { MAXJ=300 };
static int started[8][MAXJ], finished[8][MAXJ]; static int cur_round; static int bad; static char badmsg[256];
struct jarg { int magic, idx, round; };
static void job(jarg* a, int r, int n) {
  int want = (int)vmc_par(5) /*stride*/;
  int rd = a->round;
  if (n != (int)vmc_par(0)) { bad = 1; snprintf(badmsg, 256, "job %d told there are %d pipelines", r, n); }
  if (r < 0 || r >= n || a->magic != 0x1234 || a->idx != r * want) { bad = 1; snprintf(badmsg, 256, "job %d got the arguments of slot %d (expected %d)", r, a->idx, r * want); return; }
  started[rd][r]++;
  int spins = (int)vmc_par(4); for (int i = 0; i < spins; i++) vmc_yield();
  finished[rd][r]++;
}
static void try_wait(void*) { thread.wait(); }
static void try_halt(void*) { thread.halt(); }
static void try_disp(void* a) { thread.dispatch((pipeline_func_t)job, a, sizeof(jarg), 0); }
static void try_boot(void*) { int c = 3; char a0[] = "x", a1[] = "--tpp", a2[] = "2"; char* av[] = { a0, a1, a2, 0 }; char** p = av; thread.boot(&c, &p); }
static void job_misuse(jarg*, int r, int) { if (vmc_fiber() != 0) { if (!vmc_try(try_wait, 0)) { bad = 1; strcpy(badmsg, "a pipeline was allowed to wait"); } if (!vmc_try(try_disp, 0)) { bad = 1; strcpy(badmsg, "a pipeline was allowed to dispatch"); } } }
extern "C" void rank_main(int) {
  // par: 0 tpp, 1 dispatch_to_host, 2 rounds, 3 boots, 4 yields in a job, 5 stride, 6 misuse
  int n = (int)vmc_par(0), d2h = (int)vmc_par(1), rounds = (int)vmc_par(2), boots = (int)vmc_par(3), str = (int)vmc_par(5), misuse = (int)vmc_par(6);
  static jarg args[8][MAXJ];
  boot_checkpt(0, 0);
  vmc_tsan_mode(1);
  for (int b = 0; b < boots; b++) {
    memset(started, 0, sizeof started); memset(finished, 0, sizeof finished);
    char t0[] = "x", t1[] = "--tpp", t2[16], t3[] = "--dispatch_to_host", t4[16], t5[] = "keep"; sprintf(t2, "%d", n); sprintf(t4, "%d", d2h);
    char* av[] = { t0, t1, t2, t3, t4, t5, 0 }; int ac = 6; char** pav = av;
    if (misuse) { if (!vmc_try(try_wait, 0) || !vmc_try(try_halt, 0) || !vmc_try(try_disp, args[0])) vmc_fail("use before boot is not reported"); }
    thread.boot(&ac, &pav);
    if (ac != 2 || strcmp(av[1], "keep")) vmc_fail("boot left %d arguments", ac);
    if (thread.n_pipeline != n) vmc_fail("%d pipelines booted instead of %d", thread.n_pipeline, n);
    if (misuse) { if (!vmc_try(try_wait, 0)) vmc_fail("wait without dispatch is not reported"); if (!vmc_try(try_boot, 0)) vmc_fail("second boot is not reported"); }
    for (int r = 0; r < rounds; r++) {
      for (int i = 0; i < MAXJ; i++) { args[r][i].magic = 0x1234; args[r][i].idx = i; args[r][i].round = r; }
      cur_round = r;
      thread.dispatch((pipeline_func_t)job, args[r], sizeof(jarg), str);
      if (misuse) { if (!vmc_try(try_disp, args[r])) vmc_fail("dispatch while busy is not reported"); if (!vmc_try(try_halt, 0)) vmc_fail("halt while busy is not reported"); }
      thread.wait();
      for (int i = 0; i < n; i++) if (started[r][i] != 1 || finished[r][i] != 1) vmc_fail("after wait of dispatch %d of boot %d, job %d of %d had started %d and finished %d times", r, b, i, n, started[r][i], finished[r][i]);
      for (int i = n; i < MAXJ; i++) if (started[r][i]) vmc_fail("job %d does not exist but ran", i);
      if (bad) vmc_fail("%s", badmsg);
    }
    if (misuse) { thread.dispatch((pipeline_func_t)job_misuse, args[0], sizeof(jarg), 0); thread.wait(); thread.dispatch(0, 0, 0, 0); thread.wait(); if (bad) vmc_fail("%s", badmsg); }
    thread.halt();
    for (int r = 0; r < rounds; r++) for (int i = 0; i < n; i++) if (started[r][i] != 1) vmc_fail("job %d of dispatch %d ran %d times", i, r, started[r][i]);
    if (thread.n_pipeline != 0) vmc_fail("halt left %d pipelines", thread.n_pipeline);
  }
  vmc_tsan_mode(0);
  halt_checkpt();
}
// serial dispatcher: same contract without threads
static std::vector<int> ord;
static void sjob(jarg* a, int r, int n) { if (n != (int)vmc_par(0) || a->idx != r * (int)vmc_par(5)) bad = 1; ord.push_back(r); }
static void s_wait(void*) { serial.wait(); } static void s_disp(void* a) { serial.dispatch((pipeline_func_t)sjob, a, sizeof(jarg), 1); } static void s_halt(void*) { serial.halt(); }
extern "C" void rank_serial(int) {
  int n = (int)vmc_par(0), str = (int)vmc_par(5); static jarg args[MAXJ]; for (int i = 0; i < MAXJ; i++) args[i].idx = i;
  char t0[] = "x", t1[] = "--serial.n_pipeline", t2[16]; sprintf(t2, "%d", n); char* av[] = { t0, t1, t2, 0 }; int ac = 3; char** p = av;
  bad = 0; boot_checkpt(0, 0);
  if (!vmc_try(s_wait, 0) || !vmc_try(s_disp, args) || !vmc_try(s_halt, 0)) vmc_fail("serial: use before boot is not reported");
  serial.boot(&ac, &p);
  if (serial.n_pipeline != n) vmc_fail("serial: %d pipelines", serial.n_pipeline);
  for (int k = 0; k < 2; k++) {
    ord.clear(); if (!vmc_try(s_wait, 0)) vmc_fail("serial: wait without dispatch is not reported");
    serial.dispatch((pipeline_func_t)sjob, args, sizeof(jarg), str);
    if (!vmc_try(s_disp, args)) vmc_fail("serial: dispatch while busy is not reported");
    serial.wait(); if (bad) vmc_fail("serial: wrong job arguments");
    std::vector<int> c(n, 0); for (int x : ord) if (x >= 0 && x < n) c[x]++; for (int i = 0; i < n; i++) if (c[i] != 1) vmc_fail("serial: job %d ran %d times", i, c[i]);
    if ((int)ord.size() != n) vmc_fail("serial: %d jobs ran", (int)ord.size());
  }
  serial.halt(); if (serial.n_pipeline) vmc_fail("serial: halt left pipelines"); halt_checkpt();
}
