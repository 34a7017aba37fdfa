// Host-side interface: libraries under test, runs, exploration, reporting.
#ifndef VMC_HOST_H
#define VMC_HOST_H
#include <stdint.h>
#include <stdio.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include "vmc.h"
typedef std::vector<double> VD;
typedef std::string S;

enum { RUN_OK=0, RUN_FAIL=1, RUN_ERROR=2, RUN_DEADLOCK=3, RUN_LIVELOCK=4, RUN_CRASH=5, RUN_TIMEOUT=6 };
const char* run_status_name(int s);

struct Choice { uint16_t n, k; uint8_t cost; };          // cost of taking an alternative other than 0
struct Spec {
  S id;                         // case identifier (stable, printable)
  int lib = 0;                  // which library
  int nranks = 1;
  std::vector<S> argv;          // argv[1..]
  VD par; std::vector<S> spar;
  int sched = 0;                // 0 deterministic, 1 explored
  int points = 0;               // preemption points: 1 pthread ops, 2 instrumented accesses, 4 MPI calls
  int order = 0;                // deterministic: 0 round robin up, 1 round robin down, 2 eager switch on wake
  int xfer = 0;                 // message transfer: 0 early, 1 late, 2 explored
  int blockcost = 0; // cost of continuing with another than the first runnable one when the current one blocks
  int spurious = 0;             // explore spurious wakeups
  int perturb = 0xA7;           // fill byte for fresh memory
  int guard = 0;                // put every allocation against an inaccessible page
  bool dir = false;             // run in a fresh scratch directory (removed afterwards)
  S usedir; bool cont=false; /* go on in the same process after a run that ended in an error */                     // run in this directory
  double timeout = 60;
  long maxsteps = 20000000;
  std::vector<uint16_t> prefix;
};
struct Run {
  int status = 0; S msg, log;
  std::vector<std::map<S,VD> > blob; std::vector<std::map<S,S> > bytes;
  std::map<S,double> counts;
  std::vector<Choice> trace;
  long steps = 0; int pending = 0;
  const VD& b(int r, const S& k) const { static VD e; auto it = blob[r].find(k); return it==blob[r].end()? e : it->second; }
  bool has(int r, const S& k) const { return blob[r].count(k)>0; }
  double c(const S&k) const { auto it=counts.find(k); return it==counts.end()?0:it->second; }
  uint64_t hash() const;
};
int  load_lib(const S& path, int ncopies, const char* entry="rank_main");   // returns lib index
Run  run_one(const Spec&);
// Runs all, up to `jobs` at a time; `batch` specs per process.  cb in arbitrary order unless ordered.
void run_all(const std::vector<Spec>&, std::function<void(const Spec&, Run&)> cb, int batch=1, int jobs=0);
struct XStats { long runs=0, steps=0, maxchoices=0; bool complete=true; std::set<uint64_t> outcomes; std::map<int,long> bycost; };
// All executions of `base` whose summed deviation cost is at most `bound`. cb returns false to stop.
void explore(const Spec& base, int bound, long maxruns, XStats& st, std::function<bool(const Spec&, Run&)> cb, int batch=16, double maxsec=1e9);

// ---- reporting
struct Args { S prop, tier, only, evidence, known, replays; std::vector<S> libs, cfgs; int seed=1; bool thorough=false, verbose=false; S scratch; };
extern Args A;
void vmc_host_init(int argc, char** argv);   // parses --prop --tier --lib cfg=path ... loads nothing
bool want(const S& caseid);
void violation(const S& key, const S& text, const Spec* sp=nullptr);  // reports unless listed as known; continues
struct Evidence {
  double states=0, transitions=0, traces=0, evaluations=0; std::vector<S> samples, assumptions; std::map<S,S> extra; S rule; bool exhaustive=true;
  std::set<uint64_t> distinct;
  void sample(const S&s,size_t max=8){ if(samples.size()<max) samples.push_back(s); }
  void put(const S&k,double v); void puts(const S&k,const S&v);
};
extern Evidence E;
int finish();                                 // writes evidence, prints summary, returns exit code
S fmt(const char*f,...) __attribute__((format(printf,1,2)));
uint64_t fnv(const void*p,size_t n,uint64_t h=1469598103934665603ull);
double now();
S make_scratch(const char* tag);
void remove_tree(const S&);
S read_file(const S&path);
#endif
