#include <sys/resource.h>
#include <link.h>
// Controlled runtime: fibers (MPI ranks, pipeline threads, OpenMP teams), simulated MPI, pthread and GOMP
// stand-ins, fault-injecting file streams, instrumented-access hooks, and the stateless explorer.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "host.h"
#include "mpi.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <poll.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <unordered_map>

S fmt(const char*f,...){ va_list a; va_start(a,f); char*p=0; int n=vasprintf(&p,f,a); va_end(a); S s(p,n<0?0:n); free(p); return s; }
uint64_t fnv(const void*p,size_t n,uint64_t h){ const unsigned char*c=(const unsigned char*)p; for(size_t i=0;i<n;i++){h^=c[i];h*=1099511628211ull;} return h; }
double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
const char* run_status_name(int s){ static const char*n[]={"ok","property-failure","unexpected ERROR","deadlock","livelock","crash","timeout"}; return s>=0&&s<7?n[s]:"?"; }
S read_file(const S&p){ S r; FILE*f=fopen(p.c_str(),"r"); if(!f) return r; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) r.append(b,n); fclose(f); return r; }

// ------------------------------------------------------------------ libraries
struct Lib { std::vector<void*> h; std::vector<void(*)(int)> entry; };
static std::vector<Lib> g_libs;
static S g_scratch; static pid_t g_owner;
void remove_tree(const S& d){
  DIR*D=opendir(d.c_str()); if(!D){ return; }
  while(dirent*e=readdir(D)){ S n=e->d_name; if(n=="."||n=="..") continue; S p=d+"/"+n; struct stat st; if(lstat(p.c_str(),&st)) continue;
    if(S_ISDIR(st.st_mode)) remove_tree(p); else unlink(p.c_str()); }
  closedir(D); rmdir(d.c_str());
}
S make_scratch(const char*tag){
  static int k=0; S d=fmt("%s/%s.%d.%d",g_scratch.c_str(),tag,(int)getpid(),k++); mkdir(d.c_str(),0700); return d;
}
static void scratch_init(){ if(!g_scratch.empty()) return; const char*base=access("/dev/shm",W_OK)==0?"/dev/shm":"/tmp"; char t[64]; snprintf(t,64,"%s/vmc.XXXXXX",base); if(!mkdtemp(t)){perror("mkdtemp");_exit(3);} g_scratch=t; g_owner=getpid(); }
static void scratch_done(){ if(getpid()==g_owner && g_scratch.size()>8) remove_tree(g_scratch); }
// the writable data of every library copy as it is right after loading; put back before each execution
struct Snap{ char*p; S d; }; static std::vector<Snap> g_snaps;
static int snap_cb(dl_phdr_info*i,size_t,void*a){ if((void*)i->dlpi_addr!=a) return 0; uintptr_t r0=0,r1=0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ r0=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; r1=(r0+i->dlpi_phdr[k].p_memsz)&~4095ul; }
  for(int k=0;k<i->dlpi_phnum;k++){ auto&h=i->dlpi_phdr[k]; if(h.p_type!=PT_LOAD||!(h.p_flags&PF_W)) continue; uintptr_t a0=i->dlpi_addr+h.p_vaddr,a1=a0+h.p_memsz; if(r1>a0) a0=std::min(r1,a1); if(a1>a0) g_snaps.push_back({(char*)a0,S((char*)a0,a1-a0)}); } return 1; }
static void snap_lib(void*h){ link_map*m=0; if(dlinfo(h,RTLD_DI_LINKMAP,&m)||!m) return; dl_iterate_phdr(snap_cb,(void*)m->l_addr); }
static void snap_restore(){ for(auto&s:g_snaps) memcpy(s.p,s.d.data(),s.d.size()); }
int load_lib(const S&path,int n,const char*entry){
  scratch_init(); Lib L; static int uid=0;
  for(int i=0;i<n;i++){
    S p=fmt("%s/lib%d.so",g_scratch.c_str(),uid++);
    FILE*a=fopen(path.c_str(),"r"),*b=fopen(p.c_str(),"w"); if(!a||!b){fprintf(stderr,"cannot copy %s\n",path.c_str());exit(3);} char buf[1<<16]; size_t k; while((k=fread(buf,1,sizeof buf,a))>0) fwrite(buf,1,k,b); fclose(a); fclose(b);
    void*h=dlopen(p.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){fprintf(stderr,"dlopen %s: %s\n",path.c_str(),dlerror());exit(3);} 
    void(*e)(int)=(void(*)(int))dlsym(h,entry); if(!e){fprintf(stderr,"no %s in %s\n",entry,path.c_str());exit(3);} 
    L.h.push_back(h); L.entry.push_back(e); unlink(p.c_str()); snap_lib(h);
  }
  g_libs.push_back(L); return g_libs.size()-1;
}

// ------------------------------------------------------------------ fibers
extern "C" void vmc_switch(void**save,void*to);
asm(R"(
.text
.globl vmc_switch
.type vmc_switch,@function
vmc_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size vmc_switch,.-vmc_switch
)");

struct Team { int n=0, arrived=0; long gen=0; int live=0; };
struct Fiber {
  void*sp=0; char*stk=0; int id=0, rank=0; bool done=false, blocked=false, yielded=false; const char*why="";
  void*(*fn)(void*)=0; void*arg=0; void*ret=0; std::function<bool()> ready;   // blocked until ready()
  Team*team=0; int tid=0; int tryspin=0; bool joined=false; int is_main=0;
  void*condw=0; bool woken=false;
  std::vector<jmp_buf*> tries;
};
static const size_t STK=1u<<20;
struct Msg { int src,dst,tag,comm; int bytes; const char*sbuf=0; char*rbuf=0; bool posted_s=false,posted_r=false,done=false; uint64_t h=0; int rbytes=0; int sreq=0,rreq=0; bool early=true; bool decided=false; };
struct Req { int kind; Msg*m; bool used; int rank; };
struct Coll { int kind; int arrived=0; int bytes=0; std::vector<const char*> in; std::vector<char*> out; int dt,op,count,root; long gen=0; std::vector<std::vector<char> > snap; };

static Spec const* g_spec; static Run* g_run; 
static std::vector<Fiber*> F; static int cur=-1; static void*main_sp; static Lib*g_lib;
static std::vector<char*> free_stacks;
static bool in_run=false; static long g_spins=0;
static std::vector<S> g_log; static S g_lastlog;
static std::deque<Msg*> g_msgs; static std::vector<Req> g_reqs; static std::map<std::pair<int,long>,Coll*> g_colls; static std::vector<std::map<int,long> > g_collseq;
struct Mtx { int owner=-1; int count=0; bool live=true; }; struct Cnd { std::deque<int> w; };
static std::map<void*,Mtx> g_mtx; static std::map<void*,Cnd> g_cnd;
static int tsan_mode=0; static std::vector<int> g_commcount; static std::vector<char> g_inited;

static void finish_run(int status,const S&msg){ g_run->status=status; g_run->msg=msg; if(cur>=0){ void*d; (void)d; vmc_switch(&F[cur]->sp,main_sp);} }
static void die(int status,const char*f,...){ va_list a; va_start(a,f); char b[4096]; vsnprintf(b,sizeof b,f,a); va_end(a); finish_run(status,b); abort(); }

static int choose_raw(int n,int cost){
  if(n<=1) return 0; size_t i=g_run->trace.size(); int k=0;
  if(i<g_spec->prefix.size()) k=g_spec->prefix[i];
  if(k>=n) die(RUN_ERROR,"replay divergence: choice %zu of %d alternatives, asked for %d",i,n,k);
  Choice c; c.n=n;c.k=k;c.cost=cost; g_run->trace.push_back(c); return k;
}
static void switch_to(int t){ int me=cur; if(t==me) return; cur=t; F[t]->tryspin=0; vmc_switch(&F[me]->sp,F[t]->sp); }
enum { P_PRE, P_BLOCK, P_YIELD };
static bool runnable(Fiber*f){ if(f->done) return false; if(f->blocked){ if(f->ready && f->ready()){ f->blocked=false; return true;} return false;} return true; }
static S describe(){ S s; for(auto f:F) if(!f->done) s+=fmt("[rank %d fiber %d: %s] ",f->rank,f->id,f->blocked?f->why:"running"); return s; }
static void schedule(int kind){
  Fiber*me=F[cur]; g_run->steps++;
  if(g_run->steps>g_spec->maxsteps) die(RUN_LIVELOCK,"step bound %ld exceeded: %s",g_spec->maxsteps,describe().c_str());
  if(kind==P_PRE){ g_spins=0; for(auto f:F) f->yielded=false;
    if(g_spec->sched==0) return;
    std::vector<int> c; c.push_back(cur); for(size_t k=1;k<F.size();k++){ int t=(cur+k)%F.size(); if(runnable(F[t])) c.push_back(t);} 
    int k=choose_raw(c.size(),1); switch_to(c[k]); return; }
  if(kind==P_YIELD){ me->yielded=true; if(++g_spins>20000) die(RUN_LIVELOCK,"no progress, every task spins: %s",describe().c_str()); }
  else g_spins=0;
  std::vector<int> c; int n=F.size();
  for(int pass=0;pass<2;pass++){
    for(int k=1;k<n;k++){ int t=g_spec->order==1?((cur-k)%n+n)%n:(cur+k)%n; if(runnable(F[t])&&!F[t]->yielded) c.push_back(t);} 
    if(!c.empty()) break;
    bool any=false; for(int t=0;t<n;t++) if(t!=cur && F[t]->yielded){F[t]->yielded=false;any=true;} if(!any) break;
  }
  if(c.empty()){
    if(kind==P_YIELD || runnable(me)){ me->yielded=false; return; }
    die(RUN_DEADLOCK,"deadlock: %s",describe().c_str());
  }
  int k= g_spec->sched? choose_raw(c.size(),g_spec->blockcost):0; switch_to(c[k]);
}
static void block_until(const char*why,std::function<bool()> r){
  Fiber*me=F[cur]; while(!r()){ me->blocked=true; me->why=why; me->ready=r; schedule(P_BLOCK); me->blocked=false; }
  me->ready=nullptr;
}
static void point(int cls){ if(g_spec->sched && (g_spec->points&cls)) schedule(P_PRE); else { g_spins=0; } }
static void fiber_boot(){ Fiber*me=F[cur]; me->ret=me->fn(me->arg); me=F[cur]; me->done=true; 
  bool all=true; for(auto f:F) if(!f->done && f->is_main) all=false;
  if(all){ finish_run(RUN_OK,""); }
  schedule(P_BLOCK); abort(); }
static int spawn(void*(*fn)(void*),void*arg,int rank,Team*t,int tid){
  Fiber*f=new Fiber; f->fn=fn; f->arg=arg; f->rank=rank; f->team=t; f->tid=tid; f->id=F.size();
  if(free_stacks.empty()){ char*p=(char*)mmap(0,STK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(p,4096,PROT_NONE); f->stk=p; } else { f->stk=free_stacks.back(); free_stacks.pop_back(); }
  char*top=f->stk+4096+STK; void**s=(void**)top; *--s=0; *--s=(void*)fiber_boot; for(int i=0;i<6;i++) *--s=0; --s; unsigned mx; unsigned short cw; asm volatile("stmxcsr %0":"=m"(mx)); asm volatile("fnstcw %0":"=m"(cw)); ((unsigned*)s)[0]=mx; ((unsigned*)s)[1]=0; ((unsigned short*)s)[2]=cw;
  f->sp=s; F.push_back(f); return f->id;
}

// ------------------------------------------------------------------ rank-side API
#define RK (F[cur]->rank)
extern "C" {
int vmc_rank(void){ return RK; } int vmc_nranks(void){ return g_spec->nranks; } int vmc_npar(void){ return g_spec->par.size(); }
double vmc_par(int i){ if(i<0||i>=(int)g_spec->par.size()) die(RUN_ERROR,"harness: no parameter %d",i); return g_spec->par[i]; }
const char* vmc_spar(int i){ if(i<0||i>=(int)g_spec->spar.size()) return ""; return g_spec->spar[i].c_str(); }
void vmc_emit(const char*k,const double*d,size_t n){ auto&v=g_run->blob[RK][k]; v.insert(v.end(),d,d+n); }
void vmc_emitf(const char*k,const float*d,size_t n){ auto&v=g_run->blob[RK][k]; v.insert(v.end(),d,d+n); }
void vmc_emit1(const char*k,double d){ vmc_emit(k,&d,1); }
void vmc_bytes(const char*k,const void*d,size_t n){ g_run->bytes[RK][k].append((const char*)d,n); }
void vmc_fail(const char*f,...){ va_list a; va_start(a,f); char b[4096]; vsnprintf(b,sizeof b,f,a); va_end(a); die(RUN_FAIL,"rank %d: %s",RK,b); abort(); }
int vmc_choose(int n,const char*){ return choose_raw(n,0); }
int vmc_choose_cost(int n,int cost,const char*){ return choose_raw(n,cost); }
void vmc_yield(void){ schedule(P_YIELD); }
const char* vmc_last_log(void){ return g_lastlog.c_str(); }
const char* vmc_log(void){ return g_log[RK].c_str(); }
void vmc_log_clear(void){ g_log[RK].clear(); }
static std::vector<double> g_clk;
void vmc_clock(double s){ if((int)g_clk.size()<=RK) g_clk.resize(RK+1,-1); g_clk[RK]=s; }
static bool clk(double*s){ if(!in_run||RK<0||(int)g_clk.size()<=RK||g_clk[RK]<0) return false; *s=g_clk[RK]; return true; }
int __wrap_gettimeofday(struct timeval*tv,void*z){ double s; if(!clk(&s)) return gettimeofday(tv,(struct timezone*)z); long long us=llround(s*1e6); tv->tv_sec=us/1000000; tv->tv_usec=us%1000000; return 0; }
int __wrap_clock_gettime(clockid_t c,struct timespec*ts){ double s; if(!clk(&s)) return clock_gettime(c,ts); long long us=llround(s*1e6); ts->tv_sec=us/1000000; ts->tv_nsec=us%1000000*1000; return 0; }
void vmc_count(const char*k,double n){ g_run->counts[k]+=n; }
int vmc_nfibers(void){ return F.size(); } int vmc_fiber(void){ return cur; }
int vmc_try(void(*fn)(void*),void*arg){ jmp_buf b; Fiber*f=F[cur]; f->tries.push_back(&b); if(_setjmp(b)==0){ fn(arg); F[cur]->tries.pop_back(); return 0; } F[cur]->tries.pop_back(); return 1; }
void __wrap_exit(int code){ 
  if(!in_run){ _exit(code);} Fiber*f=F[cur]; if(!f->tries.empty()) _longjmp(*f->tries.back(),1);
  die(RUN_ERROR,"rank %d: exit(%d): %s",RK,code,g_lastlog.c_str()); }
void __wrap_abort(void){ if(in_run && cur>=0) { Fiber*f=F[cur]; if(!f->tries.empty()) _longjmp(*f->tries.back(),1); die(RUN_ERROR,"rank %d: abort: %s",RK,g_lastlog.c_str()); } abort(); }
void __wrap_log_printf(const char*f,...){ va_list a; va_start(a,f); char b[2048]; vsnprintf(b,sizeof b,f,a); va_end(a); if(!in_run){fputs(b,stderr);return;} g_lastlog=b; S&l=g_log[RK]; if(l.size()<60000) l+=b; if(A.verbose) fprintf(stderr,"[%d] %s",RK,b); }
uint32_t __wrap__nanodelay(uint32_t i){ if(in_run && i<1000000) schedule(P_YIELD); return 0; }
uint32_t _nanodelay(uint32_t i){ return __wrap__nanodelay(i); }
void log_printf(const char*f,...){ va_list a; va_start(a,f); char b[2048]; vsnprintf(b,sizeof b,f,a); va_end(a); __wrap_log_printf("%s",b); }
uint32_t __wrap_sched_yield(void){ if(in_run) schedule(P_YIELD); return 0; }
void* __wrap_dlsym(void*h,const char*n){ if(h==RTLD_DEFAULT && in_run) h=g_lib->h[RK]; return dlsym(h,n); }

// ---- pthread stand-ins
int vmc_pthread_create(pthread_t*t,const pthread_attr_t*,void*(*fn)(void*),void*arg){ point(1); int id=spawn(fn,arg,RK,0,0); *t=(pthread_t)(0x5000+id); if(g_spec->order==2&&!g_spec->sched) schedule(P_YIELD); return 0; }
pthread_t __wrap_pthread_self(void){ return (pthread_t)(0x5000+cur); }
int __wrap_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int __wrap_pthread_join(pthread_t t,void**r){ point(1); int id=(int)((long)t-0x5000); if(id<0||id>=(int)F.size()) return ESRCH; if(F[id]->joined) die(RUN_FAIL,"pthread_join of a joined thread"); block_until("pthread_join",[id]{return F[id]->done;}); F[id]->joined=true; if(r)*r=F[id]->ret; return 0; }
// a statically initialised (all zero) mutex or condition that was never destroyed needs no call of its own
static std::set<const void*> g_dead;
static bool lazym(pthread_mutex_t*m){ static const pthread_mutex_t z=PTHREAD_MUTEX_INITIALIZER; if(g_dead.count(m)||memcmp(m,&z,sizeof z)) return false; g_mtx[m]=Mtx(); return true; }
static bool lazyc(pthread_cond_t*c){ static const pthread_cond_t z=PTHREAD_COND_INITIALIZER; if(g_dead.count(c)||memcmp(c,&z,sizeof z)) return false; g_cnd[c]=Cnd(); return true; }
int __wrap_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*){ g_dead.erase(m); g_mtx[m]=Mtx(); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t*m){ auto it=g_mtx.find(m); if(it==g_mtx.end()||!it->second.live) die(RUN_FAIL,"mutex destroyed twice"); if(it->second.owner>=0) die(RUN_FAIL,"a locked mutex is destroyed"); g_mtx.erase(it); g_dead.insert(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t*m){ point(1); if(!g_mtx.count(m)&&!lazym(m)) die(RUN_FAIL,"lock of a mutex that is not initialised"); if(g_mtx[m].owner==cur) die(RUN_DEADLOCK,"mutex locked twice by one thread"); block_until("mutex lock",[m]{return g_mtx[m].owner<0;}); g_mtx[m].owner=cur; return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t*m){ Fiber*f=F[cur]; if(++f->tryspin>3){ f->tryspin=0; schedule(P_YIELD);} else point(1); if(!g_mtx.count(m)&&!lazym(m)) die(RUN_FAIL,"trylock of a mutex that is not initialised"); if(g_mtx[m].owner>=0) return EBUSY; g_mtx[m].owner=cur; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t*m){ point(1); if(!g_mtx.count(m)||g_mtx[m].owner!=cur) die(RUN_FAIL,"unlock of a mutex the thread does not hold"); g_mtx[m].owner=-1; return 0; }
int __wrap_pthread_cond_init(pthread_cond_t*c,const pthread_condattr_t*){ g_dead.erase(c); g_cnd[c]=Cnd(); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t*c){ if(!g_cnd.count(c)) die(RUN_FAIL,"condition destroyed twice"); if(!g_cnd[c].w.empty()) die(RUN_FAIL,"condition destroyed with waiters"); g_cnd.erase(c); g_dead.insert(c); return 0; }
static int cond_wake(pthread_cond_t*c,bool all){ if(!g_cnd.count(c)&&!lazyc(c)) die(RUN_FAIL,"signal of a condition that is not initialised"); auto&w=g_cnd[c].w; while(!w.empty()){ size_t k=0; if(!all&&g_spec->sched&&w.size()>1) k=choose_raw(w.size(),0); F[w[k]]->woken=true; w.erase(w.begin()+k); if(!all)break;} return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t*c){ point(1); cond_wake(c,false); if(g_spec->order==2&&!g_spec->sched) schedule(P_YIELD); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t*c){ point(1); return cond_wake(c,true); }
int __wrap_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m);
int __wrap_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*){ return __wrap_pthread_cond_wait(c,m); }
int __wrap_pthread_detach(pthread_t){ return 0; }
int __wrap_usleep(unsigned){ if(in_run) schedule(P_YIELD); return 0; }
unsigned __wrap_sleep(unsigned){ if(in_run) schedule(P_YIELD); return 0; }
int __wrap_nanosleep(const struct timespec*,struct timespec*){ if(in_run) schedule(P_YIELD); return 0; }
int __wrap_clock_nanosleep(int,int,const struct timespec*,struct timespec*){ if(in_run) schedule(P_YIELD); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ point(1); if(!g_cnd.count(c)&&!lazyc(c)) die(RUN_FAIL,"wait on a condition that is not initialised"); if(g_mtx[m].owner!=cur) die(RUN_FAIL,"wait without holding the mutex"); 
  Fiber*f=F[cur]; g_mtx[m].owner=-1; bool spur=false; if(g_spec->sched&&g_spec->spurious) spur=choose_raw(2,1)==1;
  if(!spur){ f->woken=false; g_cnd[c].w.push_back(cur); block_until("condition wait",[f]{return f->woken;}); } else if(g_spec->sched) schedule(P_PRE);
  block_until("mutex lock after wait",[m]{return g_mtx[m].owner<0;}); g_mtx[m].owner=cur; return 0; }

// ---- OpenMP stand-ins
static int g_omp_max=1; static int g_omp_ncall=0;
struct OmpArg{ void(*fn)(void*); void*data; };
static void*omp_tramp(void*p){ OmpArg*a=(OmpArg*)p; a->fn(a->data); return 0; }
int omp_get_thread_num(void){ return F[cur]->team?F[cur]->tid:0; }
int omp_get_num_threads(void){ return F[cur]->team?F[cur]->team->n:1; }
int omp_get_max_threads(void){ return g_omp_max; } void omp_set_num_threads(int n){ g_omp_max=n; } int omp_in_parallel(void){ return F[cur]->team!=0; } int omp_get_num_procs(void){ return 8; } void omp_set_dynamic(int){} void omp_set_nested(int){} int omp_get_thread_limit(void){return 1024;}
double omp_get_wtime(void){ return now(); }
void GOMP_barrier(void){ Team*t=F[cur]->team; if(!t||t->n<=1) return; long g=t->gen; if(++t->arrived==t->n){ t->arrived=0; t->gen++; } block_until("omp barrier",[t,g]{return t->gen!=g;}); }
static void omp_region_open(void*); static void omp_region_close();
void GOMP_parallel(void(*fn)(void*),void*data,unsigned n,unsigned){ bool outer=!F[cur]->team; if(outer) omp_region_open(__builtin_frame_address(0)); if(n==0) n=g_omp_max; if(F[cur]->team) n=1; Team t; t.n=n; Fiber*me=F[cur]; Team*old=me->team; int oldt=me->tid; OmpArg a={fn,data}; std::vector<int> ids; for(unsigned i=1;i<n;i++) ids.push_back(spawn(omp_tramp,&a,RK,&t,i));
  me->team=&t; me->tid=0; if(g_spec->order==2) schedule(P_YIELD); if(g_spec->sched) point(1); fn(data); me->team=old; me->tid=oldt; block_until("omp join",[&ids]{ for(int i:ids) if(!F[i]->done) return false; return true;}); 
  // a team's fibers are at the end of F: recycle
  while(F.size()>1 && !ids.empty() && F.back()->id==ids.back() && F.back()->done && (int)F.size()-1!=cur){ free_stacks.push_back(F.back()->stk); delete F.back(); F.pop_back(); ids.pop_back(); } if(outer) omp_region_close(); }
static int crit_owner=-1; void GOMP_critical_start(void){ block_until("omp critical",[]{return crit_owner<0;}); crit_owner=cur; } void GOMP_critical_end(void){ crit_owner=-1; }
void GOMP_atomic_start(void){ GOMP_critical_start(); } void GOMP_atomic_end(void){ GOMP_critical_end(); }
bool GOMP_single_start(void){ return omp_get_thread_num()==0; }

// ---- MPI stand-ins
static int dtsize(int d){ switch(d){ case 1: case 2: case 3: return 1; case 4: case 5: case 8: return 4; default: return 8; } }
static void commok(MPI_Comm c,const char*w){ if(c==MPI_COMM_NULL||c==MPI_COMM_SELF) die(RUN_FAIL,"rank %d: %s on an invalid communicator",RK,w); if(!g_inited[RK]) die(RUN_FAIL,"rank %d: %s outside MPI_Init/MPI_Finalize",RK,w); }
int MPI_Init(int*,char***){ g_inited[RK]=1; return 0; } int MPI_Init_thread(int*,char***,int r,int*p){ g_inited[RK]=1; if(p)*p=r; return 0; } int MPI_Initialized(int*f){*f=g_inited[RK];return 0;} int MPI_Finalized(int*f){*f=0;return 0;}
int MPI_Finalize(void){ g_inited[RK]=0; int r=RK; for(auto&q:g_reqs) if(q.used&&q.rank==r) g_run->pending++; return 0; }
int MPI_Abort(MPI_Comm,int r){ __wrap_exit(r); return 0; }
int MPI_Comm_dup(MPI_Comm,MPI_Comm*o){ *o=3+g_commcount[RK]++; return 0; } int MPI_Comm_free(MPI_Comm*c){*c=MPI_COMM_NULL;return 0;}
int MPI_Comm_rank(MPI_Comm c,int*r){ *r=c==MPI_COMM_SELF?0:RK; return 0; } int MPI_Comm_size(MPI_Comm c,int*n){ *n=c==MPI_COMM_SELF?1:g_spec->nranks; return 0; }
double MPI_Wtime(void){ return now(); }
static void coll(int kind,MPI_Comm c,const void*in,void*out,int count,int dt,int op,int root,const char*name){
  commok(c,name); point(4); long k=g_collseq[RK][c]++; Coll*&C=g_colls[{c,k}]; int P=g_spec->nranks;
  if(!C){ C=new Coll; C->kind=kind; C->snap.resize(P); C->out.resize(P); C->count=count; C->dt=dt; C->op=op; C->root=root; }
  if(C->kind!=kind||C->count!=count||C->dt!=dt||C->op!=op||C->root!=root) die(RUN_FAIL,"collective call %ld does not match between ranks (rank %d: %s)",k,RK,name);
  size_t bytes=(size_t)count*dtsize(dt); const void*src=(in==MPI_IN_PLACE)?out:in; if(src&&bytes) C->snap[RK].assign((const char*)src,(const char*)src+bytes); C->arrived++; Coll*CC=C;
  block_until(name,[CC,P]{return CC->arrived==P;});
  if(kind==1||(kind==4)||(kind==2&&RK==root)){ // allreduce, reduce
    if(kind!=4){ for(int i=0;i<count;i++){
      #define RED(T) { T a=((T*)C->snap[0].data())[i]; for(int r=1;r<P;r++){ T b=((T*)C->snap[r].data())[i]; a= op==1? (T)(a+b): op==2? (a>b?a:b):(a<b?a:b);} ((T*)out)[i]=a; }
      if(dt==6) RED(double) else if(dt==4) RED(int) else if(dt==5) RED(float) else if(dt==7) RED(long long) else if(dt==8) RED(unsigned) else if(dt==9) RED(unsigned long) else RED(unsigned char)
    } } else memcpy(out,C->snap[root].data(),bytes);
  } else if(kind==3||(kind==5&&RK==root)){ for(int r=0;r<P;r++) memcpy((char*)out+r*bytes,C->snap[r].data(),bytes); }
}
int MPI_Barrier(MPI_Comm c){ coll(0,c,0,0,0,1,0,0,"MPI_Barrier"); return 0; }
int MPI_Allreduce(const void*i,void*o,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ coll(1,c,i,o,n,d,op,0,"MPI_Allreduce"); return 0; }
int MPI_Reduce(const void*i,void*o,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c){ coll(2,c,i,o,n,d,op,root,"MPI_Reduce"); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype d,int root,MPI_Comm c){ coll(4,c,b,b,n,d,0,root,"MPI_Bcast"); return 0; }
int MPI_Allgather(const void*i,int n,MPI_Datatype d,void*o,int n2,MPI_Datatype d2,MPI_Comm c){ if(n*dtsize(d)!=n2*dtsize(d2)) die(RUN_FAIL,"MPI_Allgather sizes differ"); coll(3,c,i,o,n,d,0,0,"MPI_Allgather"); return 0; }
int MPI_Gather(const void*i,int n,MPI_Datatype d,void*o,int n2,MPI_Datatype d2,int root,MPI_Comm c){ if(n*dtsize(d)!=n2*dtsize(d2)) die(RUN_FAIL,"MPI_Gather sizes differ"); coll(5,c,i,o,n,d,0,root,"MPI_Gather"); return 0; }
static void transfer(Msg*m){ if(m->done) return; if(fnv(m->sbuf,m->bytes)!=m->h) die(RUN_FAIL,"send buffer of the message %d->%d tag %d was modified before the send completed",m->src,m->dst,m->tag);
  if(m->bytes>m->rbytes) die(RUN_FAIL,"message truncated: %d->%d tag %d sends %d bytes, receive posted for %d",m->src,m->dst,m->tag,m->bytes,m->rbytes);
  memcpy(m->rbuf,m->sbuf,m->bytes); m->done=true; g_run->counts["mpi_messages"]++; }
static void matched(Msg*m){ if(!(m->posted_s&&m->posted_r)||m->decided) return; m->decided=true; bool early= g_spec->xfer==0; if(g_spec->xfer==2) early=choose_raw(2,1)==0; m->early=early; if(early) transfer(m); }
static Msg* find(bool sendside,int src,int dst,int tag,int comm){ for(auto m:g_msgs) if(m->src==src&&m->dst==dst&&m->tag==tag&&m->comm==comm&&(sendside?!m->posted_s:!m->posted_r)) return m; Msg*m=new Msg; m->src=src;m->dst=dst;m->tag=tag;m->comm=comm; g_msgs.push_back(m); return m; }
static int newreq(int kind,Msg*m){ g_reqs.push_back({kind,m,true,RK}); return g_reqs.size(); }
static void reap(){ for(size_t i=0;i<g_msgs.size();){ Msg*m=g_msgs[i]; if(m->done&&m->posted_s&&m->posted_r&&m->sreq<0&&m->rreq<0){ delete m; g_msgs.erase(g_msgs.begin()+i);} else i++; } }
static void rankok(int r,const char*w){ if(r<0||r>=g_spec->nranks) die(RUN_FAIL,"rank %d: %s with peer %d",RK,w,r); }
int MPI_Issend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ commok(c,"MPI_Issend"); rankok(dst,"MPI_Issend"); point(4); Msg*m=find(true,RK,dst,tag,c); m->posted_s=true; m->sbuf=(const char*)b; m->bytes=n*dtsize(d); m->h=fnv(b,m->bytes); *q=m->sreq=newreq(1,m); matched(m); return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return MPI_Issend(b,n,d,dst,tag,c,q); }
int MPI_Irecv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request*q){ commok(c,"MPI_Irecv"); rankok(src,"MPI_Irecv"); point(4); Msg*m=find(false,src,RK,tag,c); m->posted_r=true; m->rbuf=(char*)b; m->rbytes=n*dtsize(d); memset(b,0xA5,m->rbytes); *q=m->rreq=newreq(2,m); matched(m); return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*st){ if(*q==MPI_REQUEST_NULL){ if(st){ memset(st,0,sizeof*st);} return 0; } point(4); if(*q<0||*q>(int)g_reqs.size()||!g_reqs[*q-1].used||g_reqs[*q-1].rank!=RK) die(RUN_FAIL,"rank %d: MPI_Wait on a request that is not active",RK); int qi=*q-1; Msg*m=g_reqs[qi].m; int kind=g_reqs[qi].kind;
  block_until(kind==1?"MPI_Wait(send)":"MPI_Wait(recv)",[m]{return m->done||(m->posted_s&&m->posted_r);}); if(!m->done) transfer(m);
  if(kind==1 && fnv(m->sbuf,m->bytes)!=m->h) die(RUN_FAIL,"send buffer of the message %d->%d tag %d was modified before the send completed",m->src,m->dst,m->tag);
  g_reqs[qi].used=false; if(st){ st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->vmc_bytes=m->bytes; } if(kind==1) m->sreq=-1; else m->rreq=-1; *q=MPI_REQUEST_NULL; reap(); return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*s){ for(int i=0;i<n;i++) MPI_Wait(q+i,s?s+i:0); return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*s){ if(*q==0){*f=1;return 0;} Msg*m=g_reqs[*q-1].m; if(!m->done&&m->posted_s&&m->posted_r) transfer(m); if(m->done){*f=1;return MPI_Wait(q,s);} *f=0; schedule(P_YIELD); return 0; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*s){ for(int i=0;i<n;i++) if(q[i]!=MPI_REQUEST_NULL){ Msg*m=g_reqs[q[i]-1].m; if(!m->done&&m->posted_s&&m->posted_r) transfer(m); if(!m->done){ *f=0; schedule(P_YIELD); return 0; } } *f=1; return MPI_Waitall(n,q,s); }
int MPI_Type_size(MPI_Datatype d,int*n){ *n=dtsize(d); return 0; }
int MPI_Sendrecv(const void*b,int n,MPI_Datatype d,int dst,int tag,void*rb,int rn,MPI_Datatype rd,int src,int rtag,MPI_Comm c,MPI_Status*s){ MPI_Request q[2]={0,0}; if(src!=MPI_PROC_NULL) MPI_Irecv(rb,rn,rd,src,rtag,c,q); if(dst!=MPI_PROC_NULL) MPI_Issend(b,n,d,dst,tag,c,q+1); MPI_Wait(q,s); return MPI_Wait(q+1,0); }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype d,int*n){ *n=s->vmc_bytes/dtsize(d); return 0; }
int MPI_Send(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ MPI_Request q; MPI_Issend(b,n,d,dst,tag,c,&q); return MPI_Wait(&q,0); }
int MPI_Ssend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ return MPI_Send(b,n,d,dst,tag,c); }
int MPI_Recv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Status*s){ MPI_Request q; MPI_Irecv(b,n,d,src,tag,c,&q); return MPI_Wait(&q,s); }

// ---- files with faults: bytes beyond the limit do not reach the disk
// modes: 0 disk full from byte N on, 1 one failed write, 2 close fails, 3 read error at position N, 4 end of file at position N, 5 the 8 bytes at position N arrive xored
// (one set of faults per rank)
struct Dk { long long limit, used; int mode; bool tripped; unsigned long long xr; }; static Dk DKS[256]; static void dk_clear(){ for(Dk&d:DKS) d=Dk{-1,0,0,false,0}; }
#define dk_limit DKS[RK&255].limit
#define dk_used DKS[RK&255].used
#define dk_mode DKS[RK&255].mode
#define dk_tripped DKS[RK&255].tripped
#define dk_xor DKS[RK&255].xr
void vmc_disk_limit(long long b,int mode){ dk_limit=b; dk_mode=mode; dk_used=0; dk_tripped=false; }
void vmc_disk_xor(unsigned long long x){ dk_xor=x; }
static long shared_mem[64]; long* vmc_shared(void){ return shared_mem; }
int vmc_disk_tripped(void){ return dk_tripped; }
long long vmc_disk_used(void){ return dk_used; }
struct Ck { int fd; bool wr; };
static ssize_t ck_read(void*c,char*b,size_t n){ Ck*k=(Ck*)c; long long pos=dk_limit>=0&&dk_mode>=3?lseek64(k->fd,0,SEEK_CUR):0; bool cut=dk_limit>=0&&(dk_mode==3||dk_mode==4);
  if(cut){ if(pos>=dk_limit){ char t; if(dk_mode==3){ dk_tripped=true; errno=EIO; return -1; } if(pread(k->fd,&t,1,pos)==1) dk_tripped=true; return 0; } if(pos+(long long)n>dk_limit) n=dk_limit-pos; }
  ssize_t r=read(k->fd,b,n); if(r>0&&dk_limit>=0&&dk_mode==5) for(int i=0;i<8;i++){ long long q=dk_limit+i-pos; unsigned char x=(unsigned char)(dk_xor>>(8*i)); if(q>=0&&q<r&&x){ b[q]^=x; dk_tripped=true; } } return r; }
static ssize_t ck_write(void*c,const char*b,size_t n){ Ck*k=(Ck*)c; if(dk_limit>=0&&dk_mode<2&&!(dk_mode==1&&dk_tripped)){ if(dk_used+(long long)n>dk_limit){ long long ok=dk_limit-dk_used; dk_tripped=true; if(ok>0&&dk_mode==0){ ssize_t r=write(k->fd,b,ok); dk_used+=r; return r; } errno=ENOSPC; return 0; } } ssize_t r=write(k->fd,b,n); if(r>0) dk_used+=r; return r<0?0:r; }
static int ck_seek(void*c,off64_t*o,int w){ Ck*k=(Ck*)c; off64_t r=lseek64(k->fd,*o,w); if(r<0) return -1; *o=r; return 0; }
static int ck_close(void*c){ Ck*k=(Ck*)c; int r=close(k->fd); bool wr=k->wr; delete k; if(wr&&dk_limit>=0&&dk_mode==2&&dk_used>=dk_limit){ dk_tripped=true; errno=EIO; return -1;} return r; }
FILE* __wrap_fopen(const char*p,const char*m){ if(!in_run) return fopen(p,m); int fl; bool wr=true; bool plus=strchr(m,'+')!=0; if(m[0]=='r'){ fl=plus?O_RDWR:O_RDONLY; wr=plus; } else if(m[0]=='w') fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC; else fl=(plus?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND; int fd=open(p,fl,0666); if(fd<0) return 0; if(m[0]=='a'&&!plus) lseek64(fd,0,SEEK_END); cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE*f=fopencookie(new Ck{fd,wr},m,io); return f; }
FILE* __wrap_fopen64(const char*p,const char*m){ return __wrap_fopen(p,m); }

// ---- memory with guard pages
static int g_guard=0; void vmc_guard_malloc(int on){ g_guard=on; }
struct GB{ size_t map, n; char*base; }; static std::map<void*,GB>*gb;
void* __wrap_malloc(size_t n){ if(!in_run||!g_guard) return malloc(n); size_t pg=4096, body=(n+pg-1)/pg*pg; if(!body) body=pg; char*p=(char*)mmap(0,body+2*pg,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(p==MAP_FAILED) return 0; mprotect(p,pg,PROT_NONE); mprotect(p+pg+body,pg,PROT_NONE); memset(p+pg,g_spec->perturb,body); char*r=p+pg+body-n; if(!gb) gb=new std::map<void*,GB>; (*gb)[r]=GB{body+2*pg,n,p}; return r; }
static void gb_front(void*p,const GB&b){ for(char*c=b.base+4096;c<(char*)p;c++) if((unsigned char)*c!=(unsigned char)g_spec->perturb) vmc_fail("memory: a byte %ld before an allocation of %zu bytes was overwritten",(long)((char*)p-c),b.n); }
void vmc_guard_check(void){ if(gb) for(auto&k:*gb) gb_front(k.first,k.second); }
void __wrap_free(void*p){ if(gb&&p){ auto it=gb->find(p); if(it!=gb->end()){ if(in_run) gb_front(p,it->second); munmap(it->second.base,it->second.map); gb->erase(it); return; } } free(p); }
void* __wrap_calloc(size_t a,size_t b){ if(!in_run||!g_guard) return calloc(a,b); void*p=__wrap_malloc(a*b); memset(p,0,a*b); return p; }
void* __wrap_realloc(void*p,size_t n){ if(gb&&p){ auto it=gb->find(p); if(it!=gb->end()){ size_t o=it->second.n; void*q=__wrap_malloc(n); memcpy(q,p,o<n?o:n); __wrap_free(p); return q; } } if(!in_run||!g_guard) return realloc(p,n); void*q=__wrap_malloc(n); if(p){ size_t o=malloc_usable_size(p); memcpy(q,p,o<n?o:n); free(p);} return q; }

// ---- instrumented accesses (gcc -fsanitize=thread calls these; libtsan is not linked)
struct Cell { signed char w1,w2,r1,r2; }; struct Page { Cell c[4096]; }; static std::unordered_map<uintptr_t,Page*> shadow; static std::vector<Page*> pages; static size_t pages_used; static uintptr_t last_no=~(uintptr_t)0; static Page*last_pg; static long n_acc,n_cell;
static int reg_tag=-1; static S reg_msg; static bool reg_on=false,reg_omp=false; static char*reg_frame;
// Stores are judged at the next access, when they have happened: one that leaves the byte as it was changes nothing for anybody.
struct Pend { uintptr_t a; unsigned char v; signed char t; void*pc; }; static std::vector<Pend> pend;
static void conflict(int t,bool w,int o,void*pc,const char*how){ if(!reg_msg.empty()) return; Dl_info di; const char*nm="?"; if(dladdr(pc,&di)&&di.dli_sname) nm=di.dli_sname; reg_msg=fmt("job %d %s a byte that job %d %s, in %s",t,w?"changes":"reads",o,how,nm); }
static Cell& cell(uintptr_t g){ uintptr_t no=g>>12; if(no!=last_no){ Page*&q=shadow[no]; if(!q){ if(pages_used==pages.size()) pages.push_back(new Page); q=pages[pages_used++]; memset(q,-1,sizeof *q); } last_no=no; last_pg=q; } Cell&c=last_pg->c[g&4095]; if(c.w1<0&&c.r1<0) n_cell++; return c; }
static void flush_pend(){ for(auto&q:pend) if(*(unsigned char*)q.a!=q.v){ Cell&c=cell(q.a); int t=q.t, ow=c.w1>=0&&c.w1!=t?c.w1:c.w2>=0&&c.w2!=t?c.w2:-1, orr=c.r1>=0&&c.r1!=t?c.r1:c.r2>=0&&c.r2!=t?c.r2:-1; if(ow>=0) conflict(t,true,ow,q.pc,"changes too"); else if(orr>=0) conflict(t,true,orr,q.pc,"reads"); if(c.w1<0) c.w1=t; else if(c.w1!=t) c.w2=t; } pend.clear(); }
static void shadow_clear(){ pend.clear(); shadow.clear(); pages_used=0; last_no=~(uintptr_t)0; }
void vmc_tsan_mode(int m){ tsan_mode=m; reg_omp=(m==3); }
// stack: frames below it belong to the job that runs
static void reg_open(char*stack){ shadow_clear(); reg_on=true; reg_tag=-1; reg_msg.clear(); reg_frame=stack; tsan_mode=2; n_acc=n_cell=0; }
static void reg_close(){ flush_pend(); reg_on=false; tsan_mode=0; g_run->counts["conflict_cells"]+=n_cell; g_run->counts["instrumented_accesses"]+=n_acc; }
void vmc_region_begin(void){ reg_open(F[cur]->stk+STK+4096); }
void vmc_region_stack(void*p){ reg_frame=(char*)p; }
void vmc_region_tag(int t){ reg_tag=t; }
const char* vmc_region_end(void){ reg_close(); return reg_msg.empty()?0:reg_msg.c_str(); }
static inline void acc(void*p,size_t n,bool w,void*pc){
  if(!tsan_mode||!in_run) return;
  if(tsan_mode==1){ if(g_spec->sched&&(g_spec->points&2)) schedule(P_PRE); return; }
  int t=reg_tag; if(!reg_on) return; char*stk=F[cur]->stk; if(F[cur]->team){ t=F[cur]->tid; if((char*)p>=stk&&(char*)p<(t?stk+STK+4096:reg_frame)) return; } else { if(t<0) return; if((char*)p>=stk&&(char*)p<reg_frame) return; }
  n_acc++; if(!pend.empty()) flush_pend();
  for(uintptr_t g=(uintptr_t)p;g<(uintptr_t)p+n;g++){ if(w){ pend.push_back(Pend{g,*(unsigned char*)g,(signed char)t,pc}); continue; } Cell&c=cell(g); int ow=c.w1>=0&&c.w1!=t?c.w1:c.w2>=0&&c.w2!=t?c.w2:-1; if(ow>=0) conflict(t,false,ow,pc,"changes"); if(c.r1<0) c.r1=t; else if(c.r1!=t) c.r2=t; }
}
static void omp_region_open(void*f){ if(reg_omp&&!reg_on) reg_open((char*)f); }
static void omp_region_close(){ if(reg_omp&&reg_on){ reg_close(); tsan_mode=3; g_run->counts["dispatches"]++; if(!reg_msg.empty()) vmc_fail("overlap: %s",reg_msg.c_str()); } }
#define PC __builtin_return_address(0)
#define TS(n) void __tsan_read##n(void*p){acc(p,n,false,PC);} void __tsan_write##n(void*p){acc(p,n,true,PC);} void __tsan_unaligned_read##n(void*p){acc(p,n,false,PC);} void __tsan_unaligned_write##n(void*p){acc(p,n,true,PC);} void __tsan_read_write##n(void*p){acc(p,n,true,PC);} void __tsan_unaligned_read_write##n(void*p){acc(p,n,true,PC);} void __tsan_volatile_read##n(void*p){acc(p,n,false,PC);} void __tsan_volatile_write##n(void*p){acc(p,n,true,PC);}
TS(1) TS(2) TS(4) TS(8) TS(16)
void __tsan_read_range(void*p,size_t n){acc(p,n,false,PC);} void __tsan_write_range(void*p,size_t n){acc(p,n,true,PC);}
void*__wrap_memset(void*d,int c,size_t n){ acc(d,n,true,PC); return memset(d,c,n); } void*__wrap_memcpy(void*d,const void*s,size_t n){ acc((void*)s,n,false,PC); acc(d,n,true,PC); return memcpy(d,s,n); } void*__wrap_memmove(void*d,const void*s,size_t n){ acc((void*)s,n,false,PC); acc(d,n,true,PC); return memmove(d,s,n); }
void __tsan_func_entry(void*){} void __tsan_func_exit(void){} void __tsan_init(void){} void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
#define TA(b,T) T __tsan_atomic##b##_load(const volatile T*p,int){ if(tsan_mode==1) acc((void*)p,b/8,false,PC); return *p;} void __tsan_atomic##b##_store(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); *p=v;} T __tsan_atomic##b##_exchange(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p;*p=v;return o;} T __tsan_atomic##b##_fetch_add(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p;*p=o+v;return o;} T __tsan_atomic##b##_fetch_sub(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p;*p=o-v;return o;} T __tsan_atomic##b##_fetch_or(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p;*p=o|v;return o;} T __tsan_atomic##b##_fetch_and(volatile T*p,T v,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p;*p=o&v;return o;} int __tsan_atomic##b##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); if(*p==*e){*p=v;return 1;} *e=*p; return 0;} int __tsan_atomic##b##_compare_exchange_weak(volatile T*p,T*e,T v,int a,int c){ return __tsan_atomic##b##_compare_exchange_strong(p,e,v,a,c);} T __tsan_atomic##b##_compare_exchange_val(volatile T*p,T e,T v,int,int){ if(tsan_mode==1) acc((void*)p,b/8,true,PC); T o=*p; if(o==e) *p=v; return o;}
TA(8,unsigned char) TA(16,unsigned short) TA(32,unsigned) TA(64,unsigned long)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
} // extern C

// ------------------------------------------------------------------ one run
struct MainArg{ int r; }; static std::vector<int> g_rk;
static std::vector<std::vector<char*> > g_argv;
static void*rank_tramp(void*p){ int r=*(int*)p; g_lib->entry[r](r); return 0; }
extern "C" int vmc_argc(void){ return g_argv[RK].size()-1; }
extern "C" char** vmc_argv(void){ return g_argv[RK].data(); }
static Run exec_run(const Spec&sp){
  { static int runs=0; if(runs++) snap_restore(); }
  Run R; g_spec=&sp; g_run=&R; R.blob.resize(sp.nranks); R.bytes.resize(sp.nranks); g_lib=&g_libs[sp.lib];
  if((int)g_lib->h.size()<sp.nranks){ R.status=RUN_ERROR; R.msg="harness: too few library copies"; return R; }
  for(auto f:F){ if(f->stk) free_stacks.push_back(f->stk); delete f; } F.clear(); for(auto m:g_msgs) delete m; g_msgs.clear(); g_reqs.clear(); for(auto&c:g_colls) delete c.second; g_colls.clear(); g_collseq.assign(sp.nranks,{}); g_mtx.clear(); g_dead.clear(); g_cnd.clear(); g_commcount.assign(sp.nranks,0); g_inited.assign(sp.nranks,0);
  g_log.assign(sp.nranks,S()); g_clk.clear(); g_lastlog.clear(); g_spins=0; tsan_mode=0; reg_on=reg_omp=false; dk_clear(); memset(shared_mem,0,sizeof shared_mem); crit_owner=-1; g_omp_max=1; g_guard=sp.guard; mallopt(M_PERTURB,(sp.perturb^0xff)&0xff);
  g_rk.resize(sp.nranks); g_argv.assign(sp.nranks,{});
  for(int r=0;r<sp.nranks;r++){ g_rk[r]=r; g_argv[r].push_back(strdup("vpic")); for(auto&a:sp.argv) g_argv[r].push_back(strdup(a.c_str())); g_argv[r].push_back(0); F.reserve(64); spawn(rank_tramp,&g_rk[r],r,0,0); F.back()->is_main=1; }
  in_run=true; cur=0; void*dummy; (void)dummy;
  vmc_switch(&main_sp,F[0]->sp);
  in_run=false; cur=-1; g_guard=0;
  for(auto&l:g_log) if(!l.empty()){ R.log+=l; if(R.log.size()>4000) {R.log.resize(4000);break;} }
  return R;
}
uint64_t Run::hash() const { uint64_t h=fnv(&status,sizeof status); for(auto&m:blob) for(auto&kv:m){ h=fnv(kv.first.data(),kv.first.size(),h); h=fnv(kv.second.data(),kv.second.size()*8,h);} for(auto&m:bytes) for(auto&kv:m){ h=fnv(kv.first.data(),kv.first.size(),h); h=fnv(kv.second.data(),kv.second.size(),h);} return h; }

// ---- serialisation
static void ps(S&o,const S&s){ uint64_t n=s.size(); o.append((char*)&n,8); o+=s; } static void pd(S&o,const VD&v){ uint64_t n=v.size(); o.append((char*)&n,8); o.append((const char*)v.data(),8*n); } static void pi(S&o,int64_t v){ o.append((char*)&v,8); }
static S ser(const Run&R){ S o; pi(o,R.status); ps(o,R.msg); ps(o,R.log); pi(o,R.steps); pi(o,R.pending); pi(o,R.blob.size()); for(size_t r=0;r<R.blob.size();r++){ pi(o,R.blob[r].size()); for(auto&kv:R.blob[r]){ ps(o,kv.first); pd(o,kv.second);} pi(o,R.bytes[r].size()); for(auto&kv:R.bytes[r]){ ps(o,kv.first); ps(o,kv.second);} } pi(o,R.counts.size()); for(auto&kv:R.counts){ ps(o,kv.first); o.append((const char*)&kv.second,8);} pi(o,R.trace.size()); o.append((const char*)R.trace.data(),R.trace.size()*sizeof(Choice)); return o; }
struct Rd{ const char*p; int64_t i(){ int64_t v; memcpy(&v,p,8); p+=8; return v;} S s(){ size_t n=i(); S r(p,n); p+=n; return r;} VD d(){ size_t n=i(); VD r(n); memcpy(r.data(),p,8*n); p+=8*n; return r;} };
static Run deser(const S&s){ Rd d{s.data()}; Run R; R.status=d.i(); R.msg=d.s(); R.log=d.s(); R.steps=d.i(); R.pending=d.i(); int nr=d.i(); R.blob.resize(nr); R.bytes.resize(nr); for(int r=0;r<nr;r++){ int n=d.i(); while(n--){ S k=d.s(); R.blob[r][k]=d.d(); } n=d.i(); while(n--){ S k=d.s(); R.bytes[r][k]=d.s(); } } int n=d.i(); while(n--){ S k=d.s(); double v; memcpy(&v,d.p,8); d.p+=8; R.counts[k]=v; } size_t t=d.i(); R.trace.resize(t); memcpy(R.trace.data(),d.p,t*sizeof(Choice)); return R; }
static bool wrall(int fd,const char*p,size_t n){ while(n){ ssize_t k=write(fd,p,n); if(k<=0) return false; p+=k; n-=k; } return true; }

static void child_main(int fd,const std::vector<const Spec*>&v){
  if(!A.verbose){ int nul=open("/dev/null",O_RDWR); dup2(nul,1); dup2(nul,2); dup2(nul,0); }
  int errs=0; if(v[0]->cont){ rlimit rl={4ull<<30,4ull<<30}; setrlimit(RLIMIT_AS,&rl); } for(auto s:v){ alarm(0); S dir; if(s->dir){ dir=make_scratch("run"); if(chdir(dir.c_str())){} } else if(!s->usedir.empty()){ if(chdir(s->usedir.c_str())){} } 
    Run R=exec_run(*s); fflush(0); if(s->dir){ if(chdir("/")){} remove_tree(dir);} S o=ser(R); uint64_t n=o.size(); if(!wrall(fd,(char*)&n,8)||!wrall(fd,o.data(),n)) _exit(9); if(R.status!=RUN_OK&&!(s->cont&&R.status==RUN_ERROR&&++errs<60)) break; }
  close(fd); _exit(0);
}
struct Proc{ pid_t pid; int fd; std::vector<const Spec*> v; size_t got; S buf; double dl; };
struct Pool; static std::set<Pool*> g_pools; static double g_t0; static int g_viol=0;
struct Pool{ Pool(){ g_pools.insert(this);} ~Pool(){ g_pools.erase(this);} std::vector<Proc> p; int jobs; std::function<void(const Spec&,Run&)> cb; std::deque<std::vector<const Spec*> > q;
  void start(std::vector<const Spec*> v){ int pf[2]; if(pipe(pf)) {perror("pipe");exit(3);} fflush(0); pid_t pid=fork(); if(pid<0){perror("fork");exit(3);} if(pid==0){ close(pf[0]); for(auto&x:p) close(x.fd); child_main(pf[1],v); } close(pf[1]); fcntl(pf[0],F_SETFL,O_NONBLOCK); p.push_back({pid,pf[0],v,0,S(),now()+v[0]->timeout}); }
  bool step(){ if(!q.empty()&&!A.thorough&&now()-g_t0>600){ E.exhaustive=false; E.puts("cut_short","time limit reached before every case had run"); q.clear(); } while(!q.empty()&&(int)p.size()<jobs){ auto v=q.front(); q.pop_front(); start(v);} if(p.empty()) return false;
    std::vector<pollfd> pf; for(auto&x:p) pf.push_back({x.fd,POLLIN,0}); poll(pf.data(),pf.size(),200);
    std::vector<std::pair<const Spec*,Run> > done;
    for(size_t i=0;i<p.size();i++){ Proc&x=p[i]; bool eof=false; if(pf[i].revents){ char b[1<<16]; for(;;){ ssize_t k=read(x.fd,b,sizeof b); if(k>0) x.buf.append(b,k); else { if(k==0) eof=true; break; } } 
        while(x.buf.size()>=8){ uint64_t n; memcpy(&n,x.buf.data(),8); if(x.buf.size()<8+n) break; S s=x.buf.substr(8,n); x.buf.erase(0,8+n); done.push_back({x.v[x.got],deser(s)}); x.got++; if(x.got<x.v.size()) x.dl=now()+x.v[x.got]->timeout; } }
      bool kill_=!eof&&now()>x.dl; if(kill_) kill(x.pid,SIGKILL);
      if(eof||kill_){ int st=0; waitpid(x.pid,&st,0); close(x.fd); size_t from=x.got; if(from<x.v.size() && (kill_||!WIFEXITED(st)||WEXITSTATUS(st)!=0)){ Run R; R.blob.resize(x.v[from]->nranks); R.bytes.resize(x.v[from]->nranks); R.status=kill_?RUN_TIMEOUT:RUN_CRASH; R.msg=kill_?fmt("no end after %g s",x.v[from]->timeout):(WIFSIGNALED(st)?fmt("killed by signal %d (%s)",WTERMSIG(st),strsignal(WTERMSIG(st))):fmt("exit status %d",WEXITSTATUS(st))); done.push_back({x.v[from],R}); from++; }
        if(from<x.v.size()){ std::vector<const Spec*> rest(x.v.begin()+from,x.v.end()); q.push_front(rest);} p.erase(p.begin()+i); pf.erase(pf.begin()+i); i--; } }
    for(auto&d:done) cb(*d.first,d.second);
    return true; }
  void killall(){ for(auto&x:p){ kill(x.pid,SIGKILL); waitpid(x.pid,0,0); close(x.fd);} p.clear(); q.clear(); }
};
static int njobs(){ static int n=0; if(!n){ const char*e=getenv("VMC_JOBS"); n=e?atoi(e):(int)sysconf(_SC_NPROCESSORS_ONLN); if(n<1)n=1; } return n; }
void run_all(const std::vector<Spec>&v,std::function<void(const Spec&,Run&)> cb,int batch,int jobs){
  scratch_init(); Pool P; P.jobs=jobs?jobs:njobs(); P.cb=cb; std::vector<const Spec*> b; for(auto&s:v){ b.push_back(&s); if((int)b.size()>=batch){P.q.push_back(b);b.clear();} } if(!b.empty()) P.q.push_back(b); while(P.step()); }
Run run_one(const Spec&s){ Run out; std::vector<Spec> v{s}; run_all(v,[&](const Spec&,Run&r){out=r;},1,1); return out; }
void explore(const Spec&base,int bound,long maxruns,XStats&st,std::function<bool(const Spec&,Run&)> cb,int batch,double maxsec){
  scratch_init(); std::vector<std::vector<uint16_t> > stack; stack.push_back(base.prefix); Pool P; P.jobs=njobs(); bool stop=false; double t0=now(); std::set<Spec*> live; long launched=0;
  P.cb=[&](const Spec&s,Run&r){ if(stop) return; st.runs++; st.steps+=r.steps; st.maxchoices=std::max(st.maxchoices,(long)r.trace.size()); st.outcomes.insert(r.hash()); int tot=0; for(auto&c:r.trace) if(c.k) tot+=c.cost; st.bycost[tot]++;
    if(!cb(s,r)){ stop=true; return; }
    int cost=0; std::vector<uint16_t> pre; pre.reserve(r.trace.size());
    for(size_t i=0;i<r.trace.size();i++){ Choice c=r.trace[i]; if(i>=s.prefix.size()){ for(int a=1;a<c.n;a++) if(cost+c.cost<=bound){ auto q=pre; q.push_back(a); stack.push_back(q);} } pre.push_back(c.k); if(c.k) cost+=c.cost; } };
  for(;;){
    while(!stop&&!stack.empty()&&(int)P.p.size()+(int)P.q.size()<P.jobs){ if(launched>=maxruns||now()-t0>maxsec){ st.complete=false; stack.clear(); break; } std::vector<const Spec*> b; int k=std::max<int>(1,std::min<long>(batch,(long)stack.size()/P.jobs+1)); while(k--&&!stack.empty()){ Spec*s=new Spec(base); s->prefix=stack.back(); stack.pop_back(); b.push_back(s); live.insert(s); launched++; } P.q.push_back(b); }
    if(stop){ st.complete=false; P.killall(); break; }
    if(!P.step()&&stack.empty()) break;
    if(live.size()>20000&&P.p.empty()&&P.q.empty()){ for(auto x:live) delete x; live.clear(); }
  }
  P.killall(); for(auto x:live) delete x;
}

// ------------------------------------------------------------------ reporting
Args A; Evidence E; static std::map<S,S> g_known; static std::set<S> g_known_hit;
static S jq(const S&s){ S o="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+=fmt("\\u%04x",c); else o+=c; } return o+"\""; }
void Evidence::put(const S&k,double v){ extra[k]= v==floor(v)&&fabs(v)<1e15?fmt("%.0f",v):fmt("%.6g",v); } void Evidence::puts(const S&k,const S&v){ extra[k]=jq(v); }
void vmc_host_init(int argc,char**argv){
  setvbuf(stdout,0,_IOLBF,0); g_t0=now(); scratch_init(); atexit(scratch_done); signal(SIGPIPE,SIG_IGN);
  for(int i=1;i<argc;i++){ S a=argv[i]; auto nx=[&]{ return S(i+1<argc?argv[++i]:""); };
    if(a=="--prop") A.prop=nx(); else if(a=="--tier") {A.tier=nx(); A.thorough=A.tier=="thorough";} else if(a=="--seed") A.seed=atoi(nx().c_str()); else if(a=="--only") A.only=nx(); else if(a=="--evidence") A.evidence=nx(); else if(a=="--known") A.known=nx(); else if(a=="--replays") A.replays=nx(); else if(a=="--verbose") A.verbose=true; else if(a=="--lib"){ S x=nx(); size_t e=x.find('='); A.cfgs.push_back(x.substr(0,e)); A.libs.push_back(x.substr(e+1)); } }
  A.scratch=g_scratch;
  // known findings: lines "known: property=<id> key=<key> <what>" ; "fixed:" lines suppress nothing
  S k=read_file(A.known); size_t p=0; while(p<k.size()){ size_t e=k.find('\n',p); if(e==S::npos)e=k.size(); S l=k.substr(p,e-p); p=e+1; S pre="known: property="+A.prop+" key="; if(l.compare(0,pre.size(),pre)==0){ S r=l.substr(pre.size()); size_t sp=r.find(' '); g_known[r.substr(0,sp)]=sp==S::npos?"":r.substr(sp+1);} }
}
bool want(const S&id){ return A.only.empty()||id==A.only||(A.only.back()=='*'&&id.compare(0,A.only.size()-1,A.only,0,A.only.size()-1)==0); }
void violation(const S&key,const S&text,const Spec*sp){
  auto it=g_known.find(key); if(it!=g_known.end()){ if(g_known_hit.insert(key).second) printf("KNOWN-FINDING: property=%s %s: %s\n",A.prop.c_str(),key.c_str(),it->second.c_str()); return; }
  g_viol++; if(g_viol>20) return;
  S f; if(!A.replays.empty()){ mkdir(A.replays.c_str(),0755); f=fmt("%s/%s-%d.json",A.replays.c_str(),A.prop.c_str(),g_viol); FILE*o=fopen(f.c_str(),"w"); if(o){ fprintf(o,"{\"property\":%s,\"tier\":%s,\"key\":%s,\"what\":%s",jq(A.prop).c_str(),jq(A.tier).c_str(),jq(key).c_str(),jq(text).c_str()); if(sp){ fprintf(o,",\"case\":%s,\"config\":%s,\"ranks\":%d,\"argv\":[",jq(sp->id).c_str(),jq(sp->lib<(int)A.cfgs.size()?A.cfgs[sp->lib]:"").c_str(),sp->nranks); for(size_t i=0;i<sp->argv.size();i++) fprintf(o,"%s%s",i?",":"",jq(sp->argv[i]).c_str()); fprintf(o,"],\"par\":["); for(size_t i=0;i<sp->par.size();i++) fprintf(o,"%s%.17g",i?",":"",sp->par[i]); fprintf(o,"],\"schedule\":["); for(size_t i=0;i<sp->prefix.size();i++) fprintf(o,"%s%d",i?",":"",sp->prefix[i]); fprintf(o,"]"); } fprintf(o,"}\n"); fclose(o);} }
  printf("VIOLATION property=%s replay=%s\n  %s: %s\n",A.prop.c_str(),f.empty()?"-":f.c_str(),key.c_str(),text.c_str());
  if(g_viol>=20){ E.exhaustive=false; for(auto P:g_pools) P->killall(); finish(); exit(1); }
}
int finish(){
  double w=now()-g_t0; if(E.states==0) E.states=E.distinct.size();
  if(!A.evidence.empty()){ FILE*o=fopen(A.evidence.c_str(),"w"); if(!o){perror(A.evidence.c_str());return 3;}
    fprintf(o,"{\"property\":%s,\"tier\":%s,\"seed\":%d,\"level\":\"model_checking\",\"coverage\":{\"states\":%.0f,\"transitions\":%.0f,\"traces_validated_against_impl\":%.0f,\"evaluations\":%.0f,\"distinct_nontrivial\":%zu,\"rule\":%s,\"exhaustive\":%s,\"samples\":[",jq(A.prop).c_str(),jq(A.tier).c_str(),A.seed,E.states,E.transitions,E.traces,E.evaluations,E.distinct.size(),jq(E.rule).c_str(),E.exhaustive?"true":"false");
    for(size_t i=0;i<E.samples.size();i++) fprintf(o,"%s%s",i?",":"",jq(E.samples[i]).c_str()); fprintf(o,"]"); for(auto&kv:E.extra) fprintf(o,",%s:%s",jq(kv.first).c_str(),kv.second.c_str());
    fprintf(o,"},\"assumptions\":["); for(size_t i=0;i<E.assumptions.size();i++) fprintf(o,"%s%s",i?",":"",jq(E.assumptions[i]).c_str()); fprintf(o,"],\"wall_s\":%.2f,\"violations\":%d}\n",w,g_viol); fclose(o); }
  printf("%s %s: %s; states %.0f, transitions %.0f, executions %.0f, evaluations %.0f, distinct %zu, %.1f s\n",A.prop.c_str(),A.tier.c_str(),g_viol?"BROKEN":"held on everything explored",E.states,E.transitions,E.traces,E.evaluations,E.distinct.size(),w);
  fflush(stdout); return g_viol?1:0;
}
