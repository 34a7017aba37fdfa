#include "host.h"
int main(int argc,char**argv){ vmc_host_init(argc,argv); int L=load_lib(A.libs[0],1), LS=load_lib(A.libs[0],1,"rank_serial");
  struct Cf{ int tpp,d2h,rounds,boots,yields,stride,mis,bound,points,spur; long cap; };
  std::vector<Cf> cs; bool T=A.thorough;
  // small configurations: every pthread call and every instrumented memory access is a preemption point
  cs.push_back({1,1,2,2,0,1,1, 2,3,0,0}); cs.push_back({1,0,2,2,0,1,0, T?3:2,3,0,0});
  cs.push_back({2,1,2,2,1,1,0, T?3:2,3,1,0}); cs.push_back({2,1,1,1,0,0,1, 1,3,0,0}); cs.push_back({2,0,2,1,1,1,0, T?2:1,3,0,0});
  cs.push_back({3,1,2,1,1,2,0, T?2:1,3,1,0}); cs.push_back({3,1,2,1,0,1,0, T?3:2,1,0,0}); cs.push_back({3,0,2,1,0,1,0, T?2:1,1,0,0});
  cs.push_back({4,1,2,1,0,1,0, T?2:1,1,0,0}); cs.push_back({2,1,3,1,0,1,0, T?4:3,1,1,0});
  E.rule="one execution per schedule of the dispatcher's own code: preemption before every pthread call and (points=3) every memory access it makes, all choices at blocking points, spurious wakeups; non-trivial = distinct schedule";
  for(auto&f:cs){ Spec s; s.lib=L; s.sched=1; s.points=f.points; s.spurious=f.spur; s.par={(double)f.tpp,(double)f.d2h,(double)f.rounds,(double)f.boots,(double)f.yields,(double)f.stride,(double)f.mis}; s.maxsteps=200000;
    s.id=fmt("tpp=%d d2h=%d dispatches=%d boots=%d yields=%d stride=%d misuse=%d points=%d spurious=%d bound=%d",f.tpp,f.d2h,f.rounds,f.boots,f.yields,f.stride,f.mis,f.points,f.spur,f.bound);
    if(!want(s.id)) continue; XStats st; double t=now();
    explore(s,f.bound,T?4000000:400000,st,[&](const Spec&q,Run&r){ E.transitions+=r.steps; E.traces++; uint64_t h=1; for(auto&c:r.trace) h=fnv(&c.k,2,h); E.distinct.insert(fnv(s.id.data(),s.id.size(),h)); if(r.status!=RUN_OK){ Spec rp=q; rp.prefix.clear(); for(auto&c:r.trace) rp.prefix.push_back(c.k); if(r.trace.empty()) rp.prefix=q.prefix; violation(fmt("tpp=%d,d2h=%d:%s",f.tpp,f.d2h,run_status_name(r.status)),s.id+": "+r.msg,&rp); return false;} return true; },64,T?900:25);
    if(!st.complete) E.exhaustive=false; E.states+=st.runs; E.evaluations+=st.runs; S by; for(auto&b:st.bycost) by+=fmt(" %d:%ld",b.first,b.second);
    printf("%s: %ld schedules (by deviations%s), longest has %ld choices, %ld steps, %s, %.1f s\n",s.id.c_str(),st.runs,by.c_str(),st.maxchoices,st.steps,st.complete?"complete":"NOT complete",now()-t); E.sample(fmt("%s: %ld schedules, %s",s.id.c_str(),st.runs,st.complete?"complete":"cut at the time limit"),20); }
  // deterministic sweeps of the width
  std::vector<Spec> v; for(int n=1;n<=(T?272:40);n++) for(int st=0;st<3;st++) for(int d=0;d<2;d++) for(int o=0;o<3;o++){ Spec s; s.lib=L; s.order=o; s.par={(double)n,(double)d,2,1,(double)(n%3),(double)st,(double)(st==1)}; if(n>100&&st==2) continue; s.id=fmt("width tpp=%d d2h=%d stride=%d order=%d",n,d,st,o); if((n-1)*2*1>=300&&st==2) continue; if(want(s.id)) v.push_back(s); if(d==0&&o==0){ s.lib=LS; s.id=fmt("serial n=%d stride=%d",n,st); if(want(s.id)) v.push_back(s);} }
  run_all(v,[&](const Spec&s,Run&r){ E.states++; E.traces++; E.evaluations++; E.transitions+=r.steps; E.distinct.insert(fnv(s.id.data(),s.id.size())); if(r.status!=RUN_OK) violation("width",s.id+": "+run_status_name(r.status)+": "+r.msg,&s); },8);
  printf("width sweep: %zu executions\n",v.size());
  E.assumptions={"sequentially consistent memory (x86 TSO adds store buffering, not explored)","the pthread stand-ins follow POSIX, spurious wakeups included","schedules with more preemptions than the bound given per configuration are not explored"};
  return finish(); }
