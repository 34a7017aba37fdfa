#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = one operation sequence on a message object, one order of beginning and ending transfers between ranks, or one collective with a choice of values, executed on the real layer; transitions = comparisons with the model of what was sent";
  for(int l=0;l<m.NL();l++){ int D=T?4:3; for(int f=0;f<26;f++) m.add(fmt("ports depth %d first operation %d",D,f),l,1,{},{0,(double)D,(double)f}).guard=!T;
    for(int n:{1,2,3}){ m.add(fmt("misuse ranks %d",n),l,n,{},{1}).guard=1; }
    for(int n:{1,2,3,4}) for(int v=0;v<(T?8:4);v++) for(int o=0;o<3;o++) for(int x=0;x<2;x++){ Spec&s=m.add(fmt("peers ranks %d variant %d order %d transfer %s",n,v,o,x?"late":"early"),l,n,{},{2,(double)v,T?5040.:720.}); s.order=o; s.xfer=x; }
    for(int n:{1,2,3,4,5,8}) for(int o=0;o<3;o++) for(int x=0;x<2;x++){ Spec&s=m.add(fmt("collectives ranks %d order %d transfer %s",n,o,x?"late":"early"),l,n,{},{3}); s.order=o; s.xfer=x; s.guard=n<4; } }
  for(auto&s:m.v) s.timeout=T?3000:200;
  E.assumptions={"MPI stand-ins: synchronous sends, non-overtaking per sender, receiver and tag; delivery before the receiver waits or only then","one message in flight per port and direction, as the layer is used"};
  // every placement of up to `bound` deviations of the ranks' order and of the transfers
  for(int n=2;n<=3;n++) for(int v=0;v<3;v++){ Spec s; s.lib=m.L[0]; s.nranks=n; s.par={2,(double)v,1}; s.sched=1; s.points=4; s.xfer=2; s.blockcost=1; int bound=T?n==2?3:2:n==2?2:1; s.id=fmt("peers explored ranks %d variant %d bound %d",n,v,bound); if(!want(s.id)) continue; XStats st; bool bad=false; explore(s,bound,T?200000:10000,st,[&](const Spec&q,Run&r){ E.states++; E.transitions+=r.steps; uint64_t h=1; for(auto&c:r.trace) h=fnv(&c.k,2,h); E.distinct.insert(fnv(s.id.data(),s.id.size(),h)); if(r.status==RUN_OK&&!r.pending) return true; Spec rp=q; rp.prefix.clear(); for(auto&c:r.trace) rp.prefix.push_back(c.k); violation(fmt("run:%s",run_status_name(r.status)),s.id+": "+(r.pending?S("messages were never received"):r.msg),&rp); bad=true; return false; },64,T?200:20); if(!st.complete&&!bad) E.exhaustive=false; printf("%s: %ld schedules %s\n",s.id.c_str(),st.runs,st.complete?"complete":"cut"); }
  return m.run(2); }
