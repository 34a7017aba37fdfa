#include "host.h"
#include <unistd.h>
#include <string.h>
static const char* ITEM[]={"step","time","ex","ey","ez","cbx","cby","cbz","tca","jf","rhob","materials","particles of species 0","particles of species 1","particle and mover counts","sort state","random numbers","user globals","absorption tallies","field energies","kinetic energies","hydro moments","controls","grid","material list","species list","object lists"};
int main(int argc,char**argv){ vmc_host_init(argc,argv); bool T=A.thorough; std::vector<int> L; for(auto&p:A.libs) L.push_back(load_lib(p,8));
  E.rule="one state = one execution of a complete parallel run under one order of ranks and message transfers, its results compared bit for bit with those of the reference order; transitions = scheduling steps";
  struct Deck{ const char*name; int bits,p[3],n[3],last,dumps; }; const int ALL=131071&~16384&~32768,U=131072; std::vector<Deck> D;
  auto add=[&](const char*nm,int bits,int px,int py,int pz,int last,int dumps=0,int nx=4,int ny=4,int nz=2){ Deck d={nm,bits,{px,py,pz},{nx,ny,nz},last,dumps}; D.push_back(d); };
  add("fields",16384|2|1024|8192,2,1,1,2); add("walls",16384|2|1024|4096,2,2,1,2,0); add("plain",1|2048,2,1,1,2); add("uneven",1|2048|U|512,4,1,1,3); add("uneven",1|U|1024|4096,1,2,2,3,0,2,4,4); add("bc",1|4|2048|4096,2,1,1,3); add("emit",8|4|512|65536,2,2,1,2); add("collide",1|16|32|64|128|256,1,2,1,3); add("all",ALL,2,1,1,2); add("all",ALL|U,2,2,1,3,0); add("metal",1|2|1024|32768|2048,2,2,1,2); add("dumps",1|2048|U|1024,2,2,1,1,1); add("dumps and checkpoint",ALL,1,2,1,1,2); add("three",1|1024|U,3,1,1,2,0,6,2,1); add("six",1|1024|4,3,2,1,2,0,6,4,1); add("line",1|1024|U,8,1,1,2,0,8,2,2); if(T){ add("cube",ALL,2,2,2,3,0,4,4,4); add("cube",1|1024|4096|4|U,2,2,2,3,1,4,4,4); }
  auto judge=[&](const Spec&s,Run&r,const Run&ref)->bool{ E.states++; E.evaluations++; E.traces++; E.transitions+=r.steps; Spec rp=s; if(r.trace.size()){ rp.prefix.clear(); for(auto&c:r.trace) rp.prefix.push_back(c.k); }
    if(r.status!=RUN_OK){ violation(fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&rp); return false; } if(r.pending){ violation("pending",s.id+fmt(": %d messages were never received",r.pending),&rp); return false; }
    for(size_t q=0;q<ref.blob.size();q++) for(auto&kv:ref.blob[q]){ const VD&a=kv.second,&b=r.b(q,kv.first); if(a.size()!=b.size()){ violation("missing",s.id+fmt(": %s of rank %zu has %zu items, %zu in the reference order",kv.first.c_str(),q,b.size(),a.size()),&rp); return false; } for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]&&!(a[i]!=a[i]&&b[i]!=b[i])){ S what=kv.first[0]=='t'&&i<27?ITEM[i]:kv.first; violation("differs "+what,s.id+fmt(": %s of rank %zu (%s): %s differs from the reference order",kv.first.c_str(),q,s.sched?"explored schedule":"deterministic order",what.c_str()),&rp); return false; } } return true; };
  std::map<S,Run> ref; std::vector<Spec> R,V; 
  for(size_t l=0;l<L.size();l++) for(auto&d:D){ if(l&&!T&&d.dumps==0&&d.bits!=ALL) continue; Spec s; s.lib=L[l]; s.nranks=d.p[0]*d.p[1]*d.p[2]; s.dir=true; s.timeout=120; s.argv={"--tpp",fmt("%d",1+(int)(d.last%2))}; s.par={0,(double)d.bits,(double)d.p[0],(double)d.p[1],(double)d.p[2],(double)d.n[0],(double)d.n[1],(double)d.n[2],(double)d.last,(double)d.dumps}; S key=fmt("%s bits=%x ranks=%dx%dx%d %s",d.name,d.bits,d.p[0],d.p[1],d.p[2],A.cfgs[l].c_str()); s.id=key; if(A.only.size()&&A.only.find(key)!=0&&key.compare(0,A.only.find('*')==S::npos?0:A.only.find('*'),A.only.substr(0,A.only.find('*')==S::npos?0:A.only.find('*')))!=0) continue; R.push_back(s); 
    for(int o=0;o<3;o++) for(int x=0;x<2;x++){ Spec c=s; c.order=o; c.xfer=x; c.perturb=o==1?0x3c:0xA7; c.id=key+fmt(" order=%d transfer=%s",o,x?"late":"early"); if(want(c.id)) V.push_back(c); } }
  double t=now(); run_all(R,[&](const Spec&s,Run&r){ if(r.status!=RUN_OK) violation(fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); else ref[s.id]=r; },1);
  run_all(V,[&](const Spec&s,Run&r){ if(A.verbose) { printf("%s steps %ld keys",s.id.c_str(),r.steps); for(auto&k:r.blob[0]) printf(" %s:%zu",k.first.c_str(),k.second.size()); puts(""); }  S key=s.id.substr(0,s.id.find(" order=")); E.distinct.insert(fnv(s.id.data(),s.id.size())); if(ref.count(key)) judge(s,r,ref[key]); },2); printf("%zu runs in fixed orders, %.1f s\n",V.size(),now()-t);
  // explored: every placement of up to `bound` deviations (another rank runs first at an MPI call, a transfer happens late)
  for(size_t i=0;i<R.size();i++){ Spec s=R[i]; if(!ref.count(s.id)) continue; if(!T&&s.nranks>4) continue; if(s.lib!=L[0]&&!T) continue; s.sched=1; s.points=4; s.xfer=2; s.blockcost=1; s.argv={"--tpp","1"}; s.par[8]=T?2:1; int bound=T||(s.nranks==2&&((int)s.par[1]&4096))?2:1; S key=s.id; s.id=key+fmt(" explored bound=%d",bound); if(!want(s.id)) continue; Spec b=s; b.sched=0; b.xfer=0; Run rr=run_one(b); if(rr.status!=RUN_OK) continue; XStats st; t=now(); 
    explore(s,bound,T?200000:20000,st,[&](const Spec&q,Run&r){ uint64_t h=1; for(auto&c:r.trace) h=fnv(&c.k,2,h); E.distinct.insert(fnv(s.id.data(),s.id.size(),h)); return judge(q,r,rr); },16,T?120:20);
    if(!st.complete) E.exhaustive=false; printf("%s: %ld schedules, up to %ld choices, %s, %.1f s\n",s.id.c_str(),st.runs,st.maxchoices,st.complete?"complete":"cut at the limit",now()-t); E.sample(fmt("%s: %ld schedules, %s",s.id.c_str(),st.runs,st.complete?"complete":"cut at the limit"),20); }
  // turnstiles
  for(int n=1;n<=(T?5:4);n++) for(int w=1;w<=n+1&&w<=4;w++) for(int q=1;q<=2;q++){ Spec s; s.lib=L[0]; s.nranks=n; s.par={1,(double)w,0,(double)q}; s.sched=1; s.points=4; s.xfer=2; s.blockcost=1; int bound=n<=3?3:2; s.id=fmt("turnstile ranks=%d width=%d rounds=%d bound=%d",n,w,q,bound); if(!want(s.id)) continue; XStats st; Run none; none.blob.resize(0); explore(s,bound,T?100000:6000,st,[&](const Spec&c,Run&r){ uint64_t h=1; for(auto&x:r.trace) h=fnv(&x.k,2,h); E.distinct.insert(fnv(s.id.data(),s.id.size(),h)); return judge(c,r,none); },64,T?30:3); if(!st.complete) E.exhaustive=false; printf("%s: %ld schedules %s\n",s.id.c_str(),st.runs,st.complete?"complete":"cut"); }
  E.assumptions={"MPI stand-ins: synchronous sends, non-overtaking per sender, receiver and tag; a transfer happens as soon as both sides are posted (early) or when one side waits (late)","executions with more deviations from the reference order than the bound are covered by the six fixed orders only"};
  return finish(); }
