#include "simple.h"
#include <unistd.h>
static const char* ITEM[]={"step","time","ex","ey","ez","cbx","cby","cbz","tca","jf","rhob","materials","particles of species 0","particles of species 1","particle and mover counts","sort state","random numbers","user globals","absorption tallies","field energies","kinetic energies","hydro moments","controls","grid","material list","species list","object lists"};
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = (set-up, step at which the run is interrupted, step observed afterwards) whose complete digest is compared bit for bit with the uninterrupted run; transitions = digest items compared";
  struct Deck{ const char*name; int bits,p[3],n[3]; int tpp; }; std::vector<Deck> D; const int ALL=131071&~16384&~32768;
  auto add=[&](const char*nm,int bits,int px,int py,int pz,int tpp=1,int nx=4,int ny=4,int nz=2){ Deck d={nm,bits,{px,py,pz},{nx,ny,nz},tpp}; D.push_back(d); };
  add("fields",16384|2|1024|8192,1,1,1); add("fields",16384|2|1024|4096,2,1,1); add("plain",1|2048|1024,1,1,1); add("plain",1|2048,2,2,1,2); add("bc",1|4|2048|4096,2,1,1); add("emit",1|8|2048,1,1,1,2); add("emit",1|8|4|2048|65536|512,2,1,1); add("langevin",1|16,1,1,1,3); add("ta",1|32|2048,1,1,1,2); add("hs",1|64|2048,1,2,1); add("lac",1|128|2048,1,1,1,2); add("fluid",1|256,2,1,1,2); add("inject",1|512|65536|2048|8192,1,1,1); add("inject",512|1024|8192,1,2,2); add("all",ALL,1,1,1,2); add("all",ALL,2,2,1,1); add("metal",1|2|32768|1024|2048,2,1,1);
  { for(int b=1;b<14;b++) add(strdup(fmt("bit%d",b).c_str()),1|(1<<b),2,1,2,2,4,2,4); if(T) for(int b=1;b<14;b++) for(int c=b+1;c<14;c++){ add(strdup(fmt("pair%d.%d",b,c).c_str()),1|(1<<b)|(1<<c),1,2,1,2,4,4,2); add(strdup(fmt("all but %d and %d",b,c).c_str()),(ALL&~(1<<b)&~(1<<c))|1,2,1,1,1,4,4,4); } add("all",ALL,2,1,2,3,4,4,4); add("all",ALL,4,2,1,1,8,4,2); add("all",ALL&~4096,2,2,2,2,4,4,4); }
  int N=T?10:7; S scratch=make_scratch("c07"); std::map<S,std::vector<std::map<S,VD> > > base; std::map<S,S> dirs; 
  auto argv_of=[&](const Deck&d){ return std::vector<S>{"--tpp",fmt("%d",d.tpp)}; };
  auto pars=[&](const Deck&d,int last,int mask){ VD v={(double)d.bits,(double)d.p[0],(double)d.p[1],(double)d.p[2],(double)d.n[0],(double)d.n[1],(double)d.n[2],(double)last,(double)mask}; return v; };
  std::vector<Spec> A1,A2,A3,A4; struct Info{ S key; int from; }; std::map<S,Info> info; int uniq=0;
  for(int l=0;l<m.NL();l++) for(auto&d:D){ S key=fmt("%s bits=%x ranks=%dx%dx%d tpp=%d %s",d.name,d.bits,d.p[0],d.p[1],d.p[2],d.tpp,A.cfgs[l].c_str()); if(A.only.size()&&key.compare(0,A.only.find('*')==S::npos?A.only.size():A.only.find('*'),A.only.substr(0,A.only.find('*')))!=0) continue; S dir=scratch+fmt("/%d",uniq++); if(system(("mkdir -p "+dir).c_str())) return 3; dirs[key]=dir; int nr=d.p[0]*d.p[1]*d.p[2];
    Spec s; s.lib=m.L[l]; s.nranks=nr; s.usedir=dir; s.timeout=120; s.argv=argv_of(d);
    s.id=key+" uninterrupted"; s.par=pars(d,N,0); s.spar={"none"}; info[s.id]={key,-1}; A1.push_back(s);
    s.id=key+" checkpointing"; s.par=pars(d,N,(1<<N)-1); s.spar={"a"}; s.perturb=0x4b; info[s.id]={key,-2}; A1.push_back(s);
    for(int k=0;k<N;k++){ s.id=key+fmt(" restored after step %d",k); s.argv=argv_of(d); s.argv.push_back("--restore"); s.argv.push_back(fmt("a.%d",k)); s.perturb=k&1?0x4b:0xC3; s.par=pars(d,N,((1<<N)-1)&~((2<<k)-1)); s.spar={fmt("b%d",k)}; info[s.id]={key,k}; A2.push_back(s);
      for(int j=k+1;j<N;j++){ if(!T&&j!=k+1&&j!=k+2&&j!=N-1) continue; Spec c=s; c.id=key+fmt(" restored after step %d and again after %d",k,j); c.argv.back()=fmt("b%d.%d",k,j); c.par=pars(d,N,0); c.perturb=0x11; info[c.id]={key,j}; A3.push_back(c); } }
    // names of all lengths
    if((S(d.name)=="plain"&&nr==1)||S(d.name)=="bc") for(int len:{180,230,242,246,248,249,250,251,252,253,254,255,256,257,258,260,300,1000,3000}){ if(!T&&nr>1&&len%50&&len!=251&&len!=252&&len!=257) continue; S base; while((int)base.size()+200<len) base+=S(190,'d')+"/"; if(base.size()&&system(("mkdir -p "+dir+"/"+base).c_str())) return 3; base+=S(len-(int)base.size(),'f'); Spec c; c.lib=m.L[l]; c.nranks=nr; c.usedir=dir; c.timeout=120; c.argv=argv_of(d); c.id=key+fmt(" checkpointing to a name of %d characters",len); c.par=pars(d,N,4); c.spar={base}; info[c.id]={key,-2}; A1.push_back(c); c.id=key+fmt(" restored from a name of %d characters",len); c.argv.push_back("--restore"); c.argv.push_back(base+".2"); c.par=pars(d,N,0); c.spar={"none"}; info[c.id]={key,2}; A2.push_back(c); }
    // checkpoints that do not fit the run
    auto bad=[&](const S&what,int nranks,int tpp,const S&file){ Spec c; c.lib=m.L[l]; c.nranks=nranks; c.usedir=dir; c.id=key+" refuse "+what; c.argv={"--tpp",fmt("%d",tpp),"--restore",file}; c.par=pars(d,N,0); c.spar={"none"}; c.timeout=120; info[c.id]={key,-9}; A4.push_back(c); };
    bad("more pipelines",nr,d.tpp+1,"a.2"); if(d.tpp>1) bad("fewer pipelines",nr,d.tpp-1,"a.2"); if(nr>1){ bad("fewer ranks",nr/2,d.tpp,"a.2"); bad("one rank",1,d.tpp,"a.2"); if(system(("cp "+dir+"/a.2.0 "+dir+"/x 2>/dev/null; true").c_str())) return 3; } bad("more ranks",nr+1,d.tpp,"w.2"); if(nr>1) bad("swapped ranks",nr,d.tpp,"v.2"); }
  std::vector<S> failed; auto judge=[&](const Spec&s,Run&r){ Info in=info[s.id]; if(r.status!=RUN_OK){ violation(fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); return; } if(r.pending){ violation("pending",s.id,&s); return; }
    if(in.from==-1){ base[in.key]=r.blob; return; } auto it=base.find(in.key); if(it==base.end()) return; E.traces++; int first=in.from<0?0:in.from+1; for(int t=first;t<=N;t++){ E.states++; E.evaluations++; E.distinct.insert(fnv(s.id.data(),s.id.size(),t)); for(int q=0;q<s.nranks;q++){ const VD&a=it->second[q][fmt("t%d",t)],&b=r.b(q,fmt("t%d",t)); E.transitions+=a.size(); if(a.empty()||a.size()!=b.size()){ violation("missing",s.id+fmt(": step %d of rank %d was not reached (%zu, %zu items)",t,q,a.size(),b.size()),&s); return; } for(size_t i=0;i<a.size();i++) if(a[i]!=b[i]&&!(a[i]!=a[i]&&b[i]!=b[i])){ violation(S("differs ")+ITEM[i],s.id+fmt(": at step %d on rank %d: %s differ from the uninterrupted run",t,q,ITEM[i]),&s); return; } } } };
  double t0=now(); std::vector<Spec> p1,p1b; for(auto&s:A1) (info[s.id].from==-1?p1:p1b).push_back(s); run_all(p1,judge,4); run_all(p1b,judge,4); run_all(A2,judge,4); run_all(A3,judge,4);
  for(auto&s:A4){ S dir=s.usedir; if(s.id.find("more ranks")!=S::npos) system(fmt("for i in %s/a.2.*; do cp $i %s/w.2.${i##*.}; done; cp %s/a.2.0 %s/w.2.%d",dir.c_str(),dir.c_str(),dir.c_str(),dir.c_str(),s.nranks-1).c_str()); if(s.id.find("swapped")!=S::npos) system(fmt("for i in %s/a.2.*; do cp $i %s/v.2.${i##*.}; done; cp %s/a.2.0 %s/v.2.1; cp %s/a.2.1 %s/v.2.0",dir.c_str(),dir.c_str(),dir.c_str(),dir.c_str(),dir.c_str(),dir.c_str()).c_str()); }
  run_all(A4,[&](const Spec&s,Run&r){ E.states++; E.evaluations++; E.traces++; E.transitions++; E.distinct.insert(fnv(s.id.data(),s.id.size())); if(r.status==RUN_ERROR) return; violation(fmt("accepted:%s",run_status_name(r.status)),s.id+": a checkpoint that does not fit this run was not refused with an error: "+run_status_name(r.status)+" "+r.msg,&s); },4);
  printf("%zu uninterrupted, %zu with checkpoints, %zu restores, %zu chained restores, %zu misfits, %.1f s\n",p1.size(),p1b.size(),A2.size(),A3.size(),A4.size(),now()-t0); remove_tree(scratch); for(size_t i=0;i<A3.size();i+=A3.size()/6+1) E.sample(A3[i].id);
  E.assumptions={"the digest covers field values on the faces, edges, nodes and cells of the local domain, particles in order, counts, generators, user globals, tallies, energies, moments, grid, materials and controls","ranks run under the deterministic schedule; independence of the schedule is the business of C05 and C09","the restored run lives in another copy of the program at other addresses, with other contents of fresh memory"}; return finish(); }
