#include "host.h"
#include "hv.h"
#include <string.h>
#include <math.h>
#include <algorithm>
// Every scenario runs in every build, with every number of pipelines and three ways to order the jobs of a dispatch.
struct Case { Spec s; S group; int lib, tpp, mode; };
static std::vector<Case> V; static std::vector<int> L; static std::set<S> ids; static std::map<S,Run> ref; static std::map<S,uint64_t> bits;
static const char* MODE[3]={"dispatcher","recorded","backwards"};
static void add(const S&name,int lib,int tpp,int mode,int nranks,VD par,S ops=""){ Case c; c.group=name; c.lib=lib; c.tpp=tpp; c.mode=mode; c.s.id=name+fmt(" %s tpp %d %s",A.cfgs[lib].c_str(),tpp,MODE[mode]); if(!ids.insert(c.s.id).second){ fprintf(stderr,"duplicate case %s\n",c.s.id.c_str()); exit(3);} par.resize(24); par[19]=mode; c.s.par=par; c.s.lib=L[lib]; c.s.nranks=nranks; c.s.argv={"--tpp",fmt("%d",tpp)}; c.s.spar={ops}; c.s.timeout=200; V.push_back(c); }
static bool compare(const S&id,const Spec*sp,const Run&a,const Run&r,int nranks,bool moving){ bool ok=true;
  for(int k=0;k<nranks&&ok;k++){ for(auto&b:a.bytes[k]){ auto it=r.bytes[k].find(b.first); if(it==r.bytes[k].end()||it->second!=b.second){ violation("bytes",id+": "+b.first+" differs between builds or pipeline counts",sp); return false; } E.transitions+=b.second.size(); }
    for(auto&b:a.blob[k]){ const VD&x=b.second,&y=r.b(k,b.first); if(x.size()!=y.size()){ violation("count",id+fmt(": '%s' has %zu values on rank %d, with one pipeline of the reference build %zu",b.first.c_str(),y.size(),k,x.size()),sp); return false; }
      double m=0; for(double v:x) if(!isnan(v)) m=std::max(m,fabs(v)); bool exact=b.first.compare(0,5,"exact")==0; double tol=exact?0:(moving?2e-4:8e-6)*m; E.transitions+=x.size();
      for(size_t i=0;i<x.size();i++) if(!(fabs(x[i]-y[i])<=tol)&&!(isnan(x[i])&&isnan(y[i]))){ violation(S("value ")+b.first,id+fmt(": '%s' value %zu of %zu on rank %d is %.9g, with one pipeline of the reference build %.9g (largest %.3g)",b.first.c_str(),i,x.size(),k,y[i],x[i],m),sp); return false; } } }
  return ok; }
int main(int argc,char**argv){ vmc_host_init(argc,argv); bool T=A.thorough; for(auto&p:A.libs) L.push_back(load_lib(p,8)); int NL=(int)L.size(); E.rule="one state = one run of a scenario in one build with one pipeline count and one order of its jobs; transitions = values compared";
  const char*OPS="b,B,e,c,r,d,D,m,M,s,j,R,x,y,E,n,N,xjbeb,rdDs,mMs"; std::vector<int> tpps=T?std::vector<int>{1,2,3,4,5,6,7,8,9,10,11,13,16,17,19}:std::vector<int>{1,2,3,5,8,11};
  int MS[][3]={{9,7,5},{2,2,2},{17,2,2},{5,3,9},{1,1,1},{3,33,2},{1,1,40},{1,6,7},{16,1,3},{4,4,4},{12,8,6},{21,5,1}}; int nm=T?12:7;
  auto field=[&](int mi,int nmat,double dmp,int first,int bc,int se){ int*N=MS[mi]; VD p; World w=World::make(N[0],N[1],N[2]); if(bc) for(int a=0;a<3;a++) if(N[a]>1){ w.bc[a]=bc; w.bc[a+3]=bc; } w.pack(p); p.resize(24); p[12]=nmat; p[13]=dmp; p[14]=first; p[15]=0; p[16]=se; p[18]=0; S nmx=fmt("fields mesh %dx%dx%d materials %d damping %g walls %d",N[0],N[1],N[2],nmat,dmp,bc); for(int l=0;l<NL;l++) for(int t:tpps) for(int md=0;md<3;md++){ if(!T&&md!=1&&(mi>1||t==1)) continue; add(nmx,l,t,md,1,p,OPS); } };
  for(int mi=0;mi<nm;mi++) for(int nmat=1;nmat<=3;nmat++) for(int bc=0;bc>=-4;bc--){ if(!T&&mi>1&&(nmat==2||(bc&&bc!=-(1+mi%4)))) continue; if(bc==-2) continue; field(mi,nmat,nmat==3?0.1:0,0,bc,3+mi); if(nmat==1&&bc==0&&(T||mi<2)) { int*N=MS[mi]; (void)N; } }
  std::vector<int> nps={0,1,2,7,15,16,17,31,33,47,48,63,64,65,100,129,257,400}; if(T) for(int n=3;n<200;n++) nps.push_back(n); std::sort(nps.begin(),nps.end()); nps.erase(std::unique(nps.begin(),nps.end()),nps.end());
  int PM[][3]={{5,4,3},{4,4,4},{3,3,3},{6,2,2},{7,3,1},{3,4,2},{2,5,4},{8,8,2}};
  for(int mi=0;mi<8;mi++) for(int np:nps) for(int bc=0;bc<3;bc++){ bool big=np==400||np==129; if(mi&&!T&&!(big&&bc==mi%3)) continue; if(mi&&T&&(np%7||np>200)&&!big) continue; if(!T&&bc!=np%3&&!big) continue; World w=World::make(PM[mi][0],PM[mi][1],PM[mi][2]); if(bc) for(int a=0;a<3;a++) if(w.n[a]>1) w.bc[a]=w.bc[a+3]=-1; VD p; w.pack(p); p.resize(24); p[12]=1; p[16]=9; p[18]=1; p[20]=np; p[21]=np+400; p[23]=bc==2; S nm=fmt("particles %d %s mesh %dx%dx%d",np,bc==0?"periodic":bc==1?"reflecting":"absorbing",PM[mi][0],PM[mi][1],PM[mi][2]); for(int l=0;l<NL;l++) for(int t:tpps) for(int md=0;md<3;md++){ if(!T&&md!=1&&(mi||(np!=400&&np!=47))) continue; add(nm,l,t,md,1,p); } }
  int PS[][3]={{1,1,1},{2,1,1},{1,2,2}}; for(int pi=0;pi<3;pi++) for(int bc=0;bc<2;bc++) for(int nmat=1;nmat<=3;nmat+=2){ if(!T&&pi==2&&nmat==3) continue; int N[3]={6,4,4}; World w=World::make(N[0],N[1],N[2],PS[pi][0],PS[pi][1],PS[pi][2]); if(bc) for(int a=0;a<3;a++) w.bc[a]=w.bc[a+3]=a==1?-1:-3; VD p; w.pack(p); p.resize(24); p[12]=nmat; p[13]=0.05; p[16]=5; p[18]=2; p[20]=300; p[22]=T?8:5; p[23]=0; S nm=fmt("steps ranks %dx%dx%d walls %d materials %d",PS[pi][0],PS[pi][1],PS[pi][2],bc,nmat); for(int l=0;l<NL;l++) for(int t:tpps) for(int md=0;md<3;md++){ if(!T&&pi&&md!=2&&t!=3) continue; add(nm,l,t,md,w.nranks(),p); } }
  // rich set-ups: only the order of jobs must not matter, bit for bit
  int RB[]={1|32|1024|2048,1|64|128|2048,1|256|2048,16|2,131071&~16384&~32768}; for(int bi=0;bi<5;bi++) for(int l=0;l<NL;l++) for(int t:tpps) { if(!T&&(t==1||t==8)) continue; VD p(24); p[0]=4; p[1]=3; p[2]=bi==4?2:3; p[18]=3; p[20]=RB[bi]; p[22]=T?6:3; for(int md=0;md<3;md++) add(fmt("objects %d tpp %d %s",bi,t,A.cfgs[l].c_str()),l,t,md,1,p); }
  std::vector<Spec> q1,q2; std::map<S,const Case*> by; std::set<S> need; for(auto&c:V) if(want(c.s.id)) need.insert(c.group); 
  std::map<S,const Case*> refc; for(auto&c:V){ if(!need.count(c.group)) continue; auto it=refc.find(c.group); if(it==refc.end()||(c.lib==it->second->lib&&c.tpp==it->second->tpp&&c.mode==1&&it->second->mode!=1)) refc[c.group]=&c; by[c.s.id]=&c; }
  for(auto&r:refc) q1.push_back(r.second->s); std::set<S> isref; for(auto&s:q1) isref.insert(s.id); for(auto&c:V) if(need.count(c.group)&&!isref.count(c.s.id)&&want(c.s.id)) q2.push_back(c.s);
  double t0=now(),nd=0,na=0,nc=0; auto base=[&](const Spec&s,Run&r)->bool{ if(r.status!=RUN_OK){ violation(r.status==RUN_FAIL?S("fail:")+r.msg.substr(0,r.msg.find(':')):fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); return false; } if(r.pending){ violation("pending",s.id+fmt(": %d messages were never received",r.pending),&s); return false; } E.states++; E.evaluations++; E.traces++; E.distinct.insert(fnv(s.id.data(),s.id.size())); nd+=r.c("dispatches"); na+=r.c("instrumented_accesses"); nc+=r.c("conflict_cells"); return true; };
  auto same=[&](const Case&c,const Spec&s,Run&r){ S k=fmt("%s|%d|%d",c.group.c_str(),c.lib,c.tpp); uint64_t h=r.hash(); auto it=bits.find(k); if(it==bits.end()) bits[k]=h; else if(it->second!=h) violation("order",s.id+": the result depends on the order in which the jobs of a dispatch run",&s); };
  run_all(q1,[&](const Spec&s,Run&r){ if(!base(s,r)) return; const Case&c=*by[s.id]; same(c,s,r); ref[c.group]=r; },2);
  run_all(q2,[&](const Spec&s,Run&r){ if(!base(s,r)) return; const Case&c=*by[s.id]; same(c,s,r); auto it=ref.find(c.group); if(it==ref.end()) return; compare(s.id,&s,it->second,r,c.s.nranks,c.s.par[18]==2); },4);
  E.put("dispatches",nd); E.put("accesses_recorded",na); E.put("bytes_shadowed",nc); E.assumptions={"jobs of one dispatch that touch no common byte with a write commute, so the recorded order stands for every interleaving; accesses inside inline assembly and non-temporal stores are not recorded and are covered by the bitwise comparison of three orders","results of different builds and pipeline counts agree to 8e-6 of the largest value after one kernel and 2e-4 after several steps"}; 
  printf("%zu cases, %.0f states, %.0f comparisons, %.0f dispatches, %.1f s\n",q1.size()+q2.size(),E.states,E.transitions,nd,now()-t0); for(size_t i=0;i<q2.size();i+=q2.size()/6+1) E.sample(q2[i].id); return finish(); }
