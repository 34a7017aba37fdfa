#include "simple.h"
#include <math.h>
int main(int argc,char**argv){ Simple m; m.init(argc,argv); bool T=m.T; E.rule="one state = one raw word, draw sequence, permutation input or pool configuration, executed on the real generator and judged against an independent generator, the documented lattice or an exact distribution";
  int P=16; for(int l=0;l<m.NL();l++) {
    if(l==0||T) for(int p=0;p<P;p++) m.add(fmt("single %d/%d",p,P),l,1,{},{0,floor(4294967296./P/256*p)*256,p==P-1?4294967296.:floor(4294967296./P/256*(p+1))*256});
    m.add("double",l,1,{},{1,(double)T}); m.add("exponential",l,1,{},{2});
    int jb=T?18:15; for(int d=0;d<2;d++) for(int p=0;p<8;p++) m.add(fmt("normal%d %d/8",d,p),l,1,{},{(double)(3+d),(double)(jb-2*d),(double)p,8});
    for(int n=2;n<=(T?5:4);n++) for(int s=0;s<2;s++) m.add(fmt("%s of %d",s?"shuffle":"randperm",n),l,1,{},{5,(double)n,(double)s}); m.add("orders",l,1,{},{6});
    m.add("streams",l,1,{},{7,0,-1}); for(int f=0;f<16;f++) m.add(fmt("mixes first=%d",f),l,1,{},{7,T?5.:3.,(double)f}); m.add("fills",l,1,{},{8});
    for(int nr:{1,2,3,5,8}) for(int n:{1,2,3,7}) m.add(fmt("pools %d ranks %d generators",nr,n),l,nr,{},{9,(double)n,T?60.:20.});
    for(int nr:{1,2,4}) for(int tpp:{1,3,4}) for(int sd:{0,1,17}) m.add(fmt("simulation %d ranks seed %d",nr,sd),l,nr,{"--tpp",fmt("%d",tpp)},{10,(double)sd}); }
  for(auto&s:m.v) s.timeout=600;
  std::map<S,std::pair<VD,VD> > hist; std::map<S,int> parts; VD th;
  m.more=[&](const Spec&s,Run&r){ if(r.c("noinject")) { E.exhaustive=false; return true; } 
    if(r.has(0,"hist")){ S key=fmt("%g %s",s.par[0],A.cfgs[0].c_str())+fmt(" lib %d",s.lib); VD h=r.b(0,"hist"), mm=r.b(0,"mom"); th=r.b(0,"th"); auto&q=hist[key]; q.first.resize(h.size()); q.second.resize(2); for(size_t i=0;i<h.size();i++) q.first[i]+=h[i]; for(int i=0;i<2;i++) q.second[i]+=mm[i]; if(++parts[key]==8){ double tot=0,c=0; for(double x:q.first) tot+=x; double worst=0,at=0; for(size_t k=0;k<th.size();k++){ c+=q.first[k]; double d=fabs(c/tot-0.5*erfc(-th[k]/sqrt(2.))); if(d>worst) worst=d, at=th[k]; } double v=q.second[0]/tot,k4=q.second[1]/tot; if(A.verbose) printf("normal %s: cdf error %.2e at %g, var %.5f, 4th %.4f\n",key.c_str(),worst,at,v,k4); if(worst>1.5e-5||fabs(v-1)>1e-4||fabs(k4-3)>1e-3) violation("normal",s.id+fmt(": over %.0f stratified raw words the distribution function is off by %.2e at x=%g, variance %.5f, fourth moment %.4f",tot,worst,at,v,k4),&s); } }
    if(s.par[0]==9||s.par[0]==10){ std::map<VD,S> seen; int n=s.nranks; for(int r0=0;r0<n;r0++) for(auto&kv:r.blob[r0]) { if(kv.first[0]!='l'&&kv.first[0]!='s') continue; int seed=atoi(kv.first.c_str()+1); bool sync=kv.first[0]=='s'; const VD&d=kv.second; if(seed>=1000){ if(d!=r.b(r0,fmt("l%d",seed-1000))) violation("reseed",s.id+fmt(": reseeding the pool does not give what a new pool with that seed gives (rank %d seed %d)",r0,seed-1000),&s); continue; } 
        if(sync){ if(d!=r.b(0,kv.first)) violation("sync",s.id+fmt(": the synchronous generators of rank %d differ from those of rank 0",r0),&s); if(r0) continue; }
        for(size_t k=0;k<d.size();k+=3){ VD f(d.begin()+k,d.begin()+k+3); S who=fmt("%s rank %d slot %zu seed %d",sync?"sync":"local",r0,k/3,seed); auto it=seen.find(f); if(it!=seen.end()) violation("overlap",s.id+": "+who+" and "+it->second+" start from the same state",&s); seen[f]=who; E.transitions++; } } }
    return true; };
  E.assumptions={"raw words are injected by overwriting the generator's current block, found by content; if the layout cannot be recognised the word cases are skipped and coverage is reported as not exhaustive","double-precision conversions: boundary words and structured words only (2^64 words cannot be enumerated)","normal deviates: first word stratified over all low bits and 2^13..2^18 slices, second and third word over 16x16 slices where they matter"}; return m.run(1); }
