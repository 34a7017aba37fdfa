// C04 / C13 (and the field half of C14): every case is run on the real kernels and on the global model; all shared copies must agree with the model.
#include "host.h"
#include "field_model.h"
struct Case { Spec s; World w; int nmat, m0, mode, seed, partial; double damp; std::vector<S> ops; double tol; };
static std::vector<Case> cases;
static void add(World w,int nmat,int m0,double damp,int mode,int seed,int partial,const S&ops,int tpp,int lib,double tol=1e-5){ Case c; c.w=w; c.nmat=nmat;c.m0=m0;c.mode=mode;c.seed=seed;c.partial=partial;c.damp=damp;c.tol=tol; S t; for(char q:ops+S(",")) if(q==','){ c.ops.push_back(t); t.clear(); } else t+=q;
  w.pack(c.s.par); for(double v:{(double)nmat,damp,(double)m0,(double)mode,(double)seed,(double)partial}) c.s.par.push_back(v); c.s.spar={ops}; c.s.lib=lib; c.s.nranks=w.nranks(); c.s.order=(w.nranks()+seed)%3; c.s.xfer=seed%2; c.s.timeout=240; c.s.argv={"--tpp",fmt("%d",tpp)};
  c.s.id=fmt("mesh=%dx%dx%d ranks=%dx%dx%d bc=%d,%d,%d/%d,%d,%d mat=%d:%d damp=%g tpp=%d %s partial=%x seed=%d ops=%s",w.n[0],w.n[1],w.n[2],w.p[0],w.p[1],w.p[2],w.bc[0],w.bc[1],w.bc[2],w.bc[3],w.bc[4],w.bc[5],nmat,m0,damp,tpp,mode?"impulses":"dense",partial,seed,ops.size()>40?(ops.substr(0,37)+"...").c_str():ops.c_str())+" "+A.cfgs[lib]; cases.push_back(c); }
static void compare(const Case&c,Run&r,const Spec&sp){
  if(r.status!=RUN_OK){ violation(fmt("run:%s",run_status_name(r.status)),c.s.id+": "+r.msg,&sp); return; }
  if(r.pending) { violation("pending",c.s.id+fmt(": %d messages were never received",r.pending),&sp); return; }
  GM g(c.w,c.nmat,c.m0,c.damp); World w=c.w; std::vector<size_t> pos(w.nranks(),0); VD en,rms; size_t nstates=0; long sites=0;
  // positions in the emitted stream
  auto check=[&](const S&op,const S&what)->bool{ double scale=1; for(auto&f:g.F) for(double x:f) if(fabs(x)<1e6) scale=std::max(scale,fabs(x)); double tol=c.tol*scale; 
    for(int rk=0;rk<w.nranks();rk++){ const VD&b=r.b(rk,"state"); int ix[3]; w.index(rk,ix); for(int cc=0;cc<NCOMP;cc++){ int h[3]; for(int a=0;a<3;a++) h[a]=w.ln(a)+((STAG[cc]>>a&1)?0:1); for(int k=1;k<=h[2];k++) for(int j=1;j<=h[1];j++) for(int i=1;i<=h[0];i++){ int l[3]={i,j,k},I[3]; for(int a=0;a<3;a++) I[a]=w.glob(a,ix[a],l[a],STAG[cc]>>a&1); if(pos[rk]>=b.size()){ violation("emit",c.s.id+": output is short",&sp); return false; } double v=b[pos[rk]++], m=g.at(cc,I); sites++; if(!(fabs(v-m)<=tol)){ violation(fmt("%s:%s",op.c_str(),CNAME[cc]),c.s.id+fmt(": after %s%s, %s at global (%d,%d,%d) [rank %d local (%d,%d,%d)] is %.9g, the discrete equations give %.9g",op.c_str(),what.c_str(),CNAME[cc],I[0],I[1],I[2],rk,i,j,k,v,m),&sp); return false; } } } } return true; };
  for(auto&o:c.ops){ 
    if(c.mode==0){ g.dense(c.seed,c.partial); for(char ch:o) g.apply(ch,&en,&rms); nstates++; if(!check(o,"")) return; }
    else for(int cc=0;cc<DIVE;cc++){ bool ok=true; g.loop(STAG[cc],[&](int*I){ if(!ok) return; g.zero(); g.at(cc,I)=1; for(char ch:o) g.apply(ch,&en,&rms); nstates++; ok=check(o,fmt(" of a unit %s at (%d,%d,%d)",CNAME[cc],I[0],I[1],I[2])); }); if(!ok) return; } 
    E.distinct.insert(fnv(o.data(),o.size(),fnv(c.s.id.data(),c.s.id.size()))); }
  for(int rk=0;rk<w.nranks();rk++){ const VD&e=r.b(rk,"energy"),&n=r.b(rk,"rms"); if(e.size()!=en.size()||n.size()!=rms.size()){ violation("emit",c.s.id+": missing scalar results",&sp); return; }
    for(size_t i=0;i<en.size();i++) if(!(fabs(e[i]-en[i])<=2e-5*(fabs(en[i])+1e-6))){ violation(fmt("energy%zu",i%6),c.s.id+fmt(": rank %d reports energy component %zu = %.9g, the state holds %.9g",rk,i%6,e[i],en[i]),&sp); return; }
    for(size_t i=0;i<rms.size();i++) if(!(fabs(n[i]-rms[i])<=2e-5*(fabs(rms[i])+0.05))){ violation("rms",c.s.id+fmt(": rank %d reports rms divergence error %.9g, over all global sites it is %.9g",rk,n[i],rms[i]),&sp); return; }
    const VD&s=r.b(rk,"sync"); for(double x:s){ if(!(x>=0)) { violation("syncerr",c.s.id+": synchronisation error is not a number",&sp); return; } if(c.partial==0&&x>1e-8*sites){ violation("syncerr",c.s.id+fmt(": synchronisation of consistent faces reports an error of %g",x),&sp); return; } if((c.partial&0x3f)&&w.nranks()>1&&x<1e-3){ violation("syncerr",c.s.id+fmt(": synchronisation of different faces reports an error of only %g",x),&sp); return; } } }
  E.states+=nstates; E.transitions+=sites; E.traces+=nstates; E.evaluations+=nstates; }
static std::vector<S> seqs(const std::vector<S>&al,int depth){ std::vector<S> out={""},cur={""}; for(int d=0;d<depth;d++){ std::vector<S> nx; for(auto&a:cur) for(auto&b:al) nx.push_back(a+b); out.insert(out.end(),nx.begin(),nx.end()); cur=nx; } out.erase(out.begin()); return out; }
static S join(const std::vector<S>&v){ S r; for(auto&x:v) r+=(r.empty()?"":",")+x; return r; }
int main(int argc,char**argv){ vmc_host_init(argc,argv); bool T=A.thorough; int NL=A.libs.size(); std::vector<int> L; for(auto&p:A.libs) L.push_back(load_lib(p,8));
  const int bcs[5]={0,-1,-2,-3,-4}; bool cl=A.prop=="C13", en=A.prop=="C14";
  S iops=cl?"d,dD,m,mM,dDd,mMm":en?"E":"b,e,c,r";
  // 1. unit impulses in every component and site (the operators are linear: this fixes them completely), all wall combinations
  for(int l=0;l<NL;l++) { if(!en) for(int x:bcs) for(int y:bcs) for(int z:bcs) for(int m=0;m<2;m++){ World w=World::make(2,2,2,1,1,1,x,y,z); add(w,m?3:1,0,0,1,0,0,iops,1,l); }
  if(!en) for(int a=0;a<3;a++) for(int lo:bcs) for(int hi:bcs) if(lo&&hi&&lo!=hi){ World w=World::make(2,2,2); w.bc[a]=lo; w.bc[a+3]=hi; add(w,3,0,0,1,0,0,iops,1,l); if(T) add(w,1,1,0,1,0,0,iops,2,l); }
  if(!en) { int ms[][3]={{1,2,2},{2,1,2},{2,2,1},{1,1,3},{3,1,1},{1,3,1}}; for(auto&m:ms) for(int lo:{0,-1,-3}) { World w=World::make(m[0],m[1],m[2],1,1,1,lo,lo,lo); add(w,3,0,0,1,0,0,iops,1,l); add(w,1,1,0,1,0,0,iops,1,l);} } }
  // 2. dense states, all operation sequences up to a depth, over partitions, walls, materials, damping, pipelines
  std::vector<S> al=cl?std::vector<S>{"dDn","mMN","s","b"}:en?std::vector<S>{"E","b","e"}:std::vector<S>{"b","e","s","c","r"};
  S so=join(seqs(al,T?4:3)); if(!cl&&!en) so+=",beb,bebbebbeb,ebebs";
  struct P{int n[3],p[3];}; std::vector<P> ps={{{4,2,2},{1,1,1}},{{4,2,2},{2,1,1}},{{2,4,2},{1,2,1}},{{2,2,4},{1,1,2}},{{4,4,2},{2,2,1}},{{2,4,4},{1,2,2}},{{4,2,4},{2,1,2}},{{4,4,4},{2,2,2}},{{6,2,2},{3,1,1}},{{2,6,2},{1,3,1}},{{2,2,6},{1,1,3}},{{6,5,4},{1,1,1}},{{6,5,4},{2,1,1}},{{5,6,4},{1,3,2}},{{1,4,4},{1,2,2}},{{4,1,4},{2,1,2}},{{4,4,1},{2,2,1}},{{8,1,1},{4,1,1}},{{1,8,1},{1,4,1}},{{1,1,8},{1,1,4}}};
  if(T) { ps.push_back({{12,5,4},{2,1,2}}); ps.push_back({{5,12,3},{1,4,1}}); ps.push_back({{20,4,3},{1,1,1}}); ps.push_back({{6,6,4},{3,2,1}}); ps.push_back({{4,6,6},{1,2,3}}); }
  int ci=0; for(auto&p:ps) { std::vector<std::vector<int>> bl={{0,0,0,0,0,0},{-1,-1,-1,-1,-1,-1},{-2,-2,-2,-2,-2,-2},{-3,-3,-3,-3,-3,-3},{-4,-4,-4,-4,-4,-4},{-4,-1,0,-3,-2,0},{0,-4,-1,0,-4,-2},{-3,0,-4,-1,0,-4}}; 
    for(auto&b:bl) for(int m=0;m<3;m++){ World w=World::make(p.n[0],p.n[1],p.n[2],p.p[0],p.p[1],p.p[2]); bool ok=true; for(int a=0;a<3;a++){ w.bc[a]=b[a]; w.bc[a+3]=b[a+3]; if(w.n[a]==1) w.bc[a]=w.bc[a+3]=0; } ci++; int vol=p.n[0]*p.n[1]*p.n[2]; double damp=(ci%3)*0.125; bool small=vol*seqs(al,T?4:3).size()<20000;
      S o=(!cl&&!en&&!T&&vol>48)?S("b,e,c,r,beb,bebbebbeb,ebebs"):so; 
      for(int l=0;l<NL;l++) add(w,m==1?3:1,m==2?1:0,damp,0,ci%7,0,o,1+ci%3,l,3e-5);
    } }
  // 3. shared-site sums: every rank starts from its own contributions
  if(!en) { ci=0; for(auto&p:ps) for(int b:bcs) for(int m=0;m<(cl?1:2);m++) for(int l=0;l<NL;l++){ World w=World::make(p.n[0],p.n[1],p.n[2],p.p[0],p.p[1],p.p[2],b,b,b); for(int a=0;a<3;a++) if(w.n[a]==1) w.bc[a]=w.bc[a+3]=0; ci++; if(!cl) add(w,1,0,0,0,ci%5,m?7<<JX:3<<RHOF,m?"j,jsbe,x,jsbebsbeb":"R,Rd,Ry,RdD",1+ci%2,l,2e-5); add(w,1,0,0,0,ci%5,0x3f|(7<<TX),"s",1,l,2e-5); } }
  std::vector<Spec> v; std::map<S,Case*> by; for(auto&c:cases) if(want(c.s.id)&&!by.count(c.s.id)){ v.push_back(c.s); by[c.s.id]=&c; }
  E.rule=S("one case = mesh x partition x walls x materials x damping x pipelines; each case runs a complete set (unit impulse in every component and site, or all operation sequences up to depth ")+(T?"4":"3")+") on the real kernels and on the global model; states = model states compared, transitions = site values compared";
  double t=now(); run_all(v,[&](const Spec&s,Run&r){ compare(*by[s.id],r,s); },4);
  printf("%zu cases, %.0f states, %.0f site values, %.1f s\n",v.size(),E.states,E.transitions,now()-t); for(size_t i=0;i<v.size();i+=v.size()/6+1) E.sample(v[i].id);
  E.assumptions={"values agree to 1e-5 (impulses) or 3e-5 (sequences) of the largest value, i.e. smaller deviations count as rounding","axes with one global cell are periodic in the sequence cases; a rank has at least two cells along every axis with more than one global cell","meshes up to 6x5x4 cells (thorough: 20x4x3), 1-8 ranks"};
  return finish(); }
