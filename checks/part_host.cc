// C01 (continuity) and C03 (where every particle ends up): lattices of particles x walls x partitions x pipelines, on the real time step.
#include "host.h"
#include "plat.h"
#include <string.h>
struct Case { Spec s; World w; int pbc[6], steps, kind, per, nsp, rounds; double um; bool charged; };
static std::vector<Case> cases;
static Case& add(World w,const int*pbc,int steps,int kind,double um,int per,bool charged,int rounds,double slack,double movers,double dts,int sorti,int nsp,int tpp,int lib,const S&cfg){
  cases.emplace_back(); Case&c=cases.back(); c.w=w; c.w.dt*=dts; memcpy(c.pbc,pbc,sizeof c.pbc); c.steps=steps;c.kind=kind;c.um=um;c.per=per;c.charged=charged;c.rounds=rounds;c.nsp=nsp;
  w.pack(c.s.par); for(int f=0;f<6;f++) c.s.par.push_back(pbc[f]); for(double v:{(double)steps,(double)kind,um,(double)per,(double)charged,(double)rounds,slack,movers,dts,(double)sorti,(double)nsp,(double)charged}) c.s.par.push_back(v);
  c.s.lib=lib; c.s.nranks=w.nranks(); c.s.order=(cases.size())%3; c.s.xfer=cases.size()%2; c.s.timeout=40; c.s.argv={"--tpp",fmt("%d",tpp)};
  c.s.id=fmt("%s mesh=%dx%dx%d ranks=%dx%dx%d field=%d,%d,%d/%d,%d,%d particle=%d,%d,%d/%d,%d,%d lattice=%d/%d |u|=%g dt=%.4g steps=%d rounds=%d slack=%g movers=%g sort=%d species=%d tpp=%d",cfg.c_str(),w.n[0],w.n[1],w.n[2],w.p[0],w.p[1],w.p[2],w.bc[0],w.bc[1],w.bc[2],w.bc[3],w.bc[4],w.bc[5],pbc[0],pbc[1],pbc[2],pbc[3],pbc[4],pbc[5],kind,per,um,c.w.dt,steps,rounds,slack,movers,sorti,nsp,tpp); return c; }
struct Exp { double x[3]; bool gone, amb; };
static void check_C03(const Case&c,Run&r,const Spec&sp){ const World&w=c.w; std::vector<GP> L=plattice(w,c.kind,c.um,c.per,c.nsp); std::map<std::pair<int,float>,int> id; std::vector<std::vector<double>> X(L.size()),U(L.size()); std::vector<int> gone(L.size(),0);
  for(size_t i=0;i<L.size();i++){ id[{L[i].sp,L[i].w}]=i; for(int a=0;a<3;a++){ X[i].push_back(L[i].cell[a]-1+(L[i].off[a]+1)/2); U[i].push_back((float)L[i].u[a]); } }
  std::vector<size_t> pos(w.nranks(),0); 
  for(int st=0;st<c.steps;st++){ std::vector<int> flipok(L.size()*3,0);
    for(size_t i=0;i<L.size();i++){ if(gone[i]==1) continue; double g=sqrt(1+U[i][0]*U[i][0]+U[i][1]*U[i][1]+U[i][2]*U[i][2]); 
      for(int a=0;a<3;a++){ double s=U[i][a]/g*w.c*w.dt/w.d[a]; X[i][a]+=s; double n=w.n[a]; 
        for(int side=0;side<2;side++){ double over=side?X[i][a]-n:-X[i][a]; int bc=c.pbc[a+3*side]; if(over>0||(over>-1e-5&&bc)){ if(bc==0){ X[i][a]+=side?-n:n; } else if(bc==-1){ if(over>1e-5){ X[i][a]=side?2*n-X[i][a]:-X[i][a]; U[i][a]=-U[i][a]; } else flipok[i*3+a]=1; } else { gone[i]=over>1e-5?1:2; } break; } } } }
    std::vector<char> seen(L.size(),0); 
    for(int rk=0;rk<w.nranks();rk++){ const VD&b=r.b(rk,"p"); const VD&np=r.b(rk,"np"); if((int)np.size()<=st){ violation("steps",c.s.id+": fewer steps than asked for",&sp); return; } 
      for(long k=0;k<(long)np[st];k++,pos[rk]+=8){ const double*q=&b[pos[rk]]; auto it=id.find({(int)q[0],(float)q[1]}); S who=fmt("particle w=%.9g of species %d",q[1],(int)q[0]);
        if(it==id.end()){ violation("unknown",c.s.id+fmt(": step %d: %s exists but was never there (weight or species changed)",st+1,who.c_str()),&sp); return; } int i=it->second; GP&g=L[i];
        S from=fmt(" (started in cell %d,%d,%d at %g,%g,%g with u=%g,%g,%g)",g.cell[0],g.cell[1],g.cell[2],g.off[0],g.off[1],g.off[2],g.u[0],g.u[1],g.u[2]);
        if(seen[i]++){ violation("duplicated",c.s.id+fmt(": step %d: %s%s exists twice",st+1,who.c_str(),from.c_str()),&sp); return; }
        if(gone[i]==1){ violation("survivor",c.s.id+fmt(": step %d: %s%s went through an absorbing wall but still exists",st+1,who.c_str(),from.c_str()),&sp); return; }
        for(int a=0;a<3;a++){ double d=q[2+a]-X[i][a]; if(c.pbc[a]==0&&fabs(d)>w.n[a]/2.) d-=d>0?w.n[a]:-w.n[a]; if(!(fabs(d)<2e-5*(st+1))){ violation("position",c.s.id+fmt(": step %d: %s%s is at %c=%.7f cells, its displacement leads to %.7f",st+1,who.c_str(),from.c_str(),"xyz"[a],q[2+a],X[i][a]),&sp); return; }
          if(flipok[i*3+a]&&(float)q[5+a]==(float)-U[i][a]) U[i][a]=-U[i][a];
          if(fabs(q[5+a]-U[i][a])>1e-6*(1+fabs(U[i][a]))){ violation("momentum",c.s.id+fmt(": step %d: %s%s has u%c=%.9g instead of %.9g",st+1,who.c_str(),from.c_str(),"xyz"[a],q[5+a],U[i][a]),&sp); return; } X[i][a]=q[2+a]; U[i][a]=q[5+a]; } } }
    for(size_t i=0;i<L.size();i++){ if(!seen[i]&&gone[i]==0){ GP&g=L[i]; violation("lost",c.s.id+fmt(": step %d: particle w=%.9g of species %d (started in cell %d,%d,%d at %g,%g,%g with u=%g,%g,%g) is on no rank, expected at (%g,%g,%g) cells",st+1,(double)g.w,g.sp,g.cell[0],g.cell[1],g.cell[2],g.off[0],g.off[1],g.off[2],g.u[0],g.u[1],g.u[2],X[i][0],X[i][1],X[i][2]),&sp); return; } if(gone[i]==2) gone[i]=!seen[i]; }
    E.states+=L.size(); E.transitions+=L.size(); E.evaluations+=L.size(); E.traces+=L.size(); E.distinct.insert(fnv(c.s.id.data(),c.s.id.size(),st)); } }
static void check_C01(const Case&c,Run&r,const Spec&sp){ const World&w=c.w; 
  auto grid=[&](const S&key,int st,int nc,int comp,int stag,std::vector<double>&out)->bool{ // assemble on the global mesh, all copies must agree
    int N[3]; for(int a=0;a<3;a++) N[a]=w.n[a]+2; out.assign(N[0]*N[1]*N[2],NAN); double mx=0; for(int rk=0;rk<w.nranks();rk++) for(double x:r.b(rk,key)) mx=std::max(mx,fabs(x));
    for(int rk=0;rk<w.nranks();rk++){ const VD&b=r.b(rk,key); int ix[3]; w.index(rk,ix); size_t per=(size_t)(w.ln(0)+1)*(w.ln(1)+1)*(w.ln(2)+1)*nc; if(b.size()<per*(st+1)){ violation("emit",c.s.id+": output is short",&sp); return false; } size_t o=per*st+comp;
      for(int k=1;k<=w.ln(2)+1;k++) for(int j=1;j<=w.ln(1)+1;j++) for(int i=1;i<=w.ln(0)+1;i++,o+=nc){ int l[3]={i,j,k},I[3]; bool ok=true; for(int a=0;a<3;a++){ bool cell=stag>>a&1; if(cell&&l[a]>w.ln(a)) ok=false; I[a]=w.glob(a,ix[a],l[a],cell); } if(!ok) continue; double&x=out[I[0]+N[0]*(I[1]+N[1]*I[2])]; if(x==x&&fabs(x-b[o])>2e-5*mx+1e-19){ violation("copies:"+key,c.s.id+fmt(": step %d: ranks disagree on %s at (%d,%d,%d): %.8g and %.8g",st,key.c_str(),I[0],I[1],I[2],x,b[o]),&sp); return false; } x=b[o]; } } return true; };
  double scale=0; { std::map<int,double> cnt; for(auto&g:plattice(w,c.kind,c.um,c.per,c.nsp)) scale=std::max(scale,cnt[g.cell[0]+64*(g.cell[1]+64*g.cell[2])]+=g.w*(g.sp?1e-7:1.5e-7)); scale/=w.d[0]*w.d[1]*w.d[2]; }
  std::vector<double> r0,r1,J[3]; if(!grid("rho",0,1,0,0,r0)) return; int N[3]; for(int a=0;a<3;a++) N[a]=w.n[a]+2;
  for(int st=0;st<c.steps;st++){ if(!grid("rho",st+1,1,0,0,r1)) return; for(int a=0;a<3;a++) if(!grid("j",st,3,a,1<<a,J[a])) return; double mx=1e-13; for(double x:r1) if(x==x) mx=std::max(mx,fabs(x)); for(int a=0;a<3;a++) for(double x:J[a]) if(x==x) mx=std::max(mx,fabs(x)*w.dt/w.d[a]); double tot=0,jt=0;
    int I[3]; for(I[2]=1;I[2]<=w.hi(2,0);I[2]++) for(I[1]=1;I[1]<=w.hi(1,0);I[1]++) for(I[0]=1;I[0]<=w.hi(0,0);I[0]++){ bool metal=false; double div=0; for(int a=0;a<3;a++){ if(w.bc[a]==-1&&I[a]==1) metal=true; if(w.bc[a+3]==-1&&I[a]==w.n[a]+1) metal=true; int K[3]={I[0],I[1],I[2]}; double jh,jl; auto at=[&](int i){ K[a]=i; return J[a][K[0]+N[0]*(K[1]+N[1]*K[2])]; };
          if(w.per(a)){ jh=at(I[a]); jl=at(I[a]==1?w.n[a]:I[a]-1); } else { jh=I[a]<=w.n[a]?at(I[a]):-at(w.n[a]); jl=I[a]>1?at(I[a]-1):-at(1); } div+=(jh-jl)/w.d[a]; }
        if(metal) continue; size_t n=I[0]+N[0]*(I[1]+N[1]*I[2]); double res=(r1[n]-r0[n])+w.dt*div; tot+=fabs(r1[n]-r0[n]); jt+=fabs(w.dt*div); E.transitions++; if(!(fabs(res)<=2e-5*(mx+scale))){ violation("continuity",c.s.id+fmt(": step %d: node (%d,%d,%d): charge density changes by %.8g while -dt*div J is %.8g",st+1,I[0],I[1],I[2],r1[n]-r0[n],-w.dt*div),&sp); return; } }
    E.states++; E.evaluations++; E.traces++; if(tot>1e-4*mx) E.distinct.insert(fnv(c.s.id.data(),c.s.id.size(),st)); r0=r1; } }
int main(int argc,char**argv){ vmc_host_init(argc,argv); bool T=A.thorough, C1=A.prop=="C01"; std::vector<int> Lb; for(auto&p:A.libs) Lb.push_back(load_lib(p,8)); auto cf=[&](int i){ return A.cfgs[i]; };
  int NL=A.libs.size(), n=0; 
  struct P{int n[3],p[3];}; std::vector<P> ps={{{2,2,2},{1,1,1}},{{4,2,2},{2,1,1}},{{2,4,2},{1,2,1}},{{2,2,4},{1,1,2}},{{2,4,4},{1,2,2}},{{4,4,4},{2,2,2}},{{6,2,2},{3,1,1}}};
  std::vector<P> pm={{{1,2,2},{1,1,1}},{{2,1,3},{1,1,1}},{{3,3,1},{1,1,1}},{{1,1,4},{1,1,2}},{{4,1,1},{4,1,1}},{{1,4,1},{1,4,1}},{{3,4,2},{3,2,1}}};
  // walls: every combination of periodic / reflecting / absorbing over the three axes; mixed low/high
  std::vector<std::vector<int>> bl; for(int x:{0,-1,-2}) for(int y:{0,-1,-2}) for(int z:{0,-1,-2}) bl.push_back({x,y,z,x,y,z}); bl.push_back({-1,-2,0,-2,-1,0}); bl.push_back({-2,0,-1,-1,0,-2}); bl.push_back({0,-1,-2,0,-2,-1}); 
  const int fs[4]={-2,-4,-3,-1};
  auto put=[&](P p,const std::vector<int>&b,int kind,double um,int per,int steps,int rounds,double slack,double dts,int sorti,int nsp,int tpp,int lib,int fsel){ World w=World::make(p.n[0],p.n[1],p.n[2],p.p[0],p.p[1],p.p[2]); int pb[6]; for(int f=0;f<6;f++){ int a=f%3; pb[f]=w.n[a]==1?0:b[f]; w.bc[f]=pb[f]?fs[(fsel+(C1?f:0))%4]:0; } add(w,pb,steps,kind,um,per,C1,rounds,slack,-1,dts,sorti,nsp,tpp,Lb[lib],cf(lib)); };
  for(auto&p:ps) for(auto&b:bl){ int vol=p.n[0]*p.n[1]*p.n[2]; n++; 
    put(p,b,vol>16?1:0,n%2?20:1.2,vol>16?(T?1:4):1,C1?2:3,3,n%3==0?0:64,1.7,n%4==1?1:0,2,1+n%3,n%NL,n); 
    if(C1&&n%2) put(p,b,1,6,3,3,1+n%3,32,1.7,0,2,1+n%2,n%NL,n/2);
    if(C1&&T) for(int f=0;f<4;f++) for(int q=1;q<=3;q++) put(p,b,1,4,2,3,q,0,1.7,q&1,2,q,(n+f)%NL,f);
    if(T) for(int l=0;l<NL;l++) put(p,b,vol>16?1:0,l%2?5:0.6,1,3,3,0,1.72,1,3,1+l%4,l,l); }
  for(auto&p:pm) for(auto&b:bl){ n++; put(p,b,0,n%2?20:1.5,1,2,3,0,1.7,0,1,1+n%2,n%NL,n); }
  // growth and shrinkage of the particle arrays; every particle of a cell moves the same way
  for(auto&p:ps) if(p.p[0]*p.p[1]*p.p[2]>1) for(int sl:{0,8}) { n++; std::vector<int> per(6,0); put(p,per,2,3,T?60:24,6,3,sl,1.7,2,2,2,n%NL,0); put(p,{-1,-1,-1,-1,-1,-1},2,3,T?60:24,6,3,sl,1.7,3,1,1,n%NL,0); put(p,{-2,-2,-2,-2,-2,-2},2,3,T?60:24,6,3,sl,1.7,3,2,3,n%NL,1); }
  std::vector<Spec> v; std::map<S,Case*> by; for(auto&c:cases) if(want(c.s.id)&&!by.count(c.s.id)){ v.push_back(c.s); by[c.s.id]=&c; }
  E.rule=C1?"one case = mesh x partition x walls x lattice of particles (cells x offsets incl. exact faces x 27 directions) x storage x pipelines x configuration; states = steps checked, transitions = nodes checked; non-trivial = a step in which charge moves":"as C01 without charges: states = particle-steps compared with the reference mover; non-trivial = distinct (case, step)";
  double t=now(); run_all(v,[&](const Spec&s,Run&r){ const Case&c=*by[s.id]; if(r.status!=RUN_OK){ violation(fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); return; } if(r.pending){ violation("pending",s.id+fmt(": %d messages were never received",r.pending),&s); return; } if(C1) check_C01(c,r,s); else check_C03(c,r,s); },2);
  printf("%zu cases, %.0f states, %.0f comparisons, %.1f s\n",v.size(),E.states,E.transitions,now()-t); for(size_t i=0;i<v.size();i+=v.size()/6+1) E.sample(v[i].id);
  E.assumptions={C1?"charge agrees to 2e-5 of the largest nodal charge density":"positions agree to 2e-5 cells per step, weights and species exactly","displacement below one cell per axis and step; meshes up to 4x4x4 cells, up to 8 ranks","charge density on perfectly conducting walls is by definition zero and not constrained"};
  return finish(); }
