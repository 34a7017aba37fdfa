// C02 push and half pushes, C16 hydro moments, C14 energies: every particle of a lattice x every field strength, against the formulas in double precision.
#include "host.h"
#include "pushlat.h"
#include <string.h>
#ifdef WITH_FIELD
#include "field_model.h"
#define main field_main
#define finish() 0
namespace fld {
#include "field_host.cc"
}
#undef main
#undef finish
#endif
struct Case { Spec s; World w; double se, sb, q, m; int flat, salt; long np; S ops; };
static std::vector<Case> cases;
static void add(World w,double se,double sb,int flat,double q,double m,long np,int salt,const S&ops,int tpp,int lib){ cases.emplace_back(); Case&c=cases.back(); c.w=w;c.se=se;c.sb=sb;c.flat=flat;c.q=q;c.m=m;c.np=np;c.salt=salt;c.ops=ops; w.pack(c.s.par); for(double v:{se,sb,(double)flat,q,m,(double)np,(double)salt}) c.s.par.push_back(v); c.s.spar={ops}; c.s.lib=lib; c.s.nranks=w.nranks(); c.s.order=salt%3; c.s.xfer=salt%2; c.s.argv={"--tpp",fmt("%d",tpp)}; c.s.perturb=0x4b;
  c.s.id=fmt("%s mesh=%dx%dx%d ranks=%dx%dx%d bc=%d,%d,%d/%d,%d,%d E=%g cB=%g%s q=%g m=%g np=%ld:%d ops=%s tpp=%d",A.cfgs[lib].c_str(),w.n[0],w.n[1],w.n[2],w.p[0],w.p[1],w.p[2],w.bc[0],w.bc[1],w.bc[2],w.bc[3],w.bc[4],w.bc[5],se,sb,flat?" uniform":"",q,m,np,salt,ops.c_str(),tpp); }
struct Fld { const Case&c; std::vector<double> v[6]; Fld(const Case&c):c(c){ int D[3]; for(int a=0;a<3;a++) D[a]=c.w.n[a]+2; for(int k=EX;k<=BZ;k++){ v[k].resize(D[0]*D[1]*D[2]); int I[3]; for(I[2]=0;I[2]<D[2];I[2]++) for(I[1]=0;I[1]<D[1];I[1]++) for(I[0]=0;I[0]<D[0];I[0]++){ int J[3]; for(int a=0;a<3;a++) J[a]=c.w.glob(a,0,I[a],STAG[k]>>a&1); v[k][I[0]+D[0]*(I[1]+D[1]*I[2])]=pfield(k,J,c.se,c.sb,c.flat); } } }
  double at(int k,int i,int j,int l)const{ return v[k][i+(c.w.n[0]+2)*(j+(c.w.n[1]+2)*l)]; }
  // E bilinear over the four edges of the cell, cB linear between the two faces
  void get(const int*cell,const double*o,double*e,double*b)const{ for(int a=0;a<3;a++){ int y=(a+1)%3,z=(a+2)%3; double s=0; for(int m=0;m<4;m++){ int I[3]={cell[0],cell[1],cell[2]}; I[y]+=m&1; I[z]+=m>>1; s+=at(EX+a,I[0],I[1],I[2])*(1+((m&1)?o[y]:-o[y]))*(1+((m>>1)?o[z]:-o[z]))/4; } e[a]=s; int I[3]={cell[0],cell[1],cell[2]}; double lo=at(BX+a,I[0],I[1],I[2]); I[a]++; double hi=at(BX+a,I[0],I[1],I[2]); b[a]=(lo*(1-o[a])+hi*(1+o[a]))/2; } } };
static double gam(const double*u){ return sqrt(1+u[0]*u[0]+u[1]*u[1]+u[2]*u[2]); }
// rotation of u about cB by the Boris angle for a step fraction f (the series of tan the code documents)
static void rot(double*u,const double*b,double h,double f){ double v0=h*f/gam(u),v1=b[0]*b[0]+b[1]*b[1]+b[2]*b[2],v2=v0*v0*v1,v3=v0*(1+v2*(1/3.+v2*2/15.)),v4=2*v3/(1+v1*v3*v3),p[3]; for(int a=0;a<3;a++){ int y=(a+1)%3,z=(a+2)%3; p[a]=u[a]+v3*(u[y]*b[z]-u[z]*b[y]); } double q[3]; for(int a=0;a<3;a++){ int y=(a+1)%3,z=(a+2)%3; q[a]=u[a]+v4*(p[y]*b[z]-p[z]*b[y]); } memcpy(u,q,sizeof q); }
static bool bad(const Case&c,const S&k,const S&t,const Spec&s){ violation(k,c.s.id+": "+t,&s); return false; }
static const char*const HN[14]={"jx","jy","jz","rho","px","py","pz","ke","txx","tyy","tzz","tyz","tzx","txy"};
static void check(const Case&c,Run&r,const Spec&sp){ const World&w=c.w; 
  if(r.status!=RUN_OK){ bad(c,fmt("run:%s",run_status_name(r.status)),r.msg,sp); return; } if(r.pending){ bad(c,"pending",fmt("%d messages were never received",r.pending),sp); return; }
  Fld F(c); double h=c.q*w.dt/(2*c.m*w.c), fmax=fabs(h)*c.se; 
  if(c.ops=="P"){ int ei=0; for(double e0:{1.0,2.5}){ double s=0,ab=0; int n=0; for(int ry=0;ry<w.p[1];ry++) for(int rz=0;rz<w.p[2];rz++) for(int j=2;j<=w.ln(1);j++) for(int k=2;k<=w.ln(2);k++){ int J=ry*w.ln(1)+j,K=rz*w.ln(2)+k; double t=(F.at(EY,2,J,K)*0.5*(F.at(BZ,1,J,K)+F.at(BZ,2,J,K))-F.at(EZ,2,J,K)*0.5*(F.at(BY,1,J,K)+F.at(BY,2,J,K)))/(w.c*w.c*e0*e0); s+=t; ab+=fabs(t); n++; }
      for(int rk=0;rk<w.nranks();rk++){ double x=r.b(rk,"flux")[ei]; E.transitions++; if(!(fabs(x-s/n)<=1e-5*ab/n)){ bad(c,"poynting",fmt("rank %d: Poynting flux through the left boundary %.9g, the fields there give %.9g",rk,x,s/n),sp); return; } } ei++; } E.states++;E.evaluations++;E.traces++; E.distinct.insert(fnv(c.s.id.data(),c.s.id.size())); return; }
  std::vector<PP> L=pushlat(w,c.np,c.salt); std::map<float,int> id; for(size_t i=0;i<L.size();i++) id[L[i].w]=i; std::vector<size_t> pos(w.nranks(),0); size_t seg=0,ne=0,nh=0; 
  struct St{ double x[3],u[3],o[3]; int cell[3]; }; std::vector<St> X(L.size()); auto reset=[&]{ for(size_t i=0;i<L.size();i++) for(int a=0;a<3;a++){ X[i].cell[a]=L[i].cell[a]; X[i].o[a]=L[i].off[a]; X[i].x[a]=L[i].cell[a]-1+(L[i].off[a]+1.0)/2; X[i].u[a]=L[i].u[a]; } }; reset(); int kicks=0;
  auto eb=[&](size_t i,double*e,double*b){ F.get(X[i].cell,X[i].o,e,b); };
  for(size_t oi=0;oi<=c.ops.size();oi++){ char o=oi<c.ops.size()?c.ops[oi]:0; 
    if(o=='i'){ for(int rk=0;rk<w.nranks();rk++){ int ix[3]; w.index(rk,ix); const VD&b=r.b(rk,"interp"); size_t p=0; if(b.size()!=(size_t)18*w.ln(0)*w.ln(1)*w.ln(2)){ bad(c,"emit","output is short",sp); return; } for(int k=1;k<=w.ln(2);k++) for(int j=1;j<=w.ln(1);j++) for(int i=1;i<=w.ln(0);i++,p+=18){ int cell[3]={ix[0]*w.ln(0)+i,ix[1]*w.ln(1)+j,ix[2]*w.ln(2)+k}; 
          for(int m=0;m<8;m++){ double of[3]={(m&1)?1.:-1.,(m&2)?1.:-1.,(m&4)?1.:-1.},e[3],bb[3]; F.get(cell,of,e,bb); const double*q=&b[p]; double x=of[0],y=of[1],z=of[2]; double ce[3]={q[0]+y*q[1]+z*q[2]+y*z*q[3],q[4]+z*q[5]+x*q[6]+z*x*q[7],q[8]+x*q[9]+y*q[10]+x*y*q[11]},cb[3]={q[12]+x*q[13],q[14]+y*q[15],q[16]+z*q[17]}; for(int a=0;a<3;a++){ E.transitions++; if(!(fabs(ce[a]-e[a])<=2e-6*c.se+1e-30)||!(fabs(cb[a]-bb[a])<=2e-6*c.sb+1e-30)){ bad(c,"interp",fmt("cell (%d,%d,%d) corner (%g,%g,%g): interpolated E%c=%.8g cB%c=%.8g, the mesh has %.8g and %.8g",cell[0],cell[1],cell[2],x,y,z,"xyz"[a],ce[a],"xyz"[a],cb[a],e[a],bb[a]),sp); return; } } } } } continue; }
    if(o=='c'||o=='u'||o=='a'){ kicks++; for(size_t i=0;i<L.size();i++){ double e[3],b[3]; eb(i,e,b); St&s=X[i]; 
        if(o=='c'){ for(int a=0;a<3;a++) s.u[a]+=h*e[a]; rot(s.u,b,h,0.5); } else if(o=='u'){ rot(s.u,b,-h,0.5); for(int a=0;a<3;a++) s.u[a]-=h*e[a]; }
        else { for(int a=0;a<3;a++) s.u[a]+=h*e[a]; rot(s.u,b,h,1); for(int a=0;a<3;a++) s.u[a]+=h*e[a]; double g=gam(s.u); for(int a=0;a<3;a++) s.x[a]+=s.u[a]/g*w.c*w.dt/w.d[a]; } } continue; }
    if(o=='E'){ double en=0; for(size_t i=0;i<L.size();i++){ double e[3],b[3],u[3]; eb(i,e,b); for(int a=0;a<3;a++) u[a]=X[i].u[a]+h*e[a]; double g=gam(u); en+=L[i].w*c.m*w.c*w.c*(u[0]*u[0]+u[1]*u[1]+u[2]*u[2])/(1+g); } for(int rk=0;rk<w.nranks();rk++){ const VD&b=r.b(rk,"energy"); if(b.size()<=ne||!(fabs(b[ne]-en)<=2e-5*en+1e-12)){ bad(c,"energy_p",fmt("rank %d reports the particle energy %.9g, the particles have %.9g",rk,b.size()>ne?b[ne]:NAN,en),sp); return; } E.transitions++; } ne++; continue; }
    if(o=='H'){ int N[3]; for(int a=0;a<3;a++) N[a]=w.n[a]+2; std::vector<double> H(14*N[0]*N[1]*N[2],0),AB(H); double V=w.d[0]*w.d[1]*w.d[2];
      for(size_t i=0;i<L.size();i++){ double e[3],b[3],u[3]; eb(i,e,b); for(int a=0;a<3;a++) u[a]=X[i].u[a]+h*e[a]; double g=gam(u),ke=(u[0]*u[0]+u[1]*u[1]+u[2]*u[2])/(1+g); rot(u,b,h,0.5); double v[3]; for(int a=0;a<3;a++) v[a]=u[a]*w.c/g; double P=c.m*w.c,q[14]={c.q*v[0],c.q*v[1],c.q*v[2],c.q,P*u[0],P*u[1],P*u[2],P*w.c*ke,P*u[0]*v[0],P*u[1]*v[1],P*u[2]*v[2],P*u[1]*v[2],P*u[2]*v[0],P*u[0]*v[1]}; double um=gam(u), sc[14]={c.q*w.c,c.q*w.c,c.q*w.c,c.q,P*um,P*um,P*um,P*w.c*um,P*w.c*um,P*w.c*um,P*w.c*um,P*w.c*um,P*w.c*um,P*w.c*um};
        for(int m=0;m<8;m++){ double wt=L[i].w/V; int I[3]; for(int a=0;a<3;a++){ int hi=m>>a&1; wt*=(1+(hi?X[i].o[a]:-X[i].o[a]))/2; I[a]=X[i].cell[a]+hi; if(!w.per(a)&&(I[a]==1||I[a]==w.n[a]+1)) wt*=2; I[a]=w.glob(a,0,I[a],false); } double*t=&H[14*(I[0]+N[0]*(I[1]+N[1]*I[2]))],*ab=&AB[t-&H[0]]; for(int k=0;k<14;k++){ t[k]+=wt*q[k]; ab[k]+=wt*fabs(sc[k]); } } }
      for(int rk=0;rk<w.nranks();rk++){ int ix[3]; w.index(rk,ix); const VD&b=r.b(rk,"hydro"); size_t per=(size_t)14*(w.ln(0)+1)*(w.ln(1)+1)*(w.ln(2)+1),p=nh*per; if(b.size()<p+per){ bad(c,"emit","output is short",sp); return; } for(int k=1;k<=w.ln(2)+1;k++) for(int j=1;j<=w.ln(1)+1;j++) for(int i=1;i<=w.ln(0)+1;i++) { int l[3]={i,j,k},I[3]; for(int a=0;a<3;a++) I[a]=w.glob(a,ix[a],l[a],false); size_t n=14*(I[0]+N[0]*(I[1]+N[1]*I[2])); for(int m=0;m<14;m++,p++){ E.transitions++; if(!(fabs(b[p]-H[n+m])<=2e-5*AB[n+m]+1e-30)){ bad(c,fmt("hydro:%s",HN[m]),fmt("%s at node (%d,%d,%d) [rank %d] is %.9g, the particles sum to %.9g",HN[m],I[0],I[1],I[2],rk,b[p],H[n+m]),sp); return; } } } } nh++; E.distinct.insert(fnv(c.s.id.data(),c.s.id.size(),nh)); continue; }
    // end of an op string
    std::vector<char> seen(L.size(),0); for(int rk=0;rk<w.nranks();rk++){ long np=r.b(rk,"np")[seg]; const VD&b=r.b(rk,"p"); for(long k=0;k<np;k++,pos[rk]+=7){ const double*q=&b[pos[rk]]; auto it=id.find((float)q[0]); if(it==id.end()){ bad(c,"weight",fmt("a particle has weight %.9g, which none had",q[0]),sp); return; } size_t i=it->second; if(seen[i]++){ bad(c,"twice",fmt("particle w=%.9g exists twice",q[0]),sp); return; }
        S who=fmt("after \"%s\" the particle at cell %d,%d,%d (%g,%g,%g) with u=(%g,%g,%g)",c.ops.c_str(),L[i].cell[0],L[i].cell[1],L[i].cell[2],L[i].off[0],L[i].off[1],L[i].off[2],L[i].u[0],L[i].u[1],L[i].u[2]); double um=sqrt(gam(X[i].u)*gam(X[i].u)-1),um0=sqrt(L[i].u[0]*L[i].u[0]+L[i].u[1]*L[i].u[1]+L[i].u[2]*L[i].u[2]);
        double tol=kicks?4e-6*(std::max(um,um0)+fmax*kicks)+1e-12:0; for(int a=0;a<3;a++){ E.transitions++; if(!(fabs(q[4+a]-X[i].u[a])<=tol)){ bad(c,"momentum",fmt("%s has u%c=%.9g, expected %.9g",who.c_str(),"xyz"[a],q[4+a],X[i].u[a]),sp); return; } double d=q[1+a]-X[i].x[a]; if(fabs(d)>w.n[a]/2.) d-=d>0?w.n[a]:-w.n[a]; if(!(fabs(d)<=4e-6)){ bad(c,"position",fmt("%s is at %c=%.8f cells, expected %.8f",who.c_str(),"xyz"[a],q[1+a],X[i].x[a]),sp); return; } } } }
    for(size_t i=0;i<L.size();i++) if(!seen[i]){ bad(c,"lost",fmt("particle w=%.9g is gone",L[i].w),sp); return; }
    E.states+=L.size(); seg++; reset(); kicks=0; E.distinct.insert(fnv(c.s.id.data(),c.s.id.size(),seg+1000)); }
  E.evaluations+=L.size(); E.traces++; }
int main(int argc,char**argv){ vmc_host_init(argc,argv); bool T=A.thorough; 
#ifdef WITH_FIELD
  { std::vector<S> l=A.libs,cf=A.cfgs,fl,fc; for(size_t i=0;i<l.size();) if(cf[i].compare(0,6,"field-")==0){ fl.push_back(l[i]); fc.push_back(cf[i]); l.erase(l.begin()+i); cf.erase(cf.begin()+i); } else i++; A.libs=fl; A.cfgs=fc; S o=A.only; fld::field_main(0,nullptr); A.libs=l; A.cfgs=cf; }
#endif
  std::vector<int> Lb; for(auto&p:A.libs) Lb.push_back(load_lib(p,8)); int NL=Lb.size(),n=0; bool hyd=A.prop=="C16", en=A.prop=="C14"; int off=Lb.empty()?0:Lb[0];
  struct Q{double q,m;} qm[3]={{-1,0.5},{2,1.5},{-0.25,4}}; double ses[4]={0,1e-3,0.3,3},sbs[4]={0,1e-3,0.4,4};
  auto P=[&](World w,double se,double sb,int flat,Q q,long np,int salt,const S&ops,int tpp,int l){ add(w,se,sb,flat,q.q,q.m,np,salt,ops,tpp,l); cases.back().s.lib=off+l; };
  World base=World::make(3,2,4);
  if(!hyd&&!en){ for(int l=0;l<NL;l++) for(double se:ses) for(double sb:sbs) for(int f=0;f<2;f++){ n++; P(base,se,sb,f,qm[n%3],-1,n,"a,c,u,cu,uc,i",1+n%3,l); if(T) for(int q=0;q<3;q++) P(World::make(2+q,5-q,3),se,sb,f,qm[q],-1,n+q,"a,c,u,cu,ac,ua,i",1+(n+q)%5,l); }
    // every particle count modulo the vector widths and pipelines
    for(int l=0;l<NL;l++) for(int np=0;np<=(T?200:50);np++) for(int tpp:{1,3}) P(base,0.3,0.4,0,qm[np%3],np,np,"a,c,u",tpp,l);
    int ms[][3]={{1,1,1},{1,2,3},{17,3,2},{2,19,2},{3,2,16},{1,40,1}}; for(int l=0;l<NL;l++) for(auto&m:ms) for(int tpp:{1,2,4}) P(World::make(m[0],m[1],m[2]),0.5,0.5,0,qm[l%3],300,l,"a,c,i",tpp,l); }
  struct R{int n[3],p[3];}; std::vector<R> rs={{{2,2,2},{1,1,1}},{{3,4,2},{1,1,1}},{{1,1,1},{1,1,1}},{{4,2,3},{2,1,1}},{{2,4,2},{1,2,1}},{{2,3,4},{1,1,2}},{{4,4,2},{2,2,1}},{{2,4,4},{1,2,2}},{{4,4,4},{2,2,2}},{{6,2,2},{3,1,1}},{{2,2,6},{1,1,3}},{{4,1,1},{4,1,1}},{{2,9,2},{1,3,1}}};
  const int bl[6][6]={{0,0,0,0,0,0},{-1,-1,-1,-1,-1,-1},{-2,0,-3,-2,0,-4},{0,-4,0,0,-1,0},{-3,-2,-1,-4,-3,-2},{0,0,-2,0,0,-1}};
  if(hyd||en) for(auto&q:rs) for(auto&b:bl) for(int l=0;l<NL;l++){ World w=World::make(q.n[0],q.n[1],q.n[2],q.p[0],q.p[1],q.p[2]); for(int f=0;f<6;f++) w.bc[f]=w.n[f%3]==1?0:b[f]; n++; S ops=hyd?"H":"E"; P(w,0,0,0,qm[n%3],1+n%70,n,ops,1+n%3,l); P(w,ses[n%4],sbs[n/4%4],n%2,qm[n%3],n%5?200+n%40:-1,n,ops,1+n%3,l); 
      if(hyd) P(w,0.3,0.4,0,qm[n%3],500,n,"HHcHu",1+n%2,l); else P(w,0.3,0.4,0,qm[n%3],500,n,"EcEE",1+n%2,l); if(en) P(w,0.3,0.4,0,qm[0],0,n,"E",1+n%2,l); if(en&&w.ln(1)>1&&w.ln(2)>1&&w.ln(0)>1) P(w,0.7,0.9,0,qm[0],0,n,"P",1,l); 
      if(T) for(double se:ses) for(double sb:sbs) P(w,se,sb,0,qm[n%3],-1,n,ops,1+n%4,l); }
  if(hyd||en) for(int l=0;l<NL;l++) for(int np=0;np<=(T?200:50);np++) P(World::make(3,2,2),0.3,0.4,0,qm[np%3],np,np,hyd?"H":"E",1+np%3,l);
  std::vector<Spec> v; std::map<S,Case*> by; for(auto&c:cases) if(want(c.s.id)&&!by.count(c.s.id)){ v.push_back(c.s); by[c.s.id]=&c; }
  S rule="one case = build x mesh x partition x walls x field strength x charge and mass x particle count; states = particle states compared with the formulas in double precision, transitions = numbers compared; the lattice is 125 positions x 27 directions x 6 momenta"; E.rule=E.rule.empty()?rule:E.rule+"; particles: "+rule;
  double t=now(); run_all(v,[&](const Spec&s,Run&r){ check(*by[s.id],r,s); },4);
  printf("%zu cases, %.0f states, %.0f comparisons, %.1f s\n",v.size(),E.states,E.transitions,now()-t); for(size_t i=0;i<v.size();i+=v.size()/6+1) E.sample(v[i].id);
  E.assumptions.push_back("momenta agree to 4e-6, moments and energies to 2e-5 of their scale; fields up to a Boris angle of order one per step"); return finish(); }
