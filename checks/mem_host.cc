#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = one operation or step with one capacity; transitions = relations compared";
  auto add=[&](S w,int l,int tpp,VD p,const int*P,const int*N,VD r)->Spec&{ VD par={p[0],(double)P[0],(double)P[1],(double)P[2],(double)N[0],(double)N[1],(double)N[2]}; par.insert(par.end(),r.begin(),r.end()); par.resize(12); Spec&s=m.add(w,l,P[0]*P[1]*P[2],{"--tpp",fmt("%d",tpp)},par); s.guard=1; s.timeout=400; s.perturb=0xA7; return s; };
  int P1[3]={1,1,1}, PS[][3]={{2,1,1},{1,2,2},{2,2,2},{1,1,1},{3,1,1},{4,2,1}}, N3[3]={3,3,2};
  for(int l=0;l<m.NL();l++){ bool fixed=A.cfgs[l].find("fixed")!=S::npos; 
    if(!fixed) for(int t:{1,2,3,5,8}) for(int pat=0;pat<5;pat++){ if(!T&&t==5) continue; if(!T&&pat>2&&t!=2) continue; add(fmt("movers pattern %d",pat),l,t,{0},P1,N3,{T?120.:60.,(double)pat}); }
    for(int p=0;p<(T?6:4);p++) for(int lv:{1,2,6,19,40}) for(int pat=0;pat<(T?4:2);pat++) for(int h=0;h<2;h++){ if(!T&&(lv==2||lv==19)&&(p+pat+h)%2) continue; if(p==3&&!h) continue; if(fixed&&h) continue; int N[3]; for(int a=0;a<3;a++) N[a]=2*PS[p][a]; add(fmt("arrivals %d pattern %d handler %d ranks %dx%dx%d",lv,pat,h,PS[p][0],PS[p][1],PS[p][2]),l,1+p%2,{1},PS[p],N,{(double)lv,(double)pat,(double)fixed,(double)h}); }
    if(!fixed) for(int npf=1;npf<=(T?5:3);npf++) for(int sd=0;sd<2;sd++) add(fmt("emission %d side %d",npf,sd),l,1,{2},P1,N3,{(double)npf,(double)sd});
    int RB[]={1|1024|2048,1|4|8|512|4096,131071&~16384&~32768,1|512|65536,32768|1|2048}; for(int b=0;b<5;b++) for(int p=0;p<4;p++) for(int nm:{1,2,7,40}) for(int sp:{0,1,9}) for(int t:{1,3}){ if(fixed) continue; if(!T&&(b+p+nm+sp+t)%4) continue; int N[3]={4*PS[p][0],3*PS[p][1],2*PS[p][2]}; add(fmt("run %d movers %d spare %d ranks %dx%dx%d",b,nm,sp,PS[p][0],PS[p][1],PS[p][2]),l,t,{3},PS[p],N,{(double)RB[b],(double)nm,(double)sp,T?12.:6.}); } }
  E.assumptions={"every array ends at an inaccessible page but for the slack of its alignment, whose fill is compared after every operation; reads within the slack are not seen"}; return m.run(1); }
