#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,16); bool T=m.T; E.rule="one state = one particle launched at (or past) the walls of one set-up; transitions = relations compared with the geometric model";
  enum { PERIODIC, REFLECT, ABSORB, TALLY1, REFLUX1, TALLY2, REFLUX2 }; const char*KN[]={"periodic","reflect","absorb","tally","reflux","tally2","reflux2"}; struct Pl{ int a,k,up,dn; };
  auto add=[&](const char*w,int l,int mode,int how,const int*P,const int*N,const std::vector<Pl>&pl,int from=-1,const char*tpp="1"){ S d; for(auto&p:pl) d+=fmt(" %c%d:%s/%s","xyz"[p.a],p.k,KN[p.up],KN[p.dn]); std::vector<double> par={(double)mode,(double)how,(double)P[0],(double)P[1],(double)P[2],(double)N[0],(double)N[1],(double)N[2],(double)pl.size()}; for(auto&p:pl){ par.push_back(p.a); par.push_back(p.k); par.push_back(p.up); par.push_back(p.dn); } par.resize(41); par[40]=from; m.add(fmt("%s %s ranks %dx%dx%d mesh %dx%dx%d%s part %d",w,how?"advance":"launch",P[0],P[1],P[2],N[0],N[1],N[2],d.c_str(),from),l,P[0]*P[1]*P[2],{"--tpp",tpp},par).timeout=300; };
  int PS[][3]={{1,1,1},{2,1,1},{1,2,1},{1,1,2},{2,2,1},{1,2,2},{2,1,2}}; int hs[]={TALLY1,REFLUX1,TALLY2,REFLUX2};
  for(int l=0;l<m.NL();l++){
    // one wall with a handler, opposite wall of another kind, other axes periodic, metal or handled
    for(int p=0;p<7;p++) for(int a=0;a<3;a++) for(int low=0;low<2;low++) for(int hi=0;hi<4;hi++) for(int opp=1;opp<7;opp++) for(int side=0;side<3;side++) for(int how=0;how<2;how++){ if(low&&opp>2) continue; int key=p+2*a+3*low+5*hi+opp+side; if(!T){ if(l==0? (p>1&&key%7) || (p&&how!=key%2) || (p==0&&(key%3)) : (key%29!=l || how!=1)) continue; } else if(l&&key%5!=l%5) continue; if(p>=4&&!T&&key%2) continue;
      int N[3]; for(int b=0;b<3;b++) N[b]=(b==a?3:2)*PS[p][b]; if(PS[p][a]>1) N[a]=2*PS[p][a]; int h=hs[hi]; std::vector<Pl> pl; Pl lo={a,0,0,low?h:opp},up={a,N[a],low?opp:h,0}; pl.push_back(lo); pl.push_back(up); if(side){ int b=(a+1)%3; int k1=side==1?REFLECT:hs[(hi+1)%4],k2=side==1?REFLECT:hs[(hi+2)%4]; pl.push_back({b,0,0,k1}); pl.push_back({b,N[b],k2,0}); } add("walls",l,0,how,PS[p],N,pl,-1,how&&key%2?"2":"1"); }
    // plates inside the box, also along rank boundaries: each side its own handler
    for(int p=0;p<7;p++) for(int a=0;a<3;a++) for(int k=1;k<4;k++) for(int hu=0;hu<4;hu++) for(int hd=0;hd<4;hd++){ int key=p+a+k+hu+hd; if(!T&&(l?key%11!=l:(p?key%5!=p%5:key%2))) continue; int N[3]; for(int b=0;b<3;b++) N[b]=(b==a?4:2)*1; for(int b=0;b<3;b++) if(N[b]<2*PS[p][b]) N[b]=2*PS[p][b]; add("plate",l,0,key%2,PS[p],N,{{a,k,hs[hu],hs[hd]}}); }
    for(int a=0;a<3;a++) for(int low=0;low<2;low++) for(int hi=0;hi<4;hi++){ int N[3]={2,2,2}; N[a]=3; std::vector<Pl> pl; for(int b=0;b<3;b++){ pl.push_back({b,0,0,b==a&&low?hs[hi]:REFLECT}); pl.push_back({b,N[b],b==a&&!low?hs[hi]:REFLECT,0}); } if(!l||T||hi==(a+low+l)%4) add("current",l,1,hi%2,PS[0],N,pl); if(hs[hi]==REFLUX1||hs[hi]==REFLUX2) if(!(hs[hi]==REFLUX2&&0)){ std::vector<Pl> q; q.push_back(low?Pl{a,0,0,hs[hi]}:Pl{a,N[a],hs[hi],0}); q.push_back(low?Pl{a,N[a],REFLECT,0}:Pl{a,0,0,REFLECT}); add("law",l,2,0,PS[0],N,q); } }
    int N[3]={3,2,2}; add("many",l,3,0,PS[0],N,{}); add("late",l,4,0,PS[0],N,{}); }
  E.assumptions={"particles whose predicted path meets two planes at once within 3e-5 of a cell are only counted, not located","the law of the re-emitted momenta is checked by its moments over 24000 draws of the real generator, everything else exactly"}; return m.run(1); }
