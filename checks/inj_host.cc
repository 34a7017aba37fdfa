#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,16); bool T=m.T; E.rule="one state = one injection or emission (position, age, direction, field, capacity); transitions = relations compared with the geometric model";
  auto add=[&](const char*w,int l,int mode,int kind,const int*P,const int*N,int box,int raw=0){ m.add(fmt("%s %s ranks %dx%dx%d mesh %dx%dx%d box %d",w,kind==0?"periodic":kind==1?"absorbing":"metal",P[0],P[1],P[2],N[0],N[1],N[2],box),l,P[0]*P[1]*P[2],{"--tpp","1"},{(double)mode,(double)kind,(double)P[0],(double)P[1],(double)P[2],(double)N[0],(double)N[1],(double)N[2],(double)box,(double)raw}).timeout=300; };
  int PS[][3]={{1,1,1},{2,1,1},{1,2,1},{1,1,2},{2,2,1},{1,2,2},{2,2,2},{3,1,2},{4,2,1}}, NS[][3]={{1,1,1},{2,1,3},{3,2,1},{1,2,2}}; int np=T?9:7;
  for(int l=0;l<m.NL();l++){ for(int p=0;p<np;p++) for(int n=0;n<(T?4:3);n++) for(int kind=0;kind<3;kind++) for(int box=0;box<4;box++){ if(l&&(box||n>1)) continue; if(!T&&box!=(p+n+kind)%4&&p) continue; int N[3]; for(int a=0;a<3;a++) N[a]=NS[n][a]*PS[p][a]; add("positions",l,0,kind,PS[p],N,box); }
    for(int p=0;p<np;p++) for(int kind=0;kind<3;kind+=2) for(int raw=0;raw<2;raw++){ if(l&&p!=0&&p!=4&&!T) continue; int N[3]; for(int a=0;a<3;a++) N[a]=(a==0?3:2)*PS[p][a]; if(PS[p][0]*PS[p][1]*PS[p][2]>4&&!T) for(int a=0;a<3;a++) N[a]=2*PS[p][a]; add(raw?"raw":"ageing",l,1,kind,PS[p],N,0,raw); }
    int P1[3]={1,1,1},P2[3]={2,1,1},N1[3]={3,2,2},N2[3]={4,2,2}; add("capacity",l,2,0,P1,N1,0); add("capacity",l,2,0,P2,N2,0); add("capacity",l,2,2,P1,N1,0); add("emission",l,3,0,P1,N1,0); }
  E.assumptions={"in a periodic direction the far wall is the near wall and takes no particles of its own","the laws of the emitted momenta are checked by their moments over 30000 draws of the real generator, everything else exactly"}; return m.run(1); }
