// C11: cases
#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = one dump; transitions = values of files compared with memory";
  int PS[][3]={{1,1,1},{2,1,1},{1,2,2},{2,2,2}}; int LM[][3]={{3,2,2},{2,3,4},{1,1,1},{4,1,2}};
  for(int l=0;l<m.NL();l++) for(int p=0;p<2;p++){ int*q=PS[p]; Spec&s=m.add(fmt("names ranks %dx%dx%d",q[0],q[1],q[2]),l,q[0]*q[1]*q[2],{"--tpp","2"},{4,(double)q[0],(double)q[1],(double)q[2],3,2,2}); s.dir=1; s.guard=1; s.timeout=600; }
  for(int l=0;l<m.NL();l++){ for(int p=0;p<3;p++) for(int t:{1,2,3,7}){ if(p&&t>2&&!T) continue; int*q=PS[p]; int parts=p==0?4:13; for(int k=0;k<parts;k++){ if(!T&&p&&k%4) continue; Spec&s=m.add(fmt("particles %d ranks %dx%dx%d",k,q[0],q[1],q[2]),l,q[0]*q[1]*q[2],{"--tpp",fmt("%d",t)},{2,(double)q[0],(double)q[1],(double)q[2],3,2,2,(double)k,(double)parts}); s.dir=1; s.guard=1; s.timeout=600; } }
    for(int p=0;p<4;p++) for(int k=0;k<4;k++) for(int ns=1;ns<4;ns++){ int*q=PS[p],*n=LM[k]; bool ok=true; for(int a=0;a<3;a++) if(q[a]>1&&n[a]<2) ok=false; if(!ok) continue; Spec&s=m.add(fmt("texts %d species %dx%dx%d ranks %dx%dx%d",ns,n[0],n[1],n[2],q[0],q[1],q[2]),l,q[0]*q[1]*q[2],{"--tpp","2"},{3,(double)q[0],(double)q[1],(double)q[2],(double)n[0],(double)n[1],(double)n[2],(double)ns,(double)T}); s.dir=1; s.guard=1; s.timeout=600; } }
  E.assumptions={"momenta are compared with a double precision half step, 3e-4"}; return m.run(1); }
