// C10: cases
#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = one dump (mesh, strides, variables, format, array, step); transitions = values of files compared with memory";
  int LM[][3]={{4,3,2},{1,4,1},{6,1,1},{2,2,2},{3,3,3},{8,1,2},{1,1,1},{1,1,6},{5,2,4},{4,4,4},{2,9,1},{12,1,1}}, PS[][3]={{1,1,1},{2,1,1},{1,2,2},{3,1,1},{2,2,2}};
  for(int l=0;l<m.NL();l++) for(int k=0;k<12;k++) for(int p=0;p<5;p++) for(int h=0;h<2;h++) for(int t:{1,3}){  int*q=PS[p],*n=LM[k]; bool ok=true; for(int a=0;a<3;a++) if(q[a]>1&&n[a]<2) ok=false; if(!ok) continue; Spec&s=m.add(fmt("%s %dx%dx%d ranks %dx%dx%d",h?"hydro":"field",n[0],n[1],n[2],q[0],q[1],q[2]),l,q[0]*q[1]*q[2],{"--tpp",fmt("%d",t)},{(double)h,(double)q[0],(double)q[1],(double)q[2],(double)n[0],(double)n[1],(double)n[2],(double)(T||(p<2&&t==1))}); s.dir=1; s.guard=1; s.timeout=600; }
  E.assumptions={"the position of strided points is 0, k*stride-1 (k for stride 1) and n+1, as in the present code; material variables are 2-byte integers, as the global header announces"}; return m.run(1); }
