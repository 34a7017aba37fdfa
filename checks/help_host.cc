#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,2); bool T=m.T; E.rule="one state = one helper called with one combination of arguments";
  for(int l=0;l<m.NL();l++) { for(int nr=1;nr<3;nr++) m.add(fmt("numbers ranks %d",nr),l,nr,{"--tpp","1"},{0}); int M=T?6:4; for(int nr=1;nr<3;nr++) for(int x=1;x<=M;x++) for(int y=1;y<=M;y++) for(int z=1;z<=M;z++) { if(!T&&nr==2&&(x*y*z)%5) continue; auto&s=m.add(fmt("arrays %dx%dx%d ranks %d",x,y,z,nr),l,nr,{"--tpp","1"},{1,(double)x,(double)y,(double)z}); s.guard=1; } }
  E.assumptions={"arguments come from lattices of ordinary, extreme and boundary values"}; return m.run(4); }
