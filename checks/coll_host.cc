#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,16); bool T=m.T; E.rule="one state = one cell, particle or pair under one operator setting; transitions = relations compared";
  for(int l=0;l<m.NL();l++) for(const char*tpp:{"1","2","3","4"}){ bool few=*tpp!='1'&&*tpp!='3'; auto add=[&](const char*w,int mode,int a){ m.add(fmt("%s %d",w,a),l,1,{"--tpp",tpp},{(double)mode,(double)a}).timeout=400; };
    if(l&&few&&!T) continue; for(int i=0;i<2;i++) add("pairing",0,i); add("unary",1,0); for(int k=0;k<3;k++){ add("conserve",2,k); if(!few||T) add("angles",3,k); } if(!few||T) for(int k=0;k<2;k++) add("fluid",5,k); add("drag",4,0); add("limits",6,0); }
  E.assumptions={"which pairs collide is decided by the real generator from a fixed seed: the pairing, the update rule and conservation are exact, the frequencies and angles are checked to 6 standard deviations","energies are the nonrelativistic ones the operators are written for"}; return m.run(1); }
