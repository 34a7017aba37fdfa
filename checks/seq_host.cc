#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = (setting of all intervals, rounds and step counts, set-up, callback at a step); transitions = groups of quantities seen there compared with the documented sequence";
  struct Deck{ const char*name; int bits,p[3],n[3]; }; const int ALL=131071&~16384&~32768; std::vector<Deck> D={{"fields",16384|2|8192,{1,1,1},{3,2,2}},{"fields",16384|2|4096,{2,1,1},{4,2,2}},{"plain",1,{1,1,1},{2,2,2}},{"plain",1|8192,{2,1,1},{4,2,2}},{"user",1|8192|512,{1,1,1},{2,2,2}},{"collide",1|16|32|8192,{1,1,1},{2,2,2}},{"emit",1|8|512|65536,{1,1,1},{2,2,2}},{"open",1|4|4096|512,{1,1,1},{2,2,2}},{"all",ALL,{1,1,1},{2,2,2}},{"all",ALL,{1,2,1},{2,4,2}},{"metal",1|32768|8|2,{2,2,1},{4,4,2}},{"all",ALL,{2,2,1},{4,4,2}}};
  if(T){ for(int b=1;b<14;b++){ D.push_back({"bit",1|(1<<b)|8192,{1,1,2},{2,2,4}}); D.push_back({"all but",(ALL&~(1<<b))|1,{1,1,1},{2,3,2}}); } }
  for(int l=0;l<m.NL();l++) for(auto&d:D) for(int tpp=1;tpp<=(l==0&&(T||d.bits==ALL)?2:1);tpp++) for(int mode=0;mode<3;mode++){ int nr=d.p[0]*d.p[1]*d.p[2]; int M=mode==0?(l?(T?4:2):T?5:nr>2?3:4):(T?5:4); m.add(fmt("%s %x ranks %dx%dx%d %s M%d",d.name,d.bits,d.p[0],d.p[1],d.p[2],mode==0?"intervals":mode==1?"rounds":"ends",M),l,nr,{"--tpp",fmt("%d",tpp)},{(double)d.bits,(double)d.p[0],(double)d.p[1],(double)d.p[2],(double)d.n[0],(double)d.n[1],(double)d.n[2],(double)mode,(double)M}); }
  for(auto&s:m.v) s.timeout=600;
  E.assumptions={"the phases themselves are the subject of other properties: the reference sequence calls the same kernels","intervals 0..2 (quick) or 0..3 (thorough) over 7 steps: longer intervals only repeat the pattern"}; return m.run(1); }
