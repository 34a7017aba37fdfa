#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = a history of timed operations and updates, or (set-up, setting of intervals, rounds and steps, step), with every counter, time and log line compared";
  struct Deck{ const char*name; int bits,p[3],n[3]; }; const int ALL=131071&~16384&~32768; std::vector<Deck> D={{"fields",16384|2|8192,{1,1,1},{3,2,2}},{"fields",16384|2|4096,{2,1,1},{4,2,2}},{"one species",8192,{1,1,1},{2,2,2}},{"plain",1,{1,1,1},{2,2,2}},{"plain",1|8192,{2,1,1},{4,2,2}},{"all",ALL,{1,1,1},{2,2,2}},{"open",1|4|4096|512,{1,1,1},{2,2,2}},{"all",ALL,{1,2,1},{2,4,2}},{"metal",1|32768|8|2,{2,2,1},{4,4,2}}};
  for(int l=0;l<m.NL();l++) { for(int f=0;f<18;f++) m.add(fmt("table history first %d",f),l,1,{"--tpp","1"},{0,(double)f,(double)(T?5:4)}); for(int nr=1;nr<(T?6:5);nr++) m.add(fmt("uptime ranks %d",nr),l,nr,{"--tpp","1"},{2}); if(A.cfgs[l]=="digits") continue;
    for(auto&d:D) for(int mode=0;mode<3;mode++){ int nr=d.p[0]*d.p[1]*d.p[2]; int M=mode==0?(l?(T?4:2):T?5:3):(T?5:4); m.add(fmt("run %s %x ranks %dx%dx%d %s M%d",d.name,d.bits,d.p[0],d.p[1],d.p[2],mode==0?"intervals":mode==1?"rounds":"ends",M),l,nr,{"--tpp","1"},{1,(double)d.bits,(double)d.p[0],(double)d.p[1],(double)d.p[2],(double)d.n[0],(double)d.n[1],(double)d.n[2],(double)mode,(double)M}); } }
  for(auto&s:m.v) s.timeout=600;
  E.assumptions={"the clock is under the control of the harness; durations are those of the callbacks and of the field kernels","numbers in the table are compared within the digits it prints"}; return m.run(1); }
