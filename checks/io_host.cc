#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,3); bool T=m.T; E.rule="one state = one sequence of operations on a file, or one dump with a fault at one byte of its file; transitions = results compared with the model";
  static const char* MN[6]={"read","read_write","write","write_read","append","append_read"};
  for(int l=0;l<m.NL();l++) { int dep=T?5:4, sl=T?20:4; for(int md=0;md<6;md++) for(int k=0;k<sl;k++) { auto&s=m.add(fmt("history %s %d/%d",MN[md],k,sl),l,1,{},{0,(double)md,(double)dep,(double)k,(double)sl}); s.dir=1; s.timeout=T?3000:300; }
    m.add("faults",l,1,{},{1}).dir=1; for(int k=0;k<17;k++) for(int sz=0;sz<(T?2:1);sz++) { auto&s=m.add(fmt("dump %d size %d",k,sz),l,1,{"--tpp","1"},{2,(double)k,1,0,sz?8.:6.,sz?6.:3.,sz?4.:2.}); s.dir=1; s.timeout=T?3000:300; } for(int k=4;k<17;k++) if(k!=8) for(int bad=0;bad<(T?3:2);bad++) { auto&s=m.add(fmt("dump %d of %d ranks, disk of %d",k,T?3:2,bad),l,T?3:2,{"--tpp","1"},{2,(double)k,0,(double)bad,4.,3.,2.}); s.dir=1; s.timeout=T?3000:300; } auto&b=m.add("bits",l,1,{"--tpp","1"},{3,0,0,0,2,2,2}); b.dir=1; }
  E.assumptions={"a disk fault is a write that transfers less than asked, one write that fails, or a close that fails; faults are injected below the C library's buffers","operations the C library leaves undefined (reading straight after writing) are not generated"}; return m.run(1); }
