#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,1); bool T=m.T; E.rule="one state = one history of allocations and releases, one combination of arguments of a macro, or one command line";
  for(int l=0;l<m.NL();l++) { for(int g=0;g<2;g++) for(int f=0;f<15;f++) { auto&s=m.add(fmt("allocations first %d%s",f,g?" guarded":""),l,1,{"--tpp","1"},{0,(double)f,(double)(g?3:T?6:5),(double)g}); s.guard=g; } m.add("refusals",l,1,{"--tpp","1"},{1}); m.add("macros",l,1,{"--tpp","1"},{2,(double)T}); m.add(fmt("old options %d",T?4:3),l,1,{"--tpp","1"},{4,(double)(T?4:3)}); }
  E.assumptions={"sizes and alignments come from small lattices"}; return m.run(1); }
