#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,32); bool T=m.T; E.rule="one state = one partitioned or joined grid seen from one rank; transitions = relations (neighbours, corners, ranges, walls) compared with the index model"; int MR=T?32:20;
  for(int pz=1;pz<=MR;pz++) for(int py=1;py*pz<=MR;py++) for(int px=1;px*py*pz<=MR;px++){ int R=px*py*pz; S k=fmt("%dx%dx%d",px,py,pz); for(int mode=0;mode<4;mode++){ if(mode==2&&(py>1||pz>1||px>6)) continue; if(mode==1&&R>8&&!T) continue; m.add(fmt("%s ranks %s",mode==0?"box":mode==1?"walls":mode==2?"chain":"refuse",k.c_str()),0,R,{"--tpp","1"},{(double)px,(double)py,(double)pz,(double)(T?6:4),(double)mode}); } }
  E.assumptions={"mesh sizes per rank up to 4 (quick) or 6 (thorough) cells per axis: the construction treats larger ones alike","four boxes (unit, offset far from the origin, tiny, fractional)"}; return m.run(1); }
