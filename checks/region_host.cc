#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = one region command applied to a region (set of cells or points) with a choice of arguments; transitions = values of the mesh compared with the definition";
  struct P{ int p[3],n[3]; }; std::vector<P> ps={{{1,1,1},{2,2,2}},{{1,1,1},{1,2,3}},{{1,1,1},{3,1,1}},{{2,1,1},{4,2,1}},{{1,2,1},{1,4,2}},{{1,1,2},{2,1,4}},{{2,2,1},{2,4,1}},{{2,2,2},{2,2,2}},{{1,1,1},{3,3,1}},{{3,1,1},{3,2,1}}}; if(T){ ps.push_back({{1,1,1},{3,2,2}}); ps.push_back({{1,2,2},{3,2,2}}); ps.push_back({{2,2,2},{4,2,2}}); ps.push_back({{1,3,2},{2,3,2}}); }
  for(int l=0;l<m.NL();l++) for(size_t i=0;i<ps.size();i++) for(int mode=0;mode<2;mode++) for(int box=0;box<3;box++){ if(!T&&box!=(int)(i%3)&&i) continue; auto&p=ps[i]; if(mode&&!T&&p.n[0]*p.n[1]*p.n[2]>9) continue; m.add(fmt("%s ranks %dx%dx%d mesh %dx%dx%d box %d",mode?"points":"cells",p.p[0],p.p[1],p.p[2],p.n[0],p.n[1],p.n[2],box),l,p.p[0]*p.p[1]*p.p[2],{"--tpp","1"},{(double)mode,(double)p.p[0],(double)p.p[1],(double)p.p[2],(double)p.n[0],(double)p.n[1],(double)p.n[2],(double)box,(double)T}).timeout=T?3000:200; }
  E.assumptions={"regions answer at the points of the mesh only up to rounding of the coordinates (the regions used change between points, not at them)","beyond the domain the region is empty, full or continued from the nearest cell"}; return m.run(1); }
