#include "simple.h"
int main(int argc,char**argv){ Simple m; m.init(argc,argv); bool T=m.T; E.rule="one state = one particle population sorted by the real routine and compared with the definition of a sort; small populations are enumerated completely (every assignment of particles to voxels)";
  struct M{int n[3],d;}; std::vector<M> ms={{{1,1,1},5},{{2,1,1},T?12:10},{{1,2,2},T?8:6},{{2,2,2},T?6:5},{{3,2,1},T?7:5},{{1,1,7},T?6:5},{{3,3,3},T?4:3},{{5,1,2},T?5:4}}; 
  for(int l=0;l<m.NL();l++) for(int tpp:{1,2,3,4,5,8}) { for(auto&q:ms) m.add(fmt("all mesh=%dx%dx%d depth=%d",q.n[0],q.n[1],q.n[2],q.d),l,1,{"--tpp",fmt("%d",tpp)},{(double)q.n[0],(double)q.n[1],(double)q.n[2],0,(double)q.d,64,(double)(tpp&1)}); 
    int bs[][3]={{1,1,1},{4,4,4},{17,2,3},{2,2,30},{1,9,5},{12,11,10}}; for(auto&b:bs) { Spec&s=m.add(fmt("big mesh=%dx%dx%d",b[0],b[1],b[2]),l,1,{"--tpp",fmt("%d",tpp)},{(double)b[0],(double)b[1],(double)b[2],1,0,T?3000.:700.,(double)(tpp&1)}); s.guard=1; } }
  E.assumptions={"all particles are inside the local domain when they are sorted","partition entries are judged for the voxels of the domain, where they are used","the order among particles of the same voxel is not constrained"}; return m.run(); }
