#include "simple.h"
#include <sys/stat.h>
int main(int argc,char**argv){ Simple m; m.init(argc,argv,4); bool T=m.T; E.rule="one state = one argument vector, command line of the real main, override file or sequence of definitions; transitions = comparisons with the model";
  S scratch=make_scratch("c22"); auto put=[&](const char*n,const char*t){ FILE*f=fopen((scratch+"/"+n).c_str(),"w"); fputs(t,f); fclose(f); }; put("m5","num_step 5\n"); put("m1","num_step 1"); put("m0","# nothing\n");
  m.add("strip narrow",0,1,{},{0,(double)(T?7:5),0}); m.add("strip wide",0,1,{},{0,(double)(T?5:4),1}); { Spec&s=m.add("override",0,1,{"--tpp","1"},{2,(double)(T?4:3)}); s.usedir=scratch; } m.add("lists",0,1,{"--tpp","1"},{3,(double)(T?6:4)});
  // command lines of the real main: options in every position among the arguments of the user
  struct O{ std::vector<S> t; int kind; double v; }; std::vector<O> os={{{"--tpp","1"},1,1},{{"--tpp","3"},1,3},{{"--tpp","2"},1,2},{{"--modify","m5"},2,5},{{"--modify","m1"},2,1},{{"--modify","m0"},2,3},{{"u"},0,0},{{"--user"},0,0},{{"tpp"},0,0},{{"--tppx"},0,0},{{"-t"},0,0},{{"-rest"},0,0},{{"--restart"},0,0},{{"-n","4"},0,0},{{"a=b"},0,0},{{"x-tpp"},0,0},{{"-tpp","2"},3,0},{{"-tpp=2"},3,0},{{"-restore","a"},3,0},{{"-restore"},3,0},{{"-restart"},3,0},{{"-restart","a"},3,0},{{"-tpp4"},3,0},{{"--serial.n_pipeline","2"},4,0}};
  int D=T?4:3; for(int l=0;l<m.NL();l++) for(int len=0;len<=D-(l>0);len++){ std::vector<int> ix(len,0); for(;;){ std::vector<S> av,spar={"",""}; bool bad=false; int pipes=1; double steps=3; bool skip=false; int nu=0; for(int i:ix){ auto&o=os[i]; if(o.kind==4&&l) skip=true; for(auto&t:o.t) av.push_back(t); if(o.kind==0){ nu++; for(auto&t:o.t) spar.push_back(t); } if(o.kind==1) pipes=(int)o.v; if(o.kind==2) steps=o.v; if(o.kind==3) bad=true; } (void)nu; spar.push_back("\1");
      if(!skip){ S w="main"; if(ix.empty()) w="main none"; Spec s; s.id=w+" "+A.cfgs[l]; for(auto&t:av) s.id+=" "+t; if(m.ids.insert(s.id).second){ s.lib=m.L[l]; s.nranks=1; s.argv=av; s.par={1,bad?1.:0.,(double)pipes,steps}; s.spar=spar; s.usedir=scratch; m.v.push_back(s); } }
      int q=0; while(q<len&&++ix[q]==(int)os.size()) ix[q++]=0; if(q==len) break; } }
  E.assumptions={"an option whose value itself looks like an obsolete option is left out","override files with one key per line and lines up to 126 characters"}; int r=m.run(40); remove_tree(scratch); return r; }
