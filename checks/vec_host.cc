#include "simple.h"
int main(int argc,char**argv){ vmc_host_init(argc,argv); Simple m; m.T=A.thorough; E.rule="one state = one vector of operands, mask pattern, permutation or address arrangement; transitions = lanes or words compared with scalar code"; int skipped=0;
  // an implementation the processor lacks cannot be loaded, let alone run
  for(size_t i=0;i<A.libs.size();i++){ const S&c=A.cfgs[i]; bool ok=true; if(c.find("avx512")!=S::npos) ok=__builtin_cpu_supports("avx512f")&&__builtin_cpu_supports("avx512dq")&&__builtin_cpu_supports("avx512bw")&&__builtin_cpu_supports("avx512vl"); else if(c.find("avx2")!=S::npos) ok=__builtin_cpu_supports("avx2")&&__builtin_cpu_supports("fma"); else if(c.find("avx")!=S::npos) ok=__builtin_cpu_supports("avx"); if(!ok){ printf("%s: not supported by this processor, left out\n",c.c_str()); skipped++; m.L.push_back(-1); } else m.L.push_back(load_lib(A.libs[i],8)); }
  static const char*what[]={"int","mask","permute","memory","transpose","float","math","approx","rsqrt-range","rcp-range"};
  for(int l=0;l<m.NL();l++) if(m.L[l]>=0) for(int k=0;k<10;k++) m.add(what[k],l,1,{},{(double)k,(double)m.T}).timeout=300;
  E.put("implementations left out because the processor lacks them",skipped); E.assumptions={"operands of integer operations that C leaves undefined (overflow, division by zero, shifts of negative numbers to the left) are excluded","approximate operations are held to 1e-3, their refined forms to 1e-6, on normal positive numbers only","a load of three words may read the fourth word of the aligned group, which the interface's alignment makes safe"}; return m.run(1); }
