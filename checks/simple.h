// Host side of the checks whose oracle runs beside the code (vmc_fail) and counts what it compared.
#ifndef SIMPLE_H
#define SIMPLE_H
#include "host.h"
#include <string.h>
struct Simple { std::vector<Spec> v; std::vector<int> L; std::set<S> ids; bool T; std::function<bool(const Spec&,Run&)> more; S keyof(const Spec&s){ return s.id.substr(0,s.id.find(' ')); }
  void init(int argc,char**argv,int copies=8){ vmc_host_init(argc,argv); T=A.thorough; for(auto&p:A.libs) L.push_back(load_lib(p,copies)); }
  static S keypart(S m){ if(m.compare(0,5,"rank ")==0){ size_t c=m.find(": "); if(c!=S::npos) m=m.substr(c+2);} return m.substr(0,m.find(':')); }
  int NL()const{ return (int)L.size(); }
  Spec& add(const S&what,int li,int nranks,std::vector<S> argv,VD par,std::vector<S> spar={}){ Spec s; s.id=what+" "+A.cfgs[li]; for(size_t i=0;i<argv.size();i++) s.id+=(i?" ":" ")+argv[i]; if(!ids.insert(s.id).second){ fprintf(stderr,"duplicate case %s\n",s.id.c_str()); exit(3);} s.lib=L[li]; s.nranks=nranks; s.argv=argv; s.par=par; s.spar=spar; v.push_back(s); return v.back(); }
  int run(int batch=2){ std::vector<Spec> q; for(auto&s:v) if(want(s.id)) q.push_back(s); double t=now(); size_t nd=0; 
    run_all(q,[&](const Spec&s,Run&r){ if(r.status!=RUN_OK){ violation(r.status==RUN_FAIL?S("fail:")+keypart(r.msg):fmt("run:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); return; } if(r.pending){ violation("pending",s.id+fmt(": %d messages were never received",r.pending),&s); return; } if(more&&!more(s,r)) return; E.states+=r.c("states"); E.transitions+=r.c("transitions"); E.evaluations+=std::max(1.0,r.c("states")); E.traces+=std::max(1.0,r.c("traces")); long d=(long)r.c("distinct"); if(d<1) d=1; for(long i=0;i<d&&nd<2000000;i++,nd++) E.distinct.insert(fnv(s.id.data(),s.id.size(),i+77)); },batch);
    printf("%zu cases, %.0f states, %.0f comparisons, %.1f s\n",q.size(),E.states,E.transitions,now()-t); for(size_t i=0;i<q.size();i+=q.size()/6+1) E.sample(q[i].id); return finish(); } };
#endif
