#include "simple.h"
#include <sys/stat.h>
#include <unistd.h>
int main(int argc,char**argv){ Simple m; m.init(argc,argv,8); bool T=m.T; E.rule="one state = (set-up, rank, kind of fault, position in the checkpoint stream); transitions = runs of the real program with that fault";
  struct Deck{ const char*name; int bits,p[3],n[3],step; }; const int ALL=(131071&~16384&~32768); std::vector<Deck> D={{"fields",16384|2,{1,1,1},{2,1,1},0},{"all",ALL,{1,1,1},{2,2,2},0},{"all",ALL,{2,1,1},{4,2,2},1}}; if(T){ D.push_back({"plain",1|2048,{1,1,1},{2,2,2},1}); D.push_back({"bc",1|4|4096|512,{1,2,1},{2,4,2},3}); D.push_back({"all",ALL&~4096,{2,2,1},{4,4,2},3}); }
  S scratch=make_scratch("c08"); int uniq=0; long nfault=0; 
  for(int l=0;l<m.NL();l++) for(auto&d:D){ if(l&&!T) continue; int nr=d.p[0]*d.p[1]*d.p[2]; S dir=scratch+fmt("/%d",uniq++); mkdir(dir.c_str(),0777); S key=fmt("%s %dx%dx%d ranks %dx%dx%d %s",d.name,d.n[0],d.n[1],d.n[2],d.p[0],d.p[1],d.p[2],A.cfgs[l].c_str());
    auto mk=[&](const S&what,bool rest,int fr,int mode,double pos,unsigned long long x,const S&base){ Spec s; s.lib=m.L[l]; s.nranks=nr; s.usedir=dir; s.cont=true; s.timeout=120; s.argv={"--tpp","1"}; if(rest){ s.argv.push_back("--restore"); s.argv.push_back(fmt("a.%d",d.step)); } s.par={(double)d.bits,(double)d.p[0],(double)d.p[1],(double)d.p[2],(double)d.n[0],(double)d.n[1],(double)d.n[2],(double)(d.step+1),(double)(rest?-1:d.step),(double)fr,(double)mode,pos,(double)(x&0xffffffffull),(double)(x>>32),rest?1.:0.}; s.spar={base}; s.perturb=rest?0x4b:0; s.id=key+" "+what; return s; };
    // the checkpoint itself, and a clean restore of it
    std::vector<Spec> b={mk("write",false,-1,0,-1,0,"a")}; bool good=true; auto clean=[&](const Spec&s,Run&r){ if(r.status!=RUN_OK){ good=false; violation(fmt("clean:%s",run_status_name(r.status)),s.id+": "+r.msg,&s); } }; run_all(b,clean,1); if(!good) continue; b={mk("restore",true,-1,0,-1,0,"none")}; run_all(b,clean,1); if(!good) continue;
    std::vector<Spec> W,R; 
    for(int q=0;q<nr;q++){ std::vector<unsigned char> F; { FILE*f=fopen((dir+fmt("/a.%d.%d",d.step,q)).c_str(),"rb"); if(!f){ fprintf(stderr,"no checkpoint file\n"); return 3; } int c; while((c=fgetc(f))!=EOF) F.push_back(c); fclose(f); } long n=F.size(); printf("%s: rank %d writes %ld bytes\n",key.c_str(),q,n); bool small=n<120000&&(l==0);
      auto u64=[&](long i){ unsigned long long v=0; memcpy(&v,&F[i],8); return v; };
      // markers of the stream as it is
      std::vector<std::pair<long,int> > mk8; for(long i=0;i+8<=n;i++){ unsigned long long v=u64(i); int k=v==0x600DF00D?1:v==0xBADF00D?2:v==0xDA7A?3:v==0x577?4:v==0x2c11577?5:v==0x977?6:v==0x2c11977?7:v==0x2C11513B||v==0xADD7513B||v==0x513B?8:0; if(k) mk8.push_back({i,k}); }
      std::set<long> pos; for(auto&p:mk8) for(int o=-1;o<=9;o+=T||nr==1?1:5) pos.insert(p.first+o); for(int o=0;o<=64;o++){ pos.insert(o); pos.insert(n-1-o); } for(long c=0;c<n;c+=4096) for(int o=-2;o<=2;o++) pos.insert(c+o); long st=T?(d.bits==ALL?3:1):d.bits!=ALL?11:nr==1?29:101; (void)small; for(long i=0;i<n;i+=st) pos.insert(i); 
      for(long i:pos) if(i>=0&&i<n){ R.push_back(mk(fmt("rank %d: file ends at byte %ld of %ld",q,i,n),true,q,4,i,0,"none")); if(i%(T?2:4)==0||i<64||n-i<64) R.push_back(mk(fmt("rank %d: read error at byte %ld",q,i),true,q,3,i,0,"none")); W.push_back(mk(fmt("rank %d: disk full after %ld of %ld bytes",q,i,n),false,q,0,i,0,fmt("w%d",q))); if(i%(T?2:4)==0||n-i<64) W.push_back(mk(fmt("rank %d: a write fails after %ld bytes",q,i),false,q,1,i,0,fmt("w%d",q))); }
      W.push_back(mk(fmt("rank %d: close fails",q),false,q,2,0,0,fmt("w%d",q))); 
      for(size_t z=0;z<mk8.size();z++){ long i=mk8[z].first; int k=mk8[z].second; for(int bit=0;bit<64;bit++) if(T||z<24||bit%13==(int)(z%13)) R.push_back(mk(fmt("rank %d: bit %d of the marker at byte %ld flipped",q,bit,i),true,q,5,i,1ull<<bit,"none")); R.push_back(mk(fmt("rank %d: marker at byte %ld zeroed",q,i),true,q,5,i,u64(i),"none"));
        if(k==3&&i+48<=n){ unsigned long long ne=u64(i+24),mx=u64(i+32),sz=u64(i+8),str=u64(i+16); R.push_back(mk(fmt("rank %d: more elements than room at byte %ld",q,i),true,q,5,i+24,ne^(mx+1),"none")); R.push_back(mk(fmt("rank %d: element larger than its stride at byte %ld",q,i),true,q,5,i+8,sz^(str+1),"none")); }
        if(k==4&&i+17<=n&&u64(i+8)>0&&u64(i+8)<200&&i+16+(long)u64(i+8)<=n) for(unsigned long long c=0;c<u64(i+8);c++){ long at=i+16+c; R.push_back(mk(fmt("rank %d: character %llu of the string at byte %ld is zero",q,c,i),true,q,5,at,F[at],"none")); } } }
    auto judge=[&](const Spec&s,Run&r){ E.states++; E.transitions++; E.evaluations++; E.traces++; E.distinct.insert(fnv(s.id.data(),s.id.size())); bool rest=s.par[14]!=0; int q=(int)s.par[9]; if(r.status==RUN_ERROR){ nfault++; if(rest) for(int i=0;i<nr;i++) if(!r.b(i,"ran").empty()){ violation("partial start",s.id+fmt(": rank %d started to run although the checkpoint of rank %d is damaged",i,q),&s); return; } if(!rest&&!r.b(q,"survived").empty()&&r.b(q,"survived")[0]){ violation("late",s.id+": the failed checkpoint was only noticed after it was taken for good",&s); } return; }
      if(r.status!=RUN_OK){ violation(fmt("run:%s",run_status_name(r.status)),s.id+": no error was reported, the run ended with "+run_status_name(r.status)+" "+r.msg,&s); return; }
      const VD&t=r.b(q,rest?"tripped":"survived"); if(t.size()&&t[0]) violation(rest?"restored damaged":"incomplete accepted",s.id+(rest?": restored without an error":": the run went on without an error"),&s); };
    // all full-disk runs of a rank share file names; give every worker slot its own copy by name
    for(size_t i=0;i<W.size();i++) W[i].spar[0]=fmt("w%zu",i); auto clean_w=[&](const Spec&s,Run&r){ judge(s,r); for(int i=0;i<nr;i++) unlink((dir+"/"+s.spar[0]+fmt(".%d.%d",d.step,i)).c_str()); };
    for(int z=0;z<2;z++){ auto&V=z?R:W; for(size_t i=0;i<V.size();i+=16000){ std::vector<Spec> part; for(size_t j=i;j<std::min(V.size(),i+16000);j++) if(want(V[j].id)) part.push_back(V[j]); if(z) run_all(part,judge,60); else run_all(part,clean_w,60); } } for(size_t i=0;i<R.size();i+=R.size()/3+1) E.sample(R[i].id); }
  printf("%ld faults reported as errors\n",nfault); remove_tree(scratch);
  E.assumptions={"faults act on the byte stream between stdio and the operating system; all writes of a stream after a full disk fail","only structure is protected: damage inside stored numbers is not detected by design (there is no checksum)"}; return finish(); }
