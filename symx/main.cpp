#include "engine.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
void loadIR(Engine&,const std::string&); void initGlobals(Engine&);
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static std::vector<std::string> errors; static std::map<std::string,u64> ends; static double deadline, grace; static std::atomic<u64>*shared; /* next seed, halt, violations so far */ static bool timedOut=false; static bool verbose;
struct Wit { std::vector<std::pair<std::string,std::vector<u8>>> in; };
static std::map<std::string,std::pair<u64,std::string>> coverW; static std::vector<std::string> samples; static int maxSamples=6;
static std::string hexIn(State&S){ std::string o; auto&M=*S.model; for(auto&r:S.recs){ if(!o.empty()) o+=","; o+=r.name+"="; char b[4]; for(u32 i=0;i<r.count;i++){ u8 x=(u8)(r.first+i<M.size()?M[r.first+i]:dflt(r.first+i)); snprintf(b,4,"%02x",x); o+=b; } } return o; }
static std::string hexV(const std::vector<std::pair<std::string,std::vector<u8>>>&in){ std::string o; for(auto&r:in){ if(!o.empty()) o+=","; o+=r.first+"="; char b[4]; for(u8 x:r.second){ snprintf(b,4,"%02x",x); o+=b; } } return o; }
static std::string clean(std::string s){ for(auto&c:s) if(c=='\t'||c=='\n') c=' '; return s; }
// run one state until it ends (returns true) or forks when stopAtFork
static void runState(Engine&E,State*S,bool stopAtFork){
  E.st.paths++;
  try{
    while(1){
      if(E.stop){ delete S; return; }
      S->steps++; E.st.steps++;
      if(S->steps>E.maxSteps) { E.violation(*S,"hang","execution does not terminate within the step bound",nullptr); throw PathEnd{"steps"}; }
      if((S->steps&1023)==0||E.tick){ E.tick=false; double t=now(); u64 nv=shared[2].load(); if(nv&&!grace) grace=t+45; if(nv>=(u64)E.maxViol*2||shared[1].load()||(grace&&t>grace)) E.stop=true; else if(t>deadline){ timedOut=true; E.stop=true; } }
      size_t w0=E.work.size();
      if(S->st.back().k==K_IR) E.stepIR(*S); else E.stepAsm(*S);
      if(stopAtFork&&E.work.size()>w0){ E.work.push_back(S); return; }
    }
  } catch(PathEnd&p){
    ends[p.why]++; if(p.why=="done"){ E.st.completed++; 
      bool first=false; for(auto c:S->covers){ auto&x=coverW[c]; if(x.first++==0){ x.second=hexIn(*S); first=true; } } (void)first;
      if((int)samples.size()<maxSamples||(rand()%(E.st.completed+1))<(u64)maxSamples){ std::string h=hexIn(*S); if((int)samples.size()<maxSamples) samples.push_back(h); else samples[rand()%maxSamples]=h; } }
    delete S;
  } catch(EngineError&e){ std::string m=std::string(e.what())+" @ "+E.where(*S); if(errors.size()<20) errors.push_back(clean(m)); else E.stop=true; if(verbose) fprintf(stderr,"ENGINE ERROR: %s\n",m.c_str()); delete S; }
}
static void dump(Engine&E,FILE*f){
  auto&s=E.st; 
  #define P(x) fprintf(f,"S\t" #x "\t%llu\n",(unsigned long long)s.x)
  P(queries);P(sat);P(unsat);P(paths);P(completed);P(killed);P(forks);P(steps);P(asmsteps);P(asserts);P(assertsSolver);P(memchk);P(cfi);P(viol);P(maxdepth);P(unknown);
  fprintf(f,"S\tztime_us\t%llu\nS\tzmax_us\t%llu\n",(unsigned long long)(s.ztime*1e6),(unsigned long long)(s.zmax*1e6));
  for(auto&c:coverW) fprintf(f,"C\t%s\t%llu\t%s\n",c.first.c_str(),(unsigned long long)c.second.first,c.second.second.c_str());
  for(auto&c:E.funcs) fprintf(f,"F\t%s\t%llu\n",c.first.c_str(),(unsigned long long)c.second);
  for(auto&e:E.prof) fprintf(f,"Q\t%s\t%llu\n",e.first.c_str(),(unsigned long long)e.second);
  for(auto&e:ends) fprintf(f,"X\t%s\t%llu\n",clean(e.first).c_str(),(unsigned long long)e.second);
  for(auto&e:errors) fprintf(f,"E\t%s\n",e.c_str());
  for(auto&w:samples) fprintf(f,"W\t%s\n",w.c_str());
  for(auto&v:E.viols){ std::string n; for(auto&x:v.notes){ if(!n.empty()) n+="; "; n+=x; } fprintf(f,"V\t%s\t%s\t%s\t%s\t%s\n",v.kind.c_str(),clean(v.msg).c_str(),clean(v.where).c_str(),clean(n).c_str(),hexV(v.in).c_str()); }
  if(timedOut) fprintf(f,"T\ttimeout\n");
}
int main(int argc,char**argv){
  std::string ir,entry="harness",out; std::vector<std::string> objs; int jobs=8; double tl=600; Engine E; size_t seeds=400; unsigned seed=1; u64 memgb=3;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--ir") ir=nx(); else if(a=="--obj") objs.push_back(nx()); else if(a=="--hobj"){ objs.push_back(nx()); E.harnessObjs.insert(objs.back()); } else if(a=="--entry") entry=nx(); else if(a=="--out") out=nx(); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--keepeq") gKeepEq=true; else if(a=="--fold") gKeepEq=false; else if(a=="--cfi") E.cats.insert("cfi"); else if(a=="--verbose") verbose=E.verbose=true; else if(a=="--seeds") seeds=atoi(nx().c_str()); else if(a=="--maxviol") E.maxViol=atoi(nx().c_str()); else if(a=="--prop") E.prop=nx(); else if(a=="--steps") E.maxSteps=atoll(nx().c_str()); else if(a=="--inputs"){ E.replay=true; jobs=1; FILE*f=fopen(nx().c_str(),"r"); if(!f) return 2; std::string t; int c; while((c=fgetc(f))!=EOF) if(c!='\n') t+=(char)c; fclose(f); size_t p=0; while(p<t.size()){ size_t q=t.find('=',p); size_t e=t.find(',',q); if(e==std::string::npos) e=t.size(); std::vector<u8> b; for(size_t k=q+1;k+1<e;k+=2) b.push_back((u8)strtoul(t.substr(k,2).c_str(),0,16)); E.replayIn.push_back({t.substr(p,q-p),b}); p=e+1; } }
    else if(a=="--seed") seed=atoi(nx().c_str()); else { fprintf(stderr,"bad option %s\n",a.c_str()); return 2; } }
  srand(seed); (void)memgb;
  shared=(std::atomic<u64>*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); for(int i=0;i<3;i++) new(shared+i) std::atomic<u64>(0); E.firstViol=shared+2;
  double t0=now(); deadline=t0+tl;
  try{
    E.x86init(); loadIR(E,ir); for(auto&o:objs) E.loadObj(o); initGlobals(E);
    // objects may refer to symbols of later objects: second pass after all symbols are known
    if(objs.size()>1){ E.init.clear(); E.asmText.clear(); E.harnessText.clear(); E.fdes.clear(); E.asmTop=0x10000000; for(auto&o:objs) E.loadObj(o); initGlobals(E); }
    State*S=new State; E.initState(*S); auto*f=E.M->getFunction(entry); if(!f||f->isDeclaration()) throw EngineError("no entry function "+entry);
    E.enterIR(*S,f,{},{},-1,0); E.work.push_back(S);
  } catch(EngineError&e){ fprintf(stderr,"ENGINE ERROR: %s\n",e.what()); if(!out.empty()){ FILE*f=fopen(out.c_str(),"w"); fprintf(f,"E\t%s\n",e.what()); fclose(f); } return 2; }
  // breadth-first until there is enough work to share
  while(!E.work.empty()&&E.work.size()<seeds&&!E.stop&&jobs>1){ State*S=E.work.front(); E.work.pop_front(); E.st.paths--; runState(E,S,true); }
  std::vector<std::string> parts;
  if(!E.work.empty()&&!E.stop){
    if(jobs<=1){ while(!E.work.empty()&&!E.stop){ State*S=E.work.back(); E.work.pop_back(); runState(E,S,false); } }
    else {
      auto*next=shared; auto*halt=next+1;
      std::vector<State*> seedv(E.work.begin(),E.work.end()); E.work.clear(); 
      // shuffle so that expensive subtrees spread over the workers
      for(size_t i=seedv.size();i>1;i--) std::swap(seedv[i-1],seedv[rand()%i]);
      std::vector<pid_t> pids; fflush(nullptr);
      for(int j=0;j<jobs;j++){ std::string pf=(out.empty()?std::string("/tmp/symx.")+std::to_string(getpid()):out)+".w"+std::to_string(j); parts.push_back(pf); pid_t p=fork(); if(p==0){
          E.st=Engine::Stats(); E.funcs.clear(); E.prof.clear(); E.viols.clear(); coverW.clear(); ends.clear(); errors.clear(); samples.clear(); srand(seed*100+j);
          while(!E.stop){ if(halt->load()) break; u64 k=next->fetch_add(1); if(k>=seedv.size()) break; E.work.push_back(seedv[k]); seedv[k]=nullptr; while(!E.work.empty()&&!E.stop){ State*S=E.work.back(); E.work.pop_back(); runState(E,S,false); } }
          if(E.stop&&!timedOut) halt->store(1);
          FILE*f=fopen(pf.c_str(),"w"); dump(E,f); fprintf(f,"D\tok\n"); fclose(f); _exit(0); } pids.push_back(p); }
      for(size_t j=0;j<pids.size();j++){ int stt; waitpid(pids[j],&stt,0); }
    } }
  FILE*f=out.empty()?stdout:fopen(out.c_str(),"w"); dump(E,f);
  for(auto&p:parts){ FILE*g=fopen(p.c_str(),"r"); bool ok=false; if(g){ char*l=nullptr; size_t n=0; ssize_t k; while((k=getline(&l,&n,g))>0){ if(!strncmp(l,"D\tok",4)) ok=true; else fputs(l,f); } free(l); fclose(g); unlink(p.c_str()); } if(!ok) fprintf(f,"E\tworker died (out of memory or crash)\n"); }
  fprintf(f,"S\twall_ms\t%llu\n",(unsigned long long)((now()-t0)*1000)); fprintf(f,"D\tok\n"); if(f!=stdout) fclose(f); return 0;
}
