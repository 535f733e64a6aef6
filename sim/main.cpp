// Runner: seeded search over runs, determinism and replay gates, minimisation, evidence.
#include "scn.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

void preopenHost(const vector<string>&paths);
map<string,Scenario>& scenarios(){ static map<string,Scenario> m; return m; }
static double mono(){ timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }
bool isPrefix(const string&p,const string&s){ return s.compare(0,p.size(),p)==0; }
string j(const vector<string>&v,const string&sep){ string s; for(size_t i=0;i<v.size();i++) s+=(i?sep:"")+v[i]; return s; }
void genFaults(Rng&r,Case&c,const vector<string>&kinds,double maxRate,double pNone){ if(r.chance(pNone)) return; vector<string> ks; for(auto&k:kinds) if(r.chance(0.4)) ks.push_back(k); if(ks.empty()&&!kinds.empty()) ks.push_back(kinds[r.below(kinds.size())]); double base=maxRate; switch(r.below(3)){ case 0: base*=0.1; break; case 1: base*=0.4; break; } for(auto&k:ks) c.setd("f."+k,base*(0.3+0.7*(r.below(1000)/1000.0))); if(r.chance(0.35)) c.set("maxfaults",(i64)r.range(1,3)); }
void applyFaults(const Case&c,Sim&s){ for(auto&kv:c.par) if(isPrefix("f.",kv.first)) s.fc.rate[kv.first.substr(2)]=strtod(kv.second.c_str(),0); s.fc.maxFaults=c.geti("maxfaults",1000); }
static int g_trace=0;
void simRun(const Case&c,Outcome&out,std::function<void(Sim&)> body){ Sim s(c,out); s.logStrings=g_trace; try{ s.boot(); applyFaults(c,s); body(s); }catch(SimError&e){ out.error=true; out.errmsg=e.m; }
  s.killAll(); for(auto&a:out.all){ s.lh=hstr(a.first,s.lh); } out.hash=s.lh; out.steps+=s.stepNo; out.syscalls+=s.sysNo; out.simns+=s.now; out.schedhash=mix64(out.schedhash^s.sh); if(g_trace) out.trace=s.traceText; }
static void execCase(const Scenario&sc,const Case&c,Outcome&o){ try{ sc.run(c,o); }catch(SimError&e){ o.error=true; o.errmsg=e.m; } catch(std::exception&e){ o.error=true; o.errmsg=e.what(); } }

// ---------------------------------------------------------------- known findings
struct Known { string prop,cls,match,text; };
static string verifDir(){ const char*v=getenv("SIM_VERIF"); return v?v:"/verif"; }
static vector<Known> loadKnown(){ vector<Known> r; string t; if(!readHost(verifDir()+"/known-findings.txt",t)) return r; for(auto&l:split(t,'\n')){ if(!isPrefix("known: ",l)) continue; Known k; size_t d=l.find(" :: "); string head=l.substr(7,d==string::npos?string::npos:d-7); if(d!=string::npos) k.text=l.substr(d+4); for(auto&w:split(head,' ')){ size_t e=w.find('='); if(e==string::npos) continue; string a=w.substr(0,e),b=w.substr(e+1); if(a=="property") k.prop=b; else if(a=="class") k.cls=b; else if(a=="match") k.match=b; } r.push_back(k); } return r; }
static vector<Known> g_known;
// drop known violations; returns the indexes that matched
static void filterKnown(Outcome&o,const string&prop,set<int>&hits){ if(g_known.empty()||o.all.empty()) return; vector<std::pair<string,string>> keep; for(auto&v:o.all){ bool k=false; for(size_t i=0;i<g_known.size();i++) if(g_known[i].prop==prop&&g_known[i].cls==v.first&&(g_known[i].match.empty()||v.second.find(g_known[i].match)!=string::npos)){ k=true; hits.insert(i); } if(!k) keep.push_back(v); } o.all=keep; o.violation=!keep.empty(); if(o.violation){ o.cls=keep[0].first; o.msg=keep[0].second; } }

// ---------------------------------------------------------------- minimisation
static bool same(const Scenario&sc,const Case&c,const string&cls,Outcome*res=nullptr){ Outcome o; execCase(sc,c,o); set<int> h; filterKnown(o,sc.id,h); if(res) *res=o; if(o.error||!o.violation) return false; for(auto&v:o.all) if(v.first==cls) return true; return false; }
static Case minimise(const Scenario&sc,Case c,const string&cls,double budget,int&runs){ double t0=mono(); auto left=[&]{ return mono()-t0<budget; }; runs=0;
  Outcome o; execCase(sc,c,o); Case f=c; f.forced=true; f.dec=o.dec; runs++; if(same(sc,f,cls)) c=f; 
  auto tryOps=[&]{ size_t n=std::max<size_t>(1,c.ops.size()/2); while(n>=1&&left()){ bool any=false; for(size_t i=0;i<c.ops.size()&&left();){ Case t=c; size_t e=std::min(i+n,t.ops.size()); t.ops.erase(t.ops.begin()+i,t.ops.begin()+e); runs++; if(same(sc,t,cls)){ c=t; any=true; } else i+=n; } if(n==1&&!any) break; if(n>1) n/=2; else if(!any) break; } };
  auto tryDec=[&]{ if(!c.forced) return; size_t n=std::max<size_t>(1,c.dec.size()); while(n>=1&&left()){ bool any=false; for(size_t i=0;i<c.dec.size()&&left();){ Case t=c; size_t e=std::min(i+n,t.dec.size()); t.dec.erase(t.dec.begin()+i,t.dec.begin()+e); runs++; if(same(sc,t,cls)){ c=t; any=true; } else i+=n; } if(n==1&&!any) break; if(n>1) n/=2; else if(!any) break; } };
  for(int round=0;round<3&&left();round++){ size_t a=c.ops.size(),b=c.dec.size(); tryDec(); tryOps(); if(sc.shrink){ bool any=true; while(any&&left()){ any=false; for(auto&t:sc.shrink(c)){ if(!left()) break; runs++; if(same(sc,t,cls)){ c=t; any=true; break; } } } } 
    // drop parameters that do not matter
    if(round==0) for(auto it=c.par.begin();it!=c.par.end()&&left();){ if(!isPrefix("f.",it->first)){ ++it; continue; } Case t=c; string k=it->first; t.par.erase(k); runs++; if(same(sc,t,cls)){ ++it; c.par.erase(k); } else ++it; }
    if(c.ops.size()==a&&c.dec.size()==b) break; }
  // decisions recorded by the final run only
  if(c.forced){ Outcome q; execCase(sc,c,q); Case t=c; t.dec=q.dec; runs++; if(t.dec.size()<=c.dec.size()&&same(sc,t,cls)) c=t; }
  return c; }

// ---------------------------------------------------------------- evidence
static string js(const string&s){ string o="\""; for(u8 c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+=strf("\\u%04x",c); else o+=c; } return o+"\""; }
static string jl(const vector<string>&v){ string s="["; for(size_t i=0;i<v.size();i++) s+=(i?",":"")+js(v[i]); return s+"]"; }
static string jm(const map<string,u64>&m){ string s="{"; bool f=true; for(auto&k:m){ s+=(f?"":",")+js(k.first)+":"+std::to_string(k.second); f=false; } return s+"}"; }

struct Agg { u64 runs=0,faulty=0,steps=0,syscalls=0,rechecked=0; double simsec=0; map<string,u64> faults,probes,knownHits; set<u64> sched,hashes; vector<string> samples; u64 runsWithFaults=0; 
  string ser(){ string s=strf("runs %llu\nsteps %llu\nsys %llu\nre %llu\nsim %.9f\nrwf %llu\n",(unsigned long long)runs,(unsigned long long)steps,(unsigned long long)syscalls,(unsigned long long)rechecked,simsec,(unsigned long long)runsWithFaults); for(auto&k:faults) s+="f "+k.first+" "+std::to_string(k.second)+"\n"; for(auto&k:probes) s+="p "+k.first+" "+std::to_string(k.second)+"\n"; for(auto&k:knownHits) s+="k "+k.first+" "+std::to_string(k.second)+"\n"; for(auto h:sched) s+="s "+std::to_string(h)+"\n"; for(auto h:hashes) s+="h "+std::to_string(h)+"\n"; for(auto&x:samples) s+="x "+esc(x,1<<20)+"\n"; return s; }
  void merge(const string&t){ for(auto&l:split(t,'\n')){ auto w=split(l,' '); if(w.size()<2) continue; auto n=[&](size_t i){ return strtoull(w[i].c_str(),0,10); }; if(w[0]=="runs") runs+=n(1); else if(w[0]=="steps") steps+=n(1); else if(w[0]=="sys") syscalls+=n(1); else if(w[0]=="re") rechecked+=n(1); else if(w[0]=="sim") simsec+=strtod(w[1].c_str(),0); else if(w[0]=="rwf") runsWithFaults+=n(1); else if(w[0]=="f") faults[w[1]]+=n(2); else if(w[0]=="p") probes[w[1]]+=n(2); else if(w[0]=="k") knownHits[w[1]]+=n(2); else if(w[0]=="s") sched.insert(n(1)); else if(w[0]=="h") hashes.insert(n(1)); else if(w[0]=="x") samples.push_back(unesc(l.substr(2))); } } };

struct Shared { std::atomic<u64> firstBad; std::atomic<u64> stop; };

static Case makeCase(const Scenario&sc,u64 vseed,u64 i,bool thorough){ Case c; c.prop=sc.id; c.seed=mix64(mix64(vseed)^hstr(sc.id)^(i*0x9e3779b97f4a7c15ULL)); Rng r(c.seed); sc.gen(r,c,thorough,i); return c; }

static int replay(const string&file,bool quiet){ string t,err; Case c; if(!readHost(file,t)||!Case::parse(t,c,err)){ fprintf(stderr,"replay: cannot read %s %s\n",file.c_str(),err.c_str()); return 2; } auto it=scenarios().find(c.prop); if(it==scenarios().end()){ fprintf(stderr,"replay: unknown property %s\n",c.prop.c_str()); return 2; } Outcome o; g_trace=!quiet; execCase(it->second,c,o); set<int> h; filterKnown(o,c.prop,h); if(o.error){ fprintf(stderr,"replay: harness error: %s\n",o.errmsg.c_str()); return 2; }
  if(quiet){ printf("hash %llu viol %d cls %s\n",(unsigned long long)o.hash,o.violation,o.cls.c_str()); } else { if(getenv("SIMLOG")) fputs(o.trace.c_str(),stderr); printf("event log hash %016llx, %llu steps, %llu system calls\n",(unsigned long long)o.hash,(unsigned long long)o.steps,(unsigned long long)o.syscalls); for(auto&v:o.all) printf("  [%s] %s\n",v.first.c_str(),v.second.c_str()); }
  if(o.violation){ if(!quiet) printf("VIOLATION property=%s replay=%s\n",c.prop.c_str(),file.c_str()); return 1; } if(!quiet) printf("no violation\n"); return 0; }

static int check(const string&id,bool thorough){ auto it=scenarios().find(id); if(it==scenarios().end()){ fprintf(stderr,"unknown property %s\n",id.c_str()); return 2; } const Scenario&sc=it->second; u64 vseed=getenv("VERIF_SEED")?strtoull(getenv("VERIF_SEED"),0,10):1; u64 total=thorough?sc.thoroughRuns:sc.quickRuns; if(getenv("SIM_RUNS")) total=strtoull(getenv("SIM_RUNS"),0,10); double budget=thorough?600:90; if(getenv("SIM_BUDGET")) budget=strtod(getenv("SIM_BUDGET"),0); int W=8; if(getenv("SIM_WORKERS")) W=atoi(getenv("SIM_WORKERS"));
  printf("property %s tier %s VERIF_SEED=%llu runs<=%llu workers %d\n",id.c_str(),thorough?"thorough":"quick",(unsigned long long)vseed,(unsigned long long)total,W); fflush(stdout); double t0=mono();
  Shared*sh=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(sh) Shared; sh->firstBad=~0ULL; sh->stop=0; string wd=g_build+strf("/run.%s.%d",id.c_str(),getpid()); mkdir(wd.c_str(),0777); vector<pid_t> ws;
  for(int w=0;w<W;w++){ pid_t p=fork(); if(p==0){ Agg a; string fail; u64 i=w; for(;i<total;i+=W){ if(mono()-t0>budget||sh->stop||i>sh->firstBad) break; Case c=makeCase(sc,vseed,i,thorough); Outcome o; execCase(sc,c,o); if(o.error){ fail=strf("E %llu ",(unsigned long long)i)+o.errmsg; sh->stop=1; break; } set<int> hits; filterKnown(o,id,hits); for(int h:hits) a.knownHits[std::to_string(h)]++;
          a.runs++; a.steps+=o.steps; a.syscalls+=o.syscalls; a.simsec+=o.simns*1e-9; for(auto&k:o.faults) a.faults[k.first]+=k.second; for(auto&k:o.probes) a.probes[k.first]+=k.second; if(!o.faults.empty()) a.runsWithFaults++; a.sched.insert(o.schedhash); if(o.nontrivial) a.hashes.insert(o.hash);
          if((i/W)%40==0||o.violation){ Outcome q; execCase(sc,c,q); a.rechecked++; if(q.error||q.hash!=o.hash){ fail=strf("E %llu ",(unsigned long long)i)+"NONDETERMINISM: two executions of one seed differ "+q.errmsg; sh->stop=1; break; } }
          if(i<3){ Case s=c; s.forced=true; s.dec=o.dec; if(s.dec.size()>12) s.dec.resize(12); if(s.ops.size()>20) s.ops.resize(20); a.samples.push_back(s.ser()+strf("# %llu steps, %llu system calls, hash %016llx",(unsigned long long)o.steps,(unsigned long long)o.syscalls,(unsigned long long)o.hash)); }
          if(o.violation){ u64 cur=sh->firstBad; while(i<cur&&!sh->firstBad.compare_exchange_weak(cur,i)); fail=strf("V %llu ",(unsigned long long)i)+o.cls+" "+o.msg; break; } }
        writeHost(wd+strf("/w%d",w),a.ser()+"fail "+esc(fail,1<<20)+"\n"); _exit(0); } ws.push_back(p); }
  bool crashed=false; for(auto p:ws){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR); if(!WIFEXITED(st)||WEXITSTATUS(st)) crashed=true; }
  Agg A; string bestFail; u64 best=~0ULL; string errFail; for(int w=0;w<W;w++){ string t; string fn=wd+strf("/w%d",w); if(!readHost(fn,t)){ crashed=true; continue; } unlink(fn.c_str()); size_t k=t.rfind("\nfail ")+1; string f=unesc(t.substr(k+5,t.size()-k-6)); A.merge(t.substr(0,k)); if(!f.empty()){ if(f[0]=='E') errFail=f; else { u64 i=strtoull(f.c_str()+2,0,10); if(i<best){ best=i; bestFail=f; } } } } rmdir(wd.c_str());
  double wall=mono()-t0; int rc=0; string replayPath; 
  if(crashed){ fprintf(stderr,"check error: a worker process died\n"); rc=2; }
  if(rc==0&&best==~0ULL&&!errFail.empty()){ fprintf(stderr,"check error: run %s\n",errFail.c_str()+2); rc=2; }
  if(rc==0&&best!=~0ULL){ // gate, minimise, report
    Case c=makeCase(sc,vseed,best,thorough); Outcome o; execCase(sc,c,o); set<int> h; filterKnown(o,id,h); if(!o.violation||o.error){ fprintf(stderr,"check error: violation of run %llu did not reproduce (%s)\n",(unsigned long long)best,bestFail.c_str()); rc=2; }
    else { string cls=o.cls; int mr=0; Case m=minimise(sc,c,cls,thorough?150:60,mr); Outcome fo; if(!same(sc,m,cls,&fo)){ m=c; same(sc,m,cls,&fo); }
      string dir=verifDir()+"/replays"; mkdir(dir.c_str(),0777); replayPath=dir+"/"+id+strf("-%llu-%llu.case",(unsigned long long)vseed,(unsigned long long)best); string txt=m.ser(); txt+="# violation class "+cls+"\n# "+esc(fo.msg,4000)+"\n# minimised with "+std::to_string(mr)+" runs; seed index "+std::to_string(best)+"\n"; if(!writeHost(replayPath,txt)){ fprintf(stderr,"cannot write %s\n",replayPath.c_str()); return 2; }
      // replay in a fresh process must give the same violation and the same event log
      int pp[2]; if(pipe(pp)){ return 2; } pid_t p=fork(); if(p==0){ dup2(pp[1],1); close(pp[0]); close(pp[1]); execl((g_build+"/bin/sim").c_str(),"sim","replayq",replayPath.c_str(),(char*)0); _exit(126); } close(pp[1]); string ro; char b[4096]; ssize_t n; while((n=read(pp[0],b,sizeof b))>0) ro.append(b,n); close(pp[0]); int st; while(waitpid(p,&st,0)<0&&errno==EINTR); string want=strf("hash %llu viol 1",(unsigned long long)fo.hash); if(!WIFEXITED(st)||WEXITSTATUS(st)!=1||!isPrefix(want,ro)){ fprintf(stderr,"check error: fresh-process replay differs: status %x, got %s want %s\n",st,ro.c_str(),want.c_str()); rc=2; }
      else { rc=1; printf("seed index %llu, class %s: %s\nminimised to %zu operations, %zu non-default decisions (%d runs)\n",(unsigned long long)best,cls.c_str(),fo.msg.c_str(),m.ops.size(),m.dec.size(),mr); printf("VIOLATION property=%s replay=%s\n",id.c_str(),replayPath.c_str()); } } }
  wall=mono()-t0; 
  for(size_t i=0;i<g_known.size();i++) if(g_known[i].prop==id) printf("KNOWN-FINDING: property=%s %s (class %s, met %llu times in this run)\n",id.c_str(),g_known[i].text.c_str(),g_known[i].cls.c_str(),(unsigned long long)A.knownHits[std::to_string(i)]);
  string ev="{\"property\":"+js(id)+",\"tier\":\""+(thorough?"thorough":"quick")+"\",\"seed\":"+std::to_string(vseed)+",\"level\":\"exploration\",\"coverage\":{\"evaluations\":"+std::to_string(A.runs)+",\"distinct_nontrivial\":"+std::to_string(A.hashes.size())+",\"rule\":"+js(sc.rule+" Distinct: different event-log hash (every scheduling step, system call, its arguments, data and result).")+",\"samples\":"+jl(A.samples)+strf(",\"runs_per_hour\":%.0f,\"simulated_seconds\":%.3f,\"scheduler_steps\":%llu,\"system_calls\":%llu,\"distinct_schedules\":%zu,\"runs_with_faults\":%llu,\"runs_repeated_for_determinism\":%llu",A.runs/(wall>0?wall:1)*3600,A.simsec,(unsigned long long)A.steps,(unsigned long long)A.syscalls,A.sched.size(),(unsigned long long)A.runsWithFaults,(unsigned long long)A.rechecked)+",\"faults_injected\":"+jm(A.faults)+",\"probes\":"+jm(A.probes)+",\"real_components\":"+jl(sc.real)+",\"stub_components\":"+jl(sc.stubbed)+"},\"assumptions\":"+jl(sc.assumptions)+strf(",\"wall_s\":%.2f,\"violations\":%d}\n",wall,rc==1?1:0);
  mkdir((verifDir()+"/evidence").c_str(),0777); writeHost(verifDir()+"/evidence/"+id+".json",ev);
  printf("%llu runs (%zu distinct, %zu schedules), %llu system calls, %.1f simulated s, %llu runs with faults, %.1f s wall\n",(unsigned long long)A.runs,A.hashes.size(),A.sched.size(),(unsigned long long)A.syscalls,A.simsec,(unsigned long long)A.runsWithFaults,wall); string fs; for(auto&k:A.faults) fs+=" "+k.first+"="+std::to_string(k.second); printf("faults:%s\n",fs.c_str()); if(getenv("SIM_V")){ fs=""; for(auto&k:A.probes) fs+=" "+k.first+"="+std::to_string(k.second); printf("probes:%s\n",fs.c_str()); }
  if(rc==0&&A.runs==0){ fprintf(stderr,"check error: no run was made\n"); rc=2; }
  printf("%s\n",rc==0?"OK":rc==1?"VIOLATED":"ERROR"); return rc; }

static bool ptraceWorks(){ pid_t p=fork(); if(p==0){ if(ptrace(PTRACE_TRACEME,0,0,0)) _exit(1); raise(SIGSTOP); _exit(0); } int st; waitpid(p,&st,0); bool ok=WIFSTOPPED(st); if(ok){ ptrace(PTRACE_CONT,p,0,0); waitpid(p,&st,0); } return ok; }

int main(int argc,char**argv){ char self[4096]; ssize_t n=readlink("/proc/self/exe",self,sizeof self-1); self[n>0?n:0]=0; string s=self; s=s.substr(0,s.rfind('/')); g_build=s.substr(0,s.rfind('/')); signal(SIGPIPE,SIG_IGN); rlimit rl{4096,4096}; setrlimit(RLIMIT_NOFILE,&rl);
  if(!ptraceWorks()){ if(!getenv("SIM_USERNS")&&unshare(CLONE_NEWUSER)==0){ setenv("SIM_USERNS","1",1); execv(self,argv); } fprintf(stderr,"check error: ptrace is not available here\n"); return 2; }
  mkdir((g_build+"/exe").c_str(),0777);
  preopenHost({"/lib/x86_64-linux-gnu/libc.so.6","/lib/x86_64-linux-gnu/libm.so.6","/lib/x86_64-linux-gnu/libpkgconf.so.3","/lib/x86_64-linux-gnu/libjson-c.so.5","/lib64/ld-linux-x86-64.so.2","/usr/lib/x86_64-linux-gnu/libbfd-2.42-system.so","/usr/lib/x86_64-linux-gnu/libz.so.1","/usr/lib/x86_64-linux-gnu/libzstd.so.1","/usr/lib/x86_64-linux-gnu/libsframe.so.1","/usr/lib/x86_64-linux-gnu/libctf.so.0","/usr/lib/x86_64-linux-gnu/libjansson.so.4"});
  g_known=loadKnown(); string cmd=argc>1?argv[1]:""; 
  if(cmd=="replay"&&argc>2) return replay(argv[2],false); if(cmd=="replayq"&&argc>2) return replay(argv[2],true);
  if(cmd=="check"&&argc>2) return check(argv[2],argc>3&&string(argv[3])=="thorough");
  if(cmd=="gen"&&argc>3){ Case c=makeCase(scenarios().at(argv[2]),getenv("VERIF_SEED")?strtoull(getenv("VERIF_SEED"),0,10):1,strtoull(argv[3],0,10),argc>4); fputs(c.ser().c_str(),stdout); return 0; }
  if(cmd=="try"&&argc>2){ extern int tryProgram(int,char**); return tryProgram(argc-2,argv+2); }
  if(cmd=="list"){ for(auto&k:scenarios()) printf("%s\n",k.first.c_str()); return 0; }
  // hashes PROP N: event-log hashes of the first N runs, for determinism proofs
  if(cmd=="hashes"&&argc>3){ const Scenario&sc=scenarios().at(argv[2]); u64 a=0,b=strtoull(argv[3],0,10); if(argc>4){ a=b; b=strtoull(argv[4],0,10);} u64 vs=getenv("VERIF_SEED")?strtoull(getenv("VERIF_SEED"),0,10):1; for(u64 i=a;i<b;i++){ Case c=makeCase(sc,vs,i,false); Outcome o; execCase(sc,c,o); printf("%llu %016llx %s\n",(unsigned long long)i,(unsigned long long)o.hash,o.error?o.errmsg.c_str():o.violation?o.cls.c_str():"ok"); fflush(stdout);} return 0; }
  fprintf(stderr,"usage: sim check PROP [quick|thorough] | replay FILE | gen PROP INDEX | hashes PROP N | list\n"); return 2; }
