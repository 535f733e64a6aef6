// ptrace plumbing, scheduler, decisions
#include "core.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <signal.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <algorithm>
#include <elf.h>

string g_build;
string strf(const char*f,...){ va_list ap; va_start(ap,f); char*p=nullptr; int n=vasprintf(&p,f,ap); va_end(ap); string s(p,n>0?n:0); free(p); return s; }
string hex(u64 v){ return strf("0x%llx",(unsigned long long)v); }
bool readHost(const string&path,string&out){ int fd=open(path.c_str(),O_RDONLY|O_CLOEXEC); if(fd<0) return false; out.clear(); char b[65536]; ssize_t n; while((n=read(fd,b,sizeof b))>0) out.append(b,n); close(fd); return n==0; }
bool writeHost(const string&path,const string&data,int mode){ string tmp=path+".tmp"+std::to_string(getpid()); int fd=open(tmp.c_str(),O_WRONLY|O_CREAT|O_TRUNC|O_CLOEXEC,mode); if(fd<0) return false; size_t o=0; while(o<data.size()){ ssize_t n=write(fd,data.data()+o,data.size()-o); if(n<=0){close(fd);return false;} o+=n; } fchmod(fd,mode); close(fd); return rename(tmp.c_str(),path.c_str())==0; }
string esc(const string&s,size_t max){ string o; for(size_t i=0;i<s.size()&&i<max;i++){ u8 c=s[i]; if(c=='\\') o+="\\\\"; else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+=strf("\\x%02x",c); else o+=(char)c; } if(s.size()>max) o+=strf("...(%zu)",s.size()); return o; }
string unesc(const string&s){ string o; for(size_t i=0;i<s.size();i++){ if(s[i]=='\\'&&i+1<s.size()){ if(s[i+1]=='n'){o+='\n';i++;} else if(s[i+1]=='\\'){o+='\\';i++;} else if(s[i+1]=='x'&&i+3<s.size()){ o+=(char)strtol(s.substr(i+2,2).c_str(),0,16); i+=3; } else o+=s[i]; } else o+=s[i]; } return o; }
vector<string> split(const string&s,char sep){ vector<string> r; size_t i=0; while(i<=s.size()){ size_t j=s.find(sep,i); if(j==string::npos) j=s.size(); if(sep!=' '||j>i) r.push_back(s.substr(i,j-i)); i=j+1; } return r; }

// ---------------------------------------------------------------- case files
string Case::ser()const{ string s="simcase 1\nprop "+prop+"\nseed "+std::to_string(seed)+"\nmode "+(forced?"forced":"explore")+"\n"; for(auto&kv:par){ string key; for(char ch:esc(kv.first,1<<30)) if(ch==' ') key+="\\x20"; else key+=ch; s+="par "+key+" "+esc(kv.second,1<<30)+"\n"; } for(auto&o:ops) s+="op "+esc(o,1<<30)+"\n"; for(auto&d:dec) s+="dec "+d.key+" "+std::to_string(d.val)+"\n"; return s+"end\n"; }
bool Case::parse(const string&txt,Case&c,string&err){ c=Case(); bool ended=false; size_t i=0; auto lines=split(txt,'\n'); if(lines.empty()||lines[0]!="simcase 1"){err="not a case file";return false;} for(i=1;i<lines.size();i++){ const string&l=lines[i]; if(l=="end"){ended=true;break;} if(l.empty()||l[0]=='#') continue; size_t sp=l.find(' '); string k=l.substr(0,sp), v=sp==string::npos?"":l.substr(sp+1); if(k=="prop") c.prop=v; else if(k=="seed") c.seed=strtoull(v.c_str(),0,10); else if(k=="mode") c.forced=v=="forced"; else if(k=="par"){ size_t q=v.find(' '); c.par[unesc(v.substr(0,q))]=q==string::npos?"":unesc(v.substr(q+1)); } else if(k=="op") c.ops.push_back(unesc(v)); else if(k=="dec"){ size_t q=v.rfind(' '); c.dec.push_back({v.substr(0,q),strtoull(v.c_str()+q+1,0,10)}); } else {err="bad line "+l;return false;} } if(!ended){err="truncated";return false;} return true; }

// ---------------------------------------------------------------- Sim
static volatile sig_atomic_t g_alarm=0; static void onAlarm(int){ g_alarm++; }
static double nowMono(){ timespec ts; clock_gettime(CLOCK_MONOTONIC,&ts); return ts.tv_sec+ts.tv_nsec*1e-9; }

Sim::Sim(const Case&cc,Outcome&o):c(cc),out(o){
  static bool init=false; if(!init){ init=true; struct sigaction sa{}; sa.sa_handler=onAlarm; sigaction(SIGALRM,&sa,0); }
  if(c.forced) for(auto&d:c.dec) forcedMap[hstr(d.key)]=d.val;
  rndState=mix64(c.seed^0xabcdef); tick=500+mix64(c.seed^77)%3000;
  if(getenv("SIMTRACE")) wantTrace=atoi(getenv("SIMTRACE"));
}
Sim::~Sim(){ aliveTok.reset(); killAll(); for(auto t:tasks) delete t; for(auto p:procs) delete p; for(auto a:actors) delete a; for(auto&s:socks){ s->peer.reset(); s->backlog.clear(); s->self.reset(); } 
  // break directory cycles: none (tree), just drop
}
void Sim::fatal(const string&m){ throw SimError{m}; }
void Sim::log(const string&s){ lh=hstr(s,lh); if(wantTrace){ fprintf(stderr,"[%llu t=%llu] %s\n",(unsigned long long)stepNo,(unsigned long long)now,s.c_str()); } if(logStrings&&traceText.size()<4000000){ traceText+=strf("[%llu t=%.6f] ",(unsigned long long)stepNo,now*1e-9)+s+"\n"; } }

u64 Sim::choose(const char*kind,u64 sub,u64 n,u64 def,double p){
  if(n<=1) return def; u64 kc=keyCount[hstr(kind,strlen(kind))*31+sub]++; char kb[96]; int kl=snprintf(kb,sizeof kb,"%s.%llu.%llu",kind,(unsigned long long)sub,(unsigned long long)kc); u64 h=hstr(kb,kl); u64 v=def;
  if(c.forced){ auto it=forcedMap.find(h); if(it!=forcedMap.end()&&it->second<n) v=it->second; }
  else { u64 r=mix64(c.seed*0x9e3779b97f4a7c15ULL^h); if((r>>11)*(1.0/9007199254740992.0)<p){ u64 q=mix64(r)%(n-1); v=q>=def?q+1:q; } }
  if(v!=def) out.dec.push_back({string(kb,kl),v}); return v; }
u64 Sim::param(const char*kind,u64 sub,u64 n){ if(n<=1) return 0; return choose(kind,sub,n,0,(double)(n-1)/(double)n); }
bool Sim::fault(Task&t,const char*kind,const string&obj){
  auto it=fc.rate.find(kind); if(it==fc.rate.end()||it->second<=0) return false; if(faultsFired>=fc.maxFaults) return false; if(fc.filter&&!fc.filter(t,kind,obj)) return false;
  u64 v=choose(kind,t.p->vpid,2,0,it->second); if(v){ faultsFired++; out.faults[kind]++; log(strf("FAULT %s pid %d %s",kind,t.p->vpid,obj.c_str())); } return v; }

// ---------------------------------------------------------------- memory access
bool Sim::rd(Proc*p,u64 a,void*b,size_t n){ if(n==0) return true; if(p->memfd<0){ p->memfd=open(strf("/proc/%d/mem",p->pid).c_str(),O_RDWR|O_CLOEXEC); if(p->memfd<0) fatal(strf("open mem: %s",strerror(errno))); } size_t o=0; while(o<n){ ssize_t r=pread(p->memfd,(char*)b+o,n-o,a+o); if(r<=0) return false; o+=r; } return true; }
bool Sim::wr(Proc*p,u64 a,const void*b,size_t n){ if(n==0) return true; char d; if(!rd(p,a,&d,1)) return false; size_t o=0; while(o<n){ ssize_t r=pwrite(p->memfd,(const char*)b+o,n-o,a+o); if(r<=0) return false; o+=r; } return true; }
bool Sim::rdstr(Proc*p,u64 a,string&s,size_t max){ s.clear(); char b[256]; while(s.size()<max){ size_t chunk=256-(a&255); if(!rd(p,a,b,chunk)) return false; for(size_t i=0;i<chunk;i++){ if(!b[i]) return true; s+=b[i]; } a+=chunk; } return true; }

// ---------------------------------------------------------------- process creation
static vector<struct sock_filter> mkFilter(){ vector<sock_filter> f; f.push_back(BPF_STMT(BPF_LD|BPF_W|BPF_ABS,0));
  // always real: rt_sigreturn (15)
  f.push_back(BPF_JUMP(BPF_JMP|BPF_JEQ|BPF_K,15,0,1)); f.push_back(BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_ALLOW)); f.push_back(BPF_STMT(BPF_RET|BPF_K,SECCOMP_RET_TRACE)); return f; }
static int xwait(pid_t tid,int*st){ for(;;){ int r=waitpid(tid,st,__WALL); if(r>=0||errno!=EINTR) return r; if(g_alarm){ errno=EINTR; return -1; } } }

extern vector<int> g_hostFds; // pre-opened host libraries (kept open in tracees)
static string exeStore(const string&data);
Proc* Sim::spawn(const string&simExe,const vector<string>&argv,const vector<string>&env,const string&cwd,FileP in,FileP outF,FileP err){
  Proc*p=new Proc; p->vpid=nextPid++; p->ppid=1; p->root=true; p->argv=argv; p->startStep=stepNo; procs.push_back(p);
  string host=execMap?execMap(simExe,*p):""; 
  if(host.empty()){ InodeP n=lookup(simExe); if(!n) fatal("spawn: no "+simExe); if(n->host) host=n->hostPath; else if(n->content().compare(0,4,"\177ELF")==0) host=exeStore(n->content()); else fatal("spawn: not a host exe "+simExe); }
  vector<char*> av,ev; for(auto&s:argv) av.push_back((char*)s.c_str()); av.push_back(0); for(auto&s:env) ev.push_back((char*)s.c_str()); ev.push_back(0);
  auto filt=mkFilter(); struct sock_fprog prog{(unsigned short)filt.size(),filt.data()};
  pid_t pid=fork(); if(pid<0) fatal("fork failed");
  if(pid==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); struct sigaction dfl{}; dfl.sa_handler=SIG_DFL; for(int s=1;s<32;s++) sigaction(s,&dfl,0); sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK,&e,0); alarm(0); setsid(); int dn=open("/dev/null",O_RDWR); dup2(dn,0); dup2(dn,1); if(!getenv("SIMDEBUGCHILD")) dup2(dn,2); if(dn>2) close(dn);
    // drop every descriptor of the harness except the library descriptors
    for(int f=3;f<700;f++) close(f);
    rlimit rl; rl.rlim_cur=rl.rlim_max=8<<20; setrlimit(RLIMIT_STACK,&rl); rl.rlim_cur=10; rl.rlim_max=20; setrlimit(RLIMIT_CPU,&rl); rl.rlim_cur=rl.rlim_max=0; setrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=rl.rlim_max=(rlim_t)3<<30; setrlimit(RLIMIT_AS,&rl);
    personality(ADDR_NO_RANDOMIZE); if(chdir("/")){} if(ptrace(PTRACE_TRACEME,0,0,0)) _exit(126); raise(SIGSTOP);
    prctl(PR_SET_NO_NEW_PRIVS,1,0,0,0); if(prctl(PR_SET_SECCOMP,SECCOMP_MODE_FILTER,&prog,0,0)) _exit(125); execve(host.c_str(),av.data(),ev.data()); _exit(127); }
  int st; if(xwait(pid,&st)<0||!WIFSTOPPED(st)) fatal(strf("tracee did not start (status %x)",st));
  ptrace(PTRACE_SETOPTIONS,pid,0,PTRACE_O_EXITKILL|PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACESECCOMP|PTRACE_O_TRACECLONE|PTRACE_O_TRACEFORK|PTRACE_O_TRACEEXEC);
  p->pid=pid; Task*t=new Task; t->vtid=p->vpid; t->tid=pid; t->p=p; tasks.push_back(t); p->tasks.push_back(t); p->exe=simExe; p->startCwd=cwd;
  p->cwd=lookup(cwd); if(!p->cwd) fatal("spawn: cwd "+cwd); p->cwdPath=cwd; if(in) p->fds[0]={in,false}; if(outF) p->fds[1]={outF,false}; if(err) p->fds[2]={err,false};
  // run to the exec event
  ptrace(PTRACE_CONT,pid,0,0); if(xwait(pid,&st)<0) fatal("spawn wait"); if(!(WIFSTOPPED(st)&&st>>8==(SIGTRAP|(PTRACE_EVENT_SECCOMP<<8)))) fatal(strf("spawn: unexpected stop %x",st));
  ptrace(PTRACE_CONT,pid,0,0); if(xwait(pid,&st)<0) fatal("spawn wait2"); if(!(WIFSTOPPED(st)&&st>>8==(SIGTRAP|(PTRACE_EVENT_EXEC<<8)))) fatal(strf("spawn: exec of %s failed (%x)",host.c_str(),st));
  postExec(t); t->st=T_RUN; log(strf("spawn %d %s",p->vpid,simExe.c_str())); execs.push_back({p->vpid,simExe,argv,stepNo}); if(onSpawn) onSpawn(*p); return p; }

void Sim::postExec(Task*t){ Proc*p=t->p; if(p->memfd>=0){ close(p->memfd); p->memfd=-1; } for(auto&s:p->sa) if(s.handler!=1) s=SigAct(); p->maps.clear(); p->brk0=0; p->liveBytes=0; p->execed=true; t->clearTid=0;
  ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); t->dirty=false; u64 sp=t->regs.rsp; u64 argc; if(!rdv(p,sp,argc)) fatal("postExec read"); u64 a=sp+8+8*(argc+1); u64 v; while(rdv(p,a,v)&&v) a+=8; a+=8;
  for(;;){ u64 kv[2]; if(!rd(p,a,kv,16)) break; if(kv[0]==0) break; u64 nk=kv[0],nv=kv[1]; if(kv[0]==33){ nk=1; nv=0; } else if(kv[0]>=11&&kv[0]<=14) nv=1000; else if(kv[0]==25){ u8 r[16]; for(int i=0;i<16;i++) r[i]=(u8)(mix64(c.seed*131+i)); wr(p,kv[1],r,16); } else if(kv[0]==23) nv=0; if(nk!=kv[0]||nv!=kv[1]){ kv[0]=nk;kv[1]=nv; wr(p,a,kv,16);} a+=16; }
  for(auto it=p->fds.begin();it!=p->fds.end();) if(it->second.cloexec) it=p->fds.erase(it); else ++it; }

// ---------------------------------------------------------------- process end
void Sim::destroy(Proc*p){ if(!p->pid) return; if(p->memfd>=0){ close(p->memfd); p->memfd=-1; } kill(p->pid,SIGKILL); vector<Task*> ts(p->tasks); std::reverse(ts.begin(),ts.end()); for(auto t:ts){ if(!t->tid) continue; for(;;){ int st; int r=waitpid(t->tid,&st,__WALL); if(r<0&&errno==EINTR) continue; if(r<0) break; if(WIFEXITED(st)||WIFSIGNALED(st)) break; if(WIFSTOPPED(st)){ kill(p->pid,SIGKILL); ptrace(PTRACE_CONT,t->tid,0,SIGKILL); } } t->tid=0; t->st=T_DEAD; t->ready=nullptr; } p->pid=0; }
void Sim::killAll(){ for(auto p:procs) if(p->pid) destroy(p); }
void Sim::procExit(Proc*p,int status){ if(p->zombie) return; p->status=status; p->zombie=true; p->exitStep=stepNo; p->vstopped=false; log(strf("exit %d status %x",p->vpid,status)); if(onExit) onExit(*p); 
  bool shared=p->vforkWait; (void)shared; destroy(p); p->fds.clear(); 
  if(p->vtracer) p->vtracer=nullptr; for(auto q:procs){ if(q->vtracer==p){ q->vtracer=nullptr; q->traced=false; if(q->vstopped){ q->vstopped=false; } if(q->vexitKill&&!q->zombie) procExit(q,9); } if(q->ppid==p->vpid){ q->ppid=1; if(q->zombie) q->reaped=true; } }
  for(auto t:tasks) if(t->vforkChild==p->vpid){ t->vforkChild=0; }
  Proc*par=byPid(p->ppid); if(!par||par->zombie) p->reaped=true; else if(par->sa[17].handler>1) sendSig(par,17); else if(par->sa[17].handler==1) p->reaped=true; }
void Sim::taskExit(Task*t){ Proc*p=t->p; if(t->clearTid){ u32 z=0; wrv(p,t->clearTid,z); for(auto o:tasks) if(o->p==p&&o->st==T_BLOCKED&&o->futexAddr==t->clearTid&&!o->futexWoken){ o->futexWoken=true; break; } } t->st=T_DEAD; t->ready=nullptr; log(strf("thread exit %d",t->vtid)); bool any=false; for(auto o:p->tasks) if(o->st!=T_DEAD) any=true; if(!any) procExit(p,p->status); }

static bool sigDefaultIgnored(int s){ return s==17||s==23||s==28||s==18; }
void Sim::sendSig(Proc*p,int sig){ if(p->zombie) return; if(!p->vtracer){ if(sig==19||(sig>=20&&sig<=22&&!p->sa[sig].handler)){ p->jstop=~0ULL; p->jsig=sig; p->jreported=false; log(strf("stop signal %d -> %d",sig,p->vpid)); return; } if(sig==18) p->jstop=0; } p->pendSig.push_back(sig); log(strf("signal %d -> %d",sig,p->vpid)); }
// returns false if the task/process is gone
bool Sim::deliverSignals(Task*t){ Proc*p=t->p; for(size_t i=0;i<p->pendSig.size()||p->vinject;){ int s; bool inj=false; if(p->vinject){ s=p->vinject; p->vinject=0; inj=true; } else { s=p->pendSig[i]; if(s!=9&&s!=19&&(t->sigmask>>(s-1)&1)){ i++; continue; } p->pendSig.erase(p->pendSig.begin()+i); if(s==0) continue; }
    if(s==9){ procExit(p,9); return false; }
    if(p->vtracer&&s!=9&&!inj){ vstop(t,s); return true; }
    if(p->traceInstr&&onInstr) onInstr(*t,s);
    SigAct&a=p->sa[s]; if(a.handler==1) continue; if(a.handler==0){ if(sigDefaultIgnored(s)) continue; if(s==19||s==20||s==21||s==22) continue; procExit(p,s); return false; }
    if(t->st==T_BLOCKED||(t->st==T_SYSC&&t->retry)){ // interrupt the blocked call
      bool restart=(a.flags&SA_RESTART)&&t->lastNr!=SYS_nanosleep&&t->lastNr!=SYS_clock_nanosleep&&t->lastNr!=SYS_poll&&t->lastNr!=SYS_ppoll&&t->lastNr!=SYS_select&&t->lastNr!=SYS_pselect6&&t->lastNr!=SYS_pause; 
      t->interrupted=true; t->ready=nullptr; t->deadline=~0ULL; t->st=T_RUN; t->retry=false; t->futexAddr=0;
      if(restart){ t->regs.rax=t->regs.orig_rax; t->regs.orig_rax=-1; t->regs.rip-=2; t->dirty=true; }
      else { if(t->sleepEnd&&t->stash[1]){ u64 rem=t->sleepEnd>now?t->sleepEnd-now:0; i64 ts[2]={(i64)(rem/1000000000ULL),(i64)(rem%1000000000ULL)}; wr(p,t->stash[1],ts,16); } finishSys(t,-EINTR); } t->sleepEnd=0; }
    else if(t->st==T_SYSC){ // before the call starts: it is made again when the handler has returned
      t->st=T_RUN; t->retry=false; t->regs.rax=t->regs.orig_rax; t->regs.orig_rax=-1; t->regs.rip-=2; t->dirty=true; }
    out.probes["signal_handler_delivered"]++; syscall(SYS_tgkill,p->pid,t->tid,s); return true; } return true; }

void Sim::vstop(Task*t,int sig){ Proc*p=t->p; p->vstopped=true; t->stepping=false; p->vstopSig=sig; p->vstopReported=false; log(strf("vstop %d sig %d",p->vpid,sig)); }

// ---------------------------------------------------------------- running
void Sim::finishSys(Task*t,long ret){ t->regs.orig_rax=-1; t->regs.rax=ret; t->dirty=true; t->st=T_RUN; t->retry=false; t->ready=nullptr; t->deadline=~0ULL; t->futexAddr=0; }

void Sim::perform(Task*t){ int nr=(int)t->regs.orig_rax; u64 a[6]={t->regs.rdi,t->regs.rsi,t->regs.rdx,t->regs.r10,t->regs.r8,t->regs.r9}; t->lastNr=nr; Proc*p=t->p;
  if(!t->retry){ sysNo++; t->nsys++; p->nsys++; now+=tick; t->sysAt=now; pump(); if(crashAtSyscall&&sysNo==crashAtSyscall){ crashed=true; end=END_CRASH; abortRun=true; log("CRASH"); out.faults["machine_crash"]++; return; } }
  long r=0; bool hooked=false; if(!t->retry&&sysHook) hooked=sysHook(*t,nr,a,r); if(!hooked) r=sys(*t,nr,a); while(!closed.empty()){ auto x=closed.back(); closed.pop_back(); lastClose(x.first,x.second); }
  if(r==SYS_GONE||p->zombie) return; 
  if(r==SYS_BLOCK){ t->st=T_BLOCKED; t->retry=true; if(wantTrace>1) log(strf("%d %s BLOCK",t->vtid,sysName(nr))); return; }
  if(r==SYS_DONE){ t->retry=false; if(t->st==T_SYSC||t->st==T_BLOCKED) t->st=T_RUN; logv(nr); return; }
  if(r==SYS_PASS){ t->retry=false; if(nr==SYS_mmap||nr==SYS_brk||nr==SYS_mremap){ if(t->dirty){ ptrace(PTRACE_SETREGS,t->tid,0,&t->regs); t->dirty=false; } ptrace(PTRACE_SYSCALL,t->tid,0,0); int st; if(xwait(t->tid,&st)<0) fatal("pass wait"); if(!(WIFSTOPPED(st)&&WSTOPSIG(st)==(SIGTRAP|0x80))){ handleStop(t,st); return; } ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); r=t->regs.rax; t->dirty=false; if(nr==SYS_brk&&r>0) t->p->brk0=r; t->st=T_RUN;
      if(nr==SYS_mmap&&(long)r>0&&p->trackMaps){ MapRegion m{(u64)r,(a[1]+4095)&~4095ULL,(int)a[2],(a[3]&0x20)!=0,p->mapSeq++}; p->maps[m.addr]=m; p->liveBytes+=m.len; }
    } else { t->st=T_RUN; r=0; } logv(t->vtid);logv(nr);logv(r); if(wantTrace) log(strf("%d %s(%s,%s,%s,%s) pass= %s",t->vtid,sysName(nr),hex(a[0]).c_str(),hex(a[1]).c_str(),hex(a[2]).c_str(),hex(a[3]).c_str(),hex(r).c_str())); else if(logStrings) log(strf("%d %s = %s",t->vtid,sysName(nr),hex(r).c_str())); if(sysPost) sysPost(*t,nr,a,r); return; }
  finishSys(t,r); 
  logv(t->vtid);logv(nr);for(int i=0;i<6;i++) logv(i<3?a[i]:0);logv(r); if(wantTrace||logStrings) log(strf("%d %s(%s,%s,%s) = %ld%s",t->vtid,sysName(nr),hex(a[0]).c_str(),hex(a[1]).c_str(),hex(a[2]).c_str(),r,t->what.empty()?"":(" "+t->what).c_str())); t->what.clear(); if(sysRec&&(!sysRecPid||sysRecPid==p->vpid)){ SysEv e; e.vpid=p->vpid; e.nr=nr; memcpy(e.a,a,sizeof a); e.ret=r; sysRec->push_back(e);} if(sysPost) sysPost(*t,nr,a,r);
  if(fc.rate.count("kill_child")&&!p->root&&!p->zombie&&fault(*t,"kill_child",p->exe)){ static const int sg[]={9,11,15,6}; int s=sg[param("kill_child.sig",p->vpid,4)]; p->killedBySim=true; procExit(p,s); }
  // a job-control stop (SIGSTOP, later SIGCONT) of a process the system under test started
  if(fc.rate.count("stop_child")&&!p->root&&!p->zombie&&!p->vtracer&&fault(*t,"stop_child",p->exe)){ p->jstop=now+1+param("stop_child.ns",p->vpid,20000000); p->jsig=19; p->jreported=false; } }

void Sim::resumeUntilStop(Task*t,bool){ Proc*p=t->p; 
  // optional instruction-level preemption of multi-threaded processes
  u64 k=0; if(pPreempt>0){ int live=0; for(auto o:p->tasks) if(o->st!=T_DEAD) live++; if(live>1||threadsSingleStep){ u64 v=choose("preempt",t->vtid,preemptMax+1,0,pPreempt); k=v; } }
  if(stepNext&&stepProc==p){ k=stepNext; stepNext=0; }
  int sig=0; 
  for(;;){ if(t->dirty){ if(ptrace(PTRACE_SETREGS,t->tid,0,&t->regs)) fatal("setregs"); t->dirty=false; }
    bool vstep=t->stepping; 
    bool ti=p->traceInstr&&onInstr; if(ti&&!p->traceBegun){ p->traceBegun=true; ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); onInstr(*t,0); } long pr; if(k||vstep||ti) pr=ptrace(PTRACE_SINGLESTEP,t->tid,0,sig); else pr=ptrace(PTRACE_CONT,t->tid,0,sig);
    if(pr) fatal(strf("resume: %s",strerror(errno))); sig=0; int st; 
    int r=xwait(t->tid,&st); if(r<0){ if(g_alarm){ fatal("wall-clock limit for one simulated run"); } fatal(strf("wait: %s",strerror(errno))); }
    if(WIFSTOPPED(st)){ int s=WSTOPSIG(st); int ev=st>>16;
      if(ev==0&&s==SIGTRAP&&(k||vstep||ti)){ // single step finished (or int3)
        u64 fl=0; siginfo_t si; if(!ptrace(PTRACE_GETSIGINFO,t->tid,0,&si)&&(si.si_code==TRAP_TRACE||si.si_code==TRAP_BRKPT||si.si_code==SIGTRAP)){ if(vstep){ t->stepping=false; ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); t->st=T_RUN; vstop(t,5); return; } (void)fl; if(ti){ ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); onInstr(*t,0); if(!k) continue; } if(--k==0){ ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); t->st=T_RUN; t->preempted=true; out.probes["preempted_in_user_code"]++; return; } continue; } }
      if(ev==0&&s!=(SIGTRAP|0x80)&&s!=SIGTRAP){ // signal-delivery stop
        if(s==SIGXCPU){ ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); end=END_SPIN; abortRun=true; log(strf("SPIN %d",t->vtid)); return; }
        siginfo_t si{}; ptrace(PTRACE_GETSIGINFO,t->tid,0,&si); bool sync=(s==SIGSEGV||s==SIGBUS||s==SIGFPE||s==SIGILL)&&si.si_code>0; 
        if(!sync){ sig=s; if(p->sa[s].handler<=1){ sig=0; } continue; }
        ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); log(strf("fault signal %d at rip %s addr %s",s,hex(t->regs.rip).c_str(),hex((u64)si.si_addr).c_str()));
        if(p->vtracer){ t->st=T_RUN; vstop(t,s); return; }
        if(p->traceInstr&&onInstr) onInstr(*t,s); if(p->sa[s].handler>1){ sig=s; continue; }
        out.probes["process_died_by_fault_signal"]++; procExit(p,s); return; }
      if(ev==0&&s==SIGTRAP){ // int3
        ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); if(p->vtracer){ t->st=T_RUN; vstop(t,5); return; } if(p->sa[5].handler>1){ sig=5; continue; } procExit(p,5); return; }
    }
    handleStop(t,st); return; } }

void Sim::handleStop(Task*t,int st){ Proc*p=t->p;
  if(WIFEXITED(st)||WIFSIGNALED(st)){ fatal(strf("tracee %d ended unexpectedly (%x)",t->vtid,st)); }
  int ev=st>>8; if(ev==(SIGTRAP|(PTRACE_EVENT_SECCOMP<<8))){ if(ptrace(PTRACE_GETREGS,t->tid,0,&t->regs)) fatal("getregs"); t->dirty=false; t->st=T_SYSC; t->retry=false; t->timedOut=false; t->interrupted=false; return; }
  if(ev==(SIGTRAP|(PTRACE_EVENT_EXEC<<8))){ postExec(t); t->st=T_RUN; return; }
  fatal(strf("unexpected stop %x of %s",st,p->exe.c_str())); }

void Sim::stepTask(Task*t){ Proc*p=t->p; cur=t; 
  if((!p->pendSig.empty()||p->vinject)&&!p->vstopped){ if(!deliverSignals(t)) return; if(p->vstopped||p->zombie) return; }
  if(t->st==T_BLOCKED){ if(t->deadline<=now&&!(t->ready&&t->ready())) t->timedOut=true; t->st=T_SYSC; }
  if(t->st==T_SYSC){ perform(t); if(p->zombie||abortRun||t->st!=T_RUN) return; if(t->vforkChild||p->vstopped) return; }
  if(t->st==T_RUN&&!p->zombie) resumeUntilStop(t); }

RunEnd Sim::run(std::function<bool()> stop){ g_alarm=0; alarm(120); double t0=nowMono(); (void)t0; 
  struct Al{ ~Al(){ alarm(0);} } al; int curActor=-1; 
  while(!abortRun){ if(stepNo>=maxSteps){ end=END_STEPS; return end; } if(stop&&stop()) { end=END_QUIET; return end; }
    pump();
    // candidates
    struct Cand{ Task*t; Actor*a; }; vector<Cand> cs; int def=-1; 
    for(auto t:tasks){ if(t->st==T_DEAD||t->p->zombie||t->vforkChild) continue; Proc*p=t->p; if(p->vstopped){ bool k=false; for(int s:p->pendSig) if(s==9) k=true; if(!k) continue; } if(p->jstop>now){ bool k=false; for(int s:p->pendSig) if(s==9) k=true; if(!k) continue; } bool ok=false; if(t->st==T_RUN||t->st==T_SYSC) ok=true; else if(t->st==T_BLOCKED){ if(t->deadline<=now) ok=true; else if(t->ready&&t->ready()) ok=true; if(!ok&&p->vinject) ok=true; if(!ok&&!p->pendSig.empty()) for(int s:p->pendSig){ bool masked=s!=9&&(t->sigmask>>(s-1)&1); bool ign=!p->vtracer&&(p->sa[s].handler==1||(p->sa[s].handler==0&&(sigDefaultIgnored(s)||(s>=19&&s<=22)))); if(!masked&&!ign) ok=true; } } if(ok){ if(t==cur&&curActor<0) def=cs.size(); cs.push_back({t,nullptr}); } }
    for(size_t i=0;i<actors.size();i++){ auto a=actors[i]; if(a->done) continue; if(a->ready&&a->ready()){ if(curActor==(int)i) def=cs.size(); cs.push_back({nullptr,a}); } }
    if(cs.empty()){ u64 nx=nextNetEvent(); for(auto t:tasks) if(t->st==T_BLOCKED&&!t->p->zombie&&!t->p->vstopped&&t->deadline<nx) nx=t->deadline; for(auto p:procs) if(!p->zombie&&p->jstop>now&&p->jstop<nx) nx=p->jstop; for(auto a:actors) if(!a->done&&a->wakeAt){ u64 w=a->wakeAt(); if(w>now&&w<nx) nx=w; } if(nx==~0ULL||nx<=now){ bool any=false; for(auto p:procs) if(!p->zombie) any=true; end=any?END_QUIET:END_ALLDEAD; return end; } now=nx; continue; }
    u64 pick; if(def>=0) pick=choose("sched",0,cs.size(),def,pSwitch); else { pick=choose("sched",0,cs.size(),0,cs.size()>1?(pSwitch>0?0.5:0.0):0); }
    stepNo++; Cand k=cs[pick]; sh=(sh^(k.t?k.t->vtid:1000000+(u64)(std::find(actors.begin(),actors.end(),k.a)-actors.begin())))*1099511628211ULL; 
    if(k.t){ curActor=-1; logv(k.t->vtid); stepTask(k.t); } else { curActor=std::find(actors.begin(),actors.end(),k.a)-actors.begin(); logv(1000+curActor); now+=tick; k.a->step(); }
  }
  return end; }
Actor* Sim::actor(const string&n){ auto a=new Actor; a->name=n; actors.push_back(a); return a; }

// ---------------------------------------------------------------- clone / exec
void Sim::doClone(Task*t,u64 flags,u64 stack,u64 ptid,u64 ctid,u64 tls,bool isVfork){ Proc*p=t->p; 
  u64 orig=flags; bool thread=flags&CLONE_THREAD; bool vf=(flags&CLONE_VFORK)||isVfork; flags&=~(u64)(CLONE_VFORK|CLONE_PARENT_SETTID|CLONE_CHILD_SETTID|CLONE_CHILD_CLEARTID|CLONE_UNTRACED|CLONE_PTRACE);
  user_regs_struct saved=t->regs; user_regs_struct r=t->regs; r.orig_rax=SYS_clone; r.rax=-ENOSYS; r.rdi=flags; r.rsi=stack; r.rdx=0; r.r10=0; r.r8=tls; ptrace(PTRACE_SETREGS,t->tid,0,&r);
  ptrace(PTRACE_SYSCALL,t->tid,0,0); int st; if(xwait(t->tid,&st)<0) fatal("clone wait"); int evw=st>>8; 
  for(int again=0;again<200&&WIFSTOPPED(st)&&evw!=(SIGTRAP|(PTRACE_EVENT_CLONE<<8))&&evw!=(SIGTRAP|(PTRACE_EVENT_FORK<<8));again++){ // a real SIGCHLD (of a process the simulator ended) interrupts the real call: swallow it, the kernel restarts the call
    if(evw==(SIGTRAP|0x80)){ user_regs_struct rr; ptrace(PTRACE_GETREGS,t->tid,0,&rr); if((long)rr.rax!=-513&&(long)rr.rax!=-ENOSYS) break; }
    ptrace(PTRACE_SYSCALL,t->tid,0,0); if(xwait(t->tid,&st)<0) fatal("clone wait"); evw=st>>8; }
  if(WIFSTOPPED(st)&&WSTOPSIG(st)==(SIGTRAP|0x80)){ ptrace(PTRACE_GETREGS,t->tid,0,&r); fatal(strf("real clone failed %ld",(long)r.rax)); }
  if(evw!=(SIGTRAP|(PTRACE_EVENT_CLONE<<8))&&evw!=(SIGTRAP|(PTRACE_EVENT_FORK<<8))) fatal(strf("clone: unexpected stop %x",st));
  unsigned long nt=0; ptrace(PTRACE_GETEVENTMSG,t->tid,0,&nt); if(xwait(nt,&st)<0) fatal("clone child wait"); if(!WIFSTOPPED(st)) fatal("clone child state");
  ptrace(PTRACE_SYSCALL,t->tid,0,0); if(xwait(t->tid,&st)<0||!(WIFSTOPPED(st)&&WSTOPSIG(st)==(SIGTRAP|0x80))) fatal(strf("clone exit stop %x",st));
  ptrace(PTRACE_GETREGS,t->tid,0,&t->regs);
  Task*n=new Task; n->tid=nt; n->sigmask=t->sigmask; ptrace(PTRACE_GETREGS,nt,0,&n->regs); 
  int vt=nextPid++; n->vtid=vt; 
  if(thread){ n->p=p; p->tasks.push_back(n); }
  else { Proc*q=new Proc; q->vpid=vt; q->ppid=p->vpid; q->pgid=p->pgid; q->pid=nt; q->exe=p->exe; q->argv=p->argv; q->label=p->label; q->fds=p->fds; q->cwd=p->cwd; q->cwdPath=p->cwdPath; memcpy(q->sa,p->sa,sizeof p->sa); q->umask=p->umask; q->role=p->role; q->rlimNofile=p->rlimNofile; q->maps=p->maps; q->trackMaps=p->trackMaps; q->startStep=stepNo; q->exitSig=orig&0xff; procs.push_back(q); n->p=q; q->tasks.push_back(n); if(onSpawn) onSpawn(*q); }
  tasks.push_back(n); n->st=T_RUN; 
  // registers of both sides: restore what we changed, set results
  t->regs.rdi=saved.rdi; t->regs.rsi=saved.rsi; t->regs.rdx=saved.rdx; t->regs.r10=saved.r10; t->regs.r8=saved.r8; t->regs.rax=vt; t->dirty=true; t->st=T_RUN;
  n->regs.rdi=saved.rdi; n->regs.rsi=saved.rsi; n->regs.rdx=saved.rdx; n->regs.r10=saved.r10; n->regs.r8=saved.r8; n->regs.rax=0; n->regs.orig_rax=-1; n->dirty=true;
  if(orig&CLONE_PARENT_SETTID){ u32 v=vt; wrv(p,ptid,v); } if(orig&CLONE_CHILD_SETTID){ u32 v=vt; wrv(n->p,ctid,v); } if(orig&CLONE_CHILD_CLEARTID) n->clearTid=ctid;
  if(vf){ t->vforkChild=vt; }
  log(strf("clone %d -> %d%s",t->vtid,vt,thread?" thread":"")); }

static string exeStore(const string&data){ // materialise a simulated executable on the host, by content
  u64 h=hstr(data),h2=hstr(data,0x1234567); string dir=g_build+"/exe"; mkdir(dir.c_str(),0777); string path=dir+strf("/%016llx%016llx",(unsigned long long)h,(unsigned long long)h2); struct stat st; if(stat(path.c_str(),&st)||(u64)st.st_size!=data.size()) if(!writeHost(path,data,0755)) throw SimError{"cannot store executable "+path}; return path; }

void Sim::doExec(Task*t,int dirfd){ Proc*p=t->p; (void)dirfd; string path; if(!rdstr(p,t->regs.rdi,path)){ finishSys(t,-EFAULT); return; }
  vector<string> argv; for(u64 a=t->regs.rsi;a;a+=8){ u64 q; if(!rdv(p,a,q)){ finishSys(t,-EFAULT); return; } if(!q) break; string s; if(!rdstr(p,q,s)){ finishSys(t,-EFAULT); return; } argv.push_back(s); }
  if(p->tasks.size()>1){ int live=0; for(auto o:p->tasks) if(o->st!=T_DEAD) live++; if(live>1) fatal("execve in a multi-threaded process is not simulated"); }
  InodeP n,par; string nm,full; long r=resolve(p,-100,path,true,n,par,nm,&full); if(r==0&&!n) r=-ENOENT; if(r){ finishSys(t,r); return; } if(n->type==IT_DIR||n->type!=IT_REG||!(n->mode&0111)){ finishSys(t,-EACCES); return; }
  if(fault(*t,"exec_fail",path)){ static const int es[]={ENOENT,EACCES,ENOMEM,ETXTBSY}; finishSys(t,-es[param("exec_fail.errno",p->vpid,4)]); return; }
  string host=execMap?execMap(full,*p):""; if(host.empty()){ if(n->host) host=n->hostPath; else { const string&d=n->content(); if(d.compare(0,4,"\177ELF")!=0){ if(d.compare(0,6,"SIMEXE")==0) host=g_build+"/bin/stubprog"; else { finishSys(t,-ENOEXEC); return; } } else host=exeStore(d); } }
  u64 sp=((t->regs.rsp-4096)&~15ULL); if(!wr(p,sp,host.c_str(),host.size()+1)) fatal("exec path write"); t->regs.rdi=sp; ptrace(PTRACE_SETREGS,t->tid,0,&t->regs); t->dirty=false;
  ExecRec er{p->vpid,full,argv,stepNo}; ptrace(PTRACE_CONT,t->tid,0,0); int st;
  // either the exec event or the return to user mode of a failed exec: use SYSCALL to see the latter
  if(xwait(t->tid,&st)<0) fatal("exec wait"); if(WIFSTOPPED(st)&&st>>8==(SIGTRAP|(PTRACE_EVENT_EXEC<<8))){ p->exe=full; p->argv=argv; postExec(t); t->st=T_RUN; t->retry=false; for(auto o:tasks) if(o->vforkChild==p->vpid) o->vforkChild=0; execs.push_back(er); string al; for(auto&s:argv) al+=" "+s; log(strf("exec %d %s :%s",p->vpid,full.c_str(),al.c_str())); if(onExec) onExec(*p,execs.back()); if(p->vtracer){ ptrace(PTRACE_SYSCALL,t->tid,0,0); if(xwait(t->tid,&st)<0||!(WIFSTOPPED(st)&&WSTOPSIG(st)==(SIGTRAP|0x80))) fatal("exec exit stop"); ptrace(PTRACE_GETREGS,t->tid,0,&t->regs); t->dirty=false; vstop(t,5); } return; }
  fatal(strf("exec of %s failed on the host (stop %x)",host.c_str(),st)); }
