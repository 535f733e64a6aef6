// Deterministic simulator for real Linux x86-64 binaries: core types.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/types.h>
#include <sys/user.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8; typedef uint16_t u16;
using std::string; using std::vector; using std::map; using std::set; using std::shared_ptr; using std::make_shared;

// ---------------------------------------------------------------- random & decisions
inline u64 mix64(u64 x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
inline u64 hstr(const char*s,size_t n,u64 h=1469598103934665603ULL){ for(size_t i=0;i<n;i++){h^=(u8)s[i];h*=1099511628211ULL;} return h; }
inline u64 hstr(const string&s,u64 h=1469598103934665603ULL){ return hstr(s.data(),s.size(),h); }
struct Rng { u64 s; explicit Rng(u64 x=1):s(mix64(x)){} u64 next(){ s+=0x9e3779b97f4a7c15ULL; return mix64(s);} 
  u64 below(u64 n){ return n? next()%n:0; } i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); }
  bool chance(double p){ return (next()>>11)*(1.0/9007199254740992.0) < p; }
  template<class V> auto& pick(V&v){ return v[below(v.size())]; } };

struct Decision { string key; u64 val; };

// One simulated execution: everything a run depends on, apart from the code under test.
struct Case {
  string prop;                      // property id
  u64 seed=0;                       // decides every decision not listed explicitly
  map<string,string> par;           // scenario parameters (configuration of this run)
  vector<string> ops;               // workload operations
  bool forced=false;                // true: decisions come only from `dec` (all others default)
  vector<Decision> dec;
  string get(const string&k,const string&d="")const{ auto i=par.find(k); return i==par.end()?d:i->second; }
  i64 geti(const string&k,i64 d=0)const{ auto i=par.find(k); return i==par.end()?d:strtoll(i->second.c_str(),0,0); }
  double getd(const string&k,double d=0)const{ auto i=par.find(k); return i==par.end()?d:strtod(i->second.c_str(),0); }
  void set(const string&k,const string&v){par[k]=v;} void set(const string&k,i64 v){par[k]=std::to_string(v);} void setd(const string&k,double v){char b[40];snprintf(b,40,"%.6g",v);par[k]=b;}
  string ser()const; static bool parse(const string&,Case&,string&err);
};

struct Outcome {
  bool violation=false; string cls, msg;       // violation class (kept during minimisation) and message
  bool error=false; string errmsg;             // harness failure
  u64 hash=0;                                  // hash of the complete event log
  u64 steps=0, syscalls=0; u64 simns=0;
  map<string,u64> faults, probes;              // fault kind -> times fired; rare condition -> times reached
  u64 schedhash=0;                             // hash of the schedule (order of task steps)
  vector<Decision> dec;                        // non-default decisions taken
  bool nontrivial=true;
  vector<std::pair<string,string>> all;        // every violation of this run
  string trace;                                // event log (only when asked for)
  void bad(const string&c,const string&m){ all.push_back({c,m}); if(!violation&&!error){violation=true;cls=c;msg=m;} }
};

// ---------------------------------------------------------------- simulated objects
struct Inode; typedef shared_ptr<Inode> InodeP; struct Proc; struct Task; struct Sim; struct OpenFile; typedef shared_ptr<OpenFile> FileP;
enum IType { IT_REG, IT_DIR, IT_LNK, IT_CHR, IT_FIFO, IT_SOCK };
typedef shared_ptr<string> StrP;
struct Inode {
  IType type=IT_REG; u64 ino=0; u32 mode=0644; u32 uid=1000; u64 mtime=0; int nlink=1;
  StrP data;                         // regular file content (may be shared: copy on write)
  map<string,InodeP> ents;           // directory
  string link;                       // symlink target
  bool host=false, hostLoaded=false; string hostPath; u64 hostSize=0; // mirror of a host file or directory
  int dev=0;                         // char device: 1 null, 2 zero, 3 urandom, 4 tty
  // durability
  bool durable=false; StrP durData; map<string,InodeP> durEnts; 
  string created;                    // path at creation (diagnostics)
  const string& content(); string& wcontent(); u64 size();
};
struct Pipe { string buf; size_t cap=65536; int readers=0, writers=0; };
struct Tty { u8 termios[64]; u16 win[4]={24,80,0,0}; vector<string> log; string in; string out; bool eof=false; int sid=77; };
struct Watch { int wd; InodeP ino; u32 mask; bool active=true; };
struct Inotify { vector<Watch> watches; std::deque<string> q; int next=1; };
struct Sock; typedef shared_ptr<Sock> SockP;
struct Sock { int domain=2,type=1; int st=0; /*0 new 1 bound 2 listening 3 connected 4 closed*/ u16 port=0; u32 addr=0; u16 peerPort=0; u32 peerAddr=0;
  std::deque<SockP> backlog; int maxback=0; SockP peer; std::shared_ptr<Sock> self; string in; bool inEof=false, reset=false, wrShut=false; size_t cap=8192; 
  struct Seg{u64 at; string data; bool fin; bool rst;}; std::deque<Seg> flight; u64 lastAt=0; int id=0; bool external=false; string nm;
  struct Dg{u64 at; string data; u16 port; u32 addr;}; std::deque<Dg> dgrams; };
enum FType { F_INODE, F_PIPE_R, F_PIPE_W, F_CAPTURE, F_SCRIPT, F_INOTIFY, F_SOCK, F_TTY, F_NULL };
struct Capture { string data; string name; vector<std::pair<int,size_t>> who; int failAfter=-1; int err=0; bool tty=false; };
struct Script { string data; size_t pos=0; vector<u32> chunks; size_t ci=0; int errAtEnd=0; };
struct OpenFile { FType t=F_INODE; InodeP ino; int flags=0; i64 off=0; shared_ptr<Pipe> pipe; shared_ptr<Capture> cap; shared_ptr<Script> scr; shared_ptr<Inotify> inot; SockP sock; shared_ptr<Tty> tty; string path; u64 id=0; std::function<void()> onFree;
  vector<std::pair<string,InodeP>> dirsnap; bool snapped=false; bool failedOnce=false; ~OpenFile(); };
struct FdEnt { FileP f; bool cloexec=false; };
struct SigAct { u64 handler=0; u64 flags=0; u64 mask=0; };
struct MapRegion { u64 addr,len; int prot; bool anon; u64 seq; };

struct Proc {
  int vpid=0, ppid=0, pgid=0; pid_t pid=0; string exe; vector<string> argv; string label; bool root=false; string startCwd;
  map<int,FdEnt> fds; InodeP cwd; string cwdPath="/"; SigAct sa[65]; u32 umask=022;
  vector<Task*> tasks; bool zombie=false, reaped=false; int status=0; bool execed=false;
  int memfd=-1; u64 brk0=0; bool vforkWait=false;
  vector<int> pendSig; int role=0;            // scenario-assigned role
  Proc* vtracer=nullptr; bool traced=false; bool vstopped=false; int vstopSig=0; bool vstopReported=false; int vinject=0; bool vexitKill=false; bool traceInstr=false, traceBegun=false; // emulated ptrace
  u64 jstop=0; int jsig=19; bool jreported=false; // stopped by job control until then
  u64 itimerAt=0; 
  map<u64,MapRegion> maps; u64 mapSeq=0; bool trackMaps=false; u64 liveBytes=0; u64 exitStep=0; u64 startStep=0;
  int rlimNofile=1024; bool killedBySim=false; int exitSig=17; u64 nsys=0; std::map<int,u64> fcount;
};
enum TState { T_RUN, T_SYSC, T_BLOCKED, T_PARKED, T_DEAD };
struct Task {
  int vtid=0; pid_t tid=0; Proc*p=nullptr; TState st=T_RUN; user_regs_struct regs{}; bool dirty=false; 
  std::function<bool()> ready; u64 deadline=~0ULL; bool retry=false, timedOut=false, interrupted=false; bool canTimeout=false;
  u64 sigmask=0; u64 clearTid=0; u64 pri=0; bool needResult=false; int vforkChild=0;
  u64 futexAddr=0; u32 futexMask=0; bool futexWoken=false; u64 nsys=0; u64 stash[8]={0}; u64 sysAt=0; bool leaderDead=false; int lastNr=-1; bool preempted=false; bool stepping=false;
  u64 sleepEnd=0; string what; 
};
// A simulated party implemented in the harness (editor, user, remote peer, signal source).
struct Actor { string name; std::function<bool()> ready; std::function<void()> step; std::function<u64()> wakeAt; bool done=false; };

struct FaultCfg { map<string,double> rate; // kind -> probability per opportunity
  std::function<bool(Task&,const char*kind,const string&obj)> filter; u64 maxFaults=1000; u64 maxPerKind=1000000; };

struct MutRec { int vpid; string op, path; };
struct ExecRec { int vpid; string path; vector<string> argv; u64 step; };
struct TermRec { int vpid; int status; };

enum RunEnd { END_QUIET, END_ALLDEAD, END_STEPS, END_SPIN, END_CRASH, END_ABORT };

struct SysEv { int vpid; int nr; u64 a[6]; long ret; };

struct Sim {
  const Case& c; Outcome& out; explicit Sim(const Case&c,Outcome&o); ~Sim();
  // --- decisions
  u64 choose(const char*kind,u64 sub,u64 n,u64 def,double pNonDefault); // value in [0,n)
  bool fault(Task&t,const char*kind,const string&obj="");               // does this fault fire here?
  u64 param(const char*kind,u64 sub,u64 n);                             // auxiliary draw, default 0, recorded
  std::unordered_map<u64,u64> forcedMap; std::unordered_map<u64,u64> keyCount;
  FaultCfg fc; u64 faultsFired=0;
  // --- configuration
  double pSwitch=0.1; u64 maxSteps=200000; double pPreempt=0; u64 preemptMax=400; bool pct=false; 
  u64 wallBase=1700000000ULL*1000000000ULL; i64 clockSkew=0; u64 now=0; u64 tick=1000; bool randFreshMem=false; int mmapPolicy=0; u64 dirStride=1, dirShuffle=0; u64 mmapNext=0; set<u64> mmapUsed;
  std::function<bool(Task&,int nr,u64*a,long&ret)> sysHook;  // before a syscall is performed; true: handled with ret
  std::function<void(Task&,int nr,u64*a,long ret)> sysPost;
  std::function<long(Task&,u64 op,u64 a,u64 b,u64 c,u64 d)> hyper; // harness calls (syscall number 0x5000)
  std::function<void(Proc&)> onExit, onSpawn; std::function<void(Task&,int sig)> onInstr; // called for every instruction of a process with traceInstr (sig: a signal is delivered here)
  std::function<void(Proc&,ExecRec&)> onExec;
  std::function<string(const string&,Proc&)> execMap;          // simulated path -> host path of the program to run ("" = default)
  u64 crashAtSyscall=0; // crash the machine at the n-th syscall (0: never)
  bool (*dummy)(void)=nullptr;
  bool threadsSingleStep=false; Proc*stepProc=nullptr; u64 stepNext=0; /* stop this process after so many instructions of its next stretch of user code */ int wantTrace=0; string traceText; bool logStrings=false;
  // --- state
  InodeP root; u64 inoNext=1000; vector<Proc*> procs; vector<Task*> tasks; vector<Actor*> actors; Task* cur=nullptr; int nextPid=100; u64 stepNo=0; u64 sysNo=0; RunEnd end=END_QUIET; bool abortRun=false; bool crashed=false;
  vector<MutRec> muts; vector<ExecRec> execs; u64 fileId=0; shared_ptr<Tty> tty; map<u16,SockP> listeners; vector<SockP> socks; int sockId=0; u16 ephemeral=40000; vector<SysEv>* sysRec=nullptr; int sysRecPid=0;
  u64 lh=1469598103934665603ULL, sh=1469598103934665603ULL; u64 rndState=0;
  void log(const string&s); void logv(u64 v){ for(int i=0;i<8;i++){ lh^=(u8)(v>>(8*i)); lh*=1099511628211ULL; } }
  // --- building the world
  void boot(); InodeP mkdirp(const string&path); InodeP mkfile(const string&path,const string&data,u32 mode=0644); InodeP symlink(const string&path,const string&to);
  InodeP lookup(const string&path,bool follow=true); bool readFile(const string&path,string&out); bool exists(const string&path){return (bool)lookup(path,false);} void mountHost(const string&simPath,const string&hostPath);
  map<string,string> snapshot(const string&path); // all files below
  Proc* spawn(const string&simExe,const vector<string>&argv,const vector<string>&env,const string&cwd,FileP in,FileP out,FileP err);
  FileP capture(shared_ptr<Capture>&c,const string&name); FileP script(const string&data); FileP devnull(); FileP ttyFile();
  Actor* actor(const string&name);
  // --- running
  RunEnd run(std::function<bool()> stop=nullptr);
  void stepTask(Task*); void perform(Task*); void resumeUntilStop(Task*,bool emptySlice=false); void handleStop(Task*,int status); void finishSys(Task*,long ret);
  void procExit(Proc*,int status); void taskExit(Task*); void sendSig(Proc*,int sig); bool deliverSignals(Task*); void killAll(); void destroy(Proc*);
  void becomeZombie(Proc*p); void doClone(Task*,u64 flags,u64 stack,u64 ptid,u64 ctid,u64 tls,bool vfork); void doExec(Task*,int dirfd); void postExec(Task*); void vstop(Task*,int sig);
  long sys(Task&t,int nr,u64*a); // emulation; may return SYS_*
  // memory
  bool rd(Proc*p,u64 a,void*b,size_t n); bool wr(Proc*p,u64 a,const void*b,size_t n); bool rdstr(Proc*p,u64 a,string&s,size_t max=65536); 
  template<class T> bool rdv(Proc*p,u64 a,T&v){return rd(p,a,&v,sizeof v);} template<class T> bool wrv(Proc*p,u64 a,const T&v){return wr(p,a,&v,sizeof v);} 
  // vfs
  long resolve(Proc*p,int dirfd,const string&path,bool followLast,InodeP&node,InodeP&parent,string&name,string*full=nullptr);
  void mut(Proc*p,const string&op,const string&path); void notify(InodeP,u32 mask); InodeP newInode(IType t); string pathOf(Proc*,int dirfd,const string&path);
  void powerLoss(); // apply crash semantics to the file system (draws decisions)
  void syncAll();
  long doRead(Task&t,FileP f,u64 buf,u64 n,i64 off,bool pread); long doWrite(Task&t,FileP f,const string&data,i64 off,bool pwrite,int fd);
  long doOpen(Task&t,int dirfd,const string&path,int flags,int mode); long statTo(Proc*p,u64 addr,InodeP ino,FileP f); long doMmap(Task&t,u64*a); long doFutex(Task&t,u64*a); long doWait(Task&t,u64*a); long doSock(Task&t,int nr,u64*a); long doPtrace(Task&t,u64*a); long doPoll(Task&t,u64*a); int rLast=0; bool rTrail=false,rTrailEnd=false,rParentOp=false; shared_ptr<char> aliveTok=make_shared<char>(0); vector<std::pair<InodeP,bool>> closed; void lastClose(InodeP n,bool w); long doSelect(Task&t,int nr,u64*a); long doIoctl(Task&t,u64*a); long doGetdents(Task&t,u64*a,bool is64); long doSleep(Task&t,u64 req,u64 rem,bool abs,int clk);
  int newFd(Proc*p,FileP f,bool cloexec,int min=0); FileP getF(Proc*p,int fd); void pump(); u64 nextNetEvent(); void sockClose(SockP); bool sockReadable(SockP); void sockSend(SockP from,const string&d,bool fin,bool rst); 
  Proc* byPid(int v){ for(auto p:procs) if(p->vpid==v) return p; return nullptr; } Task* byTid(int v){ for(auto t:tasks) if(t->vtid==v&&t->st!=T_DEAD) return t; return nullptr; }
  vector<Proc*> alive(){ vector<Proc*> r; for(auto p:procs) if(!p->zombie) r.push_back(p); return r; }
  u64 realtime(){ return wallBase+now+clockSkew; }
  void fatal(const string&m);
  vector<std::pair<string,u64>>* timeline=nullptr;
};
struct SimError { string m; };
enum { SYS_BLOCK=-100001, SYS_PASS=-100002, SYS_GONE=-100003, SYS_DONE=-100004 };
enum { HYPER_NR=0x5000 };

string strf(const char*f,...) __attribute__((format(printf,1,2)));
string hex(u64);
bool readHost(const string&path,string&out);
bool writeHost(const string&path,const string&data,int mode=0644);
string hexdump(const string&,size_t max=64);
string esc(const string&,size_t max=400); string unesc(const string&);
vector<string> split(const string&,char sep=' ');
extern string g_build;   // directory with built artefacts (cspc, csp-lint, stubs, drivers, std)
extern const char* sysName(int nr);
