// D01, D02: the debugger and the programs it debugs, on simulated processes, signals and ptrace.
#include "comp.h"
#include <sys/wait.h>
#include <sys/syscall.h>
#include <signal.h>
#include <algorithm>
#include <set>
#include "compgen.h"
static const vector<string> kRealD={"cspc debug (built from /repo's working tree, unmodified binary)","the debugged programs","glibc and the dynamic linker"};
static const vector<string> kStubD={"kernel: processes, signals, ptrace, file system, terminal input (simulated)","as and ld: stand-ins"};
static const char*kCspc="/opt/csp/cspc";
// ---------------------------------------------------------------- the program on its own, instruction by instruction
struct TI { user_regs_struct r; u64 w[8]; u32 nsys; int sig; };
struct Solo { int pid=0; vector<TI> t; vector<string> sys; int status=-1; u64 watch=0; bool ok=false; vector<u64> rips; map<u64,string> code; string file; };
static u64 elfSym(const string&path,const string&name){ static map<string,u64> cache; auto it=cache.find(path+name); if(it!=cache.end()) return it->second; string d; if(!readHost(path,d)) throw SimError{"no "+path}; auto g=[&](size_t o,int n){ u64 v=0; memcpy(&v,&d[o],n); return v; }; u64 sh=g(0x28,8), es=g(0x3a,2), n=g(0x3c,2); u64 val=0; for(u64 i=0;i<n;i++){ u64 b=sh+i*es; if(g(b+4,4)!=2) continue; u64 off=g(b+0x18,8), sz=g(b+0x20,8), link=g(b+0x28,4); u64 so=g(sh+link*es+0x18,8); for(u64 k=0;k<sz;k+=24){ if(name==&d[so+g(off+k,4)]) val=g(off+k+8,8); } } if(!val) throw SimError{"no symbol "+name}; return cache[path+name]=val; }
static string sysText(Sim&s,Proc*p,int nr,u64*a,long ret){ auto v=[&](u64 x){ return (int)x==p->vpid&&x<1000000?string("PID"):hex(x); }; string d; if(nr==SYS_write&&ret>0){ d.resize(ret); s.rd(p,a[1],&d[0],ret); } return strf("%s(%s,%s,%s)=%s %s",sysName(nr),v(a[0]).c_str(),v(a[1]).c_str(),v(a[2]).c_str(),v(ret).c_str(),esc(d,200).c_str()); }
static bool isInf(const string&e){ return isPrefix("/opt/inf/",e); }
static vector<string> infArgs(const string&spec){ auto w=split(spec,' '); vector<string> a={"/opt/inf/"+w[0]}; a.insert(a.end(),w.begin()+1,w.end()); return a; }
static void mountInf(Sim&s){ for(string n:{"a","b","c"}) s.mountHost("/opt/inf/"+n,g_build+"/bin/inf_"+n); s.mountHost("/opt/launch",g_build+"/bin/launch"); }
static const Solo& solo(const string&spec){ static map<string,Solo> cache; auto it=cache.find(spec); if(it!=cache.end()) return it->second; if(cache.size()>60) cache.clear(); Solo S; Case rc; rc.prop="D"; rc.forced=true; rc.set("pswitch",string("0")); Outcome o; Sim s(rc,o); s.boot(); World w(s,rc); mountInf(s); vector<string> av=infArgs(spec); vector<string> args=av; S.watch=elfSym(g_build+"/bin/inf_"+spec.substr(0,1),"watch"); 
  auto oe=s.onExec; s.onExec=[&](Proc&p,ExecRec&e){ oe(p,e); if(isInf(e.path)){ p.traceInstr=true; S.pid=p.vpid; } }; u64 dropRip=0; string path=g_build+"/bin/inf_"+spec.substr(0,1);
  s.onInstr=[&](Task&t,int sig){ TI x{}; x.r=t.regs; if(!sig&&S.t.size()==1&&S.t[0].r.rip==t.regs.rip){ S.t[0].r=t.regs; return; } x.sig=sig; if(!sig&&dropRip){ u64 d=dropRip; dropRip=0; if(t.regs.rip==d) return; } if(sig&&t.p->sa[sig].handler>1) dropRip=t.regs.rip; s.rd(t.p,S.watch,x.w,64); x.nsys=S.sys.size(); S.t.push_back(x); };
  s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(isInf(t.p->exe)) S.sys.push_back(sysText(s,t.p,nr,a,ret)); };
  auto ox=s.onExit; s.onExit=[&](Proc&p){ ox(p); if(isInf(p.exe)) S.status=p.status; };
  w.start("/opt/launch","/work",args); S.ok=s.run()==END_ALLDEAD&&S.status>=0; s.readFile("/work/inf.out",S.file); s.killAll(); if(!S.ok||o.error||S.t.empty()) throw SimError{"the program to be debugged does not run alone: "+spec+" "+o.errmsg};
  if(getenv("DBGSOLO")) for(size_t k=0;k<S.t.size();k++) fprintf(stderr,"%zu rip %llx nsys %u sig %d\n",k,(unsigned long long)S.t[k].r.rip,S.t[k].nsys,S.t[k].sig);
  set<u64> rs; for(auto&x:S.t) if(!x.sig) rs.insert(x.r.rip); S.rips.assign(rs.begin(),rs.end()); { string d; readHost(path,d); for(u64 r:S.rips) { u64 o=r-0x400000; if(o+8<=d.size()) S.code[r]=d.substr(o,8); } } return cache[spec]=S; }
// ---------------------------------------------------------------- the session
static const char*kRegs[]={"r15","r14","r13","r12","rbp","rbx","r11","r10","r9","r8","rax","rcx","rdx","rsi","rdi","orig_rax","rip","cs","eflags","rsp","ss","fs_base","gs_base","ds","es","fs","gs"};
struct Exp { string line, kind; u64 v=0, v2=0; string has, hasErr; int reg=-1; vector<std::pair<u64,bool>> list; vector<u64> regs; u32 nsys=0; bool running=false; bool unk=false, nomem=false; };
struct Model { const Solo*S=nullptr; size_t at=0; bool loaded=false, atBp=false; int atReg=-1; vector<std::pair<u64,bool>> bps; u64 r12=0,r13=0; bool w12=false,w13=false; u64 w6=0,w7=0; int load=0; vector<std::pair<string,size_t>> loads; // per load: spec, position reached (-1: ended)
  std::pair<u64,bool>*bp(u64 a){ for(auto&b:bps) if(b.first==a) return &b; return nullptr; }
  u64 reg(int i){ const TI&x=S->t[std::min(at,S->t.size()-1)]; u64 v=((u64*)&x.r)[i]; if(i==3&&w12) return r12; if(i==2&&w13) return r13; return v; } 
  u64 pc(){ return S->t[std::min(at,S->t.size()-1)].r.rip; } };
static string specOf(u64 k){ static const char*sp[]={"a 2 3","a 5 6","a 0 1","a 7 9","b 0 3","b 1 1","b 2 2","b 3 2","b 4 1","b 5 2","b 6 3","b 0 6","c 5 4","c 3 7","c 10 2","c 1 9","a 1 2 three 4 five","b 2 1","a 3 0 x y z w v u","b 3 0"}; return sp[k%20]; }
// ops: load K | unload | cont | add @K | addx ADDR | rm @K | rmall | list | reg R | dump | mem wK|@K | memw K V | regw R V | regid R | exit y|n | misc TEXT | empty
static void genD(Rng&r,Case&c,bool th,bool d02){ baseCase(r,c,0.0); c.set("silent",(i64)r.chance(0.5)); c.set("src",string(r.chance(0.5)?"main.csp":"/work/main.csp")); int n=4+r.below(th?80:36); auto&o=c.ops; auto rip=[&]{ return strf("@%d",(int)r.below(r.chance(0.4)?6:400)); }; 
  auto misc=[&]()->string{ static const char*m[]={"help","current","clear","brk help","register help","memory help","load help","brk","register","memory","brk add","brk add 12","brk add 0x","brk rm","brk rm 7","brk foo","register read","register read nosuch","register write","register write nosuch 0x1","register write rax","register foo","memory read","memory read 12","memory write","memory write 0x403100","memory foo","brk add 0x10","brk add 0xffffffffffffffff","memory read 0x8","nonsense","zzz 1 2 3","   ","\t","?","brk rm 0x1234","brk list x y","0x","-"}; return m[r.below(39)]; };
  bool wantLoad=r.chance(0.92); if(wantLoad){ if(r.chance(0.1)) o.push_back("misc\t"+misc()); o.push_back(strf("load\t%d",(int)r.below(20))); int nb=r.below(5); for(int i=0;i<nb;i++) o.push_back("add\t"+rip()); }
  for(int i=0;i<n;i++) switch(r.below(26)){ case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: o.push_back("cont"); break; case 8: case 9: o.push_back("add\t"+rip()); break; case 10: case 11: o.push_back(r.chance(0.5)?"rm\tcur":"rm\t"+rip()); break; case 12: o.push_back(r.chance(0.3)?"rmall":"list"); break; case 13: case 14: o.push_back("reg\t"+std::to_string(r.below(27))); break; case 15: o.push_back("dump"); break; case 16: case 17: o.push_back("mem\t"+(r.chance(0.6)?strf("w%d",(int)r.below(57)):r.chance(0.5)?string("cur"):rip())); break; case 18: o.push_back(strf("memw\t%d\t%llx",48+(int)(r.chance(0.6)?8*r.below(2):r.below(9)),(unsigned long long)(r.chance(0.5)?r.next():r.below(100)))); break; case 19: o.push_back(strf("regw\t%d\t%llx",2+(int)r.below(2),(unsigned long long)(r.chance(0.5)?r.next():r.below(100)))); break; case 20: o.push_back(strf("regid\t%d",(int)r.below(15))); break; case 21: o.push_back("misc\t"+misc()); break; case 22: if(r.chance(0.3)) o.push_back("unload"); else o.push_back(r.chance(0.5)?"add\tcur":"empty"); break; case 23: if(r.chance(0.5)) o.push_back(strf("load\t%d",(int)r.below(20))); else o.push_back("add\t"+rip()); break; case 24: if(r.chance(0.2)){ o.push_back(r.chance(0.4)?"exit\tn":"exit\ty"); } else o.push_back("memrun"); break; default: if(r.chance(0.6)) o.push_back("regrip"); else o.push_back(strf("memx\t%d\t%s",(int)r.below(9),r.chance(0.6)?"r":"w")); }
  c.set("end",string(r.chance(0.4)?"exit":r.chance(0.5)?"eof":"noeol")); if(r.chance(0.5)) c.set("chunk",(i64)(1+r.below(r.chance(0.5)?8:200))); c.setd("pswitch",r.chance(0.5)?0.05:0.5); 
  if(!d02){ if(r.chance(0.5)){ c.setd("f.eintr_wait",0.3*(r.below(100)/100.0)); } } }
static void genD01(Rng&r,Case&c,bool th,u64){ genD(r,c,th,false); }
static void genD02(Rng&r,Case&c,bool th,u64){ genD(r,c,th,true); int k=r.below(5); for(int i=0;i<k;i++){ size_t at=r.below(c.ops.size()+1); string x; switch(r.below(12)){ case 10: case 11: { static const char*pf[]={"brk add 0x","brk rm ","brk ","register read ","register write rax 0x","register write ","register ","memory read 0x","memory write 0x","memory ","load ","load /opt/inf/a ","unload ","help ","current ","cont ","exit","clear","list ","nosuchcommand "}; x=pf[r.below(20)]; size_t l=r.chance(0.5)?20+r.below(300):200+r.below(8300); char ch="0aAz 9%s"[r.below(7)]; while(x.size()<l) x+=r.chance(0.1)?'1':ch; break; } case 0: x=string(8180+r.below(30),'a'); break; case 1: x="cont"+string(8170+r.below(40),' '); break; case 2: x=string(r.below(40000),'x'); break; case 3: x="load /nonexistent/program"; break; case 4: x="load /work"; break; case 5: x="load /work/main.csp"; break; case 6: { x=string(1+r.below(30),0); for(auto&ch:x) ch=(char)r.below(256); for(auto&ch:x) if(ch=='\n'||ch=='\t') ch='q'; break; } case 7: x="exit"; break; case 8: x="load"; break; default: { static const char*t[]={"brk add 0xffffffffffffffffffff","register write rip 0x0","register write rsp 0x0","memory write 0x0 0x0","load /opt/inf/a 1 2 3 4 5 6 7 8 9 10 11 12","unload","brk add 0x401000 0x401001","memory read 0xfffffffffffffff8","cont cont","loadx","exit now","contx","register dump x","brk list","register write eflags 0xffffffff","register write cs 0x0"}; x=t[r.below(16)]; } } c.ops.insert(c.ops.begin()+at,"raw\t"+x); } if(r.chance(0.35)){ c.set("cut",(i64)r.below(2000)); } if(r.chance(0.1)) c.set("readerr",(i64)1); if(r.chance(0.1)) c.ops.clear(); genFaults(r,c,{"fork_fail","exec_fail","eintr","eintr_wait","kill_child"},0.3,0.4); if(r.chance(0.1)) c.set("killinf",(i64)1); }
// turns the operations into the text of the session, following the model
static string buildSession(const Case&c,Model&m,vector<Exp>&ex,Outcome&out){ string in; auto line=[&](const string&l)->Exp&{ in+=l+"\n"; ex.push_back(Exp{}); ex.back().line=l; if(m.loaded) { ex.back().running=true; } return ex.back(); };
  auto addr=[&](const string&a)->u64{ if(!m.S) return 0x401000; if(a=="cur") return m.pc(); if(a[0]=='@') return m.S->rips[strtoull(a.c_str()+1,0,10)%m.S->rips.size()]; return strtoull(a.c_str(),0,16); };
  bool over=false; for(auto&op:c.ops){ if(over) break; auto w=split(op,'\t'); const string&n=w[0]; auto A=[&](size_t i)->string{ return i<w.size()?w[i]:""; };
    if(n=="load"){ string sp=specOf(strtoull(A(1).c_str(),0,10)); auto av=infArgs(sp); bool was=m.loaded; Exp&e=line("load "+j(av)); if(was){ e.kind="err"; e.hasErr="already loaded"; } else { e.kind="load"; m.S=&solo(sp); m.loaded=true; m.at=0; m.atBp=false; m.w12=m.w13=false; m.w6=m.w7=0; for(auto&b:m.bps) b.second=false; m.loads.push_back({sp,0}); } }
    else if(n=="unload"){ Exp&e=line("unload"); if(!m.loaded){ e.kind="err"; e.hasErr="No executable"; } else { e.kind="unload"; m.loads.back().second=m.at; m.loaded=false; } }
    else if(n=="cont"){ Exp&e=line("cont"); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="cont"; size_t i=m.atBp?m.at+1:m.at; auto&T=m.S->t; if(m.atReg==1&&!m.atBp) i=m.at; for(;i<T.size();i++){ if(T[i].sig) break; auto*b=m.bp(T[i].r.rip); if(b&&b->second) break; } 
      if(i<T.size()){ if(T[i].sig){ e.v=T[i].sig; e.has=strf("stopped by signal %s",strsignal(T[i].sig)); m.at=i; m.atBp=true; m.atReg=1; out.probes["signal_stop"]++; m.atReg=2; } else { e.has=strf("hit breakpoint 0x%016llx",(unsigned long long)T[i].r.rip); if(i==m.at) out.probes["hit_where_it_stood"]++; m.at=i; m.atBp=true; m.atReg=0; out.probes["breakpoint_hit"]++; } }
      else { int st=m.S->status; if(WIFEXITED(st)) e.has=strf("terminated with exit code %d",WEXITSTATUS(st)); else e.has=strf("killed by signal %s",strsignal(WTERMSIG(st))); m.loads.back().second=(size_t)-1; m.loaded=false; out.probes["ran_to_the_end"]++; } }
    else if(n=="add"||n=="rm"){ u64 a=addr(A(1)); bool zero=!m.S; Exp&e=line(strf("brk %s 0x%llx",n.c_str(),(unsigned long long)a)); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } (void)zero; auto*b=m.bp(a); if(n=="add"){ e.kind="brk"; if(b){ b->second=true; } else m.bps.push_back({a,true}); } else { if(!b){ e.kind="err"; e.hasErr="No breakpoint"; } else { e.kind="brk"; b->second=false; } } }
    else if(n=="rmall"){ Exp&e=line("brk rm *"); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="brk"; for(auto&b:m.bps) b.second=false; }
    else if(n=="list"){ Exp&e=line("brk list"); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="list"; e.list=m.bps; }
    else if(n=="reg"||n=="regrip"){ int k=n=="regrip"?16:atoi(A(1).c_str())%27; Exp&e=line(string("register read ")+kRegs[k]); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="reg"; e.reg=k; e.unk=m.loads.back().first[0]==98&&(m.w12||m.w13); e.v=m.reg(k); e.v2=m.atBp?e.v+1:e.v; }
    else if(n=="dump"){ Exp&e=line("register dump"); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="dump"; e.unk=m.loads.back().first[0]==98&&(m.w12||m.w13); for(int k=0;k<27;k++) e.regs.push_back(m.reg(k)); }
    else if(n=="mem"||n=="memrun"){ string a=n=="memrun"?"w0":A(1); if(a[0]=='w'){ int off=atoi(a.c_str()+1)%57; u64 base=m.S?m.S->watch:0x403000; Exp&e=line(strf("memory read 0x%llx",(unsigned long long)(base+off))); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } u64 w8[8]; memcpy(w8,m.S->t[std::min(m.at,m.S->t.size()-1)].w,64); w8[6]=m.w6; w8[7]=m.w7; e.kind="mem"; memcpy(&e.v,(char*)w8+off,8); }
      else { u64 ad=addr(a); Exp&e=line(strf("memory read 0x%llx",(unsigned long long)ad)); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } auto it=m.S->code.find(ad); e.kind=it==m.S->code.end()?"any":"code"; if(it!=m.S->code.end()) memcpy(&e.v,it->second.data(),8); e.v2=e.v; for(int k=0;k<8;k++){ auto*b=m.bp(ad+k); if(b&&b->second) e.v2=(e.v2&~(0xffULL<<(8*k)))|(0xccULL<<(8*k)); } } }
    else if(n=="memw"){ int off=std::min(56,std::max(48,atoi(A(1).c_str()))); u64 v=strtoull(A(2).c_str(),0,16); u64 base=m.S?m.S->watch:0x403000; Exp&e=line(strf("memory write 0x%llx 0x%llx",(unsigned long long)(base+off),(unsigned long long)v)); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="ok"; u64 x[2]={m.w6,m.w7}; memcpy((char*)x+off-48,&v,8); m.w6=x[0]; m.w7=x[1]; }
    else if(n=="regw"){ int k=atoi(A(1).c_str())==2?2:3; u64 v=strtoull(A(2).c_str(),0,16); Exp&e=line(strf("register write %s 0x%llx",kRegs[k],(unsigned long long)v)); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="ok"; if(k==2){ m.r13=v; m.w13=true; } else { m.r12=v; m.w12=true; } }
    else if(n=="regid"){ int k=atoi(A(1).c_str())%15; u64 v=m.S&&m.loaded?m.reg(k):0; if(m.S&&v==(u64)m.S->pid) continue; Exp&e=line(strf("register write %s 0x%llx",kRegs[k],(unsigned long long)v)); if(!m.loaded){ e.kind="err"; e.hasErr="only available"; continue; } e.kind="ok"; }
    else if(n=="memx"){ static const char*ad[]={"0x0","0x8","0x10","0xffffffffffffffff","0xffff800000000000","0x3ff000","0x7ffffffff000","0x1","0x5000000000"}; string a=ad[strtoull(A(1).c_str(),0,10)%9]; Exp&e=line(A(2)=="w"?"memory write "+a+" 0x2a":"memory read "+a); e.kind="err"; if(!m.loaded){ e.hasErr="only available"; continue; } e.hasErr="memory at address"; e.nomem=true; out.probes["unmapped_memory"]++; }
    else if(n=="empty"){ in+="\n"; }
    else if(n=="misc"){ Exp&e=line(A(1)); e.kind="any"; }
    else if(n=="exit"){ Exp&e=line("exit"); if(!m.loaded){ e.kind="exit"; over=true; } else { in+=A(1)=="n"?"n\n":"y\n"; if(A(1)=="n") e.kind="any"; else { e.kind="exit"; m.loads.back().second=m.at; m.loaded=false; over=true; } } }
    else if(n=="raw"){ in+=op.substr(4)+"\n"; } }
  string end=c.get("end"); if(!over){ if(end=="exit"){ Exp&e=line("exit"); e.kind="exit"; if(m.loaded) in+="y\n"; } else if(end=="noeol"&&!in.empty()) in.pop_back(); if(m.loaded) m.loads.back().second=m.at; }
  return in; }
static string strip(const string&t){ string o; for(size_t k=0;k<t.size();k++){ if(t[k]=='\033'&&k+1<t.size()&&t[k+1]=='['){ k+=2; while(k<t.size()&&!isalpha((u8)t[k])) k++; continue; } o+=t[k]; } return o; }
static vector<string> segments(const string&raw){ vector<string> r; string t=strip(raw); size_t p=0; for(;;){ size_t q=t.find("] >> ",p); if(q==string::npos) break; size_t e=q; size_t b=t.rfind(" [",q); string seg=t.substr(p,(b==string::npos||b<p?q:b)-p); (void)e; r.push_back(seg); p=q+5; } r.push_back(t.substr(p)); return r; }
static const char*kMain="fn main(): i32 {\n    <- 0;\n}\n";
struct InfRun { int vpid=0; vector<string> sys; int status=-1; bool ended=false; };
struct Sess { Sim&s; World&w; Inv*i=nullptr; string dout; vector<InfRun> runs; u64 eofReads=0, prompts=0; vector<int> left; 
  Sess(Sim&s,World&w,const Case&c,const string&in):s(s),w(w){ mountInf(s); s.mkfile("/work/main.csp",kMain); FileP f=s.script(in); if(i64 k=c.geti("chunk",0)){ Rng r(c.seed^77); for(size_t p=0;p<in.size();){ u32 n=1+r.below(k); f->scr->chunks.push_back(n); p+=n; } } if(c.geti("readerr",0)) f->scr->errAtEnd=5; vector<string> args={"debug",c.get("src","main.csp"),"-p","/std"}; if(c.geti("silent",0)) args.push_back("--silent");
    auto oe=s.onExec; s.onExec=[this,oe](Proc&p,ExecRec&e){ oe(p,e); if(isInf(e.path)){ InfRun r; r.vpid=p.vpid; runs.push_back(r); } };
    auto ox=s.onExit; s.onExit=[this,ox](Proc&p){ ox(p); for(auto&r:runs) if(r.vpid==p.vpid&&!r.ended){ r.ended=true; r.status=p.status; } };
    s.sysPost=[this](Task&t,int nr,u64*a,long ret){ Sim&s=this->s; if(isInf(t.p->exe)){ for(auto&r:runs) if(r.vpid==t.p->vpid) r.sys.push_back(sysText(s,t.p,nr,a,ret)); return; } if(i&&t.p==i->p){ if((nr==SYS_write||nr==SYS_writev)&&ret>0&&(int)a[0]==1){ FileP f=s.getF(t.p,1); if(f&&f->t==F_CAPTURE) dout+=f->cap->data.substr(f->cap->data.size()-ret); } if(nr==SYS_read&&(int)a[0]==0&&(ret==0||ret==-5)) eofReads++; } };
    i=w.start(kCspc,"/work",args,f); } };
static string strSys(const vector<string>&v,size_t k){ return k<v.size()?v[k]:"(none)"; }
static void runD01(const Case&c,Outcome&out){ Model m; vector<Exp> ex; string in=buildSession(c,m,ex,out); 
  simRun(c,out,[&](Sim&s){ World w(s,c); s.maxSteps=60000; auto of=s.fc.filter; s.fc.filter=[of](Task&t,const char*k,const string&o){ return t.p->exe==kCspc&&!strcmp(k,"eintr_wait"); }; Sess S(s,w,c,in); RunEnd e=s.run(); string why="session: "+esc(in,900)+" : "; if(e!=END_ALLDEAD){ out.bad("hang",why+strf("did not end (%d)",(int)e)); return; } if(WIFSIGNALED(S.i->status)){ out.bad("crash",why+"the debugger died by "+statusStr(S.i->status)); return; }
    // the debugged programs: system calls, data, order and status as when running alone
    if(S.runs.size()!=m.loads.size()){ out.bad("loads",why+strf("%zu programs were started instead of %zu",S.runs.size(),m.loads.size())); return; }
    for(size_t k=0;k<S.runs.size();k++){ auto&r=S.runs[k]; const Solo&so=solo(m.loads[k].first); size_t at=m.loads[k].second; bool full=at==(size_t)-1; size_t n=full?so.sys.size():so.t[std::min(at,so.t.size()-1)].nsys; for(size_t q=0;q<std::max(n,r.sys.size());q++) if(strSys(r.sys,q)!=strSys(so.sys,q)||q>=n){ out.bad("syscalls",why+strf("load %zu (%s): system call %zu is %s, alone it is %s%s",k,m.loads[k].first.c_str(),q,strSys(r.sys,q).c_str(),strSys(so.sys,q).c_str(),q>=n?", and should not have happened yet":"")); return; } if(full&&r.status!=so.status){ out.bad("status",why+strf("load %zu (%s) ended with %s, alone with %s",k,m.loads[k].first.c_str(),statusStr(r.status).c_str(),statusStr(so.status).c_str())); return; } if(!full&&r.status!=9){ out.bad("status",why+strf("load %zu (%s) ended with %s although the session left it unfinished",k,m.loads[k].first.c_str(),statusStr(r.status).c_str())); return; } }
    // what the debugger said
    auto seg=segments(S.dout); size_t q=1; auto lines=split(in,'\n'); size_t li=0; string err=strip(S.i->err->data); size_t ep=0; auto same=[&](u64 a,u64 b){ if(a==b) return true; for(size_t k=0;k<S.runs.size();k++) if(b==(u64)solo(m.loads[k].first).pid&&a==(u64)S.runs[k].vpid) return true; return false; };
    for(auto&x:ex){ while(li<lines.size()&&lines[li]!=x.line){ if(lines[li].empty()||lines[li]=="n") q++; li++; } li++; if(q>=seg.size()){ out.bad("output",why+"no prompt before `"+x.line+"`"); return; } string t=seg[q++]; string wl=why+"at `"+x.line+"`: "; auto hexAfter=[&](const string&key,u64&v)->bool{ size_t p=t.find(key); if(p==string::npos) return false; p+=key.size(); while(p<t.size()&&t[p]==' ') p++; if(t.compare(p,2,"0x")==0) p+=2; char*en; v=strtoull(t.c_str()+p,&en,16); return en!=t.c_str()+p; };
      if(x.kind=="exit") break; if(!x.has.empty()&&t.find(x.has)==string::npos){ out.bad("stop",wl+"expected \""+x.has+"\", the debugger says \""+esc(t,200)+"\""); return; } if(x.kind=="err"){ size_t p=err.find(x.hasErr,ep); if(p==string::npos){ out.bad("no_error",wl+"expected an error"); return; } ep=p+1; } if(x.nomem&&t.find(": 0x")!=string::npos){ out.bad("memory",wl+"shows a value where there is no memory: "+esc(t,100)); return; }
      if(x.kind=="reg"&&x.reg!=15&&!(x.unk&&(x.reg==2||x.reg==3))){ u64 v; u64 mask=x.reg==18||x.reg==6?~0x10100ULL:~0ULL; if(!hexAfter(string(kRegs[x.reg])+" ",v)){ out.bad("register",wl+"no value: "+esc(t,100)); return; } if(!same(v&mask,x.v&mask)&&!(x.reg==16&&v==x.v2)){ out.bad("register",wl+"shows "+hex(v)+" instead of "+hex(x.v)); return; } }
      if(x.kind=="dump") for(int k=0;k<27;k++){ if(k==15||(x.unk&&(k==2||k==3))) continue; u64 v=0; u64 mask=k==18||k==6?~0x10100ULL:~0ULL; bool f=false; for(auto&l:split(t,'\n')){ size_t z=l.find("0x"); string nm=l.substr(0,l.find(' ')); if(nm==kRegs[k]&&z!=string::npos){ v=strtoull(l.c_str()+z+2,0,16); f=true; } } if(!f){ out.bad("register",wl+"no "+kRegs[k]); return; } if(!same(v&mask,x.regs[k]&mask)&&!(k==16&&v==x.regs[k]+1)){ out.bad("register",wl+kRegs[k]+" shows "+hex(v)+" instead of "+hex(x.regs[k])); return; } }
      if(x.kind=="mem"||x.kind=="code"){ u64 v; if(!hexAfter(": ",v)){ out.bad("memory",wl+"no value: "+esc(t,100)); return; } if(v!=x.v&&!(x.kind=="code"&&v==x.v2)){ out.bad("memory",wl+"shows "+hex(v)+" instead of "+hex(x.v)); return; } }
      if(x.kind=="list") for(auto&b:x.list) if(t.find(strf("0x%016llx",(unsigned long long)b.first))==string::npos){ out.bad("list",wl+"breakpoint "+hex(b.first)+" is missing"); return; } }
    out.probes["sessions"]++; }); }
static Reg rD01({"D01",6000,60000,genD01,runD01,nullptr,"Each run debugs up to several of 16 program runs with a random session of loads, breakpoints, continues, register and memory commands (unused registers and memory are also written), its input split at random; the programs' instruction-by-instruction execution alone is the reference for stops, values, system calls and status.",kRealD,kStubD,kAssume});
static void runD02(const Case&c,Outcome&out){ Model m; vector<Exp> ex; string in=buildSession(c,m,ex,out); if(c.par.count("cut")&&(size_t)c.geti("cut")<in.size()) in.resize(c.geti("cut"));
  simRun(c,out,[&](Sim&s){ World w(s,c); s.maxSteps=60000; auto of=s.fc.filter; Sess*sp=nullptr; s.fc.filter=[of,&sp](Task&t,const char*k,const string&o){ if(!strcmp(k,"kill_child")) return isInf(t.p->exe); if(t.p->exe!=kCspc||!sp) return false; if(!strcmp(k,"eintr")) return o=="stdin"; return sp->dout.size()>0; }; Sess S(s,w,c,in); sp=&S; bool leftAlive=false; auto ox=s.onExit; s.onExit=[&,ox](Proc&p){ ox(p); }; u64 endStep=0; 
    RunEnd e=s.run(); string why="session: "+esc(in,700)+" : "; string fl; for(auto&f:out.faults) fl+=" "+f.first; if(!fl.empty()) why+="(faults"+fl+") "; (void)leftAlive; (void)endStep;
    if(!S.i->ended){ out.bad("hang",why+strf("the debugger did not end (%d); it read %llu times behind the end of its input",(int)e,(unsigned long long)S.eofReads)); return; }
    if(WIFSIGNALED(S.i->status)){ out.bad("crash",why+"the debugger died by "+statusStr(S.i->status)); return; }
    for(auto&r:S.runs){ Proc*p=s.byPid(r.vpid); if(!r.ended||p->exitStep>S.i->endStep){ out.bad("left_running",why+"the debugged program was still running when the debugger ended"); return; } }
    if(e!=END_ALLDEAD){ out.bad("hang",why+strf("something did not end (%d)",(int)e)); return; }
    if(S.eofReads>8) out.bad("spins",why+strf("%llu reads behind the end of the input",(unsigned long long)S.eofReads)); size_t nl=std::count(in.begin(),in.end(),'\n'); size_t np=segments(S.dout).size(); u64 ei=out.faults.count("eintr")?out.faults["eintr"]:0; if(np>nl+8+ei) out.bad("spins",why+strf("%zu prompts for %zu lines",np,nl)); out.probes["sessions"]++; if(!S.runs.empty()) out.probes["with_program"]++; }); }
static Reg rD02({"D02",3500,80000,genD02,runD02,nullptr,"Each run feeds the debugger a random session with malformed, over-long, empty and binary lines, cut off at a random byte, split into random reads, while process creation, exec, reads and waits fail or are interrupted and the debugged program is killed from outside.",kRealD,kStubD,kAssume});
// ---------------------------------------------------------------- D03: edit, compile, load again
// ops: edit K | comp y|n | load | cont | unload | sh N | misc TEXT ; versions of the source: par vK:path, vK.valid, vK.exit
struct L3 { string text,kind; int ver=-1; size_t prompt=0; bool reload=false, skip=false; int file=-1; };
static void genD03(Rng&r,Case&c,bool th,u64){ baseCase(r,c,0.15); bool real=c.get("tool")=="real"; g_directives=false; int nv=2+r.below(4); for(int k=0;k<nv;k++){ Prog p; if(real&&r.chance(0.8)){ int e=r.below(100); p.files["/work/main.csp"]=(r.chance(0.3)?"fn junk"+std::to_string(r.below(99))+"(): i32 = 3;\n":string())+"fn main(): i32 = "+std::to_string(e)+";\n"; p.valid=!(k&&r.chance(0.2)); if(!p.valid) p.files["/work/main.csp"]+="fn nope(): i32 = missing_thing;\n"; c.set(strf("v%d.exit",k),(i64)e); } else { int tries=0; do p=genProg(r,"/work","main",k&&r.chance(0.3)?1:0); while((p.main!="/work/main.csp"||p.kind.find("whole")!=string::npos||p.files[p.main].size()>20000||(real&&p.kind.find("std")!=string::npos))&&++tries<40); if(tries>=40){ p=Prog(); p.valid=true; p.files["/work/main.csp"]="fn main(): i32 = 1;\n"; c.set(strf("v%d.exit",k),(i64)1); } else c.set(strf("v%d.exit",k),(i64)-1); } for(auto&f:p.files) c.set(strf("v%d:",k)+f.first,f.second); c.set(strf("v%d.valid",k),(i64)p.valid); }
  string o="debug\t"+string(r.chance(0.5)?"main.csp":"/work/main.csp"); static const char*os[]={"prog","./prog","/work/o/p","sub/x.y"}; if(r.chance(0.8)) o+=string("\t")+(r.chance(0.5)?"-o\t":"--output\t")+os[r.below(4)]; o+="\t-p\t/std"; bool cb=!real&&r.chance(0.35); if(cb) o+=r.chance(0.5)?"\t-b\tc":"\t--backend\tC"; if(r.chance(0.5)) o+="\t--silent"; if(r.chance(0.3)) o+=r.chance(0.5)?"\t-g":"\t-g0"; if(r.chance(0.2)) o+="\t--no-opt"; if(!real&&r.chance(0.2)) o+="\t--static"; if(cb&&r.chance(0.5)) o+="\t--cc-flags\t"+string(r.chance(0.5)?"-DA -DB=1  -O1":"-Wall"); if(r.chance(0.1)) o+="\t--show-timings"; if(r.chance(0.1)) o+="\t--\tx\ty"; c.set("cmd",o);
  int n=3+r.below(th?24:12); bool loaded=false; int v=0; for(int i=0;i<n;i++) switch(r.below(9)){ case 0: case 1: v=r.below(nv); c.ops.push_back(strf("edit\t%d",v)); [[fallthrough]]; case 2: case 3: c.ops.push_back(string("comp\t")+(r.chance(0.75)?"y":"n")); break; case 4: case 5: c.ops.push_back(strf("load\t%d",r.chance(0.6)?0:(int)r.below(5))); loaded=true; break; case 6: c.ops.push_back("cont"); break; case 7: if(r.chance(0.4)) c.ops.push_back("unload"); else c.ops.push_back(strf("sh\t%d",(int)r.below(1000))); break; default: { static const char*m[]={"help","current","load help","nonsense"}; c.ops.push_back(string("misc\t")+m[r.below(4)]); } } (void)loaded;
  c.set("end",string(r.chance(0.5)?"exit":"eof")); c.setd("pswitch",r.chance(0.5)?0.05:0.4); if(!real) genFaults(r,c,{"tool_exit","tool_kill","tool_slow","stop_child","fork_fail","exec_fail","eintr_wait","short_read","short_write"},r.chance(0.5)?0.1:0.3,0.5); }
static void runD03(const Case&c,Outcome&out){ bool real=c.get("tool")=="real"; vector<string> args=split(c.get("cmd"),'\t'); auto ver=[&](int k){ map<string,string> m; string pre=strf("v%d:",k); for(auto&x:c.par) if(isPrefix(pre,x.first)) m[x.first.substr(pre.size())]=x.second; return m; };
  // the text of the session
  vector<L3> L; string in; vector<u32> chunks; size_t prompt=0; bool loaded=false; int pend=-1, cur=0, built=0; struct Start{ int ver; bool full; string cmd; }; string lastCmd; vector<Start> starts; string shTexts; auto line=[&](const string&t,const char*k)->L3&{ L3 x; x.text=t; x.kind=k; x.ver=pend; pend=-1; x.prompt=prompt++; L.push_back(x); return L.back(); }; auto answer=[&](bool y){ L3 x; x.text=y?"y":"n"; x.kind="answer"; L.push_back(x); prompt++; };
  string T; { World*w=nullptr; (void)w; string o; bool given=argAfter(args,"-o",o)||argAfter(args,"--output",o); if(!given) o="main.out"; T=o[0]=='/'?o:isPrefix("./",o)?"/work/"+o.substr(2):"/work/"+o; } auto loadName=[&](int k)->string{ static const char*pr[]={"a 2 3","a 5 1","c 2 3","a 7 2","c 1 1"}; string in=string("/opt/inf/")+pr[(k%5+5)%5]; return !real?in:k==0?T:k==1?T+" one two":k==2?T+" x":in; };
  for(auto&op:c.ops){ auto w=split(op,'\t'); string a=w.size()>1?w[1]:""; if(w[0]=="edit"){ pend=cur=atoi(a.c_str()); } else if(w[0]=="comp"){ L3&x=line("comp","comp"); x.file=cur; bool was=loaded; if(was){ x.reload=true; bool y=a!="n"; if(!y) x.skip=true; answer(y); if(!y) continue; } if(c.geti(strf("v%d.valid",cur))) built=cur; if(was) starts.push_back({built,false,lastCmd}); } else if(w[0]=="load"){ string ln=loadName(atoi(a.c_str())); line("load "+ln,"load"); if(!loaded){ loaded=true; lastCmd=ln; starts.push_back({built,false,ln}); } } else if(w[0]=="cont"){ line("cont","cont"); if(loaded){ starts.back().full=true; loaded=false; } } else if(w[0]=="unload"){ line("unload","unload"); loaded=false; } else if(w[0]=="sh"){ line("sh echo "+a+" >> /work/o/shout","sh"); shTexts+=a+"\n"; } else if(w[0]=="misc") line(a,"misc"); }
  if(c.get("end")=="exit"){ line("exit","exit"); if(loaded) answer(true); }
  vector<size_t> startAt; for(auto&x:L){ startAt.push_back(in.size()); in+=x.text+"\n"; chunks.push_back(x.text.size()+1); }
  vector<string> bargs=args; bargs[0]="build"; if(auto it=std::find(bargs.begin(),bargs.end(),"--");it!=bargs.end()) bargs.erase(it,bargs.end()); { string o; if(!argAfter(bargs,"-o",o)&&!argAfter(bargs,"--output",o)){ bargs.push_back("-o"); bargs.push_back(T); } }
  auto ref=[&](int k)->const Ref&{ Case rc; rc.prop="D03"; rc.set("tool",c.get("tool")); for(auto&f:ver(k)) rc.set("file:"+f.first,f.second); return reference(rc,kCspc,"/work",bargs); };
  Case wc=c; for(auto&f:ver(0)) wc.set("file:"+f.first,f.second); string fl;
  simRun(wc,out,[&](Sim&s){ World w(s,wc); mountInf(s); FileP f=s.script(in); f->scr->chunks.assign(chunks.begin(),chunks.end()); Inv*i=nullptr; string dout; size_t got=0; int curLine=-1, nextLine=0; struct Comp{ int line; int vpid; string art; bool have=false; }; vector<Comp> comps; 
    auto of=s.fc.filter; s.fc.filter=[&,of](Task&t,const char*k,const string&o){ if(!of(t,k,o)||curLine<0||!i) return false; bool own=t.p==i->p; auto it=w.kids.find(t.p->vpid); bool direct=it!=w.kids.end()&&it->second.parent==i->p->vpid; if(own||(direct&&!it->second.execed)) return L[curLine].kind=="comp"&&!L[curLine].reload&&(!strcmp(k,"fork_fail")||!strcmp(k,"exec_fail")||!strcmp(k,"eintr_wait")); if(isInf(t.p->exe)) return false; return true; };
    s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(!i||t.p!=i->p) return; if((nr==SYS_write||nr==SYS_writev)&&ret>0&&(int)a[0]==1){ FileP q=s.getF(t.p,1); if(q&&q->t==F_CAPTURE) dout+=q->cap->data.substr(q->cap->data.size()-ret); } if(nr==SYS_read&&(int)a[0]==0&&ret>0){ got+=ret; while(nextLine<(int)L.size()&&startAt[nextLine]<got){ if(L[nextLine].kind=="answer"){ nextLine++; continue; } curLine=nextLine++; if(L[curLine].ver>=0) for(auto&x:ver(L[curLine].ver)) s.mkfile(x.first,x.second); } } };
    // an answer is part of the line it belongs to
    vector<L3> keep; (void)keep; auto ox=s.onExit; s.onExit=[&,ox](Proc&p){ ox(p); for(auto&k:comps) if(k.vpid==p.vpid){ bool ok; k.art=fileOf(s,T,ok); k.have=ok; } };
    auto oe=s.onExec; s.onExec=[&,oe](Proc&p,ExecRec&e){ oe(p,e); if(i&&p.ppid==i->p->vpid&&e.path==kCspc&&curLine>=0) comps.push_back({curLine,p.vpid,"",false}); };
    i=w.start(kCspc,"/work",args,f); RunEnd e=s.run(); for(auto&x:out.faults) fl+=" "+x.first; string why="cspc "+j(args)+", session "+esc(in,500)+(fl.empty()?"":" (faults"+fl+")")+": "; if(e!=END_ALLDEAD){ out.bad("hang",why+strf("did not end (%d)",(int)e)); return; } if(WIFSIGNALED(i->status)){ out.bad("crash",why+"the debugger died by "+statusStr(i->status)); return; }
    vector<int> nums; { string t=strip(dout); size_t p=0; while((p=t.find("] >> ",p))!=string::npos){ size_t b=t.rfind('[',p); nums.push_back(b==string::npos?-1:atoi(t.c_str()+b+1)); p+=5; } }
    size_t ci=0; string prevArt; { auto&r0=ref(0); auto it=r0.files.find(T); if(it!=r0.files.end()) prevArt=it->second.substr(2); }
    for(size_t k=0;k<L.size();k++){ auto&x=L[k]; if(x.kind!="comp"||x.skip) continue; string wl=why+strf("line %zu (comp of version %d): ",k+1,x.file); bool ran=ci<comps.size()&&comps[ci].line==(int)k; if(!ran){ if(out.faults.count("fork_fail")||out.faults.count("exec_fail")){ if(x.prompt+1<nums.size()&&nums[x.prompt+1]==0) out.bad("failure_hidden",wl+"could not be started, and the prompt shows 0"); out.probes["not_started"]++; continue; } out.bad("not_compiled",wl+"the compiler was not started"); return; } auto&cp=comps[ci++]; Child&ch=w.kids[cp.vpid]; auto&rf=ref(x.file); bool disturbed=false; for(auto g:w.kidsOf(cp.vpid)) disturbed=disturbed||g->status!=0||!g->execed; disturbed=disturbed||out.faults.count("fork_fail")||out.faults.count("exec_fail"); 
      bool ok=ch.status==0; if(x.prompt+1<nums.size()&&(nums[x.prompt+1]==0)!=ok) out.bad("failure_hidden",wl+strf("ended with %s, and the prompt shows %d",statusStr(ch.status).c_str(),nums[x.prompt+1])); if(ok!=(rf.status==0)&&!disturbed) out.bad("wrong_verdict",wl+strf("ended with %s, a build with %s",statusStr(ch.status).c_str(),statusStr(rf.status).c_str())); if(ok){ auto it=rf.files.find(T); if(rf.status==0&&it!=rf.files.end()&&(!cp.have||it->second!="f:"+cp.art)) out.bad("stale_program",wl+T+" is not what a build of the current source gives"); out.probes["compiled"]++; prevArt=cp.art; } else { if(!disturbed&&cp.have&&cp.art!=prevArt) out.bad("stale_program",wl+"failed on a wrong source, and "+T+" changed"); if(disturbed) prevArt=cp.art; out.probes[disturbed?"compile_disturbed":"compile_failed"]++; } }
    if(ci<comps.size()) out.bad("compiled_twice",why+"the compiler was started more often than asked"); for(auto&k:comps) for(auto g:w.kidsOf(k.vpid)) if(g->execed&&g->exe==T){ out.bad("program_run",why+"compiling ran the program"); break; }
    vector<Child*> ps; for(auto k:w.kidsOf(i->p->vpid)) if(k->execed&&((real&&k->exe==T)||isInf(k->exe))) ps.push_back(k); std::sort(ps.begin(),ps.end(),[](Child*a,Child*b){return a->start<b->start;}); if(ps.size()!=starts.size()){ out.bad("loads",why+strf("%zu programs were loaded instead of %zu",ps.size(),starts.size())); return; }
    for(size_t k=0;k<ps.size();k++){ auto&st=starts[k]; if(j(ps[k]->argv)!=st.cmd){ out.bad("wrong_program",why+strf("program %zu was '%s' instead of '%s'",k,j(ps[k]->argv).c_str(),st.cmd.c_str())); continue; } if(!st.full){ if(ps[k]->status!=9) out.bad("loads",why+strf("program %zu ended with %s although it was only loaded",k,statusStr(ps[k]->status).c_str())); if(k+1<ps.size()&&ps[k]->end>ps[k+1]->start) out.bad("left_running",why+strf("program %zu was still there when the next one was loaded",k)); continue; } if(!isInf(ps[k]->exe)){ i64 e=c.geti(strf("v%d.exit",st.ver)); if(e<0) continue; if(!WIFEXITED(ps[k]->status)||WEXITSTATUS(ps[k]->status)!=e) out.bad("stale_program",why+strf("program %zu ended with %s, the source compiled last says %d",k,statusStr(ps[k]->status).c_str(),(int)e)); else out.probes["right_program_run"]++; } else { if(ps[k]->status!=solo(st.cmd.substr(9)).status) out.bad("status",why+strf("program %zu ended with %s",k,statusStr(ps[k]->status).c_str())); } }
    if(!shTexts.empty()){ string t; s.readFile("/work/o/shout",t); if(t!=shTexts) out.bad("shell_command",why+"the shell commands wrote "+esc(t,100)+" instead of "+esc(shTexts,100)); else out.probes["shell_commands"]++; }
    out.probes["sessions"]++; }); }
static Reg rD03({"D03",2500,60000,genD03,runD03,nullptr,"Each run compiles a generated program under `cspc debug` and drives a session in which its source is edited (also into wrong ones), recompiled with `comp`, loaded, continued and unloaded, while the tools fail, are killed, slow or stopped and processes cannot be created; in some runs the real as and ld make the programs and they are run.",kRealD,kStubD,kAssume});
