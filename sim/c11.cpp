// C11: running out of memory never yields a wrong result.
#include "compgen.h"
#include <sys/wait.h>
#include <sys/syscall.h>
#include <algorithm>
static const char*CSPC="/opt/csp/cspc"; static const char*LINT="/opt/csp/csp-lint";
// par: from, len: which of the memory requests of the compiler processes fail; fine: small heap steps
static void genC11(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); g_decoys=r.chance(0.4); bool lint=r.chance(0.2); int tries=0; Prog p; do p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.8)?0:1); while((p.kind.find("std")!=string::npos&&p.files[p.main].size()>60000)&&++tries<10);
  if(r.chance(0.35)) for(auto&f:p.files) if(r.chance(0.7)&&f.first.find(".csp")!=string::npos){ string&t=f.second; if(!t.empty()&&t.back()!='\n') t+="\n"; int k=1+r.below(3); for(int q=0;q<k;q++){ size_t n=r.chance(0.5)?100+r.below(900):3000+r.below(30000); string l="# "; while(l.size()<n) l+=(char)('a'+r.below(26)); t+=l+"\nfn tail"+std::to_string(r.below(1000000))+"(x: i32): i32 = x + "+std::to_string(q)+";\n"; if(r.chance(0.5)){ string l2; size_t n2=r.chance(0.5)?r.below(3000):r.below(30000); while(l2.size()<n2) l2+=(char)('a'+r.below(26)); if(r.chance(0.25)&&n2<6000) t+="fn long_"+l2+"(x: i32): i32 = x;\n"; else t+="fn text"+std::to_string(r.below(1000000))+"(): &const char = \""+l2+"\""+(r.chance(0.3)?" \"and more\"":"")+";\n"; } } }
  putFiles(c,p.files); c.set("kind",p.kind); if(lint){ c.set("lint",(i64)1); string in=p.main; if(isPrefix("/work/",in)) in=in.substr(6); c.set("cmd",in+"\t-p\t/std"); } else genArgs(r,p,"/work",c); if(r.chance(0.3)) c.set("prog",(i64)(r.below(4)|r.below(30)<<16));
  int g=r.below(4); string tun; if(g) tun=strf("glibc.malloc.top_pad=%d:glibc.malloc.mmap_threshold=%d",g==1?0:g==2?16384:65536,r.chance(0.5)?4096:131072); if(r.chance(0.4)) tun+=strf("%sglibc.malloc.perturb=%d",tun.empty()?"":":",(int)(1+r.below(255))); if(!tun.empty()) c.set("env:GLIBC_TUNABLES",tun);
  c.set("from",(i64)(r.chance(0.3)?r.below(12):r.chance(0.6)?r.below(60):r.below(250))); c.set("len",(i64)(r.chance(0.15)?1+r.below(3):r.chance(0.5)?3+r.below(10):r.chance(0.2)?2+r.below(40):1000000)); if(r.chance(0.35)){ c.set("big",(i64)(4096*(1+r.below(r.chance(0.5)?6:30)))); c.set("from",(i64)(r.chance(0.6)?0:r.below(6))); c.set("len",(i64)1000000); c.setd("f.enomem",1.0); if(r.chance(0.7)) c.set("env:GLIBC_TUNABLES",string("glibc.malloc.top_pad=0:glibc.malloc.mmap_threshold=4096")); } else c.setd("f.enomem",r.chance(0.75)?1.0:0.5); c.set("maxfaults",(i64)1000000); if(r.chance(0.2)) c.setd("f.fork_fail",0.2); if(r.chance(0.15)) c.setd("f.eintr_wait",0.3); }
static void runC11(const Case&c,Outcome&out){ bool lint=c.geti("lint"); const char*exe=lint?LINT:CSPC; vector<string> args=argvOf(c); Case rc=c; const Ref&ref=reference(rc,exe,"/work",args); string why=string(lint?"csp-lint ":"cspc ")+j(args); if(ref.end!=END_ALLDEAD){ out.bad("hang","fault-free "+why+" does not terminate"); return; } if(WIFSIGNALED(ref.status)) return;
  simRun(c,out,[&](Sim&s){ World w(s,c); u64 n=0; bool up=false; u64 from=c.geti("from"), len=c.geti("len"), big=c.geti("big",0); auto of=s.fc.filter; s.fc.filter=[&,of](Task&t,const char*k,const string&o){ if(!strcmp(k,"enomem")){ if(t.p->exe!=exe) return false; if(o=="brk") up=true; if(!up) return false; if(big){ auto&q=t.regs; u64 sz=o=="brk"?(q.rdi>t.p->brk0?q.rdi-t.p->brk0:0):o=="mremap"?q.rdx:q.rsi; if(sz<big) return false; } u64 at=n++; return at>=from&&at<from+len; } return !of||of(t,k,o); };
    w.onToolExec=[&](Child&k){ if(ref.status==0) for(auto&h:k.handed){ auto q=ref.handed.find(h.first); if(q!=ref.handed.end()&&q->second!=h.second) out.bad("handed_on_damaged",why+": "+h.first+" was given to a tool although it differs from the fault-free one"); } };
    Inv*i=w.start(exe,"/work",args); RunEnd e=s.run(); if(out.faults.count("enomem")) why+=strf(" (memory requests fail from the %lluth on, %llu of them)",(unsigned long long)from,(unsigned long long)out.faults["enomem"]);
    if(e!=END_ALLDEAD){ out.bad("hang",why+strf(": did not end (%d)",(int)e)); return; }
    string t=lint?"":w.target(*i); bool rOk=ref.status==0;
    if(WIFSIGNALED(i->status)){ out.probes["died_by_signal"]++; if(!out.faults.count("enomem")) out.bad("crash",why+": died by "+statusStr(i->status)+" without a fault"); }
    else if(i->status==0){ out.probes["exit0"]++; if(!rOk) out.bad("wrong_verdict",why+": exits 0 although the fault-free run ends with "+statusStr(ref.status)); else if(!t.empty()){ bool a; string d=fileOf(s,t,a); auto it=ref.files.find(t); if(it!=ref.files.end()&&(!a||it->second!="f:"+d)) out.bad("wrong_artefact",why+": exits 0 and "+t+(a?" differs from the fault-free artefact":" does not exist")); } }
    else { out.probes["failed"]++; if(out.faults.empty()&&rOk) out.bad("spurious_failure",why+": fails without any fault"); if((i->out->data+i->err->data).empty()) out.bad("no_diagnostic",why+": "+statusStr(i->status)+" without any output"); for(int v:i->aliveAtExit) { out.bad("left_running",why+strf(": ended while its child %d was not waited for",v)); break; } }
    if(!lint&&args[0]=="run"){ int runs=0; for(auto&k:w.kids) if(k.second.execed&&k.second.exe==t){ runs++; if(!rOk&&!ref.files.count(t)) out.bad("program_run",why+": runs a program that the fault-free run does not build"); if(WIFEXITED(i->status)&&i->status==0&&k.second.status!=0) out.bad("wrong_verdict",why+": exits 0 although the program ended with "+statusStr(k.second.status)); } if(runs>1||(i->status==0&&runs!=1)) out.bad("program_run",why+strf(": the program was run %d times",runs)); if(runs) out.probes["program_run"]++; }
    if(out.faults.count("enomem")) { out.probes["out_of_memory"]++; out.probes["requests"]+=n; }; }); }
static Reg rC11({"C11",8000,100000,genC11,runC11,nullptr,"Each run builds, runs or lints a generated program while the memory requests of the compiler fail, a few of them or all from some point on.",kReal,kStub,kAssume});
