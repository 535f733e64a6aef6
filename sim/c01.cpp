// C01-C08: the compiler driver under simulated processes, disk and scheduling.
#include "comp.h"
#include <sys/wait.h>
#include <algorithm>
#include "compgen.h"
// ---------------------------------------------------------------- C01
// names a user may give to a file
static string oddName(Rng&r){ static const char*n[]={"my prog","q\"uote","%s%n%d","back\\slash","\xc3\xbcnicode","a'b","$(x)","a;b","a.b.c","two  blanks","a&b","#c","{x}","back\\\"both"}; return n[r.below(14)]; }
static void genC01(Rng&r,Case&c,bool th,u64){ baseCase(r,c,0.04); bool od=r.chance(0.06), gd=g_directives; if(od) g_directives=false; Prog p=genProg(r,"/work",od?oddName(r):r.chance(0.5)?"prog":"main"); g_directives=gd; putFiles(c,p.files); c.set("valid",(i64)p.valid); c.set("kind",p.kind); genArgs(r,p,"/work",c); if(p.kind=="nomain"&&isPrefix("lib",c.get("cmd"))) c.set("valid",(i64)1); if(r.chance(0.05)){ c.set("notool",(i64)1); c.ops.push_back(r.chance(0.4)?"--as\tnosuchtool":r.chance(0.5)?"--ld\t/nonexistent/ld":"--cc\tnosuchcc"); } if(r.chance(0.1)) c.set("nocache",(i64)1); if(r.chance(0.2)) c.set("prog",(i64)r.below(4)); 
  if(c.get("tool")=="stub") genFaults(r,c,{"tool_exit","tool_kill","tool_slow","kill_child","exec_fail","fork_fail","eintr_wait","stop_child"},0.5,0.3); else genFaults(r,c,{"exec_fail","fork_fail","kill_child"},0.01,0.5);
  if(c.get("tool")=="stub"&&r.chance(0.2)) genFaults(r,c,kFileFaults,0.08,0.0);
  // a source that cannot be read at all
  if(r.chance(0.03)){ string m=p.main; c.par.erase("file:"+m); c.set("valid",(i64)0); c.set("kind","missing"); if(r.chance(0.5)){ c.set("file:"+m+"/x","y"); c.set("kind","directory"); } else if(r.chance(0.3)){ c.set("file:"+m,""); c.set("kind","empty"); if(isPrefix("lib",c.get("cmd"))) c.set("valid",(i64)1); } }
  // a command line that cannot be followed
  if(r.chance(0.04)){ static const char*bo[]={"-o","--output","--as","--ld","--cc","-b","--backend","-b\tnosuch","--dynamic-linker","--set-mmcd","--set-mmcd\t0","--set-mmcd\tabc","-p","--std-path","-p\t/nonexistent","--cc-flags","--unknown","-x","another.csp","--static\t--dynamic-linker\t/lib64/ld-linux-x86-64.so.2","-b\t","-p\tnosuchdir"}; c.set("valid",(i64)0); c.set("kind",string("badopt")); c.set("file:/work/another.csp",string("fn main(): i32 = 0;\n")); string x=c.get("cmd"); for(auto&o:c.ops) x+="\t"+o; c.ops.clear(); c.set("cmd",x+"\t"+bo[r.below(22)]); /* not in the ops: the minimiser must not remove what makes it wrong */ } }
static void runC01(const Case&c,Outcome&out){ vector<string> args=argvOf(c); const Ref&ref=reference(c,"/opt/csp/cspc","/work",args); bool valid=c.geti("valid",1);
  if(ref.end!=END_ALLDEAD){ out.bad("hang","fault-free cspc "+j(args)+" does not terminate"); return; }
  bool refOk=WIFEXITED(ref.status)&&WEXITSTATUS(ref.status)==0; bool isRun=args[0]=="run"; bool toolsExist=true; 
  if(WIFSIGNALED(ref.status)){ out.bad("crash","fault-free cspc "+j(args)+" dies by "+statusStr(ref.status)); return; }
  simRun(c,out,[&](Sim&s){ World w(s,c); Inv*i=w.start("/opt/csp/cspc","/work",args); RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",strf("cspc %s did not end (%d)",j(args).c_str(),(int)e)); return; }
    bool ok=i->status==0; string why="cspc "+j(args)+" ("+c.get("kind","valid")+") "; bool real=c.get("tool")=="real"; 
    auto kids=w.kidsOf(i->p->vpid); std::sort(kids.begin(),kids.end(),[](Child*a,Child*b){return a->start<b->start;}); 
    bool hasDir=false; for(auto&q:c.par) if(isPrefix("file:",q.first)&&q.second.find("[cc(")!=string::npos) hasDir=true; const Child*failed=nullptr; bool prog=false; for(auto k:kids){ bool tool=!k->execed||isTool(k->argv.empty()?k->exe:k->argv[0]); bool dir=false; if(k->execed&&!k->argv.empty()){ if(k->argv[0]=="cp") dir=true; for(auto&a:k->argv) if(a.find("ext_")!=string::npos&&a.size()>2&&a.substr(a.size()-2)==".c") dir=true; } /* commands of [cc]/[copy] all belong to the parsing stage */ if(failed&&!dir&&(k->execed||!hasDir)){ out.bad("stage_after_failure",why+"started "+(k->execed?k->exe:"a child")+" after "+(failed->execed?failed->exe:"a child that could not be executed")+" ended with "+statusStr(failed->status)); } if(k->execed&&!tool){ prog=true; continue; } if(k->status!=0) failed=k; }
    if(c.get("kind")=="badopt"&&!i->out->data.size()&&!i->err->data.size()) out.bad("no_diagnostic",why+": "+statusStr(i->status)+" without a diagnostic");
    if(c.get("kind")=="badopt"&&!kids.empty()) out.bad("tool_for_bad_command",why+"starts a tool although the command line is wrong");
    if(ok&&!valid) out.bad("exit0_invalid_source",why+"exits 0 although the source has an error");
    if(ok&&failed) out.bad("exit0_tool_failed",why+"exits 0 although "+(failed->execed?failed->exe:"a child that could not be executed")+" ended with "+statusStr(failed->status));
    if(ok&&out.faults.count("fork_fail")) out.bad("exit0_no_process",why+"exits 0 although a process could not be created");
    if(valid&&!refOk){ // a valid program that fails without faults: only for reasons a user can see
      bool legit=c.geti("nocache")||c.geti("notool")||(isRun&&(has(args,"-c")||has(args,"-S")))||(isRun&&(c.geti("prog",0)!=0||real))||(real&&args[0]=="lib")||(real&&args.size()>1&&args[1].find('"')!=string::npos&&has(args,"-b")) /* gcc and as disagree on quotes in file names */; if(!legit) out.bad("spurious_failure",why+"fails without any fault: "+esc(ref.out+ref.err,500)); }
    if(ok&&valid){ string t=w.target(*i); if(!t.empty()&&!(isRun&&false)){ bool ex; string d=fileOf(s,t,ex); if(!ex) out.bad("exit0_no_output",why+"exits 0 but "+t+" does not exist"); else { auto rf=ref.files.find(t); if(refOk&&rf!=ref.files.end()&&rf->second!="f:"+d) out.bad("exit0_wrong_output",why+"exits 0 but "+t+" differs from the fault-free artefact"); } } }
    if(!ok&&valid&&refOk&&out.faults.empty()) out.bad("spurious_failure",why+"fails without any fault: "+esc(i->out->data+i->err->data,500));
    if(prog) out.probes["program_run"]++; if(failed){ out.probes["tool_failed"]++; out.probes[args[0]+"_"+(failed->execed?failed->exe.substr(failed->exe.rfind('/')+1):"noexec")+"_failed"]++; } if(!valid) out.probes[c.get("kind")=="badopt"?"invalid_option":"invalid_source"]++; if(ok) out.probes["exit0"]++; }); }
static Reg rC01({"C01",6000,120000,genC01,runC01,nullptr,"Each run compiles a generated program (valid, or with one of nine kinds of error, with modules, std imports) with random options while the simulator fails, kills or delays the assembler, linker and C compiler, refuses fork or exec and interrupts waits.",kReal,kStub,kAssume});
