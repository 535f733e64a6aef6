// C02-C08: the compiler driver under disk faults, concurrency, crashes and perturbed environments.
#include "comp.h"
#include <sys/wait.h>
#include <sys/syscall.h>
#include <algorithm>
#include "compgen.h"
static const char*CSPC="/opt/csp/cspc"; static const char*LINT="/opt/csp/csp-lint";

static bool exited(int st,int code){ return WIFEXITED(st)&&WEXITSTATUS(st)==code; }
static bool failedCleanly(int st){ return WIFEXITED(st)&&WEXITSTATUS(st)!=0; }
// a failed run says something that the successful run does not say
static bool hasDiagnostic(const Inv&i,const Ref&ref){ if(ref.status!=0) return !(i.out->data+i.err->data).empty(); set<string> known; for(auto&l:split(ref.out+"\n"+ref.err,'\n')) known.insert(l); for(auto&l:split(i.out->data+"\n"+i.err->data,'\n')) if(l.size()>3&&!known.count(l)) return true; return false; }
static string refFile(const Ref&r,const string&path,bool&ok){ auto it=r.files.find(path); ok=it!=r.files.end()&&isPrefix("f:",it->second); return ok?it->second.substr(2):""; }
// the artefact of one invocation equals the one of the fault-free run
static void sameArtefact(Outcome&out,const string&cls,const string&why,Sim&s,World&w,Inv&i,const Ref&ref){ string t=w.target(i); if(t.empty()) return; bool a,b; string d=fileOf(s,t,a), e=refFile(ref,t,b); if(!b) return; if(!a) out.bad(cls,why+": "+t+" does not exist"); else if(d!=e) out.bad(cls,why+strf(": %s differs from the fault-free artefact (%zu bytes instead of %zu)",t.c_str(),d.size(),e.size())); }
static void checkHanded(Outcome&out,const string&why,const Child&k,const Ref&ref){ for(auto&h:k.handed){ auto r=ref.handed.find(h.first); if(r!=ref.handed.end()&&r->second!=h.second) out.bad("handed_on_damaged",why+strf(": %s was started on an intermediate file that differs from the fault-free one (%zu bytes instead of %zu)",h.first.c_str(),h.second.size(),r->second.size())); } }
static bool refUsable(const Case&c,Outcome&out,const Ref&ref,const vector<string>&args){ if(ref.end!=END_ALLDEAD){ out.bad("hang","fault-free cspc "+j(args)+" does not terminate"); return false; } if(WIFSIGNALED(ref.status)){ out.bad("crash","fault-free cspc "+j(args)+" dies by "+statusStr(ref.status)); return false; } return true; }

// ---------------------------------------------------------------- C02 disk faults
static void genC02(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); g_decoys=r.chance(0.5); Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.9)?0:1); putFiles(c,p.files); c.set("valid",(i64)p.valid); c.set("kind",p.kind); genArgs(r,p,"/work",c,false); if(r.chance(0.15)) c.set("nocspdir",(i64)1);
  vector<string> k=kFileFaults; k.push_back("mkdir_fail"); k.push_back("path_fail"); k.push_back("path_fail"); static const double rates[]={0.06,0.25,0.7}; genFaults(r,c,k,rates[r.below(3)],0.03); if(r.chance(0.02)) c.set("cutargs",(i64)r.below(9)); }
static void runC02(const Case&c,Outcome&out){ vector<string> args=argvOf(c); if(c.par.count("cutargs")&&(size_t)c.geti("cutargs")<args.size()){ args.resize(c.geti("cutargs")); out.probes["cut_command_line"]++; } const Ref&ref=reference(c,CSPC,"/work",args); if(!refUsable(c,out,ref,args)) return;
  simRun(c,out,[&](Sim&s){ World w(s,c); string why="cspc "+j(args); w.onToolExec=[&](Child&k){ if(exited(ref.status,0)) checkHanded(out,why,k,ref); };
    Inv*i=w.start(CSPC,"/work",args); RunEnd e=s.run(); string fl; for(auto&f:out.faults) fl+=" "+f.first; why+=" with faults"+fl;
    if(e!=END_ALLDEAD){ out.bad("hang",why+strf(": did not end (%d)",(int)e)); return; }
    if(WIFSIGNALED(i->status)){ out.bad("crash",why+": died by "+statusStr(i->status)); return; }
    if(i->status==0){ out.probes["exit0"]++; if(!exited(ref.status,0)) out.bad("exit0_invalid_source",why+": exits 0 although the source has an error"); else sameArtefact(out,"wrong_artefact",why+": exits 0",s,w,*i,ref); }
    else { out.probes["failed"]++; if(exited(ref.status,0)&&out.faults.empty()) out.bad("spurious_failure",why+": fails without any fault"); if(!hasDiagnostic(*i,ref)) out.bad("no_diagnostic",why+": "+statusStr(i->status)+" without a diagnostic, output: "+esc(i->out->data+i->err->data,300)); } }); }
static Reg rC02({"C02",6000,120000,genC02,runC02,nullptr,"Each run builds a generated program while reads and writes of source, intermediate and output files are cut short, interrupted, fail with EIO or ENOSPC, opens fail and closes report errors.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C03 concurrent builds
static void genC03(Rng&r,Case&c,bool th,u64){ baseCase(r,c,0.0); c.setd("pswitch",r.chance(0.3)?0.05:r.chance(0.5)?0.3:0.9); int n=2+(r.chance(0.4)?r.below(th?4:3):0); bool samedir=r.chance(0.3); static const char*bases[]={"prog","main","app"}; string base=bases[r.below(3)]; map<string,string> files; if(r.chance(0.3)) c.set("nocspdir",(i64)1);
  // directories, sources and outputs of similar names: permuted, split differently, differing in one character
  static const char*dsets[][5]={{"/work/d0","/work/d1","/work/d2","/work/d3","/work/d4"},{"/work/a/b","/work/b/a","/work/a/c","/work/c/a","/work/ab"},{"/work/ab/c","/work/a/bc","/work/abc","/work/a/b/c","/work/cb/a"},{"/work/x12","/work/x21","/work/1x2","/work/2x1","/work/12x"},{"/work/proj","/work/proj/proj","/work/proj2","/work/Proj","/work/proj/a"}}; auto&ds=dsets[r.below(5)]; bool onesrc=samedir&&r.chance(0.3); static const char*onames[]={"ab","ba","a.b","b.a","aab","aba"}; Prog one; if(onesrc) g_directives=false; if(onesrc) one=genProg(r,"/work",base,0);
  for(int i=0;i<n;i++){ string dir=samedir?"/work":ds[i%5]; if(!samedir&&i>=5) break; string nm=samedir?strf("%s%d",base.c_str(),i):r.chance(0.8)?base:"other"; if(onesrc) nm=base; Prog p=onesrc?one:genProg(r,dir,nm,r.chance(0.9)?0:1); for(auto&f:p.files) files[f.first]=f.second; string op=dir+"\t"+(r.chance(0.2)?"run":r.chance(0.15)?"lib":"build")+"\t"+(r.chance(0.5)?p.main:p.main.substr(dir.size()+1))+"\t-p\t/std"; 
    if(samedir) { files[strf("/work/o%d/.keep",i)]=""; op+=onesrc&&r.chance(0.7)?strf("\t-o\t%s%s",r.chance(0.5)?"./":r.chance(0.5)?"":"/work/",onames[i]):strf("\t-o\t%so%d/out",r.chance(0.5)?"./":"/work/",i); } else if(r.chance(0.5)) op+=string("\t-o\t")+(r.chance(0.5)?"./":"")+(r.chance(0.8)?"out":"out2");
    if(r.chance(0.4)) op+="\t--silent"; if(r.chance(0.3)) op+="\t-b\tc"; if(r.chance(0.08)) op+="\t-c"; if(r.chance(0.2)) op+="\t-g0"; c.ops.push_back(op); }
  putFiles(c,files); if(r.chance(0.4)) c.setd("f.tool_slow",0.4); }
static void runC03(const Case&c,Outcome&out){ struct One{ string cwd; vector<string> args; const Ref*ref; Inv*i; }; vector<One> os; for(auto&o:c.ops){ auto w=split(o,'\t'); if(w.size()<3) continue; One x; x.cwd=w[0]; x.args.assign(w.begin()+1,w.end()); os.push_back(x); } 
  vector<Ref> refs; for(auto&o:os){ const Ref&r=reference(c,CSPC,o.cwd,o.args); if(!refUsable(c,out,r,o.args)) return; refs.push_back(r); }
  simRun(c,out,[&](Sim&s){ World w(s,c); for(auto&o:os) o.i=w.start(CSPC,o.cwd,o.args); 
    w.onToolExec=[&](Child&k){ Inv*i=w.invOf(k.vpid); for(size_t n=0;n<os.size();n++) if(os[n].i==i&&exited(refs[n].status,0)) checkHanded(out,"concurrent cspc "+j(os[n].args)+" in "+os[n].cwd,k,refs[n]); };
    RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",strf("concurrent builds did not end (%d)",(int)e)); return; }
    for(size_t n=0;n<os.size();n++){ Inv*i=os[n].i; const Ref&ref=refs[n]; string why="concurrent cspc "+j(os[n].args)+" in "+os[n].cwd; if(i->status!=ref.status) out.bad("status_differs",why+": "+statusStr(i->status)+" instead of "+statusStr(ref.status)+" when alone: "+esc(i->out->data,300)); else { if(exited(ref.status,0)) sameArtefact(out,"artefact_differs",why,s,w,*i,ref); if(i->out->data!=ref.out) out.bad("output_differs",why+": prints something else than alone: "+esc(i->out->data,300)); } } }); }
static Reg rC03({"C03",3000,80000,genC03,runC03,nullptr,"Each run starts two to five cspc processes of one user on different sources (same or different directories, often equal base names, both backends, build/run/lib) and lets a seeded scheduler interleave every system call of them and their tools.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C04 crash and rebuild
static void genC04(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",0); putFiles(c,p.files); c.set("main",p.main); genArgs(r,p,"/work",c,false); int n=1+(r.chance(0.3)?r.below(3):0); c.set("crashes",(i64)n); for(int i=0;i<n;i++){ c.set(strf("c%d",i),r.chance(0.5)?"power":r.chance(0.6)?"kill":"killtree"); c.set(strf("n%d",i),(i64)(r.chance(0.3)?1+r.below(60):1+r.below(400))); if(r.chance(0.4)) c.set(strf("edit%d",i),(i64)r.below(1000)); } if(r.chance(0.15)) c.set("nocspdir",(i64)1); if(r.chance(0.3)) c.setd("f.tool_slow",0.4); if(r.chance(0.2)) c.setd("f.kill_child",0.02); }
static void runC04(const Case&c,Outcome&out){ vector<string> args=argvOf(c); Case fin=c; string main=c.get("main"); int n=c.geti("crashes"); string src=c.get("file:"+main); vector<string> srcs; for(int i=0;i<n;i++){ if(c.par.count(strf("edit%d",i))){ i64 v=c.geti(strf("edit%d",i)); if(v%5==0) src="fn main(): i32 { <- 1; }\n"; else src+=strf("fn edited%lld_%d(): i32 { <- %lld; }\n",(long long)v,i,(long long)v); } srcs.push_back(src); } fin.set("file:"+main,src);
  const Ref&ref=reference(fin,CSPC,"/work",args); if(!refUsable(c,out,ref,args)) return; if(!exited(ref.status,0)) return;
  simRun(c,out,[&](Sim&s){ World w(s,c); s.syncAll(); string hist; 
    for(int k=0;k<n;k++){ string mode=c.get(strf("c%d",k)); u64 at=c.geti(strf("n%d",k)); Inv*i=nullptr; u64 base=s.sysNo; if(mode=="power") s.crashAtSyscall=base+at; else s.crashAtSyscall=0; u64 cnt=0; s.sysHook=nullptr;
      if(mode!="power") s.sysHook=[&](Task&t,int,u64*,long&ret)->bool{ if(!i||t.p!=i->p&&mode!="killtree") return false; if(++cnt!=at) return false; out.faults["process_killed"]++; if(mode=="killtree"){ vector<Proc*> al=s.alive(); for(auto p:al) if(p!=t.p) s.procExit(p,9); } s.procExit(t.p,9); ret=SYS_GONE; return true; };
      i=w.start(CSPC,"/work",args); RunEnd e=s.run(); s.sysHook=nullptr; s.crashAtSyscall=0; hist+=" "+mode+strf("@%llu",(unsigned long long)at);
      if(e==END_CRASH){ vector<Proc*> al=s.alive(); for(auto p:al) s.procExit(p,9); s.abortRun=false; s.crashed=false; s.cur=nullptr; s.powerLoss(); } else if(e!=END_ALLDEAD){ out.bad("hang","interrupted build did not end"); return; }
      if(srcs[k]!=(k?srcs[k-1]:c.get("file:"+main))) { s.mkfile(main,srcs[k]); } s.syncAll(); }
    s.fc.rate.clear(); string why="cspc "+j(args)+" after"+hist; w.onToolExec=[&](Child&k){ checkHanded(out,why,k,ref); };
    Inv*i=w.start(CSPC,"/work",args); RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",why+": rebuild did not end"); return; }
    if(i->status!=0){ out.bad("rebuild_fails",why+": "+statusStr(i->status)+": "+esc(i->out->data+i->err->data,400)); return; }
    sameArtefact(out,"rebuild_differs",why,s,w,*i,ref); }); }
static Reg rC04({"C04",2500,80000,genC04,runC04,nullptr,"Each run interrupts one to three builds (kill of cspc, of the whole process tree, or power loss that keeps, drops, truncates or zero-fills unsynced data and directory entries) at a random system call, possibly edits the source, and builds again without faults.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C05 only its own files
static void genC05(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); if(r.chance(0.2)){ // clearing the cache
    c.set("mode","clear"); map<string,string> f; f["/work/precious/a.csp"]="fn main(): i32 { <- 0; }\n"; f["/work/precious/deep/b.txt"]="important\n"; f["/home/u/.cache/other/keep"]="other program's cache\n"; f["/home/u/notes.txt"]="notes\n"; int n=r.below(6); for(int i=0;i<n;i++) f[strf("/home/u/.cache/cspydr/%sx%d.s",r.chance(0.3)?"sub/":"",i)]="stuff"; putFiles(c,f); c.set("cachedir",(i64)!r.chance(0.15)); int l=r.below(4); for(int i=0;i<l;i++){ static const char*to[]={"/work/precious","/work/precious/a.csp","/home/u/.cache","/work/precious/deep","..","../other","/nonexistent"}; c.ops.push_back(strf("/home/u/.cache/cspydr/%sl%d\t%s",r.chance(0.3)?"sub/":"",i,to[r.below(7)])); } if(r.chance(0.15)) c.set("linkroot",r.chance(0.5)?"/work/precious":"/home/u/.cache/other"); c.set("pos",(i64)r.chance(0.25)); vector<string> k={"unlink_fail","getdents_fail","open_fail","fstat_fail","short_read"}; genFaults(r,c,k,0.1,0.5); return; }
  c.set("mode","build"); string nm=r.chance(0.3)?"prog.v2":r.chance(0.2)?"prog":"main"; Prog p=genProg(r,"/work",nm,r.chance(0.8)?0:1); putFiles(c,p.files); c.set("kind",p.kind); genArgs(r,p,"/work",c); vector<string> k=kFileFaults; for(auto x:{"tool_exit","tool_kill","tool_slow","kill_child","exec_fail","fork_fail","eintr_wait","mkdir_fail"}) k.push_back(x); genFaults(r,c,k,0.2,0.3); if(r.chance(0.3)) c.set("killat",(i64)(1+r.below(300))); if(r.chance(0.15)) c.set("nocspdir",(i64)1); }
static bool under(const string&dir,const string&p){ return p==dir||isPrefix(dir+"/",p); }
static void runC05(const Case&c,Outcome&out){ if(c.get("mode")=="clear"){
    simRun(c,out,[&](Sim&s){ World w(s,c); string cache="/home/u/.cache/cspydr"; if(c.geti("cachedir")){ s.mkdirp(cache); } if(c.par.count("linkroot")&&!s.exists(cache)) s.symlink(cache,c.get("linkroot")); for(auto&o:c.ops){ auto x=split(o,'\t'); if(x.size()==2&&!s.exists(x[0])){ if(x[0].find("/sub/")!=string::npos&&!s.exists(cache+"/sub")){ if(!s.exists(cache)) continue; s.mkdirp(cache+"/sub"); } if(s.lookup(x[0].substr(0,x[0].rfind('/')))) s.symlink(x[0],x[1]); } }
      auto before=s.snapshot("/"); vector<string> args={"--clear-cache"}; if(c.geti("pos")) args={"build","/work/precious/a.csp","--clear-cache"}; 
      Inv*i=w.start(CSPC,"/work",args); RunEnd e=s.run(); auto after=s.snapshot("/"); string why="cspc "+j(args); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; }
      for(auto&f:before) if(!under(cache,f.first)&&(!c.geti("pos")||f.first.find("/work/precious/a.out")==string::npos)){ auto x=after.find(f.first); if(x==after.end()) out.bad("outside_removed",why+" removed "+f.first+", which is outside the cache directory"); else if(x->second!=f.second) out.bad("outside_changed",why+" changed "+f.first); }
      if(!c.geti("pos")&&c.par.count("linkroot")==0&&out.faults.empty()&&i->status==0) for(auto&f:after) if(under(cache,f.first)) out.bad("cache_not_cleared",why+" exits 0 but leaves "+f.first); 
      if(WIFSIGNALED(i->status)) out.bad("crash",why+" died by "+statusStr(i->status)); out.probes["clear_cache"]++; }); return; }
  vector<string> args=argvOf(c); 
  simRun(c,out,[&](Sim&s){ World w(s,c); Inv*i=nullptr; u64 cnt=0,at=c.geti("killat"); if(at) s.sysHook=[&](Task&t,int,u64*,long&ret)->bool{ if(!i||t.p!=i->p||++cnt!=at) return false; out.faults["process_killed"]++; s.procExit(t.p,9); ret=SYS_GONE; return true; };
    auto files=getFiles(c); i=w.start(CSPC,"/work",args); s.run(); string why="cspc "+j(args); string t=w.target(*i); string cache="/home/u/.cache/cspydr";
    for(auto&f:files){ string d; if(!s.readFile(f.first,d)) out.bad("source_deleted",why+" deleted "+f.first); else if(d!=f.second) out.bad("source_changed",why+" changed "+f.first); }
    for(auto&m:s.muts) if(files.count(m.path)) out.bad("source_touched",why+" did "+m.op+" on the source file "+m.path); else if(m.path!=t&&!madeByDirective(m.path)&&!under(cache,m.path)&&!isPrefix("/dev/",m.path)&&!(t.empty()&&under("/home/u/.cache",m.path))) out.bad("foreign_file",why+" did "+m.op+" on "+m.path+" (output is "+t+")"); if(!s.muts.empty()) out.probes["mutations"]+=s.muts.size(); }); }
static Reg rC05({"C05",3000,100000,genC05,runC05,nullptr,"Each run builds, runs or fails to build a generated program under file, process and tool faults or a kill at a random system call, or clears a cache directory containing files, directories and symbolic links, and checks every mutation of the simulated file system.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C06 determinism
static void genC06(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); bool lint=r.chance(0.3); if(lint) g_directives=false; Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.7)?0:1); putFiles(c,p.files); c.set("kind",p.kind); if(lint){ c.set("lint",(i64)1); c.ops={p.main,"-p\t/std"}; c.set("cmd",""); } else { genArgs(r,p,"/work",c,false); c.ops.erase(std::remove(c.ops.begin(),c.ops.end(),string("--show-timings")),c.ops.end()); if(r.chance(0.08)) c.ops.push_back("-b\tjson"); }
  if(r.chance(0.5)) c.set("pid0",(i64)r.range(2,4000000)); if(r.chance(0.5)) c.set("wall",(i64)(r.chance(0.5)?r.range(0,2000000000):r.range(1600000000,4000000000ll))); if(r.chance(0.6)) c.setd("f.short_read",r.chance(0.5)?0.1:0.7); int ne=r.below(4); for(int i=0;i<ne;i++){ static const char*names[]={"LC_ALL","TERM","TZ","USER","PWD","LANGUAGE","FOO","COLUMNS","TMPDIR","EDITOR"}; c.set(string("env:")+names[r.below(10)],string(r.below(r.chance(0.2)?3000:30),(char)('a'+r.below(26)))); }
  string tun; auto add=[&](const string&x){ tun+=(tun.empty()?"":":")+x; }; if(r.chance(0.7)) add(strf("glibc.malloc.perturb=%d",(int)r.range(1,255))); if(r.chance(0.3)) add(strf("glibc.malloc.mmap_threshold=%d",(int)r.range(600,60000))); if(r.chance(0.3)) add("glibc.malloc.tcache_count=0"); if(r.chance(0.2)) add(strf("glibc.malloc.top_pad=%d",(int)r.range(1,3000000))); if(!tun.empty()) c.set("env:GLIBC_TUNABLES",tun); if(r.chance(0.6)) c.set("mmappol",(i64)r.range(1,3)); if(r.chance(0.2)) c.set("tick",(i64)r.range(1,2000000000)); if(p.kind.find("deprecated")!=string::npos){ /* a date in the source is compared with the clock */ c.par.erase("wall"); c.par.erase("tick"); } }
static void runC06(const Case&c,Outcome&out){ bool lint=c.geti("lint"); vector<string> args=argvOf(c); if(lint&&!args.empty()&&args[0].empty()) args.erase(args.begin()); const char*exe=lint?LINT:CSPC; const Ref&ref=reference(c,exe,"/work",args); if(ref.end!=END_ALLDEAD){ out.bad("hang",string(exe)+" "+j(args)+" does not terminate"); return; }
  simRun(c,out,[&](Sim&s){ World w(s,c); s.mmapPolicy=c.geti("mmappol"); s.tick=c.geti("tick",1000); w.onToolExec=[&](Child&k){ for(auto&h:k.handed){ auto r=ref.handed.find(h.first); if(r!=ref.handed.end()&&r->second!=h.second) out.bad("output_varies",j(args)+": generated code depends on the environment"); } }; Inv*i=w.start(exe,"/work",args); i->p->trackMaps=true; RunEnd e=s.run(); string why=string(lint?"csp-lint ":"cspc ")+j(args); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; }
    if(i->status!=ref.status) out.bad("status_varies",why+": "+statusStr(i->status)+" instead of "+statusStr(ref.status)); if(i->out->data!=ref.out||i->err->data!=ref.err) out.bad("diagnostics_vary",why+" prints "+esc(i->out->data+i->err->data,600)+" instead of "+esc(ref.out+ref.err,600));
    auto now=s.snapshot("/work"); auto h=s.snapshot("/home"); now.insert(h.begin(),h.end()); for(auto&f:ref.files){ auto x=now.find(f.first); if(x==now.end()||x->second!=f.second) out.bad("output_varies",why+": file "+f.first+" depends on the environment"); } for(auto&f:now) if(!ref.files.count(f.first)) out.bad("output_varies",why+": extra file "+f.first); }); }
static Reg rC06({"C06",2500,80000,genC06,runC06,nullptr,"Each run repeats one compilation or lint with a different clock, process id, environment, allocator state (poisoned fresh and freed memory, different placement of mappings) and differently split reads, and compares every output with the reference run.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C07 run
static void genC07(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.95)?0:1); putFiles(c,p.files); c.set("valid",(i64)p.valid); genArgs(r,p,"/work",c,false); putFiles(c,p.files); bool shell=r.chance(0.15); /* shell: everything behind the source belongs to the program */ c.set("cmd",(shell?"shell\t":"run\t")+(r.chance(0.5)?p.main:p.main.substr(6))); if(shell) c.ops.clear(); vector<string> o; for(auto&x:c.ops) if(x!="-c"&&x!="-S") o.push_back(x); c.ops=o; if(!shell&&r.chance(0.05)) c.ops.push_back(r.chance(0.5)?"-c":"-S");
  int n=r.chance(0.05)?r.below(60):r.below(5); for(int i=0;i<n;i++){ static const char*as[]={"","--","-o","x","a b","--silent","-S","$HOME","*","\xc3\xa4\xc3\xb6","-b","--help","'q'","build","%s%n","-p"}; string a=r.chance(0.8)?as[r.below(16)]:string(1+r.below(300),'z'); c.ops.push_back("A:"+a); }
  if(r.chance(0.6)){ u64 code=r.chance(0.4)?0:r.chance(0.3)?(r.chance(0.5)?255:256-r.below(20)):r.below(256); u64 sig=0; if(r.chance(0.2)){ static const int sg[]={9,11,6,15,8,2}; sig=sg[r.below(6)]; code=0; } c.set("prog",(i64)((code&255)|sig<<8|(r.chance(0.4)?r.below(40)<<16:0))); }
  genFaults(r,c,{"tool_slow","eintr_wait","exec_fail","fork_fail","kill_child","tool_exit","stop_child"},0.4,0.4); if(r.chance(0.3)) c.set("stale",(i64)1); }
static void runC07(const Case&c,Outcome&out){ vector<string> args=split(c.get("cmd"),'\t'), pa; for(auto&o:c.ops){ if(isPrefix("A:",o)) pa.push_back(o.substr(2)); else for(auto&x:split(o,'\t')) args.push_back(x); } vector<string> full=args; bool shell=args[0]=="shell"; if(!pa.empty()){ if(!shell) full.push_back("--"); full.insert(full.end(),pa.begin(),pa.end()); } Case rc=c; rc.set("prog",(i64)0); const Ref&ref=reference(rc,CSPC,"/work",full); if(!refUsable(c,out,ref,full)) return; bool buildOnly=has(args,"-c")||has(args,"-S");
  simRun(c,out,[&](Sim&s){ World w(s,c); vector<int> progs; string why="cspc "+j(full," "); Inv*i=nullptr; string t; 
    w.onToolExec=[&](Child&k){ if(!i) return; string ex=k.exe; string nm=ex.substr(ex.rfind('/')+1); if(isTool(k.argv.empty()?ex:k.argv[0])&&ex!=t) return; progs.push_back(k.vpid); if(ex!=t) out.bad("wrong_program",why+" executed "+ex+" instead of "+t); bool a,b; string d=fileOf(s,t,a), e=refFile(ref,t,b); if(!b||d!=e) out.bad("ran_incomplete_build",why+" executed a file that is not the complete build"); for(auto&q:w.kids) if(q.first!=k.vpid&&!q.second.exited) out.bad("ran_during_build",why+" executed the program while "+q.second.exe+" was still running"); for(auto&q:w.kids) if(q.first!=k.vpid&&q.second.exited&&q.second.status!=0) out.bad("ran_after_failed_build",why+" executed the program although "+q.second.exe+" ended with "+statusStr(q.second.status)); vector<string> got(k.argv.begin()+(k.argv.empty()?0:1),k.argv.end()); if(got!=pa) out.bad("arguments_changed",why+" passed ["+j(got,"|")+"] instead of ["+j(pa,"|")+"]"); };
    i=w.start(CSPC,"/work",full); t=w.target(*i); if(c.geti("stale")){ string st=t; if(buildOnly){ Inv x=*i; x.args.clear(); for(auto&a:i->args) if(a!="-c"&&a!="-S") x.args.push_back(a); st=w.target(x); } s.mkfile(st,"an older build\n"); if(auto n=s.lookup(st)) n->mode|=0111; } RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; }
    if(progs.size()>1) out.bad("ran_twice",why+strf(" executed the program %zu times",progs.size())); bool ranOk=progs.size()==1&&w.kids[progs[0]].exited&&w.kids[progs[0]].status==0; if(progs.size()==1){ out.probes["program_run"]++; Child&k=w.kids[progs[0]]; if(i->status>=0&&std::find(i->aliveAtExit.begin(),i->aliveAtExit.end(),k.vpid)!=i->aliveAtExit.end()) out.bad("did_not_wait",why+" ended before the program it ran"); }
    if(i->status==0&&!ranOk) out.bad("exit0_program_failed",why+" exits 0 although "+(progs.empty()?string("the program was not run"):"the program ended with "+statusStr(w.kids[progs[0]].status))); if(i->status!=0&&ranOk) out.bad("failure_program_ok",why+": "+statusStr(i->status)+" although the program ran and exited with 0"); if(WIFSIGNALED(i->status)) out.bad("crash",why+" died by "+statusStr(i->status));
    if(progs.empty()&&out.faults.empty()&&c.geti("valid")&&!buildOnly) out.bad("not_run",why+" did not run the program: "+esc(i->out->data,400)); }); }
static Reg rC07({"C07",5000,80000,genC07,runC07,nullptr,"Each run lets cspc build and run a program with random arguments, exit codes and signals while tools are slow, fail or are killed, waits are interrupted and process creation fails.",kReal,kStub,kAssume});

// ---------------------------------------------------------------- C08 no processes left
static void genC08(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.85)?0:1); putFiles(c,p.files); genArgs(r,p,"/work",c); if(r.chance(0.3)) { c.set("cmd","run\t"+p.main); putFiles(c,p.files); } if(r.chance(0.4)) c.set("prog",(i64)(r.below(4)|r.below(30)<<16)); genFaults(r,c,{"tool_exit","tool_kill","tool_slow","kill_child","exec_fail","fork_fail","eintr_wait","stop_child"},0.7,0.05); if(r.chance(0.3)) c.setd("f.eintr_wait",0.6); if(r.chance(0.3)) c.setd("f.tool_slow",0.8); }
static map<string,int> lineCounts(const string&t){ map<string,int> m; for(auto&l:split(t,'\n')) if(l.size()>8) m[l]++; return m; }
static void runC08(const Case&c,Outcome&out){ vector<string> args=argvOf(c); Case rc=c; rc.set("prog",(i64)0); const Ref&ref=reference(rc,CSPC,"/work",args); if(!refUsable(c,out,ref,args)) return;
  simRun(c,out,[&](Sim&s){ World w(s,c); string why="cspc "+j(args); Inv*i=w.start(CSPC,"/work",args); RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; }
    for(int v:i->aliveAtExit){ Child&k=w.kids[v]; out.bad(k.exited&&k.end<i->endStep?"not_waited_for":"left_running",why+" ended while its child "+(k.execed?k.exe:"(not executed)")+" was not waited for"); }
    auto rl=lineCounts(ref.out), al=lineCounts(i->out->data); for(auto&l:rl){ auto x=al.find(l.first); if(x!=al.end()&&x->second>l.second) out.bad("duplicated_output",why+strf(": the line printed %d times: ",x->second)+esc(l.first,200)); }
    for(auto&m:s.muts){ auto k=w.kids.find(m.vpid); if(k!=w.kids.end()&&!k->second.execed) out.bad("child_side_effect",why+": a child that could not be executed did "+m.op+" on "+m.path); } for(auto&k:w.kids) if(!k.second.execed) out.probes["child_not_executed"]++; }); }
static Reg rC08({"C08",3000,80000,genC08,runC08,nullptr,"Each run builds or runs a program while waits are interrupted, tools are slow, fail, get killed or cannot be executed, and checks at cspc's exit that every child it started has ended and was waited for.",kReal,kStub,kAssume});
