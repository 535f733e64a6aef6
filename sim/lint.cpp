// L01, L02: the linter, one-shot and live, under simulated disk, editor and scheduling.
#include "comp.h"
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <algorithm>
#include "compgen.h"
static const char*LINT="/opt/csp/csp-lint";
static const vector<string> kRealL={"csp-lint (built from /repo's working tree, unmodified binary)","glibc and the dynamic linker"};
static const vector<string> kStubL={"kernel: file system, inotify, processes, clock (simulated)","the editor that changes the files (an actor of the simulator)","the shell and clear program the linter starts to clear the screen"};

static string diag(const string&o,const string&ref){ set<string> known; for(auto&l:split(ref,'\n')) known.insert(l); for(auto&l:split(o,'\n')) if(l.size()>3&&!known.count(l)) return l; return ""; }
// ---------------------------------------------------------------- L02
static string mutate(Rng&r,string s){ int n=1+r.below(3); for(int k=0;k<n&&!s.empty();k++){ size_t p=r.below(s.size()); switch(r.below(8)){ case 0: s.resize(p); break; case 1: s.erase(p,1+r.below(r.chance(0.5)?3:200)); break; case 2: s.insert(p,1,(char)(32+r.below(95))); break; case 3: { static const char*t[]={"\"","'","{","}","(",")","[","]",";","#[","]#","fn ","let ","macro ","::","!(","import ","<-","match ","0x","1.","\\","@","$","struct {","&","=>",":"}; s.insert(p,t[r.below(28)]); break; } case 4: s[p]=(char)(32+r.below(95)); break; case 5: { size_t e=s.find('\n',p); if(e!=string::npos) s.erase(p,e-p); break; } case 6: { size_t q=r.below(s.size()); size_t l=r.below(60); string x=s.substr(q,l); s.insert(p,x); break; } default: if(s[p]!='\n') s.erase(p,1); } } return s; }
static void genL02(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); g_directives=false; g_decoys=r.chance(0.4); Prog p=genProg(r,"/work",r.chance(0.5)?"prog":"main",r.chance(0.6)?0:1); c.set("valid",(i64)p.valid); c.set("kind",p.kind); if(r.chance(0.08)){ c.set("kind","special"); string&m=p.files[p.main]; switch(r.below(5)){ case 0: m=""; break; case 1: m="\n"; break; case 2: m="# only a comment"; break; case 3: p.files.erase(p.main); break; default: m="   \n\t\n"; } }
  else if(r.chance(0.25)){ c.set("kind","mutated"); auto it=p.files.begin(); std::advance(it,r.below(p.files.size())); it->second=mutate(r,it->second); }
  putFiles(c,p.files); c.set("cmd",r.chance(0.5)?p.main:p.main.substr(6)); c.ops.push_back("-p\t/std"); if(r.chance(0.3)) c.ops.push_back(r.chance(0.5)?"-v":"--verbose"); if(r.chance(0.15)) c.ops.push_back(string(r.chance(0.5)?"-o":"--output")+"\treport.txt"); if(r.chance(0.1)) c.ops.push_back("-y"); if(r.chance(0.02)){ static const char*bo[]={"-o","--output","-p","--std-path","-p\t/nonexistent","--unknown","-x","another.csp"}; c.set("valid",(i64)0); c.set("kind",string("badopt")); if(r.chance(0.1)){ c.set("cmd",string("-p\t/std")); c.ops.clear(); } else { c.set("file:/work/another.csp",string("fn main(): i32 = 0;\n")); string x=c.get("cmd"); for(auto&o:c.ops) x+="\t"+o; c.ops.clear(); c.set("cmd",x+"\t"+bo[r.below(8)]); /* not in the ops: the minimiser must not remove what makes it wrong */ } }
  else if(r.chance(0.03)&&c.get("kind")!="special"&&c.get("kind")!="mutated"&&c.par.count("file:"+p.main)){ /* the library lies where -p says */ static const char*ds[]={"altstd","./altstd","/work/altstd","altstd/../altstd"}; string m=c.get("file:"+p.main); if(m.find("std.csp")==string::npos&&p.kind.find("std")==string::npos&&p.kind.find("whole")==string::npos){ c.set("file:/work/altstd/only_here.csp",string("fn only_here(x: i32): i32 = x + 1;\n")); c.set("file:"+p.main,"import \"only_here.csp\";\nfn uses_it(x: i32): i32 = only_here(x);\n"+m); vector<string> q; for(auto&o:c.ops) if(o!="-p\t/std") q.push_back(o); c.ops=q; c.set("cmd",c.get("cmd")+(r.chance(0.5)?"\t-p\t":"\t--std-path\t")+ds[r.below(4)]); } }
  static const double rates[]={0.05,0.25,0.6}; genFaults(r,c,{"open_fail","eio_read","short_read","eintr","path_fail"},rates[r.below(3)],0.35); if(has(argvOf(c),"-o")||has(argvOf(c),"--output")) if(r.chance(0.5)) genFaults(r,c,{"eio_write","enospc"},0.3,0.0); }
static void runL02(const Case&c,Outcome&out){ vector<string> args=argvOf(c); const Ref&ref=reference(c,LINT,"/work",args); string kind=c.get("kind"); bool valid=c.geti("valid"), judged=kind!="mutated"&&kind!="special"&&kind!="nomain"; string why="csp-lint "+j(args)+" ("+(kind.empty()?"valid":kind)+")"; auto files=getFiles(c); string main=args[0][0]=='/'?args[0]:"/work/"+args[0];
  if(ref.end!=END_ALLDEAD){ out.bad("hang",why+" does not terminate"); return; } if(WIFSIGNALED(ref.status)){ out.bad("crash",why+" dies by "+statusStr(ref.status)); return; }
  if(judged){ if(!valid&&ref.status==0) out.bad("clean_verdict_invalid",why+" exits 0 although the source has an error"); if(valid&&ref.status==0&&kind.find("warn mass")!=string::npos) out.bad("clean_verdict_warnings",why+" exits 0 although it reports warnings"); if(valid&&ref.status!=0&&kind.find("warn")==string::npos) out.bad("error_on_valid",why+": "+statusStr(ref.status)+" without any fault: "+esc(ref.out+ref.err,400)); }
  if(!files.count(main)&&ref.status==0) out.bad("clean_verdict_unreadable",why+" exits 0 although the file does not exist");
  simRun(c,out,[&](Sim&s){ World w(s,c); map<string,u64> got; map<u64,u64> pos; 
    s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(t.p->exe!=LINT||ret<0) return; if(nr==SYS_read||nr==SYS_readv||nr==SYS_pread64){ FileP f=s.getF(t.p,(int)a[0]); if(f&&f->ino&&f->t==F_INODE&&files.count(f->path)){ u64 from=nr==SYS_pread64?a[3]:f->off-ret; u64&c=pos[f->id]; if(from<=c) c=std::max<u64>(c,from+ret); got[f->path]=std::max(got[f->path],c); } } else if(nr==SYS_mmap&&(int)a[4]>=0){ FileP f=s.getF(t.p,(int)a[4]); if(f&&f->ino) got[f->path]=~0ULL; } };
    Inv*i=w.start(LINT,"/work",args); RunEnd e=s.run(); string fl; for(auto&f:out.faults) fl+=" "+f.first; string why2=why+" with faults"+fl; if(e!=END_ALLDEAD){ out.bad("hang",why2+strf(" did not end (%d)",(int)e)); return; }
    if(WIFSIGNALED(i->status)){ out.bad("crash",why2+": died by "+statusStr(i->status)); return; } string report; s.readFile("/work/report.txt",report); string all=i->out->data+i->err->data+report;
    if(i->status==0){ out.probes["exit0"]++; if(ref.status!=0) out.bad("clean_verdict_invalid",why2+" exits 0 although the fault-free verdict is "+statusStr(ref.status)); if(judged&&!valid) out.bad("clean_verdict_invalid",why2+" exits 0 although the source has an error"); if(judged) for(auto&f:files) if(!isPrefix("# elsewhere\n",f.second)&&f.second.size()>got[f.first]) out.bad("clean_verdict_unread",why2+strf(" exits 0 although only %llu of %zu bytes of %s were read",(unsigned long long)got[f.first],f.second.size(),f.first.c_str())); }
    else { out.probes["exit_nonzero"]++; bool wf=out.faults.count("eio_write")||out.faults.count("enospc"); if(!wf&&(ref.status==0?diag(all,ref.out+"\n"+ref.err).empty():all.size()<8)) out.bad("no_diagnostic",why2+": "+statusStr(i->status)+" without a diagnostic: "+esc(all,300)); if(out.faults.empty()&&ref.status==0) out.bad("error_on_valid",why2+": "+statusStr(i->status)); } }); }
static Reg rL02({"L02",9000,300000,genL02,runL02,nullptr,"Each run lints a generated program (valid, with one of nine kinds of error, textually mutated, empty or missing; with modules and std imports) while opens and reads of its files fail, are cut short or interrupted.",kRealL,kStubL,kAssume});

// ---------------------------------------------------------------- L01
// The editor's plan is in the ops: "KIND<tab>file<tab>delay in microseconds<tab>content"
//  KIND: trunc (truncate, then write in pieces), replace (write a temporary file, rename it over), over (overwrite in place, then cut), append
static string lastReport(const string&o){ return o; }
static string stripAnsi(const string&t){ string o; for(size_t k=0;k<t.size();k++){ if(t[k]=='\033'&&k+1<t.size()&&t[k+1]=='['){ k+=2; while(k<t.size()&&!isalpha((u8)t[k])) k++; continue; } if(t[k]=='\r') continue; o+=t[k]; } return o; }
// the diagnostics of a report: its lines without colours, without progress messages and summaries
static vector<string> reportLines(const string&t){ vector<string> r; for(auto l:split(stripAnsi(t),'\n')){ while(!l.empty()&&l.back()==' ') l.pop_back(); size_t p=l.find("[Error]"); if(p!=string::npos&&l.find("Compiling")!=string::npos) l=l.substr(p); if(l.empty()||l.find("All good")!=string::npos||l.find("Clear")!=string::npos||l.find("  Compiling")!=string::npos) continue; if(isPrefix("In ",l)&&l.back()==58) continue; if(isPrefix("summary:",l)||isPrefix("errors:",l)||isPrefix("warnings:",l)) continue; /* names the compiler invents carry a serial number that counts on through a session */ for(size_t q=0;(q=l.find("__csp_",q))!=string::npos;q++){ size_t e=q; while(e<l.size()&&(isalnum((u8)l[e])||l[e]=='_')) e++; string n; for(size_t k=q;k<e;k++) if(!isdigit((u8)l[k])) n+=l[k]; l=l.substr(0,q)+n+l.substr(e); } r.push_back(l); } return r; }
static void genL01(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); g_directives=false; c.setd("pswitch",r.chance(0.3)?0.05:r.chance(0.5)?0.3:0.7); Prog p=genProg(r,"/work","main",r.chance(0.7)?0:1); while(p.files[p.main].size()>30000) p=genProg(r,"/work","main",0); if(p.kind=="noimport") p=genProg(r,"/work","main",0); putFiles(c,p.files); c.set("main",p.main); c.set("tty",(i64)r.chance(0.5)); c.set("verbose",(i64)r.chance(0.25));
  vector<string> names; for(auto&f:p.files) names.push_back(f.first); int n=1+r.below(r.chance(0.3)?7:3); map<string,string> cur=p.files; 
  for(int k=0;k<n;k++){ string f=r.chance(0.5)?p.main:names[r.below(names.size())]; string content=cur[f]; switch(r.below(8)){ case 6: case 7: { vector<size_t> at; for(size_t q=0;(q=content.find("i32",q))!=string::npos;q++) at.push_back(q); if(!at.empty()) content[at[r.below(at.size())]+2]='q'; else content="fn main(): i32 { <- 1; }\n"; break; } case 0: content+="fn added"+std::to_string(k)+"(x: i32): i32 { <- x + "+std::to_string(k)+"; }\n"; break; case 1: content+="fn bad"+std::to_string(k)+"(): i32 { <- undefined_name_"+std::to_string(k)+"; }\n"; break; case 2: content=p.files[f]; break; case 3: content=f==p.main?"fn main(): i32 { <- "+std::to_string(k)+"; }\n":"fn other"+std::to_string(k)+"(): i32 { <- 2; }\n"; break; case 4: content+="fn broken"+std::to_string(k)+"(: {\n"; break; default: content="# comment "+std::to_string(k)+"\n"+content; } 
    if(r.chance(0.06)) content=""; cur[f]=content; static const char*kinds[]={"trunc","trunc","replace","over","append"}; string kind=kinds[r.below(5)]; if(kind=="append"&&!isPrefix(p.files[f],content)) kind="trunc"; u64 delay=r.chance(0.4)?r.below(3000):r.chance(0.5)?r.below(200000):r.below(5000000); c.ops.push_back(kind+"\t"+f+"\t"+std::to_string(delay)+"\t"+content); } }
struct Editor { Sim&s; vector<vector<string>> plan; size_t i=0; u64 next=0; int stage=0; vector<string> pieces; InodeP node; string tmp; u64 lastEditStep=0; map<string,string> finalc;
  void cut(const string&d,Rng&r){ pieces.clear(); size_t o=0; while(o<d.size()){ size_t k=r.chance(0.5)?d.size()-o:1+r.below(d.size()-o); if(pieces.size()>6) k=d.size()-o; pieces.push_back(d.substr(o,k)); o+=k; } }
  bool ready(){ return i<plan.size()&&s.now>=next; }
  void step(){ auto&o=plan[i]; const string&kind=o[0],&f=o[1],&d=o[3]; Rng r(hstr(f)^i^s.c.seed^stage*77); lastEditStep=s.stepNo; 
    auto fin=[&]{ if(node) s.notify(node,IN_CLOSE_WRITE); finalc[f]=d; i++; stage=0; node=nullptr; if(i<plan.size()) next=s.now+strtoull(plan[i][2].c_str(),0,10)*1000; s.out.probes["edits"]++; };
    auto write=[&](const string&x){ string&w=node->wcontent(); w+=x; node->mtime=s.realtime()/1000000000; s.notify(node,IN_MODIFY); };
    if(stage==0){ if(kind=="trunc"){ node=s.lookup(f); if(!node){ fin(); return; } node->wcontent(); node->data=make_shared<string>(); s.notify(node,IN_MODIFY); cut(d,r); stage=1; }
      else if(kind=="replace"){ size_t sl=f.rfind('/'); tmp=f.substr(0,sl)+"/.tmp~"; InodeP par=s.lookup(f.substr(0,sl)); auto nn=s.newInode(IT_REG); nn->data=make_shared<string>(d); InodeP old=s.lookup(f); string nm=f.substr(sl+1); par->ents[nm]=nn; if(old){ old->nlink--; s.notify(old,IN_ATTRIB); bool open=false; for(auto q:s.procs) for(auto&fe:q->fds) if(fe.second.f&&fe.second.f->ino==old) open=true; if(!open){ s.notify(old,IN_DELETE_SELF); s.notify(old,IN_IGNORED); } } fin(); return; }
      else if(kind=="over"){ node=s.lookup(f); if(!node){ fin(); return; } string old=node->content(); size_t h=r.below(d.size()+1); string x=d.substr(0,h)+(old.size()>h?old.substr(h):string()); node->wcontent()=x; s.notify(node,IN_MODIFY); stage=50; }
      else { node=s.lookup(f); if(!node){ fin(); return; } string old=node->content(); if(isPrefix(old,d)){ cut(d.substr(old.size()),r); stage=1; } else { node->wcontent()=""; s.notify(node,IN_MODIFY); cut(d,r); stage=1; } }
      next=s.now+r.below(r.chance(0.5)?2000000:300000000); if(stage==1&&pieces.empty()) fin(); return; }
    if(stage==50){ node->wcontent()=d; s.notify(node,IN_MODIFY); fin(); return; }
    write(pieces.front()); pieces.erase(pieces.begin()); if(pieces.empty()) fin(); else next=s.now+r.below(r.chance(0.5)?2000000:300000000); } };
static void runL01(const Case&c,Outcome&out){ string main=c.get("main"); bool verbose=c.geti("verbose"); vector<string> common={"-p","/std"}; if(verbose) common.push_back("-v"); 
  Case fin=c; vector<vector<string>> plan; for(auto&o:c.ops){ auto p=split(o,'\t'); if(p.size()<4) continue; for(size_t k=4;k<p.size();k++) p[3]+="\t"+p[k]; plan.push_back(p); } 
  map<string,string> last; for(auto&p:plan) last[p[1]]=p[3]; for(auto&l:last) fin.set("file:"+l.first,l.second); vector<string> la={main}; la.insert(la.end(),common.begin(),common.end()); const Ref&ref=reference(fin,LINT,"/work",la); if(ref.end!=END_ALLDEAD||WIFSIGNALED(ref.status)){ out.bad("crash","one-shot csp-lint of the final files: "+statusStr(ref.status)); return; }
  simRun(c,out,[&](Sim&s){ World w(s,c); Editor ed{s,plan}; if(!plan.empty()) ed.next=strtoull(plan[0][2].c_str(),0,10)*1000; auto a=s.actor("editor"); a->ready=[&]{ return ed.ready(); }; a->step=[&]{ ed.step(); }; a->wakeAt=[&]{ return ed.i<ed.plan.size()?ed.next:~0ULL; };
    vector<string> args={main,"-l","-y"}; args.insert(args.end(),common.begin(),common.end()); Inv*i=nullptr; size_t markO=0,markE=0; u64 lints=0; 
    // a report begins when the screen is cleared, by whichever process
    auto scan=[&]{ size_t p=i->out->data.rfind("\033[2J"); if(p!=string::npos&&p+4>markO){ markO=p+4; markE=i->err->data.size(); out.probes["clears"]++; } };
    { auto em=s.execMap; s.execMap=[em](const string&f,Proc&p)->string{ string b=f.substr(f.rfind(47)+1); if(b=="sh"||b=="dash"||b=="bash"||b=="clear"||b=="tput") return g_build+"/bin/clr"; return em(f,p); }; }
    s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(!i) return; if(nr==SYS_write||nr==SYS_writev) scan(); if(t.p!=i->p||ret<0||(nr!=SYS_openat&&nr!=SYS_open)) return; FileP f=s.getF(t.p,(int)ret); if(f&&f->path==main&&(f->flags&O_ACCMODE)==O_RDONLY){ lints++; } };
    i=w.start(LINT,"/work",args); RunEnd e=s.run(); string why="live csp-lint after "+std::to_string(plan.size())+" edits"; out.probes["lints"]+=lints;
    if(e==END_STEPS||e==END_SPIN){ out.bad("no_quiescence",why+" does not come to rest"); return; }
    if(i->ended){ out.bad("session_ended",why+": the session ended with "+statusStr(i->status)+": "+esc(i->out->data.substr(markO)+i->err->data.substr(markE),300)); return; }
    string txt=i->out->data.substr(markO)+"\n"+i->err->data.substr(markE); vector<string> got=reportLines(txt), want=reportLines(ref.out+"\n"+ref.err); bool clean=txt.find("All good")!=string::npos; bool refErr=(ref.out+ref.err).find("thrown during code validation; aborting")!=string::npos||(verbose&&ref.err.find("error: ")!=string::npos);
    // the screen-clearing child may print control sequences in front of the first line
    if(!got.empty()&&!want.empty()){ size_t k=got[0].find(want[0]); if(k!=string::npos&&k>0) got[0]=got[0].substr(k); }
    if(clean==refErr||got!=want) out.bad("stale_report",why+" ends with the report ["+esc(j(got,"|"),500)+"] ("+(clean?"clean":"not clean")+") but a one-shot lint of the final files says ["+esc(j(want,"|"),500)+"]"); }); }
static Reg rL01({"L01",5000,150000,genL01,runL01,nullptr,"Each run starts a live session on a generated program and lets a simulated editor change the main file or its modules one to seven times (truncate and rewrite in pieces, overwrite in place, append, atomic replace; valid, invalid or empty content) at random moments relative to every system call of the linter.",kRealL,kStubL,kAssume});

// ---------------------------------------------------------------- L03
// A live session that is interrupted. Ops: edits as above, and "int<tab>MODE<tab>N<tab>M":
//  (the last field is a number of instructions: mode instr interrupts so many instructions after the N-th system call)
//  MODE sys: the N-th system call of the linter counted from the time this interrupt is due; idle: N microseconds after the linter came to rest
static void genL03(Rng&r,Case&c,bool th,u64 idx){ genL01(r,c,th,idx); vector<string> ed=c.ops; c.ops.clear(); size_t keep=r.chance(0.4)?0:r.below(std::min<size_t>(ed.size(),3)+1); for(size_t k=0;k<keep&&k<ed.size();k++) c.ops.push_back(ed[k]); int n=1+r.below(r.chance(0.3)?4:2); bool yes=r.chance(0.35); string ans; 
  for(int k=0;k<n;k++){ string mode=r.chance(0.5)?"sys":r.chance(0.6)?"instr":"idle"; u64 v=mode!="idle"?(r.chance(0.85)?r.below(110):r.below(400)):r.below(3000000); c.ops.push_back("int\t"+mode+"\t"+std::to_string(v)+"\t"+std::to_string(mode=="instr"?1+r.below(1ULL<<(2+r.below(14))):0)); ans+=k+1==n&&r.chance(0.6)?(r.chance(0.7)?"y\n":r.chance(0.5)?"yes\n":r.chance(0.5)?"Y\n":"\nq\ny\n"):(r.chance(0.8)?"n\n":r.chance(0.5)?"no\n":r.chance(0.5)?"N\n":"\nx\nn\n"); } 
  if(r.chance(0.5)) std::reverse(c.ops.begin(),c.ops.end()); c.set("yes",(i64)yes); if(r.chance(0.1)) ans=""; c.set("answers",ans); }
static vector<bool> answersOf(const string&a){ vector<bool> v; for(char ch:a) if(ch=='y'||ch=='Y') v.push_back(true); else if(ch=='n'||ch=='N') v.push_back(false); return v; }
static void runL03(const Case&c,Outcome&out){ string main=c.get("main"); bool verbose=c.geti("verbose"), yes=c.geti("yes"); vector<string> common={"-p","/std"}; if(verbose) common.push_back("-v"); vector<bool> ans=answersOf(c.get("answers"));
  Case fin=c; vector<vector<string>> plan, ints; for(auto&o:c.ops){ auto p=split(o,'\t'); if(p.size()<4) continue; if(p[0]=="int"){ ints.push_back(p); continue; } for(size_t k=4;k<p.size();k++) p[3]+="\t"+p[k]; plan.push_back(p); }
  map<string,string> last; for(auto&p:plan) last[p[1]]=p[3]; for(auto&l:last) fin.set("file:"+l.first,l.second); vector<string> la={main}; la.insert(la.end(),common.begin(),common.end()); const Ref&ref=reference(fin,LINT,"/work",la); if(ref.end!=END_ALLDEAD||WIFSIGNALED(ref.status)){ out.bad("crash","one-shot csp-lint of the final files: "+statusStr(ref.status)); return; }
  simRun(c,out,[&](Sim&s){ World w(s,c); Editor ed{s,plan}; if(!plan.empty()) ed.next=strtoull(plan[0][2].c_str(),0,10)*1000; auto a=s.actor("editor"); a->ready=[&]{ return ed.ready(); }; a->step=[&]{ ed.step(); }; a->wakeAt=[&]{ return ed.i<ed.plan.size()?ed.next:~0ULL; };
    vector<string> args={main,"-l"}; if(yes) args.push_back("-y"); args.insert(args.end(),common.begin(),common.end()); Inv*i=nullptr; size_t markO=0,markE=0; 
    auto scan=[&]{ size_t p=i->out->data.rfind("\033[2J"); if(p!=string::npos&&p+4>markO){ markO=p+4; markE=i->err->data.size(); } };
    { auto em=s.execMap; s.execMap=[em](const string&f,Proc&p)->string{ string b=f.substr(f.rfind(47)+1); if(b=="sh"||b=="dash"||b=="bash"||b=="clear"||b=="tput") return g_build+"/bin/clr"; return em(f,p); }; }
    // the user at the terminal: an interrupt reaches every process in the foreground. The next one is not sent before the
    // linter has come to rest after the previous one, and none while the program has said that it ignores them
    size_t k=0; bool armed=false; u64 from=0, idleAt=0, notBefore=0; bool quietSent=false; string sentAt; auto idle=[&]{ for(auto t:i->p->tasks) if(t->st!=T_DEAD&&(t->st!=T_BLOCKED||t->deadline!=~0ULL||(t->ready&&t->ready()))) return false; for(auto p:s.procs) if(p!=i->p&&!p->zombie) return false; return true; };
    s.sysPost=[&](Task&t,int nr,u64*,long){ if(!i) return; if(nr==SYS_write||nr==SYS_writev) scan(); if(!from&&t.p==i->p&&i->p->sa[2].handler>1) from=i->p->nsys; if(t.p!=i->p||armed||k>=ints.size()||ints[k][1]!="instr"||i->p->sa[2].handler<=1||!from||s.now<notBefore||(k>0&&!idleAt)||i->p->nsys<from+strtoull(ints[k][2].c_str(),0,10)) return; armed=true; s.stepProc=i->p; s.stepNext=strtoull(ints[k][3].c_str(),0,10); };
    auto u=s.actor("user"); 
    u->ready=[&]{ if(!i||i->ended||k>=ints.size()||i->p->zombie||(i->p->sa[2].handler<=1&&!(k>0&&idle()))) return false; if(!from||s.now<notBefore) return false; if(k>0&&!idleAt){ if(!idle()) return false; idleAt=s.now; from=i->p->nsys; } u64 n=strtoull(ints[k][2].c_str(),0,10); if(ints[k][1]!="idle"){ if(idle()&&ed.i>=ed.plan.size()) return true; if(ints[k][1]=="instr") return armed&&!s.stepNext; return i->p->nsys>=from+n; } if(!idleAt){ if(!idle()) return false; idleAt=s.now; } return s.now>=idleAt+n*1000; };
    u->wakeAt=[&]()->u64{ if(!i||i->ended||k>=ints.size()||i->p->zombie||(i->p->sa[2].handler<=1&&!(k>0&&idle()))) return ~0ULL; if(s.now<notBefore) return notBefore; if(ints[k][1]=="idle"&&idleAt){ u64 t=idleAt+strtoull(ints[k][2].c_str(),0,10)*1000; if(t>s.now) return t; } return ~0ULL; };
    u->step=[&]{ quietSent=idle()&&ed.i>=ed.plan.size()&&!ed.node; sentAt=strf("after %llu system calls of the linter%s",(unsigned long long)i->p->nsys,quietSent?", which is at rest":""); out.probes[idle()?"interrupt_at_rest":"interrupt_busy"]++; auto ps=s.procs; for(auto p:ps) if(!p->zombie) s.sendSig(p,2); k++; idleAt=0; armed=false; s.stepNext=0; from=i->p->nsys; notBefore=s.now+1000000ULL; };
    i=w.start(LINT,"/work",args,s.script(c.get("answers"))); RunEnd e=s.run(); out.probes["interrupts"]+=k;
    bool quit=k>0&&yes; for(size_t q=0;q<k&&q<ans.size();q++) if(ans[q]) quit=true; string why=strf("live csp-lint%s interrupted %zu times (answers %s), the last time ",yes?" -y":"",k,esc(c.get("answers"),40).c_str())+sentAt;
    if(e==END_STEPS||e==END_SPIN){ out.bad("no_quiescence",why+": does not come to rest"); return; }
    string all=i->out->data+i->err->data; if(i->ended&&WIFSIGNALED(i->status)){ out.bad("crash",why+": died by "+statusStr(i->status)+": "+esc(all.substr(all.size()>300?all.size()-300:0),300)); return; }
    if(!quit){ if(i->ended){ out.bad("session_ended",why+": the session ended with "+statusStr(i->status)+" although nobody confirmed that: "+esc(all.substr(all.size()>300?all.size()-300:0),300)); return; } out.probes["session_continued"]++; }
    else { if(!i->ended){ out.bad("not_ended",why+": the session goes on although that was confirmed"); return; } if(i->status!=0){ out.bad("exit_status",why+": the session ended with "+statusStr(i->status)+": "+esc(all.substr(all.size()>300?all.size()-300:0),300)); return; } out.probes["session_quit"]++; }
    auto count=[&](const string&t,const string&x){ size_t n=0; for(size_t q=0;(q=t.find(x,q))!=string::npos;q+=x.size()) n++; return n; }; auto sums=[&](const string&t){ string r; size_t q=t.rfind("errors: "); if(q==string::npos) return r; for(auto&l:split(t.substr(q),'\n')){ if(isPrefix("errors: ",l)||isPrefix("warnings: ",l)) r+=l+" "; else break; } return r; };
    if(quit){ if(count(i->err->data,"summary:")!=1){ out.bad("summary",why+strf(": the summary is printed %zu times when the session ends: ",count(i->err->data,"summary:"))+esc(i->err->data.substr(markE),300)); return; } if(quietSent&&k==ints.size()&&sums(i->err->data)!=sums(ref.err)){ out.bad("summary",why+": the summary says ["+sums(i->err->data)+"] but a one-shot lint of the same files says ["+sums(ref.err)+"]"); return; } if(!quietSent) return; }
    // the report on the screen is the one of the final files, wherever the interruption fell
    auto cutPrompts=[](string t){ for(size_t q;(q=t.find("/\033[1;31mn\033[0m]: "))!=string::npos||(q=t.find("]: "))!=string::npos;){ size_t b=t.rfind('\r',q); if(b==string::npos) break; size_t e=t.find("]: ",q)+3; t.erase(b,e-b); } return t; };
    string txt=cutPrompts(i->out->data.substr(markO))+"\n"+i->err->data.substr(markE); vector<string> got=reportLines(txt), want=reportLines(ref.out+"\n"+ref.err); bool clean=txt.find("All good")!=string::npos; bool refErr=(ref.out+ref.err).find("thrown during code validation; aborting")!=string::npos||(verbose&&ref.err.find("error: ")!=string::npos);
    if(!got.empty()&&!want.empty()){ size_t q=got[0].find(want[0]); if(q!=string::npos&&q>0) got[0]=got[0].substr(q); }
    if(clean==refErr||got!=want) out.bad("stale_report",why+" ends with the report ["+esc(j(got,"|"),500)+"] ("+(clean?"clean":"not clean")+") but a one-shot lint of the final files says ["+esc(j(want,"|"),500)+"]"); }); }
static Reg rL03({"L03",4000,100000,genL03,runL03,nullptr,"Each run interrupts a live session one to four times at random system calls of the linter - while it reads, lints, reports, tears the previous state down or rests - with the prompt answered by yes, no or nonsense, while the simulated editor changes the files.",kRealL,kStubL,kAssume});
