// The compiler under simulation: worlds, programs, reference runs.
#include "comp.h"
#include <fcntl.h>
#include <dirent.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <algorithm>
const vector<string> kFileFaults={"short_read","short_write","eintr","eio_read","eio_write","enospc","close_fail","open_fail"};
string statusStr(int st){ if(st<0) return "running"; if(WIFEXITED(st)) return strf("exit %d",WEXITSTATUS(st)); if(WIFSIGNALED(st)) return strf("signal %d",WTERMSIG(st)); return strf("%x",st); }
void putFiles(Case&c,const map<string,string>&f){ for(auto&k:f) c.set("file:"+k.first,k.second); }
map<string,string> getFiles(const Case&c){ map<string,string> m; for(auto&k:c.par) if(isPrefix("file:",k.first)) m[k.first.substr(5)]=k.second; return m; }
bool argAfter(const vector<string>&a,const string&k,string&v){ bool f=false; for(size_t i=0;i+1<a.size();i++){ if(a[i]=="--") break; if(a[i]==k){ v=a[i+1]; f=true; } } return f; }
static string baseName(const string&p){ size_t i=p.rfind('/'); return i==string::npos?p:p.substr(i+1); }
static string absPath(const string&cwd,const string&p){ string q=!p.empty()&&p[0]=='/'?p:cwd+"/"+p; vector<string> v; for(auto&x:split(q,'/')){ if(x.empty()||x==".") continue; if(x==".."){ if(!v.empty()) v.pop_back(); continue; } v.push_back(x); } string o; for(auto&x:v) o+="/"+x; return o; }

World::World(Sim&s,const Case&c):s(s),c(c){ bool real=c.get("tool")=="real"; s.pSwitch=c.getd("pswitch",0.1); if(c.par.count("pid0")) s.nextPid=c.geti("pid0",100); if(c.par.count("wall")) s.wallBase=(u64)c.geti("wall")*1000000000ULL; s.maxSteps=c.geti("maxsteps",400000);
  s.mountHost("/opt/csp/cspc",g_build+"/bin/cspc"); s.mountHost("/opt/csp/csp-lint",g_build+"/bin/csp-lint"); s.mkdirp(home); if(c.geti("nocache",0)==0) s.mkdirp(home+"/.cache"); if(c.geti("nocache",0)==0&&c.geti("nocspdir",0)==0&&c.get("mode")!="clear") s.mkdirp(home+"/.cache/cspydr"); s.lookup(home)->uid=1000;
  s.mkdirp("/work/sub"); s.mkdirp("/work/o");
  for(auto&f:getFiles(c)) s.mkfile(f.first,f.second); 
  s.execMap=[real](const string&full,Proc&)->string{ string b=full.substr(full.rfind('/')+1); auto ends=[&](const string&x){ return b==x||(b.size()>x.size()&&b.compare(b.size()-x.size()-1,x.size()+1,"-"+x)==0); }; if(ends("as")||ends("ld")||ends("ld.bfd")){ if(!real) return g_build+"/bin/tool"; return ""; } if(ends("gcc")||ends("gcc-13")||ends("cc")||ends("clang")||b=="cc"||(b=="cp"&&!real)) return g_build+"/bin/tool"; return ""; };
  s.onSpawn=[this](Proc&p){ if(!p.root){ Child k; k.vpid=p.vpid; k.parent=p.ppid; k.exe=p.exe; k.start=this->s.stepNo; kids[p.vpid]=k; } };
  s.onExec=[this](Proc&p,ExecRec&e){ auto it=kids.find(p.vpid); if(it==kids.end()) return; Child&k=it->second; k.exe=e.path; k.argv=e.argv; k.execed=true; k.execStep=this->s.stepNo; 
    // what the tool was handed: the content of each of its input files at this moment
    for(size_t i=1;i<e.argv.size();i++){ const string&a=e.argv[i]; if(a=="-o"){ i++; continue; } if(a.empty()||a[0]=='-') continue; string d; if(!isPrefix("/",a)&&a.find('.')==string::npos) continue; string pa=a[0]=='/'?a:p.cwdPath+"/"+a; InodeP n=this->s.lookup(pa); if(n&&!n->host&&n->type==IT_REG&&(pa.size()>2)){ string ext=pa.substr(pa.size()-2); if(ext==".s"||ext==".c"||ext==".o") k.handed[baseName(e.argv[0])+":"+a]=n->content(); } } if(onToolExec) onToolExec(k); };
  s.onExit=[this](Proc&p){ auto it=kids.find(p.vpid); if(it!=kids.end()){ it->second.exited=true; it->second.status=p.status; it->second.end=this->s.stepNo; } for(auto i:invs) if(i->p==&p){ i->status=p.status; i->ended=true; i->endStep=this->s.stepNo; for(auto q:this->s.procs) if(q->ppid==p.vpid&&(!q->reaped)) i->aliveAtExit.push_back(q->vpid); } };
  s.hyper=[this](Task&t,u64 op,u64 a,u64 b,u64,u64)->long{ Sim&s=this->s; if(op==1){ if(t.retry) return 0; if(s.fault(t,"tool_exit",t.p->exe)){ static const int m[]={1,2,6,7}; toolFaults++; return m[s.param("tool_exit.kind",t.p->vpid,4)]; } if(s.fault(t,"tool_kill",t.p->exe)){ toolFaults++; return 5; } if(s.fault(t,"tool_slow",t.p->exe)) return 3+s.param("tool_slow.kind",t.p->vpid,2); return 0; }
    if(op==2){ return (long)this->c.geti("prog",0); }
    if(op==3){ if(t.retry) return 0; t.deadline=s.now+1000000ULL*(1+s.param("tool_slow.ms",t.p->vpid,5000)); t.ready=nullptr; return SYS_BLOCK; }
    if(op==4){ static const int sg[]={9,11,6,15}; s.procExit(t.p,sg[s.param("tool_kill.sig",t.p->vpid,4)]); return SYS_GONE; } return 0; };
  // faults only in the programs under test, and only on files a user or the compiler owns
  s.fc.filter=[](Task&t,const char*kind,const string&obj){ bool own=t.p->exe=="/opt/csp/cspc"||t.p->exe=="/opt/csp/csp-lint"; if(isPrefix("tool_",kind)||!strcmp(kind,"kill_child")||!strcmp(kind,"stop_child")) return true; if(!own) return false; if(!strcmp(kind,"exec_fail")||!strcmp(kind,"fork_fail")||!strcmp(kind,"eintr_wait")||!strcmp(kind,"enomem")) return true; return isPrefix("/home",obj)||isPrefix("/work",obj)||isPrefix("/std",obj); };
}
Inv* World::start(const string&exe,const string&cwd,const vector<string>&args,FileP in){ auto i=new Inv; i->args=args; i->cwd=cwd; vector<string> av={exe.substr(exe.rfind('/')+1)}; av.insert(av.end(),args.begin(),args.end()); vector<string> env={"HOME="+home,"PATH=/usr/local/bin:/usr/bin:/bin:/opt/csp","LANG=C"}; for(auto&k:c.par) if(isPrefix("env:",k.first)) env.push_back(k.first.substr(4)+"="+k.second); FileP o=s.capture(i->out,"stdout"), e=s.capture(i->err,"stderr"); if(c.geti("tty",0)){ i->out->tty=true; } i->p=s.spawn(exe,av,env,cwd,in?in:s.devnull(),o,e); invs.push_back(i); return i; }
Inv* World::invOf(int v){ for(auto i:invs) if(i->p->vpid==v) return i; auto it=kids.find(v); if(it!=kids.end()) return invOf(it->second.parent); return nullptr; }
vector<Child*> World::kidsOf(int v,bool all){ vector<Child*> r; for(auto&k:kids) if(k.second.parent==v||(all&&invOf(k.first)&&invOf(k.first)->p->vpid==v)) r.push_back(&k.second); return r; }
string World::target(const Inv&i){ auto a=i.args; if(a.size()>2&&a[0]=="shell") a.resize(2); string o; bool given=argAfter(a,"-o",o)||argAfter(a,"--output",o); if(!given){ o=a.size()>1?a[1]:""; size_t sl=o.rfind('/'); sl=sl==string::npos?0:sl+1; size_t d=o.rfind('.'); if(d!=string::npos&&d>sl) o=o.substr(0,d); o+=!a.empty()&&a[0]=="lib"?".so":".out"; } auto has=[&](const char*f){ for(auto&x:a){ if(x=="--") break; if(x==f) return true; } return false; }; string b; argAfter(a,"-b",b); for(auto&ch:b) ch=tolower(ch); if(has("-S")){ return i.cwd+"/"+baseName(o)+(b=="c"?".c":".s"); } if(has("-c")){ return absPath(i.cwd,o)+".o"; } return absPath(i.cwd,o); }

static map<u64,Ref> g_refs;
const Ref& reference(const Case&c,const string&exe,const string&cwd,const vector<string>&args,const string&in){ u64 h=hstr(exe+"|"+cwd+"|"+j(args,"|")+"|"+in+c.get("tool")+c.get("prog")+c.get("nocache")+c.get("nocspdir")); for(auto&k:c.par) if(isPrefix("file:",k.first)) h=hstr(k.first+"="+k.second,h); auto it=g_refs.find(h); if(it!=g_refs.end()) return it->second; if(g_refs.size()>3000) g_refs.clear();
  Case rc; rc.prop=c.prop; rc.forced=true; for(auto&k:c.par) if(isPrefix("file:",k.first)||k.first=="tool"||k.first=="prog"||k.first=="nocache"||k.first=="nocspdir") rc.par[k.first]=k.second; rc.set("pswitch",string("0")); Outcome o; Ref r; 
  Sim s(rc,o); s.boot(); World w(s,rc); map<string,string> handed; w.onToolExec=[&](Child&k){ for(auto&x:k.handed) r.handed[x.first]=x.second; }; Inv*i=w.start(exe,cwd,args,in.empty()?nullptr:s.script(in)); r.end=s.run([&]{ return false; }); r.status=i->status; r.out=i->out->data; r.err=i->err->data; r.files=s.snapshot("/work"); auto h2=s.snapshot("/home"); r.files.insert(h2.begin(),h2.end()); r.ok=r.end==END_ALLDEAD; s.killAll(); return g_refs[h]=r; }

// ---------------------------------------------------------------- programs
// committed snippets: language features, errors, whole programs (copied next to the simulator by build.sh)
using std::pair;
struct Corpus { vector<pair<string,string>> blocks, invalid, valid, bad; 
  static string slurp(const string&p){ string d; FILE*f=fopen(p.c_str(),"r"); if(!f) return d; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) d.append(b,n); fclose(f); return d; }
  static void records(const string&p,vector<pair<string,string>>&v){ string d="\n"+slurp(p); size_t i=0; while((i=d.find("\n## ",i))!=string::npos){ size_t e=d.find('\n',i+1); size_t n=d.find("\n## ",e); if(e==string::npos) break; v.push_back({d.substr(i+4,e-i-4),d.substr(e+1,(n==string::npos?d.size():n+1)-e-1)}); i=n==string::npos?d.size():n; } }
  static void dir(const string&p,vector<pair<string,string>>&v){ DIR*x=opendir(p.c_str()); if(!x) return; while(auto e=readdir(x)){ string n=e->d_name; if(n.size()>4&&n.substr(n.size()-4)==".csp") v.push_back({n,slurp(p+"/"+n)}); } closedir(x); std::sort(v.begin(),v.end()); }
  Corpus(){ string b=g_build+"/corpus"; records(b+"/blocks.txt",blocks); records(b+"/invalid.txt",invalid); dir(b+"/valid",valid); dir(b+"/bad",bad); if(blocks.empty()||invalid.empty()||valid.empty()||bad.empty()){ fprintf(stderr,"corpus missing in %s\n",b.c_str()); exit(2); } } };
static const Corpus& corpus(){ static Corpus c; return c; }
static string replaceAll(string t,char ch,const string&by){ string o; for(char x:t) if(x==ch) o+=by; else o+=x; return o; }
static string fnBlock(Rng&r,const string&nm){ string n=nm; if(r.chance(0.45)){ auto&b=corpus().blocks; return replaceAll(replaceAll(b[r.below(b.size())].second,'@',n),'`',"@"); } switch(r.below(8)){
  case 0: return "fn "+n+"(a: i32, b: i32): i32 {\n    let s: i32 = "+std::to_string(r.below(100))+";\n    for let i = 0; i < a; i += 1; { s += b; if s > 100 { <- s; } }\n    while s > 7 { s -= 3; }\n    do { s += 1; } while s < 5;\n    <- s;\n}\n";
  case 1: return "type P_"+n+": struct { a: i32, b: u64 };\nfn "+n+"(x: i32, y: i32): i32 { let p = P_"+n+"::{ x, 3 }; match p.a { 1 => { x += 1; } _ => { x += "+std::to_string(r.below(50))+"; } } <- x + y; }\n";
  case 2: return "namespace ns_"+n+" { const k: i32 = "+std::to_string(r.below(1000))+"; fn f(x: i32): i32 = x * k; }\nfn "+n+"(x: i32, y: i32): i32 { <- ns_"+n+"::f(x) + y; }\n";
  case 3: return "macro M_"+n+"(x) { ((x) * (x) + "+std::to_string(r.below(9))+") }\nfn "+n+"(x: i32, y: i32): i32 { <- M_"+n+"!(x) + y; }\n";
  case 4: return "type E_"+n+": enum { A, B, C };\nlet g_"+n+": i32 = 0;\nfn "+n+"(x: i32, y: i32): i32 { g_"+n+" += 1; <- x + E_"+n+"::B + y; }\n";
  case 5: return "fn "+n+"(x: i32, y: i32): i32 { let arr: i32[4] = [1, 2, "+std::to_string(r.below(90))+", 4]; <- arr[2] + x + y; }\n";
  case 6: return "fn "+n+"(x: i32, y: i32): i32 { let f: f64 = "+std::to_string(r.below(90))+".5; let s: &i8 = \"str "+std::to_string(r.below(1000))+"\\n\"; <- (f: i32) + x + y; }\n";
  default: return "const c_"+n+": i32 = "+std::to_string(r.below(5000))+";\nfn "+n+"(x: i32, y: i32): i32 { <- if x > y => x else c_"+n+"; }\n"; } }
static string pad(Rng&r,size_t n){ string s; while(s.size()<n){ string l="# "; size_t k=10+r.below(90); for(size_t i=0;i<k;i++) l+=(char)('a'+r.below(26)); s+=l+"\n"; } return s; }
bool g_directives=false, g_decoys=false;
bool madeByDirective(const string&path){ string b=baseName(path); return isPrefix("ext_",b)&&(b.find("_made")!=string::npos); }
Prog genProg(Rng&r,const string&dir,const string&name,int want){ Prog p; p.main=dir+"/"+name+(r.chance(0.94)?".csp":""); bool bad=want==1||(want<0&&r.chance(0.25)); p.valid=!bad; string m; int nm=r.below(4)==0?r.range(1,r.chance(0.2)?9:3):0; vector<string> fns; string imports; string tag=string(1,(char)('a'+r.below(26)))+std::to_string(r.below(100));
  for(int i=0;i<nm;i++){ string mn="mod"+std::to_string(i)+tag; string path=r.chance(0.3)?"sub/"+mn+".csp":mn+".csp"; string fn="mf"+std::to_string(i)+tag; p.files[dir+"/"+path]=(r.chance(0.3)?pad(r,r.below(6000)):"")+fnBlock(r,fn); imports+="import \""+path+"\";\n"; fns.push_back(fn);
    if(g_decoys&&r.chance(0.5)){ // a module of the module; files of the same name elsewhere mean something else
      string in="inner"+std::to_string(i)+tag, d=dir+"/"+path; d=d.substr(0,d.rfind('/')); int v=r.below(1000); auto text=[&](int k){ return "fn in"+std::to_string(i)+tag+"(x: i32, y: i32): i32 { <- x + y + "+std::to_string(k)+"; }\n"; }; p.files[dir+"/"+path]="import \""+in+".csp\";\n"+p.files[dir+"/"+path]; p.files[d+"/"+in+".csp"]=text(v); if(d!=dir) p.files[dir+"/"+in+".csp"]="# elsewhere\n"+text(v+1); p.files["/std/"+in+".csp"]="# elsewhere\n"+text(v+2); fns.push_back("in"+std::to_string(i)+tag); } }
  if(r.chance(bad?0.03:0.035)){ auto&v=bad?corpus().bad:corpus().valid; auto&f=v[r.below(v.size())]; p.files.clear(); p.files[p.main]=f.second; p.kind=(bad?"whole bad ":f.first=="deprecated.csp"||f.first=="unit_tests.csp"?"warn whole ":"whole ")+f.first; return p; }
  int nf=1+r.below(r.chance(0.15)?60:6); string body; for(int i=0;i<nf;i++){ string fn="f"+std::to_string(i)+tag; body+=fnBlock(r,fn); fns.push_back(fn); }
  bool st=r.chance(0.06); if(st){ static const char*ms[]={"c_str.csp","math.csp","types.csp","character.csp","io.csp"}; imports+=string("import \"")+ms[r.below(5)]+"\";\n"; p.kind="std"; }
  if(g_directives&&r.chance(0.12)){ // a part written in C, compiled while the program is parsed
    string sub=r.chance(0.3)?"sub/":""; string e="ext_"+name+tag; p.files[dir+"/"+sub+e+".c"]="int ef_"+tag+"(int x) { return x + "+std::to_string(r.below(100))+"; }\n"; string d="[cc(\"-c "+e+".c -o "+e+"_made.o\")]\n[link_obj(\""+e+"_made.o\")]\n"; if(r.chance(0.3)) d+="[copy(\""+e+".c\", \""+e+"_made.txt\")]\n"; d+="extern \"C\" { fn ef_"+tag+"(x: i32): i32; }\nfn ew_"+tag+"(x: i32, y: i32): i32 { <- ef_"+tag+"(x) + y; }\n"; if(sub.empty()) imports+=d; else { p.files[dir+"/sub/"+e+"_w.csp"]=d; imports+="import \"sub/"+e+"_w.csp\";\n"; } fns.push_back("ew_"+tag); p.kind+="directive"; }
  m=imports+(r.chance(0.2)?pad(r,r.below(9000)):"")+body; p.lib=want==0?false:false; 
  string mainf="fn main(): i32 {\n    let x: i32 = 0;\n"; for(auto&f:fns) mainf+="    x += "+f+"(x % 1000, "+std::to_string(r.below(10))+");\n"; mainf+="    <- x % 100;\n}\n"; 
  if(r.chance(0.02)){ // very many diagnostics: counts that do not fit into an exit status
    static const int ks[]={255,256,256,257,512,1024}; int k=ks[r.below(6)]; string b=imports+body; if(!bad) b+="[deprecated] fn dep(): i32 { <- 1; }\nfn usedep(): i32 {\n    let x: i32 = 0;\n"; else b+="fn usedep(): i32 {\n    let x: i32 = 0;\n"; for(int i=0;i<k;i++) b+=bad?"    x += nothing_"+std::to_string(i)+";\n":"    x += dep();\n"; p.files[p.main]=b+"    <- x;\n}\n"+"fn main(): i32 { <- usedep(); }\n"; p.kind+=bad?"mass":"warn mass"; return p; }
  if(!bad){ if(r.chance(0.1)){ m+="[deprecated] fn dep(): i32 { <- 1; }\nfn usedep(): i32 { <- dep(); }\n"; p.kind+="warn"; } p.files[p.main]=m+mainf; if(r.chance(0.15)){ string&x=p.files[p.main]; while(!x.empty()&&x.back()=='\n') x.pop_back(); } if(r.chance(0.02)) p.files[p.main]=pad(r,40000+r.below(100000))+p.files[p.main]; }
  else if(r.chance(0.5)){ auto&v=corpus().invalid; auto&f=v[r.below(v.size())]; p.kind=f.first=="import_missing"?"noimport":"inv "+f.first; p.files[p.main]=r.chance(0.5)?m+mainf+f.second:f.second+m+mainf; }
  else { switch(r.below(9)){ case 0: p.files[p.main]=m+mainf+"fn broken(: i32 {}\n"; p.kind="syntax"; break; case 1: p.files[p.main]=m+mainf+"fn t(): i32 { <- undefined_thing; }\n"; p.kind="undefined"; break; case 2: p.files[p.main]="import \"nosuchfile"+tag+".csp\";\n"+m+mainf; p.kind="noimport"; break; case 3: p.files[p.main]=m+mainf+"fn t(): &i8 { let x: f32 = 1.5; <- x; }\n"; p.kind="type"; break; case 4: p.files[p.main]=m+mainf.substr(0,mainf.size()-3); p.kind="cut"; break; case 5: p.files[p.main]=m+mainf+"fn main(): i32 { <- 0; }\n"; p.kind="redef"; break; case 6: p.files[p.main]=m+mainf+"const kc: i32 = 3;\nfn t(): i32 { kc = 4; <- kc; }\n"; p.kind="const"; break; case 7: p.files[p.main]=m; p.kind="nomain"; break; default: p.files[p.main]=m+mainf+"fn t(): i32 { let x: i32 = @; <- x; }\n"; p.kind="lexer"; break; } }
  return p; }
