// C10: options and directives reach the tools they concern; conditional items follow the environment.
#include "compgen.h"
#include <sys/wait.h>
#include <algorithm>
static const char* CSPC="/opt/csp/cspc";
static string norm(const string&cwd,const string&p){ string q=!p.empty()&&p[0]=='/'?p:cwd+"/"+p; vector<string> v; for(auto&x:split(q,'/')){ if(x.empty()||x==".") continue; if(x==".."){ if(!v.empty()) v.pop_back(); continue; } v.push_back(x); } string o; for(auto&x:v) o+="/"+x; return o; }
// ops: O words (an option) | P text (an entry before main: a directive; first field says in which file) | V NAME=value | C kind conds...
// conditions: defined NAME | undefined NAME | eq NAME VALUE | ne NAME VALUE | cfg NAME | nocfg NAME
struct Cond { string k,a,b; };
static string inv(const string&k){ static const map<string,string> m={{"defined","undefined"},{"undefined","defined"},{"eq","ne"},{"ne","eq"},{"cfg","nocfg"},{"nocfg","cfg"}}; return m.at(k); }
static string dirOf(const Cond&c,bool neg){ string k=neg?inv(c.k):c.k; if(k=="defined") return "env_defined(\""+c.a+"\")"; if(k=="undefined") return "env_defined(\"!"+c.a+"\")"; if(k=="eq"||k=="ne") return "env_"+k+"(\""+c.a+"\", \""+c.b+"\")"; return string("cfg(\"")+(k=="cfg"?"":"!")+c.a+"\")"; }
static string itemText(const string&kind,const string&n,int v){ if(kind=="fn") return "fn "+n+"(): i32 = "+std::to_string(v)+";\n"; if(kind=="const") return "const "+n+": i32 = "+std::to_string(v)+";\n"; if(kind=="let") return "let "+n+": i32 = "+std::to_string(v)+";\n"; if(kind=="enum") return "type "+n+": enum { K = "+std::to_string(v)+" };\n"; return "type "+n+": "+(v?"i64":"i32")+";\n"; }
static string useText(const string&kind,const string&n,int v){ if(kind=="fn") return n+"()"; if(kind=="enum") return n+"::K"; if(kind=="alias") return "(((sizeof "+n+"): i32) / 4 - 1) * "+std::to_string(v); return n; }

static void genC10(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.25); bool real=c.get("tool")=="real"; bool lib=!real&&r.chance(0.15); bool run=!lib&&!real&&r.chance(0.15); c.set("cmd",string(lib?"lib":run?"run":"build")+"\tprog.csp"); auto&o=c.ops; auto O=[&](const string&s){ o.push_back("O\t"+s); };
  bool alt=r.chance(0.25); if(alt) c.set("alt",(i64)1); O(string(r.chance(0.7)?"-p\t":"--std-path\t")+(alt?(r.chance(0.5)?"altstd":r.chance(0.5)?"./sub/../altstd":"/work/altstd"):"/std")); static const char*os[]={"out","./out.bin","sub/o","/work/o/out","a.b.c","sub/../z"}; if(r.chance(0.75)) O(string(r.chance(0.5)?"-o":"--output")+"\t"+os[r.below(6)]);
  bool cb=!real&&r.chance(0.4); if(cb) O(string(r.chance(0.5)?"-b":"--backend")+"\t"+(r.chance(0.5)?"c":"C")); else if(r.chance(0.2)) O("-b\tassembly");
  if(r.chance(0.4)) O("--silent"); if(!real&&!run){ if(r.chance(0.12)) O("-c"); else if(r.chance(0.08)) O("-S"); } for(int k=r.below(3);k>0;k--) if(r.chance(0.4)) O(r.chance(0.5)?"-g":"-g0"); if(r.chance(0.25)) O(r.chance(0.5)?"-0":"--no-opt"); bool st=r.chance(0.3); if(st) O("--static"); else if(r.chance(0.5)){ static const char*dl[]={"/lib64/ld-linux-x86-64.so.2","/usr/lib64/ld-linux-x86-64.so.2","/work/t/ld-none.so","/lib/x86_64-linux-gnu/ld-linux-x86-64.so.2"}; O(string("--dynamic-linker\t")+dl[r.below(4)]); }
  if(!real){ static const char*as[]={"as","/usr/bin/as","/work/t/my-as","./t/my-as","t-as"}; static const char*ld[]={"ld","ld.bfd","/usr/bin/ld","/work/t/my-ld","./t/my-ld","t-ld"}; static const char*cc[]={"gcc","gcc-13","/work/t/my-cc","./t/my-cc","t-cc"}; if(r.chance(0.35)) O(string("--as\t")+as[r.below(5)]); if(r.chance(0.35)) O(string("--ld\t")+ld[r.below(6)]); if(r.chance(0.4)) O(string("--cc\t")+cc[r.below(5)]); }
  if(cb) for(int k=r.below(3);k>0;k--){ static const char*fl[]={"-v","-Wall -Wextra","-DX=1  -DY","\t-DT ","-O3 -fno-inline","-DA -DB\t-DC -DD -DE",""," \t"}; O(string("--cc-flags\t")+std::to_string(r.below(8))); (void)fl; }
  for(size_t i=o.size();i>1;i--){ size_t j=r.below(i); if(o[i-1].find("--static")!=string::npos||o[j].find("--static")!=string::npos) continue; std::swap(o[i-1],o[j]); }
  // directives
  bool mod=r.chance(0.5); c.set("mod",(i64)mod); if(mod&&r.chance(0.5)) c.set("modpath",string("sub/m.csp")); auto M=[&]{ return string(mod&&r.chance(0.4)?"1":"0"); };
  if(real){ if(!lib&&r.chance(0.9)){ o.push_back("P\t0\tlink\tc"); c.set("abs",(i64)1); } if(r.chance(0.3)) o.push_back("P\t"+M()+"\tlink\tm"); }
  else for(int k=r.below(6);k>0;k--){ switch(r.below(6)){ case 0: case 1: { static const char*ls[]={"c","m","pthread","pkone","pktwo","nosuchpackage","c"}; string a=ls[r.below(7)]; if(r.chance(0.25)) a+=string("\t")+ls[r.below(7)]; o.push_back("P\t"+M()+"\tlink\t"+a); break; } case 2: case 3: o.push_back("P\t"+M()+"\tlink_obj\t"+strf("x%d.o",k)+(r.chance(0.2)?strf("\ty%d.o",k):"")); break; case 4: if(r.chance(0.5)){ string m=M(); if(r.chance(0.6)) o.push_back("P\t"+m+"\tcc\t"+strf("-c  e%d.c -o e%d_made.o%s",k,k,r.chance(0.5)?" -DQ=1 -O1":"")); else o.push_back("P\t"+m+"\tcopy\t"+strf("e%d.c\te%d_made.txt",k,k)); break; } [[fallthrough]]; default: o.push_back("P\t"+M()+"\tlink_dir\t"+strf("/work/libs%d",k)+(r.chance(0.2)?strf("\trel/l%d",k):"")); } }
  // environment and conditional items
  static const char*vals[]={"","x","1","xx","X","a b","x=y"}; static const char*vn[]={"CA","CB","CAB","_C1","LONG_NAME_OF_A_VARIABLE"}; for(int k=0;k<5;k++) if(r.chance(0.5)) o.push_back(string("V\t")+vn[k]+"="+vals[r.below(7)]);
  int nc=r.below(6); for(int k=0;k<nc;k++){ static const char*kinds[]={"fn","const","let","enum","alias"}; string s=string("C\t")+M()+"\t"+kinds[r.below(5)]; int m=r.chance(0.25)?2:1; for(int q=0;q<m;q++){ static const char*ks[]={"defined","undefined","eq","ne","cfg","nocfg"}; string kk=ks[r.below(6)]; static const char*cf[]={"linux","windows","macos","codegen_c","codegen_asm","codegen_llvm","interpreted"}; if(kk=="cfg"||kk=="nocfg") s+="\t"+kk+"\t"+cf[r.below(7)]+"\t"; else s+="\t"+kk+"\t"+vn[r.below(5)]+"\t"+vals[r.below(7)]; } o.push_back(s); }
  if(r.chance(0.4)) c.set("pkv",(i64)(1+r.below(3))); if(!real&&r.chance(0.02)){ c.set("pkbad",(i64)r.below(4)); o.push_back("P\t0\tlink\tpkbad"); }
  if(!real) genFaults(r,c,{"tool_slow","eintr_wait","short_read","short_write","stop_child"},0.3,0.5); }

static void runC10(const Case&c,Outcome&out){ vector<string> args=split(c.get("cmd"),'\t'); bool real=c.get("tool")=="real", mod=c.geti("mod"), abs=c.geti("abs"); static const char*fl[]={"-v","-Wall -Wextra","-DX=1  -DY","\t-DT ","-O3 -fno-inline","-DA -DB\t-DC -DD -DE",""," \t"};
  string as="as",ld="ld",cc="gcc",dl="/lib64/ld-linux-x86-64.so.2"; bool cb=false,st=false,g=true,opt=true,conly=false,sonly=false,lib=args[0]=="lib"; vector<string> ccf; map<string,string> env; Case wc=c; struct Item{ string m,kind; vector<Cond> cs; }; vector<Item> items; struct Dir{ string m,name; vector<string> a; }; vector<Dir> dirs;
  for(auto&o:c.ops){ auto w=split(o,'\t'); if(w.empty()) continue; 
    if(w[0]=="O"&&w.size()>1){ string k=w[1]; if(k=="--cc-flags"&&w.size()>2){ string f=fl[atoi(w[2].c_str())%8]; args.push_back(k); args.push_back(f); string x; for(char ch:f+" "){ if(ch==' '||ch=='\t'){ if(!x.empty()) ccf.push_back(x); x.clear(); } else x+=ch; } continue; } for(size_t i=1;i<w.size();i++) args.push_back(w[i]); string v=w.size()>2?w[2]:""; if(k=="--as") as=v; if(k=="--ld") ld=v; if(k=="--cc") cc=v; if(k=="--dynamic-linker") dl=v; if(k=="--static") st=true; if(k=="-g") g=true; if(k=="-g0") g=false; if(k=="-0"||k=="--no-opt") opt=false; if(k=="-c") conly=true; if(k=="-S") sonly=true; if(k=="-b"||k=="--backend") cb=v=="c"||v=="C"; }
    else if(w[0]=="P"&&w.size()>3) dirs.push_back({mod?w[1]:"0",w[2],vector<string>(w.begin()+3,w.end())});
    else if(w[0]=="V"&&w.size()>1){ size_t e=w[1].find('='); env[w[1].substr(0,e)]=w[1].substr(e+1); wc.set("env:"+w[1].substr(0,e),w[1].substr(e+1)); }
    else if(w[0]=="C"&&w.size()>4){ Item it{mod?w[1]:"0",w[2],{}}; for(size_t i=3;i+2<w.size();i+=3) it.cs.push_back({w[i],w[i+1],w[i+2]}); if(!it.cs.empty()) items.push_back(it); } }
  // programs
  string text[2]; auto holds=[&](const Cond&x){ auto it=env.find(x.a); string v=it==env.end()?"":it->second; if(x.k=="defined") return it!=env.end(); if(x.k=="undefined") return it==env.end(); if(x.k=="eq") return v==x.b; if(x.k=="ne") return v!=x.b; bool on=x.a=="linux"||(x.a=="codegen_c"&&cb)||(x.a=="codegen_asm"&&!cb); return (x.k=="cfg")==on; };
  for(auto&d:dirs){ string s="["+d.name+"("; for(size_t i=0;i<d.a.size();i++) s+=(i?", \"":"\"")+d.a[i]+"\""; text[d.m=="1"]+=s+")]\n"; }
  string mainf="    let x: i32 = 0;\n"; int want=0; for(size_t k=0;k<items.size();k++){ auto&it=items[k]; int bit=1<<(k%6); string n=strf("it%zu",k); if(k>=6) break; bool all=true; for(auto&x:it.cs) all=all&&holds(x); if(all) want+=bit; int m=1<<it.cs.size(); for(int v=0;v<m;v++){ string d; for(size_t q=0;q<it.cs.size();q++) d+=(q?", ":"")+dirOf(it.cs[q],v>>q&1); text[it.m=="1"]+="["+d+"]\n"+itemText(it.kind,n,v?0:bit); } mainf+="    x += "+useText(it.kind,n,bit)+";\n"; }
  if(abs){ text[0]+="extern \"C\" { fn abs(x: i32): i32; }\n"; mainf+="    x += abs(0 - 64);\n"; want+=64; }
  if(c.geti("alt")){ text[0]="import \"only_here.csp\";\n"+text[0]; mainf+="    x += only_here(1) - 2;\n"; }
  string mp=c.get("modpath","m.csp"); string mdir=norm("/work",mp); mdir=mdir.substr(0,mdir.rfind('/')); map<string,string> files; if(mod) files["/work/"+mp]=text[1]+"fn modf(): i32 = 0;\n"; files["/work/prog.csp"]=(mod?"import \""+mp+"\";\n":"")+text[0]+(lib?"fn libmain(): i32 {\n":"fn main(): i32 {\n")+mainf+(mod?"    x += modf();\n":"")+"    <- x;\n}\n";
  if(c.geti("alt")) files["/work/altstd/only_here.csp"]="fn only_here(x: i32): i32 = x + 1;\n"; i64 pkv=c.geti("pkv"); string pkdir=pkv&1?"/work/on e%x":"/work/one"; files["/work/pc/pkone.pc"]="prefix="+pkdir+"\nlibdir=${prefix}/lib\nName: pkone\nDescription: one\nVersion: 1.2\nLibs: -L\"${libdir}\" "+(pkv&2?"-pthread -Wl,-rpath,/opt/x /work/one/extra.a ":"")+"-lfirst -lsecond\n"; files["/work/pc/pktwo.pc"]="Name: pktwo\nDescription: two\nVersion: 3\nRequires: pkone\nLibs: -lthird\n"; { static const char*rq[]={"no%s%n%s_such","pkone >= 7","pkmissing, pkone","pkone\nConflicts: pkone"}; files["/work/pc/pkbad.pc"]=string("Name: pkbad\nDescription: cannot be used\nVersion: 1\nRequires: ")+rq[c.geti("pkbad")%4]+"\nLibs: -L/work/one/lib -lbad\n"; } for(auto&d:dirs) if(d.name=="link_obj") for(auto&a:d.a) files[(d.m=="1"?mdir:string("/work"))+"/"+a]="SIMOBJ "+a+"\n"; wc.set("env:PKG_CONFIG_PATH",string("/work/pc")); putFiles(wc,files);
  struct Cmd{ string cwd; vector<string> argv; }; vector<Cmd> cmds; for(auto&d:dirs) if(d.name=="cc"||d.name=="copy"){ string dd=d.m=="1"?mdir:string("/work"); string f=d.a[0]; size_t q=f.find("e"); if(d.name=="cc"){ Cmd k{dd,{cc}}; string x; for(char ch:f+" "){ if(ch==' '){ if(!x.empty()) k.argv.push_back(x); x.clear(); } else x+=ch; } cmds.push_back(k); q=f.find("e",2); files[dd+"/"+f.substr(q,f.find(".c",q)-q)+".c"]="int e;\n"; } else { cmds.push_back({dd,{"cp","-r",d.a[0],d.a[1]}}); files[dd+"/"+f]="int e;\n"; } } putFiles(wc,files);
  // what the linker must be told
  vector<string> libs, dirsWant; set<string> seen, mine[2]; for(auto&d:dirs) for(auto&a:d.a){ auto&q=mine[d.m=="1"]; if(d.name=="link"){ if(a=="pkone"||a=="pktwo"){ q.insert("-lthird"); q.insert("-lpthread"); q.insert("/work/one/extra.a"); q.insert("-lfirst"); q.insert("-lsecond"); } else q.insert("-l"+a); } else if(d.name=="link_obj") q.insert((d.m=="1"?mdir:string("/work"))+"/"+a); } vector<Dir> ord; for(auto&d:dirs) if(d.m=="1") ord.push_back(d); for(auto&d:dirs) if(d.m!="1") ord.push_back(d); for(auto&d:ord) for(auto&a:d.a){ if(d.name=="link"){ if(!seen.insert(a).second) continue; if(a=="pkone"||a=="pktwo"){ dirsWant.push_back("-L"+pkdir+"/lib"); if(a=="pktwo") libs.push_back("-lthird"); if(pkv&2){ if(cb){ dirsWant.push_back("-pthread"); dirsWant.push_back("-Wl,-rpath,/opt/x"); } else { libs.push_back("-lpthread"); dirsWant.push_back("-rpath\t/opt/x"); } libs.push_back("/work/one/extra.a"); } libs.push_back("-lfirst"); libs.push_back("-lsecond"); } else libs.push_back("-l"+a); } else if(d.name=="link_obj") libs.push_back((d.m=="1"?mdir:string("/work"))+"/"+a); else if(d.name=="link_dir") dirsWant.push_back("-L"+a); }
  string why="cspc "+j(args," ");
  simRun(wc,out,[&](Sim&s){ World w(s,wc); for(const char*x:{"/work/t/my-as","/work/t/my-ld","/work/t/my-cc","/usr/local/bin/t-as","/usr/local/bin/t-ld","/usr/local/bin/t-cc"}) s.mkfile(x,"tool\n",0755); auto em=s.execMap; s.execMap=[em](const string&full,Proc&p)->string{ string b=full.substr(full.rfind('/')+1); if(isPrefix("my-",b)||isPrefix("t-",b)) return g_build+"/bin/tool"; return em(full,p); };

    Inv*i=w.start(CSPC,"/work",args); RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; } if(WIFSIGNALED(i->status)){ out.bad("crash",why+" died by "+statusStr(i->status)); return; }
    vector<Child*> kids=w.kidsOf(i->p->vpid); std::sort(kids.begin(),kids.end(),[](Child*a,Child*b){return a->start<b->start;}); string t=w.target(*i); vector<Child*> tools; bool toolFailed=false; for(auto k:kids){ if(!k->execed){ out.bad("stray_process",why+" started a process that executed nothing"); continue; } if(k->exe==t&&args[0]=="run") continue; tools.push_back(k); if(k->status!=0) toolFailed=true; }
    for(auto&d:dirs) if(d.name=="link") for(auto&a:d.a) if(a=="pkbad"){ out.probes["unusable_package"]++; if(i->status==0) out.bad("unusable_library",why+": exits 0 although the package pkbad cannot be used"); else if((i->out->data+i->err->data).find("pkbad")==string::npos) out.bad("unusable_library",why+": fails without naming the package that cannot be used"); return; }
    bool legit=false; for(auto&d:dirs) if(d.name=="link_obj") legit=legit||false; 
    if(i->status!=0&&!real&&!toolFailed){ if(!legit) out.bad("build_fails",why+": "+statusStr(i->status)+": "+esc(i->out->data+i->err->data,500)); return; }
    if(real&&i->status!=0){ bool noAbs=false; (void)noAbs; out.bad("build_fails",why+": "+statusStr(i->status)+": "+esc(i->out->data+i->err->data,500)); return; }
    // commands of [cc] and [copy]: all of them, before the tools of this build, in the directory of their file
    { size_t n=std::min(cmds.size(),tools.size()); vector<Child*> cs(tools.begin(),tools.begin()+n); tools.erase(tools.begin(),tools.begin()+n); vector<bool> used(n); for(auto&m:cmds){ bool f=false; for(size_t q=0;q<n&&!f;q++) if(!used[q]&&cs[q]->argv==m.argv){ string cw; for(auto pr:s.procs) if(pr->vpid==cs[q]->vpid) cw=pr->cwdPath; if(norm("/",cw)!=norm("/",m.cwd)) continue; used[q]=true; f=true; } if(!f){ string g; for(auto k:cs) g+=" ["+j(k->argv," ")+"]"; out.bad("command_changed",why+": the command ["+j(m.argv," ")+"] in "+m.cwd+" was not run before the build's own tools, but"+g); return; } } if(n) out.probes["commands"]++; }
    // the tools started
    vector<string> wantTools; if(!sonly){ if(cb) wantTools.push_back(cc); else { wantTools.push_back(as); if(!conly) wantTools.push_back(ld); } } vector<string> got; for(auto k:tools) got.push_back(k->argv.empty()?k->exe:k->argv[0]);
    auto base=[](const string&p){ return p.substr(p.rfind('/')+1); };
    if(tools.size()!=wantTools.size()){ out.bad("wrong_tools",why+" started ["+j(got," ")+"] instead of ["+j(wantTools," ")+"]"); return; }
    for(size_t k=0;k<tools.size();k++){ bool own=isPrefix("my-",base(wantTools[k]))||isPrefix("t-",base(wantTools[k])); bool same=own?base(tools[k]->exe)==base(wantTools[k]):base(tools[k]->exe).find(base(wantTools[k]))!=string::npos&&!isPrefix("my-",base(tools[k]->exe))&&!isPrefix("t-",base(tools[k]->exe)); if(!same) out.bad("wrong_tools",why+" started "+tools[k]->exe+" instead of "+wantTools[k]); }
    if(sonly) { out.probes["no_tool"]++; return; }
    auto words=[&](Child*k){ return vector<string>(k->argv.begin()+1,k->argv.end()); }; auto outOf=[&](const vector<string>&a,int&n){ string v; n=0; for(size_t q=0;q+1<a.size();q++) if(a[q]=="-o"){ v=a[q+1]; n++; } return v; }; auto hasw=[](const vector<string>&a,const string&x){ return std::find(a.begin(),a.end(),x)!=a.end(); };
    auto inputs=[&](const vector<string>&a,const string&ext){ vector<string> v; for(size_t q=0;q<a.size();q++){ if(a[q]=="-o"||a[q]=="-m"||a[q]=="-dynamic-linker"||a[q]=="--dynamic-linker"){ q++; continue; } if(a[q].empty()||a[q][0]=='-') continue; if(ext.empty()||(a[q].size()>ext.size()&&a[q].substr(a[q].size()-ext.size())==ext)) v.push_back(a[q]); } return v; };
    auto bad=[&](const char*cls,Child*k,const string&m){ out.bad(cls,why+": "+m+": "+j(k->argv," ")); };
    string obj; if(!cb){ auto a=words(tools[0]); int n; string of=outOf(a,n); auto in=inputs(a,""); if(n!=1||in.size()!=1) bad("assembler_arguments",tools[0],"the assembler needs one input and one output"); obj=of; if(conly&&norm("/work",of)!=t) bad("wrong_output_path",tools[0],"the object file is not written to "+t); if(!a.empty()&&hasw(a,"-g")!=g) bad("debug_option",tools[0],g?"-g is missing":"-g in spite of -g0"); }
    bool links=!conly; Child*lk=tools.back(); auto a=words(lk); if(cb){ int n; string of=outOf(a,n); if(n!=1||norm("/work",of)!=t) bad("wrong_output_path",lk,"the output is not written to "+t); if(inputs(a,".c").size()!=1) bad("compiler_arguments",lk,"the C compiler needs one C file"); if(hasw(a,"-g")!=g) bad("debug_option",lk,g?"-g is missing":"-g in spite of -g0"); bool o=false; for(auto&x:a) if(isPrefix("-O",x)&&x!="-O0"&&!hasw(ccf,x)) o=true; if(links&&o!=opt) bad("optimisation_option",lk,opt?"no optimisation":"optimisation in spite of -0"); if(hasw(a,"-c")!=conly) bad("compile_only",lk,conly?"-c is missing":"-c was not asked for");
      size_t q=0; for(auto&x:a) if(q<ccf.size()&&x==ccf[q]) q++; if(q<ccf.size()) bad("cc_flags_lost",lk,"flag "+ccf[q]+" is missing or out of order"); }
    if(links){ if(!cb){ int n; string of=outOf(a,n); if(n!=1||norm("/work",of)!=t) bad("wrong_output_path",lk,"the output is not written to "+t); if(!hasw(a,obj)) bad("object_not_linked",lk,"the object file "+obj+" is not linked"); }
      if(hasw(a,"-shared")!=lib) bad("link_kind",lk,lib?"-shared is missing":"-shared was not asked for"); bool stc=hasw(a,"-static"); if(stc!=st) bad("link_mode",lk,st?"-static is missing":"-static was not asked for"); bool dyn=false; for(size_t q=0;q<a.size();q++) if((a[q]=="-dynamic-linker"||a[q]=="--dynamic-linker")&&q+1<a.size()&&a[q+1]==dl) dyn=true; else if(a[q]=="-Wl,-dynamic-linker,"+dl||a[q]=="-Wl,--dynamic-linker,"+dl||a[q]=="-Wl,--dynamic-linker="+dl||a[q]=="--dynamic-linker="+dl) dyn=true; if(!st&&!lib&&!dyn) bad("dynamic_linker",lk,"the dynamic linker "+dl+" is not set");
      vector<string> gl; for(size_t q=0;q<a.size();q++){ if(a[q]=="-o"||a[q]=="-m"||a[q]=="-dynamic-linker"||a[q]=="-rpath"){ q++; continue; } if(isPrefix("-l",a[q])) gl.push_back(a[q]); else if(!a[q].empty()&&a[q][0]!='-'&&a[q]!=obj&&(cb?a[q].size()<3||a[q].substr(a[q].size()-2)!=".c":true)) gl.push_back(norm("/work",a[q])); }
      vector<string> wl; for(auto&x:libs) wl.push_back(x[0]=='/'?norm("/work",x):x); vector<string> sg=gl, sw=wl; std::sort(sg.begin(),sg.end()); std::sort(sw.begin(),sw.end()); bool same=sg==sw; for(int m=0;m<2&&same;m++){ vector<string> own, gotm; for(auto&x:libs) if(mine[m].count(x)&&!mine[!m].count(x)) own.push_back(x[0]=='/'?norm("/work",x):x); for(auto&x:gl) if(std::find(own.begin(),own.end(),x)!=own.end()) gotm.push_back(x); same=own==gotm; } if(!same) bad("libraries",lk,"libraries and objects ["+j(gl," ")+"] instead of ["+j(wl," ")+"]"); else if(!wl.empty()) out.probes["with_libraries"]++;
      for(auto&d:dirsWant) if(isPrefix("-rpath\t",d)?("\t"+j(a,"\t")+"\t").find("\t"+d+"\t")==string::npos:!hasw(a,d)) bad("search_path_lost",lk,"search directory "+d+" is missing"); }
    else for(auto&x:a) if(isPrefix("-l",x)) bad("link_mode",lk,"libraries without linking");
    out.probes[cb?"backend_c":"backend_asm"]++; if(!items.empty()) out.probes["conditional_items"]++;
    if(!real) return;
    // the output itself: its dynamic linker, and what it does
    bool ok; string d=fileOf(s,t,ok); if(!ok||d.size()<64||d.compare(0,4,"\177ELF")){ out.bad("no_executable",why+": "+t+" is no ELF file"); return; } u64 ph=0; u16 pn=0; memcpy(&ph,&d[32],8); memcpy(&pn,&d[56],2); string interp; for(int k=0;k<pn&&ph+56*(k+1)<=d.size();k++){ u32 ty; memcpy(&ty,&d[ph+56*k],4); if(ty==3){ u64 off; memcpy(&off,&d[ph+56*k+8],8); interp=d.c_str()+off; } }
    if(lib){ out.probes["library_linked"]++; return; } if(st&&!interp.empty()) out.bad("link_mode",why+": a statically linked program asks for "+interp); if(!st&&abs&&interp!=dl) out.bad("dynamic_linker",why+": the program asks for the dynamic linker \""+interp+"\" instead of "+dl);
    if(isPrefix("/work",interp)) return; s.fc.rate.clear(); Inv*p=w.start(t,"/work",{}); e=s.run(); if(e!=END_ALLDEAD){ out.bad("program_hangs",why+": the program does not end"); return; } out.probes["program_started"]++; if(!WIFEXITED(p->status)||WEXITSTATUS(p->status)!=want){ out.bad("wrong_items",why+strf(": the program ends with %s, its items give %d; environment:",statusStr(p->status).c_str(),want)+[&]{ string q; for(auto&x:env) q+=" "+x.first+"="+x.second; return q; }()+" "+esc(files["/work/prog.csp"],900)); } }); }
static Reg rC10({"C10",6000,60000,genC10,runC10,nullptr,"Each run builds a program with random tool, output, debug, optimisation and link options, link directives in its main file and an imported module, and items that depend on environment variables and the configuration, while tools are slow, waits are interrupted and transfers are short; every tool started is compared with what was asked for, and programs made by the real as and ld are started.",kReal,kStub,kAssume});
