// Command generation and small helpers shared by the compiler scenarios.
#pragma once
#include "comp.h"
static const vector<string> kReal={"cspc (built from /repo's working tree, unmodified binary)","glibc and the dynamic linker"};
static const vector<string> kStub={"kernel: file system, processes, pipes, clock (simulated)","as, ld, gcc: stand-ins whose output is a function of all input bytes (a part of the runs uses the real as and ld)","the built program: a stand-in whose exit behaviour the simulator chooses (when as/ld are stand-ins)"};
static const vector<string> kAssume={"the simulated system calls follow Linux semantics (checked by running real as, ld and libc on them)","CPU instructions between system calls are executed natively and are deterministic"};

// The command: fixed part in par "cmd" (action and input), one op per option group (tab-separated words).
static vector<string> argvOf(const Case&c){ vector<string> a=split(c.get("cmd"),'\t'); for(auto&o:c.ops) for(auto&w:split(o,'\t')) a.push_back(w); return a; }
static void genArgs(Rng&r,const Prog&p,const string&cwd,Case&c,bool allowRun=true,const string&out="?"){ int act=r.below(10); string in=p.main; if(isPrefix(cwd+"/",in)&&r.chance(0.8)) in=(r.chance(0.2)?"./":"")+in.substr(cwd.size()+1); string action=act<6?"build":act<8&&allowRun?"run":"build"; if(!p.lib&&r.chance(0.12)) action="lib"; c.set("cmd",action+"\t"+in);
  if(action=="lib"&&p.valid&&r.chance(0.75)){ // without a main function it becomes a shared library
    string t=c.get("file:"+p.main); size_t q=0; while((q=t.find("fn main(",q))!=string::npos) t.replace(q,8,"fn libmain("); c.set("file:"+p.main,t); } vector<string>&a=c.ops; a.push_back("-p\t/std");
  if(out!="?"){ if(!out.empty()) a.push_back("-o\t"+out); } else if(r.chance(0.7)){ static const char*os[]={"./out","out.bin","./sub/out","/work/o/out","out","sub/../x.y.z","./a_rather_long_output_file_name_that_goes_on_and_on_0123456789_0123456789_0123456789_0123456789_0123456789"}; a.push_back(string(r.chance(0.5)?"-o":"--output")+"\t"+os[r.below(7)]); }
  if(r.chance(0.5)) a.push_back("--silent"); if(r.chance(0.15)) a.push_back(string("-b\t")+(r.chance(0.7)?"c":r.chance(0.5)?"C":"assembly")); if(r.chance(0.1)) a.push_back("-c"); else if(r.chance(0.08)) a.push_back("-S"); if(r.chance(0.15)) a.push_back("-g0"); if(r.chance(0.1)) a.push_back("-0"); if(r.chance(0.1)) a.push_back("--static"); if(r.chance(0.07)) a.push_back("--print-code"); if(r.chance(0.05)) a.push_back("--show-timings"); if(r.chance(0.06)) a.push_back(r.chance(0.5)?"--as\t/usr/bin/as":"--ld\tld.bfd"); if(r.chance(0.05)) a.push_back("--cc-flags\t-v"); if(r.chance(0.03)) a.push_back("--set-mmcd\t64"); if(r.chance(0.3)){ for(size_t i=a.size();i>1;i--) std::swap(a[i-1],a[r.below(i)]); } }
static bool has(const vector<string>&a,const char*f){ for(auto&x:a){ if(x=="--") break; if(x==f) return true; } return false; }
static void baseCase(Rng&r,Case&c,double realShare){ c.set("tool",r.chance(realShare)?"real":"stub"); g_decoys=false; g_directives=c.get("tool")=="stub"; c.setd("pswitch",r.chance(0.5)?0.05:0.4); }
static string fileOf(Sim&s,const string&path,bool&ok){ string d; ok=s.readFile(path,d); return d; }
static bool isTool(const string&exe){ return exe.find("as")!=string::npos||exe.find("ld")!=string::npos||exe.find("gcc")!=string::npos||exe=="cp"; }

