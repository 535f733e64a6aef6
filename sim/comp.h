// Shared by the compiler, linter and debugger scenarios.
#pragma once
#include "scn.h"
struct Child { int vpid=0,parent=0; string exe; vector<string> argv; int status=-1; bool execed=false, exited=false; u64 start=0,end=0,execStep=0; map<string,string> handed; };
struct Inv { Proc*p=nullptr; vector<string> args; string cwd; shared_ptr<Capture> out,err; int status=-1; bool ended=false; u64 endStep=0; vector<int> aliveAtExit; };
struct World { Sim&s; const Case&c; std::map<int,Child> kids; vector<Inv*> invs; string home="/home/u"; u64 toolFaults=0; vector<string> vio; bool checkHanded=false; 
  std::function<void(Child&)> onToolExec; 
  World(Sim&s,const Case&c); ~World(){ for(auto i:invs) delete i; }
  Inv* start(const string&exe,const string&cwd,const vector<string>&args,FileP in=nullptr);
  Inv* invOf(int vpid);
  vector<Child*> kidsOf(int vpid,bool all=false);
  string target(const Inv&i); };
struct Ref { int status=-1; string out,err; map<string,string> files; map<string,string> handed; bool ok=false; RunEnd end=END_QUIET; };
// fault-free execution of one command in a fresh world (cached)
const Ref& reference(const Case&c,const string&exe,const string&cwd,const vector<string>&args,const string&stdinText="");
struct Prog { map<string,string> files; string main; bool valid=true, lib=false; string kind; };
extern bool g_decoys, g_directives; // may programs run the C compiler and cp while they are parsed?
bool madeByDirective(const string&path); // files such programs create on purpose
Prog genProg(Rng&r,const string&dir,const string&name,int want=-1); // want: -1 any, 0 valid, 1 invalid
void putFiles(Case&c,const map<string,string>&f);
map<string,string> getFiles(const Case&c);
bool argAfter(const vector<string>&a,const string&k,string&v);
string statusStr(int st);
extern const vector<string> kFileFaults;
