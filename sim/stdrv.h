// Scenarios S01-S12: real programs compiled from /verif/drivers with the cspc and std under test.
// A driver asks the simulator for its next operation (hypercall 10), performs it with std and
// hands the result back with the next request.
#pragma once
#include "scn.h"
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <cerrno>
#include <algorithm>
struct OpReq { i64 op=0,a=0,b=0,c=0,d=0,e=0,f=0; string buf,buf2; };
struct OpRes { i64 r=0,err=0,s=0,t=0,a=0,b=0,c=0,d=0,e=0; };
struct Drv { Sim&s; const Case&c; Outcome&out; string name; Proc*p=nullptr; Task*tk=nullptr; u64 addr=0; bool inOp=false; size_t idx=0; shared_ptr<Capture> so,se; u64 faults0=0; map<string,u64> f0; OpReq req; bool ended=false; int status=-1; bool anyProc=false; const int*wantExit=nullptr;
  vector<string> pend; // operations to execute (copied from the case)
  std::function<bool(const string&op,OpReq&)> enc;          // turn an operation into a request; false: skip it
  std::function<void(const string&op,const OpRes&)> done;  // check the result
  std::function<long(Task&,u64 op,u64 a,u64 b,u64 c,u64 d)> ev;  // other hypercalls
  std::function<bool(Task&,const char*kind,const string&obj)> flt;
  string curOp;
  Drv(Sim&s,const Case&c,Outcome&o,const string&name);
  Proc* start(FileP in=nullptr,FileP o=nullptr,FileP e=nullptr);
  string outBuf(size_t n){ string d(n,0); if(n) s.rd(p,addr+80+65536,&d[0],n); return d; }
  string inBuf(size_t n){ string d(n,0); if(n) s.rd(p,addr+80,&d[0],n); return d; }
  string cstr(size_t max=65535){ string d=outBuf(max); size_t z=d.find('\0'); return z==string::npos?d:d.substr(0,z); }
  bool faulted(const char*k){ auto i=out.faults.find(k); auto q=f0.find(k); return i!=out.faults.end()&&i->second>(q==f0.end()?0:q->second); } // did this kind fire during the current operation?
  bool faultedAny(){ return s.faultsFired>faults0; }
  // run to the end and report crashes and hangs; true if the driver ended with exit code 0
  bool run(int wantExit=0); };
// words of an operation: tab separated
inline vector<string> W(const string&o){ return split(o,'\t'); }
inline i64 N(const string&s){ return (i64)strtoull(s.c_str(),0,0); }
inline string rndText(Rng&r,size_t maxLen,int kind){ size_t n=r.chance(0.1)?0:r.chance(0.7)?1+r.below(std::min<size_t>(maxLen,40)):1+r.below(maxLen); string t(n,0); for(auto&ch:t){ ch=kind==0?(char)(33+r.below(94)):kind==1?(char)(1+r.below(255)):(char)('a'+r.below(3)); if(ch=='\t') ch='.'; } return t; }
inline bool subseq(const string&a,const string&b){ size_t i=0; for(char ch:b) if(i<a.size()&&a[i]==ch) i++; return i==a.size(); }
static const vector<string> kRealS={"the std library from /repo's working tree, compiled by the cspc built from it","the compiled driver program (linked and loaded as any CSpydr program)","glibc's dynamic loader"};
static const vector<string> kStubS={"kernel: file system, processes, memory placement, clock, terminal, network (simulated)"};
static const vector<string> kAssumeS={"the simulated system calls follow Linux semantics","CPU instructions between system calls are executed natively and are deterministic"};
