// S03: a failing system call surfaces as an error. The histories and models of S02 (files), S04
// (memory), S07 (processes), S08 (directories), S09 (threads) and S10 (test runner), under fault
// schedules that let exactly one call fail somewhere, or many.
#include "stdrv.h"
static const struct { const char*id; vector<string> kinds; } kSub[]={
  {"S02",{"open_fail","eio_read","eio_write","enospc","close_fail","lseek_fail","fstat_fail","enomem","emfile","eintr","short_read","short_write"}},
  {"S04",{"enomem"}},
  {"S07",{"fork_fail","exec_fail","eintr_wait"}},
  {"S08",{"open_fail","emfile","enomem","fstat_fail","getdents_fail","lseek_fail","close_fail"}},
  {"S09",{"thread_fail","enomem"}},
  {"S10",{"fork_fail","enomem","kill_child","eintr_wait"}}};
// classes that state: a failure was hidden, reported without cause, or left something behind
static const std::set<string> kCls={"no_error","error_state","fresh_error","leak","bad_result","invented","open_succeeds","seek_succeeds","bad_descriptor","open_refused","seek_refused","size_refused","read_refused","write_refused","close_refused","position","short_count","truncated","wrote","spurious_nil","wrong_error","block_lost","bogus_block","create_refused","join_error","detach_error","async_error","failed_runs","stray_thread","handle","lost_entries","bad_arg","outcome","totals","zombie","fork_error","exec_error","wait_error","returned","crash","hang","bad_exit","escaped"};
static void genS03(Rng&r,Case&c,bool th,u64 idx){ int k=idx%6; const Scenario&s=scenarios()[kSub[k].id]; s.gen(r,c,false,idx/6); for(auto it=c.par.begin();it!=c.par.end();) if(isPrefix("f.",it->first)||it->first=="maxfaults") it=c.par.erase(it); else ++it; c.set("sub",(i64)k);
  const auto&ks=kSub[k].kinds; bool one=r.chance(0.5); int n=one?1+r.below(2):1+r.below(3); static const double rates[]={0.02,0.05,0.1,0.25,0.5,1.0}; for(int i=0;i<n;i++) c.setd("f."+ks[r.below(ks.size())],one?rates[r.below(6)]:0.1+0.8*(r.below(1000)/1000.0)); if(one) c.set("maxfaults",1); (void)th; }
static void runS03(const Case&c,Outcome&out){ i64 k=c.geti("sub"); if(k<0||k>=6) return; scenarios()[kSub[k].id].run(c,out); out.probes[string("workload_")+kSub[k].id]++; if(!out.faults.empty()) out.probes["runs_with_failed_calls"]++; if(out.violation&&((out.faults.empty()&&out.cls!="error_state")||!kCls.count(out.cls))){ out.violation=false; out.cls=out.msg=""; out.all.clear(); } }
static Reg rS03({"S03",18000,200000,genS03,runS03,nullptr,"Each run is a history of file, memory, process, directory, thread or test-runner operations in which exactly one system call at a random place fails (half of the runs) or up to three kinds of call fail often; after every operation the returned value and the error state are compared with what the calls behind it answered, and descriptors and memory with what has to be left.",kRealS,kStubS,kAssumeS});
