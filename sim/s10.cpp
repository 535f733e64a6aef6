// S10: the unit test runner reports every test's outcome truthfully.
#include "stdrv.h"
// ops: suite n plan;plan;...   (plan: act:value,act:value,...)  | one idx plan | bad k
static string genPlan(Rng&r,bool th,int depth=0){ vector<string> a; int n=r.below(4); for(int i=0;i<n;i++) switch(r.below(9)){ case 0: case 1: case 2: a.push_back("1:0"); break; case 3: a.push_back("4:0"); break; case 4: a.push_back("5:0"); break; case 5: a.push_back(strf("14:%d",(int)r.below(100))); break; case 6: a.push_back(r.chance(0.5)?strf("15:%d",(int)r.below(30)):"16:0"); break; case 7: a.push_back(r.chance(0.5)?strf("18:%d",(int)r.below(256)):"20:0"); break; default: if(depth==0&&r.chance(0.25)) a.push_back("19:0"); else a.push_back("1:0"); }
  auto fails=[&]{ if(r.chance(0.6)) return strf("2:%d",(int)(r.chance(0.85)?1+r.below(3):r.chance(0.6)?254+r.below(5):r.chance(0.1)?510+r.below(4):1+r.below(100))); return string("3:0"); };
  switch(r.below(11)){ case 0: case 1: case 2: break; case 3: case 4: a.push_back(fails()); break; case 5: a.push_back("7:0"); break; case 6: a.push_back(fails()); a.push_back("7:0"); break; case 7: a.push_back("6:0"); break; case 8: { static const int sg[]={1,2,3,4,6,7,8,9,10,11,12,13,14,15}; a.push_back(strf("8:%d",sg[r.below(14)])); break; } case 9: a.push_back(strf("%d:%d",r.chance(0.5)?9:10,(int)(r.chance(0.5)?r.below(4):r.below(256)))); break; default: a.push_back(strf("%d:0",(int)(r.chance(0.2)?17:11+r.below(3)))); } 
  if(r.chance(0.1)&&a.size()>1) std::swap(a[0],a[a.size()-1]); (void)th; string o; for(auto&x:a) o+=(o.empty()?"":",")+x; return o; }
static void genS10(Rng&r,Case&c,bool th,u64){ int n=1+r.below(th?6:3); static const int ns[]={1,2,5,12}; for(int i=0;i<n;i++){ if(r.chance(0.15)) c.ops.push_back(strf("one\t%d\t",(int)(r.chance(0.8)?r.below(5):r.chance(0.5)?5:r.below(100)))+genPlan(r,th)); else if(r.chance(0.06)) c.ops.push_back(strf("bad\t%d",(int)r.below(2))); else { int k=ns[r.below(4)]; string o=strf("suite\t%d\t",k); bool nice=r.chance(0.2); for(int j=0;j<k;j++) o+=(j?";":"")+(nice&&r.chance(0.9)?"1:0":genPlan(r,th)); c.ops.push_back(o); } }
  genFaults(r,c,{"fork_fail","eintr_wait","kill_child","enomem","eintr","short_write"},0.5,0.12); }
static void runS10(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s10"); s.maxSteps=400000; d.anyProc=true; vector<string> w; s.mkfile("/work/prog","SIMEXE",0755); struct T{ vector<std::pair<int,i64>> plan; vector<int> pids; map<int,size_t> at; map<int,bool> fin; }; vector<T> ts; size_t textAt=0; vector<int> order; map<int,int> childOf; map<int,int> innerN; vector<int> forks; bool inSuite=false; size_t whoPos=0; (void)whoPos;
  s.onSpawn=[&](Proc&q){ if(inSuite&&d.p&&q.ppid==d.p->vpid) forks.push_back(q.vpid); };
  d.ev=[&](Task&t,u64 op,u64 a,u64,u64,u64)->long{ if(op==2) return 0; if(op!=11) return -ENOSYS; i64 h[4]; if(!s.rd(t.p,a,h,32)) return -EFAULT; int pid=t.p->vpid; i64 act=0,v=0; if(h[1]>0){ int&k=innerN[pid]; static const int acts[][2]={{1,0},{2,1},{7,0},{9,1},{0,0}}; auto&q=acts[(pid+h[0]+k)%5]; if(k==0){ act=q[0]; v=q[1]; } k++; }
    else { if(pid==d.p->vpid){ out.bad("not_isolated","a test runs in the runner's own process in: "+esc(d.curOp,200)); return 0; } size_t i=h[0]; if(i<ts.size()){ T&x=ts[i]; if(!x.at.count(pid)){ x.pids.push_back(pid); order.push_back((int)i); } size_t&k=x.at[pid]; if(k<x.plan.size()){ act=x.plan[k].first; v=x.plan[k].second; k++; } else x.fin[pid]=true; } }
    i64 o[2]={act,v}; s.wr(t.p,a+16,o,16); return 0; };
  auto parse=[](const string&p){ T t; if(!p.empty()) for(auto&x:split(p,',')){ auto q=split(x,':'); t.plan.push_back({atoi(q[0].c_str()),q.size()>1?strtoll(q[1].c_str(),0,10):0}); } return t; };
  auto parentText=[&]{ string r; size_t o=0; for(auto&e:d.so->who){ if(e.first==d.p->vpid) r+=d.so->data.substr(o,e.second); o+=e.second; } return r; };
  d.enc=[&](const string&o,OpReq&q)->bool{ w=W(o); if(w.empty()) return false; auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; ts.clear(); order.clear(); forks.clear(); innerN.clear(); textAt=parentText().size(); const string&n=w[0]; inSuite=false; 
    if(n=="suite"){ i64 k=A(1); if(k!=1&&k!=2&&k!=5&&k!=12) return false; q.op=k; auto ps=split(w.size()>2?w[2]:"",';'); for(i64 i=0;i<k;i++) ts.push_back(parse(i<(i64)ps.size()?ps[i]:"")); inSuite=true; } else if(n=="one"){ q.op=20; q.b=A(1); ts.resize(5); if(A(1)>=0&&A(1)<5) ts[A(1)]=parse(w.size()>2?w[2]:""); inSuite=true; } else if(n=="bad") q.op=A(1)?21:22; else return false; return true; };
  // what really happened to test i: 0 passed, 1 skipped, 2 failed
  auto truth=[&](T&x,string&why)->int{ if(x.pids.empty()){ why="it was never run"; return 2; } int pid=x.pids[0]; Proc*p=nullptr; for(auto q:s.procs) if(q->vpid==pid) p=q; if(!p||!p->zombie){ why="its process is still alive"; return 2; } if(WIFSIGNALED(p->status)){ why=strf("its process was killed by signal %d",WTERMSIG(p->status)); return 2; } size_t k=x.at[pid]; for(size_t i=0;i<k;i++){ int a=x.plan[i].first; i64 v=x.plan[i].second; if((a==2&&v>0)||a==3||a==6){ why="an assertion failed"; return 2; } if(a==7&&i+1==k){ why="it asked to be skipped"; return 1; } } if(x.fin[pid]){ why="it completed without failed assertions"; return 0; } why="it ended before it completed"; return 2; };
  d.done=[&](const string&o,const OpRes&r){ string at=" in: "+esc(o,300); const string&n=w[0]; static const char*nm[]={"OK","SKIP","FAIL"}; if(n=="bad"){ if(w.size()>1&&atoi(w[1].c_str())){ if(r.r!=2) out.bad("bad_arg","running no test does not fail"+at); } if(!r.err) out.bad("no_error","running a nil suite sets no error"+at); return; }
    string txt; { string t=parentText().substr(textAt); for(size_t i=0;i<t.size();i++){ if(t[i]==27&&i+1<t.size()&&t[i+1]=='['){ while(i<t.size()&&t[i]!='m') i++; } else txt+=t[i]; } } bool lossy=d.faulted("enomem");
    vector<int> want; vector<string> whys; int cnt[3]={0,0,0}; bool single=n=="one"; i64 only=single?d.req.b:-1; for(size_t i=0;i<ts.size();i++){ if(single&&(i64)i!=only){ if(!ts[i].pids.empty()) out.bad("wrong_test",strf("test %zu ran",i)+at); continue; } string why; if(ts[i].pids.size()>1){ out.bad("twice",strf("test %zu ran %zu times",i,ts[i].pids.size())+at); return; } int v=truth(ts[i],why); want.push_back(v); whys.push_back(why); cnt[v]++; 
      if(ts[i].pids.empty()&&!d.faulted("fork_fail")&&!d.faulted("enomem")&&!d.faulted("kill_child")) { out.bad("not_run",strf("test %zu was not run",i)+at); return; } out.probes[nm[v]]++; }
    for(size_t i=1;i<order.size();i++) if(order[i]<=order[i-1]) out.bad("order",strf("test %d ran after test %d",order[i],order[i-1])+at); for(int f:forks){ Proc*p=nullptr; for(auto q:s.procs) if(q->vpid==f) p=q; if(p&&!p->reaped) out.bad("zombie","a test's process was not waited for"+at); }
    if(single){ if(only<0||only>=5){ if(r.r!=2||!r.err) out.bad("bad_arg",strf("running test %lld of 5 returns %lld, error %lld",(long long)only,(long long)r.r,(long long)r.err)+at); return; } if(r.r!=want[0]) out.bad("outcome",strf("test reported %s although %s",r.r>=0&&r.r<3?nm[r.r]:"?",whys[0].c_str())+at); }
    else { i64 p[3]; string b=d.outBuf(24); memcpy(p,b.data(),24); if(r.r!=cnt[2]||p[0]!=cnt[0]||p[1]!=cnt[1]||p[2]!=cnt[2]){ string e; for(size_t i=0;i<whys.size();i++) e+=strf(" %zu: ",i)+whys[i]+";"; out.bad("totals",strf("reported %lld ok, %lld skipped, %lld failed (returns %lld), really %d, %d, %d:",(long long)p[0],(long long)p[1],(long long)p[2],(long long)r.r,cnt[0],cnt[1],cnt[2])+e.substr(0,400)+at); return; } }
    if(!lossy){ size_t pos=0; size_t N=single?5:ts.size(); for(size_t j=0;j<want.size();j++){ size_t i=single?only:j; string head=strf("%zu/%zu: `t%zu`",i+1,N,i); size_t q=txt.find(head,pos); if(q==string::npos){ out.bad("report",strf("the report does not mention test %zu in its place",i)+at); return; } pos=q+head.size(); size_t e=j+1<want.size()?txt.find("Running test",pos):txt.find('\n',txt.find("[",pos)); string seg=txt.substr(pos,e==string::npos?string::npos:e-pos); size_t b=seg.rfind('['); string tag; if(b!=string::npos) for(size_t k=b+1;k<seg.size()&&seg[k]!=']';k++) if(isalpha((u8)seg[k])) tag+=seg[k]; if(tag!=nm[want[j]]){ out.bad("report",strf("the report says `%s` about test %zu although %s",tag.c_str(),i,whys[j].c_str())+at); return; } } } 
    out.probes["suites"]++; };
  d.start(); d.run(); }); }
static Reg rS10({"S10",12000,80000,genS10,runS10,nullptr,"Each run executes up to three (thorough: six) test suites of 1 to 12 tests that pass, fail up to 513 assertions, skip, exit, die, panic, crash, exec, fork or run nested suites, while forks, waits and allocations fail and test processes are killed from outside, and compares the returned totals and the printed report with what really happened to every test's process.",kRealS,kStubS,kAssumeS});
