// S07: processes: exit handlers and exit codes, fork, wait, exec and kill.
#include "stdrv.h"
// ops: reg k | fill k n | fork kind v text | wait pid(0: any, -1: unknown, i: i-th child) options | kill i sig | getpid | decode status | end code | die text | panic text
static const int kSigs[]={1,2,3,6,8,9,10,12,13,14,15,16,24,30,31,17,18,23,28,19,20,0};
static void genS07(Rng&r,Case&c,bool th,u64){ int n=3+r.below(th?50:18); auto txt=[&]{ return rndText(r,200,0); }; for(int i=0;i<n;i++){ switch(r.below(12)){ case 0: case 1: c.ops.push_back(strf("reg\t%d",(int)r.below(6))); break; case 2: c.ops.push_back(r.chance(0.15)?strf("fill\t%d\t%d",(int)r.below(6),(int)(r.chance(0.4)?1020+r.below(9):r.below(60))):strf("reg\t%d",(int)r.below(6))); break; case 3: case 4: case 5: { int k=r.below(10); int v=k==2?kSigs[r.below(22)]:k==5?(int)r.below(40):r.chance(0.7)?(int)r.below(256):(int)r.range(-70000,70000); c.ops.push_back(strf("fork\t%d\t%d\t",k+(r.chance(0.2)?10:0),v)+(k==6?(r.chance(0.8)?"/work/prog":r.chance(0.5)?"/work/none":"/work/noexec"):txt())); break; } case 6: case 7: case 8: case 9: c.ops.push_back(strf("wait\t%d\t%d",(int)(r.chance(0.4)?0:r.chance(0.1)?-1:1+r.below(6)),(int)(r.chance(0.6)?0:r.below(4)))); break; case 10: c.ops.push_back(strf("kill\t%d\t%d",(int)(r.chance(0.1)?-1:1+r.below(6)),kSigs[r.below(22)])); break; default: if(r.chance(0.4)) c.ops.push_back("getpid"); else { int sg=r.below(65),ex=r.below(256); c.ops.push_back(strf("decode\t%d",(int)(r.chance(0.4)?ex<<8:r.chance(0.6)?(1+sg%64)|(r.chance(0.3)?0x80:0):0x7f|((1+sg%64)<<8)))); } } }
  switch(r.below(5)){ case 0: case 1: case 2: c.ops.push_back(strf("end\t%lld",(long long)(r.chance(0.7)?r.below(256):r.range(-70000,70000)))); break; case 3: c.ops.push_back("die\t"+txt()); break; default: c.ops.push_back("panic\t"+txt()); }
  genFaults(r,c,{"fork_fail","eintr_wait","kill_child","stop_child","exec_fail","eintr","short_write"},0.6,0.15); }
static void runS07(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s07"); struct Ch{ int kind,v; vector<int> hs; string text; int pid; bool touched=false,waited=false; }; vector<Ch> ch; vector<int> hs; map<int,vector<std::pair<int,int>>> evs; map<int,std::pair<vector<string>,vector<string>>> execd; vector<string> w; bool ending=false; int endKind=0,endCode=0; string endText; s.mkfile("/work/prog","SIMEXE",0755); s.mkfile("/work/noexec","data",0644); bool lossy=false; d.anyProc=true;
  d.flt=[&](Task&t,const char*k,const string&obj){ if(!strcmp(k,"kill_child")||!strcmp(k,"stop_child")) { for(auto&x:ch) if(x.pid==t.p->vpid){ if(!strcmp(k,"kill_child")) x.touched=true; } } (void)obj; return true; };
  d.ev=[&](Task&t,u64 op,u64 a,u64,u64,u64)->long{ if(op==11){ evs[t.p->vpid].push_back({(int)(a>>32),(int)(u32)a}); return 0; } if(op==2){ u64 n=0; s.rdv(t.p,a,n); auto lst=[&](u64 q){ vector<string> r; while(true){ u64 x=0; if(!s.rdv(t.p,q,x)||!x) break; string b; s.rdstr(t.p,x,b); r.push_back(b); q+=8; } return r; }; auto av=lst(a+8); execd[t.p->vpid]={av,lst(a+8+8*(n+1))}; return 5; } return -ENOSYS; };
  d.enc=[&](const string&o,OpReq&q)->bool{ if(ending) return false; w=W(o); if(w.empty()) return false; auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; auto rest=[&](size_t k){ string t; for(size_t i=k;i<w.size();i++) t+=(i>k?"\t":"")+w[i]; return t; }; const string&n=w[0]; for(auto&x:ch){ Proc*p=s.byPid(x.pid); if(p&&p->killedBySim) x.touched=true; }
    if(n=="reg"){ q.op=1; q.b=A(1)%6; } else if(n=="fill"){ q.op=2; q.b=A(1)%6; q.c=std::min<i64>(std::max<i64>(A(2),0),1100); } else if(n=="fork"){ int al=0; for(auto&x:ch){ Proc*p=s.byPid(x.pid); if(p&&!p->zombie) al++; } if(al>=6) return false; q.op=3; q.b=A(1)%20; q.c=A(2); q.buf=rest(3); q.buf2="arg one"; } 
    else if(n=="wait"){ q.op=4; q.c=A(2)&3; i64 i=A(1); int pid=-1; if(i<0) pid=99999; else if(i>0){ if(ch.empty()) pid=4242; else pid=ch[(i-1)%ch.size()].pid; } q.b=pid; if(!(q.c&1)) { bool stuck=false; for(auto&x:ch){ Proc*p=s.byPid(x.pid); if(p&&!p->zombie&&p->jstop==~0ULL) stuck=true; } if(stuck) q.c|=1; } }
    else if(n=="kill"){ q.op=5; i64 i=A(1); if(i<0||ch.empty()) q.b=99999; else q.b=ch[(i-1)%ch.size()].pid; q.c=A(2)&63; if(q.b!=99999&&q.c&&q.c!=17&&q.c!=18&&q.c!=23&&q.c!=28) for(auto&x:ch) if(x.pid==q.b) x.touched=true; } else if(n=="getpid") q.op=6; else if(n=="decode"){ q.op=10; q.b=A(1)&0xffff; }
    else if(n=="end"||n=="die"||n=="panic"){ ending=true; endKind=n=="end"?0:n=="die"?1:2; q.op=7+endKind; q.b=A(1); endCode=(int)A(1); endText=q.buf=n=="end"?"":rest(1); for(auto p:s.procs) p->jstop=0; } else return false; return true; };
  auto errOf=[&](int pid){ string r; size_t o=0; for(auto&e:d.se->who){ if(e.first==pid) r+=d.se->data.substr(o,e.second); o+=e.second; } return r; };
  auto checkEv=[&](int pid,const vector<int>&l,int code,bool whole,const string&at){ auto&e=evs[pid]; if(e.size()>l.size()||(whole&&e.size()<l.size())){ out.bad("handlers",strf("%zu exit handlers ran, %zu are registered",e.size(),l.size())+at); return; } for(size_t i=0;i<e.size();i++) if(e[i].first!=l[i]){ out.bad("handlers",strf("handler %zu is %d instead of %d",i,e[i].first,l[i])+at); return; } else if(code>=0&&e[i].second!=code){ out.bad("handler_code",strf("a handler is given exit code %d instead of %d",e[i].second,code)+at); return; } };
  auto checkChild=[&](Ch&x,Proc*p){ string at=strf(" in a child (kind %d value %d)",x.kind,x.v); int k=x.kind%10; int st=p->status; x.waited=true; bool faultful=x.touched||p->killedBySim; if(faultful&&WIFSIGNALED(st)){ auto&e=evs[x.pid]; if(k==8&&!e.empty()&&e[0].first==97) e.erase(e.begin()); if(k==0||k==3||k==7||k==8||k==9||k==5) checkEv(x.pid,x.hs,k==0?x.v:k==5?7:k==8?-1:1,false,at); return; }
    auto ex=[&](int code){ if(!WIFEXITED(st)||WEXITSTATUS(st)!=(code&255)) out.bad("exit_code",strf("the process ended with status 0x%x instead of exit code %d",st,code&255)+at); };
    bool txt=!lossy;  auto said=[&](const string&t){ if(txt&&errOf(x.pid).find(t)==string::npos) out.bad("message","the message is not on stderr: "+esc(t,200)+at); };
    switch(k){ case 0: ex(x.v); checkEv(x.pid,x.hs,x.v,true,at); out.probes["child_exit"]++; break; case 1: ex(x.v); checkEv(x.pid,{},0,true,at); break; case 2: { int sg=x.v&63; bool ign=sg==0||sg==17||sg==18||sg==23||sg==28||sg==19||sg==20; if(ign) ex(45); else if(!WIFSIGNALED(st)||WTERMSIG(st)!=sg) out.bad("kill",strf("killed itself with signal %d, ended with status 0x%x",sg,st)+at); out.probes["child_signal"]++; break; } case 3: ex(1); checkEv(x.pid,x.hs,1,true,at); said(x.text); break; case 4: ex(2); said(x.text); break; case 5: ex(7); checkEv(x.pid,x.hs,7,true,at); break;
      case 6: { auto i=execd.find(x.pid); if(i==execd.end()){ auto&e=evs[x.pid]; bool ef=d.out.faults.count("exec_fail"); if(x.text=="/work/prog"&&!ef) out.bad("exec","execve of an executable program does not run it"+at); else { int want=x.text=="/work/none"?-ENOENT:x.text=="/work/noexec"?-EACCES:0; if(e.size()!=1||e[0].first!=99||e[0].second>=0||(!ef&&want&&e[0].second!=want)) out.bad("exec_error",strf("a failed execve reports %d",e.empty()?0:e[0].second)+at); ex(44); } } else { ex(5); vector<string> av={x.text,"arg one"}, ev={"A=1","B=two"}; if(i->second.first!=av||i->second.second!=ev) out.bad("exec_args","the program was given other arguments or environment"+at); out.probes["exec"]++; } break; }
      case 7: ex(1); checkEv(x.pid,x.hs,1,true,at); said("[file.csp:12]: reason: "+x.text); break; case 8: { int m=x.v&7; static const char*ms[]={"reached todo!()","assertion failed: ","assertion failed: ","assertion failed: ","reached unreachable!()","reached todo!(): ","subject is not implemented.","reached todo!()"}; auto&e=evs[x.pid]; if(m==7){ if(e.empty()||e[0].first!=97) out.bad("assert","a disabled or holding assertion ended the process"+at); else e.erase(e.begin()); }
        if(m>=1&&m<=3){ int c=WIFEXITED(st)?WEXITSTATUS(st):0; if(!c) out.bad("exit_code",strf("a failed assertion ended the process with status 0x%x",st)+at); checkEv(x.pid,x.hs,c,true,at); if(errOf(x.pid).find("reached todo!()")!=string::npos&&x.text.find("reached")==string::npos) out.bad("assert","the program goes on after a failed assertion"+at); out.probes["failed_assertion"]++; } else { ex(1); checkEv(x.pid,x.hs,1,true,at); } said(ms[m]+(m==2||m==3||m==5?x.text:string())); break; } default: ex(1); checkEv(x.pid,x.hs,1,true,at); } };
  auto decode=[&](int st,const OpRes&r,const string&at){ int f=(WIFEXITED(st)?1:0)|(WIFSIGNALED(st)?2:0)|(WIFSTOPPED(st)?4:0); if((int)r.t!=f){ out.bad("decode",strf("status 0x%x: exited/signaled/stopped are decoded as %lld instead of %d",st,(long long)r.t,f)+at); return; } if(WIFEXITED(st)&&r.c!=WEXITSTATUS(st)) out.bad("decode",strf("status 0x%x: exit_status is %lld",st,(long long)r.c)+at); if(WIFSIGNALED(st)&&r.d!=WTERMSIG(st)) out.bad("decode",strf("status 0x%x: term_sig is %lld",st,(long long)r.d)+at); if(WIFSTOPPED(st)&&r.e!=WSTOPSIG(st)) out.bad("decode",strf("status 0x%x: stop_sig is %lld",st,(long long)r.e)+at); };
  d.done=[&](const string&o,const OpRes&r){ string at=" in: "+esc(o,200); auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; const string&n=w[0]; if(d.faulted("eintr")||d.faulted("short_write")) lossy=true;
    if(n=="reg"){ bool can=hs.size()<1024; if((r.r!=0)!=can) out.bad("register",strf("at_exit returns %lld with %zu handlers registered",(long long)r.r,hs.size())+at); if(can) hs.push_back(A(1)%6); } else if(n=="fill"){ i64 k=std::min<i64>(d.req.c,1024-(i64)hs.size()); if(r.r!=k) out.bad("register",strf("%lld of %lld handlers were accepted instead of %lld",(long long)r.r,(long long)d.req.c,(long long)k)+at); for(i64 i=0;i<k;i++) hs.push_back(d.req.b); out.probes["many_handlers"]+=hs.size()==1024; }
    else if(n=="fork"){ if(r.r<0){ if(!d.faulted("fork_fail")) out.bad("fork","fork failed although nothing prevents it"+at); else if(r.r!=-EAGAIN) out.bad("fork_error",strf("a failed fork returns %lld",(long long)r.r)+at); } else { Proc*p=s.byPid((int)r.r); if(!p||p->ppid!=d.p->vpid){ out.bad("fork",strf("fork returns %lld, which is no child",(long long)r.r)+at); return; } Ch x; x.kind=d.req.b; x.v=(int)d.req.c; x.hs=hs; x.text=d.req.buf; x.pid=(int)r.r; if(x.kind>=10&&x.hs.size()<1024) x.hs.push_back(x.kind%6); if(p->killedBySim) x.touched=true; ch.push_back(x); } }
    else if(n=="wait"){ int pid=(int)r.r; if(pid>0){ Ch*x=nullptr; for(auto&q:ch) if(q.pid==pid) x=&q; Proc*p=nullptr; for(auto q:s.procs) if(q->vpid==pid) p=q; if(!x||!p){ out.bad("wait",strf("waitpid returns %d, which is no child",pid)+at); return; } if(d.req.b>0&&d.req.b!=pid){ out.bad("wait",strf("waitpid(%lld) returns %d",(long long)d.req.b,pid)+at); return; } int st=(int)r.s; decode(st,r,at); if(WIFSTOPPED(st)){ if(!(d.req.c&2)) out.bad("wait","a stopped child is reported without asking"+at); out.probes["stopped_child"]++; return; } if(x->waited){ out.bad("wait","a child is reported twice"+at); return; } if(!p->zombie||st!=p->status){ out.bad("wait",strf("waitpid reports status 0x%x, the child ended with 0x%x",st,p->status)+at); return; } checkChild(*x,p); out.probes["waited"]++; }
      else if(pid==0){ if(!(d.req.c&1)) out.bad("wait","waitpid without WNOHANG returns 0"+at); } else { bool any=false; for(auto&q:ch) if(!q.waited&&(d.req.b==-1||d.req.b==q.pid)) any=true; if(pid==-EINTR){ if(!d.faulted("eintr_wait")) out.bad("wait","waitpid reports an interruption that did not happen"+at); } else if(pid!=-ECHILD||any) out.bad("wait_error",strf("waitpid returns %d",pid)+at); if(r.s!=0x55aa55) out.bad("wait_status","a failed waitpid changed the status"+at); } }
    else if(n=="kill"){ bool gone=true; for(auto&q:ch) if(q.pid==d.req.b&&!q.waited) gone=false; if(gone? r.r!=-ESRCH : r.r!=0) out.bad("kill",strf("kill returns %lld",(long long)r.r)+at); }
    else if(n=="getpid"){ if(r.r!=d.p->vpid) out.bad("getpid","getpid returns another number"+at); } else if(n=="decode") decode((int)d.req.b,r,at);
    else if(ending) out.bad("returned","an exit function returned"+at); };
  d.start(); RunEnd e=s.run(); for(int i=0;i<3&&e==END_QUIET;i++){ bool st=false; for(auto p:s.procs) if(!p->zombie&&p->jstop>s.now){ p->jstop=0; st=true; } if(!st) break; e=s.run(); }
  string at=" in: "+esc(d.curOp,200); if(e!=END_ALLDEAD){ out.bad("hang",strf("the program does not finish (%d)",(int)e)+at); return; } if(out.violation||!d.ended) return; if(d.faulted("eintr")||d.faulted("short_write")) lossy=true; if(d.p->killedBySim) return;
  int want=!ending?0:endKind==0?endCode&255:endKind==1?1:2; if(WIFSIGNALED(d.status)) out.bad("crash",strf("the program dies by signal %d",WTERMSIG(d.status))+at); else if(WEXITSTATUS(d.status)!=want) out.bad("exit_code",strf("the program ends with exit code %d instead of %d",WEXITSTATUS(d.status),want)+at); if(ending){ if(endKind<2) checkEv(d.p->vpid,hs,endKind==0?endCode:1,true,at); if(endKind&&!lossy&&errOf(d.p->vpid).find(endText)==string::npos) out.bad("message","the message is not on stderr"+at); out.probes[strf("end%d",endKind)]++; }
  for(auto&x:ch) if(!x.waited) for(auto p:s.procs) if(p->vpid==x.pid&&p->zombie){ if(p->killedBySim) x.touched=true; checkChild(x,p); } }); }
static Reg rS07({"S07",20000,100000,genS07,runS07,nullptr,"Each run registers exit handlers, forks children that end in every way a process can end (exit, die, panic, signals, exec), waits for them and kills them in random order while forks and waits fail and children are killed or stopped from outside, and compares every returned value, status, handler call and message with a process-table model.",kRealS,kStubS,kAssumeS});
