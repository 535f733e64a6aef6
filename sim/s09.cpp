// S09: threads run their function once with their own handle, and join waits for them.
#include "stdrv.h"
// ops (tab separated): create k steps mode | join k | rejoin k | detach k | async steps mode | stale steps mode | drop k steps mode | equal i j | udata k | nil | dnil | handler | sleep n | storm k steps mode n detach | exit code | ret code | quit k steps mode code
static void genS09(Rng&r,Case&c,bool th,u64){ int n=3+r.below(th?30:12); auto mode=[&]{ int m=0; if(r.chance(0.3)) m|=1; if(r.chance(0.4)) m|=2; if(r.chance(0.3)) m|=4; if(r.chance(0.15)) m|=8; if(r.chance(0.2)) m|=16; return m; }; auto steps=[&]{ return (int)(r.chance(0.2)?0:1+r.below(th?12:6)); };
  for(int i=0;i<n;i++){ int k=r.below(r.chance(0.5)?3:7); switch(r.below(20)){ case 0: case 1: case 2: case 3: case 4: case 5: c.ops.push_back(strf("create\t%d\t%d\t%d",k,steps(),mode())); break; case 6: case 7: case 8: case 9: c.ops.push_back(strf("join\t%d",k)); break; case 10: c.ops.push_back(strf("rejoin\t%d",k)); break; case 11: c.ops.push_back(strf("detach\t%d",k)); break; case 12: c.ops.push_back(strf("async\t%d\t%d",steps(),mode())); break; case 13: c.ops.push_back(strf("stale\t%d\t%d",steps(),mode())); break; case 14: case 15: c.ops.push_back(strf("drop\t%d\t%d\t%d",k,steps(),mode())); break; case 16: c.ops.push_back(strf("equal\t%d\t%d",k,(int)r.below(7))); break; case 17: c.ops.push_back(strf("udata\t%d",k)); break; case 18: c.ops.push_back(r.chance(0.5)?"nil":r.chance(0.5)?"dnil":"handler"); break; case 19: if(r.chance(0.3)){ c.ops.push_back(strf("storm\t%d\t%d\t%d\t%d\t%d",k,(int)r.below(3),mode()&6,8+(int)r.below(8),(int)r.chance(0.7))); break; } [[fallthrough]]; default: c.ops.push_back(strf("sleep\t%d",(int)r.below(30))); } }
  if(r.chance(0.4)) c.ops.push_back(r.chance(0.3)?strf("quit\t%d\t%d\t%d\t%d",(int)r.below(7),steps(),mode()|32,(int)r.below(256)):strf("%s\t%d",r.chance(0.5)?"exit":"ret",(int)r.below(256))); else if(r.chance(0.7)) for(int k=0;k<7;k++) c.ops.push_back(strf("join\t%d",k));
  c.set("pswitch",r.chance(0.3)?0.02:r.chance(0.5)?0.2:0.6); genFaults(r,c,{"thread_fail","enomem","futex_spurious","sleep_intr"},0.25,0.4); }
static bool req_is_create(const vector<string>&w){ return !w.empty()&&(w[0]=="create"||w[0]=="drop"||w[0]=="async"||w[0]=="stale"); }
static bool req_same(const vector<string>&w){ return w.size()>2&&w[1]==w[2]; }
static void runS09(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s09"); struct T{ int st=0; i64 gen=0; u64 h=0, startH=0; int started=0, ended=0, mode=0, steps=0, did=0; i64 sum=0; bool nested=false, nestEnd=true; Task*tk=nullptr; }; T ts[8]; vector<string> w; int k=0; i64 gen=0, shared=0; int handlers=0, ran=0; int want=0; bool leaving=false; u64 old=0; bool inDrop=false, gone=false, quitting=false; int bigMaps=0; bool storm=false;
  s.sysHook=[&](Task&t,int nr,u64*a,long&)->bool{ if(t.p==d.p){ if(nr==SYS_exit_group||(nr==SYS_exit&&!d.p->tasks.empty()&&d.p->tasks[0]==&t)) gone=true; if(storm&&nr==SYS_mmap&&d.p->tasks[0]==&t&&a[1]>=(1u<<20)) bigMaps++; } return false; };
  d.flt=[&](Task&t,const char*kd,const string&){ return strcmp(kd,"enomem")||(req_is_create(w)&&!d.p->tasks.empty()&&d.p->tasks[0]==&t); }; // glibc aborts if it cannot load libgcc for a thread's exit
  d.ev=[&](Task&t,u64 op,u64 a,u64,u64,u64)->long{ if(op!=11) return -ENOSYS; if(gone) out.bad("runs_after_exit","a thread goes on running after the program ended"); i64 e[4]; if(!s.rd(d.p,a,e,32)) return -EFAULT; int q=(int)(e[1]&7); T&x=ts[q]; if(e[0]==10){ ran++; if((i64)(int)e[2]!=want) out.bad("exit_code",strf("the exit handler is given %lld instead of %d",(long long)e[2],want)); return 0; } if(e[0]==11){ inDrop=true; x.h=e[2]; return 0; } if(e[0]==12){ if(storm){ int st=x.steps,m=x.mode; x=T(); x.gen=e[2]; x.steps=st; x.mode=m; x.st=1; if(e[2]>gen) gen=e[2]; } return 0; } if(e[0]==9){ out.bad("user_data","async: the thread has user data"); return 0; }
    if(e[0]==13) return !x.tk||x.tk->st==T_DEAD; if(e[0]!=1&&e[0]!=4&&e[2]!=x.gen){ out.bad("stray_thread",strf("an event of thread generation %lld in generation %lld of slot %d",(long long)e[2],(long long)x.gen,q)); return 0; } s.logv(e[0]*100+q);
    switch(e[0]){ case 1: if(x.st==0&&!x.started&&x.gen==0) out.bad("stray_thread",strf("a thread runs in slot %d although none was created",q)); if(x.started++) out.bad("runs_twice",strf("the function of thread %d runs a second time",q)); x.startH=e[2]; x.tk=&t; if(!e[3]) out.bad("self","self() does not equal the handle the function was given"); if(x.st>=2&&x.st!=3) out.bad("late_start","a thread starts after it was joined"); return 0;
      case 2: case 7: { if(x.ended&&!x.nested) out.bad("runs_twice","a thread goes on after its end"); if(x.st==2) out.bad("join_early",strf("thread %d still runs after join returned",q)); x.did++; i64 v=(i64)s.param("s09.v",q,1000)+1; x.sum+=v; if(e[0]==7) shared++; out.probes["steps"]++; return v; }
      case 3: if(x.ended++) out.bad("runs_twice",strf("thread %d ends twice",q)); if(x.st==2) out.bad("join_early",strf("thread %d ends after join returned",q)); if(x.mode&1) out.probes["thread_exit"]++; return 0;
      case 4: if(x.st!=3&&d.curOp.compare(0,6,"detach")&&e[2]!=EDEADLK) out.bad("self_join",strf("a thread joining itself is told %lld instead of DEADLK",(long long)e[2])); out.probes["self_join"]++; return 0;
      case 5: if(x.nested) out.bad("runs_twice","a nested thread runs twice"); x.nested=true; x.nestEnd=false; return 0; case 6: x.nestEnd=true; return 0;
      case 8: if(e[3]&&(!x.nested||!x.nestEnd)) out.bad("join_early","join of a nested thread returned before it had finished"); if(!e[3]&&x.nested) out.bad("failed_runs","a nested thread that could not be created runs"); x.nested=false; out.probes[e[3]?"nested":"nested_failed"]++; return 0; }
    return 0; };
  bool quiet=false; int pages0=0; auto pages=[&]{ int n=0; for(auto&m:d.p->maps) if(m.second.len<=4096) n++; return n; };
  d.enc=[&](const string&o,OpReq&q)->bool{ storm=false; d.p->trackMaps=true; quiet=true; for(auto&x:ts) if((x.st==1||x.st==3||x.st==4)&&!x.ended) quiet=false; pages0=pages(); w=W(o); if(w.empty()) return false; const string&n=w[0]; auto A=[&](size_t i)->i64{ return i<w.size()?(i64)strtoll(w[i].c_str(),0,10):0; }; k=(int)(A(1)%7+7)%7; auto fresh=[&](int kk,i64 st,i64 m){ T&x=ts[kk]; if(x.st==1||(x.st==3&&!x.ended)||(x.st==4&&!x.ended)) return false; x=T(); x.gen=++gen; x.steps=std::min<i64>(40,std::max<i64>(0,st)); x.mode=m&63; x.st=1; q.a=kk; q.b=x.steps; q.c=x.mode; q.d=x.gen; return true; }; inDrop=false;
    if(n=="create"){ if(!fresh(k,A(2),A(3)&31)) return false; q.op=1; } else if(n=="drop"){ if(!fresh(k,A(2),A(3)&31)) return false; q.op=5; } else if(n=="async"){ k=7; if(!fresh(7,A(1),A(2)&31)) return false; q.op=4; } else if(n=="stale"){ k=7; if(ts[7].st==1) return false; if(old!=13){ q.op=13; old=13; d.idx--; w={"older"}; return true; } old=0; if(!fresh(7,A(1),A(2)&31)) return false; q.op=9; }
    else if(n=="storm"){ i64 nn=std::min<i64>(30,std::max<i64>(0,A(4))); if(!fresh(k,A(2),A(3)&6)) return false; q.op=17; q.e=nn*2+(A(5)&1); storm=true; bigMaps=0; } else if(n=="quit"){ if(!fresh(k,A(2),A(3)|32)) return false; q.op=16; q.e=want=A(4)&255; leaving=quitting=true; } else if(n=="join"){ if(ts[k].st!=1) return false; q.op=2; q.a=k; } else if(n=="rejoin"){ if(ts[k].st!=2||!ts[k].h) return false; q.op=2; q.a=k; } else if(n=="detach"){ if(ts[k].st!=1) return false; q.op=3; q.a=k; } else if(n=="equal"){ int j=(int)(A(2)%7+7)%7; if(ts[k].st!=1||ts[j].st!=1) return false; q.op=6; q.a=k; q.d=j; } else if(n=="udata"){ if(ts[k].st!=1) return false; q.op=7; q.a=k; } else if(n=="nil") q.op=8; else if(n=="dnil") q.op=14; else if(n=="handler"){ q.op=12; handlers++; } else if(n=="sleep"){ q.op=15; q.b=A(1)&63; } else if(n=="exit"||n=="ret"){ q.op=n=="exit"?10:11; q.d=want=A(1)&255; leaving=true; int live=0; for(auto&x:ts) if(x.h&&(x.st==1||x.st==3)&&!x.ended) live++; if(live) out.probes["left_running"]++; } else return false; return true; };
  d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; string at=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&m){ out.bad(cl,m+at); }; T&x=ts[k]; bool flt=d.faulted("thread_fail")||d.faulted("enomem"); 
    auto finished=[&]{ if(x.started!=1) bad(x.started?"runs_twice":"join_early",strf("the function ran %d times when join returned",x.started)); else if(!x.ended) bad("join_early","join returned before the thread had finished"); else if((i64)r.s!=x.sum) bad("lost_write",strf("the thread computed %lld, the joining thread sees %lld",(long long)x.sum,(long long)r.s)); if(x.steps!=x.did&&!(x.mode&16)) bad("steps",strf("the thread made %d of %d steps",x.did,x.steps)); if(!(x.mode&1)&&!r.t) bad("lost_write","the flag the thread set at its end is not visible"); };
    if(n=="older"){ if(!r.r) bad("is_some","is_some is false although an error is set"); return; }
    if(n=="create"){ if(!r.r){ if(!r.err) bad("no_error","create failed without leaving an error"); if(!flt) bad("create_refused","create failed although nothing prevents it"); if(x.started) bad("failed_runs","a thread that could not be created runs"); if(quiet&&pages()!=pages0) bad("leak","a thread that could not be created leaves its handle allocated"); x.st=0; x.ended=1; out.probes["create_failed"]++; } else { x.h=r.r; if(r.err) bad("fresh_error",strf("a successful create leaves error %lld",(long long)r.err)); if(x.started&&x.startH!=x.h) bad("handle","the function was given another handle than create returned"); out.probes["created"]++; } }
    else if(n=="join"){ if(r.r){ bad("join_error",strf("join reports error %lld",(long long)r.r)); return; } finished(); if(x.startH!=x.h) bad("handle","the function was given another handle than create returned"); x.st=2; out.probes["joined"]++; }
    else if(n=="rejoin"){ if(r.r&&!r.err) bad("no_error","join reports an error that is not set"); out.probes["rejoined"]++; }
    else if(n=="detach"){ if(r.r) bad("detach_error",strf("detach reports error %lld",(long long)r.r)); x.st=3; out.probes["detached"]++; }
    else if(n=="async"||n=="stale"){ if(x.started||!flt){ finished(); if(x.started&&r.r) bad("async_error",strf("async reports error %lld although the function ran",(long long)r.r)); out.probes["async"]++; } else if(!r.r) bad("no_error","async could not run the function but reports no error"); else out.probes["async_failed"]++; x.st=x.started?2:0; x.h=0; x.ended=1; }
    else if(n=="drop"){ if(r.r==1){ finished(); if(x.started&&x.startH!=x.h) bad("handle","the function was given another handle than create returned"); x.st=2; x.h=0; out.probes["dropped"]++; } else { if(!flt) bad("create_refused","create failed although nothing prevents it"); if(x.started) bad("failed_runs","a thread that could not be created runs"); x.st=0; x.ended=1; } }
    else if(n=="storm"){ if(!flt&&bigMaps>4) bad("leak",strf("%d stacks are mapped for threads that ran one after the other",bigMaps)); x.st=2; x.h=0; x.ended=1; out.probes["storm"]++; }
    else if(n=="equal"){ bool same=req_same(w); if((r.r&255)!=(i64)same) bad("equal",strf("equal says %lld for %s threads",(long long)(r.r&255),same?"the same":"different")); }
    else if(n=="udata"){ if(r.r!=r.s) bad("user_data","get_userdata returns something else than create was given"); }
    else if(n=="nil"||n=="dnil"){ if(!r.r||!r.err) bad("no_error","nil is accepted as a thread"); }
    else if(n=="exit"||n=="ret"||n=="quit") bad("returns","the program continues after its end"); };
  d.wantExit=&want; d.start(); bool ok=d.run(); if(!ok||out.violation) return; if(ran!=(leaving&&(!strncmp(d.curOp.c_str(),"exit",4)||(quitting&&ts[k].started))?handlers:0)) out.bad("handlers",strf("%d exit handlers ran of %d",ran,handlers)); }); }
static Reg rS09({"S09",12000,60000,genS09,runS09,nullptr,"Each run creates, joins, detaches and drops up to 7 threads in a random history under random schedules, thread creation and memory failing, spurious futex wake-ups and interrupted sleeps; every thread reports its start, steps and end to the simulator, which checks them against the handles returned and the joins.",kRealS,kStubS,kAssumeS});
