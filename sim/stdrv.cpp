#include "stdrv.h"
Drv::Drv(Sim&s_,const Case&c_,Outcome&o_,const string&n):s(s_),c(c_),out(o_),name(n){ 
  s.pSwitch=c.getd("pswitch",0.1); s.maxSteps=c.geti("maxsteps",100000); s.randFreshMem=false; 
  struct stat st; if(stat((g_build+"/drv/"+name).c_str(),&st)) s.fatal("driver "+name+" was not built: it does not compile with this tree's std");
  s.mountHost("/drv/"+name,g_build+"/drv/"+name); s.mkdirp("/work"); s.mkdirp("/tmp"); pend=c.ops;
  s.fc.filter=[this](Task&t,const char*k,const string&obj){ if(obj=="brk") return false; /* only the C library below the thread driver asks for that */ if(!inOp||(!anyProc&&t.p!=p)) return false; return flt?flt(t,k,obj):true; };
  s.onExit=[this](Proc&q){ if(&q==p){ ended=true; status=q.status; inOp=false; } };
  s.hyper=[this](Task&t,u64 op,u64 a,u64 b,u64 cc,u64 d)->long{ if(op!=10) return ev?ev(t,op,a,b,cc,d):-ENOSYS; if(t.p!=p){ out.bad("escaped","a child process of the driver returned from the operation it was created in: "+esc(curOp,200)); s.procExit(t.p,9); return SYS_GONE; } 
    addr=a; i64 h[10]; if(!s.rd(p,a,h,80)) return -EFAULT;
    if(inOp){ inOp=false; OpRes r; r.a=h[1]; r.b=h[2]; r.c=h[3]; r.d=h[4]; r.e=h[5]; r.r=h[6]; r.err=h[7]; r.s=h[8]; r.t=h[9]; if(r.err>=(1LL<<40)){ r.err-=1LL<<40; if(c.prop=="S03") out.bad("error_state",strf("is_some() contradicts the error state %lld",(long long)r.err)+" after: "+esc(curOp,200)); } s.logv(r.r); s.logv(r.err); if(done) done(curOp,r); }
    while(true){ if(idx>=pend.size()||out.violation){ i64 z=0; s.wr(p,a,&z,8); return 0; } curOp=pend[idx++]; OpReq q; if(!enc(curOp,q)) continue; if(s.logStrings) s.log("op "+esc(curOp,300)); req=q; i64 w[10]={q.op,q.a,q.b,q.c,q.d,q.e,q.f,0,0,0}; s.wr(p,a,w,80); string x=q.buf.substr(0,65535); x.push_back(0); s.wr(p,a+80,x.data(),x.size()); if(!q.buf2.empty()){ string y=q.buf2.substr(0,65535); y.push_back(0); s.wr(p,a+80+65536,y.data(),y.size()); } inOp=true; faults0=s.faultsFired; f0=out.faults; out.probes["ops"]++; return 0; } }; }
Proc* Drv::start(FileP in,FileP o,FileP e){ vector<string> env={"HOME=/home/u","PATH=/usr/bin:/bin"}; FileP co=o?o:s.capture(so,"stdout"), ce=e?e:s.capture(se,"stderr"); p=s.spawn("/drv/"+name,{name},env,"/work",in?in:s.devnull(),co,ce); return p; }
bool Drv::run(int want){ RunEnd e=s.run(); if(wantExit) want=*wantExit; string at=inOp||!curOp.empty()?" in: "+esc(curOp,300):""; if(e!=END_ALLDEAD&&!ended){ out.bad("hang",strf("the program does not finish (%d)",(int)e)+at); return false; } if(ended&&WIFSIGNALED(status)){ out.bad("crash",strf("the program dies by signal %d",WTERMSIG(status))+at); return false; } if(ended&&WIFEXITED(status)&&WEXITSTATUS(status)!=want){ out.bad("bad_exit",strf("the program ends with exit code %d instead of %d",WEXITSTATUS(status),want)+at); return false; } return ended; }
