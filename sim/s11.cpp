// S11: terminal control reaches the right terminal unchanged.
#include "stdrv.h"
#include "s11.inc.h"
// ops: get f s | set f s act | gwin f s | swin f s | brk f dur | drain f | flush f q | flow f a | sid f | ospeed s k | ispeed s k | gos s | gis s | clear | flag s k | cc s k v | wsize s r c | wpix s x y | line s v | raw s v v
static const int kFds[]={10,11,12,13,14,99,-1}; // two terminals, the first again, a file, a pipe, closed, invalid
static const int nFlags=sizeof kFl/sizeof*kFl, nCc=sizeof kCc/sizeof*kCc;
static void genS11(Rng&r,Case&c,bool th,u64){ int n=6+r.below(th?100:40); c.set("seed",(i64)r.below(1u<<30)); auto f=[&]{ return (int)(r.chance(0.8)?r.below(3):r.below(7)); }; auto sl=[&]{ return (int)r.below(3); };
  for(int i=0;i<n;i++) switch(r.below(24)){ case 0: case 1: case 2: case 3: c.ops.push_back(strf("get\t%d\t%d",f(),sl())); break; case 4: case 5: case 6: case 7: c.ops.push_back(strf("set\t%d\t%d\t%d",f(),sl(),(int)(r.chance(0.85)?r.below(3):r.chance(0.5)?-1-(int)r.below(3):3+(int)r.below(5)))); break; case 8: case 9: c.ops.push_back(strf("gwin\t%d\t%d",f(),sl())); break; case 10: case 11: c.ops.push_back(strf("swin\t%d\t%d",f(),sl())); break; case 12: c.ops.push_back(strf("brk\t%d\t%d",f(),(int)r.below(5))); break; case 13: c.ops.push_back(strf("drain\t%d",f())); break; case 14: c.ops.push_back(strf("flush\t%d\t%d",f(),(int)r.below(5)-(r.chance(0.1)?2:0))); break; case 15: c.ops.push_back(strf("flow\t%d\t%d",f(),(int)r.below(6)-(r.chance(0.1)?2:0))); break; case 16: c.ops.push_back(strf("sid\t%d",f())); break;
    case 17: c.ops.push_back(strf("%s\t%d\t%lld",r.chance(0.6)?"ospeed":"ispeed",sl(),(long long)(r.chance(0.7)?r.below(16):r.chance(0.4)?010001+r.below(14):r.next()&0xffffffff))); break; case 18: c.ops.push_back(strf("%s\t%d",r.chance(0.5)?"gos":"gis",sl())); break; case 19: c.ops.push_back(r.chance(0.3)?string("clear"):strf("line\t%d\t%d",sl(),(int)r.below(256))); break; case 20: case 21: c.ops.push_back(strf("flag\t%d\t%d",sl(),(int)r.below(nFlags))); break; case 22: c.ops.push_back(strf("cc\t%d\t%d\t%d",sl(),(int)r.below(nCc),(int)r.below(256))); break; default: c.ops.push_back(r.chance(0.2)?strf("raw\t%d\t%lld\t%lld",sl(),(long long)(r.next()&0xffffffff),(long long)(r.next()&0xffffffff)):strf("%s\t%d\t%d\t%d",r.chance(0.5)?"wsize":"wpix",sl(),(int)r.below(65536),(int)r.below(65536))); }
  genFaults(r,c,{"ioctl_fail"},0.4,0.2); }
struct Con { u32 f[4]={0}; u8 line=0; u32 is=0,os=0; u8 cc[32]={0}; u16 w[4]={0}; };
static void runS11(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s11"); Rng rr((u64)c.geti("seed")+5); vector<string> w; Con m[3]; std::shared_ptr<Tty> ty[2]; Tty want[2]; FileP fl[2]; u64 size=0; int fi=0,si=0; i64 x=0,y=0; size_t so0=0; bool st=false; string mem(16384,0); for(auto&ch:mem) ch=(char)rr.next();
  for(int i=0;i<2;i++){ ty[i]=make_shared<Tty>(); for(int k=0;k<64;k++) ty[i]->termios[k]=rr.next(); for(int k=0;k<4;k++) ty[i]->win[k]=rr.next(); ty[i]->sid=100+rr.below(30000); memcpy(want[i].termios,ty[i]->termios,64); memcpy(want[i].win,ty[i]->win,8); fl[i]=make_shared<OpenFile>(); fl[i]->t=F_TTY; fl[i]->tty=ty[i]; fl[i]->id=++s.fileId; fl[i]->path=strf("/dev/pts/%d",i); fl[i]->flags=O_RDWR; }
  s.mkfile("/work/f","abc");
  auto isTty=[&]{ return fi<3; }; auto T=[&]{ return fi==1?1:0; };
  d.enc=[&](const string&o,OpReq&q)->bool{ w=W(o); if(w.empty()) return false; if(!st){ st=true; for(int k=0;k<2;k++){ d.p->fds[10+k].f=fl[k]; } d.p->fds[12].f=fl[0]; auto f=make_shared<OpenFile>(); f->t=F_INODE; f->ino=s.lookup("/work/f"); f->path="/work/f"; f->flags=O_RDWR; f->id=++s.fileId; d.p->fds[13].f=f; auto pp=make_shared<Pipe>(); pp->readers=pp->writers=1; auto g=make_shared<OpenFile>(); g->t=F_PIPE_R; g->pipe=pp; g->id=++s.fileId; d.p->fds[14].f=g; s.wr(d.p,d.addr+80+65536,mem.data(),mem.size());
      for(int k=0;k<3;k++){ const u8*b=(const u8*)mem.data()+1024+256*k; memcpy(m[k].f,b,16); m[k].line=b[16]; memcpy(m[k].cc,b+17,32); memcpy(&m[k].is,b+52,4); memcpy(&m[k].os,b+56,4); memcpy(m[k].w,mem.data()+4096+64*k,8); } }
    auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; auto mod=[](i64 v,i64 n){ return (int)(((v%n)+n)%n); }; const string&n=w[0]; fi=0; si=0; x=y=0; static const vector<string> nm={"get","set","gwin","swin","brk","drain","flush","flow","sid","ospeed","ispeed","gos","gis","clear","flag","cc","wsize","wpix","line","raw"}; int op=0; for(size_t i=0;i<nm.size();i++) if(nm[i]==n) op=i+1; if(!op) return false;
    if(op<=9){ fi=mod(A(1),7); if(op<=4) si=mod(A(2),3), x=A(3); else x=A(2); } else if(op!=14){ si=mod(A(1),3); x=A(2); y=A(3); if(op==15) x=mod(x,nFlags); if(op==16) x=mod(x,nCc),y&=255; if(op==19) x&=255; }
    q.op=op; q.a=kFds[fi]; q.b=si; q.c=x; q.d=y; so0=d.so->data.size(); return true; };
  d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; string at=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&t){ out.bad(cl,t+at); }; int op=d.req.op; int R=(int)r.r; bool flt=d.faulted("ioctl_fail"); Con&k=m[si]; 
    if(!size){ if(r.s<52||r.s>256){ bad("size",strf("Console has %lld bytes, a terminal's attributes do not fit",(long long)r.s)); return; } size=r.s; if(r.t!=8) bad("size","WindowSize has not the size the kernel uses"); }
    if(op<=9){ Tty&t=want[T()]; string rq; bool ok=isTty()&&!flt, valid=true; u32 u[4];
      switch(op){ case 1: rq="TCGETS"; if(ok){ memcpy(k.f,t.termios,16); k.line=t.termios[16]; memcpy(k.cc,t.termios+17,19); } break; case 2: valid=x>=0&&x<=2; rq=strf("TCSETS+%d",(int)x); if(ok&&valid){ memcpy(t.termios,k.f,16); t.termios[16]=k.line; memcpy(t.termios+17,k.cc,19); } break; case 3: rq="TIOCGWINSZ"; if(ok) memcpy(k.w,t.win,8); break; case 4: rq="TIOCSWINSZ"; if(ok) memcpy(t.win,k.w,8); break; case 5: rq="TCSBRK 0"; break; case 6: rq="TCSBRK 1"; break; case 7: valid=x>=0&&x<=2; rq=strf("TCFLSH %d",(int)x); break; case 8: valid=x>=0&&x<=3; rq=strf("TCXONC %d",(int)x); break; case 9: rq="TIOCGSID"; break; } (void)u;
      if(ok&&valid) t.log.push_back(rq); int wr=op==9?ty[T()]->sid:0; if(ok&&valid){ if(R!=wr) bad("result",strf("the call returns %d instead of %d",R,wr)); out.probes[n+"_ok"]++; } else { if(R>=0) bad("failure_hidden",strf("the call returns %d although %s",R,!valid?"its argument is invalid":isTty()?"the request failed":"this is not a terminal")); out.probes[n+"_failed"]++; } }
    else switch(op){ case 10: case 11: { static const u32 b[]={0,1,2,3,4,5,6,7,010,011,012,013,014,015,016,017}; u32 v=x>=0&&x<16?b[x]:(u32)x; if(op==11&&!v){ if(R!=0) bad("result",strf("the call returns %d",R)); break; } if(v&~0x100fu){ if(R>=0) bad("failure_hidden","an invalid speed is accepted"); if(!r.err) bad("no_error","an invalid speed sets no error"); } else { k.f[2]=(k.f[2]&~0x100fu)|v; if(R) bad("result",strf("setting a speed returns %d",R)); out.probes["speed"]++; } break; }
      case 12: case 13: if((u32)r.r!=(k.f[2]&0x100fu)) bad("result",strf("the speed is reported as 0%o instead of 0%o",(u32)r.r,k.f[2]&0x100fu)); break;
      case 14: { string t=d.so->data.substr(so0); if(t!="\x1b[1;1H\x1b[2J") bad("clear","clearing the screen writes "+esc(t,100)); so0=d.so->data.size(); out.probes["clear"]++; break; }
      case 15: k.f[kFl[x].field]^=kFl[x].bit; break; case 16: { static const int pos[]={0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}; k.cc[pos[x]]=y; break; } case 17: k.w[0]=x; k.w[1]=y; break; case 18: k.w[2]=x; k.w[3]=y; break; case 19: k.line=x; break; case 20: k.is=x; k.os=y; break; }
    if(out.violation) return;
    // the terminals
    for(int i=0;i<2;i++){ if(memcmp(want[i].termios,ty[i]->termios,36)){ size_t b=0; while(want[i].termios[b]==ty[i]->termios[b]) b++; bad("terminal",strf("terminal %d's attributes differ from what was set, first at byte %zu",i,b)); return; } if(memcmp(want[i].win,ty[i]->win,8)){ bad("terminal",strf("terminal %d's window size differs from what was set",i)); return; } if(want[i].log!=ty[i]->log){ string g,e; for(size_t q=0;q<std::max(want[i].log.size(),ty[i]->log.size());q++) if(q>=want[i].log.size()||q>=ty[i]->log.size()||want[i].log[q]!=ty[i]->log[q]){ g=q<ty[i]->log.size()?ty[i]->log[q]:"nothing"; e=q<want[i].log.size()?want[i].log[q]:"nothing"; break; } bad("request",strf("terminal %d was asked for %s instead of %s",i,g.c_str(),e.c_str())); return; } if(!ty[i]->out.empty()){ bad("terminal","something was written to the terminal"); return; } }
    if(d.so->data.size()!=so0) bad("output","something was written to the standard output");
    // the caller's memory
    string ob=d.outBuf(9216); for(int i=0;i<3;i++){ const u8*q=(const u8*)ob.data()+8192+256*i; u32 f[7]; memcpy(f,q,28); static const char*fn[]={"iflag","oflag","cflag","lflag","line","ispeed","ospeed"}; u32 e[7]={m[i].f[0],m[i].f[1],m[i].f[2],m[i].f[3],m[i].line,m[i].is,m[i].os}; for(int b=0;b<7;b++) if(f[b]!=e[b]){ bad("caller",strf("%s of console %d is 0x%x instead of 0x%x",fn[b],i,f[b],e[b])); return; } for(int b=0;b<32;b++) if(q[28+b]!=m[i].cc[b]){ bad("caller",strf("control character %d of console %d is %u instead of %u",b,i,q[28+b],m[i].cc[b])); return; } if(memcmp(q+64,m[i].w,8)){ bad("caller",strf("window size %d differs",i)); return; } }
    for(size_t b=0;b<8192;b++){ bool in=false; for(int i=0;i<3;i++) in|=(b>=1024u+256*i&&b<1024u+256*i+size)||(b>=4096u+64*i&&b<4096u+64*i+8); if(!in&&ob[b]!=mem[b]){ bad("caller",strf("the caller's memory %zd bytes behind console 0 was changed",(ssize_t)b-1024)); return; } } };
  d.start(); d.run(); }); }
static Reg rS11({"S11",12000,80000,genS11,runS11,nullptr,"Each run performs up to 46 (thorough: 106) requests on two simulated terminals (one of them under two descriptors), a file, a pipe and closed descriptors: getting, changing by every named flag, control character and speed, and setting attributes and window sizes, flush, flow, drain, break and session requests, while requests fail; after every one both terminals' state and request log and all of the caller's memory are compared with a model.",kRealS,kStubS,kAssumeS});
