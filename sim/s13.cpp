// S13: the system call wrappers pass exactly what they are given and return exactly what the kernel answers.
#include "stdrv.h"
struct WDef { const char*name; int nr; int res; int wd[6]; };
static const WDef kW[]={
#include "s13.inc.h"
};
static const int nW=sizeof kW/sizeof*kW;
// Constants: the values the system's headers give them, in groups of 64.
static const struct { const char*name; i64 val; } kC[]={
#include "s13c.inc.h"
};
static const int nC=sizeof kC/sizeof*kC;
// Structures: the kernel's layout (struct stat, utsname, pollfd, iovec, sockaddr_in, timespec, dirent64) against the fields std declares.
static const struct { const char*name; int nr; } kSt[]={{"stat",SYS_stat},{"fstat",SYS_fstat},{"lstat",SYS_lstat},{"uname",SYS_uname},{"poll",SYS_poll},{"writev",SYS_writev},{"readv",SYS_readv},{"getsockname",SYS_getsockname},{"bind",SYS_bind},{"clock_gettime",SYS_clock_gettime},{"clock_settime",SYS_clock_settime},{"nanosleep",SYS_nanosleep},{"getdents64",SYS_getdents64}};
static const int nSt=sizeof kSt/sizeof*kSt;
// op: s<tab>index<tab>seed, or index<tab>a<tab>..f<tab>result
static u64 rndArg(Rng&r,int w){ u64 v; switch(r.below(6)){ case 0: v=r.below(3); break; case 1: v=(u64)-(i64)(1+r.below(200)); break; case 2: v=r.next(); break; case 3: v=1ULL<<r.below(64); break; case 4: v=r.below(100000); break; default: v=(r.next()&0xffffffff); } if(w==1) return 0; if(w==32) v=(u64)(i64)(int)v; if(w==-64) v=r.chance(0.8)?0:(u64)(i64)(int)r.below(1000); return v; }
static void genS13(Rng&r,Case&c,bool th,u64 idx){ int n=10+r.below(th?150:60); int first=(int)(idx*7%nW); for(int i=0;i<n;i++){ int k=i<4?(first+i)%nW:r.below(nW); if(i>=4&&r.chance(0.15)){ c.ops.push_back(r.chance(0.1)?strf("c\t%d",(int)r.below((nC+63)/64)):strf("s\t%d\t%u",(int)r.below(nSt),(unsigned)r.below(1u<<31))); continue; } const WDef&w=kW[k]; string o=std::to_string(k); for(int q=0;q<6;q++) o+="\t"+std::to_string((i64)(w.wd[q]?rndArg(r,w.wd[q]):0)); i64 res; switch(r.below(5)){ case 0: res=-(i64)(1+r.below(133)); break; case 1: res=0; break; case 2: res=r.below(70000); break; case 3: res=0x7fffffff-(i64)r.below(3); break; default: res=w.res==64?(i64)(r.next()>>1):(i64)(r.next()&0x7fffffff); } o+="\t"+std::to_string(res); c.ops.push_back(o); } }
static void runS13(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s13"); const WDef*w=nullptr; i64 given[6]={0},res=0; int calls=0; 
  int sk=-1,grp=-1; Rng rr(0); u64 V[16]={0}; string T[8];
  auto say=[&](const char*f,u64 got,u64 want){ if(got!=want) out.bad("wrong_structure",strf("syscall::%s: %s is 0x%llx instead of 0x%llx",kSt[sk].name,f,(unsigned long long)got,(unsigned long long)want)); };
  auto put=[&](u64 at,const void*b,size_t n){ if(!s.wr(d.p,at,b,n)) out.bad("wrong_argument",strf("syscall::%s: the address given to the kernel is not writable",kSt[sk].name)); };
  auto get=[&](u64 at,void*b,size_t n){ if(!s.rd(d.p,at,b,n)) out.bad("wrong_argument",strf("syscall::%s: the address given to the kernel is not readable",kSt[sk].name)); };
  auto answer=[&](u64*a)->long{ switch(sk){ case 0: case 1: case 2: { struct stat x; memset(&x,0,sizeof x); x.st_dev=V[0]; x.st_ino=V[1]; x.st_nlink=V[3]; x.st_mode=(u32)V[2]; x.st_uid=(u32)V[4]; x.st_gid=(u32)V[5]; x.st_rdev=V[6]; x.st_size=V[7]; x.st_blksize=V[8]; x.st_blocks=V[9]; x.st_atim={(time_t)V[10],(long)V[11]}; x.st_mtim={(time_t)V[12],(long)V[13]}; x.st_ctim={(time_t)V[14],(long)V[15]}; put(a[1],&x,sizeof x); return 0; }
      case 3: { string x(390,0); for(int i=0;i<6;i++) memcpy(&x[i*65],T[i].data(),T[i].size()); put(a[0],x.data(),390); return 0; }
      case 4: { int fd; short ev,re=(short)V[2]; get(a[0],&fd,4); get(a[0]+4,&ev,2); say("fd",(u32)fd,(u32)V[0]); say("events",(u16)ev,(u16)V[1]); put(a[0]+6,&re,2); return 1; }
      case 5: case 6: { u64 x[2]; get(a[1],x,16); say("iov_base",x[0],V[0]); say("iov_len",x[1],V[1]); return 5; }
      case 7: { u8 x[16]; u16 f=V[0]; memcpy(x,&f,2); memcpy(x+2,T[0].data(),14); u32 l; get(a[2],&l,4); say("length",l,16); l=(u32)V[1]; put(a[2],&l,4); put(a[1],x,16); return 0; }
      case 8: { u8 x[8]; get(a[1],x,8); u16 f,p; u32 ad; memcpy(&f,x,2); memcpy(&p,x+2,2); memcpy(&ad,x+4,4); say("family",f,(u16)V[0]); say("port",p,(u16)V[1]); say("address",ad,(u32)V[2]); say("length",(u32)a[2],16); return 0; }
      case 9: put(a[1],V,16); return 0;
      case 10: case 11: { u64 x[2]; get(sk==10?a[1]:a[0],x,16); say("tv_sec",x[0],V[0]); say("tv_nsec",x[1],V[1]); return 0; }
      default: { string x(72,0); u16 l=72; memcpy(&x[0],V,16); memcpy(&x[16],&l,2); x[18]=(char)V[2]; memcpy(&x[19],T[0].data(),T[0].size()); put(a[1],x.data(),72); return 72; } } };
  s.sysHook=[&](Task&t,int nr,u64*a,long&ret)->bool{ if(!d.inOp||t.p!=d.p||nr==HYPER_NR) return false; calls++; if(grp>=0) return false; if(sk>=0){ if(nr!=kSt[sk].nr){ out.bad("wrong_call",strf("syscall::%s performs %s",kSt[sk].name,sysName(nr))); ret=-38; } else ret=answer(a); out.probes[string("struct_")+kSt[sk].name]++; return true; } if(calls>1){ out.bad("extra_call",strf("syscall::%s makes a second system call (%s)",w->name,sysName(nr))); ret=-38; return true; } if(nr!=w->nr) out.bad("wrong_call",strf("syscall::%s performs %s instead of %s",w->name,sysName(nr),sysName(w->nr))); for(int i=0;i<6;i++){ if(!w->wd[i]) continue; u64 x=a[i],y=(u64)given[i]; if(w->wd[i]==32){ x&=0xffffffff; y&=0xffffffff; } if(x!=y) out.bad("wrong_argument",strf("syscall::%s: argument %d reaches the kernel as 0x%llx instead of 0x%llx",w->name,i+1,(unsigned long long)x,(unsigned long long)y)); } ret=res; if(res<0) out.faults["errno_returned"]++; out.probes[string("call_")+w->name]++; return true; };
  d.enc=[&](const string&o,OpReq&q)->bool{ auto f=split(o,'\t'); sk=-1; grp=-1; if(f.size()==2&&f[0]=="c"){ grp=atoi(f[1].c_str()); if(grp<0||grp*64>=nC) return false; calls=0; q.op=300+grp; return true; } if(f.size()==3&&f[0]=="s"){ int k=atoi(f[1].c_str()); if(k<0||k>=nSt) return false; sk=k; calls=0; rr=Rng((u64)strtoull(f[2].c_str(),0,10)*77+k); for(auto&v:V) v=rr.chance(0.3)?rr.below(5000):rr.next()>>rr.below(2); for(auto&t:T){ t.clear(); int n=k==7?14:rr.below(k==3?65:40); for(int i=0;i<n;i++) t+=(char)(k==7?rr.below(256):33+rr.below(90)); } q.op=200+k; q.a=V[0]; q.b=V[1]; q.c=V[2]; return true; } if(f.size()!=8) return false; int k=atoi(f[0].c_str()); if(k<0||k>=nW) return false; w=&kW[k]; for(int i=0;i<6;i++) given[i]=strtoll(f[i+1].c_str(),0,10); res=strtoll(f[7].c_str(),0,10); calls=0; q.op=k+1; q.a=given[0]; q.b=given[1]; q.c=given[2]; q.d=given[3]; q.e=given[4]; q.f=given[5]; return true; };
  d.done=[&](const string&,const OpRes&r){ if(grp>=0){ string ob=d.outBuf(512); const i64*x=(const i64*)ob.data(); for(int i=0;i<64&&grp*64+i<nC;i++) if((u32)x[i]!=(u32)kC[grp*64+i].val) out.bad("wrong_constant",strf("%s is %lld, the system's value is %lld",kC[grp*64+i].name,(long long)x[i],(long long)kC[grp*64+i].val)); out.probes["constants"]++; return; } if(sk>=0){ if(calls!=1){ out.bad("no_call",strf("syscall::%s performs %d system calls",kSt[sk].name,calls)); return; } string ob=d.outBuf(512); const u64*x=(const u64*)ob.data();
      if(sk<3){ static const char*fn[]={"dev","ino","nlink","mode","uid","gid","rdev","size","blksize","blocks","atime","atimensec","mtime","mtimensec","ctime","ctimensec"}; static const int vi[]={0,1,3,2,4,5,6,7,8,9,10,11,12,13,14,15}; for(int i=0;i<16;i++){ u64 want=V[vi[i]]; if(i>=3&&i<=5) want=(u32)want, say(fn[i],(u32)x[i],want); else say(fn[i],x[i],want); } }
      else if(sk==3){ static const char*fn[]={"sysname","nodename","release","version","machine","domainname"}; for(int i=0;i<6;i++){ string g(ob.data()+i*65,strnlen(ob.data()+i*65,65)); if(g!=T[i]) out.bad("wrong_structure",string("syscall::uname: ")+fn[i]+" is "+esc(g,70)+" instead of "+esc(T[i],70)); } }
      else if(sk==4){ say("revents",(u16)x[2],(u16)V[2]); say("fd",(u32)x[0],(u32)V[0]); say("events",(u16)x[1],(u16)V[1]); }
      else if(sk==7){ say("family",(u16)x[0],(u16)V[0]); say("length",(u32)x[1],(u32)V[1]); if(memcmp(ob.data()+16,T[0].data(),14)) out.bad("wrong_structure","syscall::getsockname: the address bytes differ"); }
      else if(sk==9){ say("tv_sec",x[0],V[0]); say("tv_nsec",x[1],V[1]); }
      else if(sk==12){ say("ino",x[0],V[0]); say("off",x[1],V[1]); say("reclen",(u16)x[2],72); say("type",(u8)x[3],(u8)V[2]); string g(ob.data()+32,strnlen(ob.data()+32,40)); if(g!=T[0]) out.bad("wrong_structure","syscall::getdents64: name is "+esc(g,60)+" instead of "+esc(T[0],60)); }
      return; } if(!calls) out.bad("no_call",strf("syscall::%s performs no system call",w->name)); if(w->res==32?(int)r.r!=(int)res:w->res&&r.r!=res) out.bad("wrong_result",strf("syscall::%s returns %lld, the kernel answered %lld",w->name,(long long)r.r,(long long)res)); };
  d.start(); d.run(); }); }
static Reg rS13({"S13",20000,100000,genS13,runS13,nullptr,"Each run calls up to 60 (thorough: 150) of the system call wrappers with random arguments, lets the kernel answer with random values or error numbers, and compares call number, every argument at the width the kernel reads, and the returned value.",kRealS,kStubS,kAssumeS});
