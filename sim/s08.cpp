// S08: reading a directory yields every entry exactly once; positions are kept.
#include "memwatch.h"
// ops: add dir k kind | del dir k | open s path | fopen s which | read s n | tell s | seek s k | badseek s | rewind s | close s | fd s | nil k | with path
static const char*kD[]={"/work/d0","/work/d1","/work/d2","/work/lnk","/work/d1/sub/","/work/f","/work/nodir","/work/priv","/work/d0/."};
static string entName(u64 seed,int k){ Rng r(seed*7919+k*131+3); size_t n=r.chance(0.15)?200+r.below(56):r.chance(0.4)?1+r.below(4):1+r.below(40); string t(n,0); for(auto&ch:t) do ch=(char)(r.chance(0.9)?33+r.below(94):1+r.below(255)); while(ch=='/'||!ch); t=strf("%d",k)+t; if(t.size()>255) t.resize(255); return t; }
static void addEnt(Sim&s,const string&dir,const string&n,int kind){ string p=dir+"/"+n; if(kind==0) s.mkdirp(p); else if(kind==1) s.symlink(p,"/work/f"); else s.mkfile(p,"x"); }
static void genS08(Rng&r,Case&c,bool th,u64){ auto sl=[&]{ return (int)r.below(r.chance(0.6)?1:3); }; c.set("n0",(i64)(r.chance(0.15)?0:r.chance(0.5)?1+r.below(12):r.chance(0.7)?10+r.below(80):60+r.below(th?600:240))); c.set("n1",(i64)r.below(30)); c.set("seed",(i64)r.below(100000)); static const i64 st[]={1,24,0x10001,0x7fffffff,0x123456789aLL,0x40000000000000LL}; c.set("stride",st[r.below(6)]); c.set("shuffle",(i64)(r.chance(0.3)?0:1+r.below(1000000))); c.set("mmap",(i64)r.below(6));
  auto open=[&]{ return strf("open\t%d\t%d",sl(),(int)(r.chance(0.8)?r.below(5):r.below(9))); }; c.ops.push_back(open()); int n=4+r.below(th?80:30);
  for(int i=0;i<n;i++){ int s=sl(); switch(r.below(22)){ case 0: case 1: c.ops.push_back(open()); break; case 2: c.ops.push_back(strf("fopen\t%d\t%d",s,(int)r.below(5))); break; case 3: case 4: case 5: case 6: case 7: c.ops.push_back(strf("read\t%d\t1",s)); break; case 8: case 9: case 10: c.ops.push_back(strf("read\t%d\t%d",s,(int)(r.chance(0.5)?1+r.below(12):1+r.below(200)))); break; case 11: case 12: c.ops.push_back(strf("tell\t%d",s)); break; case 13: case 14: c.ops.push_back(strf("seek\t%d\t%d",s,(int)r.below(1000))); break; case 15: c.ops.push_back(strf("badseek\t%d",s)); break; case 16: c.ops.push_back(strf("rewind\t%d",s)); break; case 17: c.ops.push_back(strf("close\t%d",s)); break; case 18: c.ops.push_back(r.chance(0.5)?strf("add\t%d\t%d\t%d",(int)r.below(3),1000+(int)r.below(200),(int)r.below(3)):strf("del\t%d\t%d",(int)r.below(2),(int)r.below(40))); break; case 19: c.ops.push_back(strf("nil\t%d",(int)r.below(6))); break; case 20: c.ops.push_back(strf("with\t%d",(int)r.below(9))); break; default: c.ops.push_back(strf("fd\t%d",s)); } }
  genFaults(r,c,{"open_fail","emfile","enomem","fstat_fail","getdents_fail","short_read","lseek_fail","close_fail"},0.4,0.3); }
static void runS08(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s08"); MemWatch mw(d); s.mmapPolicy=c.geti("mmap"); s.dirStride=std::max<i64>(1,c.geti("stride",1)); s.dirShuffle=c.geti("shuffle"); u64 seed=c.geti("seed");
  struct H{ u64 p=0; int fd=-1; FileP f; size_t idx=0; i64 tell=0; vector<std::pair<i64,size_t>> told; }; map<int,H> hs; vector<string> w; H*h=nullptr; u64 tot0=0; size_t fd0=0; i64 x=0; std::pair<i64,size_t> tgt; int given=-1;
  int n0=c.geti("n0"), n1=c.geti("n1"); s.mkdirp("/work/d0"); s.mkdirp("/work/d1/sub"); s.mkdirp("/work/d2"); s.mkfile("/work/f","file\n"); s.mkdirp("/work/priv")->mode=0; s.symlink("/work/lnk","/work/d1"); Rng kr(seed); for(int i=0;i<n0;i++) addEnt(s,"/work/d0",entName(seed,i),kr.below(4)); for(int i=0;i<n1;i++) addEnt(s,"/work/d1",entName(seed,i),kr.below(4));
  for(int k=0;k<3;k++) d.pend.push_back(strf("close\t%d",k));
  auto mkfd=[&](int which)->int{ FileP f=make_shared<OpenFile>(); f->t=F_INODE; f->id=++s.fileId; f->flags=O_RDONLY; f->path=which==1?"/work/f":which==0?"/work/d1":"/work/d0"; f->ino=s.lookup(f->path); if(which==2) f->flags|=O_PATH; int fd=20; while(d.p->fds.count(fd)) fd++; d.p->fds[fd].f=f; return fd; };
  d.enc=[&](const string&o,OpReq&q)->bool{ d.p->trackMaps=true; if(given>=0){ d.p->fds.erase(given); given=-1; } w=W(o); if(w.empty()) return false; const string&n=w[0]; auto A=[&](size_t i)->i64{ return i<w.size()?(i64)strtoll(w[i].c_str(),0,10):0; };
    if(n=="add"){ string dir=kD[A(1)%3], e=entName(seed,A(2)); if(!s.exists(dir+"/"+e)) addEnt(s,dir,e,A(3)); return false; } if(n=="del"){ InodeP p=s.lookup(kD[A(1)%2]); if(p&&!p->ents.empty()){ auto it=p->ents.begin(); std::advance(it,A(2)%p->ents.size()); if(it->first!="sub") p->ents.erase(it); } return false; }
    tot0=mw.total; fd0=d.p->fds.size(); h=nullptr; if(n=="nil"){ static const int k[]={3,4,5,6,7,8}; x=A(1)%6; q.op=k[x]; q.a=0; q.b=1; return true; } if(n=="with"){ x=A(1)%9; q.op=9; q.buf=kD[x]; return true; }
    h=&hs[A(1)%3]; if(n=="open"){ if(h->p) return false; x=A(2)%9; q.op=1; q.buf=kD[x]; return true; } if(n=="fopen"){ if(h->p) return false; x=A(2)%5; q.op=2; if(x<3){ given=mkfd(x); q.b=given; } else q.b=x==3?-1:977; fd0=d.p->fds.size(); return true; }
    if(!h->p) return false; q.a=h->p; if(n=="read"){ q.op=3; q.b=x=std::min<i64>(200,std::max<i64>(1,A(2))); } else if(n=="tell") q.op=4; else if(n=="seek"){ q.op=5; if(h->told.empty()) tgt={0,0}; else tgt=h->told[A(2)%h->told.size()]; q.b=tgt.first; } else if(n=="badseek"){ q.op=5; q.b=-1-(i64)A(2); } else if(n=="rewind") q.op=6; else if(n=="close") q.op=7; else if(n=="fd") q.op=8; else return false; return true; };
  d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; string at=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&m){ out.bad(cl,m+at); }; bool flt=d.faultedAny(); auto mustErr=[&]{ if(!r.err) bad("no_error","the operation failed without leaving an error"); }; auto okErr=[&]{ if(r.err) bad("fresh_error",strf("a successful operation leaves error %lld",(long long)r.err)); };
    auto size=[&](H&h)->size_t{ return h.f->snapped&&h.f->off?h.f->dirsnap.size():h.f->ino->ents.size()+2; }; bool opens=x<5||x==8;
    if(n=="open"||n=="fopen"){ bool can=n=="open"?opens:x==0; if(!r.r){ mustErr(); if(can&&!flt) bad("open_refused","opening fails although nothing prevents it"); if(d.p->fds.size()!=fd0) bad("leak",n=="open"?"a failed open leaves a descriptor open":"a failed fopen closes the given descriptor"); if(mw.total!=tot0) bad("leak","a failed open leaks memory"); out.probes["open_failed"]++; }
      else { if(!can){ bad("open_succeeds","opening succeeds although this is not a readable directory"); return; } okErr(); if(n=="fopen"&&r.e!=given){ bad("bad_descriptor","the directory uses another descriptor than the given one"); return; } h->p=r.r; h->fd=r.e; h->f=s.getF(d.p,h->fd); if(!h->f){ bad("bad_descriptor","the directory's descriptor is not open"); return; } if(!d.p->fds[h->fd].cloexec) bad("cloexec","the descriptor would be inherited by programs the process executes"); h->idx=0; h->tell=0; h->told.clear(); h->told.push_back({0,0}); out.probes[n]++; if(n=="fopen") given=-1; } }
    else if(n=="read"){ size_t k=r.d; string ob=k?d.outBuf(k*300):""; if((i64)k>x){ bad("harness","too many entries"); return; } if(k&&!h->f->snapped){ bad("invented","an entry was returned although the directory was never read"); return; }
      for(size_t i=0;i<k;i++){ const char*e=ob.data()+i*300; u64 ino; i64 off; memcpy(&ino,e,8); memcpy(&off,e+8,8); u8 ty=e[18]; string name(e+19,strnlen(e+19,281)); auto&sn=h->f->dirsnap; if(h->idx>=sn.size()){ bad("invented","an entry was returned after the last one: "+esc(name,60)); return; } auto&m=sn[h->idx]; 
        if(name!=m.first){ bool known=false; for(auto&q:sn) known|=q.first==name; bad(known?"wrong_entry":"invented",strf("entry %zu of %zu is ",h->idx,sn.size())+esc(name,60)+" instead of "+esc(m.first,60)); return; } if(ino!=m.second->ino) bad("wrong_entry","the entry's inode number is wrong"); u8 wt=m.second->type==IT_DIR?4:m.second->type==IT_LNK?10:8; if(ty!=wt) bad("wrong_entry",strf("the entry's type is %u instead of %u",ty,wt)); h->idx++; if(off!=(i64)(h->idx*s.dirStride)) bad("wrong_entry","the entry's position is wrong"); h->tell=off; h->told.push_back({off,h->idx}); }
      out.probes["entries"]+=k; if((i64)k<x){ if(r.r) bad("harness","stopped early"); if(d.faulted("getdents_fail")){ mustErr(); out.probes["read_failed"]++; } else { if(h->idx<size(*h)) { bad("lost_entries",strf("the directory ends after %zu of %zu entries",h->idx,size(*h))); return; } okErr(); out.probes["end"]++; } } else okErr(); }
    else if(n=="tell"){ if(r.r!=h->tell) bad("position",strf("tell returns %lld instead of %lld",(long long)r.r,(long long)h->tell)); okErr(); }
    else if(n=="seek"||n=="rewind"||n=="badseek"){ if(n=="rewind") tgt={0,0}; if(r.r){ if(!r.err) bad("no_error","the operation returned an error that is not set"); if(n!="badseek"&&!flt) bad("seek_refused","the operation failed although nothing prevents it"); out.probes["seek_failed"]++; } else { okErr(); if(n=="badseek"||d.faulted("lseek_fail")) { bad("no_error","an impossible or failed seek reports success"); return; } h->idx=tgt.second; h->tell=tgt.first; if(!tgt.first){ h->told.clear(); h->told.push_back({0,0}); } out.probes["seek"]++; } }
    else if(n=="fd"){ if(r.r!=h->fd) bad("bad_descriptor","fd returns another descriptor"); }
    else if(n=="close"){ if(r.r!=0&&!flt) bad("close_refused","close fails although nothing prevents it"); if(!r.r&&d.faulted("close_fail")) bad("no_error","a failed close reports success"); if(d.p->fds.count(h->fd)) bad("leak","the descriptor is still open after close"); if(d.p->fds.size()!=fd0-1) bad("leak","close changed the number of open descriptors wrongly"); if(mw.total>=tot0) bad("leak","close does not free the memory"); *h=H(); h=nullptr; }
    else if(n=="nil"){ if(x!=5) mustErr(); if(x==0&&r.r) bad("bad_result","read(nil) returned an entry"); if((x==1||x==4||x==5)&&(int)r.r!=-1) bad("bad_result","the result for nil is not -1"); if((x==2||x==3)&&!r.r) bad("bad_result","no error returned for nil"); }
    else if(n=="with"){ if(d.p->fds.size()!=fd0) bad("leak","`with` leaves a descriptor open"); if(mw.total!=tot0) bad("leak","`with` leaks memory"); InodeP di=opens?s.lookup(x==3?"/work/d1":x==4?"/work/d1/sub":x==8?"/work/d0":kD[x]):nullptr; if(r.d==2){ if(opens&&!flt) bad("open_refused","opening fails although nothing prevents it"); } else if(!opens) bad("open_succeeds","opening succeeds although this is not a readable directory"); else { size_t e=di->ents.size()+2; if((size_t)r.r>e||((size_t)r.r<e&&!d.faulted("getdents_fail"))) bad("lost_entries",strf("%lld of %zu entries were read",(long long)r.r,e)); } }
    if(out.violation) return; if(h&&h->p){ if(s.getF(d.p,h->fd)!=h->f){ bad("bad_descriptor","the directory's descriptor was closed or replaced"); return; } } mw.checkAll(); };
  u64 t0=0; bool st=false; auto e0=d.enc; d.enc=[&,e0](const string&o,OpReq&q){ if(!st){ st=true; t0=mw.total; } return e0(o,q); };
  d.start(nullptr); bool ok=d.run(); if(ok&&!out.violation&&mw.total!=t0) out.bad("leak",strf("after all directories were closed %lld bytes are still mapped",(long long)(mw.total-t0))); }); }
static Reg rS08({"S08",12000,60000,genS08,runS08,nullptr,"Each run opens up to three directories of up to 250 (thorough: 600) entries with arbitrary names, kernel batch sizes, orders and position cookies, reads, tells, seeks and rewinds in random histories while entries appear and vanish and system calls fail, and compares every returned entry, position and the end with the kernel's directory.",kRealS,kStubS,kAssumeS});
