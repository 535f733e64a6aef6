// S02: files behave like a byte array with a position.
#include "memwatch.h"
// ops: open s path mode | fopen s | write s text | wstr s text | wf s num text | read s n | readc s | all s | seek s off whence | rewind s | tell s | size s | close s | nil k | with path
static const char*kPaths[]={"/work/a.txt","/work/b.bin","/work/sub/c","/work/new1","/work/sub/new2","/work/nodir/x","/work/sub","/work/ro"};
static string genData(Rng&r,size_t mx,bool bin){ size_t n=r.chance(0.08)?0:r.chance(0.7)?1+r.below(40):1+r.below(mx); string t(n,0); for(auto&ch:t) ch=bin?(char)r.below(256):(char)(33+r.below(90)); for(auto&ch:t) if(ch=='\t'||(!bin&&ch=='%')) ch='#'; return t; }
static void genS02(Rng&r,Case&c,bool th,u64){ int n=4+r.below(th?80:30); auto sl=[&]{ return (int)r.below(r.chance(0.6)?1:3); };
  auto open=[&]{ int m=r.chance(0.75)?3+4*(int)r.below(2):(int)r.below(8); return strf("open\t%d\t%d\t%d",sl(),(int)(r.chance(0.85)?r.below(5):r.below(8)),m); };
  c.ops.push_back(open()); for(int i=0;i<n;i++){ int s=sl(); switch(r.below(24)){ case 0: case 1: c.ops.push_back(open()); break; case 2: c.ops.push_back(strf("fopen\t%d",s)); break; case 3: case 4: case 5: c.ops.push_back(strf("write\t%d\t",s)+genData(r,r.chance(0.1)?50000:600,true)); break; case 6: c.ops.push_back(strf("wstr\t%d\t",s)+genData(r,400,false)); break; case 7: c.ops.push_back(strf("wf\t%d\t%lld\t",s,(long long)r.range(-100000,100000))+genData(r,200,false)); break;
    case 8: case 9: case 10: c.ops.push_back(strf("read\t%d\t%d",s,(int)(r.chance(0.1)?0:r.chance(0.7)?1+r.below(60):r.below(60000)))); break; case 11: case 12: c.ops.push_back(strf("readc\t%d",s)); break; case 13: case 14: c.ops.push_back(strf("all\t%d",s)); break; case 15: case 16: case 17: c.ops.push_back(strf("seek\t%d\t%lld\t%d",s,(long long)(r.chance(0.8)?r.range(-5,60):r.range(-700,3000)),(int)(r.chance(0.95)?r.below(3):3+r.below(4)))); break; case 18: c.ops.push_back(strf("rewind\t%d",s)); break; case 19: c.ops.push_back(strf("tell\t%d",s)); break; case 20: c.ops.push_back(strf("size\t%d",s)); break; case 21: c.ops.push_back(strf("close\t%d",s)); break; case 22: c.ops.push_back(strf("nil\t%d",(int)r.below(5))); break; default: c.ops.push_back(strf("with\t%d\t%d",(int)r.below(8),r.chance(0.7)?3:(int)r.below(8))); } }
  c.set("mmap",(i64)r.below(6)); genFaults(r,c,{"open_fail","eintr","eio_read","short_read","eio_write","enospc","short_write","close_fail","lseek_fail","fstat_fail","enomem","emfile"},0.55,0.2); }
static void runS02(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s02"); MemWatch mw(d); s.mmapPolicy=c.geti("mmap");
  map<string,string> fsm; struct H{ u64 p=0; int path=-1; int mode=0; i64 pos=0; int fd=-1; }; map<int,H> hs; vector<string> w; u64 tot0=0; size_t fd0=0; H*h=nullptr; string data; i64 x=0,y=0; u64 strp=0; const u8 can=0x5A; Rng ir(c.seed^5);
  for(int i=0;i<3;i++){ string t=genData(ir,i==1?5000:200,i==1); s.mkfile(kPaths[i],t); fsm[kPaths[i]]=t; } s.mkfile(kPaths[7],"read only\n",0444); fsm[kPaths[7]]="read only\n";
  string inText=genData(ir,300,true); s.mkfile("/work/in",inText); fsm["/work/in"]=inText; i64 inPos=ir.below(inText.size()+1);
  for(int k=0;k<3;k++) d.pend.push_back(strf("close\t%d",k));
  d.enc=[&](const string&o,OpReq&q)->bool{ d.p->trackMaps=true; w=W(o); if(w.empty()) return false; const string&n=w[0]; auto A=[&](size_t i)->i64{ return i<w.size()?(i64)strtoll(w[i].c_str(),0,10):0; }; tot0=mw.total; fd0=d.p->fds.size(); int sl=A(1)%3; h=&hs[sl]; auto rest=[&](size_t k){ string t; for(size_t i=k;i<w.size();i++) t+=(i>k?"\t":"")+w[i]; return t; };
    string cz(65536,(char)can); s.wr(d.p,d.addr+80+65536,cz.data(),cz.size());
    if(strp){ q.op=14; q.b=strp; w={"freestr"}; d.idx--; return true; }
    if(n=="open"){ if(h->p) return false; q.op=1; q.buf=kPaths[A(2)&7]; q.b=A(3)&7; x=A(2)&7; y=q.b; } else if(n=="fopen"){ if(h->p) return false; for(auto&k:hs) if(k.second.p&&k.second.fd==0) return false; if(!d.p->fds.count(0)) return false; q.op=2; q.b=0; }
    else if(n=="with"){ h=nullptr; q.op=15; x=A(1)&7; y=A(2)&7; q.buf=kPaths[x]; q.b=y; }
    else if(n=="nil"){ static const int k[]={13,9,11,7,12}; x=A(1)%5; q.op=k[x]; q.a=0; q.b=1; q.c=0; h=nullptr; }
    else { if(!h->p) return false; q.a=h->p; if(n=="write"){ data=rest(2); if(data.size()>65000) return false; q.op=3; q.b=data.size(); q.buf=data; } else if(n=="wstr"){ data=rest(2); q.op=4; q.buf=data; if(data.find('\0')!=string::npos) return false; } else if(n=="wf"){ q.op=5; q.b=A(2); q.c=(int)A(2)/3; q.buf2=rest(3); if(q.buf2.empty()) q.buf2="-"; if(q.buf2.find('\0')!=string::npos) return false; q.buf="<%l|%s|%i>"; data="<"+std::to_string(q.b)+"|"+q.buf2+"|"+std::to_string((int)q.c)+">"; }
      else if(n=="read"){ q.op=6; q.b=A(2); if(q.b>65000) return false; } else if(n=="readc") q.op=7; else if(n=="all") q.op=8; else if(n=="seek"){ q.op=9; q.b=A(2); q.c=A(3)&7; } else if(n=="rewind") q.op=10; else if(n=="tell") q.op=11; else if(n=="size") q.op=12; else if(n=="close"){ q.op=13; } else return false; }
    return true; };
  d.flt=[&](Task&,const char*k,const string&){ return !(!strcmp(k,"lseek_fail")&&(w[0]=="fopen"||w[0]=="open")); };
  d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; string at=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&m){ out.bad(cl,m+at); }; auto A=[&](size_t i)->i64{ return i<w.size()?(i64)strtoll(w[i].c_str(),0,10):0; }; bool flt=d.faultedAny(); 
    auto mustErr=[&]{ if(!r.err) bad("no_error","the operation failed without leaving an error"); }; auto okErr=[&]{ if(r.err) bad("fresh_error",strf("a successful operation leaves error %lld",(long long)r.err)); };
    if(n=="freestr"){ strp=0; return; }
    auto cont=[&](H&h)->string&{ return fsm[h.path==100?"/work/in":kPaths[h.path]]; }; bool rdok=h&&(h->mode&1||h->path==100), wrok=h&&(h->mode&2)&&h->path!=100;
    auto canOpen=[&](int path,int mode){ if(!(mode&3)) return false; if(path==6) return (mode&3)==1&&!(mode&4); if(path==5||(path==7&&(mode&2))) return false; return fsm.count(kPaths[path])||(mode&4); };
    if(n=="open"||n=="fopen"){ bool can=n=="fopen"||canOpen(x,y); bool cr=n=="open"&&(y&4)&&(y&3)&&x!=5&&x!=6&&!fsm.count(kPaths[x]); if(cr&&s.exists(kPaths[x])) fsm[kPaths[x]]="";
      if(!r.r){ mustErr(); if(can&&!flt) bad("open_refused","open failed although nothing prevents it"); if(d.p->fds.size()!=fd0) bad("leak","a failed open leaves a descriptor open"); if(mw.total!=tot0) bad("leak","a failed open leaks memory"); out.probes["open_failed"]++; }
      else { if(!can){ bad("open_succeeds","open succeeds although the system cannot open this"); return; } okErr(); h->p=r.r; h->path=n=="fopen"?100:x; h->mode=n=="fopen"?1:y&3; h->pos=n=="fopen"?s.getF(d.p,0)->off:0; h->fd=r.e; FileP f=s.getF(d.p,h->fd); if(!f) bad("bad_descriptor","the file's descriptor is not open"); else if(n=="open"){ int acc=f->flags&O_ACCMODE, want=(y&3)==3?O_RDWR:(y&3)==1?O_RDONLY:O_WRONLY; if(acc!=want) bad("access_mode",strf("opened with access mode %d instead of %d",acc,want)); } if(x==6&&n=="open") { } } }
    else if(n=="with"){ bool cr=(y&4)&&(y&3)&&x!=5&&x!=6&&!fsm.count(kPaths[x]); if(cr&&s.exists(kPaths[x])) fsm[kPaths[x]]=""; bool can=canOpen(x,y); if(r.d==2){ if(can&&!flt) bad("open_refused","open failed although nothing prevents it"); } else { if(!can) bad("open_succeeds","open succeeds although the system cannot open this"); else if(r.r==1){ if(!(y&2)) bad("wrote","writing to a read-only file succeeds"); else { string&t=fsm[kPaths[x]]; if(t.empty()) t="/"; else t[0]='/'; } } } if(d.p->fds.size()!=fd0) bad("leak","`with` leaves a descriptor open"); if(mw.total!=tot0) bad("leak","`with` leaks memory"); }
    else if(n=="nil"){ mustErr(); if(x==2&&r.r!=-1) bad("bad_result","tell(nil) is not -1"); if(x==4&&r.r!=-1) bad("bad_result","size(nil) is not -1"); if((x==0||x==1)&&!r.r) bad("bad_result","no error returned for nil"); }
    else if(n=="write"||n=="wstr"||n=="wf"){ i64 k=r.r; bool nomem=n=="wf"&&d.faulted("enomem")&&r.err; string full=data; if(n=="wstr") k=r.t-h->pos; bool fail=n=="wstr"?r.err!=0:k<0; if(n=="wstr"&&fail) k=0; if(fail){ mustErr(); if(wrok&&!flt) bad("write_refused","write failed although nothing prevents it"); k=0; out.probes["write_failed"]++; } else { if(!wrok){ bad("wrote","writing to a file not opened for writing succeeds"); return; } if(!nomem) okErr(); if(k>(i64)data.size()||(k<(i64)data.size()&&!flt)){ bad("short_count",strf("%lld of %zu bytes written",(long long)k,data.size())); return; } if(k<(i64)data.size()) out.probes["short_write_seen"]++; } 
      if(k>0&&nomem){ string g; s.readFile(kPaths[h->path],g); if((i64)g.size()>=h->pos+k) { data=g.substr(h->pos,k); if(!subseq(data,full)) bad("invented","bytes were written that are not part of the text"); } }
      if(k>0){ string&t=cont(*h); if(t.size()<(size_t)h->pos) t.resize(h->pos,0); if(t.size()<(size_t)h->pos+k) t.resize(h->pos+k); t.replace(h->pos,k,data.substr(0,k)); h->pos+=k; } }
    else if(n=="read"||n=="readc"||n=="all"){ const string dirs; const string&t=h->path==6?dirs:cont(*h); i64 avail=std::max<i64>(0,(i64)t.size()-h->pos); bool canRd=rdok&&h->path!=6; 
      if(n=="all"){ if(!r.r){ mustErr(); if(!flt) bad("read_refused","read_all returned nil although nothing prevents reading"); } else { strp=r.r; i64 rs=r.t-h->pos; if(rs<0||rs>avail){ bad("invented",strf("the position moved by %lld, %lld bytes were available",(long long)rs,(long long)avail)); return; } string g(rs,0); if((rs&&!s.rd(d.p,r.r,&g[0],rs))){ bad("invented",strf("read_all returned %lld bytes, %lld were available",(long long)rs,(long long)avail)); return; } char z=1; s.rd(d.p,r.r+rs,&z,1); if(z) bad("not_terminated","the string is not terminated"); if(g!=t.substr(std::min<size_t>(h->pos,t.size()),rs)) bad("wrong_data","read_all returned other bytes than the file holds"); if(rs<avail){ if(canRd&&!flt) bad("truncated",strf("read_all returned %lld of %lld bytes",(long long)rs,(long long)avail)); else if((h->path!=6||!canRd)&&!r.err) bad("no_error",strf("read_all returned %lld of %lld bytes without an error",(long long)rs,(long long)avail)); } else if(!d.faulted("eintr")&&!d.faulted("eio_read")&&h->path!=6) okErr(); h->pos+=rs; out.probes["read_all"]++; } }
      else { i64 want=n=="read"?A(2):1; i64 k=r.t-h->pos; string g=d.outBuf(n=="read"?want+64:0); if(k<0||k>std::min(want,avail)){ bad("position",strf("the position moved by %lld when %lld bytes were asked for and %lld are available",(long long)k,(long long)want,(long long)avail)); return; } if(n=="readc"){ if(k==1&&(u8)r.r!=(u8)t[h->pos]) bad("wrong_data","readc returned another byte than the file holds"); } else { if(g.substr(0,k)!=t.substr(std::min<size_t>(h->pos,t.size()),k)) bad("wrong_data","read delivered other bytes than the file holds"); for(size_t i=k;i<g.size();i++) if((u8)g[i]!=can){ bad("invented",strf("read wrote %zu bytes into the buffer but the position moved by %lld",i+1,(long long)k)); return; } }
        if(!canRd){ mustErr(); } else if(k<std::min(want,avail)){ if(!flt) bad("short_count",strf("%lld bytes read of %lld",(long long)k,(long long)std::min(want,avail))); else if(d.faulted("short_read")&&!d.faulted("eintr")&&!d.faulted("eio_read")){} else if(k==0) mustErr(); } else if(!flt) okErr(); h->pos+=k; } }
    else if(n=="seek"||n=="rewind"){ i64 np=0; bool inval=false; if(n=="seek"){ i64 off=A(2); int wh=A(3)&7; if(wh>2) inval=true; else if(wh==0) np=off; else if(wh==1) np=h->pos+off; else np=(h->path==6?4096:(i64)cont(*h).size())-off; if(np<0) inval=true; } if(r.r){ if(!r.err) bad("no_error","seek returned an error that is not set"); if(!inval&&!flt) bad("seek_refused",strf("seek to %lld failed although nothing prevents it",(long long)np)); out.probes["seek_failed"]++; } else { if(inval) bad("seek_succeeds","an impossible seek reports success"); else { h->pos=np; okErr(); } } }
    else if(n=="tell"){ if(r.r!=h->pos) bad("position",strf("tell returns %lld instead of %lld",(long long)r.r,(long long)h->pos)); okErr(); }
    else if(n=="size"){ if(r.r<0){ mustErr(); if(!flt) bad("size_refused","size failed although nothing prevents it"); } else { if(h->path!=6&&r.r!=(i64)cont(*h).size()) bad("size",strf("size returns %lld instead of %zu",(long long)r.r,cont(*h).size())); okErr(); } }
    else if(n=="close"){ if(r.r){ mustErr(); if(!flt) bad("close_refused","close failed although nothing prevents it"); } else { okErr(); if(d.faulted("close_fail")) bad("no_error","a failed close reports success"); } if(d.p->fds.count(h->fd)) bad("leak","the descriptor is still open after close"); *h=H(); if(d.p->fds.size()!=fd0-1) bad("leak","close changed the number of open descriptors wrongly"); }
    if(out.violation) return;
    if(h&&h->p){ FileP f=s.getF(d.p,h->fd); if(!f){ bad("bad_descriptor","the file's descriptor is no longer open"); return; } if(h->path!=6&&f->off!=h->pos) bad("position",strf("the real position is %lld instead of %lld",(long long)f->off,(long long)h->pos)); if(r.t!=h->pos) bad("position",strf("tell reports %lld but the position is %lld",(long long)r.t,(long long)h->pos)); }
    for(auto&e:s.snapshot("/work")) if(e.second[0]=='f'&&!fsm.count(e.first)) bad("stray_file","a file appeared: "+e.first); for(auto&e:fsm){ string g; if(!s.readFile(e.first,g)){ bad("lost_file",e.first+" is gone"); break; } if(g!=e.second){ size_t i=0; while(i<g.size()&&i<e.second.size()&&g[i]==e.second[i]) i++; bad("content",strf("%s differs from the model at byte %zu (%zu and %zu bytes)",e.first.c_str(),i,g.size(),e.second.size())); break; } }
    mw.checkAll(); };
  InodeP ino=s.lookup("/work/in"); FileP f=make_shared<OpenFile>(); f->t=F_INODE; f->ino=ino; f->flags=O_RDONLY; f->off=inPos; f->path="/work/in"; f->id=++s.fileId; s.mkdirp("/work/sub");
  d.start(f); u64 t0=0; bool st=false; auto e0=d.enc; d.enc=[&,e0](const string&o,OpReq&q){ if(!st){ st=true; t0=mw.total; } return e0(o,q); };
  bool ok=d.run(); if(ok&&!out.violation&&mw.total!=t0&&!strp) out.bad("leak",strf("after all files were closed %lld bytes are still mapped",(long long)(mw.total-t0))); }); }
static Reg rS02({"S02",20000,100000,genS02,runS02,nullptr,"Each run performs up to 30 (thorough: 80) random file operations on up to three open files while system calls are cut short or fail, and compares contents, returned counts and the reported and real position with a byte-array model after every call.",kRealS,kStubS,kAssumeS});
