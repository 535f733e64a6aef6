// simulated kernel: system calls
#include "core.h"
#include <asm/prctl.h>
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netinet/in.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>

const char* sysName(int n){ static const map<int,const char*> m={
#define S(x) {SYS_##x,#x},
S(read)S(write)S(open)S(close)S(stat)S(fstat)S(lstat)S(poll)S(lseek)S(mmap)S(mprotect)S(munmap)S(brk)S(rt_sigaction)S(rt_sigprocmask)S(ioctl)S(pread64)S(pwrite64)S(readv)S(writev)S(access)S(pipe)S(select)S(sched_yield)S(mremap)S(madvise)S(dup)S(dup2)S(nanosleep)S(getpid)S(socket)S(connect)S(accept)S(sendto)S(recvfrom)S(sendmsg)S(recvmsg)S(shutdown)S(bind)S(listen)S(getsockname)S(getpeername)S(socketpair)S(setsockopt)S(getsockopt)S(clone)S(fork)S(vfork)S(execve)S(exit)S(wait4)S(kill)S(uname)S(fcntl)S(fsync)S(fdatasync)S(truncate)S(ftruncate)S(getdents)S(getcwd)S(chdir)S(fchdir)S(rename)S(mkdir)S(rmdir)S(creat)S(link)S(unlink)S(symlink)S(readlink)S(chmod)S(fchmod)S(umask)S(gettimeofday)S(getrlimit)S(getuid)S(getgid)S(geteuid)S(getegid)S(getppid)S(getpgrp)S(setsid)S(prctl)S(arch_prctl)S(sync)S(gettid)S(time)S(futex)S(getdents64)S(set_tid_address)S(clock_settime)S(clock_gettime)S(clock_getres)S(clock_nanosleep)S(exit_group)S(tgkill)S(openat)S(mkdirat)S(newfstatat)S(unlinkat)S(renameat)S(readlinkat)S(fchmodat)S(faccessat)S(set_robust_list)S(dup3)S(pipe2)S(inotify_init)S(inotify_init1)S(inotify_add_watch)S(inotify_rm_watch)S(prlimit64)S(getrandom)S(statx)S(rseq)S(clone3)S(faccessat2)S(ptrace)S(sysinfo)S(settimeofday)S(accept4)S(rt_sigpending)S(alarm)S(tkill)S(utimensat)S(flock)S(getpgid)S(setpgid)
#undef S
{HYPER_NR,"HYPER"}}; auto i=m.find(n); if(i!=m.end()) return i->second; static char b[16][24]; static int k; k=(k+1)&15; snprintf(b[k],24,"sys_%d",n); return b[k]; }

vector<int> g_hostFds; static map<string,int> g_hostFdOf; static map<string,u64> g_hostLen;
void preopenHost(const vector<string>&paths){ int base=800; for(auto&p:paths){ char rp[4096]; if(!realpath(p.c_str(),rp)) continue; int fd=open(rp,O_RDONLY); if(fd<0) continue; if(dup2(fd,base)>=0){ g_hostFds.push_back(base); g_hostFdOf[rp]=base; struct stat st; fstat(base,&st); g_hostLen[rp]=st.st_size; base++; } close(fd); } }

static const u64 NS=1000000000ULL;

long Sim::doOpen(Task&t,int dirfd,const string&path,int flags,int mode){ Proc*p=t.p; InodeP n,par; string nm,full; bool nofollow=(flags&O_NOFOLLOW)||((flags&O_CREAT)&&(flags&O_EXCL)); long r=resolve(p,dirfd,path,!nofollow,n,par,nm,&full); t.what=path; if((flags&O_CREAT)&&rTrail&&(!r||rTrailEnd||r==-ELOOP)) return -EISDIR; if(r) return r; if(rLast&&(flags&O_CREAT)) return (flags&O_EXCL)?-EEXIST:-EISDIR;
  if(fault(t,"open_fail",full)){ static const int es[]={EIO,EMFILE,ENFILE,EACCES,ENOMEM,ENOSPC}; int e=es[param("open_fail.errno",p->vpid,(flags&O_CREAT)?6:5)]; return -e; }
  if(!n){ if(!(flags&O_CREAT)) return -ENOENT; if(nm.empty()||!par) return -ENOENT; if(par->host) return -EROFS; if(!(par->mode&0200)) return -EACCES; if((int)p->fds.size()>=p->rlimNofile) return -EMFILE; n=newInode(IT_REG); n->mode=mode&~p->umask&0777; n->data=make_shared<string>(); n->created=full; par->ents[nm]=n; par->mtime=realtime()/NS; mut(p,"create",full); notify(par,IN_CREATE); }
  else { if((flags&O_CREAT)&&(flags&O_EXCL)) return -EEXIST; if(n->type==IT_LNK) return -ELOOP; int acc=flags&O_ACCMODE; if(n->type==IT_DIR&&(acc!=O_RDONLY||(flags&(O_CREAT|O_TRUNC)))) return -EISDIR; if((flags&O_DIRECTORY)&&n->type!=IT_DIR) return -ENOTDIR; if(!(flags&O_PATH)){ if(acc!=O_WRONLY&&!(n->mode&0400)) return -EACCES; if(acc!=O_RDONLY&&n->host) return -EROFS; if(acc!=O_RDONLY&&!(n->mode&0200)) return -EACCES; }
    if((flags&O_TRUNC)&&n->type==IT_REG&&!(flags&O_PATH)&&!n->host){ mut(p,"truncate",full); n->data=make_shared<string>(); notify(n,IN_MODIFY); n->mtime=realtime()/NS; } }
  auto f=make_shared<OpenFile>(); f->t=F_INODE; f->ino=n; f->flags=flags; f->path=full; f->id=++fileId; if(n->type==IT_CHR&&n->dev==4){ f=ttyFile(); } 
  if(n->type==IT_REG&&!(flags&O_PATH)&&!n->host){ bool w=(flags&O_ACCMODE)!=O_RDONLY; std::weak_ptr<char> al=aliveTok; InodeP ino=n; Sim*self=this; f->onFree=[=]{ if(al.expired()) return; self->closed.push_back({ino,w}); }; }
  return newFd(p,f,flags&O_CLOEXEC); }

static string objName(FileP f){ switch(f->t){ case F_PIPE_R: case F_PIPE_W: return "pipe"; case F_SOCK: return "sock"; case F_INOTIFY: return "inotify"; default: return f->path; } }
long Sim::doRead(Task&t,FileP f,u64 buf,u64 n,i64 off,bool pr){ Proc*p=t.p; t.what=objName(f); string obj=objName(f); if(f->t==F_INODE&&(f->flags&O_ACCMODE)==O_WRONLY) return -EBADF; if(f->t==F_INODE&&(f->flags&O_PATH)) return -EBADF; if(f->t==F_PIPE_W) return -EBADF; if(f->t==F_CAPTURE) return -EBADF;
  if(!t.retry&&n){ if(fault(t,"eintr",obj)) return -EINTR; if(fault(t,"eio_read",obj)) return -EIO; }
  auto put=[&](const string&src,size_t o,size_t cnt)->long{ if(cnt>1&&fault(t,"short_read",obj)) cnt=1+param("short_read.len",p->vpid,cnt-1); if(cnt&&!wr(p,buf,src.data()+o,cnt)) return -EFAULT; logv(hstr(src.data()+o,cnt)); return (long)cnt; };
  switch(f->t){
  case F_NULL: return 0;
  case F_INODE: { auto&i=f->ino; if(i->type==IT_DIR) return -EISDIR; if(i->type==IT_CHR){ if(i->dev==1) return 0; n=std::min<u64>(n,65536); string s(n,0); if(i->dev==3) for(auto&ch:s){ rndState=mix64(rndState); ch=(char)rndState; } return put(s,0,n); } const string&d=i->content(); i64 o=pr?off:f->off; if(o<0) return -EINVAL; if((u64)o>=d.size()) return 0; long r=put(d,o,std::min<u64>(n,d.size()-o)); if(r>0&&!pr) f->off+=r; return r; }
  case F_PIPE_R: { if(pr) return -ESPIPE; auto&b=f->pipe->buf; if(b.empty()){ if(f->pipe->writers==0) return 0; if(f->flags&O_NONBLOCK) return -EAGAIN; auto pp=f->pipe; t.ready=[pp]{ return !pp->buf.empty()||pp->writers==0; }; return SYS_BLOCK; } long r=put(b,0,std::min<u64>(n,b.size())); if(r>0) b.erase(0,r); return r; }
  case F_SCRIPT: { auto&s=*f->scr; if(pr) return -ESPIPE; size_t left=s.data.size()-s.pos; if(!left){ if(s.errAtEnd) return -s.errAtEnd; return 0; } size_t cnt=std::min<u64>(n,left); if(s.ci<s.chunks.size()) cnt=std::min<u64>(cnt,std::max<u32>(1,s.chunks[s.ci++])); long r=put(s.data,s.pos,cnt); if(r>0) s.pos+=r; return r; }
  case F_TTY: { auto&s=*f->tty; if(s.in.empty()) return 0; long r=put(s.in,0,std::min<u64>(n,s.in.size())); if(r>0) s.in.erase(0,r); return r; }
  case F_INOTIFY: { auto in=f->inot; if(in->q.empty()){ if(f->flags&O_NONBLOCK) return -EAGAIN; t.ready=[in]{ return !in->q.empty(); }; return SYS_BLOCK; } string o; size_t lim=in->q.size(); if(lim>1) lim=1+param("inotify.batch",p->vpid,lim); while(lim--&&!in->q.empty()&&o.size()+in->q.front().size()<=n){ o+=in->q.front(); in->q.pop_front(); } if(o.empty()) return -EINVAL; if(!wr(p,buf,o.data(),o.size())) return -EFAULT; return o.size(); }
  case F_SOCK: { u64 a[6]={0,buf,n,0,0,0}; a[0]=~0ULL; t.stash[7]=0; for(auto&fe:p->fds) if(fe.second.f==f){ a[0]=fe.first; break; } return doSock(t,SYS_recvfrom,a); }
  default: return -EBADF; } }
long Sim::doWrite(Task&t,FileP f,const string&d0,i64 off,bool pw,int fd){ Proc*p=t.p; string obj=objName(f); t.what=obj; if(f->t==F_INODE&&((f->flags&O_ACCMODE)==O_RDONLY||(f->flags&O_PATH))) return -EBADF; if(f->t==F_PIPE_R||f->t==F_INOTIFY||f->t==F_SCRIPT) return -EBADF;
  if(f->t==F_SCRIPT) return -EBADF; string d=d0; if(!t.retry&&!d.empty()){ if(fault(t,"eintr",obj)) return -EINTR; if(fault(t,"eio_write",obj)) return -EIO; if(f->t==F_INODE&&f->ino->type==IT_REG&&fault(t,"enospc",obj)){ // a full disk: part may fit, later writes fail
      size_t fit=param("enospc.fit",p->vpid,d.size()); f->failedOnce=true; if(!fit) return -ENOSPC; d.resize(fit); } else if(d.size()>1&&fault(t,"short_write",obj)) d.resize(1+param("short_write.len",p->vpid,d.size()-1)); }
  logv(hstr(d)); 
  switch(f->t){
  case F_NULL: return d.size();
  case F_INODE: { auto&i=f->ino; if(i->type==IT_CHR) return d.size(); string&w=i->wcontent(); i64 o=(f->flags&O_APPEND)?(i64)w.size():pw?off:f->off; if(o<0) return -EINVAL; if(d.empty()) return 0; if((u64)o>w.size()) w.resize(o,0); if((u64)o+d.size()>w.size()) w.resize(o+d.size()); memcpy(&w[o],d.data(),d.size()); if(!pw) f->off=o+d.size(); i->mtime=realtime()/NS; mut(p,"write",f->path); if(!d.empty()) notify(i,IN_MODIFY); return d.size(); }
  case F_PIPE_W: { auto pp=f->pipe; if(pp->readers==0){ if(p->sa[13].handler!=1) sendSig(p,13); return -EPIPE; } size_t room=pp->cap>pp->buf.size()?pp->cap-pp->buf.size():0; if(room==0||(d.size()<=4096&&room<d.size())){ if(f->flags&O_NONBLOCK) return -EAGAIN; size_t need=d.size()<=4096?d.size():1; t.ready=[pp,need]{ return pp->readers==0||pp->cap-pp->buf.size()>=need; }; return SYS_BLOCK; } size_t n=std::min(room,d.size()); pp->buf.append(d,0,n); return n; }
  case F_CAPTURE: { auto&cp=*f->cap; if(cp.failAfter>=0&&(int)cp.data.size()>=cp.failAfter){ if(cp.err==EPIPE&&p->sa[13].handler!=1) sendSig(p,13); return -cp.err; } if(cp.failAfter>=0&&cp.data.size()+d.size()>(size_t)cp.failAfter) d.resize(cp.failAfter-cp.data.size()); cp.data+=d; if(cp.who.empty()||cp.who.back().first!=p->vpid) cp.who.push_back({p->vpid,0}); cp.who.back().second+=d.size(); return d.size(); }
  case F_TTY: f->tty->out+=d; return d.size();
  case F_SOCK: { u64 a[6]={(u64)fd,0,0,0,0,0}; t.stash[7]=1; (void)a; SockP s=f->sock; if(s->reset){ s->reset=false; return -ECONNRESET; } if(s->st!=3) { if(s->peer==nullptr&&s->st!=3) return -ENOTCONN; } if(s->wrShut||!s->peer||s->peer->st==4){ if(p->sa[13].handler!=1) sendSig(p,13); return -EPIPE; } size_t inq=s->peer->in.size(); for(auto&g:s->peer->flight) inq+=g.data.size(); size_t room=s->peer->cap>inq?s->peer->cap-inq:0; if(!room){ if(f->flags&O_NONBLOCK) return -EAGAIN; SockP pe=s->peer; t.ready=[pe,s]{ size_t q=pe->in.size(); for(auto&g:pe->flight) q+=g.data.size(); return q<pe->cap||pe->st==4||s->reset; }; return SYS_BLOCK; } size_t n=std::min(room,d.size()); sockSend(s,d.substr(0,n),false,false); return n; }
  default: return -EBADF; } }

struct kstat { u64 st_dev,st_ino,st_nlink; u32 st_mode,st_uid,st_gid,pad0; u64 st_rdev; i64 st_size,st_blksize,st_blocks; u64 atime,atimens,mtime,mtimens,ctime,ctimens; i64 unused[3]; };
static u32 fmode(const InodeP&i){ u32 m=i->mode; switch(i->type){ case IT_REG: m|=S_IFREG; break; case IT_DIR: m|=S_IFDIR; break; case IT_LNK: m|=S_IFLNK; m|=0777; break; case IT_CHR: m|=S_IFCHR; break; case IT_FIFO: m|=S_IFIFO; break; case IT_SOCK: m|=S_IFSOCK; break; } return m; }
static kstat mkstat(InodeP i,FileP f){ kstat k{}; k.st_dev=1; k.st_nlink=1; k.st_blksize=4096; if(i){ k.st_ino=i->ino; k.st_mode=fmode(i); k.st_uid=i->uid; k.st_gid=i->uid; k.st_size=i->size(); k.st_blocks=(k.st_size+511)/512; k.st_nlink=i->type==IT_DIR?2:i->nlink; k.atime=k.mtime=k.ctime=i->mtime; if(i->type==IT_CHR) k.st_rdev=0x100+i->dev; } else { k.st_ino=900000+(f?f->id:0); k.st_uid=k.st_gid=1000; k.st_mode=0600|(f->t==F_SOCK?S_IFSOCK:(f->t==F_TTY||(f->t==F_CAPTURE&&f->cap->tty)||f->t==F_NULL)?S_IFCHR:S_IFIFO); if(S_ISCHR(k.st_mode)) k.st_rdev=0x8800; } return k; }
long Sim::statTo(Proc*p,u64 addr,InodeP ino,FileP f){ kstat k=mkstat(ino,f); return wr(p,addr,&k,sizeof k)?0:-EFAULT; }

long Sim::doMmap(Task&t,u64*a){ Proc*p=t.p; u64 len=(a[1]+4095)&~4095ULL; int fl=(int)a[3]; 
  if(fault(t,"enomem","mmap")) return -ENOMEM;
  if(fl&MAP_ANONYMOUS){ if(mmapPolicy&&p->trackMaps&&len<(1u<<25)&&!(fl&MAP_FIXED)&&!a[0]&&!(fl&MAP_STACK)){ // adversarial placement
      u64 span=len+4096*2; u64 base; if(mmapPolicy==1){ if(!mmapNext) mmapNext=0x100000000000ULL; base=mmapNext+4096; mmapNext+=span; } else if(mmapPolicy==2){ if(!mmapNext) mmapNext=0x300000000000ULL; mmapNext-=span; base=mmapNext+4096; } else if(mmapPolicy==4){ if(!mmapNext) mmapNext=0x100000000000ULL; base=mmapNext; mmapNext+=len; } else if(mmapPolicy==5){ if(!mmapNext) mmapNext=0x300000000000ULL; mmapNext-=len; base=mmapNext; } else { u64 v=param("mmap.place",p->vpid,1<<20); while(mmapUsed.count(v)) v=(v+1)&((1<<20)-1); mmapUsed.insert(v); base=0x100000000000ULL+v*0x4000000ULL+4096*(mix64(v)%512); }
      t.regs.rdi=base; t.regs.r10=fl|MAP_FIXED_NOREPLACE; t.dirty=true; }
    return SYS_PASS; }
  FileP f=getF(p,(int)a[4]); if(!f) return -EBADF; if(f->t!=F_INODE||f->ino->type!=IT_REG) return -ENODEV;
  if(f->ino->host){ auto it=g_hostFdOf.find(f->ino->hostPath); if(it!=g_hostFdOf.end()&&!(fl&MAP_SHARED&&(a[2]&PROT_WRITE))){ t.regs.r8=it->second; t.dirty=true; return SYS_PASS; } }
  // copy semantics: anonymous private memory filled with the file content
  if((fl&MAP_TYPE)==MAP_SHARED&&(a[2]&PROT_WRITE)) fatal("writable shared file mapping is not simulated");
  user_regs_struct sv=t.regs; t.regs.r10=(fl&~(MAP_SHARED|MAP_TYPE))|MAP_PRIVATE|MAP_ANONYMOUS; t.regs.r8=-1; t.regs.r9=0; ptrace(PTRACE_SETREGS,t.tid,0,&t.regs); ptrace(PTRACE_SYSCALL,t.tid,0,0); int st; while(waitpid(t.tid,&st,__WALL)<0&&errno==EINTR); ptrace(PTRACE_GETREGS,t.tid,0,&t.regs); long r=t.regs.rax; t.regs.r10=sv.r10; t.regs.r8=sv.r8; t.regs.r9=sv.r9; t.dirty=true; if(r<0&&r>-4096) return r; const string&d=f->ino->content(); if(a[5]<d.size()) wr(p,r,d.data()+a[5],std::min<u64>(a[1],d.size()-a[5])); t.regs.rax=r; t.st=T_RUN; return SYS_DONE; }

long Sim::doFutex(Task&t,u64*a){ Proc*p=t.p; int op=(int)a[1]&0x7f; bool rtc=((int)a[1]&FUTEX_CLOCK_REALTIME); 
  if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){ if(t.retry){ if(t.futexWoken){ t.futexWoken=false; return 0; } if(t.timedOut) return -ETIMEDOUT; return 0; }
    u32 v; if(!rdv(p,a[0],v)) return -EFAULT; if(v!=(u32)a[2]) return -EAGAIN; if(fault(t,"futex_spurious","futex")) return 0; u64 dl=~0ULL; if(a[3]){ i64 ts[2]; if(!rd(p,a[3],ts,16)) return -EFAULT; u64 x=ts[0]*NS+ts[1]; if(op==FUTEX_WAIT) dl=now+x; else { i64 base=rtc?(i64)realtime()-(i64)now:0; dl=(i64)x>base?x-base:now; } }
    t.futexAddr=a[0]; t.futexMask=op==FUTEX_WAIT_BITSET?(u32)a[5]:~0u; t.futexWoken=false; t.deadline=dl; Task*tp=&t; t.ready=[tp]{ return tp->futexWoken; }; return SYS_BLOCK; }
  auto wake=[&](u64 addr,u64 n,u32 mask)->long{ vector<Task*> ws; for(auto o:tasks) if(o->p==p&&o->st==T_BLOCKED&&o->futexAddr==addr&&!o->futexWoken&&(o->futexMask&mask)) ws.push_back(o); long k=0; while(n&&!ws.empty()){ size_t i=ws.size()>1?choose("futexwake",p->vpid,ws.size(),0,pSwitch>0?0.4:0):0; ws[i]->futexWoken=true; ws.erase(ws.begin()+i); n--; k++; } return k; };
  switch(op){ case FUTEX_WAKE: return wake(a[0],a[2],~0u); case FUTEX_WAKE_BITSET: return wake(a[0],a[2],(u32)a[5]);
    case FUTEX_CMP_REQUEUE: { u32 v; if(!rdv(p,a[0],v)) return -EFAULT; if(v!=(u32)a[5]) return -EAGAIN; } /* fallthrough */
    case FUTEX_REQUEUE: { long k=wake(a[0],a[2],~0u); u64 n=a[3]; for(auto o:tasks) if(n&&o->p==p&&o->st==T_BLOCKED&&o->futexAddr==a[0]&&!o->futexWoken){ o->futexAddr=a[4]; n--; k++; } return k; }
    default: fatal(strf("futex op %d",op)); } return -ENOSYS; }

long Sim::doWait(Task&t,u64*a){ Proc*p=t.p; int want=(int)a[0]; int opt=(int)a[2]; if(!t.retry&&fault(t,"eintr_wait","wait")) return -EINTR;
  auto match=[this,p,want](Proc*q){ if(q->reaped) return false; bool mine=q->ppid==p->vpid||q->vtracer==p; if(!mine) return false; return want==-1||want==0||want==q->vpid; };
  auto jst=[this,opt](Proc*q){ return (opt&WUNTRACED)&&!q->vtracer&&q->jstop>now&&!q->jreported; };
  vector<Proc*> zs; bool any=false; for(auto q:procs) if(match(q)){ any=true; if(q->zombie) zs.push_back(q); else if(q->vtracer==p&&q->vstopped&&!q->vstopReported) zs.push_back(q); else if(jst(q)) zs.push_back(q); }
  if(zs.empty()){ if(!any) return -ECHILD; if(opt&WNOHANG) return 0; t.ready=[this,match,jst,p]{ bool an=false; for(auto q:procs) if(match(q)){ an=true; if(q->zombie||(q->vtracer==p&&q->vstopped&&!q->vstopReported)||jst(q)) return true; } return !an; }; return SYS_BLOCK; }
  Proc*q=zs[zs.size()>1?choose("waitpick",p->vpid,zs.size(),0,0.3):0]; u32 st; if(q->zombie){ st=q->status; } else if(q->vtracer!=p){ st=0x7f|(q->jsig<<8); } else { st=0x7f|(q->vstopSig<<8); } if(a[1]&&!wrv(p,a[1],st)) return -EFAULT; if(a[3]){ char z[144]={0}; if(!wr(p,a[3],z,144)) return -EFAULT; } if(q->zombie) q->reaped=true; else if(q->vtracer!=p) q->jreported=true; else q->vstopReported=true; return q->vpid; }

long Sim::doSelect(Task&t,int nr,u64*a){ Proc*p=t.p; int n=(int)a[0]; if(n<0||n>1024) return -EINVAL; u64 in[2][16]={{0}}; int w=(n+63)/64; for(int k=0;k<2;k++) if(a[1+k]&&!rd(p,a[1+k],in[k],w*8)) return -EFAULT;
  for(int k=0;k<2;k++) for(int i=0;i<n;i++) if(a[1+k]&&(in[k][i/64]>>(i%64)&1)&&!getF(p,i)) return -EBADF;
  struct Sel{ u64 b[2][16]; }; Sel sel; memcpy(sel.b,in,sizeof in); bool u[2]={a[1]!=0,a[2]!=0};
  auto eval=[this,p,n,sel,u0=u[0],u1=u[1]](Sel&o){ int c=0; memset(&o,0,sizeof o); for(int k=0;k<2;k++){ if(!(k?u1:u0)) continue; for(int i=0;i<n;i++){ if(!(sel.b[k][i/64]>>(i%64)&1)) continue; FileP f=getF(p,i); if(!f) continue; bool r=true,wv=true; switch(f->t){ case F_PIPE_R: r=!f->pipe->buf.empty()||f->pipe->writers==0; wv=false; break; case F_PIPE_W: r=false; wv=f->pipe->buf.size()<f->pipe->cap; break; case F_INOTIFY: r=!f->inot->q.empty(); wv=false; break; case F_SOCK: r=sockReadable(f->sock); break; default: break; } if(k?wv:r){ o.b[k][i/64]|=1ULL<<(i%64); c++; } } } return c; };
  Sel o; int c=eval(o); bool zero=false; u64 d=~0ULL; if(a[4]){ i64 tv[2]; if(!rd(p,a[4],tv,16)) return -EFAULT; d=tv[0]*NS+tv[1]*(nr==SYS_select?1000:1); zero=!d; }
  if(c||(t.retry&&t.timedOut)||zero){ for(int k=0;k<2;k++) if(a[1+k]&&!wr(p,a[1+k],o.b[k],w*8)) return -EFAULT; if(a[3]){ u64 z[16]={0}; if(!wr(p,a[3],z,w*8)) return -EFAULT; } return c; }
  if(!t.retry&&d!=~0ULL) t.deadline=now+d; t.ready=[eval]{ Sel x; return eval(x)>0; }; return SYS_BLOCK; }

long Sim::doSleep(Task&t,u64 req,u64 rem,bool abs,int clk){ Proc*p=t.p; if(t.retry){ t.sleepEnd=0; return 0; } i64 ts[2]; if(!rd(p,req,ts,16)) return -EFAULT; if(ts[0]<0||ts[1]<0||ts[1]>=(i64)NS) return -EINVAL; u64 d; if(abs){ u64 x=ts[0]*NS+ts[1]; u64 base=clk==CLOCK_REALTIME?realtime():now; d=x>base?x-base:0; } else d=ts[0]*NS+ts[1]; if(timeline) timeline->push_back({"sleep",d}); if(!d) return 0;
  t.deadline=now+d; t.sleepEnd=t.deadline; t.stash[1]=abs?0:rem; 
  if(fault(t,"sleep_intr","sleep")){ u64 part=d/1000?(u64)((double)d*(param("sleep_intr.part",p->vpid,1000)/1000.0)):0; now+=part; u64 left=d-part; if(rem&&!abs){ i64 o[2]={(i64)(left/NS),(i64)(left%NS)}; wr(p,rem,o,16);} t.sleepEnd=0; t.deadline=~0ULL; return -EINTR; }
  t.ready=nullptr; return SYS_BLOCK; }

long Sim::doGetdents(Task&t,u64*a,bool is64){ Proc*p=t.p; FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_INODE||f->ino->type!=IT_DIR) return -ENOTDIR; if(fault(t,"getdents_fail",f->path)) return -EIO; InodeP d=f->ino; if(!f->snapped||f->off==0){ f->dirsnap.clear(); f->dirsnap.push_back({".",d}); f->dirsnap.push_back({"..",d}); if(d->host) return 0; for(auto&e:d->ents) f->dirsnap.push_back({e.first,e.second}); if(dirShuffle){ Rng q(dirShuffle^d->ino); for(size_t i=f->dirsnap.size();i>1;i--) std::swap(f->dirsnap[i-1],f->dirsnap[q.below(i)]); } f->snapped=true; }
  string o; size_t max=f->dirsnap.size(); size_t i=std::min<u64>((u64)f->off/dirStride,max); size_t lim=max; if(max-i>1&&fault(t,"short_read","getdents:"+f->path)) lim=i+1+param("getdents.n",p->vpid,max-i); size_t got=0;
  for(;i<lim;i++){ auto&e=f->dirsnap[i]; size_t rl=is64?(19+e.first.size()+1+7)&~7ULL:(18+e.first.size()+2+7)&~7ULL; if(o.size()+rl>(u32)a[2]) break; string r(rl,0); u64 ino=e.second->ino; i64 off=(i+1)*dirStride; u16 l=rl; u8 ty=e.second->type==IT_DIR?DT_DIR:e.second->type==IT_LNK?DT_LNK:e.second->type==IT_REG?DT_REG:DT_UNKNOWN; memcpy(&r[0],&ino,8); memcpy(&r[8],&off,8); memcpy(&r[16],&l,2); if(is64){ r[18]=ty; memcpy(&r[19],e.first.data(),e.first.size()); } else { memcpy(&r[18],e.first.data(),e.first.size()); r[rl-1]=ty; } o+=r; got++; }
  if(!got&&i<max) return -EINVAL; if(!o.empty()&&!wr(p,a[1],o.data(),o.size())) return -EFAULT; f->off=i*dirStride; logv(hstr(o)); return o.size(); }

long Sim::doIoctl(Task&t,u64*a){ Proc*p=t.p; FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; u32 rq=(u32)a[1]; if(f->t==F_TTY||(f->t==F_CAPTURE&&f->cap->tty)){ if(f->t==F_CAPTURE){ if(rq==0x5401){ char z[36]={0}; return wr(p,a[2],z,36)?0:-EFAULT; } if(rq==0x5413){ u16 w[4]={24,80,0,0}; return wr(p,a[2],w,8)?0:-EFAULT; } return -EINVAL; } Tty&y=*f->tty; if(fault(t,"ioctl_fail","tty")) return -EIO; auto lg=[&](string s){ y.log.push_back(s); };
    switch(rq){ case 0x5401: lg("TCGETS"); return wr(p,a[2],y.termios,36)?0:-EFAULT; case 0x5402: case 0x5403: case 0x5404: { u8 b[36]; if(!rd(p,a[2],b,36)) return -EFAULT; memcpy(y.termios,b,36); lg(strf("TCSETS+%d",rq-0x5402)); return 0; } case 0x5413: lg("TIOCGWINSZ"); return wr(p,a[2],y.win,8)?0:-EFAULT; case 0x5414: { u16 w[4]; if(!rd(p,a[2],w,8)) return -EFAULT; memcpy(y.win,w,8); lg("TIOCSWINSZ"); return 0; } case 0x5409: lg(strf("TCSBRK %lld",(long long)a[2])); return 0; case 0x540a: if(a[2]>3) return -EINVAL; lg(strf("TCXONC %lld",(long long)a[2])); return 0; case 0x540b: if(a[2]>2) return -EINVAL; lg(strf("TCFLSH %lld",(long long)a[2])); return 0; case 0x5429: { u32 s=y.sid; lg("TIOCGSID"); return wrv(p,a[2],s)?0:-EFAULT; } default: lg("ioctl "+hex(rq)); return -EINVAL; } }
  if(rq==FIONREAD){ u32 n=0; if(f->t==F_PIPE_R) n=f->pipe->buf.size(); else if(f->t==F_INOTIFY) for(auto&s:f->inot->q) n+=s.size(); return wrv(p,a[2],n)?0:-EFAULT; } return -ENOTTY; }

long Sim::doPoll(Task&t,u64*a){ Proc*p=t.p; u64 n=a[1]; if(n>64) return -EINVAL; struct pollfd pf[64]; if(!rd(p,a[0],pf,n*sizeof(pollfd))) return -EFAULT; auto eval=[this,p](struct pollfd*q,u64 n){ int c=0; for(u64 i=0;i<n;i++){ q[i].revents=0; if(q[i].fd<0) continue; FileP f=getF(p,q[i].fd); if(!f) q[i].revents=POLLNVAL; else { bool r=true,w=true; bool hup=false; switch(f->t){ case F_PIPE_R: r=!f->pipe->buf.empty(); hup=f->pipe->writers==0; w=false; break; case F_PIPE_W: r=false; w=f->pipe->buf.size()<f->pipe->cap; break; case F_INOTIFY: r=!f->inot->q.empty(); w=false; break; case F_SOCK: r=sockReadable(f->sock); break; default: break; } if(r&&(q[i].events&POLLIN)) q[i].revents|=POLLIN; if(w&&(q[i].events&POLLOUT)) q[i].revents|=POLLOUT; if(hup) q[i].revents|=POLLHUP; if(f->t==F_PIPE_W&&f->pipe->readers==0) q[i].revents|=POLLERR; } if(q[i].revents) c++; } return c; };
  int c=eval(pf,n); if(c||(t.retry&&t.timedOut)||(int)a[2]==0){ if(!wr(p,a[0],pf,n*sizeof(pollfd))) return -EFAULT; return c; } if(!t.retry&&(int)a[2]>0) t.deadline=now+(u64)a[2]*1000000; vector<struct pollfd> v(pf,pf+n); t.ready=[eval,v]()mutable{ auto w=v; return eval(w.data(),w.size())>0; }; return SYS_BLOCK; }

// ---------------------------------------------------------------- emulated ptrace (for debuggers running under the simulator)
long Sim::doPtrace(Task&t,u64*a){ Proc*p=t.p; long rq=a[0]; if(rq==PTRACE_TRACEME){ Proc*par=byPid(p->ppid); if(par&&!par->zombie){ p->vtracer=par; p->traced=true; } return 0; }
  Proc*q=byPid((int)a[1]); if(!q||q->zombie||q->vtracer!=p) return -ESRCH; Task*qt=q->tasks[0]; 
  if(rq==PTRACE_KILL){ procExit(q,9); return 0; }
  if(!q->vstopped) return -ESRCH; out.probes[strf("ptrace_req_%ld",rq)]++;
  auto flush=[&]{ if(qt->dirty){ ptrace(PTRACE_SETREGS,qt->tid,0,&qt->regs); qt->dirty=false; } };
  switch(rq){ case PTRACE_PEEKTEXT: case PTRACE_PEEKDATA: { u64 v; if(!rd(q,a[2],&v,8)) return -EIO; return wrv(p,a[3],v)?0:-EFAULT; } case PTRACE_POKETEXT: case PTRACE_POKEDATA: { u64 v=a[3]; return wr(q,a[2],&v,8)?0:-EIO; }
    case PTRACE_GETREGS: { flush(); user_regs_struct r; ptrace(PTRACE_GETREGS,qt->tid,0,&r); return wrv(p,a[3],r)?0:-EFAULT; }
    case PTRACE_SETREGS: { user_regs_struct r; if(!rdv(p,a[3],r)) return -EFAULT; flush(); if(ptrace(PTRACE_SETREGS,qt->tid,0,&r)) return -errno; ptrace(PTRACE_GETREGS,qt->tid,0,&qt->regs); return 0; }
    case PTRACE_PEEKUSER: { errno=0; flush(); long v=ptrace(PTRACE_PEEKUSER,qt->tid,a[2],0); if(errno) return -errno; return wrv(p,a[3],v)?0:-EFAULT; }
    case PTRACE_CONT: case PTRACE_SINGLESTEP: case PTRACE_DETACH: { int s=(int)a[3]; q->vstopped=false; if(rq==PTRACE_SINGLESTEP) qt->stepping=true; if(rq==PTRACE_DETACH){ q->vtracer=nullptr; q->traced=false; } if(s<0||s>64) return -EIO; if(s==9){ procExit(q,9); return 0; } q->vinject=s; return 0; }
    case PTRACE_SETOPTIONS: if(a[3]&~(u64)(PTRACE_O_EXITKILL|PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACEEXEC|PTRACE_O_TRACEEXIT)) fatal(strf("ptrace options %llx",(unsigned long long)a[3])); q->vexitKill=a[3]&PTRACE_O_EXITKILL; return 0; case PTRACE_GETSIGINFO: { siginfo_t si{}; si.si_signo=q->vstopSig; return wrv(p,a[3],si)?0:-EFAULT; } default: return -EINVAL; } }

// ---------------------------------------------------------------- the dispatcher
long Sim::sys(Task&t,int nr,u64*a){ Proc*p=t.p; string s,s2; InodeP n,par; string nm,full; long r;
#define STR(i,v) if(!rdstr(p,a[i],v)) return -EFAULT
  switch(nr){
  case HYPER_NR: if(!hyper) return -ENOSYS; return hyper(t,a[0],a[1],a[2],a[3],a[4]);
  // ---- memory: real, except for files and faults
  case SYS_mmap: { t.what=strf("len=%llu",(unsigned long long)a[1]); return doMmap(t,a); }
  case SYS_brk: if(a[0]&&fault(t,"enomem","brk")) { if(!p->brk0) return SYS_PASS; return p->brk0; } return SYS_PASS;
  case SYS_mremap: if(fault(t,"enomem","mremap")) return -ENOMEM; return SYS_PASS;
  case SYS_munmap: t.what=strf("%llx len=%llu",(unsigned long long)a[0],(unsigned long long)a[1]); if(p->trackMaps){ u64 lo=a[0],hi=a[0]+((a[1]+4095)&~4095ULL); for(auto it=p->maps.begin();it!=p->maps.end();){ auto m=it->second; if(m.addr<hi&&m.addr+m.len>lo){ it=p->maps.erase(it); if(m.addr<lo){ MapRegion x=m; x.len=lo-m.addr; p->maps[x.addr]=x; } if(m.addr+m.len>hi){ MapRegion x=m; x.addr=hi; x.len=m.addr+m.len-hi; it=p->maps.emplace(hi,x).first; ++it; } } else ++it; } } return SYS_PASS;
  case SYS_mprotect: case SYS_madvise: case SYS_arch_prctl: case SYS_sigaltstack: return SYS_PASS;
  case SYS_rt_sigaction: { int sg=(int)a[0]; if(sg<1||sg>64) return -EINVAL; if(a[1]){ u64 k[4]; if(!rd(p,a[1],k,32)) return -EFAULT; p->sa[sg].handler=k[0]; p->sa[sg].flags=k[1]; p->sa[sg].mask=k[3]; } return SYS_PASS; }
  case SYS_rt_sigprocmask: { if(a[1]){ u64 m; if(!rdv(p,a[1],m)) return -EFAULT; if(a[0]==0) t.sigmask|=m; else if(a[0]==1) t.sigmask&=~m; else t.sigmask=m; if(!p->vtracer&&!p->pendSig.empty()&&!deliverSignals(&t)) return SYS_GONE; } return SYS_PASS; }
  // ---- files
  case SYS_open: STR(0,s); return doOpen(t,-100,s,(int)a[1],(int)a[2]);
  case SYS_creat: STR(0,s); return doOpen(t,-100,s,O_CREAT|O_WRONLY|O_TRUNC,(int)a[1]);
  case SYS_openat: STR(1,s); return doOpen(t,(int)a[0],s,(int)a[2],(int)a[3]);
  case SYS_close: { auto it=p->fds.find((int)a[0]); if(it==p->fds.end()) return -EBADF; FileP f=it->second.f; bool bad=fault(t,"close_fail",objName(f)); p->fds.erase(it); if(f->t==F_SOCK&&f.use_count()==1) sockClose(f->sock); return bad?-EIO:0; }
  case SYS_read: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(a[2]>(1u<<30)) a[2]=1<<30; return doRead(t,f,a[1],a[2],0,false); }
  case SYS_pread64: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_INODE) return -ESPIPE; return doRead(t,f,a[1],a[2],a[3],true); }
  case SYS_readv: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; long tot=0; for(u64 i=0;i<a[2];i++){ u64 v[2]; if(!rd(p,a[1]+16*i,v,16)) return -EFAULT; if(!v[1]) continue; long q=doRead(t,f,v[0],v[1],0,false); if(q==SYS_BLOCK) return tot?tot:q; if(q<0) return tot?tot:q; tot+=q; if((u64)q<v[1]) break; } return tot; }
  case SYS_write: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(a[2]>(1u<<26)) return -EFAULT; string d(a[2],0); if(!rd(p,a[1],&d[0],a[2])) return -EFAULT; return doWrite(t,f,d,0,false,(int)a[0]); }
  case SYS_pwrite64: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_INODE) return -ESPIPE; if(a[2]>(1u<<26)) return -EFAULT; string d(a[2],0); if(!rd(p,a[1],&d[0],a[2])) return -EFAULT; return doWrite(t,f,d,a[3],true,(int)a[0]); }
  case SYS_writev: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; string d; for(u64 i=0;i<a[2];i++){ u64 v[2]; if(!rd(p,a[1]+16*i,v,16)) return -EFAULT; if(v[1]>(1u<<26)) return -EFAULT; size_t o=d.size(); d.resize(o+v[1]); if(!rd(p,v[0],&d[o],v[1])) return -EFAULT; } return doWrite(t,f,d,0,false,(int)a[0]); }
  case SYS_lseek: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if((u32)a[2]>4) return -EINVAL; if(f->t!=F_INODE||f->ino->type==IT_CHR) return f->t==F_INODE?0:-ESPIPE; if(fault(t,"lseek_fail",f->path)) return -EIO; i64 o; u32 wh=(u32)a[2]; if(wh==0) o=a[1]; else if(wh==1) o=f->off+(i64)a[1]; else if(wh==2) o=(i64)f->ino->size()+(i64)a[1]; else return -EINVAL; if(o<0) return -EINVAL; f->off=o; if(f->ino->type==IT_DIR&&o==0) f->snapped=false; t.what=f->path; return o; }
  case SYS_stat: case SYS_lstat: STR(0,s); t.what=s; r=resolve(p,-100,s,nr==SYS_stat,n,par,nm,&full); if(r) return r; if(!n) return -ENOENT; return statTo(p,a[1],n,nullptr);
  case SYS_newfstatat: STR(1,s); if(s.empty()&&(a[3]&AT_EMPTY_PATH)){ FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(fault(t,"fstat_fail",objName(f))) return -EIO; return statTo(p,a[2],f->t==F_INODE?f->ino:nullptr,f); } t.what=s; r=resolve(p,(int)a[0],s,!(a[3]&AT_SYMLINK_NOFOLLOW),n,par,nm,&full); if(r) return r; if(!n) return -ENOENT; return statTo(p,a[2],n,nullptr);
  case SYS_fstat: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(fault(t,"fstat_fail",objName(f))) return -EIO; return statTo(p,a[1],f->t==F_INODE?f->ino:nullptr,f); }
  case SYS_statx: return -ENOSYS;
  case SYS_access: case SYS_faccessat: case SYS_faccessat2: { int pi=nr==SYS_access?0:1; STR(pi,s); t.what=s; if(fault(t,"path_fail",s)){ static const int es[]={EIO,EACCES,ENOMEM,ELOOP}; return -es[param("path_fail.errno",p->vpid,4)]; } r=resolve(p,nr==SYS_access?-100:(int)a[0],s,true,n,par,nm); if(r) return r; if(!n) return -ENOENT; int m=(int)a[pi+1]; if((m&4)&&!(n->mode&0400)) return -EACCES; if((m&2)&&(n->host||!(n->mode&0200))) return -EACCES; if((m&1)&&!(n->mode&0111)) return -EACCES; return 0; }
  case SYS_readlink: case SYS_readlinkat: { int o=nr==SYS_readlink?0:1; STR(o,s); if(s!="/proc/self/exe"&&fault(t,"path_fail",s)){ static const int es[]={EIO,EACCES,ENOMEM,ELOOP}; return -es[param("path_fail.errno",p->vpid,4)]; } if(s=="/proc/self/exe"){ string l=p->exe; u64 k=std::min<u64>(l.size(),a[o+2]); return wr(p,a[o+1],l.data(),k)?(long)k:-EFAULT; } r=resolve(p,o?(int)a[0]:-100,s,false,n,par,nm); if(r) return r; if(!n) return -ENOENT; if(n->type!=IT_LNK) return -EINVAL; u64 k=std::min<u64>(n->link.size(),a[o+2]); return wr(p,a[o+1],n->link.data(),k)?(long)k:-EFAULT; }
  case SYS_mkdir: case SYS_mkdirat: { int o=nr==SYS_mkdir?0:1; STR(o,s); t.what=s; rParentOp=true; r=resolve(p,o?(int)a[0]:-100,s,false,n,par,nm,&full); if(rTrailEnd) return -EEXIST; if(r) return r; if(n) return -EEXIST; if(!par) return -ENOENT; if(par->host) return -EROFS; if(!(par->mode&0200)) return -EACCES; if(fault(t,"mkdir_fail",full)) return -ENOSPC; auto d=newInode(IT_DIR); d->mode=(int)a[o+1]&~p->umask&0777; par->ents[nm]=d; mut(p,"mkdir",full); notify(par,IN_CREATE); return 0; }
  case SYS_rmdir: case SYS_unlink: case SYS_unlinkat: { int o=nr==SYS_unlinkat?1:0; bool rd_=nr==SYS_rmdir||(nr==SYS_unlinkat&&(a[2]&AT_REMOVEDIR)); STR(o,s); t.what=s; rParentOp=true; r=resolve(p,o?(int)a[0]:-100,s,false,n,par,nm,&full); if(r) return r; if(rLast) return rd_?(rLast==1?-EINVAL:-ENOTEMPTY):-EISDIR; if(!n) return -ENOENT; if(!par) return -EBUSY; if(par->host||n->host) return -EROFS; if(!(par->mode&0200)) return -EACCES; if(rd_){ if(n->type!=IT_DIR) return -ENOTDIR; if(!n->ents.empty()) return -ENOTEMPTY; } else if(n->type==IT_DIR) return -EISDIR; if(fault(t,"unlink_fail",full)) return -EIO; par->ents.erase(nm); mut(p,rd_?"rmdir":"unlink",full); n->nlink--; notify(par,IN_DELETE); notify(n,IN_ATTRIB); if(n->nlink<=0){ bool open=false; for(auto q:procs) for(auto&fe:q->fds) if(fe.second.f&&fe.second.f->ino==n) open=true; if(!open){ notify(n,IN_DELETE_SELF); notify(n,IN_IGNORED); } } return 0; }
  case SYS_rename: case SYS_renameat: case SYS_renameat2: { int o=nr==SYS_rename?0:1; if(nr==SYS_renameat2&&(a[4]&~1ULL)) return -EINVAL; STR(o,s); STR(o?3:1,s2); InodeP n2,par2; string nm2,full2; rParentOp=true; r=resolve(p,o?(int)a[0]:-100,s,false,n,par,nm,&full); int l1=rLast; bool te=rTrailEnd; if(r&&!te) return r; rParentOp=true; long r2=resolve(p,o?(int)a[2]:-100,s2,false,n2,par2,nm2,&full2); if(r2&&!rTrailEnd) return r2; if(l1||rLast) return -EBUSY; if(!te&&!n) return -ENOENT; if(r) return r; if(!par) return -ENOENT; if(r2) return r2; if(rTrail&&n->type!=IT_DIR) return -ENOTDIR; if(!par2) return -EBUSY; if(n->type==IT_DIR&&full2.compare(0,full.size()+1,full+"/")==0) return -EINVAL; if(n2&&n2->type==IT_DIR&&full.compare(0,full2.size()+1,full2+"/")==0) return -ENOTEMPTY; if(par->host||par2->host) return -EROFS; if(n2&&nr==SYS_renameat2&&(a[4]&1)) return -EEXIST; if(n2==n) return 0; if(n2){ if(n2->type==IT_DIR&&n->type!=IT_DIR) return -EISDIR; if(n2->type!=IT_DIR&&n->type==IT_DIR) return -ENOTDIR; if(n2->type==IT_DIR&&!n2->ents.empty()) return -ENOTEMPTY; } par->ents.erase(nm); par2->ents[nm2]=n; mut(p,"rename",full); mut(p,"rename_to",full2); if(n2){ n2->nlink--; notify(n2,IN_ATTRIB); notify(n2,IN_DELETE_SELF); notify(n2,IN_IGNORED); } notify(n,IN_MOVE_SELF); return 0; }
  case SYS_symlink: case SYS_symlinkat: { int o=nr==SYS_symlinkat?1:0; STR(0,s2); STR(1+o,s); rParentOp=true; r=resolve(p,o?(int)a[1]:-100,s,false,n,par,nm,&full); if(s2.empty()) return -ENOENT; if(rTrailEnd) return -EEXIST; if(r) return r; if(n) return -EEXIST; if(rTrail) return -ENOENT; if(!par||par->host) return -EROFS; auto l=newInode(IT_LNK); l->link=s2; par->ents[nm]=l; mut(p,"symlink",full); return 0; }
  case SYS_link: case SYS_linkat: { int o=nr==SYS_linkat?1:0; STR(o,s); STR(o?3:1,s2); r=resolve(p,o?(int)a[0]:-100,s,o&&(a[4]&0x400),n,par,nm); if(r) return r; if(!n) return -ENOENT; InodeP n2,par2; string nm2,f2; rParentOp=true; r=resolve(p,o?(int)a[2]:-100,s2,false,n2,par2,nm2,&f2); if(rTrailEnd) return -EEXIST; if(r) return r; if(n2) return -EEXIST; if(rTrail) return -ENOENT; if(n->type==IT_DIR) return -EPERM; if(!par2||par2->host) return -EROFS; n->nlink++; par2->ents[nm2]=n; mut(p,"link",f2); notify(n,IN_ATTRIB); return 0; }
  case SYS_truncate: { STR(0,s); r=resolve(p,-100,s,true,n,par,nm,&full); if(r) return r; if(!n) return -ENOENT; if(n->host) return -EROFS; if(n->type!=IT_REG) return -EINVAL; n->wcontent().resize(a[1]); mut(p,"truncate",full); notify(n,IN_MODIFY); return 0; }
  case SYS_ftruncate: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_INODE||f->ino->type!=IT_REG||(f->flags&O_ACCMODE)==O_RDONLY) return -EINVAL; f->ino->wcontent().resize(a[1]); mut(p,"truncate",f->path); notify(f->ino,IN_MODIFY); return 0; }
  case SYS_chmod: case SYS_fchmodat: { int o=nr==SYS_chmod?0:1; STR(o,s); r=resolve(p,o?(int)a[0]:-100,s,true,n,par,nm,&full); if(r) return r; if(!n) return -ENOENT; if(n->host) return -EROFS; n->mode=a[o+1]&07777; mut(p,"chmod",full); notify(n,IN_ATTRIB); return 0; }
  case SYS_fchmod: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t==F_INODE&&!f->ino->host){ f->ino->mode=a[1]&07777; mut(p,"chmod",f->path); notify(f->ino,IN_ATTRIB);} return 0; }
  case SYS_chown: case SYS_fchown: case SYS_lchown: case SYS_utimensat: case SYS_utime: case SYS_utimes: case SYS_flock: case SYS_fadvise64: case SYS_fallocate: return 0;
  case SYS_umask: { u32 o=p->umask; p->umask=a[0]&0777; return o; }
  case SYS_fsync: case SYS_fdatasync: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(fault(t,"fsync_fail",objName(f))) return -EIO; if(f->t==F_INODE&&f->ino->type==IT_REG){ f->ino->durData=f->ino->data; f->ino->durable=true; } return 0; }
  case SYS_sync: syncAll(); return 0;
  case SYS_getcwd: { string w=p->cwdPath; if(w.size()+1>a[1]) return -ERANGE; return wr(p,a[0],w.c_str(),w.size()+1)?(long)w.size()+1:-EFAULT; }
  case SYS_chdir: STR(0,s); r=resolve(p,-100,s,true,n,par,nm,&full); if(r) return r; if(!n) return -ENOENT; if(n->type!=IT_DIR) return -ENOTDIR; p->cwd=n; p->cwdPath=full; return 0;
  case SYS_fchdir: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_INODE||f->ino->type!=IT_DIR) return -ENOTDIR; p->cwd=f->ino; p->cwdPath=f->path; return 0; }
  case SYS_dup: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; return newFd(p,f,false); }
  case SYS_dup2: case SYS_dup3: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(a[0]==a[1]) return nr==SYS_dup3?-EINVAL:(long)a[1]; if((i64)(int)a[1]<0) return -EBADF; p->fds[(int)a[1]]={f,nr==SYS_dup3&&(a[2]&O_CLOEXEC)}; return (int)a[1]; }
  case SYS_fcntl: { FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; switch((int)a[1]){ case F_GETFD: return p->fds[(int)a[0]].cloexec?1:0; case F_SETFD: p->fds[(int)a[0]].cloexec=a[2]&1; return 0; case F_GETFL: return f->flags; case F_SETFL: f->flags=(f->flags&~(O_NONBLOCK|O_APPEND))|(a[2]&(O_NONBLOCK|O_APPEND)); return 0; case F_DUPFD: return newFd(p,f,false,(int)a[2]); case F_DUPFD_CLOEXEC: return newFd(p,f,true,(int)a[2]); default: return -EINVAL; } }
  case SYS_pipe: case SYS_pipe2: { if(fault(t,"emfile","pipe")) return -EMFILE; auto pp=make_shared<Pipe>(); pp->readers=pp->writers=1; auto rf=make_shared<OpenFile>(), wf=make_shared<OpenFile>(); rf->t=F_PIPE_R; wf->t=F_PIPE_W; rf->pipe=wf->pipe=pp; rf->id=++fileId; wf->id=++fileId; int fl=nr==SYS_pipe2?(int)a[1]:0; rf->flags=O_RDONLY|(fl&O_NONBLOCK); wf->flags=O_WRONLY|(fl&O_NONBLOCK); int v[2]; v[0]=newFd(p,rf,fl&O_CLOEXEC); v[1]=newFd(p,wf,fl&O_CLOEXEC); return wr(p,a[0],v,8)?0:-EFAULT; }
  case SYS_ioctl: return doIoctl(t,a);
  case SYS_getdents: return doGetdents(t,a,false); case SYS_getdents64: return doGetdents(t,a,true);
  case SYS_poll: return doPoll(t,a);
  case SYS_inotify_init: case SYS_inotify_init1: { if(fault(t,"emfile","inotify")) return -EMFILE; auto f=make_shared<OpenFile>(); f->t=F_INOTIFY; f->inot=make_shared<Inotify>(); f->flags=nr==SYS_inotify_init1?(int)a[0]&O_NONBLOCK:0; f->id=++fileId; return newFd(p,f,nr==SYS_inotify_init1&&(a[0]&O_CLOEXEC)); }
  case SYS_inotify_add_watch: { FileP f=getF(p,(int)a[0]); if(!f||f->t!=F_INOTIFY) return -EBADF; STR(1,s); t.what=s; r=resolve(p,-100,s,!(a[2]&IN_DONT_FOLLOW),n,par,nm); if(r) return r; if(!n) return -ENOENT; if(fault(t,"enospc_watch",s)) return -ENOSPC; for(auto&w:f->inot->watches) if(w.active&&w.ino==n){ w.mask=(a[2]&IN_MASK_ADD)?w.mask|(u32)a[2]:(u32)a[2]; return w.wd; } Watch w; w.wd=f->inot->next++; w.ino=n; w.mask=(u32)a[2]; f->inot->watches.push_back(w); return w.wd; }
  case SYS_inotify_rm_watch: { FileP f=getF(p,(int)a[0]); if(!f||f->t!=F_INOTIFY) return -EBADF; for(auto&w:f->inot->watches) if(w.active&&w.wd==(int)a[1]){ w.active=false; struct inotify_event e{}; e.wd=w.wd; e.mask=IN_IGNORED; f->inot->q.push_back(string((char*)&e,sizeof e)); return 0; } return -EINVAL; }
  // ---- processes
  case SYS_fork: case SYS_vfork: if(fault(t,"fork_fail","fork")) return -EAGAIN; doClone(&t,nr==SYS_fork?SIGCHLD:(CLONE_VM|SIGCHLD),0,0,0,0,nr==SYS_vfork); return SYS_DONE;
  case SYS_clone: if(fault(t,(a[0]&CLONE_THREAD)?"thread_fail":"fork_fail","clone")) return -EAGAIN; doClone(&t,a[0],a[1],a[2],a[3],a[4],false); return SYS_DONE;
  case SYS_clone3: return -ENOSYS;
  case SYS_execve: { doExec(&t,-100); t.retry=false; return p->zombie?SYS_GONE:SYS_DONE; }
  case SYS_exit: { int live=0; for(auto o:p->tasks) if(o->st!=T_DEAD) live++; bool leader=!p->tasks.empty()&&p->tasks[0]==&t; if(leader) p->status=((int)a[0]&0xff)<<8; if(live<=1){ if(t.clearTid){ u32 z=0; wrv(p,t.clearTid,z);} procExit(p,p->status); } else taskExit(&t); return SYS_GONE; }
  case SYS_exit_group: procExit(p,((int)a[0]&0xff)<<8); return SYS_GONE;
  case SYS_wait4: return doWait(t,a);
  case SYS_waitid: { int idt=(int)a[0],opt=(int)a[3]; if(!(opt&(WEXITED|WSTOPPED|WCONTINUED))||idt<0||idt>2) return -EINVAL; int want=idt==P_PID?(int)a[1]:-1; if(!t.retry&&fault(t,"eintr_wait","wait")) return -EINTR;
    auto pick=[this,p,want,opt](bool&any)->Proc*{ any=false; for(auto q:procs){ if(q->reaped||!(q->ppid==p->vpid||q->vtracer==p)||(want!=-1&&want!=q->vpid)) continue; any=true; if(q->zombie){ if(opt&WEXITED) return q; } else if(opt&WSTOPPED){ if(q->vtracer==p?(q->vstopped&&!q->vstopReported):(q->jstop>now&&!q->jreported)) return q; } } return nullptr; };
    bool any; Proc*q=pick(any); if(!q){ if(!any) return -ECHILD; if(opt&WNOHANG){ char z[128]={0}; return (!a[2]||wr(p,a[2],z,128))?0:-EFAULT; } t.ready=[pick]{ bool an; return pick(an)||!an; }; return SYS_BLOCK; }
    int si[32]={0}; si[0]=SIGCHLD; si[3]=0; si[4]=q->vpid; si[5]=1000; if(q->zombie){ u32 st=q->status; if(WIFEXITED(st)){ si[2]=CLD_EXITED; si[6]=WEXITSTATUS(st); } else { si[2]=CLD_KILLED; si[6]=WTERMSIG(st); } } else { bool tr=q->vtracer==p; si[2]=tr?CLD_TRAPPED:CLD_STOPPED; si[6]=tr?q->vstopSig:q->jsig; }
    if(a[2]&&!wr(p,a[2],si,128)) return -EFAULT; if(a[4]){ char z[144]={0}; if(!wr(p,a[4],z,144)) return -EFAULT; } if(!(opt&WNOWAIT)){ if(q->zombie) q->reaped=true; else if(q->vtracer!=p) q->jreported=true; else q->vstopReported=true; } return 0; }
  case SYS_select: case SYS_pselect6: return doSelect(t,nr,a);
  case SYS_pause: t.ready=[]{ return false; }; return SYS_BLOCK;
  case SYS_close_range: { u32 lo=(u32)a[0],hi=(u32)a[1]; if(lo>hi) return -EINVAL; vector<int> v; for(auto&fe:p->fds) if((u32)fe.first>=lo&&(u32)fe.first<=hi) v.push_back(fe.first); for(int fd:v){ if(a[2]&4){ p->fds[fd].cloexec=true; continue; } FileP f=p->fds[fd].f; p->fds.erase(fd); if(f->t==F_SOCK&&f.use_count()==1) sockClose(f->sock); } return 0; }
  case SYS_getresuid: case SYS_getresgid: { u32 v=1000; for(int i=0;i<3;i++) if(!wrv(p,a[i],v)) return -EFAULT; return 0; }
  case SYS_getsid: return p->pgid?p->pgid:p->vpid;
  case SYS_syncfs: case SYS_sync_file_range: case SYS_msync: case SYS_mlock: case SYS_munlock: case SYS_readahead: return 0;
  case SYS_copy_file_range: case SYS_sendfile: case SYS_openat2: case SYS_memfd_create: case SYS_membarrier: case SYS_pidfd_open: case SYS_statfs: case SYS_fstatfs: case SYS_getxattr: case SYS_lgetxattr: case SYS_fgetxattr: case SYS_execveat: return -ENOSYS;
  case SYS_kill: { int pid=(int)a[0],sg=(int)a[1]; if(sg<0||sg>64) return -EINVAL; if(pid>0){ Proc*q=byPid(pid); if(!q||q->reaped) return -ESRCH; if(sg&&!q->zombie){ if(sg==9&&q!=p) procExit(q,9); else sendSig(q,sg);} if(q==p&&sg) { finishSys(&t,0); deliverSignals(&t); return p->zombie?SYS_GONE:SYS_DONE; } return 0; } if(sg) for(auto q:procs) if(!q->zombie&&q!=p) sendSig(q,sg); return 0; }
  case SYS_tgkill: case SYS_tkill: { int tid=(int)(nr==SYS_tgkill?a[1]:a[0]),sg=(int)(nr==SYS_tgkill?a[2]:a[1]); Task*q=byTid(tid); if(!q) return -ESRCH; if(sg){ sendSig(q->p,sg); if(q->p==p){ finishSys(&t,0); deliverSignals(&t); return p->zombie?SYS_GONE:SYS_DONE; } } return 0; }
  case SYS_ptrace: return doPtrace(t,a);
  case SYS_getpid: return p->vpid; case SYS_gettid: return t.vtid; case SYS_getppid: return p->ppid; case SYS_getpgrp: case SYS_getpgid: return p->pgid?p->pgid:p->vpid; case SYS_setpgid: case SYS_setsid: return 0;
  case SYS_getuid: case SYS_geteuid: case SYS_getgid: case SYS_getegid: return 1000;
  case SYS_set_tid_address: t.clearTid=a[0]; return t.vtid; case SYS_set_robust_list: return 0; case SYS_rseq: return -ENOSYS; case SYS_prctl: return 0;
  case SYS_futex: return doFutex(t,a); case SYS_sched_yield: return 0; case SYS_sched_getaffinity: { u64 m=1; if(!wrv(p,a[2],m)) return -EFAULT; return 8; } case SYS_sched_setaffinity: return 0; case SYS_sched_getparam: case SYS_sched_setscheduler: return 0; case SYS_sched_getscheduler: return 0;
  case SYS_getrlimit: case SYS_prlimit64: { u64 ad=nr==SYS_getrlimit?a[1]:a[3]; int res=(int)(nr==SYS_getrlimit?a[0]:a[1]); if(ad){ u64 v[2]={~0ULL,~0ULL}; if(res==RLIMIT_STACK) v[0]=8<<20; if(res==RLIMIT_NOFILE) v[0]=v[1]=p->rlimNofile; if(!wr(p,ad,v,16)) return -EFAULT; } return 0; }
  case SYS_getrandom: { u64 k=std::min<u64>(a[1],4096); string d(k,0); for(auto&ch:d){ rndState=mix64(rndState); ch=(char)rndState; } return wr(p,a[0],d.data(),k)?(long)k:-EFAULT; }
  case SYS_uname: { struct utsname u{}; strcpy(u.sysname,"Linux"); strcpy(u.nodename,"sim"); strcpy(u.release,"6.1.0"); strcpy(u.version,"#1"); strcpy(u.machine,"x86_64"); return wr(p,a[0],&u,sizeof u)?0:-EFAULT; }
  case SYS_sysinfo: { char z[112]={0}; return wr(p,a[0],z,112)?0:-EFAULT; } case SYS_getrusage: { char z[144]={0}; return wr(p,a[1],z,144)?0:-EFAULT; } case SYS_times: { char z[32]={0}; return (!a[0]||wr(p,a[0],z,32))?(long)(now/10000000):-EFAULT; }
  // ---- time
  case SYS_clock_gettime: { a[0]=(u32)a[0]; if(fault(t,"clock_nosys","clock")) return -ENOSYS; if(a[0]>11) return -EINVAL; u64 v=(a[0]==0||a[0]==5||a[0]==11)?realtime():now+123456789; i64 ts[2]={(i64)(v/NS),(i64)(v%NS)}; if(timeline) timeline->push_back({"clock",v}); return wr(p,a[1],ts,16)?0:-EFAULT; }
  case SYS_clock_getres: { i64 ts[2]={0,1}; return (!a[1]||wr(p,a[1],ts,16))?0:-EFAULT; }
  case SYS_gettimeofday: { u64 v=realtime(); i64 tv[2]={(i64)(v/NS),(i64)(v%NS/1000)}; if(timeline) timeline->push_back({"gtod",v}); if(a[0]&&!wr(p,a[0],tv,16)) return -EFAULT; return 0; }
  case SYS_time: { i64 v=realtime()/NS; if(timeline) timeline->push_back({"time",realtime()}); if(a[0]&&!wrv(p,a[0],v)) return -EFAULT; return v; }
  case SYS_clock_settime: case SYS_settimeofday: { i64 ts[2]; if(nr==SYS_clock_settime) a[0]=(u32)a[0]; u64 ad=nr==SYS_clock_settime?a[1]:a[0]; if(!rd(p,ad,ts,16)) return -EFAULT; if(nr==SYS_clock_settime&&a[0]!=0) return -EINVAL; if(fault(t,"settime_eperm","clock")) return -EPERM; u64 v=ts[0]*NS+(nr==SYS_clock_settime?ts[1]:ts[1]*1000); clockSkew=(i64)v-(i64)wallBase-(i64)now; return 0; }
  case SYS_nanosleep: return doSleep(t,a[0],a[1],false,1); case SYS_clock_nanosleep: return doSleep(t,a[2],a[3],a[1]&1,(int)a[0]);
  case SYS_alarm: return 0;
  // ---- sockets
  case SYS_socket: case SYS_bind: case SYS_listen: case SYS_accept: case SYS_accept4: case SYS_connect: case SYS_sendto: case SYS_recvfrom: case SYS_shutdown: case SYS_getsockname: case SYS_getpeername: case SYS_setsockopt: case SYS_getsockopt: case SYS_socketpair: return doSock(t,nr,a);
  case SYS_acct: case SYS_mknod: case SYS_mknodat: return -EPERM;
  default: fatal(strf("unsupported system call %d (%s) by %s",nr,sysName(nr),p->exe.c_str())); }
  return -ENOSYS; }
