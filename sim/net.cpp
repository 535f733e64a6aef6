// simulated network: stream and datagram sockets with delay, chunking, reset
#include "core.h"
#include <cerrno>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <arpa/inet.h>
#include <algorithm>

static const u64 MS=1000000ULL;
u64 Sim::nextNetEvent(){ u64 nx=~0ULL; for(auto&s:socks){ if(!s->flight.empty()&&s->flight.front().at<nx) nx=s->flight.front().at; if(!s->dgrams.empty()) for(auto&d:s->dgrams) if(d.at>now&&d.at<nx) nx=d.at; } return nx; }
void Sim::pump(){ for(auto&s:socks) while(!s->flight.empty()&&s->flight.front().at<=now){ auto g=s->flight.front(); s->flight.pop_front(); if(g.rst){ s->reset=true; s->inEof=true; s->in.clear(); s->flight.clear(); break; } s->in+=g.data; if(g.fin) s->inEof=true; } }
bool Sim::sockReadable(SockP s){ if(s->st==2) return !s->backlog.empty(); if(s->type==SOCK_DGRAM){ for(auto&d:s->dgrams) if(d.at<=now) return true; return false; } return !s->in.empty()||s->inEof||s->reset; }
void Sim::sockSend(SockP from,const string&d,bool fin,bool rst){ SockP to=from->peer; if(!to) return; u64 delay=param("net.delay",from->id,50)*MS/5; u64 at=std::max(now+delay,to->lastAt); size_t o=0; 
  do{ size_t k=d.size()-o; if(k>1&&choose("net.split",from->id,2,0,fc.rate.count("net_split")?fc.rate["net_split"]:0)){ k=1+param("net.splitat",from->id,k-1); out.faults["net_split"]++; } Sock::Seg g; g.at=at; g.data=d.substr(o,k); o+=k; g.fin=fin&&o>=d.size(); g.rst=rst; to->flight.push_back(g); at+=param("net.gap",from->id,10)*MS; } while(o<d.size()); to->lastAt=std::max(to->lastAt,to->flight.empty()?0:to->flight.back().at); if(delay) out.faults["net_delay"]++; pump(); }
void Sim::sockClose(SockP s){ if(s->st==4&&!s->peer&&s->type==SOCK_STREAM&&s->port==0) return; if(s->st==2||s->st==1){ auto it=listeners.find(s->port); if(it!=listeners.end()&&it->second==s) listeners.erase(it); for(auto&b:s->backlog){ if(b->peer) sockSend(b,"",true,true); } } if(s->peer&&s->st!=5){ if(!s->in.empty()) sockSend(s,"",true,true); else if(!s->wrShut) sockSend(s,"",true,false); } s->st=4; s->inEof=true; }
static u16 be(u16 v){ return (v>>8)|(v<<8); }
long Sim::doSock(Task&t,int nr,u64*a){ Proc*p=t.p; auto mk=[&](int dom,int type){ auto s=make_shared<Sock>(); s->domain=dom; s->type=type&0xf; s->id=++sockId; socks.push_back(s); return s; }; auto mkf=[&](SockP s,int fl){ auto f=make_shared<OpenFile>(); f->t=F_SOCK; f->sock=s; f->flags=O_RDWR|(fl&O_NONBLOCK); f->id=++fileId; f->path="sock"; return f; };
  // the kernel reads ints: the upper half of their registers is ignored
  a[0]=(u32)a[0]; switch(nr){ case SYS_socket: case SYS_listen: case SYS_shutdown: case SYS_socketpair: a[1]=(u32)a[1]; break; case SYS_bind: case SYS_connect: a[2]=(u32)a[2]; break; case SYS_sendto: case SYS_recvfrom: a[3]=(u32)a[3]; break; case SYS_setsockopt: a[4]=(u32)a[4]; break; }
  if(nr==SYS_socket){ if(a[0]!=AF_INET&&a[0]!=AF_UNIX) return -EAFNOSUPPORT; int ty=a[1]&0xf; if(ty!=SOCK_STREAM&&ty!=SOCK_DGRAM) return -EINVAL; if(fault(t,"emfile","socket")) return -EMFILE; return newFd(p,mkf(mk(a[0],ty),a[1]),a[1]&O_CLOEXEC); }
  if(nr==SYS_socketpair){ if(a[0]!=AF_UNIX) return -EOPNOTSUPP; SockP x=mk(AF_UNIX,SOCK_STREAM),y=mk(AF_UNIX,SOCK_STREAM); x->peer=y;y->peer=x;x->st=y->st=3; int v[2]={newFd(p,mkf(x,a[1]),a[1]&O_CLOEXEC),newFd(p,mkf(y,a[1]),a[1]&O_CLOEXEC)}; return wr(p,a[3],v,8)?0:-EFAULT; }
  FileP f=getF(p,(int)a[0]); if(!f) return -EBADF; if(f->t!=F_SOCK) return -ENOTSOCK; SockP s=f->sock; auto rdaddr=[&](u64 ad,u64 len,u16&port,u32&ip)->long{ if(len<8||len>128) return -EINVAL; u8 b[128]; if(!rd(p,ad,b,len)) return -EFAULT; u16 fam; memcpy(&fam,b,2); if(fam!=s->domain) return -EAFNOSUPPORT; if(fam==AF_INET&&len<16) return -EINVAL; u16 pt; memcpy(&pt,b+2,2); port=be(pt); memcpy(&ip,b+4,4); ip=ntohl(ip); return 0; };
  auto wraddr=[&](u64 ad,u64 lad,u16 port,u32 ip)->long{ if(!ad) return 0; u32 l; if(!rdv(p,lad,l)) return -EFAULT; u8 b[16]={0}; u16 fam=s->domain; memcpy(b,&fam,2); u16 pt=be(port); memcpy(b+2,&pt,2); u32 x=htonl(ip); memcpy(b+4,&x,4); if(!wr(p,ad,b,std::min<u32>(l,16))) return -EFAULT; l=16; return wrv(p,lad,l)?0:-EFAULT; };
  switch(nr){
  case SYS_bind: { u16 pt;u32 ip; long r=rdaddr(a[1],a[2],pt,ip); if(r) return r; if(s->st!=0) return -EINVAL; if(ip!=0&&ip!=0x7f000001) return -EADDRNOTAVAIL; if(fault(t,"addrinuse","bind")||listeners.count(pt)) return -EADDRINUSE; if(!pt) pt=ephemeral++; s->port=pt; s->addr=ip; s->st=1; if(s->type==SOCK_DGRAM) listeners[pt]=s; return 0; }
  case SYS_listen: if(s->type!=SOCK_STREAM) return -EOPNOTSUPP; if(s->st==0){ s->port=ephemeral++; s->st=1; } if(s->st!=1&&s->st!=2) return -EINVAL; s->st=2; s->maxback=(int)a[1]; listeners[s->port]=s; return 0;
  case SYS_accept: case SYS_accept4: { if(s->st!=2) return -EINVAL; if(!t.retry&&fault(t,"eintr","accept")) return -EINTR; if(!t.retry&&fault(t,"conn_aborted","accept")) return -ECONNABORTED; if(s->backlog.empty()){ if(f->flags&O_NONBLOCK) return -EAGAIN; t.ready=[s]{ return !s->backlog.empty(); }; return SYS_BLOCK; } if(fault(t,"emfile","accept")) return -EMFILE; size_t k=s->backlog.size()>1?choose("acceptpick",p->vpid,s->backlog.size(),0,0.3):0; SockP c=s->backlog[k]; s->backlog.erase(s->backlog.begin()+k); int fl=nr==SYS_accept4?(int)a[3]:0; long r=wraddr(a[1],a[2],c->peerPort,c->peerAddr); if(r) return r; c->st=3; return newFd(p,mkf(c,fl),fl&O_CLOEXEC); }
  case SYS_connect: { u16 pt;u32 ip; if(!t.retry){ long r=rdaddr(a[1],a[2],pt,ip); if(r) return r; if(s->st==3) return -EISCONN; if(s->type==SOCK_DGRAM){ s->peerPort=pt; s->peerAddr=ip; return 0; } if(fault(t,"conn_refused","connect")) return -ECONNREFUSED; if(fault(t,"conn_timeout","connect")) return -ETIMEDOUT; auto it=listeners.find(pt); if(it==listeners.end()||it->second->type!=SOCK_STREAM||(ip!=0x7f000001&&ip!=0)) return -ECONNREFUSED; SockP c=mk(AF_INET,SOCK_STREAM); c->peer=s; s->peer=c; if(!s->port) s->port=ephemeral++; s->peerPort=pt; s->peerAddr=ip; c->port=pt; c->peerPort=s->port; c->peerAddr=0x7f000001; c->addr=0x7f000001; s->addr=0x7f000001; s->st=3; c->st=3; it->second->backlog.push_back(c); u64 d=param("net.connect",p->vpid,20)*MS; if(d){ t.deadline=now+d; t.ready=nullptr; return SYS_BLOCK; } } return 0; }
  case SYS_sendto: { if(a[2]>(1u<<20)) return -EMSGSIZE; string d(a[2],0); if(!rd(p,a[1],&d[0],a[2])) return -EFAULT; int fl=(int)a[3]; if(fl&~0x4040|0) { if(fl&~(MSG_NOSIGNAL|MSG_DONTWAIT|MSG_MORE)) return -EOPNOTSUPP; } if(s->type==SOCK_DGRAM){ u16 pt=s->peerPort;u32 ip=s->peerAddr; if(a[4]){ long r=rdaddr(a[4],(u32)a[5],pt,ip); if(r) return r; } else if(!pt) return -EDESTADDRREQ; auto it=listeners.find(pt); logv(hstr(d)); if(it!=listeners.end()&&it->second->type==SOCK_DGRAM){ if(fault(t,"dgram_loss","net")) return d.size(); int copies=fault(t,"dgram_dup","net")?2:1; for(int i=0;i<copies;i++){ Sock::Dg g; g.at=now+param("net.ddelay",s->id,30)*MS; g.data=d; g.port=s->port?s->port:(s->port=ephemeral++); g.addr=0x7f000001; it->second->dgrams.push_back(g); } } return d.size(); }
      if(a[4]) { u8 b; if((u32)a[5]==0||!rd(p,a[4],&b,1)){ if(!rd(p,a[4],&b,1)) return -EFAULT; } if((u32)a[5]>128) return -EINVAL; if(s->st==3) return -EISCONN; return -ENOTCONN; } if(s->st!=3&&!s->peer) { return -ENOTCONN; }
      bool nosig=fl&MSG_NOSIGNAL; u64 h=p->sa[13].handler; if(nosig) p->sa[13].handler=1; int ofl=f->flags; if(fl&MSG_DONTWAIT) f->flags|=O_NONBLOCK; long r=doWrite(t,f,d,0,false,(int)a[0]); f->flags=ofl; p->sa[13].handler=h; return r; }
  case SYS_recvfrom: { int fl=(int)a[3]; u64 n=std::min<u64>(a[2],1<<20); if(s->type==SOCK_DGRAM){ vector<size_t> av; for(size_t i=0;i<s->dgrams.size();i++) if(s->dgrams[i].at<=now) av.push_back(i); if(av.empty()){ if((f->flags&O_NONBLOCK)||(fl&MSG_DONTWAIT)) return -EAGAIN; Sim*S=this; t.ready=[S,s]{ return S->sockReadable(s); }; return SYS_BLOCK; } size_t k=av[av.size()>1?choose("dgpick",p->vpid,av.size(),0,0.5):0]; auto g=s->dgrams[k]; if(!(fl&MSG_PEEK)) s->dgrams.erase(s->dgrams.begin()+k); u64 c=std::min<u64>(n,g.data.size()); if(!wr(p,a[1],g.data.data(),c)) return -EFAULT; long r=wraddr(a[4],a[5],g.port,g.addr); if(r) return r; logv(hstr(g.data)); return c; }
      if(s->st!=3) return s->st==4&&s->inEof?0:-ENOTCONN; if(!t.retry&&n){ if(fault(t,"eintr","sock")) return -EINTR; } if(s->reset){ s->reset=false; return -ECONNRESET; } if(s->in.empty()){ if(s->inEof) return 0; if((f->flags&O_NONBLOCK)||(fl&MSG_DONTWAIT)) return -EAGAIN; t.ready=[s]{ return !s->in.empty()||s->inEof||s->reset; }; return SYS_BLOCK; } u64 c=std::min<u64>(n,s->in.size()); if(c>1&&fault(t,"short_read","sock")) c=1+param("short_read.len",p->vpid,c-1); if(!wr(p,a[1],s->in.data(),c)) return -EFAULT; logv(hstr(s->in.data(),c)); if(!(fl&MSG_PEEK)) s->in.erase(0,c); if(a[4]){ u32 z=0; if(a[5]) wrv(p,a[5],z); } return c; }
  case SYS_shutdown: { if(s->st!=3) return -ENOTCONN; if(a[1]>2) return -EINVAL; if(a[1]==0||a[1]==2) s->inEof=true; if((a[1]==1||a[1]==2)&&!s->wrShut){ s->wrShut=true; sockSend(s,"",true,false); } return 0; }
  case SYS_getsockname: return wraddr(a[1],a[2],s->port,s->addr); case SYS_getpeername: if(s->st!=3) return -ENOTCONN; return wraddr(a[1],a[2],s->peerPort,s->peerAddr);
  case SYS_setsockopt: { if(a[4]>256) return -EINVAL; string v(a[4],0); if(a[4]&&!rd(p,a[3],&v[0],a[4])) return -EFAULT; return 0; } case SYS_getsockopt: { u32 z=0,l=4; if(!wrv(p,a[3],z)||!wrv(p,a[4],l)) return -EFAULT; return 0; }
  } return -EINVAL; }
