// S12: sockets carry the program's bytes unchanged.
#include "stdrv.h"
#include <netinet/in.h>
#include <sys/socket.h>
// Program: sock type nb | bind s port ip fam | listen s n | accept s addrlen nb | send s n flags | write s n | wall s n | recv s n flags addrlen | read s n | shut s how | close s | name s len | peer s len | pair | dup s
// Peers (they act d ms later, while the program goes on): pconn port d | psend p n d | pfin p d | prst p d | pdrain p d | pdgram port n d
static void genS12(Rng&r,Case&c,bool th,u64){ c.set("seed",(i64)r.below(1u<<30)); c.set("pswitch",r.chance(0.5)?std::string("0.5"):std::string("0.1")); int n=8+r.below(th?120:45); int type=r.chance(0.8)?1:2; auto P=[&]{ return (int)r.below(2); }; auto S=[&]{ return (int)r.below(1+r.below(8)); }; auto X=[&]{ return (int)(r.chance(0.8)&&type==1?1+r.below(1+r.below(4)):S()); }; auto D=[&]{ return (int)(r.chance(0.4)?0:r.below(40)); }; auto L=[&]{ return (int)(r.chance(0.6)?1+r.below(60):r.chance(0.7)?r.below(3000):r.below(20000)); };
  c.ops.push_back(strf("sock\t%d\t0",type)); c.ops.push_back("bind\t0\t0\t0\t0"); if(type==1) c.ops.push_back("listen\t0\t4");
  for(int i=0;i<n;i++) switch(r.below(26)){ case 0: c.ops.push_back(strf("sock\t%d\t%d",(int)(r.chance(0.6)?1:r.chance(0.8)?2:(int)r.below(7)),(int)r.chance(0.15))); c.ops.push_back(strf("bind\t-1\t%d\t%d\t0",P(),(int)r.below(3))); break; case 1: c.ops.push_back(strf("bind\t%d\t%d\t%d\t%d",S(),(int)r.below(6),(int)r.below(8),(int)r.chance(0.1))); break; case 2: c.ops.push_back(strf("listen\t%d\t%d",S(),(int)r.below(9)-1)); break; case 3: case 4: case 5: c.ops.push_back(strf("accept\t%d\t%d\t%d",(int)(r.chance(0.7)?0:S()),(int)(r.chance(0.3)?-1:r.chance(0.6)?16:(int)r.below(20)),D())); break;
    case 6: case 7: case 8: c.ops.push_back(strf("send\t%d\t%d\t%d",X(),L(),(int)(r.chance(0.5)?0:r.chance(0.5)?0x4000:r.chance(0.5)?0x40:0x4040))); break; case 9: case 22: c.ops.push_back(strf("%s\t%d\t%d",r.chance(0.5)?"write":"wall",X(),L())); break; case 10: case 11: case 12: case 13: c.ops.push_back(strf("recv\t%d\t%d\t%d\t%d",X(),L(),(int)(r.chance(0.6)?0:r.chance(0.5)?2:r.chance(0.5)?0x40:0x42),(int)(r.chance(0.6)?-1:(int)r.below(20)))); break; case 14: c.ops.push_back(strf("read\t%d\t%d",X(),L())); break;
    case 15: c.ops.push_back(strf("shut\t%d\t%d",S(),(int)r.below(r.chance(0.9)?3:6))); break; case 16: c.ops.push_back(strf("close\t%d",S())); break; case 17: c.ops.push_back(strf("%s\t%d\t%d",r.chance(0.5)?"name":"peer",S(),(int)(r.chance(0.6)?16:r.below(20)))); break; case 18: c.ops.push_back(r.chance(0.5)?string("pair"):strf("dup\t%d",S())); break; case 19: c.ops.push_back(strf("pconn\t%d\t%d",P(),D())); break; case 20: case 21: c.ops.push_back(strf("psend\t%d\t%d\t%d",(int)r.below(1+r.below(6)),L(),D())); break; case 25: c.ops.push_back(strf("pfin\t%d\t%d",(int)r.below(6),D())); break; case 23: c.ops.push_back(strf("%s\t%d\t%d",r.chance(0.3)?"prst":"pdrain",(int)r.below(6),D())); break; default: c.ops.push_back(strf("pdgram\t%d\t%d\t%d",P(),(int)(r.chance(0.9)?r.below(500):r.below(9000)),D())); }
  genFaults(r,c,{"eintr","short_read","short_write","eio_write","emfile","addrinuse","conn_aborted","net_split","close_fail"},0.5,0.15); }
static const int kPort[]={8001,513,255,0xff00,0xabcd,0x00cd}; static const u32 kIp[]={0x7f000001,0,0x7f000001,0x0a000001,0x01000000,0xfedcba98,0x12345678,0xc0a8017f};
static const u32 kFrom[]={0x7f000001,0xc0a8017f,0x12345678,0xfedcba98};
struct Peer { SockP k; string sent, got; bool fin=false,rst=false,eof=false; };
struct Conn { int kind=0; /*1 socket 2 peer connection 3 pair end*/ int peer=-1; string*from=nullptr; size_t got=0; string sent; bool rdShut=false, wrShut=false, nb=false; SockP k; std::shared_ptr<Conn> other; };
static void runS12(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s12"); Rng rr((u64)c.geti("seed")+9); vector<string> w; string mem(49152,0); for(auto&ch:mem) ch=(char)rr.next(); bool st=false; std::deque<Peer> peers; map<int,shared_ptr<Conn>> cs; vector<int> order; string data; shared_ptr<Conn> cn; int fd=-1; i64 x=0,y=0,z=0; struct Call{ int first; long second; u64 a[4]; string sa; }; vector<Call> calls; size_t nd=0; vector<string> dg; 
  struct Ev{ u64 at; std::function<void()> f; }; std::deque<Ev> evs; auto at=[&](i64 ms,std::function<void()> f){ u64 t=s.now+(u64)std::max<i64>(0,std::min<i64>(ms,1000))*1000000+1; auto it=evs.begin(); while(it!=evs.end()&&it->at<=t) ++it; evs.insert(it,Ev{t,f}); };
  auto drain=[&](Peer&p){ s.pump(); p.got+=p.k->in; p.k->in.clear(); if(p.k->inEof) p.eof=true; };
  auto*net=s.actor("peers"); net->ready=[&]{ return !evs.empty()&&evs.front().at<=s.now; }; net->step=[&]{ auto e=evs.front(); evs.pop_front(); e.f(); }; net->wakeAt=[&]{ return evs.empty()?~0ULL:evs.front().at; };
  auto gen=[&](size_t n){ string t(n,0); for(auto&ch:t) ch=(char)rr.next(); return t; };
  auto connectTo=[&](int port){ auto it=s.listeners.find(port); if(it==s.listeners.end()||it->second->type!=SOCK_STREAM) return; auto L=it->second; SockP ext=make_shared<Sock>(), k=make_shared<Sock>(); ext->domain=k->domain=2; ext->type=k->type=1; ext->id=++s.sockId; k->id=++s.sockId; s.socks.push_back(ext); s.socks.push_back(k); ext->external=true; k->peer=ext; ext->peer=k; ext->port=s.ephemeral++; ext->addr=0x7f000001; k->port=port; k->addr=0x7f000001; k->peerPort=ext->port; k->peerAddr=kFrom[rr.below(4)]; ext->st=k->st=3; ext->cap=1+rr.below(9000); k->cap=1<<20; L->backlog.push_back(k); peers.push_back(Peer{ext}); out.probes["peer_connects"]++; };
  auto psend=[&](int i,size_t n){ if(i<0||i>=(int)peers.size()) return; Peer&p=peers[i]; if(p.fin||p.rst) return; string t=gen(n); p.sent+=t; s.sockSend(p.k,t,false,false); out.probes["peer_bytes"]+=n; };
  auto pfin=[&](int i){ if(i<0||i>=(int)peers.size()||peers[i].fin||peers[i].rst) return; peers[i].fin=true; s.sockSend(peers[i].k,"",true,false); out.probes["peer_closes"]++; };
  auto prst=[&](int i){ if(i<0||i>=(int)peers.size()||peers[i].rst) return; drain(peers[i]); peers[i].rst=true; s.sockSend(peers[i].k,"",true,true); peers[i].k->st=4; out.faults["peer_reset"]++; };
  auto repDrain=std::make_shared<std::function<void(int)>>(); *repDrain=[&,rd=std::weak_ptr<std::function<void(int)>>(repDrain)](int i){ if(i>=0&&i<(int)peers.size()&&!peers[i].rst) drain(peers[i]); if(d.inOp&&cn&&cn->peer==i) if(auto q=rd.lock()) at(30,[q,i]{ (*q)(i); }); };
  s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(t.p==d.p&&d.inOp&&nr!=HYPER_NR){ Call q{nr,ret,{a[0],a[1],a[2],a[3]},""}; if(nr==SYS_bind){ q.sa.resize(8); s.rd(d.p,a[1],&q.sa[0],8); } calls.push_back(q); } };
  auto pick=[&](i64 k)->int{ if(order.empty()) return 99; if(k<0) return order.back(); return k<(i64)order.size()?order[k]:k==(i64)order.size()?99:order[k%order.size()]; };
  d.enc=[&](const string&o,OpReq&q)->bool{ w=W(o); if(w.empty()) return false; if(!st){ st=true; s.wr(d.p,d.addr+80+65536,mem.data(),mem.size()); d.p->sa[13].handler=1; } auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; const string&n=w[0]; data.clear(); cn=nullptr; fd=-1; calls.clear(); x=A(2); y=A(3); z=A(4);
    if(n=="pconn"){ int p=kPort[A(1)&1]; at(A(2),[&,p]{ connectTo(p); }); return false; } if(n=="psend"){ i64 i=A(1),k=std::min<i64>(20000,A(2)); at(A(3),[&,i,k]{ psend(i,k); }); return false; } if(n=="pfin"){ i64 i=A(1); at(A(2),[&,i]{ pfin(i); }); return false; } if(n=="prst"){ i64 i=A(1); at(A(2),[&,i]{ prst(i); }); return false; } if(n=="pdrain"){ i64 i=A(1); at(A(2),[&,i]{ if(i>=0&&i<(i64)peers.size()&&!peers[i].rst) drain(peers[i]); }); return false; }
    if(n=="pdgram"){ int port=kPort[A(1)&1]; size_t k=std::min<i64>(9000,A(2)); string t=gen(k); at(A(3),[&,port,t]{ auto it=s.listeners.find(port); if(it==s.listeners.end()||it->second->type!=SOCK_DGRAM) return; Sock::Dg g; g.at=s.now; g.data=t; g.port=60000+(u16)(t.size()%500); g.addr=kFrom[t.size()%4]; it->second->dgrams.push_back(g); dg.push_back(t); out.probes["datagrams"]++; }); return false; }
    fd=n=="sock"||n=="pair"?-1:pick(A(1)); if(cs.count(fd)) cn=cs[fd]; q.a=fd;
    if(n=="sock"){ q.op=1; q.a=2; x=A(1); q.b=x|(A(2)?2048:0); y=A(2); return order.size()<12; } if(n=="bind"){ q.op=2; q.b=kPort[(u64)x%6]; q.c=kIp[((u64)y)%8]; q.d=z?10:2; return true; } if(n=="listen"){ q.op=3; q.b=x; return true; }
    if(n=="accept"){ if(order.size()>=12) return false; q.op=x<0?4:5; q.b=x; if(cn&&cn->kind==1&&cn->k->st==2&&cn->k->backlog.empty()&&!cn->nb){ int p=cn->k->port; if(p!=8001&&p!=513) return false;  auto li=s.listeners.find(p); if(li==s.listeners.end()||li->second!=cn->k) return false; at(y,[&,p]{ connectTo(p); }); } return true; }
    if(n=="send"||n=="write"||n=="wall"){ x=std::max<i64>(0,std::min<i64>(20000,x)); data=gen(x); q.buf=data; q.b=x; q.c=y; q.op=n=="send"?6:n=="write"?14:17; if(n!="send") y=0; if(cn&&cn->kind==3){ if(cn->k->peer&&cn->k->peer->in.size()+x>8000) return false; } if(cn&&cn->kind==2){ int i=cn->peer; auto q2=repDrain; at(5+rr.below(30),[q2,i]{ (*q2)(i); }); } return true; }
    if(n=="recv"||n=="read"){ x=std::max<i64>(0,std::min<i64>(20000,x)); q.b=x; bool rc=n=="recv"; q.c=rc?y:0; q.d=z; q.op=rc?(z<0?7:8):13; if(!rc) y=0,z=-1; bool block=cn&&!cn->nb&&!(y&0x40);
      if(block){ if(cn->kind==2&&!s.sockReadable(cn->k)&&cn->k->flight.empty()){ int i=cn->peer; if(peers[i].fin||peers[i].rst) return false; int k=rr.below(10); i64 dl=rr.below(40); if(k<7){ size_t m=1+rr.below(400); at(dl,[&,i,m]{ psend(i,m); if(peers[i].fin||peers[i].rst) return; }); } else if(k<9) at(dl,[&,i]{ pfin(i); }); else at(dl,[&,i]{ prst(i); }); } if(cn->kind==3&&!s.sockReadable(cn->k)) return false; if(cn->kind==1){ if(cn->k->type==SOCK_DGRAM){ if(cn->k->dgrams.empty()) return false; } else if(cn->k->st==3) return false; } } return true; }
    if(n=="shut"){ q.op=9; q.b=x; return true; } if(n=="close"){ q.op=10; return true; } if(n=="name"||n=="peer"){ q.op=n=="name"?11:12; q.b=x; return true; } if(n=="pair"){ q.op=15; return order.size()<12; } if(n=="dup"){ q.op=16; return order.size()<12; } return false; };
  d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; string at_=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&t){ out.bad(cl,t+at_); }; 
    static const map<int,int> nrs={{1,SYS_socket},{2,SYS_bind},{3,SYS_listen},{4,SYS_accept},{5,SYS_accept},{6,SYS_sendto},{7,SYS_recvfrom},{8,SYS_recvfrom},{9,SYS_shutdown},{10,SYS_close},{11,SYS_getsockname},{12,SYS_getpeername},{13,SYS_read},{14,SYS_write},{15,SYS_socketpair},{16,SYS_dup},{17,SYS_write}}; int want=nrs.at(d.req.op); 
    if(r.b!=(2|1<<4|2<<8|2<<12|0x40<<16)||r.c!=(1<<4|2<<8|(i64)2048<<12)||(u32)r.err!=0x7f000001){ bad("constant","a socket constant differs from the operating system's"); return; }
    for(auto&q:calls) if(q.first!=want){ bad("wrong_call",string("the operation performs ")+sysName(q.first)); return; } if(calls.empty()&&!(n=="wall"&&x==0)){ bad("no_call","no system call is performed"); return; } if(calls.size()>1&&n!="wall"){ bad("extra_call","more than one system call is performed"); return; }
    long ret=calls.empty()?0:calls.back().second; i64 R=r.r; if(n!="wall"&&(int)R!=(int)ret){ bad("result",strf("the call returns %lld, the system answered %ld",(long long)R,ret)); return; }
    { int op=d.req.op; if(!calls.empty()){ auto&q=calls[0]; if(op!=1&&op!=15&&(int)q.a[0]!=fd) bad("argument","the operation works on another descriptor"); if((op==6||op==7||op==8)&&((i64)q.a[2]!=x||(int)q.a[3]!=(int)y)) bad("argument",strf("length %lld, flags 0x%x reach the system as %lld, 0x%x",(long long)x,(int)y,(long long)q.a[2],(int)q.a[3])); if((op==13||op==14)&&(i64)q.a[2]!=x) bad("argument","another length reaches the system");
      if(op==2){ u8 b[8]; u16 fam=z?10:2,pt=htons(kPort[(u64)x%6]); u32 ip=htonl(kIp[(u64)y%8]); memcpy(b,&fam,2); memcpy(b+2,&pt,2); memcpy(b+4,&ip,4); if(memcmp(b,q.sa.data(),8)) bad("address","the address that reaches the system is not the one given"); } } if(out.violation) return; }
    string exp=mem; auto addr=[&](i64 len,u16 port,u32 ip,u16 fam,bool written){ u32 l=(u32)len; memcpy(&exp[40128],&l,4); if(ret<0||!written) return; u8 b[16]={0}; memcpy(b,&fam,2); u16 p=htons(port); memcpy(b+2,&p,2); u32 q=htonl(ip); memcpy(b+4,&q,4); memcpy(&exp[40064],b,std::min<i64>(16,std::max<i64>(0,len))); l=16; memcpy(&exp[40128],&l,4); if(len>=16){ if(r.a!=fam||(fam==2&&(r.s!=port||(u32)r.t!=ip))) bad("address",strf("the program sees address %lld %08llx:%lld instead of %u %08x:%u",(long long)r.a,(unsigned long long)r.t,(long long)r.s,fam,ip,port)); out.probes["addresses"]++; } };
    int op=d.req.op; bool live=cn!=nullptr; if(!live&&op!=1&&op!=15){ if(ret>=0&&n!="wall") bad("harness","closed descriptor accepted"); if(n=="wall"&&R&&x) bad("result","writing to a closed descriptor reports success"); }
    if(op==1&&ret>=0){ auto q=make_shared<Conn>(); q->kind=1; q->k=s.getF(d.p,(int)ret)->sock; q->nb=y; if(q->k->type!=(int)x) bad("wrong_socket","the socket has another type"); if(q->k->domain!=2) bad("wrong_socket","the socket has another domain"); bool nbk=s.getF(d.p,(int)ret)->flags&O_NONBLOCK; if(nbk!=(bool)y) bad("wrong_socket","the socket's blocking mode differs"); cs[ret]=q; order.push_back(ret); out.probes["sockets"]++; }
    else if(op==2&&ret==0){ if(cn->k->port!=kPort[(u64)x%6]) bad("address",strf("bound to port %u instead of %d",cn->k->port,kPort[(u64)x%6])); if(cn->k->addr!=kIp[((u64)y)%8]) bad("address",strf("bound to %08x instead of %08x",cn->k->addr,kIp[((u64)y)%8])); out.probes["bound"]++; }
    else if(op==2&&ret==-EADDRNOTAVAIL&&live&&((u64)y)%8<3) bad("address","the address that reached the system is not the one given"); else if(op==2&&ret==-EAFNOSUPPORT&&live&&!z&&cn->kind!=3) bad("address","the family that reached the system is not the one given");
    else if(op==3&&ret==0){ if(cn->k->maxback!=(int)x) bad("argument",strf("the backlog is %d instead of %lld",cn->k->maxback,(long long)x)); }
    else if(op==4||op==5){ if(op==5) memcpy(&exp[40128],"\0\0\0\0",4); if(ret>=0){ SockP k=s.getF(d.p,(int)ret)->sock; int i=-1; for(size_t j=0;j<peers.size();j++) if(peers[j].k==k->peer) i=j; if(i<0){ bad("harness","no peer"); return; } auto q=make_shared<Conn>(); q->kind=2; q->k=k; q->peer=i; q->from=&peers[i].sent; cs[ret]=q; order.push_back(ret); if(op==5) addr(x,k->peerPort,k->peerAddr,2,true); out.probes["accepted"]++; } else if(op==5) addr(x,0,0,2,false); }
    else if(op==6||op==14||op==17){ if(op==17){ i64 tot=0; for(auto&q:calls) if(q.second>0) tot+=q.second; bool ok=tot==x; if(!ok&&!calls.empty()&&calls.back().second==-EINTR) bad("gave_up","write_all gave up after an interruption"); if((R!=0)!=ok) bad("result",strf("write_all says %s although %lld of %lld bytes were written",R?"everything was written":"it failed",(long long)tot,(long long)x)); ret=tot; } if(ret>0&&live){ if(ret>(long)data.size()) { bad("harness","more accepted"); return; } cn->sent+=data.substr(0,ret); out.probes["bytes_sent"]+=ret; } if(op==6&&cn&&cn->kind==1&&cn->k->type==SOCK_DGRAM&&ret!=-EDESTADDRREQ&&ret!=-EOPNOTSUPP) bad("argument","a datagram was sent to an address the program did not give"); if(op==6&&cn&&cn->kind==2&&ret==-EISCONN) bad("argument","an address the program did not give reached the system"); }
    else if(op==7||op==8||op==13){ if(op==8) addr(z,0,0,2,false); if(live&&ret>=0){ string g=d.outBuf(64+ret).substr(64); if(cn->kind==1&&cn->k->type==SOCK_DGRAM){ int hit=-1; for(size_t i=0;i<dg.size();i++) if(dg[i].substr(0,ret)==g&&(size_t)ret==std::min<size_t>(x,dg[i].size())) hit=i; if(hit<0){ bad("corrupt",strf("the %ld bytes received are not a datagram that was sent",ret)); return; } memcpy(&exp[64],g.data(),ret); if(op==8) addr(z,60000+(u16)(dg[hit].size()%500),kFrom[dg[hit].size()%4],2,true); if(!(y&2)) dg.erase(dg.begin()+hit); out.probes["datagrams_received"]++; }
        else { const string*src=cn->kind==2?&peers[cn->peer].sent:&cn->other->sent; if(cn->got+ret>src->size()||src->compare(cn->got,ret,g)!=0){ bad("corrupt",strf("the %ld bytes received after %zu are not those that were sent",ret,cn->got)); return; } memcpy(&exp[64],g.data(),ret); if(!(y&2)) cn->got+=ret; if(op==8&&ret>0){ u32 zero=0; memcpy(&exp[40128],&zero,4); } out.probes["bytes_received"]+=ret; if(ret==0&&x>0&&cn->kind==2&&!cn->rdShut&&!(peers[cn->peer].fin&&cn->got==src->size())&&!peers[cn->peer].rst) bad("false_end","the end of the stream is reported before everything was received"); } }
      if(op==8&&live&&ret==0&&cn->kind!=1){ string g=d.outBuf(40132).substr(40128); memcpy(&exp[40128],g.data(),4); } }
    else if(op==9&&ret==0){ if(x==0||x==2) cn->rdShut=true; if(x>=1) { cn->wrShut=true; if(!cn->k->wrShut) bad("argument","the sending side is still open"); } else if(cn->k->wrShut!=cn->wrShut) bad("argument","the sending side was shut down"); if(cn->rdShut&&!cn->k->inEof) bad("argument","the receiving side is still open"); out.probes["shutdown"]++; }
    else if(op==10&&live){ if(d.p->fds.count(fd)) bad("leak","the descriptor is still open"); cs.erase(fd); order.erase(std::find(order.begin(),order.end(),fd)); out.probes["closed"]++; }
    else if(op==11||op==12){ if(live&&ret==0&&cn->kind!=3) addr(x,op==11?cn->k->port:cn->k->peerPort,op==11?cn->k->addr:cn->k->peerAddr,cn->k->domain,true); else if(live&&ret==0) addr(x,op==11?cn->k->port:cn->k->peerPort,op==11?cn->k->addr:cn->k->peerAddr,1,true); else addr(x,0,0,2,false); }
    else if(op==15&&ret==0){ int v[2]; string g=d.outBuf(40200).substr(40192); memcpy(v,g.data(),8); memcpy(&exp[40192],v,8); if(!s.getF(d.p,v[0])||!s.getF(d.p,v[1])||s.getF(d.p,v[0])->t!=F_SOCK||s.getF(d.p,v[1])->t!=F_SOCK||s.getF(d.p,v[0])->sock->peer!=s.getF(d.p,v[1])->sock){ bad("wrong_socket","socketpair does not return the two connected sockets"); return; } shared_ptr<Conn> a=make_shared<Conn>(),b=make_shared<Conn>(); a->kind=b->kind=3; a->k=s.getF(d.p,v[0])->sock; b->k=s.getF(d.p,v[1])->sock; a->k->cap=b->k->cap=1<<20; a->other=b; b->other=a; cs[v[0]]=a; cs[v[1]]=b; order.push_back(v[0]); order.push_back(v[1]); out.probes["pairs"]++; }
    else if(op==16&&ret>=0){ if(s.getF(d.p,(int)ret)!=s.getF(d.p,fd)) bad("result","the duplicate is another file"); cs[ret]=cn; order.push_back(ret); }
    if(out.violation) return; string ob=d.outBuf(mem.size()); if(ob!=exp){ size_t i=0; while(ob[i]==exp[i]) i++; bad("memory",strf("the program's memory is wrong at offset %zu (%s)",i,i<64?"in front of the buffer":i<40064?"in or behind the receive buffer":i<40080?"the address":i<40128?"behind the address":i<40132?"the address length":"elsewhere")); return; } mem=exp;
    // what the peers got so far
    for(auto&q:cs) if(q.second->kind==2){ Peer&p=peers[q.second->peer]; if(q.second->sent.compare(0,p.got.size(),p.got)!=0) { bad("corrupt","a peer received other bytes than the program sent to it"); return; } } nd++; };
  d.start(); bool ok=d.run(); for(auto&q:cs) if(q.second->kind==3) q.second->other=nullptr; if(!ok||out.violation) return;
  // everything the program sent arrives where the connection lived on
  s.now+=3600ULL*1000000000; for(auto&q:cs) if(q.second->kind==2){ Peer&p=peers[q.second->peer]; if(p.rst) continue; drain(p); if(p.k->reset) continue; const string&t=q.second->sent; if(t.compare(0,p.got.size(),p.got)!=0) out.bad("corrupt","a peer received other bytes than the program sent to it"); else if(p.got.size()!=t.size()) out.bad("lost",strf("a peer received %zu of the %zu bytes the program sent",p.got.size(),t.size())); } }); }
static Reg rS12({"S12",12000,80000,genS12,runS12,nullptr,"Each run lets a program open, bind, listen, accept, send, receive, shut down and close up to a dozen sockets in a random history of up to 53 (thorough: 128) calls while independent peers connect, send in chunks, drain slowly, close and reset at random simulated times and datagrams arrive reordered; every result is compared with the kernel's answer, every byte received or delivered with what the other end sent, and all of the program's memory with a model.",kRealS,kStubS,kAssumeS});
