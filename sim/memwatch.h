// Watches the anonymous mappings of one driver: the exact length asked for, the unused rest of the
// last page (filled with a canary), and the total.
#pragma once
#include "stdrv.h"
struct MemWatch { Drv&d; struct R{ u64 len; }; map<u64,R> reg; u64 total=0; bool bad=false; u64 maps=0,unmaps=0;
  explicit MemWatch(Drv&d):d(d){ Sim&s=d.s; auto oh=s.sysHook; auto op=s.sysPost;
    s.sysHook=[this,oh](Task&t,int nr,u64*a,long&ret)->bool{ if(t.p==this->d.p&&this->d.p->trackMaps&&(nr==SYS_munmap||nr==SYS_mremap)) drop(a[0],a[1],nr==SYS_munmap); return oh?oh(t,nr,a,ret):false; };
    s.sysPost=[this,op](Task&t,int nr,u64*a,long ret){ if(t.p==this->d.p&&this->d.p->trackMaps){ bool ok=!(ret<0&&ret>-4096); if(nr==SYS_mmap&&ok&&((int)a[3]&0x20)) add((u64)ret,a[1]); else if(nr==SYS_mremap) { if(ok) add((u64)ret,a[2]); else add(a[0],a[1],false); } } if(op) op(t,nr,a,ret); }; }
  static u64 up(u64 x){ return (x+4095)&~4095ULL; }
  void add(u64 at,u64 len,bool fill=true){ maps++; reg[at]={len}; total+=up(len); u64 sl=up(len)-len; if(sl&&fill){ string x(sl,(char)0xA5); d.s.wr(d.p,at+len,x.data(),sl); } }
  void checkOne(u64 at,u64 len){ u64 sl=up(len)-len; if(!sl) return; string x(sl,0); if(!d.s.rd(d.p,at+len,&x[0],sl)) return; for(u64 i=0;i<sl;i++) if((u8)x[i]!=0xA5){ d.out.bad("out_of_bounds_write",strf("byte %llu behind a block of %llu bytes was overwritten in: ",(unsigned long long)i,(unsigned long long)len)+esc(d.curOp,200)); bad=true; return; } }
  void drop(u64 at,u64 len,bool real){ if((at&4095)||!len) return; u64 lo=at,hi=at+up(len); unmaps++; vector<std::pair<u64,u64>> keep; for(auto it=reg.begin();it!=reg.end();){ u64 b=it->first,e=b+up(it->second.len); if(b<hi&&e>lo){ checkOne(b,it->second.len); total-=e-b; if(b<lo) keep.push_back({b,lo-b}); if(e>hi) keep.push_back({hi,e-hi}); it=reg.erase(it); } else ++it; } for(auto&k:keep){ reg[k.first]={k.second}; total+=k.second; } }
  void checkAll(){ if(bad) return; for(auto&r:reg) checkOne(r.first,r.second.len); }
  bool mapped(u64 at,u64 n){ u64 p=at,e=at+n; while(p<e||n==0){ auto it=reg.upper_bound(p); if(it==reg.begin()) return false; --it; u64 end=it->first+it->second.len; if(p>=end) { return n==0&&p==end; } if(n==0) return true; p=end; if(p<e) { p=up(p); } } return true; } };
