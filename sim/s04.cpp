// S04: the allocator against a ledger of blocks kept by the simulator.
#include "memwatch.h"
// ops: alloc s n | calloc s n m | realloc s n | free s | copy s t so to n | move ... | set s off n v | zero s off n | eq .. | iszero s off n | freenil | reallocnil s n | huge k | make s
static u64 rsize(Rng&r,bool th){ switch(r.below(8)){ case 0: return r.below(3); case 1: case 2: return 1+r.below(64); case 3: return 1+r.below(3000); case 4: return 4096-8+r.range(-3,3); case 5: return 8192-8+r.range(-9,9); case 6: return 1+r.below(40000); default: return th?1+r.below(400000):4096*(1+r.below(4))-r.below(20); } }
static void genS04(Rng&r,Case&c,bool th,u64){ int n=3+r.below(th?60:28); for(int i=0;i<n;i++){ int s=r.below(6),t=r.below(6); u64 z=rsize(r,th); switch(r.below(17)){ case 0: case 1: case 2: c.ops.push_back(strf("alloc\t%d\t%llu",s,(unsigned long long)z)); break; case 3: { u64 m=1+r.below(40); c.ops.push_back(strf("calloc\t%d\t%llu\t%llu",s,(unsigned long long)(r.chance(0.1)?0:z/m+1),(unsigned long long)(r.chance(0.05)?0:m))); break; } case 4: case 5: case 6: c.ops.push_back(strf("realloc\t%d\t%llu",s,(unsigned long long)z)); break; case 7: case 8: case 9: c.ops.push_back(strf("free\t%d",s)); break; case 10: c.ops.push_back(strf("copy\t%d\t%d\t%d\t%d\t%llu",s,t,(int)r.below(50),(int)r.below(50),(unsigned long long)(r.below(3000)))); break; case 11: c.ops.push_back(strf("move\t%d\t%d\t%d\t%d\t%llu",s,r.chance(0.5)?s:t,(int)r.below(50),(int)r.below(50),(unsigned long long)(r.below(3000)))); break; case 12: c.ops.push_back(strf("set\t%d\t%d\t%llu\t%d",s,(int)r.below(50),(unsigned long long)r.below(300),(int)r.below(256))); break; case 13: c.ops.push_back(strf("zero\t%d\t%d\t%llu",s,(int)r.below(50),(unsigned long long)r.below(300))); break; case 14: c.ops.push_back(strf("%s\t%d\t%d\t%d\t%d\t%llu",r.chance(0.5)?"eq":"iszero",s,r.chance(0.3)?s:t,(int)r.below(50),(int)r.below(50),(unsigned long long)r.below(100))); break; case 15: c.ops.push_back(r.chance(0.3)?"freenil":r.chance(0.5)?strf("reallocnil\t%d\t%llu",s,(unsigned long long)z):strf("make\t%d",s)); break; default: c.ops.push_back(strf("%s\t%d\t%d",r.chance(0.6)?"huge":r.chance(0.5)?"hugec":"huger",(int)r.below(10),s)); break; } }
  c.set("mmap",(i64)r.below(6)); genFaults(r,c,{"enomem"},0.5,0.4); }
static const u64 kHuge[]={~0ULL,~0ULL-1,~0ULL-7,~0ULL-8,~0ULL/2,~0ULL/2+1,1ULL<<62,1ULL<<47,(1ULL<<63)-8,~0ULL-4096};
static void runS04(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s04"); MemWatch mw(d); s.mmapPolicy=c.geti("mmap"); struct B{ u64 p=0,n=0; string v; u64 pages=0; }; map<int,B> bl; Rng rr(c.seed^77); vector<string> w; u64 tot0=0; u64 sz=0; 
    auto fill=[&](B&b){ b.v.resize(b.n); for(auto&ch:b.v) ch=(char)rr.next(); s.wr(d.p,b.p,b.v.data(),b.n); };
    auto verify=[&](const string&o)->bool{ for(auto&k:bl){ auto&b=k.second; if(!b.p||!b.n) continue; string g(b.n,0); if(!s.rd(d.p,b.p,&g[0],b.n)){ out.bad("block_lost",strf("block %d (%llu bytes) is no longer mapped after: ",k.first,(unsigned long long)b.n)+esc(o)); return false; } if(g!=b.v){ size_t i=0; while(g[i]==b.v[i]) i++; out.bad("content_changed",strf("byte %zu of block %d (%llu bytes) changed in: ",i,k.first,(unsigned long long)b.n)+esc(o)); return false; } } return true; };
    auto overlap=[&](u64 p,u64 n,int me)->bool{ for(auto&k:bl) if(k.first!=me&&k.second.p&&p<k.second.p+k.second.n&&k.second.p<p+n) return true; return false; };
    d.enc=[&](const string&o,OpReq&q)->bool{ d.p->trackMaps=true; w=W(o); if(w.empty()) return false; const string&n=w[0]; auto A=[&](size_t i){ return i<w.size()?(u64)N(w[i]):0; }; int sl=A(1); tot0=mw.total; 
      if(n=="alloc"){ if(bl[sl].p) return false; q.op=rr.chance(0.5)?1:14; q.a=sz=A(2); } else if(n=="calloc"){ if(bl[sl].p) return false; q.op=2; q.a=A(2); q.b=A(3); sz=A(2)*A(3); } else if(n=="make"){ if(bl[sl].p) return false; q.op=12; sz=56; } 
      else if(n=="realloc"){ if(!bl[sl].p) return false; q.op=rr.chance(0.5)?3:15; q.a=bl[sl].p; q.b=sz=A(2); } else if(n=="reallocnil"){ if(bl[sl].p) return false; q.op=3; q.a=0; q.b=sz=A(2); } else if(n=="free"){ if(!bl[sl].p) return false; q.op=rr.chance(0.5)?4:13; q.a=bl[sl].p; } else if(n=="freenil"){ q.op=4; q.a=0; }
      else if(n=="copy"||n=="move"||n=="eq"){ B&x=bl[sl]; B&y=bl[(int)A(2)]; u64 k=A(5); if(!x.p||!y.p||A(3)+k>x.n||A(4)+k>y.n) return false; q.op=n=="copy"?5:n=="move"?6:9; q.a=x.p+A(3); q.b=y.p+A(4); q.c=k; }
      else if(n=="set"||n=="zero"){ B&x=bl[sl]; if(!x.p||A(2)+A(3)>x.n) return false; q.op=n=="set"?7:8; q.a=x.p+A(2); q.b=(i64)A(4); q.c=A(3); }
      else if(n=="iszero"){ B&x=bl[sl]; if(!x.p||A(3)+A(5)>x.n) return false; q.op=10; q.a=x.p+A(3); q.c=A(5); }
      else if(n=="huge"){ q.op=1; q.a=kHuge[A(1)%10]; } else if(n=="hugec"){ q.op=2; q.a=kHuge[A(1)%10]; q.b=2+A(1)*3; } else if(n=="huger"){ sl=A(2); if(!bl[sl].p) return false; q.op=3; q.a=bl[sl].p; q.b=kHuge[A(1)%10]; }
      else return false; return true; };
    d.done=[&](const string&o,const OpRes&r){ const string&n=w[0]; auto A=[&](size_t i){ return i<w.size()?(u64)N(w[i]):0; }; int sl=A(1); bool nomem=d.faulted("enomem"); string at=" in: "+esc(o); u64 R=(u64)r.r; 
      auto gotBlock=[&](const string&keep,bool zeroed){ if(R==0){ if(!nomem){ out.bad("spurious_nil","allocation of "+std::to_string(sz)+" bytes returned nil although memory was available"+at); return; } if(r.err==0) out.bad("no_error","nil without an error"+at); else if(r.err!=12) out.bad("wrong_error",strf("nil with error %lld instead of NOMEM",(long long)r.err)+at); if(mw.total!=tot0) out.bad("leak","a failed allocation changed the mapped memory"+at); out.probes["alloc_failed"]++; return; }
        if(r.err!=0) out.bad("fresh_error",strf("a successful allocation leaves error %lld",(long long)r.err)+at); if(!mw.mapped(R,sz)){ out.bad("too_small",strf("the block of %llu bytes at %llx is not completely inside memory the program owns",(unsigned long long)sz,(unsigned long long)R)+at); return; } if(overlap(R,std::max<u64>(sz,1),sl)){ out.bad("overlap","the new block overlaps another live block"+at); return; } 
        B&b=bl[sl]; string g(sz,0); if(sz) s.rd(d.p,R,&g[0],sz); if(zeroed){ for(char ch:g) if(ch){ out.bad("not_zeroed","calloc'd memory is not zero"+at); return; } } size_t k=std::min<size_t>(keep.size(),sz); if(g.compare(0,k,keep,0,k)!=0){ out.bad("prefix_lost","resizing does not keep the common prefix"+at); return; } u64 old=b.pages; b.p=R; b.n=sz; b.pages=mw.total-(tot0-old); fill(b); };
      if(n=="alloc"||n=="make"||n=="reallocnil") gotBlock("",false); else if(n=="calloc") gotBlock("",true);
      else if(n=="realloc"){ B old=bl[sl]; gotBlock(old.v,false); if(R==0&&!mw.mapped(old.p,old.n)) out.bad("block_lost","a failed resize released the old block"+at); if(R) out.probes["resized"]++; }
      else if(n=="free"){ B b=bl[sl]; bl.erase(sl); if(mw.total!=tot0-b.pages) out.bad(mw.total>tot0-b.pages?"leak":"freed_too_much",strf("freeing a block of %llu bytes changed the mapped memory by %lld instead of %lld bytes",(unsigned long long)b.n,(long long)(mw.total-tot0),(long long)-(i64)b.pages)+at); if(r.err) out.bad("fresh_error","free leaves an error"+at); }
      else if(n=="freenil"){ if(mw.total!=tot0) out.bad("freed_too_much","free(nil) changed the mapped memory"); }
      else if(n=="copy"||n=="move"){ B&x=bl[sl]; B&y=bl[(int)A(2)]; u64 k=A(5); u64 px=x.p+A(3),py=y.p+A(4); bool ov=(px<=py&&px+k>py)||(py<=px&&py+k>px); if(n=="copy"&&ov){ if(r.r==0) out.bad("bad_result","copy of overlapping ranges reports success"+at); } else { string v=y.v.substr(A(4),k); x.v.replace(A(3),k,v); if(n=="copy"&&r.r!=0) out.bad("bad_result","copy reports failure"+at); if(n=="move"&&R!=px) out.bad("bad_result","move does not return its destination"+at); } }
      else if(n=="set"||n=="zero"){ B&x=bl[sl]; x.v.replace(A(2),A(3),string(A(3),n=="set"?(char)A(4):0)); }
      else if(n=="eq"){ bool e=bl[sl].v.compare(A(3),A(5),bl[(int)A(2)].v,A(4),A(5))==0; if((r.r!=0)!=e) out.bad("bad_result","eq gives a wrong answer"+at); } else if(n=="iszero"){ string v=bl[sl].v.substr(A(3),A(5)); bool z=v.find_first_not_of('\0')==string::npos; if((r.r!=0)!=z) out.bad("bad_result","is_zero gives a wrong answer"+at); }
      else if(n=="huge"||n=="hugec"||n=="huger"){ if(n=="huge"&&A(1)%10==7&&R){ } else if(R!=0) out.bad("bogus_block",strf("a request that no machine can satisfy returned %llx",(unsigned long long)R)+at); if(R==0&&r.err==0) out.bad("no_error","nil without an error"+at); if(mw.total!=tot0) out.bad("leak","a failed allocation changed the mapped memory"+at); }
      mw.checkAll(); verify(o); };
    d.start(); d.run(); }); }
static Reg rS04({"S04",20000,100000,genS04,runS04,nullptr,"Each run performs up to 30 (thorough: 62) random allocate, calloc, resize, free, copy, move, set and compare calls with adversarial block placement and refused mappings; the simulator keeps a ledger of every block with its content, watches every mapping and fills the bytes behind each block with a canary.",kRealS,kStubS,kAssumeS});
