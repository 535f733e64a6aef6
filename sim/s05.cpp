// S05: containers against reference models, under adversarial placement.
#include "memwatch.h"
// ops: "v T slot what args" (T 0 i64, 1 u8, 2 struct), "m M what args" (M 0 i32->i64, 1 u64->u8, 2 string->i32, 3 i64->struct), "s slot what args", "a slot size", "areset", "afree"
static string pickS(const vector<string>&v,Rng&r){ return v[r.below(v.size())]; }
static string sText(Rng&r,size_t mx){ static const char al[]="abcAB  \n0%-"; size_t n=r.chance(0.1)?0:r.chance(0.8)?1+r.below(20):1+r.below(mx); string t(n,0); for(auto&ch:t) ch=al[r.below(11)]; return t; }
static i64 val(Rng&r){ return r.chance(0.5)?r.range(-5,40):r.chance(0.5)?(i64)r.next():r.range(-100000,100000); }
static void genS05(Rng&r,Case&c,bool th,u64){ int focus=r.below(5); int n=10+r.below(th?400:r.chance(0.3)?220:60); static const vector<string> vo={"add","add","add","add","push","insert","insert","remove","erase","pop","vpop","last","lastn","get","set","copy","free","foreach"}; static const vector<string> mo={"put","put","put","put","put","get","get","keys","values","free"}; static const vector<string> so={"append","append","concat","concatself","concato","copy","substr","trim","equal","contains","cchar","find","size","fromint","fromuint","fromchar","free","cmacro","appendn","fmt","new","sized","fill"};
  int keyspan=r.chance(0.3)?8:r.chance(0.5)?60:400; int fm=r.below(4);
  for(int i=0;i<n;i++){ int f=r.chance(0.7)?focus:r.below(5); if(f==0||f==4){ int T=r.below(3); string w=pickS(vo,r); if(f==4&&r.chance(0.6)) w="add"; if(w=="copy"&&r.chance(0.7)) w="add"; if(w=="free"&&r.chance(0.6)) w="add"; string o=strf("v\t%d\t%d\t",T,(int)r.below(r.chance(0.5)?1:3))+w+strf("\t%lld\t%d\t%d",(long long)val(r),(int)r.below(1000),(int)r.below(5)); if(r.chance(0.1)&&w=="add") o+=strf("\t%d",(int)(1+r.below(300))); c.ops.push_back(o); }
    else if(f==1||(f==2&&r.chance(0.3))){ int M=r.chance(0.6)?fm:r.below(4); string w=pickS(mo,r); if(w=="free"&&r.chance(0.8)) w="put"; if((w=="keys"||w=="values")&&r.chance(0.5)) w="get"; int cnt=w=="put"&&r.chance(0.15)?(int)r.below(80):1; i64 k=r.chance(0.9)?r.below(keyspan):(i64)r.next(); c.ops.push_back(strf("m\t%d\t",M)+w+strf("\t%lld\t%lld\t%d",(long long)k,(long long)val(r),cnt)); }
    else if(f==2||(f==3&&r.chance(0.4))){ string w=pickS(so,r); c.ops.push_back(strf("s\t%d\t",(int)r.below(3))+w+strf("\t%lld\t%d\t",(long long)val(r),(int)r.below(r.chance(0.05)?5000:300))+sText(r,3000)); }
    else { int z=r.below(20); if(z==0) c.ops.push_back("areset"); else if(z==1) c.ops.push_back("afree"); else c.ops.push_back(strf("a\t%d",(int)(r.chance(0.6)?1+r.below(200):r.chance(0.7)?1+r.below(20000):1+r.below(150000)))); } }
  c.set("mmap",(i64)r.below(6)); }
static i64 dig(i64 b){ return (i64)((u64)b*1000003u+(u64)(i64)(int)b*1009u+7*101+(u64)(u8)b*11+(u64)(i64)(int)b); }
static void runS05(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s05"); MemWatch mw(d); s.mmapPolicy=c.geti("mmap"); s.maxSteps=400000;
  struct Vec{ u64 p=0; vector<i64> m; }; map<std::pair<int,int>,Vec> vs; struct Mp{ bool on=false; map<i64,i64> m; map<string,std::pair<i64,u64>> sm; }; Mp ms[4]; struct St{ u64 p=0; string m; }; map<int,St> ss; vector<std::pair<u64,string>> ab; bool arenaUsed=false; vector<string> w; u64 tot0=0; bool fresh=true; set<u64> plain; string arg; i64 tmp=0; u64 cnt=0; bool wasNew=false;
  auto rdN=[&](u64 p,size_t n,string&o)->bool{ o.assign(n,0); return n==0||s.rd(d.p,p,&o[0],n); };
  // executed operations: the case's, then cleanup of everything
  vector<string> todo; for(auto&o:c.ops){ auto x=W(o); if(x.empty()) continue; if(x[0]=="v"&&x.size()>7){ int k=N(x[7]); for(int i=0;i<k;i++) todo.push_back(strf("v\t%s\t%s\tadd\t%lld\t0\t0",x[1].c_str(),x[2].c_str(),(long long)(N(x[4])+i))); } else if(x[0]=="m"&&x.size()>5&&N(x[5])>1){ int k=N(x[5]); for(int i=0;i<k;i++) todo.push_back(strf("m\t%s\tput\t%lld\t%lld\t1",x[1].c_str(),(long long)(N(x[3])+i*3),(long long)(N(x[4])+i))); } else todo.push_back(o); }
  vector<string> pre; d.pend.clear(); for(auto&o:todo){ // creation on demand is inserted in front
    d.pend.push_back(o); }
  vector<string> cl; for(int T=0;T<3;T++) for(int k=0;k<3;k++) cl.push_back(strf("v\t%d\t%d\tfree\t0\t0\t0",T,k)); for(int M=0;M<4;M++) cl.push_back(strf("m\t%d\tfree\t0\t0\t1",M)); for(int k=0;k<3;k++) cl.push_back(strf("s\t%d\tfree\t0\t0\t",k)); cl.push_back("afree"); for(int k=0;k<3;k++) cl.push_back("plain"); for(auto&o:cl) d.pend.push_back(o);
  auto again=[&]{ d.idx--; }; // run the current operation again after a preparatory one
  auto keyStr=[&](i64 k){ string t="key"+std::to_string(k); if(k%3==0) t+=string((size_t)(k<0?-(k%50):k%50),'x'); if(k==1) t=""; if(k==2) t="k"; return t; };
  string what; int slot=0,T=0; bool prep=false; u64 prepKey=0; bool haveKey=false;
  d.enc=[&](const string&o,OpReq&q)->bool{ d.p->trackMaps=true; if(fresh){ fresh=false; tot0=mw.total; } w=W(o); auto A=[&](size_t i)->i64{ return i<w.size()?(i64)strtoll(w[i].c_str(),0,10):0; }; prep=false;
    if(w[0]=="v"&&w.size()>=7){ T=A(1)%3; slot=A(2)%4; what=w[3]; auto key=std::make_pair(T,slot); Vec&v=vs[key]; int b=T*100; size_t n=v.m.size(); if(!v.p){ if(what=="free") return false; prep=true; int z=A(5)%4; q.op=b+(z?1:2); q.b=z?0:A(6)*7+1; again(); return true; } q.a=v.p; q.b=A(4); q.c=n?A(5)%n:0; q.d=A(6);
      static const map<string,int> code={{"add",3},{"insert",4},{"remove",5},{"erase",6},{"pop",7},{"vpop",8},{"last",9},{"lastn",10},{"get",11},{"set",12},{"copy",13},{"free",14},{"push",15},{"foreach",16}}; auto it=code.find(what); if(it==code.end()) return false; if(T==2&&(what=="pop"||what=="last"||what=="lastn"||what=="foreach")) return false; if(T==1&&what=="foreach") return false; q.op=b+it->second; if(what=="insert") q.c=A(5)%(n+1); if(n==0&&(what=="remove"||what=="vpop"||what=="last"||what=="get"||what=="set"||what=="erase")) return false; if(what=="erase") q.d=std::min<i64>(A(6),n-q.c); if(what=="lastn"){ if(n==0) return false; q.d=A(6)%n; } if(what=="foreach"&&n>2000) return false; tmp=q.c; if(T==1) q.b&=0xff; return true; }
    if(w[0]=="m"&&w.size()>=5){ int M=A(1)%4; what=w[2]; Mp&m=ms[M]; slot=M; if(!m.on){ if(what=="free") return false; prep=true; q.op=301+M*10; again(); return true; } i64 k=A(3); if(M==0) k=(int)k; q.b=A(4); if(M==1) q.b&=0xff; if(M==2) q.b=(int)q.b; q.a=k; 
      if(what=="put"){ if(M==2){ string t=keyStr(k); if(!haveKey){ prep=true; what="key"; q.op=600; q.buf=t; again(); return true; } haveKey=false; q.a=(i64)prepKey; } q.op=302+M*10; } else if(what=="get"){ q.op=303+M*10; if(M==2) q.buf=keyStr(k); } else if(what=="keys") q.op=304+M*10; else if(what=="values") q.op=305+M*10; else if(what=="free") q.op=306+M*10; else return false; return true; }
    if(w[0]=="s"&&w.size()>=6){ slot=A(1)%3; what=w[2]; St&t=ss[slot]; string tx; for(size_t i=5;i<w.size();i++) tx+=(i>5?"\t":"")+w[i]; arg=tx; static const set<string> mk={"fromint","fromuint","fromchar","fmt","new","sized","fill"}; bool make=mk.count(what); if(t.p&&make){ prep=true; q.op=419; q.a=t.p; what="free"; again(); return true; } if(!t.p&&!make){ if(what=="free") return false; prep=true; what="new"; q.op=A(4)%5?402:401; q.buf=tx.substr(0,50); arg=q.op==402?q.buf:""; again(); return true; } q.a=t.p; q.b=A(3); q.c=A(4); char ch=(char)(33+((u64)A(3)%90)); size_t n=t.m.size();
      if(what=="append"){ q.op=405; q.b=ch; } else if(what=="appendn"){ q.op=421; q.b=ch; q.c=A(4)%5000; } else if(what=="concat"){ q.op=406; q.buf=tx; } else if(what=="cmacro"){ q.op=420; q.buf=tx; } else if(what=="concatself"){ if(n>20000) return false; q.op=407; q.b=t.p; q.c=n?A(4)%(n+1):0; tmp=q.c; } else if(what=="concato"){ St&u=ss[(slot+1)%3]; if(!u.p||u.m.size()>20000) return false; q.op=407; q.b=u.p; q.c=0; } else if(what=="copy"){ q.op=408; } else if(what=="substr"){ q.op=409; q.b=A(3)%(i64)(n+1); if(q.b<0) q.b=-q.b; q.c=q.b+A(4)%(i64)(n+2); tmp=q.c; } else if(what=="trim") q.op=410; else if(what=="equal"){ q.op=411; q.buf=A(4)%2?t.m.substr(0,60000):tx; arg=q.buf; } else if(what=="contains"){ q.op=412; string x=A(4)%2&&n?t.m.substr(A(4)%n,1+A(3)%7>0?3:2):tx; if(x.empty()) return false; q.buf=x; arg=x; } else if(what=="cchar"){ q.op=413; q.b=arg.empty()?ch:arg[0]; } else if(what=="find"){ q.op=414; q.b=arg.empty()?ch:arg[0]; } else if(what=="size") q.op=415; else if(what=="fromint") q.op=416; else if(what=="fromuint") q.op=417; else if(what=="fromchar"){ q.op=418; q.b=ch; } else if(what=="free") q.op=419; else if(what=="fmt"){ q.op=422; string f="v=%l s=%s"; q.buf=f; q.buf2=tx.empty()?" ":tx; arg=q.buf2; } else if(what=="new"){ q.op=402; q.buf=tx; } else if(what=="sized"){ q.op=403; q.b=A(4); } else if(what=="fill"){ q.op=404; q.b=A(4); q.c=ch; } else return false; tmp=what=="concatself"||what=="substr"?tmp:q.b; cnt=q.c; return true; }
    if(w[0]=="a"){ q.op=501; q.a=std::max<i64>(1,A(1)); return true; } if(w[0]=="areset"){ if(!arenaUsed) return false; q.op=502; return true; } if(w[0]=="afree"){ if(!arenaUsed) return false; q.op=503; return true; }
    if(w[0]=="plain"){ if(plain.empty()) return false; q.op=700; q.a=*plain.begin(); what="plain"; if(plain.size()>1) again(); return true; } return false; };
  d.done=[&](const string&o,const OpRes&r){ string at=" in: "+esc(o,200); auto bad=[&](const string&cl,const string&m){ out.bad(cl,m+at); }; u64 R=(u64)r.r; 
    if(w[0]=="v"){ Vec&v=vs[{T,slot}]; if(prep){ v.p=R; v.m.clear(); if(!R||r.s!=0) bad("vec","a new vector is not empty"); return; } i64 val=T==1?(i64)(u8)strtoll(w[4].c_str(),0,10):strtoll(w[4].c_str(),0,10); auto&m=v.m; i64 want=0; bool ret=false; 
      if(what=="add"||what=="push") m.push_back(val); else if(what=="insert") m.insert(m.begin()+tmp,val); else if(what=="remove") m.erase(m.begin()+tmp); else if(what=="erase"){ i64 k=std::min<i64>(strtoll(w[6].c_str(),0,10),m.size()-tmp); m.erase(m.begin()+tmp,m.begin()+tmp+k); } else if(what=="pop"){ ret=true; want=m.empty()?0:m.back(); if(!m.empty()) m.pop_back(); } else if(what=="vpop") m.pop_back(); else if(what=="last"){ ret=true; want=m.back(); } else if(what=="lastn"){ ret=true; want=m[m.size()-1-strtoll(w[6].c_str(),0,10)%m.size()]; } else if(what=="get"){ ret=true; want=m[tmp]; } else if(what=="set") m[tmp]=val; else if(what=="foreach"){ ret=true; for(auto x:m) want=(i64)((u64)want*31+(u64)x); }
      if(what=="free"){ v.p=0; m.clear(); return; } if(what=="copy"){ // keep the copy, free the original next
        if(R==v.p){ bad("vec","a copy is the original itself"); return; } plain.insert(v.p-16); v.p=R; }
      else v.p=R; if(ret&&r.e!=want){ bad("vec",strf("returned %lld instead of %lld",(long long)r.e,(long long)want)); return; } if((u64)r.s!=m.size()){ bad("vec",strf("size is %lld instead of %zu",(long long)r.s,m.size())); return; } }
    else if(w[0]=="m"){ Mp&m=ms[slot]; if(prep){ if(what=="key"){ prepKey=R; haveKey=true; if(!R) bad("string","init returned nil"); return; } m.on=true; m.m.clear(); m.sm.clear(); if(r.s!=0) bad("map","a new map is not empty"); return; } i64 k=strtoll(w[3].c_str(),0,10); if(slot==0) k=(int)k; i64 val=strtoll(w[4].c_str(),0,10); if(slot==1) val&=0xff; if(slot==2) val=(int)val; size_t n=slot==2?m.sm.size():m.m.size();
      if(what=="put"){ if(slot==2){ string t=keyStr(k); auto it=m.sm.find(t); if(it!=m.sm.end()) { it->second.first=val; plain.insert(prepKey-16); } else m.sm[t]={val,prepKey}; n=m.sm.size(); } else { m.m[k]=slot==3?dig(val):val; n=m.m.size(); } if((u64)r.s!=n) bad("map",strf("size is %lld instead of %zu",(long long)r.s,n)); out.probes["puts"]++; }
      else if(what=="get"){ i64 want=0; if(slot==2){ auto it=m.sm.find(keyStr(k)); if(it!=m.sm.end()) want=it->second.first; } else { auto it=m.m.find(k); if(it!=m.m.end()) want=it->second; } if(r.r!=want) bad("map",strf("key %lld has value %lld instead of %lld",(long long)k,(long long)r.r,(long long)want)); }
      else if(what=="keys"||what=="values"){ plain.insert(R-16); if((u64)r.s!=n){ bad("map",strf("%s returns %lld entries instead of %zu",what.c_str(),(long long)r.s,n)); return; } if(n>8000) return; vector<i64> got,want; vector<string> gs,wsx; int ks[]={4,8,8,8},vz[]={8,1,4,8}; size_t z=what=="keys"?ks[slot]:vz[slot]; string b; if(what=="values"&&slot==3) b=d.outBuf(n*8); else rdN(R,n*z,b); for(size_t i=0;i<n;i++){ i64 x=0; memcpy(&x,&b[i*z],z); if(z==4) x=(int)x; if(slot==2&&what=="keys"){ string t; s.rdstr(d.p,x,t); gs.push_back(t); } else got.push_back(x); } if(slot==2) for(auto&e:m.sm){ if(what=="keys") wsx.push_back(e.first); else want.push_back(e.second.first); } else for(auto&e:m.m) want.push_back(what=="keys"?e.first:e.second); std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end()); std::sort(gs.begin(),gs.end()); std::sort(wsx.begin(),wsx.end()); if(got!=want||gs!=wsx) bad("map",what+" differ from the model"); }
      else if(what=="free"){ m.on=false; for(auto&e:m.sm) plain.insert(e.second.second-16); } }
    else if(w[0]=="s"){ St&t=ss[slot]; string&m=t.m; char ch=(char)(33+((u64)strtoll(w[3].c_str(),0,10)%90)); i64 v=strtoll(w[3].c_str(),0,10); auto chk=[&](i64 want){ if(r.s!=want) bad("string",strf("%s returned %lld instead of %lld",what.c_str(),(long long)r.s,(long long)want)); }; bool keep=false;
      if(what=="new"){ m=arg; } else if(what=="append") m+=ch; else if(what=="appendn") m+=string(strtoll(w[4].c_str(),0,10)%5000,ch); else if(what=="concat"||what=="cmacro") m+=arg; else if(what=="concatself") m+=m.substr(tmp); else if(what=="concato") m+=ss[(slot+1)%3].m; else if(what=="trim"){ auto sp=[](char x){ return x==' '||(x>=9&&x<=13); }; size_t a=0,b=m.size(); while(a<b&&sp(m[a])) a++; while(b>a&&sp(m[b-1])) b--; m=m.substr(a,b-a); if(R!=t.p&&R) plain.insert(t.p-16); }
      else if(what=="equal") chk(m==arg); else if(what=="contains") chk(m.find(arg)!=string::npos); else if(what=="cchar") chk(m.find((char)tmp)!=string::npos); else if(what=="find"){ size_t p=m.find((char)tmp); chk(p==string::npos?-1:(i64)p); } else if(what=="size") chk(m.size()); else if(what=="fromint") m=std::to_string(v); else if(what=="fromuint") m=std::to_string((u64)v); else if(what=="fromchar") m=string(1,ch); else if(what=="fmt") m="v="+std::to_string(v)+" s="+arg; else if(what=="sized") m=""; else if(what=="fill") m=string(tmp,ch);
      else if(what=="free"){ t.p=0; m.clear(); return; } else if(what=="copy"||what=="substr"){ i64 from=0; size_t n=m.size(); if(what=="substr"){ from=v%(i64)(n+1); if(from<0) from=-from; if((size_t)tmp>n||tmp<from){ if(R) bad("string","a substring reaching behind the end is not refused"); else return; } } if(!R||R==t.p){ bad("string",what+" returned no new string"); return; } plain.insert(t.p-16); if(what=="substr") m=m.substr(from,tmp-from); }
      t.p=R; if(!R){ bad("string",what+" returned nil"); return; } }
    else if(w[0]=="a"){ arenaUsed=true; u64 n=std::max<i64>(1,strtoll(w[1].c_str(),0,10)); if(!R||!mw.mapped(R,n)){ bad("arena",strf("the %llu bytes at %llx are not inside the arena's memory",(unsigned long long)n,(unsigned long long)R)); return; } for(auto&b:ab) if(R<b.first+b.second.size()&&b.first<R+n){ bad("arena","the new block overlaps an earlier one"); return; } string f(n,0); Rng fr(R^n); for(auto&x:f) x=(char)fr.next(); s.wr(d.p,R,f.data(),n); ab.push_back({R,f}); }
    else if(w[0]=="areset") ab.clear(); else if(w[0]=="afree"){ ab.clear(); arenaUsed=false; } else if(what=="plain") plain.erase(plain.begin());
    if(r.err) bad("fresh_error",strf("a successful operation leaves error %lld",(long long)r.err));
    // everything still has its contents
    for(auto&k:vs){ Vec&v=k.second; if(!v.p) continue; int ty=k.first.first; if(ty==2) continue; size_t z=ty==0?8:1; string b; if(!mw.mapped(v.p,v.m.size()*z)){ bad("vec","the elements lie outside the vector's memory"); return; } rdN(v.p,v.m.size()*z,b); for(size_t i=0;i<v.m.size();i++){ i64 x=0; memcpy(&x,&b[i*z],z); if(x!=v.m[i]){ bad("vec",strf("element %zu of %zu is %lld instead of %lld",i,v.m.size(),(long long)x,(long long)v.m[i])); return; } } }
    for(auto&k:ss){ St&t=k.second; if(!t.p) continue; string b; if(!mw.mapped(t.p,t.m.size()+1)){ bad("string","the text lies outside the string's memory"); return; } rdN(t.p,t.m.size()+1,b); string e=t.m; e.push_back(0); if(b!=e){ bad("string",strf("slot %d holds ",k.first)+esc(b,80)+" instead of "+esc(t.m,80)); return; } }
    for(auto&b:ab){ string g; rdN(b.first,b.second.size(),g); if(g!=b.second){ bad("arena","an arena block changed"); return; } }
    mw.checkAll(); };
  // the struct vectors are dumped through the driver after every change
  { auto e0=d.enc; auto d0=d.done; bool dump=false; d.enc=[&,e0](const string&o,OpReq&q)->bool{ auto x=W(o); if(x[0]=="v"&&N(x[1])%3==2&&dump){ dump=false; Vec&v=vs[{2,(int)(N(x[2])%4)}]; if(v.p){ q.op=217; q.a=v.p; what="dump"; T=2; slot=N(x[2])%4; w=x; prep=false; return true; } return false; } dump=false; return e0(o,q); };
    d.done=[&,d0](const string&o,const OpRes&r){ if(what=="dump"){ Vec&v=vs[{2,slot}]; string b=d.outBuf(v.m.size()*8); if((u64)r.s!=v.m.size()) out.bad("vec","size differs in: "+esc(o)); for(size_t i=0;i<v.m.size();i++){ i64 x; memcpy(&x,&b[i*8],8); if(x!=dig(v.m[i])){ out.bad("vec",strf("element %zu of %zu (struct) differs in: ",i,v.m.size())+esc(o)); break; } } what=""; return; } bool pp=prep; d0(o,r); if(w[0]=="v"&&T==2&&!pp&&vs[{2,slot}].p&&vs[{2,slot}].m.size()<8000){ dump=true; again(); } };
    d.start(); bool ok=d.run(); if(ok&&!out.violation&&mw.total!=tot0) out.bad("leak",strf("after everything was freed %lld bytes are still mapped",(long long)(mw.total-tot0))); } }); }
static Reg rS05({"S05",3000,100000,genS05,runS05,nullptr,"Each run performs up to 220 (thorough: 400) random operations on vectors of three element types, four kinds of hash map, strings and an arena, compares all of them with reference models after every operation, with adversarial placement, canaries behind every block and a leak check at the end.",kRealS,kStubS,kAssumeS});
