// S01: text output is delivered completely, once and in order.
#include "stdrv.h"
// op: "name<tab>fd<tab>text or value..."
static string prLit(char ch){ switch(ch){ case '\n': return "\\n"; case '\t': return "\\t"; default: return string(1,ch); } }
static string genFmt(Rng&r,const char*dirs,bool all){ string f; auto lit=[&]{ string t=rndText(r,r.chance(0.1)?300:12,0); for(auto&ch:t) if(ch=='%') ch='#'; if(r.chance(0.15)) t+="%%"; if(r.chance(0.2)) t+="\n"; return t; }; size_t n=strlen(dirs); size_t k=all?n:r.below(n+1); for(size_t i=0;i<k;i++){ if(r.chance(0.7)) f+=lit(); f+="%"; f+=dirs[i]; } f+=lit(); return f; }
static i64 rndInt(Rng&r){ switch(r.below(6)){ case 0: return r.range(-9,9); case 1: return r.range(-100000,100000); case 2: return (i64)r.next(); case 3: return INT64_MIN+(i64)r.below(3); case 4: return INT64_MAX-(i64)r.below(3); default: return 0; } }
static void genS01(Rng&r,Case&c,bool th,u64){ int n=1+r.below(th?30:14); for(int i=0;i<n;i++){ static const char*names[]={"puts","putc","eputs","eputc","fputs","fputc","newline","write","writeln","write_int","printf","eprintf","fprintf","printf2","eprintf2","fprintf2","sync","close"}; int k=r.chance(0.04)?16+r.below(2):r.below(16); string nm=names[k]; int fd=r.chance(0.04)?77:1+r.below(5); string o=nm+strf("\t%d",fd); size_t big=r.chance(0.15)?40000:200; 
    if(k==0||k==2||k==4||k==7||k==8){ string t=rndText(r,big,r.below(3)); if(k>=7&&r.chance(0.3)) t+="\n"; o+="\t"+t; } else if(k==1||k==3||k==5) o+=strf("\t%d",(int)(r.chance(0.8)?32+r.below(95):r.below(256))); else if(k==9) o+=strf("\t%lld",(long long)rndInt(r));
    else if(k>=10&&k<=12) o+=strf("\t%d\t%lld\t%d\t%d\t",(int)rndInt(r),(long long)rndInt(r),(int)(33+r.below(94)),(int)r.below(2))+genFmt(r,"ilscb",r.chance(0.5))+"\t"+rndText(r,r.chance(0.1)?5000:30,0);
    else if(k>=13&&k<=15){ string s2=rndText(r,30,0); for(auto&ch:s2) if(ch=='\''||ch=='"'||ch=='\\') ch='_'; if(r.chance(0.3)) s2+="\n"; i64 b=(i64)r.next(); if(r.chance(0.5)) b=r.below(1000); o+=strf("\t%lld\t%lld\t%lld\t%d\t",(long long)(b&INT64_MAX),(long long)rndInt(r),(long long)(rndInt(r)&INT64_MAX),(int)('a'+r.below(26)))+genFmt(r,"uxpoSClxu",r.chance(0.5))+"\t"+s2; }
    c.ops.push_back(o); }
  c.set("mmap",(i64)r.below(4)); genFaults(r,c,{"short_write","eintr","eio_write","enospc"},0.5,0.15); if(r.chance(0.5)) { c.par.erase("f.eio_write"); c.par.erase("f.enospc"); } }
static void runS01(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s01"); s.mmapPolicy=c.geti("mmap"); s.randFreshMem=s.mmapPolicy!=0; map<int,shared_ptr<Capture>> caps; map<int,size_t> len; set<int> closed; string want; int wfd=1;
    d.flt=[](Task&,const char*k,const string&obj){ return true; };
    auto fmtv=[](const string&f,const vector<string>&v){ string o; size_t k=0; for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){ o+=f[i]; continue; } i++; if(f[i]=='%') o+='%'; else o+=k<v.size()?v[k++]:"?"; } return o; };
    d.enc=[&](const string&o,OpReq&q)->bool{ auto w=W(o); if(w.size()<2) return false; const string&n=w[0]; int fd=N(w[1]); auto rest=[&](size_t k){ string t; for(size_t i=k;i<w.size();i++) t+=(i>k?"\t":"")+w[i]; return t; }; q.a=fd; wfd=fd; want="";
      if(n=="puts"||n=="eputs"||n=="fputs"||n=="write"||n=="writeln"){ q.buf=rest(2); size_t z=q.buf.find('\0'); if(z!=string::npos) q.buf=q.buf.substr(0,z); if(q.buf.size()>65000) return false; want=q.buf+(n=="write"?"":"\n"); q.op=n=="puts"?1:n=="eputs"?3:n=="fputs"?5:n=="write"?8:9; }
      else if(n=="putc"||n=="eputc"||n=="fputc"){ if(w.size()<3) return false; q.b=N(w[2]); want=string(1,(char)q.b); q.op=n=="putc"?2:n=="eputc"?4:6; }
      else if(n=="newline"){ q.op=7; want="\n"; } else if(n=="write_int"){ if(w.size()<3) return false; q.op=10; q.b=strtoll(w[2].c_str(),0,10); want=strf("%lld",(long long)q.b); }
      else if(n=="printf"||n=="eprintf"||n=="fprintf"){ if(w.size()<8) return false; q.op=n=="printf"?11:n=="eprintf"?12:13; q.b=strtoll(w[2].c_str(),0,10); q.c=strtoll(w[3].c_str(),0,10); q.d=N(w[4]); q.e=N(w[5]); q.buf=w[6]; q.buf2=w[7].empty()?" ":w[7]; want=fmtv(q.buf,{strf("%d",(int)q.b),strf("%lld",(long long)q.c),q.buf2,string(1,(char)q.d),q.e?"true":"false"}); }
      else if(n=="printf2"||n=="eprintf2"||n=="fprintf2"){ if(w.size()<8) return false; q.op=n=="printf2"?14:n=="eprintf2"?15:16; q.b=strtoll(w[2].c_str(),0,10); q.c=strtoll(w[3].c_str(),0,10); q.d=strtoll(w[4].c_str(),0,10); q.e=N(w[5]); q.buf=w[6]; q.buf2=w[7].empty()?" ":w[7]; string S; for(char ch:q.buf2) S+=prLit(ch); want=fmtv(q.buf,{strf("%llu",(unsigned long long)q.b),strf("%llx",(unsigned long long)q.c),strf("0x%llx",(unsigned long long)q.d),strf("%llo",(unsigned long long)q.b),S,string(1,(char)q.e),strf("%lld",(long long)q.b),strf("%llx",(unsigned long long)q.c),strf("%llu",(unsigned long long)q.d)}); }
      else if(n=="sync") q.op=18; else if(n=="close"){ if(fd<3) return false; q.op=17; closed.insert(fd); } else return false;
      if(n=="puts"||n=="putc"||n=="newline"||n=="printf"||n=="printf2") wfd=1; else if(n=="eputs"||n=="eputc"||n=="eprintf"||n=="eprintf2") wfd=2; return true; };
    d.done=[&](const string&o,const OpRes&r){ bool perm=d.faulted("eio_write")||d.faulted("enospc"); for(auto&k:caps){ string got=k.second->data.substr(len[k.first]); len[k.first]=k.second->data.size(); string w=k.first==wfd&&!closed.count(k.first)?want:""; if(got==w) continue; string why=strf("descriptor %d received ",k.first)+esc(got,200)+strf(" (%zu bytes) instead of ",got.size())+esc(w,200)+strf(" (%zu bytes) from: ",w.size())+esc(o,200); if(w.empty()){ out.bad(k.first==2||k.first==1?"wrong_descriptor":"stray_output",why); return; } if(!perm){ out.bad("output_differs",why); return; } if(!subseq(got,w)) out.bad("output_corrupt",why+" (after a permanent error)"); else out.probes["partial_after_error"]++; } };
    d.start(); caps[1]=d.so; caps[2]=d.se; for(int fd=3;fd<6;fd++){ shared_ptr<Capture> cp; FileP f=s.capture(cp,strf("fd%d",fd)); d.p->fds[fd]=FdEnt{f,false}; caps[fd]=cp; } for(auto&k:caps) len[k.first]=0;
    d.run(); for(auto&k:caps) if(k.second->data.size()!=len[k.first]){ out.bad("stray_output",strf("descriptor %d received output outside of any operation",k.first)); } }); }
static Reg rS01({"S01",20000,100000,genS01,runS01,nullptr,"Each run performs up to 14 (thorough: 30) random std output calls on five descriptors while writes are cut short, interrupted or fail permanently, and compares every descriptor with the expected bytes after every call.",kRealS,kStubS,kAssumeS});
