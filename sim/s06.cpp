// S06: delays, clocks and dates follow the system clock.
#include "stdrv.h"
#include <time.h>
// ops: get | gettime clk | tod | set clk sec nsec | delay ms | sleep sec nsec | secs | each ms calls | jump seconds
static void genS06(Rng&r,Case&c,bool th,u64){ int n=3+r.below(th?60:20); if(r.chance(0.7)) c.set("wall",(i64)(r.chance(0.3)?r.range(0,100000):r.chance(0.5)?r.range(1500000000,2000000000):r.range(0,7000000000ll))); for(int i=0;i<n;i++){ switch(r.below(10)){ case 0: case 1: case 2: c.ops.push_back("get"); break; case 3: c.ops.push_back(strf("gettime\t%d",(int)(r.chance(0.6)?0:r.below(14)))); break; case 4: c.ops.push_back("tod"); break; case 5: { i64 v; switch(r.below(4)){ case 0: v=86400ll*r.below(60000)+r.range(-3,3); break; case 1: { struct tm m{}; m.tm_year=70+r.below(180); m.tm_mon=r.chance(0.5)?2:r.below(12); m.tm_mday=r.chance(0.5)?1:1+r.below(31); v=timegm(&m)-(r.chance(0.5)?1:0); break; } case 2: v=r.range(0,2000000000); break; default: v=r.range(0,8000000000ll); } if(v<0) v=0; c.ops.push_back(strf("set\t%d\t%lld\t%d",(int)(r.chance(0.9)?0:1),(long long)v,(int)r.below(1000000000))); break; }
  case 6: case 7: c.ops.push_back(strf("delay\t%lld",(long long)(r.chance(0.05)?-r.range(1,5000):r.chance(0.4)?r.range(0,999):r.chance(0.3)?1000*r.range(0,5):r.range(0,100000)))); break; case 8: c.ops.push_back(r.chance(0.6)?strf("sleep\t%d\t%d",(int)r.below(20),(int)(r.chance(0.9)?r.below(1000000000):2000000000)):"secs"); break; default: if(r.chance(0.5)) c.ops.push_back(strf("each\t%d\t%d",(int)r.below(r.chance(0.5)?1500:20000),(int)(1+r.below(8)))); else c.ops.push_back(strf("jump\t%lld",(long long)r.range(-100000,400000))); } }
  genFaults(r,c,{"sleep_intr","clock_nosys","settime_eperm"},0.5,0.4); if(r.chance(0.3)) c.set("tick",(i64)r.range(1,3000000000ll)); }
static void runS06(const Case&c,Outcome&out){ simRun(c,out,[&](Sim&s){ Drv d(s,c,out,"s06"); vector<std::pair<string,u64>> tl; s.timeline=&tl; if(c.par.count("wall")) s.wallBase=(u64)c.geti("wall")*1000000000ULL; s.tick=c.geti("tick",1000); vector<string> w; u64 t0=0; i64 sk0=0; vector<u64> calls; const i64 NS=1000000000; 
  d.ev=[&](Task&t,u64 op,u64 a,u64,u64,u64)->long{ if(op!=11) return -ENOSYS; calls.push_back(s.now); return 0; };
  d.enc=[&](const string&o,OpReq&q)->bool{ w=W(o); if(w.empty()) return false; auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; const string&n=w[0]; tl.clear(); calls.clear(); t0=s.now; sk0=s.clockSkew; if(n=="jump"){ i64 v=A(1)*NS; if((i64)s.realtime()+v<0) return false; s.clockSkew+=v; out.faults["clock_step"]++; return false; } if(n=="get") q.op=1; else if(n=="gettime"){ q.op=2; q.b=A(1); } else if(n=="tod") q.op=3; else if(n=="set"){ q.op=4; q.b=A(1); q.c=A(2); q.d=A(3); } else if(n=="delay"){ q.op=5; q.b=A(1); } else if(n=="sleep"){ q.op=6; q.b=A(1); q.c=A(2); } else if(n=="secs") q.op=7; else if(n=="each"){ q.op=8; q.b=A(1); q.c=std::max<i64>(1,A(2)); } else return false; return true; };
  d.done=[&](const string&o,const OpRes&r){ string at=" in: "+o; auto bad=[&](const string&k,const string&m){ out.bad(k,m+at); }; auto A=[&](size_t i)->i64{ return i<w.size()?strtoll(w[i].c_str(),0,10):0; }; const string&n=w[0]; auto last=[&](i64&v)->bool{ for(size_t i=tl.size();i-->0;) if(tl[i].first!="sleep"){ v=(i64)tl[i].second; return true; } return false; }; i64 v=0; u64 el=s.now-t0; bool intr=d.faulted("sleep_intr");
    if(n=="get"){ string b=d.outBuf(64); i64 f[8]; memcpy(f,b.data(),64); if(!last(v)){ bad("no_clock","time::get does not read the clock"); return; } time_t t=v/NS; struct tm m; gmtime_r(&t,&m); if(f[6]!=t||f[7]!=v%NS/1000) bad("wrong_time",strf("the clock shows %lld.%06lld, time::get reports %lld.%06lld",(long long)t,(long long)(v%NS/1000),(long long)f[6],(long long)f[7])); else if(f[0]!=m.tm_year+1900||f[1]!=m.tm_mon+1||f[2]!=m.tm_mday||f[3]!=m.tm_hour||f[4]!=m.tm_min||f[5]!=m.tm_sec) bad("wrong_date",strf("second %lld is %04d-%02d-%02d %02d:%02d:%02d, time::get says %lld-%lld-%lld %lld:%lld:%lld",(long long)t,m.tm_year+1900,m.tm_mon+1,m.tm_mday,m.tm_hour,m.tm_min,m.tm_sec,(long long)f[0],(long long)f[1],(long long)f[2],(long long)f[3],(long long)f[4],(long long)f[5])); out.probes["dates"]++; }
    else if(n=="tod"||n=="secs"){ if(!last(v)){ bad("no_clock","the clock is not read"); return; } if(r.s!=v/NS||(n=="tod"?r.t!=v%NS/1000:r.t<0||r.t>999999)) bad("wrong_time",strf("the clock shows %lld.%06lld, reported is %lld.%06lld",(long long)(v/NS),(long long)(v%NS/1000),(long long)r.s,(long long)r.t)); }
    else if(n=="gettime"){ int clk=(int)A(1); bool real=clk==0||clk==5||clk==11, ok=clk>=0&&clk<=11, ns=d.faulted("clock_nosys"); if(r.r){ if(ok&&(!ns||clk==0)) bad("clock_refused",strf("reading clock %d failed with %lld",clk,(long long)r.r)); if(ns&&ok&&clk!=0&&(int)r.r!=-EINVAL) bad("wrong_error",strf("a missing clock is reported as %lld",(long long)r.r)); out.probes["clock_error"]++; } else { if(!ok) { bad("clock_succeeds","reading a clock that does not exist succeeds"); return; } if(!last(v)) { bad("no_clock","the clock is not read"); return; } i64 want=ns?v/1000*1000:v; if(r.s!=want/NS||r.t!=want%NS) bad("wrong_time",strf("clock %d shows %lld.%09lld, reported is %lld.%09lld",clk,(long long)(want/NS),(long long)(want%NS),(long long)r.s,(long long)r.t)); (void)real; } }
    else if(n=="set"){ bool perm=d.faulted("settime_eperm"); bool can=A(1)==0&&!perm; i64 want=A(2)*NS+A(3); if(can){ if(r.r) bad("set_refused",strf("setting the clock failed with %lld",(long long)r.r)); i64 now=(i64)s.realtime(), d2=now-want; if(d2<0||d2>(i64)el+(i64)s.tick*4) bad("wrong_set",strf("the clock was set to %lld instead of %lld ns",(long long)now,(long long)want)); } else { if(!r.r) bad("set_succeeds","setting the clock reports success although it was refused"); if(s.clockSkew!=sk0) bad("wrong_set","a refused request changed the clock"); } }
    else if(n=="delay"||n=="sleep"){ i64 want=n=="delay"?A(1)*1000000:A(2)<NS?A(1)*NS+A(2):-1; i64 rem=r.s*NS+r.t; if(want<0){ if(intr||el>2*s.tick*4+1000000) bad("invalid_sleep","an impossible delay sleeps"); return; } u64 req=0; for(auto&e:tl) if(e.first=="sleep") req+=e.second; if(intr){ out.probes["interrupted"]++; if((i64)el+rem<want) bad("lost_time",strf("interrupted after %llu ns with %lld ns reported as remaining, %lld ns were asked for",(unsigned long long)el,(long long)rem,(long long)want)); if(rem<0||rem>want) bad("remaining",strf("%lld ns remaining of %lld",(long long)rem,(long long)want)); } else { if((i64)el<want) bad("too_short",strf("the delay of %lld ns ended after %llu ns",(long long)want,(unsigned long long)el)); if(rem) bad("remaining",strf("a complete delay reports %lld ns remaining",(long long)rem)); if((i64)req!=want) bad("too_long",strf("a delay of %lld ns asked the system to sleep %llu ns",(long long)want,(unsigned long long)req)); out.probes["delays"]++; } }
    else if(n=="each"){ i64 k=std::max<i64>(1,A(2)); if((i64)calls.size()!=k) bad("calls",strf("the function was called %zu times, it returned true %lld times",calls.size(),(long long)k-1)); if(!intr) for(size_t i=1;i<calls.size();i++) if((i64)(calls[i]-calls[i-1])<A(1)*1000000) bad("period",strf("called again after %llu ns, the period is %lld ms",(unsigned long long)(calls[i]-calls[i-1]),(long long)A(1))); out.probes["periodic"]++; } };
  d.start(); d.run(); }); }
static Reg rS06({"S06",20000,100000,genS06,runS06,nullptr,"Each run reads clocks and dates, sets and steps the clock, sleeps and runs periodic functions in random order while sleeps are interrupted and clock calls are refused, and compares every value with the simulated clock and every elapsed time with the simulated time.",kRealS,kStubS,kAssumeS});
