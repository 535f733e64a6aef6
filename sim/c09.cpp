// C09: what a compilation knows about the time of day.
#include "compgen.h"
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <algorithm>
#include <regex>
static const char* CSPC="/opt/csp/cspc"; static const char* LINT="/opt/csp/csp-lint";
// local time in the zone of the case; the zone of the simulator process itself is put back
struct Zone { string old; bool had; Zone(const string&tz){ const char*o=getenv("TZ"); had=o; if(o) old=o; if(tz.empty()) unsetenv("TZ"); else setenv("TZ",tz.c_str(),1); tzset(); } ~Zone(){ if(had) setenv("TZ",old.c_str(),1); else unsetenv("TZ"); tzset(); } };
static string dateOf(i64 t){ time_t x=t; struct tm m; localtime_r(&x,&m); return strf("%d.%d.%d",m.tm_mday,m.tm_mon+1,m.tm_year+1900); }
static string timeOf(i64 t){ time_t x=t; struct tm m; localtime_r(&x,&m); return strf("%d:%d:%d",m.tm_hour,m.tm_min,m.tm_sec); }
static i64 midnight(int y,int mo,int d){ struct tm m{}; m.tm_year=y-1900; m.tm_mon=mo-1; m.tm_mday=d; m.tm_isdst=-1; return mktime(&m); }
static int mdays(int y,int m){ static const int d[]={31,28,31,30,31,30,31,31,30,31,30,31}; return m==2&&(y%4==0&&(y%100!=0||y%400==0))?29:d[m-1]; }
// op: dep NAME YYYY-MM-DD uses
static void genC09(Rng&r,Case&c,bool,u64){ baseCase(r,c,0.0); c.set("tool",string("stub")); static const char*tzs[]={"","UTC0","EST5EDT,M3.2.0,M11.1.0","CET-1CEST,M3.5.0,M10.5.0/3","<+1345>-12:45","<-12>12","NZST-12NZDT,M9.5.0,M4.1.0/3","IST-5:30"}; string tz=tzs[r.below(8)]; if(!tz.empty()) c.set("env:TZ",tz); Zone z(tz);
  int y=r.chance(0.15)?r.range(1971,2100):r.range(2020,2032), mo=r.chance(0.4)?(r.chance(0.5)?2:12):r.range(1,12), d=r.chance(0.5)?(r.chance(0.5)?mdays(y,mo):1):r.range(1,mdays(y,mo)); if(r.chance(0.2)){ mo=3; d=1; } i64 base=midnight(y,mo,d); i64 at; switch(r.below(6)){ case 0: case 1: case 2: at=base*1000+r.range(-2500,2500); break; case 3: at=base*1000+r.range(-90000000,90000000); break; case 4: at=base*1000+3600000*r.range(0,24)+r.range(-1500,1500); break; default: at=(base+r.range(0,86399))*1000; } if(at<100000000) at=100000000; c.set("at",at);
  // functions of the program: some of them deprecated from a date on
  auto dateStr=[&](int k)->string{ int yy=y,mm=mo,dd=d; switch(k){ case 0: break; case 1: { time_t t=base-40000; struct tm m; localtime_r(&t,&m); yy=m.tm_year+1900; mm=m.tm_mon+1; dd=m.tm_mday; } break; case 2: { time_t t=base+100000; struct tm m; localtime_r(&t,&m); yy=m.tm_year+1900; mm=m.tm_mon+1; dd=m.tm_mday; } break; case 3: yy+=r.chance(0.5)?1:-1; dd=std::min(dd,mdays(yy,mm)); break; case 4: mm=mm%12+1; dd=std::min(dd,mdays(yy,mm)); break; default: yy=r.range(1970,2200); mm=r.range(1,12); dd=r.range(1,mdays(yy,mm)); } return strf("%04d-%02d-%02d",yy,mm,dd); };
  int nd=r.below(4); string body, mainf="fn main(): i32 {\n    let x: i32 = 1;\n    let dd = d1;\n    let tt = t1;\n"; for(int i=0;i<nd;i++){ string n=strf("old%d",i), ds=dateStr(r.below(6)); int uses=r.range(0,2); c.ops.push_back("dep\t"+n+"\t"+ds+"\t"+std::to_string(uses)); body+="[deprecated(\""+ds+"\")]\nfn "+n+"(a: i32): i32 { <- a + "+std::to_string(i)+"; }\n"; for(int k=0;k<uses;k++) mainf+="    x += "+n+"(x);\n"; }
  bool lint=r.chance(0.15); if(lint) c.set("lint",(i64)1); bool two=r.chance(0.3); string vals="let d1: &char = __date__!;\nlet t1: &char = __time__!;\n"; if(r.chance(0.3)) vals="let t1: &char = __time__!;\nlet d1: &char = __date__!;\n"; map<string,string> files; if(two){ files["/work/m.csp"]=r.chance(0.5)?vals:body; if(files["/work/m.csp"]==vals) files["/work/prog.csp"]="import \"m.csp\";\n"+body+mainf+"    <- x;\n}\n"; else files["/work/prog.csp"]="import \"m.csp\";\n"+vals+mainf+"    <- x;\n}\n"; } else files["/work/prog.csp"]=(r.chance(0.5)?vals+body:body+vals)+mainf+"    <- x;\n}\n"; putFiles(c,files);
  c.set("cmd",lint?"prog.csp\t-p\t/std":string("build\tprog.csp\t-p\t/std\t-o\tout")+(r.chance(0.25)?"\t-b\tc":"")+(r.chance(0.2)?"\t-S":"")+(r.chance(0.4)?"\t--show-timings":""));
  if(r.chance(0.6)) c.setd("f.clock_step",r.chance(0.5)?0.9:0.3); if(r.chance(0.2)) c.set("back",(i64)1); if(r.chance(0.3)) c.set("tick",(i64)r.range(1000,300000000)); }
static void runC09(const Case&c,Outcome&out){ bool lint=c.geti("lint"); vector<string> args=split(c.get("cmd"),'\t'); string why=string(lint?"csp-lint ":"cspc ")+j(args); Zone z(c.get("env:TZ")); i64 at=c.geti("at");
  simRun(c,out,[&](Sim&s){ World w(s,c); s.tick=c.geti("tick",1000); vector<i64> seen; string gen; bool started=false; u64 n=0; applyFaults(c,s); auto of=s.fc.filter; s.fc.filter=[of](Task&t,const char*k,const string&o){ return !strcmp(k,"clock_step")||(of&&of(t,k,o)); };
    auto isClock=[](int nr,u64*a){ return nr==SYS_time||nr==SYS_gettimeofday||(nr==SYS_clock_gettime&&(a[0]==0||a[0]==5)); };
    s.sysHook=[&](Task&t,int nr,u64*a,long&)->bool{ if(!isClock(nr,a)||!t.p->root) return false; if(!started){ started=true; s.wallBase=(u64)at*1000000ULL-s.now; s.clockSkew=0; return false; } if(s.fault(t,"clock_step","clock")){ static const i64 st[]={1000,1,500,1500,3000,60000,86400000,3600000}; i64 v=st[s.param("clock_step.ms",n,8)]*1000000LL; bool back=c.geti("back")&&s.param("clock_step.back",n,2); s.clockSkew+=back?-v:v; out.probes[back?"clock_back":"clock_forward"]++; } n++; return false; };
    s.sysPost=[&](Task&t,int nr,u64*a,long ret){ if(!isClock(nr,a)||!t.p->root||ret<0) return; i64 v=ret; if(nr!=SYS_time){ u64 p=nr==SYS_gettimeofday?a[0]:a[1]; i64 q=0; if(!p||!s.rdv(t.p,p,q)) return; v=q; } else if(nr==SYS_time) v=ret; seen.push_back(v); };
    w.onToolExec=[&](Child&k){ for(auto&h:k.handed) gen+=h.second; };
    Inv*i=w.start(lint?LINT:CSPC,"/work",args); RunEnd e=s.run(); if(e!=END_ALLDEAD){ out.bad("hang",why+" did not end"); return; } string o=i->out->data+i->err->data; if(i->status!=0&&!(lint&&WIFEXITED(i->status)&&o.find("deprecated")!=string::npos)){ out.bad("failed",why+": "+statusStr(i->status)+": "+esc(o,500)); return; }
    bool S=std::find(args.begin(),args.end(),"-S")!=args.end(); if(S){ bool ok; gen+=fileOf(s,w.target(*i),ok); }
    { string dec="\n"; bool in=false; for(auto&l:split(gen,'\n')){ size_t q=l.find(".byte"); if(q==string::npos||l.find_first_not_of(" \t")!=q){ if(in) dec+="\n"; in=false; continue; } in=true; for(auto&x:split(l.substr(q+5),',')){ int v=strtol(x.c_str(),0,0); dec+=v?(char)v:'\n'; } } gen="\n"+gen+dec+"\n"; }
    string zone=c.get("env:TZ").empty()?string("UTC"):c.get("env:TZ"), clk; for(i64 v:seen) clk+=" "+std::to_string(v)+"="+dateOf(v)+" "+timeOf(v); 
    if(!lint){ std::smatch m; static const std::regex rd("[^0-9.]([0-9]{1,2}\\.[0-9]{1,2}\\.[0-9]{4,})[^0-9.]"), rt("[^0-9:]([0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2})[^0-9:]"); string d,t; if(std::regex_search(gen,m,rd)) d=m[1]; if(std::regex_search(gen,m,rt)) t=m[1]; bool both=false, od=false, ot=false; for(i64 v:seen){ bool a=dateOf(v)==d,b=timeOf(v)==t; od|=a; ot|=b; both|=a&&b; }
      if(!od||!ot) out.bad("wrong_time",why+": __date__ is \""+d+"\" and __time__ is \""+t+"\"; the clock ("+zone+") showed"+clk); else if(!both) out.bad("torn_time",why+": __date__ \""+d+"\" and __time__ \""+t+"\" were never true together; the clock ("+zone+") showed"+clk); else out.probes["time_of_day_checked"]++; }
    string plain; for(size_t q=0;q<o.size();q++){ if(o[q]=='\x1b'){ while(q<o.size()&&o[q]!='m') q++; continue; } plain+=o[q]; }
    for(auto&op:c.ops){ auto f=split(op,'\t'); if(f.size()<4||f[0]!="dep") continue; int y,mo,d; if(sscanf(f[2].c_str(),"%d-%d-%d",&y,&mo,&d)!=3) continue; i64 dl=midnight(y,mo,d); size_t k=0,q=0; string pat="`"+f[1]+"` is deprecated"; while((q=plain.find(pat,q))!=string::npos){ k++; q++; } bool allAfter=true,allBefore=true; for(i64 v:seen){ if(v<=dl) allAfter=false; else allBefore=false; } size_t uses=atoi(f[3].c_str()); if(seen.empty()) continue; if(allAfter||allBefore) out.probes[allAfter?"deadline_passed":"deadline_ahead"]++; else out.probes["deadline_crossed"]++;
      if(allAfter&&k<uses) out.bad("deprecation_missed",why+": "+f[1]+" is deprecated since "+f[2]+strf(", used %zu times, reported %zu times; the clock (",uses,k)+zone+") showed"+clk); if(allBefore&&k>0) out.bad("deprecated_early",why+": "+f[1]+" is deprecated from "+f[2]+" on only, but already reported; the clock ("+zone+") showed"+clk); if(k!=0&&k!=uses) out.bad("deprecation_count",why+": "+f[1]+strf(" is used %zu times, reported %zu times",uses,k)); }
    if(std::find(args.begin(),args.end(),"--show-timings")!=args.end()){ double sum=0,total=-1; size_t nrec=0,have=0; for(auto&l:split(plain,'\n')){ double ms,sec; size_t q; if(sscanf(l.c_str(),"[Timer] %zu recorded",&nrec)==1) continue; if(l.size()>4&&l[0]==' '&&l[1]==' '&&l.find("ms\t")!=string::npos&&sscanf(l.c_str(),"  %lfms\t",&ms)==1){ have++; sum+=ms; if(ms<0) out.bad("negative_timing",why+" reports "+l); } else if((q=l.find(" lines in "))!=string::npos&&sscanf(l.c_str()+q," lines in %lfms (%lfs)",&total,&sec)==2){} } 
      if(total<0) out.bad("timings_missing",why+" reports no total: "+esc(plain,600)); else { out.probes["timings_checked"]++; if(have!=nrec) out.bad("timings_missing",why+strf(" announces %zu timings and reports %zu",nrec,have)); if(std::abs(sum-total)>0.001*(have+1)) out.bad("timings_sum",why+strf(" reports a total of %.3f ms, its steps add up to %.3f ms",total,sum)); double cpu=(double)s.now/1e6; if(total>cpu+0.01) out.bad("timings_sum",why+strf(" reports %.3f ms, the whole compilation took %.3f ms",total,cpu)); } } }); }
static Reg rC09({"C09",25000,80000,genC09,runC09,nullptr,"Each run compiles or lints a program that uses __date__, __time__ and functions deprecated from a date on, in one of eight time zones, with the clock placed around midnights, month, year and daylight saving boundaries and stepped forwards or backwards between any two readings.",kReal,kStub,kAssume});
