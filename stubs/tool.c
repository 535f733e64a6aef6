// Stand-in for the assembler, the linker and the C compiler: a static program whose output file is a
// function of everything it reads. It handles short transfers and EINTR correctly.
typedef unsigned long u64; typedef unsigned char u8;
static long sc(long n,long a,long b,long c,long d){ long r; register long r10 __asm__("r10")=d; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10):"rcx","r11","memory"); return r; }
void*memcpy(void*d,const void*s,u64 n){u8*a=d;const u8*b=s;while(n--)*a++=*b++;return d;} void*memset(void*d,int c,u64 n){u8*a=d;while(n--)*a++=c;return d;}
static u64 len(const char*s){u64 n=0;while(s[n])n++;return n;} static int eq(const char*a,const char*b){while(*a&&*a==*b){a++;b++;}return *a==*b;}
static u64 H[2]={1469598103934665603UL,0x9e3779b97f4a7c15UL}; static void hb(u8 c){ H[0]^=c; H[0]*=1099511628211UL; H[1]=(H[1]^c)*0x100000001b3UL+(H[1]>>29); }
static void hs(const char*s){ while(*s) hb(*s++); hb(0); }
static void err(const char*s,const char*x){ sc(1,2,(long)"tool: ",6,0); sc(1,2,(long)s,len(s),0); sc(1,2,(long)x,len(x),0); sc(1,2,(long)"\n",1,0); }
static void die(int c){ for(;;) sc(231,c,0,0,0); }
static long wr(int fd,const char*b,u64 n){ while(n){ long r=sc(1,fd,(long)b,n,0); if(r==-4) continue; if(r<=0) return r?r:-5; b+=r; n-=r; } return 0; }
static char buf[65536]; static char out[1<<16]; static u64 on; static void o1(char c){ if(on<sizeof out) out[on++]=c; } static void os(const char*s){ while(*s) o1(*s++); } static void ox(u64 v){ for(int i=60;i>=0;i-=4) o1("0123456789abcdef"[(v>>i)&15]); } static void od(u64 v){ char t[24]; int n=0; do{t[n++]='0'+v%10;v/=10;}while(v); while(n) o1(t[--n]); }
void cmain(long*sp){ int argc=(int)sp[0]; char**av=(char**)(sp+1); const char*base=av[0]; for(const char*p=av[0];*p;p++) if(*p=='/') base=p+1; int isas=eq(base,"as"),isld=eq(base,"ld"),iscc=!isas&&!isld; const char*of="a.out"; int conly=isas; 
  long b=sc(0x5000,1,0,0,0); // behaviour chosen by the simulator
  if(b==1){ err("simulated failure",""); die(1);} if(b==4) sc(0x5000,3,0,0,0);
  if(eq(base,"cp")&&argc==4){ long fi,fo; while((fi=sc(2,(long)av[2],0,0,0))==-4); if(fi<0){ err("cannot open ",av[2]); die(1);} while((fo=sc(2,(long)av[3],0x241,0666,0))==-4); if(fo<0){ err("cannot create ",av[3]); die(1);} for(;;){ long r=sc(0,fi,(long)buf,sizeof buf,0); if(r==-4) continue; if(r<0) die(1); if(!r) break; if(wr(fo,buf,r)) die(1); } die(0); }
  hs(base); u64 total=0; const char*in[64]; int ni=0; os(isas||0?"SIMOBJ ":""); 
  for(int i=1;i<argc;i++){ char*a=av[i]; if(eq(a,"-o")&&i+1<argc){ of=av[++i]; continue; } if(eq(a,"-c")){ conly=1; hs(a); continue; } if(eq(a,"-m")&&i+1<argc){ hs(a); hs(av[++i]); continue; } if(eq(a,"-dynamic-linker")&&i+1<argc){ hs(a); hs(av[++i]); continue; } if(a[0]=='-'){ hs(a); continue; } if(ni<64) in[ni++]=a; }
  if(!ni){ err("no input files",""); die(1); }
  if(b==2){ long fd=sc(2,(long)of,0x241,0777,0); if(fd>=0) wr(fd,"PART",4); err("simulated failure after partial output",""); die(1);} if(b==5){ long fd=sc(2,(long)of,0x241,0777,0); if(fd>=0){ wr(fd,"PART",4); sc(3,fd,0,0,0);} sc(0x5000,4,0,0,0); die(3);} if(b==6){ die(127);} if(b==7) die(255);
  on=0; 
  for(int i=0;i<ni;i++){ long fd; while((fd=sc(2,(long)in[i],0,0,0))==-4); if(fd<0){ err("cannot open ",in[i]); die(1);} u64 n=0; u8 magic[8]={0}; for(;;){ long r=sc(0,fd,(long)buf,sizeof buf,0); if(r==-4) continue; if(r<0){ err("read error ",in[i]); die(1);} if(!r) break; for(long k=0;k<r;k++){ if(n<8) magic[n]=buf[k]; hb(buf[k]); n++; } } sc(3,fd,0,0,0); hb(0xff); total+=n; const char*bn=in[i]; for(const char*p=in[i];*p;p++) if(*p=='/') bn=p+1; u64 bl=len(bn); 
    if(isld&&bl>2&&bn[bl-1]=='o'&&!(magic[0]==0x7f)){ const char m[]="SIMOBJ"; for(int k=0;k<6;k++) if(magic[k]!=(u8)m[k]){ err("file format not recognized: ",in[i]); die(1);} } }
  os(conly?"SIMOBJ ":"SIMEXE "); ox(H[0]); ox(H[1]); o1(' '); od(total); o1('\n');
  // a body, so that a cut artefact is visible
  u64 s=H[0]; for(int i=0;i<24;i++){ s=s*6364136223846793005UL+1442695040888963407UL; ox(s^H[1]); o1(i%4==3?'\n':' '); } os("END\n");
  if(eq(of,"-")) die(0); if(b==3) sc(0x5000,3,0,0,0);
  sc(87,(long)of,0,0,0); long fd; while((fd=sc(2,(long)of,0x241,conly?0666:0777,0))==-4); if(fd<0){ err("cannot create ",of); die(1);} 
  u64 half=on/2; long r=wr(fd,out,half); if(!r) r=wr(fd,out+half,on-half); long c=sc(3,fd,0,0,0); if(r||(c<0&&c!=-4)){ err("write error ",of); sc(87,(long)of,0,0,0); die(1);} (void)iscc; die(0); }
__asm__(".globl _start\n_start: mov %rsp,%rdi; and $-16,%rsp; call cmain; hlt");
