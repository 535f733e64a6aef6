// floating point, tables of functions, the red zone, position-dependent data, a file
#include "inf.h"
static double fp[5]={1.5,-2.25,3.0,0.125,1e3}; 
#define L __attribute__((noinline)) static
L u64 f0(u64 x){ return x+1; } L u64 f1(u64 x){ return x*3; } L u64 f2(u64 x){ return x^0x5a5a; } L u64 f3(u64 x){ watch[1]++; return ~x; }
static u64(*const tab[4])(u64)={f0,f1,f2,f3};
L double poly(double x){ double r=0; for(int i=0;i<5;i++) r=r*x+fp[i]; return r; }
L u64 leaf(u64 a){ volatile u64 t[6]; for(int i=0;i<6;i++) t[i]=a*i; u64 s=0; for(int i=0;i<6;i++) s+=t[i]; return s; }
void cmain(long*sp){ u64 n=sp[0]>1?num((char*)sp[2]):5; u64 m=sp[0]>2?num((char*)sp[3]):4; long fd=sc(2,(long)"/work/inf.out",01101,0644); u64 x=n; 
  for(u64 i=0;i<m;i++){ x=tab[(x+i)&3](x); watch[0]=x; if(i%3==0) out(fd,"x=",x&0xffff); } double d=poly((double)(n%4)+0.5); fp[2]=d; watch[2]=(u64)(long)d; out(fd,"poly ",watch[2]); x+=leaf(x&255); watch[3]=x; switch(n%6){ case 0: x+=1; break; case 1: x*=2; break; case 2: x^=7; break; case 3: x-=9; break; case 4: x<<=1; break; default: x>>=1; } watch[4]=x; out(1,"end ",x&0xff); sc(3,fd,0,0); sc(60,x&0x3f,0,0); }
START
