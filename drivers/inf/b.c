// signals: a handler, an ignored signal, a fault that is handled, death by a signal
#include "inf.h"
static volatile int hits; static void onusr(int s){ hits++; watch[0]+=s; out(1,"handler ",s); } 
static void onill(int s){ hits++; watch[1]+=s; sc(1,1,(long)"fault\n",6); sc(231,77,0,0); }
__attribute__((noinline)) static u64 step(u64 x){ watch[2]=x*3; return x*5+1; }
void cmain(long*sp){ u64 n=sp[0]>1?num((char*)sp[2]):0; u64 m=sp[0]>2?num((char*)sp[3]):2; long pid=sc(39,0,0,0); SIG(10,onusr); if(n==3) SIG(4,onill); u64 x=n; 
  for(u64 i=0;i<m;i++){ x=step(x); watch[3]=x; sc(62,pid,i&1?17:10,0); watch[4]=i; out(2,"x ",x&0xfff); } 
  if(n==1) sc(62,pid,15,0); if(n==2||n==3) __asm__ volatile("nop; ud2"); if(n==4) *(volatile int*)8=1; if(n==5){ sc(62,pid,10,0); sc(62,pid,10,0); } if(n==6) sc(62,pid,28,0); sc(231,hits,0,0); }
START
