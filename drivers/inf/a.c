// loops, calls, recursion, output; exit code from the arguments
#include "inf.h"
__attribute__((noinline)) static u64 fact(u64 n){ watch[0]+=n; return n<2?1:n*fact(n-1); }
__attribute__((noinline)) static u64 mixit(u64 a,u64 b){ a^=b<<3; a+=b>>1; watch[1]=a; return a; }
__attribute__((noinline)) static void sort(int*v,int n){ for(int i=0;i<n;i++) for(int j=i+1;j<n;j++) if(v[j]<v[i]){ int t=v[i]; v[i]=v[j]; v[j]=t; watch[2]++; } }
void cmain(long*sp){ for(long i=3;i<sp[0];i++) out(2,(char*)sp[1+i],i); if(sp[0]>3) out(1,"args ",sp[0]); u64 n=sp[0]>1?num((char*)sp[2]):2; u64 m=sp[0]>2?num((char*)sp[3]):3; u64 a=n; 
  for(u64 i=0;i<m;i++){ a=mixit(a,i); out(1,"mix ",a&0xffff); watch[3]=i; } 
  out(2,"fact ",fact(n%8+1)); int v[6]; for(int i=0;i<6;i++) v[i]=(int)((a>>(i*3))&31)^(int)n; sort(v,6); for(int i=0;i<6;i++) watch[4]=watch[4]*31+v[i]; out(1,"sorted ",watch[4]&0xffff);
  sc(1,9,(long)"nobody",6); sc(231,(n*7+m)&0xff,0,0); }
START
