// Stand-in for a program built by cspc with the stub linker: asks the simulator what to do.
typedef unsigned long u64;
static long sc(long n,long a,long b,long c,long d){ long r; register long r10 __asm__("r10")=d; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10):"rcx","r11","memory"); return r; }
void cmain(long*sp){ long b=sc(0x5000,2,(long)sp,0,0); int n=(b>>16)&0xff; for(int i=0;i<n;i++) sc(24,0,0,0,0); sc(1,1,(long)"prog ran\n",9,0); int sig=(b>>8)&0xff; if(sig) { sc(62,sc(39,0,0,0,0),sig,0,0); } for(;;) sc(231,b&0xff,0,0,0); }
__asm__(".globl _start\n_start: mov %rsp,%rdi; and $-16,%rsp; call cmain; hlt");
