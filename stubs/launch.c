// Starts the program given as argument, without a debugger, and ends like it.
typedef unsigned long u64;
static long sc(long n,long a,long b,long c,long d){ long r; register long r10 __asm__("r10")=d; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10):"rcx","r11","memory"); return r; }
void cmain(long*sp){ char**av=(char**)(sp+1); char**env=(char**)(sp+2+sp[0]); long pid=sc(57,0,0,0,0); if(pid==0){ sc(59,(long)av[1],(long)(av+1),(long)env,0); sc(60,127,0,0,0); } int st=0; sc(61,pid,(long)&st,0,0); for(;;) sc(231,(st>>8)&0xff,0,0,0); }
__asm__(".globl _start\n_start: mov %rsp,%rdi; and $-16,%rsp; call cmain; hlt");
