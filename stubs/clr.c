// Stand-in for /bin/sh when the linter clears the screen: writes the clear sequence and ends.
static long sc(long n,long a,long b,long c){ long r; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c):"rcx","r11","memory"); return r; }
void cmain(long*sp){ (void)sp; sc(1,1,(long)"\033[H\033[2J",7); for(;;) sc(231,0,0,0); }
__asm__(".globl _start\n_start: mov %rsp,%rdi; and $-16,%rsp; call cmain; hlt");
