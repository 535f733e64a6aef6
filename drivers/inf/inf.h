// Programs to be debugged: freestanding, statically linked, every system call explicit. r12 and r13 are never used.
typedef unsigned long u64; typedef unsigned char u8;
static long sc(long n,long a,long b,long c){ long r; __asm__ volatile("syscall":"=a"(r):"a"(n),"D"(a),"S"(b),"d"(c):"rcx","r11","memory"); return r; }
volatile u64 watch[8]={0x1111,0x2222,0x3333,0x4444,0x5555,0x6666,0,0}; // the last two are not used by the program
static u64 num(const char*s){ u64 v=0; while(*s>='0'&&*s<='9') v=v*10+(*s++-'0'); return v; }
static void out(int fd,const char*s,u64 v){ char b[64]; int n=0; while(s[n]&&n<40){ b[n]=s[n]; n++; } char t[20]; int k=0; do { t[k++]='0'+v%10; v/=10; } while(v&&k<19); while(k) b[n++]=t[--k]; b[n++]='\n'; sc(1,fd,(long)b,n); }
#define START __asm__(".globl _start\n_start: mov %rsp,%rdi; and $-16,%rsp; call cmain; hlt");
#define SIG(s,h) do { struct { void(*f)(int); u64 fl; void(*r)(void); u64 m; } sa_={h,0x04000000,restorer,0}; long r_; register long r10_ __asm__("r10")=8; __asm__ volatile("syscall":"=a"(r_):"a"(13),"D"((long)(s)),"S"(&sa_),"d"(0),"r"(r10_):"rcx","r11","memory"); } while(0)
void restorer(void); __asm__(".globl restorer\nrestorer: mov $15,%eax; syscall; hlt");
