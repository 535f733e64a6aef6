// Random system calls with printed results: run on the real and on the simulated kernel with the same seed and compare.
// Everything happens below the directory given as the second argument (made by compare.sh), which becomes the working directory.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <poll.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/inotify.h>
static unsigned long long st; static unsigned rnd(unsigned n){ st^=st<<13; st^=st>>7; st^=st<<17; return (unsigned)((st*0x2545F4914F6CDD1DULL)>>33)%n; }
static const char*N[]={"a","b","d","d/a","d/e","d/e/x","l","d/l","a/","./a","d/../a","nope/a","","d/./e/","l/x","."};
static int fds[8]={-1,-1,-1,-1,-1,-1,-1,-1}; static int ino=-1;
#define R(...) do{ long r_=(long)(__VA_ARGS__); if(r_<0) printf("%s",errno==EAGAIN?"EAGAIN":strerrorname_np(errno)); else printf("%ld",r_); putchar('\n'); }while(0)
static void hex(const char*b,long n){ unsigned h=5381; for(long i=0;i<n;i++) h=h*33+(unsigned char)b[i]; printf("  data %ld %08x\n",n,h); }
static int cmp(const void*a,const void*b){ return strcmp(*(char**)a,*(char**)b); }
static void onsig(int s){ printf("  handler %d\n",s); }
int main(int c,char**v){ closefrom(3); st=strtoull(v[1],0,10)*0x9E3779B97F4A7C15ULL+1; if(c>2&&chdir(v[2])) return 2; setvbuf(stdout,0,_IONBF,0); umask(022); char buf[9000]; int ops=c>3?atoi(v[3]):60; struct stat s;
  for(int i=0;i<ops;i++){ int o=rnd(30),k=rnd(8); const char*n=N[rnd(16)],*m=N[rnd(16)]; printf("%d op %d ",i,o); switch(o){
    case 0: case 1: case 2: { static const int F[]={O_RDONLY,O_WRONLY,O_RDWR}; static const int G[]={0,O_CREAT,O_CREAT|O_TRUNC,O_CREAT|O_EXCL,O_APPEND|O_CREAT,O_TRUNC,O_DIRECTORY,O_NOFOLLOW,O_CREAT|O_CLOEXEC}; int f=F[rnd(3)]|G[rnd(9)]; printf("open %s %x ",n,f); if(fds[k]>=0) close(fds[k]); errno=0; fds[k]=open(n,f,0644); R(fds[k]<0?-1:fds[k]); break; }
    case 3: case 4: case 5: { int l=rnd(3)?rnd(50):rnd(6000); for(int j=0;j<l;j++) buf[j]=(char)rnd(256); printf("write %d %d ",k,l); R(write(fds[k],buf,l)); break; }
    case 6: case 7: { int l=rnd(3)?rnd(50):rnd(6000); printf("read %d %d ",k,l); struct pollfd p={fds[k],POLLIN,0}; if(poll(&p,1,0)==0){ puts("would block"); break; } long r=read(fds[k],buf,l); R(r); if(r>0) hex(buf,r); break; }
    case 8: case 9: { long off=(long)rnd(7000)-(rnd(3)?0:3000); int w=rnd(4); printf("lseek %d %ld %d ",k,off,w); R(lseek(fds[k],off,w==3?9:w)); break; }
    case 10: printf("unlink %s ",n); R(unlink(n)); break;
    case 11: printf("mkdir %s ",n); R(mkdir(n,0755)); break;
    case 12: printf("rmdir %s ",n); R(rmdir(n)); break;
    case 13: printf("rename %s %s ",n,m); R(rename(n,m)); break;
    case 14: printf("symlink %s %s ",n,m); R(symlink(n,m)); break;
    case 15: printf("link %s %s ",n,m); R(link(n,m)); break;
    case 16: case 17: { int w=rnd(3); printf("stat%d %s ",w,n); int r=w==0?stat(n,&s):w==1?lstat(n,&s):fstat(fds[k],&s); R(r); if(!r){ printf("  type %o",s.st_mode&S_IFMT); if(!S_ISLNK(s.st_mode)&&S_ISREG(s.st_mode)) printf(" size %ld links %d mode %o",(long)s.st_size,(int)s.st_nlink,s.st_mode&0777); puts(""); } break; }
    case 18: { printf("access %s ",n); int q=rnd(4); R(access(n,q==0?F_OK:q==1?R_OK:q==2?W_OK:X_OK)); break; }
    case 19: { printf("ftruncate %d ",k); R(ftruncate(fds[k],rnd(5000))); break; }
    case 20: { printf("list %s ",n); DIR*d=opendir(n); if(!d){ R(-1); break; } char*e[64]; int q=0; struct dirent*x; while((x=readdir(d))&&q<64) e[q++]=strdup(x->d_name); closedir(d); qsort(e,q,sizeof*e,cmp); for(int j=0;j<q;j++) printf("%s ",e[j]); puts(""); break; }
    case 21: { int q=rnd(8); printf("dup2 %d %d ",k,q); if(fds[q]>=0&&q!=k) close(fds[q]); if(q!=k) fds[q]=dup(fds[k]); errno=fds[q]<0?EBADF:0; R(fds[q]); break; }
    case 22: { int p[2]; int q=rnd(8); if(q==k) q=(q+1)%8; printf("pipe "); if(fds[k]>=0) close(fds[k]); if(fds[q]>=0) close(fds[q]); R(pipe2(p,O_NONBLOCK)); fds[k]=p[0]; fds[q]=p[1]; break; }
    case 23: { printf("close %d ",k); R(close(fds[k])); fds[k]=-1; break; }
    case 24: { int how=rnd(6),a=rnd(256); printf("fork %d %d ",how,a); fflush(stdout); pid_t p=fork(); if(!p){ if(how==0) _exit(a); if(how==1) abort(); if(how==2) kill(getpid(),SIGKILL); if(how==3){ write(fds[k],"child",5); _exit(a&127); } if(how==4){ raise(SIGTERM); } execl("/nonexistent","x",(char*)0); _exit(errno==ENOENT?9:8); } int w=-1; waitpid(p,&w,0); printf("status %x again ",w); R(waitpid(p,&w,0)); break; }
    case 25: { int q=1+rnd(2); static int ig; printf("signal "); if(q==1){ signal(SIGUSR1,ig++&1?SIG_IGN:onsig); puts(""); kill(getpid(),SIGUSR1); } else { sigset_t z; sigemptyset(&z); sigaddset(&z,SIGUSR2); signal(SIGUSR2,onsig); sigprocmask(SIG_BLOCK,&z,0); kill(getpid(),SIGUSR2); puts("blocked"); sigprocmask(SIG_UNBLOCK,&z,0); } break; }
    case 26: { printf("preadwrite %d ",k); if(rnd(2)){ R(pwrite(fds[k],"pwrite",6,rnd(3000))); } else { long r=pread(fds[k],buf,rnd(500),rnd(3000)); R(r); if(r>0) hex(buf,r); } break; }
    case 27: { struct iovec iv[3]={{buf,rnd(20)},{buf+20,rnd(20)},{buf+40,rnd(20)}}; memset(buf,'q',60); printf("writev %d ",k); R(writev(fds[k],iv,3)); break; }
    case 28: { if(ino<0) ino=inotify_init1(IN_NONBLOCK|IN_CLOEXEC); static const int M[]={IN_MODIFY,IN_CLOSE_WRITE,IN_MODIFY|IN_DELETE_SELF|IN_MOVE_SELF,IN_ATTRIB}; printf("watch %s ",n); struct stat z; if(stat(n,&z)||!S_ISREG(z.st_mode)){ puts("not a file"); break; } R(inotify_add_watch(ino,n,M[rnd(4)])); break; }
    case 29: { printf("events "); if(ino<0){ puts(""); break; } long r=read(ino,buf,sizeof buf); R(r); for(long j=0;j+16<=r;){ struct inotify_event*e=(void*)(buf+j); printf("  event wd %d mask %x\n",e->wd,e->mask); j+=16+e->len; } break; }
  } }
  char cwd[100]; printf("end\n"); (void)cwd; return 0; }
