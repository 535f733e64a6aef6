# generates drivers/s13.csp and sim/s13.inc.h from the table of wrappers below
import os
VD=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# generates drivers/s13.csp and sim/s13.inc from one table
# name, args (type, width) , result kind
T=[]
def w(name,nr,args,res): T.append((name,nr,args,res))
P=lambda t:('&'+t,64)
I=('i32',32); U=('u32',32); L=('usize',64); S64=('i64',64); O=('Offset',64)
V=P('void'); C=P('const char')
w('read',0,[I,V,L],64); w('write',1,[I,V,L],64); w('open',2,[C,I,('mode_t',32)],32); w('close',3,[I],32); w('stat',4,[C,P('Stat')],32); w('fstat',5,[I,P('Stat')],32); w('lstat',6,[C,P('Stat')],32)
w('poll',7,[P('PollFd'),('nfds_t',32),I],32); w('lseek',8,[I,O,I],64); w('mmap',9,[V,L,S64,I,I,O],64); w('mprotect',10,[V,L,S64],32); w('munmap',11,[V,L],32); w('brk',12,[('u64',64)],32)
w('ioctl',16,[I,I,('u64',64)],32); w('pread64',17,[I,V,L,O],64); w('pwrite64',18,[I,V,L,O],64); w('readv',19,[I,P('IOVec'),I],64); w('writev',20,[I,P('IOVec'),I],64); w('access',21,[C,I],32); w('pipe',22,[P('i32')],32)
w('shed_yield',24,[],32); w('mremap',25,[V,L,L,I],64); w('msync',26,[V,L,I],32); w('mincore',27,[V,L,P('u8')],32); w('madvise',28,[V,L,I],32); w('shmget',29,[('key_t',32),L,I],32); w('shmat',30,[I,V,I],64); w('dup',32,[I],32); w('dup2',33,[I,I],32); w('pause',34,[],32); w('nanosleep',35,[P('const TimeSpec'),P('TimeSpec')],32); w('alarm',37,[U],32); w('getpid',39,[],32); w('sendfile',40,[I,I,P('Offset'),L],64); w('socket',41,[I,I,I],32)
w('accept',43,[I,P('SockAddr'),P('socklen_t')],32); w('sendto',44,[I,V,L,I,('',1),('',1)],64); w('recvfrom',45,[I,V,L,I,P('SockAddr'),P('socklen_t')],64); w('shutdown',48,[I,I],32); w('bind',49,[I,P('const SockAddr'),('socklen_t',32)],32); w('listen',50,[I,I],32); w('getsockname',51,[I,P('SockAddr'),P('socklen_t')],32); w('getpeername',52,[I,P('SockAddr'),P('socklen_t')],32); w('socketpair',53,[I,I,I,P('i32')],32); w('setsockopt',54,[I,I,I,V,('socklen_t',32)],32); w('getsockopt',55,[I,I,I,V,P('socklen_t')],32)
w('fork',57,[],32); w('vfork',58,[],32); w('execve',59,[C,P('&const char'),P('&const char')],32); w('wait4',61,[I,P('i32'),I,('i32',-64)],32); w('kill',62,[I,I],32); w('uname',63,[P('UTSName')],32); w('semget',64,[('key_t',32),I,I],32); w('semop',65,[I,P('sembuf'),L],32); w('semctl',66,[I,I,I],32); w('shmdt',67,[V],32); w('msgget',68,[('key_t',32),I],32); w('msgsnd',69,[I,V,L,I],32); w('msgrcv',70,[I,V,L,S64,I],64)
w('fcntl',72,[I,I],32); w('fcntl2',72,[I,I,I],32); w('flock',73,[I,I],32); w('fsync',74,[I],32); w('fdatasync',75,[I],32); w('truncate',76,[C,O],32); w('ftruncate',77,[I,O],32); w('getdents',78,[U,V,U],64); w('getcwd',79,[P('char'),L],64); w('chdir',80,[C],32); w('fchdir',81,[I],32); w('rename',82,[C,C],32); w('mkdir',83,[C,('mode_t',32)],32); w('rmdir',84,[C],32); w('creat',85,[C,('mode_t',32)],32); w('link',86,[C,C],32); w('unlink',87,[C],32); w('symlink',88,[C,C],32); w('readlink',89,[C,P('char'),L],64); w('chmod',90,[C,('mode_t',32)],32); w('fchmod',91,[I,('mode_t',32)],32); w('gettimeofday',96,[P('TimeSpec'),('i32',-64)],32); w('getppid',110,[],32); w('sync',162,[],0); w('getdents64',217,[U,V,U],64); w('clock_settime',227,[('Clock',32),P('const TimeSpec')],32); w('clock_gettime',228,[('Clock',32),P('TimeSpec')],32)
o='import "std.csp";\nimport "lib/rpc.csp";\n# system call wrappers: the arguments are a..e and r, the result goes to r\nfn main(): i32 {\n    using std;\n    let q: &i64 = (&g.out): &i64;\n    let st: std::Stat; let un: std::UTSName; let pf: std::PollFd; let iv: std::IOVec; let sa: std::SockAddr; let si: std::SockAddrIn; let ts: std::TimeSpec; let sl: u32 = 0;\n    let o: i64 = next();\n    while o != 0 {\n        let a: i64 = g.a; let b: i64 = g.b; let c: i64 = g.c; let d: i64 = g.d; let e: i64 = g.e; let f: i64 = g.r;\n        g.r = 0;\n        match o {\n'
i='// name, number, result bits (0: none), width of each argument (0: none, -64: an int the kernel reads as a pointer, 1: not given, has to be 0)\n'
STAT='dev ino nlink mode uid gid rdev size blksize blocks atime atimensec mtime mtimensec ctime ctimensec'.split()
UTS='sysname nodename release version machine domainname'.split()
def structs():
    o=''
    def op(k,body): return '            %d => { %s }\n'%(k,body)
    def emit(v,fs): return ' '.join('q[%d] = %s.%s: i64;'%(i,v,f) for i,f in enumerate(fs))
    for k,n in ((200,'stat("/x", &st)'),(201,'fstat(1, &st)'),(202,'lstat("/x", &st)')): o+=op(k,'g.r = syscall::%s: i64; %s'%(n,emit('st',STAT)))
    o+=op(203,'g.r = syscall::uname(&un): i64; '+' '.join('memory::copy(&g.out[%d], &un.%s[0], 65);'%(i*65,f) for i,f in enumerate(UTS)))
    o+=op(204,'pf.fd = a: i32; pf.events = b: i16; pf.revents = 0; g.r = syscall::poll(&pf, 1, 0): i64; '+emit('pf',['fd','events','revents']))
    o+=op(205,'iv.iov_base = a: &void; iv.iov_len = b: usize; g.r = syscall::writev(1, &iv, 1): i64;')
    o+=op(206,'iv.iov_base = a: &void; iv.iov_len = b: usize; g.r = syscall::readv(0, &iv, 1): i64;')
    o+=op(207,'sl = 16; g.r = syscall::getsockname(3, &sa, &sl): i64; q[0] = sa.family: i64; q[1] = sl: i64; memory::copy(&g.out[16], &sa.data[0], 14);')
    o+=op(208,'si.family = a: sa_family_t; si.port = b: in_port_t; si.addr.addr = c: u32; g.r = syscall::bind(3, (&si): &SockAddr, 16): i64;')
    o+=op(209,'ts.tv_sec = 0; ts.tv_nsec = 0; g.r = syscall::clock_gettime(a: Clock, &ts): i64; '+emit('ts',['tv_sec','tv_nsec']))
    o+=op(210,'ts.tv_sec = a; ts.tv_nsec = b; g.r = syscall::clock_settime(c: Clock, &ts): i64;')
    o+=op(211,'ts.tv_sec = a; ts.tv_nsec = b; g.r = syscall::nanosleep(&ts, nil): i64;')
    o+=op(212,'g.r = syscall::getdents64(3, &g.buf[0], 2048); let de = (&g.buf[0]): &DirEntry; '+emit('de',['ino','off','reclen','type_'])+' memory::copy(&g.out[32], &de.name[0], 40);')
    return o
for k,(n,nr,args,res) in enumerate(T):
    call='syscall::%s(%s)'%(n,', '.join('%s: %s'%(v,t[0]) for v,t in zip('abcdef',[x for x in args if x[0]])))
    o+='            %d => { %s; }\n'%(k+1,('g.r = %s: i64'%call) if res else call)
    i+='{"%s",%d,%d,{%s}},\n'%(n,nr,res,','.join(str(a[1]) for a in args+[('',0)]*(6-len(args))))
o+=structs()
# constants: tools/consts.tbl lists what std declares and the value the operating system's headers give it (x86-64 Linux)
C=[l.split() for l in open(VD+'/tools/consts.tbl') if l.strip()]
for j in range(0,len(C),64): o+='            %d => { %s }\n'%(300+j//64,' '.join('q[%d] = %s: i64;'%(k,n.replace('std::','',1)) for k,(n,v) in enumerate(C[j:j+64])))
open(VD+'/sim/s13c.inc.h','w').write('// constant, value\n'+''.join('{"%s",%sLL},\n'%(n,v) for n,v in C))
o+='            _ => {}\n        }\n        o = next();\n    }\n    <- 0;\n}\n'
open(VD+'/drivers/s13.csp','w').write(o); open(VD+'/sim/s13.inc.h','w').write(i)
