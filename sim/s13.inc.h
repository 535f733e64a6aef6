// name, number, result bits (0: none), width of each argument (0: none, -64: an int the kernel reads as a pointer, 1: not given, has to be 0)
{"read",0,64,{32,64,64,0,0,0}},
{"write",1,64,{32,64,64,0,0,0}},
{"open",2,32,{64,32,32,0,0,0}},
{"close",3,32,{32,0,0,0,0,0}},
{"stat",4,32,{64,64,0,0,0,0}},
{"fstat",5,32,{32,64,0,0,0,0}},
{"lstat",6,32,{64,64,0,0,0,0}},
{"poll",7,32,{64,32,32,0,0,0}},
{"lseek",8,64,{32,64,32,0,0,0}},
{"mmap",9,64,{64,64,64,32,32,64}},
{"mprotect",10,32,{64,64,64,0,0,0}},
{"munmap",11,32,{64,64,0,0,0,0}},
{"brk",12,32,{64,0,0,0,0,0}},
{"ioctl",16,32,{32,32,64,0,0,0}},
{"pread64",17,64,{32,64,64,64,0,0}},
{"pwrite64",18,64,{32,64,64,64,0,0}},
{"readv",19,64,{32,64,32,0,0,0}},
{"writev",20,64,{32,64,32,0,0,0}},
{"access",21,32,{64,32,0,0,0,0}},
{"pipe",22,32,{64,0,0,0,0,0}},
{"shed_yield",24,32,{0,0,0,0,0,0}},
{"mremap",25,64,{64,64,64,32,0,0}},
{"msync",26,32,{64,64,32,0,0,0}},
{"mincore",27,32,{64,64,64,0,0,0}},
{"madvise",28,32,{64,64,32,0,0,0}},
{"shmget",29,32,{32,64,32,0,0,0}},
{"shmat",30,64,{32,64,32,0,0,0}},
{"dup",32,32,{32,0,0,0,0,0}},
{"dup2",33,32,{32,32,0,0,0,0}},
{"pause",34,32,{0,0,0,0,0,0}},
{"nanosleep",35,32,{64,64,0,0,0,0}},
{"alarm",37,32,{32,0,0,0,0,0}},
{"getpid",39,32,{0,0,0,0,0,0}},
{"sendfile",40,64,{32,32,64,64,0,0}},
{"socket",41,32,{32,32,32,0,0,0}},
{"accept",43,32,{32,64,64,0,0,0}},
{"sendto",44,64,{32,64,64,32,1,1}},
{"recvfrom",45,64,{32,64,64,32,64,64}},
{"shutdown",48,32,{32,32,0,0,0,0}},
{"bind",49,32,{32,64,32,0,0,0}},
{"listen",50,32,{32,32,0,0,0,0}},
{"getsockname",51,32,{32,64,64,0,0,0}},
{"getpeername",52,32,{32,64,64,0,0,0}},
{"socketpair",53,32,{32,32,32,64,0,0}},
{"setsockopt",54,32,{32,32,32,64,32,0}},
{"getsockopt",55,32,{32,32,32,64,64,0}},
{"fork",57,32,{0,0,0,0,0,0}},
{"vfork",58,32,{0,0,0,0,0,0}},
{"execve",59,32,{64,64,64,0,0,0}},
{"wait4",61,32,{32,64,32,-64,0,0}},
{"kill",62,32,{32,32,0,0,0,0}},
{"uname",63,32,{64,0,0,0,0,0}},
{"semget",64,32,{32,32,32,0,0,0}},
{"semop",65,32,{32,64,64,0,0,0}},
{"semctl",66,32,{32,32,32,0,0,0}},
{"shmdt",67,32,{64,0,0,0,0,0}},
{"msgget",68,32,{32,32,0,0,0,0}},
{"msgsnd",69,32,{32,64,64,32,0,0}},
{"msgrcv",70,64,{32,64,64,64,32,0}},
{"fcntl",72,32,{32,32,0,0,0,0}},
{"fcntl2",72,32,{32,32,32,0,0,0}},
{"flock",73,32,{32,32,0,0,0,0}},
{"fsync",74,32,{32,0,0,0,0,0}},
{"fdatasync",75,32,{32,0,0,0,0,0}},
{"truncate",76,32,{64,64,0,0,0,0}},
{"ftruncate",77,32,{32,64,0,0,0,0}},
{"getdents",78,64,{32,64,32,0,0,0}},
{"getcwd",79,64,{64,64,0,0,0,0}},
{"chdir",80,32,{64,0,0,0,0,0}},
{"fchdir",81,32,{32,0,0,0,0,0}},
{"rename",82,32,{64,64,0,0,0,0}},
{"mkdir",83,32,{64,32,0,0,0,0}},
{"rmdir",84,32,{64,0,0,0,0,0}},
{"creat",85,32,{64,32,0,0,0,0}},
{"link",86,32,{64,64,0,0,0,0}},
{"unlink",87,32,{64,0,0,0,0,0}},
{"symlink",88,32,{64,64,0,0,0,0}},
{"readlink",89,64,{64,64,64,0,0,0}},
{"chmod",90,32,{64,32,0,0,0,0}},
{"fchmod",91,32,{32,32,0,0,0,0}},
{"gettimeofday",96,32,{64,-64,0,0,0,0}},
{"getppid",110,32,{0,0,0,0,0,0}},
{"sync",162,0,{0,0,0,0,0,0}},
{"getdents64",217,64,{32,64,32,0,0,0}},
{"clock_settime",227,32,{32,64,0,0,0,0}},
{"clock_gettime",228,32,{32,64,0,0,0,0}},
