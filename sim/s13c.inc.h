// constant, value
{"std::console::VINTR",0LL},
{"std::console::VQUIT",1LL},
{"std::console::VERASE",2LL},
{"std::console::VKILL",3LL},
{"std::console::VEOF",4LL},
{"std::console::VTIME",5LL},
{"std::console::VMIN",6LL},
{"std::console::VSWTC",7LL},
{"std::console::VSTART",8LL},
{"std::console::VSTOP",9LL},
{"std::console::VSUSP",10LL},
{"std::console::VEOL",11LL},
{"std::console::VREPRINT",12LL},
{"std::console::VDISCARD",13LL},
{"std::console::VWERASE",14LL},
{"std::console::VLNEXT",15LL},
{"std::console::VEOL2",16LL},
{"std::console::IGNBRK",1LL},
{"std::console::BRKINT",2LL},
{"std::console::IGNPAR",4LL},
{"std::console::PARMRK",8LL},
{"std::console::INPCK",16LL},
{"std::console::ISTRIP",32LL},
{"std::console::INLCR",64LL},
{"std::console::IGNCR",128LL},
{"std::console::IGNNL",256LL},
{"std::console::IUCLC",512LL},
{"std::console::IXON",1024LL},
{"std::console::IXANY",2048LL},
{"std::console::IXOFF",4096LL},
{"std::console::IMAXBEL",8192LL},
{"std::console::IUTF8",16384LL},
{"std::console::OPOST",1LL},
{"std::console::OLCUC",2LL},
{"std::console::ONLCR",4LL},
{"std::console::ONRNL",8LL},
{"std::console::ONLRET",32LL},
{"std::console::OFILL",64LL},
{"std::console::OFDEL",128LL},
{"std::console::VTDLY",16384LL},
{"std::console::VT0",0LL},
{"std::console::VT1",16384LL},
{"std::console::B0",0LL},
{"std::console::B50",1LL},
{"std::console::B75",2LL},
{"std::console::B110",3LL},
{"std::console::B134",4LL},
{"std::console::B150",5LL},
{"std::console::B200",6LL},
{"std::console::B300",7LL},
{"std::console::B600",8LL},
{"std::console::B1200",9LL},
{"std::console::B1800",10LL},
{"std::console::B2400",11LL},
{"std::console::B4800",12LL},
{"std::console::B9600",13LL},
{"std::console::B19200",14LL},
{"std::console::B38400",15LL},
{"std::console::EXTA",14LL},
{"std::console::EXTB",15LL},
{"std::console::CSIZE",48LL},
{"std::console::CS5",0LL},
{"std::console::CS6",16LL},
{"std::console::CS7",32LL},
{"std::console::CS8",48LL},
{"std::console::CSTOPB",64LL},
{"std::console::CREAD",128LL},
{"std::console::PARENB",256LL},
{"std::console::PARODD",512LL},
{"std::console::HUPCL",1024LL},
{"std::console::CLOCAL",2048LL},
{"std::console::CBAUD",4111LL},
{"std::console::ISIG",1LL},
{"std::console::ECHO",8LL},
{"std::console::ECHOE",16LL},
{"std::console::ECHOK",32LL},
{"std::console::ECHONL",64LL},
{"std::console::NOFLSH",128LL},
{"std::console::TOSTOP",256LL},
{"std::console::IEXTEN",32768LL},
{"std::console::EXTPROC",65536LL},
{"std::console::TCOOFF",0LL},
{"std::console::TCOON",1LL},
{"std::console::TCIOFF",2LL},
{"std::console::TCION",3LL},
{"std::console::TCIFLUSH",0LL},
{"std::console::TCOFLUSH",1LL},
{"std::console::TCIOFLUSH",2LL},
{"std::console::TCSANOW",0LL},
{"std::console::TCSADRIAN",1LL},
{"std::console::TCSAFLUSH",2LL},
{"std::Errno::NONE",0LL},
{"std::Errno::PERM",1LL},
{"std::Errno::NOENT",2LL},
{"std::Errno::SRCH",3LL},
{"std::Errno::INTR",4LL},
{"std::Errno::IO",5LL},
{"std::Errno::NXIO",6LL},
{"std::Errno::TOOBIG",7LL},
{"std::Errno::NOEXEC",8LL},
{"std::Errno::BADF",9LL},
{"std::Errno::CHILD",10LL},
{"std::Errno::AGAIN",11LL},
{"std::Errno::NOMEM",12LL},
{"std::Errno::ACCESS",13LL},
{"std::Errno::EFAULT",14LL},
{"std::Errno::NOTBLK",15LL},
{"std::Errno::BUSY",16LL},
{"std::Errno::EXIST",17LL},
{"std::Errno::XDEV",18LL},
{"std::Errno::NODEV",19LL},
{"std::Errno::NOTDIR",20LL},
{"std::Errno::ISDIR",21LL},
{"std::Errno::INVAL",22LL},
{"std::Errno::NFILE",23LL},
{"std::Errno::MFILE",24LL},
{"std::Errno::NOTTY",25LL},
{"std::Errno::TXTBSY",26LL},
{"std::Errno::FBIG",27LL},
{"std::Errno::NOSPC",28LL},
{"std::Errno::SPIPE",29LL},
{"std::Errno::ROFS",30LL},
{"std::Errno::MLINK",31LL},
{"std::Errno::PIPE",32LL},
{"std::Errno::DOM",33LL},
{"std::Errno::RANGE",34LL},
{"std::Errno::DEADLK",35LL},
{"std::Errno::NAMETOOLONG",36LL},
{"std::Errno::NOLCK",37LL},
{"std::Errno::NOSYS",38LL},
{"std::Errno::NOTEMPTY",39LL},
{"std::Errno::LOOP",40LL},
{"std::Errno::WOULDBLOCK",11LL},
{"std::Errno::NOMSG",42LL},
{"std::Errno::IDRM",43LL},
{"std::Errno::CHRNG",44LL},
{"std::Errno::L2NSYNC",45LL},
{"std::Errno::L3HLT",46LL},
{"std::Errno::L3RST",47LL},
{"std::Errno::LNRNG",48LL},
{"std::Errno::UNATCH",49LL},
{"std::Errno::NOCSI",50LL},
{"std::Errno::L2HLT",51LL},
{"std::Errno::BADE",52LL},
{"std::Errno::BADR",53LL},
{"std::Errno::XFULL",54LL},
{"std::Errno::NOANO",55LL},
{"std::Errno::BADRQC",56LL},
{"std::Errno::BADSLT",57LL},
{"std::Errno::DEADLOCK",35LL},
{"std::Errno::BFONT",59LL},
{"std::Errno::NOSTR",60LL},
{"std::Errno::NODATA",61LL},
{"std::Errno::TME",62LL},
{"std::Errno::NOSR",63LL},
{"std::Errno::NONET",64LL},
{"std::Errno::NOPKG",65LL},
{"std::Errno::REMOTE",66LL},
{"std::Errno::NOLINK",67LL},
{"std::Errno::ADV",68LL},
{"std::Errno::SRMNT",69LL},
{"std::Errno::COMM",70LL},
{"std::Errno::PROTO",71LL},
{"std::Errno::MULTIHOP",72LL},
{"std::Errno::DOTDOT",73LL},
{"std::Errno::BADMSG",74LL},
{"std::Errno::OVERFLOW",75LL},
{"std::Errno::NOTUNIQ",76LL},
{"std::Errno::BADFD",77LL},
{"std::Errno::REMCHG",78LL},
{"std::Errno::LIBACC",79LL},
{"std::Errno::LIBBAD",80LL},
{"std::Errno::LIBSCN",81LL},
{"std::Errno::LIBMAX",82LL},
{"std::Errno::LIBEXEC",83LL},
{"std::Errno::ILSEQ",84LL},
{"std::Errno::RESTART",85LL},
{"std::Errno::STRPIPE",86LL},
{"std::Errno::USERS",87LL},
{"std::Errno::NOTSOCK",88LL},
{"std::Errno::DESTADDRREQ",89LL},
{"std::Errno::MSGSIZE",90LL},
{"std::Errno::PROTOTYPE",91LL},
{"std::Errno::NOPROTOOPT",92LL},
{"std::Errno::PROTONOSUPPORT",93LL},
{"std::Errno::SOCKTNOSUPPORT",94LL},
{"std::Errno::OPNOTSUPP",95LL},
{"std::Errno::NOTSUP",95LL},
{"std::Errno::PFNOSUPPORT",96LL},
{"std::Errno::AFNOSUPPORT",97LL},
{"std::Errno::ADDRINUSE",98LL},
{"std::Errno::ADDRNOTAVAIL",99LL},
{"std::Errno::NETDOWN",100LL},
{"std::Errno::NETUNREACH",101LL},
{"std::Errno::NETRESET",102LL},
{"std::Errno::CONNABORTED",103LL},
{"std::Errno::CONNRESET",104LL},
{"std::Errno::NOBUFS",105LL},
{"std::Errno::ISCONN",106LL},
{"std::Errno::NOTCONN",107LL},
{"std::Errno::SHUTDOWN",108LL},
{"std::Errno::TOOMANYREFS",109LL},
{"std::Errno::TIMEDOUT",110LL},
{"std::Errno::CONNREFUSED",111LL},
{"std::Errno::HOSTDOWN",112LL},
{"std::Errno::HOSTUNREACH",113LL},
{"std::Errno::ALREADY",114LL},
{"std::Errno::INPROGRESS",115LL},
{"std::Errno::STALE",116LL},
{"std::Errno::UCLEAN",117LL},
{"std::Errno::NOTNAM",118LL},
{"std::Errno::NAVAIL",119LL},
{"std::Errno::INAM",120LL},
{"std::Errno::REMOTEIO",121LL},
{"std::Errno::DQUOT",122LL},
{"std::Errno::NOMEDIUM",123LL},
{"std::Errno::MEDIUMTYPE",124LL},
{"std::Errno::CANCELED",125LL},
{"std::Errno::NOKEY",126LL},
{"std::Errno::KEYEXPIRED",127LL},
{"std::Errno::KEYREVOKED",128LL},
{"std::Errno::KEYREJECTED",129LL},
{"std::Errno::OWNERDEAD",130LL},
{"std::Errno::NOTRECOVERABLE",131LL},
{"std::Errno::RFKIL",132LL},
{"std::Errno::HWPOISON",133LL},
{"std::file::SEEK_SET",0LL},
{"std::file::SEEK_CUR",1LL},
{"std::file::SEEK_END",2LL},
{"std::io::O_RDONLY",0LL},
{"std::io::O_WRONLY",1LL},
{"std::io::O_RDWR",2LL},
{"std::io::O_CREAT",64LL},
{"std::io::O_PATH",2097152LL},
{"std::io::O_DIRECTORY",65536LL},
{"std::io::O_CLOEXEC",524288LL},
{"std::io::F_OK",0LL},
{"std::io::R_OK",4LL},
{"std::io::W_OK",2LL},
{"std::io::X_OK",1LL},
{"std::io::F_ULOCK",0LL},
{"std::io::F_LOCK",1LL},
{"std::io::F_TLOCK",2LL},
{"std::io::F_TEST",3LL},
{"std::io::F_SETLEASE",1024LL},
{"std::io::F_GETLEASE",1025LL},
{"std::io::F_NOTIFY",1026LL},
{"std::io::F_SETPIPE_SZ",1031LL},
{"std::io::F_GETPIPE_SZ",1032LL},
{"std::io::F_ADD_SEALS",1033LL},
{"std::io::F_GET_SEALS",1034LL},
{"std::io::F_SEAL_SEAL",1LL},
{"std::io::F_SEAL_SHRINK",2LL},
{"std::io::F_SEAL_GROW",4LL},
{"std::io::F_SEAL_WRITE",8LL},
{"std::io::F_SEAL_FUTURE_WRITE",16LL},
{"std::io::F_GET_RW_HINT",1035LL},
{"std::io::F_SET_RW_HINT",1036LL},
{"std::io::F_GET_FILE_RW_HINT",1037LL},
{"std::io::F_SET_FILE_RW_HINT",1038LL},
{"std::io::F_DUPFD",0LL},
{"std::io::F_GETFD",1LL},
{"std::io::F_SETFD",2LL},
{"std::io::F_GETFL",3LL},
{"std::io::F_SETFL",4LL},
{"std::io::FD_CLOEXEC",1LL},
{"std::io::RWF_WRITE_LIFE_NOT_SET",0LL},
{"std::io::RWH_WRITE_LIFE_NONE",1LL},
{"std::io::RWH_WRITE_LIFE_SHORT",2LL},
{"std::io::RWH_WRITE_LIFE_MEDIUM",3LL},
{"std::io::RWH_WRITE_LIFE_LONG",4LL},
{"std::io::RWH_WRITE_LIFE_EXTREME",5LL},
{"std::io::DN_ACCESS",1LL},
{"std::io::DN_MODIFY",2LL},
{"std::io::DN_CREATE",4LL},
{"std::io::DN_DELETE",8LL},
{"std::io::DN_RENAME",16LL},
{"std::io::DN_ATTRIB",32LL},
{"std::io::DN_MULTISHOT",2147483648LL},
{"std::io::LOCK_SH",1LL},
{"std::io::LOCK_EX",2LL},
{"std::io::LOCK_NB",4LL},
{"std::io::LOCK_UN",8LL},
{"std::io::L_SET",0LL},
{"std::io::L_INCR",1LL},
{"std::io::L_XTND",2LL},
{"std::io::TCGETS",21505LL},
{"std::io::TCSETS",21506LL},
{"std::io::TCSETSW",21507LL},
{"std::io::TCSETSF",21508LL},
{"std::io::TCGETA",21509LL},
{"std::io::TCSETA",21510LL},
{"std::io::TCSETAW",21511LL},
{"std::io::TCSETAF",21512LL},
{"std::io::TCSBRK",21513LL},
{"std::io::TCXONC",21514LL},
{"std::io::TCFLSH",21515LL},
{"std::io::TIOCEXCL",21516LL},
{"std::io::TIOCNXCL",21517LL},
{"std::io::TIOCSCTTY",21518LL},
{"std::io::TIOCGPGRP",21519LL},
{"std::io::TIOCSPGRP",21520LL},
{"std::io::TIOCOUTQ",21521LL},
{"std::io::TIOCSTI",21522LL},
{"std::io::TIOCGWINSZ",21523LL},
{"std::io::TIOCSWINSZ",21524LL},
{"std::io::TIOCMGET",21525LL},
{"std::io::TIOCMBIS",21526LL},
{"std::io::TIOCMBIC",21527LL},
{"std::io::TIOCMSET",21528LL},
{"std::io::TIOCGSOFTCAR",21529LL},
{"std::io::TIOCSSOFTCAR",21530LL},
{"std::io::FIONREAD",21531LL},
{"std::io::TIOCINQ",21531LL},
{"std::io::TIOCLINUX",21532LL},
{"std::io::TIOCCONS",21533LL},
{"std::io::TIOCGSERIAL",21534LL},
{"std::io::TIOCSSERIAL",21535LL},
{"std::io::TIOCPKT",21536LL},
{"std::io::FIONBIO",21537LL},
{"std::io::TIOCNOTTY",21538LL},
{"std::io::TIOCSETD",21539LL},
{"std::io::TIOCGETD",21540LL},
{"std::io::TCSBRKP",21541LL},
{"std::io::TIOCSBRK",21543LL},
{"std::io::TIOCCBRK",21544LL},
{"std::io::TIOCGSID",21545LL},
{"std::io::TIOCGRS485",21550LL},
{"std::io::TIOCSRS485",21551LL},
{"std::io::TCGETX",21554LL},
{"std::io::TCSETX",21555LL},
{"std::io::TCSETXF",21556LL},
{"std::io::TCSETXW",21557LL},
{"std::io::TIOCVHANGUP",21559LL},
{"std::io::FIONCLEX",21584LL},
{"std::io::FIOCLEX",21585LL},
{"std::io::FIOASYNC",21586LL},
{"std::io::TIOCSERCONFIG",21587LL},
{"std::io::TIOCSERGWILD",21588LL},
{"std::io::TIOCSERSWILD",21589LL},
{"std::io::TIOCGLCKTRMIOS",21590LL},
{"std::io::TIOCSLCKTRMIOS",21591LL},
{"std::io::TIOCSERGSTRUCT",21592LL},
{"std::io::TIOCSERGETLSR",21593LL},
{"std::io::TIOCSERGETMULTI",21594LL},
{"std::io::TIOCSERSETMULTI",21595LL},
{"std::io::TIOCMIWAIT",21596LL},
{"std::io::TIOCGICOUNT",21597LL},
{"std::io::TIOCPKT_DATA",0LL},
{"std::io::TIOCPKT_FLUSHREAD",1LL},
{"std::io::TIOCPKT_FLUSHWRITE",2LL},
{"std::io::TIOCPKT_STOP",4LL},
{"std::io::TIOCPKT_START",8LL},
{"std::io::TIOCPKT_NOSTOP",16LL},
{"std::io::TIOCPKT_DOSTOP",32LL},
{"std::io::TIOCPKT_IOCTL",64LL},
{"std::io::TIOCSER_TEMT",1LL},
{"std::Prot::NONE",0LL},
{"std::Prot::READ",1LL},
{"std::Prot::WRITE",2LL},
{"std::Prot::EXEC",4LL},
{"std::Prot::GROWSUP",33554432LL},
{"std::Prot::GROWSDOWN",16777216LL},
{"std::MMap::SHARED",1LL},
{"std::MMap::SHARED_VALIDATE",3LL},
{"std::MMap::PRIVATE",2LL},
{"std::MMap::ANONYMOUS",32LL},
{"std::MMap::FIXED",16LL},
{"std::MMap::GROWSDOWN",256LL},
{"std::MAdv::NORMAL",0LL},
{"std::MAdv::RANDOM",1LL},
{"std::MAdv::SEQUENTIAL",2LL},
{"std::MAdv::WILLNEED",3LL},
{"std::MAdv::DONTNEED",4LL},
{"std::memory::IPC_CREAT",512LL},
{"std::memory::IPC_EXCL",1024LL},
{"std::memory::SHM_HUGETLB",2048LL},
{"std::memory::SHM_HUGE_1GB",2013265920LL},
{"std::memory::SHM_HUGE_2M",1409286144LL},
{"std::memory::SHM_NORESERVE",4096LL},
{"std::memory::SHM_REMAP",16384LL},
{"std::memory::SHM_RDONLY",4096LL},
{"std::net::INADDR_ANY",0LL},
{"std::net::INADDR_BROADCAST",4294967295LL},
{"std::net::INADDR_NONE",4294967295LL},
{"std::net::INADDR_LOOPBACK",2130706433LL},
{"std::net::INADDR_DUMMY",3221225480LL},
{"std::net::INADDR_UNSPEC_GROUP",3758096384LL},
{"std::net::INADDR_ALLHOSTS_GROUP",3758096385LL},
{"std::net::INADDR_ALLRTRS_GROUP",3758096386LL},
{"std::net::INADDR_ALLSNOOPERS_GROUP",3758096490LL},
{"std::net::INADDR_MAX_LOCAL_GROUP",3758096639LL},
{"std::process::CLONE_NEWTIME",128LL},
{"std::process::CLONE_VM",256LL},
{"std::process::CLONE_FS",512LL},
{"std::process::CLONE_FILES",1024LL},
{"std::process::CLONE_SIGHAND",2048LL},
{"std::process::CLONE_PIDFD",4096LL},
{"std::process::CLONE_PTRACE",8192LL},
{"std::process::CLONE_VFORK",16384LL},
{"std::process::CLONE_PARENT",32768LL},
{"std::process::CLONE_THREAD",65536LL},
{"std::process::CLONE_NEWNS",131072LL},
{"std::process::CLONE_SYSVSEM",262144LL},
{"std::process::CLONE_SETTLS",524288LL},
{"std::process::CLONE_PARENT_SETTID",1048576LL},
{"std::process::CLONE_CHILD_CLEARTID",2097152LL},
{"std::process::CLONE_DETACHED",4194304LL},
{"std::process::CLONE_UNTRACED",8388608LL},
{"std::process::CLONE_CHILD_SETTID",16777216LL},
{"std::process::CLONE_NEWCGROUP",33554432LL},
{"std::process::CLONE_NEWUTS",67108864LL},
{"std::process::CLONE_NEWIPC",134217728LL},
{"std::process::CLONE_NEWUSER",268435456LL},
{"std::process::CLONE_NEWPID",536870912LL},
{"std::process::CLONE_NEWNET",1073741824LL},
{"std::process::CLONE_IO",2147483648LL},
{"std::process::SIGINT",2LL},
{"std::process::SIGILL",4LL},
{"std::process::SIGABRT",6LL},
{"std::process::SIGFPE",8LL},
{"std::process::SIGSEGV",11LL},
{"std::process::SIGTERM",15LL},
{"std::process::SIGHUP",1LL},
{"std::process::SIGQUIT",3LL},
{"std::process::SIGTRAP",5LL},
{"std::process::SIGKILL",9LL},
{"std::process::SIGPIPE",13LL},
{"std::process::SIGALARM",14LL},
{"std::process::SIGSTKFLT",16LL},
{"std::process::SIGPWR",30LL},
{"std::process::SIGBUS",7LL},
{"std::process::SIGSYS",31LL},
{"std::process::SIGURG",23LL},
{"std::process::SIGSTOP",19LL},
{"std::process::SIGTSTP",20LL},
{"std::process::SIGCONT",18LL},
{"std::process::SIGCHLD",17LL},
{"std::process::SIGTTIN",21LL},
{"std::process::SIGTTOU",22LL},
{"std::process::SIGPOLL",29LL},
{"std::process::SIGXFSZ",25LL},
{"std::process::SIGXCPU",24LL},
{"std::process::SIGVTALRM",26LL},
{"std::process::SIGPROF",27LL},
{"std::process::SIGUSR1",10LL},
{"std::process::SIGUSR2",12LL},
{"std::process::SIGWINCH",28LL},
{"std::process::SIGIO",29LL},
{"std::process::SIGIOT",6LL},
{"std::process::SIGGCLD",17LL},
{"std::Syscall::POLL",7LL},
{"std::Syscall::LSEEK",8LL},
{"std::Syscall::BRK",12LL},
{"std::Syscall::IOCTL",16LL},
{"std::Syscall::ACCESS",21LL},
{"std::Syscall::PIPE",22LL},
{"std::Syscall::SELECT",23LL},
{"std::Syscall::SCHED_YIELD",24LL},
{"std::Syscall::GETPID",39LL},
{"std::Syscall::SHUTDOWN",48LL},
{"std::Syscall::SOCKETPAIR",53LL},
{"std::Syscall::EXECVE",59LL},
{"std::Syscall::UNAME",63LL},
{"std::Syscall::SHMDT",67LL},
{"std::Syscall::FCNTL",72LL},
{"std::Syscall::GETDENTS",78LL},
{"std::Syscall::GETCWD",79LL},
{"std::Syscall::RENAME",82LL},
{"std::Syscall::CREAT",85LL},
{"std::Syscall::UMASK",95LL},
{"std::Syscall::GETTIMEOFDAY",96LL},
{"std::Syscall::GETUID",102LL},
{"std::Syscall::SYSLOG",103LL},
{"std::Syscall::GETPGRP",111LL},
{"std::Syscall::GETPGID",121LL},
{"std::Syscall::GETSID",124LL},
{"std::Syscall::SIGALSTACK",131LL},
{"std::Syscall::UTIME",132LL},
{"std::Syscall::MKNOD",133LL},
{"std::Syscall::USELIB",134LL},
{"std::Syscall::PERSONALITY",135LL},
{"std::Syscall::SYSFS",139LL},
{"std::Syscall::SCHED_RR_GET_INTERVAL",148LL},
{"std::Syscall::VHANGUP",153LL},
{"std::Syscall::MODIFY_LDT",154LL},
{"std::Syscall::PIVOT_ROOT",155LL},
{"std::Syscall::SYSCTL",156LL},
{"std::Syscall::ADJTIMEX",159LL},
{"std::Syscall::SETTRLIMIT",160LL},
{"std::Syscall::CHROOT",161LL},
{"std::Syscall::SYNC",162LL},
{"std::Syscall::ACCT",163LL},
{"std::Syscall::SETTIMEOFDAY",164LL},
{"std::Syscall::REBOOT",169LL},
{"std::Syscall::GET_KERNEL_SYMS",177LL},
{"std::Syscall::QUERY_MODULE",178LL},
{"std::Syscall::QUOTACTL",179LL},
{"std::Syscall::NFSSERVTCL",180LL},
{"std::Syscall::GETPMSG",181LL},
{"std::Syscall::PUTPMSG",182LL},
{"std::Syscall::AFS_SYSCALL",183LL},
{"std::Syscall::TUXCALL",184LL},
{"std::Syscall::SECURITY",185LL},
{"std::Syscall::GETTID",186LL},
{"std::Syscall::READAHEAD",187LL},
{"std::Syscall::TKILL",200LL},
{"std::Syscall::TIME",201LL},
{"std::Syscall::FUTEX",202LL},
{"std::Syscall::SET_THREAD_AREA",205LL},
{"std::Syscall::GET_THREAD_AREA",211LL},
{"std::Syscall::LOOKUP_DCOOKIE",212LL},
{"std::Syscall::REMAP_FILE_PAGES",216LL},
{"std::Syscall::GETDENTS64",217LL},
{"std::Syscall::SET_TID_ADDRESS",218LL},
{"std::Syscall::RESTART_SYSCALL",219LL},
{"std::Syscall::SEMTIMEDOP",220LL},
{"std::Syscall::FADVISE64",221LL},
{"std::Syscall::EXIT_GROUP",231LL},
{"std::Syscall::TGKILL",234LL},
{"std::Syscall::UTIMES",235LL},
{"std::Syscall::VSERVER",236LL},
{"std::Syscall::MBIND",237LL},
{"std::Syscall::KEXEC_LOAD",246LL},
{"std::Syscall::WAITID",247LL},
{"std::Syscall::MIGRATE_PAGES",256LL},
{"std::Syscall::PSELECT6",270LL},
{"std::Syscall::PPOLL",271LL},
{"std::Syscall::UNSHARE",272LL},
{"std::Syscall::SPLICE",275LL},
{"std::Syscall::TEE",276LL},
{"std::Syscall::SYNC_FILE_RANGE",277LL},
{"std::Syscall::VMSPLICE",278LL},
{"std::Syscall::MOVE_PAGES",279LL},
{"std::Syscall::UTIMENSTAT",280LL},
{"std::Syscall::EPOLL_PWAIT",281LL},
{"std::Syscall::SIGNALFD",282LL},
{"std::Syscall::TIMERFD_CREATE",283LL},
{"std::Syscall::EVENTFD",284LL},
{"std::Syscall::FALLOCATE",285LL},
{"std::Syscall::RT_TGSIGQUEUEINFO",297LL},
{"std::Syscall::PERF_EVENT_OPEN",298LL},
{"std::Syscall::RECVMMSG",299LL},
{"std::Syscall::SYS_PRLIMIT64",302LL},
{"std::Syscall::CLOCK_ADJTIME",305LL},
{"std::Syscall::SYNCFS",306LL},
{"std::Syscall::SENDMMSG",307LL},
{"std::Syscall::SETNS",308LL},
{"std::Syscall::GETCPU",309LL},
{"std::Syscall::KCMP",312LL},
{"std::Syscall::FINIT_MODULE",313LL},
{"std::Syscall::RENAMEAT2",316LL},
{"std::Syscall::SECCOMP",317LL},
{"std::Syscall::GETRANDOM",318LL},
{"std::Syscall::MEMFD_CREATE",319LL},
{"std::Syscall::KEXEC_FILE_LOAD",320LL},
{"std::Syscall::BPF",321LL},
{"std::Syscall::EXECVEAT",322LL},
{"std::Syscall::USERFAULTFD",323LL},
{"std::Syscall::MEMBARRIER",324LL},
{"std::Syscall::MLOCK2",325LL},
{"std::Syscall::COPY_FILE_RANGE",326LL},
{"std::Syscall::STATX",332LL},
{"std::Syscall::IO_PGETEVENTS",333LL},
{"std::Syscall::RSEQ",334LL},
{"std::system::AF_UNIX",1LL},
{"std::system::AF_LOCAL",1LL},
{"std::system::AF_INET",2LL},
{"std::system::AF_AX25",3LL},
{"std::system::AF_IPX",4LL},
{"std::system::AF_APPLETALK",5LL},
{"std::system::AF_NETROM",6LL},
{"std::system::AF_BRIDGE",7LL},
{"std::system::AF_ATMPVC",8LL},
{"std::system::AF_X25",9LL},
{"std::system::AF_INET6",10LL},
{"std::system::AF_ROSE",11LL},
{"std::system::AF_DECnet",12LL},
{"std::system::AF_NETBEUI",13LL},
{"std::system::AF_SECURITY",14LL},
{"std::system::AF_KEY",15LL},
{"std::system::AF_NETLINK",16LL},
{"std::system::AF_PACKET",17LL},
{"std::system::AF_ASH",18LL},
{"std::system::AF_ECONET",19LL},
{"std::system::AF_ATMSVC",20LL},
{"std::system::AF_RDS",21LL},
{"std::system::AF_SNA",22LL},
{"std::system::AF_IRDA",23LL},
{"std::system::AF_PPPOX",24LL},
{"std::system::AF_WANPIPE",25LL},
{"std::system::AF_LLC",26LL},
{"std::system::AF_IB",27LL},
{"std::system::AF_MPLS",28LL},
{"std::system::AF_CAN",29LL},
{"std::system::AF_TIPC",30LL},
{"std::system::AF_BLUETOOTH",31LL},
{"std::system::AF_IUCV",32LL},
{"std::system::AF_RXRPC",33LL},
{"std::system::AF_ISDN",34LL},
{"std::system::AF_PHONET",35LL},
{"std::system::AF_IEEE802154",36LL},
{"std::system::AF_CAIF",37LL},
{"std::system::AF_ALG",38LL},
{"std::system::AF_NFC",39LL},
{"std::system::AF_VSOCK",40LL},
{"std::system::AF_KCM",41LL},
{"std::system::AF_QIPCRTR",42LL},
{"std::system::AF_SMC",43LL},
{"std::system::AF_XDP",44LL},
{"std::system::SOCK_STREAM",1LL},
{"std::system::SOCK_DGRAM",2LL},
{"std::system::SOCK_RAW",3LL},
{"std::system::SOCK_RDM",4LL},
{"std::system::SOCK_SEQPACKET",5LL},
{"std::system::SOCK_NONBLOCK",2048LL},
{"std::system::SOCK_CLOEXEC",524288LL},
{"std::system::MSG_OOB",1LL},
{"std::system::MSG_PEEK",2LL},
{"std::system::MSG_DONTROUTE",4LL},
{"std::system::MSG_CTRUNC",8LL},
{"std::system::MSG_PROXY",16LL},
{"std::system::MSG_TRUNC",32LL},
{"std::system::MSG_DONTWAIT",64LL},
{"std::system::MSG_EOR",128LL},
{"std::system::MSG_WAITALL",256LL},
{"std::system::MSG_FIN",512LL},
{"std::system::MSG_SYN",1024LL},
{"std::system::MSG_CONFIRM",2048LL},
{"std::system::MSG_RST",4096LL},
{"std::system::MSG_ERRQUEUE",8192LL},
{"std::system::MSG_NOSIGNAL",16384LL},
{"std::system::MSG_MORE",32768LL},
{"std::system::MSG_WAITFORONE",65536LL},
{"std::system::MSG_BATCH",262144LL},
{"std::system::MSG_ZEROCOPY",67108864LL},
{"std::system::MSG_FASTOPEN",536870912LL},
{"std::system::MSG_CMSG_CLOEXEC",1073741824LL},
{"std::system::SHUT_RD",0LL},
{"std::system::SHUT_WR",1LL},
{"std::system::SHUT_RDWR",2LL},
{"std::clock::REALTIME",0LL},
