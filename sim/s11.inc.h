static const struct { const char*name; int field; u32 bit; } kFl[]={{"IGNBRK",0,01},{"BRKINT",0,02},{"IGNPAR",0,04},{"PARMRK",0,010},{"INPCK",0,020},{"ISTRIP",0,040},{"INLCR",0,0100},{"IGNCR",0,0200},{"IGNNL",0,0400},{"IUCLC",0,01000},{"IXON",0,02000},{"IXANY",0,04000},{"IXOFF",0,010000},{"IMAXBEL",0,020000},{"IUTF8",0,040000},{"OPOST",1,01},{"OLCUC",1,02},{"ONLCR",1,04},{"ONRNL",1,010},{"ONLRET",1,040},{"OFILL",1,0100},{"OFDEL",1,0200},{"VTDLY",1,040000},{"VT1",1,040000},{"CSIZE",2,060},{"CS6",2,020},{"CS7",2,040},{"CS8",2,060},{"CSTOPB",2,0100},{"CREAD",2,0200},{"PARENB",2,0400},{"PARODD",2,01000},{"HUPCL",2,02000},{"CLOCAL",2,04000},{"ISIG",3,01},{"ECHO",3,010},{"ECHOE",3,020},{"ECHOK",3,040},{"ECHONL",3,0100},{"NOFLSH",3,0200},{"TOSTOP",3,0400},{"IEXTEN",3,0100000},{"EXTPROC",3,0200000}};
static const char*kCc[]={"VINTR","VQUIT","VERASE","VKILL","VEOF","VTIME","VMIN","VSWTC","VSTART","VSTOP","VSUSP","VEOL","VREPRINT","VDISCARD","VWERASE","VLNEXT","VEOL2"};
