// `sim try HOSTPROGRAM [args…]`: runs any program on the simulated kernel and prints what it wrote.
// Used to compare the kernel model with the real one; no check depends on it.
#include "comp.h"
int tryProgram(int argc,char**argv){ Case c; c.prop="try"; c.forced=true; c.set("pswitch",string("0")); Outcome o; Sim s(c,o); string res; try { s.boot(); World w(s,c); s.mountHost("/opt/try",argv[0]); s.lookup("/opt/try")->mode=0755; vector<string> av; for(int i=1;i<argc;i++) av.push_back(argv[i]); s.mkdirp("/tmp/empty"); Inv*i=w.start("/opt/try","/tmp/empty",av); s.run(); printf("%s",i->out->data.c_str()); fflush(stdout); fprintf(stderr,"%s",i->err->data.c_str()); fprintf(stderr,"status %x ended %d\n",i->status,i->ended); s.killAll(); } catch(SimError&e){ printf("simulator: %s\n",e.m.c_str()); return 2; } if(o.error) printf("error: %s\n",o.errmsg.c_str()); return 0; }
