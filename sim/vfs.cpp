// simulated file system
#include "core.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>

static map<string,InodeP> g_hostCache; // host mirror: immutable, shared between runs
static InodeP hostNode(const string&hp){ auto it=g_hostCache.find(hp); if(it!=g_hostCache.end()) return it->second; struct stat st; if(lstat(hp.c_str(),&st)) { g_hostCache[hp]=nullptr; return nullptr; } auto n=make_shared<Inode>(); n->host=true; n->hostPath=hp; n->uid=0; n->ino=1000000000ULL+(hstr(hp)&0xffffffffff); n->mode=st.st_mode&0777; n->mtime=1600000000; n->durable=true;
  if(S_ISDIR(st.st_mode)) n->type=IT_DIR; else if(S_ISLNK(st.st_mode)){ n->type=IT_LNK; char b[4096]; ssize_t r=readlink(hp.c_str(),b,sizeof b); n->link.assign(b,r>0?r:0); } else if(S_ISREG(st.st_mode)){ n->type=IT_REG; n->hostSize=st.st_size; } else n=nullptr; g_hostCache[hp]=n; return n; }
const string& Inode::content(){ static const string e; if(host&&!hostLoaded){ hostLoaded=true; data=make_shared<string>(); readHost(hostPath,*data); } return data?*data:e; }
string& Inode::wcontent(){ content(); if(!data) data=make_shared<string>(); else if(data.use_count()>1) data=make_shared<string>(*data); return *data; }
u64 Inode::size(){ if(host&&!hostLoaded&&type==IT_REG) return hostSize; return type==IT_DIR?4096:type==IT_LNK?link.size():content().size(); }
OpenFile::~OpenFile(){ if(onFree) onFree(); if(t==F_PIPE_R&&pipe) pipe->readers--; if(t==F_PIPE_W&&pipe) pipe->writers--; if(t==F_SOCK&&sock&&sock->self){ /* closed in close() path via Sim::sockClose */ sock->st=4; if(sock->peer&&!sock->external){} } }

InodeP Sim::newInode(IType t){ auto n=make_shared<Inode>(); n->type=t; n->ino=inoNext++; n->mtime=(realtime())/1000000000ULL; if(t==IT_DIR) n->mode=0755; return n; }
void Sim::boot(){ root=newInode(IT_DIR); root->durable=true; for(auto d:{"dev","tmp","home","etc","proc","work"}) mkdirp(string("/")+d); auto chr=[&](const char*p,int d){ auto n=newInode(IT_CHR); n->dev=d; n->mode=0666; InodeP par=lookup("/dev"); par->ents[p]=n; }; chr("null",1); chr("zero",2); chr("urandom",3); chr("random",3); chr("tty",4);
  mountHost("/usr","/usr"); mountHost("/lib","/lib"); mountHost("/lib64","/lib64"); mountHost("/bin","/bin"); mountHost("/etc/ld.so.cache","/etc/ld.so.cache"); mountHost("/std",g_build+"/std"); for(auto base:{"/usr/share","/usr/local/share"}) if(InodeP sh=hostNode(base)){ auto d=newInode(IT_DIR); d->ents["std"]=d->durEnts["std"]=hostNode(g_build+"/std"); sh->ents["cspydr"]=d; } }
void Sim::mountHost(const string&sp,const string&hp){ InodeP n=hostNode(hp); if(!n) return; size_t s=sp.rfind('/'); InodeP par=s?mkdirp(sp.substr(0,s)):root; par->ents[sp.substr(s+1)]=n; par->durEnts[sp.substr(s+1)]=n; }
InodeP Sim::mkdirp(const string&path){ InodeP n=root; for(auto&c:split(path,'/')){ if(c.empty()) continue; auto it=n->ents.find(c); if(it==n->ents.end()){ auto d=newInode(IT_DIR); d->durable=true; n->ents[c]=d; n->durEnts[c]=d; n=d; } else n=it->second; } return n; }
InodeP Sim::mkfile(const string&path,const string&data,u32 mode){ size_t s=path.rfind('/'); InodeP par=mkdirp(path.substr(0,s)); auto n=newInode(IT_REG); n->mode=mode; n->data=make_shared<string>(data); n->durData=n->data; n->durable=true; n->created=path; par->ents[path.substr(s+1)]=n; par->durEnts[path.substr(s+1)]=n; return n; }
InodeP Sim::symlink(const string&path,const string&to){ size_t s=path.rfind('/'); InodeP par=mkdirp(path.substr(0,s)); auto n=newInode(IT_LNK); n->link=to; n->durable=true; par->ents[path.substr(s+1)]=n; par->durEnts[path.substr(s+1)]=n; return n; }
static InodeP child(const InodeP&d,const string&n){ auto it=d->ents.find(n); if(it!=d->ents.end()) return it->second; if(d->host) return hostNode(d->hostPath+"/"+n); return nullptr; }
InodeP Sim::lookup(const string&path,bool follow){ InodeP n,par; string nm; long r=resolve(nullptr,-100,path,follow,n,par,nm); return r?nullptr:n; }
bool Sim::readFile(const string&path,string&o){ InodeP n=lookup(path); if(!n||n->type!=IT_REG) return false; o=n->content(); return true; }
map<string,string> Sim::snapshot(const string&path){ map<string,string> r; std::function<void(InodeP,string)> w=[&](InodeP n,string p){ if(n->host){ if(n->type==IT_DIR||n->type==IT_REG) return; } if(n->type==IT_DIR){ r[p+"/"]="dir"; for(auto&e:n->ents) w(e.second,p+"/"+e.first); } else if(n->type==IT_REG) r[p]="f:"+n->content(); else if(n->type==IT_LNK) r[p]="l:"+n->link; else r[p]="special"; }; InodeP n=lookup(path,false); if(n) w(n,path=="/"?"":path); return r; }

// resolve a path; node may be null while parent/name are set (last component missing)
long Sim::resolve(Proc*p,int dirfd,const string&path,bool follow,InodeP&node,InodeP&parent,string&name,string*full){
  if(path.empty()){ rParentOp=rTrailEnd=rTrail=false; rLast=0; return -ENOENT; } if(path.size()>4095) return -ENAMETOOLONG; InodeP cur; vector<string> names; vector<InodeP> stack; 
  auto pushAbs=[&](const string&ap){ InodeP n=root; stack={root}; names.clear(); for(auto&c:split(ap,'/')){ if(c.empty()) continue; n=child(n,c); if(!n) break; stack.push_back(n); names.push_back(c);} };
  if(path[0]=='/'){ stack={root}; } else if(dirfd==-100||!p){ if(!p){ stack={root}; } else { pushAbs(p->cwdPath); } } else { FileP f=getF(p,dirfd); if(!f) return -EBADF; if(f->t!=F_INODE||f->ino->type!=IT_DIR) return -ENOTDIR; pushAbs(f->path); }
  std::deque<string> todo; for(auto&c:split(path,'/')) if(!c.empty()) todo.push_back(c); bool trailing=path.size()>1&&path.back()=='/'; int links=0; rTrail=trailing; rTrailEnd=false; bool pop=rParentOp; rParentOp=false; rLast=todo.empty()?1:todo.back()=="."?1:todo.back()==".."?2:0; node=stack.back(); parent=nullptr; name="";
  while(!todo.empty()){ string c=todo.front(); todo.pop_front(); InodeP d=stack.back(); if(d->type!=IT_DIR) return -ENOTDIR; if(c.size()>255) return -ENAMETOOLONG; if(c=="."){ node=d; continue; } if(c==".."){ if(stack.size()>1){ stack.pop_back(); names.pop_back(); } node=stack.back(); parent=nullptr; name=".."; continue; }
    if(p&&c=="self"&&names.size()==1&&names[0]=="proc") { return -ENOENT; }
    InodeP n=child(d,c); if(!n){ if(todo.empty()){ node=nullptr; parent=d; name=c; if(full){ string s; for(auto&x:names) s+="/"+x; *full=s+"/"+c; } if(trailing&&false) return -ENOENT; return 0; } return -ENOENT; }
    if(n->type==IT_LNK&&(!todo.empty()||follow||(trailing&&!pop))){ if(++links>40) return -ELOOP; auto parts=split(n->link,'/'); if(!n->link.empty()&&n->link[0]=='/'){ stack={root}; names.clear(); } for(size_t i=parts.size();i-->0;) if(!parts[i].empty()) todo.push_front(parts[i]); node=stack.back(); continue; }
    parent=d; name=c; node=n; stack.push_back(n); names.push_back(c); }
  if(trailing&&node&&node->type!=IT_DIR){ rTrailEnd=true; return -ENOTDIR; } if(full){ string s; for(auto&x:names) s+="/"+x; *full=s.empty()?"/":s; } return 0; }
string Sim::pathOf(Proc*p,int dirfd,const string&path){ InodeP a,b; string n,f; resolve(p,dirfd,path,true,a,b,n,&f); return f.empty()?path:f; }
void Sim::mut(Proc*p,const string&op,const string&path){ muts.push_back({p?p->vpid:0,op,path}); }
void Sim::lastClose(InodeP n,bool w){ notify(n,w?IN_CLOSE_WRITE:IN_CLOSE_NOWRITE); if(n->nlink<=0){ for(auto q:procs) for(auto&fe:q->fds) if(fe.second.f&&fe.second.f->ino==n) return; notify(n,IN_DELETE_SELF); notify(n,IN_IGNORED); } }
void Sim::notify(InodeP n,u32 mask){ set<Inotify*> seen; for(auto p:procs) for(auto&fe:p->fds){ auto&f=fe.second.f; if(!f||f->t!=F_INOTIFY||!seen.insert(f->inot.get()).second) continue; for(auto&w:f->inot->watches) if(w.active&&w.ino==n&&((w.mask&mask)||(mask&IN_IGNORED))){ struct inotify_event e{}; e.wd=w.wd; e.mask=mask; string s((char*)&e,sizeof e); if(f->inot->q.empty()||f->inot->q.back()!=s) f->inot->q.push_back(s); if(mask&IN_IGNORED) w.active=false; } } }
FileP Sim::capture(shared_ptr<Capture>&c,const string&name){ c=make_shared<Capture>(); c->name=name; auto f=make_shared<OpenFile>(); f->t=F_CAPTURE; f->cap=c; f->flags=O_WRONLY; f->path=name; f->id=++fileId; return f; }
FileP Sim::script(const string&d){ auto f=make_shared<OpenFile>(); f->t=F_SCRIPT; f->scr=make_shared<Script>(); f->scr->data=d; f->path="stdin"; f->id=++fileId; return f; }
FileP Sim::devnull(){ auto f=make_shared<OpenFile>(); f->t=F_NULL; f->path="/dev/null"; f->flags=O_RDWR; f->id=++fileId; return f; }
FileP Sim::ttyFile(){ if(!tty){ tty=make_shared<Tty>(); memset(tty->termios,0,sizeof tty->termios); } auto f=make_shared<OpenFile>(); f->t=F_TTY; f->tty=tty; f->path="/dev/tty"; f->flags=O_RDWR; f->id=++fileId; return f; }
FileP Sim::getF(Proc*p,int fd){ auto it=p->fds.find(fd); return it==p->fds.end()?nullptr:it->second.f; }
int Sim::newFd(Proc*p,FileP f,bool ce,int min){ int fd=min; while(p->fds.count(fd)) fd++; if(fd>=p->rlimNofile) return -EMFILE; p->fds[fd]={f,ce}; return fd; }

static void syncTree(InodeP n){ if(n->host) return; n->durable=true; if(n->type==IT_REG) n->durData=n->data; if(n->type==IT_DIR){ n->durEnts=n->ents; for(auto&e:n->ents) syncTree(e.second); } }
void Sim::syncAll(){ syncTree(root); }
// Power loss: what was written since the last sync survives in full, in part, torn, or not at all, independently per file and per directory entry.
void Sim::powerLoss(){ u64 k=0; std::function<void(InodeP,string)> w=[&](InodeP n,string p){ if(n->host) return; 
    if(n->type==IT_DIR){ set<string> names; for(auto&e:n->ents) names.insert(e.first); for(auto&e:n->durEnts) names.insert(e.first); for(auto&nm:names){ auto a=n->ents.find(nm), b=n->durEnts.find(nm); InodeP ai=a==n->ents.end()?nullptr:a->second, bi=b==n->durEnts.end()?nullptr:b->second; if(ai!=bi){ u64 v=param("plent",k++,2); if(v==1){ if(bi) n->ents[nm]=bi; else n->ents.erase(nm); out.faults["power_loss_entry_lost"]++; } } } for(auto&e:n->ents) w(e.second,p+"/"+e.first); n->durEnts=n->ents; n->durable=true; return; }
    if(n->type==IT_REG){ if(n->data!=n->durData){ const string cur=n->content(); string old=n->durData?*n->durData:string(); u64 v=param("plfile",k++,5); string r=cur; if(v==1){ r=old; out.faults["power_loss_data_lost"]++; } else if(v==2){ r=cur.substr(0,param("plcut",k,cur.size()+1)); out.faults["power_loss_truncated"]++; } else if(v==3){ r=cur; size_t from=param("plcut",k,cur.size()+1); for(size_t i=from;i<r.size();i++) r[i]=0; out.faults["power_loss_zero_tail"]++; } else if(v==4){ r=""; out.faults["power_loss_empty"]++; } n->data=make_shared<string>(r); n->durData=n->data; log("powerloss "+p+strf(" kind %llu %zu->%zu",(unsigned long long)v,cur.size(),r.size())); } n->durable=true; } };
  w(root,""); }
