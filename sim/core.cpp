#include "core.h"
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <cstdarg>
#include <algorithm>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <execinfo.h>
#include <sys/uio.h>

World*W=nullptr; Sim*S=nullptr; Proc*P=nullptr; Stats ST; u64 g_trace=0; bool g_verbose=false; u64 g_fill=0xA5; u64 g_seq=0;
bool g_acclog=false; string g_dbpath="/home/u/.mairix_db", g_mailroot="/home/u/mail", g_outroot="/home/u/out";
u64 g_steplimit=3000000;

u64 hstr(const string&s,u64 h){ for(unsigned char c:s){ h^=c; h*=1099511628211ULL;} return h; }

// ------------------------------------------------------------------ VFS
World::World(){ now=1234567890LL*1000000000LL; imap=std::make_shared<ImapState>(); root=mk(I_DIR,0755); root->nlink=1; }
IP World::mk(IType t,int mode){ IP i=std::make_shared<Inode>(); i->id=nextino++; i->type=t; i->mode=mode; i->mtime=now; if(journal){i->jnew=true;i->jtouched=true;} return i; }
static IP clone_i(const IP&i,map<Inode*,IP>&m){
  auto it=m.find(i.get()); if(it!=m.end()) return it->second;
  IP n=std::make_shared<Inode>(); m[i.get()]=n;
  n->id=i->id;n->type=i->type;n->mode=i->mode;n->mtime=i->mtime;n->nlink=i->nlink;n->data=i->data;n->target=i->target;n->mail=i->mail;
  for(auto&e:i->ents){ IP c=clone_i(e.second,m); n->ents[e.first]=c; if(c->type==I_DIR)c->parent=n.get(); }
  return n;
}
std::shared_ptr<World> World::clone() const {
  auto w=std::make_shared<World>(); w->nextino=nextino; w->now=now; w->dirseed=dirseed; w->quota=quota; w->tquota=tquota; w->host=host; w->nofile=nofile; w->lockowner=lockowner;
  map<Inode*,IP> m; w->root=clone_i(root,m); if(imap)w->imap=std::make_shared<ImapState>(*imap); return w;
}
IP World::lookup(const string&path,bool follow,string*abs){
  IP cur=root; vector<std::pair<string,IP>> st; string rest=path; int links=0;
  if(path.empty()||path[0]!='/') rest="/home/u/"+path;
  size_t p=0;
  while(true){
    while(p<rest.size()&&rest[p]=='/')p++;
    if(p>=rest.size())break;
    size_t q=rest.find('/',p); if(q==string::npos)q=rest.size();
    string c=rest.substr(p,q-p); bool last=rest.find_first_not_of('/',q)==string::npos; p=q;
    if(c==".")continue;
    if(c==".."){ if(!st.empty())st.pop_back(); cur=st.empty()?root:st.back().second; continue; }
    if(cur->type!=I_DIR)return nullptr;
    auto it=cur->ents.find(c); if(it==cur->ents.end())return nullptr;
    IP n=it->second;
    if(n->type==I_LNK&&(!last||follow)){
      if(++links>20)return nullptr;
      string t=n->target; if(t.empty())return nullptr;
      rest=t+rest.substr(p); p=0;
      if(t[0]=='/'){ st.clear(); cur=root; }
      continue;
    }
    st.push_back({c,n}); cur=n;
  }
  if(abs){ abs->clear(); for(auto&x:st)*abs+="/"+x.first; if(abs->empty())*abs="/"; }
  return cur;
}
IP World::dirof(const string&path,string&leaf){
  string p=path; while(p.size()>1&&p.back()=='/')p.pop_back();
  size_t k=p.rfind('/'); if(k==string::npos){ leaf=p; return lookup("/home/u"); }
  leaf=p.substr(k+1); return lookup(k?p.substr(0,k):"/");
}
void World::mkdirs(const string&p,int mode){
  size_t k=1; while(true){ size_t q=p.find('/',k); string s=p.substr(0,q); if(s.size()&&!lookup(s)){ string l; IP d=dirof(s,l); IP n=mk(I_DIR,mode); n->nlink=1; n->parent=d.get(); d->ents[l]=n; d->mtime=now; } if(q==string::npos)break; k=q+1; }
}
static vector<FILE*> byfd(Proc*p){ vector<std::pair<int,FILE*>> v; for(FILE*f:p->files){ auto i=p->ffd.find(f); v.push_back({i==p->ffd.end()?-1:i->second,f}); } std::sort(v.begin(),v.end()); vector<FILE*> r; for(auto&x:v)r.push_back(x.second); return r; }
static void refresh_maps(Inode*i);
static void sync_maps(Inode*i);
void World::setdata(IP i,const string&d){ sync_maps(i.get()); jtouch(i.get()); i->data=d; refresh_maps(i.get()); }
void World::put(const string&path,const string&data,i64 mtime){
  string l; IP d=dirof(path,l); if(!d)return; IP i; auto it=d->ents.find(l);
  if(it!=d->ents.end()&&it->second->type==I_REG&&atomicput&&data.compare(0,it->second->data.size(),it->second->data)){ bool m=it->second->mail; int md=it->second->mode; it->second->nlink--; i=mk(I_REG,md); i->nlink=1; i->mail=m; it->second=i; d->mtime=now; }
  else if(it!=d->ents.end()&&it->second->type==I_REG) i=it->second; else { i=mk(I_REG,0644); i->nlink=1; d->ents[l]=i; d->mtime=now; i->mail=d->mail; }
  setdata(i,data); i->mtime=mtime>=0?mtime:now;
}
bool World::get(const string&path,string&out){ IP i=lookup(path); if(!i||i->type!=I_REG)return false; sync_maps(i.get()); out=i->data; return true; }
bool World::rm(const string&path){ string l; IP d=dirof(path,l); if(!d)return false; auto it=d->ents.find(l); if(it==d->ents.end())return false; it->second->nlink--; d->ents.erase(it); d->mtime=now; return true; }
bool World::mv(const string&a,const string&b){ string la,lb; IP da=dirof(a,la),db=dirof(b,lb); if(!da||!db||!da->ents.count(la))return false; IP i=da->ents[la]; da->ents.erase(la); da->mtime=now; if(db->ents.count(lb))db->ents[lb]->nlink--; db->ents[lb]=i; db->mtime=now; if(i->type==I_DIR)i->parent=db.get(); return true; }
void World::symlink(const string&t,const string&path){ string l; IP d=dirof(path,l); IP i=mk(I_LNK,0777); i->target=t; i->nlink=1; d->ents[l]=i; d->mtime=now; }
vector<string> World::ls(const string&p){ vector<string> r; IP d=lookup(p); if(d)for(auto&e:d->ents)r.push_back(e.first); return r; }
void World::walk(const string&path,std::function<void(const string&,Inode*)> f){
  IP i=lookup(path,false); if(!i)return; f(path,i.get());
  if(i->type==I_DIR){ vector<string> n; for(auto&e:i->ents)n.push_back(e.first); for(auto&x:n)walk(path+"/"+x,f); }
}
u64 World::treehash(const string&path,bool mt){
  u64 h=7; walk(path,[&](const string&p,Inode*i){ sync_maps(i); h=hcomb(h,hstr(p)); h=hcomb(h,i->type); h=hcomb(h,i->mode); h=hcomb(h,hstr(i->data)); h=hcomb(h,hstr(i->target)); if(mt&&i->type==I_REG)h=hcomb(h,i->mtime); }); return h;
}
// durability -------------------------------------------------------
void World::jbegin(){ journal=true; jlog.clear(); walk("/",[&](const string&,Inode*i){ i->jtouched=false; i->jnew=false; i->sdata.clear(); }); }
void World::jtouch(Inode*i){ if(journal&&!i->jtouched){ i->jtouched=true; i->sdata=i->data; } }
void World::jlogev(int k,IP d,const string&n,IP i,size_t sz){ if(journal)jlog.push_back({k,d,n,i,sz,nullptr,"",nullptr}); }
void World::powerloss(u64 seed){
  Rng r(seed);
  // every inode reachable now or in the log
  struct ById{ bool operator()(const Inode*a,const Inode*b)const{ return a->id<b->id; } }; set<Inode*,ById> touched; for(auto&e:jlog){ if(e.ino)touched.insert(e.ino.get()); if(e.ino2)touched.insert(e.ino2.get()); }
  walk("/",[&](const string&,Inode*i){ if(i->jtouched)touched.insert(i); });
  for(auto*i:touched) sync_maps(i);
  // metadata: choose how much of the log after the last barrier survived (in order)
  size_t lo=0; for(size_t k=0;k<jlog.size();k++) if(jlog[k].kind==3) lo=k+1;
  size_t keep=lo+r.below(jlog.size()-lo+1);
  map<Inode*,size_t> dsize; map<Inode*,bool> hassz;
  // undo metadata events beyond keep, newest first
  for(size_t k=jlog.size();k-->keep;){ JEvent&e=jlog[k];
    if(e.kind==0){ e.dir->ents.erase(e.name); e.ino->nlink--; }
    else if(e.kind==1){ e.dir->ents[e.name]=e.ino; e.ino->nlink++; }
    else if(e.kind==4){ if(e.ino2){ e.dir2->ents[e.name2]=e.ino2; e.ino2->nlink++; } else e.dir2->ents.erase(e.name2); e.dir->ents[e.name]=e.ino; }
    ST.probes["powerloss_undone_meta"]++;
  }
  for(auto*i:touched){
    if(i->type!=I_REG||!i->jtouched)continue;
    string base=i->sdata, cur=i->data; if(base==cur)continue;
    // durable size: last setsize event within keep, else the synced size
    size_t sz=base.size(); for(size_t k=0;k<keep;k++) if(jlog[k].kind==2&&jlog[k].ino.get()==i&&k>=0) sz=jlog[k].size;
    // after a barrier on this inode sdata==data at that time, so sizes in the log before it agree
    string res(sz,'\0');
    for(size_t off=0;off<sz;off+=4096){ size_t n=std::min<size_t>(4096,sz-off);
      bool usenew=r.chance(1,2);
      const string&s=usenew?cur:base; for(size_t j=0;j<n;j++) res[off+j]= off+j<s.size()? s[off+j]:'\0';
      if(!usenew) ST.probes["powerloss_lost_page"]++; else ST.probes["powerloss_kept_page"]++;
    }
    i->data=res;
  }
  journal=false; jlog.clear();
}
// mappings ----------------------------------------------------------
static vector<std::pair<char*,size_t>> g_mappool;
static const size_t MP=16; // pages per pool slot (without guard)
static char* map_alloc(size_t pages){
  if(pages<=MP&&g_mappool.size()>32){ char*a=g_mappool.front().first; g_mappool.erase(g_mappool.begin()); mprotect(a,pages*4096,PROT_READ|PROT_WRITE); return a; }
  size_t n=pages<=MP?MP:pages; char*a=(char*)mmap(nullptr,(n+1)*4096,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(a==(char*)MAP_FAILED){ perror("mmap"); abort(); } mprotect(a,pages*4096,PROT_READ|PROT_WRITE); return a;
}
static void map_release(char*a,size_t pages){ if(pages<=MP){ mprotect(a,MP*4096,PROT_NONE); g_mappool.push_back({a,MP}); } else munmap(a,(pages+1)*4096); }
static void sync_maps(Inode*i){ for(auto*m:i->maps) if(m->shared&&m->writable){ size_t lim=i->data.size(); if(m->off>=lim)continue; size_t n=std::min(m->len,lim-m->off); if(m->okpages!=(size_t)-1)n=std::min(n,m->okpages*4096);
    if(memcmp(&i->data[m->off],m->addr,n)){ W->jtouch(i); memcpy(&i->data[m->off],m->addr,n); i->mtime=W->now; } } }
static void refresh_maps(Inode*i){ for(auto*m:i->maps) if(m->shared){ size_t lim=i->data.size(); size_t valid=m->off<lim?std::min(m->pages*4096,lim-m->off):0; size_t vp=(valid+4095)/4096;
    mprotect(m->addr,m->pages*4096,PROT_READ|PROT_WRITE);
    if(valid)memcpy(m->addr,&i->data[m->off],valid); if(vp*4096>valid)memset(m->addr+valid,0,vp*4096-valid);
    if(m->okpages<vp)vp=m->okpages; if(vp<m->pages)mprotect(m->addr+vp*4096,(m->pages-vp)*4096,PROT_NONE); } }
static void unmap_one(Proc*p,Mapping*m){ sync_maps(m->ino.get()); auto&v=m->ino->maps; v.erase(std::remove(v.begin(),v.end(),m),v.end()); auto&q=p->maps; q.erase(std::remove(q.begin(),q.end(),m),q.end()); map_release(m->addr,m->pages); delete m; }

// ------------------------------------------------------------------ processes
extern "C" { extern char __start_mxdata[], __stop_mxdata[]; int mairix_main(int,char**,char**); FILE*sim_stdout,*sim_stderr,*sim_stdin; }
static vector<char> g_pristine; static ucontext_t g_sched; static Proc*g_loaded=nullptr;
static const size_t STK=512*1024, HEAP=192u<<20; static const int NSLOT=6; static char*g_stk[NSLOT],*g_heap[NSLOT]; static bool g_slotused[NSLOT]; static size_t g_heapdirty[NSLOT];
string Proc::status() const { char b[400]; if(!done)return "running"; if(hang)return "HANG"; if(termsig)snprintf(b,sizeof b,"signal %d%s%s",termsig,deathnote.empty()?"":" ",deathnote.c_str()); else snprintf(b,sizeof b,"exit %d",exitcode); string r=b; if(!heapbug.empty())r+=" HEAPBUG "+heapbug; return r; }
Proc::~Proc(){ }

static void g_save(Proc*p){ if(!p)return; p->globals.assign(__start_mxdata,__stop_mxdata); }
static void g_load(Proc*p){ if(p->globals.empty()) memcpy(__start_mxdata,g_pristine.data(),g_pristine.size()); else memcpy(__start_mxdata,p->globals.data(),p->globals.size()); sim_stdout=p->fout; sim_stderr=p->ferr; sim_stdin=p->fin; }

static void to_sched(){ Proc*p=P; p->serrno=errno; swapcontext(&p->ctx,&g_sched); errno=p->serrno; }
static void heap_check_all(Proc*p);
[[noreturn]] static void die(){ P->done=true; P->blocked=false; setcontext(&g_sched); abort(); }
static void release_proc(Proc*p){
  p->discard=true; Proc*sv=P; P=p;
  if(p->closing){ p->files.erase(p->closing); p->closing=nullptr; }
  for(FILE*f:byfd(p)) fclose(f);
  p->files.clear(); if(p->fout)fclose(p->fout); if(p->ferr)fclose(p->ferr); if(p->fin)fclose(p->fin); p->fout=p->ferr=p->fin=nullptr;
  for(auto*m:vector<Mapping*>(p->maps)) unmap_one(p,m);
  for(auto&f:p->fds) if(f.second->net>=0) net_close(f.second->net);
  p->fds.clear();
  for(void*d:p->dirs) { extern void dir_free(void*); dir_free(d); } p->dirs.clear();
  for(auto&b:p->big) munmap(b.first,b.second); p->big.clear();
  if(p->slot>=0){ g_slotused[p->slot]=false; size_t used=p->hcur-p->hbase; if(used>(4u<<20)) madvise(p->hbase,used,MADV_DONTNEED); p->slot=-1; }
  P=sv; p->globals.clear(); p->globals.shrink_to_fit(); p->hfree.clear();
}
static void proc_finish(int code){ // orderly exit: flush stdio
  Proc*p=P; p->exiting=true; heap_check_all(p);
  vector<FILE*> fs=byfd(p);
  fflush(p->fout); fflush(p->ferr);
  for(FILE*f:fs){ if(!p->files.count(f))continue; p->closing=f; fclose(f); p->closing=nullptr; p->files.erase(f); }
  p->exitcode=code&0xff; die();
}
static void tramp(){ Proc*p=P; vector<char*> av; 
  static char*argvbuf[NSLOT][64]; char**a=argvbuf[p->slot]; int n=0; extern void*heap_alloc(Proc*,size_t);
  for(auto&s:p->argv){ if(n>=63)break; char*q=(char*)heap_alloc(p,s.size()+1); memcpy(q,s.c_str(),s.size()+1); a[n++]=q; } a[n]=nullptr;
  int r=mairix_main(n,a,nullptr); proc_finish(r); }

static void on_fault(int sig,siginfo_t*si,void*uc){
  if(!P){ if(sig==SIGVTALRM)return; signal(sig,SIG_DFL); raise(sig); return; }
  Proc*p=P; 
  if(sig==SIGVTALRM){ // cpu watchdog
    p->cpu++; if(p->cpu<20) return; p->hang=true; p->termsig=9; p->deathnote="cpu loop"; }
  else { p->termsig=sig==SIGBUS?7:sig; // an access beyond end of a mapped file is SIGBUS in reality
    ucontext_t*u=(ucontext_t*)uc; char b[100]; for(auto*m:p->maps) if((char*)si->si_addr>=m->addr&&(char*)si->si_addr<m->addr+(m->pages+1)*4096) p->termsig=7;
    snprintf(b,sizeof b,"(memory fault)"); p->deathnote=b; (void)u; 
    if(g_verbose) fprintf(stderr,"  [fault pid %d sig %d ip %p addr %p]\n",p->pid,sig,(void*)u->uc_mcontext.gregs[REG_RIP],si->si_addr); }
  p->done=true; p->blocked=false; setcontext(&g_sched);
}
void sim_init(){
  static bool d=false; if(d)return; d=true;
  setenv("TZ","UTC",1); tzset();
  g_pristine.assign(__start_mxdata,__stop_mxdata);
  for(int i=0;i<NSLOT;i++){
    g_stk[i]=(char*)mmap((void*)(0x10000000000ULL+i*0x10000000ULL),STK+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE,-1,0); mprotect(g_stk[i],4096,PROT_NONE);
    g_heap[i]=(char*)mmap((void*)(0x20000000000ULL+i*0x10000000ULL),HEAP,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE|MAP_NORESERVE,-1,0);
    if(g_stk[i]==MAP_FAILED||g_heap[i]==MAP_FAILED){ perror("mmap slot"); exit(3);} }
  stack_t ss; ss.ss_sp=malloc(65536); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_fault; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; sigemptyset(&sa.sa_mask);
  sigaction(SIGSEGV,&sa,nullptr); sigaction(SIGBUS,&sa,nullptr); sigaction(SIGFPE,&sa,nullptr); sigaction(SIGILL,&sa,nullptr); sigaction(SIGVTALRM,&sa,nullptr);
  struct itimerval it={{1,0},{1,0}}; setitimer(ITIMER_VIRTUAL,&it,nullptr);
}
static int g_nextpid=4000;
PP mkproc(const vector<string>&argv){ PP p=std::make_shared<Proc>(); p->argv=argv; p->pid=g_nextpid++; static int uid=0; p->uid=++uid; if(g_nextpid>30000)g_nextpid=4000; p->env["HOME"]="/home/u"; return p; }
int get_pids(){ return g_nextpid; } void set_pids(int n){ g_nextpid=n; }
void reset_pids(u64 base){ g_nextpid=4000+(int)(base%20000); }

static void deliver_signals();
// writing to a pipe or connection whose other end is gone
static int broken_pipe(Proc*p,const char*what){ ST.faults["sigpipe"]++; p->pend|=1<<SIGPIPE; for(auto&f:p->faults)if(f.kind==F_PIPE&&f.where.empty())f.where=what; if(!p->insig&&!p->exiting)deliver_signals(); return EPIPE; }
static ssize_t ck_out(void*c,const char*b,size_t n){ Proc*p=(Proc*)c; if(p->discard)return n; for(auto&f:p->faults) if(f.kind==F_PIPE&&(i64)(p->out.size()+n)>f.at){ f.fired=true; if(f.arg==1){ if(f.where.empty())ST.faults["stdout-full"]++; f.where="standard output full"; errno=ENOSPC; return 0; } if(P==p&&!p->done){ errno=broken_pipe(p,"reader of stdout gone"); } return 0; } p->out.append(b,n); return n; }
static ssize_t ck_err(void*c,const char*b,size_t n){ Proc*p=(Proc*)c; if(!p->discard) p->err.append(b,n); return n; }
static ssize_t ck_eof(void*,char*,size_t){ return 0; }
static void start_proc(Proc*p){
  int s=-1; for(int i=0;i<NSLOT;i++)if(!g_slotused[i]){s=i;break;} if(s<0){fprintf(stderr,"no slot\n");abort();}
  g_slotused[s]=true; p->slot=s; p->stack=g_stk[s]; memset(p->stack+4096,(int)(g_fill>>8)&0xff,STK);
  p->hbase=p->hcur=g_heap[s]; p->hend=g_heap[s]+HEAP;
  cookie_io_functions_t o={nullptr,ck_out,nullptr,nullptr}, e={nullptr,ck_err,nullptr,nullptr}, in={ck_eof,nullptr,nullptr,nullptr};
  p->fout=fopencookie(p,"w",o); p->ferr=fopencookie(p,"w",e); setvbuf(p->ferr,nullptr,_IONBF,0); p->fin=fopencookie(p,"r",in);
  getcontext(&p->ctx); p->ctx.uc_stack.ss_sp=p->stack+4096; p->ctx.uc_stack.ss_size=STK; p->ctx.uc_link=nullptr; makecontext(&p->ctx,(void(*)())tramp,0);
  p->started=true; ST.procs++;
}
static void resume(Proc*p){
  if(!p->started) start_proc(p);
  g_load(p); P=p; p->cpu=0; swapcontext(&g_sched,&p->ctx);
  P=nullptr; if(!p->done) g_save(p); else release_proc(p);
}
void Sim::run(){
  Sim*sv=S; S=this; Proc*svP=P; 
  for(size_t i=0;i<procs.size();i++)procs[i]->id=(int)i;
  size_t cur=0; i64 t0=W->now;
  while(true){
    size_t n=procs.size(), i; bool any=false,found=false;
    for(size_t k=0;k<n;k++){ i=(cur+k)%n; Proc*p=procs[i].get(); if(p->done)continue; any=true; if(p->blocked&&p->wake>W->now)continue; found=true; break; }
    if(!any)break;
    if(!found){ i64 best=-1; for(auto&p:procs) if(!p->done&&p->blocked&&p->wake<(1LL<<62)&&(best<0||p->wake<best))best=p->wake;
      if(best<0){ for(auto&p:procs) if(!p->done){ p->hang=true;p->termsig=9;p->deathnote="blocked forever";p->done=true; if(p->started)release_proc(p.get()); } break; }
      W->now=best; continue; }
    Proc*p=procs[i].get(); p->blocked=false;
    budget = n>1 ? (rl<runlens.size()? runlens[rl++] : 1<<30) : -1;
    resume(p); ST.switches++;
    cur=(i+1)%n;
  }
  for(auto&p:procs) ST.steps+=p->steps; ST.simtime+=W->now-t0;
  S=sv; P=svP;
}
int cat_of(const string&p){
  string base=p.substr(p.rfind('/')+1);
  if(p.compare(0,g_mailroot.size(),g_mailroot)==0||p.compare(0,13,"/home/u/store")==0)return C_MAIL;
  if(p.compare(0,g_outroot.size(),g_outroot)==0)return C_OUT;
  if(p.compare(0,g_dbpath.size()+5,g_dbpath+".lock")==0)return C_LOCK;
  if(p.compare(0,g_dbpath.size(),g_dbpath)==0)return C_DB;
  size_t k=g_dbpath.rfind('/'); if(p.compare(0,k+1,g_dbpath.substr(0,k+1))==0 && p.find('/',k+1)==string::npos && base.find("mairix")!=string::npos && base!=".mairixrc") return C_DB;
  return C_OTHER;
}
static void deliver_signals(){
  Proc*p=P; if(!p->pend)return;
  for(int s=1;s<32;s++) if(p->pend&~p->sigmask&(1<<s)){ p->pend&=~(1<<s); auto it=p->sigh.find(s); void(*h)(int)=it==p->sigh.end()?SIG_DFL:it->second;
    if(h==SIG_IGN)continue;
    if(h==SIG_DFL){ p->termsig=s; p->discard=true; die(); }
    int e=errno; p->insig=true; h(s); p->insig=false; errno=e; }
}
static void trace(const char*call,const string&path,i64 v){ g_trace=hcomb(g_trace,hcomb(P->id*7919+v,hcomb(hstr(call),hstr(path)))); if(g_verbose)fprintf(stderr,"  [%d t=%lld.%06lld #%llu] %s %s %lld\n",P->pid,W->now/1000000000,(W->now/1000)%1000000,P->steps,call,path.c_str(),v); }
// One simulated system call. Returns errno to inject (0 = proceed).
static const vector<int> E_OPEN={EIO,EACCES,EMFILE,ENFILE,ENOMEM}, E_OPENW={EIO,EACCES,EMFILE,ENOSPC,EROFS}, E_STAT={EIO,EACCES,ENOMEM}, E_READ={EIO}, E_WRITE={EIO,ENOSPC,EDQUOT}, E_NONE={}, E_DIR={EIO,EACCES,EMFILE}, E_RDDIR={EIO}, E_META={EIO,ENOSPC,EACCES,EROFS,EPERM}, E_MMAP={ENOMEM,ENODEV,EAGAIN}, E_FSYNC={EIO,ENOSPC}, E_TMP={EMFILE,ENOSPC,EACCES}, E_PIPE={EMFILE}, E_FORK={EAGAIN,ENOMEM}, E_CLOSE={EIO,ENOSPC,EDQUOT}, E_UNLINK={EIO,EACCES,EROFS};
static int step(const char*call,const string&path,int cat,const vector<int>&errs,bool crit=false){
  Proc*p=P; p->steps++; W->now+=1000; g_seq++; if(S)S->seq++;
  ST.calls[call]++; p->stepcat.push_back(cat); if(!errs.empty())p->fcat[cat]++;
  if(p->steps>g_steplimit){ p->hang=true; p->termsig=9; p->deathnote="step limit"; p->discard=true; die(); }
  if(S&&S->budget>=0){ if(S->budget--==0){ to_sched(); } }
  for(auto&f:p->faults) if(!f.fired&&(f.kind==F_KILL||f.kind==F_SIG)&&(i64)p->steps>=f.at){
    f.fired=true; f.where=string(call)+" "+path; 
    if(f.kind==F_KILL){ ST.faults["kill@step"]++; trace("KILL",path,0); p->termsig=9; p->discard=true; die(); }
    else { ST.faults["signal"+std::to_string(f.arg)]++; p->pend|=1<<f.arg; } }
  if(!p->insig) deliver_signals();
  trace(call,path,p->steps);
  if((cat&(C_DB|C_OUT))&&!p->exiting){ static const set<string> RD={"open","mmap","read","fread"},WR={"openw","write","fwrite","rename","unlink","link","symlink","mkdir","ftruncate","fallocate","msync","rmdir"}; bool w=WR.count(call); if(w||RD.count(call)){ if(!p->first_crit){ p->first_crit=g_seq; p->first_what=string(call)+" "+path; } p->last_crit=g_seq; p->last_what=string(call)+" "+path; if(w&&p->mutated.empty())p->mutated=string(call)+" "+path; } }
  if(g_acclog||crit) p->acc.push_back({call,path,false,g_seq});
  if(S&&S->onstep) S->onstep(*p);
  if(!errs.empty()){ 
    p->fcalls++;
    for(auto&f:p->faults) if(f.kind==F_ERR&&!f.fired){
      if(f.arg2&&!(f.arg2&cat))continue;
      if(--f.at==0){ f.fired=true; int e=errs[((unsigned)f.arg)%errs.size()]; if(e==EACCES&&(cat&C_MAIL)&&(&errs==&E_STAT||&errs==&E_DIR))e=EIO; f.where=string(call)+" "+path+" -> "+strerrorname_np(e); ST.faults[string(call)+":"+strerrorname_np(e)]++; trace("FAULT",path,e); return e; }
    }
  }
  return 0;
}
int sim_shortio(size_t n,size_t*out){ // short read/write at this call?
  for(auto&f:P->faults) if(f.kind==F_SHORT&&!f.fired&&n>1){ if(--f.at<=0){ f.fired=true; *out=1+((unsigned)f.arg)%(n-1); ST.faults["short-io"]++; return 1; } } return 0; }
static void mailmut(const char*what,Inode*i,const string&path){ if(i&&i->mail) W->mailmut.push_back({what,path,P->pid}); }

// ------------------------------------------------------------------ heap
static const u64 RZ=0xBADC0FFEE0DDF00DULL;
void*heap_alloc(Proc*p,size_t n){
  if(n>=(1u<<20)){ size_t sz=(n+16+4095)&~4095ULL; char*a=(char*)mmap(nullptr,sz+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); mprotect(a+sz,4096,PROT_NONE); p->big[a]=sz+4096; *(u64*)a=n; *(u64*)(a+8)=1; return a+16; }
  size_t c=(n+15)&~15ULL; if(c==0)c=16; char*b; auto it=p->hfree.find(c);
  if(it!=p->hfree.end()&&!it->second.empty()){ b=it->second.back(); it->second.pop_back(); }
  else { b=p->hcur; if(b+c+48>p->hend) return nullptr; p->hcur+=c+32; }
  *(u64*)b=n; *(u64*)(b+8)=RZ^n; memset(b+16,(int)(g_fill&0xff),n); memset(b+16+n,0xFD,c-n); *(u64*)(b+16+c)=RZ; *(u64*)(b+24+c)=c; return b+16;
}
static void heap_check(Proc*p,char*q){ char*b=q-16; size_t n=*(u64*)b; if(p->big.count(b))return; size_t c=(n+15)&~15ULL; if(!c)c=16;
  if(*(u64*)(b+8)!=(RZ^n)){ if(p->heapbug.empty())p->heapbug="bad or double free / header overwritten"; return; }
  for(size_t k=n;k<c;k++) if((unsigned char)b[16+k]!=0xFD){ p->heapbug="write past end of a "+std::to_string(n)+" byte block"; return; }
  if(*(u64*)(b+16+c)!=RZ) p->heapbug="write past end of a "+std::to_string(n)+" byte block"; }
static void heap_check_all(Proc*p){ char*b=p->hbase; while(b<p->hcur){ u64 n=*(u64*)b; bool live=*(u64*)(b+8)==(RZ^n), freed=*(u64*)(b+8)==(RZ^n^1); if(!live&&!freed){ if(p->heapbug.empty())p->heapbug="heap block header overwritten"; return; } size_t c=(n+15)&~15ULL; if(!c)c=16; if(live)heap_check(p,b+16); if(!p->heapbug.empty())return; b+=c+32; } }
static void heap_free(Proc*p,void*q){ if(!q)return; char*b=(char*)q-16; auto it=p->big.find(b); if(it!=p->big.end()){ munmap(b,it->second); p->big.erase(it); return; }
  if((char*)q<p->hbase||(char*)q>=p->hcur){ p->heapbug="free of a pointer that was never allocated"; p->termsig=6; p->deathnote="(invalid free)"; p->discard=true; die(); }
  u64 n=*(u64*)b; if(*(u64*)(b+8)!=(RZ^n)){ p->heapbug="double free or corrupted block"; p->termsig=6; p->discard=true; die(); }
  heap_check(p,(char*)q); size_t c=(n+15)&~15ULL; if(!c)c=16; memset(q,0xDD,c); *(u64*)(b+8)=RZ^n^1; p->hfree[c].push_back(b); }
static bool oom_now(){ Proc*p=P; p->mallocs++; for(auto&f:p->faults) if(f.kind==F_OOM&&(!f.fired||f.arg)&&(i64)p->mallocs>=f.at){ if(!f.fired)ST.faults["malloc:ENOMEM"]++; f.fired=true; f.where="malloc #"+std::to_string(p->mallocs); trace("OOM","",p->mallocs); return true; } 
  // signals and kills may also land between system calls
  return false; }

struct SimDir { vector<std::pair<string,IP>> v; size_t pos; char ent[512]; string path; IP ino;  int fd=-1; };
void dir_free(void*d){ delete (SimDir*)d; }

static string absolute(const string&p){ string a; if(W->lookup(p,true,&a))return a; string l; string pp=p; string d; size_t k=pp.rfind('/'); if(k==string::npos)return "/home/u/"+pp; l=pp.substr(k+1); if(W->lookup(k?pp.substr(0,k):"/",true,&d)) return (d=="/"?"":d)+"/"+l; return p; }
static string absl(const string&p){ string a; if(W->lookup(p,false,&a))return a; return absolute(p); } // without following the last link
static bool walkperm(const string&p){ // every directory component searchable, as written and after following links
  auto ok=[](const string&a){ size_t k=1; while((k=a.find('/',k))!=string::npos){ IP i=W->lookup(a.substr(0,k)); if(i&&i->type==I_DIR&&!(i->mode&0100))return false; k++; } return true; }; string q=!p.empty()&&p[0]=='/'?p:"/home/u/"+p; if(!ok(q)||!ok(absolute(p)))return false; size_t k=1; while((k=q.find('/',k))!=string::npos){ IP l=W->lookup(q.substr(0,k),false); if(l&&l->type==I_LNK&&!ok(absolute(q.substr(0,k))+"/"))return false; k++; } return true; }
static int newfd(OFP f){ int k=3; while(P->fds.count(k))k++; if(k+(int)P->dirs.size()>W->nofile)return -1; P->fds[k]=f; return k; }
static void ainit(Inode*i){ if(!i->ainit){ i->ainit=true; for(size_t k=0;k<(i->data.size()+4095)/4096;k++)i->apages.insert(k); } }
static bool charge(Inode*i,size_t off,size_t n){ i64&Q=i->tmp?W->tquota:W->quota; if(Q<0||!n)return true; ainit(i); i64 need=0; for(size_t k=off/4096;k<=(off+n-1)/4096;k++) if(!i->apages.count(k))need+=4096; if(need>Q){ ST.faults[i->tmp?"tmp-full":"disk-full"]++; return false; } Q-=need; for(size_t k=off/4096;k<=(off+n-1)/4096;k++)i->apages.insert(k); return true; }

static int do_open(const string&path,int flags,int mode,bool isstdio){
  bool wr=(flags&O_ACCMODE)!=O_RDONLY||(flags&(O_CREAT|O_TRUNC)); string ab=absolute(path);
  bool isdir=false; if(!wr){ IP t=W->lookup(path); isdir=t&&t->type==I_DIR; }
  if(int e=step(wr?"openw":"open",ab,cat_of(ab),wr?E_OPENW:isdir?E_DIR:E_OPEN)){ errno=e; return -1; }
  if(g_acclog&&!P->acc.empty())P->acc.back().write=wr;
  if(!walkperm(path)){ errno=EACCES; return -1; }
  string l; IP i=W->lookup(path,!(flags&O_NOFOLLOW));
  if(i&&(flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; }
  if(!i&&(flags&O_CREAT)&&(flags&O_EXCL)&&W->lookup(path,false)){ errno=EEXIST; return -1; }
  if(i&&i->type==I_LNK){ errno=ELOOP; return -1; }
  if(!i){ 
    if(!(flags&O_CREAT)){ errno=ENOENT; return -1; }
    // a dangling symlink creates its target
    string pth=path; for(int k=0;k<10;k++){ IP s=W->lookup(pth,false); if(s&&s->type==I_LNK){ pth = s->target[0]=='/'? s->target : pth.substr(0,pth.rfind('/')+1)+s->target; } else break; }
    IP d=W->dirof(pth,l); if(!d||d->type!=I_DIR){ errno=ENOENT; return -1; } if(!(d->mode&0200)){ errno=EACCES; return -1; }
    i=W->mk(I_REG,mode&~022); i->nlink=1; d->ents[l]=i; d->mtime=W->now; W->jlogev(0,d,l,i); if(ab==g_dbpath+".lock"){ W->lockowner=P->uid; P->owned=true; P->acq=g_seq; } i->mail=d->mail; mailmut("create",d.get(),absolute(pth));
  } else {
    if(i->type==I_DIR){ if(wr||(flags&O_ACCMODE)!=O_RDONLY){ errno=EISDIR; return -1; } }
    if((flags&O_ACCMODE)!=O_WRONLY&&!(i->mode&0400)){ errno=EACCES; return -1; }
    if((flags&O_ACCMODE)!=O_RDONLY&&!(i->mode&0200)){ errno=EACCES; return -1; }
  }
  if((flags&O_TRUNC)&&i->type==I_REG&&(flags&O_ACCMODE)!=O_RDONLY){ mailmut("truncate",i.get(),ab); W->jtouch(i.get()); sync_maps(i.get()); i->data.clear(); i->mtime=W->now; W->jlogev(2,nullptr,"",i,0); refresh_maps(i.get()); }
  OFP f=std::make_shared<OFile>(); f->ino=i; f->flags=flags; f->path=ab; if(flags&O_APPEND)f->pos=i->data.size();
  int fd=newfd(f); if(fd<0)errno=EMFILE; return fd;
}
// a busy socket: interrupted calls and partial transfers, decided by the server's seed and the step number
static u64 jitter(u64 salt){ if(!W->imap||!W->imap->jitter)return 0; u64 h=hcomb(hcomb(W->imap->seed,P->steps),salt); h^=h>>31; return h|1; }
static bool jeintr(u64 salt){ u64 h=jitter(salt); if(h&&(h>>8)%12==0){ ST.faults["net:EINTR"]++; g_trace=hcomb(g_trace,77); return true; } return false; }
static ssize_t do_write(OFile*f,const char*b,size_t n,const char*call){
  if(f->net>=0){ if(int e=step("netwrite","net",C_NET,{ECONNRESET})){ errno=e; return -1; } if(jeintr(1)){ errno=EINTR; return -1; } if(u64 h=jitter(2)){ if(n>1&&(h>>8)%3==0){ n=1+(h>>20)%(n-1); ST.faults["net:short-write"]++; } else if((h>>8)%11==1&&(f->flags&O_NONBLOCK)){ ST.faults["net:EAGAIN"]++; errno=EAGAIN; return -1; } } if(!net_write(f->net,b,n)){ errno=broken_pipe(P,"IMAP peer gone"); return -1; } return n; }
  if(int e=step(call,f->path,f->ino&&f->ino->tmp?C_MAIL|C_OTHER:cat_of(f->path),E_WRITE)){ errno=e; return -1; }
  size_t sn; if(sim_shortio(n,&sn)) n=sn;
  Inode*i=f->ino.get(); if(f->flags&O_APPEND)f->pos=i->data.size();
  if(!charge(i,f->pos,n)){ errno=ENOSPC; return -1; }
  mailmut("write",i,f->path); W->jtouch(i); sync_maps(i); bool grow=f->pos+n>i->data.size();
  if(grow)i->data.resize(f->pos+n); memcpy(&i->data[f->pos],b,n); f->pos+=n; i->mtime=W->now; if(grow)W->jlogev(2,nullptr,"",f->ino,i->data.size()); refresh_maps(i); return n;
}
static ssize_t do_read(OFile*f,char*b,size_t n,const char*call){
  if(f->net>=0){
    if(int e=step("netread","net",C_NET,{ECONNRESET})){ errno=e; return -1; }
    if(jeintr(3)){ errno=EINTR; return -1; }
    if(u64 h=jitter(4)) if(n>1&&(h>>8)%4==0){ n=1+(h>>20)%std::min<size_t>(n-1,60); ST.faults["net:short-read"]++; }
    while(true){ i64 nx; ssize_t r=net_read(f->net,b,n,&nx); if(r>=0){ g_trace=hcomb(g_trace,r); return r; } if(f->flags&O_NONBLOCK){ errno=EAGAIN; return -1; }
      P->blocked=true; P->wake=nx<0?(1LL<<62):nx; to_sched(); deliver_signals(); } }
  if(int e=step(call,f->path,cat_of(f->path),E_READ)){ errno=e; return -1; }
  Inode*i=f->ino.get(); if(i->type==I_DIR){ errno=EISDIR; return -1; } sync_maps(i); if(f->pos>=i->data.size())return 0; n=std::min(n,i->data.size()-f->pos); size_t sn; if(sim_shortio(n,&sn)) n=sn; memcpy(b,&i->data[f->pos],n); f->pos+=n; return n;
}
static int do_stat(const string&path,bool follow,struct stat*sb,const char*call){
  string ab=follow?absolute(path):absl(path);
  if(int e=step(call,ab,cat_of(ab),E_STAT)){ errno=e; return -1; }
  if(!walkperm(path)){ errno=EACCES; return -1; }
  IP i=W->lookup(path,follow); if(!i){ errno=ENOENT; 
    // ENOTDIR when a component is a file
    string l; size_t k=path.rfind('/'); if(k!=string::npos&&k>0){ IP d=W->lookup(path.substr(0,k)); if(d&&d->type!=I_DIR)errno=ENOTDIR; } return -1; }
  sync_maps(i.get());
  memset(sb,0,sizeof *sb); sb->st_ino=i->id; sb->st_dev=1; sb->st_nlink=i->type==I_DIR?2:i->nlink; sb->st_mode=i->mode|(i->type==I_REG?S_IFREG:i->type==I_DIR?S_IFDIR:i->type==I_LNK?S_IFLNK:S_IFIFO); sb->st_uid=sb->st_gid=1000; sb->st_size=i->type==I_LNK?i->target.size():i->data.size(); sb->st_blksize=4096; sb->st_blocks=(sb->st_size+511)/512;
  sb->st_mtim.tv_sec=i->mtime/1000000000; sb->st_mtim.tv_nsec=i->mtime%1000000000; sb->st_ctim=sb->st_atim=sb->st_mtim; return 0;
}
static OFP getf(int fd){ auto it=P->fds.find(fd); if(it==P->fds.end())return nullptr; return it->second; }
struct Ck { Proc*p; OFP f; int fd; };
static ssize_t ck_read(void*c,char*b,size_t n){ Ck*k=(Ck*)c; if(k->p->discard)return 0; return do_read(k->f.get(),b,n,"fread"); }
static ssize_t ck_write(void*c,const char*b,size_t n){ Ck*k=(Ck*)c; if(k->p->discard)return n; size_t d=0; while(d<n){ ssize_t r=do_write(k->f.get(),b+d,n-d,"fwrite"); if(r<0)return d; d+=r; } return d; }
static int ck_seek(void*c,off64_t*o,int w){ Ck*k=(Ck*)c; i64 b=w==SEEK_SET?0:w==SEEK_CUR?(i64)k->f->pos:(i64)k->f->ino->data.size(); b+=*o; if(b<0)return -1; k->f->pos=b; *o=b; return 0; }
static int ck_close(void*c){ Ck*k=(Ck*)c; int r=0; if(!k->p->discard){ bool wr=(k->f->flags&O_ACCMODE)!=O_RDONLY; if(int e=step("close",k->f->path,cat_of(k->f->path),wr?E_CLOSE:E_NONE)){ errno=e; r=-1; } } k->p->fds.erase(k->fd); delete k; return r; }
static FILE*mkfile(int fd,const char*mode){ Ck*k=new Ck{P,P->fds[fd],fd}; cookie_io_functions_t io={ck_read,ck_write,ck_seek,ck_close}; FILE*f=fopencookie(k,mode,io); P->files.insert(f); P->ffd[f]=fd; return f; }

// ------------------------------------------------------------------ libc seam (mairix objects are relinked against these)
extern "C" {
void*sim_malloc(size_t n){ if(oom_now()){ errno=ENOMEM; return nullptr; } void*r=heap_alloc(P,n); if(!r)errno=ENOMEM; return r; }
void sim_free(void*q){ heap_free(P,q); }
void*sim_calloc(size_t a,size_t b){ if(oom_now()){ errno=ENOMEM; return nullptr; } void*r=heap_alloc(P,a*b); if(r)memset(r,0,a*b); return r; }
void*sim_realloc(void*q,size_t n){ if(!q)return sim_malloc(n); if(n==0){ sim_free(q); return nullptr; } if(oom_now()){ errno=ENOMEM; return nullptr; } size_t o=*(u64*)((char*)q-16); void*r=heap_alloc(P,n); if(!r){errno=ENOMEM;return r;} memcpy(r,q,std::min(o,n)); heap_free(P,q); return r; }
void*sim_reallocarray(void*q,size_t a,size_t b){ return sim_realloc(q,a*b); }
char*sim_strdup(const char*s){ size_t n=strlen(s)+1; char*r=(char*)sim_malloc(n); if(r)memcpy(r,s,n); return r; }
char*sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char*r=(char*)sim_malloc(n+1); if(r){memcpy(r,s,n); r[n]=0;} return r; }
char*sim___strdup(const char*s){ return sim_strdup(s); }
int sim_vasprintf(char**o,const char*f,va_list ap){ va_list b; va_copy(b,ap); int n=vsnprintf(nullptr,0,f,b); va_end(b); *o=(char*)sim_malloc(n+1); if(!*o)return -1; return vsnprintf(*o,n+1,f,ap); }
int sim_asprintf(char**o,const char*f,...){ va_list ap; va_start(ap,f); int r=sim_vasprintf(o,f,ap); va_end(ap); return r; }
int sim_open(const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); return do_open(p,fl,m,false); }
int sim_open64(const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); return do_open(p,fl,m,false); }
int sim_creat(const char*p,mode_t m){ return do_open(p,O_WRONLY|O_CREAT|O_TRUNC,m,false); }
static string atp(int fd,const char*p){ if(fd==AT_FDCWD||*p=='/')return p; OFP f=getf(fd); if(!f||f->net>=0||!f->ino||f->ino->type!=I_DIR)return "/nonexistent-directory-fd/x"; return f->path+"/"+p; }
int sim_openat(int d,const char*p,int fl,...){ va_list ap; va_start(ap,fl); int m=(fl&O_CREAT)?va_arg(ap,int):0; va_end(ap); return do_open(atp(d,p),fl,m,false); }
int sim_close(int fd){ OFP f=getf(fd); if(!f){ errno=EBADF; return -1; } if(f->net>=0){ P->fds.erase(fd); bool o=false; for(auto&x:P->fds)if(x.second->net==f->net)o=true; if(!o)net_close(f->net); return 0; }
  bool wr=(f->flags&O_ACCMODE)!=O_RDONLY; int e=step("close",f->path,cat_of(f->path),wr?E_CLOSE:E_NONE); P->fds.erase(fd); if(e){errno=e;return -1;} return 0; }
ssize_t sim_read(int fd,void*b,size_t n){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} return do_read(f.get(),(char*)b,n,"read"); }
ssize_t sim_write(int fd,const void*b,size_t n){ if(fd==1||fd==2){ (fd==1?P->out:P->err).append((const char*)b,n); return n; } OFP f=getf(fd); if(!f||(f->net<0&&(f->flags&O_ACCMODE)==O_RDONLY)){errno=EBADF;return -1;} return do_write(f.get(),(const char*)b,n,"write"); }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} size_t s=f->pos; f->pos=o; ssize_t r=do_read(f.get(),(char*)b,n,"read"); f->pos=s; return r; }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t o){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} size_t s=f->pos; f->pos=o; ssize_t r=do_write(f.get(),(const char*)b,n,"write"); f->pos=s; return r; }
off_t sim_lseek(int fd,off_t o,int w){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} if(f->net>=0){errno=ESPIPE;return -1;} i64 b=w==SEEK_SET?0:w==SEEK_CUR?(i64)f->pos:(i64)f->ino->data.size(); b+=o; if(b<0){errno=EINVAL;return -1;} f->pos=b; return b; }
static int resize(OFP f,size_t n,const char*call){ if(int e=step(call,f->path,f->ino&&f->ino->tmp?C_MAIL|C_OTHER:cat_of(f->path),E_WRITE)){ errno=e; return -1; } Inode*i=f->ino.get(); if(W->quota>=0)ainit(i); if(!strcmp(call,"fallocate")&&!charge(i,0,n)){ errno=ENOSPC; return -1; } mailmut("truncate",i,f->path); W->jtouch(i); sync_maps(i); i->data.resize(n); i->mtime=W->now; W->jlogev(2,nullptr,"",f->ino,n); refresh_maps(i); return 0; }
int sim_ftruncate(int fd,off_t n){ OFP f=getf(fd); if(!f||(f->flags&O_ACCMODE)==O_RDONLY){errno=f?EINVAL:EBADF;return -1;} return resize(f,n,"ftruncate"); }
int sim_truncate(const char*p,off_t n){ IP i=W->lookup(p); if(!i){errno=ENOENT;return -1;} OFP f=std::make_shared<OFile>(); f->ino=i; f->path=absolute(p); return resize(f,n,"ftruncate"); }
int sim_posix_fallocate(int fd,off_t o,off_t n){ OFP f=getf(fd); if(!f)return EBADF; size_t want=o+n; int sv=errno; int r=0; if(want>f->ino->data.size()){ if(resize(f,want,"fallocate")<0) r=errno; } else { if(int e=step("fallocate",f->path,cat_of(f->path),E_WRITE)) r=e; else if(!charge(f->ino.get(),o,n)) r=ENOSPC; } errno=sv; return r; }
int sim_fallocate(int fd,int,off_t o,off_t n){ int r=sim_posix_fallocate(fd,o,n); if(r){errno=r;return -1;} return 0; }
int sim_fsync(int fd){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} if(int e=step("fsync",f->path,cat_of(f->path),E_FSYNC)){errno=e;return -1;} if(f->ino){ sync_maps(f->ino.get()); f->ino->sdata=f->ino->data; f->ino->jtouched=true; W->jlogev(3,nullptr,"",f->ino); } return 0; }
int sim_fdatasync(int fd){ return sim_fsync(fd); }
void sim_sync(void){ step("sync","",C_OTHER,E_NONE); W->walk("/",[&](const string&,Inode*i){ sync_maps(i); i->sdata=i->data; if(W->journal)i->jtouched=true; }); W->jlogev(3,nullptr,"",nullptr); }
void*sim_mmap(void*,size_t len,int prot,int fl,int fd,off_t off){
  if(fl&MAP_ANONYMOUS){ if(oom_now()){errno=ENOMEM;return MAP_FAILED;} char*a=map_alloc((len+4095)/4096); memset(a,0,len); Mapping*m=new Mapping{a,len,(len+4095)/4096,std::make_shared<Inode>(),0,false,true,P->pid}; m->ino->maps.push_back(m); P->maps.push_back(m); return a; }
  OFP f=getf(fd); if(!f){errno=EBADF;return MAP_FAILED;} if(int e=step("mmap",f->path,f->ino->tmp?C_MAIL|C_OTHER:cat_of(f->path),E_MMAP)){errno=e;return MAP_FAILED;}
  if(len==0){errno=EINVAL;return MAP_FAILED;} if(f->ino->type!=I_REG){errno=ENODEV;return MAP_FAILED;}
  if((prot&PROT_WRITE)&&(fl&MAP_SHARED)&&(f->flags&O_ACCMODE)!=O_RDWR){errno=EACCES;return MAP_FAILED;}
  size_t pages=(len+4095)/4096; char*a=map_alloc(pages); sync_maps(f->ino.get());
  // a full disk shows up as SIGBUS when a hole of a shared writable mapping is first touched; we decide at map time
  Mapping*m=new Mapping{a,len,pages,f->ino,(size_t)off,(fl&MAP_SHARED)!=0,(prot&PROT_WRITE)!=0,P->pid}; f->ino->maps.push_back(m); P->maps.push_back(m);
  if(m->shared&&m->writable&&W->quota>=0) for(size_t k=0;k<pages;k++) if(!charge(f->ino.get(),off+k*4096,1)){ m->okpages=k; break; }
  bool sh=m->shared; m->shared=true; refresh_maps(f->ino.get()); m->shared=sh;
  return a; }
int sim_munmap(void*a,size_t len){ for(auto*m:P->maps) if(m->addr==(char*)a){ step("munmap",m->ino?std::to_string(m->ino->id):"",C_OTHER,E_NONE); 
      if(m->len!=len&&(m->len+4095)/4096!=(len+4095)/4096){ /* partial unmap: keep the rest mapped, harmless */ }
      unmap_one(P,m); return 0; } errno=EINVAL; return -1; }
int sim_msync(void*a,size_t,int){ for(auto*m:P->maps) if(m->addr==(char*)a){ if(int e=step("msync","",C_DB,E_FSYNC)){errno=e;return -1;} sync_maps(m->ino.get()); m->ino->sdata=m->ino->data; m->ino->jtouched=true; W->jlogev(3,nullptr,"",m->ino); return 0; } errno=EINVAL; return -1; }
int sim_stat(const char*p,struct stat*sb){ return do_stat(p,true,sb,"stat"); }
int sim_lstat(const char*p,struct stat*sb){ return do_stat(p,false,sb,"lstat"); }
int sim_stat64(const char*p,struct stat*sb){ return do_stat(p,true,sb,"stat"); }
int sim_lstat64(const char*p,struct stat*sb){ return do_stat(p,false,sb,"lstat"); }
int sim_fstat(int fd,struct stat*sb){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} if(int e=step("fstat",f->path,cat_of(f->path),{EIO})){errno=e;return -1;} Inode*i=f->ino.get(); memset(sb,0,sizeof *sb); if(!i){ sb->st_mode=S_IFIFO|0600; return 0; } sync_maps(i); sb->st_ino=i->id; sb->st_dev=1; sb->st_nlink=i->nlink; sb->st_mode=i->mode|(i->type==I_REG?S_IFREG:S_IFDIR); sb->st_size=i->data.size(); sb->st_uid=sb->st_gid=1000; sb->st_blksize=4096; sb->st_mtim.tv_sec=i->mtime/1000000000; sb->st_mtim.tv_nsec=i->mtime%1000000000; return 0; }
int sim_fstat64(int fd,struct stat*sb){ return sim_fstat(fd,sb); }
int sim_fstatat(int d,const char*p,struct stat*sb,int fl){ if((fl&AT_EMPTY_PATH)&&!*p)return sim_fstat(d,sb); return do_stat(atp(d,p),!(fl&AT_SYMLINK_NOFOLLOW),sb,(fl&AT_SYMLINK_NOFOLLOW)?"lstat":"stat"); }
int sim_access(const char*p,int m){ struct stat sb; if(do_stat(p,true,&sb,"access")<0)return -1; if((m&R_OK)&&!(sb.st_mode&0400)){errno=EACCES;return -1;} if((m&W_OK)&&!(sb.st_mode&0200)){errno=EACCES;return -1;} return 0; }
int sim_link(const char*a,const char*b){ string ab=absl(b); if(int e=step("link",ab,cat_of(ab),E_META)){errno=e;return -1;} string l; IP i=W->lookup(a,false); IP d=W->dirof(b,l); if(!i||!d){errno=ENOENT;return -1;} if(d->ents.count(l)){errno=EEXIST;return -1;} if(i->type==I_DIR){errno=EPERM;return -1;} if(d->mail)mailmut("link",d.get(),ab); d->ents[l]=i; i->nlink++; d->mtime=W->now; W->jlogev(0,d,l,i); if(ab==g_dbpath+".lock"){ W->lockowner=P->uid; P->owned=true; P->acq=g_seq; } return 0; }
int sim_unlink(const char*p){ string ab=absl(p); if(int e=step("unlink",ab,cat_of(ab),cat_of(ab)==C_LOCK?E_NONE:E_UNLINK)){errno=e;return -1;} string l; IP d=W->dirof(p,l); if(!d||!d->ents.count(l)){errno=ENOENT;return -1;} IP i=d->ents[l]; if(i->type==I_DIR){errno=EISDIR;return -1;} if(!(d->mode&0200)){errno=EACCES;return -1;} if(d->mail)mailmut("unlink",d.get(),ab); if(ab==g_dbpath+".lock"){ if(W->lockowner&&W->lockowner!=P->uid)W->lockbad.push_back("process "+std::to_string(P->pid)+" removed the database lock of another process"); W->lockowner=0; } d->ents.erase(l); i->nlink--; d->mtime=W->now; W->jlogev(1,d,l,i); return 0; }
int sim_remove(const char*p){ return sim_unlink(p); }
int sim_symlink(const char*t,const char*p){ string ab=absl(p); if(int e=step("symlink",ab,cat_of(ab),E_META)){errno=e;return -1;} string l; IP d=W->dirof(p,l); if(!d||d->type!=I_DIR){errno=ENOENT;return -1;} if(d->ents.count(l)){errno=EEXIST;return -1;} if(d->mail)mailmut("symlink",d.get(),ab); IP i=W->mk(I_LNK,0777); i->target=t; i->nlink=1; d->ents[l]=i; d->mtime=W->now; W->jlogev(0,d,l,i); return 0; }
ssize_t sim_readlink(const char*p,char*b,size_t n){ string ab=absl(p); if(int e=step("readlink",ab,cat_of(ab),E_STAT)){errno=e;return -1;} IP i=W->lookup(p,false); if(!i){errno=ENOENT;return -1;} if(i->type!=I_LNK){errno=EINVAL;return -1;} n=std::min(n,i->target.size()); memcpy(b,i->target.data(),n); return n; }
char*sim_realpath(const char*p,char*out){ string ab=absolute(p); if(int e=step("realpath",ab,cat_of(ab),E_STAT)){errno=e;return nullptr;} string a; if(!W->lookup(p,true,&a)){errno=ENOENT;return nullptr;} if(!out){ out=(char*)sim_malloc(4096); if(!out)return nullptr; } strcpy(out,a.c_str()); return out; }
int sim_rename(const char*a,const char*b){ string ab=absl(b); if(int e=step("rename",ab,cat_of(ab),E_META)){errno=e;return -1;} string la,lb; IP da=W->dirof(a,la),db=W->dirof(b,lb); if(!da||!db||!da->ents.count(la)){errno=ENOENT;return -1;} IP i=da->ents[la]; auto it=db->ents.find(lb); if(it!=db->ents.end()&&it->second->type==I_DIR&&i->type!=I_DIR){errno=EISDIR;return -1;} if(da->mail)mailmut("rename",da.get(),absl(a)); if(db->mail)mailmut("rename",db.get(),ab);
  IP o; if(it!=db->ents.end()){ if(it->second==i)return 0; o=it->second; o->nlink--; }
  da->ents.erase(la); db->ents[lb]=i; if(W->journal){ JEvent r{4,da,la,i,0,nullptr,"",nullptr}; r.dir2=db; r.name2=lb; r.ino2=o; W->jlog.push_back(r); }
  if(i->type==I_DIR)i->parent=db.get(); da->mtime=db->mtime=W->now; return 0; }
int sim_mkdir(const char*p,mode_t m){ string ab=absl(p); if(int e=step("mkdir",ab,cat_of(ab),E_META)){errno=e;return -1;} string l; IP d=W->dirof(p,l); if(!d){errno=ENOENT;return -1;} if(d->ents.count(l)){errno=EEXIST;return -1;} if(d->mail)mailmut("mkdir",d.get(),ab); IP i=W->mk(I_DIR,m); i->nlink=1; i->parent=d.get(); d->ents[l]=i; d->mtime=W->now; W->jlogev(0,d,l,i); return 0; }
int sim_rmdir(const char*p){ string ab=absl(p); if(int e=step("rmdir",ab,cat_of(ab),E_UNLINK)){errno=e;return -1;} string l; IP d=W->dirof(p,l); if(!d||!d->ents.count(l)){errno=ENOENT;return -1;} IP i=d->ents[l]; if(i->type!=I_DIR){errno=ENOTDIR;return -1;} if(!i->ents.empty()){errno=ENOTEMPTY;return -1;} if(d->mail)mailmut("rmdir",d.get(),ab); d->ents.erase(l); W->jlogev(1,d,l,i); return 0; }
int sim_chmod(const char*p,mode_t m){ string ab=absolute(p); if(int e=step("chmod",ab,cat_of(ab),{EIO,EROFS}) ){errno=e;return -1;} IP i=W->lookup(p); if(!i){errno=ENOENT;return -1;} mailmut("chmod",i.get(),ab); i->mode=m&07777; return 0; }
int sim_fchmod(int fd,mode_t m){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} if(int e=step("fchmod",f->path,cat_of(f->path),{EIO,EROFS})){errno=e;return -1;} mailmut("chmod",f->ino.get(),f->path); f->ino->mode=m&07777; return 0; }
int sim_chown(const char*,uid_t,gid_t){ return 0; }
int sim_fchown(int,uid_t,gid_t){ return 0; }
mode_t sim_umask(mode_t m){ (void)m; return 022; }
int sim_utime(const char*p,const void*){ string ab=absolute(p); step("utime",ab,cat_of(ab),E_NONE); IP i=W->lookup(p); if(!i){errno=ENOENT;return -1;} mailmut("utime",i.get(),ab); i->mtime=W->now; return 0; }
int sim_utimes(const char*p,const void*t){ return sim_utime(p,t); }
int sim_chdir(const char*){ return 0; }
char*sim_getcwd(char*b,size_t n){ if(!b){ b=(char*)sim_malloc(n?n:256); if(!b){ errno=ENOMEM; return nullptr; } } strcpy(b,"/home/u"); return b; }
// directories
struct sdirent { ino_t d_ino; off_t d_off; unsigned short d_reclen; unsigned char d_type; char d_name[256]; };
void*sim_opendir(const char*p){ string ab=absolute(p); if(int e=step("opendir",ab,cat_of(ab),E_DIR)){errno=e;return nullptr;} if(!walkperm(p)){errno=EACCES;return nullptr;} IP i=W->lookup(p); if(!i){errno=ENOENT;return nullptr;} if(i->type!=I_DIR){errno=ENOTDIR;return nullptr;} if(!(i->mode&0400)){errno=EACCES;return nullptr;}
  if((int)(P->dirs.size()+P->fds.size())+3>W->nofile){ errno=EMFILE; return nullptr; }
  SimDir*d=new SimDir; d->pos=0; d->path=ab; d->ino=i; d->v.push_back({".",i}); d->v.push_back({"..",i}); for(auto&e:i->ents)d->v.push_back(e); u64 sd=W->dirseed; if(sd) std::sort(d->v.begin(),d->v.end(),[sd](const std::pair<string,IP>&a,const std::pair<string,IP>&b){ u64 x=hcomb(sd,hstr(a.first)),y=hcomb(sd,hstr(b.first)); return x<y||(x==y&&a.first<b.first); }); P->dirs.push_back(d); return d; }
struct sdirent*sim_readdir(void*dp){ SimDir*d=(SimDir*)dp; if(int e=step("readdir",d->path,cat_of(d->path),E_RDDIR)){errno=e;return nullptr;}
  while(d->pos<d->v.size()){ auto&e=d->v[d->pos++]; if(e.first!="."&&e.first!=".."&&!d->ino->ents.count(e.first))continue; struct sdirent*x=(struct sdirent*)d->ent; memset(x,0,sizeof *x); x->d_ino=e.second->id; x->d_reclen=sizeof *x; x->d_off=d->pos; x->d_type=(W->dirseed&4)?0:(e.second->type==I_DIR?4:e.second->type==I_LNK?10:8); strncpy(x->d_name,e.first.c_str(),255); return x; } return nullptr; }
struct sdirent*sim_readdir64(void*d){ return sim_readdir(d); }
int sim_closedir(void*dp){ SimDir*d=(SimDir*)dp; auto&v=P->dirs; auto it=std::find(v.begin(),v.end(),dp); if(it==v.end()){ errno=EBADF; return -1; } v.erase(it); if(d->fd>=0)P->fds.erase(d->fd); delete d; return 0; }
void sim_rewinddir(void*dp){ ((SimDir*)dp)->pos=0; }
// stdio
FILE*sim_fopen(const char*p,const char*m){ int fl=m[0]=='r'?(strchr(m,'+')?O_RDWR:O_RDONLY):m[0]=='w'?((strchr(m,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_TRUNC):((strchr(m,'+')?O_RDWR:O_WRONLY)|O_CREAT|O_APPEND); if(strchr(m,'x'))fl|=O_EXCL; int fd=do_open(p,fl,0666,true); if(fd<0)return nullptr; return mkfile(fd,m); }
FILE*sim_fopen64(const char*p,const char*m){ return sim_fopen(p,m); }
FILE*sim_fdopen(int fd,const char*m){ if(!getf(fd)){errno=EBADF;return nullptr;} return mkfile(fd,m); }
FILE*sim_freopen(const char*,const char*,FILE*){ errno=ENOSYS; return nullptr; }
FILE*sim_tmpfile(void){ if(int e=step("tmpfile","/tmp",C_MAIL|C_OTHER,E_TMP)){errno=e;return nullptr;} OFP f=std::make_shared<OFile>(); f->ino=W->mk(I_REG,0600); f->ino->tmp=true; f->flags=O_RDWR; f->path="/tmp/(deleted)"; int fd=newfd(f); if(fd<0){ errno=EMFILE; return nullptr; } return mkfile(fd,"w+b"); }
int sim_mkstemp(char*t){ size_t n=strlen(t); for(int k=0;k<1000;k++){ char b[8]; snprintf(b,8,"%06d",(P->pid*37+ ++P->mkst)%1000000); memcpy(t+n-6,b,6); int fd=do_open(t,O_RDWR|O_CREAT|O_EXCL,0600,false); if(fd>=0||errno!=EEXIST)return fd; } errno=EEXIST; return -1; }
int sim_mkostemp(char*t,int){ return sim_mkstemp(t); }
int sim_fclose(FILE*f){ if(f==P->fout||f==P->ferr||f==P->fin){ fflush(f); return 0; } if(!P->files.count(f)){ P->heapbug="fclose of a bad stream"; P->termsig=6; P->discard=true; die(); } P->closing=f; int fd=P->ffd[f]; (void)fd; int r=fclose(f); P->closing=nullptr; P->files.erase(f); P->ffd.erase(f); return r; }
int sim_fileno(FILE*f){ if(f==P->fout)return 1; if(f==P->ferr)return 2; if(f==P->fin)return 0; auto it=P->ffd.find(f); return it==P->ffd.end()?-1:it->second; }
int sim_fflush(FILE*f){ if(f)return fflush(f); fflush(P->fout); int r=0; for(FILE*x:byfd(P))if(fflush(x))r=EOF; return r; }
int sim_printf(const char*fm,...){ va_list ap; va_start(ap,fm); int r=vfprintf(P->fout,fm,ap); va_end(ap); return r; }
int sim_vprintf(const char*fm,va_list ap){ return vfprintf(P->fout,fm,ap); }
int sim_puts(const char*s){ fputs(s,P->fout); return fputc('\n',P->fout); }
int sim_putchar(int c){ return fputc(c,P->fout); }
int sim_getchar(void){ return EOF; }
void sim_perror(const char*s){ int e=errno; fprintf(P->ferr,"%s%s%s\n",s?s:"",s&&*s?": ":"",strerror(e)); errno=e; }
// process
void sim_exit(int c){ proc_finish(c); }
void sim__exit(int c){ Proc*p=P; heap_check_all(p); p->discard=true; p->exitcode=c&0xff; die(); }
void sim__Exit(int c){ sim__exit(c); }
int sim_atexit(void(*)(void)){ return 0; }
void sim_abort(void){ P->termsig=6; P->deathnote="(abort)"; P->discard=true; die(); }
void sim___assert_fail(const char*e,const char*f,unsigned l,const char*fn){ P->termsig=6; P->deathnote=string("assertion failed: ")+e; P->discard=true; (void)f;(void)l;(void)fn; die(); }
void sim___stack_chk_fail(void){ P->termsig=6; P->deathnote="stack smashing"; P->heapbug="stack overflow"; P->discard=true; die(); }
pid_t sim_getpid(void){ return P->pid; }
pid_t sim_getppid(void){ return 1; }
uid_t sim_getuid(void){ return 1000; } uid_t sim_geteuid(void){ return 1000; } gid_t sim_getgid(void){ return 1000; }
struct spw { char*n,*p; uid_t u; gid_t g; char*ge,*d,*s; };
void*sim_getpwuid(uid_t){ static spw w={(char*)"u",(char*)"x",1000,1000,(char*)"",(char*)"/home/u",(char*)"/bin/sh"}; if(int e=step("getpwuid","",C_OTHER,{EIO})){errno=e;return nullptr;} return &w; }
int sim_uname(char*u){ memset(u,0,65*6); strcpy(u,"Linux"); strcpy(u+65,(P->host.empty()?W->host:P->host).c_str()); strcpy(u+130,"5.0"); return 0; }
int sim_gethostname(char*b,size_t n){ snprintf(b,n,"%s",(P->host.empty()?W->host:P->host).c_str()); return 0; }
char*sim_getenv(const char*n){ auto it=P->env.find(n); if(it==P->env.end())return nullptr; return (char*)it->second.c_str(); }
void(*sim_signal(int s,void(*h)(int)))(int){ auto o=P->sigh.count(s)?P->sigh[s]:SIG_DFL; P->sigh[s]=h; return o; }
int sim_sigaction(int s,const struct sigaction*a,struct sigaction*o){ if(o){ memset(o,0,sizeof *o); o->sa_handler=P->sigh.count(s)?P->sigh[s]:SIG_DFL; } if(a)P->sigh[s]=a->sa_handler; return 0; }
static int setbits(const sigset_t*s){ int b=0; for(int k=1;k<31;k++)if(sigismember(s,k)==1)b|=1<<k; return b; }
int sim_sigprocmask(int how,const sigset_t*n,sigset_t*o){ if(o){ sigemptyset(o); for(int k=1;k<31;k++)if(P->sigmask>>k&1)sigaddset(o,k); } if(n){ int b=setbits(n); if(how==SIG_BLOCK)P->sigmask|=b; else if(how==SIG_UNBLOCK)P->sigmask&=~b; else P->sigmask=b; } if(!P->insig)deliver_signals(); return 0; }
int sim_pthread_sigmask(int how,const sigset_t*n,sigset_t*o){ return sim_sigprocmask(how,n,o); }
ssize_t sim_getdelim(char**l,size_t*cap,int d,FILE*f){ size_t n=0; int c; if(!*l||!*cap){ *cap=128; *l=(char*)sim_realloc(*l,*cap); if(!*l)return -1; } while((c=getc(f))!=EOF){ if(n+2>*cap){ char*q=(char*)sim_realloc(*l,*cap*2); if(!q)return -1; *l=q; *cap*=2; } (*l)[n++]=c; if(c==d)break; } if(!n)return -1; (*l)[n]=0; return n; }
ssize_t sim_getline(char**l,size_t*cap,FILE*f){ return sim_getdelim(l,cap,'\n',f); }
int sim_posix_memalign(void**p,size_t,size_t n){ *p=sim_malloc(n); return *p?0:ENOMEM; }
void*sim_aligned_alloc(size_t,size_t n){ return sim_malloc(n); }
ssize_t sim_copy_file_range(int,off_t*,int,off_t*,size_t,unsigned){ errno=ENOSYS; return -1; }
ssize_t sim_sendfile(int,int,off_t*,size_t){ errno=ENOSYS; return -1; }
ssize_t sim_writev(int fd,const struct iovec*v,int n){ ssize_t t=0; for(int k=0;k<n;k++){ ssize_t r=sim_write(fd,v[k].iov_base,v[k].iov_len); if(r<0)return t?t:-1; t+=r; if((size_t)r<v[k].iov_len)break; } return t; }
ssize_t sim_readv(int fd,const struct iovec*v,int n){ ssize_t t=0; for(int k=0;k<n;k++){ ssize_t r=sim_read(fd,v[k].iov_base,v[k].iov_len); if(r<0)return t?t:-1; t+=r; if((size_t)r<v[k].iov_len)break; } return t; }
int sim_sigemptyset(sigset_t*s){ return sigemptyset(s); }
int sim_raise(int s){ P->pend|=1<<s; deliver_signals(); return 0; }
char*sim_setlocale(int,const char*){ return (char*)"C"; }
time_t sim_time(time_t*t){ time_t r=W->now/1000000000; if(t)*t=r; g_trace=hcomb(g_trace,r); return r; }
int sim_gettimeofday(struct timeval*t,void*){ t->tv_sec=W->now/1000000000; t->tv_usec=(W->now/1000)%1000000; return 0; }
int sim_clock_gettime(int,struct timespec*t){ t->tv_sec=W->now/1000000000; t->tv_nsec=W->now%1000000000; return 0; }
clock_t sim_clock(void){ return W->now/1000; }
unsigned sim_sleep(unsigned s){ step("sleep","",C_OTHER,E_NONE); P->blocked=true; P->wake=W->now+s*1000000000LL; to_sched(); deliver_signals(); return 0; }
int sim_usleep(unsigned us){ step("sleep","",C_OTHER,E_NONE); P->blocked=true; P->wake=W->now+us*1000LL; to_sched(); deliver_signals(); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*){ step("sleep","",C_OTHER,E_NONE); P->blocked=true; P->wake=W->now+t->tv_sec*1000000000LL+t->tv_nsec; to_sched(); deliver_signals(); return 0; }
int sim_rand(void){ return 4; } void sim_srand(unsigned){} long sim_random(void){ return 4; } void sim_srandom(unsigned){}
// network / subprocess seam
int sim_pipe(int*fd){ if(int e=step("pipe","",C_NET,E_PIPE)){errno=e;return -1;} for(int k=0;k<2;k++){ OFP f=std::make_shared<OFile>(); f->net=-2; f->flags=k?O_WRONLY:O_RDONLY; f->path="pipe"; f->netw=k; fd[k]=newfd(f); } return 0; }
int sim_fork(void){ if(int e=step("fork","",C_NET,E_FORK)){errno=e;return -1;} int c=net_open(P); // the child (imap server) gets attached to every unattached pipe end
  for(auto&x:P->fds) if(x.second->net==-2) x.second->net=c; return P->pid+100000; }
int sim_vfork(void){ return sim_fork(); }
int sim_execl(const char*,...){ errno=ENOENT; return -1; }
int sim_dup2(int,int b){ return b; }
int sim_waitpid(int pid,int*st,int){ if(st)*st=0; return pid; }
int sim_wait(int*st){ if(st)*st=0; return P->pid+100000; }
int sim_kill(int,int){ return 0; }
int sim_system(const char*){ errno=ENOSYS; return -1; }
FILE*sim_popen(const char*,const char*){ errno=ENOSYS; return nullptr; }
int sim_fcntl(int fd,int cmd,...){ va_list ap; va_start(ap,cmd); long a=va_arg(ap,long); va_end(ap); OFP f=getf(fd); if(!f){errno=EBADF;return -1;} if(cmd==F_SETFL){ f->flags=(f->flags&~O_NONBLOCK)|(a&O_NONBLOCK); return 0; } if(cmd==F_GETFL)return f->flags; if(cmd==F_SETLK||cmd==F_SETLKW)return 0; return 0; }
int sim_flock(int,int){ return 0; }
int sim_lockf(int,int,off_t){ return 0; }
struct spoll { int fd; short ev, rev; };
int sim_poll(struct spoll*p,unsigned long n,int to){
  if(int e=step("poll","",C_NET,{EINTR})){errno=e;return -1;}
  if(jeintr(5)){ errno=EINTR; return -1; }
  i64 dl=to<0?(1LL<<62):W->now+to*1000000LL; 
  while(true){ int r=0; i64 nx=-1; for(unsigned long k=0;k<n;k++){ p[k].rev=0; OFP f=getf(p[k].fd); if(!f){ p[k].rev=0x20; r++; continue; } if((p[k].ev&4)){ p[k].rev|=4; } if(p[k].ev&1){ i64 t; char c; ssize_t x=f->net>=0?net_read(f->net,&c,0,&t):1; if(x>=0)p[k].rev|=1; else if(t>=0&&(nx<0||t<nx))nx=t; } if(p[k].rev)r++; }
    if(r)return r; if(W->now>=dl)return 0;
    i64 w=nx>=0?std::min(nx,dl):dl; P->blocked=true; P->wake=w; to_sched(); if(P->pend){ deliver_signals(); errno=EINTR; return -1; } } }
struct sfds { long b[16]; };
int sim_select(int,struct sfds*,struct sfds*,struct sfds*,struct timeval*){ errno=ENOSYS; return -1; }
int sim_socket(int,int,int){ if(int e=step("socket","",C_NET,E_PIPE)){errno=e;return -1;} OFP f=std::make_shared<OFile>(); f->net=-2; f->flags=O_RDWR; f->path="sock"; return newfd(f); }
int sim_connect(int fd,const void*,unsigned){ if(int e=step("connect","",C_NET,{ECONNREFUSED,ETIMEDOUT})){errno=e;return -1;} OFP f=getf(fd); f->net=net_open(P); return 0; }
struct sai { int fl,fam,st,pr; unsigned al; void*addr; char*cn; sai*next; };
int sim_getaddrinfo(const char*,const char*,const void*,sai**r){ if(step("getaddrinfo","",C_NET,{EIO}))return -2; static char a[16]; sai*x=(sai*)heap_alloc(P,sizeof(sai)); memset(x,0,sizeof *x); x->fam=2; x->st=1; x->al=16; x->addr=a; *r=x; return 0; }
void sim_freeaddrinfo(sai*r){ heap_free(P,r); }
ssize_t sim_send(int fd,const void*b,size_t n,int){ return sim_write(fd,b,n); }
ssize_t sim_recv(int fd,void*b,size_t n,int){ return sim_read(fd,b,n); }
// calls mairix does not make today, for versions of it that do
int sim_dirfd(void*dp){ SimDir*d=(SimDir*)dp; if(d->fd<0){ OFP f=std::make_shared<OFile>(); f->ino=d->ino; f->flags=O_RDONLY; f->path=d->path; d->fd=newfd(f); if(d->fd<0)errno=EMFILE; } return d->fd; }
void*sim_fdopendir(int fd){ OFP f=getf(fd); if(!f||!f->ino||f->ino->type!=I_DIR){ errno=f?ENOTDIR:EBADF; return nullptr; } SimDir*d=(SimDir*)sim_opendir(f->path.c_str()); if(d)d->fd=fd; return d; }
int sim_scandir(const char*p,struct sdirent***o,int(*sel)(const struct sdirent*),int(*cmp)(const struct sdirent**,const struct sdirent**)){ void*d=sim_opendir(p); if(!d)return -1; vector<struct sdirent*> v; errno=0; while(struct sdirent*e=sim_readdir(d)) if(!sel||sel(e)){ struct sdirent*c=(struct sdirent*)sim_malloc(sizeof *e); if(!c)break; memcpy(c,e,sizeof *e); v.push_back(c); } int en=errno; sim_closedir(d); if(en){ for(auto c:v)sim_free(c); errno=en; return -1; } if(cmp)std::stable_sort(v.begin(),v.end(),[&](struct sdirent*a,struct sdirent*b){ const struct sdirent*x=a,*y=b; return cmp(&x,&y)<0; }); *o=(struct sdirent**)sim_malloc(std::max<size_t>(1,v.size())*sizeof(void*)); if(!*o){ for(auto c:v)sim_free(c); errno=ENOMEM; return -1; } for(size_t k=0;k<v.size();k++)(*o)[k]=v[k]; return v.size(); }
int sim_alphasort(const struct sdirent**a,const struct sdirent**b){ return strcmp((*a)->d_name,(*b)->d_name); }
int sim_unlinkat(int d,const char*p,int fl){ string q=atp(d,p); return (fl&AT_REMOVEDIR)?sim_rmdir(q.c_str()):sim_unlink(q.c_str()); }
int sim_renameat(int a,const char*p,int b,const char*q){ string x=atp(a,p),y=atp(b,q); return sim_rename(x.c_str(),y.c_str()); }
int sim_linkat(int a,const char*p,int b,const char*q,int){ string x=atp(a,p),y=atp(b,q); return sim_link(x.c_str(),y.c_str()); }
int sim_symlinkat(const char*t,int b,const char*q){ string y=atp(b,q); return sim_symlink(t,y.c_str()); }
int sim_mkdirat(int a,const char*p,mode_t m){ string x=atp(a,p); return sim_mkdir(x.c_str(),m); }
ssize_t sim_readlinkat(int a,const char*p,char*b,size_t n){ string x=atp(a,p); return sim_readlink(x.c_str(),b,n); }
int sim_faccessat(int a,const char*p,int m,int){ string x=atp(a,p); return sim_access(x.c_str(),m); }
int sim_fchmodat(int a,const char*p,mode_t m,int){ string x=atp(a,p); return sim_chmod(x.c_str(),m); }
int sim_euidaccess(const char*p,int m){ return sim_access(p,m); }
int sim_eaccess(const char*p,int m){ return sim_access(p,m); }
int sim_futimens(int fd,const void*){ OFP f=getf(fd); if(!f){errno=EBADF;return -1;} step("utime",f->path,cat_of(f->path),E_NONE); mailmut("utime",f->ino.get(),f->path); f->ino->mtime=W->now; return 0; }
int sim_utimensat(int a,const char*p,const void*t,int){ string x=atp(a,p); return sim_utime(x.c_str(),t); }
int sim_dup(int a){ OFP f=getf(a); if(!f){errno=EBADF;return -1;} int fd=newfd(f); if(fd<0)errno=EMFILE; return fd; }
int sim_pipe2(int*fd,int){ return sim_pipe(fd); }
ssize_t sim_pread64(int fd,void*b,size_t n,off_t o){ return sim_pread(fd,b,n,o); }
ssize_t sim_pwrite64(int fd,const void*b,size_t n,off_t o){ return sim_pwrite(fd,b,n,o); }
off_t sim_lseek64(int fd,off_t o,int w){ return sim_lseek(fd,o,w); }
int sim_ftruncate64(int fd,off_t n){ return sim_ftruncate(fd,n); }
void*sim_mmap64(void*a,size_t len,int prot,int fl,int fd,off_t off){ return sim_mmap(a,len,prot,fl,fd,off); }
int sim_mkstemp64(char*t){ return sim_mkstemp(t); }
FILE*sim_tmpfile64(void){ return sim_tmpfile(); }
char*sim_mkdtemp(char*t){ size_t n=strlen(t); char b[8]; for(int k=0;k<1000;k++){ snprintf(b,8,"%06d",(P->pid*37+ ++P->mkst)%1000000); memcpy(t+n-6,b,6); if(!sim_mkdir(t,0700))return t; if(errno!=EEXIST)return nullptr; } return nullptr; }
int sim_isatty(int){ errno=ENOTTY; return 0; }
int sim_ioctl(int,unsigned long,...){ errno=ENOTTY; return -1; }
char*sim_secure_getenv(const char*n){ return sim_getenv(n); }
int sim_setenv(const char*n,const char*v,int o){ if(o||!P->env.count(n))P->env[n]=v; return 0; }
int sim_unsetenv(const char*n){ P->env.erase(n); return 0; }
void*sim_getpwnam(const char*){ return sim_getpwuid(0); }
char*sim_getlogin(void){ static char u[]="u"; return u; }
int sim_vdprintf(int fd,const char*f,va_list ap){ char*o; int n=vasprintf(&o,f,ap); if(n<0)return n; ssize_t r=sim_write(fd,o,n); free(o); return r; }
int sim_dprintf(int fd,const char*f,...){ va_list ap; va_start(ap,f); int r=sim_vdprintf(fd,f,ap); va_end(ap); return r; }
static void vw(bool en,const char*f,va_list ap){ int e=errno; fprintf(P->ferr,"mairix: "); if(f)vfprintf(P->ferr,f,ap); if(en)fprintf(P->ferr,"%s%s",f?": ":"",strerror(e)); fputc('\n',P->ferr); }
void sim_warn(const char*f,...){ va_list ap; va_start(ap,f); vw(true,f,ap); va_end(ap); }
void sim_warnx(const char*f,...){ va_list ap; va_start(ap,f); vw(false,f,ap); va_end(ap); }
void sim_err(int c,const char*f,...){ va_list ap; va_start(ap,f); vw(true,f,ap); va_end(ap); sim_exit(c); }
void sim_errx(int c,const char*f,...){ va_list ap; va_start(ap,f); vw(false,f,ap); va_end(ap); sim_exit(c); }
int sim_ppoll(struct spoll*p,unsigned long n,const struct timespec*t,const void*){ return sim_poll(p,n,t?t->tv_sec*1000+t->tv_nsec/1000000:-1); }
void sim_quick_exit(int c){ sim__exit(c); }
int sim_alarm(unsigned){ return 0; }
int sim_pause(void){ errno=EINTR; return -1; }
struct Msm { char**p; size_t*n; Proc*pr; };
static ssize_t ms_write(void*c,const char*b,size_t n){ Msm*m=(Msm*)c; if(m->pr->discard)return n; char*q=(char*)sim_realloc(*m->p,*m->n+n+1); if(!q)return 0; memcpy(q+*m->n,b,n); *m->n+=n; q[*m->n]=0; *m->p=q; return n; }
static int ms_close(void*c){ delete (Msm*)c; return 0; }
FILE*sim_open_memstream(char**p,size_t*n){ *p=(char*)sim_malloc(1); if(!*p)return nullptr; **p=0; *n=0; cookie_io_functions_t io={nullptr,ms_write,nullptr,ms_close}; FILE*f=fopencookie(new Msm{p,n,P},"w",io); P->files.insert(f); P->ffd[f]=-1; return f; }
void*sim_valloc(size_t n){ return sim_malloc(n); }
int sim_ftw(const char*,void*,int){ errno=ENOSYS; return -1; }
int sim_nftw(const char*,void*,int,int){ errno=ENOSYS; return -1; }
} // extern C

