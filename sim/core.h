// Deterministic simulator core: virtual file system, simulated processes (coroutines running the
// real mairix code), simulated clock, signals, fault injection.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <ucontext.h>
#include <sys/types.h>

typedef unsigned long long u64;
typedef long long i64;
using std::string; using std::vector; using std::map; using std::set;

static inline u64 mix64(u64 z){ z+=0x9e3779b97f4a7c15ULL; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
static inline u64 hcomb(u64 h,u64 v){ return mix64(h*0x100000001b3ULL ^ v); }
u64 hstr(const string&s, u64 h=1469598103934665603ULL);
struct Rng { u64 s; explicit Rng(u64 seed=1):s(mix64(seed)){}
  u64 next(){ s+=0x9e3779b97f4a7c15ULL; u64 z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; return z^(z>>31);}
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); }
  bool chance(int num,int den){ return (int)below(den)<num; }
  template<class T> const T& pick(const vector<T>&v){ return v[below(v.size())]; }
};

// ---------------------------------------------------------------- VFS
enum IType { I_REG, I_DIR, I_LNK, I_PIPE, I_SOCK };
struct Inode; typedef std::shared_ptr<Inode> IP;
struct Mapping { char*addr; size_t len, pages; IP ino; size_t off; bool shared, writable; int pid; size_t okpages=(size_t)-1; };
struct Inode {
  u64 id; IType type; int mode; i64 mtime; int nlink=0; string data; string target;
  map<string,IP> ents; Inode*parent=nullptr;
  bool mail=false, tmp=false;            // belongs to an indexed folder
  vector<Mapping*> maps;
  // durability tracking (only while World::journal is on)
  bool jtouched=false; string sdata; bool jnew=false;
  bool ainit=false; set<size_t> apages; // allocated pages, maintained while a quota is set
};
struct JEvent { int kind; IP dir; string name; IP ino; size_t size; IP dir2; string name2; IP ino2; }; // 0 link,1 unlink,2 setsize,3 barrier, 4 rename(dir,name)->(dir2,name2)
struct ImapState;
struct MutRec { string what, path; int pid; };

struct World {
  IP root; u64 nextino=2; i64 now;          // ns since epoch
  u64 dirseed=1; i64 quota=-1, tquota=-1;              // bytes that may still be allocated, -1: unlimited
  string host="simhost"; int nofile=1000;
  bool journal=false; vector<JEvent> jlog;
  vector<MutRec> mailmut;                   // mutations of indexed mail made by mairix processes
  std::shared_ptr<ImapState> imap;
  bool atomicput=false;                     // mail programs replace files rather than rewrite them in place
  int lockowner=0; vector<string> lockbad;  // who created the database lock; removals by anyone else
  World();
  std::shared_ptr<World> clone() const;
  IP mk(IType t,int mode);
  // direct (harness side) access, no faults, no steps
  IP lookup(const string&path,bool follow=true,string*abs=nullptr);
  IP dirof(const string&path,string&leaf);
  bool exists(const string&p){ return !!lookup(p,false); }
  void mkdirs(const string&p,int mode=0755);
  void put(const string&path,const string&data,i64 mtime=-1);
  bool get(const string&path,string&out);
  bool rm(const string&path);
  bool mv(const string&a,const string&b);
  void symlink(const string&tgt,const string&path);
  vector<string> ls(const string&path);
  void walk(const string&path,std::function<void(const string&,Inode*)> f);
  u64 treehash(const string&path,bool mtimes=true);
  // durability
  void jbegin(); void jtouch(Inode*i); void jlogev(int kind,IP dir,const string&name,IP ino,size_t size=0);
  void powerloss(u64 seed);                 // rewinds the tree to a crash-consistent image
  void setdata(IP i,const string&d);
};
extern World*W;

// ---------------------------------------------------------------- simulated IMAP server state (durable side)
struct IMsg { unsigned uid; string data; set<string> flags; };
struct IFolder { unsigned uidvalidity=1000, uidnext=1; vector<IMsg> msgs; };
struct ImapFault { int kind; int at; int arg; bool fired=false; };
// kind 0: drop connection before answering command #at; 1: drop after arg bytes of the answer; 2: NO; 3: BAD; 4: stall (no answer ever);
// 5: BYE and close; 6: answer delayed by arg seconds; 7: unsolicited untagged lines interleaved; 8: another client expunges a message
struct ImapState { int jitter=0; map<string,IFolder> folders; vector<ImapFault> faults; u64 seed=1; int greeting=0; bool reject=false; u64 ncmds=0; vector<string> log; string user="user", pass="pass", outfolder="mfolder"; };

// ---------------------------------------------------------------- faults
enum FKind { F_ERR=0, F_KILL=1, F_SIG=2, F_OOM=3, F_SHORT=4, F_PIPE=5 };
struct Fault { int kind; int proc; i64 at; int arg; int arg2; bool fired=false; string where; };
// F_ERR: the at-th (1-based) faultable call of the process fails; arg picks the errno; arg2: category mask (0 = all calls count)
// F_KILL/F_SIG: before the at-th step; arg = signal. F_OOM: at-th allocation fails, arg=1: and all later ones. F_PIPE: the reader of stdout goes away after at bytes

enum Cat { C_MAIL=1, C_DB=2, C_LOCK=4, C_OUT=8, C_OTHER=16, C_NET=32 };

struct OFile { IP ino; size_t pos=0; int flags=0; string path; int net=-1; bool netw=false; };
typedef std::shared_ptr<OFile> OFP;
struct Access { string call, path; bool write; u64 seq; };

struct Proc {
  int id=0, pid=0, uid=0, mkst=0; string host; bool exiting=false; vector<unsigned char> stepcat; map<int,i64> fcat; bool owned=false; u64 acq=0; vector<string> argv; map<string,string> env; string cwd="/home/u";
  map<int,OFP> fds; string out, err; FILE*fout=nullptr,*ferr=nullptr,*fin=nullptr; set<FILE*> files; map<FILE*,int> ffd; FILE*closing=nullptr;
  map<int,void(*)(int)> sigh;
  ucontext_t ctx; char*stack=nullptr; size_t stacksz=0; int slot=-1;
  vector<char> globals; int serrno=0;
  bool started=false, done=false, discard=false, insig=false; int pend=0, sigmask=0;
  int exitcode=-1; int termsig=0; string deathnote; // deathnote: assert/segv text
  bool hang=false; string heapbug;
  // heap
  char*hbase=nullptr,*hcur=nullptr,*hend=nullptr; map<size_t,vector<char*>> hfree; map<char*,size_t> big; size_t live=0,peak=0;
  u64 steps=0, fcalls=0, mallocs=0; i64 cpu=0;
  vector<Fault> faults; vector<Mapping*> maps; vector<void*> dirs;
  bool blocked=false; i64 wake=0;
  vector<Access> acc; u64 first_crit=0,last_crit=0; string first_what,last_what,mutated;
  bool ok() const { return done && !termsig && exitcode==0; }
  bool crashed() const { return termsig==11||termsig==6||termsig==7||termsig==8||termsig==4||hang||!heapbug.empty(); }
  string status() const;
  ~Proc();
};
typedef std::shared_ptr<Proc> PP;

struct Stats { map<string,u64> faults, calls, probes; u64 runs=0,procs=0,steps=0,switches=0; i64 simtime=0; };
extern Stats ST;
static inline void probe(const char*n){ ST.probes[n]++; }

struct Sim {                              // one concurrent section
  vector<PP> procs; vector<int> runlens; size_t rl=0; int cur=-1; u64 seq=0; i64 budget=-1;
  std::function<void(Proc&)> onstep;      // called at every step of every process
  void run();
};
extern Sim*S; extern Proc*P; extern u64 g_trace; extern bool g_verbose; extern u64 g_fill; extern u64 g_seq;
extern bool g_acclog; extern string g_dbpath, g_mailroot, g_outroot;
PP mkproc(const vector<string>&argv);
void sim_init();
int cat_of(const string&abspath);
u64 step_limit();
extern u64 g_steplimit; int get_pids(); void set_pids(int);

// network (IMAP) endpoint provided by imapsrv.cpp
struct NetConn; 
int net_open(Proc*p);                     // returns conn id
bool net_write(int conn,const char*b,size_t n);
// returns bytes (>0), 0 = EOF, -1 = would block (then *next = time of next event or -1)
ssize_t net_read(int conn,char*b,size_t n,i64*next);
void net_close(int conn);
void net_reset();
