#pragma once
#include "model.h"
// ---------------------------------------------------------------- plans: everything one simulated run depends on
struct Op { int id=0; string kind; u64 s=0; map<string,i64> p; vector<int> rl;
  bool has(const string&k) const { return p.count(k)>0; } i64 get(const string&k,i64 d=0) const { auto i=p.find(k); return i==p.end()?d:i->second; } };
struct Plan { string prop; u64 seed=0; map<string,i64> knob; vector<Op> ops;
  i64 k(const string&n,i64 d=0) const { auto i=knob.find(n); return i==knob.end()?d:i->second; }
  Op&add(const string&kind,u64 s){ Op o; o.id=ops.size()+1; o.kind=kind; o.s=s; ops.push_back(o); return ops.back(); }
  string text() const; static bool parse(const string&t,Plan&p); };
struct Viol { string cls,msg; };
[[noreturn]] void fail(const string&cls,const char*fmt,...);
string fmt(const char*f,...);

struct Res { PP p; bool ok() const { return p->ok(); } int code() const { return p->termsig?256+p->termsig:p->exitcode; } };
// The executor: a simulated machine with mail folders, a mairix configuration, and the reference model.
struct Exec {
  const Plan&pl; std::shared_ptr<World> world; Model m; Rng r;
  vector<Live> idx; bool have=false;          // what the database must contain (after the last successful index run)
  string rc_extra; string mfolder="/home/u/out"; int oft=MD; string omit; bool imap=false;
  bool nolock_left=true;
  vector<string> removed; vector<std::pair<string,std::pair<int,Item>>> grave; // folder, position, message
  set<string> knownids;
  explicit Exec(const Plan&p);
  ~Exec();
  // configuration
  void addfolder(int type,const string&name,bool listed=true);
  void stdfolders();                          // from knobs
  virtual string rc();
  void writerc();
  void later(i64 sec){ W->now+=sec*1000000000LL; }
  // processes
  map<string,string> env;                     // environment of every process started
  PP proc(vector<string> args);
  Res run(vector<string> args,const vector<Fault>&f={});
  PP dry(vector<string> args);                // same command on a clone of the machine: how many steps/calls/allocations?
  vector<string> idxargs(const Op&o);
  vector<Fault> faults(const Op&o,const vector<string>&args);   // fault described by fk/fm/fp/fa of the operation, placed by a dry run
  vector<string> cmd(const Op&o);             // a command line chosen by the operation (v selects the kind)
  void start();                               // folders, configuration, initial mail
  void steady(const string&cls,const Op&o,int nq=4); // an undisturbed index run followed by exact searches
  // store history
  bool store(const Op&o);                     // returns false if kind is not a store operation
  size_t pickfolder(Rng&q,int mask);
  MP_ newmsg(Rng&q);
  vector<string> threadids(Rng&q);
  void populate(Rng&q,int n);
  // observation
  vector<string> locs(const string&out);      // locations printed by a raw search
  vector<string> search(vector<string> args,Res*res=nullptr,bool thr=false);
  void expectset(const vector<string>&got,const vector<string>&want,const string&cls,const string&what);
  void verify(const string&cls,Rng&q,int nq); // searches agree with idx
  void verifyall(const string&cls);           // complete listing only
  string tokenarg(Rng&q,const Live&l,int&fld,string&tok);
  vector<string> want(std::function<bool(const Live&)> f);
  void nocrash(const Res&r,const string&cls);
  string db(){ string d; W->get(g_dbpath,d); return d; }
  bool locked(){ return W->exists(g_dbpath+".lock"); }
  vector<string> litter();                    // files next to the database that no orderly run leaves behind
};
struct Prop { const char*id; void(*gen)(Plan&,Rng&,int tier); void(*run)(const Plan&); };
extern vector<Prop> g_props; 
struct Reg { Reg(const char*i,void(*g)(Plan&,Rng&,int),void(*r)(const Plan&)){ g_props.push_back({i,g,r}); } };
extern int g_tier; extern bool g_dry; extern string g_drydb; extern u64 g_dryncmds;  // g_drydb: database left by the last dry run
extern const vector<string> STOREOPS;
void gen_fault(Op&o,Rng&r,int kinds,int mask=0); // kinds: bit set of 1 ERR 2 SIG 3 OOM 4 KILL 5 SHORT
enum { V_INDEX=0,V_RAW,V_FOLDER,V_AUG,V_THR,V_EXC,V_DUMP,V_BADQ,V_NOMATCH,V_HARD,V_OTHER,V_REFUSE,V_USAGE,V_HELP,V_BADQ2,V_PURGE,V_NUM };
void gen_history(Plan&p,Rng&r,int nops,int pidx,std::function<void(Op&,Rng&)> onindex);
void gen_knobs(Plan&p,Rng&r,int tier);
Fault mkfault(int kind,i64 at,int arg=0,int arg2=0);
string show(const vector<string>&v,size_t n=6);
