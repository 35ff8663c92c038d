// C14 the meaning of queries, C02 purge
#include "query.h"
#include <algorithm>
static void idxopts(Op&o,Rng&r){ if(r.chance(1,6))o.p["purge"]=1; if(r.chance(1,10))o.p["noint"]=1; if(r.chance(1,12))o.p["verbose"]=1; }
// ---------------------------------------------------------------- C14
static void gen14(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); if(r.chance(1,4))p.knob["badpct"]=8; p.knob["init"]=3+r.below(30); if(r.chance(1,6))p.knob["ftypes"]|=0x80; if(!(p.knob["ftypes"]&0x80)&&r.chance(1,40))p.knob["huge"]=985000+r.below(130000); /* fetching that much from a slow server takes longer than mairix waits */ if(r.chance(1,2))p.knob["tz"]=r.below(NTZ); p.knob["greet"]=r.below(4);
  int rounds=1+r.below(tier?6:3); for(int i=0;i<rounds;i++){ if(i){ int n=1+r.below(4); while(n--)p.add(r.pick(STOREOPS),r.next()); } Op&o=p.add("index",r.next()); idxopts(o,r); int nq=4+r.below(10); while(nq--){ if(r.chance(1,4))p.add("clock",r.next()); p.add("query",r.next()); } } }
static void jump(Rng&q){ i64 now=W->now/1000000000LL, day=now/86400; i64 y; int m,d; uncivil(day,y,m,d); int k=q.below(8); i64 t=day; switch(k){ case 0: t=civil(y+1,1,1); break; case 1: t=civil(y,12,31); break; case 2: t=civil(y+(4-y%4),2,29); break; case 3: t=civil(y+1,3,1); break; case 4: t=m==12?civil(y+1,1,31):civil(y,m+1,1)-1; break; case 5: t=m==12?civil(y+1,1,1):civil(y,m+1,1); break; default: t=day+q.below(500); } i64 n=t*86400+(q.chance(1,4)?q.below(7200):q.chance(1,4)?86400-1-(i64)q.below(7200):(i64)q.below(86400)); if(n>now&&n<3900000000LL)W->now=n*1000000000LL; }
static void run14(const Plan&pl){ use_tz(pl.k("tz",0)); struct Z{ ~Z(){ use_tz(0); } } z_; Exec x(pl); x.start();
  for(auto&o:pl.ops){ if(x.store(o))continue;
    if(o.kind=="clock"){ Rng q(o.s); jump(q); probe("clock_jump"); continue; }
    if(o.kind=="index"){ x.steady("C14",o,-1); continue; }
    if(o.kind!="query"||!x.have||!W->exists(g_dbpath))continue;
    Rng q(o.s); { i64 s=W->now/1000000000LL%3600; if(s>3500)x.later(150); } // no change of date while a search is running
    RQuery rq=random_query(x,q); check_query(x,rq,"C14"); } }
static Reg r14("C14",gen14,run14);
// ---------------------------------------------------------------- C02
// The history is run twice, with the purges and without; every search has to give the same answer both times.
static void gen02(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); if(r.chance(1,4))p.knob["badpct"]=10; p.knob["init"]=r.below(25); if(r.chance(1,8)){ p.knob["ftypes"]|=0x80; p.knob["greet"]=r.below(4); } static const vector<string> DEL={"del","del","mbdel","mbdel","flag","move","change","rename","mbempty","rmfolder"};
  int rounds=2+r.below(tier?8:4); for(int i=0;i<rounds;i++){ if(i){ int n=1+r.below(5); while(n--)p.add(r.chance(1,2)?r.pick(DEL):r.pick(STOREOPS),r.next()); } Op&o=p.add("index",r.next()); if(i&&r.chance(1,2))o.p["purge"]=1; if(r.chance(1,12))o.p["noint"]=1; int nq=1+r.below(5); while(nq--)p.add("query",r.next()); } }
struct Pass2 { vector<string> got; int status; };
static void dump_check(Exec&x){ string db=x.db(); set<string> alive; for(auto&l:x.idx)alive.insert(l.m->uniq);
  for(auto&g:x.m.all) if(!alive.count(g->uniq)&&g->raw.find(g->uniq)!=string::npos&&db.find(g->uniq)!=string::npos) fail("C02:kept","after a purge the database still contains the word %s of a message that no longer exists",g->uniq.c_str());
  Res z=x.run({"-d"}); x.nocrash(z,"C02:dump"); if(!z.ok()) fail("C02:dump","dumping the database exited with %s",z.p->status().c_str()); 
  const string&o=z.p->out; size_t p=o.find('\n'); long n=p==string::npos?-1:atol(o.c_str()+p+1); if(n!=(long)x.idx.size()) fail("C02:count","after a purge the database contains %ld messages, but %zu exist",n,x.idx.size());
  probe("purged_database_dumped"); if(o.find("DEAD")!=string::npos) fail("C02:dead","after a purge the database still contains dead entries"); }
static map<int,Pass2> pass(const Plan&pl,bool purge){ map<int,Pass2> out; Exec x(pl); i64 t0=W->now; x.start(); bool havequery=false; int pos=0;
  for(auto&o:pl.ops){ pos++; i64 t=t0+(i64)(o.id+1)*400000LL*1000000000LL; if(t>W->now)W->now=t; if(x.store(o))continue;
    if(o.kind=="index"){ Op c=o; bool pg=o.has("purge"); if(!purge)c.p.erase("purge"); x.steady(purge?"C02:purged":"C02:plain",c,-1); havequery=true; if(purge&&pg&&W->exists(g_dbpath)){ probe("purge"); x.verifyall("C02:purged"); dump_check(x); } continue; }
    if(o.kind!="query"||!havequery||!W->exists(g_dbpath))continue; Rng q(o.s); RQuery rq=random_query(x,q); Res z; auto g=x.search(rq.args,&z); std::sort(g.begin(),g.end()); out[o.id]={g,z.code()}; }
  return out; }
static void run02(const Plan&pl){ auto a=pass(pl,false); u64 tr=g_trace; auto b=pass(pl,true); g_trace=hcomb(tr,g_trace);
  for(auto&k:b){ auto i=a.find(k.first); if(i==a.end())continue; if(i->second.got!=k.second.got||i->second.status!=k.second.status){ string qt; vector<string> miss,extra; std::set_difference(i->second.got.begin(),i->second.got.end(),k.second.got.begin(),k.second.got.end(),std::back_inserter(miss)); std::set_difference(k.second.got.begin(),k.second.got.end(),i->second.got.begin(),i->second.got.end(),std::back_inserter(extra)); fail("C02:differs","search operation %d answers differently when earlier index runs purged: lost %s, additional %s",k.first,show(miss).c_str(),show(extra).c_str()); } probe("same_answer"); } }
static Reg r02("C02",gen02,run02);
