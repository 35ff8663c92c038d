// C01 exactness of searches over histories, C02 purge
#include "exec.h"
#include <algorithm>
static void idxopts(Op&o,Rng&r){ if(r.chance(1,5))o.p["purge"]=1; if(r.chance(1,10))o.p["noint"]=1; if(r.chance(1,12))o.p["verbose"]=1; }
static void gen01(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); if(r.chance(1,3))p.knob["badpct"]=10; if(r.chance(1,60)){ p.knob["huge"]=r.chance(1,2)?8300000+r.below(600000):990000+r.below(100000); if(r.chance(1,2))p.knob["ftypes"]=16<<r.below(3); } gen_history(p,r,4+r.below(tier?30:14),25,idxopts); }
static void run01(const Plan&pl){ Exec x(pl); x.stdfolders(); x.writerc(); { Rng q(pl.k("iseed",pl.seed)); x.populate(q,pl.k("init",5)); } x.later(100);
  for(auto&o:pl.ops){ if(x.store(o))continue; if(o.kind=="index"){ x.later(5); { Rng q(o.s); x.m.settle(q); } Res z=x.run(x.idxargs(o)); x.nocrash(z,"C01:index"); if(!z.ok()) fail("C01:index-failed","an index run without any fault exited with %s (stderr: %s)",z.p->status().c_str(),z.p->err.substr(0,400).c_str()); x.m.seen(true); x.idx=x.m.live(); if(W->exists(g_dbpath)||!x.idx.empty()){ Rng q(o.s); x.verify("C01",q,6); } } } }
static Reg r01("C01",gen01,run01);
