// C05 mutual exclusion, C06 lock hygiene, C07 crash atomicity, C08 failed updates, C15 out of memory
#include "util.h"
#include <algorithm>
// ---------------------------------------------------------------- C05
static void gen05(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); p.knob["init"]=1+r.below(5); p.add("index",r.next()); int n=1+r.below(tier?4:3); for(int i=0;i<n;i++){ histbit(p,r,r.below(3)); Op&o=p.add("race",r.next()); int np=2+(r.chance(1,3)?1:0)+(r.chance(1,8)?1:0); o.p["n"]=np; if(r.chance(1,6))o.p["nfs"]=1;
    int sw=2+r.below(tier?80:40); int prof=r.below(4); for(int k=0;k<sw;k++)o.rl.push_back(prof==0?1+r.below(3):prof==1?1+r.below(12):r.chance(1,2)?1+r.below(9):r.below(120));
    static const int VS[]={V_INDEX,V_INDEX,V_INDEX,V_PURGE,V_FOLDER,V_AUG,V_RAW,V_DUMP,V_NOMATCH,V_BADQ,V_OTHER}; for(int k=0;k<np;k++){ o.p["v"+std::to_string(k)]=VS[r.below(11)]; if(r.chance(1,3)){ int fk=1+r.below(5); o.p["k"+std::to_string(k)]=fk; o.p["m"+std::to_string(k)]=r.chance(1,2)?C_LOCK:0; o.p["q"+std::to_string(k)]=r.below(1000000); o.p["a"+std::to_string(k)]=r.below(1000); } } } p.add("index",r.next()); }
static void run05(const Plan&pl){ Exec x(pl); x.start();
  for(auto&o:pl.ops){ if(x.store(o))continue; if(o.kind=="index"){ clearlock(x); x.steady("C05",o,-1); continue; } if(o.kind!="race")continue;
    x.later(3); { Rng q(o.s); x.m.settle(q); } int n=std::min<i64>(5,o.get("n",2)); Sim s; s.runlens=o.rl; vector<vector<string>> as; W->lockbad.clear();
    for(int k=0;k<n;k++){ Op c; string K=std::to_string(k); c.s=o.s+k*977; c.p["v"]=o.get("v"+K); if(o.has("k"+K)){ c.p["fk"]=o.get("k"+K); c.p["fm"]=o.get("m"+K); c.p["fp"]=o.get("q"+K); c.p["fa"]=o.get("a"+K); } auto a=x.cmd(c); PP q=x.proc(a); q->faults=x.faults(c,a); if(o.has("nfs")){ q->host="node"+K; q->pid=5000; } s.procs.push_back(q); as.push_back(a); }
    s.run(); bool kill=false; int ok=0; 
    for(int k=0;k<n;k++){ PP p=s.procs[k]; g_trace=hcomb(g_trace,p->exitcode*31+p->termsig); if(g_verbose)fprintf(stderr,"proc %d %s: %s owned=%d crit %llu..%llu\n%s",k,argsof(as[k]).c_str(),p->status().c_str(),p->owned,p->first_crit,p->last_crit,p->err.c_str()); Res z; z.p=p; x.nocrash(z,"C05"); if(killed(p))kill=true; if(p->ok())ok++; if(p->owned)probe("race_lock_taken"); else probe("race_refused"); }
    if(!W->lockbad.empty()) fail("C05:foreign-unlock","%s (pid-to-command: %s)",W->lockbad[0].c_str(),[&]{ string t; for(int k=0;k<n;k++)t+=fmt("%d=%s; ",s.procs[k]->pid,argsof(as[k]).c_str()); return t; }().c_str());
    for(int k=0;k<n;k++){ PP p=s.procs[k]; if(!p->owned&&p->first_crit) fail("C05:no-lock","'%s' (%s) worked on the database or match folder (%s) without ever holding the lock%s%s",argsof(as[k]).c_str(),p->status().c_str(),p->first_what.c_str(),fwhere(p).empty()?"":"; ",fwhere(p).c_str());
      if(!p->owned&&p->ok()) fail("C05:no-failure","'%s' did not get the database lock but exited with success",argsof(as[k]).c_str()); }
    for(int a=0;a<n;a++)for(int b=0;b<n;b++)if(a!=b){ PP p=s.procs[a],q=s.procs[b]; if(p->first_crit&&q->first_crit&&p->first_crit<=q->first_crit&&q->first_crit<=p->last_crit) fail("C05:overlap","'%s' worked on the database (from %s) while '%s' was still at work (until %s)",argsof(as[b]).c_str(),q->first_what.c_str(),argsof(as[a]).c_str(),p->last_what.c_str()); }
    x.m.seen(false); if(kill){ clearlock(x); } else noleft(x,"C05:lock-left","a set of concurrent runs, none of them killed,"); } }
static Reg r05("C05",gen05,run05);
// ---------------------------------------------------------------- C06
static void gen06(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); if(!r.chance(1,5))p.add("index",r.next()); int n=2+r.below(tier?10:6); for(int i=0;i<n;i++){ histbit(p,r,r.below(2)); if(r.chance(1,12)){ p.add("wreck",r.next()).p["w"]=r.below(6); } Op&o=p.add("cmd",r.next()); o.p["v"]=r.chance(1,3)?0:r.below(V_NUM); if(r.chance(1,10))o.p["verbose"]=1; if(r.chance(1,8))o.p["cfg"]=1+r.below(7); if(!r.chance(1,5))gen_fault(o,r,2+4+8+16+64); } p.add("unwreck",r.next()); p.add("index",r.next()); }
static void run06(const Plan&pl){ Exec x(pl); x.start(); string saved;
  for(auto&o:pl.ops){ if(x.store(o))continue;
    if(o.kind=="wreck"){ string d=x.db(); int w=o.get("w"); Rng q(o.s); if(w==0)W->put(g_dbpath,""); else if(w==1)W->put(g_dbpath,"garbage, not a database at all, but long enough to look at\n"); else if(w==2&&d.size()>8)W->put(g_dbpath,d.substr(0,4)+"\xff"+d.substr(5)); else if(w==3&&W->lookup(g_dbpath))W->lookup(g_dbpath)->mode=0; else if(w==4){ W->rm(g_dbpath); W->mkdirs(g_dbpath); } else if(w==5){ W->rm(g_dbpath); W->symlink("/nonexistent/db",g_dbpath); } continue; }
    if(o.kind=="unwreck"){ W->rm(g_dbpath); clearlock(x); continue; }
    if(o.kind=="index"){ if(W->exists(g_dbpath+".lock"))continue; x.steady("C06",o,-1); continue; }
    if(o.kind!="cmd")continue;
    x.later(3); string keep; W->get("/home/u/.mairixrc",keep); int cfg=o.get("v")==V_REFUSE?0:o.get("cfg"); /* without the folders in the configuration a match folder there is no longer refused */ string alt=keep; auto drop=[&](const string&k){ size_t a=alt.find("\n"+k); if(a!=string::npos)alt.erase(a,alt.find('\n',a+1)-a); }; if(cfg==1)drop("mfolder="); else if(cfg==2)drop("database="); else if(cfg==3)alt+="mfolder=/nonexistent/place\n"; else if(cfg==4){ drop("maildir=");drop("mh=");drop("mbox="); } else if(cfg==5)alt+="bogus line\n"; else if(cfg==6){ drop("maildir="); alt+="maildir=nosuch:md0:md0:...\n"; } else if(cfg==7)alt="database=/home/u/.mairix_db\n"; if(cfg)W->put("/home/u/.mairixrc",alt);
    auto a=x.cmd(o); auto f=x.faults(o,a); bool crashy=false; Res z=x.run(a,f); W->put("/home/u/.mairixrc",keep); x.m.seen(false); (void)crashy;
    string what="'"+argsof(a)+"' ("+z.p->status()+(fwhere(z.p).empty()?"":"; "+fwhere(z.p))+")";
    if(killed(z.p)){ probe("killed"); bool lk=x.locked(); Op c=o; c.p.erase("fk"); c.p["unlock"]=1; c.p["v"]=V_INDEX; auto ua=x.cmd(c); bool dirdb=W->lookup(g_dbpath)&&W->lookup(g_dbpath)->type==I_DIR; (void)dirdb;
      for(auto&op:pl.ops)if(op.kind=="wreck"&&op.id<o.id){ W->rm(g_dbpath); break; }
      { Rng q(o.s^5); x.m.settle(q); } Res u=x.run(ua); x.nocrash(u,"C06:unlock"); if(!u.ok()) fail("C06:unlock-failed","after a kill at %s an index run with --unlock exited with %s (stderr: %s)",fwhere(z.p).c_str(),u.p->status().c_str(),u.p->err.substr(0,200).c_str()); if(x.locked()) fail("C06:unlock-left","a run with --unlock left the lock behind"); x.m.seen(true); x.idx=x.m.live(); Res n=x.run({"-d"}); if(!x.idx.empty()&&!n.ok()) fail("C06:after-unlock","after --unlock the next run exited with %s (stderr: %s)",n.p->status().c_str(),n.p->err.substr(0,200).c_str()); clearlock(x); if(lk)probe("stale_lock_cleared"); continue; }
    x.nocrash(z,"C06"); noleft(x,"C06:lock-left",what); if(!z.ok())probe("orderly_failure"); else probe("orderly_success"); } }
static Reg r06("C06",gen06,run06);
// ---------------------------------------------------------------- C07
static void gen07(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); if(r.chance(1,6)){ p.knob["init"]=30+r.below(60); p.knob["bigwords"]=300; } if(!r.chance(1,4))p.add("index",r.next()); int n=1+r.below(tier?5:3); for(int i=0;i<n;i++){ histbit(p,r,1+r.below(3)); int k=1+(r.chance(1,4)?1:0); while(k--){ Op&o=p.add("crash",r.next()); o.p["v"]=r.chance(1,5)?V_PURGE:V_INDEX; if(r.chance(1,8))o.p["noint"]=1; int m=r.chance(1,2)?C_DB:r.chance(1,2)?(C_DB|C_LOCK):0; int kind=r.below(3); gen_fault(o,r,kind==0?4:16,m); if(m==C_DB&&!r.chance(1,4))o.p["fp"]=500000+r.below(500000); if(kind==2)o.p["power"]=1+r.below(1000000000); } if(r.chance(1,2)){ histbit(p,r,r.below(2)); p.add("index",r.next()); } } p.add("index",r.next()); }
static void run07(const Plan&pl){ Exec x(pl); x.start();
  for(auto&o:pl.ops){ if(x.store(o))continue;
    if(o.kind=="index"){ clearlock(x); x.steady("C07:next",o,3); continue; } if(o.kind!="crash")continue;
    clearlock(x); x.later(3); { Rng q(o.s); x.m.settle(q); } auto a=x.cmd(o); string old=x.db(); bool had=W->exists(g_dbpath); auto f=x.faults(o,a); string nw=g_drydb; if(!o.has("fk")){ x.dry(a); nw=g_drydb; } if(o.has("power"))W->jbegin(); Res z=x.run(a,f); if(o.has("power")){ W->powerloss(o.get("power")); ST.faults["power-loss"]++; } W->journal=false; x.m.seen(false);
    x.nocrash(z,"C07"); bool has=W->exists(g_dbpath); string cur=x.db(); string what=fmt("index run ended by %s%s",fwhere(z.p).empty()?z.p->status().c_str():fwhere(z.p).c_str(),o.has("power")?", then power loss":"");
    if(has!=had&&!has) fail("C07:vanished","%s: the database is gone",what.c_str());
    if(has&&!(had&&cur==old)&&cur!=nw) fail("C07:torn","%s: the database (%zu bytes) is neither the one before (%zu bytes) nor the complete new one (%zu bytes)",what.c_str(),cur.size(),old.size(),nw.size());
    if(has&&cur==nw&&cur!=old){ probe("new_database_after_crash"); x.idx=x.m.live(); x.have=true; } else probe("old_database_after_crash");
    if(has&&!x.idx.empty()&&x.have){ Res s=x.run({"--unlock","-r","s:~zzznosuchword"}); x.nocrash(s,"C07:search"); x.expectset(x.locs(s.p->out),x.want([](const Live&){return true;}),"C07:search",what+", then a listing"); } } }
static Reg r07("C07",gen07,run07);
// ---------------------------------------------------------------- C08
static void gen08(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); if(r.chance(1,6)){ p.knob["init"]=30+r.below(60); p.knob["bigwords"]=300; } if(!r.chance(1,4))p.add("index",r.next()); int n=1+r.below(tier?6:4); for(int i=0;i<n;i++){ histbit(p,r,1+r.below(3)); Op&o=p.add("try",r.next()); o.p["v"]=r.chance(1,5)?V_PURGE:V_INDEX; int k=r.below(10); if(k<6){ gen_fault(o,r,2,C_DB); if(r.chance(2,3))o.p["fp"]=300000+r.below(700000); } else if(k==6)gen_fault(o,r,32); else if(k<9)o.p["quota"]=r.below(r.chance(1,3)?2:40)*4096; else o.p["perm"]=1+r.below(3); if(r.chance(1,6)){ o.p["fk2"]=1; o.p["fm2"]=C_DB; o.p["fp2"]=r.below(1000000); o.p["fa2"]=r.below(1000); if(!o.has("fk")){ o.p["fk"]=5; o.p["fp"]=1; o.p["fa"]=3; } } if(r.chance(1,3)){ histbit(p,r,r.below(2)); p.add("index",r.next()); } } p.add("index",r.next()); }
static void run08(const Plan&pl){ Exec x(pl); x.start();
  for(auto&o:pl.ops){ if(x.store(o))continue; if(o.kind=="index"){ x.steady("C08:next",o,3); continue; } if(o.kind!="try")continue;
    x.later(3); { Rng q(o.s); x.m.settle(q); } auto a=x.cmd(o); string old=x.db(); bool had=W->exists(g_dbpath); auto f=x.faults(o,a); if(o.has("quota"))W->quota=o.get("quota"); int pm=o.get("perm"); if(pm==1&&had)W->lookup(g_dbpath)->mode=0400; if(pm==2)W->lookup("/home/u")->mode=0500; if(pm==3&&had)W->lookup(g_dbpath)->mode=0; if(pm)ST.faults["permission"]++;
    Res z=x.run(a,f); W->quota=-1; W->walk("/",[](const string&,Inode*i){ i->ainit=false; i->apages.clear(); }); if(pm){ W->lookup("/home/u")->mode=0755; if(IP i=W->lookup(g_dbpath))i->mode=0600; }
    string what=fmt("'%s'%s%s%s",argsof(a).c_str(),fwhere(z.p).empty()?"":(" with "+fwhere(z.p)).c_str(),o.has("quota")?fmt(" with %lld bytes of disk left",o.get("quota")).c_str():"",pm?fmt(" with permission fault %d",pm).c_str():""); x.nocrash(z,"C08");
    if(z.p->termsig) fail("C08:killed","%s ended with %s",what.c_str(),z.p->status().c_str());
    if(z.ok()){ probe("update_succeeded"); x.m.seen(true); x.idx=x.m.live(); x.have=true; bool any=false; for(auto&q:z.p->faults)any|=q.fired; if(any)probe("success_despite_fault"); if(W->exists(g_dbpath)||!x.idx.empty()){ Rng q(o.s^9); try{ x.verify("C08:stored",q,4); }catch(Viol&v){ throw Viol{v.cls,what+" exited with success, but: "+v.msg}; } } }
    else { probe("update_failed"); x.m.seen(false); bool has=W->exists(g_dbpath); if(has!=had||x.db()!=old) fail("C08:changed","%s exited with %s but the database changed: %zu bytes %s before, %zu bytes %s after",what.c_str(),z.p->status().c_str(),old.size(),had?"(present)":"(absent)",x.db().size(),has?"(present)":"(absent)"); if(had&&!x.idx.empty()&&x.have){ x.verifyall("C08:usable"); } } } }
static Reg r08("C08",gen08,run08);
// ---------------------------------------------------------------- C15
static void gen15(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); if(r.chance(1,5)){ p.knob["ftypes"]=(int)p.knob["ftypes"]|0x80; p.knob["greet"]=r.below(4); } if(!r.chance(1,5))p.add("index",r.next()); int n=1+r.below(tier?6:4); static const int VS[]={V_INDEX,V_INDEX,V_INDEX,V_PURGE,V_FOLDER,V_AUG,V_RAW,V_THR,V_EXC,V_DUMP,V_HARD,V_OTHER}; for(int i=0;i<n;i++){ histbit(p,r,r.below(3)); Op&o=p.add("oom",r.next()); o.p["v"]=VS[r.below(12)]; if(r.chance(1,6))o.p["verbose"]=1; gen_fault(o,r,8); o.p["fa"]=r.chance(1,2); if(r.chance(1,3))p.add("index",r.next()); } p.add("index",r.next()); }
static void run15(const Plan&pl){ Exec x(pl); x.start();
  for(auto&o:pl.ops){ if(x.store(o))continue; if(o.kind=="index"){ x.steady("C15:next",o,2); continue; } if(o.kind!="oom")continue;
    x.later(3); { Rng q(o.s); x.m.settle(q); } auto a=x.cmd(o); auto f=x.faults(o,a); string old=x.db(); u64 mh=W->treehash("/home/u/mail"); W->mailmut.clear(); Res z=x.run(a,f); string what=fmt("'%s' with %s failing",argsof(a).c_str(),fwhere(z.p).empty()?"no allocation":fwhere(z.p).c_str()); bool fired=!f.empty()&&z.p->faults[0].fired; 
    if(z.p->crashed()) fail("C15:crash","%s: %s (stderr: %s)",what.c_str(),z.p->status().c_str(),z.p->err.substr(0,200).c_str());
    noleft(x,"C15:lock-left",what+" ("+z.p->status()+")"); if(mh!=W->treehash("/home/u/mail")||!W->mailmut.empty()) fail("C15:mail","%s changed the mail folders",what.c_str());
    bool isidx=o.get("v")==V_INDEX||o.get("v")==V_PURGE;
    if(z.ok()&&isidx){ x.m.seen(true); x.idx=x.m.live(); x.have=true; if(W->exists(g_dbpath)||!x.idx.empty()){ try{ x.verifyall("C15:silent"); }catch(Viol&v){ throw Viol{v.cls,what+" exited with success, but: "+v.msg}; } } continue; }
    if(fired&&z.p->exitcode==0&&!isidx) { Op c=o; c.p.erase("fk"); PP d=x.dry(a); if(d->out!=z.p->out) fail("C15:silent","%s exited with success and a different result",what.c_str()); }
    if(x.db()!=old) fail("C15:db","%s (%s) changed the database",what.c_str(),z.p->status().c_str());
    if(fired)probe("oom_clean_failure"); x.m.seen(false);
    Res n=x.run(a); x.nocrash(n,"C15:repeat"); if(isidx){ if(!n.ok()) fail("C15:repeat","%s; repeated with memory available it exits with %s (stderr: %s)",what.c_str(),n.p->status().c_str(),n.p->err.substr(0,200).c_str()); x.m.seen(true); x.idx=x.m.live(); x.have=true; if(W->exists(g_dbpath)||!x.idx.empty())x.verifyall("C15:repeat"); } } }
static Reg r15("C15",gen15,run15);
