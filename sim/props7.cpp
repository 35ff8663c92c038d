// C12 index runs are incremental and idempotent
#include "util.h"
#include <algorithm>
struct Seen { i64 mtime, size; bool mbox; bool operator==(const Seen&o) const { return mtime==o.mtime&&size==o.size; } };
static map<string,Seen> scan(Exec&x){ map<string,Seen> r; auto put=[&](const string&p,bool mb){ string a; if(IP i=W->lookup(p,true,&a))r[a]={i->mtime,(i64)i->data.size(),mb}; }; for(auto&f:x.m.fo){ if(!f.listed||f.type==IMAP_||!W->exists(f.path))continue; if(f.type==MD||f.type==MH){ for(auto&i:f.items)put(f.path+"/"+i.file,false); } else put(f.path,true); } return r; }
static set<string> imapset(Exec&x){ set<string> r; for(auto&f:x.m.fo)if(f.type==IMAP_)for(auto&i:f.items)r.insert(std::to_string(i.uid)+"/"+f.name); return r; }
static void gen12(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["init"]=r.chance(1,10)?30+r.below(80):1+r.below(12); p.knob["many"]=6; if(r.chance(1,8)){ p.knob["ftypes"]|=0x80; p.knob["greet"]=r.below(4); } static const vector<string> H={"add","add","add","del","flag","move","change","change","mbdel","mbins","copy","touch","touch","restore","prepend","mbreorder","rename","backdate","rmfolder","mbempty","addmany"};
  int n=3+r.below(tier?16:9); p.add("index",r.next()); for(int i=0;i<n;i++){ if(r.chance(1,3)){ p.add("again",r.next()); }
    int k=r.chance(1,4)?0:r.below(4); while(k--)p.add(H[r.below(H.size())],r.next()); if(r.chance(1,8)){ Op&o=p.add("broken",r.next()); gen_fault(o,r,2+4+8+16+32); continue; }
    Op&o=p.add("index",r.next()); if(r.chance(1,5))o.p["purge"]=1; if(r.chance(1,8))o.p["noint"]=1; if(r.chance(1,8))o.p["verbose"]=1; if(r.chance(1,3))o.p["fast"]=1; } p.add("index",r.next()); p.add("again",r.next()); }
static void run12(const Plan&pl){ Exec x(pl); x.start(); g_acclog=true; struct Off{ ~Off(){ g_acclog=false; } } off; map<string,Seen> known, last; set<string> iknown; bool sure=true;
  for(auto&o:pl.ops){ if(x.store(o))continue; bool again=o.kind=="again"; if(o.kind!="index"&&!again&&o.kind!="broken")continue; Rng q(o.s^5); if(pl.k("dirseed"))W->dirseed=1+q.below(1000000);
    if(o.kind=="broken"){ x.later(3); x.m.settle(q); auto a=x.idxargs(o); auto f=x.faults(o,a); string b=x.db(); Res z=x.run(a,f); if(z.p->termsig!=9)x.nocrash(z,"C12:broken"); clearlock(x); for(auto&n:x.litter())if(n.find("mairix_db")!=string::npos)W->rm("/home/u/"+n); x.m.seen(false); if(x.db()!=b||!W->exists(g_dbpath)){ sure=false; } probe("broken_run"); continue; }
    x.later(5); if(!again)x.m.settle(q); vector<string> a=x.idxargs(o); bool fast=o.has("fast"); if(again&&q.chance(1,3)){ a.push_back("-F"); fast=true; } if(again&&q.chance(1,4))a.push_back("-p"); if(again)x.later(q.below(10000000));
    auto now=scan(x); auto inow=imapset(x); bool nochange=sure&&x.have&&now==last&&inow==iknown; bool stale=false; for(auto&k:now)if(!k.second.mbox){ auto j=known.find(k.first); if(!sure||(j!=known.end()&&!(j->second==k.second)))stale=true; }
    if(again){ if(nochange){ // dead records may still have to be purged, once
        Res z=x.run({"-p"}); if(!z.ok()) fail("C12:again","an index run with nothing to do exited with %s (stderr: %s)",z.p->status().c_str(),z.p->err.substr(0,300).c_str()); } }
    string b=x.db(); bool bex=W->exists(g_dbpath); W->imap->log.clear(); Res z=x.run(a); string what=fmt("'%s'",argsof(a).c_str()); x.nocrash(z,"C12"); if(!z.ok()) fail("C12:failed","%s without any fault exited with %s (stderr: %s)",what.c_str(),z.p->status().c_str(),z.p->err.substr(0,300).c_str());
    if(sure)for(auto&c:z.p->acc){ bool op=c.call=="open"||c.call=="openw"||c.call=="mmap"||c.call=="read"; auto k=known.find(c.path); if(k==known.end())continue; auto n=now.find(c.path); if(n==now.end())continue; if(op&&n->second==k->second) fail("C12:opened","%s opened %s, which has not changed since it was indexed",what.c_str(),c.path.c_str()); if(fast&&!k->second.mbox) fail("C12:looked","%s looked at %s (%s) although fast indexing was asked for",what.c_str(),c.path.c_str(),c.call.c_str()); }
    if(sure)for(auto&l:W->imap->log){ unsigned u; char c; string sel; static string cur; if(l.compare(0,7,"EXAMINE")==0||l.compare(0,6,"SELECT")==0){ cur=l.substr(l.find(' ')+1); if(!cur.empty()&&cur[0]=='{'){ size_t e=cur.find('\n'); cur=e==string::npos?cur:cur.substr(e+1); } if(!cur.empty()&&cur[0]=='"'){ cur=cur.substr(1,cur.size()-2); } } if(l.find("FETCH")!=string::npos&&l.find("BODY")!=string::npos&&sscanf(l.c_str(),"UID FETCH %u%c",&u,&c)>=1){ string key=std::to_string(u)+"/"+cur; probe("imap_fetches"); if(iknown.count(key)&&inow.count(key)) fail("C12:fetched","%s fetched IMAP message %s again",what.c_str(),key.c_str()); } }
    bool same=bex==W->exists(g_dbpath)&&x.db()==b; if(again&&nochange&&!same) fail("C12:rewritten","%s changed the database although nothing had changed since the last run",what.c_str());
    if(nochange)probe("nothing_changed"); if(fast)probe("fast"); 
    if(fast&&stale){ // documented: in-place changes of message files are not noticed
      probe("fast_with_stale_files"); last.clear(); x.m.seen(false); for(auto&k:now)if(!k.second.mbox){ auto j=known.find(k.first); if(j!=known.end())continue; known[k.first]=k.second; } for(auto j=known.begin();j!=known.end();){ auto n=now.find(j->first); if(n==now.end()){ j=known.erase(j); continue; } if(j->second.mbox&&!same)j->second=n->second; ++j; } if(!same)for(auto&k:now)if(k.second.mbox)known[k.first]=k.second; iknown=inow; if(!sure){ known.clear(); iknown.clear(); } continue; }
    x.m.seen(!fast||!stale); x.idx=x.m.live(); x.have=true; last=now; if(same){ if(!sure)known.clear(); for(auto&k:now)if(!k.second.mbox)known[k.first]=k.second; /* a touched mbox without new mail is not written to the database */ } else known=now; iknown=inow; sure=true; if(W->exists(g_dbpath)||!x.idx.empty()){ Rng v(o.s^9); g_acclog=false; x.verify("C12",v,2); g_acclog=true; } } }
static Reg r12("C12",gen12,run12);
