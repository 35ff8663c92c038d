// C10 transient trouble while indexing is repaired by the next run
#include "util.h"
#include <algorithm>
#include <cerrno>
static bool plainmsg(const Msg&m){ return m.raw.find("multipart/")==string::npos&&m.raw.find("\nFrom ")==string::npos; }
struct Half { string folder, file; Item it; string full; bool mbox; };
static void gen10(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["init"]=r.below(10); p.knob["many"]=6; p.knob["bodywords"]=10; p.knob.erase("bigwords"); if(r.chance(1,12)){ p.knob["init"]=20+r.below(60); } if(!r.chance(1,6))p.add("index",r.next()); int n=1+r.below(tier?6:4); static const vector<string> H={"add","add","add","del","flag","move","change","mbdel","mbins","copy","touch","restore","prepend","mbreorder","rename","backdate","rmfolder","mbempty"};
  for(int i=0;i<n;i++){ int k=r.below(4); while(k--)p.add(H[r.below(H.size())],r.next()); int reps=1+(r.chance(1,4)?1:0); while(reps--){ if(r.chance(1,4))p.add("half",r.next()).p["mh"]=r.chance(1,4);
      Op&o=p.add("disturb",r.next()); if(r.chance(1,6))o.p["purge"]=1; if(r.chance(1,8))o.p["noint"]=1; int kind=r.below(6);
      if(kind<3||kind==5){ o.p["nm"]=1+r.below(4); o.p["win"]=r.below(3); } if(kind==3||kind==5){ gen_fault(o,r,2+(r.chance(1,6)?32:0),r.chance(5,6)?C_MAIL:C_OTHER); if(r.chance(1,3)){ o.p["fk2"]=1; o.p["fm2"]=C_MAIL; o.p["fp2"]=r.below(1000000); o.p["fa2"]=r.below(1000); if(r.chance(1,2)){ o.p["fk3"]=1; o.p["fm3"]=C_MAIL; o.p["fp3"]=r.below(1000000); o.p["fa3"]=r.below(1000); } } } if(kind==4){ if(r.chance(1,3))o.p["tquota"]=r.below(6)*4096; else o.p["perm"]=1+r.below(3); }
      if(r.chance(1,3)){ int q=r.below(3); while(q--)p.add(H[r.below(H.size())],r.next()); } }
    if(!r.chance(1,8)){ p.add("finish",r.next()); p.add("index",r.next()); } } p.add("finish",r.next()); p.add("index",r.next()); }
static void run10(const Plan&pl){ Exec x(pl); x.start(); vector<Half> halves;
  auto finish=[&](){ for(auto&h:halves){ Folder*F=x.m.get(h.folder); if(!F)continue; if(h.mbox){ F->tail=""; if(W->exists(F->path)){ F->items.push_back(h.it); x.m.rewrite(*F); } } else if(W->exists(F->path)){ W->put(F->path+"/"+h.file,h.full); h.it.file=h.file; F->items.push_back(h.it); } } halves.clear(); };
  for(auto&o:pl.ops){ if(x.store(o)){ for(auto&h:halves)(void)h; continue; }
    if(o.kind=="half"){ x.later(5); Rng q(o.s); size_t k=x.pickfolder(q,o.get("mh")?2:4|8); if(k==(size_t)-1||!W->exists(x.m.fo[k].path))continue; Folder&F=x.m.fo[k]; bool dup=false; for(auto&h:halves)if(h.folder==F.name)dup=true; if(dup)continue; Half h; h.folder=F.name; h.mbox=F.type!=MH; MP_ g; for(int t=0;t<20;t++){ g=x.newmsg(q); if(plainmsg(*g))break; } if(!plainmsg(*g))continue; h.it.m=g; if(h.mbox){ if(F.type==MBOX)h.it.fromline="From half@host Mon Jan  1 10:00:00 2001"; if(F.type==MBOX)h.it.extra="\n"; string t=h.it.fromline+"\n"+g->raw; if(F.type==MMDF){ t="\1\1\1\1\n"+g->raw; if(t.back()!='\n')t+='\n'; t+="\1\1\1\1\n"; probe("half_mmdf"); } F.tail=t.substr(0,1+q.below(t.size())); x.m.rewrite(F); } else { h.full=g->raw; h.file=std::to_string(F.next++)+(F.mhmark=="cmeta"?".":""); W->put(F.path+"/"+h.file,g->raw.substr(0,q.below(g->raw.size()))); W->lookup(F.path+"/"+h.file)->mail=true; } halves.push_back(h); probe("half_delivered"); continue; }
    if(o.kind=="finish"){ x.later(5); finish(); continue; }
    if(o.kind=="index"){ if(!halves.empty()){ x.later(5); finish(); } x.steady("C10:next",o,4); continue; }
    if(o.kind!="disturb")continue; x.later(3); { Rng q(o.s); x.m.settle(q); } x.m.seen(false); auto a=x.idxargs(o); auto f=x.faults(o,a); vector<std::pair<u64,Op>> mut; int nm=o.get("nm");
    if(nm){ PP d=x.dry(a); vector<u64> st; int win=o.get("win"); for(size_t i=0;i<d->stepcat.size();i++)if(win==2||(d->stepcat[i]&C_MAIL))st.push_back(i+1); if(st.empty())st.push_back(1); Rng q(o.s^123); static const vector<string> H={"add","add","add","del","flag","move","change","mbdel","mbins","copy","touch","restore","prepend","mbreorder","rename","rmfolder","mbempty","del"}; u64 base=q.below(st.size()); for(int k=0;k<nm;k++){ Op m; m.kind=H[q.below(H.size())]; m.s=q.next(); u64 at=win==1?std::min<u64>(st.size()-1,base+q.below(6)):q.below(st.size()); mut.push_back({st[at],m}); } std::stable_sort(mut.begin(),mut.end(),[](auto&a,auto&b){return a.first<b.first;}); }
    vector<std::pair<Inode*,int>> perm; vector<IP> hold; if(o.has("perm")){ Rng q(o.s^9); vector<IP> c; int what=o.get("perm"); for(auto&F:x.m.fo){ if(F.type==IMAP_||!W->exists(F.path))continue; W->walk(F.path,[&](const string&p,Inode*i){ if((what==1)==(i->type==I_DIR))return; if(IP n=W->lookup(p))c.push_back(n); }); if(what==3&&(F.type==MD||F.type==MH))c.push_back(W->lookup(F.path)); } int n=1+q.below(3); while(n--&&!c.empty()){ IP i=c[q.below(c.size())]; hold.push_back(i); perm.push_back({i.get(),i->mode}); i->mode=0; ST.faults["unreadable"]++; } }
    if(o.has("tquota")){ W->tquota=o.get("tquota"); ST.faults["tmp-full"]++; }
    Res z; z.p=x.proc(a); z.p->faults=f; { Sim s; s.procs={z.p}; size_t next=0; W->atomicput=true; Rng sq(o.s^77); s.onstep=[&](Proc&p){ while(next<mut.size()&&p.steps>=mut[next].first){ int e=errno; ST.faults["concurrent-"+mut[next].second.kind]++; x.store(mut[next].second); x.m.settle(sq); x.m.seen(false); next++; errno=e; } }; s.run(); W->atomicput=false; }
    g_trace=hcomb(g_trace,z.code()); if(g_verbose)fprintf(stderr,"$ disturbed run\n%s%s=> %s %s\n",z.p->out.substr(0,500).c_str(),z.p->err.substr(0,1500).c_str(),z.p->status().c_str(),fwhere(z.p).c_str());
    W->tquota=-1; for(size_t k=perm.size();k-->0;)perm[k].first->mode=perm[k].second; string what=fmt("an index run disturbed by %s%zu changes of the mail",fwhere(z.p).empty()?"":(fwhere(z.p)+" and ").c_str(),mut.size()); x.nocrash(z,"C10"); if(z.p->termsig) fail("C10:killed","%s ended with %s (stderr: %s)",what.c_str(),z.p->status().c_str(),z.p->err.substr(0,200).c_str()); x.m.seen(false); probe(z.ok()?"disturbed_ok":"disturbed_failed"); } }
static Reg r10("C10",gen10,run10);
