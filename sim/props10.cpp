// C11 IMAP indexing and fetching is exact and survives a bad connection
#include "util.h"
#include "query.h"
#include <algorithm>
#include <cerrno>
static const vector<string> HI={"add","add","add","del","copy","imapdel","imapflag","imapreset","imaprm","restore","move"};
static void badserver(Op&o,Rng&r){ int n=1+(r.chance(1,4)?1:0); for(int k=0;k<n;k++){ string s=k?"2":""; static const int K[]={0,0,1,1,1,2,2,3,4,5,6,8,8}; o.p["ik"+s]=K[r.below(13)]; o.p["ip"+s]=r.chance(1,8)?0:1+r.below(1000000); o.p["ia"+s]=r.below(100000); } }
static void oddserver(Op&o,Rng&r){ int n=r.below(4); for(int k=0;k<n;k++){ string s=std::to_string(k+3); o.p["ik"+s]=r.chance(1,4)?9:7; o.p["ip"+s]=1+r.below(1000000); o.p["ia"+s]=r.below(100000); } }
static void gen11(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["ftypes"]=0x80|(r.chance(1,2)?r.below(128):0); p.knob["nmb"]=0; if(r.chance(1,5))p.knob["badpct"]=10; p.knob["nmd"]=0; p.knob.erase("mblnk"); p.knob["init"]=r.chance(1,12)?40+r.below(60):1+r.below(10); p.knob["many"]=8; p.knob["bodywords"]=r.chance(1,6)?400:10; p.knob.erase("bigwords"); p.knob["greet"]=r.below(4); if(r.chance(1,2))p.knob["imapserver"]=1; if(r.chance(1,3))p.knob["pw"]=1+r.below(5); if(r.chance(1,2)){ p.knob["fname"]=1+r.below(9); if(r.chance(1,4))p.knob["fname2"]=1+r.below(9); } if(r.chance(1,4))p.knob["omit"]=1+r.below(4); if(r.chance(2,3))p.knob["jitter"]=1; static const int OFS[]={IMAP_,IMAP_,IMAP_,MD,MH,MBOX}; p.knob["oft"]=OFS[r.below(6)]; if(r.chance(1,6))p.knob["rname"]=1+r.below(3);
  if(r.chance(1,200)){ Op&o=p.add("bulk",r.next()); o.p["imap"]=1; o.p["n"]=1020+r.below(20); p.knob.erase("jitter"); }
  { Op&o=p.add("index",r.next()); oddserver(o,r); } int n=3+r.below(tier?14:8);
  for(int i=0;i<n;i++){ if(r.chance(1,2)){ int k=1+r.below(3); while(k--)p.add(HI[r.below(HI.size())],r.next()); } int w=r.below(7);
    if(w<2){ Op&o=p.add("index",r.next()); oddserver(o,r); if(r.chance(1,4))o.p["purge"]=1; if(r.chance(1,4))o.p["fast"]=1; }
    else if(w<4){ Op&o=p.add("fidx",r.next()); if(r.chance(1,4))o.p["purge"]=1; if(r.chance(2,3))badserver(o,r); else if(r.chance(1,2)){ gen_fault(o,r,2,C_NET); if(r.chance(1,3)){ o.p["fk2"]=1; o.p["fm2"]=C_NET; o.p["fp2"]=r.below(1000000); o.p["fa2"]=r.below(1000); } } else { o.p["nm"]=1+r.below(3); } oddserver(o,r); if(!r.chance(1,3)){ Op&o2=p.add("index",r.next()); oddserver(o2,r); } }
    else { Op&o=p.add("find",r.next()); o.p["mode"]=r.below(8); if(r.chance(1,3))o.p["aug"]=1; if(r.chance(1,10))o.p["thr"]=1; if(r.chance(1,6))o.p["few"]=1; if(r.chance(1,8))o.p["nohit"]=1; oddserver(o,r); if(r.chance(1,2)){ if(r.chance(2,3))badserver(o,r); else gen_fault(o,r,2,C_NET); } } }
  { Op&o=p.add("index",r.next()); oddserver(o,r); } }
static void run11(const Plan&pl){ Exec x(pl); { static const char*PW[]={"pass","pa\\ss","pa\"ss","p\xc3\xa4ss","two words","ba(d)*{x}%"}; string pw=PW[pl.k("pw")%6]; if(pl.k("pw")==5)pw="ba(d)*{x}"; W->imap->pass=pw; }
  static const char*FN[]={"","Sent Items","we\"ird","caf\xc3\xa9","[Gmail]/All Mail","INBOX","a(b)c","imap0.old","imap","imap0/sub"}; if(pl.k("fname"))x.addfolder(IMAP_,FN[pl.k("fname")%10]); if(pl.k("fname2")&&pl.k("fname2")!=pl.k("fname"))x.addfolder(IMAP_,FN[pl.k("fname2")%10]); { static const char*ON[]={"","imap0.old","imap","imap0/sub","xx"}; static const char*OP[]={"","imap0.*","imap","imap0/*","x[a-x]"}; if(int k=pl.k("omit")%5){ bool dup=false; for(auto&F:x.m.fo)if(F.type==IMAP_&&F.name==ON[k])dup=true; if(!dup){ x.addfolder(IMAP_,ON[k]); x.m.fo.back().listed=false; x.m.fo.back().omitted=true; x.omit=OP[k]; for(auto&F:x.m.fo)if(&F!=&x.m.fo.back()&&F.type==IMAP_&&k==1&&F.name=="imap0.old")F.listed=false; probe("imap_omit"); } } }
  x.start(); if(x.oft>2)x.oft=IMAP_; static const char*RN[]={"results","my results","re\"sults","r\\esults"}; string rname=RN[pl.k("rname")%4]; if(x.oft==IMAP_){ x.mfolder=rname; W->imap->outfolder=rname; } x.writerc(); ImapState&im=*W->imap; unsigned uv=5000; bool fresh=false;
  auto remake=[&](){ for(auto&F:x.m.fo)if(F.type==IMAP_&&!im.folders.count(F.name)){ im.folders[F.name].uidvalidity=uv++; } };
  auto sync=[&](){ for(auto&F:x.m.fo)if(F.type==IMAP_){ auto k=im.folders.find(F.name); vector<Item> v; for(auto&i:F.items){ bool have=false; if(k!=im.folders.end())for(auto&m:k->second.msgs)if(m.uid==i.uid&&!m.flags.count("\\Deleted"))have=true; if(have)v.push_back(i); } F.items=v; } };
  auto server=[&](const Op&o,const vector<string>&a){ im.faults.clear(); im.ncmds=0; im.seed=o.s; im.jitter=pl.k("jitter"); bool any=false; for(auto&k:o.p)if(k.first.compare(0,2,"ik")==0)any=true; if(!any)return 0LL; x.dry(a); i64 n=g_dryncmds,slow=0; for(auto&k:o.p)if(k.first.compare(0,2,"ik")==0){ string s=k.first.substr(2); ImapFault f; f.kind=k.second; i64 ip=o.get("ip"+s); f.at=ip==0?0:1+(ip-1)%std::max<i64>(n,1); f.arg=o.get("ia"+s); if(f.kind==6){ static const int D[]={1,5,9,11,30,39,45,61,100,1000}; f.arg=D[f.arg%10]; slow+=f.arg; } if(f.kind==9){ f.kind=6; f.arg=f.arg%8; } im.faults.push_back(f); } return (long long)slow; };
  static const set<string> HS={"imapdel","imapflag","imapreset","imaprm"};
  auto hist=[&](const Op&o)->bool{ if(HS.count(o.kind)){ remake(); Rng q(o.s); x.later(1+q.below(5000)); size_t k=x.pickfolder(q,0x80); if(k==(size_t)-1)return true; Folder&F=x.m.fo[k]; IFolder&G=im.folders[F.name];
      if(o.kind=="imaprm"){ im.folders.erase(F.name); F.items.clear(); probe("mailbox_removed"); return true; }
      if(o.kind=="imapreset"){ G.uidvalidity=uv++; unsigned u=1+q.below(3); map<unsigned,unsigned> mp; for(auto&m:G.msgs){ mp[m.uid]=u; m.uid=u; u+=1+q.below(2); } G.uidnext=u; for(auto&i:F.items)i.uid=mp[i.uid]; probe("uidvalidity_changed"); return true; }
      if(G.msgs.empty())return true; IMsg&m=G.msgs[q.below(G.msgs.size())]; if(o.kind=="imapdel"){ m.flags.insert("\\Deleted"); sync(); } else { static const char*FL[]={"\\Seen","\\Answered","\\Flagged","$Junk","\\Draft"}; const char*f=FL[q.below(5)]; if(m.flags.count(f))m.flags.erase(f); else m.flags.insert(f); } return true; }
    static const set<string> SO(STOREOPS.begin(),STOREOPS.end()); if(!SO.count(o.kind)&&o.kind!="bulk")return false; remake(); x.store(o); return true; };
  auto bounded=[&](const Res&z,i64 t0,i64 slow,const string&what){ i64 s=(W->now-t0)/1000000000LL; if(s>300+slow) fail("C11:slow","%s took %lld seconds of waiting for the server",what.c_str(),(long long)s); (void)z; };
  for(auto&o:pl.ops){ if(hist(o))continue;
    if(o.kind=="index"){ clearlock(x); x.later(3); { Rng q(o.s^5); x.m.settle(q); } server(o,x.idxargs(o)); i64 t0=W->now; x.steady("C11",o,4); fresh=true; (void)t0; im.faults.clear(); continue; }
    if(o.kind=="fidx"){ clearlock(x); x.later(3); { Rng q(o.s); x.m.settle(q); } x.m.seen(false); auto a=x.idxargs(o); i64 slow=server(o,a); auto f=x.faults(o,a); vector<std::pair<u64,Op>> mut; if(int nm=o.get("nm")){ PP d=x.dry(a); Rng q(o.s^123); vector<u64> st; for(size_t i=0;i<d->stepcat.size();i++)if(d->stepcat[i]&C_NET)st.push_back(i+1); if(st.empty())st.push_back(1); while(nm--){ Op m; m.kind=HI[q.below(HI.size())]; m.s=q.next(); mut.push_back({st[q.below(st.size())],m}); } std::stable_sort(mut.begin(),mut.end(),[](auto&a,auto&b){return a.first<b.first;}); }
      fresh=false; string before=x.db(); im.ncmds=0; i64 t0=W->now; Res z; z.p=x.proc(a); z.p->faults=f; i64 extra=0; { Sim s; s.procs={z.p}; size_t next=0; W->atomicput=true; Rng sq(o.s^77); s.onstep=[&](Proc&p){ while(next<mut.size()&&p.steps>=mut[next].first){ int e=errno; i64 t=W->now; ST.faults["concurrent-"+mut[next].second.kind]++; hist(mut[next].second); x.m.settle(sq); x.m.seen(false); extra+=W->now-t; W->now=t; next++; errno=e; } }; s.run(); W->atomicput=false; } im.faults.clear(); sync(); x.m.seen(false);
      g_trace=hcomb(g_trace,z.code()); if(g_verbose)fprintf(stderr,"$ disturbed %s\n%s%s=> %s %s\n",argsof(a).c_str(),z.p->out.substr(0,500).c_str(),z.p->err.substr(0,2500).c_str(),z.p->status().c_str(),fwhere(z.p).c_str());
      string what=fmt("an index run with a bad server (%s%s%s)",z.p->status().c_str(),fwhere(z.p).empty()?"":"; ",fwhere(z.p).c_str()); x.nocrash(z,"C11"); bounded(z,t0,slow,what); x.later(extra/1000000000LL); if(!z.ok()&&x.db()!=before) fail("C11:failed-changed","%s failed but changed the database",what.c_str()); noleft(x,"C11:lock",what); probe(z.ok()?"bad_index_ok":"bad_index_failed");
      // whatever it managed to index, nothing is found by another message's words
      if(W->exists(g_dbpath)){ Rng q(o.s^3); vector<Live> live=x.m.live(); for(int k=0;k<3&&!live.empty();k++){ const Live&l=live[q.below(live.size())]; if(l.m->uniq.empty())continue; auto got=x.search({"s:"+l.m->uniq}); for(auto&g:got){ bool ok=false; for(auto&j:live)if(j.loc==g&&j.m->tok[SUBJ].count(l.m->uniq))ok=true; bool islive=false; for(auto&j:live)if(j.loc==g&&j.imap)islive=true; if(islive&&!ok) fail("C11:wrong","after %s a search for %s returns %s, which does not contain it",what.c_str(),l.m->uniq.c_str(),g.c_str()); } } } continue; }
    if(o.kind!="find"||!fresh||!x.have||!W->exists(g_dbpath))continue; clearlock(x); x.later(3); Rng q(o.s); bool thr=o.has("thr"); vector<string> qa; if(o.has("nohit"))qa={"s:zzznosuchword"}; else if(o.has("few")&&!x.idx.empty())qa={"s:"+x.idx[q.below(x.idx.size())].m->uniq}; else if(q.chance(1,2))qa={"s:~zzznosuchword"}; else qa=random_query(x,q,QK_WORD|QK_SIZE,2).args;
    im.faults.clear(); auto res=x.search(qa,nullptr,thr); map<string,const Live*> byloc; for(auto&l:x.idx)byloc[l.loc]=&l; vector<const Live*> hits; bool stale=false; for(auto&s:res){ if(!byloc.count(s)){ stale=true; continue; } hits.push_back(byloc[s]); }
    int mode=o.get("mode"); bool exc=mode==7, aug=o.has("aug")&&!exc; vector<string> a; if(aug)a.push_back("-a"); if(thr)a.push_back("-t"); if(exc)a.push_back("-x"); a.insert(a.end(),qa.begin(),qa.end());
    bool isimap=x.oft==IMAP_; string dir=x.mfolder; typedef std::multiset<string> MS; auto flags=[](const set<string>&f){ return fmt("S%dR%dF%d ",(int)f.count("\\Seen"),(int)f.count("\\Answered"),(int)f.count("\\Flagged")); };
    auto folder=[&]()->MS{ MS r; if(isimap){ auto k=im.folders.find(dir); if(k!=im.folders.end())for(auto&m:k->second.msgs)r.insert(flags(m.flags)+rstrip(m.data)); return r; } if(x.oft==MBOX){ string d; W->get(dir,d); bool j; for(auto&e:mboxentries(d,j))r.insert(e.first+": "+rstrip(e.second)); return r; } for(auto&e:entries(x.oft,dir)){ if(e.second.kind=="dir")continue; if(e.second.kind=="link"){ r.insert("link "+e.second.target); continue; } string d=e.second.data,src; if(d.compare(0,17,"X-source-folder: ")==0){ size_t n=d.find('\n'); src=d.substr(17,n-17); d=d.substr(n+1); } r.insert(src+": "+rstrip(d)); } return r; };
    auto cur=[&](const Live&l,IMsg&m)->bool{ string f=l.path.substr(l.path.find(':',l.path.find(':')+1)+1); unsigned v=strtoul(l.path.c_str(),nullptr,10),u=strtoul(l.path.c_str()+l.path.find(':')+1,nullptr,10); auto k=im.folders.find(f); if(k==im.folders.end()||k->second.uidvalidity!=v)return false; for(auto&y:k->second.msgs)if(y.uid==u){ m=y; return true; } return false; };
    MS want; for(auto l:hits){ if(l->imap){ IMsg m; if(!cur(*l,m)){ stale=true; continue; } want.insert(isimap?flags(m.flags)+rstrip(m.data):": "+rstrip(m.data)); } else { string d; if(l->mbox){ bool same=false; for(auto&F:x.m.fo)if(F.path==l->path){ string b=Model::mboxbytes(F); for(auto&i:F.items)if(i.start==l->start&&i.len==l->len&&i.m==l->m)same=true; } if(!same)stale=true; d=l->m->raw; } else { if(!W->get(l->path,d)){ stale=true; if(isimap||x.oft==MBOX)continue; } else if(d!=l->m->raw)stale=true; } if(isimap)want.insert(fmt("S%dR%dF%d ",l->s,l->r,l->f)+rstrip(d)); else if(l->mbox||x.oft==MBOX)want.insert(l->path+": "+rstrip(d)); else want.insert("link "+l->path); } }
    MS before=folder(); i64 slow=server(o,a); auto f=x.faults(o,a); im.ncmds=0; i64 t0=W->now; im.log.clear(); Res z=x.run(a,f); bool bad=false; for(auto&k:im.faults)if(k.kind!=7&&!(k.kind==6&&k.arg<9))bad=true; for(auto&k:z.p->faults)bad|=k.fired; bool expunged=false; for(auto&k:im.faults)if(k.kind==8&&k.fired)expunged=true; im.faults.clear(); sync();
    string what=fmt("'%s' into %s (%s%s%s)",argsof(a).c_str(),isimap?("IMAP folder "+dir).c_str():dir.c_str(),z.p->status().c_str(),fwhere(z.p).empty()?"":"; ",fwhere(z.p).c_str()); x.nocrash(z,"C11"); bounded(z,t0,slow,what); noleft(x,"C11:lock",what); for(auto&l:im.log) if(l.find("SIDE-EFFECT")==0||l.find("UNKNOWN")==0) fail("C11:protocol","%s sent a bad command: %s",what.c_str(),l.c_str());
    if(exc){ if(!bad&&!stale){ const string D="---------------------------------\n"; const string&t=z.p->out; size_t p=0; size_t nb=0; while((p=t.find(D,p))!=string::npos){ size_t b=p+D.size(),e=t.find(D,b); string blk=t.substr(b,e==string::npos?string::npos:e-b); auto v=x.locs(blk.substr(0,blk.find('\n')+1)); nb++; if(v.size()==1&&byloc.count(v[0])&&!byloc[v[0]]->m->bad&&blk.find(byloc[v[0]]->m->uniq)==string::npos) fail("C11:excerpt","%s shows for %s: %s",what.c_str(),v[0].c_str(),shorten(blk).c_str()); p=b; } if(nb!=hits.size()) fail("C11:excerpt","%s shows %zu messages instead of %zu",what.c_str(),nb,hits.size()); probe("excerpt"); } continue; }
    MS after=folder(), full=want; if(aug)full.insert(before.begin(),before.end()); bool nothing=hits.empty()&&!stale;
    auto diff=[&](const MS&g,const MS&w,string&m1,string&m2){ for(auto&k:w)if(g.count(k)<w.count(k)){ m1=shorten(k); break; } for(auto&k:g)if(w.count(k)<g.count(k)){ m2=shorten(k); break; } };
    if(!bad&&!stale&&!expunged){ int wc=nothing?1:0; if(z.p->termsig||z.p->exitcode!=wc) fail("C11:status","%s matches %zu messages and should exit with %d (stderr: %s)",what.c_str(),hits.size(),wc,z.p->err.substr(0,300).c_str()); }
    if((z.ok()||(z.p->exitcode==1&&!z.p->termsig))&&!stale&&!expunged){ bool complete=after==full; if(!complete&&aug&&!isimap){ complete=true; for(auto&k:full)if(after.count(k)<1)complete=false; for(auto&k:after)if(!full.count(k))complete=false; } if(!complete){ string m1,m2; diff(after,full,m1,m2); fail("C11:folder","%s: %zu entries instead of %zu; missing: %s; unexpected: %s (stderr: %s)",what.c_str(),after.size(),full.size(),m1.c_str(),m2.c_str(),z.p->err.substr(0,300).c_str()); } probe(isimap?"imap_folder_checked":"local_folder_checked"); if(bad)probe("ok_despite_fault"); }
    else { MS any=want; any.insert(before.begin(),before.end()); for(auto&k:after)if(after.count(k)>any.count(k)&&!(isimap&&any.count(k))) fail("C11:wrong","%s left something that is no message: %s",what.c_str(),shorten(k).c_str()); bool lost=false; for(auto&k:full)if(!after.count(k))lost=true; if(lost&&!isimap&&z.ok()&&z.p->err.empty()) fail("C11:silent","%s left out messages without saying so",what.c_str()); probe("bad_search"); } } }
static Reg r11("C11",gen11,run11);
