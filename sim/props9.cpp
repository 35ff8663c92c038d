// C16 a changed mbox never yields a wrong message
#include "util.h"
#include "query.h"
#include <algorithm>
#include <cerrno>
static const int NALT=14;
static bool ismb(const Folder&f){ return f.type>=MBOX&&f.type<=XZ; }
static void gen16(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["ftypes"]=4|(r.below(32)<<2); if(r.chance(1,3))p.knob["ftypes"]|=1; p.knob["nmb"]=r.below(3); p.knob["init"]=r.chance(1,10)?30+r.below(40):2+r.below(14); p.knob["many"]=8; p.knob["oft"]=r.below(3); p.knob.erase("mblnk"); if(r.chance(1,8))p.knob["oft"]=IMAP_; if(r.chance(1,4))p.knob["chop"]=1; int rounds=1+r.below(tier?5:3); static const vector<string> H={"add","mbdel","mbdel","mbins","mbreorder","prepend","mbempty","restore","backdate","touch"};
  while(rounds--){ Op&ix=p.add("index",r.next()); if(r.chance(1,4))ix.p["purge"]=1; int n=1+r.below(4); while(n--){ int k=r.below(3); while(k--){ if(r.chance(1,2))p.add("alter",r.next()).p["a"]=r.below(NALT); else p.add(H[r.below(H.size())],r.next()); }
      Op&o=p.add("find",r.next()); o.p["mode"]=r.below(7); if(r.chance(1,5))o.p["thr"]=1; if(r.chance(1,6))o.p["aug"]=1; if(r.chance(1,3)){ o.p["nm"]=1+r.below(3); o.p["win"]=r.below(3); } else if(r.chance(1,4))gen_fault(o,r,2,C_MAIL); }
    if(r.chance(1,2)){ int k=r.below(3); while(k--)p.add(H[r.below(H.size())],r.next()); } } }
// Changes one mbox in a way no mail program is expected to. known[path]: its contents afterwards, "" with false if nothing can be read from it.
static void alter(Exec&x,const Op&o,map<string,std::pair<bool,string>>&known){ Rng q(o.s); size_t k=x.pickfolder(q,0x7c); if(k==(size_t)-1)return; x.later(q.below(3)); Folder&F=x.m.fo[k]; IP I=W->lookup(F.path); int a=o.get("a"); if(!I&&a!=5)return; string d; { auto i=known.find(F.path); if(i!=known.end()){ if(!i->second.first&&a!=5)return; d=i->second.second; } else d=Model::mboxbytes(F); } i64 mt=I?I->mtime:W->now; bool keepm=q.chance(1,3);
  auto setc=[&](const string&c){ if(IP J=W->lookup(F.path))if(J->type==I_DIR)W->rm(F.path); W->put(F.path,compress_(F.type,c)); IP J=W->lookup(F.path); J->mail=true; J->mode=0644; if(keepm)J->mtime=mt; known[F.path]={true,c}; };
  ST.faults[fmt("mbox-altered-%d",a)]++;
  switch(a){
    case 0: setc(d.substr(0,q.below(d.size()+1))); break;
    case 1: { int n=1+q.below(3); while(n--&&!d.empty())d[q.below(d.size())]^=1<<q.below(7); setc(d); break; }
    case 2: W->rm(F.path); known[F.path]={false,""}; break;
    case 3: I->mode=0; known[F.path]={false,""}; break;
    case 4: W->rm(F.path); W->mkdirs(F.path); known[F.path]={false,""}; break;
    case 5: setc(q.chance(1,2)?"":"Dear diary,\n\nFrom nowhere\nnothing to see\n"); break;
    case 6: if(!F.items.empty()){ auto&it=F.items[q.below(F.items.size())]; if(it.start+it.len<=d.size()&&it.len){ size_t b=it.start+q.below(it.len),n=1+q.below(std::min<size_t>(it.len-(b-it.start),20)); for(size_t i=0;i<n;i++)d[b+i]='a'+q.below(26); setc(d); } } break;
    case 7: { string ins; int n=1+q.below(q.chance(1,4)?6000:30); while(n--)ins+=q.chance(1,9)?'\n':'a'+q.below(26); d.insert(q.below(d.size()+1),ins); setc(d); break; }
    case 8: if(!d.empty()){ size_t b=q.below(d.size()); d.erase(b,1+q.below(q.chance(1,2)?5:d.size()-b)); setc(d); } break;
    case 9: { size_t k2=x.pickfolder(q,0x7c); Folder&G=x.m.fo[k2]; string e=Model::mboxbytes(G); setc(e); break; }
    case 10: if(F.type>=GZ){ string raw; W->get(F.path,raw); if(q.chance(1,2))raw=raw.substr(0,q.below(raw.size()+1)); else { int n=1+q.below(4); while(n--&&!raw.empty())raw[q.below(raw.size())]^=1<<q.below(8); } W->put(F.path,raw); known[F.path]={false,""}; } else { d+="garbage"; setc(d); } break;
    case 11: W->rm(F.path); W->symlink("/nowhere/at/all",F.path); known[F.path]={false,""}; break;
    case 12: W->put(F.path,F.type>=GZ?d:compress_(GZ,d)); known[F.path]={false,""}; break;
    default: if(F.items.size()){ auto&it=F.items[q.below(F.items.size())]; if(it.start<=d.size()){ size_t e=it.start+it.len; string c=q.chance(1,2)?d.substr(0,std::min(d.size(),e)):d.substr(0,std::min(d.size(),e>0?e-1:0)); setc(c); } } }
  if(I&&a!=3&&W->exists(F.path))if(IP J=W->lookup(F.path))J->mail=true; }
static void run16(const Plan&pl){ Exec x(pl); x.start(); if(x.oft==IMAP_)x.mfolder="results"; x.writerc(); for(auto&f:x.m.fo)if(pl.k("chop")&&ismb(f)){ f.chop=true; x.m.rewrite(f); } map<string,std::pair<bool,string>> known; map<string,string> atidx; int nout=0;
  auto repair=[&](){ for(auto&F:x.m.fo)if(known.count(F.path)){ W->rm(F.path); if(IP i=W->lookup(F.path,false)){ (void)i; } x.m.rewrite(F); } known.clear(); };
  auto rewritten=[&](){ for(auto&F:x.m.fo)if(known.count(F.path)){ /* a mail program has rewritten it */ IP i=W->lookup(F.path); string raw; if(i&&i->type==I_REG&&i->mode&&W->get(F.path,raw)&&raw==compress_(F.type,Model::mboxbytes(F)+F.tail))known.erase(F.path); } };
  auto safestore=[&](const Op&o){ // mail programs cannot rewrite what has become a directory
    for(auto&F:x.m.fo)if(known.count(F.path)){ IP i=W->lookup(F.path,false); if(!i||i->type!=I_REG||!i->mode)return true; } if(!x.store(o))return false; rewritten(); return true; };
  static const set<string> ST_(STOREOPS.begin(),STOREOPS.end());
  for(auto&o:pl.ops){ if(ST_.count(o.kind)){ safestore(o); continue; }
    if(o.kind=="alter"){ alter(x,o,known); rewritten(); continue; }
    if(o.kind=="index"){ clearlock(x); x.later(4); repair(); x.steady("C16:next",o,-1); atidx.clear(); for(auto&F:x.m.fo)if(ismb(F))atidx[F.path]=Model::mboxbytes(F); continue; }
    if(o.kind!="find"||!x.have||!W->exists(g_dbpath)||x.idx.empty())continue; clearlock(x); x.later(3); Rng q(o.s);
    vector<string> qa; bool thr=o.has("thr"); if(q.chance(2,5))qa={"s:~zzznosuchword"}; else qa=random_query(x,q,QK_WORD|QK_SIZE,2).args;
    auto res=x.search(qa,nullptr,thr); map<string,const Live*> byloc; for(auto&l:x.idx)byloc[l.loc]=&l; vector<const Live*> hits; for(auto&s:res){ if(!byloc.count(s)) fail("C16:unknown","raw search %s lists %s, which was not indexed",show(qa).c_str(),s.c_str()); hits.push_back(byloc[s]); } if(hits.empty())continue;
    int mode=o.get("mode"); bool exc=mode==6; vector<string> a; bool aug=o.has("aug")&&!exc; if(aug)a.push_back("-a"); if(thr)a.push_back("-t"); if(exc)a.push_back("-x"); if(mode==5&&x.oft!=IMAP_)a.push_back("-H"); string dir=x.mfolder; if(aug&&x.oft!=IMAP_){ dir=fmt("/home/u/out_%d",nout++); a.push_back("-o"); a.push_back(dir); } a.insert(a.end(),qa.begin(),qa.end());
    if(x.oft==IMAP_)W->imap->folders["results"]=IFolder(); else if(W->exists(dir))W->rm(dir); auto f=x.faults(o,a); 
    vector<std::pair<u64,Op>> mut; int nm=o.get("nm"); if(nm){ PP d=x.dry(a); vector<u64> st; int win=o.get("win"); for(size_t i=0;i<d->stepcat.size();i++)if(win==2||(d->stepcat[i]&C_MAIL))st.push_back(i+1); if(st.empty())st.push_back(1); Rng w(o.s^123); static const vector<string> H={"alter","alter","alter","add","mbdel","mbins","mbreorder","prepend","mbempty"}; u64 base=w.below(st.size()); for(int k=0;k<nm;k++){ Op m; m.kind=H[w.below(H.size())]; m.s=w.next(); m.p["a"]=w.below(NALT); u64 at=win==1?std::min<u64>(st.size()-1,base+w.below(6)):w.below(st.size()); mut.push_back({st[at],m}); } std::stable_sort(mut.begin(),mut.end(),[](auto&a,auto&b){return a.first<b.first;}); }
    map<string,std::pair<bool,string>> cont; for(auto&F:x.m.fo)if(ismb(F)){ auto k=known.find(F.path); if(k!=known.end())cont[F.path]=k->second; else if(W->exists(F.path))cont[F.path]={true,Model::mboxbytes(F)+F.tail}; else cont[F.path]={false,""}; }
    Res z; z.p=x.proc(a); z.p->faults=f; size_t next=0; { Sim s; s.procs={z.p}; W->atomicput=true; s.onstep=[&](Proc&p){ while(next<mut.size()&&p.steps>=mut[next].first){ int e=errno; ST.faults["concurrent-"+mut[next].second.kind]++; if(mut[next].second.kind=="alter")alter(x,mut[next].second,known); else safestore(mut[next].second); next++; errno=e; } }; s.run(); W->atomicput=false; } rewritten();
    g_trace=hcomb(g_trace,z.code()); if(g_verbose)fprintf(stderr,"$ %s\n%s%s=> %s %s\n",argsof(a).c_str(),z.p->out.substr(0,500).c_str(),z.p->err.substr(0,1500).c_str(),z.p->status().c_str(),fwhere(z.p).c_str());
    string what=fmt("'%s' (%s%s%s%s)",argsof(a).c_str(),z.p->status().c_str(),fwhere(z.p).empty()?"":"; ",fwhere(z.p).c_str(),nm?"; mboxes changing meanwhile":""); x.nocrash(z,"C16"); if(z.p->termsig) fail("C16:killed","%s (stderr: %s)",what.c_str(),z.p->err.substr(0,200).c_str()); bool any=false; for(auto&k:z.p->faults)any|=k.fired; bool quiet=!any&&!next;
    // which messages are still where they were indexed?
    auto intact=[&](const Live&l)->bool{ auto c=cont.find(l.path); if(c==cont.end()||!c->second.first||!atidx.count(l.path))return false; const string&A=atidx[l.path],&B=c->second.second; return l.start+l.len<=A.size()&&l.start+l.len<=B.size()&&A.compare(l.start,l.len,B,l.start,l.len)==0; };
    size_t nmb=0,nint=0; if(z.p->exitcode!=0&&any){ probe("search_failed"); } for(auto l:hits)if(l->mbox){ nmb++; if(intact(*l))nint++; } if(!nmb)continue; if(nint<nmb)probe("some_altered"); if(nint)probe("some_intact"); if(next)probe("altered_meanwhile");
    size_t missing=0;
    if(exc){ const string D="---------------------------------\n"; vector<string> blocks; size_t p=0; const string&t=z.p->out; while((p=t.find(D,p))!=string::npos){ size_t b=p+D.size(),e=t.find(D,b); blocks.push_back(t.substr(b,e==string::npos?string::npos:e-b)); p=b; }
      for(auto&b:blocks){ size_t n=b.find('\n'); auto v=x.locs(b.substr(0,n+1)); if(v.size()!=1||!byloc.count(v[0])) fail("C16:excerpt","%s shows %s",what.c_str(),shorten(b).c_str()); const Live*l=byloc[v[0]]; if(!l->mbox)continue; string h=b.substr(n+1); bool shown=h.find("Date:")!=string::npos||h.find("Subject:")!=string::npos; if(shown){ if(h.find(l->m->uniq)==string::npos) fail("C16:excerpt-text","%s shows for %s another message: %s",what.c_str(),l->loc.c_str(),shorten(b).c_str()); if(quiet&&cont.count(l->path)&&cont[l->path].first&&!intact(*l)) fail("C16:excerpt-text","%s shows %s although it has changed",what.c_str(),l->loc.c_str()); } else { missing++; if(quiet&&intact(*l)) fail("C16:lost","%s does not show %s, which is unchanged",what.c_str(),l->loc.c_str()); } } probe("excerpt"); }
    else { std::multiset<std::pair<string,string>> g,w; 
      if(x.oft==IMAP_){ for(auto&m:W->imap->folders["results"].msgs){ string d; for(char c:m.data)if(c!='\r')d+=c; g.insert({"",rstrip(d)}); } }
      else if(x.oft==MBOX){ string d; W->get(dir,d); bool junk; for(auto&e:mboxentries(d,junk))if(atidx.count(e.first))g.insert({e.first,rstrip(e.second)}); if(junk) fail("C16:mbox","%s: the mbox starts with %s",what.c_str(),shorten(d).c_str()); }
      else for(auto&e:entries(x.oft,dir)){ if(e.second.kind!="file")continue; string d=e.second.data; if(d.compare(0,17,"X-source-folder: ")){ bool hard=false; for(auto&l:x.idx)if(!l.mbox&&W->lookup(l.path).get()==e.second.ino)hard=true; if(hard)continue; fail("C16:junk","%s left %s: %s",what.c_str(),e.first.c_str(),shorten(d).c_str()); } size_t n=d.find('\n'); g.insert({d.substr(17,n-17),rstrip(d.substr(n+1))}); }
      std::multiset<std::pair<string,string>> must; auto strip=[&](string t){ if(x.oft==IMAP_){ string d; for(char c:t)if(c!='\r')d+=c; t=d; } return rstrip(t); };
      for(auto l:hits){ if(!l->mbox){ if(x.oft==IMAP_){ string d=textof(*l); if(!l->imap)W->get(l->path,d); w.insert({"",strip(d)}); } continue; } std::pair<string,string> k{x.oft==IMAP_?"":l->path,strip(l->m->raw)}; w.insert(k); if(intact(*l))must.insert(k); }
      for(auto&k:g)if(g.count(k)>w.count(k)) fail("C16:wrong","%s wrote out something that is not a message as it was indexed: %s: %s",what.c_str(),k.first.c_str(),shorten(k.second).c_str());
      if(quiet)for(auto&k:must)if(g.count(k)<must.count(k)) fail("C16:lost","%s did not write out an unchanged message: %s: %s (stderr: %s)",what.c_str(),k.first.c_str(),shorten(k.second).c_str(),z.p->err.substr(0,200).c_str());
      missing=w.size()-g.size(); if(g.empty())probe("none_left"); }
    if(missing&&z.p->err.empty()) fail("C16:silent","%s: %zu of %zu messages in mboxes could not be written out, but nothing was said about it",what.c_str(),missing,nmb); probe(missing?"some_missing":"all_written"); } }
static Reg r16("C16",gen16,run16);
