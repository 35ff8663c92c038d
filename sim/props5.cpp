// C03 mail is never touched, C04 the match folder holds exactly the matches
#include "util.h"
#include "query.h"
#include <algorithm>
// ---------------------------------------------------------------- C03
struct Mailhash { map<string,u64> h; vector<string> imap; };
static Mailhash mailhash(Exec&x){ Mailhash r; for(auto&f:x.m.fo){ if(f.type==IMAP_){ string s; auto&F=W->imap->folders[f.name]; s=f.name+":"+std::to_string(F.uidvalidity)+":"; for(auto&m:F.msgs){ s+=std::to_string(m.uid)+"/"+std::to_string(hstr(m.data)); for(auto&g:m.flags)s+=g; s+=";"; } r.imap.push_back(s); } else r.h[f.path]=W->exists(f.path)?W->treehash(f.path):0; } if(W->exists("/home/u/store"))r.h["/home/u/store"]=W->treehash("/home/u/store"); return r; }
static void unchanged(Exec&x,const Mailhash&b,const string&what){ for(auto&m:W->mailmut) if(m.path!="/home/u/mail/mfold"&&m.path.compare(0,20,"/home/u/mail/mfoldr/")) fail("C03:touched","%s: %s of %s in the indexed folders",what.c_str(),m.what.c_str(),m.path.c_str()); Mailhash a=mailhash(x); for(auto&k:b.h) if(a.h[k.first]!=k.second) fail("C03:changed","%s changed %s",what.c_str(),k.first.c_str()); if(a.imap!=b.imap) fail("C03:imap","%s changed an indexed IMAP folder: %s became %s",what.c_str(),show(b.imap).c_str(),show(a.imap).c_str()); }
static void gen03(Plan&p,Rng&r,int tier){ smallknobs(p,r,tier); p.knob["init"]=1+r.below(8); p.knob["oft"]=r.below(3); if(r.chance(1,5)){ p.knob["ftypes"]|=0x80; p.knob["greet"]=r.below(4); if(r.chance(1,2))p.knob["oft"]=IMAP_; if(r.chance(1,3))p.knob["inbox"]=1; } if(p.knob["oft"]!=IMAP_&&r.chance(1,4))p.knob["mfin"]=1; p.add("index",r.next()); int n=2+r.below(tier?12:7);
  for(int i=0;i<n;i++){ histbit(p,r,r.below(3)); if(r.chance(1,4)){ Op&o=p.add("refuse",r.next()); o.p["alias"]=r.below(12); o.p["fmt"]=r.below(3); if(r.chance(1,3))o.p["viarc"]=1; if(r.chance(1,4))o.p["aug"]=1; if(r.chance(1,3))gen_fault(o,r,2+4+8+16); continue; }
    Op&o=p.add("cmd",r.next()); static const int VS[]={V_INDEX,V_PURGE,V_FOLDER,V_FOLDER,V_AUG,V_AUG,V_AUG,V_THR,V_HARD,V_HARD,V_OTHER,V_RAW,V_EXC,V_DUMP,V_NOMATCH,V_OTHER}; o.p["v"]=VS[r.below(16)]; if(r.chance(1,6))o.p["verbose"]=1; if(r.chance(1,8))o.p["unlock"]=1; if(r.chance(1,10))o.p["fmt"]=r.below(3); if(r.chance(1,2))gen_fault(o,r,2+4+8+16+32+64); } }
static void run03(const Plan&pl){ Exec x(pl); if(pl.k("mfin"))x.mfolder="mfold"; if(pl.k("inbox")){ x.addfolder(IMAP_,"INBOX"); } x.start(); if(x.oft==IMAP_)x.mfolder="results"; x.writerc(); string rc0; W->get("/home/u/.mairixrc",rc0);
  for(auto&o:pl.ops){ if(x.store(o))continue; W->put("/home/u/.mairixrc",rc0);
    if(o.kind=="index"){ clearlock(x); x.later(3); Mailhash b=mailhash(x); W->mailmut.clear(); { Rng q(o.s^5); x.m.settle(q); b=mailhash(x); } x.steady("C03:next",o,-1); unchanged(x,b,"an index run"); continue; }
    if(o.kind!="cmd"&&o.kind!="refuse")continue; clearlock(x); x.later(3); { Rng q(o.s); x.m.settle(q); } W->mailmut.clear(); Rng q(o.s^31); vector<string> a; string alias; string alt=rc0; bool refuse=o.kind=="refuse";
    auto setkey=[&](const string&k,const string&v){ size_t p=alt.find("\n"+k+"="); if(p!=string::npos){ size_t e=alt.find('\n',p+1); alt.replace(p,e-p,"\n"+k+"="+v); } else alt+=k+"="+v+"\n"; };
    if(o.has("fmt")&&x.oft!=IMAP_){ static const char*OF[]={"maildir","mh","mbox"}; setkey("mformat",OF[o.get("fmt")%3]); }
    if(refuse){ vector<Folder*> c; for(auto&f:x.m.fo){ if((f.type==IMAP_)!=(x.oft==IMAP_))continue; if(f.type==IMAP_||W->exists(f.path))c.push_back(&f); } if(c.empty())continue; Folder&F=*c[q.below(c.size())]; int al=o.get("alias");
      if(x.oft==IMAP_){ alias=F.name; if(F.name=="INBOX"){ static const char*C[]={"INBOX","inbox","Inbox"}; alias=C[al%3]; } }
      else { bool dir=F.type==MD||F.type==MH; string leaf=F.path.substr(13); switch(al){ case 0: alias=F.path; break; case 1: alias=dir?F.path+"/":"/home/u/mail//"+leaf; break; case 2: alias="/home/u/mail//"+leaf; break; case 3: alias="/home/u/mail/./"+leaf; break; case 4: alias="/home/u/mail/../mail/"+leaf; break; case 5: alias=leaf; break; case 6: alias="./mail/"+leaf; break; case 7: if(!W->exists("/home/u/alias"))W->symlink("/home/u/mail","/home/u/alias"); alias="/home/u/alias/"+leaf; break; case 8: if(!W->exists("/home/u/al_"+leaf))W->symlink(F.path,"/home/u/al_"+leaf); alias="/home/u/al_"+leaf; break; case 9: alias="/home/u/./mail/"+leaf; break; case 10: alias="./"+leaf; if(true){ alias="./mail//"+leaf; } break; default: alias="//home/u/mail/"+leaf; } }
      if(o.has("viarc"))setkey("mfolder",alias); else { a.push_back("-o"); a.push_back(alias); } if(o.has("aug"))a.push_back("-a"); int f; string t; a.push_back(x.idx.empty()?string("s:~zzznosuchword"):x.tokenarg(q,x.idx[q.below(x.idx.size())],f,t)); }
    else a=x.cmd(o);
    W->put("/home/u/.mairixrc",alt); auto f=x.faults(o,a); Mailhash b=mailhash(x); W->mailmut.clear(); if(W->imap)W->imap->log.clear(); Res z=x.run(a,f); if(z.p->termsig!=9)x.nocrash(z,"C03");
    string what=fmt("'%s'%s (%s%s%s)",argsof(a).c_str(),refuse&&o.has("viarc")?fmt(" with mfolder=%s",alias.c_str()).c_str():"",z.p->status().c_str(),fwhere(z.p).empty()?"":"; ",fwhere(z.p).c_str());
    unchanged(x,b,what); for(auto&l:W->imap->log) if(l.find("SIDE-EFFECT")==0) fail("C03:imap","%s fetched a message in a way that marks it as seen",what.c_str());
    if(refuse){ if(z.ok()||(z.p->exitcode==1&&!z.p->termsig&&f.empty())) fail("C03:accepted","%s was not refused although its match folder is indexed",what.c_str()); probe("refused"); } else probe(z.ok()?"cmd_ok":"cmd_failed");
    x.m.seen(false); for(auto&n:W->ls("/home/u"))if(n.compare(0,3,"al_")==0||n=="alias")W->rm("/home/u/"+n); } }
static Reg r03("C03",gen03,run03);
// ---------------------------------------------------------------- C04
static void gen04(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["oft"]=r.below(3); if(r.chance(1,4))p.knob["init"]=1+r.below(40); else p.knob["init"]=1+r.below(8); p.knob["many"]=8; if(r.chance(1,8)){ p.knob["ftypes"]|=0x80; p.knob["greet"]=r.below(4); } if(r.chance(1,6))p.knob["sort"]=1; if(r.chance(1,2))p.knob["tz"]=r.below(NTZ); if(r.chance(1,6))p.knob["mhnew"]=1; if(r.chance(1,5))p.knob["chop"]=1; bool faulty=r.chance(1,3); p.add("index",r.next()); int n=3+r.below(tier?20:12); int pi=r.below(4);
  if(r.chance(1,14)){ p.knob["ftypes"]=1+r.below(3); p.knob["init"]=1+r.below(4); int k=4+r.below(6); while(k--){ p.add("del",r.next()); p.add("add",r.next()); Op&o=p.add("index",r.next()); o.p["purge"]=1; Op&f=p.add("find",r.next()); f.p["mode"]=r.chance(1,3)?6:0; f.p["aug"]=1; f.p["all"]=1; } return; }   // one number after the other taken by another message
  for(int i=0;i<n;i++){ if(r.chance(pi,8)){ histbit(p,r,1+r.below(3)); Op&o=p.add("index",r.next()); if(r.chance(1,3))o.p["purge"]=1; continue; } if(r.chance(1,12)){ p.add("junk",r.next()).p["j"]=r.below(8); continue; }
    Op&o=p.add("find",r.next()); o.p["mode"]=r.below(8); if(r.chance(2,5))o.p["aug"]=1; if(r.chance(1,8))o.p["thr"]=1; if(r.chance(1,6))o.p["oft"]=r.below(3); if(r.chance(1,6))o.p["other"]=1; if(r.chance(1,8))o.p["few"]=1; if(faulty&&r.chance(1,2)){ int k=r.below(10); if(k<5){ gen_fault(o,r,2,C_OUT); } else if(k>=8){ gen_fault(o,r,2,C_MAIL); } else if(k==5)o.p["quota"]=r.below(20)*4096; else if(k==6)gen_fault(o,r,16+32,C_OUT); else gen_fault(o,r,128); } } }
static void run04(const Plan&pl){ use_tz(pl.k("tz")); Exec x(pl); if(pl.k("sort"))x.rc_extra+="sort=date+\n"; x.start(); bool dirty[2][3]={{0}}; (void)dirty;
  for(auto&f:x.m.fo)if(pl.k("chop")&&f.type>=MBOX&&f.type<=XZ){ f.chop=true; x.m.rewrite(f); }
  for(auto&o:pl.ops){ if(x.store(o))continue; if(o.kind=="index"){ clearlock(x); x.steady("C04",o,-1); continue; }
    int oft=o.has("oft")?o.get("oft")%3:x.oft; static const char*OF[]={"maildir","mh","mbox"}; static const char*DN[]={"out_md","out_mh","out_mbox"}; string dir=string("/home/u/out/")+(o.has("other")?"x":"")+DN[oft]; W->mkdirs("/home/u/out");
    if(o.kind=="junk"){ int j=o.get("j"); auto put=[](const string&p,const string&d){ W->rm(p); W->put(p,d); }; if(oft==MBOX){ if(j==0)put(dir,"From old\n\nold stuff\n"); continue; } if(oft==MD){ for(auto s:{"new","cur","tmp"})W->mkdirs(dir+"/"+s); if(j==0)W->mkdirs(dir+"/cur/subdir"); else if(j==1)put(dir+"/cur/123456789.0.mairix","left over"); else if(j==2)put(dir+"/new/somebody.else","left over"); else if(j==3)(W->rm(dir+"/new/123456789.1.mairix"),W->symlink("/nonexistent",dir+"/new/123456789.1.mairix")); else if(j==5)put(dir+"/dovecot.index","kept"); else if(j==6)put(dir+"/.mailfilter","kept"); else if(j==7)put(dir+"/tmp/half.delivered","kept"); else if(W->ls(dir+"/new").empty())W->rm(dir+"/new"); } else { if(j!=4)W->mkdirs(dir); if(j==0){ if(!W->exists(dir+"/2"))W->mkdirs(dir+"/2"); } else if(j==1)put(dir+"/1","left over"); else if(j==2)put(dir+"/notes.txt","kept"); else if(j==5)put(dir+"/.mh_sequences","kept"); else if(j==6)put(dir+"/,7","kept"); else if(j==7)put(dir+"/8x","kept"); else if(j==3)(W->rm(dir+"/3"),W->symlink("/nonexistent",dir+"/3")); else if(!W->exists(dir))put(dir,"a plain file"); } probe("junk"); continue; }
    if(o.kind!="find"||!x.have||!W->exists(g_dbpath))continue; clearlock(x); x.later(3); Rng q(o.s); 
    // what the query selects, according to raw output
    vector<string> qa; bool thr=o.has("thr"); if(o.has("few")&&!x.idx.empty())qa={"s:"+x.idx[q.below(x.idx.size())].m->uniq}; else if(o.has("all")||q.chance(1,5))qa={"s:~zzznosuchword"}; else qa=random_query(x,q,QK_WORD|QK_DATE|QK_SIZE|QK_FLAG,2).args; 
    auto res=x.search(qa,nullptr,thr); map<string,const Live*> byloc; for(auto&l:x.idx)byloc[l.loc]=&l; vector<const Live*> hits; set<string> once; for(auto&s:res){ if(!byloc.count(s)) fail("C04:unknown","raw search %s lists %s, which does not exist",show(qa).c_str(),s.c_str()); if(!once.insert(s).second) fail("C04:twice","raw search %s lists %s twice",show(qa).c_str(),s.c_str()); hits.push_back(byloc[s]); }
    auto order=[&](const vector<i64>&d,const string&w){ if(!pl.k("sort"))return; i64 last=0; for(i64 t:d){ if(t<=0)continue; if(t<last) fail("C04:order","%s with sort=date+: a message of day %lld comes after one of day %lld",w.c_str(),t/86400,last/86400); last=t; } probe("order_checked"); };
    { vector<i64> d; for(auto l:hits)d.push_back(l->m->date); order(d,"raw search "+show(qa)); }
    string rc0; W->get("/home/u/.mairixrc",rc0); string alt=rc0; { size_t p=alt.find("\nmformat="),e=alt.find('\n',p+1); alt.replace(p,e-p,string("\nmformat=")+OF[oft]); p=alt.find("\nmfolder="); e=alt.find('\n',p+1); alt.replace(p,e-p,"\nmfolder="+dir); } W->put("/home/u/.mairixrc",alt);
    int mode=o.get("mode"); bool aug=o.has("aug"), hard=false, exc=false; vector<string> a; if(aug)a.push_back("-a"); if(thr)a.push_back("-t"); if(mode==7){ exc=true; a={"-x"}; if(thr)a.push_back("-t"); } else if(mode==6){ hard=true; a.push_back("-H"); } else if(mode==5&&o.has("other")){ a.push_back("-o"); a.push_back(dir); } a.insert(a.end(),qa.begin(),qa.end());
    set<string> tops; if(oft==MD)for(auto&n:W->ls(dir))tops.insert(n); auto before=entries(oft,dir); string mbefore; if(oft==MBOX)W->get(dir,mbefore); bool mex=W->exists(dir);
    auto f=x.faults(o,a); if(o.has("quota"))W->quota=o.get("quota"); Res z=x.run(a,f); W->quota=-1; if(o.has("quota")){ ST.faults["disk-full"]++; W->walk("/",[](const string&,Inode*i){ i->ainit=false; i->apages.clear(); }); } W->put("/home/u/.mairixrc",rc0); if(z.p->termsig!=9)x.nocrash(z,"C04");
    string what=fmt("'%s' into %s (%s%s%s)",argsof(a).c_str(),dir.c_str(),z.p->status().c_str(),fwhere(z.p).empty()?"":"; ",fwhere(z.p).c_str());
    bool disturbed=!f.empty()||o.has("quota"); int wantcode=hits.empty()?1:0;
    if(z.p->termsig||z.p->exitcode!=wantcode){ if(!disturbed) fail("C04:status","%s: the query matches %zu messages, the search should exit with %d (stderr: %s)",what.c_str(),hits.size(),wantcode,z.p->err.substr(0,200).c_str()); if(!z.p->termsig&&z.p->exitcode==1-wantcode&&!(wantcode==1)&&!z.p->exitcode) fail("C04:status","%s",what.c_str()); probe("disturbed_search_failed"); continue; }
    bool any=false; for(auto&k:z.p->faults)any|=k.fired; if(any)probe("success_despite_fault");
    if(exc){ // blocks
      const string D="---------------------------------\n"; vector<string> blocks; size_t p=0; const string&t=z.p->out; while((p=t.find(D,p))!=string::npos){ size_t b=p+D.size(),e=t.find(D,b); blocks.push_back(t.substr(b,e==string::npos?string::npos:e-b)); p=b; } vector<string> got; string firsts; for(auto&b:blocks)firsts+=b.substr(0,b.find('\n')+1); got=x.locs(firsts); x.expectset(got,res,"C04:excerpt",what); { vector<i64> d; for(auto&s:got)d.push_back(byloc[s]->m->date); order(d,what); }
      for(size_t k=0;k<blocks.size();k++){ const Live*l=byloc[got[k]]; if(blocks[k].find(l->m->uniq)==string::npos) fail("C04:excerpt-text","%s shows for %s: %s - its subject word %s is missing",what.c_str(),l->loc.c_str(),shorten(blocks[k]).c_str(),l->m->uniq.c_str()); if(!l->m->bad){ static const struct{ const char*h; int f; } HF[]={{"  To: ",TO},{"  Cc: ",CC},{"  From: ",FROM},{"  Subject: ",SUBJ}}; for(auto&hf:HF){ size_t at=blocks[k].find(string("\n")+hf.h); string ln=at==string::npos?"":blocks[k].substr(at+1,blocks[k].find('\n',at+1)-at-1); if(!ln.empty())ln=ln.substr(strlen(hf.h)); set<string> w; words(ln,w); bool odd=false; for(auto&t:w)if(!l->m->tok[hf.f].count(t))odd=true; if(odd) fail("C04:excerpt-text","%s shows for %s as%s%s",what.c_str(),l->loc.c_str(),hf.h,ln.c_str()); } }
 if(l->m->date>0&&!l->m->bad){ time_t dt=l->m->date; struct tm tm; gmtime_r(&dt,&tm); char b[40]; strftime(b,40,"%d %b %Y",&tm); if(blocks[k].find(b)==string::npos) fail("C04:excerpt-date","%s shows for %s of %s: %s",what.c_str(),l->loc.c_str(),b,shorten(blocks[k]).c_str()); } if(!l->m->msgid.empty()&&blocks[k].find(l->m->msgid)==string::npos) fail("C04:excerpt-text","%s shows for %s another Message-ID: %s",what.c_str(),l->loc.c_str(),shorten(blocks[k]).c_str()); } probe("excerpt"); continue; }
    char mt[60]; snprintf(mt,60,"Matched %zu messages",hits.size()); if(z.p->out.find(mt)==string::npos&&!any) fail("C04:count","%s says \"%s\", raw output lists %zu",what.c_str(),rstrip(z.p->out).c_str(),hits.size());
    auto after=entries(oft,dir); string mafter; if(oft==MBOX)W->get(dir,mafter);
    if(oft==MBOX){ string d=mafter; if(aug){ if(mafter.compare(0,mbefore.size(),mbefore)) fail("C04:aug-lost","%s changed what was in the match folder already",what.c_str()); d=mafter.substr(mbefore.size()); } bool junk; auto es=mboxentries(d,junk); if(junk) fail("C04:mbox","%s: the mbox starts with %s",what.c_str(),shorten(d).c_str()); std::multiset<std::pair<string,string>> g,w; map<std::pair<string,string>,i64> dt; for(auto l:hits){ std::pair<string,string> k={l->imap?"":l->path,rstrip(textof(*l))}; w.insert(k); dt[k]=l->m->date; } vector<i64> ds; for(auto&e:es){ std::pair<string,string> k={e.first,rstrip(e.second)}; g.insert(k); ds.push_back(dt.count(k)?dt[k]:0); if(e.second.size()<2||e.second.compare(e.second.size()-2,2,"\n\n")) fail("C04:mbox-end","%s: no empty line follows the message from %s: %s",what.c_str(),e.first.c_str(),shorten(e.second.size()>100?e.second.substr(e.second.size()-100):e.second).c_str()); } order(ds,what); if(g!=w){ string m1,m2; for(auto&k:w)if(!g.count(k)){ m1=k.first+": "+shorten(k.second); break; } for(auto&k:g)if(!w.count(k)){ m2=k.first+": "+shorten(k.second); break; } fail("C04:mbox","%s: %zu entries instead of %zu; missing: %s; unexpected: %s",what.c_str(),g.size(),w.size(),m1.c_str(),m2.c_str()); } probe("mbox_checked"); if(aug&&!mbefore.empty())probe("augmented"); continue; }
    // maildir and MH: identify each entry by what it holds
    auto keyof=[&](const Ent&e)->string{ string fl; if(oft==MD){ size_t p=e.name.find(":2,"); bool S=false,R=false,F=false; if(p!=string::npos){ string t=e.name.substr(p+3); S=t.find('S')!=string::npos; R=t.find('R')!=string::npos; F=t.find('F')!=string::npos; } fl=fmt("S%dR%dF%d %s ",S,R,F,e.name.substr(0,3).c_str()); } if(e.kind=="link")return fl+"link "+e.target; if(aug)for(auto&l:x.idx)if(!l.mbox&&!l.imap){ IP i=W->lookup(l.path); if(i.get()==e.ino)return fl+"link "+l.path; } string d=e.data,src; if(d.compare(0,17,"X-source-folder: ")==0){ size_t n=d.find('\n'); src=d.substr(17,n-17); d=d.substr(n+1); } return fl+"text "+src+": "+rstrip(d); };
    auto wantkey=[&](const Live&l)->string{ string fl; if(oft==MD)fl=fmt("S%dR%dF%d %s ",l.s,l.r,l.f,(l.imap?false:l.mbox?!l.s:l.isnew)?"new":"cur"); if(!l.mbox&&!l.imap&&(aug||!hard))return fl+"link "+l.path; return fl+"text "+(l.mbox?l.path:"")+": "+rstrip(textof(l)); };
    auto foreign=[&](const string&n){ return oft==MH?n.find_first_not_of("0123456789")!=string::npos:n.compare(0,4,"cur/")&&n.compare(0,4,"new/"); };   // files of a match folder that are no messages
    for(auto&e:before)if(foreign(e.first)&&e.second.kind!="dir"){ auto k=after.find(e.first); if(k==after.end()||k->second.data!=e.second.data||k->second.kind!=e.second.kind) fail("C04:foreign","%s removed or changed %s, which is no message, in the match folder",what.c_str(),e.first.c_str()); else probe("foreign_kept"); }
    if(oft==MD)for(auto&n:{"dovecot.index",".mailfilter"}){ string d; if(tops.count(n)&&(!W->get(dir+"/"+n,d)||d!="kept")) fail("C04:foreign","%s removed or changed %s in the match folder",what.c_str(),n); }
    if(!aug){ std::multiset<string> g,w; map<int,string> mhd; for(auto&e:after){ if(e.second.kind=="dir")continue; if(oft==MH&&e.first.find_first_not_of("0123456789")!=string::npos){ if(!before.count(e.first)) fail("C04:name","%s created %s",what.c_str(),e.first.c_str()); continue; } if(e.first.compare(0,4,"tmp/")==0){ if(before.count(e.first))continue; fail("C04:tmp","%s left %s in the match folder",what.c_str(),e.first.c_str()); } g.insert(keyof(e.second)); if(oft==MH)mhd[atoi(e.first.c_str())]=keyof(e.second); if(hard&&e.second.kind=="link"&&e.second.target.compare(0,12,"/home/u/mail")==0) fail("C04:hard","%s made a symbolic link",what.c_str()); }
      map<string,i64> dt; for(auto l:hits){ w.insert(wantkey(*l)); dt[wantkey(*l)]=l->m->date; } { vector<i64> d; for(auto&k:mhd)d.push_back(dt.count(k.second)?dt[k.second]:0); order(d,what); } if(g!=w){ string m1,m2; for(auto&k:w)if(g.count(k)<w.count(k)){ m1=shorten(k); break; } for(auto&k:g)if(w.count(k)<g.count(k)){ m2=shorten(k); break; } fail("C04:folder","%s: %zu entries instead of %zu; missing: %s; unexpected: %s",what.c_str(),g.size(),w.size(),m1.c_str(),m2.c_str()); } probe(oft==MD?"maildir_checked":"mh_checked"); if(hard)probe("hard"); }
    else { for(auto&e:before){ auto k=after.find(e.first); if(k==after.end()) fail("C04:aug-lost","%s removed the earlier match %s",what.c_str(),e.first.c_str()); const Ent&n=k->second; if(n.ino!=e.second.ino||n.kind!=e.second.kind||n.target!=e.second.target||n.data!=e.second.data) fail("C04:aug-lost","%s replaced the earlier match %s (%s) by %s",what.c_str(),e.first.c_str(),shorten(keyof(e.second)).c_str(),shorten(keyof(n)).c_str()); }
      std::multiset<string> all,fresh,w; for(auto&e:after){ if(e.second.kind=="dir")continue; string k=keyof(e.second); all.insert(k); if(!before.count(e.first))fresh.insert(k); } for(auto l:hits)w.insert(wantkey(*l)); for(auto&k:w){ string k2=k; if(all.count(k)<w.count(k)){ /* a hard link made earlier stands for a symbolic one and the other way round */ fail("C04:aug-missing","%s: a match is missing from the folder: %s",what.c_str(),shorten(k).c_str()); } } for(auto&k:fresh)if(fresh.count(k)>w.count(k)) fail("C04:aug-extra","%s added something that is no match: %s",what.c_str(),shorten(k).c_str()); for(auto&e:after)if(!before.count(e.first)&&e.first.compare(0,4,"tmp/")==0) fail("C04:tmp","%s left %s",what.c_str(),e.first.c_str()); if(!before.empty())probe("augmented"); }
    (void)mex; } }
static Reg r04("C04",gen04,run04);
