#include "exec.h"
#include <cstdarg>
#include <algorithm>
#include <sstream>
vector<Prop> g_props __attribute__((init_priority(101))); int g_tier=0; bool g_dry=false; string g_drydb; u64 g_dryncmds=0;
string fmt(const char*f,...){ char b[4000]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
void fail(const string&cls,const char*f,...){ char b[6000]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); if(g_verbose){ if(const char*d=getenv("MXDUMP")){ string t; W->get(d,t); fprintf(stderr,"--- %s\n",d); fwrite(t.data(),1,t.size(),stderr); fprintf(stderr,"\n---\n"); } } throw Viol{cls,b}; }
string show(const vector<string>&v,size_t n){ string o="{"; for(size_t i=0;i<v.size()&&i<n;i++){ if(i)o+=", "; o+=v[i]; } if(v.size()>n)o+=fmt(", ... %zu in all",v.size()); return o+"}"; }
string Plan::text() const { std::ostringstream o; o<<"prop "<<prop<<"\nseed "<<seed<<"\n"; for(auto&x:knob)o<<"knob "<<x.first<<" "<<x.second<<"\n"; for(auto&x:ops){ o<<"op "<<x.id<<" "<<x.kind<<" s="<<x.s; for(auto&y:x.p)o<<" "<<y.first<<"="<<y.second; if(!x.rl.empty()){ o<<" rl="; for(size_t i=0;i<x.rl.size();i++)o<<(i?",":"")<<x.rl[i]; } o<<"\n"; } return o.str(); }
bool Plan::parse(const string&t,Plan&p){ p=Plan(); std::istringstream in(t); string l; while(std::getline(in,l)){ if(l.empty()||l[0]=='#')continue; std::istringstream s(l); string w; s>>w; if(w=="prop")s>>p.prop; else if(w=="seed")s>>p.seed; else if(w=="knob"){ string n; i64 v; s>>n>>v; p.knob[n]=v; } else if(w=="op"){ Op o; s>>o.id>>o.kind; string kv; while(s>>kv){ size_t e=kv.find('='); string k=kv.substr(0,e),v=kv.substr(e+1); if(k=="s")o.s=strtoull(v.c_str(),nullptr,10); else if(k=="rl"){ std::istringstream q(v); string n; while(std::getline(q,n,','))o.rl.push_back(atoi(n.c_str())); } else o.p[k]=strtoll(v.c_str(),nullptr,10); } p.ops.push_back(o); } } return !p.prop.empty(); }
Fault mkfault(int kind,i64 at,int arg,int arg2){ Fault f; f.kind=kind; f.proc=0; f.at=at; f.arg=arg; f.arg2=arg2; return f; }
void reset_pids(u64); void zshim_cleanup(); extern "C" { extern int sim_reset_mkst; }
// ------------------------------------------------------------------
Exec::Exec(const Plan&p):pl(p),r(p.seed*7+3){ world=std::make_shared<World>(); W=world.get(); g_trace=p.seed; g_seq=0; net_reset(); reset_pids(p.k("pid",p.seed)); g_fill=p.k("fill",0xA5A5); m.badpct=p.k("badpct",0); g_dbpath="/home/u/.mairix_db"; g_mailroot="/home/u/mail"; g_outroot="/home/u/out";
  W->now=(p.k("t0",1234567890))*1000000000LL+p.k("tns",0); m.past=W->now-1000000000000LL; W->dirseed=p.k("dirseed",0); W->mkdirs("/home/u/mail"); W->mkdirs("/tmp"); W->lookup("/home/u/mail")->mail=true; m.initvocab(p.k("vseed",1),p.k("vocab",60)); W->imap->seed=p.seed; W->imap->greeting=p.k("greet",0); W->nofile=p.k("nofile",1000); }
Exec::~Exec(){ zshim_cleanup(); W=nullptr; }
static const char*TN[]={"md","mh","mbox","mmdf","mboxgz","mboxbz","mboxxz","imap"};
void Exec::addfolder(int t,const string&name,bool listed){ Folder f; f.type=t; f.name=name; f.listed=listed; f.path="/home/u/mail/"+name+(t==GZ?".gz":t==BZ?".bz2":t==XZ?".xz":""); static const char*MK[]={".mh_sequences",".xmhcache",".sylpheed_cache",".claws_cache",".marks",".overview","cmeta","summary",".mew-summary","index"}; if(t==MH)f.mhmark=MK[pl.k("mhmark",0)%10]; if(t>=MBOX&&t<=XZ&&pl.k("mblnk",0)){ W->mkdirs("/home/u/store"); W->put("/home/u/store/"+name,""); W->mkdirs(f.path.substr(0,f.path.rfind('/'))); W->symlink("/home/u/store/"+name,f.path); if(rc_extra.find("follow_mbox")==string::npos)rc_extra+="follow_mbox_symlinks\n"; probe("symlinked_mbox"); } m.fo.push_back(f); m.create(m.fo.back()); if(t==IMAP_)imap=true; }
void Exec::stdfolders(){ i64 mask=pl.k("ftypes",7); for(int t=0;t<8;t++) if(mask>>t&1){ int n= t==MD? 1+pl.k("nmd",1):(t==MBOX?1+pl.k("nmb",0):1); for(int k=0;k<n;k++)addfolder(t,string(t==MH&&pl.k("mhnew")?"new":TN[t])+std::to_string(k)); } if(m.fo.empty())addfolder(MD,"md0"); }
string Exec::rc(){ string s="base=/home/u/mail\n",md,mh,mb,im; for(auto&f:m.fo)if(f.listed||f.omitted){ string n=f.path.size()>13?f.path.substr(13):f.name; string*x=f.type==MD?&md:f.type==MH?&mh:f.type==IMAP_?&im:&mb; if(!x->empty())*x+=":"; *x+=f.type==IMAP_?f.name:n; }
  if(!md.empty())s+="maildir="+md+"\n"; if(!mh.empty())s+="mh="+mh+"\n"; if(!mb.empty())s+="mbox="+mb+"\n"; if(!im.empty())s+="imap="+im+"\n"; if(imap||oft==IMAP_)s+=(pl.k("imapserver",0)?"imap_server=mail.example\n":"imap_pipe=imapd --stdio\n")+string("imap_username="+W->imap->user+"\nimap_password="+W->imap->pass+"\n");
  static const char*OF[]={"maildir","mh","mbox"}; s+="mfolder="+mfolder+"\n"; s+=string("mformat=")+(oft==IMAP_?"imap":oft<=2?OF[oft]:oft==100?"raw":"excerpt")+"\n"; s+="database="+g_dbpath+"\n"; if(pl.k("nochecks",0))s+="nochecks\n"; if(!omit.empty())s+="omit="+omit+"\n"; s+=rc_extra; return s; }
void Exec::writerc(){ W->put("/home/u/.mairixrc",rc()); }
PP Exec::proc(vector<string> a){ vector<string> v={"mairix"};
  if(pl.k("lopt")){ static const map<string,string> L={{"-t","--threads"},{"-a","--augment"},{"-o","--mfolder"},{"-p","--purge"},{"-d","--dump"},{"-r","--raw-output"},{"-x","--excerpt-output"},{"-H","--force-hardlinks"},{"-Q","--no-integrity-checks"},{"-F","--fast-index"},{"-v","--verbose"},{"-V","--version"},{"-h","--help"},{"-f","--rcfile"}};
    size_t i=0; for(;i<a.size()&&a[i].size()>1&&a[i][0]=='-';i++){ bool val=a[i]=="-o"||a[i]=="-f"; if(L.count(a[i]))a[i]=L.at(a[i]); if(val)i++; } if(i<a.size()&&pl.k("lopt")==2)a.insert(a.begin()+i,"--"); }
  v.insert(v.end(),a.begin(),a.end()); PP p=mkproc(v); for(auto&e:env){ if(e.second=="\1")p->env.erase(e.first); else p->env[e.first]=e.second; } return p; }
Res Exec::run(vector<string> a,const vector<Fault>&f){ Res x; x.p=proc(a); x.p->faults=f; Sim s; s.procs={x.p}; s.run(); g_trace=hcomb(g_trace,x.code()); g_trace=hcomb(g_trace,hstr(x.p->out)); if(g_verbose){ string l; for(auto&q:a)l+=" "+q; fprintf(stderr,"$ mairix%s\n%s%s=> %s\n",l.c_str(),x.p->out.substr(0,1500).c_str(),x.p->err.substr(0,1500).c_str(),x.p->status().c_str()); for(auto&q:x.p->faults)fprintf(stderr,"  fault kind %d fired=%d at %s\n",q.kind,q.fired,q.where.c_str()); } return x; }
PP Exec::dry(vector<string> a){ auto c=world->clone(); World*sv=W; W=c.get(); W->journal=false; Stats st=ST; u64 tr=g_trace,sq=g_seq; bool vb=g_verbose; g_verbose=false; int pids=get_pids(); PP p=proc(a); set_pids(pids); g_drydb.clear();  Sim s; s.procs={p}; s.run(); W->get(g_dbpath,g_drydb); g_dryncmds=W->imap->ncmds; W=sv; u64 pr=ST.procs; ST=st; ST.probes["dry_runs"]++; g_trace=tr; g_seq=sq; g_verbose=vb; (void)pr; zshim_cleanup(); return p; }
vector<string> Exec::idxargs(const Op&o){ vector<string> a; if(o.has("purge"))a.push_back("-p"); if(o.has("fast"))a.push_back("-F"); if(o.has("verbose"))a.push_back("-v"); if(o.has("noint"))a.push_back("-Q"); return a; }
MP_ Exec::newmsg(Rng&q){ if(!m.all.empty()&&q.chance(1,30)) if(MP_ v=m.variant(m.all[q.below(m.all.size())])){ probe("twin"); return v; } MsgOpts o; o.bodywords=3+q.below(pl.k("bodywords",12)); o.hotid=pl.k("hotid",0); if(pl.k("bigwords",0)&&q.chance(1,6))o.bigwords=pl.k("bigwords"); if(pl.k("huge",0)&&!m.hashuge&&q.chance(1,3)){ o.huge=pl.k("huge"); o.simple=true; } if(pl.k("crlf",0)&&q.chance(1,3))o.crlf=true; vector<string> t; if(q.chance(pl.k("threadpct",35),100))t=threadids(q); return m.mkmsg(q,o,W->now,t.empty()?nullptr:&t); }
vector<string> Exec::threadids(Rng&q){ vector<string> v; int n=1+q.below(3); for(int i=0;i<n;i++){ if(!m.all.empty()&&q.chance(4,5)){ auto&x=m.all[m.all.size()-1-q.below(std::min<size_t>(m.all.size(),12))]; if(!x->msgid.empty()){ v.push_back(x->msgid); continue; } } v.push_back("absent"+std::to_string(q.below(6))+"@elsewhere.example"); } return v; }
size_t Exec::pickfolder(Rng&q,int mask){ vector<size_t> v; for(size_t i=0;i<m.fo.size();i++)if(mask>>m.fo[i].type&1)v.push_back(i); if(v.empty())return (size_t)-1; return v[q.below(v.size())]; }
void Exec::populate(Rng&q,int n){ for(int i=0;i<n;i++){ size_t k=pickfolder(q,255); if(k==(size_t)-1)return; if(m.fo[k].type!=IMAP_&&!W->exists(m.fo[k].path)){ continue; } m.add(m.fo[k],newmsg(q),q); } }
const vector<string> STOREOPS={"add","add","add","add","del","del","flag","move","change","mbdel","mbins","mbreorder","copy","restore","touch","rmfolder","addmany","mbempty","rename","prepend","backdate","backdate","rmmboxes"};
bool Exec::store(const Op&o){ Rng q(o.s); const string&k=o.kind; later(2+q.below(90000));
  auto ismb=[&](Folder&f){ return f.type>=MBOX&&f.type<=XZ; };
  if(k=="add"){ populate(q,1+q.below(3)); return true; }
  if(k=="addmany"){ int n=pl.k("many",20); size_t f=pickfolder(q,255); if(f==(size_t)-1)return true; Folder&F=m.fo[f]; if(F.type!=IMAP_&&!W->exists(F.path))return true; int c=5+q.below(n); if(ismb(F)){ Folder G=F; for(int i=0;i<c;i++){ Item it; it.m=newmsg(q); it.fromline="From bulk@sender Mon Jan  1 10:00:00 2001"; it.extra="\n"; F.items.push_back(it); } m.rewrite(F); } else for(int i=0;i<c;i++)m.add(F,newmsg(q),q); return true; }
  if(k=="bulk"){ size_t f=pickfolder(q,o.has("imap")?0x80:0x0f); if(f==(size_t)-1)return true; Folder&F=m.fo[f]; if(F.type!=IMAP_&&!W->exists(F.path))return true; int c=o.get("n",200); bool mb=ismb(F); probe("bulk"); for(int i=0;i<c;i++){ MP_ g=std::make_shared<Msg>(); g->id=m.nextid++; g->uniq="uq"+std::to_string(g->id)+"x"; string w=m.vocab[q.below(m.vocab.size())]; g->raw="Subject: "+g->uniq+"\n\n"+w+"\n"; g->tok[SUBJ].insert(g->uniq); g->tok[BODY].insert(w); if(mb){ Item it; it.m=g; it.fromline="From bulk@sender Mon Jan  1 10:00:00 2001"; it.extra="\n"; F.items.push_back(it); } else m.add(F,g,q); } if(mb)m.rewrite(F); return true; }
  if(k=="copy"){ if(m.all.empty())return true; size_t f=pickfolder(q,255); if(f!=(size_t)-1&&(m.fo[f].type==IMAP_||W->exists(m.fo[f].path))){ MP_ g=m.all[q.below(m.all.size())]; if(!g->bad||(ismb(m.fo[f])&&!g->raw.empty()))m.add(m.fo[f],g,q); } return true; }
  if(k=="del"){ int n=1+q.below(3); while(n--){ size_t f=pickfolder(q,255); if(f==(size_t)-1)return true; Folder&F=m.fo[f]; if(F.items.empty()||(F.type!=IMAP_&&!W->exists(F.path)))continue; size_t i=q.below(F.items.size()); if(ismb(F)&&q.chance(1,2))i=F.items.size()-1; grave.push_back({F.name,{(int)i,F.items[i]}}); Item it=F.items[i]; m.removeItem(F,i); } return true; }
  if(k=="mbdel"){ size_t f=pickfolder(q,0x7c); if(f==(size_t)-1||m.fo[f].items.empty()||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; int n=1+q.below(3); size_t i=o.has("last")?(F.items.size()>(size_t)n?F.items.size()-n:0):q.below(F.items.size()); while(n--&&i<F.items.size()){ grave.push_back({F.name,{(int)i,F.items[i]}}); F.items.erase(F.items.begin()+i); } m.rewrite(F); return true; }
  if(k=="mbins"||k=="prepend"){ size_t f=pickfolder(q,0x7c); if(f==(size_t)-1||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; Item it; it.m=newmsg(q); it.fromline="From ins@ert Mon Jan  1 10:00:00 2001"; it.extra="\n"; F.items.insert(F.items.begin()+(k=="prepend"?0:q.below(F.items.size()+1)),it); m.rewrite(F); return true; }
  if(k=="mbreorder"){ size_t f=pickfolder(q,0x7c); if(f==(size_t)-1||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; for(size_t i=F.items.size();i>1;i--)std::swap(F.items[i-1],F.items[q.below(i)]); m.rewrite(F); return true; }
  if(k=="mbempty"){ size_t f=pickfolder(q,0x7c); if(f==(size_t)-1||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; F.items.clear(); m.rewrite(F); return true; }
  if(k=="restore"){ if(grave.empty())return true; auto g=grave.back(); grave.pop_back(); Folder*F=m.get(g.first); if(!F||(F->type!=IMAP_&&!W->exists(F->path)))return true; if(ismb(*F)){ Item it; it=g.second.second; if(q.chance(1,3))it.fromline="From restore@host Mon Jan  1 10:00:00 2001"; F->items.insert(F->items.begin()+std::min<size_t>(g.second.first,F->items.size()),it); m.rewrite(*F); } else m.add(*F,g.second.second.m,q); return true; }
  if(k=="flag"||k=="rename"){ size_t f=pickfolder(q,1); if(f==(size_t)-1||m.fo[f].items.empty()||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; Item&i=F.items[q.below(F.items.size())]; string b=i.file.substr(4); size_t c=b.rfind(':'); if(c!=string::npos&&(b.compare(c,3,":2,")==0||b.compare(c,3,":1,")==0))b=b.substr(0,c); if(k=="rename")b+="r"; i.s=q.chance(1,2);i.r=q.chance(1,3);i.f=q.chance(1,3); string nf="cur/"+b+":2,"+(i.f?"F":"")+(i.r?"R":"")+(i.s?"S":""); if(nf!=i.file){ W->mv(F.path+"/"+i.file,F.path+"/"+nf); i.file=nf; } return true; }
  if(k=="move"){ size_t f=pickfolder(q,3); if(f==(size_t)-1||m.fo[f].items.empty()||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; size_t t=pickfolder(q,1<<F.type); Folder&T=m.fo[t]; if(!W->exists(T.path))return true; size_t k2=q.below(F.items.size()); Item i=F.items[k2]; string old=F.path+"/"+i.file; if(F.type==MH){ i.file=std::to_string(T.next++)+(T.mhmark=="cmeta"?".":""); } else if(&F==&T)return true; string nw=T.path+"/"+i.file; if(W->exists(nw))return true; W->mv(old,nw); F.items.erase(F.items.begin()+k2); T.items.push_back(i); return true; }
  if(k=="change"){ size_t f=pickfolder(q,3); if(f==(size_t)-1||m.fo[f].items.empty()||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; Item&i=F.items[q.below(F.items.size())]; i.m=newmsg(q); W->put(F.path+"/"+i.file,i.m->raw); return true; }
  if(k=="backdate"){ // a change that shows only in an older modification time, or only in the size
    size_t f=pickfolder(q,127); if(f==(size_t)-1||m.fo[f].items.empty()||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; Item&i=F.items[q.below(F.items.size())]; bool mb=ismb(F); string file=mb?F.path:F.path+"/"+i.file; IP n=W->lookup(file); if(!n)return true; i64 mt=n->mtime; int how=q.below(3);
    if(how==0){ if(m.kept.count(file)||F.type>=GZ)return true; size_t old=n->data.size(); if(mb){ Item it; it.m=newmsg(q); it.fromline="From kept@host Mon Jan  1 10:00:00 2001"; it.extra="\n"; F.items.push_back(it); m.rewrite(F); } else { i.m=newmsg(q); W->put(file,i.m->raw); } n=W->lookup(file); if(n->data.size()!=old){ n->mtime=mt; m.kept.insert(file); probe("same_mtime_other_size"); } return true; }
    MP_ v=how==1?m.variant(i.m):newmsg(q); if(!v)return true; i.m=v; if(mb)m.rewrite(F); else W->put(file,v->raw); m.past-=(1+q.below(5000))*1000000000LL; W->lookup(file)->mtime=m.past; probe(how==1?"older_same_size":"older_mtime"); return true; }
  if(k=="touch"){ size_t f=pickfolder(q,127); if(f==(size_t)-1||!W->exists(m.fo[f].path))return true; Folder&F=m.fo[f]; if(ismb(F)){ W->lookup(F.path)->mtime=W->now; return true; } if(F.items.empty())return true; if(IP i=W->lookup(F.path+"/"+F.items[q.below(F.items.size())].file))i->mtime=W->now; return true; }
  if(k=="rmmboxes"){ bool fl=false; for(auto&f:m.fo)if(!ismb(f))fl=true; bool keep=!fl||q.chance(1,2); for(auto&F:m.fo)if(ismb(F)&&W->exists(F.path)){ if(keep&&q.chance(1,3))continue; W->rm(F.path); F.items.clear(); } if(!m.live().size()){ for(auto&F:m.fo)if(ismb(F)){ m.create(F); m.add(F,newmsg(q),q); break; } } return true; }
  if(k=="rmfolder"){ size_t f=pickfolder(q,127); if(f==(size_t)-1)return true; Folder&F=m.fo[f]; if(W->exists(F.path)){ if(m.fo.size()<2)return true; if(F.type==MD||F.type==MH){ for(auto&i:F.items)W->rm(F.path+"/"+i.file); F.items.clear(); if(q.chance(1,2))W->rm(F.path); } else { W->rm(F.path); F.items.clear(); } } else { m.create(F); } return true; }
  return false; }
// ------------------------------------------------------------------ observation
vector<string> Exec::locs(const string&out){ vector<string> v; std::istringstream in(out); string l; while(std::getline(in,l)){ if(l.compare(0,5,"mbox:")==0){ size_t b=l.rfind(" ["); size_t c=l.find(',',b); v.push_back(l.substr(5,b-5)+"#"+l.substr(b+2,c-b-2)); } else v.push_back(l); } return v; }
vector<string> Exec::search(vector<string> a,Res*res,bool thr){ vector<string> x={"-r"}; if(thr)x.push_back("-t"); x.insert(x.end(),a.begin(),a.end()); Res q=run(x); if(res)*res=q; if(q.p->crashed()||q.p->termsig) fail("search-crash","search %s: %s (stderr: %s)",show(a).c_str(),q.p->status().c_str(),q.p->err.substr(0,300).c_str()); auto v=locs(q.p->out); if(q.p->exitcode!=(v.empty()?1:0)) fail("search-status","search %s printed %zu matches but exited %d (stderr: %s)",show(a).c_str(),v.size(),q.p->exitcode,q.p->err.substr(0,300).c_str()); return v; }
void Exec::expectset(const vector<string>&g0,const vector<string>&w0,const string&cls,const string&what){ vector<string> g=g0,w=w0; std::sort(g.begin(),g.end()); std::sort(w.begin(),w.end()); if(g==w)return; vector<string> miss,extra; std::set_difference(w.begin(),w.end(),g.begin(),g.end(),std::back_inserter(miss)); std::set_difference(g.begin(),g.end(),w.begin(),w.end(),std::back_inserter(extra)); string c=cls+(miss.empty()?":extra":extra.empty()?":missing":":both"); fail(c,"%s: expected %zu messages, got %zu; missing %s; unexpected %s",what.c_str(),w.size(),g.size(),show(miss).c_str(),show(extra).c_str()); }
vector<string> Exec::want(std::function<bool(const Live&)> f){ vector<string> v; for(auto&l:idx)if(f(l))v.push_back(l.loc); return v; }
static const char FC[]={'t','c','f','s','b','n'};
string Exec::tokenarg(Rng&q,const Live&l,int&fld,string&tok){ for(int t=0;t<20;t++){ int f=q.below(NFLD); auto&s=l.m->tok[f]; if(s.empty())continue; auto it=s.begin(); std::advance(it,q.below(s.size())); if(it->size()>100||it->find_first_of("/,=~^:\"")!=string::npos)continue; fld=f; tok=*it; return string(1,FC[f])+":"+*it; } fld=SUBJ; tok=l.m->uniq; return "s:"+l.m->uniq; }
void Exec::verifyall(const string&cls){ auto g=search({"s:~zzznosuchword"}); expectset(g,want([](const Live&){return true;}),cls,"listing of all indexed messages"); }
void Exec::verify(const string&cls,Rng&q,int nq){
  verifyall(cls);
  for(int n=0;n<nq&&!idx.empty();n++){ const Live&l=idx[q.below(idx.size())]; int kind=q.below(8);
    if(kind<5){ int f; string t; string a=tokenarg(q,l,f,t); if(q.chance(1,4))for(auto&c:t)(void)c; auto g=search({a}); expectset(g,want([&](const Live&x){return x.m->tok[f].count(t)>0;}),cls,"search "+a); }
    else if(kind==5){ if(l.m->mids.empty())continue; auto it=l.m->mids.begin(); std::advance(it,q.below(l.m->mids.size())); string id=*it; auto g=search({"m:"+id}); expectset(g,want([&](const Live&x){return x.m->mids.count(id)>0;}),cls,"search m:"+id); }
    else if(kind==6){ auto g=search({"s:"+l.m->uniq}); expectset(g,want([&](const Live&x){return x.m->tok[SUBJ].count(l.m->uniq)>0;}),cls,"search s:"+l.m->uniq); }
    else { string t; for(int k=0;k<10&&t.empty();k++){ string w=m.vocab[q.below(m.vocab.size())]; t=w; } if(t.size()>100)continue; auto g=search({t}); expectset(g,want([&](const Live&x){ for(int f=0;f<5;f++)if(x.m->tok[f].count(t))return true; return false; }),cls,"search "+t); } } }
void Exec::nocrash(const Res&x,const string&cls){ if(x.p->crashed()){ string a; for(auto&s:x.p->argv)a+=s+" "; string fw; for(auto&f:x.p->faults)if(f.fired)fw+=" after "+f.where; fail(cls+":crash","'%s' ended with %s%s (stderr: %s)",a.c_str(),x.p->status().c_str(),fw.c_str(),x.p->err.substr(0,300).c_str()); } }
vector<string> Exec::litter(){ vector<string> v; for(auto&n:W->ls("/home/u")) if(n!=".mairixrc"&&n!="mail"&&n!="out"&&n!=".mairix_db"&&n!="out2"&&n!="store") v.push_back(n); return v; }
void Exec::start(){ oft=pl.k("oft",0); stdfolders(); writerc(); Rng q(pl.k("iseed",pl.seed)); populate(q,pl.k("init",5)); later(100); }
void Exec::steady(const string&cls,const Op&o,int nq){ later(5); { Rng q(o.s^5); m.settle(q); } vector<string> a=idxargs(o); Res z=run(a); nocrash(z,cls+":steady"); if(!z.ok()) fail(cls+":steady-failed","an undisturbed index run exited with %s (stderr: %s)",z.p->status().c_str(),z.p->err.substr(0,400).c_str()); m.seen(true); idx=m.live(); have=true; if(nq>=0&&(W->exists(g_dbpath)||!idx.empty())){ Rng q(o.s^9); verify(cls,q,nq); } }
vector<Fault> Exec::faults(const Op&o,const vector<string>&args){ vector<Fault> v; if(!o.has("fk"))return v; PP d=dry(args); for(int k=0;k<3;k++){ string s=k?std::to_string(k+1):""; if(!o.has("fk"+s))break; int kind=o.get("fk"+s),mask=o.get("fm"+s); i64 pos=o.get("fp"+s); int arg=o.get("fa"+s); i64 at=1;
    if(kind==1){ i64 n=0; for(auto&c:d->fcat)if(!mask||(c.first&mask))n+=c.second; if(!n)continue; at=1+pos*n/1000000; v.push_back(mkfault(F_ERR,at,arg,mask)); }
    else if(kind==2||kind==4){ vector<int> st; for(size_t i=0;i<d->stepcat.size();i++)if(!mask||(d->stepcat[i]&mask))st.push_back(i+1); if(st.empty())continue; size_t i=pos*(st.size()+1)/1000000; at=i<st.size()?st[i]:st.back()+1; static const int SG[]={2,1,3,15,13}; v.push_back(mkfault(kind==2?F_SIG:F_KILL,at,kind==2?SG[((unsigned)arg)%5]:9)); }
    else if(kind==3){ at=1+pos*(i64)std::max<u64>(1,d->mallocs)/1000000; v.push_back(mkfault(F_OOM,at,arg&1)); }
    else if(kind==5){ v.push_back(mkfault(F_SHORT,1+pos%20,arg)); } else if(kind==6||kind==7){ v.push_back(mkfault(F_PIPE,pos*(i64)(d->out.size()+1)/1000000,kind==7)); } } return v; }
void gen_fault(Op&o,Rng&r,int kinds,int mask){ vector<int> ks; for(int k=1;k<=7;k++)if(kinds>>k&1)ks.push_back(k); int k=ks[r.below(ks.size())]; o.p["fk"]=k; int m=mask; if(!m&&r.chance(2,3)){ static const int MS[]={C_MAIL,C_DB,C_LOCK,C_OUT,C_OTHER,C_DB|C_LOCK,C_NET}; m=MS[r.below(7)]; } if(m)o.p["fm"]=m; o.p["fp"]=r.below(1000000); o.p["fa"]=r.below(100000); }
vector<string> Exec::cmd(const Op&o){ Rng q(o.s^77); vector<string> a; int v=o.get("v",0); auto query=[&](){ if(idx.empty()||q.chance(1,8)){ a.push_back("s:~zzznosuchword"); return; } int f; string t; a.push_back(tokenarg(q,idx[q.below(idx.size())],f,t)); if(q.chance(1,6))a.push_back("d:19800101-"); };
  switch(v){ case V_INDEX: a=idxargs(o); break; case V_PURGE: a=idxargs(o); a.push_back("-p"); break; case V_RAW: a={"-r"}; query(); break; case V_FOLDER: query(); break; case V_AUG: a={"-a"}; query(); break; case V_THR: a={"-t"}; if(q.chance(1,3))a.push_back("-r"); query(); break; case V_EXC: a={"-x"}; query(); break; case V_DUMP: a={"-d"}; break; case V_BADQ: a={"d:bogus"}; break; case V_NOMATCH: a={"s:nosuchwordanywhere"}; break; case V_HARD: a={"-H"}; query(); break; case V_OTHER: a={"-o","/home/u/out2"}; if(q.chance(1,3))a.push_back("-a"); query(); break;
    case V_REFUSE: a={"-o",m.fo[q.below(m.fo.size())].path}; query(); break; case V_USAGE: a={q.chance(1,2)?"-Z":"-f"}; break; case V_HELP: a={q.chance(1,2)?"-h":"-V"}; break; case V_BADQ2: a={"m:abc","s:def"}; break; default: a={"-r"}; query(); }
  if(o.has("verbose")&&v!=V_INDEX&&v!=V_PURGE)a.insert(a.begin(),"-v"); if(o.has("unlock"))a.insert(a.begin(),"--unlock"); return a; }
// ------------------------------------------------------------------ generators
void gen_knobs(Plan&p,Rng&r,int tier){ p.knob["vseed"]=r.below(1000000); p.knob["dirseed"]=r.chance(1,5)?0:1+r.below(1000000); p.knob["pid"]=r.below(1000000); p.knob["t0"]=r.chance(1,12)?2147483648LL-(i64)r.below(30000000)+(i64)r.below(20000000):r.chance(1,40)?2147483648LL+(i64)r.below(1500000000):1000000000+r.below(700000000); p.knob["fill"]=r.below(65536); p.knob["mhmark"]=r.below(10); if(r.chance(1,3))p.knob["nochecks"]=1; if(r.chance(1,12))p.knob["mblnk"]=1; if(r.chance(1,2))p.knob["nofile"]=40; if(r.chance(1,5))p.knob["lopt"]=1+r.below(2);
  static const int FT[]={1,2,3,4,7,5,8,12,15,16,32,64,0x1f,0x7f,4,1}; p.knob["ftypes"]=FT[r.below(16)]; p.knob["nmd"]=r.below(3); if(r.chance(1,8))p.knob["hotid"]=3+r.below(8); p.knob["nmb"]=r.chance(1,10)?2+r.below(14):r.below(2); static const int VC[]={12,40,60,60,150,500}; p.knob["vocab"]=VC[r.below(tier?6:5)]; p.knob["bodywords"]=r.chance(1,4)?60:12; p.knob["many"]=r.chance(1,6)?120:15; if(r.chance(1,8))p.knob["bigwords"]=300; if(r.chance(1,5))p.knob["crlf"]=1; p.knob["threadpct"]=r.below(3)*30; p.knob["init"]=r.chance(1,10)?40+r.below(tier?400:200):r.below(12); }
void gen_history(Plan&p,Rng&r,int nops,int pidx,std::function<void(Op&,Rng&)> onindex){ vector<string> ops; { set<size_t> off; int n=r.below(8); while(n--)off.insert(r.below(STOREOPS.size())); for(size_t i=0;i<STOREOPS.size();i++)if(!off.count(i))ops.push_back(STOREOPS[i]); }
  for(int i=0;i<nops;i++){ if(r.chance(1,150)){ p.add("bulk",r.next()).p["n"]=r.chance(1,15)?16500:r.chance(1,2)?130:700; p.add("add",r.next()); continue; } if(r.chance(1,25)){ p.add("mbdel",r.next()).p["last"]=1; Op&o=p.add("index",r.next()); if(onindex)onindex(o,r); int k=1+r.below(3); while(k--)p.add("restore",r.next()); continue; } if(r.chance(pidx,100)){ Op&o=p.add("index",r.next()); if(onindex)onindex(o,r); } else p.add(r.pick(ops),r.next()); } Op&o=p.add("index",r.next()); if(onindex)onindex(o,r); }
