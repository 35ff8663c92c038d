// C13 exactly the configured folders are indexed
#include "util.h"
#include <algorithm>
static const char BASE[]="/home/u/mail";
// ---------------------------------------------------------------- reference meaning of folder lists
static bool gmatch(const char*p,const char*s,bool path){ // path: '*' stops at '/', '**' does not
  while(*p){ if(*p=='*'){ bool two=p[1]=='*'; p+=two?2:1; for(;;){ if(gmatch(p,s,path))return true; if(!*s||(path&&!two&&*s=='/'))return false; s++; } }
    if(!*s)return false; if(*p=='?'){ p++; s++; continue; }
    if(*p=='['){ p++; bool in=false,first=true; while(*p&&(first||*p!=']')){ if(p[1]=='-'&&p[2]&&p[2]!=']'){ unsigned char a=p[0],b=p[2],c=*s; if(a>b)std::swap(a,b); if(c>=a&&c<=b)in=true; p+=3; } else { if(*p==*s)in=true; p++; } first=false; } if(!in)return false; if(*p)p++; s++; continue; }
    if(*p!=*s)return false; p++; s++; } return !*s; }
static bool wild(const string&s){ return s.find_first_of("*?[")!=string::npos; }
static bool isnum(const string&s){ if(s.empty())return false; for(size_t i=0;i<s.size();i++)if(s[i]<'0'||s[i]>'9')return i>0&&i+1==s.size()&&s[i]=='.'; return true; }
struct Cfg { vector<string> list[3]; vector<string> omit, imap; bool follow=false; };      // MD, MH, MBOX
struct Found { string path; bool open; };
struct Expander { const Cfg&c; int type; vector<Found> out;
  bool up(const string&p){ for(size_t k=p.size();(k=p.rfind('/',k-1))!=string::npos&&k>0;){ IP d=W->lookup(p.substr(0,k)); if(d&&!(d->mode&0100))return false; } return true; }
  bool reach(const string&p){ string a; if(!up(p))return false; size_t k=1; while((k=p.find('/',k))!=string::npos){ if(W->lookup(p.substr(0,k),true,&a)&&!up(a))return false; k++; } return !W->lookup(p,true,&a)||up(a); }
  bool canread(const string&p,int bit){ IP i=W->lookup(p); return i&&(i->mode&bit)&&reach(p); }
  bool omitted(const string&p,size_t base){ for(auto&o:c.omit)if(gmatch(o.c_str(),p.c_str()+base,true))return true; return false; }
  bool child(const string&p,const char*n,IType t){ IP i=W->lookup(p+"/"+n); return i&&i->type==t&&reach(p+"/"+n); }
  bool isfolder(const string&p,IP i){ if(type==MD)return i->type==I_DIR&&child(p,"new",I_DIR)&&child(p,"cur",I_DIR)&&child(p,"tmp",I_DIR); if(type==MH){ if(i->type!=I_DIR)return false; for(auto m:{".xmhcache",".mh_sequences",".sylpheed_cache",".sylpheed_mark",".claws_cache",".claws_mark",".marks",".overview","cmeta","summary",".mew-summary","index"})if(child(p,m,I_REG))return true; return false; } return i->type==I_REG; }
  vector<string> ls(const string&p){ return canread(p,0400)?W->ls(p):vector<string>(); }
  void shallow(const string&p,size_t base,bool open){ IP i=W->lookup(p); if(i&&reach(p)&&isfolder(p,i)&&!omitted(p,base))out.push_back({p,open}); }
  void deep(const string&p,size_t base,bool open,int depth){ IP i=W->lookup(p); if(!i||!reach(p)||depth>12)return; shallow(p,base,open); if(i->type!=I_DIR)return; bool self=isfolder(p,i); if(omitted(p,base))open=true; for(auto&n:ls(p)){ string q=p+"/"+n; bool op=open; if(type==MD&&self&&(n=="new"||n=="cur"||n=="tmp")){ if(!open)continue; } if(type==MH&&isnum(n))op=true; IP k=W->lookup(q); if(!k)continue; if(k->type==I_DIR||type==MBOX)deep(q,base,op,depth+1); } }
  void entry(const string&e0){ string e=e0; bool rec=false; string full=e[0]=='/'?e:string(BASE)+"/"+e; size_t base=e[0]=='/'?0:strlen(BASE)+1; if(full.size()>=4&&full.compare(full.size()-3,3,"...")==0){ rec=true; full.resize(full.size()-3); } size_t sl=full.rfind('/'); string last=full.substr(sl+1),dir=full.substr(0,sl); if(wild(last)){ for(auto&n:ls(dir))if(gmatch(last.c_str(),n.c_str(),false)){ string p=dir+"/"+n; if(omitted(p,base)){ if(rec)deep(p,base,true,0); continue; } if(rec)deep(p,base,false,0); else shallow(p,base,false); } } else if(rec)deep(full,base,false,0); else shallow(full,base,false); }
};
// ---------------------------------------------------------------- trees
struct Tree { map<const Inode*,vector<std::pair<size_t,MP_>>> mbox; map<const Inode*,MP_> file; map<const Inode*,int> ct; vector<IP> hold; };
static const vector<string> NAMES={"foo","foobar","fooquux","bar","Bar","baz","a","b1","b2","x-y","sp ace","co:lon",".hid","z*w","q[r]","lists","2004","spam","spam2","a-rather-long-folder-name-as-people-have","7","12.","new","cur","foo...","old~","m.gz","old.bz2","w.xz","index","Q","2mail",".gitter"};
static string anyname(Rng&q){ return NAMES[q.below(NAMES.size())]; }
static void alldirs(vector<string>&d){ W->walk(BASE,[&](const string&p,Inode*i){ if(i->type==I_DIR)d.push_back(p); }); }
static bool plain13(const Msg&m){ return m.raw.find("\nFrom ")==string::npos; }
static MP_ msg13(Exec&x,Rng&q){ for(;;){ MP_ g=x.newmsg(q); if(plain13(*g)&&g->raw.compare(0,5,"From "))return g; } }
static void putfile(Exec&x,Tree&t,Rng&q,const string&p){ MP_ g=msg13(x,q); W->put(p,g->raw); IP i=W->lookup(p); i->mail=true; t.file[i.get()]=g; t.hold.push_back(i); }
static int ctype(const string&p){ auto ends=[&](const char*s){ size_t l=strlen(s); return p.size()>l&&p.compare(p.size()-l,l,s)==0; }; return ends(".gz")?GZ:ends(".bz2")?BZ:ends(".xz")?XZ:MBOX; }
static void putmbox(Exec&x,Tree&t,Rng&q,const string&p,bool mmdf){ string d; vector<std::pair<size_t,MP_>> v; int n=q.below(4); for(int k=0;k<n;k++){ MP_ g=msg13(x,q); if(mmdf)d+="\1\1\1\1\n"; else d+="From "+x.m.vocab[q.below(x.m.vocab.size())]+"@host Mon Jan  1 10:00:00 2001\n"; v.push_back({d.size(),g}); d+=g->raw; if(d.back()!='\n')d+="\n"; if(mmdf)d+="\1\1\1\1\n"; else d+="\n"; } int ty=ctype(p); W->put(p,compress_(ty,d)); IP i=W->lookup(p); i->mail=true; t.mbox[i.get()]=v; t.ct[i.get()]=ty; t.hold.push_back(i); }
static void grow(Exec&x,Tree&t,Rng&q){ vector<string> ds; alldirs(ds); string d; for(int k=0;k<4;k++){ string e=ds[q.below(ds.size())]; bool in=e.find("/cur")!=string::npos||e.find("/new")!=string::npos||e.find("/tmp")!=string::npos; if(d.empty()||(e.size()<d.size()&&!(in&&q.chance(5,6))))d=e; if(q.chance(1,4))break; } if(std::count(d.begin(),d.end(),'/')>8)return; string n=anyname(q); string p=d+"/"+n; int k=q.below(20); bool ex=!!W->lookup(p,false);
  if(k<5){ if(ex)return; for(auto s:{"new","cur","tmp"}){ if(q.chance(1,15))continue; W->mkdirs(p+"/"+s); } if(!W->exists(p))W->mkdirs(p); int m=q.below(4); while(m--){ string s=q.chance(1,4)?"new":"cur"; if(!W->exists(p+"/"+s))continue; putfile(x,t,q,p+"/"+s+"/"+(q.chance(1,12)?".":"")+std::to_string(q.below(1000))+"."+std::to_string(q.below(100))+(s=="cur"?":2,S":"")); } probe("tree_maildir"); }
  else if(k<9){ if(ex)return; W->mkdirs(p); static const char*MK[]={".xmhcache",".mh_sequences",".sylpheed_cache",".sylpheed_mark",".claws_cache",".claws_mark",".marks",".overview","cmeta","summary",".mew-summary","index"}; if(!q.chance(1,8))W->put(p+"/"+MK[q.below(12)],""); int m=q.below(4); while(m--)putfile(x,t,q,p+"/"+std::to_string(1+q.below(q.chance(1,4)?20000:30))+(q.chance(1,5)?".":"")); if(q.chance(1,5))W->put(p+"/,3","From: x\n\nremoved"); probe("tree_mh"); }
  else if(k<13){ if(ex)return; putmbox(x,t,q,p,q.chance(1,6)); probe("tree_mbox"); }
  else if(k<15){ if(!ex)W->mkdirs(p); }
  else if(k==15){ if(!ex){ W->put(p,q.chance(1,2)?string("just some text\nno mail here\n"):string("\x1f\x8b\x08junk\0\1\2",11)+string(q.below(50),'\3')); ST.faults["junk-file"]++; } }
  else if(k==16){ if(!ex){ W->symlink(q.chance(1,2)?"/nonexistent/place":n,p); ST.faults["dangling-link"]++; } }
  else if(k==17){ // a link to somewhere that does not contain the link
    if(ex||ds.size()<3)return; vector<string> c; W->walk(BASE,[&](const string&s,Inode*i){ if(s!=BASE&&d.compare(0,s.size(),s)&&i->type!=I_LNK)c.push_back(s); }); bool haslink=false; W->walk(BASE,[&](const string&,Inode*i){ if(i->type==I_LNK&&i->target.compare(0,strlen(BASE),BASE)==0)haslink=true; }); if(c.empty()||haslink)return; string tg=c[q.below(c.size())]; W->symlink(tg,p); probe("tree_symlink"); }
  else if(k==18){ vector<string> c; W->walk(BASE,[&](const string&s,Inode*i){ if(s!=BASE&&i->type!=I_LNK)c.push_back(s); }); IP i=c.empty()?nullptr:W->lookup(c[q.below(c.size())],false); if(i&&q.chance(1,2)){ i->mode=0; ST.faults["unreadable"]++; t.hold.push_back(i); probe("tree_unreadable"); } }
  else { vector<string> ms; for(auto&s:ds)if(s.size()>4&&(s.compare(s.size()-4,4,"/cur")==0||s.compare(s.size()-4,4,"/new")==0))ms.push_back(s); if(!ms.empty()){ string s=ms[q.below(ms.size())]; int w=q.below(3); if(w==0)W->mkdirs(s+"/subdir"); else if(w==1){ if(!W->exists(s+"/dangl"))W->symlink("/nonexistent",s+"/dangl"); } else putfile(x,t,q,s+"/"+std::to_string(q.below(1000))+".m"); ST.faults["odd-entry"]++; } } }
static void prune(Rng&q){ vector<string> a; W->walk(BASE,[&](const string&p,Inode*i){ if(p!=BASE)a.push_back(p); }); if(a.empty())return; string p=a[q.below(a.size())]; vector<string> sub; W->walk(p,[&](const string&s,Inode*i){ sub.push_back(s); }); std::sort(sub.begin(),sub.end(),[](auto&a,auto&b){return a.size()>b.size();}); for(auto&s:sub)W->rm(s); W->rm(p); }
static string pat(const string&s,Rng&q,bool path){ string o; size_t i=0; if(q.chance(1,4))return "*"; while(i<s.size()){ int k=q.below(10); if(s[i]=='/'&&!(path&&k==0)){ o+='/'; i++; } else if(k==0){ bool two=path&&q.chance(1,2); o+=two?"**":"*"; size_t n=q.below(6); while(n--&&i<s.size()&&(two||s[i]!='/'))i++; } else if(k==1){ o+='?'; i++; } else if(k<5&&(s[i]==']'||s[i]=='[')){ o+=string("[")+s[i]+(q.chance(1,3)?"x]":"]"); i++; } else if(k==2&&s[i]!='['&&s[i]!=']'&&s[i]!='-'){ int w=q.below(8); char c=s[i]; if(w==4&&c<'z'&&c>'#')o+=string("[z-")+c+"]"; else if(w==5)o+=string("[]")+char(c)+"]"; else if(w==6&&c>='a'&&c<='y')o+=string("[A-C")+char(c+1)+"-"+c+"0]"; else if(w==0)o+=string("[")+c+"z]"; else if(w==1&&c>='a'&&c<='y')o+=string("[")+char(c)+"-z]"; else if(w==2&&c>='b'&&c<='z')o+=string("[0-9a-")+c+"]"; else o+=string("[]")+c+"-]"; i++; } else o+=s[i++]; if(o.size()>2&&o[o.size()-1]=='*'&&o[o.size()-2]=='*'&&o[o.size()-3]=='*')return o.substr(0,o.size()-1)+(path?"":""); } return o; }
static string stars(string s){ size_t p; while((p=s.find("***"))!=string::npos)s.erase(p,1); return s; }
static Cfg mkcfg(Rng&q){ Cfg c; vector<string> any[3]; W->walk(BASE,[&](const string&p,Inode*i){ if(p==BASE)return; string rel=p.substr(strlen(BASE)+1); if(i->type==I_DIR||i->type==I_LNK){ any[0].push_back(rel); any[1].push_back(rel); } if(i->type==I_REG||i->type==I_LNK||q.chance(1,3))any[2].push_back(rel); Cfg none; for(int t=0;t<2;t++)if(i->type==I_DIR){ Expander e{none,t,{}}; e.shallow(p,strlen(BASE)+1,false); if(!e.out.empty())for(int k=0;k<6;k++)any[t].push_back(rel); } });
  for(int t=0;t<3;t++){ int n=q.below(4); for(int k=0;k<n;k++){ string e; if(any[t].empty()||q.chance(1,12))e="missing/"+anyname(q); else e=any[t][q.below(any[t].size())]; if(t==0&&e.size()>4&&(e.compare(e.size()-4,4,"/cur")==0||e.compare(e.size()-4,4,"/new")==0||e.compare(e.size()-4,4,"/tmp")==0)&&q.chance(3,4))e.resize(e.size()-4); if(q.chance(1,4)){ size_t s=e.rfind('/'); if(s!=string::npos)e.resize(s); } if(q.chance(1,3)){ size_t s=e.rfind('/'); string last=s==string::npos?e:e.substr(s+1); string pre=s==string::npos?"":e.substr(0,s+1); e=pre+stars(pat(last,q,false)); } bool ell=e.size()>=3&&e.compare(e.size()-3,3,"...")==0; if(q.chance(2,5)&&!ell)e+="..."; if(q.chance(1,10))e=string(BASE)+"/"+e; c.list[t].push_back(e); } }
  int n=q.below(4); vector<string> all; W->walk(BASE,[&](const string&p,Inode*i){ if(p!=BASE)all.push_back(p.substr(strlen(BASE)+1)); }); for(int k=0;k<n&&!all.empty();k++){ string e=all[q.below(all.size())]; if(q.chance(2,3))e=stars(pat(e,q,true)); if(q.chance(1,4))e=q.chance(1,2)?"**"+e.substr(e.rfind('/')+1):e.substr(0,e.find('/'))+"**"; if(q.chance(1,12))e=string(BASE)+"/"+e; c.omit.push_back(stars(e)); } c.follow=q.chance(1,3); return c; }
static string esc(const vector<string>&v){ string o; for(auto&s:v){ if(!o.empty())o+=":"; for(char ch:s){ if(ch==':')o+='\\'; o+=ch; } } return o; }
static string homeform(Exec&x,const string&p,Rng&q){ if(p.compare(0,8,"/home/u/"))return p; string t=p.substr(8); static const char*V[]={"MX_Dir1","_x","X2","mail_Root_","d"}; string v=V[q.below(5)]; while(x.env.count(v))v+="_"; auto use=[&](const string&n){ return q.chance(1,2)?"${"+n+"}":"$"+n; };
  switch(q.below(12)){ case 0: case 1: return "~/"+t; case 2: case 3: if(x.env.count("HOME"))break; return use("HOME")+"/"+t; case 4: x.env[v]="/home/u"; probe("env_variable"); return use(v)+"/"+t; case 5: x.env[v]="home"; probe("env_variable"); return "/"+use(v)+"/u/"+t; case 6: x.env[v]=p.substr(0,p.size()-1); probe("env_variable"); return "${"+v+"}"+p.back(); case 7: probe("env_unset"); return use("NOT_set")+p; case 8: probe("env_unset"); return "/home"+string("${NOT_set}")+"/u/${NOT_set2}"+t; } return p; }
static string rc13(Exec&x,const Cfg&c,Rng&q){ x.env.clear(); if(q.chance(1,6)){ x.env["HOME"]="\1"; probe("no_HOME"); } bool env=q.chance(1,4); string s; if(env&&q.chance(1,2)){ x.env["MAIRIX_FOLDER_BASE"]=BASE; if(q.chance(1,2))s="base=/nonexistent\n"; probe("env_base"); } else s="base="+homeform(x,BASE,q)+"\n"; static const char*K[]={"maildir","mh","mbox"}; static const char*E[]={"MAIRIX_MAILDIR_FOLDERS","MAIRIX_MH_FOLDERS","MAIRIX_MBOXEN"}; vector<string> lines; for(int t=0;t<3;t++){ if(c.list[t].empty())continue; if(env&&q.chance(1,2)){ x.env[E[t]]=esc(c.list[t]); if(q.chance(1,2))lines.push_back(string(K[t])+"=foo...:a*..."); probe("env_folders"); } else if(q.chance(1,3))for(auto&e:c.list[t])lines.push_back(string(t<2&&q.chance(1,6)?t?"mh_folders":"folders":K[t])+"="+esc({e})); else lines.push_back(string(K[t])+"="+esc(c.list[t])); } if(!c.omit.empty()){ if(q.chance(1,3))for(auto&e:c.omit)lines.push_back("omit="+esc({e})); else lines.push_back("omit="+esc(c.omit)); } if(c.follow)lines.push_back("follow_mbox_symlinks"); lines.push_back("mfolder=/home/u/out"); if(env&&q.chance(1,3)){ x.env["MAIRIX_DATABASE"]=g_dbpath; if(q.chance(1,2))lines.push_back("database=/nonexistent/db"); } else lines.push_back("database="+homeform(x,g_dbpath,q)); lines.push_back("# a comment"); for(size_t i=lines.size();i>1;i--)std::swap(lines[i-1],lines[q.below(i)]); for(auto&l:lines)s+=l+"\n"; return s; }
static void gen13(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["bodywords"]=6; p.knob.erase("bigwords"); p.knob["init"]=0; int n=5+r.below(tier?50:30); for(int i=0;i<n;i++)p.add("grow",r.next()); int rounds=1+r.below(tier?8:5); for(int i=0;i<rounds;i++){ p.add("config",r.next()); Op&o=p.add("index",r.next()); if(r.chance(1,5))o.p["purge"]=1; if(r.chance(1,12))o.p["verbose"]=1; int k=r.below(6); while(k--)p.add(r.chance(2,3)?"grow":"prune",r.next()); if(r.chance(1,3)){ Op&w=p.add("index",r.next()); if(r.chance(1,5))w.p["purge"]=1; } } }
static void run13(const Plan&pl){ Exec x(pl); Tree t; Cfg c; bool conf=false; string prev;
  for(auto&o:pl.ops){ Rng q(o.s); x.later(3+q.below(5000));
    if(o.kind=="grow"){ grow(x,t,q); continue; } if(o.kind=="prune"){ prune(q); continue; } if(o.kind=="config"){ c=mkcfg(q); conf=true; if(c.list[0].empty()&&c.list[1].empty()&&c.list[2].empty())c.list[0].push_back("foo..."); W->put("/home/u/.mairixrc",rc13(x,c,q)); continue; }
    if(o.kind!="index"||!conf)continue; 
    map<string,std::pair<MP_,bool>> want; bool dup=false,maydup=false; map<string,int> times; bool any=false;
    auto note=[&](const string&loc,MP_ g,bool open){ auto k=want.find(loc); if(k==want.end()){ want[loc]={g,open}; return; } if(open||k->second.second)maydup=true; else dup=true; if(!open)k->second.second=false; };
    for(int ty=0;ty<3;ty++){ Expander e{c,ty,{}}; for(auto&s:c.list[ty])e.entry(s); map<string,bool> mbs; for(auto&f:e.out){ if(ty==MBOX){ IP l=W->lookup(f.path,false); if(l->type==I_LNK&&!c.follow)continue; auto k=mbs.find(f.path); if(k!=mbs.end()){ if(f.open||k->second)maydup=true; else dup=true; if(!f.open)k->second=false; } else mbs[f.path]=f.open; IP i=W->lookup(f.path); if(!e.canread(f.path,0400))f.open=true; auto m=t.mbox.find(i.get()); if(m==t.mbox.end())continue; bool odd=t.ct[i.get()]!=ctype(f.path); for(auto&g:m->second){ if(odd)f.open=true; string loc=f.path+"#"+std::to_string(g.first); auto w=want.find(loc); if(w==want.end())want[loc]={g.second,f.open}; else if(!f.open)w->second.second=false; } }
        else for(string sub:ty==MD?vector<string>{"/new","/cur"}:vector<string>{""}){ string d=f.path+sub; if(!e.canread(d,0400))continue; for(auto&n:W->ls(d)){ if(ty==MH&&!isnum(n))continue; string loc=d+"/"+n; IP i=W->lookup(loc); bool link=false; { IP l=W->lookup(loc,false); link=l&&l->type==I_LNK; } if(times[loc]++){ dup=true; } if(!i||i->type!=I_REG)continue; bool open=f.open||!e.canread(loc,0400); auto m=t.file.find(i.get()); auto ends=[&](const char*e){ size_t l=strlen(e); return n.size()>l&&n.compare(n.size()-l,l,e)==0; }; if(m==t.file.end()||ends(".gz")||ends(".bz2")||ends(".xz")){ want[loc]={nullptr,true}; continue; } note(loc,m->second,open); if(f.open&&times[loc]>1)maydup=true; (void)link; } } } (void)any; }
    string b=x.db(); bool bex=W->exists(g_dbpath); vector<string> a=x.idxargs(o); if(g_verbose)W->walk(BASE,[&](const string&p,Inode*i){ fprintf(stderr,"  %o %s%s%s\n",i->mode,p.c_str(),i->type==I_DIR?"/":i->type==I_LNK?" -> ":"",i->type==I_LNK?i->target.c_str():""); }); Res z=x.run(a); x.nocrash(z,"C13"); string rc; W->get("/home/u/.mairixrc",rc); string what=fmt("an index run with maildir=%s mh=%s mbox=%s omit=%s%s",esc(c.list[0]).c_str(),esc(c.list[1]).c_str(),esc(c.list[2]).c_str(),esc(c.omit).c_str(),c.follow?" follow_mbox_symlinks":"");
    noleft(x,"C13:lock",what); if(!z.ok()){ if(!dup&&!maydup) fail("C13:failed","%s exited with %s (stderr: %s)",what.c_str(),z.p->status().c_str(),z.p->err.substr(0,300).c_str()); if(x.db()!=b||bex!=W->exists(g_dbpath)) fail("C13:refused-changed","%s was refused but changed the database",what.c_str()); probe("refused_duplicates"); continue; }
    if(dup)probe("duplicates_merged"); size_t must=0; for(auto&w:want)if(!w.second.second)must++; if(!W->exists(g_dbpath)){ if(must) fail("C13:nodb","%s left no database although there are %zu messages",what.c_str(),must); continue; }
    auto got=x.search({"s:~zzznosuchword"}); set<string> g(got.begin(),got.end()); if(g.size()!=got.size()) fail("C13:twice","%s: a message is listed twice: %s",what.c_str(),show(got).c_str()); vector<string> miss,extra; for(auto&w:want)if(!w.second.second&&!g.count(w.first))miss.push_back(w.first); for(auto&s:g)if(!want.count(s))extra.push_back(s); if(!miss.empty()||!extra.empty()) fail(miss.empty()?"C13:extra":extra.empty()?"C13:missing":"C13:both","%s: not indexed: %s; indexed although not configured: %s",what.c_str(),show(miss).c_str(),show(extra).c_str());
    if(must)probe("exact_listing"); if(must>5)probe("exact_listing_over5"); if(!c.omit.empty()&&must)probe("exact_with_omit");
    for(int k=0;k<2&&must;k++){ auto it=want.begin(); std::advance(it,q.below(want.size())); if(it->second.second||!it->second.first)continue; string u=it->second.first->uniq; auto h=x.search({"s:"+u}); for(auto&s:h){ auto w=want.find(s); if(w==want.end()||(w->second.first&&!w->second.first->tok[SUBJ].count(u))) fail("C13:text","%s: searching the word %s of %s finds %s",what.c_str(),u.c_str(),it->first.c_str(),s.c_str()); } if(std::find(h.begin(),h.end(),it->first)==h.end()) fail("C13:text","%s: %s is not found by its word %s",what.c_str(),it->first.c_str(),u.c_str()); } } }
static Reg r13("C13",gen13,run13);
