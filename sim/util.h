// Small helpers shared by the property files.
#pragma once
#include "exec.h"
static inline string argsof(const vector<string>&a){ string s="mairix"; for(auto&x:a)s+=" "+x; return s; }
static inline string fwhere(const PP&p){ string s; for(auto&f:p->faults)if(f.fired)s+=(s.empty()?"":", ")+string(f.kind==F_KILL?"killed at ":f.kind==F_SIG?"signal at ":f.kind==F_OOM?"":"")+f.where; return s; }
static inline bool killed(const PP&p){ return p->termsig==9&&!p->hang; }
static inline void smallknobs(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["init"]=r.below(8); p.knob["many"]=5; p.knob["bodywords"]=8; p.knob.erase("bigwords"); p.knob["oft"]=r.below(3); }
static inline void histbit(Plan&p,Rng&r,int n){ static const vector<string> H={"add","add","add","del","flag","move","change","mbdel","mbins","copy","touch"}; while(n-->0)p.add(H[r.below(H.size())],r.next()); }
static inline void noleft(Exec&x,const string&cls,const string&what){ auto v=x.litter(); for(auto&n:v) if(n.find(".lock")!=string::npos) fail(cls,"%s left %s behind",what.c_str(),n.c_str()); }
static inline void clearlock(Exec&x){ for(auto&n:x.litter()) if(n.find(".lock")!=string::npos) W->rm("/home/u/"+n); W->lockowner=0; }
// ---- reading match folders
static inline string rstrip(string s){ while(!s.empty()&&(s.back()=='\n'||s.back()=='\r'))s.pop_back(); return s; }
struct Ent { string name, kind, target, data; Inode*ino; };     // one entry of a match folder
static inline map<string,Ent> entries(int fmt_,const string&dir){ map<string,Ent> r; vector<string> subs; if(fmt_==MD)subs={"new/","cur/","tmp/"}; else subs={""};
  for(auto&s:subs)for(auto&n:W->ls(dir+"/"+s)){ IP i=W->lookup(dir+"/"+s+n,false); if(!i)continue; Ent e; e.name=s+n; e.ino=i.get(); if(i->type==I_LNK){ e.kind="link"; e.target=i->target; if(IP t=W->lookup(dir+"/"+s+n))e.data=t->data; } else if(i->type==I_DIR)e.kind="dir"; else { e.kind="file"; e.data=i->data; } r[e.name]=e; } return r; }
static inline string textof(const Live&l){ if(l.imap){ string f=l.path.substr(l.path.find(':',l.path.find(':')+1)+1); unsigned uid=strtoul(l.path.c_str()+l.path.find(':')+1,nullptr,10); for(auto&m:W->imap->folders[f].msgs)if(m.uid==uid)return m.data; return "?"; } return l.m->raw; }
static inline string shorten(const string&s){ string o=s.substr(0,160); for(auto&c:o)if(c=='\n')c='|'; return o; }
static inline vector<std::pair<string,string>> mboxentries(const string&d,bool&junk){ static const string F="From mairix@mairix Mon Jan  1 12:34:56 1970\n"; vector<std::pair<string,string>> v; junk=false; size_t p=0; if(d.empty())return v; if(d.compare(0,F.size(),F)){ junk=true; return v; }
  while(p<d.size()){ size_t b=p+F.size(),e=d.find("\n"+F,b-1); string t=e==string::npos?d.substr(b):d.substr(b,e+1-b); string src; if(t.compare(0,17,"X-source-folder: ")==0){ size_t n=t.find('\n'); src=t.substr(17,n-17); t=t.substr(n+1); } v.push_back({src,t}); if(e==string::npos){ break; } p=e+1; } return v; }
