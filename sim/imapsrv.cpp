// Simulated IMAP server: the peer of the real imap.c client. Durable state lives in World::imap.
#include "core.h"
#include <algorithm>
#include <cstdlib>
struct Chunk { i64 at; string data; };
struct NetConn { string in; vector<Chunk> out; bool eof=false; i64 eofat=0; bool closed=false; string sel; bool selw=false; bool auth=false; bool stalled=false; Rng r{1}; i64 lastat=0; };
static vector<NetConn> g_conn;
void net_reset(){ g_conn.clear(); }
static void emit(NetConn&c,const string&s,i64 delay){ // fragment the bytes
  size_t p=0; int mode=c.r.below(4); i64 t=std::max(c.lastat,W->now+delay);
  while(p<s.size()){ size_t n= mode==0? s.size()-p : mode==1? 1+c.r.below(7) : mode==2? 1+c.r.below(200) : 1+c.r.below(3000); n=std::min(n,s.size()-p); t+=c.r.below(4)?0:c.r.below(3000000); c.out.push_back({t,s.substr(p,n)}); p+=n; }
  c.lastat=t;
}
static ImapFault*fault_at(u64 n,int lo,int hi){ for(auto&f:W->imap->faults) if(!f.fired&&f.kind>=lo&&f.kind<=hi&&(u64)f.at==n) return &f; return nullptr; }
static string caps(){ return "IMAP4rev1 LITERAL+ AUTH=PLAIN UIDPLUS"; }
int net_open(Proc*){ g_conn.emplace_back(); int id=(int)g_conn.size()-1; NetConn&c=g_conn.back(); ImapState&im=*W->imap; c.r=Rng(im.seed*31+id);
  string g; switch(im.greeting%4){ case 0: g="* OK [CAPABILITY "+caps()+"] simulated server ready\r\n"; break; case 1: g="* OK simulated server ready\r\n"; break; case 2: g="* PREAUTH [CAPABILITY "+caps()+"] welcome\r\n"; c.auth=true; break; default: g="* PREAUTH welcome\r\n"; c.auth=true; }
  if(ImapFault*f=fault_at(0,0,6)){ f->fired=true; ST.faults["imap:greeting-fault"+std::to_string(f->kind)]++;
    if(f->kind==0){ c.eof=true; return id; } if(f->kind==1){ emit(c,g.substr(0,f->arg%g.size()),0); c.eof=true; return id; }
    if(f->kind==2||f->kind==3||f->kind==5){ emit(c,"* BYE go away\r\n",0); c.eof=true; return id; } if(f->kind==4){ c.stalled=true; return id; } if(f->kind==6){ emit(c,g,(i64)f->arg*1000000000LL); return id; } }
  emit(c,g,1000000); return id; }
void net_close(int id){ if(id>=0&&id<(int)g_conn.size()) g_conn[id].closed=true; }
static string quoteless(const string&line,size_t&p,bool&ok){ // next argument: atom, quoted, literal or parenthesised
  while(p<line.size()&&line[p]==' ')p++; if(p>=line.size()){ok=false;return "";}
  if(line[p]=='"'){ string r; p++; while(p<line.size()&&line[p]!='"'){ if(line[p]=='\\'&&p+1<line.size())p++; r+=line[p++]; } p++; return r; }
  if(line[p]=='{'){ size_t q=line.find('}',p); size_t n=strtoul(line.c_str()+p+1,nullptr,10); p=q+1; if(line.compare(p,2,"\r\n")==0)p+=2; string r=line.substr(p,n); p+=n; return r; }
  if(line[p]=='('){ size_t q=line.find(')',p); if(q==string::npos){ok=false;return "";} string r=line.substr(p+1,q-p-1); p=q+1; return r; }
  size_t q=line.find(' ',p); if(q==string::npos)q=line.size(); string r=line.substr(p,q-p); p=q; return r; }
static string fl(const set<string>&f){ string r; for(auto&x:f){ if(!r.empty())r+=" "; r+=x; } return r; }
static void command(NetConn&c,const string&line){
  ImapState&im=*W->imap; size_t p=0; bool ok=true; string tag=quoteless(line,p,ok), cmd=quoteless(line,p,ok); u64 n=++im.ncmds; string un,res="OK",txt="done";
  bool uid=false; if(cmd=="UID"){ uid=true; cmd=quoteless(line,p,ok); }
  im.log.push_back((uid?"UID ":"")+cmd+(p<line.size()?line.substr(p,60):""));
  ImapFault*f=fault_at(n,0,6); bool answer=true;
  if(ImapFault*g=fault_at(n,8,8)){ g->fired=true; ST.faults["imap:concurrent-expunge"]++; vector<std::pair<string,size_t>> all; for(auto&x:im.folders)for(size_t k=0;k<x.second.msgs.size();k++)if(x.first!=im.outfolder)all.push_back({x.first,k}); if(!all.empty()){ auto&x=all[g->arg%all.size()]; auto&m=im.folders[x.first].msgs; m.erase(m.begin()+x.second); } }
  bool refuse = f&&(f->kind==2||f->kind==3); if(refuse){ f->fired=true; ST.faults[f->kind==2?"imap:NO":"imap:BAD"]++; res=f->kind==2?"NO":"BAD"; txt="simulated refusal"; }
  else if(cmd=="CAPABILITY") un="* CAPABILITY "+caps()+"\r\n";
  else if(cmd=="LOGIN"){ string u=quoteless(line,p,ok),pw=quoteless(line,p,ok); if(u==im.user&&pw==im.pass){ c.auth=true; if(im.greeting&1)txt="[CAPABILITY "+caps()+"] ok"; } else { res="NO"; txt="denied"; } }
  else if(cmd=="LOGOUT"){ un="* BYE bye\r\n"; }
  else if(!c.auth){ res="NO"; txt="not authenticated"; }
  else if(cmd=="SELECT"||cmd=="EXAMINE"){ string fn=quoteless(line,p,ok); if(!im.folders.count(fn)){ res="NO"; txt="[NONEXISTENT] no such mailbox"; c.sel=""; } else { c.sel=fn; c.selw=cmd=="SELECT"; IFolder&F=im.folders[fn]; un="* FLAGS (\\Answered \\Flagged \\Deleted \\Seen \\Draft)\r\n* "+std::to_string(F.msgs.size())+" EXISTS\r\n* 0 RECENT\r\n* OK [UIDVALIDITY "+std::to_string(F.uidvalidity)+"] UIDs valid\r\n* OK [UIDNEXT "+std::to_string(F.uidnext)+"] next\r\n* OK [PERMANENTFLAGS (\\Deleted \\Seen)] limited\r\n"; txt=c.selw?"[READ-WRITE] ok":"[READ-ONLY] ok"; } }
  else if(cmd=="FETCH"){ string set_=quoteless(line,p,ok), what=p<line.size()?line.substr(p):""; if(c.sel.empty()||!im.folders.count(c.sel)){ res="BAD"; txt="no mailbox selected"; } else { IFolder&F=im.folders[c.sel]; bool body=what.find("BODY.PEEK[]")!=string::npos; bool all=set_=="1:*"; unsigned u=strtoul(set_.c_str(),nullptr,10);
      if(what.find("BODY[]")!=string::npos) im.log.push_back("SIDE-EFFECT FETCH BODY[]");
      for(size_t k=0;k<F.msgs.size();k++){ IMsg&m=F.msgs[k]; if(!all&&(uid? m.uid!=u : k+1!=u))continue; string a="UID "+std::to_string(m.uid), b=body? m.data.empty()&&c.r.chance(1,2)? string("BODY[] \"\"") : "BODY[] {"+std::to_string(m.data.size())+"}\r\n"+m.data : "FLAGS ("+fl(m.flags)+")"; bool sw=c.r.chance(1,3); if(c.r.chance(1,4)&&!body) un+="* OK still here\r\n"; if(body&&c.r.chance(1,4)) un+="* "+std::to_string(k+1)+" FETCH (FLAGS ("+fl(m.flags)+"))\r\n"; un+="* "+std::to_string(k+1)+" FETCH ("+(sw?b+" "+a:a+" "+b)+")\r\n"; } } }
  else if(cmd=="STORE"){ string set_=quoteless(line,p,ok), op=quoteless(line,p,ok); string fs=p<line.size()?line.substr(p):""; if(c.sel.empty()||!c.selw){ res="NO"; txt="read-only"; } else { IFolder&F=im.folders[c.sel]; if(F.msgs.empty()){ res="BAD"; txt="invalid sequence set"; } else for(size_t k=0;k<F.msgs.size();k++){ if(fs.find("\\Deleted")!=string::npos)F.msgs[k].flags.insert("\\Deleted"); un+="* "+std::to_string(k+1)+" FETCH (FLAGS ("+fl(F.msgs[k].flags)+"))\r\n"; } } }
  else if(cmd=="EXPUNGE"){ if(c.sel.empty()||!c.selw){ res="NO"; txt="read-only"; } else { IFolder&F=im.folders[c.sel]; for(size_t k=0;k<F.msgs.size();) if(F.msgs[k].flags.count("\\Deleted")){ F.msgs.erase(F.msgs.begin()+k); un+="* "+std::to_string(k+1)+" EXPUNGE\r\n"; } else k++; } }
  else if(cmd=="CREATE"){ string fn=quoteless(line,p,ok); if(im.folders.count(fn)){ res="NO"; txt="exists"; } else im.folders[fn].uidvalidity=2000+im.folders.size(); }
  else if(cmd=="COPY"){ string set_=quoteless(line,p,ok), fn=quoteless(line,p,ok); if(c.sel.empty()){ res="BAD"; txt="no mailbox selected"; } else if(!im.folders.count(fn)){ res="NO"; txt="[TRYCREATE] no such mailbox"; } else { unsigned u=strtoul(set_.c_str(),nullptr,10); IFolder&F=im.folders[c.sel]; vector<IMsg> cp; for(size_t k=0;k<F.msgs.size();k++) if(uid?F.msgs[k].uid==u:k+1==u) cp.push_back(F.msgs[k]); IFolder&D=im.folders[fn]; for(auto&m:cp){ m.uid=D.uidnext++; D.msgs.push_back(m); } } }
  else if(cmd=="APPEND"){ string fn=quoteless(line,p,ok); while(p<line.size()&&line[p]==' ')p++; string fs; if(p<line.size()&&line[p]=='(')fs=quoteless(line,p,ok); string d=quoteless(line,p,ok); if(!ok){ res="BAD"; txt="syntax"; } else if(!im.folders.count(fn)){ res="NO"; txt="[TRYCREATE] no such mailbox"; } else { IFolder&D=im.folders[fn]; IMsg m; m.uid=D.uidnext++; m.data=d; size_t q=0; while(q<fs.size()){ size_t e=fs.find(' ',q); if(e==string::npos)e=fs.size(); m.flags.insert(fs.substr(q,e-q)); q=e+1; } D.msgs.push_back(m); } }
  else if(cmd=="STARTTLS"){ res="BAD"; txt="not here"; }
  else { res="BAD"; txt="unknown command"; im.log.push_back("UNKNOWN "+cmd); }
  string ans=un+tag+" "+res+" "+txt+"\r\n"; i64 delay=500000+c.r.below(4000000);
  if(ImapFault*g=fault_at(n,7,7)){ g->fired=true; ST.faults["imap:unsolicited"]++; static const char*U[]={"* OK [ALERT] hello (there) \"quoted\" {not a literal\r\n* 3 EXISTS\r\n","* 2 RECENT\r\n* FLAGS (\\Answered \\Seen)\r\n","* OK mailbox \"a (b\\\" is {92} percent full\r\n","* NO [ALERT] disk almost full ) ] }\r\n","* BAD strange things\r\n* OK\r\n","* SEARCH\r\n* STATUS \"x\" (MESSAGES 3 UNSEEN 1)\r\n","* LIST (\\HasNoChildren) \"/\" \"some \\\"where\\\"\"\r\n* CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN\r\n","* OK [UNSEEN 12] Message 12 is the first {5} [unseen\r\n"}; string u=U[g->arg%8]; if((g->arg&8)&&g->arg%8){ size_t q=ans.rfind(tag+" "+res); ans.insert(q,u); } else ans=u+ans; }
  if(f&&!f->fired){ f->fired=true; switch(f->kind){
    case 0: ST.faults["imap:disconnect"]++; c.eof=true; answer=false; break;
    case 1: ST.faults["imap:truncated-answer"]++; ans=ans.substr(0,f->arg%ans.size()); c.eof=true; break;
    case 4: ST.faults["imap:stall"]++; c.stalled=true; answer=false; break;
    case 5: ST.faults["imap:BYE"]++; ans="* BYE shutting down\r\n"; c.eof=true; break;
    case 6: ST.faults["imap:slow"]++; delay+=(i64)f->arg*1000000000LL; break; } }
  if(answer) emit(c,ans,delay);
  if(cmd=="LOGOUT") c.eof=true;
}
bool net_write(int id,const char*b,size_t n){ NetConn&c=g_conn[id]; if(c.eof)return false; if(c.stalled)return true; c.in.append(b,n);
  while(!c.eof&&!c.stalled){ // a complete command: lines, with {n+} literals spliced in
    size_t p=0; bool complete=false; while(true){ size_t e=c.in.find("\r\n",p); if(e==string::npos)break; size_t k=e; if(k>0&&c.in[k-1]=='}'){ size_t o=c.in.rfind('{',k); if(o!=string::npos&&o>=p){ size_t ln=strtoul(c.in.c_str()+o+1,nullptr,10); p=e+2+ln; if(p>c.in.size())break; continue; } } complete=true; p=e; break; }
    if(!complete)break; string l=c.in.substr(0,p); c.in.erase(0,p+2); command(c,l); } return true; }
ssize_t net_read(int id,char*b,size_t n,i64*next){ NetConn&c=g_conn[id]; *next=-1;
  if(c.out.empty()){ if(c.eof)return 0; return -1; }
  if(c.out[0].at>W->now){ *next=c.out[0].at; return -1; }
  if(n==0)return 1; string&s=c.out[0].data; size_t k=std::min(n,s.size()); memcpy(b,s.data(),k); s.erase(0,k); if(s.empty())c.out.erase(c.out.begin()); return k; }
// OpenSSL is never reached by simulated servers (none offers STARTTLS): initialisation is stubbed.
extern "C" { static char g_ctx[64];
void*sim_SSL_CTX_new(const void*){ return g_ctx; } const void*sim_TLS_client_method(){ return g_ctx; } int sim_SSL_CTX_load_verify_locations(void*,const char*,const char*){ return 1; } void sim_SSL_CTX_set_verify(void*,int,void*){} int sim_OPENSSL_init_ssl(u64,const void*){ return 1; } int sim_OPENSSL_init_crypto(u64,const void*){ return 1; } void sim_SSL_CTX_free(void*){} void sim_ERR_print_errors_fp(FILE*){} }
