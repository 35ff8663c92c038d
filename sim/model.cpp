#include "model.h"
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include <ctime>
#include <algorithm>
string lower(string s){ for(auto&c:s)if(c>='A'&&c<='Z')c+=32; return s; }
static bool wc(unsigned char c){ return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'; }
static bool ac(unsigned char c){ return wc(c)||c=='+'||c=='-'||c=='.'||c=='@'; }
void words(const string&t,set<string>&o){ size_t i=0; while(i<t.size()){ while(i<t.size()&&!wc(t[i]))i++; size_t j=i; while(j<t.size()&&wc(t[j]))j++; if(j>i)o.insert(lower(t.substr(i,j-i))); i=j; } }
void addrs(const string&t,set<string>&o){ words(t,o); size_t i=0; while(i<t.size()){ while(i<t.size()&&!ac(t[i]))i++; size_t j=i; while(j<t.size()&&ac(t[j]))j++; if(j>i)o.insert(lower(t.substr(i,j-i))); i=j; } }
string b64(const string&s){ static const char*T="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; string o; size_t i=0; for(;i+2<s.size();i+=3){ unsigned v=(unsigned char)s[i]<<16|(unsigned char)s[i+1]<<8|(unsigned char)s[i+2]; o+=T[v>>18];o+=T[v>>12&63];o+=T[v>>6&63];o+=T[v&63]; } if(i<s.size()){ unsigned v=(unsigned char)s[i]<<16|(i+1<s.size()?(unsigned char)s[i+1]<<8:0); o+=T[v>>18];o+=T[v>>12&63];o+=i+1<s.size()?T[v>>6&63]:'=';o+='='; } return o; }
static string b64lines(const string&s,size_t w){ string e=b64(s),o; for(size_t i=0;i<e.size();i+=w)o+=e.substr(i,w)+"\n"; return o; }
static string qp(const string&s,Rng&r){ string o; size_t col=0; for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; if(c=='\n'){ o+='\n'; col=0; continue; } string e; bool mustenc=c=='='||c>126||(c<32&&c!='\t')||(c==' '&&i+1<s.size()&&s[i+1]=='\n')||(c=='.'&&col==0)||(c=='F'&&col==0); if(mustenc||r.chance(1,15)){ char b[8]; snprintf(b,8,r.chance(1,3)?"=%02x":"=%02X",c); e=b; } else e=string(1,c); if(col+e.size()>70||r.chance(1,40)){ o+= r.chance(1,6)?"= \n":"=\n"; col=0; } o+=e; col+=e.size(); } return o; }
string compress_(int type,const string&d){
  if(type==GZ){ z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,6,Z_DEFLATED,31,8,Z_DEFAULT_STRATEGY); string o(deflateBound(&z,d.size())+64,0); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); z.next_out=(Bytef*)&o[0]; z.avail_out=o.size(); deflate(&z,Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o; }
  if(type==BZ){ unsigned n=d.size()+d.size()/100+700; string o(n,0); BZ2_bzBuffToBuffCompress(&o[0],&n,(char*)d.data(),d.size(),1,0,0); o.resize(n); return o; }
  if(type==XZ){ size_t n=lzma_stream_buffer_bound(d.size()),pos=0; string o(n,0); lzma_easy_buffer_encode(0,LZMA_CHECK_CRC32,nullptr,(const uint8_t*)d.data(),d.size(),(uint8_t*)&o[0],&pos,n); o.resize(pos); return o; }
  return d; }

static const char*SYL[]={"ba","co","di","fe","gu","ha","jo","ki","lu","ma","ne","po","qui","ra","sto","ti","ul","ve","wa","xe","yo","zi","br","ent","ing","er","a","o"};
static string mkword(Rng&r){ string w; int n=1+r.below(4); for(int i=0;i<n;i++)w+=SYL[r.below(28)]; if(r.chance(1,8))w+=std::to_string(r.below(100)); if(r.chance(1,25))w+="_"+string(SYL[r.below(28)]); if(r.chance(1,60)){ while(w.size()<20+r.below(60))w+=SYL[r.below(28)]; } return w; }
void Model::initvocab(u64 seed,int n){ Rng r(seed); vocab.clear(); set<string> s; if(n<4)n=4; while((int)vocab.size()<n){ string w=mkword(r); if(s.insert(w).second)vocab.push_back(w); } }
static string casing(const string&w,Rng&r){ string o=w; int k=r.below(6); if(k==0&&o[0]>='a'&&o[0]<='z')o[0]-=32; else if(k==1)for(auto&c:o)if(c>='a'&&c<='z')c-=32; return o; }
static const char*PUN[]={" "," "," "," ",", ",". "," - ","\n"," (",") ","; ",": ","/"," \"","' ","! ","? ","\n\n"," * ","&"};
static string text(Model&m,Rng&r,int n,bool nl){ string o; for(int i=0;i<n;i++){ const string&w=r.chance(1,3)?m.vocab[r.below(std::min<size_t>(8,m.vocab.size()))]:m.vocab[r.below(m.vocab.size())]; o+=casing(w,r); if(i+1<n){ string p=PUN[r.below(20)]; if(!nl)for(auto&c:p)if(c=='\n')c=' '; if(r.chance(1,40)&&nl)p+="\xc3\xa9"; o+=p; } } return o; }
static string fold(const string&v,Rng&r){ if(!r.chance(1,4))return v; string o; for(size_t i=0;i<v.size();i++){ if(v[i]==' '&&r.chance(1,3)&&i>0&&i+1<v.size()&&v[i+1]!=' '&&v[i-1]!=' '&&v[i-1]!='\n')o+=r.chance(1,3)?"\n\t":"\n "; else o+=v[i]; } return o; }
static string encw(const string&v,Rng&r){ // one RFC 2047 encoded-word
  if(r.chance(1,2)) return string("=?")+(r.chance(1,2)?"utf-8":"ISO-8859-1")+"?"+(r.chance(1,2)?"B":"b")+"?"+b64(v)+"?=";
  string o="=?utf-8?"+string(r.chance(1,2)?"Q":"q")+"?"; for(unsigned char c:v){ if(c==' ')o+= r.chance(1,2)?"_":"=20"; else if(wc(c)&&c!='_'&&!r.chance(1,10))o+=c; else { char b[8]; snprintf(b,8,r.chance(1,4)?"=%02x":"=%02X",c); o+=b; } } return o+"?="; }
static string encws(const string&v,Rng&r){ // one or more of them, which mean the same
  if(v.size()<2||!r.chance(1,3))return encw(v,r); probe("split_encoded_word"); string o; for(size_t i=0;i<v.size();){ size_t n=1+r.below(r.chance(1,2)?8:40); if(i)o+=r.chance(1,8)?"":r.chance(1,3)?"\n ":" "; o+=encw(v.substr(i,n),r); i+=n; } return o; }
static string enc2047(const string&v,Rng&r){ // encode some runs of words; runs are cut at spaces, and the space belongs to the encoded text
  if(!r.chance(1,6)||v.empty())return v; if(r.chance(1,2))return encws(v,r);
  vector<string> c; size_t i=0; while(i<v.size()){ size_t j=v.find(' ',i+r.below(10)); if(j==string::npos)j=v.size(); c.push_back(v.substr(i,j-i)); i=j+1; }
  string o; bool pe=false; for(size_t k=0;k<c.size();k++){ bool e=!c[k].empty()&&r.chance(2,3); if(k)o+= r.chance(1,5)?"\n ":" "; if(e)probe("encoded_word"); if(e&&pe)probe("adjacent_encoded_words"); o+= e?encws((pe&&r.chance(1,2)?" ":"")+c[k]+(k+1<c.size()?" ":""),r):c[k]; pe=e; } if(o.find("\n \n")!=string::npos||o.find("\n  ")!=string::npos||o.compare(0,2,"\n ")==0||(o.size()>1&&o.compare(o.size()-2,2,"\n ")==0))return encws(v,r); return o; }
static string addr(Model&m,Rng&r,string&dec){ string l=m.vocab[r.below(std::min<size_t>(m.vocab.size(),30))]; if(r.chance(1,4))l+="."+m.vocab[r.below(m.vocab.size())]; if(r.chance(1,8))l+="+"+m.vocab[r.below(m.vocab.size())]; string d=m.vocab[r.below(std::min<size_t>(m.vocab.size(),20))]+(r.chance(1,3)?"-net":"")+(r.chance(1,2)?".example":".org"); string a=casing(l,r)+"@"+d; int k=r.below(4); string n; if(k==0)return dec=a; if(k==1){ n=casing(m.vocab[r.below(m.vocab.size())],r); if(r.chance(1,3))n+=" "+casing(m.vocab[r.below(m.vocab.size())],r); dec=n+" <"+a+">"; if(r.chance(1,4)){ probe("encoded_name"); if(r.chance(1,4))n+=" \xc3\xa9"; return encws(n,r)+" <"+a+">"; } return dec; } if(k==2)return dec="\""+casing(m.vocab[r.below(m.vocab.size())],r)+", "+m.vocab[r.below(m.vocab.size())]+"\" <"+a+">"; return dec="<"+a+">"; }
static string addrlist(Model&m,Rng&r,int n,string&dec){ string o; for(int i=0;i<n;i++){ string d; if(i){ o+=", "; dec+=", "; } o+=addr(m,r,d); dec+=d; } return o; }
struct Part { string head, body; };   // head: MIME headers
static Part mkpart(Model&m,Msg&g,Rng&r,const MsgOpts&o,int depth,i64 now,bool top);
// the last day of the month of that day (or of the last February before it)
static i64 monthend(i64 day,bool feb){ for(int n=0;n<400;n++,day--){ time_t a=day*86400,b=a+86400; struct tm x,y; gmtime_r(&a,&x); gmtime_r(&b,&y); if(x.tm_mon!=y.tm_mon&&(!feb||x.tm_mon==1))break; } return day; }
static string addheaders(Model&m,Msg&g,Rng&r,const MsgOpts&o,i64 now,bool nested,const vector<string>*tids){
  vector<string> h; string v;
  auto hn=[&](const char*n){ string s=n; int k=r.below(8); if(k==0)s=lower(s); else if(k==1)for(auto&c:s)if(c>='a'&&c<='z')c-=32; return s; };
  auto col=[&](const string&w)->string{ int k=r.below(20); return k==0?":":k==1?":\t":k==2&&w.size()&&w[0]!=' '&&w[0]!='\n'?":\n ":k==3?":  ":": "; };   // what stands between the name and the value
  if(r.chance(1,4))h.push_back("Received: from "+m.vocab[r.below(m.vocab.size())]+" by sim with SMTP;\n\tMon, 1 Jan 2001 00:00:00 +0000");
  if(!r.chance(1,30)){ string w=addr(m,r,v); addrs(v,g.tok[FROM]); h.push_back(hn("From")+col(w)+w); if(!nested)g.hfrom=w; }
  int nt=r.chance(1,10)?2:1; for(int k=0;k<nt;k++) if(!r.chance(1,15)){ v=""; int na=r.below(3); if(r.chance(1,60))na+=20+r.below(80); string w=addrlist(m,r,1+na,v); addrs(v,g.tok[TO]); w=fold(w,r); h.push_back(hn("To")+col(w)+w); }
  if(r.chance(2,5)){ int nc=r.chance(1,8)?2:1; for(int k=0;k<nc;k++){ v=""; string w=addrlist(m,r,r.chance(1,3)?2:1,v); addrs(v,g.tok[CC]); w=fold(w,r); h.push_back(hn("Cc")+col(w)+w); } }
  v=text(m,r,1+r.below(5),false); if(!nested){ if(r.chance(1,2))v=g.uniq+" "+v; else v+=" "+g.uniq; } words(v,g.tok[SUBJ]); { string e=enc2047(v,r); if(e==v)e=fold(v,r); h.push_back(hn("Subject")+col(e)+e); }
  if(!r.chance(1,20)){ // date
    i64 day=now/1000000000/86400 - (r.chance(1,3)?r.below(20):r.below(4000)); if(r.chance(1,40))day=400+r.below(13000); if(r.chance(1,60))day=now/1000000000/86400+r.below(10000); if(day>46000)day=46000; if(r.chance(1,8))day=monthend(day,r.chance(1,2)); time_t t=day*86400; struct tm tm; gmtime_r(&t,&tm); static const char*MN[]={"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"},*WD[]={"Sun","Mon","Tue","Wed","Thu","Fri","Sat"}; char b[100]; int k=r.below(5); string wd=k?string(WD[tm.tm_wday])+(r.chance(1,10)?",":", "):""; bool y2=r.chance(1,8)&&tm.tm_year+1900>=1970&&tm.tm_year+1900<2069; snprintf(b,100,"%s%d %s %0*d %02d:%02d:%02d +0%d00",wd.c_str(),tm.tm_mday,MN[tm.tm_mon],y2?2:4,y2?tm.tm_year%100:tm.tm_year+1900,(int)r.below(24),(int)r.below(60),(int)r.below(60),(int)r.below(10)); string s=b; if(r.chance(1,20)){ s="sometime last week"; if(!nested)g.date=-1; } else if(!nested)g.date=t; h.push_back(hn("Date")+": "+s); }
  string mid; if(!nested&&g.msgid.empty()&&o.hotid&&r.chance(o.hotid,10))mid="Every.Copy@list.example"; else if(nested||g.msgid.empty()) mid="m"+std::to_string(r.below(1000000))+"."+std::to_string(g.id)+(nested?"n":"")+"@"+m.vocab[r.below(m.vocab.size())]+".example"; else mid=g.msgid;
  if(!r.chance(1,25)){ g.mids.insert(lower(mid)); g.ids.insert(lower(mid)); if(!nested)g.msgid=mid; h.push_back((r.chance(1,5)?"Message-Id: <":"Message-ID: <")+mid+">"); } else if(!nested) g.msgid="";
  vector<string> refs; if(tids)refs=*tids; if(!refs.empty()&&!nested){ if(r.chance(2,3)){ g.ids.insert(lower(refs.back())); h.push_back("In-Reply-To: <"+refs.back()+">"+(r.chance(1,4)?" (message from someone)":"")); } if(r.chance(2,3)||h.back().compare(0,11,"In-Reply-To")){ v=""; for(auto&x:refs){ g.ids.insert(lower(x)); if(!v.empty())v+=r.chance(1,8)?"":" "; v+="<"+x+">"; } h.push_back("References: "+fold(v,r)); } }
  if(!nested&&r.chance(1,4)){ static const char*ST[]={"RO","O","R",""}; string s=ST[r.below(4)]; if(s.find('R')!=string::npos)g.hs=1; h.push_back("Status: "+s); if(r.chance(1,2)){ string x; if(r.chance(1,2)){x+="A";g.hr=1;} if(r.chance(1,2)){x+="F";g.hf=1;} h.push_back("X-Status: "+x); } }
  if(r.chance(1,5))h.push_back("X-Mailer: "+m.vocab[r.below(m.vocab.size())]);
  while(r.chance(1,5)){ static const char*LK[]={"To-Do","Ccx","Froms","From-X","Subject-X","Subjects","X-To","X-Subject","Resent-To","Resent-From","Resent-Cc","Sender","Reply-To","Bcc","Content-Types","Content-Description","Datex","Statuses","X-Statusx","Message-Id-X","In-Reply","Referencesx","Thread-Topic"}; int k=r.below(23); probe("similar_header"); h.push_back(string(LK[k])+": "+(k==14?"text/html":k==16?"1 Jan 2001 00:00:00 +0000":k==17||k==18?"RAF":k>=19&&k<=21?"<"+m.vocab[r.below(m.vocab.size())]+"@other.example>":m.vocab[r.below(m.vocab.size())])); }
  // shuffle, keeping relative order irrelevant (all are distinct kinds apart from To/Cc)
  for(size_t i=h.size();i>1;i--)std::swap(h[i-1],h[r.below(i)]);
  string out; for(auto&x:h)out+=x+"\n"; return out; }
static string fname(Model&m,Rng&r){ string f=casing(m.vocab[r.below(m.vocab.size())],r)+(r.chance(1,3)?"-"+m.vocab[r.below(m.vocab.size())]:"")+(r.chance(2,3)?".txt":".PDF"); if(r.chance(1,6))f=m.vocab[r.below(m.vocab.size())]+" "+f; if(r.chance(1,12)){ f.insert(f.size()-4,r.chance(1,2)?"\xc3\xaf":"\xe9"); probe("name_8bit"); } if(r.chance(1,15)){ f.insert(f.size()-4,"\"q"); probe("name_quote"); } if(r.chance(1,20)){ f="C:\\dir\\"+f; probe("name_dos_path"); } if(r.chance(1,15)){ f.insert(f.size()-4,"=x"); probe("name_equals"); } return f; }
static string noise(Rng&r){ switch(r.below(16)){ case 0: return " (as sent by sim)"; case 1: return "; x-empty=\"\""; case 2: return " ; x-a.b = c"; case 3: return ";;"; case 4: return ";"; case 5: return "; x-esc=\"a\\\"b\\\\c\\d; e=f\""; case 6: return "; x-num*0=a; x-num*1=b (c)"; case 7: return "\t; \n\tx-last="+string(r.chance(1,2)?"\"\"":"x"); } return ""; }   // what may follow in a MIME header
static string quoted(const string&v,Rng&r){ string o="\""; if(v.find('"')==string::npos&&v.find("\\\\")==string::npos&&v.size()&&v.back()!='\\'&&r.chance(1,2))return o+v+o; for(char c:v){ if(c=='"'||c=='\\')o+='\\'; o+=c; } return o+"\""; }
static string pct(const string&s,Rng&r){ string o; for(unsigned char c:s){ if((wc(c)||c=='.'||c=='-')&&!r.chance(1,12))o+=c; else { char b[8]; snprintf(b,8,r.chance(1,2)?"%%%02X":"%%%02x",c); o+=b; } } return o; }
static string nmparam(const char*n,const string&v,Rng&r){ string p=n; size_t c=1+r.below(v.size()>1?v.size()-1:1); switch(r.below(15)){ // the ways a file name is written
  case 0: if(v.find_first_of(" \"\\")==string::npos)return p+"="+v; break; case 1: probe("rfc2231"); return p+"*=utf-8''"+pct(v,r); case 2: probe("rfc2231"); return p+"*0="+quoted(v.substr(0,c),r)+";\n "+p+"*1="+quoted(v.substr(c),r); case 3: probe("rfc2231"); return p+"="+quoted(v,r)+"; "+p+"*=UTF-8''"+pct(v,r); case 4: probe("rfc2231"); return p+"*0*=us-ascii''"+pct(v.substr(0,c),r)+"; "+p+"*1*="+pct(v.substr(c),r);
  case 5: probe("rfc2231_language"); return p+"*="+(r.chance(1,3)?"":"iso-8859-1")+"'"+(r.chance(1,3)?"en-GB":"en")+"'"+pct(v,r);
  case 6: { probe("rfc2231_pieces"); string o; bool x=r.chance(1,2); if(x&&r.chance(1,2))o=p+"="+quoted(v,r)+"; "; size_t k=0,n=0; while(k<v.size()){ size_t l=1+r.below(3); string w=v.substr(k,l); k+=l; if(n)o+="; "; bool pc=x&&(!n||r.chance(2,3)); o+=p+"*"+std::to_string(n)+(pc?"*=":"=")+(pc?(n?"":r.chance(1,2)?"utf-8''":"utf-8'fr'")+pct(w,r):quoted(w,r)); n++; if(r.chance(1,9)){ o+="; "+p+"*"+std::to_string(n++)+"=\"\""; } } if(n>10)probe("rfc2231_over10"); return o; }
  case 7: return p+(r.chance(1,2)?" = ":"= ")+quoted(v,r); }
  return p+"="+quoted(v,r); }
static string uu(const string&s,Rng&r){ string o=string(r.chance(1,5)?"\n":r.chance(1,5)?"here it begins\n":"")+"begin 644 file.bin\n"; auto e=[](int v)->char{ v&=63; return v?v+32:'`'; }; size_t w=r.chance(1,2)?45:3*(1+r.below(15)); for(size_t i=0;i<s.size();i+=w){ string l=s.substr(i,w); o+=e(l.size()); for(size_t k=0;k<l.size();k+=3){ unsigned v=0; for(int t=0;t<3;t++)v=v<<8|(k+t<l.size()?(unsigned char)l[k+t]:0); o+=e(v>>18); o+=e(v>>12); o+=e(v>>6); o+=e(v); } o+="\n"; } return o+"`\nend\n"; }
static Part leaf(Model&m,Msg&g,Rng&r,const MsgOpts&o,bool inmulti){
  Part p; int kind=r.below(inmulti?6:4); string t=text(m,r,1+r.below(o.bodywords),true)+"\n"; string disp; bool istext=true,html=false,other=false;
  if(kind==1)html=true; else if(kind==4){ istext=false; } else if(kind==5){ istext=false; other=true; }
  string ct= html?"text/html":istext?"text/plain":other?"text/calendar":r.chance(1,5)?"application/vnd.sim-x.y+zip":"application/octet-stream"; if(r.chance(1,6))for(auto&c:ct)if(r.chance(1,2)&&c>='a'&&c<='z')c-=32;
  if(kind==0&&inmulti&&r.chance(1,5)){ t+="\nFrom "+m.vocab[r.below(m.vocab.size())]+"@host.example Mon Jan  1 10:00:00 2001\nSubject: "+m.vocab[r.below(m.vocab.size())]+"\n\n"+text(m,r,1+r.below(5),false)+"\n"; }
  string raw=t; if(html){ raw="<html><body>\n"; set<string> keep; size_t i=0; while(i<t.size()){ size_t j=t.find_first_of(" \n",i); if(j==string::npos)j=t.size(); string w=t.substr(i,j-i); if(r.chance(1,5))raw+=string(r.chance(1,4)?"<b\n class=\"":"<b class=\"")+m.vocab[r.below(m.vocab.size())]+(r.chance(1,4)?"\"\n id=\""+m.vocab[r.below(m.vocab.size())]:"")+(r.chance(1,8)?"\" />":"\">")+w+(r.chance(1,6)?"</b\n>":"</b>"); else raw+=w; if(j<t.size())raw+=t[j]; i=j+1; } raw+="</body></html>\n"; }
  bool named=inmulti&&r.chance(1,3);
  if(istext)words(t,g.tok[BODY]);
  if(html){ // punctuation containing < or > never occurs in PUN, so the words of t are the words outside tags
  }
  p.head=string("Content-Type:")+(r.chance(1,15)?"\n\t":r.chance(1,15)?"":" ")+ct; if(istext&&r.chance(1,2))p.head+= r.chance(1,2)?"; charset=us-ascii":";\n\tcharset=\"utf-8\"";
  string nm; if(named||(!istext&&r.chance(1,2))){ nm=fname(m,r); string a=nmparam(r.chance(1,5)?"FILENAME":"filename",nm,r); int k=r.below(4); if(k==0){ p.head+="; "+nmparam(r.chance(1,4)?"NAME":"name",nm,r); disp=string("Content-Disposition: attachment")+noise(r)+"\n"; g.tok[ATT].insert(lower(nm)); } else if(k==1){ disp="Content-Disposition: inline; "+a+"\n"; } else { if(r.chance(1,5)){ p.head+="; name=\"other.bin\""; } else if(r.chance(1,8))p.head+=r.chance(1,2)?"; name=":"; name=\"\""; disp=string("Content-Disposition: ")+(r.chance(1,6)?"Attachment;\n\t":"attachment; ")+a+(r.chance(1,6)?"; size=12":"")+noise(r)+"\n"; g.tok[ATT].insert(lower(nm)); } }
  if(p.head.back()!='=')p.head+=noise(r); p.head+="\n"; int enc=r.below(6); auto tail=[&]{ return string(r.chance(1,12)?" ":r.chance(1,12)?";":r.chance(1,12)?" (so they say)":"")+"\n"; }; if(r.chance(1,20))enc=6; if(!istext&&!other)enc=r.chance(1,10)?6:3;
  if(enc>=3&&r.chance(1,3)){ while(raw.size()>1&&raw.back()=='\n')raw.pop_back(); probe("encoded_no_newline"); }
  if(enc==3){ p.head+="Content-Transfer-Encoding: base64"+tail(); p.body=b64lines(raw,r.chance(1,3)?76:4*(3+r.below(16))); }
  else if(enc==6){ probe("uuencoded"); p.head+=string("Content-Transfer-Encoding: ")+(r.chance(1,3)?"X-UUencode":"x-uuencode")+tail(); p.body=uu(raw,r); }
  else if(enc==4||enc==5){ p.head+=string("Content-Transfer-Encoding: ")+(r.chance(1,4)?"Quoted-Printable":"quoted-printable")+tail(); p.body=qp(raw,r); }
  else { if(raw.find("\nFrom ")!=string::npos)probe("msg_with_From_line"); if(enc==1)p.head+=string("Content-Transfer-Encoding: ")+(r.chance(1,5)?"7 bit":r.chance(1,8)?"7-Bit":"7bit")+tail(); else if(enc==2)p.head+=string("Content-Transfer-Encoding: ")+(r.chance(1,3)?r.chance(1,4)?"Binary":"binary":r.chance(1,5)?"8 bit":r.chance(1,8)?"8-BIT":"8bit")+tail(); p.body=raw; }
  p.head+=disp; return p; }
static Part mkpart(Model&m,Msg&g,Rng&r,const MsgOpts&o,int depth,i64 now,bool top){
  if(depth>3||!r.chance(top?1:1,top?2:4)) return leaf(m,g,r,o,!top);
  Part p; if(!top&&r.chance(1,3)){ // embedded message
    Msg n; n.id=g.id; string hd=addheaders(m,n,r,o,now,true,nullptr); string b; if(depth<3&&r.chance(1,3)){ Part q=mkpart(m,n,r,o,depth+1,now,false); hd+=q.head; b=q.body; probe("embedded_mime"); } else { b=text(m,r,1+r.below(6),true)+"\n"; words(b,n.tok[BODY]); } for(int f=0;f<NFLD;f++)g.tok[f].insert(n.tok[f].begin(),n.tok[f].end()); g.mids.insert(n.mids.begin(),n.mids.end()); g.ids.insert(n.ids.begin(),n.ids.end()); p.head="Content-Type: message/rfc822\n"; if(r.chance(1,4)){ probe("named_message"); string nm=fname(m,r); p.head+="Content-Disposition: attachment; "+nmparam("filename",nm,r)+"\n"; g.tok[ATT].insert(lower(nm)); } p.body=hd+"\n"+b; return p; }
  bool bare=r.chance(1,6); string bd=(bare?"b":"=_b")+std::to_string(r.below(100000))+"."+std::to_string(g.id)+"."+std::to_string(depth); int n=1+r.below(3); string outer=m.bound; if(outer.size()&&bare==(outer[0]!='=')&&outer.size()<40&&r.chance(1,3)){ bd=outer+(r.chance(1,2)?".1":"x"); probe("boundary_prefix"); } m.bound=bd; p.head=string("Content-Type: ")+(r.chance(1,12)?"MULTIPART/":"multipart/")+(r.chance(1,2)?"mixed":"alternative")+(r.chance(1,8)?"; charset=utf-8":"")+(r.chance(1,2)?"; ":";\n ")+(r.chance(1,10)?"Boundary=":"boundary=")+(bare?bd:"\""+bd+"\"")+(r.chance(1,10)?"; type=\"text/plain\"":"")+noise(r)+"\n"; if(r.chance(1,4))p.body="This is a MIME message.\n"; if(r.chance(1,6)){ probe("preamble"); p.body+=string(r.chance(1,2)?"\n":"Content-Type: text/plain\n\n")+text(m,r,1+r.below(4),false)+"\n"; }
  auto pad=[&]{ if(!r.chance(1,15))return string("\n"); probe("padded_boundary"); return string(r.chance(1,2)?" \n":" \t \n"); };
  for(int i=0;i<n;i++){ Part q=mkpart(m,g,r,o,depth+1,now,false); if(lower(q.head).compare(0,24,"content-type: text/plain")==0&&std::count(q.head.begin(),q.head.end(),'\n')==1&&r.chance(1,4)){ q.head=""; probe("part_without_header"); } m.bound=bd; p.body+="--"+bd+pad()+q.head+"\n"+q.body; if(p.body.empty()||p.body.back()!='\n')p.body+="\n";
    if(r.chance(1,8)){ probe("boundary_in_text"); auto w=[&]{ return casing(m.vocab[r.below(m.vocab.size())],r); }; string t=w()+"\n"; for(int k=1+r.below(3);k>0;k--)switch(r.below(4)){ case 0: t+=" --"+bd+"\n"; break; case 1: t+="--"+bd+"."+w()+"\n"; break; case 2: t+="--"+bd+" "+w()+"\n"; break; default: t+=w()+" --"+bd+"-- "+w()+"\n"; } t+=w()+"\n"; words(t,g.tok[BODY]); p.body+="--"+bd+pad()+(r.chance(1,2)?"":"Content-Type: text/plain\n")+"\n"+t; } }
  m.bound=outer; auto epi=[&]{ if(!r.chance(1,6))return string(); probe("epilogue"); return "\n"+text(m,r,1+r.below(4),false)+"\n"; };
  if(!top&&r.chance(1,15)&&p.body.find("\nFrom ")==string::npos){ probe("inner_unterminated"); return p; } if(top&&r.chance(1,25)&&p.body.find("\nFrom ")==string::npos){ probe("unterminated"); return p; } p.body+="--"+bd+"--"+pad(); if(r.chance(1,6))p.body+="\n"; p.body+=epi(); return p; }
MP_ Model::mkmsg(Rng&r,const MsgOpts&o,i64 now,const vector<string>*tids){
  auto g=std::make_shared<Msg>(); g->id=nextid++; g->uniq="uq"+std::to_string(g->id)+"x"; Part p; string hd=addheaders(*this,*g,r,o,now,false,tids);
  if(o.simple||r.chance(1,3)){ string t=text(*this,r,1+r.below(o.bodywords),true)+"\n"; if(r.chance(1,8)){ string w=vocab[r.below(vocab.size())]; static const char*NF[]={"From %s to the end","From %s Mon Jan we meet",">From %s@host.example Mon Jan  1 10:00:00 2001","From: %s@host.example Mon Jan  1 10:00:00 2001","From","From ","FROM %s@host.example Mon Jan  1 10:00:00 2001","From %s@host.example Mon Jan  1 at ten"," From %s Mon Jan  1 10:00:00 2001","Frome %s","From From %s@host.example Mon Jan  1 10:00:00 2001"}; char b[300]; snprintf(b,300,NF[r.below(11)],w.c_str()); string q=string(b)+"\n"; probe("no_separator"); if(r.chance(1,3))q+=q; switch(r.below(3)){ case 0: t=q+t; break; case 1: t+=q; break; default: t+=q+text(*this,r,1+r.below(6),true)+"\n"; } } words(t,g->tok[BODY]); p.body=t; } else { p=mkpart(*this,*g,r,o,0,now,true); if(r.chance(1,2))p.head="MIME-Version: 1.0\n"+p.head; }
  if(p.head.empty()&&!o.simple&&r.chance(1,25)){ p.body=""; g->tok[BODY].clear(); g->nobody=true; probe("empty_body"); }
  if(o.bigwords&&p.head.empty()){ for(int i=0;i<o.bigwords;i++){ string w="bw"+std::to_string(r.below(100000)); p.body+=w+((i%10)==9?"\n":" "); g->tok[BODY].insert(w); } p.body+="\n"; }
  if(o.huge&&p.head.empty()&&!g->nobody){ probe("huge_message"); while(p.body.size()+64<(size_t)o.huge)p.body+="................................................................................................................................\n",p.body.reserve(o.huge+4096); string w="hw"+std::to_string(r.below(100000)); p.body+=w+"\n"; g->tok[BODY].insert(w); hashuge=true; }
  if(p.head.empty()&&!g->nobody&&r.chance(1,12)) { while(p.body.size()&&p.body.back()=='\n')p.body.pop_back(); } // no final newline
  if(!o.crlf&&!g->nobody&&r.chance(1,25)&&lower(p.head).find("base64")==string::npos&&lower(p.head).find("x-uuencode")==string::npos){ // a message that exactly fills pages
    size_t n=hd.size()+p.head.size()+1+p.body.size(), pad=4096-n%4096; bool qpt=lower(p.head).find("quoted-printable")!=string::npos; if(pad>8&&(p.body.empty()||p.body.back()!='=')){ if(p.body.size()&&p.body.back()!='\n'){ p.body+='\n'; pad--; } string e=qpt?(r.chance(1,2)?"=":r.chance(1,2)?"=4":"= "):r.chance(1,2)?"\n":"."; p.body+=string(pad-e.size(),'.')+e; probe("page_sized"); } }
  g->raw=hd+p.head+"\n"+p.body;
  if(o.crlf){ string c; for(size_t k=0;k<g->raw.size();k++){ if(g->raw[k]=='\n'&&(k==0||g->raw[k-1]!='\r'))c+='\r'; c+=g->raw[k]; } g->raw=c; }
  // a line starting "From " occurs only inside multipart messages, ^A^A^A^A never
  all.push_back(g); return g; }
MP_ Model::mkbad(Rng&r){ auto g=std::make_shared<Msg>(); g->id=nextid++; g->uniq="uq"+std::to_string(g->id)+"x"; g->bad=true; string w=vocab[r.below(vocab.size())],h="Subject: "+g->uniq+" "+w+"\nStatus: RO\nX-Status: AF\nDate: Mon, 1 Jan 2001 10:00:00 +0000\n"; switch(r.below(4)){ case 0: h="this is no header "+w+"\n"+h; break; case 1: h=h+"no header either\n"; break; case 2: h=" "+w+": led by a space\n"+h; break; case 3: h+=string("X-N: a\0b\n",10); break; } g->raw=h+"\n"+text(*this,r,1+r.below(6),true)+"\n"; probe("unparsable_message"); all.push_back(g); return g; }
// ------------------------------------------------------------------ folders
Folder*Model::get(const string&n){ for(auto&f:fo)if(f.name==n)return &f; return nullptr; }
void Model::create(Folder&f){
  if(f.type==IMAP_){ W->imap->folders[f.name].uidvalidity=1000+hstr(f.name)%1000; return; }
  if(f.type==MD){ W->mkdirs(f.path+"/cur"); W->mkdirs(f.path+"/new"); W->mkdirs(f.path+"/tmp"); for(auto x:{"","/cur","/new","/tmp"})W->lookup(f.path+x)->mail=true; }
  else if(f.type==MH){ W->mkdirs(f.path); W->lookup(f.path)->mail=true; W->put(f.path+"/"+(f.mhmark.empty()?".mh_sequences":f.mhmark),""); }
  else { string l; W->mkdirs(f.path.substr(0,f.path.rfind('/'))); rewrite(f); } }
string Model::mboxbytes(Folder&f){ string d; for(auto&i:f.items){
    if(f.type==MMDF){ d+="\1\1\1\1\n"; i.start=d.size(); d+=i.m->raw; if(d.back()!='\n')d+="\n"; i.len=d.size()-i.start; d+="\1\1\1\1\n"; }
    else { d+=i.fromline+"\n"; i.start=d.size(); d+=i.m->raw; if(d.back()!='\n')d+="\n"; d+=i.extra; i.len=d.size()-i.start; } }
  if(f.chop&&!f.items.empty()&&!f.items.back().m->nobody&&f.type!=MMDF){ while(d.back()=='\n'&&f.items.back().len>1){ d.pop_back(); f.items.back().len--; } }
  return d; }
static bool mono(const vector<std::pair<size_t,string>>&v,const string&d){ bool broken=false; for(auto&x:v){ bool in=x.first+x.second.size()<=d.size()&&d.compare(x.first,x.second.size(),x.second)==0; if(!in)broken=true; else if(broken)return false; } return true; }
void Model::settle(Rng&r){ for(auto&f:fo) if(f.type>=MBOX&&f.type<=XZ&&W->exists(f.path)) for(int k=0;k<50;k++){ string d=mboxbytes(f); bool ok=true; for(auto&v:f.snaps)if(!mono(v,d))ok=false; if(ok)break; probe("settled_mbox"); MsgOpts o; o.simple=true; o.bodywords=3+k; Item i; i.m=mkmsg(r,o,W->now,nullptr); i.fromline="From settle@host Mon Jan  1 10:00:00 2001"; i.extra="\n"; f.items.insert(f.items.begin(),i); rewrite(f); } }
MP_ Model::variant(MP_ o){ if(o->raw.size()>4200&&(o->id&1)){ size_t b=o->raw.rfind(" bw"),e=b==string::npos?b:b+3; if(e!=string::npos)while(e<o->raw.size()&&wc(o->raw[e]))e++; if(e!=string::npos&&e>b+4&&b>4100){ string w=o->raw.substr(b+1,e-b-1),n=w; n[2]='x'; auto g=std::make_shared<Msg>(*o); g->raw.replace(b+1,w.size(),n); g->tok[BODY].insert(n); set<string> t; words(g->raw.substr(g->raw.find("\n")),t); if(!t.count(w))g->tok[BODY].erase(w); all.push_back(g); probe("variant_far_in"); return g; } } if(o->raw.find(o->uniq)==string::npos||!o->tok[SUBJ].count(o->uniq))return nullptr; auto g=std::make_shared<Msg>(*o); string u=o->uniq; u[1]=u[1]=='z'?'a':u[1]+1; g->uniq=u; size_t p=0; while((p=g->raw.find(o->uniq,p))!=string::npos)g->raw.replace(p,u.size(),u); g->tok[SUBJ].erase(o->uniq); g->tok[SUBJ].insert(u); all.push_back(g); return g; }
void Model::seen(bool ok){ if(ok)kept.clear(); for(auto&f:fo) if(f.type>=MBOX&&f.type<=XZ){ if(ok)f.snaps.clear(); if(!W->exists(f.path))continue; string d=mboxbytes(f); vector<std::pair<size_t,string>> v; for(auto&i:f.items)v.push_back({i.start,d.substr(i.start,i.len)}); if(!v.empty())f.snaps.push_back(v); if(f.snaps.size()>6)f.snaps.erase(f.snaps.begin()); } }
void Model::rewrite(Folder&f){ string d=mboxbytes(f); IP l=W->lookup(f.path,false); W->put(l&&l->type==I_LNK?l->target:f.path,compress_(f.type,d+f.tail)); W->lookup(f.path)->mail=true; }
void Model::add(Folder&f,MP_ m,Rng&r,const string&fn){ Item i; i.m=m; i.key=r.next();
  if(f.type==IMAP_){ if(badpct&&r.chance(badpct,100)){ auto g=std::make_shared<Msg>(); g->id=nextid++; g->uniq="uq"+std::to_string(g->id)+"x"; g->bad=true; all.push_back(g); m=i.m=g; probe("empty_imap_message"); } IFolder&F=W->imap->folders[f.name]; IMsg x; x.uid=i.uid=F.uidnext; F.uidnext+=1+r.below(3); for(char c:m->raw){ if(c=='\n'&&(x.data.empty()||x.data.back()!='\r'))x.data+='\r'; x.data+=c; } if(r.chance(1,3))x.flags.insert("\\Seen"); F.msgs.push_back(x); f.items.push_back(i); return; }
  if(f.type==MD){ bool nw=r.chance(1,4); string b=fn.empty()?std::to_string(1100000000+r.below(100000000))+"."+std::to_string(m->id)+(r.chance(1,20)?".ho:st":r.chance(1,30)?".x:2,FRSy":".host"):fn; if(nw&&b.find(":2,")!=string::npos)nw=false; if(nw)i.file="new/"+b; else { i.s=r.chance(1,2); i.r=r.chance(1,4); i.f=r.chance(1,5); string fl; if(r.chance(1,6))fl+="D"; if(i.f)fl+="F"; if(r.chance(1,8))fl+="P"; if(i.r)fl+="R"; if(i.s)fl+="S"; if(r.chance(1,9))fl+="T"; i.file="cur/"+b+":2,"+fl; if(fl.empty()&&b.find(":2,")==string::npos&&r.chance(1,2))i.file="cur/"+b+(r.chance(1,4)?":1,FRS":""); } W->put(f.path+"/"+i.file,m->raw); W->lookup(f.path+"/"+i.file)->mail=true; }
  else if(f.type==MH){ int n=f.next; f.next+=1+(r.chance(1,5)?r.below(20):0); i.file=std::to_string(n)+(f.mhmark=="cmeta"?".":""); W->put(f.path+"/"+i.file,m->raw); W->lookup(f.path+"/"+i.file)->mail=true; }
  else { static const char*FL[]={"From %s@host.example Mon Jan  1 10:00:00 2001","From %s Tue Feb 13 23:59:59 2007","From %s@x.org  Sat Mar 31 01:02:03 2012","From %s Wed Apr  4 04:04:04 +0100 2018","From - Thu May  5 05:05:05 2005","From %s@a.b-c.example Fri Jun 16 06:16 2006","From %s+tag.x@h Sat Jul  7 07:07:07 2007 PST","From %s Sun Aug 18 08:18:28 GMT 2008","From <%s@host.example> Mon Sep 29 19:29:39 2009","From \"%s x\"@host.example Tue Oct 10 10:10:10 2010","From %s@[10.0.0.1] Wed Nov  1 01:01:01 2011","From %s Thu Dec 12 12:12:12 2012 remote from sim","From %s@host Mon, 15 Mar 2004 21:36:40 PST","From %s!x@host Fri Jan  1 10:00:00 PST DST 2010","From  Mon Jan  1 10:00:00 2001","From @relay.example:%s@host Mon Jan  1 10:00:00 2001","From %s Mon Mar 15 14:36:40 2021 +0200"}; char b[300]; snprintf(b,300,FL[r.chance(1,2)?r.below(5):r.below(17)],vocab[r.below(vocab.size())].c_str()); i.fromline=b; if(m->raw.find("\r\n")!=string::npos&&r.chance(1,2))i.fromline+="\r"; i.extra=r.chance(4,5)?"\n":""; if(badpct&&r.chance(badpct,100))i.m=mkbad(r); f.items.push_back(i); rewrite(f); return; }
  f.items.push_back(i); }
void Model::removeItem(Folder&f,size_t k){ Item i=f.items[k]; f.items.erase(f.items.begin()+k); if(f.type==IMAP_){ auto&v=W->imap->folders[f.name].msgs; for(size_t j=0;j<v.size();j++)if(v[j].uid==i.uid){v.erase(v.begin()+j);break;} } else if(f.type==MD||f.type==MH)W->rm(f.path+"/"+i.file); else rewrite(f); }
vector<Live> Model::live(bool lo){ vector<Live> v; for(auto&f:fo){ if(lo&&!f.listed)continue; if(f.type!=IMAP_&&!W->exists(f.path))continue; for(auto&i:f.items){ Live l; l.m=i.m; l.mbox=f.type>=MBOX&&f.type<=XZ; l.imap=f.type==IMAP_; l.start=i.start; l.len=i.len; l.isnew=i.file.compare(0,4,"new/")==0;
      if(l.imap){ l.path=std::to_string(W->imap->folders[f.name].uidvalidity)+":"+std::to_string(i.uid)+":"+f.name; l.loc=l.path; l.size=0; l.s=l.r=l.f=0; for(auto&x:W->imap->folders[f.name].msgs) if(x.uid==i.uid)l.size=x.data.size(); }
      else if(l.mbox){ l.path=f.path; l.loc=f.path+"#"+std::to_string(i.start); l.size=i.len; l.s=i.m->hs; l.r=i.m->hr; l.f=i.m->hf; }
      else { l.path=f.path+"/"+i.file; l.loc=l.path; l.size=i.m->raw.size(); l.s=i.s; l.r=i.r; l.f=i.f; }
      v.push_back(l); } } return v; }
// approximate substring: is there a substring of text within maxerr edits of pat (anchored at the start if asked)?
bool within(const string&pat,const string&text,int maxerr,bool la){ size_t m=pat.size(); vector<int> c(m+1),d(m+1); for(size_t i=0;i<=m;i++)c[i]=i; if(c[m]<=maxerr)return true; for(size_t j=1;j<=text.size();j++){ d[0]=la?(int)j:0; for(size_t i=1;i<=m;i++)d[i]=std::min({c[i]+1,d[i-1]+1,c[i-1]+(pat[i-1]!=text[j-1])}); c=d; if(c[m]<=maxerr)return true; } return false; }
