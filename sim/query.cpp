#include "query.h"
#include <algorithm>
#include <ctime>
#include <cstdlib>
const char*const TZS[]={"UTC0","EST5EDT,M3.2.0,M11.1.0","CET-1CEST,M3.5.0,M10.5.0/3","AEST-10AEDT,M10.1.0,M4.1.0/3","IST-5:30","<-11>11","<+14>-14"}; const int NTZ=7;
static int g_tz=0;
void use_tz(int i){ g_tz=((i%NTZ)+NTZ)%NTZ; setenv("TZ",TZS[g_tz],1); tzset(); }
i64 civil(i64 y,int m,int d){ y-=m<=2; i64 era=(y>=0?y:y-399)/400; unsigned yoe=y-era*400, doy=(153*(m+(m>2?-3:9))+2)/5+d-1, doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+(i64)doe-719468; }
void uncivil(i64 z,i64&y,int&m,int&d){ z+=719468; i64 era=(z>=0?z:z-146096)/146097; unsigned doe=z-era*146097, yoe=(doe-doe/1460+doe/36524-doe/146096)/365; y=(i64)yoe+era*400; unsigned doy=doe-(365*yoe+yoe/4-yoe/100), mp=(5*doy+2)/153; d=doy-(153*mp+2)/5+1; m=mp<10?mp+3:mp-9; y+=m<=2; }
static int mlen(i64 y,int m){ static const int D[]={31,28,31,30,31,30,31,31,30,31,30,31}; return m==2&&(y%4==0&&(y%100||y%400==0))?29:D[m-1]; }
static const char*MON[]={"jan","feb","mar","apr","may","jun","jul","aug","sep","oct","nov","dec"};
static string mcase(int m,Rng&r){ string s=MON[m-1]; int k=r.below(4); if(k==0)s[0]-=32; else if(k==1)for(auto&c:s)c-=32; return s; }
static i64 localday(i64 t){ time_t x=t; struct tm tm; localtime_r(&x,&tm); return civil(tm.tm_year+1900,tm.tm_mon+1,tm.tm_mday); }
static int localhour(i64 t){ time_t x=t; struct tm tm; localtime_r(&x,&tm); return tm.tm_hour; }
static string two(int y){ return fmt("%02d",y%100); }
// one end of a range: text, and the first and last day it stands for, given the day it is relative to
struct DExpr { string text; i64 first,last; bool rel=false; };
static bool y2ok(i64 y){ // two digits that cannot be a day: 00-09, 40-99 and 32-39, in 1970..2069
  if(y<1970||y>2069)return false; int k=y%100; return k<10||k>31; }
static DExpr dexpr(Rng&r,i64 today,i64 ref,i64 near,i64 now,bool nothuge){
  i64 y,ry; int m,d,rm,rd; uncivil(near,y,m,d); uncivil(ref,ry,rm,rd); DExpr e; string D=std::to_string(d); if(r.chance(1,3))D=fmt("%02d",d); if(D[0]=='0')D=std::to_string(d);
  switch(r.below(12)){
    case 0: case 1: e.text=fmt("%04d%02d%02d",(int)y,m,d); e.first=e.last=near; return e;
    case 2: if(y<1970||y>2069)break; e.text=fmt("%02d%02d%02d",(int)(y%100),m,d); e.first=e.last=near; return e;
    case 3: { e.text=y2ok(y)&&r.chance(1,2)?two(y):std::to_string(y); e.first=civil(y,1,1); e.last=civil(y,12,31); return e; }
    case 4: { // month, most recent one
      e.text=mcase(m,r); i64 yy=m>rm?ry-1:ry; e.first=civil(yy,m,1); e.last=civil(yy,m,mlen(yy,m)); return e; }
    case 5: { // day and month in either order, most recent one
      if(m==2&&d==29)break; i64 yy=(m>rm||(m==rm&&d>rd))?ry-1:ry; e.text=r.chance(1,2)?D+mcase(m,r):mcase(m,r)+D; e.first=e.last=civil(yy,m,d); return e; }
    case 6: { // day, month, year
      string Y=y2ok(y)&&r.chance(1,2)?two(y):std::to_string(y); e.text=r.chance(1,2)?D+mcase(m,r)+Y:Y+mcase(m,r)+D; e.first=e.last=near; return e; }
    case 7: { string Y=y2ok(y)&&r.chance(1,2)?two(y):std::to_string(y); e.text=r.chance(1,2)?mcase(m,r)+Y:Y+mcase(m,r); e.first=civil(y,m,1); e.last=civil(y,m,mlen(y,m)); return e; }
    case 8: { // day of the month
      int dd=1+r.below(28); i64 yy=ry; int mm=rm; if(dd>rd){ mm--; if(!mm){ mm=12; yy--; } } e.text=std::to_string(dd); e.first=e.last=civil(yy,mm,dd); return e; }
    default: break; }
  { // relative to now
    static const int U[]={1,7,30,365}; static const char*L="dwmy"; i64 dd=std::max<i64>(0,today-near); int k=r.below(4); i64 n=dd/U[k]; if(r.chance(1,3))n=r.below(20); if(!nothuge&&r.chance(1,20))n=r.below(150); e.text=std::to_string(n)+L[k]; e.rel=true; e.first=e.last=localday(now-n*U[k]*86400LL); return e; } }
static std::function<int(const Live&)> date_pred(Exec&x,Rng&r,string&text){
  i64 now=W->now/1000000000LL, today=localday(now); int hr=localhour(now); if(hr>=22)hr=0; /* daylight saving may move it across midnight */
  i64 a=today-(r.chance(1,3)?(i64)r.below(40):(i64)r.below(4200)), b=today-(r.chance(1,3)?(i64)r.below(40):(i64)r.below(4200));
  if(!x.idx.empty()){ for(i64*p:{&a,&b}) if(r.chance(2,3)){ const Live&l=x.idx[r.below(x.idx.size())]; if(l.m->date>0)*p=l.m->date/86400+(i64)r.below(3)-1; } } if(a>today)a=today; if(b>today)b=today; if(a>b)std::swap(a,b); if(r.chance(1,15)){ b=civil(2010+r.below(60),1+r.below(12),1+r.below(28)); if(b<today)b=today+1+r.below(1000); }
  i64 lo=-1000000000,hi=1000000000; int form=r.below(5); bool openlo=false,openhi=false; i64 dc1=-2000000000,dc2=-2000000000; // days left open
  bool dst=g_tz!=0;
  if(form==0){ DExpr e; do e=dexpr(r,today,today,a,now,true); while(e.rel); text=e.text; lo=e.first; hi=e.last; if(lo>hi)std::swap(lo,hi); }
  else if(form==1){ DExpr e=dexpr(r,today,today,b,now,false); text="-"+e.text; hi=e.last; if(e.rel&&hr<2)dc2=hi; openlo=true; }
  else if(form==2){ DExpr e=dexpr(r,today,today,a,now,false); text=e.text+"-"; lo=e.first+1; openhi=true; if(dst||e.rel)dc1=e.first; if(e.rel&&hr<2)dc2=e.first; }
  else { DExpr e2=dexpr(r,today,today,b,now,true); DExpr e1=dexpr(r,today,e2.last,a,now,true); text=e1.text+"-"+e2.text; i64 f=e1.first,l=e2.last;
    if(f<l){ lo=f+1; hi=l; if(e1.rel||e2.rel){ dc1=f; if(hr<2)dc2=l; } } else { // endpoints the wrong way round, or one day: which of the two days belong to it is open
      lo=l+1; hi=f-1; dc1=f; dc2=l; } }
  (void)openlo; return [=](const Live&l)->int{ i64 d=l.m->date; if(d==-1||d==0){ return openlo||openhi?-1:0; } i64 k=d/86400; if(k==dc1||k==dc2||(openhi&&k>today))return -1; return k>=lo&&k<=hi; }; }
// the limits themselves are outside of a range of sizes
static std::function<int(const Live&)> size_pred(Exec&x,Rng&r,string&text){
  i64 a,b; auto one=[&](i64&v){ if(!x.idx.empty()&&r.chance(3,4))v=x.idx[r.below(x.idx.size())].size+(i64)r.below(5)-2; else v=r.below(5000); if(v<0)v=0; int k=r.below(6); string s; if(k==0){ v=r.below(6)<<10; s=std::to_string(v>>10)+(r.chance(1,2)?"k":"K"); } else if(k==1&&r.chance(1,3)){ v=(r.chance(1,3)?1000+(i64)r.below(5000):(i64)r.below(3))<<20; s=std::to_string(v>>20)+(r.chance(1,2)?"m":"M"); } else if(k==2&&r.chance(1,5)){ v=1500000000LL+(i64)r.below(4000000000LL); s=std::to_string(v); if(r.chance(1,3)){ v=v>>10<<10; s=std::to_string(v>>10)+"k"; } } else s=std::to_string(v); return s; };
  string sa=one(a),sb=one(b); int f=r.below(4);
  if(f==0){ text="-"+sb; return [=](const Live&l)->int{ return l.size<b; }; }
  if(f==1){ text=sa+"-"; return [=](const Live&l)->int{ return l.size>a; }; }
  text=sa+"-"+sb; i64 lo=std::min(a,b),hi=std::max(a,b); return [=](const Live&l)->int{ return l.size>lo&&l.size<hi; }; }
static std::function<int(const Live&)> flag_pred(Rng&r,string&text){ int ps=0,pr=0,pf=0; int n=1+r.below(3); set<char> used; for(int i=0;i<n;i++){ char c="srf"[r.below(3)]; if(!used.insert(c).second)continue; bool neg=r.chance(1,2); if(neg)text+='-'; text+=r.chance(1,4)?(char)(c-32):c; int v=neg?-1:1; if(c=='s')ps=v; else if(c=='r')pr=v; else pf=v; }
  return [=](const Live&l)->int{ if(l.imap)return -1; auto ok=[](int want,int have){ return !want||(want>0)==(have!=0); }; return ok(ps,l.s)&&ok(pr,l.r)&&ok(pf,l.f); }; }
static string upper_some(string s,Rng&r){ if(r.chance(1,3))for(auto&c:s)if(c>='a'&&c<='z'&&r.chance(1,2))c-=32; return s; }
static string edit(string s,Rng&r,int n){ while(n-->0&&s.size()>1){ size_t p=r.below(s.size()); switch(r.below(3)){ case 0: s.erase(p,1); break; case 1: s.insert(p,1,'a'+r.below(26)); break; default: s[p]='a'+r.below(26); } } return s; }
static bool plain(const string&s){ return !s.empty()&&s.size()<90&&s.find_first_of("/,~^:\" \t")==string::npos&&(s.find('=')==string::npos||(s.find('=')+1<s.size()&&!isdigit((unsigned char)s[s.find('=')+1]))); }
static std::function<int(const Live&)> word_pred(Exec&x,Rng&r,string&text,bool withpath){
  static const char*KEYS[]={"","t:","c:","f:","s:","b:","n:","tc:","bs:","a:","r:","tcf:","sn:","fb:","ct:","tcfsb:"}; static const int MASK[]={0x1f,1,2,4,8,0x10,0x20,3,0x18,7,3,7,0x28,0x14,3,0x1f};
  int k=r.below(16); int mask=MASK[k]; bool path=false; text=KEYS[k]; if(withpath&&r.chance(1,4)){ if(r.chance(1,2)){ mask=0; text="p:"; } else if(!text.empty()){ text.insert(text.begin(),'p'); } else { text="sp:"; mask=8; } path=true; }
  auto pool=[&]()->string{ // a word to look for: mostly one that some message has
    for(int t=0;t<12;t++){ if(x.idx.empty()||r.chance(1,8))return x.m.vocab[r.below(x.m.vocab.size())]; const Live&l=x.idx[r.below(x.idx.size())]; if(path&&r.chance(2,3)){ string p=l.path; vector<string> seg; size_t i=0; while(i<p.size()){ size_t j=p.find('/',i); if(j==string::npos)j=p.size(); if(j>i)seg.push_back(p.substr(i,j-i)); i=j+1; } string s=seg.empty()?p:seg[r.below(seg.size())]; size_t a=r.below(s.size()),n=1+r.below(s.size()-a); s=s.substr(a,n); if(plain(s)&&s.size()<32)return s; continue; }
      vector<int> fs; for(int f=0;f<NFLD;f++)if((mask>>f&1)&&!l.m->tok[f].empty())fs.push_back(f); if(fs.empty())continue; auto&s=l.m->tok[fs[r.below(fs.size())]]; auto it=s.begin(); std::advance(it,r.below(s.size())); if(plain(*it))return *it; } return x.m.vocab[r.below(x.m.vocab.size())]; };
  vector<vector<std::function<int(const Live&)>>> dis; int nd=r.chance(1,3)?2+r.below(2):1; 
  for(int i=0;i<nd;i++){ if(i)text+="/"; vector<std::function<int(const Live&)>> con; int nc=r.chance(1,3)?2+r.below(2):1; for(int j=0;j<nc;j++){ if(j)text+=",";
      string w=pool(); bool neg=r.chance(1,4); int how=r.below(5); bool anch=false; int errs=0; bool sub=false; string t=w; if(path&&t.size()>31)t=t.substr(0,31); /* patterns are limited to 31 characters */
      if(w.find('=')!=string::npos)how=0; /* that sign has a meaning of its own in the others */ if(how>=2){ sub=true; if(t.size()>1&&r.chance(3,4)){ size_t a=r.chance(1,2)?0:r.below(t.size()); t=t.substr(a,1+r.below(t.size()-a)); } if(t.size()>31)t=t.substr(0,31); if(how==2)anch=true; else if(how==3){ errs=1+r.below(r.chance(1,6)?6:3); t=edit(t,r,r.below(errs+2)); if(t.size()>31)t=t.substr(0,31); if((size_t)errs>=t.size()){ errs=(int)t.size()-1; } } }
      string s=path?t:upper_some(t,r); text+=(neg?"~":"")+string(anch?"^":"")+s+(sub?(errs?"="+std::to_string(errs):r.chance(1,6)?"=0":"="):"");
      bool exact=!sub; string lt=lower(t);
      con.push_back([=](const Live&l)->int{ bool hit=false; for(int f=0;f<NFLD&&!hit;f++)if(mask>>f&1){ if(exact)hit=l.m->tok[f].count(lt)>0; else for(auto&y:l.m->tok[f]){ if(errs?within(lt,y,errs,false):anch?y.compare(0,lt.size(),lt)==0:y.find(lt)!=string::npos){ hit=true; break; } } }
        if(path&&!hit){ hit=errs?within(t,l.path,errs,false):anch?l.path.compare(0,t.size(),t)==0:l.path.find(t)!=string::npos; } return neg?!hit:hit; }); } dis.push_back(con); }
  return [=](const Live&l)->int{ for(auto&c:dis){ bool ok=true; for(auto&f:c)if(!f(l)){ ok=false; break; } if(ok)return 1; } return 0; }; }
RQuery random_query(Exec&x,Rng&r,int kinds,int maxargs){ RQuery q; int n=r.chance(1,2)?1:1+r.below(maxargs); vector<std::function<int(const Live&)>> ps; vector<int> ks; for(int b=0;b<6;b++)if(kinds>>b&1)ks.push_back(1<<b); if(kinds&QK_WORD){ ks.push_back(QK_WORD); ks.push_back(QK_WORD); }
  for(int i=0;i<n;i++){ int k=ks[r.below(ks.size())]; string t;
    if(k==QK_DATE){ auto p=date_pred(x,r,t); q.args.push_back("d:"+t); ps.push_back(p); }
    else if(k==QK_SIZE){ auto p=size_pred(x,r,t); q.args.push_back("z:"+t); ps.push_back(p); }
    else if(k==QK_FLAG){ auto p=flag_pred(r,t); q.args.push_back("F:"+t); ps.push_back(p); }
    else if(k==QK_MSGID){ if(x.idx.empty())continue; const Live&l=x.idx[r.below(x.idx.size())]; if(l.m->mids.empty())continue; auto it=l.m->mids.begin(); std::advance(it,r.below(l.m->mids.size())); string id=*it; q.args.push_back("m:"+upper_some(id,r)); ps.push_back([=](const Live&y)->int{ return y.m->mids.count(id)>0; }); }
    else { auto p=word_pred(x,r,t,kinds&QK_PATH); if(t[0]=='-')t="tcfsb:"+t; /* not an option */ q.args.push_back(t); ps.push_back(p); } }
  if(q.args.empty()){ q.args.push_back("s:~zzznosuchword"); ps.push_back([](const Live&)->int{ return 1; }); }
  for(auto&a:q.args)q.text+=(q.text.empty()?"":" ")+a;
  q.pred=[ps](const Live&l)->int{ int v=1; for(auto&p:ps){ int k=p(l); if(k==0)return 0; if(k<0)v=-1; } return v; }; return q; }
void check_query(Exec&x,const RQuery&q,const string&cls){ Res z; auto got=x.search(q.args,&z); set<string> g(got.begin(),got.end()); if(g.size()!=got.size()) fail(cls+":twice","search %s returned a message twice",q.text.c_str()); set<string> known; size_t yes=0,no=0,open=0;
  for(auto&l:x.idx){ known.insert(l.loc); int w=q.pred(l); bool h=g.count(l.loc)>0; if(w<0){ open++; continue; } (w?yes:no)++; if(w&&!h) fail(cls+":missing","search %s does not return %s (date %lld = %s, size %lld, flags s%d r%d f%d), which matches (now %lld)",q.text.c_str(),l.loc.c_str(),l.m->date,[&]{ i64 y; int m,d; uncivil(l.m->date/86400,y,m,d); return fmt("%lld-%02d-%02d",y,m,d); }().c_str(),l.size,l.s,l.r,l.f,W->now/1000000000LL); if(!w&&h) fail(cls+":extra","search %s returns %s (date %lld = %s, size %lld, flags s%d r%d f%d), which does not match (now %lld)",q.text.c_str(),l.loc.c_str(),l.m->date,[&]{ i64 y; int m,d; uncivil(l.m->date/86400,y,m,d); return fmt("%lld-%02d-%02d",y,m,d); }().c_str(),l.size,l.s,l.r,l.f,W->now/1000000000LL); }
  for(auto&s:g)if(!known.count(s)) fail(cls+":unknown","search %s returned %s, which is not an indexed message",q.text.c_str(),s.c_str());
  if(yes)probe("query_with_hits"); else probe("query_without_hits"); if(yes&&no)probe("query_selective"); if(open)probe("query_partly_open"); }
