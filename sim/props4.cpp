// C09 conversations
#include "query.h"
#include <algorithm>
#include <numeric>
// The identifiers of every message indexed since the last purge connect conversations.
struct Threads { map<string,int> id; vector<int> up;
  int find(int a){ while(up[a]!=a)a=up[a]=up[up[a]]; return a; }
  int node(const string&s){ auto i=id.find(s); if(i!=id.end())return i->second; int n=up.size(); up.push_back(n); id[s]=n; return n; }
  void add(const Msg&m){ int f=-1; for(auto&s:m.ids){ int n=find(node(s)); if(f<0)f=n; else up[n]=find(f); f=find(f); } }
  int of(const Msg&m){ if(m.ids.empty())return -1; return find(node(*m.ids.begin())); } };
static void gen09(Plan&p,Rng&r,int tier){ gen_knobs(p,r,tier); p.knob["threadpct"]=50+r.below(51); p.knob["init"]=r.chance(1,8)?40+r.below(80):2+r.below(20); if(r.chance(1,8)){ p.knob["ftypes"]|=0x80; p.knob["greet"]=r.below(4); } static const vector<string> OPS={"add","add","add","add","del","del","del","flag","move","change","mbdel","mbins","mbreorder","restore","copy","addmany","rmfolder","touch","prepend"};
  int rounds=1+r.below(tier?8:4); for(int i=0;i<rounds;i++){ if(i){ int n=r.below(5); while(n--)p.add(r.pick(OPS),r.next()); } Op&o=p.add("index",r.next()); if(r.chance(1,4))o.p["purge"]=1; if(r.chance(1,12))o.p["noint"]=1; int nq=1+r.below(6); while(nq--)p.add("thread",r.next()); } }
static void run09(const Plan&pl){ Exec x(pl); x.start(); map<int,MP_> known;
  for(auto&o:pl.ops){ if(x.store(o))continue;
    if(o.kind=="index"){ x.steady("C09",o,-1); if(o.has("purge"))known.clear(); for(auto&l:x.idx)known[l.m->id*4+(l.m->uniq[1]=='q'?0:1)]=l.m; continue; }
    if(o.kind!="thread"||!x.have||!W->exists(g_dbpath))continue;
    Rng q(o.s); RQuery rq; if(q.chance(1,2)&&!x.idx.empty()){ string u=x.idx[q.below(x.idx.size())].m->uniq; rq.args={"s:"+u}; rq.text="s:"+u; rq.pred=[u](const Live&l)->int{ return l.m->tok[SUBJ].count(u)>0; }; } else rq=random_query(x,q,QK_WORD|QK_MSGID|QK_SIZE,2);
    Threads t; for(auto&k:known)t.add(*k.second); set<int> hit; set<string> want; bool open=false; size_t direct=0;
    for(auto&l:x.idx){ int w=rq.pred(l); if(w<0)open=true; if(w>0){ direct++; want.insert(l.loc); int c=t.of(*l.m); if(c>=0)hit.insert(c); } } if(open)continue;
    for(auto&l:x.idx){ int c=t.of(*l.m); if(c>=0&&hit.count(c))want.insert(l.loc); }
    Res z; auto got=x.search(rq.args,&z,true); x.expectset(got,vector<string>(want.begin(),want.end()),"C09","search -t "+rq.text); if(want.size()>direct)probe("thread_extends_matches"); if(want.size()>direct&&want.size()<x.idx.size())probe("thread_selective"); } }
static Reg r09("C09",gen09,run09);
