#include "exec.h"
#include <algorithm>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <ctime>
static Prop*findp(const string&id){ for(auto&p:g_props)if(id==p.id)return &p; return nullptr; }
static void mkplan(Plan&p,const string&prop,u64 seed,int tier){ p=Plan(); p.prop=prop; p.seed=seed; Rng r(hcomb(hstr(prop),seed)); findp(prop)->gen(p,r,tier); }
struct Out { bool bad=false; Viol v; u64 trace=0; };
static Out runplan(const Plan&p){ Out o; Prop*q=findp(p.prop); try{ q->run(p); }catch(Viol&v){ o.bad=true; o.v=v; } o.trace=g_trace; if(o.bad)o.trace=hcomb(o.trace,hstr(o.v.cls+o.v.msg)); return o; }
static string esc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n')o+="\\n"; else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
static double mono(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static string slurp(const char*f){ std::ifstream i(f); std::stringstream s; s<<i.rdbuf(); return s.str(); }
static Plan minimise(const Plan&p0,const string&cls,double budget,int&tries){
  Plan best=p0; double t0=mono(); tries=0; auto ok=[&](const Plan&q){ tries++; Out o=runplan(q); return o.bad&&o.v.cls==cls; };
  bool again=true; while(again&&mono()-t0<budget){ again=false;
    for(size_t chunk=std::max<size_t>(1,best.ops.size()/2);chunk>=1;chunk/=2){ for(size_t i=0;i+1<=best.ops.size()&&mono()-t0<budget;){ Plan q=best; size_t n=std::min(chunk,q.ops.size()-i); q.ops.erase(q.ops.begin()+i,q.ops.begin()+i+n); if(ok(q)){ best=q; again=true; } else i+=chunk; } if(chunk==1)break; }
    for(size_t i=0;i<best.ops.size()&&mono()-t0<budget;i++){ vector<string> ks; for(auto&x:best.ops[i].p)ks.push_back(x.first); for(auto&k:ks){ Plan q=best; q.ops[i].p.erase(k); if(ok(q)){ best=q; again=true; } }
      while(!best.ops[i].rl.empty()&&mono()-t0<budget){ Plan q=best; q.ops[i].rl.pop_back(); if(ok(q)){ best=q; again=true; } else break; }
      for(size_t j=0;j+1<best.ops[i].rl.size()&&mono()-t0<budget;){ Plan q=best; auto&v=q.ops[i].rl; v.erase(v.begin()+j,v.begin()+j+2>v.end()?v.end():v.begin()+j+2); if(ok(q)){ best=q; again=true; } else j++; } }
    vector<string> ks; for(auto&x:best.knob)ks.push_back(x.first); for(auto&k:ks){ if(mono()-t0>budget)break; Plan q=best; q.knob.erase(k); if(ok(q)){ best=q; again=true; continue; } if(best.knob[k]>1){ for(i64 v:{(i64)0,(i64)1,best.knob[k]/2,best.knob[k]-1}){ Plan q2=best; q2.knob[k]=v; if(v<best.knob[k]&&ok(q2)){ best=q2; again=true; break; } } } } }
  return best; }
int main(int argc,char**argv){
  sim_init(); g_verbose=getenv("V")!=nullptr; string cmd=argc>1?argv[1]:"";
  if(cmd=="list"){ for(auto&p:g_props)puts(p.id); return 0; }
  if(cmd=="plan"){ Plan p; mkplan(p,argv[2],strtoull(argv[3],nullptr,10),argc>4?atoi(argv[4]):0); fputs(p.text().c_str(),stdout); return 0; }
  if(cmd=="replay"){ Plan p; if(!Plan::parse(slurp(argv[2]),p)||!findp(p.prop)){ fprintf(stderr,"bad replay file\n"); return 3; } Out o=runplan(p); printf("trace %016llx\n",o.trace); if(o.bad){ printf("VIOLATED %s\n%s\n",o.v.cls.c_str(),o.v.msg.c_str()); return 1; } puts("held"); return 0; }
  if(cmd=="seq"){ for(int i=2;i<argc;i++){ Plan p; if(!Plan::parse(slurp(argv[i]),p))return 3; fprintf(stderr,"=== %s\n",argv[i]); Out o=runplan(p); printf("%s trace %016llx\n",argv[i],o.trace); fflush(stdout); } return 0; }
  if(cmd=="min"){ Plan p; if(!Plan::parse(slurp(argv[2]),p))return 3; double budget=argc>4?atof(argv[4]):60; Out o=runplan(p); if(!o.bad){ puts("held"); return 0; } int t; Plan q=minimise(p,o.v.cls,budget,t); std::ofstream(argv[3])<<q.text(); printf("minimised %zu ops -> %zu ops in %d runs: %s\n",p.ops.size(),q.ops.size(),t,o.v.cls.c_str()); return 1; }
  if(cmd=="run"){ // run PROP FIRST STRIDE SECONDS MAXRUNS TIER OUT [known classes...]
    string prop=argv[2]; u64 first=strtoull(argv[3],nullptr,10),stride=strtoull(argv[4],nullptr,10); double secs=atof(argv[5]); u64 maxr=strtoull(argv[6],nullptr,10); g_tier=atoi(argv[7]); string out=argv[8]; set<string> known; for(int i=9;i<argc;i++)known.insert(argv[i]);
    if(!findp(prop)){ fprintf(stderr,"no such property\n"); return 3; }
    double t0=mono(); set<u64> traces; u64 n=0,seed=first,redo=0; string viol; map<string,u64> kn; int rc=0;
    for(;n<maxr&&mono()-t0<secs;n++,seed+=stride){ { std::ofstream(out+".cur")<<seed<<"\n"; } Plan p; mkplan(p,prop,seed,g_tier); Out o=runplan(p); ST.runs++; if(traces.size()<2000000)traces.insert(o.trace);
      if(n%50==7){ redo++; Stats sv=ST; Out o2=runplan(p); ST=sv; if(o2.trace!=o.trace||o2.bad!=o.bad){ fprintf(stderr,"NONDETERMINISM seed %llu\n",seed); std::ofstream(out+".plan")<<p.text(); rc=4; break; } }
      if(o.bad){ if(known.count(o.v.cls)){ kn[o.v.cls]++; continue; } std::ofstream(out+".plan")<<p.text(); viol=o.v.cls+"\t"+o.v.msg; rc=1; n++; break; } }
    std::ofstream j(out); j<<"{\"runs\":"<<n<<",\"seconds\":"<<mono()-t0<<",\"lastseed\":"<<seed<<",\"procs\":"<<ST.procs<<",\"steps\":"<<ST.steps<<",\"switches\":"<<ST.switches<<",\"simtime_s\":"<<ST.simtime/1000000000.0<<",\"distinct\":"<<traces.size()<<",\"determinism_rechecks\":"<<redo<<",\"rc\":"<<rc<<",\"violation\":\""<<esc(viol)<<"\"";
    auto dump=[&](const char*k,const map<string,u64>&mm){ j<<",\""<<k<<"\":{"; bool f=true; for(auto&x:mm){ j<<(f?"":",")<<"\""<<esc(x.first)<<"\":"<<x.second; f=false; } j<<"}"; }; dump("faults",ST.faults); dump("calls",ST.calls); dump("probes",ST.probes); dump("known",kn); j<<"}\n"; j.close(); unlink((out+".cur").c_str()); return rc; }
  fprintf(stderr,"usage\n"); return 3; }
