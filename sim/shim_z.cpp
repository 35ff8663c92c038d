// gzip/bzip2 readers: the real libraries, fed from the simulated file through an anonymous memory file.
#include "core.h"
#include <zlib.h>
#include <bzlib.h>
#include <cerrno>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
extern "C" { int sim_open(const char*,int,...); ssize_t sim_read(int,void*,size_t); int sim_close(int); }
static int slurp(const char*path){ // real memfd with the bytes of the simulated file
  int fd=sim_open(path,O_RDONLY); if(fd<0)return -1; int m=memfd_create("z",0); char buf[16384]; bool bad=false;
  while(true){ ssize_t r=sim_read(fd,buf,sizeof buf); if(r<0){ bad=true; break; } if(r==0)break; if(write(m,buf,r)!=r)abort(); }
  sim_close(fd); lseek(m,0,SEEK_SET); if(bad) { /* a read error part-way: the library would see it on read */ ST.probes["z_read_error"]++; } 
  P->env["__zbad"]=bad?"1":""; return m; }
struct ZF { gzFile g; BZFILE*b; bool bad; };
static set<ZF*> g_live;
extern "C" {
void*sim_gzopen(const char*p,const char*){ int m=slurp(p); if(m<0)return nullptr; ZF*z=new ZF{gzdopen(m,"rb"),nullptr,P->env["__zbad"]=="1"}; g_live.insert(z); return z; }
void*sim_gzopen64(const char*p,const char*m){ return sim_gzopen(p,m); }
int sim_gzread(void*f,void*b,unsigned n){ ZF*z=(ZF*)f; int r=gzread(z->g,b,n); if(z->bad){ errno=EIO; return -1; } return r; }
int sim_gzclose(void*f){ ZF*z=(ZF*)f; int r=gzclose(z->g); g_live.erase(z); delete z; return r; }
int sim_gzclose_r(void*f){ return sim_gzclose(f); }
int sim_gzeof(void*f){ return gzeof(((ZF*)f)->g); }
const char*sim_gzerror(void*f,int*e){ return gzerror(((ZF*)f)->g,e); }
void*sim_BZ2_bzopen(const char*p,const char*){ int m=slurp(p); if(m<0)return nullptr; ZF*z=new ZF{nullptr,BZ2_bzdopen(m,"rb"),P->env["__zbad"]=="1"}; g_live.insert(z); return z; }
int sim_BZ2_bzread(void*f,void*b,int n){ ZF*z=(ZF*)f; int r=BZ2_bzread(z->b,b,n); if(z->bad){ errno=EIO; return -1; } return r; }
void sim_BZ2_bzclose(void*f){ ZF*z=(ZF*)f; BZ2_bzclose(z->b); g_live.erase(z); delete z; }
const char*sim_BZ2_bzerror(void*f,int*e){ return BZ2_bzerror(((ZF*)f)->b,e); }
}
void zshim_cleanup(){ for(auto*z:g_live){ if(z->g)gzclose(z->g); if(z->b)BZ2_bzclose(z->b); delete z; } g_live.clear(); }
