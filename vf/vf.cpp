#include "vf.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vf {
  struct State { Rng r{1}; uint64_t evals=0; std::set<uint64_t> fp; std::map<std::string,uint64_t> counters; std::vector<std::string> samples;
    std::map<std::string,std::pair<uint64_t,std::string>> viol; std::vector<std::pair<std::string,uint64_t>> req; };
  static State S; static char* shm=nullptr; static const size_t shmN=8192;
  static std::string outdir;
  struct Sec{ std::string name; std::function<void()> f; int to; };
  static std::vector<Sec> secs;
  static uint64_t h64(const std::string& s){ uint64_t h=1469598103934665603ULL; for(unsigned char c: s){h^=c;h*=1099511628211ULL;} return h; }
  Rng& rng(){ return S.r; }
  uint64_t seed(){ const char* e=getenv("VERIF_SEED"); return e&&*e? strtoull(e,0,10):1; }
  bool thorough(){ const char* e=getenv("VF_TIER"); return e && std::string(e)=="thorough"; }
  int scale(int q,int t){ return thorough()? t:q; }
  void begin_case(const std::string& c){ if(shm){ size_t n=std::min(c.size(),shmN-1); memcpy(shm,c.data(),n); shm[n]=0; } }
  bool expect(bool ok,const std::string& key,const std::string& d){ if(ok) return true; auto& v=S.viol[key]; if(v.first++==0) v.second=d; return false; }
  void eval(uint64_t n){ S.evals+=n; }
  void distinct(const std::string& f){ S.fp.insert(h64(f)); }
  void count(const std::string& n,uint64_t k){ S.counters[n]+=k; }
  void sample(const std::string& s){ if(S.samples.size()<3) S.samples.push_back(s.substr(0,600)); }
  void require(const std::string& c,uint64_t m){ S.req.emplace_back(c,m); }
  void section(const std::string& n,std::function<void()> f,int to){ secs.push_back({n,f,to}); }
  std::string fmt(const char* f,...){ va_list a; va_start(a,f); va_list b; va_copy(b,a); int n=vsnprintf(nullptr,0,f,a); va_end(a); std::string s(n+1,0); vsnprintf(&s[0],n+1,f,b); va_end(b); s.resize(n); return s; }
  bool expect_close(double a,double b,double r,const std::string& k,const std::string& w,double fl){ return close(a,b,r,fl)|| expect(false,k,w+": got "+str(a)+" expected "+str(b)); }
  bool expect_close(std::complex<double> a,std::complex<double> b,double r,const std::string& k,const std::string& w,double fl){ return close(a,b,r,fl)|| expect(false,k,w+": got "+str(a)+" expected "+str(b)); }
  std::string scratch(){ std::string d=outdir+"/scratch"; mkdir(d.c_str(),0755); return d; }
  static std::string slurp(const std::string& p){ FILE* f=fopen(p.c_str(),"rb"); if(!f) return ""; std::string s; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0) s.append(b,n); fclose(f); return s; }
  std::string capture(std::function<void()> f){
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    std::string p=outdir+"/cap."+std::to_string(getpid()); int fd=open(p.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600);
    int o1=dup(1),o2=dup(2); dup2(fd,1); dup2(fd,2);
    auto restore=[&]{ fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush(); dup2(o1,1); dup2(o2,2); ::close(o1); ::close(o2); ::close(fd); };
    try { f(); } catch(...){ restore(); unlink(p.c_str()); throw; }
    restore(); auto s=slurp(p); unlink(p.c_str()); return s; }
  int in_child(std::function<void()> f,std::string* out,int to){
    fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
    static int n=0; std::string p=outdir+"/child."+std::to_string(getpid())+"."+std::to_string(n++);
    pid_t c=fork();
    if(c==0){ int fd=open(p.c_str(),O_RDWR|O_CREAT|O_TRUNC,0600); dup2(fd,1); dup2(fd,2); alarm(to); try{ f(); }catch(std::exception& e){ fprintf(stderr,"EXCEPTION %s\n",e.what()); fflush(stderr); _exit(42);}catch(...){ _exit(42);} fflush(stdout); fflush(stderr); std::cout.flush(); _exit(0); }
    int st=0; waitpid(c,&st,0); if(out) *out=slurp(p); unlink(p.c_str()); std::string cap=outdir+"/cap."+std::to_string(c); if(st!=0&&out){ auto t=slurp(cap); auto at=std::min(t.find("runtime error"),t.find("ERROR: AddressSanitizer")); *out+=at==std::string::npos? t.substr(t.size()>1500? t.size()-1500: 0): t.substr(at,1500); } unlink(cap.c_str()); return st; }
  static std::string js(const std::string& s){ std::string o="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c; } return o+"\""; }
  static void write_result(const std::string& p,const Sec& s,double wall){
    for(auto& r: S.req) if(S.counters[r.first]<r.second) S.counters["INCONCLUSIVE:"+r.first]=S.counters[r.first];
    FILE* f=fopen((p+".tmp").c_str(),"w"); if(!f) _exit(97);
    fprintf(f,"{\"section\":%s,\"wall\":%.3f,\"evaluations\":%llu,\"distinct\":%zu,\"counters\":{",js(s.name).c_str(),wall,(unsigned long long)S.evals,S.fp.size());
    bool first=true; for(auto& c: S.counters){ fprintf(f,"%s%s:%llu",first?"":",",js(c.first).c_str(),(unsigned long long)c.second); first=false; }
    fprintf(f,"},\"samples\":["); first=true; for(auto& c: S.samples){ fprintf(f,"%s%s",first?"":",",js(c).c_str()); first=false; }
    fprintf(f,"],\"violations\":["); first=true; for(auto& c: S.viol){ fprintf(f,"%s{\"key\":%s,\"n\":%llu,\"detail\":%s}",first?"":",",js(c.first).c_str(),(unsigned long long)c.second.first,js(c.second.second.substr(0,4000)).c_str()); first=false; }
    fprintf(f,"]}\n"); fclose(f); rename((p+".tmp").c_str(),p.c_str()); }
  struct Run{ size_t i; pid_t pid; double t0; char* shm; bool retried; };
  static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
}
using namespace vf;
int main(int argc,char** argv){
  outdir = argc>1? argv[1] : "."; int jobs = argc>2? atoi(argv[2]) : 8; std::string only= argc>3? argv[3] : "";
  harness();
  std::vector<std::pair<size_t,bool>> todo; for(size_t i=0;i<secs.size();++i) if(only==""||secs[i].name==only) todo.push_back({i,false});
  std::reverse(todo.begin(),todo.end());
  std::vector<Run> running; bool bad=false;
  while(!todo.empty()||!running.empty()){
    while(!todo.empty() && (int)running.size()<jobs){
      auto [i,re]=todo.back(); todo.pop_back();
      char* m=(char*)mmap(nullptr,shmN,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); m[0]=0;
      std::string base=outdir+"/"+secs[i].name;
      fflush(stdout); fflush(stderr);
      pid_t c=fork();
      if(c==0){ setpgid(0,0); shm=m; S.r=Rng(seed()*0x9e3779b97f4a7c15ULL ^ h64(secs[i].name));
        int fd=open((base+".log").c_str(),O_RDWR|O_CREAT|O_TRUNC,0644); dup2(fd,1); dup2(fd,2); ::close(fd); int nul=open("/dev/null",O_RDONLY); dup2(nul,0);
        double t0=now();
        try { secs[i].f(); } catch(std::exception& e){ fprintf(stderr,"uncaught exception: %s\n",e.what()); expect(false,"exception:"+secs[i].name,std::string("uncaught exception ")+e.what()+" in case "+shm); } catch(...){ expect(false,"exception:"+secs[i].name,std::string("uncaught exception in case ")+shm); }
        fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
        write_result(base+".json",secs[i],now()-t0); _exit(0); }
      running.push_back({i,c,now(),m,re});
    }
    int st; pid_t p=waitpid(-1,&st,WNOHANG);
    if(p<=0){ usleep(5000);
      for(auto& r: running) if(now()-r.t0>secs[r.i].to*(r.retried?2:1)) { kill(-r.pid,SIGKILL); kill(r.pid,SIGKILL); }
      continue; }
    for(size_t k=0;k<running.size();++k) if(running[k].pid==p){
      Run r=running[k]; running.erase(running.begin()+k); auto& s=secs[r.i]; std::string base=outdir+"/"+s.name;
      kill(-r.pid,SIGKILL);
      bool killed = WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL;
      bool ok = WIFEXITED(st)&&WEXITSTATUS(st)==0 && access((base+".json").c_str(),R_OK)==0;
      if(!ok){
        if(killed && !r.retried){ fprintf(stderr,"section %s killed/timeout, retrying\n",s.name.c_str()); todo.push_back({r.i,true}); }
        else {
          S=State(); std::string why = killed? "hang" : WIFSIGNALED(st)? fmt("signal %d",WTERMSIG(st)) : fmt("exit %d",WEXITSTATUS(st));
          std::string capf=outdir+"/cap."+std::to_string(r.pid); std::string log=slurp(base+".log")+slurp(capf); unlink(capf.c_str()); { FILE* lf=fopen((base+".log").c_str(),"w"); if(lf){ fwrite(log.data(),1,log.size(),lf); fclose(lf); } } std::string tail; size_t a=log.find("ERROR: AddressSanitizer"); if(a==std::string::npos) a=log.find("WARNING: ThreadSanitizer"); if(a==std::string::npos) a=log.find("runtime error:"); if(a!=std::string::npos){ size_t b=log.rfind('\n',a); if(b!=std::string::npos) a=b; tail=log.substr(a,2500);} else tail = log.size()>2500? log.substr(log.size()-2500):log;
          S.counters["crashed"]=1; S.evals=1;
          S.viol[(killed?"hang:":"crash:")+s.name]={1,why+" in case {"+std::string(r.shm)+"}\n"+tail};
          write_result(base+".json",s,now()-r.t0); S=State(); bad=true; }
      }
      munmap(r.shm,shmN); break; }
  }
  (void)bad; return 0;
}
