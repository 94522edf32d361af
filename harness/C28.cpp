// C28: run-time compilation: which function ends up behind a handle, after any sequence of compilations, names, files and faults
#include "vf.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/DynamicFCN.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Utilities.h"
#include <dirent.h>
#include <fstream>
#include <thread>
#include <atomic>
#include <csignal>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
#include <set>
#include <iostream>
#ifdef VF_SUMS
#include "AmpGen/CoherentSum.h"
#include "AmpGen/EventType.h"
#include "AmpGen/EventList.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/MinuitParameterSet.h"
#include "TRandom3.h"
#endif
#define EXPECT(c,k,d) vf::expect((c),(k),(d))
using namespace AmpGen;
typedef CompiledExpression<double(const double*,const double*)> RE; typedef CompiledExpression<complex_t(const double*,const double*)> CE;
static const std::map<std::string,unsigned> EVT={{"x0v",0},{"x1v",1}};
static std::string realCxx; static void useCxx(const std::string& s){ setenv("AMPGEN_CXX",s.c_str(),1); }
static void opt(const std::string& s){ OptionsParser::setArg(s); }
static int nfile=0; static std::string fresh(const std::string& stem="lib"){ return vf::scratch()+"/"+stem+std::to_string(getpid())+"_"+std::to_string(nfile++); }
// files the library leaves in /tmp belong to this process alone: remove them afterwards
static std::set<std::string> tmpFiles(){ std::set<std::string> o; if(auto d=opendir("/tmp")){ while(auto e=readdir(d)) if(std::string(e->d_name).find("libAmpGen-")==0) o.insert(e->d_name); closedir(d); } return o; }
// f = a x0 + b x1 + c, and its complex cousin: every function of a run is different
struct Fn { double a,b,c; std::string name; std::unique_ptr<RE> r; std::unique_ptr<CE> z; bool cplx() const { return z!=nullptr; } Expression expr() const { return Expression(a)*Parameter("x0v")+Expression(b)*Parameter("x1v")+Expression(c); }
  complex_t want(const double* x) const { return a*x[0]+b*x[1]+c; } CompiledExpressionBase* base(){ return r? (CompiledExpressionBase*)r.get(): z.get(); } bool ready() const { return r? r->isReady(): z->isReady(); }
  complex_t call(const double* x) const { return r? complex_t((*r)(x)): (*z)(x); } };
static std::atomic<int> serial{0};
static Fn mk(const std::string& name,int kind=0){ Fn f; int n=++serial; f.a=1.+n; f.b=-0.5*n-0.25; f.c=1000.*n; f.name=name; if(kind==0) f.r.reset(new RE(f.expr(),name,EVT)); else f.z.reset(new CE(f.expr(),name,EVT)); return f; }
static bool same(complex_t a,complex_t b){ return std::abs(a-b)<=1e-9*(1+std::abs(b)); }
// a ready function is the function of its own expression, one event at a time and in batches
static void judge(const Fn& f,const std::string& key,const std::string& d){ auto& r=vf::rng(); if(!f.ready()) return; double x[8]; for(auto& v: x) v=r.uni(-3,3); complex_t g=f.call(x); vf::eval(); vf::count("judged"); if(!EXPECT(same(g,f.want(x)),key,d+vf::fmt(": %s returns %s, its expression is %s",f.name.c_str(),vf::str(g).c_str(),vf::str(f.want(x)).c_str()))) return;
  size_t N=4; if(f.r){ std::vector<double> out(N,-77); f.r->batch(N,size_t(2),size_t(1),out.data(),(const double*)nullptr,(const double*)x); for(size_t i=0;i<N;++i) EXPECT(same(out[i],f.want(x+2*i)),key+".batch",d+vf::fmt(": batch of %s returns %s, its expression is %s",f.name.c_str(),vf::str(out[i]).c_str(),vf::str(f.want(x+2*i)).c_str())); } else { std::vector<complex_t> out(N,-77); f.z->batch(N,size_t(2),size_t(1),out.data(),(const double*)nullptr,(const double*)x); for(size_t i=0;i<N;++i) EXPECT(same(out[i],f.want(x+2*i)),key+".batch",d+": batch of "+f.name); } }
// one attempt to compile; true if it claims to have worked
struct Try { bool threw=false; std::string out; };
static Try attempt(std::function<void()> g){ Try t; t.out=vf::capture([&]{ try{ g(); } catch(std::exception& e){ t.threw=true; std::cout<<e.what(); } }); return t; }
static bool reported(const Try& t){ return t.threw || t.out.find("ERROR")!=std::string::npos || t.out.find("FATAL")!=std::string::npos || t.out.find("error")!=std::string::npos; }
// either ready and right, or reported and not ready
static void outcome(const Fn& f,const Try& t,const std::string& key,const std::string& d){ if(f.ready()){ vf::count("ready"); judge(f,key+".value",d); EXPECT(!t.threw,key+".ready",d+": "+f.name+" is ready although its compilation failed: "+t.out.substr(0,300)); } else { vf::count("rejected"); EXPECT(reported(t),key+".silent",d+": "+f.name+" is not ready and nothing was reported"); } vf::distinct(d+f.name); }
static void standin(const std::string& path,const std::string& body){ std::ofstream o(path); o<<"#!/bin/sh\nout=; prev=; for a in \"$@\"; do [ \"$prev\" = -o ] && out=$a; prev=$a; done\n"<<body<<"\n"; o.close(); chmod(path.c_str(),0755); }
static size_t nfd(){ size_t n=0; if(auto d=opendir("/proc/self/fd")){ while(readdir(d)) ++n; closedir(d); } return n; }
// ---- many functions with the same name, alive at the same time, copied, replaced and recompiled
static void sameNames(){ auto& r=vf::rng(); std::vector<Fn> all; std::vector<std::pair<RE,std::array<double,3>>> copies; std::string hist; auto before=tmpFiles();
  for(int c=0;c<vf::scale(14,90);++c){ std::string name=r.pick(std::vector<std::string>{"f","f","g","D0{K-,pi+}"}); bool file=r.coin(0.4), set=r.coin(0.35); std::string d=vf::fmt("step %d%s: ",c,hist.c_str()); vf::begin_case(d+name);
    if(set){ std::vector<Fn> fs; for(int k=r.range(1,4);k>0;--k) fs.push_back(mk(name+std::to_string(k),r.coin(0.3))); std::vector<CompiledExpressionBase*> p; for(auto& f: fs) p.push_back(f.base()); std::string fn=file? fresh("set")+".cpp": ""; auto t=attempt([&]{ CompilerWrapper().compile(p,fn); }); for(auto& f: fs){ EXPECT(f.ready()&&!t.threw,"compile.failed",d+f.name+": "+t.out.substr(0,500)); all.push_back(std::move(f)); } hist+=" set"; }
    else { Fn f=mk(name,r.coin(0.3)); std::string fn=file? fresh("one"): ""; EXPECT(!f.ready(),"early.ready",d); auto t=attempt([&]{ if(r.coin()) f.base()->compile(fn); else CompilerWrapper().compile(*f.base(),fn); }); EXPECT(f.ready()&&!t.threw,"compile.failed",d+f.name+": "+t.out.substr(0,500)); if(f.r&&r.coin()){ copies.push_back({*f.r,{f.a,f.b,f.c}}); } all.push_back(std::move(f)); hist+=" one"; }
    if(!all.empty()&&r.coin(0.3)){ all.erase(all.begin()+r.next()%all.size()); hist+=" drop"; }
    for(auto& f: all) judge(f,"mixed",d+"after"+hist); for(auto& q: copies){ double x[2]={r.uni(-2,2),r.uni(-2,2)}; double w=q.second[0]*x[0]+q.second[1]*x[1]+q.second[2]; vf::eval(); EXPECT(same(q.first(x),w),"mixed.copy",d+"copy of a function gives "+vf::str(q.first(x))+" not "+vf::str(w)); } if(hist.size()>60) hist=" ..."; }
  for(auto& f: tmpFiles()) if(!before.count(f)) vf::count("tmp"); vf::require("judged",40); }
// ---- names of every kind
static void names(int part){ auto& r=vf::rng(); std::vector<std::string> list={"f","9lives","D0{K*(892)bar0{K-,pi+},pi0}","a b","a-b","a+b","a*b","int","class","double","main","sin","exp","getpagesize","toascii","ffs","index","select","read","basename","_name","__py","","-"," ","0","x0","r","s","i","N","rt","v1","_batch","f_batch","std","complex","f'","$\\alpha$","f\"g","f\\","K\xc3\xb8","a\nb","a;b","f/**/g","//","#define","%s%n","register","operator","AmpGen","log","memcpy"}; list.push_back(std::string(400,'q')); for(size_t c=part;c<list.size();c+=6){ std::string n=list[c]; std::string d="name <"+n.substr(0,30)+">"; vf::begin_case(d); Try t; Fn f; auto t0=attempt([&]{ f=mk(n,r.coin(0.3)); }); if(t0.threw){ vf::count("rejected"); continue; } t=attempt([&]{ CompilerWrapper().compile(*f.base(),fresh("nm")); }); outcome(f,t,"name",d); }
  // names that become the same symbol
  std::vector<std::pair<std::string,std::string>> twins={{"a-","am"},{"a(1)","a[1]"},{"x+y","xpy"},{"K*","Ks"},{"1f","f1f"},{"b_","b."}}; for(size_t c=part;c<twins.size();c+=6){ auto tw=twins[c]; std::string d="names "+tw.first+" and "+tw.second; vf::begin_case(d); { Fn a=mk(tw.first),b=mk(tw.second); std::vector<CompiledExpressionBase*> p={a.base(),b.base()}; auto t=attempt([&]{ CompilerWrapper().compile(p,fresh("tw")+".cpp"); }); outcome(a,t,"twins",d); outcome(b,t,"twins",d); } { Fn a=mk(tw.first),b=mk(tw.second); std::string fn=fresh("tv"); auto t=attempt([&]{ a.base()->compile(fn); }); auto u=attempt([&]{ b.base()->compile(fn); }); outcome(a,t,"twins",d+" in the same place"); outcome(b,u,"twins",d+" in the same place"); EXPECT(a.ready()&&b.ready(),"twins.failed",d+" in separate libraries"); } }
  vf::require("ready",2); }
// ---- the cache of libraries under a given name
static void cache(){ auto& r=vf::rng(); std::string bad=fresh("cxx"); standin(bad,"exit 1"); for(int c=0;c<vf::scale(4,20);++c){ std::string fn=fresh("cache"); std::vector<std::string> ns={"f","g","D0{K-,pi+}"}; r.shuffle(ns); std::string d="cache "+vf::vstr(ns); vf::begin_case(d); auto keep=serial.load();
    auto make=[&]{ serial=keep; std::vector<Fn> fs; for(auto& n: ns) fs.push_back(mk(n)); return fs; };
    // a first process fills the cache; a second one, without a compiler, finds in it exactly its own functions
    int st=vf::in_child([&]{ auto fs=make(); for(auto& f: fs) f.base()->compile(fn); for(auto& f: fs){ double x[2]={1,2}; if(!f.ready()||!same(f.call(x),f.want(x))) _exit(7); } },nullptr,120); EXPECT(st==0,"cache.fill",d+vf::fmt(" status %d",st)); if(st) continue;
    useCxx(bad); auto fs=make(); r.shuffle(fs); for(auto& f: fs){ auto t=attempt([&]{ f.base()->compile(fn); }); EXPECT(f.ready(),"cache.reuse",d+": "+f.name+" of the library in place is not used: "+t.out.substr(0,300)); outcome(f,t,"cache",d); } useCxx(realCxx);
    // other functions under the same stem get libraries of their own
    Fn other=mk("other"); auto t=attempt([&]{ other.base()->compile(fn); }); EXPECT(other.ready(),"cache.other",d+t.out.substr(0,300)); outcome(other,t,"cache",d); for(auto& f: fs) judge(f,"cache.value",d);
    // a changed expression of the same name, when rebuilding is asked for, in a new process
    auto now=serial.load(); std::string o, fb=fresh("rebuild"); st=vf::in_child([&]{ Fn f=mk(ns[0]); f.base()->compile(fb); _exit(f.ready()? 0: 7); },nullptr,120); EXPECT(st==0,"cache.fill",d); st=vf::in_child([&]{ serial=now+5; opt("CompilerWrapper::ForceRebuild 1"); Fn f=mk(ns[0]); f.base()->compile(fb); double x[2]={1,2}; printf("GOT %.17g WANT %.17g\n",f.ready()? f.call(x).real(): -1,f.want(x).real()); _exit(f.ready()&&same(f.call(x),f.want(x))? 0: (fflush(stdout),7)); },&o,120); vf::eval(); EXPECT(st==0,"cache.rebuild",d+": "+o.substr(0,400));
    st=vf::in_child([&]{ serial=now+5; opt("CompilerWrapper::ForceRebuild 0"); Fn f=mk(ns[0]); f.base()->compile(fb); double x[2]={1,2}; _exit(f.ready()&&same(f.call(x),f.want(x))? 0: 7); },&o,120); EXPECT(st==0,"cache.rebuilt",d+": the rebuilt library is not the one found afterwards"); vf::count("caches"); }
  vf::require("caches",2); }
// ---- compilers and loaders that fail
static void faults(int part){ auto& r=vf::rng(); std::string dir=fresh("bad"); mkdir(dir.c_str(),0700); struct Bad { const char* name; std::string path; }; std::vector<Bad> bad; auto add=[&](const char* n,const std::string& body){ std::string p=dir+"/"+n; standin(p,body); bad.push_back({n,p}); };
  add("fails","echo broken >&2; exit 1"); add("killed","kill -9 $$"); add("garbage","echo nonsense > $out; exit 0"); add("empty",": > $out; exit 0"); add("nothing","exit 0"); add("partial","echo nonsense > $out; exit 3"); add("segv","kill -11 $$"); add("other","echo 'extern \"C\" double unrelated(){ return 1; }' > "+dir+"/u.cpp; "+realCxx+" -shared -fPIC "+dir+"/u.cpp -o $out"); bad.push_back({"missing",dir+"/no/such/compiler"}); bad.push_back({"relative","g++-does-not-exist"}); { std::string p=dir+"/noexec"; std::ofstream(p)<<"#!/bin/sh\nexit 0\n"; chmod(p.c_str(),0600); bad.push_back({"noexec",p}); } { std::string p=dir+"/text"; std::ofstream(p)<<"not a program"; chmod(p.c_str(),0755); bad.push_back({"text",p}); } bad.push_back({"directory",dir}); bad.push_back({"null","/dev/null"});
  std::vector<std::string> ns={"f","cos","getpagesize","D0{K-,pi+}","malloc","environ"}; 
  for(size_t b=part;b<bad.size();b+=4) for(int how=0;how<5;++how){ std::string n=r.pick(ns); std::string d=std::string(bad[b].name)+" compiler, "+std::vector<std::string>{"temporary file","given file","given file with an old library","set in a temporary file","set in a file with an old library"}[how]+", name "+n; vf::begin_case(d); std::string fn= how==0||how==3? "": fresh("flt")+(how==4? ".cpp": ""); int keep=serial;
      if(how==2||how==4){ int st=vf::in_child([&]{ Fn f=mk(how==4? "f": "f"); if(how==2) f.base()->compile(fn); else { std::vector<CompiledExpressionBase*> p={f.base()}; CompilerWrapper().compile(p,fn); } _exit(f.ready()? 0: 7); },nullptr,120); n="f"; if(!EXPECT(st==0,"fault.setup",d)) continue; } serial=keep+3; if((how==2||how==4)&&std::string(bad[b].name)=="nothing") continue; // a compiler that claims success is believed
      useCxx(bad[b].path); if(how==2) opt("CompilerWrapper::ForceRebuild 1"); std::vector<Fn> fs; fs.push_back(mk(n,how%2)); if(how>=3){ fs.push_back(mk("second")); } std::vector<CompiledExpressionBase*> p; for(auto& f: fs) p.push_back(f.base()); size_t fd0=nfd();
      auto t=attempt([&]{ if(how>=3) CompilerWrapper().compile(p,fn); else if(r.coin()) fs[0].base()->compile(fn); else CompilerWrapper().compile(*fs[0].base(),fn); }); opt("CompilerWrapper::ForceRebuild 0"); vf::eval();
      for(auto& f: fs){ EXPECT(!f.ready(),"fault.ready",d+": "+f.name+" is ready without having been compiled"+(f.ready()? "; it returns "+[&]{ double x[2]={1,2}; return n=="f"? vf::str(f.call(x))+", its expression "+vf::str(f.want(x)): std::string("?"); }(): std::string())); EXPECT(reported(t),"fault.silent",d+": nothing was reported"); } vf::distinct(d); vf::count("faults"); EXPECT(nfd()<=fd0,"fault.descriptors",d+": a file descriptor is left open"); int st; pid_t z=waitpid(-1,&st,WNOHANG); EXPECT(z==-1,"fault.children",d+": a child is left behind");
      // the compiler is repaired: the same functions compile, elsewhere and, unless a library is cached there, in place
      useCxx(realCxx); if(how==1||how==4){ auto u=attempt([&]{ if(how==4) CompilerWrapper().compile(p,fresh("again")+".cpp"); else CompilerWrapper().compile(*fs[0].base(),fresh("again")); }); for(auto& f: fs) if(n!="environ"&&n!="cos"&&n!="malloc"){ EXPECT(f.ready(),"fault.recovery",d+": "+u.out.substr(0,400)); outcome(f,u,"fault.recovery",d); } } }
  vf::require("faults",10); }
// a function that was ready does not stay behind when compiling it again fails; old handles of others are untouched
static void recompile(){ auto& r=vf::rng(); std::string bad=fresh("cxx"); standin(bad,"exit 1"); for(int c=0;c<vf::scale(3,20);++c){ std::string d=vf::fmt("recompilation %d",c); vf::begin_case(d); Fn f=mk("f"),g=mk("f"); attempt([&]{ f.base()->compile(""); g.base()->compile(fresh("re")); }); EXPECT(f.ready()&&g.ready(),"recompile.setup",d); Fn h=mk("f"); RE copy(*f.r); useCxx(bad); auto t=attempt([&]{ h.base()->compile(""); }); EXPECT(!h.ready()&&reported(t),"recompile.ready",d); auto t2=attempt([&]{ f.base()->compile(fresh("re")); }); EXPECT(reported(t2),"recompile.silent",d); useCxx(realCxx); judge(g,"recompile.others",d); double x[2]={r.uni(-2,2),r.uni(-2,2)}; EXPECT(same(copy(x),f.want(x)),"recompile.copy",d); if(f.ready()) judge(f,"recompile.value",d); auto t3=attempt([&]{ f.base()->compile(fresh("re")); h.base()->compile(fresh("re")); }); EXPECT(f.ready()&&h.ready(),"recompile.recovery",d+t3.out.substr(0,300)); judge(f,"recompile.value",d); judge(h,"recompile.value",d); vf::distinct(d); } vf::require("judged",6); }
// ---- signals while the compiler runs
static void signals(){ auto& r=vf::rng(); struct sigaction sa{}; static volatile sig_atomic_t hits; sa.sa_handler=[](int){ hits=hits+1; }; sigaction(SIGALRM,&sa,nullptr); for(int c=0;c<vf::scale(4,24);++c){ std::string d=vf::fmt("signals, round %d",c); vf::begin_case(d); int us=r.range(5,60)*1000; itimerval on{{0,us},{0,us}}, off{{0,0},{0,0}}; Fn f=mk("f"),g=mk("g"); std::vector<CompiledExpressionBase*> p={g.base()}; int h0=hits; setitimer(ITIMER_REAL,&on,nullptr); auto t=attempt([&]{ if(c%2) f.base()->compile(fresh("sig")); else CompilerWrapper().compile(p,fresh("sig")+".cpp"); }); setitimer(ITIMER_REAL,&off,nullptr); Fn& q=c%2? f: g; vf::count("signals",hits-h0); EXPECT(q.ready(),"signal.failed",d+": "+t.out.substr(0,400)); outcome(q,t,"signal",d); int st; EXPECT(waitpid(-1,&st,WNOHANG)==-1,"signal.children",d+": the compiler is still running when compile returns"); }
  vf::require("signals",10); vf::require("ready",3); }
// ---- a slow compiler; output of the parent is written once; descriptors
static void effects(){ std::string slow=fresh("cxx"); standin(slow,"sleep 2; exec "+realCxx+" \"$@\""); useCxx(slow); { Fn f=mk("f"); auto t=attempt([&]{ f.base()->compile(fresh("slow")); }); EXPECT(f.ready(),"slow.failed",t.out.substr(0,400)); outcome(f,t,"slow","slow compiler"); }
  std::string none=fresh("none"); for(int how=0;how<2;++how){ std::string o; std::string d=how? "failing compiler": "missing compiler"; std::string bad=fresh("cxx"); standin(bad,"exit 1"); int st=vf::in_child([&]{ useCxx(how? bad: none); printf("PENDING-OUTPUT "); Fn f=mk("f"); try{ f.base()->compile(fresh("out")); } catch(std::exception&){} fflush(stdout); std::cout.flush(); _exit(0); },&o,60); size_t n=0; for(size_t at=0;(at=o.find("PENDING-OUTPUT",at))!=std::string::npos;++at) ++n; vf::eval(); EXPECT(st==0&&n==1,"output.repeated",d+vf::fmt(": pending output of the caller is written %zu times (status %d)",n,st)); }
  // many compilations leave no descriptors or processes
  std::string quick=fresh("cxx"); standin(quick,"exit 1"); useCxx(quick); size_t n0=nfd(); for(int c=0;c<vf::scale(30,300);++c){ Fn f=mk("f"); attempt([&]{ if(c%2) f.base()->compile(""); else { std::vector<CompiledExpressionBase*> p={f.base()}; CompilerWrapper().compile(p,""); } }); } vf::eval(); EXPECT(nfd()<=n0,"descriptors.leaked",vf::fmt("%zu file descriptors open before, %zu after",n0,nfd())); int st; EXPECT(waitpid(-1,&st,WNOHANG)==-1,"children.left","children left behind"); useCxx(realCxx);
  n0=nfd(); for(int c=0;c<2;++c){ Fn f=mk("f"); auto t=attempt([&]{ f.base()->compile(""); }); outcome(f,t,"plain","after failures"); } EXPECT(nfd()<=n0+2,"descriptors.leaked",vf::fmt("%zu file descriptors open before, %zu after two compilations",n0,nfd())); vf::distinct("effects"); vf::distinct("slow"); vf::distinct("descriptors"); }
// ---- handles to functions of libraries
static void handles(){ auto& r=vf::rng(); std::vector<std::string> lib; int K=4; for(int k=0;k<K;++k){ std::string c=fresh("dyn")+".cpp",o=c+".so"; std::ofstream(c)<<"extern \"C\" double foo(double x){ return x+"<<10*k<<"; } extern \"C\" double bar"<<k<<"(double x){ return 2*x+"<<k<<"; } extern \"C\" double cos(double x){ return 100+x+"<<k<<"; }\n"; if(!EXPECT(system((realCxx+" -fno-builtin -shared -fPIC "+c+" -o "+o).c_str())==0,"handles.setup",c)) return; lib.push_back(o); }
  typedef DynamicFCN<double(double)> F; struct H { F f; std::function<double(double)> want; }; std::vector<H> hs(6); std::string hist; std::string missing=fresh("nolib")+".so", junk=fresh("junk")+".so"; std::ofstream(junk)<<"junk"; 
  for(int c=0;c<vf::scale(400,6000);++c){ int i=r.range(0,5); auto& h=hs[i]; int k=r.range(0,K-1); int what=r.range(0,8); std::string d; std::string sym=r.pick(std::vector<std::string>{"foo","cos","bar"+std::to_string(k)}); std::function<double(double)> w; if(sym=="foo") w=[k](double x){ return x+10*k; }; else if(sym=="cos") w=[k](double x){ return 100+x+k; }; else w=[k](double x){ return 2*x+k; };
    if(what==0){ d="open "+sym; h.f=F(lib[k],sym); h.want=w; } else if(what==1){ d="set "+sym; bool ok=h.f.set(lib[k],sym); EXPECT(ok,"handles.set",d); h.want=w; } else if(what==2){ int j=r.range(0,5); d=vf::fmt("copy %d to %d",j,i); if(i!=j) hs[i]=hs[j]; } else if(what==3){ d="reset"; h=H(); }
    else if(what==4){ bool viaSet=r.coin(); std::string l=r.coin()? missing: junk; std::string s=r.pick(std::vector<std::string>{"foo","cos","malloc","nosuch"}); d=std::string(viaSet? "set ":"open ")+s+" of "+(l==junk? "junk": "a missing library"); bool ok=true; std::string out=vf::capture([&]{ if(viaSet) ok=h.f.set(l,s); else { h.f=F(l,s); ok=h.f.isLinked(); } }); h.want=nullptr; EXPECT(!ok&&!h.f.isLinked(),"handles.missing",d+" is linked"); EXPECT(!out.empty(),"handles.silent",d); }
    else if(what==5){ d="open a missing symbol"; std::string out=vf::capture([&]{ if(r.coin()) h.f=F(lib[k],"nosuch"); else h.f.set(lib[k],"nosuch"); }); h.want=nullptr; EXPECT(!h.f.isLinked(),"handles.symbol",d); EXPECT(!out.empty(),"handles.silent",d); }
    else if(what==6){ d="own handle"; h.f=F(dlopen(lib[k].c_str(),RTLD_NOW),sym); h.want=w; } else if(what==7){ std::vector<H> moved(hs); hs.swap(moved); d="copy all"; } else { F tmp(lib[k],sym); h.f=tmp; h.want=w; d="copy of a temporary"; }
    hist=(hist.size()>200? hist.substr(100): hist)+"; "+vf::fmt("%d ",i)+d; vf::begin_case(hist); if(c<40) vf::distinct(hist); for(auto& q: hs){ vf::eval(); if(!EXPECT(q.f.isLinked()==(q.want!=nullptr),"handles.linked",hist)) return; if(q.want){ double x=r.uni(-5,5); EXPECT(q.f(x)==q.want(x),"handles.value",hist+vf::fmt(": %g not %g",q.f(x),q.want(x))); vf::count("calls"); } } }
  vf::require("calls",500); }
// ---- concurrently: functions of the same and of different names, temporary and given files, while options are read
static void threads(int part){ auto& r=vf::rng(); (void)r; for(int round=0;round<vf::scale(1,6);++round){ int T=vf::scale(6,8), per=vf::scale(2,4); std::string bad=fresh("cxx"); standin(bad,"exit 1"); std::vector<std::vector<Fn>> fs(T); std::vector<std::string> err(T); std::vector<std::vector<std::string>> fn(T); std::string shared=fresh("shared"); for(int t=0;t<T;++t) for(int k=0;k<per;++k) fn[t].push_back(part%2? (k%2? "": fresh("thr")): (k%2? fresh("thr"): "")); vf::begin_case(vf::fmt("%d threads, round %d",T,round)); std::atomic<int> waiting{0}; vf::capture([&]{ std::vector<std::thread> th; for(int t=0;t<T;++t) th.emplace_back([&,t]{ ++waiting; while(waiting<T) std::this_thread::yield(); try{ for(int k=0;k<per;++k){ Fn f=mk(part<2? "f": "f"+std::to_string(t),t%3==0); for(int q=0;q<20;++q) (void)(double)NamedParameter<double>("Threads::Option"+std::to_string(q),q); if((t+k)%3==0){ std::vector<CompiledExpressionBase*> p={f.base()}; CompilerWrapper().compile(p,fn[t][k]==""? "": fn[t][k]+".cpp"); } else if(part>=2&&fn[t][k]!=""){ CompilerWrapper().compile(*f.base(),shared+std::to_string(k)); } else f.base()->compile(fn[t][k]); fs[t].push_back(std::move(f)); } } catch(std::exception& e){ err[t]=e.what(); } }); for(auto& t: th) t.join(); });
    for(int t=0;t<T;++t){ EXPECT(err[t]=="","threads.failed",vf::fmt("thread %d: ",t)+err[t]); for(auto& f: fs[t]){ EXPECT(f.ready(),"threads.failed",f.name); judge(f,"threads.value",vf::fmt("thread %d of %d",t,T)); vf::distinct(vf::fmt("%d %d %g",part,t,f.a)); } } vf::count("threads",T); }
  vf::require("judged",8); }
#ifdef VF_SUMS
// ---- amplitudes of a model built and compiled by a pool of threads are the ones built one after another
static void sums(int which){ auto& r=vf::rng(); std::vector<std::vector<std::string>> models={{"D0","K0S0","pi+","pi-"},{"D0","K-","pi+","pi0"}}; std::vector<std::vector<std::string>> rules={{"D0{rho(770)0{pi+,pi-},K0S0}","D0{K*(892)+{K0S0,pi+},pi-}","D0{f(2)(1270)0{pi+,pi-},K0S0}","D0{omega(782)0{pi+,pi-},K0S0}","D0{rho(1450)0{pi+,pi-},K0S0}","D0{f(0)(980)0[Flatte]{pi+,pi-},K0S0}"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)-{K-,pi0},pi+}","D0{rho(1450)+{pi+,pi0},K-}","D0{K(2)*(1430)bar0{K-,pi+},pi0}","D0{K(0)*(1430)bar0{K-,pi+},pi0}"}}; 
  for(int round=0;round<vf::scale(1,4);++round){ auto R=rules[which]; if(R[2]=="D0{K*(892)-{K-,pi0},pi+}") R[2]="D0{K*(892)bar-{K-,pi0},pi+}"; r.shuffle(R); MinuitParameterSet mps; for(auto& s: R){ mps.add(s+"_Re",Flag::Fix,r.uni(-2,2),0.); mps.add(s+"_Im",Flag::Fix,r.uni(-2,2),0.); } EventType t(models[which]); std::string d=vf::vstr(R); vf::begin_case(d); std::unique_ptr<CoherentSum> a,b; std::string err; vf::capture([&]{ try{ opt("nCores "+std::to_string(r.pick(std::vector<int>{4,8,16}))); a.reset(new CoherentSum(t,mps)); opt("nCores 1"); b.reset(new CoherentSum(t,mps)); a->prepare(); b->prepare(); } catch(std::exception& e){ err=e.what(); } }); if(!EXPECT(err==""&&a->size()==b->size()&&a->size()==R.size(),"sums.built",d+err)) continue; TRandom3 rnd(7); PhaseSpace ps(t,&rnd); for(size_t i=0;i<a->size();++i) EXPECT((*a)[i].isReady()&&(*b)[i].isReady()&&(*a)[i].decayDescriptor()==(*b)[i].decayDescriptor(),"sums.order",d); for(int e=0;e<30;++e){ Event ev=ps.makeEvent(); vf::eval(); complex_t x=a->getValNoCache(ev), y=b->getValNoCache(ev); EXPECT(same(x,y)&&std::isfinite(std::abs(x)),"sums.value",d+" "+vf::str(x)+" "+vf::str(y)); vf::count("amplitudes"); } vf::distinct(d); }
  vf::require("amplitudes",20); }
#endif
void harness(){ tzset(); realCxx=getenv("AMPGEN_CXX")? getenv("AMPGEN_CXX"): "/usr/bin/g++"; useCxx(realCxx);
#ifdef VF_SUMS
  for(int i=0;i<2;++i) vf::section(vf::fmt("sums%d",i),[i]{ sums(i); },500);
  for(int i=0;i<3;++i) vf::section(vf::fmt("threads%d",i),[i]{ threads(i); },500);
#else
  vf::section("names-alike",sameNames,500); for(int i=0;i<6;++i) vf::section(vf::fmt("names%d",i),[i]{ names(i); },400); vf::section("cache",cache,500); for(int i=0;i<4;++i) vf::section(vf::fmt("faults%d",i),[i]{ faults(i); },500);
  vf::section("recompile",recompile,400); vf::section("signals",signals,400); vf::section("effects",effects,400); vf::section("handles",handles,300); for(int i=0;i<3;++i) vf::section(vf::fmt("threads%d",i),[i]{ threads(i); },500);
#endif
}
