// C23: the thread pool runs every task exactly once and hands back its result
#include "vf.h"
#include "AmpGen/ThreadPool.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/OptionsParser.h"
#include <atomic>
#include <chrono>
#include <future>
#include <numeric>
#include <thread>
#include <unistd.h>
using namespace AmpGen;
typedef std::chrono::milliseconds ms;
// reference counts inside the C++ runtime are not seen by ThreadSanitizer
extern "C" const char* __tsan_default_suppressions(){ return "race:std::__exception_ptr::exception_ptr::_M_release\n"; }
// recorded history of one pool: every submission and every execution of every task, in the order they were observed
struct Log { std::mutex m; struct E { char what; int id; std::thread::id t; }; std::vector<E> e; std::atomic<int> running{0},peak{0}; void add(char w,int id){ std::lock_guard<std::mutex> l(m); e.push_back({w,id,std::this_thread::get_id()}); } };
static void dawdle(unsigned k){ switch(k%7){ case 0: break; case 1: std::this_thread::yield(); break; case 2: for(volatile int i=0;i<int(k%2000);++i); break; case 3: std::this_thread::sleep_for(std::chrono::microseconds(k%300)); break; default: if(k%5==0) std::this_thread::yield(); } }
struct Mix { uint64_t s; unsigned operator()(){ s^=s<<13; s^=s>>7; s^=s<<17; return unsigned(s>>20); } };
struct Boom { int id; };
struct Job { int id; std::future<int> fi; std::future<void> fv; std::future<std::string> fs; int kind; };
// submit n tasks from the calling thread
static void submit(ThreadPool& p,Log& log,std::vector<std::atomic<int>>& ran,std::vector<int>& plain,std::vector<Job>& out,int from,int to,uint64_t seed){ Mix mx{seed|1}; for(int id=from;id<to;++id){ unsigned k=mx(); Job j; j.id=id; j.kind=k%4; log.add('s',id); auto body=[&log,&ran,&plain,id,k]{ log.add('b',id); int now=++log.running; int pk=log.peak; while(now>pk&&!log.peak.compare_exchange_weak(pk,now)); dawdle(k); ++ran[id]; plain[id]=id*3+1; --log.running; log.add('e',id); };
    switch(j.kind){ case 0: j.fi=p.enqueue([body,id]{ body(); return id*7; }); break; case 1: j.fv=p.enqueue([body]{ body(); }); break; case 2: j.fs=p.enqueue([body,id]{ body(); return "t"+std::to_string(id); }); break; default: j.fi=p.enqueue([body,id]()->int{ body(); throw Boom{id}; }); } out.push_back(std::move(j)); if(k%11==0) dawdle(mx()); } }
static bool readyIn(Job& j,int t){ auto d=ms(t); return j.fi.valid()? j.fi.wait_for(d)==std::future_status::ready: j.fv.valid()? j.fv.wait_for(d)==std::future_status::ready: j.fs.wait_for(d)==std::future_status::ready; }
static void judge(std::vector<Job>& js,std::vector<std::atomic<int>>& ran,std::vector<int>& plain,const std::string& d,bool done){ for(auto& j: js){ bool rd=readyIn(j,done? 0: 30000); EXPECT(rd,done? "pool.waits":"pool.runs",d+vf::fmt(": task %d",j.id)+(done? " not finished when the pool was":" never ran")); if(!rd) return; try { if(j.kind==0) EXPECT(j.fi.get()==j.id*7,"pool.result",d); else if(j.kind==1) j.fv.get(); else if(j.kind==2) EXPECT(j.fs.get()=="t"+std::to_string(j.id),"pool.result",d); else { j.fi.get(); EXPECT(false,"pool.exception",d+vf::fmt(": exception of task %d lost",j.id)); } } catch(const Boom& b){ EXPECT(j.kind==3&&b.id==j.id,"pool.exception",d); } catch(const std::exception& e){ EXPECT(false,"pool.handle",d+vf::fmt(": handle of task %d: ",j.id)+e.what()); } EXPECT(ran[j.id]==1,"pool.once",d+vf::fmt(": task %d ran %d times",j.id,int(ran[j.id]))); EXPECT(plain[j.id]==j.id*3+1,"pool.visible",d+vf::fmt(": effects of task %d not visible",j.id)); vf::count("tasks"); } }
static void history(Log& log,int n,int workers,const std::string& d){ std::vector<int> st(n); for(auto& e: log.e){ if(e.what=='s'){ EXPECT(st[e.id]==0,"log.submit",d); st[e.id]=1; } else if(e.what=='b'){ EXPECT(st[e.id]==1,"log.begin",d+vf::fmt(": task %d begins in state %d",e.id,st[e.id])); st[e.id]=2; } else { EXPECT(st[e.id]==2,"log.end",d); st[e.id]=3; } } for(int i=0;i<n;++i) EXPECT(st[i]==3,"log.complete",d+vf::fmt(": task %d in state %d",i,st[i])); if(workers>0) EXPECT(log.peak<=workers,"log.workers",d+vf::fmt(": %d at once",int(log.peak))); vf::count("log events",log.e.size()); std::string order; for(auto& e: log.e) if(e.what=='b') order+=vf::fmt("%d,",e.id); vf::distinct(order); }
static void stress(int rounds,int tag){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int W=r.pick({1,2,3,4,8,16}),S=r.pick({1,1,2,4,6}),T=r.pick({1,5,30,120}); int end=r.range(0,2); // 0: wait for handles first, 1: destroy at once, 2: explicit wait
    std::string d=vf::fmt("%d workers, %d submitters, %d tasks each, ending %d",W,S,T,end); vf::begin_case(d); vf::eval(); std::vector<std::atomic<int>> ran(S*T); for(auto& x: ran) x=0; std::vector<int> plain(S*T); Log log; std::vector<std::vector<Job>> js(S); std::vector<uint64_t> seeds; for(int i=0;i<S;++i) seeds.push_back(r.next()); { ThreadPool pool(W); std::vector<std::thread> ts; for(int s=0;s<S;++s) ts.emplace_back([&,s]{ submit(pool,log,ran,plain,js[s],s*T,(s+1)*T,seeds[s]); }); for(auto& t: ts) t.join(); if(end==0) for(auto& j: js) judge(j,ran,plain,d,false); } if(end) for(auto& j: js) judge(j,ran,plain,d,true); history(log,S*T,W,d); if(rd<2) vf::sample(d+vf::fmt(", %d ran at once",int(log.peak))); } vf::require("tasks",50); (void)tag; }
// idle workers pick up single tasks; all workers work; an exception does not cost a worker
static void idle(int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int W=r.pick({1,2,4,8}); ThreadPool pool(W); std::string d=vf::fmt("%d workers",W); vf::begin_case(d); std::vector<std::future<int>> bad; for(int i=0;i<3*W;++i) bad.push_back(pool.enqueue([i]()->int{ throw Boom{i}; })); int lost=0; for(auto& f: bad){ try { f.get(); } catch(const Boom&){ ++lost; } } EXPECT(lost==3*W,"idle.exceptions",d); for(int k=0;k<30;++k){ if(k%3==0) std::this_thread::sleep_for(ms(1)); auto f=pool.enqueue([k]{ return k; }); bool rdy=f.wait_for(ms(20000))==std::future_status::ready; vf::eval(); vf::distinct(vf::fmt("idle %d %d %d",rd,W,k)); if(!EXPECT(rdy,"idle.wakes",d+vf::fmt(": task %d never ran",k))) _exit(3); EXPECT(f.get()==k,"idle.result",d); }
    // W tasks that only finish together
    std::atomic<int> here{0}; std::vector<std::future<bool>> fs; for(int i=0;i<W;++i) fs.push_back(pool.enqueue([&]{ ++here; for(int t=0;t<20000&&here<W;++t) std::this_thread::sleep_for(ms(1)); return here>=W; })); bool all=true; for(auto& f: fs) all=f.get()&&all; EXPECT(all,"idle.parallel",d+": the workers do not run side by side"); vf::count("idle"); } vf::require("idle",2); }
// tasks that submit tasks
static void nested(int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int W=r.pick({1,2,4}),n=r.range(1,20),k=r.range(1,6); std::atomic<int> outer{0},inner{0}; std::string d=vf::fmt("%d workers, %d tasks submitting %d",W,n,k); vf::begin_case(d); vf::eval(); vf::distinct(d+std::to_string(rd)); { ThreadPool pool(W); std::mutex m; std::vector<std::future<int>> in; std::vector<std::future<void>> fs; for(int i=0;i<n;++i) fs.push_back(pool.enqueue([&,i]{ ++outer; for(int j=0;j<k;++j){ auto f=pool.enqueue([&,i,j]{ ++inner; return i*100+j; }); std::lock_guard<std::mutex> l(m); in.push_back(std::move(f)); } })); for(auto& f: fs) f.get(); std::vector<int> got; for(auto& f: in) got.push_back(f.get()); std::sort(got.begin(),got.end()); std::vector<int> want; for(int i=0;i<n;++i) for(int j=0;j<k;++j) want.push_back(i*100+j); EXPECT(got==want,"nested.results",d); } EXPECT(outer==n&&inner==n*k,"nested.once",d+vf::fmt(": %d and %d ran",int(outer),int(inner))); vf::count("nested"); } }
// arguments, references, move-only results, function pointers
static int twice(int x){ return 2*x; }
struct Member { int v; int get(int x){ return v+x; } };
static void callables(){ ThreadPool pool(3); vf::eval(); std::function<int()> f=[]{ return 5; }; EXPECT(pool.enqueue(f).get()==5,"call.function",""); auto up=pool.enqueue([]{ return std::unique_ptr<int>(new int(9)); }); EXPECT(*up.get()==9,"call.moveonly",""); int cell=0; std::future<int&> fr=pool.enqueue([&cell]()->int&{ cell=4; return cell; }); EXPECT(&fr.get()==&cell&&cell==4,"call.reference",""); std::vector<int> big(1000); std::iota(big.begin(),big.end(),0); auto fb=pool.enqueue([big]{ return std::accumulate(big.begin(),big.end(),0); }); big.assign(1000,0); EXPECT(fb.get()==499500,"call.copied",""); int st=0; auto mut=[st]() mutable { return ++st; }; auto f1=pool.enqueue(mut),f2=pool.enqueue(mut); int a=f1.get(),b=f2.get(); EXPECT(a==1&&b==1&&st==0,"call.mutable",vf::fmt("%d %d",a,b)); vf::distinct("callables"); vf::count("callables",5);
  EXPECT(pool.enqueue(twice,21).get()==42,"call.arguments",""); Member m{3}; EXPECT(pool.enqueue(&Member::get,&m,4).get()==7,"call.member",""); std::string s="abc"; auto fs=pool.enqueue([](const std::string& x,int n){ return x+std::to_string(n); },s,7); s="zzz"; EXPECT(fs.get()=="abc7","call.bound","");
  (void)twice; vf::sample("callables"); }
// tasks held back by the only worker are finished by destruction and by an explicit wait, in either order, and afterwards nothing is lost silently
static void endings(int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int W=r.pick({1,2,5}),n=r.range(1,40),mode=rd%5; uint64_t sd=r.next(); std::string out; std::string d=vf::fmt("ending %d, %d workers, %d tasks",mode,W,n); vf::begin_case(d); vf::eval(); vf::distinct(d); int rc=vf::in_child([&]{ std::atomic<int> ran{0}; int after=-1; Mix mx{sd|1}; auto t=[&]{ dawdle(mx.s%50); std::this_thread::sleep_for(std::chrono::microseconds(200)); ++ran; return 1; }; int seen=-1; std::vector<std::future<int>> fs; { auto pool=std::make_unique<ThreadPool>(W); for(int i=0;i<n;++i) fs.push_back(pool->enqueue(t)); if(mode>=1){ pool->waitForStoppedThreads(); seen=ran; } if(mode==2){ pool->waitForStoppedThreads(); } if(mode>=3){ try { auto f=pool->enqueue(t); pool.reset(); after=f.wait_for(ms(0))==std::future_status::ready? f.get(): 0; } catch(const std::runtime_error&){ after=2; } } pool.reset(); } int ok=0; for(auto& f: fs){ try { if(f.wait_for(ms(0))==std::future_status::ready) ok+=f.get(); } catch(...){} } std::cout<<vf::fmt("RESULT seen=%d ran=%d ok=%d after=%d\n",seen,int(ran),ok,after)<<std::flush; },&out,60); int seen=-2,ran=-2,ok=-2,after=-2; size_t p=out.find("RESULT"); if(p!=std::string::npos) sscanf(out.c_str()+p,"RESULT seen=%d ran=%d ok=%d after=%d",&seen,&ran,&ok,&after); int extra=mode>=3&&after==1; EXPECT(rc==0&&p!=std::string::npos,"end.completes",d+vf::fmt(": status %d ",rc)+out.substr(0,300)); if(p!=std::string::npos){ EXPECT(ran==n+extra&&ok==n,"end.all",d+": "+out.substr(p,80)); if(mode>=1) EXPECT(seen==n,"end.wait",d+": "+out.substr(p,80)); if(mode>=3) EXPECT(after==1||after==2,"end.after",d+": a task given to a stopped pool is neither run nor refused"); } vf::count("endings"); } }
// degenerate configurations: the pool switched off, no workers
static void inlineRun(){ for(int mode=0;mode<2;++mode){ std::string out; int rc=vf::in_child([&]{ if(mode==0) OptionsParser::setArg("ThreadPool::Enable false"); int n=0; std::string res; { ThreadPool p(mode==0? 2: 0); auto f=p.enqueue([&]{ ++n; return 11; }); auto g=p.enqueue([&]()->int{ ++n; throw Boom{1}; }); auto v=p.enqueue([&]{ ++n; }); if(f.wait_for(ms(3000))==std::future_status::ready) try { res+=std::to_string(f.get()); } catch(...){ res+="?"; } if(g.wait_for(ms(3000))==std::future_status::ready) try { g.get(); } catch(const Boom&){ res+="boom"; } catch(...){ res+="?"; } if(v.wait_for(ms(3000))==std::future_status::ready) try { v.get(); res+="v"; } catch(...){ res+="?"; } } std::cout<<"RESULT "<<n<<" "<<res<<std::endl; },&out,60); vf::eval(); vf::distinct(vf::fmt("mode %d",mode)); EXPECT(rc==0&&out.find("RESULT 3 11boomv")!=std::string::npos,mode==0? "inline.disabled":"inline.noworkers",vf::fmt("status %d: ",rc)+out.substr(0,300)); vf::count("inline"); } }
// many pools at once, created and destroyed by different threads
static void pools(int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int P=r.pick({2,4,6}); std::atomic<int> sum{0}; std::vector<std::thread> ts; std::vector<uint64_t> sd; for(int i=0;i<P;++i) sd.push_back(r.next()); for(int i=0;i<P;++i) ts.emplace_back([&,i]{ Mix mx{sd[i]|1}; for(int k=0;k<4;++k){ ThreadPool p(1+mx()%3); for(int j=0;j<10;++j) p.enqueue([&]{ ++sum; }); } }); for(auto& t: ts) t.join(); vf::eval(); vf::distinct(vf::fmt("%d %d",rd,P)); EXPECT(sum==P*40,"pools.once",vf::fmt("%d of %d ran",int(sum),P*40)); vf::count("pools",P*4); } }
// parallel algorithms give what the sequential ones give
static void algorithms(int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ int n=r.pick({0,1,2,3,10,100,1000,5000}); size_t grain=r.pick({1,2,7,64,500}); if(n>=1000&&grain<64) grain=64; if(n>=100&&grain<7) grain=7; std::vector<std::pair<int,int>> v; for(int i=0;i<n;++i) v.push_back({r.range(0,n/2+1),i}); auto w=v,u=v; std::string d=vf::fmt("%d elements, grain %zu",n,grain); vf::begin_case(d); vf::eval(); vf::distinct(d+std::to_string(rd)); auto cmp=[](const std::pair<int,int>& a,const std::pair<int,int>& b){ return a.first>b.first; }; parallel_sort(v.begin(),v.end(),grain); std::sort(w.begin(),w.end()); EXPECT(v==w,"sort.less",d); auto q=u; parallel_sort(q.begin(),q.end(),cmp,grain); EXPECT(std::is_sorted(q.begin(),q.end(),cmp),"sort.compare",d); std::sort(q.begin(),q.end()); EXPECT(q==w,"sort.elements",d); 
#ifndef __SANITIZE_THREAD__
    long s=parallel_accumulate(u.begin(),u.end(),long(rd),[](const std::pair<int,int>& x){ return long(x.first)*x.second; }); long t=rd; for(auto& x: u) t+=long(x.first)*x.second; EXPECT(s==t,"accumulate",d+vf::fmt(": %ld instead of %ld",s,t));
#endif
    vf::count("sorts"); } }
void harness(){ int T=vf::scale(250,850); for(int k=0;k<3;++k) vf::section("stress"+std::to_string(k),[k]{ stress(vf::scale(80,1500),k); },T); vf::section("idle",[]{ idle(vf::scale(100,2000)); },T); vf::section("nested",[]{ nested(vf::scale(20,400)); },T); vf::section("callables",callables); vf::section("endings",[]{ endings(vf::scale(60,1000)); },T); vf::section("inline",inlineRun); vf::section("pools",[]{ pools(vf::scale(20,300)); },T); vf::section("algorithms",[]{ algorithms(vf::scale(150,2000)); },T); }
