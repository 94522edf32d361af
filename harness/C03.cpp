// C03: histories of parameter changes over several compiled functions sharing parameters
#include "jit.h"
#include "AmpGen/Spline.h"
#include "AmpGen/NamedParameter.h"
#include <unistd.h>
using namespace eg;
typedef CompiledExpression<complex_t(const double*,const double*)> CE;
static int fileno_=0; static std::string newfile(){ return vf::scratch()+"/f"+std::to_string(getpid())+"_"+std::to_string(fileno_++)+".cpp"; }
static X gen_sized(Gen& g,bool c,int d,size_t maxlen){ for(;;){ X x=g.gen(c,d); if(x.s.size()<maxlen && x.e.to_string().size()<6*maxlen) return x; } }
static bool ref(const X& x,const Env& e,Val& v){ try { v=x.f(e); } catch(Skip&){ vf::count("skipped"); return false; } return true; }
// names that the text of a formula mentions, as a mask over env (parameters and lambdas)
static bool mentions(const std::string& s,const std::string& n){ return s.find(n)!=std::string::npos; }
struct Fn { X x; CE* f; Env snap; bool flag; std::vector<double> event; bool fresh; };
static void histories(int rounds,int K,int steps){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    World w; std::vector<Fn> fn; std::vector<CompiledExpressionBase*> fs;
    for(int i=0;i<K;++i){ X x=gen_sized(w.g,true,r.range(1,3),500); for(int j=0;j<r.range(1,3);++j) x=w.g.bin(r.coin()?"+":"*",x,w.g.rl[r.range(0,w.g.rl.size()-1)]); // at least one named leaf
      if(Gen::nonfinite(x.e)){ --i; continue; }
      CE* f=new CE(x.e,"h"+std::to_string(it)+"_"+std::to_string(i),w.evt,&w.mps); fs.push_back(f); fn.push_back({x,f,w.env,false,w.newEvent(),true}); }
    CompilerWrapper().compile(fs,newfile()); std::string hist;
    for(auto& f: fn){ f.f->prepare(); f.f->resetExternals(); f.snap=w.env; f.flag=false; EXPECT(!f.f->hasExternalsChanged(),"flag.after.reset",f.x.s); }
    std::vector<double> init(w.env.begin(),w.env.begin()+NP);
    auto check=[&](Fn& f,const std::string& what){ Env e=f.snap; for(int i=0;i<NV;++i) e[NP+i]=f.event[i]; Val v; if(!ref(f.x,e,v)) return; complex_t got=(*f.f)(f.event.data()); if(judge(got,v,true,what,f.x.s+" at "+vf::vstr(e)+" after "+hist.substr(hist.size()>300?hist.size()-300:0),JITTOL)){ vf::count("judged"); vf::distinct(f.x.s+what); } };
    for(int s=0;s<steps;++s){
      vf::begin_case(hist); Fn& f=r.pick(fn); int op=r.range(0,11);
      if(op<=3){ int i=r.range(0,NP-1); double v= r.coin(0.2)? w.env[i]: r.coin(0.1)? std::nextafter(w.env[i],9.): r.uni(-2,2); w.env[i]=v; int how=r.range(0,3); if(how==0) w.p[i]->setVal(v); else if(how==1) w.p[i]->setCurrentFitVal(v); else if(how==2){ w.p[i]->setInit(v); init[i]=v; } else w.p[i]->setResult(v,0.1,-0.1,0.1); hist+=" m"+std::to_string(i)+"="+vf::str(v); }
      else if(op==4){ int i=r.range(0,1); w.lam[i]=w.env[I_LAM+i]=r.uni(-2,2); hist+=" lam"+std::to_string(i); }
      else if(op==5){ int i=r.range(0,NP-1); if(r.coin()) w.p[i]->fix(); else w.p[i]->setFree(); hist+=" fix/free"; }
      else if(op==6){ int i=r.range(0,NP-1); w.p[i]->resetToInit(); w.env[i]=init[i]; hist+=" reset m"+std::to_string(i); }
      else if(op==7){ f.f->resetExternals(); f.flag=false; hist+=" resetFlag"; EXPECT(!f.f->hasExternalsChanged(),"flag.after.reset",f.x.s); }
      else if(op==8){ f.event=w.newEvent(); check(f,"value.unprepared"); }
      else if(op==9){ CE g(*f.f); Env was=f.snap; g.prepare(); // a copy is independent
        Fn c={f.x,&g,w.env,false,f.event,true}; check(c,"copy"); check(f,"original.after.copy"); hist+=" copy"; }
      else { bool any=false, sure=false; std::string s2=f.x.s; for(int i=0;i<NP;++i) if(w.env[i]!=f.snap[i] && (mentions(s2,"m"+std::to_string(i)))) any=true; for(int i=0;i<2;++i) if(w.env[I_LAM+i]!=f.snap[I_LAM+i] && mentions(s2,"lam"+std::to_string(i))) any=true;
        Env a=f.snap,b=w.env; for(int i=0;i<NV;++i) a[NP+i]=b[NP+i]=f.event[i]; Val va,vb; if(any && ref(f.x,a,va) && ref(f.x,b,vb) && std::abs(va.v-vb.v)>1e-3L*(std::abs(va.v)+std::abs(vb.v))+10*(va.e+vb.e)) sure=true;
        f.f->prepare(); f.snap=w.env; hist+=" prepare"; bool got=f.f->hasExternalsChanged(); vf::eval();
        if(sure||f.flag){ EXPECT(got,"change.not.reported",f.x.s+" after "+hist.substr(hist.size()>300?hist.size()-300:0)); vf::count("flag.true"); }
        else if(!any){ EXPECT(!got,"unrelated.change.reported",f.x.s+" after "+hist.substr(hist.size()>300?hist.size()-300:0)); vf::count("flag.false"); }
        f.flag=got; check(f,"value"); auto ext=f.f->externBuffer(); f.f->prepare(); EXPECT(ext==f.f->externBuffer() && f.f->hasExternalsChanged()==got,"prepare.twice",f.x.s); check(f,"value.prepared.twice"); }
    }
    for(auto& f: fn){ check(f,"final.unprepared"); f.f->prepare(); f.snap=w.env; check(f,"final"); delete f.f; }
  }
  vf::require("judged",rounds*steps/3); vf::require("flag.true",rounds*2); vf::require("flag.false",rounds);
}
// splines through the values of parameters, in functions that also use plain parameters
static void splines(int rounds){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    MinuitParameterSet mps; int nk=r.range(4,9); double lo=r.uni(-2,0), hi=lo+r.uni(1,4); std::vector<MinuitParameter*> kn; std::vector<double> kv; auto a=mps.add("aa",Flag::Free,0.5,0.1);
    for(int i=0;i<nk;++i){ double v=r.uni(-2,2); kv.push_back(v); kn.push_back(mps.add("sp::"+std::to_string(i),Flag::Free,v,0.1)); } auto b=mps.add("zz",Flag::Free,0.5,0.1);
    std::map<std::string,unsigned> evt={{"y",0}}; Spline sp("sp",nk,lo,hi); Expression e=Parameter("aa")*sp(Parameter("y"),nullptr)+Parameter("zz"); CE f(e,"spl"+std::to_string(it),evt,&mps); std::vector<CompiledExpressionBase*> fs={&f}; CompilerWrapper().compile(fs,newfile()); f.prepare(); f.resetExternals();
    double h=(hi-lo)/(nk-1);
    auto want=[&](const std::vector<double>& k,double av,double bv,double y)->double{ // natural cubic spline, dense solve
      int n=nk-2; std::vector<std::vector<long double>> M(n,std::vector<long double>(n+1,0)); for(int i=0;i<n;++i){ M[i][i]=4; if(i) M[i][i-1]=1; if(i<n-1) M[i][i+1]=1; M[i][n]=6*(k[i+2]-2*(long double)k[i+1]+k[i])/(h*h); }
      for(int i=0;i<n;++i) for(int j=i+1;j<n;++j){ long double q=M[j][i]/M[i][i]; for(int c=i;c<=n;++c) M[j][c]-=q*M[i][c]; } std::vector<long double> m(nk,0); for(int i=n-1;i>=0;--i){ long double s=M[i][n]; for(int j=i+1;j<n;++j) s-=M[i][j]*m[j+1]; m[i+1]=s/M[i][i]; }
      int bin=std::min(nk-2,int((y-lo)/h)); long double d=y-(lo+bin*h); return av*(double)(k[bin]+((k[bin+1]-k[bin])/h-(m[bin+1]+2*m[bin])*h/6)*d+m[bin]*d*d/2+d*d*d*(m[bin+1]-m[bin])/(6*h))+bv; };
    for(int s=0;s<20;++s){ std::vector<double> old=kv; double oa=a->mean(), ob=b->mean(); int op=r.range(0,4); if(op<=2){ int i=op==0?0:op==1?nk-1:r.range(0,nk-1); kv[i]=r.uni(-2,2); kn[i]->setVal(kv[i]); } else if(op==3) a->setVal(r.uni(-2,2)); else b->setVal(r.uni(-2,2));
      vf::begin_case("spline step "+std::to_string(op)); double y=lo+h*(r.range(0,nk-2)+r.uni(0.02,0.98)); vf::eval(); vf::distinct(vf::str(y)); CLOSE(f(&y),complex_t(want(old,oa,ob,y)),1e-9,"spline.unprepared",vf::vstr(kv),1e-9); f.prepare(); EXPECT(f.hasExternalsChanged(),"spline.flag",vf::vstr(kv)); f.resetExternals(); CLOSE(f(&y),complex_t(want(kv,a->mean(),b->mean(),y)),1e-9,"spline",vf::vstr(kv)+" at "+vf::str(y),1e-9); f.prepare(); EXPECT(!f.hasExternalsChanged(),"spline.flag.same",""); }
  }
}
// the value handed over is the exact value of the parameter, however small the change
static void exact(int n){
  auto& r=vf::rng(); MinuitParameterSet mps; auto p=mps.add("p",Flag::Free,1.0,0.1), q=mps.add("q",Flag::Free,2.0,0.1); auto me=new MinuitExpression("me",2*MinuitParameterLink(p)); mps.add(me); double lam=0.5;
  typedef CompiledExpression<double(const double*,const double*)> RE; RE f(Parameter("p"),"fp",&mps), g(Expression(MinuitParameterLink(q)),"fq",&mps), h(LambdaExpression([&lam]{ return lam; }),"fl",&mps), m(Expression(MinuitParameterLink(me))-Parameter("q"),"fm",&mps); std::vector<CompiledExpressionBase*> fs={&f,&g,&h,&m}; CompilerWrapper().compile(fs,newfile()); for(auto x: fs) x->prepare(); double ev[1]={0}; double pv=1,qv=2;
  auto next=[&](double v)->double{ switch(r.range(0,8)){ case 0: return std::nextafter(v,1e300); case 1: return std::nextafter(v,-1e300); case 2: return v*(1+std::pow(10.,-r.uni(3,15))); case 3: return v+std::pow(10.,-r.uni(3,15)); case 4: return -v; case 5: return r.uni(-2,2)*std::pow(10.,r.uni(-200,200)); case 6: return 0; case 7: return v; default: return r.uni(-3,3); } };
  for(int i=0;i<n;++i){ f.resetExternals(); g.resetExternals(); h.resetExternals(); int w=r.range(0,2); double& t= w==0?pv: w==1?qv: lam; double old=t, nw=next(t); t=nw; if(w==0) p->setVal(nw); if(w==1) q->setVal(nw); vf::begin_case("exact "+vf::str(old)+" -> "+vf::str(nw)); vf::eval(); vf::distinct(vf::str(nw)); RE& c= w==0?f: w==1?g: h; EXPECT(c(ev)==old,"exact.before.prepare",vf::str(old)+" -> "+vf::str(nw)+" got "+vf::str(c(ev))); for(auto x: fs) x->prepare();
    EXPECT(c(ev)==nw,"exact",vf::str(old)+" -> "+vf::str(nw)+" got "+vf::str(c(ev))); EXPECT(c.hasExternalsChanged()==(old!=nw),"exact.flag",vf::str(old)+" -> "+vf::str(nw)); if(&c!=&f) EXPECT(!f.hasExternalsChanged(),"exact.flag.other",""); if(&c!=&g) EXPECT(!g.hasExternalsChanged(),"exact.flag.other",""); if(&c!=&h) EXPECT(!h.hasExternalsChanged(),"exact.flag.other",""); EXPECT(m(ev)==2*pv-qv||std::abs(m(ev)-(2*pv-qv))<=1e-15*(std::abs(2*pv)+std::abs(qv)),"exact.formula",vf::str(pv)+" "+vf::str(qv)); }
}
void harness(){
  vf::section("exact",[]{ exact(vf::scale(3000,50000)); },100);
  int sh=vf::scale(3,8);
  for(int i=0;i<sh;++i){ vf::section("history"+std::to_string(i),[]{ histories(vf::scale(6,30),10,vf::scale(200,400)); },vf::scale(60,400)); }
  vf::section("spline",[]{ splines(vf::scale(4,40)); },300);
}
