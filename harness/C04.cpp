// C04: Simplify / normal ordering keep the value of random formulas, for several parameter assignments
#include "exprgen.h"
#include "AmpGen/Simplify.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
using namespace eg;
static const int NR=5;
static std::vector<MinuitParameter*> pars; static double lam[2];
static void setup(Gen& g){
  if(pars.empty()) for(int i=0;i<NR+4;++i) pars.push_back(new MinuitParameter("m"+std::to_string(i),Flag::Free,0.,0.1,0,0));
  g.rl.clear(); g.cl.clear();
  for(int i=0;i<NR;++i) g.rl.push_back({MinuitParameterLink(pars[i]),[i](const Env&e){return leaf(e[i]);},false,"m"+std::to_string(i)});
  for(int i=0;i<2;++i){ double* p=&lam[i]; g.rl.push_back({LambdaExpression([p]{return *p;}),[i](const Env&e){return leaf(e[NR+4+i]);},false,"lam"+std::to_string(i)}); }
  for(int i=0;i<2;++i){ int k=NR+2*i; Expression e=MinuitParameterLink(pars[k])+Expression(CD(0,1))*MinuitParameterLink(pars[k+1]); g.cl.push_back({e,[k](const Env&e){return Val{CL(e[k],e[k+1]),U*std::hypot((L)e[k],(L)e[k+1]),std::abs(CL(e[k],0))+std::abs(CL(e[k+1],0)),U*(std::abs((L)e[k])+std::abs((L)e[k+1]))};},true,"c"+std::to_string(i)}); }
}
static Env assign(){ Env e; auto& r=vf::rng(); for(int i=0;i<NR+6;++i) e.push_back(r.coin(0.1)? r.pick<double>({0.,1.,-1.}): r.uni(-2,2)); for(int i=0;i<NR+4;++i) pars[i]->setVal(e[i]); lam[0]=e[NR+4]; lam[1]=e[NR+5]; return e; }
static void check_one(const X& x,const std::string& tag){
  std::string s0=x.e.to_string();
  Expression s=Simplify(x.e), s2=Simplify(s), n1=Expression(NormalOrderedExpression(x.e)), n2=Expression(NormalOrderedExpression(x.e,true)), c=make_cse(x.e,true), n3=Expression(NormalOrderedExpression(n2,true));
  EXPECT(x.e.to_string()==s0,"simplify.alters",x.s);
  std::vector<std::pair<const char*,Expression>> all={{"Simplify",s},{"Simplify.twice",s2},{"normal",n1},{"normal.expand",n2},{"normal.twice",n3},{"cse",c}};
  for(int a=0;a<3;++a){ Env env=assign(); Val v; try { v=x.f(env); } catch(Skip&){ vf::count("skipped"); continue; }
    v.e2*=8;
    for(auto& [nm,e]: all) if(judge(e(),v,true,nm,tag+x.s+" -> "+e.to_string()+" at "+vf::vstr(env))) vf::count("judged"); }
  vf::distinct(x.s);
}
static void formulas(int dmin,int dmax,int n){ Gen g; for(int it=0;it<n;++it){ setup(g); X x=g.gen(vf::rng().coin(0.6),vf::rng().range(dmin,dmax)); if(x.s.size()>1500) continue; vf::begin_case(x.s); if(it<2) vf::sample(x.s); check_one(x,""); } vf::require("judged",n); }
// polynomials and rational functions: many brackets to expand, many equal terms to group
static void poly(int n){ Gen g; auto& r=vf::rng();
  for(int it=0;it<n;++it){ setup(g); std::function<X(int)> p=[&](int d)->X{ if(d<=0) return r.coin(0.7)? r.pick(g.rl): r.coin(0.4)&&!g.cl.empty()? r.pick(g.cl): g.konst(r.range(-3,3)); static const char* ops[]={"+","-","*","*","+","-","/"}; int k=r.range(0,it%3==0?6:5); X a=p(d-1), b=p(d-1); if(r.coin(0.15)) b=a; if(r.coin(0.12)) a=g.neg(a); if(r.coin(0.1)) a={fcn::conj(a.e),[f=a.f](const Env&x){ Val v=f(x); v.v=std::conj(v.v); return v; },a.cplx,"conj("+a.s+")"}; if(r.coin(0.1)) a={make_cse(a.e),a.f,a.cplx,"cse("+a.s+")"}; return g.bin(ops[k],a,b); };
    X x=p(r.range(2,4)); if(x.s.size()>700) continue; vf::begin_case(x.s); if(it<2) vf::sample(x.s); check_one(x,"poly "); }
  vf::require("judged",n); }
// groups: terms that differ only in their prefactor, in late digits of a constant, or only in a function's argument
static void grouping(int n){ Gen g; auto& r=vf::rng();
  for(int it=0;it<n;++it){ setup(g); std::vector<X> base; for(int i=0;i<3;++i){ X a=r.pick(g.rl), b=r.pick(g.rl); double k=r.uni(1,2); double dk=k*(1+std::pow(10.,r.range(-14,-3))); double kk=r.coin()?k:dk; X t=g.bin("*",g.konst(kk),a); switch(r.range(0,3)){ case 0: base.push_back(g.mk(fcn::sin(t.e),[](CL z){return std::sin(z);},t,false,"sin")); break; case 1: base.push_back(g.bin("*",a,b)); break; case 2: base.push_back(g.mk(fcn::exp(t.e),[](CL z){return std::exp(z);},t,false,"exp",4)); break; default: base.push_back(a); } if(r.coin(0.4)){ X t2=g.bin("*",g.konst(kk==k?dk:k),a); base.push_back(g.mk(fcn::sin(t2.e),[](CL z){return std::sin(z);},t2,false,"sin")); } }
    X x=r.pick(base); int m=r.range(1,8); for(int i=0;i<m;++i){ X t=r.pick(base); if(r.coin(0.4)) t=g.bin("*",r.coin()? g.konst(r.pick<double>({1.,-1.,2.,-2.,0.5})): g.kplx(CD(r.range(-2,2),r.range(-2,2))),t); if(r.coin(0.2)) t=g.bin("*",t,r.pick(base)); x=g.bin(r.coin(0.6)?"+":"-",x,t); }
    if(x.s.size()>2500) continue; vf::begin_case(x.s); if(it<2) vf::sample(x.s); check_one(x,"grouping "); }
  vf::require("judged",n); }
void harness(){
  int sh=vf::scale(1,6);
  for(int i=0;i<sh;++i){ std::string k=std::to_string(i);
    vf::section("poly"+k,[=]{ poly(vf::scale(2500,8000)); },1200);
    vf::section("grouping"+k,[=]{ grouping(vf::scale(2500,8000)); },1200);
    vf::section("deep"+k,[=]{ formulas(4,6,vf::scale(600,3000)); },1200);
    vf::section("small"+k,[=]{ formulas(1,3,vf::scale(4000,15000)); },1200); }
}
