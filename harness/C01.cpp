// C01: evaluation of random formulas against an independent long double evaluator
#include "exprgen.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
using namespace eg;
static void leaves(Gen& g,Env& env,int nr,int nc){
  auto& r=vf::rng(); g.rl.clear(); g.cl.clear(); env.clear();
  for(int i=0;i<nr;++i){ double x= r.coin(0.15)? r.pick<double>({0.,1.,-1.,0.5}): r.uni(-3,3); env.push_back(x); int k=env.size()-1; g.rl.push_back({Parameter("p"+std::to_string(i),x),[k](const Env& e){return leaf(e[k]);},false,"p"+std::to_string(i)}); }
  for(int i=0;i<nc;++i){ double x=r.uni(-3,3),y=r.uni(-3,3); env.push_back(x); env.push_back(y); int k=env.size()-2; std::string n="c"+std::to_string(i); g.cl.push_back({ComplexParameter(Parameter(n+"r",x),Parameter(n+"i",y)),[k](const Env& e){return leaf(CL(e[k],e[k+1]));},true,n}); }
  int n=0; for(int i=0;i<2;++i){ double x=r.uni(-2,2); env.push_back(x); int k=env.size()-1; g.rl.push_back({LambdaExpression([x](){return x;}),[k](const Env& e){return leaf(e[k]);},false,"lambda"+std::to_string(n++)}); }
}
static void formulas(int dmin,int dmax,int n){
  Gen g; Env env;
  for(int it=0;it<n;++it){
    leaves(g,env,4,2); int d=vf::rng().range(dmin,dmax); X x=g.gen(vf::rng().coin(0.6),d);
    if(x.s.size()>6000) continue;
    std::string ds=x.s+" at "+vf::vstr(env); vf::begin_case(ds); if(it<3) vf::sample(x.s);
    std::string s0=x.e.to_string(); CD a=x.e(); CD b=x.e(); Expression copy=x.e; CD c=copy();
    auto same=[](CD p,CD q){ return (p.real()==q.real()||(p.real()!=p.real()&&q.real()!=q.real()))&&(p.imag()==q.imag()||(p.imag()!=p.imag()&&q.imag()!=q.imag())); };
    EXPECT(same(a,b)&&same(a,c),"reevaluation",ds); EXPECT(x.e.to_string()==s0,"evaluation.alters",ds);
    Val v; try { v=x.f(env); } catch(Skip&){ vf::count("skipped"); continue; }
    if(judge(a,v,false,"value",ds)){ vf::count("judged"); vf::distinct(x.s); if(!x.cplx && v.v.imag()==0) EXPECT(std::abs(a.imag())<=std::max(1e-12,1e-9*std::abs(a.real())),"real.imag",ds+" got "+vf::str(a)); }
  }
  vf::require("judged",n/5);
}
// exhaustive small cases: every operator and function over a table of special values, folded constants and parameters alike
static void table(){
  std::vector<double> v={0,1,-1,2,-2,0.5,-0.5,3,1e-3,-1e3,1.25,7};
  typedef std::function<Expression(Expression,Expression)> B; typedef std::function<CD(CD,CD)> RB;
  auto re=[](CD z){return z.real();};
  std::vector<std::tuple<std::string,B,RB>> ops={
    {"+",[](Expression a,Expression b){return a+b;},[](CD a,CD b){return a+b;}},{"-",[](Expression a,Expression b){return a-b;},[](CD a,CD b){return a-b;}},
    {"*",[](Expression a,Expression b){return a*b;},[](CD a,CD b){return a*b;}},{"/",[](Expression a,Expression b){return a/b;},[](CD a,CD b){return a/b;}},
    {"<",[](Expression a,Expression b){return a<b;},[=](CD a,CD b){return CD(re(a)<re(b));}},{">",[](Expression a,Expression b){return a>b;},[=](CD a,CD b){return CD(re(a)>re(b));}},
    {"<=",[](Expression a,Expression b){return a<=b;},[=](CD a,CD b){return CD(re(a)<=re(b));}},{">=",[](Expression a,Expression b){return a>=b;},[=](CD a,CD b){return CD(re(a)>=re(b));}},
    {"==",[](Expression a,Expression b){return a==b;},[](CD a,CD b){return CD(a==b);}},{"&&",[](Expression a,Expression b){return a&&b;},[=](CD a,CD b){return CD(re(a)&&re(b));}},
    {"||",[](Expression a,Expression b){return a||b;},[=](CD a,CD b){return CD(re(a)||re(b));}},{"fmod",[](Expression a,Expression b){return Expression(Fmod(a,b));},[=](CD a,CD b){return CD(std::fmod(re(a),re(b)));}},
    {"atan2",[](Expression a,Expression b){return fcn::atan2(a,b);},[=](CD a,CD b){return CD(std::atan2(re(a),re(b)));}},
    {"pow",[](Expression a,Expression b){return fcn::pow(a,b);},[](CD a,CD b){return std::pow(a,b);}},
    {"?",[](Expression a,Expression b){return Expression(Ternary(a>b,a*2,b));},[=](CD a,CD b){return re(a)>re(b)?2.*a:b;}},
    {"==d",[](Expression a,Expression b){return a==b().real();},[](CD a,CD b){return CD(a==b);}},{"d==",[](Expression a,Expression b){return a().real()==b;},[](CD a,CD b){return CD(a==b);}},
    {"Sum",[](Expression a,Expression b){return Expression(Sum(a,b));},[](CD a,CD b){return a+b;}},{"Sub",[](Expression a,Expression b){return Expression(Sub(a,b));},[](CD a,CD b){return a-b;}},
    {"pack",[](Expression a,Expression b){return Expression(Sub(ExpressionPack(a,b)));},[](CD a,CD b){return a-b;}}};
  int n=0;
  for(double x: v) for(double y: v) for(auto& [name,f,r]: ops) for(int form=0;form<4;++form){
    if((name=="/"||name=="fmod") && y==0) continue; if(name=="atan2" && (x==0)) continue; if(name=="pow" && (x<=0)) continue;
    Expression a= form&1? Expression(Parameter("a",x)):Expression(x), b= form&2? Expression(Parameter("b",y)):Expression(y);
    vf::begin_case(name+" "+vf::str(x)+" "+vf::str(y)); CD got=f(a,b)(), want=r(x,y); vf::eval(); vf::distinct(name+vf::str(x)+","+vf::str(y)+std::to_string(form)); CLOSE(got,want,1e-13,"table."+name,vf::fmt("%s(%.17g,%.17g) form %d",name.c_str(),x,y,form),1e-13); ++n; }
  // unary functions on real and complex arguments away from their cuts
  typedef std::function<Expression(Expression)> Un; typedef std::function<CD(CD)> RU;
  std::vector<std::tuple<std::string,Un,RU>> un={
    {"sin",[](Expression a){return fcn::sin(a);},[](CD z){return std::sin(z);}},{"cos",[](Expression a){return fcn::cos(a);},[](CD z){return std::cos(z);}},{"tan",[](Expression a){return fcn::tan(a);},[](CD z){return std::tan(z);}},
    {"exp",[](Expression a){return fcn::exp(a);},[](CD z){return std::exp(z);}},{"log",[](Expression a){return fcn::log(a);},[](CD z){return std::log(z);}},{"sqrt",[](Expression a){return fcn::sqrt(a);},[](CD z){return std::sqrt(z);}},
    {"isqrt",[](Expression a){return fcn::isqrt(a);},[](CD z){return 1./std::sqrt(z);}},{"abs",[](Expression a){return fcn::abs(a);},[](CD z){return CD(std::abs(z));}},{"norm",[](Expression a){return fcn::norm(a);},[](CD z){return CD(std::norm(z));}},
    {"conj",[](Expression a){return fcn::conj(a);},[](CD z){return std::conj(z);}},{"real",[](Expression a){return Expression(Real(a));},[](CD z){return CD(z.real());}},{"imag",[](Expression a){return Expression(Imag(a));},[](CD z){return CD(z.imag());}},
    {"asin",[](Expression a){return fcn::asin(a);},[](CD z){return std::asin(z);}},{"acos",[](Expression a){return fcn::acos(a);},[](CD z){return std::acos(z);}},{"atan",[](Expression a){return fcn::atan(a);},[](CD z){return std::atan(z);}},
    {"Log",[](Expression a){return Expression(Log(a));},[](CD z){return std::log(z);}},{"ATan",[](Expression a){return Expression(ATan(a));},[](CD z){return std::atan(z);}},
    {"neg",[](Expression a){return -a;},[](CD z){return -z;}},{"cse",[](Expression a){return make_cse(a*a,true);},[](CD z){return z*z;}},{"subtree",[](Expression a){return make_cse(a*a);},[](CD z){return z*z;}}};
  for(int k=-4;k<=6;++k) un.push_back({"fpow"+std::to_string(k),[k](Expression a){return fcn::fpow(a,k);},[k](CD z){ CD o=1; for(int i=0;i<std::abs(k);++i) o*=z; return k<0?1./o:o; }});
  std::vector<CD> zs={{0.3,0},{0.9,0},{0.25,0.4},{-0.7,0.3},{-0.7,-0.3},{0.1,-2},{1.7,1.1},{-2.2,0.6},{0.5,-0.5},{2.5,-0.1}};
  for(auto z: zs) for(auto& [name,f,r]: un) for(int form=0;form<3;++form){ Expression a= form==0? Expression(z): form==1? Expression(ComplexParameter(Parameter("x",z.real()),Parameter("y",z.imag()))): Expression(Parameter("x",z.real())); CD w= form==2? CD(z.real()):z; if(form==2 && w.real()<0) { if(name=="log"||name=="Log"||name=="sqrt"||name=="isqrt") continue; } if(form==2&&std::abs(w.real())>=1&&(name=="asin"||name=="acos")) continue;
    vf::begin_case(name+vf::str(w)); vf::eval(); vf::distinct(name+vf::str(w)+std::to_string(form)); CLOSE(f(a)(),r(w),1e-12,"unary."+name,name+" of "+vf::str(w)+" form "+std::to_string(form),1e-12); }
  // negative reals: the principal values and the documented "safe" variants
  for(double x: {-4.,-0.3,-1e-3,0.,1e-3,0.3,4.}) for(int form=0;form<2;++form){ Expression a= form? Expression(Parameter("x",x)):Expression(x); vf::eval();
    CLOSE(fcn::safe_sqrt(a)(),CD(x>0?std::sqrt(x):0),1e-14,"safe_sqrt",vf::str(x),1e-300); CD s=fcn::complex_sqrt(a)(); CLOSE(s,x>0?CD(std::sqrt(x)):CD(0,std::sqrt(-x)),1e-14,"complex_sqrt",vf::str(x),1e-300); }
  for(double x=-4.7;x<6;x+=0.37){ Expression a=Parameter("x",x); vf::eval(); CLOSE(Expression(LGamma(a))(),CD(std::lgamma(x)),1e-13,"lgamma",vf::str(x),1e-13); }
  // constants keep their value
  for(int i=0;i<2000;++i){ auto& r=vf::rng(); CD z(r.uni(-1,1)*std::pow(10.,r.range(-12,12)),r.coin()?r.uni(-1,1)*std::pow(10.,r.range(-12,12)):0); vf::eval(); EXPECT(Expression(z)()==z && Expression(Constant(z.real(),z.imag()))()==z && Expression(z.real())()==CD(z.real()),"constant",vf::str(z)); EXPECT(Expression(ComplexParameter(Parameter("a",z.real()),Parameter("b",z.imag())))()==z,"complexparameter",vf::str(z)); EXPECT(Expression()()==CD(0),"default","0"); }
  vf::sample(std::to_string(n)+" binary table entries");
}
// long accumulations: sums, products, alternating use of the assigning operators
static void accumulate(){
  auto& r=vf::rng();
  for(int it=0;it<vf::scale(800,8000);++it){ int n=r.range(2,40); Expression e= r.coin()? Expression(0.): Expression(Parameter("s",0.5)); Val v=leaf(e()); std::string ds="acc "+vf::str(CD(v.v));
    try { for(int i=0;i<n;++i){ CD z=r.coin(0.3)? CD(r.pick<double>({0.,1.,-1.})): CD(r.uni(-2,2),r.coin(0.3)?r.uni(-2,2):0.); Expression t= z.imag()==0&&r.coin()? Expression(Parameter("q"+std::to_string(i),z.real())): Expression(z); Val tv=leaf(CL(z.real(),z.imag())); if(r.coin(0.3)){ CD k(r.uni(-2,2),0); t= k.real()*t; tv=mul(leaf(k.real()),tv); }
      int op=r.range(0,5); if(op==3&&std::abs(tv.v)<0.1L) op=0; ds+=" "+std::string(1,"+-*/+-"[op])+vf::str(CD(tv.v)); switch(op){ case 0: e+=t; v=add(v,tv); break; case 1: e-=t; v=add(v,tv,-1); break; case 2: e*=t; v=mul(v,tv); break; case 3: e/=t; v=div(v,tv); break; case 4: e=t+e; v=add(v,tv); break; default: e=t-e; v=add(tv,v,-1); } }
      vf::begin_case(ds); if(judge(e(),v,true,"accumulate",ds)){ vf::distinct(ds); vf::count("judged"); } } catch(Skip&){ vf::count("skipped"); } }
  vf::require("judged",200);
}
void harness(){
  vf::section("table",table);
  vf::section("accumulate",accumulate);
  int sh=vf::scale(2,8); auto n=[sh](int q,int t){ return vf::scale(q,t)/sh; };
  for(int i=0;i<sh;++i){ std::string k=std::to_string(i);
    vf::section("deep"+k,[=]{ formulas(5,8,n(1500,20000)); },900);
    vf::section("medium"+k,[=]{ formulas(3,5,n(6000,80000)); },900);
    vf::section("small"+k,[=]{ formulas(1,3,n(15000,200000)); },900); }
}
