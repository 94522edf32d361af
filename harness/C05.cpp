// C05: derivative rules of the elementary functions against complex difference quotients in long double
#include "exprgen.h"
using namespace eg;
typedef std::function<CL(CL)> F;
struct Fn { std::string n; std::function<Expression(Expression)> make; std::function<Expression(Expression)> d; F f; };
template<class T> Fn fn(const std::string& n,F f){ return {n,[](Expression x){return Expression(T(x));},[](Expression x){ return T(x).d(); },f}; }
static std::vector<Fn> fns(){ return {
  fn<Log>("log",[](CL z){return std::log(z);}), fn<Exp>("exp",[](CL z){return std::exp(z);}), fn<Sqrt>("sqrt",[](CL z){return std::sqrt(z);}), fn<Sin>("sin",[](CL z){return std::sin(z);}), fn<Cos>("cos",[](CL z){return std::cos(z);}),
  fn<Tan>("tan",[](CL z){return std::tan(z);}), fn<ASin>("asin",[](CL z){return std::asin(z);}), fn<ACos>("acos",[](CL z){return std::acos(z);}), fn<ATan>("atan",[](CL z){return std::atan(z);}), fn<ISqrt>("isqrt",[](CL z){return CL(1)/std::sqrt(z);})}; }
// Richardson extrapolated central difference along a direction
static CL diff(const F& f,CL z,CL dir,L h){ auto D=[&](L s){ return (f(z+s*dir)-f(z-s*dir))/(CL(2*s)*dir); }; CL a=D(h), b=D(h/2), c=D(h/4); CL r1=(CL(4)*b-a)/CL(3), r2=(CL(4)*c-b)/CL(3); return (CL(16)*r2-r1)/CL(15); }
static void points(){
  auto& r=vf::rng(); auto fs=fns();
  for(int it=0;it<vf::scale(3000,60000);++it) for(auto& f: fs){
    bool real=r.coin(); CL z(r.uni(-2,2),real?0:r.uni(-2,2)); bool inv= f.n=="asin"||f.n=="acos"; bool root= f.n=="log"||f.n=="sqrt"||f.n=="isqrt";
    if(real){ if(root) z=CL(r.uni(0.05,4)); if(inv) z=CL(r.uni(-0.95,0.95)); }
    L h=1e-3L; // stay off singular points and cuts
    if(std::abs(z)<0.05L && root) continue; if(!real && root && z.real()<0 && std::abs(z.imag())<0.02L) continue; if(inv && !real && std::abs(z.imag())<0.05L) continue; if(inv && std::abs(std::abs(z)-1)<0.04L) continue; if(f.n=="atan" && std::abs(z.real())<0.05L && std::abs(z.imag())>0.9L) continue; if(f.n=="tan" && std::abs(std::cos(z))<0.1L) continue;
    std::string ds=f.n+"' at "+vf::str(CD(z)); vf::begin_case(ds);
    CL d1=diff(f.f,z,CL(1,0),h), d2=real&&(root||inv)?d1:diff(f.f,z,CL(0,1),h); if(std::abs(d1-d2)>1e-7L*(1+std::abs(d1))){ vf::count("not_differentiable"); continue; }
    Expression a= real? Expression(Parameter("x",double(z.real()))): Expression(ComplexParameter(Parameter("x",double(z.real())),Parameter("y",double(z.imag())))); CL zz= CL(double(z.real()),double(z.imag())); d1=diff(f.f,zz,CL(1,0),h);
    Expression e=f.make(a); std::string s0=e.to_string(); Expression d=f.d(a); vf::eval(); vf::distinct(f.n+vf::str(CD(z))); CD got=d(); CLOSE(got,CD(d1),2e-8,"derivative."+f.n,ds,1e-6);
    EXPECT(e.to_string()==s0 && vf::close(e(),CD(f.f(zz)),1e-12),"derivative.alters."+f.n,ds);
    if(it<1) vf::sample(ds);
    // constant argument, and chain rule through a composed argument: d f(g(x))/dx = f'(g) g'
    CLOSE(f.d(Expression(CD(z)))(),CD(d1),2e-8,"derivative.const."+f.n,ds,1e-6);
    double k=r.uni(0.3,1.5); Expression g=a*k; CL zk=zz*L(k); if(root||(f.n=="exp")||(f.n=="cos")||(f.n=="sin")){ CL dk=diff(f.f,zk,CL(1,0),h); CLOSE(f.d(g)(),CD(dk),2e-7,"derivative.chain."+f.n,ds+" of "+vf::str(k)+"*x",1e-6); vf::eval(); }
  }
}
// dynamic dispatch through the common base, as code that walks an expression tree does
static void dispatch(){ auto& r=vf::rng(); auto fs=fns(); for(int it=0;it<vf::scale(2000,20000);++it) for(auto& f: fs){ double x=r.uni(0.1,0.9); Expression e=f.make(Parameter("x",x)); auto u=dynamic_cast<IUnaryExpression*>(e.get()); vf::eval(); vf::distinct(f.n+vf::str(x)); if(!EXPECT(u!=nullptr,"unary."+f.n,"not a unary expression")) continue; CLOSE(u->d()(),CD(diff(f.f,CL(x),CL(1,0),1e-3L)),2e-8,"dispatch."+f.n,vf::str(x),1e-6); CLOSE(u->arg()(),CD(x),1e-15,"arg."+f.n,vf::str(x),1e-300);
    // finite increment: f(b)-f(a) = integral of f' (Simpson, fine steps)
    double b=x+0.05; int N=16; double hh=(b-x)/N; CD s=0; for(int i=0;i<=N;++i){ Expression t=f.make(Parameter("x",x+i*hh)); double w= i==0||i==N?1:(i%2?4:2); s+=w*dynamic_cast<IUnaryExpression*>(t.get())->d()(); } s*=hh/3; if(b<0.93||(f.n!="asin"&&f.n!="acos")) CLOSE(s,f.make(Parameter("x",b))()-e(),1e-5,"integral."+f.n,vf::str(x),1e-6); } }
void harness(){ vf::section("points",points,900); vf::section("dispatch",dispatch,900); }
