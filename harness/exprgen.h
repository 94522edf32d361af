// Random formulas built twice: as an AmpGen expression (through the library's operators, with all of
// their folding) and as an independent evaluator in long double with a running error bound.
#ifndef EXPRGEN_H
#define EXPRGEN_H
#include "vf.h"
#include "AmpGen/Expression.h"
#include <map>
#include <functional>
namespace eg {
using namespace AmpGen;
typedef long double L; typedef std::complex<L> CL; typedef std::complex<double> CD;
typedef std::vector<double> Env;                     // values of the leaves' variables
static const L U = 0x1p-52L*4;
struct Skip {};
// v value, e error of a straightforward double evaluation, m magnitude of the fully expanded form, e2 its error
// kc: modulus of the constant factor, k: is a constant (folding treats constants below epsilon as zero: skipped)
struct Val { CL v; L e; L m; L e2; L kc=1; bool k=false; };
inline Val chk(Val a){ L x=std::abs(a.v); if(!(x<1e30L) || !(a.m<1e40L) || !(a.e<1e30L)) throw Skip(); return a; }
inline Val leaf(CL v){ return {v,0,std::abs(v),0}; }
inline Val kleaf(CL v){ return {v,0,std::abs(v),0,std::abs(v),true}; }
inline Val K(Val r,L kc,bool k){ if(kc!=0 && kc<1e-13L) throw Skip(); r.kc=kc; r.k=k; return r; }
inline Val add(const Val&a,const Val&b,L s=1){ CL v=a.v+s*b.v; L m=a.m+b.m; bool k=a.k&&b.k; return K(chk({v,a.e+b.e+U*(std::abs(a.v)+std::abs(b.v)),m,a.e2+b.e2+U*m}),k?std::abs(v):1,k); }
inline Val mul(const Val&a,const Val&b){ CL v=a.v*b.v; L A=std::abs(a.v),B=std::abs(b.v),m=a.m*b.m; return K(chk({v,A*b.e+B*a.e+a.e*b.e+U*A*B,m,a.m*b.e2+b.m*a.e2+a.e2*b.e2+U*m}),a.kc*b.kc,a.k&&b.k); }
inline Val div(const Val&a,const Val&b){ L B=std::abs(b.v),A=std::abs(a.v); if(B<1e-4L || b.e>1e-6L*B || b.e2>1e-6L*B) throw Skip(); CL v=a.v/b.v; L m=a.m/B; return K(chk({v,a.e/B+A*b.e/(B*B)+U*A/B,m,a.e2/B+a.m*b.e2/(B*B)+U*m*(1+b.m/B)}),a.kc/b.kc,a.k&&b.k); }
// function of one argument: the error is sampled, so that branch cuts and poles show up as a huge error
template<class F> Val fun(F f,const Val& a,L k=1){ CL v=f(a.v); L d=std::max(a.e,U*std::abs(a.v))+1e-25L, s=0; const CL dir[4]={CL(1,0),CL(-1,0),CL(0,1),CL(0,-1)};
  for(auto& x: dir){ L q=std::abs(f(a.v+d*x)-v); if(!(q>=0)) throw Skip(); s=std::max(s,q); }
  return K(chk({v,2*s+k*U*std::abs(v),std::abs(v),2*s+k*U*std::abs(v)}),a.k?std::abs(v):1,a.k); }
template<class F> Val fun2(F f,const Val& a,const Val& b,L k=1){ CL v=f(a.v,b.v); L da=std::max(a.e,U*std::abs(a.v))+1e-25L, db=std::max(b.e,U*std::abs(b.v))+1e-25L, s=0; const CL dir[4]={CL(1,0),CL(-1,0),CL(0,1),CL(0,-1)};
  for(auto& x: dir){ L q=std::abs(f(a.v+da*x,b.v)-v)+std::abs(f(a.v,b.v+db*x)-v); if(!(q>=0)) throw Skip(); s=std::max(s,q); }
  return chk({v,2*s+k*U*std::abs(v),std::abs(v),2*s+k*U*std::abs(v)}); }
// -1,0,1 or Skip when too close to call (exact leaves compare exactly)
inline int cmp(const Val&a,const Val&b){ L d=a.v.real()-b.v.real(), e=a.e+b.e; if(std::abs(d)<=100*e && e>0) throw Skip(); return d>0?1:(d<0?-1:0); }
inline bool truth(const Val&a){ L x=a.v.real(); if(a.e>0 && std::abs(x)<=100*a.e) throw Skip(); return x!=0; }
inline Val boolean(bool b){ return leaf(CL(b?1:0,0)); }
struct X { Expression e; std::function<Val(const Env&)> f; bool cplx; std::string s; bool cond=false; };
inline L lgam(L x){ return std::lgamma(x); }

struct Gen {
  std::vector<X> rl, cl;        // leaves: real and complex variables
  bool jit=false;               // restrict to what the generated code's types support, and real domains
  bool avx=false;               // further restrict to vector-capable functions
  bool cse=true;
  vf::Rng& R(){ return vf::rng(); }
  double rc(){ static const double sp[]={0,1,-1,2,0.5,-0.25,3,10}; if(R().coin(0.4)) return sp[R().range(0,7)]; return R().coin(0.2)? R().uni(-1,1)*std::pow(10.,R().range(-6,6)) : R().uni(-3,3); }
  X konst(double x){ return {Expression(x),[x](const Env&){return kleaf(x);},false,vf::str(x)}; }
  X kplx(CD z){ return {Expression(z),[z](const Env&){return kleaf(CL(z.real(),z.imag()));},z.imag()!=0,vf::str(z)}; }
  X bin(const std::string& op,const X&a,const X&b){
    X r; r.cplx=a.cplx||b.cplx; r.s="("+a.s+op+b.s+")"; auto fa=a.f, fb=b.f;
    int form=R().range(0,9);
    switch(op[0]){
      case '+': r.e= form<7? a.e+b.e : form==7? Expression(Sum(a.e,b.e)) : [&]{ Expression t=a.e; t+=b.e; return t; }(); r.f=[=](const Env& x){ return add(fa(x),fb(x)); }; break;
      case '-': r.e= form<7? a.e-b.e : form==7? Expression(Sub(a.e,b.e)) : [&]{ Expression t=a.e; t-=b.e; return t; }(); r.f=[=](const Env& x){ return add(fa(x),fb(x),-1); }; break;
      case '*': r.e= form<7? a.e*b.e : form==7? Expression(Product(a.e,b.e)) : [&]{ Expression t=a.e; t*=b.e; return t; }(); r.f=[=](const Env& x){ return mul(fa(x),fb(x)); }; break;
      default:  r.e= form<7? a.e/b.e : form==7? Expression(Divide(a.e,b.e)) : [&]{ Expression t=a.e; t/=b.e; return t; }(); r.f=[=](const Env& x){ return div(fa(x),fb(x)); }; break;
    } return r; }
  // mixed with plain numbers on either side
  X mixed(const X&a){ double k=rc(); X r; r.cplx=a.cplx; auto fa=a.f; Val kv=kleaf(k); std::string ks=vf::str(k);
    switch(R().range(0,8)){
      case 0: r.e=a.e+k; r.f=[=](const Env&x){return add(fa(x),kv);}; r.s="("+a.s+"+"+ks+")"; break;
      case 1: r.e=k+a.e; r.f=[=](const Env&x){return add(kv,fa(x));}; r.s="("+ks+"+"+a.s+")"; break;
      case 2: r.e=a.e-k; r.f=[=](const Env&x){return add(fa(x),kv,-1);}; r.s="("+a.s+"-"+ks+")"; break;
      case 3: r.e=k-a.e; r.f=[=](const Env&x){return add(kv,fa(x),-1);}; r.s="("+ks+"-"+a.s+")"; break;
      case 4: r.e=a.e*k; r.f=[=](const Env&x){return mul(fa(x),kv);}; r.s="("+a.s+"*"+ks+")"; break;
      case 5: r.e=k*a.e; r.f=[=](const Env&x){return mul(kv,fa(x));}; r.s="("+ks+"*"+a.s+")"; break;
      case 6: if(std::abs(k)<1e-3) k=1.7; kv=kleaf(k); r.e=a.e/k; r.f=[=](const Env&x){return div(fa(x),kv);}; r.s="("+a.s+"/"+vf::str(k)+")"; break;
      case 7: r.e=k/a.e; r.f=[=](const Env&x){return div(kv,fa(x));}; r.s="("+ks+"/"+a.s+")"; break;
      default: r.e=-a.e; r.f=[=](const Env&x){return mul(kleaf(-1),fa(x));}; r.s="(-"+a.s+")"; break;
    } return r; }
  X neg(const X&a){ auto fa=a.f; return {-a.e,[=](const Env&x){return mul(kleaf(-1),fa(x));},a.cplx,"(-"+a.s+")"}; }
  template<class F> X mk(Expression e,F f,const X&a,bool cplx,const std::string& s,L k=1){ auto fa=a.f; return {e,[=](const Env& x){ return fun(f,fa(x),k); },cplx,s+"("+a.s+")"}; }
  // |a| + c
  X positive(const X&a,double c=0.1){ X r; auto fa=a.f; r.e=fcn::abs(a.e)+c; r.cplx=false; r.s="(|"+a.s+"|+"+vf::str(c)+")"; r.f=[=](const Env&x){ return add(fun([](CL z){return CL(std::abs(z),0);},fa(x)),leaf(c)); }; return r; }
  X squash(const X&a,double scale){ // real in (-scale,scale) or of bounded modulus
    X d=positive(a,1.0); X q=bin("/",a,d); q=bin("*",konst(scale),q); return q; }
  // vector code has real(), imag(), norm() for vectors only: make sure that the argument is one
  X vec(const X& a){ return avx&&a.cplx? bin("+",a,cl[0]): a; }
  X unary(X a,bool wantReal){
    auto& r=R();
    for(;;) switch(r.range(0,22)){
      case 0: { X b=squash(a,3); if(jit&&avx&&b.cplx) continue; bool c=r.coin(); return mk(c?fcn::sin(b.e):Expression(Sin(b.e)),[](CL z){return std::sin(z);},b,b.cplx,"sin",4); }
      case 1: { X b=squash(a,3); if(jit&&avx&&b.cplx) continue; bool c=r.coin(); return mk(c?fcn::cos(b.e):Expression(Cos(b.e)),[](CL z){return std::cos(z);},b,b.cplx,"cos",4); }
      case 2: { X b=squash(a,1.2); if(jit&&avx&&b.cplx) continue; return mk(fcn::tan(b.e),[](CL z){return std::tan(z);},b,b.cplx,"tan",8); }
      case 3: { X b=squash(a,4); return mk(r.coin()?fcn::exp(b.e):Expression(Exp(b.e)),[](CL z){return std::exp(z);},b,b.cplx,"exp",8); }
      case 4: { X b=a; if(jit&&!b.cplx) b=positive(a); if(avx&&b.cplx) continue; return mk(fcn::log(b.e),[](CL z){return std::log(z);},b,b.cplx,"log",4); }
      case 5: { X b=a; if(jit&&!b.cplx) b=positive(a); return mk(r.coin()?fcn::sqrt(b.e):Expression(Sqrt(b.e)),[](CL z){return std::sqrt(z);},b,b.cplx,"sqrt",4); }
      case 6: { return mk(fcn::abs(a.e),[](CL z){return CL(std::abs(z),0);},a,false,"abs",4); }
      case 7: { if(!a.cplx&&jit) continue; a=vec(a); return mk(fcn::norm(a.e),[](CL z){return CL(std::norm(z),0);},a,false,"norm",4); }
      case 8: { if(!a.cplx&&jit) continue; a=vec(a); auto fa=a.f; return {fcn::conj(a.e),[=](const Env&x){ Val v=fa(x); v.v=std::conj(v.v); return v; },a.cplx,"conj("+a.s+")"}; }
      case 9: { if(!a.cplx&&jit) continue; a=vec(a); auto fa=a.f; return {Real(a.e),[=](const Env&x){ Val v=fa(x); v.v=v.v.real(); v.m=std::abs(v.v); v.e2=v.e; return v; },false,"real("+a.s+")"}; }
      case 10:{ if(!a.cplx&&jit) continue; a=vec(a); auto fa=a.f; return {Imag(a.e),[=](const Env&x){ Val v=fa(x); v.v=v.v.imag(); v.m=std::abs(v.v); v.e2=v.e; return v; },false,"imag("+a.s+")"}; }
      case 11:{ if(avx) continue; X b= jit&&a.cplx? a: squash(a,0.9); if(jit&&b.cplx) continue; return mk(fcn::asin(b.e),[](CL z){return std::asin(z);},b,b.cplx,"asin",16); }
      case 12:{ if(avx) continue; X b= squash(a,0.9); if(jit&&b.cplx) continue; return mk(fcn::acos(b.e),[](CL z){return std::acos(z);},b,b.cplx,"acos",16); }
      case 13:{ if(avx||(jit&&a.cplx)) continue; return mk(fcn::atan(a.e),[](CL z){return std::atan(z);},a,a.cplx,"atan",16); }
      case 14:{ X b=a; if(jit&&!b.cplx) b=positive(a); return mk(r.coin()?fcn::isqrt(b.e):Expression(ISqrt(b.e)),[](CL z){ if(std::abs(z)<1e-4L) throw Skip(); return CL(1)/std::sqrt(z);},b,b.cplx,"isqrt",8); }
      case 15:{ if(avx||a.cplx) continue; X b=positive(a); return mk(LGamma(b.e),[](CL z){return CL(lgam(z.real()),0);},b,false,"lgamma",64); }
      case 16:{ int n=r.range(-3,5); if(n<0&&false) continue; auto fa=a.f; return {fcn::fpow(a.e,n),[=](const Env&x){ Val b=fa(x); Val o=kleaf(1); for(int i=0;i<std::abs(n);++i) o=mul(o,b); return n<0? div(kleaf(1),o):o; },a.cplx,"fpow("+a.s+","+std::to_string(n)+")"}; }
      case 17:{ if(a.cplx || (jit&&is<Constant>(a.e))) continue; auto fa=a.f; Expression e= fcn::safe_sqrt(a.e); return {e,[=](const Env&x){ Val b=fa(x); if(cmp(b,leaf(0))<=0) return leaf(0); return fun([](CL z){return std::sqrt(z);},b,4); },false,"safe_sqrt("+a.s+")"}; }
      case 18:{ if(a.cplx) continue; auto fa=a.f; return {fcn::complex_sqrt(a.e),[=](const Env&x){ Val b=fa(x); if(cmp(b,leaf(0))>0) return fun([](CL z){return std::sqrt(z);},b,4); b.v=-b.v; Val s=fun([](CL z){return std::sqrt(z);},b,4); s.v*=CL(0,1); return s; },true,"complex_sqrt("+a.s+")"}; }
      case 19:{ if(!cse) continue; return {make_cse(a.e,r.coin(0.5)),a.f,a.cplx,"cse("+a.s+")"}; }
      case 20:{ return mixed(a); }
      case 21:{ if(avx) continue; if(r.coin()||jit){ X b=positive(a,0.3); double p=r.pick<double>({0,1,2,3,0.5,-1,-2,1.5,0.3}); return mk(fcn::pow(b.e,p),[p](CL z){return std::pow(z,CL(p));},b,false,"pow"+vf::str(p),16); }
                 double p=r.range(0,4); return mk(fcn::pow(a.e,p),[p](CL z){ CL o=1; for(int i=0;i<p;++i) o*=z; return o; },a,a.cplx,"pow"+vf::str(p),32); }
      case 22:{ return neg(a); }
    } }
  X condition(int depth){
    auto& r=R(); X o; o.cond=true; o.cplx=false;
    if(depth>0 && r.coin(0.3)){ X a=condition(depth-1), b=condition(depth-1); auto fa=a.f, fb=b.f; if(r.coin()){ o.e=a.e&&b.e; o.s="("+a.s+"&&"+b.s+")"; o.f=[=](const Env&x){ bool p=truth(fa(x)), q=truth(fb(x)); return boolean(p&&q); }; } else { o.e=a.e||b.e; o.s="("+a.s+"||"+b.s+")"; o.f=[=](const Env&x){ bool p=truth(fa(x)), q=truth(fb(x)); return boolean(p||q); }; } return o; }
    X a= r.coin(0.3)? r.pick(rl): gen(false,depth-1), b= r.coin(0.3)? r.pick(rl): r.coin(0.3)? konst(rc()): gen(false,depth-1); auto fa=a.f, fb=b.f;
    switch(r.range(0,4)){
      case 0: o.e=a.e<b.e;  o.s="("+a.s+"<"+b.s+")";  o.f=[=](const Env&x){ return boolean(cmp(fa(x),fb(x))<0); }; break;
      case 1: o.e=a.e>b.e;  o.s="("+a.s+">"+b.s+")";  o.f=[=](const Env&x){ return boolean(cmp(fa(x),fb(x))>0); }; break;
      case 2: o.e=a.e<=b.e; o.s="("+a.s+"<="+b.s+")"; o.f=[=](const Env&x){ return boolean(cmp(fa(x),fb(x))<=0); }; break;
      case 3: o.e=a.e>=b.e; o.s="("+a.s+">="+b.s+")"; o.f=[=](const Env&x){ return boolean(cmp(fa(x),fb(x))>=0); }; break;
      default: o.e=a.e==b.e; o.s="("+a.s+"=="+b.s+")"; o.f=[=](const Env&x){ Val p=fa(x),q=fb(x); L d=std::abs(p.v-q.v); if(p.e+q.e>0 && d<=100*(p.e+q.e)) throw Skip(); return boolean(d==0); }; break;
    } return o; }
  // want a complex-typed (or at least any) result when c is set, a real one otherwise
  static bool nonfinite(const Expression& e){ auto s=e.to_string(); return s.find("inf")!=std::string::npos||s.find("nan")!=std::string::npos; }
  // a folded constant that overflowed has no spelling in generated code
  X gen(bool c,int depth){ for(;;){ X x=gen_(c,depth); if(!jit||!nonfinite(x.e)) return x; } }
  X gen_(bool c,int depth){
    auto& r=R();
    if(depth<=0 || r.coin(0.08)){ if(c&&r.coin(0.6)) return r.coin(0.6)&&!cl.empty()? r.pick(cl): kplx(CD(rc(),rc())); return r.coin(0.75)? r.pick(rl): konst(rc()); }
    X o;
    int k=r.range(0,19);
    if(k<9){ static const char* ops[]={"+","-","*","/"}; X a=gen(c,depth-1), b=gen(c&&r.coin(0.7),depth-1); if(r.coin(0.5)) std::swap(a,b); o=bin(ops[r.range(0,3)],a,b); }
    else if(k<15){ o=unary(gen(c||r.coin(0.2),depth-1),!c); }
    else if(k==15){ X a=gen(false,depth-1), b=gen(false,depth-1); auto fa=a.f, fb=b.f; o={fcn::atan2(a.e,b.e),[=](const Env&x){ return fun2([](CL p,CL q){ if(std::hypot(p.real(),q.real())<1e-4L || (q.real()<0 && std::abs(p.real())<1e-6L)) throw Skip(); return CL(std::atan2(p.real(),q.real()),0);},fa(x),fb(x),4); },false,"atan2("+a.s+","+b.s+")"}; }
    else if(k==16){ X a=gen(false,depth-1), b=positive(gen(false,depth-2),0.5); auto fa=a.f, fb=b.f; o={Fmod(a.e,b.e),[=](const Env&x){ Val p=fa(x),q=fb(x); L t=p.v.real()/q.v.real(), et=(p.e+std::abs(t)*q.e)/std::abs(q.v)+U*std::abs(t); if(std::abs(t)>1e6L || std::abs(t-std::round(t))<=200*et+1e-9L) throw Skip(); L v=std::fmod(p.v.real(),q.v.real()); L e=p.e+std::abs(t)*q.e+8*U*(std::abs(p.v.real())+std::abs(q.v.real())); return Val{v,e,std::abs(v),e}; },false,"fmod("+a.s+","+b.s+")"}; }
    else if(k==17 && !avx){ X a=positive(gen(false,depth-1),0.3), b=squash(gen(false,depth-1),2); auto fa=a.f, fb=b.f; bool cls=r.coin(); o={cls?Expression(Pow(a.e,b.e)):fcn::pow(a.e,b.e),[=](const Env&x){ return fun2([](CL p,CL q){return std::pow(p,q);},fa(x),fb(x),16); },false,"pow("+a.s+","+b.s+")"}; }
    else { X q=condition(depth-1), a=gen(c,depth-1), b=gen(c&&r.coin(0.5),depth-1); if(avx && a.cplx!=b.cplx) { a=gen(false,depth-1); b=gen(false,depth-1); if(a.cplx!=b.cplx){ a=r.pick(rl); b=r.pick(rl);} } auto fq=q.f, fa=a.f, fb=b.f; o={Ternary(q.e,a.e,b.e),[=](const Env&x){ bool t=truth(fq(x)); Val va=fa(x), vb=fb(x); Val v= t? va:vb; v.m=std::abs(v.v); v.e2=v.e; return v; },a.cplx||b.cplx,"("+q.s+"?"+a.s+":"+b.s+")"}; }
    if(!c && o.cplx){ o=vec(o); auto f=o.f; if(r.coin()) { o.e=Real(o.e); o.s="real("+o.s+")"; o.f=[=](const Env&x){ Val v=f(x); v.v=v.v.real(); v.m=std::abs(v.v); v.e2=v.e; return v; }; } else { o.e=fcn::norm(o.e); o.s="norm("+o.s+")"; o.f=[=](const Env&x){ return fun([](CL z){return CL(std::norm(z),0);},f(x),4); }; } o.cplx=false; }
    return o; }
};
// compare with the reference; false when the case is too ill conditioned to judge
inline bool judge(CD got,const Val& v,bool expanded,const std::string& key,const std::string& what,L extra=0){
  L e=(expanded? v.e2+v.e: v.e)*8+extra*std::abs(v.v)+1e-28L; if(e>1e-6L*std::max(std::abs(v.v),(L)1e-12L)) { vf::count("ill_conditioned"); return false; }
  vf::eval(); L d=std::abs(CL(got.real(),got.imag())-v.v);
  if(!(d<=e)) vf::expect(false,key,what+": got "+vf::str(got)+" expected "+vf::str(CD(v.v))+" allowed error "+vf::str(double(e)));
  return true; }
}
#endif
