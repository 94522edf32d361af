// evaluates an expression tree in long double for given values of its parameters, one visit per node
#ifndef VF_INTERP_H
#define VF_INTERP_H
#include <complex>
#include <map>
#include <set>
#include <unordered_map>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <iostream>
#include <sstream>
#include <algorithm>
#include <array>
#include <tuple>
#include <cmath>
#include <typeinfo>
#define private public
#include "AmpGen/Expression.h"
#undef private
#include "AmpGen/Tensor.h"
#include "vf.h"
struct Interp {
  using L=long double; using C=std::complex<L>;
  std::map<std::string,L> v; std::set<std::string> used, unset; bool strict=true; bool unsupported=false;
  std::unordered_map<const AmpGen::IExpression*,C> memo; std::vector<AmpGen::Expression> keep;
  void fresh(){ memo.clear(); keep.clear(); }
  C operator()(const AmpGen::Expression& e){ keep.push_back(e); return go(e.get()); }
  C go(const AmpGen::Expression& e){ return go(e.get()); }
  C go(const AmpGen::IExpression* n){ if(!n) return 0; auto it=memo.find(n); if(it!=memo.end()) return it->second; C r=ev(n); memo[n]=r; return r; }
  L par(const AmpGen::Parameter& p){ auto it=v.find(p.name()); used.insert(p.name()); if(it!=v.end()) return it->second; unset.insert(p.name()); return p.defaultValue(); }
  static C fix(C z){ if(z.imag()==0) return C(z.real(),0); return z; }
  C ev(const AmpGen::IExpression* n){ using namespace AmpGen;
    if(auto p=dynamic_cast<const Constant*>(n)){ auto z=(*p)(); return C(z.real(),z.imag()); }
    if(auto p=dynamic_cast<const Parameter*>(n)) return par(*p);
    if(auto p=dynamic_cast<const SubTree*>(n)) return go(p->m_expression);
    if(auto p=dynamic_cast<const Ternary*>(n)) return go(p->m_cond).real()!=0? go(p->m_v1): go(p->m_v2);
    if(auto p=dynamic_cast<const ComplexParameter*>(n)) return C(par(p->m_real),par(p->m_imag));
    if(auto b=dynamic_cast<const IBinaryExpression*>(n)){ C x=go(b->l()), y=go(b->r());
      if(dynamic_cast<const Sum*>(n)) return x+y; if(dynamic_cast<const Sub*>(n)) return x-y; if(dynamic_cast<const Product*>(n)) return x*y;
      if(dynamic_cast<const Divide*>(n)) return y.imag()==0? x/y.real(): x/y;
      if(dynamic_cast<const Pow*>(n)){ if(y.imag()==0&&y.real()==std::floor(y.real())&&std::abs(y.real())<64){ C r=1; for(int i=0;i<std::abs(int(y.real()));++i) r*=x; return y.real()<0? C(1)/r: r; } return x.imag()==0&&x.real()>=0&&y.imag()==0? C(std::pow(x.real(),y.real())): std::pow(x,y); }
      if(dynamic_cast<const LessThan*>(n)) return x.real()<y.real(); if(dynamic_cast<const GreaterThan*>(n)) return x.real()>y.real(); if(dynamic_cast<const LessThanEqualTo*>(n)) return x.real()<=y.real(); if(dynamic_cast<const GreaterThanEqualTo*>(n)) return x.real()>=y.real();
      if(dynamic_cast<const And*>(n)) return x.real()!=0&&y.real()!=0; if(dynamic_cast<const Or*>(n)) return x.real()!=0||y.real()!=0; if(dynamic_cast<const Equal*>(n)) return x==y; if(dynamic_cast<const ATan2*>(n)) return atan2l(x.real(),y.real()); if(dynamic_cast<const Fmod*>(n)) return fmodl(x.real(),y.real()); }
    if(auto u=dynamic_cast<const IUnaryExpression*>(n)){ C x=fix(go(u->arg())); bool re=x.imag()==0;
      if(dynamic_cast<const Sqrt*>(n)) return re? (x.real()>=0? C(sqrtl(x.real())): C(0,sqrtl(-x.real()))): std::sqrt(x); if(dynamic_cast<const ISqrt*>(n)) return C(1)/std::sqrt(x);
      if(dynamic_cast<const Exp*>(n)) return std::exp(x); if(dynamic_cast<const Log*>(n)) return re&&x.real()>0? C(logl(x.real())): std::log(x); if(dynamic_cast<const Abs*>(n)) return std::abs(x); if(dynamic_cast<const Norm*>(n)) return std::norm(x); if(dynamic_cast<const Conj*>(n)) return std::conj(x); if(dynamic_cast<const Real*>(n)) return x.real(); if(dynamic_cast<const Imag*>(n)) return x.imag();
      if(dynamic_cast<const Sin*>(n)) return std::sin(x); if(dynamic_cast<const Cos*>(n)) return std::cos(x); if(dynamic_cast<const Tan*>(n)) return std::tan(x); if(dynamic_cast<const ASin*>(n)) return re&&std::abs(x.real())<=1? C(asinl(x.real())): std::asin(x); if(dynamic_cast<const ACos*>(n)) return re&&std::abs(x.real())<=1? C(acosl(x.real())): std::acos(x); if(dynamic_cast<const ATan*>(n)) return re? C(atanl(x.real())): std::atan(x); if(dynamic_cast<const LGamma*>(n)) return lgammal(x.real()); }
    if(dynamic_cast<const Function*>(n)) unsupported=true;
    auto z=(*n)(); return C(z.real(),z.imag()); }
  // tensors
  std::vector<C> operator()(const AmpGen::Tensor& t){ std::vector<C> o; for(unsigned i=0;i<t.size();++i) o.push_back((*this)(t[i])); return o; }
};
// small dense linear algebra on long double complex
namespace la { using L=long double; using C=std::complex<L>; using V=std::vector<C>; struct M { int n,m; V a; M(int n_=0,int m_=0):n(n_),m(m_),a(n_*m_){} C& operator()(int i,int j){ return a[i*m+j]; } const C& operator()(int i,int j) const { return a[i*m+j]; } };
inline M mul(const M& x,const M& y){ M r(x.n,y.m); for(int i=0;i<x.n;++i) for(int k=0;k<x.m;++k){ C c=x(i,k); if(c!=C(0)) for(int j=0;j<y.m;++j) r(i,j)+=c*y(k,j); } return r; }
inline M add(const M& x,const M& y,C f=1){ M r=x; for(size_t i=0;i<r.a.size();++i) r.a[i]+=f*y.a[i]; return r; }
inline M scale(const M& x,C f){ M r=x; for(auto& z: r.a) z*=f; return r; }
inline M id(int n){ M r(n,n); for(int i=0;i<n;++i) r(i,i)=1; return r; }
inline M dag(const M& x){ M r(x.m,x.n); for(int i=0;i<x.n;++i) for(int j=0;j<x.m;++j) r(j,i)=std::conj(x(i,j)); return r; }
inline M tr(const M& x){ M r(x.m,x.n); for(int i=0;i<x.n;++i) for(int j=0;j<x.m;++j) r(j,i)=x(i,j); return r; }
inline L norm(const M& x){ L s=0; for(auto& z: x.a) s=std::max(s,std::abs(z)); return s; }
inline L dist(const M& x,const M& y){ if(x.a.size()!=y.a.size()) return 1e300L; return norm(add(x,y,-1)); }
inline M expm(M x){ L s=norm(x)*x.n; int k=0; while(s>0.25L){ s/=2; ++k; } x=scale(x,std::pow(2.0L,-k)); M r=id(x.n),t=id(x.n); for(int i=1;i<30;++i){ t=scale(mul(t,x),C(1.0L/i)); r=add(r,t); } while(k--) r=mul(r,r); return r; }
inline V mv(const M& x,const V& y){ V r(x.n); for(int i=0;i<x.n;++i) for(int j=0;j<x.m;++j) r[i]+=x(i,j)*y[j]; return r; }
inline M from(const V& a,int n,int m){ M r(n,m); if(a.size()==size_t(n*m)) r.a=a; else r.a.assign(n*m,C(NAN)); return r; }
inline L mink(const V& a,const V& b){ return (a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]).real(); } }
#endif
