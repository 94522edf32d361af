// A stand-in for ROOT's minimisers: a damped Newton minimiser on numerical derivatives that records what it was given, so that the
// bookkeeping around a fit (which parameters are offered, which values are tried, where the results go) can be observed.
#ifndef VF_MINUITSTUB_H
#define VF_MINUITSTUB_H
#include "rootstub.h"
#include <memory>
namespace ROOT { namespace Math {
template<class T> class IBaseFunctionMultiDimTempl { public: virtual ~IBaseFunctionMultiDimTempl()=default; virtual IBaseFunctionMultiDimTempl* Clone() const=0; virtual unsigned NDim() const=0; T operator()(const T* x) const { return DoEval(x); } private: virtual T DoEval(const T*) const=0; };
template<class T> class IGradientFunctionMultiDimTempl: virtual public IBaseFunctionMultiDimTempl<T> { public: virtual void Gradient(const T* x,T* g) const { for(unsigned i=0;i<this->NDim();++i) g[i]=DoDerivative(x,i); } private: virtual T DoDerivative(const T*,unsigned) const=0; };
typedef IBaseFunctionMultiDimTempl<double> IBaseFunctionMultiDim; typedef IBaseFunctionMultiDim IMultiGenFunction; typedef IGradientFunctionMultiDimTempl<double> IGradientFunctionMultiDim; typedef IGradientFunctionMultiDim IMultiGradFunction;
class Functor: public IBaseFunctionMultiDim { public: std::function<double(const double*)> f; unsigned n; template<class F> Functor(F& g,unsigned d): f([&g](const double* x){ return g(x); }), n(d){} IBaseFunctionMultiDim* Clone() const override { return new Functor(*this); } unsigned NDim() const override { return n; } private: double DoEval(const double* x) const override { return f(x); } };
class Minimizer { public: struct Var { std::string name; double value=0,step=0; bool lim=false; double lo=0,hi=0; };
  std::vector<Var> var; std::vector<double> x,err,cov; const IBaseFunctionMultiDim* fcn=nullptr; unsigned calls=0,maxCalls=100000; int status=-1; double fval=0,edm=0; std::function<void(Minimizer*)> onIteration;
  static std::vector<Minimizer*>& made(){ static std::vector<Minimizer*> m; return m; }
  Minimizer(){ made().push_back(this); } virtual ~Minimizer(){ auto& m=made(); for(size_t i=0;i<m.size();++i) if(m[i]==this){ m.erase(m.begin()+i); break; } } Minimizer(const Minimizer&)=delete;
  virtual void SetFunction(const IBaseFunctionMultiDim& f){ own.reset(f.Clone()); fcn=own.get(); } virtual void SetFunction(const IGradientFunctionMultiDim& f){ own.reset(f.Clone()); fcn=own.get(); }
  virtual bool SetVariable(unsigned i,const std::string& n,double v,double s){ if(i>var.size()) return false; Var q; q.name=n;q.value=v;q.step=s; if(i==var.size()) var.push_back(q); else var[i]=q; return true; }
  virtual bool SetVariableLimits(unsigned i,double lo,double hi){ if(i>=var.size()) return false; var[i].lim=true; var[i].lo=lo; var[i].hi=hi; return true; }
  void SetMaxFunctionCalls(unsigned n){maxCalls=n;} void SetMaxIterations(unsigned){} void SetTolerance(double t){tol=t;} void SetPrecision(double){} void SetStrategy(int){} void SetPrintLevel(int){} double ErrorDef() const {return 1;} double tol=1;
  double eval(const std::vector<double>& y){ ++calls; return (*fcn)(y.data()); }
  virtual bool Minimize(){ size_t n=var.size(); x.resize(n); err.assign(n,0); cov.assign(n*n,0); calls=0; status=-1; if(!fcn) return false; for(size_t i=0;i<n;++i) x[i]=clamp(i,var[i].value); fval=eval(x); std::vector<double> g(n),h(n*n); double lambda=0;
    for(int it=0; it<60 && calls<maxCalls; ++it){ derivatives(x,g,h); std::vector<int> act; for(size_t i=0;i<n;++i){ bool atlo=var[i].lim&&x[i]<=var[i].lo&&g[i]>0, athi=var[i].lim&&x[i]>=var[i].hi&&g[i]<0; if(!atlo&&!athi) act.push_back(i); }
      bool moved=false; for(int tr=0;tr<14;++tr){ auto s=solve(h,g,act,lambda); auto y=x; for(size_t k=0;k<act.size();++k) y[act[k]]=clamp(act[k],x[act[k]]-s[k]); double f=eval(y); if(f<fval-1e-15*std::abs(fval)){ double d=0; for(size_t i=0;i<n;++i) d=std::max(d,std::abs(y[i]-x[i])/(std::abs(x[i])+1)); x=y; fval=f; lambda/=8; moved=d>1e-12; break; } lambda= lambda>0? 6*lambda: 1e-3; }
      if(onIteration) onIteration(this); if(!moved) break; }
    derivatives(x,g,h); std::vector<int> all; for(size_t i=0;i<n;++i) all.push_back(i); inverse(h,cov,n); for(auto& v:cov) v*=2; for(size_t i=0;i<n;++i) err[i]=std::sqrt(std::max(0.,cov[i*n+i])); edm=0; status= calls<maxCalls?0:4; eval(x); return status==0; }
  const double* X() const {return x.data();} const double* Errors() const {return err.data();} double CovMatrix(unsigned i,unsigned j) const { return cov[i*var.size()+j]; } int CovMatrixStatus() const {return status==0?3:-1;} int Status() const{return status;} double Edm() const{return edm;} unsigned NCalls() const{return calls;} double MinValue() const{return fval;} unsigned NDim() const{return var.size();}
  // minimum of the function over the other variables with one held fixed rises by one
  virtual bool GetMinosError(unsigned k,double& lo,double& hi,int=0){ if(k>=var.size()||status!=0) return false; double r[2]; for(int sgn=0;sgn<2;++sgn){ double a=0,b=err[k]*(sgn?1:-1); auto q=[&](double d){ return profile(k,x[k]+d)-fval; }; for(int i=0;i<30&&q(b)<1;++i) b*=1.5; for(int i=0;i<45;++i){ double m=0.5*(a+b); if(q(m)<1) a=m; else b=m; } r[sgn]=0.5*(a+b); } lo=r[0]; hi=r[1]; return true; }
  double profile(unsigned k,double v){ auto sx=x; size_t n=var.size(); std::vector<double> g(n),h(n*n); x[k]=v; double f=eval(x); for(int it=0;it<25;++it){ derivatives(x,g,h); std::vector<int> act; for(size_t i=0;i<n;++i) if(i!=k) act.push_back(i); if(act.empty()) break; auto s=solve(h,g,act,0); auto y=x; for(size_t j=0;j<act.size();++j) y[act[j]]=clamp(act[j],x[act[j]]-s[j]); double f2=eval(y); if(!(f2<f-1e-14*std::abs(f))) break; x=y; f=f2; } x=sx; return f; }
 private: std::unique_ptr<IBaseFunctionMultiDim> own;
  double clamp(size_t i,double v) const { return var[i].lim? std::min(var[i].hi,std::max(var[i].lo,v)): v; }
  void derivatives(const std::vector<double>& p,std::vector<double>& g,std::vector<double>& h){ size_t n=var.size(); std::vector<double> d(n); for(size_t i=0;i<n;++i) d[i]=1e-4*(1+std::abs(p[i])); auto at=[&](int i,double a,int j,double b){ auto y=p; if(i>=0) y[i]+=a*d[i]; if(j>=0) y[j]+=b*d[j]; return eval(y); }; double f0=eval(p); for(size_t i=0;i<n;++i){ double fp=at(i,1,-1,0),fm=at(i,-1,-1,0); g[i]=(fp-fm)/(2*d[i]); h[i*n+i]=(fp+fm-2*f0)/(d[i]*d[i]); for(size_t j=0;j<i;++j) h[i*n+j]=h[j*n+i]=(at(i,1,j,1)-at(i,1,j,-1)-at(i,-1,j,1)+at(i,-1,j,-1))/(4*d[i]*d[j]); } }
  std::vector<double> solve(const std::vector<double>& h,const std::vector<double>& g,const std::vector<int>& a,double lambda) const { size_t n=var.size(),m=a.size(); std::vector<double> M(m*m),b(m); for(size_t i=0;i<m;++i){ b[i]=g[a[i]]; for(size_t j=0;j<m;++j) M[i*m+j]=h[a[i]*n+a[j]]; M[i*m+i]+= lambda*(std::abs(h[a[i]*n+a[i]])+1e-6); } for(size_t i=0;i<m;++i){ size_t p=i; for(size_t k=i+1;k<m;++k) if(std::abs(M[k*m+i])>std::abs(M[p*m+i])) p=k; for(size_t k=0;k<m;++k) std::swap(M[i*m+k],M[p*m+k]); std::swap(b[i],b[p]); for(size_t r=0;r<m;++r) if(r!=i){ double q=M[r*m+i]/M[i*m+i]; for(size_t k=0;k<m;++k) M[r*m+k]-=q*M[i*m+k]; b[r]-=q*b[i]; } } for(size_t i=0;i<m;++i) b[i]/=M[i*m+i]; return b; }
  static void inverse(const std::vector<double>& h,std::vector<double>& o,size_t n){ TMatrixT<double> m(n,n); m.v=h; if(n) m.Invert(); o=m.v; } };
} // namespace Math
namespace Fit { class FitConfig {}; class FitResult { public: virtual ~FitResult()=default; unsigned NPar() const{return fParams.size();} unsigned NTotalParameters() const{return NPar();} double Parameter(unsigned i) const{return fParams[i];} double Error(unsigned i) const{return fErrors[i];} double CovMatrix(unsigned i,unsigned j) const { return i<j? fCovMatrix[i+j*(j+1)/2]: fCovMatrix[j+i*(i+1)/2]; } std::string ParName(unsigned i) const{return fParNames[i];} int Status() const{return fStatus;} bool IsValid() const{return fValid;} double MinFcnValue() const{return fVal;} bool HasMinosError(unsigned i) const{return fMinosErrors.count(i);} double LowerError(unsigned i) const{ auto q=fMinosErrors.find(i); return q==fMinosErrors.end()? fErrors[i]: q->second.first; } double UpperError(unsigned i) const{ auto q=fMinosErrors.find(i); return q==fMinosErrors.end()? fErrors[i]: q->second.second; } unsigned NCalls() const{return fNCalls;} double Edm() const{return fEdm;} unsigned Ndf() const{return fNdf;} protected: bool fValid=false; unsigned fNdf=0,fNCalls=0; int fStatus=-1,fCovStatus=0; double fVal=0,fEdm=-1; std::map<unsigned,bool> fFixedParams; std::vector<double> fParams,fErrors,fCovMatrix; std::vector<std::string> fParNames; std::map<unsigned,std::pair<double,double>> fMinosErrors; }; }
namespace Minuit2 {
struct VfVec { std::vector<double> v; const double* Data() const{return v.data();} double operator[](int i) const{return v[i];} double operator()(int i) const{return v[i];} unsigned size() const{return v.size();} };
struct VfErr { double Dcovar() const{return 0;} }; struct VfGrad { VfVec g,s; const VfVec& Vec() const{return g;} const VfVec& Gstep() const{return s;} };
class MinimumState { public: double f=0,e=0; int n=0; VfVec v; VfGrad g; double Fval() const{return f;} double Edm() const{return e;} int NFcn() const{return n;} bool HasCovariance() const{return true;} VfErr Error() const{return {};} const VfVec& Vec() const{return v;} const VfGrad& Gradient() const{return g;} };
class MinimumParameters {};
class MnTraceObject { public: virtual ~MnTraceObject()=default; virtual void operator()(int,const MinimumState&)=0; };
class Minuit2Minimizer: public Math::Minimizer { public: MnTraceObject* tr=nullptr; Minuit2Minimizer(const char* =""){} void SetTraceObject(MnTraceObject& t){ tr=&t; } bool Minimize() override { int k=0; onIteration=[&](Math::Minimizer* m){ if(!tr) return; MinimumState s; s.f=m->fval; s.n=m->calls; for(size_t i=0;i<m->var.size();++i){ auto& q=m->var[i]; double u=m->x[i]; if(q.lim) u=std::asin(std::max(-1.,std::min(1.,2*(m->x[i]-q.lo)/(q.hi-q.lo)-1))); s.v.v.push_back(u); s.g.g.v.push_back(0); s.g.s.v.push_back(q.step); } (*tr)(k++,s); }; bool r=Math::Minimizer::Minimize(); onIteration=nullptr; return r; } };
}
namespace Minuit { enum EMinimizerType { kMigrad }; }
}
class TMinuitMinimizer: public ROOT::Math::Minimizer { public: TMinuitMinimizer(ROOT::Minuit::EMinimizerType=ROOT::Minuit::kMigrad,unsigned=0){} };
#endif
