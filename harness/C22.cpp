// C22: splines, rational approximations, numerical integration, compensated sums
#include "vf.h"
#include "jit.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Pade.h"
#include "AmpGen/NumericalIntegration.h"
#include "AmpGen/KahanSum.h"
#include <array>
#include <numeric>
#include <cmath>
using namespace AmpGen;
typedef long double L;
typedef CompiledExpression<complex_t(const double*,const double*)> CE;
static std::string ls(L x){ return vf::fmt("%.17Lg",x); }
#if ENABLE_AVX
typedef real_v rv;
static const int W=4;
#else
static const int W=1;
#endif
// ---------------------------------------------------------------- splines
struct Nat { std::vector<L> y,m; L a,b; Nat(){} Nat(std::vector<L> v,L lo,L hi):y(v),m(v.size()),a(lo),b(hi){ int n=y.size(); L h=(b-a)/(n-1); std::vector<L> c(n),d(n);
    for(int i=1;i<n-1;++i){ L rhs=6*(y[i+1]-2*y[i]+y[i-1])/(h*h); L w=4-(i>1? c[i-1]:0); c[i]=1/w; d[i]=(rhs-(i>1? d[i-1]:0))/w; } for(int i=n-2;i>=1;--i) m[i]=d[i]-c[i]*m[i+1]; }
  int bin(L x) const { int n=y.size(); return std::min(n-2,std::max(0,int(floorl((x-a)/((b-a)/(n-1)))))); }
  L operator()(L x) const { int n=y.size(); L h=(b-a)/(n-1); int i=bin(x); L t=x-a-i*h,u=h-t; return (m[i]*u*u*u+m[i+1]*t*t*t)/(6*h)+(y[i]/h-m[i]*h/6)*u+(y[i+1]/h-m[i+1]*h/6)*t; }
  L scale() const { L t=0; for(auto& v: y) t=std::max(t,std::abs(v)); return t; } };
struct Sp { std::string name; int K; double lo,hi; std::vector<double> v; std::vector<MinuitParameter*> p; Nat nat; void renew(){ std::vector<L> t(v.begin(),v.end()); nat=Nat(t,lo,hi); } };
static void splines(int part,int rounds){ auto& r=vf::rng(); for(int rd=0;rd<rounds;++rd){ MinuitParameterSet mps; std::vector<Sp> sp(8); std::vector<CE*> fs; std::vector<CompiledExpressionBase*> fb; std::map<std::string,unsigned> evt={{"u",0},{"w",1}}; Expression u=Parameter("u"),w=Parameter("w");
    for(size_t q=0;q<sp.size();++q){ auto& s=sp[q]; s.name="sp"+std::to_string(q); s.K=q==0? 3: r.range(3,q%2? 40:9); switch(r.range(0,3)){ case 0: s.lo=0; s.hi=1; break; case 1: s.lo=r.uni(-3,0); s.hi=s.lo+r.uni(0.5,5); break; case 2: s.lo=0.1*r.range(-20,20); s.hi=s.lo+0.1*r.range(1,60); break; default: s.lo=r.range(-100,100); s.hi=s.lo+0.1*(s.K-1); } double amp=std::pow(10.,r.range(-3,3)); for(int i=0;i<s.K;++i){ s.v.push_back(amp*r.gauss()); s.p.push_back(mps.add(s.name+"::"+std::to_string(i),Flag::Free,s.v[i],0.1)); } s.renew(); Expression e; if(q==5){ vf::capture([&]{ OptionsParser::setArg("shape"+std::to_string(part*100+rd)+"::Spline "+std::to_string(s.K)+vf::fmt(" %.17g %.17g",s.lo,s.hi)); }); s.name="shape"+std::to_string(part*100+rd)+"::Spline::Arr"; s.p.clear(); for(int i=0;i<s.K;++i) s.p.push_back(mps.add(s.name+"::"+std::to_string(i),Flag::Free,s.v[i],0.1)); e=getSpline("shape"+std::to_string(part*100+rd),u,"Arr"); } else if(q==6){ std::string n="old"+std::to_string(part*100+rd); vf::capture([&]{ OptionsParser::setArg(n+"::Spline::N "+std::to_string(s.K)); OptionsParser::setArg(n+"::Spline::Min "+vf::fmt("%.17g",s.lo)); OptionsParser::setArg(n+"::Spline::Max "+vf::fmt("%.17g",s.hi)); }); s.name=n+"::Spline::B"; s.p.clear(); for(int i=0;i<s.K;++i) s.p.push_back(mps.add(s.name+"::"+std::to_string(i),Flag::Free,s.v[i],0.1)); e=getSpline(n,u,"B"); } else e=Spline(s.name,s.K,s.lo,s.hi)(u,nullptr); fs.push_back(new CE(e,"sp"+std::to_string(q),evt,&mps)); fb.push_back(fs.back()); }
    // two splines and a constant in one function; the same spline at two places
    int A=r.range(0,4),B=r.range(0,4); { Expression e=2*Spline(sp[A].name,sp[A].K,sp[A].lo,sp[A].hi)(u,nullptr)-3*Spline(sp[B].name,sp[B].K,sp[B].lo,sp[B].hi)(w,nullptr)+w; fs.push_back(new CE(e,"mix",evt,&mps)); fb.push_back(fs.back()); } { Expression e=Spline(sp[7].name,sp[7].K,sp[7].lo,sp[7].hi)(u*u,nullptr); fs.push_back(new CE(e,"arg",evt,&mps)); fb.push_back(fs.back()); }
    CompilerWrapper cw; cw.compile(fb,vf::scratch()+vf::fmt("/spl%d_%d.cpp",part,rd)); for(auto f: fb) f->prepare();
#if ENABLE_AVX
    typedef CompiledExpression<real_v(const double*,const real_v*)> ACE; std::vector<ACE*> as; std::vector<CompiledExpressionBase*> ab; for(size_t q=0;q<3;++q){ auto& s=sp[q]; as.push_back(new ACE(Spline(s.name,s.K,s.lo,s.hi)(u,nullptr),"asp"+std::to_string(q),evt,&mps)); ab.push_back(as.back()); as.back()->compile(vf::scratch()+vf::fmt("/aspl%d_%d_%zu.cpp",part,rd,q)); } for(auto f: ab) f->prepare();
    auto lanes=[&]{ for(auto f: ab) f->prepare(); for(size_t q=0;q<3;++q){ auto& s=sp[q]; double h=(s.hi-s.lo)/(s.K-1); for(int it=0;it<12;++it){ double x[4]; for(auto& z: x){ int i=r.range(0,s.K-2); z=it%3==0? s.lo+i*h: s.lo+h*(i+r.uni(0.01,0.99)); } real_v ev[2]={real_v(x),real_v(0.)}; auto g=(*as[q])(ev).to_array(); vf::eval(); for(int l=0;l<4;++l){ L want=s.nat(x[l]); L tol=2e-11L*(s.nat.scale()+1e-300L)*(1+(std::abs(L(s.lo))+std::abs(L(s.hi)))/h*1e-3L); EXPECT(std::abs(g[l]-want)<=tol,"spline.vector",vf::fmt("%d knots on [%.17g,%.17g], lane %d at %.17g: ",s.K,s.lo,s.hi,l,x[l])+ls(g[l])+" instead of "+ls(want)); } vf::count("vectors"); } } };
#else
    auto lanes=[]{};
#endif
    auto at=[&](CE& f,double x,double y){
      double ev2[2]={x,y}; return f(ev2); };
    for(int turn=0;turn<3;++turn){ if(turn){ for(auto& s: sp){ for(int i=0;i<s.K;++i) if(r.coin(0.5)){ s.v[i]=r.gauss()*double(s.nat.scale()+1e-3); s.p[i]->setVal(s.v[i]); } s.renew(); } for(auto f: fb) f->prepare(); } lanes();
      for(size_t q=0;q<sp.size();++q){ auto& s=sp[q]; double h=(s.hi-s.lo)/(s.K-1); std::vector<double> xs; for(int i=0;i<s.K-1;++i){ double k=s.lo+i*h; if(i) xs.push_back(std::nextafter(k,-1e9)); xs.push_back(k); xs.push_back(std::nextafter(k,1e9)); xs.push_back(k+h*r.uni(0,1)); xs.push_back(k+h/2); } xs.push_back(s.hi); xs.push_back(std::nextafter(s.hi,-1e9));
        for(double x: xs){ if(x<s.lo||x>s.hi) continue; std::string d=vf::fmt("%d knots on [%.17g,%.17g] at %.17g, values:",s.K,s.lo,s.hi,x); for(double v: s.v) d+=vf::fmt(" %.6g",v); vf::begin_case(d); vf::eval(); vf::distinct(d); auto g=at(*fs[q],x,0); L want=s.nat(x); L tol=2e-11L*(s.nat.scale()+1e-300L)*(1+(std::abs(L(s.lo))+std::abs(L(s.hi)))/h*1e-3L); bool knot=std::abs(std::remainder(x-s.lo,h))<1e-9*h; EXPECT(std::abs(g.real()-want)<=tol&&g.imag()==0,knot? "spline.knot":"spline.value",d+": "+ls(g.real())+" instead of "+ls(want)); vf::count(knot? "knots":"between"); } if(turn==0&&rd==0&&q<2) vf::sample(vf::fmt("spline with %d knots",s.K)); }
      for(int it=0;it<10;++it){ double x=r.uni(sp[A].lo,sp[A].hi),y=r.uni(sp[B].lo,sp[B].hi); L want=2*sp[A].nat(x)-3*sp[B].nat(y)+y; auto g=at(*fs[8],x,y); vf::eval(); EXPECT(std::abs(g.real()-want)<=1e-9L*(1+sp[A].nat.scale()+sp[B].nat.scale()),"spline.mix",vf::fmt("%s(%.17g), %s(%.17g): ",sp[A].name.c_str(),x,sp[B].name.c_str(),y)+ls(g.real())+" instead of "+ls(want)); auto& s=sp[7]; if(s.hi>0){ double z=std::sqrt(r.uni(std::max(0.,s.lo),s.hi)); auto g2=at(*fs[9],z,0); L w2=s.nat(std::min<L>(L(z)*z,s.hi)); EXPECT(std::abs(g2.real()-w2)<=1e-8L*(s.nat.scale()+1e-300L),"spline.argument",vf::fmt("at %.17g: ",z)+ls(g2.real())+" instead of "+ls(w2)); vf::count("arguments"); } } }
    for(auto f: fs) delete f; } vf::require("knots",50); vf::require("between",50); }
// two knots: a straight line
static void line(){ auto& r=vf::rng(); std::string out; auto rc=vf::in_child([&]{ MinuitParameterSet mps; for(int i=0;i<2;++i) mps.add("two::"+std::to_string(i),Flag::Free,1.+2*i,0.1); CE f(Spline("two",2,0,1)(Parameter("u"),nullptr),"two",std::map<std::string,unsigned>{{"u",0}},&mps); CompilerWrapper cw; std::vector<CompiledExpressionBase*> fb={&f}; cw.compile(fb,vf::scratch()+"/two.cpp"); f.prepare(); for(int i=0;i<=8;++i){ double x=i/8.; std::cout<<vf::fmt("V %.17g %.17g\n",x,f(&x).real()); } },&out,120); (void)r; vf::eval(); int ok=0; size_t p=0; while((p=out.find("V ",p))!=std::string::npos){ double x,y; if(sscanf(out.c_str()+p,"V %lf %lf",&x,&y)==2&&std::abs(y-(1+2*x))<1e-12) ++ok; ++p; } EXPECT(ok==9,"spline.two",vf::fmt("a spline with two knots is not the straight line between them (status %d): ",int(rc))+out.substr(0,400)); }
// ---------------------------------------------------------------- rational approximation
// how badly conditioned the system defining the approximation of samples y at x is (long double, Gauss-Jordan)
static L conditioning(const std::vector<L>& x,const std::vector<L>& y){ int n=x.size(),N=(n-1)/2; std::vector<std::vector<L>> A(n,std::vector<L>(2*n)); L na=0; for(int i=0;i<n;++i){ L row=0; for(int k=0;k<=N;++k) A[i][k]=powl(x[i],k); for(int k=1;k<=N;++k) A[i][k+N]=-y[i]*powl(x[i],k); for(int k=0;k<n;++k) row+=std::abs(A[i][k]); na=std::max(na,row); A[i][n+i]=1; } for(int c=0;c<n;++c){ int p=c; for(int i=c;i<n;++i) if(std::abs(A[i][c])>std::abs(A[p][c])) p=i; std::swap(A[p],A[c]); if(A[c][c]==0) return INFINITY; L q=A[c][c]; for(auto& z: A[c]) z/=q; for(int i=0;i<n;++i) if(i!=c){ L f=A[i][c]; if(f!=0) for(int k=0;k<2*n;++k) A[i][k]-=f*A[c][k]; } } L ni=0; for(int i=0;i<n;++i){ L row=0; for(int k=0;k<n;++k) row+=std::abs(A[i][n+k]); ni=std::max(ni,row); } return na*ni; }
// values and tolerance: coefficients are known to eps*cond relative to the largest, the quotient has to be formed from them
template<unsigned N> static L quotientTol(const std::vector<double>& co,L cond,double x){ L big=0,g=1,f=0,w=1; for(double c: co) big=std::max(big,std::abs(L(c))); for(unsigned i=0;i<=N;++i){ f+=co[i]*w; if(i<N) g+=co[N+1+i]*w*x; w*=x; } return 1e-14L*cond*big*(N+1)*(1+std::abs(f/g))/std::abs(g); }
template<unsigned N> static void pade(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ double lo=r.uni(-2,2),hi=lo+r.uni(0.3,3); auto strat=Strategy(r.range(0,3)); // a function of its own form: poles outside the interval
    std::array<double,N+1> f; std::array<double,N+1> g; for(auto& x: f) x=r.gauss(); g[0]=1; double left=0.8; for(unsigned i=1;i<=N;++i){ g[i]=r.uni(-left,left)*0.7; left-=std::abs(g[i]); } f[N]+= f[N]<0? -0.5:0.5; g[N]+=g[N]<0? -0.1:0.1; auto ratio=[&](const double& s)->double{ L x=(L(s)-lo)/(L(hi)-lo),a=0,b=0,w=1; for(unsigned i=0;i<=N;++i){ a+=f[i]*w; b+=g[i]*w; w*=x; } return double(a/b); };
    auto condOf=[&](auto& fn){ std::vector<L> x,y; for(unsigned i=0;i<2*N+1;++i){ x.push_back(powl(L(i)/(2*N),int(strat)+1)); y.push_back(fn(double(x.back()*(hi-lo)+lo))); } return conditioning(x,y); };
    std::string d=vf::fmt("N=%u on [%.10g,%.10g] strategy %d",N,lo,hi,int(strat)); for(auto x: f) d+=vf::fmt(" %.10g",x); d+=" /"; for(auto x: g) d+=vf::fmt(" %.10g",x); vf::begin_case(d); vf::eval(); vf::distinct(d); Pade<N> p(ratio,lo,hi,strat); L cond=condOf(ratio); { std::vector<double> co; for(auto x: f) co.push_back(x); for(unsigned i=1;i<=N;++i) co.push_back(g[i]); for(int k=0;k<=20;++k){ double s=lo+(hi-lo)*k/20.; L tol=quotientTol<N>(co,cond,k/20.); if(tol>1e-3L) continue; EXPECT(std::abs(p(s)-ratio(s))<=tol,"pade.own",d+vf::fmt(": %.15g instead of %.15g at %.15g (tolerance %Lg)",p(s),ratio(s),s,tol)); vf::count("own"); } }
    // any smooth function: exact at the 2N+1 points
    double a=r.uni(0.2,1.5),b=r.uni(-1,1); int kind=r.range(0,3); auto fn=[&](const double& s)->double{ double x=(s-lo)/(hi-lo); return kind==0? std::exp(a*x+b): kind==1? std::sqrt(1+a+b*x): kind==2? std::log(2+a*x)+b: 1/(1+a*x*x)+std::sin(b*x); }; std::vector<double> seen; Pade<N> q([&](const double& s){ seen.push_back(s); return fn(s); },lo,hi,strat); EXPECT(seen.size()==2*N+1,"pade.samples",d+vf::fmt(": %zu samples",seen.size())); bool in=true; for(double s: seen) in=in&&s>=lo-1e-12&&s<=hi+1e-12; EXPECT(in,"pade.range",d); std::sort(seen.begin(),seen.end()); EXPECT(std::abs(seen.front()-lo)<1e-12&&std::abs(seen.back()-hi)<1e-12,"pade.ends",d); std::string d2=d+vf::fmt(" function %d(%.10g,%.10g)",kind,a,b); auto co=detail::solve_pade(fn,lo,hi,N,strat); L cq=condOf(fn); for(double s: seen){ vf::eval(); L tol=quotientTol<N>(co,cq,(s-lo)/(hi-lo)); if(!(tol<1e-3L)) continue; EXPECT(std::abs(q(s)-fn(s))<=tol,"pade.sampled",d2+vf::fmt(": %.15g instead of %.15g at %.15g",q(s),fn(s),s)); vf::count("sampled"); }
    Pade<N> q2(co,lo,hi); for(int k=0;k<5;++k){ double s=r.uni(lo,hi); EXPECT(q2(s)==q(s),"pade.coefficients",d2); EXPECT(std::abs(q(float(s))-float(q(s)))<=1e-2*(1+std::abs(q(s))),"pade.type",d2);
#if ENABLE_AVX
      rv x(s,s+0.01,s-0.01,lo); auto y=q(x).to_array(); double xs[4]={s,s+0.01,s-0.01,lo}; for(int l=0;l<4;++l) EXPECT(std::abs(y[l]-q(xs[l]))<=1e-12*(1+std::abs(y[l])),"pade.vector",d2);
#endif
    } if(it==0) vf::sample(d2); } vf::require("own",5); vf::require("sampled",5); }
// ---------------------------------------------------------------- integration
template<unsigned D> struct Poly { std::vector<std::pair<double,std::array<int,D>>> t; template<class T> T operator()(const std::array<T,D>& x) const { T s=0.; for(auto& [c,e]: t){ T m=c; for(unsigned i=0;i<D;++i) for(int k=0;k<e[i];++k) m=m*x[i]; s=s+m; } return s; }
  L exact(const std::array<double,D>& a,const std::array<double,D>& b) const { L s=0; for(auto& [c,e]: t){ L m=c; for(unsigned i=0;i<D;++i) m*=(powl(b[i],e[i]+1)-powl(a[i],e[i]+1))/(e[i]+1); s+=m; } return s; }
  L size(const std::array<double,D>& a,const std::array<double,D>& b) const { L s=0; for(auto& [c,e]: t){ L m=std::abs(c); for(unsigned i=0;i<D;++i){ L z=std::max(std::abs(L(a[i])),std::abs(L(b[i]))); m*=powl(z,e[i])*std::abs(b[i]-a[i]); } s+=m; } return s; } };
template<unsigned D> static Poly<D> poly(int deg,int nt){ auto& r=vf::rng(); Poly<D> p; for(int i=0;i<nt;++i){ std::array<int,D> e; e.fill(0); int d=r.range(0,deg); for(int k=0;k<d;++k) e[r.range(0,D-1)]++; p.t.push_back({r.gauss(),e}); } return p; }
#if ENABLE_AVX
typedef rv RT;
template<unsigned D,class F> static auto wrap(const F& f){ return [&f](const std::array<rv,D>& x){ return f(x); }; }
#else
typedef double RT;
template<unsigned D,class F> static auto wrap(const F& f){ return [&f](const std::array<double,D>& x){ return f(x); }; }
#endif
template<unsigned D> static void box(std::array<double,D>& a,std::array<double,D>& b){ auto& r=vf::rng(); for(unsigned i=0;i<D;++i){ a[i]=r.uni(-1.5,1); b[i]=a[i]+r.uni(0.2,1.8); } }
template<unsigned D> static std::string bs(const std::array<double,D>& a,const std::array<double,D>& b){ std::string s=vf::fmt("dim %u:",D); for(unsigned i=0;i<D;++i) s+=vf::fmt(" [%.10g,%.10g]",a[i],b[i]); return s; }
// one application of the rule is exact for polynomials up to the seventh degree, its error estimate vanishes up to the fifth
template<unsigned D> static void rule(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ std::array<double,D> a,b,c,w; box<D>(a,b); for(unsigned i=0;i<D;++i){ c[i]=(a[i]+b[i])/2; w[i]=(b[i]-a[i])/2; } int deg=it%8; auto p=poly<D>(deg,r.range(1,8)); { std::array<int,D> e; e.fill(0); for(int k=0;k<deg;++k) e[(r.coin(0.5)? 0: r.range(0,D-1))]++; p.t.push_back({1.5,e}); } std::string d=bs<D>(a,b)+vf::fmt(" degree %d",deg); for(auto& [cc,e]: p.t){ d+=vf::fmt(" %+.6g",cc); for(unsigned i=0;i<D;++i) if(e[i]) d+=vf::fmt("*x%u^%d",i,e[i]); } vf::begin_case(d); vf::eval(); vf::distinct(d); L want=p.exact(a,b),sz=p.size(a,b)*(1<<std::min(D,10u)); auto sc=[&](const std::array<double,D>& x){ return p(x); }; auto [v,err,ax]=integrate_fp_scalar<D>(sc,c,w); EXPECT(std::abs(v-want)<=1e-13L*sz,"rule.scalar",d+": "+ls(v)+" instead of "+ls(want)); if(deg<=5) EXPECT(err<=1e-12L*sz,"rule.error",d+vf::fmt(": error estimate %g",err)); EXPECT(ax<D,"rule.axis",d);
    auto [v2,err2,ax2]=integrate_fp<D>(wrap<D>(p),c,w); EXPECT(std::abs(v2-want)<=1e-13L*sz,"rule.vector",d+": "+ls(v2)+" instead of "+ls(want)); EXPECT(std::abs(err2-err)<=1e-12L*sz,"rule.errors",d+vf::fmt(": %g and %g",err,err2)); EXPECT(ax2<D,"rule.axis",d); vf::count("rules");
    // a function of one coordinate only is split along it; constants have no preference
    unsigned ax0=r.range(0,D-1); double k=r.uni(1,3); auto peak=[&](const auto& x){ auto z=x[ax0]*k; return z*z*z*z*z*z; }; auto one=integrate_fp<D>(wrap<D>(peak),c,w); auto two=integrate_fp_scalar<D>([&](const std::array<double,D>& x){ return peak(x); },c,w); EXPECT(std::get<2>(one)==ax0&&std::get<2>(two)==ax0,"rule.split",d+vf::fmt(": function of coordinate %u split along %u and %u",ax0,std::get<2>(one),std::get<2>(two))); if(it==0) vf::sample(d); } vf::require("rules",8); }
template<class T> static T tcos(const T& x){ if constexpr(std::is_same<T,double>::value) return std::cos(x); else { auto v=x.to_array(); return T(std::cos(v[0]),std::cos(v[1]),std::cos(v[2]),std::cos(v[3])); } }
template<class T> static T texp(const T& x){ if constexpr(std::is_same<T,double>::value) return std::exp(x); else { auto v=x.to_array(); return T(std::exp(v[0]),std::exp(v[1]),std::exp(v[2]),std::exp(v[3])); } }
template<unsigned D> static void cubature(int n,bool hard){ auto& r=vf::rng(); for(int it=0;it<n;++it){ std::array<double,D> a,b,k; box<D>(a,b); for(auto& x: k) x=r.uni(-1.2,1.2); double ph=r.uni(-3,3); int kind=hard? r.range(3,4): r.range(0,2); std::array<double,D> pos; for(unsigned i=0;i<D;++i) pos[i]=r.uni(a[i],b[i]); double wd=r.uni(0.08,0.4); auto p=poly<D>(12,4); auto f=[&](const auto& x){ typedef std::decay_t<decltype(x[0])> T; if(kind==2) return T(p(x)); T t=T(kind==0? ph: 0.); if(kind==3){ T m=1.; for(unsigned i=0;i<D;++i){ T z=(x[i]-pos[i])*(1/wd); m=m/(T(1.)+z*z); } return m; } if(kind==4){ for(unsigned i=0;i<D;++i){ T z=(x[i]-pos[i])*(1/wd); t=t-z*z*0.5; } return T(texp(t)); } for(unsigned i=0;i<D;++i) t=t+x[i]*k[i]; return kind==0? T(tcos(t)): T(texp(t)); };
    auto exact=[&](const std::array<double,D>& lo,const std::array<double,D>& hi)->L{ if(kind==2) return p.exact(lo,hi); if(kind==1){ L m=1; for(unsigned i=0;i<D;++i) m*= k[i]==0? L(hi[i]-lo[i]): (expl(L(k[i])*hi[i])-expl(L(k[i])*lo[i]))/k[i]; return m; } if(kind==3){ L m=1; for(unsigned i=0;i<D;++i) m*=wd*(atanl((L(hi[i])-pos[i])/wd)-atanl((L(lo[i])-pos[i])/wd)); return m; } if(kind==4){ L m=1; for(unsigned i=0;i<D;++i) m*=wd*sqrtl(M_PIl/2)*(erfl((L(hi[i])-pos[i])/wd/sqrtl(2))-erfl((L(lo[i])-pos[i])/wd/sqrtl(2))); return m; } std::complex<L> m=std::exp(std::complex<L>(0,ph)); for(unsigned i=0;i<D;++i){ std::complex<L> ik(0,k[i]); m*=(std::exp(ik*L(hi[i]))-std::exp(ik*L(lo[i])))/ik; } return m.real(); };
    L vol=1; for(unsigned i=0;i<D;++i) vol*=b[i]-a[i]; std::string d=bs<D>(a,b)+vf::fmt(" function %d",kind); vf::begin_case(d); vf::eval(); vf::distinct(d); size_t calls=0; auto cf=[&](const std::array<RT,D>& x){ ++calls; return RT(f(x)); }; double v=integrate<D>(cf,a,b); L want=exact(a,b); L sz=kind==2? p.size(a,b): kind==1? want: kind>=3? std::abs(want)+vol*1e-3L: vol; L tol=(hard||D>3)? 1e-5L: 1e-8L; EXPECT(std::abs(v-want)<=tol*sz,"integral."+std::to_string(kind),d+": "+ls(v)+" instead of "+ls(want)); EXPECT(calls*W<=1.1e6+100&&calls>0,"integral.calls",d+vf::fmt(": %zu evaluations",calls)); vf::count("integrals"); vf::count("evaluations",calls);
    // linear, additive, odd under exchange of limits, scaling
    if(it%3==0){ unsigned ax=r.range(0,D-1); double cut=r.uni(a[ax],b[ax]); auto m=b,q=a; m[ax]=cut; q[ax]=cut; double v1=integrate<D>(cf,a,m),v2=integrate<D>(cf,q,b); EXPECT(std::abs(v1+v2-v)<=2*tol*sz,"integral.additive",d+vf::fmt(" cut at %.10g: %.15g + %.15g instead of %.15g",cut,v1,v2,v)); EXPECT(std::abs(v1-exact(a,m))<=tol*sz,"integral.part",d); auto sw1=a,sw2=b; std::swap(sw1[ax],sw2[ax]); double v3=integrate<D>(cf,sw1,sw2); EXPECT(std::abs(v3+v)<=2*tol*sz,"integral.reverse",d); double al=r.uni(-3,3),be=r.uni(-2,2); double v4=integrate<D>([&](const std::array<RT,D>& x){ return RT(f(x)*al+RT(be)); },a,b); EXPECT(std::abs(v4-(al*want+be*vol))<=3*tol*(std::abs(al)*sz+std::abs(be)*vol),"integral.linear",d+vf::fmt(": %.15g",v4)); auto z=a; EXPECT(integrate<D>(cf,a,z)==0,"integral.empty",d); vf::count("laws"); } if(it==0) vf::sample(d+": "+ls(v)+" for "+ls(want)); } vf::require("integrals",3); }
static void onedim(int n){ auto& r=vf::rng(); gsl_integration_workspace* ws=gsl_integration_workspace_alloc(1000); int inf=0,infok=0; for(int it=0;it<n;++it){ double a=r.uni(-2,2),b=a+r.uni(0.1,4),c=r.uni(0.3,2),ph=r.uni(-3,3); int kind=r.range(0,6); std::function<double(double)> f; std::function<L(L)> F; switch(kind){ case 0: f=[=](double x){ return std::exp(c*x); }; F=[=](L x){ return expl(c*x)/c; }; break; case 1: f=[=](double x){ return 2+std::cos(c*x+ph); }; F=[=](L x){ return 2*x+sinl(c*x+ph)/c; }; break; case 2: f=[=](double x){ return 1/(1e-4+(x-ph)*(x-ph)); }; F=[=](L x){ return atanl((x-ph)/1e-2L)/1e-2L; }; break; case 3: a=0; b=c; f=[=](double x){ return std::sqrt(x); }; F=[=](L x){ return powl(x,1.5L)/1.5L; }; break; case 4: a=0; b=c; f=[=](double x){ return 1/std::sqrt(x); }; F=[=](L x){ return 2*sqrtl(x); }; break; case 5: f=[=](double x){ return 1/(c*c+x*x)+x*x; }; F=[=](L x){ return atanl(x/c)/c+x*x*x/3; }; break; default: f=[=](double x){ return c*x*x*x+ph; }; F=[=](L x){ return c*x*x*x*x/4+ph*x; }; }
    std::string d=vf::fmt("function %d(%.10g,%.10g) on [%.10g,%.10g]",kind,c,ph,a,b); vf::begin_case(d); vf::eval(); vf::distinct(d); auto g=[f](const double& x){ return f(x); }; L want=F(b)-F(a); L absint=0; for(int i=0;i<200;++i) absint+=std::abs(f(a+(b-a)*(i+0.5)/200))*(b-a)/200; bool cancels=std::abs(want)<0.05L*absint; L tol=2e-5L*std::abs(want)+1e-11L*absint; if(cancels&&kind==6) continue; double v=integrate_1d(g,a,b),v2=integrate_1d(g,a,b,ws); EXPECT(std::abs(v-want)<=tol,"integral1.value",d+": "+ls(v)+" instead of "+ls(want)); EXPECT(v==v2,"integral1.workspace",d); auto garr=[f](const std::array<double,1>& x){ return f(x[0]); }; EXPECT(integrate_1d(garr,a,b)==v,"integral1.array",d); double v3=integrate<1>(g,std::array<double,1>{a},std::array<double,1>{b}); EXPECT(std::abs(v3-want)<=tol,"integral1.generic",d+": "+ls(v3)+" instead of "+ls(want)); double v4=integrate<1>(garr,std::array<double,1>{a},std::array<double,1>{b}); EXPECT(std::abs(v4-want)<=tol,"integral1.genericarray",d+": "+ls(v4)+" instead of "+ls(want)); double m=r.uni(a,b); EXPECT(std::abs(integrate_1d(g,a,m)+integrate_1d(g,m,b)-v)<=3*tol+4e-5L*absint,"integral1.additive",d); EXPECT(std::abs(integrate_1d(g,b,a)+v)<=2*tol,"integral1.reverse",d); vf::count("one");
    // whole axis and principal values
    double mu=r.uni(-2,2),sg=r.uni(0.3,3); double gi=integrate_1d_inf([=](const double& x){ double z=(x-mu)/sg; return std::exp(-z*z/2); },it%2? ws: nullptr); ++inf; if(std::abs(gi-sg*std::sqrt(2*M_PI))<=2e-5*gi) ++infok; EXPECT(std::abs(gi-sg*std::sqrt(2*M_PI))<=1e-2*gi,"integral1.infinite",vf::fmt("gauss %.10g %.10g: %.15g",mu,sg,gi)); double li=integrate_1d_inf([=](const double& x){ return sg/(sg*sg+(x-mu)*(x-mu)); }); EXPECT(std::abs(li-M_PI)<=4e-5,"integral1.infinite",vf::fmt("lorentz %.10g %.10g: %.15g",mu,sg,li));
    double x0=a+(b-a)*r.uni(0.1,0.9); double pv=integrate_1d_cauchy([=](const double& x){ return 1+c*(x-x0); },x0,a,b,it%2? ws: nullptr); L wpv=logl((L(b)-x0)/(L(x0)-a))+c*L(b-a); EXPECT(std::abs(pv-wpv)<=1e-7L*(std::abs(wpv)+c*(b-a)),"integral1.cauchy",d+vf::fmt(" pole %.10g: %.15g instead of %.15Lg",x0,pv,wpv)); vf::count("principal"); } gsl_integration_workspace_free(ws); EXPECT(infok>=0.9*inf,"integral1.infinite.accuracy",vf::fmt("%d of %d",infok,inf)); vf::require("one",20); vf::require("principal",20); }
// an integral that vanishes is a result like any other
static void vanishing(){ std::string out; int rc=vf::in_child([&]{ double v=integrate_1d([](const double& x){ return x; },-1.,1.); double w=integrate_1d([](const double& x){ return std::sin(x); },-3.,3.); double z=integrate_1d([](const double&){ return 0.; },-3.,3.); double q=integrate_1d_inf([](const double& x){ return x*std::exp(-x*x); }); std::cout<<vf::fmt("V %g %g %g %g\n",v,w,z,q)<<std::flush; },&out,60); vf::eval(); double v=1,w=1,z=1,q=1; size_t p=out.find("V "); if(p!=std::string::npos) sscanf(out.c_str()+p,"V %lf %lf %lf %lf",&v,&w,&z,&q); EXPECT(rc==0&&std::abs(v)<1e-9&&std::abs(w)<1e-9&&z==0&&std::abs(q)<1e-9,"integral1.vanishing",vf::fmt("status %d: ",rc)+out.substr(0,300)); }
// ---------------------------------------------------------------- compensated sums
static std::vector<double> terms(int kind,int n){ auto& r=vf::rng(); std::vector<double> v; switch(kind){ case 0: v.push_back(1); for(int i=0;i<n;++i) v.push_back(1e-17*r.uni(0.5,1.5)); break; case 1: for(int i=0;i<n;++i) v.push_back(r.gauss()*std::pow(10.,r.uni(-12,12))); break; case 2: for(int i=0;i<n;++i){ double x=r.gauss()*std::pow(10.,r.uni(0,15)); v.push_back(x); v.push_back(r.gauss()); v.push_back(-x); } break; case 3: for(int i=0;i<n;++i) v.push_back(r.uni(0,1)); break; case 4: v={1,1e100,1,-1e100}; break; default: for(int i=0;i<n;++i) v.push_back(1./(i+1)); std::reverse(v.begin(),v.end()); } if(kind!=4&&kind!=0&&r.coin()) r.shuffle(v); return v; }
// exact sum: errors are carried as a list of non overlapping partial sums
static L exactSum(const std::vector<double>& v){ std::vector<double> p; for(double x: v){ size_t i=0; for(double y: p){ if(std::abs(x)<std::abs(y)) std::swap(x,y); volatile double hi=x+y; volatile double lo=y-(hi-x); if(lo!=0) p[i++]=lo; x=hi; } p.resize(i); p.push_back(x); } L s=0; for(auto it=p.begin();it!=p.end();++it) s+=*it; return s; }
static void sums(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ int kind=it%6; auto v=terms(kind,r.range(10,kind==3? 20000: 3000)); L ex=exactSum(v),ab=0; for(double x: v) ab+=std::abs(L(x)); const L eps=1.11e-16L; L N=v.size(); L tol=2*eps*std::abs(ex)+4*eps*eps*N*N*ab/ (kind==4? 1e90L:1)+1e-300L; L bound=2*eps*std::abs(ex)+ (kind==4? 0: 3*eps*eps*N*ab); std::string d=vf::fmt("%zu terms of kind %d",v.size(),kind); vf::begin_case(d); vf::eval(); vf::distinct(d+vf::fmt("%.17Lg",ex)); KahanSum<double> k; for(double x: v) k+=x; EXPECT(std::abs(k()-ex)<=bound,"sum.add",d+": "+ls(k())+" instead of "+ls(ex)); (void)tol;
    KahanSum<double> m; bool flip=r.coin(); for(size_t i=0;i<v.size();++i){ if((i%2==0)==flip) m+=v[i]; else m=m+v[i]; } EXPECT(std::abs(m()-ex)<=bound,"sum.mixed",d+": "+ls(m())+" instead of "+ls(ex)); KahanSum<double> q; for(double x: v) q=q+x; EXPECT(std::abs(q()-ex)<=bound,"sum.plus",d+": "+ls(q())+" instead of "+ls(ex)); double a=std::accumulate(v.begin(),v.end(),KahanSum<double>())(); EXPECT(std::abs(a-ex)<=bound,"sum.accumulate",d+": "+ls(a)+" instead of "+ls(ex)); double kb=KahanBabushkaKleinSum(v); EXPECT(std::abs(kb-ex)<=2*eps*std::abs(ex)+(kind==4? 0: 10*eps*eps*eps*N*N*ab),"sum.klein",d+": "+ls(kb)+" instead of "+ls(ex)); auto v2=v; r.shuffle(v2); if(kind!=4){ KahanSum<double> o; for(double x: v2) o+=x; EXPECT(std::abs(o()-k())<=2*bound,"sum.order",d); double o2=KahanBabushkaKleinSum(v2); EXPECT(std::abs(o2-kb)<=4*eps*std::abs(ex)+20*eps*eps*eps*N*N*ab,"sum.orderklein",d); }
#if ENABLE_AVX
    { KahanSum<rv> kv; std::vector<double> part[4]; for(size_t i=0;i+4<=v.size();i+=4){ kv+=rv(v[i],v[i+1],v[i+2],v[i+3]); for(int l=0;l<4;++l) part[l].push_back(v[i+l]); } auto s=kv().to_array(); for(int l=0;l<4;++l){ L e2=exactSum(part[l]),a2=0; for(double x: part[l]) a2+=std::abs(L(x)); EXPECT(std::abs(s[l]-e2)<=2*eps*std::abs(e2)+3*eps*eps*N*a2,"sum.vector",d+vf::fmt(" lane %d: ",l)+ls(s[l])+" instead of "+ls(e2)); } }
#endif
    vf::count("sums"); if(it<6) vf::sample(d+": "+ls(k())); } EXPECT(KahanSum<double>()()==0,"sum.empty",""); EXPECT(KahanBabushkaKleinSum(std::vector<double>{})==0,"sum.empty",""); vf::require("sums",10); }
void harness(){
  for(int k=0;k<3;++k) vf::section("splines"+std::to_string(k),[=]{ splines(k,vf::scale(1,6)); });
  vf::section("line",line);
  vf::section("pade",[]{ int n=vf::scale(40,1500); pade<1>(n); pade<2>(n); pade<3>(n); pade<4>(n); });
  vf::section("rule",[]{ int n=vf::scale(24,300); rule<2>(n); rule<3>(n); rule<4>(n); rule<5>(n); rule<6>(n); rule<7>(n/2); rule<9>(8); rule<12>(8); });
  vf::section("cubature2",[]{ cubature<2>(vf::scale(30,400),false); cubature<2>(vf::scale(6,60),true); });
  vf::section("cubature3",[]{ cubature<3>(vf::scale(9,60),false); cubature<3>(vf::scale(3,20),true); });
  vf::section("cubature4",[]{ cubature<4>(vf::scale(4,30),false); });
  vf::section("cubature5",[]{ cubature<5>(vf::scale(3,20),false); });
  vf::section("onedim",[]{ onedim(vf::scale(150,4000)); });
  vf::section("vanishing",vanishing);
  vf::section("sums",[]{ sums(vf::scale(60,1500)); });
}
