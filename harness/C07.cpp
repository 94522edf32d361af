// C07: each lane of a vector operation against the scalar operation on that lane
#include "vf.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/simd/avx2f_types.h"
#include <cmath>
#include <complex>
#include <cfenv>
using namespace AmpGen;
typedef long double L; typedef std::complex<L> CL;
template<class V> struct Lanes {
  typedef typename V::scalar_type S; static constexpr unsigned N=V::size; typedef Complex<V> C;
  static constexpr L eps=std::numeric_limits<S>::epsilon(); std::string nm;
  static V mk(const std::vector<S>& x){ V v; for(unsigned i=0;i<N;++i) v.to_ptr()[i]=x[i]; return v; }
  // one lane value: ordinary numbers, exact zeros and ones, both signs, many magnitudes
  static S val(int kind){ auto& r=vf::rng(); double mx= sizeof(S)==8? 60:8; switch(kind){ case 0: return S(r.uni(-3,3)); case 1: { int k=r.range(0,7); static const double t[]={0,1,-1,0.5,-0.5,2,-2,3}; return S(t[k]); } case 2: return S(r.uni(-1,1)*std::pow(10.,r.uni(-mx,mx))); case 3: return S(r.range(-20,20)); default: return S(r.uni(-3,3)); } }
  static std::vector<S> lanes(){ auto& r=vf::rng(); std::vector<S> v(N); int mode=r.range(0,4); for(auto& x: v) x=val(mode<4?mode:r.range(0,3)); if(r.coin(0.2)) v[r.range(0,N-1)]=0; return v; }
  static std::string show(const std::vector<S>& a){ std::string s; for(auto x: a) s+=vf::str(double(x))+" "; return s; }
  void near(L got,L want,L tol,const char* op,const std::string& d){ vf::eval(); if(std::isnan((double)want)){ EXPECT(std::isnan((double)got),nm+op,d); return; } if(std::isinf((double)(S)want)||std::abs(want)>std::numeric_limits<S>::max()*L(0.5)){ EXPECT(std::isinf((double)(S)got)||std::abs(got)>std::numeric_limits<S>::max()*L(0.1),nm+op,d); return; }
    EXPECT(std::abs(got-want)<=tol+std::numeric_limits<S>::min(),nm+op,d+" got "+vf::str(double(got))+" want "+vf::str(double(want))); }
  void cnear(C g,unsigned i,CL want,L tol,const char* op,const std::string& d){ near(g.real().at(i),want.real(),tol,op,d+" (re)"); near(g.imag().at(i),want.imag(),tol,op,d+" (im)"); }
  void real_ops(int n){ auto& r=vf::rng();
    for(int it=0;it<n;++it){ auto a=lanes(), b=lanes(), c=lanes(); if(r.coin(0.15)) b=a; if(r.coin(0.3)) for(unsigned i=0;i<N;++i) if(r.coin()) b[i]=a[i]; V va=mk(a), vb=mk(b), vc=mk(c); S k=val(r.range(0,2)); std::string base=show(a)+"| "+show(b)+"| "+show(c); vf::begin_case(base);
      for(unsigned i=0;i<N;++i){ std::string d="lane "+std::to_string(i)+" of "+base; L x=a[i], y=b[i], z=c[i];
        EXPECT(S(va.at(i))==a[i] && va.to_array()[i]==a[i],nm+"lane",d);
        near((va+vb).at(i),S(a[i]+b[i]),0,"+",d); near((va-vb).at(i),S(a[i]-b[i]),0,"-",d); near((va*vb).at(i),S(a[i]*b[i]),0,"*",d); if(b[i]!=0) near((va/vb).at(i),S(a[i]/b[i]),0,"/",d); near((-va).at(i),-a[i],0,"neg",d);
        near((va+V(k)).at(i),S(a[i]+k),0,"+k",d); near((V(k)-va).at(i),S(k-a[i]),0,"k-",d); near((va*V(k)).at(i),S(a[i]*k),0,"*k",d);
        { V t=va; t+=vb; near(t.at(i),S(a[i]+b[i]),0,"+=",d); t=va; t-=vb; near(t.at(i),S(a[i]-b[i]),0,"-=",d); t=va; t*=vb; near(t.at(i),S(a[i]*b[i]),0,"*=",d); if(b[i]!=0){ t=va; t/=vb; near(t.at(i),S(a[i]/b[i]),0,"/=",d); } }
        near(abs(va).at(i),std::abs(a[i]),0,"abs",d); near(sqrt(abs(va)).at(i),std::sqrt(std::abs(a[i])),0,"sqrt",d);
        near(fmadd(va,vb,vc).at(i),x*y+z,4*eps*std::abs(x*y+z)+eps*eps*std::abs(x*y),"fmadd",d);
        auto cmp=[&](V m,bool want,const char* op){ V s=select(m,va,vc); vf::eval(); EXPECT(S(s.at(i))==(want?a[i]:c[i]),nm+op,d); V s2=select(!m,va,vc); EXPECT(S(s2.at(i))==(want?c[i]:a[i]),nm+"!"+op,d); };
        cmp(va<vb,a[i]<b[i],"<"); cmp(va>vb,a[i]>b[i],">"); cmp(va<=vb,a[i]<=b[i],"<="); cmp(va>=vb,a[i]>=b[i],">="); cmp(va==vb,a[i]==b[i],"==");
        cmp((va<vb)&&(vb<vc),a[i]<b[i]&&b[i]<c[i],"&&"); cmp((va<vb)||(vb<vc),a[i]<b[i]||b[i]<c[i],"||"); cmp((va<vb)&(vb<vc),a[i]<b[i]&&b[i]<c[i],"&"); cmp((va<vb)|(vb<vc),a[i]<b[i]||b[i]<c[i],"|"); cmp((va<vb)^(vb<vc),(a[i]<b[i])!=(b[i]<c[i]),"^");
        for(bool t: {false,true}){ cmp((va<vb)&&t,a[i]<b[i]&&t,"&&bool"); cmp(t&&(va<vb),a[i]<b[i]&&t,"bool&&"); cmp((va<vb)||t,a[i]<b[i]||t,"||bool"); cmp(t||(va<vb),a[i]<b[i]||t,"bool||"); EXPECT(S(select(t,va,vb).at(i))==(t?a[i]:b[i]),nm+"select.bool",d); }
        if(a[i]!=0) EXPECT(sign(va).at(i)==(a[i]>0?1:-1),nm+"sign",d);
        // arguments of moderate size for the transcendental functions
      }
      std::vector<S> p(N),q(N); for(unsigned i=0;i<N;++i){ p[i]=S(r.uni(-20,20)); q[i]=S(r.coin(0.3)? std::pow(10.,r.uni(-20,20)): r.uni(0.001,30)); if(r.coin(0.1)) p[i]=0; } V vp=mk(p), vq=mk(q); auto sc=sincos(vp); V s2,c2; sincos(vp,s2,c2); std::string d0=show(p)+"| "+show(q); vf::distinct(d0);
      for(unsigned i=0;i<N;++i){ std::string d="lane "+std::to_string(i)+" of "+d0; L x=p[i], y=q[i]; L T=8*eps; near(sin(vp).at(i),std::sin(x),T,"sin",d); near(cos(vp).at(i),std::cos(x),T,"cos",d); near(sc.first.at(i),std::sin(x),T,"sincos.s",d); near(sc.second.at(i),std::cos(x),T,"sincos.c",d); near(s2.at(i),std::sin(x),T,"sincos2.s",d); near(c2.at(i),std::cos(x),T,"sincos2.c",d);
        if(std::abs(std::cos(x))>0.01L) near(tan(vp).at(i),std::tan(x),16*eps*(std::abs(std::tan(x))+1)/(L)std::abs(std::cos(x)),"tan",d);
        near(exp(vp).at(i),std::exp(x),8*eps*std::exp(x),"exp",d); near(log(vq).at(i),std::log(y),8*eps*(1+std::abs(std::log(y))),"log",d); near(atan2(vp,vq).at(i),std::atan2(x,y),8*eps,"atan2",d); near(atan2(vp,-vq).at(i),std::atan2(x,-y),16*eps,"atan2neg",d); }
      std::vector<S> m(N),o(N); for(unsigned i=0;i<N;++i){ m[i]=S(r.coin(0.3)? r.range(-30,30): r.uni(-30,30)); o[i]=S(r.coin(0.3)? r.range(1,7): r.uni(0.2,7)); if(r.coin(0.3)) o[i]=-o[i]; } V vm=mk(m), vo=mk(o); std::string d1=show(m)+"| "+show(o);
      for(unsigned i=0;i<N;++i){ std::string d="lane "+std::to_string(i)+" of "+d1; L x=m[i], y=o[i]; L fm=std::fmod(x,y), t=4*eps*std::abs(x)+4*eps*std::abs(y); L g=fmod(vm,vo).at(i); L e=std::abs(g-fm); if(e>t) e=std::abs(e-std::abs(y)); vf::eval(); EXPECT(e<=t,nm+"fmod",d+" got "+vf::str(double(g))+" want "+vf::str(double(fm))); }
    } }
  void complex_ops(int n){ auto& r=vf::rng();
    for(int it=0;it<n;++it){ std::vector<S> ar(N),ai(N),br(N),bi(N),k(N); double mx=sizeof(S)==8?40:6; for(unsigned i=0;i<N;++i){ double s1=r.coin(0.3)? std::pow(10.,r.uni(-mx,mx)):1, s2=r.coin(0.3)? std::pow(10.,r.uni(-mx,mx)):1; ar[i]=S(r.uni(-3,3)*s1); ai[i]=S(r.uni(-3,3)*s1); br[i]=S(r.uni(-3,3)*s2); bi[i]=S(r.uni(-3,3)*s2); k[i]=val(0); if(r.coin(0.15)) ai[i]=0; if(r.coin(0.15)) ar[i]=0; if(r.coin(0.1)) ar[i]=ai[i]=0; if(r.coin(0.1)) bi[i]=0; }
      C a(mk(ar),mk(ai)), b(mk(br),mk(bi)); V vk=mk(k); S s=val(0); std::complex<double> zc(r.uni(-2,2),r.uni(-2,2)); std::string base=show(ar)+"+i "+show(ai)+"| "+show(br)+"+i "+show(bi); vf::begin_case(base); vf::distinct(base);
      std::vector<S> er(N); for(auto& x: er) x=S(r.uni(-5,5)); C ea(mk(er),mk(bi)); // modest real part for exp
      for(unsigned i=0;i<N;++i){ std::string d="lane "+std::to_string(i)+" of "+base; CL x(ar[i],ai[i]), y(br[i],bi[i]); L kk=k[i]; L t=4*eps; L ma=std::abs(x), mb=std::abs(y);
        EXPECT(S(a.real().at(i))==ar[i]&&S(a.imag().at(i))==ai[i]&&S(real(a).at(i))==ar[i]&&S(imag(a).at(i))==ai[i],nm+"c.parts",d);
        cnear(a+b,i,x+y,t*(ma+mb),"c+",d); cnear(a-b,i,x-y,t*(ma+mb),"c-",d); cnear(a*b,i,x*y,t*ma*mb,"c*",d); if(mb>0) cnear(a/b,i,x/y,4*t*ma/mb,"c/",d); cnear(-a,i,-x,0,"cneg",d);
        cnear(a+vk,i,x+kk,t*(ma+std::abs(kk)),"c+r",d); cnear(a-vk,i,x-kk,t*(ma+std::abs(kk)),"c-r",d); cnear(a*vk,i,x*kk,t*ma*std::abs(kk),"c*r",d); if(kk!=0) cnear(a/vk,i,x/kk,4*t*ma/std::abs(kk),"c/r",d);
        cnear(vk+a,i,kk+x,t*(ma+std::abs(kk)),"r+c",d); cnear(vk-a,i,kk-x,t*(ma+std::abs(kk)),"r-c",d); cnear(vk*a,i,kk*x,t*ma*std::abs(kk),"r*c",d); if(ma>0) cnear(vk/a,i,kk/x,4*t*std::abs(kk)/ma,"r/c",d);
        cnear(a*s,i,x*L(s),t*ma*std::abs(L(s)),"c*s",d); cnear(s*a,i,x*L(s),t*ma*std::abs(L(s)),"s*c",d); cnear(a+s,i,x+L(s),t*(ma+std::abs(L(s))),"c+s",d); cnear(s-a,i,L(s)-x,t*(ma+std::abs(L(s))),"s-c",d);
        { C u=a; u+=b; cnear(u,i,x+y,t*(ma+mb),"c+=",d); u=a; u-=b; cnear(u,i,x-y,t*(ma+mb),"c-=",d); u=a; u*=b; cnear(u,i,x*y,t*ma*mb,"c*=",d); if(mb>0){ u=a; u/=b; cnear(u,i,x/y,4*t*ma/mb,"c/=",d); } }
        { C z(zc); L zr=S(zc.real()), zi=S(zc.imag()); cnear(z,i,CL(zr,zi),0,"c.from.std",d); C w(vk); cnear(w,i,CL(kk,0),0,"c.from.real",d); }
        cnear(conj(a),i,std::conj(x),0,"conj",d); near(norm(a).at(i),std::norm(x),t*std::norm(x),"norm",d); near(a.norm().at(i),std::norm(x),t*std::norm(x),"norm2",d); near(abs(a).at(i),ma,t*ma,"cabs",d);
        { C sq=sqrt(a); CL w=std::sqrt(x); auto tol=[&](L p){ L q=2*std::sqrt(eps*ma); return (p>0? std::min(2*eps*ma/p,q):q)+4*eps*p; }; vf::eval(); EXPECT(std::abs(L(sq.real().at(i))-w.real())<=tol(std::abs(w.real()))&&std::abs(L(sq.imag().at(i))-w.imag())<=tol(std::abs(w.imag())),nm+"csqrt",d+" got "+vf::str(double(sq.real().at(i)))+","+vf::str(double(sq.imag().at(i)))); }
        if(ma>0){ CL w=std::log(x); cnear(log(a),i,w,16*eps*(1+std::abs(w)),"clog",d); }
        { CL z(er[i],bi[i]); if(std::abs(bi[i])<1e4){ CL w=std::exp(z); cnear(exp(ea),i,w,16*eps*std::abs(w)*(1+std::abs(L(bi[i]))*eps),"cexp",d); } }
        auto m=mk(ar)<mk(br); bool w=ar[i]<br[i]; cnear(select(m,a,b),i,w?x:y,0,"csel",d); cnear(select(m,vk,b),i,w?CL(kk,0):y,0,"csel.rc",d); cnear(select(m,a,vk),i,w?x:CL(kk,0),0,"csel.cr",d);
        for(bool tt: {false,true}){ cnear(select(tt,a,b),i,tt?x:y,0,"cselb",d); cnear(select(tt,vk,b),i,tt?CL(kk,0):y,0,"cselb.rc",d); cnear(select(tt,a,vk),i,tt?x:CL(kk,0),0,"cselb.cr",d); }
      } } }
  void movement(int n){ auto& r=vf::rng();
    for(int it=0;it<n;++it){ unsigned len=r.range(1,60); std::vector<double> tab(len); for(auto& x: tab) x=S(r.uni(-9,9)); std::vector<S> off(N); for(auto& o: off) o=S(std::min(double(len)-1+0.99, r.range(0,len-1)+(r.coin()?0.:r.uni(0.01,0.99)))); V v=gather(tab.data(),mk(off)); vf::begin_case(show(off)); vf::distinct(show(off)); for(unsigned i=0;i<N;++i){ vf::eval(); EXPECT(double(v.at(i))==tab[unsigned(off[i])],nm+"gather","offset "+vf::str(double(off[i]))); }
      auto a=lanes(); V w=mk(a); std::vector<S> buf(N+2,S(7)); w.store(&buf[1]); EXPECT(buf[0]==7&&buf[N+1]==7&&std::equal(a.begin(),a.end(),buf.begin()+1),nm+"store",show(a)); V l(&buf[1]); for(unsigned i=0;i<N;++i) EXPECT(S(l.at(i))==a[i],nm+"load",show(a)); V one(a[0]); for(unsigned i=0;i<N;++i) EXPECT(S(one.at(i))==a[0],nm+"broadcast",""); 
      std::vector<S> q(N); for(auto& x: q) x=S(r.range(-1000,1000)+(r.coin()?0:0.25)); auto iv=mk(q).to_int(); std::vector<long> ints(N); if(sizeof(S)==8) for(unsigned i=0;i<N;++i) ints[i]=((const int64_t*)&iv)[i]; else for(unsigned i=0;i<N;++i) ints[i]=((const int32_t*)&iv)[i]; for(unsigned i=0;i<N;++i) EXPECT(long(ints[i])==long(std::floor(q[i])),nm+"to_int",vf::str(double(q[i])));
    } }
};
#if INSTRUCTION_SET != 0
static void utilities(int n){ auto& r=vf::rng(); const unsigned N=real_v::size;
  for(int it=0;it<n;++it){ std::vector<double> a(N),b(N); for(auto& x: a) x=r.uni(-3,3); for(auto& x: b) x=r.uni(-3,3); real_v va(a.data()), vb(b.data()); complex_v z(va,vb); double s=0; for(double x: a) s+=x; vf::begin_case(vf::vstr(a)); vf::distinct(vf::vstr(a)); CLOSE(utils::sum_elements(va),s,1e-14,"sum_elements",vf::vstr(a),1e-14);
    { auto raw=[&](std::array<double,N> q){ return real_v(q.data()); }; std::array<double,N> q; for(auto& x: q) x=r.range(0,1); bool all=true; for(double x: q) all&=x==1; EXPECT(utils::all_of(raw(q)==real_v(1.))==all,"all_of",""); EXPECT(utils::all_of(raw(q),real_v(1.))==all,"all_of.value",""); EXPECT(utils::all_of(real_v(2.)==real_v(2.)),"all_of.true",""); }
    for(unsigned i=0;i<N;++i){ vf::eval(); EXPECT(utils::at(va,i)==a[i],"at",""); EXPECT(utils::at(z,i)==std::complex<double>(a[i],b[i]),"at.complex",""); } EXPECT(utils::get<0>(va)==a[0]&&utils::get<N-1>(va)==a[N-1]&&utils::get<1>(z)==std::complex<double>(a[1],b[1]),"get",""); EXPECT(utils::at(2.5)==2.5 && utils::get<0>(2.5)==2.5,"scalar.at",""); CLOSE(utils::norm(std::complex<double>(a[0],b[0])),a[0]*a[0]+b[0]*b[0],1e-14,"norm.std","",0.);
    { std::vector<double> buf(N+2,7.); utils::store(&buf[1],va); EXPECT(buf[0]==7&&buf[N+1]==7&&std::equal(a.begin(),a.end(),buf.begin()+1),"utils.store",""); double one=0; utils::store(&one,4.5); EXPECT(one==4.5,"utils.store.scalar",""); }
    unsigned len=r.range(1,19), off=r.range(0,len+3); std::vector<double> c(len); for(auto& x: c) x=r.uni(1,9); auto g=utils::gather<real_v>(c,[](double x){ return 2*x; },off); auto g2=utils::gather<real_v>(c,[](double x){ return 2*x; },off,-5.); for(unsigned i=0;i<N;++i){ double w= off+i<len? 2*c[off+i]: 2*c[len-1]; EXPECT(g.at(i)==w,"utils.gather",std::to_string(off)+"+"+std::to_string(i)+"/"+std::to_string(len)); EXPECT(g2.at(i)==(off+i<len?2*c[off+i]:-5.),"utils.gather.default",""); }
    size_t u=r.range(1,1000); size_t al=utils::aligned_size<real_v>(u); EXPECT(al%N==0&&al>=u&&al<u+N,"aligned_size",std::to_string(u)); EXPECT(utils::aligned_size<double>(u)==u,"aligned_size.scalar",std::to_string(u)); }
}
#endif
void harness(){
#if INSTRUCTION_SET != 0
  int sh=vf::scale(1,4), n=vf::scale(3000,20000);
  for(int i=0;i<sh;++i){ std::string k=std::to_string(i);
    vf::section("d.real"+k,[n]{ Lanes<AVX2d::real_v> l; l.nm="d."; l.real_ops(n); },600); vf::section("d.complex"+k,[n]{ Lanes<AVX2d::real_v> l; l.nm="d."; l.complex_ops(n); },600);
    vf::section("f.real"+k,[n]{ Lanes<AVX2f::real_v> l; l.nm="f."; l.real_ops(n/3); },600); vf::section("f.complex"+k,[n]{ Lanes<AVX2f::real_v> l; l.nm="f."; l.complex_ops(n/3); },600); }
  vf::section("d.move",[n]{ Lanes<AVX2d::real_v> l; l.nm="d."; l.movement(n); },600); vf::section("f.move",[n]{ Lanes<AVX2f::real_v> l; l.nm="f."; l.movement(n); },600); vf::section("utils",[n]{ utilities(n); },600);
#endif
}
