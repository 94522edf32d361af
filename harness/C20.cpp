// C20: lineshapes, running widths, barrier factors and phase space against independent long-double formulas
#include "interp.h"
#include "jit.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/kMatrix.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Spline.h"
using namespace AmpGen; using L=long double; using C=std::complex<L>; using PM=std::map<std::string,L>;
static const C I(0,1); static const L PI=acosl(-1.0L);
static L Q2r(L s,L a,L b){ return ((s-a-b)*(s-a-b)-4*a*b)/(4*s); } // squared break-up momentum from the Kallen function
// squared barrier factor up to normalisation: z^L/|h_L|^2, with the reversed Bessel polynomials evaluated by recurrence
static L hL2(L z,int l){ // |theta_l(i sqrt z)|^2 by direct polynomial for any sign of z: theta_l(x) = sum (l+k)!/((l-k)! k! 2^k) x^{l-k}
  L re=0,im2=0; // even powers of i*x are real: (i x)^{2m}=(-z)^m, odd: i x (-z)^m
  for(int k=0;k<=l;++k){ L c=1; for(int j=l-k+1;j<=l+k;++j) c*=j; for(int j=1;j<=k;++j) c/=2.0L*j; int n=l-k; L p=std::pow(-1.0L,n/2)*std::pow(z,L(n/2)); if(n%2==0) re+=c*p; else im2+=c*p; } return re*re+z*im2*im2; }
static L BWn(L z,L z0,int l){ return hL2(z0,l)/hL2(z,l); }
static L BWz(L z,int l){ return std::pow(z,L(l))*hL2(1,l)/hL2(z,l); }
static L kf(L m,L w){ L g=m*sqrtl(m*m+w*w); return sqrtl(2*sqrtl(2.0L)*m*w*g/(PI*sqrtl(m*m+g))); }
static L runw(L s,L a,L b,L m,L w,L r,int l){ L q=std::max(Q2r(s,a,b),0.0L), q0=std::abs(Q2r(m*m,a,b)); return w*(m/sqrtl(s))*sqrtl(q/q0)*std::pow(q/q0,L(l))*BWn(q*r*r,q0*r*r,l); }
static C csq(L x){ return x>=0? C(sqrtl(x)): C(0,sqrtl(-x)); }
static L massOf(const std::string& n){ return ParticlePropertiesList::get(n)->mass(); }
static bool close(C a,C b,L tol){ return std::isfinite(std::abs(a))&&std::isfinite(std::abs(b))&&std::abs(a-b)<=tol*(std::abs(a)+std::abs(b)+1e-300L); }
static std::string cs(C z){ return vf::fmt("(%.10Lg,%.10Lg)",z.real(),z.imag()); }
static Parameter S("s"),S1("s1"),S2("s2");
static void barriers(int n){ auto& r=vf::rng(); Parameter a("a"),b("b"),c("c"),d("d"),e("e"),f("f"); for(int it=0;it<n;++it){ L m1=r.uni(0.05,1.2), m2=r.coin(0.2)? double(m1): r.uni(0.05,1.2), m=r.uni(0.2,4), w=std::exp(r.uni(-6,0.7)), R=r.uni(0.1,6); L s=std::pow((m1+m2)*r.uni(0.4,4),2); if(r.coin(0.05)) m1=0; Interp in; in.v={{"a",s},{"b",m1*m1},{"c",m2*m2},{"d",m},{"e",w},{"f",R}}; std::string ds=vf::fmt("s=%.12Lg m1=%.12Lg m2=%.12Lg m=%.12Lg w=%.8Lg R=%.8Lg",s,m1,m2,m,w,R); vf::begin_case(ds); vf::eval(); vf::distinct(ds); auto chk=[&](C got,C want,L tol,const char* k,int l){ EXPECT(close(got,want,tol),k,ds+vf::fmt(" L=%d: ",l)+cs(got)+" instead of "+cs(want)); };
    L q=Q2r(s,m1*m1,m2*m2); { C g=in(Q2(a,b,c)); EXPECT(std::abs(g-q)<1e-13L*(s+m1*m1+m2*m2),"momentum",ds+cs(g)); } chk(in(kFactor(d,e)),kf(m,w),1e-12L,"kfactor",0);
    for(int l=0;l<=4;++l){ L z=std::exp(r.uni(-6,5)), z0=r.coin(0.2)? 0: std::exp(r.uni(-6,5)); Interp iz; iz.v={{"a",z},{"b",z0}}; chk(iz(BlattWeisskopf(a,l)),BWz(z,l),1e-12L,"barrier",l); chk(iz(BlattWeisskopf_Norm(a,b,l)),BWn(z,z0,l),1e-12L,"barrier.norm",l); Interp i1; i1.v={{"a",1}}; chk(i1(BlattWeisskopf(a,l)),1,1e-13L,"barrier.unit",l); Interp ie; ie.v={{"a",z},{"b",z}}; chk(ie(BlattWeisskopf_Norm(a,b,l)),1,1e-13L,"barrier.equal",l); Interp it0; it0.v={{"a",1e-10L}}; Interp it1; it1.v={{"a",2e-10L}}; chk(it1(BlattWeisskopf(a,l))/it0(BlattWeisskopf(a,l)),std::pow(2.0L,l),1e-7L,"barrier.threshold",l);
      chk(in(width(a,b,c,d,e,f,l)),runw(s,m1*m1,m2*m2,m,w,R,l),1e-10L,"width",l); if(m>m1+m2){ Interp ip=in; ip.fresh(); ip.v["a"]=m*m; chk(ip(width(a,b,c,d,e,f,l)),w,1e-10L,"width.pole",l); } L s0=m*m; L ref=sqrtl(BWz(std::abs(q)*R*R,l)/BWz(std::abs(Q2r(s0,m1*m1,m2*m2))*R*R,l)); chk(in(BL(a,d*d,b,c,f,l)),ref,1e-9L,"barrier.ratio",l); }
    std::vector<L> co; std::vector<Expression> ce; for(int k=r.range(0,6);k>=0;--k){ co.push_back(r.uni(-3,3)); ce.push_back(Constant(double(co.back()))); } L want=0,sc=0; for(int k=int(co.size())-1;k>=0;--k){ want=want*s+co[k]; sc=sc*s+std::abs(co[k]); } C g=in(pol(a,ce)); EXPECT(std::abs(g-C(want))<1e-13L*sc,"polynomial",ds); auto pv=parameterVector("xx",3); EXPECT(pv.size()==3&&pv[2].to_string()=="xx2"||pv[2].to_string().find("xx2")!=std::string::npos,"parameters",pv[2].to_string()); }
  Expression z5; std::string w=vf::capture([&]{ z5=BlattWeisskopf(a,5); }); EXPECT(!w.empty(),"barrier.high",w); }
// one single-resonance shape: documented parameters and formula
struct Shape { std::string name; std::vector<std::string> par; std::function<C(PM&,L,L,L,int)> f; bool sub=true; std::string part=""; int lmax=4; };
static std::vector<Shape> shapes(const std::string& P){ std::string m=P+"_mass",w=P+"_width",R=P+"_radius"; auto ff=[=](PM& p,L s,L a,L b,int l,int kind){ L r=p[R]; L q=std::abs(Q2r(s,a,b))*r*r, q0=std::abs(Q2r(p[m]*p[m],a,b))*r*r; return kind==0? sqrtl(BWn(q,0,l)): kind==1? sqrtl(BWz(q,l)): kind==2? sqrtl(BWn(q,q0,l)): 1.0L; };
  auto bw=[=](int kind){ return [=](PM& p,L s,L a,L b,int l)->C{ C d=p[m]*p[m]-s-I*p[m]*runw(s,a,b,p[m],p[w],p[R],l); return (kind==2? 1: kf(p[m],p[w]))*ff(p,s,a,b,l,kind)/d; }; };
  auto gs=[=](bool rad,bool bl){ return [=](PM& p,L s,L a,L b,int l)->C{ L mpi=massOf("pi+"),M=p[m],G=p[w]; auto k=[&](L x){ return sqrtl(x/4-mpi*mpi); }; auto h=[&](L x){ return 2/PI*k(x)/sqrtl(x)*logl((sqrtl(x)+2*k(x))/(2*mpi)); }; L k0=k(M*M); L hp=h(M*M)*(1/(8*k0*k0)-1/(2*M*M))+1/(2*PI*M*M); L fs=G*M*M/(k0*k0*k0)*(k(s)*k(s)*(h(s)-h(M*M))+(M*M-s)*k0*k0*hp); return kf(M,G)*ff(p,s,a,b,l,bl? 1:0)/(M*M-s+fs-I*M*runw(s,a,b,M,G,rad? p[R]:0,l)); }; };
  auto lass=[=](int kind){ return [=](PM& p,L s,L a,L b,int)->C{ L A=p["LASS::a"],r=p["LASS::r"],M=p[m],q2=Q2r(s,a,b),q=sqrtl(q2); L rho=q/sqrtl(s),rho0=sqrtl(Q2r(M*M,a,b))/M, G=p[w]*rho/rho0; L d=atan2l(2*A*q,2+A*r*q2); C nr=std::sin(d)*std::exp(I*d)/rho, res=std::exp(2.0L*I*d)*(M*G)/(M*M-s-I*M*G)/rho; return kind==0? nr+res: kind==1? res: nr; }; };
  std::string g=P+"::GLASS::";
  auto glass=[=](PM& p,L s,L a,L b,int)->C{ L A=p[g+"a"],r=p[g+"r"],M=p[m],q2=Q2r(s,a,b),q=sqrtl(q2); L rho=q/sqrtl(s),rho0=sqrtl(Q2r(M*M,a,b))/M, G=p[w]*rho/rho0; L dF=p[g+"phiF"]+atan2l(2*A*q,2+A*r*q2), dummy=0; (void)dummy; return (p[g+"R"]*(M*G)/(M*M-s-I*M*G)*std::exp(I*(p[g+"phiR"]+2*dF))+p[g+"F"]*std::sin(dF)*std::exp(I*dF))/rho; };
  auto flatf=[=](bool cut){ return [=](PM& p,L s,L,L,int)->C{ auto rho=[&](const char* x,bool c){ L v=1-4*std::pow(massOf(x),2)/s; return c&&v<0? C(0): csq(v); }; C G=p["Flatte::gPi"]*(rho("pi0",false)/3.0L+rho("pi+",false)*(2/3.0L)+p["Flatte::gK_by_gPi"]*(rho("K0",cut)+rho("K+",cut))/2.0L); return C(1)/(p[m]*p[m]-s-I*p[m]*G); }; };
  auto flata=[=](PM& p,L s,L,L,int)->C{ L me=massOf("eta0"),mp=massOf("pi+"); L lam=(s-std::pow(me+mp,2))*(s-std::pow(me-mp,2)); C G=p["Flatte::g2pieta"]*(sqrtl(lam)/s+p["Flatte::g2KK_by_g2pieta"]*csq(1-4*std::pow(massOf("K+"),2)/s)); return C(1)/(p[m]*p[m]-s-I*p[m]*G); };
  auto bugg=[=](bool az){ return [=](PM& p,L s,L,L,int)->C{ L mp=0.139570,mk=0.493677,me=0.547863,M=p["Bugg::M"]; L sA=p["Bugg::sA"]*mp*mp; auto rho=[&](L x,L mm){ return csq(1-4*mm*mm/x); }; auto j1=[&](L x){ L v=1-4*mp*mp/x; if(v<=0) return 2/PI; L q=sqrtl(v); return (2+q*logl((1-q)/(1+q)))/PI; }; L g1=M*(p["Bugg::b1"]+p["Bugg::b2"]*s)*std::exp(-(s-M*M)/p["Bugg::A"]); L ad=(s-sA)/(M*M-sA); auto r4=[&](L x){ return 1/(1+std::exp(p["Bugg::lambda_4pi"]*(p["Bugg::s0_4pi"]-x))); }; C G=g1*ad*rho(s,mp)+p["Bugg::g_2K"]*g1*s/(M*M)*std::exp(-p["Bugg::alpha"]*std::abs(s-4*mk*mk))*rho(s,mk)+p["Bugg::g_2eta"]*g1*s/(M*M)*std::exp(-p["Bugg::alpha"]*std::abs(s-4*me*me))*rho(s,me)+(s>16*mp*mp? M*p["Bugg::g_4pi"]*r4(s)/r4(M*M): 0); C b=C(1)/(M*M-s-g1*ad*(j1(s)-j1(M*M))-I*G); return az? b*(s-sA)*g1: b; }; };
  auto iso=[](PM& p,L s,L,L,int)->C{ L mpi=0.139570; L d=-p["Isotensor::a"]*PI/180*sqrtl(s/4-mpi*mpi)/(1+s*(p["Isotensor::b"]+s*(p["Isotensor::c"]+s*p["Isotensor::d"]))); return std::sin(d)*std::exp(I*d); };
  auto form=[=](int kind,int fl){ return [=](PM& p,L s,L a,L b,int l)->C{ if(fl>=0) l=fl; L r=p[R],q=Q2r(s,a,b)*r*r,q0=Q2r(p[m]*p[m],a,b)*r*r; return kind==0? sqrtl(BWn(q,0,l)): kind==1? sqrtl(BWz(q,l)): kind==2? sqrtl(BWn(q,q0,l)): 1.0L; }; };
  std::vector<std::string> bp={m,w,R}, bu={"Bugg::M","Bugg::b1","Bugg::b2","Bugg::A","Bugg::g_4pi","Bugg::g_2K","Bugg::g_2eta","Bugg::alpha","Bugg::sA","Bugg::s0_4pi","Bugg::lambda_4pi"}, gl={m,w,g+"a",g+"r",g+"phiR",g+"phiF",g+"R",g+"F"}, la={m,w,"LASS::a","LASS::r"};
  std::vector<Shape> v={{"BW",bp,bw(0)},{"BW.BL",bp,bw(1)},{"BW.BELLE2018",bp,bw(2)},{"BW.NFF",bp,bw(3)},{"BW.unknown",bp,bw(0)},{"SBW",{m,w},[=](PM& p,L s,L,L,int)->C{ return kf(p[m],p[w])/(p[m]*p[m]-s-I*p[m]*p[w]); }},{"NonRelBW",{m,w},[=](PM& p,L s,L,L,int)->C{ return sqrtl(p[w]/(2*PI))/(sqrtl(s)-p[m]-I*p[w]/2.0L); }},{"None",{},[](PM&,L,L,L,int)->C{ return 1; }},{"ExpFF",{R},[=](PM& p,L s,L a,L b,int)->C{ return std::exp(-Q2r(s,a,b)*p[R]*p[R]/2); }},{"Photon",{m},[=](PM& p,L s,L,L,int)->C{ return 1/(s-p[m]*p[m]); }},{"Gaussian.xyz",{"xyz_mean","xyz_sigma"},[=](PM& p,L s,L,L,int)->C{ return std::exp(-std::pow((s-p["xyz_mean"])/p["xyz_sigma"],2)/2); }},
   {"FormFactor",bp,form(0,-1),false},{"FormFactor.BL",bp,form(1,-1),false},{"FormFactor.NFF",bp,form(3,-1),false},{"FormFactor.BELLE2018",bp,form(2,-1),false},{"FormFactor.L0",bp,form(0,0),false},{"FormFactor.L1",bp,form(0,1),false},{"FormFactor.L2",bp,form(0,2),false},{"FormFactor.L3",bp,form(0,3),false},
   {"LASS",la,lass(0),false},{"LASS.BW",la,lass(1),false},{"LASS.NR",la,lass(2),false},{"GLASS",gl,glass,false},{"Bugg",bu,bugg(false)},{"Bugg.Az",bu,bugg(true)},{"Isotensor",{"Isotensor::a","Isotensor::b","Isotensor::c","Isotensor::d"},iso,false}};
  if(P=="rho(770)0"||P=="rho(1450)0") for(int k=0;k<4;++k) v.push_back({k==0? "GounarisSakurai": k==1? "GounarisSakurai.IncludeRadiusInWidth": k==2? "GounarisSakurai.BL": "GounarisSakurai.BLIncludeRadiusInWidth",bp,gs(k&1,k&2),false,P});
  if(P=="f(0)(980)0"){ v.push_back({"Flatte",{m,"Flatte::gPi","Flatte::gK_by_gPi"},flatf(false)}); v.push_back({"Flatte.CutKK",{m,"Flatte::gPi","Flatte::gK_by_gPi"},flatf(true)}); } if(P=="a(0)(980)0") v.push_back({"Flatte",{m,"Flatte::g2pieta","Flatte::g2KK_by_g2pieta"},flata,false});
  return v; }
static const PM documented={{"LASS::a",2.07},{"LASS::r",3.32},{"Flatte::gPi",0.165},{"Flatte::gK_by_gPi",4.21},{"Flatte::g2pieta",0.175},{"Flatte::g2KK_by_g2pieta",1.20},{"Bugg::M",0.935},{"Bugg::b1",1.302},{"Bugg::b2",0.340},{"Bugg::A",2.426},{"Bugg::g_4pi",0.011},{"Bugg::g_2K",0.6},{"Bugg::g_2eta",0.2},{"Bugg::alpha",1.3},{"Bugg::sA",0.41},{"Bugg::s0_4pi",7.082/2.845},{"Bugg::lambda_4pi",2.845},{"Isotensor::a",55.21},{"Isotensor::b",0.853},{"Isotensor::c",-0.959},{"Isotensor::d",0.314}};
static L dflt(const std::string& P,const std::string& n){ auto pp=ParticlePropertiesList::get(P); if(n==P+"_mass") return pp->mass(); if(n==P+"_width") return pp->width(); if(n==P+"_radius") return pp->radius(); size_t g=n.find("::GLASS::"); if(g!=std::string::npos){ std::string t=n.substr(g+9); return t=="a"? 2.07L: t=="r"? 3.32L: t=="R"||t=="F"? 1.0L: 0.0L; } auto it=documented.find(n); return it!=documented.end()? it->second: 0; }
static const std::vector<std::string> names={"rho(770)0","K*(892)bar0","f(0)(980)0","a(0)(980)0","f(2)(1270)0","K(0)*(1430)bar0","rho(1450)0","D0","D*(2010)+","Lambda(1520)0","Delta(1232)++","B0","phi(1020)0"};
static std::set<std::string> shapeNames;
static void table(int part,int parts,int n){ auto& r=vf::rng(); for(size_t q=part;q<names.size();q+=parts){ std::string P=names[q]; for(auto& sh: shapes(P)) for(int it=0;it<n;++it){ int l=r.range(0,sh.lmax); PM p; bool def=it==0&&sh.name!="Gaussian.xyz"&&ParticlePropertiesList::get(P)->width()>0; Interp in; for(auto& x: sh.par){ L v=dflt(P,x); if(!def&&(r.coin(0.7)||v==0)){ if(x.find("_width")!=std::string::npos) v=std::exp(r.uni(-5,0)); else if(x.find("_mass")!=std::string::npos) v=r.uni(0.5,3); else if(x.find("phi")!=std::string::npos) v=r.uni(-3,3); else if(v==0) v=r.uni(0.5,2); else v*=r.uni(0.6,1.6); in.v[x]=v; } p[x]=in.v.count(x)? in.v[x]: v; } L M=p.count(P+"_mass")? p[P+"_mass"]: L(1); L m1,m2; bool pp=sh.name.find("Gounaris")==0||sh.name=="Isotensor"; if(pp) m1=m2=massOf("pi+"); else { m1=r.uni(0.05,0.45)*double(M); m2=r.coin(0.2)? double(m1): r.uni(0.05,0.45)*double(M); } L thr=m1+m2; if(sh.name.find("Flatte")==0||sh.name.find("Bugg")==0) thr= P=="a(0)(980)0"&&sh.name=="Flatte"? massOf("eta0")+massOf("pi+"): 0.2; L s=std::pow(sh.sub? std::max<L>(thr,0.05)*r.uni(0.5,4): thr*r.uni(1.0001,4),2); if(r.coin(0.1)&&M>thr) s=M*M*(1+1e-6L*r.uni(-1,1)); if(sh.name=="Isotensor") s=std::pow(r.uni(0.2801,1.4),2);
      in.v["s"]=s; in.v["s1"]=m1*m1; in.v["s2"]=m2*m2; std::string d=P+" "+sh.name+vf::fmt(" L=%d s=%.12Lg m1=%.10Lg m2=%.10Lg",l,s,m1,m2); for(auto& [k,v]: p) d+=vf::fmt(" %s=%.10Lg",k.c_str(),v); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression e; std::string why=vf::capture([&]{ e=Lineshape::Factory::get(sh.name,S,S1,S2,P,l); }); C got=in(e), want=sh.f(p,s,m1*m1,m2*m2,l); EXPECT(close(got,want,1e-9L),"shape."+sh.name,d+": "+cs(got)+" instead of "+cs(want)); for(auto& u: in.used) EXPECT(u=="s"||u=="s1"||u=="s2"||std::find(sh.par.begin(),sh.par.end(),u)!=sh.par.end(),"parameter."+sh.name,d+" uses "+u); EXPECT(Lineshape::Factory::isLineshape(sh.name),"known."+sh.name,""); vf::count("shapes"); if(it==1&&q==0) vf::sample(d);
      // unchanged when extra information for debugging is collected
      if(it==1){ DebugSymbols db; Expression e2; vf::capture([&]{ e2=Lineshape::Factory::get(sh.name,S,S1,S2,P,l,&db); }); Interp i2=in; i2.fresh(); EXPECT(close(i2(e2),got,1e-14L),"debug."+sh.name,d); } } }
  EXPECT(!Lineshape::Factory::isLineshape("NoSuchShape")&&!Lineshape::Factory::isLineshape("NoSuchShape.x"),"unknown",""); vf::require("shapes",20); }
// shapes of a given decay take their masses and orbital momentum from it
static void decays(int n){ auto& r=vf::rng(); static const std::vector<std::pair<std::string,std::vector<std::string>>> ds={{"rho(770)0{pi+,pi-}",{"pi+","pi-"}},{"K*(892)bar0{K-,pi+}",{"K-","pi+"}},{"f(2)(1270)0{pi+,pi-}",{"pi+","pi-"}},{"K(0)*(1430)bar0{K-,pi+}",{"K-","pi+"}},{"D*(2010)+{D0,pi+}",{"D0","pi+"}},{"Lambda(1520)0{p+,K-}",{"p+","K-"}}}; for(int it=0;it<n;++it) for(auto& [t,fs]: ds){ Particle p(t,fs); std::string P=p.name(); int l=p.L(); Interp in; L m1=massOf(fs[0]),m2=massOf(fs[1]); la::V a{r.gauss(),r.gauss(),r.gauss(),0},b{r.gauss(),r.gauss(),r.gauss(),0}; auto os=[](la::V& v,L m){ v[3]=sqrtl(std::norm(v[0])+std::norm(v[1])+std::norm(v[2])+m*m); }; os(a,m1); os(b,m2); const char* c[4]={"_Px","_Py","_Pz","_E"}; for(int i=0;i<4;++i){ in.v[std::string("0")+c[i]]=a[i].real(); in.v[std::string("1")+c[i]]=b[i].real(); } la::V t4=a; for(int i=0;i<4;++i) t4[i]+=b[i]; L s=la::mink(t4,t4); for(auto& sh: shapes(P)){ if(sh.name=="Gaussian.xyz"||sh.name.find("GLASS")==0||sh.name=="Isotensor") continue; PM pm; for(auto& x: sh.par) pm[x]=dflt(P,x); std::string d=t+" "+sh.name+vf::fmt(" s=%.10Lg",s); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression e; vf::capture([&]{ e=Lineshape::Factory::get(sh.name,p,nullptr); }); C got=in(e),want=sh.f(pm,s,m1*m1,m2*m2,l); EXPECT(close(got,want,1e-7L),"decay."+sh.name,d+": "+cs(got)+" instead of "+cs(want)); vf::count("decays"); } } vf::require("decays",50); }
// phase space of two and three particles, dispersive versions, coupled channels
static L lam(L x,L y,L z){ return x*x+y*y+z*z-2*x*y-2*x*z-2*y*z; }
static L simpson(const std::function<L(L)>& f,L a,L b,int n){ L h=(b-a)/n,t=f(a)+f(b); for(int i=1;i<n;++i) t+=f(a+i*h)*(i%2? 4:2); return t*h/3; }
static void phsp(int n){ auto& r=vf::rng(); struct T { std::string d; std::string m1,m2; int l; }; static const std::vector<T> two={{"rho(770)0{pi+,pi-}","pi+","pi-",1},{"f(0)(980)0{K+,K-}","K+","K-",0},{"K(0)*(1430)bar0{K-,pi+}","K-","pi+",0},{"f(2)(1270)0{pi+,pi-}","pi+","pi-",2},{"a(0)(980)0{eta0,pi0}","eta0","pi0",0},{"rho(3)(1690)0{pi+,pi-}","pi+","pi-",3}};
  for(auto& t: two) for(int it=0;it<n;++it){ Particle p(t.d); L a=massOf(t.m1),b=massOf(t.m2); L s=std::pow((a+b)*r.uni(0.4,4),2); std::string P=p.name(); L R=r.coin()? r.uni(0.5,5): -1; Interp in; in.v["s"]=s; if(R>0) in.v[P+"_radius"]=R; else R=p.props()->radius(); std::string d=t.d+vf::fmt(" s=%.12Lg R=%Lg",s,R); vf::begin_case(d); vf::eval(); vf::distinct(d); C got=in(phaseSpace(S,p,t.l)); L k2=std::max(Q2r(s,a*a,b*b),0.0L); C want=csq(lam(s,a*a,b*b))/(16*PI*s)*BWz(k2*R*R,t.l); EXPECT(close(got,want,1e-10L)||std::abs(got-want)<1e-14L,"phsp.two",d+cs(got)+" instead of "+cs(want));
    Particle as(t.d); as=Particle(t.d.substr(0,t.d.find('{'))+"[phsp=arXiv.0707.3596]"+t.d.substr(t.d.find('{'))); Expression ea; vf::capture([&]{ ea=phaseSpace(S,as,t.l); }); C ga=in(ea), wa=2.0L*csq(Q2r(s,a*a,b*b)/s); EXPECT(close(ga,wa,1e-10L),"phsp.as",d+cs(ga)+" instead of "+cs(wa));
    if(t.l==0){ Particle cm(t.d.substr(0,t.d.find('{'))+"[phsp=CM]"+t.d.substr(t.d.find('{'))); Interp i2; i2.v["s"]=s; C g=i2(phaseSpace(S,cm,0)); // i times it is the once-subtracted dispersion integral of the phase space
      L sT=(a+b)*(a+b); EXPECT(std::abs(g.real()-(s>sT? sqrtl(lam(s,a*a,b*b))/(16*PI*s): 0.0L))<1e-12L,"phsp.cm.cut",d+cs(g)); auto im=[&](L x){ return sqrtl(std::max(lam(x,a*a,b*b),0.0L))/(16*PI*x); }; // substitution x = sT/(u^2) ... integrate (s-sT)/pi P int im(x)/((x-sT)(x-s)) with the pole subtracted
      L f0= s>sT? im(s)/(s-sT): 0; auto g1=[&](L u){ if(u<=0||u>=1) return 0.0L; L w=1-u*u; L x=sT/w; L dx=sT*2*u/(w*w); L den=x-s; if(std::abs(den)<1e-12L) return 0.0L; return (im(x)/(x-sT)-f0*(s>sT? sT/x*(s/sT)*1.0L: 0))/den*dx; }; (void)g1; L disp; { // tails handled with u in (0,1), x from sT to infinity
        auto h=[&](L u){ return g1(u); }; disp=simpson(h,1e-9L,1-1e-9L,20001-1); if(s>sT){ // P int sT.. of f0*(s/x)/(x-s) = f0*[ln|x-s|/x ...]
          disp+=f0*(-logl((s-sT)/sT)); } } C sig=I*g; L want2=(s-sT)*disp/PI; EXPECT(std::abs(sig.real()-want2)<3e-4L*(std::abs(want2)+1e-3L),"phsp.cm.real",d+vf::fmt(": %.8Lg instead of %.8Lg",sig.real(),want2)); } vf::count("phsp"); }
  struct T3 { std::string d; std::string res,b; std::string r1,r2; }; static const std::vector<T3> three={{"a(1)(1260)+{rho(770)0{pi+,pi-},pi+}","rho(770)0","pi+","pi+","pi-"},{"K(1)(1270)bar-{K*(892)bar0{K-,pi+},pi-}","K*(892)bar0","pi-","K-","pi+"},{"K(1)(1270)bar-{K-,rho(770)0{pi+,pi-}}","rho(770)0","K-","pi+","pi-"}};
  for(auto& t: three) for(int it=0;it<n;++it){ Particle p(t.d); auto rp=ParticlePropertiesList::get(t.res); L m=rp->mass(),G=rp->width(),m1=massOf(t.b),m2=massOf(t.r1),m3=massOf(t.r2); L thr=m1+m2+m3; L s=std::pow(thr*r.uni(it%4==0? 0.6:1.02,3),2); std::string d=t.d+vf::fmt(" s=%.10Lg",s); vf::begin_case(d); vf::eval(); vf::distinct(d); Interp in; in.v["s"]=s; C got=in(phaseSpace(S,p,0)); L sT=(m2+m3)*(m2+m3), hi=std::pow(sqrtl(s)-m1,2); L want=0; if(sqrtl(s)>thr){ // substitute x = m^2+mG tan(t)
        auto at=[&](L x){ return atanl((x-m*m)/(m*G)); }; L A=at(sT),B=at(hi); want=simpson([&](L v){ L tt=A+(B-A)*(3*v*v-2*v*v*v); L x=m*m+m*G*tanl(tt); return sqrtl(std::max(lam(s,x,m1*m1),0.0L))*(B-A)*6*v*(1-v); },0,1,4000)/(16*PI*PI*s); } EXPECT(std::abs(got-C(want))<1e-6L*(std::abs(want)+1e-6L),"phsp.three",d+": "+cs(got)+vf::fmt(" instead of %.10Lg",want)); vf::count("phsp3"); } }
static void dispersive(int n){ auto& r=vf::rng(); struct T { std::string d; int l; }; static const std::vector<T> ts={{"rho(770)0[phsp=CM]{pi+,pi-}",1},{"f(2)(1270)0[phsp=CM]{pi+,pi-}",2},{"rho(3)(1690)0[phsp=CM]{pi+,pi-}",3}}; for(auto& t: ts){ Particle p(t.d); L m=massOf("pi+"),R=p.props()->radius(),sT=4*m*m; Expression e=phaseSpace(S,p,t.l); for(int it=0;it<n;++it){ L s=r.coin(0.7)? r.uni(double(sT)*1.01,4.5): r.uni(0.001,double(sT)*0.99); std::string d=t.d+vf::fmt(" s=%.10Lg",s); vf::begin_case(d); vf::eval(); vf::distinct(d); Interp in; in.v["s"]=s; C sig=I*in(e); auto im=[&](L x){ L q2=Q2r(x,m*m,m*m); return q2<=0? 0.0L: 2*BWz(q2*R*R,t.l)*sqrtl(q2/x); }; EXPECT(std::abs(sig.imag()-(s>sT? im(s): 0.0L))<1e-9L,"dispersive.cut",d+cs(sig)+vf::fmt(" instead of %.10Lg",im(s)));
      // subtract the pole, integrate in log(x - sT) up to the same cut-off as the published implementation, 1e5
      L X=1e5L; auto fx=[&](L x){ return im(x)/(x-sT); }; L f0=s>sT? fx(s): 0; L disp=simpson([&](L v){ L x=sT+expl(v); L den=x-s; if(std::abs(den)<1e-13L) return 0.0L; return (fx(x)-f0*s/x)/den*(x-sT); },logl(1e-9L),logl(X-sT),40000); if(s>sT){ // P int (s/x)/(x-s) = [ln|x-s|-ln x]
        disp+=f0*((logl(X-s)-logl(X))-(logl(s-sT)-logl(sT))); } L want=(s-sT)*disp/PI; EXPECT(std::abs(sig.real()-want)<2e-2L*(std::abs(want)+0.3L),"dispersive.real",d+vf::fmt(": %.6Lg instead of %.6Lg",sig.real(),want)); vf::count("dispersive"); } } }
static void coupled(int n){ auto& r=vf::rng(); struct Ch { std::string d; L a,b; int l; }; L mpi=massOf("pi+"),mk=massOf("K+"),me=massOf("eta0"); std::vector<Ch> chs={{"f(0)(980)0{pi+,pi-}",mpi,mpi,0},{"f(0)(980)0{K+,K-}",mk,mk,0},{"f(0)(980)0{eta0,eta0}",me,me,0},{"rho(770)0{pi+,pi-}",mpi,mpi,1},{"rho(770)0{K+,K-}",mk,mk,1}}; for(int it=0;it<n;++it){ std::string P="f(0)(980)0"; std::vector<Ch> use; std::vector<std::string> cn; std::string opt="f(0)(980)0_channels"; Interp in; std::vector<L> g; for(size_t k=0;k<chs.size();++k) if(r.coin(0.6)||(k+1==chs.size()&&use.empty())){ std::string c="cc_"+std::to_string(it)+"_"+std::to_string(k); opt+=" "+chs[k].d+" "+c; use.push_back(chs[k]); g.push_back(r.uni(0.1,3)); in.v[c]=g.back(); } vf::capture([&]{ OptionsParser::setArg(opt); }); int l=r.range(0,3); L m1=r.uni(0.1,0.5),m2=r.uni(0.1,0.5); L s=std::pow(r.uni(0.2,2.5),2); PM p; for(auto x: {"_mass","_width","_radius"}){ L v=dflt(P,P+x); if(r.coin()){ v=r.uni(0.4,2); in.v[P+x]=v; } p[x]=v; } in.v["s"]=s; in.v["s1"]=m1*m1; in.v["s2"]=m2*m2; L M=p["_mass"],R=p["_radius"]; auto rho=[&](L x,const Ch& c){ L rr=c.d[0]=='f'? R: L(ParticlePropertiesList::get("rho(770)0")->radius()); L k2=std::max(Q2r(x,c.a*c.a,c.b*c.b),0.0L); return csq(lam(x,c.a*c.a,c.b*c.b))/(16*PI*x)*BWz(k2*rr*rr,c.l); }; C G=0,G0=0; for(size_t k=0;k<use.size();++k){ G+=g[k]*rho(s,use[k]); G0+=g[k]*rho(M*M,use[k]); } L q=std::abs(Q2r(s,m1*m1,m2*m2))*R*R;
    for(int md=0;md<3;++md){ std::string nm=md==0? "CoupledChannel": md==1? "CoupledChannel.BL": "CoupledChannel.norm"; if(md==2&&std::abs(G0)<1e-6L) continue; std::string d=nm+" "+opt+vf::fmt(" L=%d s=%.12Lg",l,s); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression e; std::string why=vf::capture([&]{ e=Lineshape::Factory::get(nm,S,S1,S2,P,l); }); Interp i2=in; C got=i2(e); C W=md==2? G*p["_width"]/G0: G; C want=kf(M,p["_width"])*sqrtl(md==1? BWz(q,l): BWn(q,0,l))/(M*M-s-I*M*W); EXPECT(close(got,want,1e-9L),"coupled."+nm,d+": "+cs(got)+" instead of "+cs(want)+why.substr(0,200)); vf::count("coupled"); } } vf::require("coupled",10); }
// shapes that depend on the whole decay
static void generic(int n){ auto& r=vf::rng(); Particle eta("eta0{pi+,pi-,pi0}",{"pi+","pi-","pi0"}); Particle nr("D0{pi+,pi-,pi0}",{"pi+","pi-","pi0"}); for(int it=0;it<n;++it){ Interp in; la::V p[3],t(4); L ms[3]={massOf("pi+"),massOf("pi-"),massOf("pi0")}; const char* c[4]={"_Px","_Py","_Pz","_E"}; bool near=r.coin(); for(int k=0;k<3;++k){ p[k]=la::V{r.gauss()*(near? 0.1:0.5),r.gauss()*(near? 0.1:0.5),r.gauss()*(near? 0.1:0.5),0}; p[k][3]=sqrtl(std::norm(p[k][0])+std::norm(p[k][1])+std::norm(p[k][2])+ms[k]*ms[k]); for(int i=0;i<4;++i){ in.v[std::to_string(k)+c[i]]=p[k][i].real(); t[i]+=p[k][i]; } } auto s=[&](int i,int j){ la::V v=p[i]; for(int k=0;k<4;++k) v[k]+=p[j][k]; return la::mink(v,v); };
    int deg=r.range(0,3); std::string nm="pp"+std::to_string(it); vf::capture([&]{ OptionsParser::setArg(nm+"::Degree "+std::to_string(deg)); }); L want=0,sc=0; for(int i=0;i<=deg;++i) for(int j=0;j<=deg;++j){ L x=r.uni(-2,2); in.v[nm+"_"+std::to_string(i)+"_"+std::to_string(j)]=x; L tm=x*std::pow(s(0,1),L(i))*std::pow(s(0,2),L(j)); want+=tm; sc+=std::abs(tm); } std::string d=vf::fmt("degree %d s01=%Lg s02=%Lg",deg,s(0,1),s(0,2)); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression e; vf::capture([&]{ e=Lineshape::Factory::get("PolyNR."+nm,nr,nullptr); }); C g=in(e); EXPECT(std::abs(g-C(want))<1e-10L*sc,"PolyNR",d+cs(g)+vf::fmt(" instead of %Lg",want));
    L w1=0,sc1=0; L ss=r.uni(0.1,3); Interp i1; i1.v["s"]=ss; for(int i=0;i<=deg;++i){ L x=r.uni(-2,2); i1.v[nm+"_c"+std::to_string(i)]=x; w1+=x*std::pow(ss,L(i)); sc1+=std::abs(x*std::pow(ss,L(i))); } Expression ep; vf::capture([&]{ ep=Lineshape::Factory::get("Poly."+nm,S,S1,S2,"rho(770)0",0); }); C gp=i1(ep); EXPECT(std::abs(gp-C(w1))<1e-11L*sc1,"Poly",d+cs(gp)+vf::fmt(" instead of %Lg",w1)); EXPECT(i1.unset.empty(),"Poly.parameters",d);
    L T[3],Q=0,mm=massOf("eta0"); { la::V tt(3); for(int k=0;k<3;++k) for(int i=0;i<3;++i) tt[i]+=p[k][i]; for(int k=0;k<3;++k) for(int i=0;i<3;++i) p[k][i]-=tt[i]/C(3); L lo=0,hi=50; auto E=[&](L x){ L o=0; for(int k=0;k<3;++k){ L q=0; for(int i=0;i<3;++i) q+=std::norm(p[k][i])*x*x; o+=sqrtl(q+ms[k]*ms[k]); } return o; }; for(int k=0;k<200;++k){ L x=(lo+hi)/2; (E(x)<mm? lo: hi)=x; } t=la::V(4); for(int k=0;k<3;++k){ L q=0; for(int i=0;i<3;++i){ p[k][i]*=lo; q+=std::norm(p[k][i]); } p[k][3]=sqrtl(q+ms[k]*ms[k]); for(int i=0;i<4;++i) t[i]+=p[k][i]; } L g=r.uni(1,2),bg=sqrtl(g*g-1); auto bo=[&](la::V& v){ C z=v[2],e0=v[3]; v[2]=g*z+bg*e0; v[3]=g*e0+bg*z; }; bo(t); for(int k=0;k<3;++k){ bo(p[k]); for(int i=0;i<4;++i) in.v[std::to_string(k)+c[i]]=p[k][i].real(); } } for(int k=0;k<3;++k){ T[k]=la::mink(p[k],t)-mm*ms[k]; Q+=T[k]; } L z=1-1.07L*(3*T[2]/Q-1); Expression ee; vf::capture([&]{ ee=Lineshape::Factory::get("EtaDalitz",eta,nullptr); }); Interp i3=in; i3.fresh(); C ge=i3(ee); L we=z>0? sqrtl(z): 1; EXPECT(std::abs(ge-C(we))<1e-7L*(1+1/sqrtl(std::abs(z)))*std::max<L>(1,1/Q),"EtaDalitz",d+cs(ge)+vf::fmt(" instead of %Lg",we)); i3.v["D0_decayTime"]=0.3L+it; Expression et=Lineshape::Factory::get("TD",nr,nullptr); C gt=i3(et); EXPECT(close(gt,(0.3L+it)/(2*L(nr.props()->lifetime())),1e-12L),"TD",cs(gt)); vf::count("generic"); } }
// compiled code, including shapes made of splines
struct Nat { std::vector<L> y,m; L a,b; Nat(std::vector<L> v,L lo,L hi):y(v),m(v.size()),a(lo),b(hi){ int n=y.size(); L h=(b-a)/(n-1); std::vector<L> c(n),d(n); // Thomas algorithm for the natural spline
    for(int i=1;i<n-1;++i){ L rhs=6*(y[i+1]-2*y[i]+y[i-1])/(h*h); L w=4-(i>1? c[i-1]:0); c[i]=1/w; d[i]=(rhs-(i>1? d[i-1]:0))/w; } for(int i=n-2;i>=1;--i) m[i]=d[i]-c[i]*m[i+1]; }
  L operator()(L x) const { int n=y.size(); L h=(b-a)/(n-1); int i=std::min(n-2,std::max(0,int((x-a)/h))); L t=x-a-i*h,u=h-t; return (m[i]*u*u*u+m[i+1]*t*t*t)/(6*h)+(y[i]/h-m[i]*h/6)*u+(y[i+1]/h-m[i+1]*h/6)*t; } };
typedef CompiledExpression<complex_t(const double*,const double*)> CE;
static void compiled(int which,int n){ auto& r=vf::rng(); std::map<std::string,unsigned> evt={{"s",0},{"s1",1},{"s2",2}}; 
  if(which==0){ std::string P="rho(770)0"; MinuitParameterSet mps; std::map<std::string,Nat> sp; auto add=[&](const std::string& nm,int K,L lo,L hi,L vlo,L vhi){ std::vector<L> v; for(int i=0;i<K;++i){ v.push_back(r.uni(double(vlo),double(vhi))); mps.add(P+"::Spline::"+nm+"::"+std::to_string(i),Flag::Free,double(v.back()),0.1); } sp.emplace(nm,Nat(v,lo,hi)); }; int K=r.range(3,9); L lo=0.1,hi=2.9; vf::capture([&]{ OptionsParser::setArg(P+"::Spline "+std::to_string(K)+" 0.1 2.9"); }); add("Re",K,lo,hi,-1,1); add("Im",K,lo,hi,-1,1); add("Gamma",K,lo,hi,0.5,1.5); add("dm2",K,lo,hi,-0.1,0.1); add("FF",K,lo,hi,0.3,1.5); add("Eta",K,lo,hi,0.5,1); add("Delta",K,lo,hi,0,3); PM p={{"_mass",r.uni(0.6,1.2)},{"_width",r.uni(0.05,0.3)},{"_radius",r.uni(1,4)}}; for(auto& [k,v]: p) mps.add(P+k,Flag::Free,double(v),0.1);
    struct Q { std::string n; std::function<C(L,L,L,int)> f; }; L M=p["_mass"],W=p["_width"],R=p["_radius"]; auto at=[&](const std::string& k,L x){ return sp.at(k)(x); }; auto gsp=[&](int k){ return [=](L s,L a,L b,int l)->C{ L q=std::abs(Q2r(s,a,b))*R*R; L bf=k==1? sqrtl(BWz(q,l)): k==2? std::exp(-q/2): sqrtl(BWn(q,0,l)); L g=W*at("Gamma",s)/at("Gamma",M*M); L re=M*M+(k==3? at("dm2",s)-at("dm2",M*M): 0); return kf(M,W)*bf/(re-s-I*M*g); }; };
    std::vector<Q> qs={{"MIPWA",[&](L s,L,L,int){ return C(at("Re",s),at("Im",s)); }},{"MIPWA.Polar",[&](L s,L,L,int){ return std::polar(L(1),at("Im",s))*at("Re",s); }},{"InelasticSpline",[&](L s,L,L,int){ return (at("Eta",s)*std::exp(2.0L*I*at("Delta",s))-1.0L)/(2.0L*I); }},{"GSpline",gsp(0)},{"GSpline.BL",gsp(1)},{"GSpline.EFF",gsp(2)},{"GSpline.Dis",gsp(3)},{"FormFactorSpline",[&](L s,L a,L b,int l)->C{ return at("FF",s)/(M*M-s-I*M*runw(s,a,b,M,W,R,l)); }},{"DecaySpline",[&](L s,L a,L b,int)->C{ return at("FF",Q2r(s,a,b)); }}}; std::vector<CE*> fs; std::vector<CompiledExpressionBase*> fb; int l=r.range(0,3); for(auto& q: qs){ Expression e; vf::capture([&]{ e=Lineshape::Factory::get(q.n,S,S1,S2,P,l); }); fs.push_back(new CE(e,"ls_"+std::to_string(fs.size()),evt,&mps)); fb.push_back(fs.back()); } CompilerWrapper cw; cw.compile(fb,vf::scratch()+"/sp.cpp"); for(auto f: fb) f->prepare(); for(int it=0;it<n;++it){ L s=r.uni(0.15,2.85),a=std::pow(r.uni(0.05,0.15),2),b=std::pow(r.uni(0.05,0.15),2); for(size_t k=0;k<qs.size();++k){ if(qs[k].n=="DecaySpline"){ s=r.uni(1.0,9.0); } double ev[3]={double(s),double(a),double(b)}; std::string d=qs[k].n+vf::fmt(" K=%d L=%d s=%.12Lg",K,l,s); vf::begin_case(d); vf::eval(); vf::distinct(d); complex_t g=(*fs[k])(ev); C got(g.real(),g.imag()), want=qs[k].f(ev[0],ev[1],ev[2],l); EXPECT(close(got,want,1e-9L)||std::abs(got-want)<1e-10L,"spline."+qs[k].n,d+": "+cs(got)+" instead of "+cs(want)); vf::count("spline"); } } for(auto f: fs) delete f; vf::require("spline",n*5); return; }
  // all other shapes
  static const std::vector<std::string> ps={"","rho(770)0","f(0)(980)0","a(0)(980)0"}; std::string P=ps[which]; MinuitParameterSet mps; auto shs=shapes(P); std::vector<CE*> fs; std::vector<CompiledExpressionBase*> fb; int l=r.range(0,4); PM all; for(auto& sh: shs) for(auto& x: sh.par) if(!all.count(x)){ L v=dflt(P,x); bool set=v==0||r.coin(0.6); if(set){ v=v==0? r.uni(0.5,1.5): v*r.uni(0.9,1.1); mps.add(x,Flag::Free,double(v),0.1); } all[x]=v; } for(auto& sh: shs){ Expression e; vf::capture([&]{ e=Lineshape::Factory::get(sh.name,S,S1,S2,P,l); }); fs.push_back(new CE(e,"ls"+std::to_string(which)+"_"+std::to_string(fs.size()),evt,&mps)); fb.push_back(fs.back()); } CompilerWrapper cw; cw.compile(fb,vf::scratch()+"/ls"+std::to_string(which)+".cpp"); for(auto f: fb) f->prepare(); for(int it=0;it<n;++it) for(size_t k=0;k<shs.size();++k){ auto& sh=shs[k]; bool pp=sh.name.find("Gounaris")==0||sh.name=="Isotensor"; L m1=pp? massOf("pi+"): L(r.uni(0.05,0.3)),m2=pp? m1: L(r.uni(0.05,0.3)); L thr=sh.name=="Flatte"&&which==3? massOf("eta0")+massOf("pi+"): m1+m2; L s=std::pow(sh.sub? thr*r.uni(0.5,4): thr*r.uni(1.01,4),2); if(sh.name.find("FormFactor")==0&&s<thr*thr) s=thr*thr*1.5; double ev[3]={double(s),double(m1*m1),double(m2*m2)}; std::string d=P+" compiled "+sh.name+vf::fmt(" L=%d s=%.12Lg m1=%Lg m2=%Lg",l,s,m1,m2); vf::begin_case(d); vf::eval(); vf::distinct(d); complex_t g=(*fs[k])(ev); C got(g.real(),g.imag()),want=sh.f(all,ev[0],ev[1],ev[2],l); EXPECT(close(got,want,1e-8L),"compiled."+sh.name,d+": "+cs(got)+" instead of "+cs(want)); vf::count("compiled"); } for(auto f: fs) delete f; vf::require("compiled",n*10); }
void harness(){ for(int s=0;s<3;++s) vf::section("compiled"+std::to_string(s+1),[s]{ compiled(s+1,vf::scale(20,400)); },vf::scale(250,850)); vf::section("spline",[]{ compiled(0,vf::scale(60,2000)); },vf::scale(250,850)); vf::section("barriers",[]{ barriers(vf::scale(600,8000)); },vf::scale(250,850)); for(int s=0;s<4;++s) vf::section("table"+std::to_string(s),[s]{ table(s,4,vf::scale(60,800)); },vf::scale(250,850)); vf::section("decays",[]{ decays(vf::scale(5,120)); },vf::scale(250,850)); vf::section("phsp",[]{ phsp(vf::scale(12,150)); },vf::scale(250,850)); vf::section("dispersive",[]{ dispersive(vf::scale(12,80)); },vf::scale(250,850)); vf::section("coupled",[]{ coupled(vf::scale(80,1000)); },vf::scale(250,850)); vf::section("generic",[]{ generic(vf::scale(25,600)); },vf::scale(250,850)); }
