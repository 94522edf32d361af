// C21: K-matrix amplitudes against a dense long-double calculation; unitarity, symmetry, thresholds, elastic amplitudes
#include "interp.h"
#include "jit.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/kMatrix.h"
#include "AmpGen/CoupledChannel.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/OptionsParser.h"
using namespace AmpGen; using L=long double; using C=std::complex<L>; using la::M;
static const C I(0,1); static const L PI=acosl(-1.0L);
static L massOf(const std::string& n){ return ParticlePropertiesList::get(n)->mass(); }
static C csq(L x){ return x>=0? C(sqrtl(x)): C(0,sqrtl(-x)); }
static std::string cs(C z){ return vf::fmt("(%.8Lg,%.8Lg)",z.real(),z.imag()); }
static bool close(C a,C b,L tol){ return std::isfinite(std::abs(a))&&std::isfinite(std::abs(b))&&std::abs(a-b)<=tol*(std::abs(a)+std::abs(b)+1e-300L); }
static M inv(M a){ int n=a.n; M r=la::id(n); for(int c=0;c<n;++c){ int p=c; for(int i=c;i<n;++i) if(std::abs(a(i,c))>std::abs(a(p,c))) p=i; for(int j=0;j<n;++j){ std::swap(a(c,j),a(p,j)); std::swap(r(c,j),r(p,j)); } C d=C(1)/a(c,c); for(int j=0;j<n;++j){ a(c,j)*=d; r(c,j)*=d; } for(int i=0;i<n;++i) if(i!=c){ C f=a(i,c); if(f!=C(0)) for(int j=0;j<n;++j){ a(i,j)-=f*a(c,j); r(i,j)-=f*r(c,j); } } } return r; }
static M diag(const std::vector<C>& v){ M m(v.size(),v.size()); for(size_t i=0;i<v.size();++i) m(i,i)=v[i]; return m; }
static M prop(const M& K,const std::vector<C>& rho){ return inv(la::add(la::id(K.n),la::scale(la::mul(K,diag(rho)),I),-1)); }
static Parameter S("s"),S1("s1"),S2("s2");
// unitarity above threshold: Im T = T^dagger Re(rho) T, symmetry
static void unitary(const M& T,const std::vector<C>& rho,const std::string& key,const std::string& d,L tol){ std::vector<C> open; for(auto& z: rho) open.push_back(z.real()); M rhs=la::mul(la::mul(la::dag(T),diag(open)),T); L sc=std::max<L>(1e-6L,la::norm(T)+la::norm(rhs)); for(int i=0;i<T.n;++i) for(int j=0;j<T.n;++j){ EXPECT(std::abs(T(i,j)-T(j,i))<tol*sc,key+".symmetry",d+vf::fmt(" T(%d,%d)=",i,j)+cs(T(i,j))+" and "+cs(T(j,i))); C lhs=(T(i,j)-std::conj(T(j,i)))/(2.0L*I); EXPECT(std::abs(lhs-rhs(i,j))<tol*sc,key+".unitarity",d+vf::fmt(" (%d,%d): ",i,j)+cs(lhs)+" and "+cs(rhs(i,j))); } vf::count("unitarity"); }
// general number of channels and poles
static void general(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ int nc=r.range(1,6),np=r.range(0,5); Interp in; L s=r.uni(0.3,6); in.v["s"]=s; std::vector<poleConfig> pc; std::vector<std::vector<L>> g; std::vector<L> m2; for(int a=0;a<np;++a){ L m=r.uni(0.3,2.5); std::string st="p"+std::to_string(a); in.v[st]=m; Expression ms=Parameter(st); poleConfig p(ms*ms); g.push_back({}); m2.push_back(m*m); for(int c=0;c<nc;++c){ L x=r.uni(-1.5,1.5); std::string q=st+"_"+std::to_string(c); in.v[q]=x; p.add(Parameter(q)); g.back().push_back(x); } EXPECT(p.couplings.size()==size_t(nc)&&p.bl_factors.size()==size_t(nc),"poles",""); pc.push_back(p); } std::vector<C> rho; std::vector<Expression> re; for(int c=0;c<nc;++c){ L a=r.uni(0.05,0.9),b=r.coin(0.4)? double(a): r.uni(0.05,0.9); int kind=r.range(0,1); Expression e=kind? phsp_FOCUS(S,double(a),double(b)): phsp_twoBody(S,double(a),double(b)); C w=kind? csq((1-(a+b)*(a+b)/s)*(1-(a-b)*(a-b)/s)): csq(1-(a+b)*(a+b)/s); C got=in(e); std::string d=vf::fmt("kind %d s=%.10Lg masses %.6Lg %.6Lg: ",kind,s,a,b)+cs(got)+" instead of "+cs(w); EXPECT(close(got,w,1e-12L),kind? "phsp.focus":"phsp.two",d); if(s<(a+b)*(a+b)&&s>(a-b)*(a-b)) EXPECT(got.real()==0&&got.imag()>0,"phsp.closed",d); rho.push_back(w); re.push_back(e); }
    std::string d=vf::fmt("channels %d poles %d s=%.8Lg",nc,np,s); vf::begin_case(d); vf::eval(); vf::distinct(d); Tensor K=constructKMatrix(S,nc,pc); M want(nc,nc); L sc=0; for(int i=0;i<nc;++i) for(int j=0;j<nc;++j){ for(int a=0;a<np;++a) want(i,j)+=g[a][i]*g[a][j]/(m2[a]-s); sc=std::max(sc,std::abs(want(i,j))); } EXPECT(K.size()==unsigned(nc*nc),"size",d); M got=la::from(in(K),nc,nc); EXPECT(la::dist(got,want)<1e-12L*(sc+1e-9L),"kmatrix",d); if(sc>1e4L) continue; 
    // a smooth background as well
    if(r.coin()){ Tensor bg(Tensor::dim(nc,nc)); for(int i=0;i<nc;++i) for(int j=i;j<nc;++j){ L x=r.uni(-1,1); bg(i,j)=Constant(double(x)); bg(j,i)=Constant(double(x)); want(i,j)+=L(double(x)); if(i!=j) want(j,i)+=L(double(x)); } K=K+bg; }
    Tensor F=getPropagator(K,re); M f=la::from(in(F),nc,nc), W=prop(want,rho); L cn=la::norm(W)*(1+la::norm(want))*nc; L tol=1e-12L*(1+cn*cn); if(tol>1e-4L) continue; EXPECT(la::dist(f,W)<tol*(1+la::norm(W)),"propagator",d+vf::fmt(" differs by %Lg",la::dist(f,W))); M A=la::add(la::id(nc),la::scale(la::mul(want,diag(rho)),I),-1); EXPECT(la::dist(la::mul(f,A),la::id(nc))<tol*10,"identity",d); EXPECT(la::dist(la::mul(A,f),la::id(nc))<tol*10,"identity.right",d); unitary(la::mul(f,want),rho,"general",d,tol*100); vf::count("propagators"); } vf::require("propagators",n/3); }
static L four(L s){ return 0.00051L+s*(-0.01933L+s*(0.13851L+s*(-0.20840L+s*(-0.29744L+s*(0.13655L+s*1.07885L))))); }
// the five channel isoscalar amplitude
static void isoscalar(int n,int part){ auto& r=vf::rng(); static const char* ch[5]={"pipi","KK","4pi","EtaEta","EtapEta"}; vf::capture([&]{ OptionsParser::setArg("kMatrix::fp 0"); }); std::string P="PiPi0"; Expression T[5][5],pole[5],poleKK[5],prod[5],prodKK[5]; vf::capture([&]{ for(int i=0;i<5;++i){ auto a=std::to_string(i); for(int j=0;j<5;++j) if((i*5+j)%4==part||i==j) T[i][j]=Lineshape::Factory::get("kMatrix.scatt."+a+"."+std::to_string(j),S,S1,S2,P,0); pole[i]=Lineshape::Factory::get("kMatrix.pole."+a,S,S1,S2,P,0); poleKK[i]=Lineshape::Factory::get("kMatrix.poleKK."+a,S,S1,S2,P,0); prod[i]=Lineshape::Factory::get("kMatrix.prod."+a,S,S1,S2,P,0); prodKK[i]=Lineshape::Factory::get("kMatrix.prodKK."+a,S,S1,S2,P,0); } });
  static const L m0[5]={0.651,1.2036,1.55817,1.21,1.82206}; static const L g0[5][5]={{0.22889,-0.55377,0,-0.39899,-0.34639},{0.94128,0.55095,0,0.39065,0.31503},{0.36856,0.23888,0.55639,0.18340,0.18681},{0.33650,0.40907,0.85679,0.19906,-0.00984},{0.18171,-0.17558,-0.79658,-0.00355,0.22358}}; static const L f0[5]={0.23399,0.15044,-0.20545,0.32825,0.35412};
  for(int it=0;it<n;++it){ Interp in; L s=std::pow(r.uni(0.3,2.2),2); bool pub=r.coin(0.4); L m[5],g[5][5],f[5]; in.v["s"]=s; for(int a=0;a<5;++a){ std::string st="IS_p"+std::to_string(a+1)+"_"; m[a]=pub? m0[a]: m0[a]*r.uni(0.8,1.2); in.v[st+"mass"]=m[a]; for(int c=0;c<5;++c){ g[a][c]=pub? g0[a][c]: r.uni(-1,1); in.v[st+ch[c]]=g[a][c]; } f[a]=pub? f0[a]: L(r.uni(-0.5,0.5)); in.v["f_scatt"+std::to_string(a)]=f[a]; } L sA0=-0.15L,sA=1,sp=-0.07L,ss=-3.92637L; if(!pub){ sA0=-r.uni(0.05,1); sA=r.uni(0.5,1.5); sp=-r.uni(0.05,2); ss=-r.uni(1,5); in.v["sA0"]=sA0; in.v["sA"]=sA; in.v[P+"_s0_prod"]=sp; in.v["s0_scatt"]=ss; } std::string d=vf::fmt("%s s=%.10Lg",pub? "published":"random",s); vf::begin_case(d); vf::eval(); vf::distinct(d); L mp=0.139570,mk=0.493677,me=0.547862,mx=0.967780; auto two=[&](L a,L b){ return csq(1-(a+b)*(a+b)/s); }; std::vector<C> rho={two(mp,mp),two(mk,mk),s>1? two(2*mp,2*mp): C(four(s)),two(me,me),two(me,mx)}; L adler=(1-sA0)*(s-sA*mp*mp/2)/(s-sA0); M K(5,5); for(int i=0;i<5;++i) for(int j=0;j<5;++j){ for(int a=0;a<5;++a) K(i,j)+=g[a][i]*g[a][j]/(m[a]*m[a]-s); if(i==0||j==0) K(i,j)+=f[i==0? j: i]*(1-ss)/(s-ss); K(i,j)*=adler; } M F=prop(K,rho),W=la::mul(F,K); L cn=la::norm(K)*la::norm(F); L tol=1e-11L*(1+cn*cn); if(tol>1e-5L) continue;
    std::vector<bool> have(25); M G=W; for(int i=0;i<5;++i) for(int j=0;j<5;++j) if((i*5+j)%4==part||i==j){ C z=in(T[i][j]); EXPECT(std::abs(z-W(j,i))<tol*(1+la::norm(W)),"isoscalar.scattering",d+vf::fmt(" (%d,%d): ",i,j)+cs(z)+" instead of "+cs(W(j,i))); G(j,i)=z; G(i,j)=z; } unitary(G,rho,"isoscalar",d,tol*10); for(int a=0;a<5;++a){ C w0=0,w1=0; for(int i=0;i<5;++i){ w0+=F(0,i)*g[a][i]; w1+=F(1,i)*g[a][i]; } w0/=m[a]*m[a]-s; w1/=m[a]*m[a]-s; L bg=(1-sp)/(s-sp); auto chk=[&](const Expression& e,C w,const char* k){ C z=in(e); EXPECT(std::abs(z-w)<tol*(1+std::abs(w))*10,std::string("isoscalar.")+k,d+vf::fmt(" term %d: ",a)+cs(z)+" instead of "+cs(w)); }; chk(pole[a],w0,"pole"); chk(poleKK[a],w1,"poleKK"); chk(prod[a],F(0,a)*bg,"prod"); chk(prodKK[a],F(1,a)*bg,"prodKK"); } EXPECT(in.unset.empty()||!pub||in.unset.size()<=4,"isoscalar.parameters",d); vf::count("isoscalar"); } vf::require("isoscalar",n/3);
  // below 1 GeV^2 and above, the four-pion phase space
  for(int k=0;k<20;++k){ L s=r.uni(0.3,3); Interp in; in.v["s"]=s; C z=in(phsp_fourPi(S)); C w=s>1? csq(1-16*L(0.139570)*L(0.139570)/s): C(four(s)); EXPECT(close(z,w,1e-11L),"phsp.four",vf::fmt("s=%Lg ",s)+cs(z)); } }
static L hL2(L z,int l){ L re=0,im=0; for(int k=0;k<=l;++k){ L c=1; for(int j=l-k+1;j<=l+k;++j) c*=j; for(int j=1;j<=k;++j) c/=2.0L*j; int n=l-k; L p=std::pow(-1.0L,n/2)*std::pow(z,L(n/2)); (n%2? im: re)+=c*p; } return re*re+z*im*im; }
static L BWz(L z,int l){ return std::pow(z,L(l))*hL2(1,l)/hL2(z,l); }
// the configurable K-matrix
static void generic(int n){ auto& r=vf::rng(); struct Ch { std::string d; L a,b; int l; }; L mp=massOf("pi+"),mk=massOf("K+"),me=massOf("eta0"); std::string P="f(0)(980)0"; std::vector<Ch> chs={{P+"{pi+,pi-}",mp,mp,0},{P+"{K+,K-}",mk,mk,0},{P+"{eta0,eta0}",me,me,0},{"f(2)(1270)0{pi+,pi-}",mp,mp,2}}; for(int it=0;it<n;++it){ int nc=r.range(1,int(chs.size())),np=r.range(1,3); std::vector<Ch> use(chs.begin(),chs.begin()+nc); if(r.coin()) r.shuffle(use); static const char* types[3]={"PVec","QVec","ZVec"}; int ty=r.range(0,2); Interp in; std::string opt=P+"::kMatrix::channels"; for(auto& c: use) opt+=" "+c.d; std::vector<std::string> opts={opt,P+"::kMatrix::nPoles "+std::to_string(np),P+"::kMatrix::production_amplitude "+types[ty]}; M nr(nc,nc); L s=std::pow(r.uni(0.4,2.2),2); L s0=-r.uni(0.2,3); in.v[P+"::s0"]=s0; for(int i=1;i<=nc;++i) for(int j=i;j<=nc;++j){ std::string ij=std::to_string(i)+"::"+std::to_string(j); L f1=r.coin(0.7)? r.uni(-0.5,0.5): 0; if(f1!=0) in.v[P+"::f1::"+ij]=f1; C v=f1; if(r.coin(0.3)){ opts.push_back(P+"::"+ij+"::nrShape pole"); L f2=r.uni(-0.5,0.5),t0=-r.uni(0.2,3); in.v[P+"::f2::"+ij]=f2; in.v[P+"::s0::"+ij]=t0; v=(f1+f2*sqrtl(s))/(s-t0); } else opts.push_back(P+"::"+ij+"::nrShape flat"); nr(i-1,j-1)=v; nr(j-1,i-1)=v; } std::vector<std::vector<L>> g(np,std::vector<L>(nc)); std::vector<L> m(np),a(nc); for(int p=0;p<np;++p){ std::string st=P+"::pole::"+std::to_string(p+1); m[p]=r.uni(0.5,2); in.v[st+"::mass"]=m[p]; for(int c=0;c<nc;++c){ g[p][c]=r.uni(-5,5); in.v[st+"::g::"+std::to_string(c+1)]=g[p][c]; } } for(int c=0;c<nc;++c){ a[c]=r.uni(-1,1); in.v[P+"::a::"+std::to_string(c+1)]=a[c]; }
    Expression e; int zp=r.range(1,np),zc=r.range(1,nc); bool explicitCh=r.coin(0.7); Particle p("f(0)(980)0{pi+,pi-}",std::vector<std::string>{"pi+","pi-"}); int pch=-1; for(int c=0;c<nc;++c) if(use[c].d==P+"{pi+,pi-}") pch=c; if(pch<0) explicitCh=true; std::string mod=ty==2? ".pole."+std::to_string(zp)+(explicitCh? "."+std::to_string(zc): ""): ""; std::string d=opts[0]+" "+types[ty]+mod+vf::fmt(" poles %d s=%.9Lg",np,s); vf::begin_case(d); vf::eval(); vf::distinct(d); DebugSymbols db; std::string why=vf::capture([&]{ for(auto& o: opts) OptionsParser::setArg(o); e=Lineshape::Factory::get("GenericKmatrix"+mod,p,it%2? &db: nullptr); }); L px=r.gauss(),py=r.gauss(),pz=r.gauss(); (void)px; (void)py; (void)pz; L k=sqrtl(std::max<L>(s/4-mp*mp,0)); in.v["0_Px"]=0; in.v["0_Py"]=k*0.6L; in.v["0_Pz"]=k*0.8L; in.v["1_Px"]=0; in.v["1_Py"]=-k*0.6L; in.v["1_Pz"]=-k*0.8L; in.v["0_E"]=in.v["1_E"]=sqrtl(s)/2; std::vector<C> rho; for(auto& c: use){ L q2=((s-c.a*c.a-c.b*c.b)*(s-c.a*c.a-c.b*c.b)-4*c.a*c.a*c.b*c.b)/(4*s); L R=ParticlePropertiesList::get(c.d.substr(0,c.d.find('{')))->radius(); rho.push_back(csq(4*s*q2)/(16*PI*s)*BWz(std::max<L>(q2,0)*R*R,c.l)); } M K=nr; for(int i=0;i<nc;++i) for(int j=0;j<nc;++j) for(int q=0;q<np;++q) K(i,j)+=g[q][i]*g[q][j]/(m[q]*m[q]-s); M F=prop(K,rho); L cn=la::norm(F)*(1+la::norm(K)); L tol=1e-10L*(1+cn); if(tol>1e-4L) continue; C want=0; if(ty==1) for(int i=0;i<nc;++i) want+=F(0,i)*K(i,0); else if(ty==2){ int c=explicitCh? zc-1: pch; for(int i=0;i<nc;++i) want+=F(c,i)*g[zp-1][i]/(m[zp-1]*m[zp-1]-s); } else for(int i=0;i<nc;++i){ C Pi=0,phi=0; for(int q=0;q<nc;++q) phi+=a[q]*nr(i,q); for(int q=0;q<np;++q){ C b=0; for(int c=0;c<nc;++c) b+=a[c]*g[q][c]; Pi+=b*g[q][i]/(m[q]*m[q]-s); } Pi+=phi*(1+s0)/(s-s0); want+=F(0,i)*Pi; }
    C got=in(e); EXPECT(std::abs(got-want)<tol*(1+std::abs(want)),std::string("generic.")+types[ty],d+": "+cs(got)+" instead of "+cs(want)+why.substr(0,150)); if(ty==1&&nc==1&&rho[0].real()>0){ C t=got; EXPECT(std::abs(t.imag()-rho[0].real()*std::norm(t))<tol*(1+std::norm(t)),"generic.elastic",d); } vf::count("generic"); } vf::require("generic",n/2); }
static void simple(int n){ auto& r=vf::rng(); std::vector<std::pair<std::string,std::string>> ch={{"pi+","pi-"},{"K+","K-"},{"K+","pi-"},{"eta0","pi0"}}; for(int it=0;it<n;++it){ int nc=r.range(1,4),np=r.range(1,3); r.shuffle(ch); Interp in; vf::capture([&]{ OptionsParser::setArg("kMatrix::nPoles "+std::to_string(np)); OptionsParser::setArg("kMatrix::nChannels "+std::to_string(nc)); for(int i=0;i<nc;++i) OptionsParser::setArg("kMatrix::Channel::"+std::to_string(i+1)+" "+ch[i].first+" "+ch[i].second); }); L s=std::pow(r.uni(0.4,2.4),2); in.v["s"]=s; auto two=[&](L x,int c){ L t=massOf(ch[c].first)+massOf(ch[c].second); return csq(1-t*t/x); }; std::vector<C> rho; for(int c=0;c<nc;++c) rho.push_back(two(s,c)); std::vector<L> m(np); std::vector<std::vector<C>> g(np,std::vector<C>(nc)); for(int p=0;p<np;++p){ std::string st="kMatrix::pole::"+std::to_string(p+1); m[p]=r.uni(1.1,2.2); in.v[st+"::mass"]=m[p]; for(int c=0;c<nc;++c){ L w=r.uni(0.05,0.5); in.v[st+"::width::"+std::to_string(c)]=w; g[p][c]=std::sqrt(m[p]*w/two(m[p]*m[p],c)); } } M K(nc,nc); for(int i=0;i<nc;++i) for(int j=0;j<nc;++j) for(int p=0;p<np;++p) K(i,j)+=g[p][i]*g[p][j]/(m[p]*m[p]-s); M F=prop(K,rho); L cn=la::norm(F)*(1+la::norm(K)); L tol=1e-10L*(1+cn*cn); if(tol>1e-4L) continue; for(int q=0;q<np;++q){ std::string d=vf::fmt("channels %d poles %d term %d s=%.10Lg",nc,np,q,s); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression e; DebugSymbols db; vf::capture([&]{ e=it%2? Lineshape::Factory::get("kMatrixSimple."+std::to_string(q),S,S1,S2,"PiPi0",0,&db): Lineshape::Factory::get("kMatrixSimple."+std::to_string(q),S,S1,S2,"PiPi0",0); }); Interp i2=in; C z=i2(e),w=0; for(int i=0;i<nc;++i) w+=F(0,i)*g[q][i]; w/=m[q]*m[q]-s; EXPECT(std::abs(z-w)<tol*(1+std::abs(w)),"simple",d+": "+cs(z)+" instead of "+cs(w)); vf::count("simple"); } } vf::require("simple",n/3); }
static L P(L x,std::vector<L> c){ L o=0; for(int i=int(c.size())-1;i>=0;--i) o=o*x+c[i]; return o; }
// published K-pi amplitudes
static void kpi(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it) for(int w=0;w<2;++w){ L mk=massOf("K+"),mp=massOf("pi+"),me=w? massOf("eta0"): massOf("eta'(958)0"); L s=std::pow(r.uni(double(mk+mp)+0.005,2.3),2); std::string nm=w? "PALANO":"FOCUS"; std::string d=nm+vf::fmt(" s=%.10Lg",s); vf::begin_case(d); vf::eval(); vf::distinct(d); L sn=mk*mk+mp*mp; L K11,K12,K22,K32; C r1,r2; auto foc=[&](L a,L b){ return csq((1-(a+b)*(a+b)/s)*(1-(a-b)*(a-b)/s)); }; auto two=[&](L a,L b){ return csq(1-(a+b)*(a+b)/s); }; if(w==0){ L X=s/sn-1, A=(s-0.23L)/sn; auto k=[&](L gi,L gj){ return gi*gj/(1.7919L-s); }; L a=0.31072L,b=-0.02323L; K11=A*(k(a,a)+P(X,{0.79299L,-0.15099L,0.00811L})); K22=A*(k(b,b)+P(X,{0.17054L,-0.0219L,0.00085655L})); K12=A*(k(a,b)+P(X,{0.15040L,-0.038266L,0.0022596L})); K32=(s-0.27L)/sn*P(X,{-0.22147L,0.026637L,-0.00092057L}); r1=foc(mk,mp); r2=foc(mk,me); } else { L X=(2*s-5.832L-0.360L)/(5.832L-0.360L), A=s/sn-0.87753L; auto k=[&](L a1,L b1,L a2,L b2){ return a1*b1/(1.7991L-s)+a2*b2/(8.3627L-s); }; L a=0.3139L,b=-0.00775L,c=1.1804L,e=-0.22335L; K11=A*(k(a,a,c,c)+P(X,{-0.1553L,0.0909L,0.8618L,0.0629L})); K22=A*(k(b,b,e,e)+P(X,{-0.0036L,0.2590L,1.6950L,2.2300L})); K12=A*(k(a,b,c,e)+P(X,{0.0738L,0.3866L,1.2195L,0.8390L})); K32=(s/sn-1.0209L)*P(X,{-0.04046L,0.08143L,-0.08849L}); r1=two(mk,mp); r2=two(mk,me); } M K(2,2); K(0,0)=K11; K(0,1)=K(1,0)=K12; K(1,1)=K22; M T=la::mul(prop(K,{r1,r2}),K); Interp in; in.v["s"]=s; Expression a,b,c; vf::capture([&]{ a=Lineshape::Factory::get(nm+".Kpi",S,S1,S2,"KPi0",0); b=Lineshape::Factory::get(nm+".KEta",S,S1,S2,"KPi0",0); c=Lineshape::Factory::get(nm+".I32",S,S1,S2,"KPi0",0); }); C x=in(a),y=in(b),z=in(c); L sc=la::norm(K)+1; if(sc>1e5L) continue; L tol=1e-9L*sc; EXPECT(std::abs(x-T(0,0))<tol,nm+".Kpi",d+cs(x)+" instead of "+cs(T(0,0))); EXPECT(std::abs(y-T(0,1))<tol,nm+".KEta",d+cs(y)+" instead of "+cs(T(0,1))); EXPECT(std::abs(z-C(1)/(C(1)-I*K32*r1))<1e-9L,nm+".I32",d+cs(z)); EXPECT(std::abs(x.imag()-(r1.real()*std::norm(x)+r2.real()*std::norm(y)))<tol*(1+std::norm(x)+std::norm(y)),nm+".unitarity",d+vf::fmt(": Im T = %Lg",x.imag())); EXPECT(std::abs((C(1)/z).real()-1)<1e-9L,nm+".I32.elastic",d); vf::count("kpi"); } vf::require("kpi",n/2); }
// elastic amplitudes on the unitarity circle
static void elastic(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ L m1=r.uni(0.1,0.5),m2=r.uni(0.1,0.5); L s=std::pow((m1+m2)*r.uni(1.001,3.5),2); L q=sqrtl(((s-m1*m1-m2*m2)*(s-m1*m1-m2*m2)-4*m1*m1*m2*m2)/(4*s)),rho=q/sqrtl(s); std::string P="K(0)*(1430)bar0"; Interp in; in.v["s"]=s; in.v["s1"]=m1*m1; in.v["s2"]=m2*m2; in.v[P+"_mass"]=m1+m2+r.uni(0.05,1); in.v[P+"_width"]=r.uni(0.01,0.5); L a=r.uni(0.3,4),re=r.uni(0.3,6); in.v["LASS::a"]=a; in.v["LASS::r"]=re; in.v[P+"::GLASS::a"]=a; in.v[P+"::GLASS::r"]=re; std::string d=vf::fmt("s=%.10Lg m1=%Lg m2=%Lg a=%Lg r=%Lg",s,m1,m2,a,re); vf::begin_case(d); vf::eval(); vf::distinct(d); Expression l=Lineshape::Factory::get("LASS",S,S1,S2,P,0),lb=Lineshape::Factory::get("LASS.BW",S,S1,S2,P,0),ln=Lineshape::Factory::get("LASS.NR",S,S1,S2,P,0),g=Lineshape::Factory::get("GLASS",S,S1,S2,P,0); C z=rho*in(l),zb=rho*in(lb),zn=rho*in(ln),zg=rho*in(g); auto circle=[&](C t,const char* k){ L e=std::abs(std::abs(C(1)+2.0L*I*t)-1); EXPECT(e<1e-10L,std::string("elastic.")+k,d+vf::fmt(" |S|-1 = %Lg",e)); }; circle(z,"LASS"); circle(zn,"LASS.NR"); circle(zg,"GLASS"); EXPECT(std::abs(zb+zn-z)<1e-10L,"elastic.sum",d); EXPECT(std::abs(zg-z)<1e-9L,"elastic.same",d+cs(zg)+cs(z));
    Interp i2; L e2=std::pow(r.uni(0.28,1.5),2); i2.v["s"]=e2; if(r.coin()){ i2.v["Isotensor::a"]=r.uni(20,90); i2.v["Isotensor::b"]=r.uni(0,1); } C t=i2(Lineshape::Factory::get("Isotensor",S,S1,S2,P,0)); circle(t,"Isotensor"); if(i2.v.size()==1&&e2<1) EXPECT(t.real()<1e-12L,"elastic.repulsive",vf::fmt("s=%Lg ",e2)+cs(t)); vf::count("elastic"); } }
// compiled versions
typedef CompiledExpression<complex_t(const double*,const double*)> CE;
static void compiled(int n){ auto& r=vf::rng(); std::map<std::string,unsigned> evt={{"s",0},{"s1",1},{"s2",2}}; MinuitParameterSet mps; Interp in; auto set=[&](const std::string& k,double v){ mps.add(k,Flag::Free,v,0.1); in.v[k]=v; }; static const char* ch[5]={"pipi","KK","4pi","EtaEta","EtapEta"}; for(int a=1;a<=5;++a){ std::string st="IS_p"+std::to_string(a)+"_"; set(st+"mass",0.6+0.3*a+r.uni(-0.05,0.05)); for(int c=0;c<5;++c) set(st+ch[c],r.uni(-1,1)); set("f_scatt"+std::to_string(a-1),r.uni(-0.4,0.4)); } std::vector<std::string> nm={"kMatrix.scatt.0.0","kMatrix.scatt.1.3","kMatrix.pole.2","kMatrix.prodKK.4","FOCUS.Kpi","FOCUS.KEta","PALANO.Kpi","PALANO.I32"}; std::vector<Expression> ex; std::vector<CE*> fs; std::vector<CompiledExpressionBase*> fb; for(auto& q: nm){ Expression e; vf::capture([&]{ e=Lineshape::Factory::get(q,S,S1,S2,"PiPi0",0); }); ex.push_back(e); fs.push_back(new CE(e,"km"+std::to_string(fs.size()),evt,&mps)); fb.push_back(fs.back()); } CompilerWrapper cw; cw.compile(fb,vf::scratch()+"/km.cpp"); for(auto f: fb) f->prepare(); for(int it=0;it<n;++it){ double s=std::pow(r.uni(0.3,2),2); for(size_t k=0;k<nm.size();++k){ double ev[3]={s,0.02,0.02}; Interp q=in; q.v["s"]=s; C w=q(ex[k]); complex_t g=(*fs[k])(ev); C z(g.real(),g.imag()); std::string d="compiled "+nm[k]+vf::fmt(" s=%.12g",s); vf::begin_case(d); vf::eval(); vf::distinct(d); EXPECT(std::abs(z-w)<1e-7L*(1+std::abs(w)),"compiled",d+cs(z)+" instead of "+cs(w)); vf::count("compiled"); } } for(auto f: fs) delete f; vf::require("compiled",n); }
void harness(){ vf::section("compiled",[]{ compiled(vf::scale(40,2000)); },vf::scale(250,850)); for(int p=0;p<4;++p) vf::section("isoscalar"+std::to_string(p),[p]{ isoscalar(vf::scale(30,400),p); },vf::scale(250,850)); vf::section("general",[]{ general(vf::scale(400,8000)); },vf::scale(250,850)); vf::section("generic",[]{ generic(vf::scale(300,4000)); },vf::scale(250,850)); vf::section("simple",[]{ simple(vf::scale(200,3000)); },vf::scale(250,850)); vf::section("kpi",[]{ kpi(vf::scale(100,3000)); },vf::scale(250,850)); vf::section("elastic",[]{ elastic(vf::scale(300,6000)); },vf::scale(250,850)); }
