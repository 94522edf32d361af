// C17: Lorentz transformations in the vector, bispinor and spinor representations
#include "interp.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Transform.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Particle.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/Kinematics.h"
#include "AmpGen/Event.h"
using namespace AmpGen; using la::C; using la::L; using la::M; using la::V;
using R=Transform::Representation;
static const L G[4]={-1,-1,-1,1};
struct T { bool boost; L arg; L k[3]; };   // arg: cos(theta) or gamma
static T rndT(){ auto& r=vf::rng(); T t; t.boost=r.coin(); L n=0; do { n=0; for(auto& x: t.k){ x=r.coin(0.15)?0:r.gauss(); n+=x*x; } } while(n<1e-6L); if(r.coin(0.2)){ int a=r.range(0,2); for(int i=0;i<3;++i) t.k[i]= i==a? (r.coin()?1:-1): 0; n=1; } for(auto& x: t.k) x/=sqrtl(n); if(t.boost) t.arg= r.coin(0.1)?1: 1+std::pow(10.,r.uni(-6,1.3)); else t.arg= r.coin(0.1)? r.pick({1.,-1.,0.}): r.uni(-1,1); return t; }
static M refV(const T& t){ M K(4,4); if(t.boost){ for(int i=0;i<3;++i){ K(i,3)=t.k[i]; K(3,i)=t.k[i]; } return la::add(la::add(la::id(4),K,-sqrtl(t.arg*t.arg-1)),la::mul(K,K),t.arg-1); } K(0,1)=-t.k[2]; K(0,2)=t.k[1]; K(1,0)=t.k[2]; K(1,2)=-t.k[0]; K(2,0)=-t.k[1]; K(2,1)=t.k[0]; return la::add(la::add(la::id(4),K,sqrtl(1-t.arg*t.arg)),la::mul(K,K),1-t.arg); }
static Transform make(const T& t,Interp& in,const std::string& tag,bool sym){ auto& r=vf::rng(); (void)r; auto e=[&](L x,const std::string& n)->Expression{ if(!sym) return Expression(double(x)); in.v[tag+n]=double(x); return Parameter(tag+n); }; Tensor k({e(t.k[0],"x"),e(t.k[1],"y"),e(t.k[2],"z")},Tensor::dim(3)); return Transform(e(t.arg,"a"),k,t.boost?Transform::Type::Boost:Transform::Type::Rotate); }
static M mat(Interp& in,const Tensor& t,int n){ return la::from(in(t),n,n); }
static M gam[4], sig[4];
static void setup(){ Interp in; for(int i=0;i<4;++i) gam[i]=la::from(in(Gamma[i]),4,4); for(int i=0;i<3;++i) sig[i]=la::from(in(Sigma[i]),2,2); sig[3]=la::id(2); }
// the three representations of one transformation describe the same element of the group
static void consistent(const M& v,const M& b,const M& s,const std::string& d,L tol){ L sc=std::max({la::norm(v)*la::norm(v),1.0L})*tol; M g(4,4); for(int i=0;i<4;++i) g(i,i)=G[i]; EXPECT(la::dist(la::mul(la::tr(v),la::mul(g,v)),g)<sc,"metric",d+vf::fmt(" %Lg",la::dist(la::mul(la::tr(v),la::mul(g,v)),g))); EXPECT(v(3,3).real()>=1-1e-9L,"orthochronous",d);
  M bar=la::mul(gam[3],la::mul(la::dag(b),gam[3])); EXPECT(la::dist(la::mul(bar,b),la::id(4))<sc,"bilinear",d+vf::fmt(" %Lg",la::dist(la::mul(bar,b),la::id(4)))); for(int m=0;m<4;++m){ M l=la::mul(bar,la::mul(gam[m],b)), w(4,4); for(int n=0;n<4;++n) w=la::add(w,gam[n],v(m,n)); EXPECT(la::dist(l,w)<sc,"vector.current",d+vf::fmt(" component %d %Lg",m,la::dist(l,w))); }
  for(int m=0;m<4;++m){ auto sb=[&](int i){ return la::scale(sig[i],i<3?-1.L:1.L); }; M l=la::mul(la::dag(s),la::mul(sb(m),s)), w(2,2); for(int n=0;n<4;++n) w=la::add(w,sb(n),v(m,n)); EXPECT(la::dist(l,w)<sc,"spinor.current",d+vf::fmt(" component %d %Lg",m,la::dist(l,w))); } C det=s(0,0)*s(1,1)-s(0,1)*s(1,0); EXPECT(std::abs(det-C(1))<sc,"spinor.det",d); }
static void check(Interp& in,const TransformSequence& q,const std::vector<T>& ts,const std::string& d){ in.fresh(); M v=mat(in,q(R::Vector),4), b=mat(in,q(R::Bispinor),4), s=mat(in,q(R::Spinor),2); M w=la::id(4); L gprod=1; for(auto& t: ts){ T dt=t; dt.arg=double(t.arg); for(int i=0;i<3;++i) dt.k[i]=double(t.k[i]); w=la::mul(refV(dt),w); if(t.boost) gprod*=2*t.arg; } L tol=1e-11L*gprod*(1+ts.size()); EXPECT(la::dist(v,w)<tol,"order",d+vf::fmt(" dist %Lg",la::dist(v,w))); consistent(v,b,s,d,std::max(1e-10L,tol)); EXPECT(q.size()==ts.size(),"size",d);
  V x(4); auto& r=vf::rng(); for(auto& z: x) z=double(r.gauss()); Tensor xt({double(x[0].real()),double(x[1].real()),double(x[2].real()),double(x[3].real())},Tensor::dim(4)); auto y=in(q(xt)); auto yr=la::mv(w,x); for(int i=0;i<4&&y.size()==4;++i) EXPECT(std::abs(y[i]-yr[i])<tol*5,"apply",d); EXPECT(y.size()==4,"apply.size",d); L m0=la::mink(x,x), m1=la::mink(y,y); EXPECT(std::abs(m0-m1)<tol*50*gprod,"invariant",d);
  auto sp=in(q(xt,R::Bispinor)); auto spr=la::mv(b,x); for(int i=0;i<4&&sp.size()==4;++i) EXPECT(std::abs(sp[i]-spr[i])<tol*5,"apply.bispinor",d); }
static void sequences(int n){ setup(); auto& r=vf::rng(); for(int it=0;it<n;++it){ Interp in; std::vector<T> ts; int k=r.range(0,5); bool sym=r.coin(0.3); std::vector<Transform> tr; std::string d; for(int i=0;i<k;++i){ auto t=rndT(); if(k>2&&t.boost) t.arg=std::min<L>(t.arg,3); ts.push_back(t); tr.push_back(make(t,in,"t"+std::to_string(i),sym)); d+=vf::fmt("%s(%Lg;%Lg,%Lg,%Lg) ",t.boost?"boost":"rotate",t.arg,t.k[0],t.k[1],t.k[2]); } vf::begin_case(d); vf::eval(); vf::distinct(d); vf::count("length"+std::to_string(k));
    // every way of building the sequence
    TransformSequence q; switch(r.range(0,4)){ case 0: for(auto& t: tr) q.push_back(t); break; case 1: { size_t c=r.range(0,k); TransformSequence a,b; for(size_t i=0;i<tr.size();++i) (i<c?a:b).push_back(tr[i]); q=TransformSequence(a,b); break; } case 2: { size_t c=r.range(0,k); TransformSequence a,b; for(size_t i=0;i<tr.size();++i) (i<c?a:b).push_back(tr[i]); q=a; q.push_back(b); break; } case 3: if(k==2) q=TransformSequence(tr[0],tr[1]); else if(k==1) q=TransformSequence(tr[0]); else for(auto& t: tr) q.push_back(t); break; default: { if(k){ q.push_back(tr[0]); q.push_back(tr.back()); q.clear(); EXPECT(q.size()==0,"clear",d); } for(auto& t: tr) q=TransformSequence(q,TransformSequence(t)); } }
    check(in,q,ts,d);
    // undone by the inverse, in all representations
    auto inv=q.inverse(); std::vector<T> ti; for(auto t=ts.rbegin();t!=ts.rend();++t){ T x=*t; for(auto& c: x.k) c=-c; ti.push_back(x); } check(in,inv,ti,"inverse of "+d); L g=1; for(auto& t: ts) if(t.boost) g*=2*t.arg; in.fresh(); for(auto rep: {R::Vector,R::Bispinor,R::Spinor}){ int dim= rep==R::Spinor?2:4; M a=mat(in,q(rep),dim), b=mat(in,inv(rep),dim); EXPECT(la::dist(la::mul(b,a),la::id(dim))<1e-10L*g*g*(1+k),"inverse",d+vf::fmt(" rep %d",int(rep))); }
    if(k){ auto& t=tr[0]; auto i=t.inverse(); for(auto rep: {R::Vector,R::Bispinor,R::Spinor}){ int dim= rep==R::Spinor?2:4; M a=mat(in,t(rep),dim),b=mat(in,i(rep),dim); EXPECT(la::dist(la::mul(b,a),la::id(dim))<1e-10L*g*g,"inverse.single",d); } Tensor xt({0.1,-0.2,0.3,1.4},Tensor::dim(4)); auto y=in(t(xt)); T dt=ts[0]; V x{0.1,-0.2,0.3,1.4}; auto w=la::mv(refV(dt),x); for(int j=0;j<4;++j) EXPECT(std::abs(y[j]-w[j])<1e-11L*g*10,"apply.single",d); }
    if(it<3) vf::sample(d); } }
// aligning and boosting to the rest frame
static void rest(int n){ setup(); auto& r=vf::rng(); static const std::vector<std::string> names={"K+","pi-","p+","mu-","gamma0","nu(e)0","K*(892)0","D0","rho(770)0","Lambda0"}; for(int it=0;it<n;++it){ auto nm=r.pick(names); const ParticleProperties* pp=nullptr; vf::capture([&]{ pp=ParticlePropertiesList::get(nm,true); }); if(!pp) { nm="K+"; } Particle p(nm); L m=p.mass(); bool massless=nm=="gamma0"||nm.rfind("nu",0)==0; V P(4); L q=std::pow(10.,r.uni(-2,1.5)); switch(r.range(0,7)){ case 0: P[2]=q; break; case 1: P[2]=-q; break; case 2: P[0]=q; break; case 3: P[1]=-q; break; case 4: if(!massless) break; [[fallthrough]]; default: for(int i=0;i<3;++i) P[i]=double(r.gauss()*q); } L p2=0; for(int i=0;i<3;++i) p2+=std::norm(P[i]); P[3]=double(sqrtl(p2+(massless?0:m*m))); for(auto& z: P) z=double(z.real()); bool sym=r.coin(); Interp in; auto e=[&](int i)->Expression{ if(!sym) return Expression(double(P[i].real())); in.v["P"+std::to_string(i)]=P[i].real(); return Parameter("P"+std::to_string(i)); }; Tensor Pt({e(0),e(1),e(2),e(3)},Tensor::dim(4)); int ve=r.coin()?1:-1; std::string d=nm+vf::fmt(" ve=%d P=(%Lg,%Lg,%Lg,%Lg)",ve,P[0].real(),P[1].real(),P[2].real(),P[3].real()); vf::begin_case(d); vf::eval(); vf::distinct(d); auto w=wickTransform(Pt,p,ve); auto y=in(w(Pt)); L E=P[3].real(), tol=1e-9L*E*std::max<L>(1,E/std::max<L>(m,1e-3L)); bool still=p2<1e-8L*m*m; if(std::norm(P[0])+std::norm(P[1])<1e-8L*p2) tol=std::max(tol,1e-6L*E); /* same for the sine of an angle whose cosine is rounded at 1 */ if(still) tol=1e-6L*(1+E); /* sqrt(gamma^2-1) of a gamma rounded at 1 */ if(massless){ EXPECT(std::abs(y[0])<tol&&std::abs(y[1])<tol&&std::abs(y[2]-sqrtl(p2))<tol&&std::abs(y[3]-E)<tol,"aligned",d+vf::vstr(y)); vf::count("massless"); } else { EXPECT(std::abs(y[0])<tol&&std::abs(y[1])<tol&&std::abs(y[2])<tol&&std::abs(y[3]-m)<tol,"rest",d+vf::vstr(y)); vf::count("massive"); }
    M v=mat(in,w(R::Vector),4), b=mat(in,w(R::Bispinor),4), s=mat(in,w(R::Spinor),2); consistent(v,b,s,d,(still?1e-6L:1e-10L)*std::max<L>(1,std::pow(E/std::max<L>(m,1e-2L),2)));
    // the rotation part of the two helicity frames differ by a half turn about y, so that they stay orthonormal
    if(p2>1e-4L){ auto w2=wickTransform(Pt,p,-ve); M v2=mat(in,w2(R::Vector),4); M u=la::mul(v,la::from(mat(in,w2.inverse()(R::Vector),4).a,4,4)); M id=u; L off=0; for(int i=0;i<3;++i) for(int j=0;j<3;++j) if(i!=j&&!(i<2&&j<2)) off=std::max(off,std::abs(u(i,j))); EXPECT(off<1e-8L*std::max<L>(1,std::pow(E/std::max<L>(m,1e-2L),2)),"axis.shared",d+vf::fmt(" %Lg",off)); } } }
// events: rotations, boosts, change of basis
static void events(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ int k=r.range(1,5); Event e(4*k); std::vector<V> p(k,V(4)); for(int i=0;i<k;++i){ L s=0; for(int j=0;j<3;++j){ p[i][j]=double(r.gauss()); s+=std::norm(p[i][j]); } p[i][3]=double(sqrtl(s+r.uni(0,1))); for(int j=0;j<4;++j) e[4*i+j]=double(p[i][j].real()); } double nx=r.gauss(),ny=r.gauss(),nz=r.gauss(); if(r.coin(0.2)){ nx=0; ny=0; nz=r.coin()?2:-1; } L nn=sqrtl(nx*nx+ny*ny+nz*nz); vf::eval(); Event f(4*k); for(int i=0;i<4*k;++i) f[i]=e[i]; std::string d; T t; t.k[0]=nx/nn; t.k[1]=ny/nn; t.k[2]=nz/nn; M w; switch(r.range(0,2)){ case 0: { double v=r.uni(-0.95,0.95); d=vf::fmt("boost n=(%g,%g,%g) v=%g",nx,ny,nz,v); vf::begin_case(d); boost(f,{nx,ny,nz},v); t.boost=true; t.arg=1/sqrtl(1-L(v)*v); T u=t; if(v>0) for(auto& x: u.k) x=-x; w=refV(u); break; } case 1: { double v=r.uni(-7,7); d=vf::fmt("rotate n=(%g,%g,%g) %g",nx,ny,nz,v); vf::begin_case(d); rotate(f,{nx,ny,nz},v); t.boost=false; t.arg=cosl(v); if(sinl(v)<0) for(auto& x: t.k) x=-x; w=refV(t); break; } default: { // an orthogonal basis, any lengths
        L a[3]={L(nx)/nn,L(ny)/nn,L(nz)/nn}, h[3]={r.gauss(),r.gauss(),r.gauss()}, b[3],c[3]; b[0]=a[1]*h[2]-a[2]*h[1]; b[1]=a[2]*h[0]-a[0]*h[2]; b[2]=a[0]*h[1]-a[1]*h[0]; L bn=sqrtl(b[0]*b[0]+b[1]*b[1]+b[2]*b[2]); for(auto& x: b) x/=bn; c[0]=a[1]*b[2]-a[2]*b[1]; c[1]=a[2]*b[0]-a[0]*b[2]; c[2]=a[0]*b[1]-a[1]*b[0]; L s1=r.uni(0.5,3),s2=r.uni(0.5,3),s3=r.uni(0.5,3); d="basis"; vf::begin_case(d); rotateBasis(f,TVector3(s1*a[0],s1*a[1],s1*a[2]),TVector3(s2*b[0],s2*b[1],s2*b[2]),TVector3(s3*c[0],s3*c[1],s3*c[2])); w=la::id(4); for(int j=0;j<3;++j){ w(0,j)=a[j]; w(1,j)=b[j]; w(2,j)=c[j]; } } }
    vf::distinct(d); vf::count(d.substr(0,5)); L sc=1; for(auto& z: w.a) sc=std::max(sc,std::abs(z)); for(int i=0;i<k;++i){ auto y=la::mv(w,p[i]); for(int j=0;j<4;++j) EXPECT(std::abs(y[j].real()-L(f[4*i+j]))<1e-11L*sc*10,"event",d+vf::fmt(" particle %d component %d",i,j)); } std::vector<unsigned> all; for(int i=0;i<k;++i) all.push_back(i); EXPECT(std::abs(e.s(all)-f.s(all))<1e-9*std::max(1.,double(sc*sc))*k*k*10,"event.mass",d); } }
static void hyper(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ double x=r.uni(-4,4); Interp in; in.v["x"]=x; Expression X=r.coin()?Expression(Parameter("x")):Expression(x); vf::eval(); auto c=[&](const char* k,const Expression& e,L w){ EXPECT(std::abs(in(e)-C(w))<1e-10L*(1+std::abs(w)),k,vf::fmt("%g",x)); in.fresh(); }; c("cosh",AmpGen::cosh(X),coshl(x)); c("sinh",AmpGen::sinh(X),sinhl(x)); c("tanh",AmpGen::tanh(X),tanhl(x)); c("asinh",AmpGen::asinh(X),asinhl(x)); if(x>1) c("acosh",AmpGen::acosh(X),acoshl(x)); if(std::abs(x)<0.99) c("atanh",AmpGen::atanh(X),atanhl(x)); vf::distinct(vf::fmt("%g",x)); } }
void harness(){ for(int s=0;s<vf::scale(4,16);++s) vf::section("sequences"+std::to_string(s),[]{ sequences(vf::scale(150,2500)); },vf::scale(250,850)); for(int s=0;s<vf::scale(2,8);++s) vf::section("rest"+std::to_string(s),[]{ rest(vf::scale(150,2500)); },vf::scale(250,850)); vf::section("events",[]{ events(vf::scale(3000,50000)); },vf::scale(250,850)); vf::section("hyper",[]{ hyper(vf::scale(500,5000)); }); }
