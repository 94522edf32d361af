// C16: rotation functions and coupling coefficients against generators of rotations in the representation itself
#include "interp.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Transform.h"
using namespace AmpGen; using la::C; using la::L; using la::M; using la::V;
struct Gen { int d; M x,y,z; };
static Gen spin(double j){ int d=int(2*j+1.5); Gen g{d,M(d,d),M(d,d),M(d,d)}; for(int i=0;i<d;++i){ g.z(i,i)=i-j; for(int k=0;k<d;++k){ L n=k-j; L up= i==k+1? sqrtl(j*(j+1)-n*(n+1)):0, dn= i==k-1? sqrtl(j*(j+1)-n*(n-1)):0; g.x(i,k)=0.5L*(up+dn); g.y(i,k)=C(0,-0.5L)*C(up-dn); } } return g; }
static M rot(const Gen& g,L th,L nx,L ny,L nz){ return la::expm(la::scale(la::add(la::add(la::scale(g.x,nx),g.y,ny),g.z,nz),C(0,-th))); }
static double angle(){ auto& r=vf::rng(); switch(r.range(0,6)){ case 0: return 0; case 1: return M_PI; case 2: return M_PI/2; case 3: return r.uni(0,0.05); default: return r.uni(0,M_PI); } }
static void dfun(int n,double jmax){ auto& r=vf::rng(); for(int it=0;it<n;++it){ double j=r.range(0,int(2*jmax))/2.; auto g=spin(j); double b=angle(), cb=std::cos(b); M E=rot(g,acosl(L(cb)),0,1,0); M W(g.d,g.d); vf::begin_case(vf::fmt("d j=%g cb=%.17g",j,cb)); bool par=r.coin(0.3); Interp in; in.v["c"]=cb; Expression c= par? Expression(Parameter("c")): Expression(cb); for(int i=0;i<g.d;++i) for(int k=0;k<g.d;++k){ vf::eval(); W(i,k)=in(wigner_d(c,j,i-j,k-j)); EXPECT(std::abs(W(i,k)-E(i,k))<1e-9L,"d",vf::fmt("j=%g m=%g n=%g cb=%.17g: %Lg want %Lg",j,i-j,k-j,cb,W(i,k).real(),E(i,k).real())); } 
    EXPECT(la::dist(la::mul(W,la::tr(W)),la::id(g.d))<1e-9L,"d.unitary",vf::fmt("j=%g b=%g",j,b)); if(b==0) EXPECT(la::dist(W,la::id(g.d))<1e-12L,"d.identity",vf::fmt("j=%g",j)); vf::distinct(vf::fmt("%g/%g/%g",j,b,cb)); vf::count(vf::fmt("j%g",j));
    // the full rotation functions: rotation by theta about an axis in the xy plane
    double ph=r.uni(-M_PI,M_PI); std::pair<Expression,Expression> P{c,Constant(std::cos(ph),std::sin(ph))}; M D(g.d,g.d); for(int i=0;i<g.d;++i) for(int k=0;k<g.d;++k) D(i,k)=in(wigner_D(P,j,i-j,k-j,nullptr)); M R=rot(g,acosl(L(cb)),-sinl(ph),cosl(ph),0); EXPECT(la::dist(D,R)<1e-9L,"D",vf::fmt("j=%g theta=%g phi=%g dist %Lg",j,b,ph,la::dist(D,R))); EXPECT(la::dist(la::mul(D,la::dag(D)),la::id(g.d))<1e-9L,"D.unitary",vf::fmt("j=%g",j));
    // composition about one axis: theta1 + theta2
    double b2=r.uni(0,M_PI-b); M W2(g.d,g.d),W3(g.d,g.d); for(int i=0;i<g.d;++i) for(int k=0;k<g.d;++k){ W2(i,k)=in(wigner_d(std::cos(b2),j,i-j,k-j)); W3(i,k)=in(wigner_d(std::cos(std::min(M_PI,b+b2)),j,i-j,k-j)); } EXPECT(la::dist(la::mul(W,W2),W3)<3e-7L,"d.compose",vf::fmt("j=%g %g+%g dist %Lg",j,b,b2,la::dist(la::mul(W,W2),W3))); if(it<3) vf::sample(vf::fmt("j=%g theta=%g phi=%g",j,b,ph)); }
  // debug output does not change the value
  DebugSymbols db; Interp in; std::pair<Expression,Expression> P{Expression(0.3),Constant(0.6,0.8)}; EXPECT(std::abs(in(wigner_D(P,1,1,0,&db))-in(wigner_D(P,1,1,0,nullptr)))<1e-14L&&db.size()>0,"D.debug",""); }
// coupling coefficients by lowering from the stretched states, Condon-Shortley phase
static std::map<std::pair<int,int>,V> couple(int a,int b){ std::map<std::pair<int,int>,V> st; int da=a+1, db=b+1; auto low=[&](const V& v){ V o(da*db); for(int i=0;i<da;++i) for(int k=0;k<db;++k){ L j1=a/2.L,m1=i-j1,j2=b/2.L,m2=k-j2; if(i>0) o[(i-1)*db+k]+=v[i*db+k]*sqrtl(j1*(j1+1)-m1*(m1-1)); if(k>0) o[i*db+k-1]+=v[i*db+k]*sqrtl(j2*(j2+1)-m2*(m2-1)); } return o; };
  for(int J=a+b;J>=std::abs(a-b);J-=2){ // |J,J>: in the M=J space, orthogonal to all higher J
    V v; L best=0; for(int i=0;i<da;++i){ int k2=J-(2*i-a); int k=(k2+b)/2; if(k<0||k>=db||(k2+b)%2) continue; V t(da*db); t[i*db+k]=1; for(int rep=0;rep<2;++rep) for(int H=a+b;H>J;H-=2){ auto& h=st[{H,J}]; C p=0; for(int q=0;q<da*db;++q) p+=std::conj(h[q])*t[q]; for(int q=0;q<da*db;++q) t[q]-=p*h[q]; } L n=0; for(auto& z: t) n+=std::norm(z); if(n>best){ best=n; v=t; for(auto& z: v) z/=sqrtl(n); } }
    { int i=da-1, k=((J-a)+b)/2; if(v[i*db+k].real()<0) for(auto& z: v) z=-z; } st[{J,J}]=v; for(int Mz=J-2;Mz>=-J;Mz-=2){ v=low(v); L jj=J/2.L, m=(Mz+2)/2.L; for(auto& z: v) z/=sqrtl(jj*(jj+1)-m*(m-1)); st[{J,Mz}]=v; } }
  return st; }
static void cg(int amax,bool all){ auto& r=vf::rng(); for(int a=0;a<=amax;++a) for(int b=0;b<=amax;++b){ if(!all&&a+b>8&&r.coin(0.5)) continue; auto st=couple(a,b); L tot=0; for(int i=0;i<=a;++i) for(int k=0;k<=b;++k){ double m1=i-a/2.,m2=k-b/2.; L comp=0; for(int J=(a+b)%2;J<=a+b+4;J+=2) for(int Mz=-J-2;Mz<=J+2;Mz+=2){ double c=CG(a/2.,m1,b/2.,m2,J/2.,Mz/2.); vf::eval(); L w=0; auto it=st.find({J,Mz}); if(it!=st.end()) w=it->second[i*(b+1)+k].real(); EXPECT(std::abs(c-w)<1e-10L,"cg",vf::fmt("<%g %g %g %g|%g %g> = %.15g want %.15Lg",a/2.,m1,b/2.,m2,J/2.,Mz/2.,c,w)); comp+=L(c)*c; if(std::abs(Mz)<=J){ double s=CG(b/2.,m2,a/2.,m1,J/2.,Mz/2.); int ph=((a+b-J)/2)%2? -1:1; EXPECT(std::abs(s-ph*c)<1e-10,"cg.exchange",vf::fmt("%d %d %d",a,b,J)); double t=CG(a/2.,-m1,b/2.,-m2,J/2.,-Mz/2.); EXPECT(std::abs(t-ph*c)<1e-10,"cg.reversal",vf::fmt("%d %d %d",a,b,J)); } } EXPECT(std::abs(comp-1)<1e-10L,"cg.complete",vf::fmt("%d %d %d %d",a,b,i,k)); tot+=comp; }
    // projections outside the multiplets
    for(int q=0;q<6;++q){ double m1=a/2.+r.range(1,3)*(r.coin()?1:-1), m2=r.range(0,b)-b/2.; if(std::abs(m1)<=a/2.) continue; for(int J=(a+b)%2;J<=a+b;J+=2){ EXPECT(CG(a/2.,m1,b/2.,m2,J/2.,m1+m2)==0,"cg.outside",vf::fmt("%d %g %d %g %d",a,m1,b,m2,J)); EXPECT(CG(b/2.,m2,a/2.,m1,J/2.,m1+m2)==0,"cg.outside2",vf::fmt("%d %g %d %g %d",a,m1,b,m2,J)); } }
    vf::distinct(vf::fmt("cg%d,%d",a,b)); vf::count("pairs"); } vf::require("pairs",5); }
// helicity couplings of an (L,S) state: unit total probability, orthogonal to other (L,S), values from the definition
static void recoupling(int smax,int jmax){ for(int J=0;J<=jmax;++J) for(int s1=0;s1<=smax;++s1) for(int s2=0;s2<=smax;++s2){ if((J+s1+s2)%2) continue; std::map<std::pair<int,int>,std::map<std::pair<int,int>,L>> all; for(int S=std::abs(s1-s2);S<=s1+s2;S+=2) for(int Lo=std::abs(J-S);Lo<=J+S;Lo+=2){ if(Lo%2) continue; vf::eval(); auto v=calculate_recoupling_constants(J/2.,J/2.,Lo/2,S/2.,s1/2.,s2/2.); L p=0; auto cLS=couple(Lo,S), c12=couple(s1,s2); std::string d=vf::fmt("J=%g L=%d S=%g s1=%g s2=%g",J/2.,Lo/2,S/2.,s1/2.,s2/2.); std::map<std::pair<int,int>,L> want; for(int a=-s1;a<=s1;a+=2) for(int b=-s2;b<=s2;b+=2){ int la=a-b; L x=0,y=0; if(std::abs(la)<=S&&std::abs(la)<=J){ x=cLS[{J,la}][(Lo/2)*(S+1)+(la+S)/2].real(); y=c12[{S,la}][((a+s1)/2)*(s2+1)+(-b+s2)/2].real(); } want[{a,b}]=sqrtl((Lo+1.L)/(J+1.L))*x*y; }
      std::map<std::pair<int,int>,L> got; for(auto& f: v){ std::pair<int,int> k{int(std::lround(2*f.m1)),int(std::lround(2*f.m2))}; EXPECT(!got.count(k),"recoupling.once",d); got[k]=f.factor; p+=L(f.factor)*f.factor; } for(auto& [k,w]: want){ L g=got.count(k)?got[k]:0; EXPECT(std::abs(g-w)<1e-10L,"recoupling",d+vf::fmt(" m1=%g m2=%g: %Lg want %Lg",k.first/2.,k.second/2.,g,w)); } EXPECT(std::abs(p-1)<1e-10L,"recoupling.probability",d+vf::fmt(" %Lg",p)); for(auto& [o,q]: all){ L s=0; for(auto& [k,w]: got) if(q.count(k)) s+=w*q[k]; EXPECT(std::abs(s)<1e-10L,"recoupling.orthogonal",d); } all[{Lo,S}]=got; vf::distinct(d); } vf::count("systems"); } }
// total probability of helicity amplitudes of two-body decays, summed over the spin states, is 1 for any direction and frame
static V boostTo(const V& p,const V& f){ // from the rest frame of f to the frame in which it has momentum f
  L m=sqrtl(la::mink(f,f)), g=f[3].real()/m; V b(3); for(int i=0;i<3;++i) b[i]=f[i]/m; L bp=0; for(int i=0;i<3;++i) bp+=(b[i]*p[i]).real(); V o(4); for(int i=0;i<3;++i) o[i]=p[i]+b[i]*(bp/(1+g)+p[3].real()); o[3]=g*p[3].real()+bp; return o; }
static void amplitudes(int n){ auto& r=vf::rng(); struct D { const char* head; int J; const char* a; int s1; const char* b; int s2; }; static const std::vector<D> ds={{"D0",0,"K-",0,"pi+",0},{"rho(770)0",2,"pi+",0,"pi-",0},{"f(2)(1270)0",4,"pi+",0,"pi-",0},{"D0",0,"K*(892)0",2,"pi0",0},{"D0",0,"K*(892)0",2,"rho(770)0",2},{"a(1)(1260)+",2,"rho(770)0",2,"pi+",0},{"Lambda(c)+",1,"p+",1,"pi0",0},{"Lambda(1520)0",3,"p+",1,"K-",0},{"D0",0,"p+",1,"pbar-",1},{"K(1)(1270)+",2,"K*(892)0",2,"pi+",0},{"J/psi0",2,"p+",1,"pbar-",1},{"f(2)(1270)0",4,"rho(770)0",2,"rho(770)0",2}}; for(int it=0;it<n;++it){ auto d=r.pick(ds); if(d.J==4&&d.s1==2&&r.coin(0.9)) d=ds[2]; Particle p(std::string(d.head)+"{"+d.a+","+d.b+"}"); if(!p.isStateGood()) { vf::count("bad"); continue; } auto sc=p.spinOrbitCouplings(false); if(sc.empty()) continue; auto ls=r.pick(sc); p.setOrbital(unsigned(ls.first+0.5)); 
    // momenta in the rest frame of the parent, parent at rest
    double m1=p.daughter(0)->mass(),m2=p.daughter(1)->mass(),q=r.uni(0.2,1.5); L ct=r.uni(-1,1),ph=r.uni(-M_PI,M_PI),st=sqrtl(1-ct*ct); if(r.coin(0.05)) { ct=0; st=1; } Interp in; for(int k=0;k<2;++k){ p.daughter(k)->setIndex(k); L s=k?-1:1, m=k?m2:m1; std::string i=std::to_string(p.daughter(k)->index()); in.v[i+"_Px"]=s*q*st*cosl(ph); in.v[i+"_Py"]=s*q*st*sinl(ph); in.v[i+"_Pz"]=s*q*ct; in.v[i+"_E"]=sqrtl(m*m+q*q); }
    int S2=int(std::lround(2*sc.front().second)); (void)S2; L tot=0; std::string ds=p.decayDescriptor()+vf::fmt(" L=%d q=%g ct=%Lg phi=%Lg",int(ls.first),q,ct,ph); vf::begin_case(ds); vf::eval(); auto states=[](int s){ std::vector<int> v; if(s==0) v={0}; else if(s==1) v={-1,1}; else v={-1,0,1}; return v; }; bool first=true; std::vector<std::vector<C>> byM; for(int Mz=-d.J;Mz<=d.J;Mz+=2){ for(int a: states(p.daughter(0)->props()->twoSpin())) for(int b: states(p.daughter(1)->props()->twoSpin())){ p.daughter(0)->setPolarisationState(a); p.daughter(1)->setPolarisationState(b); Expression e; std::string o=vf::capture([&]{ e=helicityAmplitude(p,TransformSequence(),Mz/2.,nullptr); }); in.fresh(); C z=in(e); tot+=std::norm(z); } first=false; } (void)first;
    // fermion spinors are normalised to ubar u = 1 per state in the library's rest frame convention; sign of vbar v is absorbed by the modulus
    EXPECT(in.unset.empty(),"amp.unset",ds+vf::vstr(in.unset)); EXPECT(std::abs(tot-1)<1e-7L,"amp.probability",ds+vf::fmt(" total %Lg",tot)); vf::distinct(ds); vf::count(d.head); if(it<3) vf::sample(ds); } }
void harness(){ for(int s=0;s<vf::scale(4,16);++s) vf::section("d"+std::to_string(s),[]{ dfun(vf::scale(200,2000),vf::scale(4,5)); },vf::scale(250,850)); vf::section("cg",[]{ cg(vf::scale(7,12),vf::thorough()); },vf::scale(250,850)); vf::section("recoupling",[]{ recoupling(vf::scale(4,6),vf::scale(5,9)); },vf::scale(250,850)); for(int s=0;s<vf::scale(6,16);++s) vf::section("amplitudes"+std::to_string(s),[]{ amplitudes(vf::scale(25,300)); },vf::scale(250,850)); }
