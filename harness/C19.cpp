// C19: decay amplitudes on transformed, exchanged, relabelled and conjugated copies of events
#include "interp.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Wigner.h"
#include <unistd.h>
using namespace AmpGen; using la::C; using la::L; using la::M; using la::V;
using Ev=std::vector<V>;
static double massOf(const std::string& n){ return ParticlePropertiesList::get(n)->mass(); }
// momenta at rest, on shell, of total mass m
static Ev event(double m,const std::vector<double>& ms){ auto& r=vf::rng(); Ev e(ms.size(),V(4)); V s(3); for(auto& p: e) for(int i=0;i<3;++i){ p[i]=r.gauss(); s[i]+=p[i]; } for(auto& p: e) for(int i=0;i<3;++i) p[i]-=s[i]/C(e.size()); L lo=0,hi=1e4; auto tot=[&](L x){ L t=0; for(size_t k=0;k<e.size();++k){ L p2=0; for(int i=0;i<3;++i) p2+=std::norm(e[k][i])*x*x; t+=sqrtl(p2+L(ms[k])*ms[k]); } return t; }; for(int k=0;k<200;++k){ L x=(lo+hi)/2; (tot(x)<m? lo: hi)=x; } for(size_t k=0;k<e.size();++k){ L p2=0; for(int i=0;i<3;++i){ e[k][i]*=lo; p2+=std::norm(e[k][i]); } e[k][3]=sqrtl(p2+L(ms[k])*ms[k]); } return e; }
static M lorentz(bool boosts){ auto& r=vf::rng(); M w(4,4); L b[3],t[3]; for(int i=0;i<3;++i){ b[i]=boosts? r.gauss()*0.5:0; t[i]=r.gauss()*1.5; } for(int i=0;i<3;++i){ w(i,3)=b[i]; w(3,i)=b[i]; } w(0,1)=-t[2]; w(1,0)=t[2]; w(0,2)=t[1]; w(2,0)=-t[1]; w(1,2)=-t[0]; w(2,1)=t[0]; return la::expm(w); }
static std::vector<int> states(const ParticleProperties* p){ int s=p->twoSpin(); if(p->isPhoton()) return {-1,1}; if(s==0) return {0}; if(s==1) return {-1,1}; if(s==2) return {-1,0,1}; if(s==3) return {-3,-1,1,3}; return {-2,-1,0,1,2}; }
// one amplitude with its final state
struct Amp { std::string dec; std::vector<std::string> fs; Particle p; std::vector<std::vector<int>> pols; std::vector<Expression> ex; double m; std::vector<double> ms; bool ok=true; std::string why;
  Amp(const std::string& d,std::vector<std::string> order={}){ dec=d; why=vf::capture([&]{ try { Particle t(d); if(order.empty()){ for(auto& x: t.getFinalStateParticles()) order.push_back(x->name()); std::stable_sort(order.begin(),order.end()); } fs=order; p=Particle(d,order); m=p.mass(); for(auto& f: fs) ms.push_back(massOf(f)); pols={{}}; auto ext=[&](const std::vector<int>& st){ std::vector<std::vector<int>> n; for(auto& q: pols) for(int s: st){ auto z=q; z.push_back(s); n.push_back(z); } pols=n; }; ext(states(p.props())); for(auto& x: p.getFinalStateParticles()) ext(states(x->props())); for(auto& q: pols) ex.push_back(p.getExpression(nullptr,q)); } catch(std::exception& e){ ok=false; } }); }
  std::vector<C> at(const Ev& e,std::set<std::string>* unset=nullptr){ Interp in; for(size_t k=0;k<e.size();++k){ std::string i=std::to_string(k); in.v[i+"_Px"]=e[k][0].real(); in.v[i+"_Py"]=e[k][1].real(); in.v[i+"_Pz"]=e[k][2].real(); in.v[i+"_E"]=e[k][3].real(); } std::vector<C> o; for(auto& x: ex) o.push_back(in(x)); if(unset) *unset=in.unset; return o; }
  static L rate(const std::vector<C>& a){ L s=0; for(auto& z: a) s+=std::norm(z); return s; } };
static const std::vector<std::string> bosons={"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)0{pi+,pi-},K0S0}","D0{f(0)(980)0{pi+,pi-},K0S0}","D0{f(2)(1270)0{pi+,pi-},K0S0}","D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}","D0{a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+},K-}","D0{K(1)(1270)bar-{rho(770)0{pi+,pi-},K-},pi+}","D0{rho(1450)0{a(1)(1260)+[S]{rho(770)0{pi+,pi-},pi+},pi-},K0S0}","D0{K(2)*(1430)bar-{K*(892)bar0{K-,pi+},pi-},pi+}","D0{K(1460)bar-{K*(892)bar0{K-,pi+},pi-},pi+}","D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}","D0[P]{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}","D+{rho(770)0{pi+,pi-},pi+}","D+{f(2)(1270)0{pi+,pi-},pi+}","J/psi0{rho(770)0{pi+,pi-},pi0}","rho(770)0{pi+,pi-}","a(1)(1260)+{rho(770)0{pi+,pi-},pi+}","B0{D*(2010)-{Dbar0{K+,pi-},pi-},pi+}","D0{phi(1020)0{K+,K-},K0S0}","D0{NonResS0{K-,pi+},pi0}","D0{omega(782)0{pi+,pi-,pi0},K0S0}"};
static const std::vector<std::string> fermions={"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+[P]{K*(892)bar0{K-,pi+},p+}","Lambda(c)+{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+[D]{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+{Delta(1232)++{p+,pi+},K-}","Lambda(c)+{Lambda(1405)0{p+,K-},pi+}","J/psi0{p+,pbar-}","J/psi0{mu+,mu-}","B0{J/psi0{mu+,mu-},K0S0}","B+{J/psi0{mu+,mu-},K+}"};
static const std::vector<std::string> fermionsQ={"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+[D]{Lambda(1520)0{p+,K-},pi+}","J/psi0{p+,pbar-}","B0{J/psi0{mu+,mu-},K0S0}"};
static const std::vector<std::string> taus={"tau-{phi(1020)0{mu+,mu-},mu-}"};
static const std::vector<std::string> baryonB={"B0{p+,pbar-}","B0{Lambda(c)bar-{Lambda(1520)bar0{pbar-,K+},pi-},p+}","Lambda(c)+{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","f(2)(1270)0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}","f(2)(1270)0{pi+,pi-}","Delta(1232)++{p+,pi+}","B0{p+,p+}","B0[P]{p+,p+}"}; // only in the canonical formalism
static std::string stripped(const std::string& s){ return s; }
static void invariance(const std::vector<std::string>& list,const std::string& form,const std::string& basis,bool moving,int part,int parts,int n){ auto& r=vf::rng(); OptionsParser::setArg("Particle::SpinFormalism "+form); OptionsParser::setArg("Particle::SpinBasis "+basis); if(moving) OptionsParser::setArg("helicityAmplitude::MovingParent 1"); bool can=form=="Canonical"; std::string K="."+form; for(size_t q=part;q<list.size();q+=parts){ Amp a(list[q]); std::string d0=form+"/"+basis+" "+stripped(list[q]); vf::begin_case(d0); if(!a.ok||a.why.find("not yet implemented")!=std::string::npos){ EXPECT(false,"build"+K,d0+" "+a.why.substr(0,300)); continue; } vf::count("amplitudes"); 
    for(int it=0;it<n;++it){ Ev e=event(a.m,a.ms); vf::eval(); std::string d=d0; for(auto& p: e) d+=vf::fmt(" (%.4Lg,%.4Lg,%.4Lg)",p[0].real(),p[1].real(),p[2].real()); vf::begin_case(d); vf::distinct(d); std::set<std::string> un; auto z=a.at(e,&un); L R=Amp::rate(z); EXPECT(std::isfinite(R)&&R>0,"finite"+K,d+vf::fmt(" %Lg",R)); for(auto& u: un) if(u.size()>2&&isdigit(u[0])&&u.find("_P")!=std::string::npos) EXPECT(false,"unset"+K,d+u);
      // another frame
      M v=lorentz(!can||moving); Ev f=e; for(auto& p: f) p=la::mv(v,p); if(can&&moving){ } L R2=Amp::rate(a.at(f)); L g=std::max<L>(1,la::norm(v)); EXPECT(std::abs(R-R2)<1e-9L*R*g*g*g*g,"frame"+K,d+vf::fmt(": %Lg in the first frame, %Lg in the other, ratio %.10Lg",R,R2,R2/R));
      // exchange of identical particles
      for(size_t i=0;i<e.size();++i) for(size_t j=0;j<i;++j) if(a.fs[i]==a.fs[j]){ Ev s=e; std::swap(s[i],s[j]); auto w=a.at(s); auto F=ParticlePropertiesList::get(a.fs[i]); C sg= F->isFermion()? -1:1; for(size_t k=0;k<z.size();++k){ auto ps=a.pols[k]; std::swap(ps[1+i],ps[1+j]); size_t kb=std::find(a.pols.begin(),a.pols.end(),ps)-a.pols.begin(); EXPECT(std::abs(w[kb]-sg*z[k])<1e-10L*sqrtl(R),"exchange"+K,d+vf::fmt(" %zu<->%zu: (%Lg,%Lg) and (%Lg,%Lg)",i,j,z[k].real(),z[k].imag(),w[kb].real(),w[kb].imag())); } vf::count("exchanges"); }
      if(it==0){ // relabelling of the final state
        auto o=a.fs; std::vector<size_t> perm(o.size()); for(size_t i=0;i<perm.size();++i) perm[i]=i; r.shuffle(perm); std::vector<std::string> fs2; Ev e2; for(auto i: perm){ fs2.push_back(o[i]); e2.push_back(e[i]); } Amp b(list[q],fs2); auto w=b.at(e2); bool fid=false; for(size_t i=0;i<o.size();++i) for(size_t j=0;j<i;++j) if(o[i]==o[j]&&ParticlePropertiesList::get(o[i])->isFermion()) fid=true; for(size_t k=0;k<z.size();++k){ auto pb=a.pols[k]; for(size_t j=0;j<perm.size();++j) pb[1+j]=a.pols[k][1+perm[j]]; size_t kb=std::find(b.pols.begin(),b.pols.end(),pb)-b.pols.begin(); if(kb>=w.size()){ EXPECT(false,"relabel.states"+K,d); continue; } C wk=w[kb]; EXPECT(std::min(std::abs(wk-z[k]),fid? std::abs(wk+z[k]): 1e300L)<1e-10L*sqrtl(R),"relabel"+K,d+" "+vf::vstr(fs2)+vf::fmt(" (%Lg,%Lg) and (%Lg,%Lg)",z[k].real(),z[k].imag(),wk.real(),wk.imag())); } L R3=Amp::rate(w); EXPECT(std::abs(R3-R)<1e-9L*R,"relabel.rate"+K,d+" "+vf::vstr(fs2));
        // conjugate decay at the same momenta
        Particle pc; std::string why=vf::capture([&]{ pc=Particle(list[q]).conj(true,true); }); std::vector<std::string> cf; for(auto& s: a.fs){ auto pp=ParticlePropertiesList::get(s); cf.push_back(pp->hasDistinctAnti()? pp->anti().name(): s); } Amp c(pc.decayDescriptor(),cf); if(!c.ok||c.why.find("not yet implemented")!=std::string::npos) EXPECT(false,"conjugate.build"+K,d0+" -> "+pc.decayDescriptor()+" "+c.why.substr(0,300)); else { auto y=c.at(e); L R4=Amp::rate(y); EXPECT(std::abs(R4-R)<1e-9L*R,"conjugate.rate"+K+(fid? "."+basis+":"+list[q]: ""),d0+" -> "+pc.decayDescriptor()+vf::fmt(" rates %Lg %Lg",R,R4)); if(z.size()==1&&y.size()==1) EXPECT(std::min(std::abs(y[0]-z[0]),std::abs(y[0]+z[0]))<1e-9L*sqrtl(R),"conjugate"+K,d0); vf::count("conjugates"); } }
    } if(part==0) vf::sample(d0); } vf::require("amplitudes",1); }
// flags: without symmetrisation, incoherent, without spin
static void flags(const std::string& form,int n){ auto& r=vf::rng(); (void)r; OptionsParser::setArg("Particle::SpinFormalism "+form); struct F { std::string head,body; }; static const std::vector<F> fs={{"D+","{rho(770)0{pi+,pi-},pi+}"},{"D0","{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}"},{"D+","{f(2)(1270)0{pi+,pi-},pi+}"},{"D0","{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},pi-}"},{"D+","{K*(892)bar0{K-,pi+},pi+}"}}; for(auto& t: fs){ Amp full(t.head+t.body), no(t.head+"[NoSym]"+t.body), inco(t.head+"[Inco]"+t.body), bg(t.head+"[BgSpin0]"+t.body), nobg(t.head+"[BgSpin0;NoSym]"+t.body); std::string d0=form+" "+t.head+t.body; vf::begin_case(d0); for(auto a: {&full,&no,&inco,&bg,&nobg}) if(!a->ok){ EXPECT(false,"flags.build",d0+a->why.substr(0,200)); return; } for(int it=0;it<n;++it){ Ev e=event(full.m,full.ms); vf::eval(); std::string d=d0+vf::fmt(" %Lg %Lg",e[0][0].real(),e[1][2].real()); vf::distinct(d); // all permutations of identical particles
      std::vector<size_t> ix(e.size()); for(size_t i=0;i<ix.size();++i) ix[i]=i; C sum=0; L inc=0; C sbg=0; int np=0; do { bool same=true; for(size_t i=0;i<ix.size();++i) if(full.fs[i]!=full.fs[ix[i]]) same=false; if(!same) continue; Ev f; for(auto i: ix) f.push_back(e[i]); C z=no.at(f)[0]; sum+=z; inc+=std::norm(z); sbg+=nobg.at(f)[0]; ++np; } while(std::next_permutation(ix.begin(),ix.end())); C a=full.at(e)[0], i=inco.at(e)[0], b=bg.at(e)[0]; L sc=sqrtl(inc); EXPECT(std::abs(a-sum/sqrtl(np))<1e-9L*sc,"symmetrised."+form,d+vf::fmt(" (%Lg,%Lg) against the sum over %d orders (%Lg,%Lg)",a.real(),a.imag(),np,sum.real(),sum.imag())); EXPECT(std::abs(i-C(sqrtl(inc/np)))<1e-9L*sc,"incoherent."+form,d); EXPECT(std::abs(b-sbg/sqrtl(np))<1e-9L*(std::abs(b)+std::abs(sbg)),"nospin."+form,d); 
      // without spin only invariant masses matter: mirror images and rates agree, and it equals the ratio-free lineshape product
      Particle p(t.head+"[BgSpin0;NoSym]"+t.body,full.fs); Expression ls; vf::capture([&]{ ls=p.propagator(); }); Interp in; for(size_t k=0;k<e.size();++k){ const char* c[4]={"_Px","_Py","_Pz","_E"}; for(int q=0;q<4;++q) in.v[std::to_string(k)+c[q]]=e[k][q].real(); } C w=in(ls); C g=nobg.at(e)[0]; EXPECT(std::abs(w-g)<1e-9L*std::abs(w),"nospin.lineshape."+form,d+vf::fmt(" (%Lg,%Lg) and (%Lg,%Lg)",w.real(),w.imag(),g.real(),g.imag())); vf::count("flags"); } } }
// at fixed invariant masses both formalisms give the same angular distribution
static Ev chain2(L m,L m12,L m3,L ma,L mb,L c,L phi){ auto q=[](L M0,L a,L b){ return sqrtl((M0*M0-(a+b)*(a+b))*(M0*M0-(a-b)*(a-b)))/(2*M0); }; L p=q(m,m12,m3), k=q(m12,ma,mb), s=sqrtl(1-c*c); auto bz=[&](V v){ L E=sqrtl(p*p+m12*m12), g=E/m12, bg=p/m12; C z=v[2], t=v[3]; v[2]=g*z+bg*t; v[3]=g*t+bg*z; return v; }; V a={k*s*cosl(phi),k*s*sinl(phi),k*c,sqrtl(k*k+ma*ma)}, b={-k*s*cosl(phi),-k*s*sinl(phi),-k*c,sqrtl(k*k+mb*mb)}; return {bz(a),bz(b),V{0,0,-p,sqrtl(p*p+m3*m3)}}; }
static void formalisms(int n){ auto& r=vf::rng(); struct T { const char* d; std::vector<std::string> fs; L lo,hi; }; static const std::vector<T> ts={{"D0{K*(892)bar0{K-,pi+},pi0}",{"K-","pi+","pi0"},0.65,1.6},{"D0{f(2)(1270)0{pi+,pi-},K0S0}",{"pi+","pi-","K0S0"},0.3,1.3},{"D0{rho(770)0{pi+,pi-},K0S0}",{"pi+","pi-","K0S0"},0.3,1.3},{"D0{f(0)(980)0{pi+,pi-},K0S0}",{"pi+","pi-","K0S0"},0.3,1.3},{"D0{K(2)*(1430)bar0{K-,pi+},pi0}",{"K-","pi+","pi0"},0.65,1.6}}; for(auto& t: ts){ OptionsParser::setArg("Particle::SpinFormalism Covariant"); Amp a(t.d,t.fs); OptionsParser::setArg("Particle::SpinFormalism Canonical"); Amp b(t.d,t.fs); std::string d0=t.d; vf::begin_case(d0); if(!a.ok||!b.ok){ EXPECT(false,"formalisms.build",d0+a.why.substr(0,200)+b.why.substr(0,200)); continue; } for(int it=0;it<n;++it){ L m12=r.uni(double(t.lo),double(t.hi)); L ref=-1; L sc=0; std::vector<std::pair<L,L>> v; for(int k=0;k<6;++k){ Ev e=chain2(a.m,m12,a.ms[2],a.ms[0],a.ms[1],r.uni(-0.95,0.95),r.uni(-3,3)); L x=Amp::rate(a.at(e)), y=Amp::rate(b.at(e)); v.push_back({x,y}); sc=std::max(sc,x); } (void)ref; vf::eval(); vf::distinct(d0+vf::fmt("%Lg",m12)); L sx=0,sy=0; for(auto& [x,y]: v){ sx+=x; sy+=y; } for(auto& [x,y]: v) EXPECT(std::abs(x/sx-y/sy)<1e-8L,"formalisms",d0+vf::fmt(" m12=%Lg covariant %Lg of %Lg, canonical %Lg of %Lg",m12,x,sx,y,sy)); vf::count("formalisms"); } } }
// couplings chosen by hand: an explicit total spin, or helicity amplitudes from the options
static void helicities(int part,int parts,int n){ auto& r=vf::rng(); OptionsParser::setArg("Particle::SpinFormalism Canonical"); OptionsParser::setArg("Particle::SpinBasis Weyl"); struct H { std::string head,body; }; static const std::vector<H> hs={{"D0","{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"},{"J/psi0","{p+,pbar-}"},{"Lambda(c)+","{p+,K*(892)bar0{K-,pi+}}"},{"Lambda(c)+","{Lambda(1520)0{p+,K-},pi+}"},{"B0","{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}"},{"a(1)(1260)+","{rho(770)0{pi+,pi-},pi+}"}}; static const std::string Ls="SPDFGHI"; int key=0;
  for(size_t q=part;q<hs.size();q+=parts){ auto& h=hs[q]; if(h.head=="B0"&&!vf::thorough()) continue; Particle t; std::vector<std::pair<double,double>> ls; vf::capture([&]{ t=Particle(h.head+h.body); ls=t.spinOrbitCouplings(false); }); double J=t.spin(), j1=t.daughter(0)->spin(), j2=t.daughter(1)->spin(); EXPECT(!ls.empty(),"helicity.couplings",h.head+h.body);
    auto given=[&](const std::string& mod,const std::vector<LS>& c){ std::string k="hel"+std::to_string(getpid())+"x"+std::to_string(key++), o=k; for(auto& x: c) o+=vf::fmt(" %.17g %.17g %.17g",x.factor,x.m1,x.m2); OptionsParser::setArg(o); return Amp(h.head+"["+mod+";helAmp="+k+"]"+h.body); };
    for(auto& [l,S]: ls){ if(l==0||(!vf::thorough()&&h.body.size()>40&&l>1)) continue; std::string L1(1,Ls[int(l)]), mod= S==0? L1: L1+std::to_string(int(2*S)); std::vector<LS> c=calculate_recoupling_constants(J,0,l,S,j1,j2); Amp a(h.head+"["+mod+"]"+h.body), b=given(mod,c); std::string d0=h.head+"["+mod+"]"+h.body; vf::begin_case(d0); if(!a.ok||!b.ok){ EXPECT(false,"helicity.build",d0+a.why.substr(0,200)+b.why.substr(0,200)); continue; } EXPECT(a.p.L()==unsigned(l)&&a.p.S()==int(2*S),"helicity.numbers",d0+vf::fmt(" L=%d 2S=%g",a.p.L(),a.p.S()));
      bool unique=true; for(auto& [l2,S2]: ls) if(l2==l&&S2<S) unique=false; if(S==0&&!unique) continue; 
      std::vector<LS> x=c; r.shuffle(x); if(x.size()>3) x.resize(3); std::vector<double> w; for(auto& y: x){ w.push_back(r.uni(-1,1)); y.factor=w.back(); } Amp any=given(mod,x); std::vector<Amp> unit; for(auto& y: x){ LS u=y; u.factor=1; unit.push_back(given(mod,{u})); }
      for(int it=0;it<n;++it){ Ev e=event(a.m,a.ms); vf::eval(); std::string d=d0+vf::fmt(" %Lg %Lg",e[0][0].real(),e[1][2].real()); vf::begin_case(d); vf::distinct(d); auto z=a.at(e), y=b.at(e), g=any.at(e); L R=sqrtl(Amp::rate(z)), G=sqrtl(Amp::rate(g)); std::vector<C> sum(g.size()); L sc=0; for(size_t k=0;k<unit.size();++k){ auto v=unit[k].at(e); sc+=sqrtl(Amp::rate(v)); for(size_t i=0;i<sum.size()&&i<v.size();++i) sum[i]+=C(w[k])*v[i]; } EXPECT(std::isfinite(R)&&R>0,"helicity.finite",d); for(size_t i=0;i<z.size();++i){ EXPECT(std::abs(z[i]-y[i])<1e-10L*R,"helicity.spin",d+vf::fmt(" state %zu: (%Lg,%Lg) from the coupling, (%Lg,%Lg) from its helicity amplitudes",i,z[i].real(),z[i].imag(),y[i].real(),y[i].imag())); EXPECT(std::abs(g[i]-sum[i])<1e-10L*(G+sc),"helicity.linear",d+vf::fmt(" state %zu",i)); }
        if(it==0){ M v=lorentz(false); Ev f=e; for(auto& p: f) p=la::mv(v,p); L G2=sqrtl(Amp::rate(any.at(f))); EXPECT(std::abs(G-G2)<1e-9L*(G+sc),"helicity.frame",d+vf::fmt(": %Lg and %Lg",G,G2)); } vf::count("helicities"); } } } vf::require("helicities",1); }
void harness(){ for(int k=0;k<vf::scale(3,6);++k) vf::section("helicities"+std::to_string(k),[=]{ helicities(k,vf::scale(3,6),vf::scale(2,30)); },vf::scale(250,850)); vf::section("flags.cov",[]{ flags("Covariant",vf::scale(3,60)); },vf::scale(250,850)); vf::section("flags.can",[]{ flags("Canonical",vf::scale(2,40)); },vf::scale(250,850)); vf::section("formalisms",[]{ formalisms(vf::scale(4,60)); },vf::scale(250,850));  struct J { const char* n; const std::vector<std::string>* l; std::string f,b; bool mv; int parts; }; std::vector<J> js={{"cov.b",&bosons,"Covariant","Dirac",false,vf::scale(4,12)},{"cov.f",&fermions,"Covariant","Dirac",false,vf::scale(3,12)},{"cov.fw",&fermions,"Covariant","Weyl",false,vf::scale(3,12)},{"cov.t",&taus,"Covariant","Dirac",false,1},{"cov.tw",&taus,"Covariant","Weyl",false,1},{"can.b",&bosons,"Canonical","Weyl",false,vf::scale(4,12)},{"can.f",&fermions,"Canonical","Weyl",false,vf::scale(6,12)},{"can.fd",vf::scale(0,1)? &fermions: &fermionsQ,"Canonical","Dirac",false,vf::scale(2,12)},{"can.x",&baryonB,"Canonical","Weyl",false,vf::scale(4,8)},{"can.mv",vf::scale(0,1)? &fermions: &fermionsQ,"Canonical","Weyl",true,vf::scale(4,10)}}; for(auto& j: js) for(int s=0;s<j.parts;++s) vf::section(j.n+std::to_string(s),[j,s]{ invariance(*j.l,j.f,j.b,j.mv,s,j.parts,j.mv||j.f=="Canonical"? vf::scale(2,40): vf::scale(4,80)); },vf::scale(250,850)); }
