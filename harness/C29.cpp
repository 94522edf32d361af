// C29: sums over polarisations: density matrices, normalisation, rotations, and the libraries generated from models
#include "vf.h"
#include "interp.h"
#include "decay.h"
#include "AmpGen/PolarisedSum.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/SumPDF.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/Particle.h"
#include <dlfcn.h>
#include <unistd.h>
using namespace AmpGen;
typedef long double L; typedef std::complex<L> C;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }
static void opt(const std::string& s){ OptionsParser::setArg(s); }
static const double W=utils::size<real_v>::value;
static double laneR(const real_v& v,unsigned i){
#if ENABLE_AVX
  return v.at(i);
#else
  (void)i; return v;
#endif
}
#if ENABLE_AVX
typedef EventListSIMD List;
#else
typedef EventList List;
#endif
struct Model { std::vector<std::string> type,rules; bool frac,flavour; };
static const std::vector<Model> MODELS={
 {{"Lambda(c)+","p+","K-","pi+"},{"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+[P]{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+[D]{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+{Delta(1232)++{p+,pi+},K-}"},false,false},
 {{"J/psi0","pi+","pi-","pi0"},{"J/psi0{rho(770)0{pi+,pi-},pi0}","J/psi0{rho(770)+{pi+,pi0},pi-}","J/psi0{rho(770)-{pi-,pi0},pi+}"},false,false},
 {{"B0","K+","pi-","gamma0"},{"B0{K*(892)0{K+,pi-},gamma0}","B0[P]{K*(892)0{K+,pi-},gamma0}","B0{K(2)*(1430)0{K+,pi-},gamma0}"},true,false},
 {{"D0","K0S0","pi+","pi-"},{"D0{rho(770)0{pi+,pi-},K0S0}","D0{K*(892)bar-{K0S0,pi-},pi+}","D0{f(0)(980)0{pi+,pi-},K0S0}","Dbar0{rho(770)0{pi+,pi-},K0S0}","Dbar0{K*(892)+{K0S0,pi+},pi-}"},false,true},
 {{"Lambda(c)+","p+","K-","pi+"},{"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+{Lambda(1520)0{p+,K-},pi+}"},true,false},
 {{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}"},false,false},
 {{"tau-","mu-","mu+","mu-"},{"tau-{phi(1020)0{mu+,mu-},mu-}","tau-{rho(770)0{mu+,mu-},mu-}"},false,false},
 {{"K(1)(1270)+","K+","pi+","pi-"},{"K(1)(1270)+{rho(770)0{pi+,pi-},K+}","K(1)(1270)+{K*(892)0{K+,pi-},pi+}","K(1)(1270)+[D]{K*(892)0{K+,pi-},pi+}"},false,false}};
static Event mkEvent(const EventType& t,TRandom3& rnd){ PhaseSpace ps(t,&rnd); return ps.makeEvent(); }
static void setEvent(Interp& in,const EventType& t,const Event& e){ in.fresh(); for(auto& f: t.getEventFormat()) in.v[f.first]=e[f.second]; }
struct Sample { EventList plain; std::unique_ptr<List> l; };
static Sample mkSample(const EventType& t,TRandom3& rnd,int n,bool weights){ auto& r=vf::rng(); Sample s; s.plain=EventList(t); for(int i=0;i<n;++i){ Event e=mkEvent(t,rnd); e.setWeight(weights? r.uni(0.2,3): 1); e.setGenPdf(weights? r.uni(0.3,2): 1); s.plain.push_back(e); } s.l.reset(new List(s.plain)); return s; }
static std::vector<int> states(const std::string& n){ auto p=ParticlePropertiesList::get(n); int two=p->twoSpin(); if(two==2&&p->mass()==0) return {1,-1}; if(two==1) return {1,-1}; std::vector<int> o; for(int m=two/2;m>=-two/2;--m) o.push_back(m); return o; }
// the density matrix of spin 1/2 or 1 in terms of the polarisation vector and tensor, written from the spin operators
static la::M rho(unsigned n,const std::vector<double>& p){ la::M R=la::id(n); if(n==2&&p.size()>=3){ R(0,0)+=p[2]; R(1,1)-=p[2]; R(0,1)+=C(p[0],-p[1]); R(1,0)+=C(p[0],p[1]); }
  if(n==3&&p.size()>=8){ la::M S[3]={la::M(3,3),la::M(3,3),la::M(3,3)}; L h=1/sqrtl(2.0L); S[0](0,1)=S[0](1,0)=S[0](1,2)=S[0](2,1)=h; S[1](0,1)=S[1](1,2)=C(0,-h); S[1](1,0)=S[1](2,1)=C(0,h); S[2](0,0)=1; S[2](2,2)=-1; L T[3][3]; T[1][1]=p[3]; T[2][2]=p[4]; T[0][0]=-p[3]-p[4]; T[0][1]=T[1][0]=p[5]; T[0][2]=T[2][0]=p[6]; T[1][2]=T[2][1]=p[7]; for(int i=0;i<3;++i) R=la::add(R,S[i],1.5L*p[i]); for(int i=0;i<3;++i) for(int j=0;j<3;++j){ R=la::add(R,la::add(la::mul(S[i],S[j]),la::mul(S[j],S[i])),sqrtl(1.5L)*T[i][j]); } } return R; }
struct Setup { EventType t; MinuitParameterSet mps; std::unique_ptr<PolarisedSum> S; std::vector<std::string> names; std::vector<MinuitParameter*> pol,shape,coup; MinuitParameter* frac=nullptr; unsigned d1,d2; std::vector<std::vector<Expression>> E; std::string d;
  std::vector<double> P() const { std::vector<double> o; for(auto p: pol) o.push_back(p->mean()); return o; }
  std::vector<std::vector<C>> amp(const Event& e) const { Interp in; for(auto& q: mps) in.v[q->name()]=q->mean(); setEvent(in,t,e); std::vector<std::vector<C>> o; for(auto& x: E){ o.push_back({}); for(auto& y: x) o.back().push_back(in(y)); } return o; }
  std::vector<C> g() const { std::vector<C> o; for(size_t i=0;i<E.size();++i){ auto z=(*S)[i].coupling(); o.push_back(C(z.real(),z.imag())); } return o; }
  // |T|^2 averaged with the density matrices, for the amplitudes of one event; sc bounds the size of the terms
  C form(const std::vector<std::vector<C>>& A,size_t i,size_t j) const { la::M R=rho(d1,P()); C z=0; for(unsigned f=0;f<d2;++f){ L w=frac? (f==0? frac->mean(): 1-frac->mean()): 1; for(unsigned m=0;m<d1;++m) for(unsigned n=0;n<d1;++n) z+=w*R(n,m)*A[i][m*d2+f]*std::conj(A[j][n*d2+f]); } return z; }
  L prob(const std::vector<std::vector<C>>& A,const std::vector<C>& G,L& sc) const { C z=0; sc=0; L mx=0; la::M R=rho(d1,P()); for(auto& x: R.a) mx=std::max(mx,std::abs(x)); for(size_t i=0;i<G.size();++i) for(size_t j=0;j<G.size();++j) z+=G[i]*std::conj(G[j])*form(A,i,j); for(unsigned k=0;k<d1*d2;++k){ L s=0; for(size_t i=0;i<G.size();++i) s+=std::abs(G[i]*A[i][k]); sc+=s*s; } sc*=mx*d1; return z.real(); } };
static bool build(Setup& u,int which,bool polPar=true){ auto& r=vf::rng(); const Model& M=MODELS[which]; u.t=EventType(M.type); u.d=vf::fmt("model %d ",which)+vf::vstr(M.rules); vf::begin_case(u.d); opt(std::string("Particle::SpinBasis ")+(which==2? "Weyl": "Dirac")); opt(std::string("PolarisedSum::SpaceType ")+(M.flavour? "flavour": "spin")); for(auto& s: M.rules){ u.coup.push_back(u.mps.add(s+"_Re",Flag::Free,r.uni(-2,2),0.1)); u.coup.push_back(u.mps.add(s+"_Im",Flag::Free,r.uni(-2,2),0.1)); } for(std::string n: {"rho(770)0_mass","rho(770)+_mass","rho(770)-_width","K*(892)bar0_mass","K*(892)0_width","Lambda(1520)0_mass","Delta(1232)++_width","K*(892)bar-_mass"}){ auto p=ParticlePropertiesList::get(n.substr(0,n.rfind('_'))); u.shape.push_back(u.mps.add(n,Flag::Free,n.find("width")!=std::string::npos? p->width(): p->mass(),0.01)); } if(M.frac) u.frac=u.mps.add("polFrac",Flag::Free,r.uni(0,1),0.1); auto ms=M.flavour? std::vector<int>{0,0}: states(M.type[0]); u.d1=ms.size(); if(u.d1==2||u.d1==3){ for(auto n: u.d1==2? std::vector<std::string>{"Px","Py","Pz"}: std::vector<std::string>{"Px","Py","Pz","Tyy","Tzz","Txy","Txz","Tyz"}){ if(polPar) u.mps.add(n,Flag::Free,r.uni(-0.4,0.4),0.1); u.names.push_back(n); } }
  std::string out=quiet([&]{ u.S.reset(new PolarisedSum(u.t,u.mps)); }); u.d2=1; for(size_t k=1;k<M.type.size();++k) u.d2*=states(M.type[k]).size(); if(M.flavour) u.d2=1; for(auto& n: u.names){ auto p=u.mps.find(n); if(!EXPECT(p!=nullptr,"build.polarisation",u.d+": no parameter "+n)) return false; u.pol.push_back(p); }
  size_t n=u.S->size()/(u.d1*u.d2); if(!EXPECT(n==M.rules.size()&&u.S->size()==n*u.d1*u.d2,"build.size",u.d+vf::fmt(": %zu",u.S->size())+out.substr(0,200))) return false; std::map<std::string,int> seen; auto me=u.S->matrixElements(); for(size_t i=0;i<n;++i){ ++seen[dk::canonical(dk::read(me[i].decayDescriptor()))]; if(!EXPECT(me[i].isReady(),"build.ready",u.d+": "+me[i].decayDescriptor()+" "+out.substr(0,1500))) return false; u.E.push_back({}); Particle p=me[i].decayTree; quiet([&]{ if(M.flavour){ bool bar=p.name()==EventType(M.type).conj(true).mother(); Expression e=p.getExpression(); u.E.back()={bar? Expression(0): e,bar? e: Expression(0)}; } else { std::vector<std::vector<int>> fin={{}}; for(size_t k=1;k<M.type.size();++k){ std::vector<std::vector<int>> next; for(auto& f: fin) for(auto m: states(M.type[k])){ auto g=f; g.push_back(m); next.push_back(g); } fin=next; } for(auto m: ms) for(auto& f: fin){ std::vector<int> v={m}; v.insert(v.end(),f.begin(),f.end()); u.E.back().push_back(p.getExpression(nullptr,v)); } } }); } for(auto& s: M.rules) EXPECT(seen[dk::canonical(dk::read(s))]==1,"build.amplitude",u.d+": "+s); return true; }
static void sums(int which){ auto& r=vf::rng(); auto big=[&](int q,int t){ return which==6? q: vf::scale(q,t); }; Setup u; if(!build(u,which,r.coin(0.8))) return; auto& S=*u.S; auto yield=u.mps.add("yield",Flag::Free,0.8,0.1); bool weighted=r.coin(0.7); if(weighted) S.setWeight(MinuitProxy(yield)); TRandom3 rnd(r.next()%100000); std::string d=u.d; size_t n=u.E.size();
  std::vector<Sample> keep; keep.reserve(64); Sample *data=nullptr,*mc=nullptr; auto fresh=[&](int lo,int hi){ keep.push_back(mkSample(u.t,rnd,r.range(lo,hi),r.coin(0.7))); return &keep.back(); }; auto reset=[&](bool dt){ bool viaPlain=r.coin(0.3); if(dt){ data=fresh(data? 1: 5,big(17,40)); quiet([&]{ if(viaPlain) S.setEvents(data->plain); else S.setEvents(*data->l); }); } else { mc=fresh(2,big(25,50)); quiet([&]{ S.setMC(*mc->l); }); } };
  if(r.coin()){ reset(true); reset(false); } else { reset(false); reset(true); } std::string hist="set"; int steps=big(8,20); for(int step=0;step<steps;++step){ if(step){ int k=r.range(0,7); if(k==0){ reset(true); hist+=" events"; } else if(k==1){ reset(false); hist+=" mc"; } else if(k==2){ r.pick(u.coup)->setCurrentFitVal(r.uni(-2,2)); hist+=" coupling"; } else if(k==3){ auto p=r.pick(u.shape); p->setCurrentFitVal(p->mean()*r.uni(0.95,1.05)); hist+=" "+p->name(); } else if(k==4||k==5){ if(u.pol.size()){ auto p=r.pick(u.pol); p->setCurrentFitVal(r.uni(-0.5,0.5)); hist+=" "+p->name(); } if(u.frac&&r.coin()){ u.frac->setCurrentFitVal(r.uni(0,1)); hist+=" polFrac"; } } else if(k==6){ yield->setCurrentFitVal(r.uni(0.2,2)); hist+=" yield"; } else { quiet([&]{ S.reset(); }); hist+=" reset"; } }
    quiet([&]{ S.prepare(); if(r.coin(0.3)) S.prepare(); }); std::string dd=d+" after "+hist; vf::begin_case(dd); vf::distinct(dd); double y=weighted? yield->mean(): 1; auto G=u.g();
    L w0=0,direct=0,scN=0; std::vector<std::vector<C>> N(n,std::vector<C>(n)); std::vector<L> diag(n); for(size_t e=0;e<mc->plain.size();++e){ Event ev=mc->plain[e]; auto A=u.amp(ev); L w=L(ev.weight())/ev.genPdf(); w0+=w; L sc; direct+=w*u.prob(A,G,sc); scN+=w*sc; for(size_t i=0;i<n;++i){ for(size_t j=0;j<n;++j) N[i][j]+=w*u.form(A,i,j); for(auto& z: A[i]) diag[i]+=w*std::norm(z); } } direct/=w0; scN/=w0; for(auto& v: N) for(auto& z: v) z/=w0; for(auto& v: diag) v/=w0; for(size_t i=0;i<n;++i) for(size_t j=i;j<n;++j){ auto z=S.norm(i,j); EXPECT(std::abs(C(z.real(),z.imag())-N[i][j])<=1e-7L*6*std::sqrt(diag[i]*diag[j]),"sums.bilinear",dd+vf::fmt(": <%zu|%zu> is (%.9g,%.9g), expected (%.9Lg,%.9Lg)",i,j,z.real(),z.imag(),N[i][j].real(),N[i][j].imag())); } EXPECT(std::abs(S.norm()-direct)<=1e-7L*scN,"sums.norm",dd+vf::fmt(": norm %.12g, expected %.12Lg over %zu events",S.norm(),direct,mc->plain.size())); vf::count("norms"); double nrm=S.norm();
    std::function<double(const Event&)> ev1; KeyedFunctors<double(Event)> comp,compMC; bool full=step%3==0; if(full) quiet([&]{ ev1=S.evaluator(data->l.get()); comp=S.componentEvaluator(data->l.get()); compMC=S.componentEvaluator(); }); L ll=0; bool llok=true;
    auto components=[&](KeyedFunctors<double(Event)>& c,const Event& ev,const std::vector<std::vector<C>>& A,L sc){ auto cs=c(ev); size_t k=0; if(EXPECT(cs.size()==n*(n+1)/2,"sums.components",dd)) for(size_t i=0;i<n;++i) for(size_t j=i;j<n;++j,++k){ L w=(i==j? 1: 2)*(G[i]*std::conj(G[j])*u.form(A,i,j)).real(); EXPECT(std::abs(cs[k]-w)<=1e-7L*sc,"sums.components",dd+" "+c.keys[k]+vf::fmt(": %.9g, expected %.9Lg",cs[k],w)); } };
    for(size_t e=0;e<data->plain.size();++e){ vf::eval(); Event ev=data->plain[e]; ev.setIndex(e); auto A=u.amp(ev); L sc; L q=u.prob(A,G,sc); L p=y*q/nrm,pt=1e-7L*y*sc/nrm; EXPECT(std::abs(S(ev)-p)<=pt,"sums.probability",dd+vf::fmt(": event %zu of %zu has probability %.12g, expected %.12Lg",e,data->plain.size(),S(ev),p)); EXPECT(std::abs(laneR(S((const real_v*)nullptr,unsigned(e/W)),e%unsigned(W))-p)<=pt,"sums.block",dd); EXPECT(std::abs(S.getValNoCache(ev)-q)<=1e-7L*sc,"sums.nocache",dd+vf::fmt(": %.12g, expected %.12Lg",S.getValNoCache(ev),q)); if(full){ EXPECT(std::abs(ev1(ev)-p)<=pt,"sums.evaluator",dd); components(comp,ev,A,sc); vf::count("evaluators"); } ll+=ev.weight()*std::log(p); llok=llok&&q>1e-3L*sc&&p>0; vf::count("probabilities"); }
    if(full) for(size_t e=0;e<std::min<size_t>(5,mc->plain.size());++e){ Event ev=mc->plain[e]; ev.setIndex(e); auto A=u.amp(ev); L sc; u.prob(A,G,sc); components(compMC,ev,A,sc); }
    if(llok&&step%2==0){ double v=0; quiet([&]{ auto P=make_likelihood(*data->l,S); v=P.getVal(); }); EXPECT(std::abs(v+2*ll)<=1e-5L*(1+std::abs(ll)+data->plain.size()),"likelihood",dd+vf::fmt(": -2 log L is %.12g, expected %.12Lg, %zu events",v,-2*ll,data->plain.size())); vf::count("likelihoods"); }
    if(full){ std::vector<FitFraction> ff; quiet([&]{ ff=S.fitFractions(LinearErrorPropagator(u.mps)); }); std::map<std::string,double> by; for(auto& f: ff) by[f.name()]=f.val(); for(auto& head: std::vector<std::string>{MODELS[which].type[0],u.t.conj(true).mother()}){ L den=0,sum=0; std::vector<size_t> ix; for(size_t i=0;i<n;++i) if(S[i].decayTree.name()==head) ix.push_back(i); if(ix.size()<2) continue; C z=0; L mag=0; for(auto i: ix) for(auto j: ix){ z+=G[i]*std::conj(G[j])*N[i][j]; mag+=std::abs(G[i]*G[j]*N[i][j]); } den=z.real(); if(den<1e-3L*mag) continue; for(auto i: ix){ L w=std::norm(G[i])*N[i][i].real()/den; sum+=w; std::string nm; for(auto& q: S[i].coupling) nm=q.name(); if(EXPECT(by.count(nm),"fractions.missing",dd+": "+nm)) EXPECT(std::abs(by[nm]-w)<=1e-6L*mag/den,"fractions.value",dd+": "+nm+vf::fmt(" %.9g, expected %.9Lg",by[nm],w)); vf::count("fractions"); } std::string sn="Sum_"+head; if(EXPECT(by.count(sn),"fractions.missing",dd+": "+sn)) EXPECT(std::abs(by[sn]-sum)<=1e-6L*mag/den,"fractions.sum",dd); } quiet([&]{ S.prepare(); }); EXPECT(std::abs(S.norm()-nrm)<=1e-12*std::abs(nrm),"fractions.restores",dd); } }
  for(auto& k: keep){ bool ok=true; for(size_t e=0;e<k.plain.size();++e) ok=ok&&k.plain[e].weight()>0; EXPECT(ok&&k.l->size()==k.plain.size(),"sums.samples",d+": a sample of the caller was changed"); } vf::sample(d+" history: "+hist); vf::require("probabilities",15); }
// ---- rotating an event together with the polarisation of the decaying particle changes nothing
static void rotations(int which){ auto& r=vf::rng(); Setup u; int times=which==6? 12: vf::scale(12,60); if(!build(u,which)) return; auto& S=*u.S; TRandom3 rnd(r.next()%100000); for(int k=0;k<times;++k){ L ax[3]; L n=0; for(auto& x: ax){ x=r.uni(-1,1); n+=x*x; } n=sqrtl(n); if(n<0.05L) continue; for(auto& x: ax) x/=n; L th=k%4==0? M_PI/2*(k/4+1): r.uni(0,6.2); if(k%4==0){ ax[0]=ax[1]=ax[2]=0; ax[(k/4)%3]=1; } L R[3][3]; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ R[i][j]=(i==j? cosl(th): 0)+(1-cosl(th))*ax[i]*ax[j]; } R[0][1]-=sinl(th)*ax[2]; R[1][0]+=sinl(th)*ax[2]; R[0][2]+=sinl(th)*ax[1]; R[2][0]-=sinl(th)*ax[1]; R[1][2]-=sinl(th)*ax[0]; R[2][1]+=sinl(th)*ax[0];
    Event e=mkEvent(u.t,rnd),f=e; size_t np=u.t.size(); for(size_t q=0;q<np;++q) for(int i=0;i<3;++i){ L x=0; for(int j=0;j<3;++j) x+=R[i][j]*e[4*q+j]; f.set(4*q+i,x); } std::vector<double> P; for(auto p: u.pol){ p->setCurrentFitVal(r.uni(-0.5,0.5)); P.push_back(p->mean()); } if(u.frac) u.frac->setCurrentFitVal(r.uni(0,1)); quiet([&]{ S.transferParameters(); }); double a=S.getValNoCache(e); std::vector<double> Q=P; if(P.size()>=3) for(int i=0;i<3;++i){ L x=0; for(int j=0;j<3;++j) x+=R[i][j]*P[j]; Q[i]=x; } if(P.size()==8){ L T[3][3],U[3][3]; T[1][1]=P[3]; T[2][2]=P[4]; T[0][0]=-P[3]-P[4]; T[0][1]=T[1][0]=P[5]; T[0][2]=T[2][0]=P[6]; T[1][2]=T[2][1]=P[7]; for(int i=0;i<3;++i) for(int j=0;j<3;++j){ U[i][j]=0; for(int l=0;l<3;++l) for(int m=0;m<3;++m) U[i][j]+=R[i][l]*R[j][m]*T[l][m]; } Q[3]=U[1][1]; Q[4]=U[2][2]; Q[5]=U[0][1]; Q[6]=U[0][2]; Q[7]=U[1][2]; } for(size_t i=0;i<Q.size();++i) u.pol[i]->setCurrentFitVal(Q[i]); quiet([&]{ S.transferParameters(); }); double b=S.getValNoCache(f); auto A=u.amp(e); L sc; u.prob(A,u.g(),sc); vf::eval(); std::string dd=u.d+vf::fmt(" rotated by %.3Lg about (%.3Lg,%.3Lg,%.3Lg), polarisation ",th,ax[0],ax[1],ax[2])+vf::vstr(P); vf::begin_case(dd); vf::distinct(dd); EXPECT(std::abs(a-b)<=1e-6L*sc,"rotation",dd+vf::fmt(": %.12g becomes %.12g (size %.3Lg)",a,b,sc)); // without polarisation
    if(a!=0) vf::count("rotations"); if(!u.pol.empty()&&u.pol.size()<8){ L len=0; for(int i=0;i<3;++i) len+=L(P[i])*P[i]; if(len<1) EXPECT(a>=-1e-9L*sc,"positive",dd+vf::fmt(": %.9g",a)); } }
  vf::sample(u.d); vf::require("rotations",5); }
// ---- the library generated from a model computes what the model computes
typedef std::vector<std::complex<double>> CV;
struct Lib { void* h=nullptr; std::string err; Lib(const std::string& f){ h=dlopen(f.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ auto e=dlerror(); err=e? e: "?"; } } template <class F> F* get(const std::string& n){ return h? reinterpret_cast<F*>(dlsym(h,n.c_str())): nullptr; } };
static std::string meta(Lib& l,const std::string& n){ auto f=l.get<const char*()>(n); return f? f(): "(none)"; }
static int SEQ=0;
static void sourcePolarised(int which){ auto& r=vf::rng(); Setup u; if(!build(u,which)) return; auto& S=*u.S; TRandom3 rnd(r.next()%100000); size_t n=u.E.size(); for(int k=0;k<vf::scale(2,5);++k){ if(k||r.coin()) quiet([&]{ S.transferParameters(); }); for(auto& p: u.coup) p->setCurrentFitVal(r.uni(-2,2)); for(auto& p: u.pol) p->setCurrentFitVal(r.uni(-0.5,0.5)); if(u.frac) u.frac->setCurrentFitVal(r.uni(0,1)); auto sh=r.pick(u.shape); sh->setCurrentFitVal(sh->mean()*r.uni(0.95,1.05)); double norm=r.coin()? 1: r.uni(0.2,5); std::string f=vf::scratch()+vf::fmt("/p%d_%d",getpid(),SEQ++); std::string dd=u.d+vf::fmt(" library %d, normalised by %g",k,norm); vf::begin_case(dd); vf::distinct(dd); std::string out=quiet([&]{ S.generateSourceCode(f+".cpp",norm); }); Lib l(f+".so"); if(!EXPECT(l.h,"source.library",dd+": "+l.err+out.substr(0,400))) return; auto fcn=l.get<double(const double*,const int&)>("FCN"); auto ext=l.get<double(const double*,const int&,const double&,const double&,const double&)>("FCN_extPol"); auto all=l.get<CV(const double*)>("all_amplitudes_wParams"); auto py=l.get<void(const double*,const int&,double*)>("FCN__py"); auto apy=l.get<void(const double*,double*)>("all_amplitudes__py"); if(!EXPECT(fcn&&all&&py&&apy&&(!!ext==(u.d1>1)),"source.functions",dd)) return; EXPECT(meta(l,"EventType")==u.t.constructor_string(),"source.type",dd+": "+meta(l,"EventType")); std::string names; for(size_t i=0;i<n;++i) names+=(i? "\n": "")+S[i].name(); EXPECT(meta(l,"MatrixElements")==names,"source.names",dd+": "+meta(l,"MatrixElements"));
    auto G=u.g(); std::vector<double> keep=u.P(); for(int e=0;e<vf::scale(8,40);++e){ vf::eval(); Event ev=mkEvent(u.t,rnd); auto A=u.amp(ev); L sc; L q=u.prob(A,G,sc); double v=fcn(ev.address(),1); EXPECT(std::abs(v*norm-q)<=1e-7L*sc,"source.fcn",dd+vf::fmt(": FCN %.12g, expected %.12Lg",v,q/norm)); double pv=0; py(ev.address(),1,&pv); EXPECT(pv==v,"source.python",dd); auto a=all(ev.address()); CV b(a.size()); apy(ev.address(),reinterpret_cast<double*>(b.data())); EXPECT(a==b||a.empty(),"source.python",dd); if(EXPECT(a.size()==n*u.d1*u.d2,"source.amplitudes",dd+vf::fmt(": %zu amplitudes",a.size()))) for(size_t i=0;i<n;++i) for(size_t j=0;j<u.d1*u.d2;++j){ L mx=0; for(auto& z: A[i]) mx=std::max(mx,std::abs(z)); EXPECT(std::abs(C(a[i*u.d1*u.d2+j].real(),a[i*u.d1*u.d2+j].imag())-A[i][j])<=1e-7L*mx,"source.amplitude",dd+": "+S[i].decayDescriptor()+vf::fmt(" component %zu",j)); } if(ext){ double x=r.uni(-0.5,0.5),y=r.uni(-0.5,0.5),z=r.uni(-0.5,0.5); double w=ext(ev.address(),1,x,y,z); u.pol[0]->setCurrentFitVal(x); u.pol[1]->setCurrentFitVal(y); u.pol[2]->setCurrentFitVal(z); L q2=u.prob(A,G,sc); for(int i=0;i<3;++i) u.pol[i]->setCurrentFitVal(keep[i]); EXPECT(std::abs(w*norm-q2)<=1e-7L*sc,"source.extPol",dd+vf::fmt(": FCN_extPol(%g,%g,%g) %.12g, expected %.12Lg",x,y,z,w,q2/norm)); } vf::count("library"); } if(l.h) dlclose(l.h); }
  vf::require("library",5); }
static void sourceCoherent(int which){ auto& r=vf::rng(); static const std::vector<Model> CM={{{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K(0)*(1430)bar0[LASS]{K-,pi+},pi0}"},false,false},{{"D0","K-","pi+","pi+","pi-"},{"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}"},false,false}}; const Model& M=CM[which]; EventType t(M.type); MinuitParameterSet mps; std::vector<MinuitParameter*> coup,shape; for(auto& s: M.rules){ coup.push_back(mps.add(s+"_Re",Flag::Free,r.uni(-2,2),0.1)); coup.push_back(mps.add(s+"_Im",Flag::Free,r.uni(-2,2),0.1)); } for(std::string n: {"rho(770)0","rho(770)+","K*(892)bar0","a(1)(1260)+"}) shape.push_back(mps.add(n+"_mass",Flag::Free,ParticlePropertiesList::get(n)->mass(),0.01)); std::unique_ptr<CoherentSum> S; quiet([&]{ S.reset(new CoherentSum(t,mps)); }); size_t n=S->size(); std::string d=vf::vstr(M.rules); if(!EXPECT(n==M.rules.size(),"source.size",d)) return; std::vector<Expression> E; std::vector<int> par; for(size_t i=0;i<n;++i){ E.push_back((*S)[i].expression()); par.push_back((*S)[i].decayTree.finalStateParity()); } TRandom3 rnd(r.next()%100000);
  for(int k=0;k<vf::scale(2,5);++k){ for(auto& p: coup) p->setCurrentFitVal(r.uni(-2,2)); auto sh=r.pick(shape); sh->setCurrentFitVal(sh->mean()*r.uni(0.95,1.05)); double norm=r.coin()? 1: r.uni(0.2,5); std::string f=vf::scratch()+vf::fmt("/c%d_%d",getpid(),SEQ++); std::string dd=d+vf::fmt(" library %d, normalised by %g",k,norm); vf::begin_case(dd); vf::distinct(dd); std::string out=quiet([&]{ S->generateSourceCode(f+".cpp",norm,k%2); }); Lib l(f+".so"); if(!EXPECT(l.h,"source.library",dd+": "+l.err+out.substr(0,400))) return; auto fcn=l.get<double(const double*,const int&)>("FCN"); auto amp=l.get<std::complex<double>(const double*,const int&)>("AMP"); auto all=l.get<CV(const double*)>("all_amplitudes_wParams"); if(!EXPECT(fcn&&all&&amp,"source.functions",dd)) return; EXPECT(meta(l,"EventType")==t.constructor_string(),"source.type",dd); std::string names; for(size_t i=0;i<n;++i) names+=(i? "\n": "")+(*S)[i].name(); EXPECT(meta(l,"MatrixElements")==names,"source.names",dd); for(int e=0;e<vf::scale(10,40);++e){ vf::eval(); Event ev=mkEvent(t,rnd); Interp in; for(auto& q: mps) in.v[q->name()]=q->mean(); setEvent(in,t,ev); std::vector<C> A; for(auto& x: E) A.push_back(in(x)); auto a=all(ev.address()); if(EXPECT(a.size()==n,"source.amplitudes",dd)) for(size_t i=0;i<n;++i) EXPECT(std::abs(C(a[i].real(),a[i].imag())-A[i])<=1e-7L*std::abs(A[i])+1e-13L,"source.amplitude",dd+": "+(*S)[i].decayDescriptor()); for(int sign: {1,-1}){ C z=0; L sc=0; for(size_t i=0;i<n;++i){ auto g=(*S)[i].coupling(); C x=C(g.real(),g.imag())*A[i]; z+=L(par[i]==1? 1: sign)*x; sc+=std::abs(x); } auto v=amp(ev.address(),sign); EXPECT(std::abs(C(v.real(),v.imag())-z)<=1e-7L*sc,"source.amp",dd+vf::fmt(": AMP(%d) (%.9g,%.9g), expected (%.9Lg,%.9Lg)",sign,v.real(),v.imag(),z.real(),z.imag())); double q=fcn(ev.address(),sign); EXPECT(std::abs(q*norm-std::norm(z))<=1e-7L*sc*sc,"source.fcn",dd+vf::fmt(": FCN(%d) %.9g, expected %.9Lg",sign,q,std::norm(z)/norm)); } for(size_t i=0;i<n;++i){ auto one=l.get<std::complex<double>(const double*)>(programatic_name((*S)[i].decayDescriptor()+"_wParams")); if(EXPECT(one!=nullptr,"source.functions",dd+": "+(*S)[i].decayDescriptor())) EXPECT(std::abs(one(ev.address())-a[i])<=1e-12*std::abs(a[i]),"source.single",dd); } vf::count("library"); } dlclose(l.h); }
  vf::require("library",5); }
void harness(){
  for(int i: {0,2,4,7,3}) vf::section(vf::fmt("source%d",i),[i]{ sourcePolarised(i); },400); for(int i=0;i<2;++i) vf::section(vf::fmt("sourceC%d",i),[i]{ sourceCoherent(i); },400);
  for(int i: {0,2,6,7,1}) vf::section(vf::fmt("rotations%d",i),[i]{ rotations(i); },400);
  for(int i=0;i<int(MODELS.size());++i) vf::section(vf::fmt("sums%d",i),[i]{ sums(i); },400);
}
