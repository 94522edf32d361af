// C31: fits - what is minimised, what the parameters hold afterwards, what is written and read back
#include "vf.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventType.h"
#include "AmpGen/ExtendLikelihoodBase.h"
#include "AmpGen/Factory.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/FitResult.h"
#include "AmpGen/Minimiser.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MsgService.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/SimPDF.h"
#include "AmpGen/KeyedFunctors.h"
#include <Minuit2/Minuit2Minimizer.h>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
using namespace AmpGen;
typedef long double L; typedef std::vector<double> V; typedef std::complex<L> C;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }
static std::string num(double x){ return vf::fmt("%.17g",x); }
static bool same(double a,double b,double t){ return a==b||std::abs(a-b)<=t*std::max(std::abs(a),std::abs(b)); }

// ---------------------------------------------------------------- terms
static void gaussian(){ auto& r=vf::rng(); std::vector<std::string> known; for(auto& n: ParticlePropertiesList::getMe()->getParticleNames()){ if(n.find('_')!=std::string::npos) continue; auto p=ParticlePropertiesList::get(n,true); if(p&&p->mErrPlus()>0&&p->wErrPlus()>0) known.push_back(n); }
  vf::count("particles",known.size()); 
  for(int c=0;c<vf::scale(3000,30000);++c){ MinuitParameterSet mps; int n=r.range(1,5); std::vector<std::string> nm; std::vector<MinuitParameter*> ps; for(int i=0;i<n;++i){ std::string s= r.coin(0.4)? r.pick(known)+(r.coin()? "_mass":"_width"): vf::fmt("par%d",i); if(mps.find(s)) s=vf::fmt("q%d",i); nm.push_back(s); ps.push_back(mps.add(s,r.coin(0.2)? Flag::Fix: Flag::Free,r.gauss()*std::pow(10.,r.range(-3,3)),0.1)); }
    int k=r.range(1,4); struct T { ExtendLikelihoodBase* t; int i; double m,s; std::string cfg; }; std::vector<T> ts; std::string d=vf::fmt("case %d:",c);
    for(int q=0;q<k;++q){ T t; t.i=r.range(0,n-1); bool pdg= (nm[t.i].find("_mass")!=std::string::npos||nm[t.i].find("_width")!=std::string::npos)&&r.coin(0.7); if(pdg){ auto us=nm[t.i].rfind('_'); auto p=ParticlePropertiesList::get(nm[t.i].substr(0,us)); bool mass=nm[t.i].substr(us+1)=="mass"; t.m= mass? p->mass(): p->width(); t.s= mass? p->mErrPlus(): p->wErrPlus(); t.cfg="GaussianConstraint "+nm[t.i]+" PDG"; } else { t.m=r.gauss()*std::pow(10.,r.range(-3,3)); t.s=std::pow(10.,r.uni(-3,3)); std::string sep= r.coin(0.3)? "  ": " "; t.cfg="GaussianConstraint"+sep+nm[t.i]+sep+num(t.m)+sep+num(t.s); } vf::count(pdg? "pdg": "explicit");
      t.t= r.coin()? Factory<ExtendLikelihoodBase>::get("GaussianConstraint"): new GaussianConstraint(); d+=" "+t.cfg; vf::begin_case(d); if(!EXPECT(t.t!=nullptr,"gaussian.factory",d)) return; t.t->configure(t.cfg,mps); ts.push_back(t); }
    vf::distinct(d); vf::eval(); for(int turn=0;turn<3;++turn){ for(auto& t: ts){ L z=(L(ps[t.i]->mean())-t.m)/t.s, w=-z*z/2; double v=(*t.t)(); EXPECT(std::abs(v-w)<=1e-11L*std::abs(w)+1e-12L*(std::abs(L(ps[t.i]->mean()))+std::abs(L(t.m)))/t.s*std::abs(z)+1e-300L,"gaussian.value",d+vf::fmt(" at %.12g: %.12g, expected %.12Lg",ps[t.i]->mean(),v,w)); EXPECT(v<=0,"gaussian.sign",d); vf::count("values"); } for(auto& p: ps) if(r.coin()) p->setCurrentFitVal(r.gauss()*std::pow(10.,r.range(-3,3))); if(turn==1){ auto& t=ts[0]; ps[t.i]->setCurrentFitVal(t.m); EXPECT((*t.t)()==0,"gaussian.centre",d); } }
    if(c<2) vf::sample(d); for(auto& t: ts) delete t.t; }
  // unusable configurations are reported, and a term that is returned as usable has a number
  static const std::vector<std::string> bad={"GaussianConstraint","GaussianConstraint par0","GaussianConstraint missing 1 0.1","GaussianConstraint par0 PDG","GaussianConstraint rho(770)0_radius PDG","GaussianConstraint nosuch_mass PDG","GaussianConstraint par0 other","GaussianConstraint par0 1 2 3 4"}; for(auto& b: bad){ vf::begin_case(b); vf::eval(); vf::distinct(b); std::string out; int rc=vf::in_child([&]{ MinuitParameterSet mps; mps.add("par0",Flag::Free,0.5,0.1); mps.add("rho(770)0_radius",Flag::Free,3,0.1); mps.add("nosuch_mass",Flag::Free,1,0.1); GaussianConstraint g; try { g.configure(b,mps); volatile double x=g(); (void)x; } catch(const std::exception& e){ std::cout<<"REPORTED "<<e.what()<<std::endl; } },&out,30); EXPECT(rc==0&&(out.find("ERROR")!=std::string::npos||out.find("FATAL")!=std::string::npos||out.find("REPORTED")!=std::string::npos),"gaussian.reported",b+": "+out.substr(0,300)); vf::count("bad"); }
  vf::require("pdg",100); vf::require("explicit",1000); vf::require("particles",50); }

struct Sam { EventList ev; };
static void widths(int which){ auto& r=vf::rng(); static const std::vector<std::pair<std::vector<std::string>,std::vector<std::string>>> M={{{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}","D0{K(0)*(1430)bar0[LASS]{K-,pi+},pi0}"}},{{"D0","pi+","pi-","pi0"},{"D0{rho(770)0{pi+,pi-},pi0}","D0{rho(770)+{pi+,pi0},pi-}","D0{rho(770)-{pi-,pi0},pi+}"}}}; auto& m=M[which]; EventType t(m.first);
  for(int c=0;c<vf::scale(1,4);++c){ MinuitParameterSet mps; std::vector<MinuitParameter*> cp; for(auto& s: m.second){ cp.push_back(mps.add(s+"_Re",Flag::Free,r.uni(-2,2),0.1)); cp.push_back(mps.add(s+"_Im",Flag::Free,r.uni(-2,2),0.1)); } TRandom3 rnd(r.next()%100000); std::unique_ptr<CoherentSum> S; quiet([&]{ S.reset(new CoherentSum(t,mps)); }); size_t n=S->size(); std::string d=vf::vstr(m.second); vf::begin_case(d); if(!EXPECT(n==m.second.size(),"widths.size",d)) return; EventList mc(t),data(t); { PhaseSpace ps(t,&rnd); for(int i=0;i<300;++i){ auto e=ps.makeEvent(); e.setWeight(r.uni(0.3,2)); e.setGenPdf(r.uni(0.3,2)); mc.push_back(e); } for(int i=0;i<40;++i) data.push_back(ps.makeEvent()); } quiet([&]{ S->setEvents(data); S->setMC(mc); S->prepare(); });
    // the lower half of the matrix of integrals is the conjugate of the upper one
    auto N=[&](size_t i,size_t j){ auto z= i<=j? S->norm(i,j): std::conj(S->norm(j,i)); return C(z.real(),z.imag()); }; double lam=r.uni(-3,3); LASSO la(S.get()); la.configure("LASSO "+num(lam),mps);
    struct W { std::unique_ptr<PartialWidthConstraint> p; std::vector<size_t> a,b; double w,rt; std::string d; }; std::vector<W> ws; for(int q=0;q<vf::scale(12,40);++q){ W w; auto pick=[&](std::vector<size_t>& v){ for(size_t i=0;i<n;++i) if(r.coin()) v.push_back(i); if(v.empty()) v.push_back(r.range(0,n-1)); r.shuffle(v); }; pick(w.a); pick(w.b); w.w=r.uni(-5,5); w.rt=r.uni(0,2); std::string nm=vf::fmt("pw%d_%d_%d",which,c,q), A=nm+"_numChannels",B=nm+"_denChannels"; for(auto i: w.a) A+=" "+(*S)[i].decayDescriptor(); for(auto i: w.b) B+=" "+(*S)[i].decayDescriptor(); quiet([&]{ OptionsParser::setArg(A); OptionsParser::setArg(B); }); w.d=A+" / "+B; w.p.reset(new PartialWidthConstraint(S.get())); quiet([&]{ w.p->configure("PartialWidthConstraint "+nm+" "+num(w.w)+" "+num(w.rt),mps); }); ws.push_back(std::move(w)); }
    for(int turn=0;turn<4;++turn){ if(turn){ for(auto& p: cp) p->setCurrentFitVal(r.uni(-2,2)); quiet([&]{ if(r.coin()) S->prepare(); else S->transferParameters(); }); } vf::eval(); auto g=[&](size_t i){ auto z=(*S)[i].coupling(); return C(z.real(),z.imag()); }; L sum=0; for(size_t i=0;i<n;++i) sum+=std::abs(g(i))*std::sqrt(N(i,i).real()); double v=la(); EXPECT(std::abs(v-lam*sum)<=1e-10L*std::abs(lam*sum),"widths.lasso",d+vf::fmt(": %.12g, expected %.12Lg",v,lam*sum));
      for(auto& w: ws){ auto tot=[&](const std::vector<size_t>& x){ C z=0; for(auto i: x) for(auto j: x) z+=g(i)*std::conj(g(j))*N(i,j); return z.real(); }; L q=tot(w.a)/tot(w.b), want=w.w*(q-w.rt)*(q-w.rt); double got; got=(*w.p)(); vf::begin_case(w.d); vf::distinct(w.d); EXPECT(std::abs(got-want)<=1e-8L*(std::abs(want)+std::abs(w.w)*(q*q+w.rt*w.rt)),"widths.ratio",w.d+vf::fmt(": %.12g, expected %.12Lg for a ratio of %.10Lg",got,want,q)); vf::count("ratios"); } } }
  std::string out; int rc=vf::in_child([&]{ MinuitParameterSet mps; auto p=Factory<ExtendLikelihoodBase>::get("PartialWidthConstraint"); try { p->configure("PartialWidthConstraint x 1 1",mps); } catch(const std::exception& e){ std::cout<<"REPORTED"<<std::endl; } },&out,30); EXPECT(rc==0&&out.find("REPORTED")!=std::string::npos,"widths.noamplitude",out.substr(0,300)); vf::require("ratios",30); }

// ---------------------------------------------------------------- fits
struct Quad { std::vector<MinuitParameter*> p; std::vector<std::vector<L>> A; std::vector<L> mu; L c=0; long calls=0; std::vector<std::string>* trace=nullptr;
  double getVal(){ ++calls; L s=c; for(size_t i=0;i<p.size();++i) for(size_t j=0;j<p.size();++j) s+=(p[i]->mean()-mu[i])*A[i][j]*(p[j]->mean()-mu[j]); return s; } };
struct Fit { MinuitParameterSet mps; Quad f; std::vector<Flag> flag; std::vector<int> fl; V start,step,lo,hi; std::vector<std::unique_ptr<ExtendLikelihoodBase>> terms; struct G { int i; double m,s; }; std::vector<G> gs; std::map<int,double> off; std::string d; };
static int g_id=0;
static std::unique_ptr<Fit> makeFit(vf::Rng& r,bool blind){ auto F=std::make_unique<Fit>(); int n=r.range(1,9); std::vector<int> vis; for(int i=0;i<n;++i){ Flag g= r.coin(0.6)? Flag::Free: r.coin(0.5)? Flag::Fix: r.coin(0.5)? Flag::Hide: Flag::CompileTimeConstant; if(blind&&r.coin(0.25)) g=Flag::Blind; double m=r.gauss()*std::pow(10.,r.range(-1,1)), s=r.uni(0.01,0.5); bool lim=r.coin(0.25); double lo=0,hi=0; if(lim){ int k=r.range(0,2); lo= k==0? 0: m-r.uni(5,40); hi= k==1? 0: m+r.uni(5,40); if(k==0&&m<0){ lo=m-r.uni(5,40); hi=0; if(m>hi-0.5) hi=m+8; } if(k==1&&m>0){ hi=m+r.uni(5,40); lo=0; if(lo>m-0.5) lo=m-8; } if(lo>=hi||m<=lo||m>=hi){ lo=m-20; hi=m+20; } } std::string nm=vf::fmt("f%d_p%d",g_id,i)+(r.coin(0.2)? "_Re": ""); F->f.p.push_back(F->mps.add(nm,g,m,s,lo,hi)); F->flag.push_back(g); F->start.push_back(m); F->step.push_back(s); F->lo.push_back(lo); F->hi.push_back(hi); F->d+=" "+nm+":"+to_string<Flag>(g); if(g==Flag::Blind){ double o=r.uni(1,9); F->mps.add(nm+"_blind",Flag::Hide,o,0); F->off[i]=o; } if(g==Flag::Free||g==Flag::Blind) F->fl.push_back(i); }
  ++g_id; std::vector<std::vector<L>> B(n,std::vector<L>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j) B[i][j]= i==j? r.uni(1,3): r.uni(-0.4,0.4); F->f.A.assign(n,std::vector<L>(n)); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ L q=0; for(int k=0;k<n;++k) q+=B[i][k]*B[j][k]; F->f.A[i][j]=q; } for(int i=0;i<n;++i) F->f.mu.push_back(F->start[i]+r.uni(-1,1)); F->f.c=r.uni(-100,100);
  int k=r.range(0,3); for(int q=0;q<k;++q){ int i=r.range(0,n-1); double m=F->start[i]+r.uni(-1,1), s=r.uni(0.2,3); F->terms.emplace_back(new GaussianConstraint()); F->terms.back()->configure("GaussianConstraint "+F->f.p[i]->name()+" "+num(m)+" "+num(s),F->mps); F->gs.push_back({i,m,s}); F->d+=vf::fmt(" +(p%d-%.3g)/%.3g",i,m,s); } return F; }
// minimum and covariance of the quadratic form with the constraints, the parameters that do not float held
struct Want { std::vector<L> x; std::vector<std::vector<L>> cov; };
static Want solve(const Fit& F){ int n=F.fl.size(), N=F.f.p.size(); std::vector<std::vector<L>> A=F.f.A; std::vector<L> b(N); for(int i=0;i<N;++i) for(int j=0;j<N;++j) b[i]+=A[i][j]*F.f.mu[j]; for(auto& g: F.gs){ A[g.i][g.i]+=1/(L(g.s)*g.s); b[g.i]+=L(g.m)/(L(g.s)*g.s); } std::vector<bool> fr(N,false); for(auto i: F.fl) fr[i]=true; std::vector<std::vector<L>> m(n,std::vector<L>(2*n+1)); for(int i=0;i<n;++i){ m[i][2*n]=b[F.fl[i]]; for(int j=0;j<N;++j) if(!fr[j]) m[i][2*n]-=A[F.fl[i]][j]*F.start[j]; for(int j=0;j<n;++j) m[i][j]=A[F.fl[i]][F.fl[j]]; m[i][n+i]=1; } for(int i=0;i<n;++i){ int p=i; for(int k=i;k<n;++k) if(std::abs(m[k][i])>std::abs(m[p][i])) p=k; std::swap(m[i],m[p]); L q=m[i][i]; for(auto& x: m[i]) x/=q; for(int k=0;k<n;++k) if(k!=i){ L t=m[k][i]; for(int z=0;z<=2*n;++z) m[k][z]-=t*m[i][z]; } } Want w; w.cov.assign(n,std::vector<L>(n)); for(int i=0;i<n;++i){ w.x.push_back(m[i][2*n]); for(int j=0;j<n;++j) w.cov[i][j]=m[i][n+j]; } return w; }
static void fits(int part){ auto& r=vf::rng(); for(int c=0;c<vf::scale(250,2500);++c){ auto F=makeFit(r,part==1); auto& f=F->f; int N=f.p.size(), n=F->fl.size(); std::string d=vf::fmt("fit %d:",c)+F->d; vf::begin_case(d); vf::distinct(d); vf::eval(); std::string level= r.pick(std::vector<std::string>{"Quiet","Info","Verbose"}); bool norm=r.coin(0.2), minuit1=r.coin(0.15), minosopt=r.coin(0.15); quiet([&]{ OptionsParser::setArg("Minimiser::PrintLevel "+level); OptionsParser::setArg(std::string("Minimiser::Normalise ")+(norm? "1":"0")); OptionsParser::setArg(std::string("Minimiser::Minimiser ")+(minuit1? "Minuit": "Minuit2")); OptionsParser::setArg(std::string("Minimiser::RunMinos ")+(minosopt? "1":"0")); });
    V full; for(auto q: F->mps) full.push_back(q->mean()); ROOT::Math::Minimizer::made().clear(); std::unique_ptr<Minimiser> mini; quiet([&]{ mini.reset(new Minimiser(f,&F->mps)); for(auto& t: F->terms) mini->addExtendedTerm(t.get()); }); if(!EXPECT(ROOT::Math::Minimizer::made().size()==1,"fit.minimiser",d)) return; auto* m=ROOT::Math::Minimizer::made()[0]; EXPECT(int(mini->nPars())==n,"fit.count",d+vf::fmt(": %d parameters, expected %d",int(mini->nPars()),n)); EXPECT(mini->parSet()==&F->mps,"fit.set",d);
    auto offered=[&](const V& at,const char* when){ if(!EXPECT(int(m->var.size())==n,"fit.offered",d+vf::fmt(" %s: %d variables, expected %d",when,int(m->var.size()),n))) return; for(int k=0;k<n;++k){ int i=F->fl[k]; auto& v=m->var[k]; EXPECT(v.name==f.p[i]->name()&&v.value==at[i]&&v.step==F->step[i],"fit.offered",d+vf::fmt(" %s: variable %d is %s at %.10g step %.6g, expected %s at %.10g step %.6g",when,k,v.name.c_str(),v.value,v.step,f.p[i]->name().c_str(),at[i],F->step[i])); bool lim=F->lo[i]!=0||F->hi[i]!=0; EXPECT(v.lim==lim&&(!lim||(v.lo==F->lo[i]&&v.hi==F->hi[i])),"fit.limits",d+vf::fmt(" %s: %s limited %d to [%.6g,%.6g], expected %d [%.6g,%.6g]",when,v.name.c_str(),int(v.lim),v.lo,v.hi,int(lim),F->lo[i],F->hi[i])); } }; offered(F->start,"before the fit");
    // the function seen by the minimiser
    auto minus2ll=[&](const V& x){ L s=f.c; for(int i=0;i<N;++i) for(int j=0;j<N;++j) s+=(x[i]-f.mu[i])*f.A[i][j]*(x[j]-f.mu[j]); for(auto& g: F->gs){ L z=(x[g.i]-L(g.m))/g.s; s+=z*z; } return s; }; auto probe=[&](L zero,const char* when){ V x=F->start, y; for(int k=0;k<n;++k){ double v=F->start[F->fl[k]]+r.uni(-2,2); x[F->fl[k]]=v; y.push_back(v); } y.push_back(0); double got=(*mini)(y.data()); L w=minus2ll(x)-zero; EXPECT(std::abs(got-w)<=1e-10L*(std::abs(w)+200),"fit.function",d+vf::fmt(" %s: %.12g, expected %.12Lg",when,got,w)); for(int i=0;i<N;++i) EXPECT(f.p[i]->mean()==x[i],"fit.values",d+vf::fmt(" %s: parameter %d is %.12g instead of %.12g",when,i,f.p[i]->mean(),x[i])); vf::count("probes"); }; 
    for(int q=0;q<3;++q) probe(0,"before the fit"); for(int k=0;k<n;++k) f.p[F->fl[k]]->setCurrentFitVal(F->start[F->fl[k]]);
    { // a scan and a gradient leave the parameters as they were
      int i=r.range(0,N-1); double a=F->start[i]-1, st=0.25; std::unique_ptr<TGraph> g; double o= F->off.count(i)? F->off[i]: 0; quiet([&]{ g.reset(mini->scan(f.p[i],a,a+2.1,st)); }); EXPECT(g->GetN()==9,"fit.scan",d+vf::fmt(": %d points",g->GetN())); for(int q=0;q<g->GetN();++q){ V x=F->start; x[i]=g->Y.size()? g->X[q]-o: 0; L w=minus2ll(x); for(auto& z: F->gs){ L u=(x[z.i]-L(z.m))/z.s; w-=u*u; } EXPECT(std::abs(g->X[q]-(a+st*q))<1e-9&&std::abs(g->Y[q]-w)<=1e-10L*(std::abs(w)+200),"fit.scan",d+vf::fmt(": point %d (%.10g,%.12g), expected (%.10g,%.12Lg)",q,g->X[q],g->Y[q],a+st*q,w)); } if(r.coin(0.3)){ std::string out=quiet([&]{ mini->gradientTest(); }); int k=0; for(size_t q=0;(q=out.find("dF/d{",q))!=std::string::npos;++q) ++k; EXPECT(k==n,"fit.gradient",d+": "+out.substr(0,300)); } for(int q=0;q<N;++q) EXPECT(f.p[q]->mean()==F->start[q],"fit.kept",d+vf::fmt(": parameter %d after a scan is %.12g instead of %.12g",q,f.p[q]->mean(),F->start[q])); }
    std::string out=quiet([&]{ mini->doFit(); }); offered(F->start,"at the fit"); if(n==0){ vf::count("nothing.floats"); continue; } auto w=solve(*F); bool inside=true,limited=false; for(int k=0;k<n;++k){ int i=F->fl[k]; limited=limited||m->var[k].lim; if(m->var[k].lim) inside=inside&&w.x[k]>F->lo[i]&&w.x[k]<F->hi[i]; }
    EXPECT(mini->status()==m->Status(),"fit.status",d); EXPECT(mini->NCalls()==m->NCalls(),"fit.calls",d);
    for(int k=0;k<n;++k){ auto p=f.p[F->fl[k]]; EXPECT(p->mean()==m->X()[k]&&p->err()==m->Errors()[k],"fit.result",d+vf::fmt(": %s is %.12g +- %.8g, the minimiser has %.12g +- %.8g",p->name().c_str(),p->mean(),p->err(),m->X()[k],m->Errors()[k])); if(!minosopt) EXPECT(p->errPos()==p->err()&&p->errNeg()==p->err(),"fit.errors",d); if(inside){ EXPECT(std::abs(p->mean()-w.x[k])<=1e-4L*(1+std::abs(w.x[k])),"fit.minimum",d+vf::fmt(": %s at %.10g, expected %.10Lg",p->name().c_str(),p->mean(),w.x[k])); EXPECT(std::abs(p->err()-std::sqrt(w.cov[k][k]))<=1e-3L*std::sqrt(w.cov[k][k]),"fit.uncertainty",d+vf::fmt(": %s +- %.8g, expected %.8Lg",p->name().c_str(),p->err(),std::sqrt(w.cov[k][k]))); if(minosopt&&!limited) EXPECT(std::abs(p->errPos()-p->err())<2e-3*p->err()&&std::abs(p->errNeg()+p->err())<2e-3*p->err(),"fit.minos",d+vf::fmt(": %.8g %.8g, expected +-%.8g",p->errNeg(),p->errPos(),p->err())); vf::count("minima"); } else vf::count("at.limit"); }
    { size_t q=0; for(auto p: F->mps){ bool floats=p->isFree()||p->isBlind(); if(!floats) EXPECT(p->mean()==full[q],"fit.held",d+": "+p->name()+" moved"); ++q; } }
    auto cm=mini->covMatrix(), cf=mini->covMatrixFull(); std::map<std::string,int> pos; for(int k=0;k<n;++k) pos[f.p[F->fl[k]]->name()]=k; EXPECT(cm.GetNrows()==n&&cf.GetNrows()==int(F->mps.size())&&cf.GetNcols()==int(F->mps.size()),"fit.covariance",d); for(int i=0;i<n;++i) for(int j=0;j<n;++j) EXPECT(cm(i,j)==m->CovMatrix(i,j),"fit.covariance",d); for(unsigned i=0;i<F->mps.size();++i) for(unsigned j=0;j<F->mps.size();++j){ auto a=pos.find(F->mps.at(i)->name()), b=pos.find(F->mps.at(j)->name()); double want= a!=pos.end()&&b!=pos.end()? m->CovMatrix(a->second,b->second): 0; EXPECT(cf(i,j)==want,"fit.fullcovariance",d+vf::fmt(": (%s,%s) is %.8g instead of %.8g",F->mps.at(i)->name().c_str(),F->mps.at(j)->name().c_str(),cf(i,j),want)); }
    L zero=0; if(norm){ V x=F->start; zero=minus2ll(x); for(auto& z: F->gs){ L u=(x[z.i]-L(z.m))/z.s; zero-=u*u; } } V best; for(auto p: f.p) best.push_back(p->mean()); auto back=[&]{ for(int i=0;i<N;++i) f.p[i]->setCurrentFitVal(best[i]); }; probe(zero,"after the fit"); back();
    auto fr=mini->fitResult(); if(EXPECT(int(fr.NPar())==n,"fit.root",d)) for(int k=0;k<n;++k){ int i=F->fl[k]; double o= F->off.count(i)? F->off[i]: 0; EXPECT(fr.ParName(k)==f.p[i]->name()&&fr.Parameter(k)==m->X()[k]+o&&fr.Error(k)==m->Errors()[k],"fit.root",d+": "+fr.ParName(k)); for(int j=0;j<n;++j) EXPECT(fr.CovMatrix(k,j)==m->CovMatrix(std::max(k,j),std::min(k,j)),"fit.root",d+": covariance"); if(minosopt) EXPECT(fr.LowerError(k)==f.p[i]->errNeg()&&fr.UpperError(k)==f.p[i]->errPos(),"fit.root",d+": asymmetric errors"); } EXPECT(fr.Status()==mini->status()&&same(fr.MinFcnValue(),mini->FCN(),1e-12),"fit.root",d+": status");
    // blind values never appear: the shifted one does
    if(level!="Quiet"&&part==1) for(auto& [i,o]: F->off){ auto nm=f.p[i]->name(); std::stringstream ss(out); std::string l; int seen=0; while(std::getline(ss,l)){ auto q=l.find(nm+" "); if(q==std::string::npos||l.find("±")==std::string::npos) continue; std::stringstream ts(l.substr(q+nm.size())); std::string tok; bool shifted=false,raw=false; while(ts>>tok){ char* e; double v=strtod(tok.c_str(),&e); if(e==tok.c_str()) continue; if(std::abs(v-(best[i]+o))<=1e-4*std::abs(best[i]+o)) shifted=true; if(std::abs(best[i])>0.05&&std::abs(v-best[i])<=1e-4*std::abs(best[i])) raw=true; } EXPECT(!raw||shifted,"fit.blind",d+": "+l); seen+=shifted; } EXPECT(seen>0,"fit.blindshown",d+": "+nm+" not in the output: "+out.substr(0,400)); vf::count("blind"); }
    // minos on one parameter at a time
    if(!minuit1&&inside){ int k=r.range(0,n-1); auto p=f.p[F->fl[k]]; double e=p->err(); bool room=!limited; std::string o2=quiet([&]{ mini->minos(p); }); if(room) EXPECT(std::abs(p->errPos()-e)<2e-3*e&&std::abs(p->errNeg()+e)<2e-3*e,"minos.errors",d+vf::fmt(": %s %.8g %.8g, expected +-%.8g",p->name().c_str(),p->errNeg(),p->errPos(),e)); EXPECT(p->err()==e,"minos.err",d); for(int i=0;i<N;++i) EXPECT(f.p[i]->mean()==best[i],"minos.kept",d+vf::fmt(": parameter %d is %.12g instead of %.12g",i,f.p[i]->mean(),best[i])); vf::count("minos");
      for(int i=0;i<N;++i) if(!f.p[i]->isFree()&&!f.p[i]->isBlind()){ double a=f.p[i]->errNeg(),b=f.p[i]->errPos(),e2=f.p[i]->err(); std::string o3; int rc=vf::in_child([&]{ try { mini->minos(f.p[i]); } catch(const std::exception&){} if(f.p[i]->errNeg()!=a||f.p[i]->errPos()!=b||f.p[i]->err()!=e2) std::cout<<"CHANGED"<<std::endl; },&o3,30); EXPECT(rc==0&&o3.find("CHANGED")==std::string::npos&&(o3.find("ERROR")!=std::string::npos||o3.find("FATAL")!=std::string::npos),"minos.held",d+": asked for the errors of "+f.p[i]->name()+": "+o3.substr(0,300)); vf::count("minos.held"); break; } }
    // another fit: what floats may change, the start is where the last one ended
    if(r.coin(0.5)){ V now; for(auto p: f.p) now.push_back(p->mean()); int i=r.range(0,N-1); if(!F->off.count(i)){ if(f.p[i]->isFree()) f.p[i]->fix(); else f.p[i]->setFree(); } F->fl.clear(); for(int q=0;q<N;++q) if(f.p[q]->isFree()||f.p[q]->isBlind()) F->fl.push_back(q); F->start=now; n=F->fl.size(); quiet([&]{ mini->prepare(); }); m=ROOT::Math::Minimizer::made().back(); offered(now,"prepared again"); if(n==0) continue; quiet([&]{ mini->doFit(); }); auto w2=solve(*F); bool in2=true; for(int k=0;k<n;++k) if(m->var[k].lim) in2=in2&&w2.x[k]>F->lo[F->fl[k]]&&w2.x[k]<F->hi[F->fl[k]]; if(in2) for(int k=0;k<n;++k) EXPECT(std::abs(f.p[F->fl[k]]->mean()-w2.x[k])<=1e-4L*(1+std::abs(w2.x[k])),"refit.minimum",d+vf::fmt(": %s at %.10g, expected %.10Lg",f.p[F->fl[k]]->name().c_str(),f.p[F->fl[k]]->mean(),w2.x[k])); for(int q=0;q<N;++q) if(!f.p[q]->isFree()&&!f.p[q]->isBlind()) EXPECT(f.p[q]->mean()==now[q],"refit.held",d); vf::count("refits"); }
    if(c<2) vf::sample(d); }
  vf::require("minima",100); vf::require("probes",200); vf::require("minos",40); vf::require("refits",40); if(part==1) vf::require("blind",20); }

// ---------------------------------------------------------------- results
struct Res { MinuitParameterSet mps; TMatrixD cov; std::vector<MinuitParameter*> p; std::string d; };
static double val(vf::Rng& r){ return r.coin(0.1)? 0: r.gauss()*std::pow(10.,r.uni(-7,4)); }
static std::unique_ptr<Res> makeRes(vf::Rng& r,bool complexes){ auto R=std::make_unique<Res>(); int n=r.range(1,8); auto flag=[&]{ return r.pick(std::vector<Flag>{Flag::Free,Flag::Free,Flag::Free,Flag::Fix,Flag::Hide,Flag::CompileTimeConstant}); }; auto add=[&](const std::string& nm){ double lo=0,hi=0; if(r.coin(0.4)){ int k=r.range(0,2); lo= k==0? 0: -std::abs(val(r))-1e-3; hi= k==1? 0: std::abs(val(r))+1e-3; } R->p.push_back(R->mps.add(nm,flag(),val(r),std::abs(val(r)),lo,hi)); R->d+=" "+nm; }; for(int i=0;i<n;++i){ std::string nm=vf::fmt("r%d",i); if(complexes&&r.coin(0.5)){ nm="D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"+nm; if(r.coin(0.9)){ if(r.coin(0.8)){ add(nm+"_Re"); add(nm+"_Im"); } else { add(nm+"_Im"); add(nm+"_Re"); } } else add(nm+(r.coin()? "_Re":"_Im")); } else add(r.coin(0.3)? nm+"_"+std::string(r.range(1,60),'x'): nm); }
  n=R->p.size(); std::vector<std::vector<L>> B(n,std::vector<L>(n)); R->cov.ResizeTo(n,n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) B[i][j]=R->p[i]->isFree()? r.gauss()*std::pow(10.,r.range(-3,1)): 0; for(int i=0;i<n;++i){ for(int j=0;j<n;++j){ L q=0; for(int k=0;k<n;++k) q+=B[i][k]*B[j][k]; R->cov(i,j)=q; } } for(int i=0;i<n;++i){ double e=std::sqrt(R->cov(i,i)); R->p[i]->setResult(val(r),e,-e*r.uni(0.8,1.2),e*r.uni(0.8,1.2)); } return R; }
static void compareCov(const FitResult& a,const Res& R,double t,const std::string& key,const std::string& d){ int n=R.p.size(); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ double x=R.cov(i,j); double q; try { q=a.cov(R.p[i]->name(),R.p[j]->name()); } catch(const std::exception& e){ EXPECT(false,key,d+": no covariance of "+R.p[i]->name()+" and "+R.p[j]->name()); return; } EXPECT(same(q,x,t),key,d+vf::fmt(": covariance of %s and %s is %.12g, expected %.12g",R.p[i]->name().c_str(),R.p[j]->name().c_str(),q,x)); L s=std::sqrt(L(R.cov(i,i))*R.cov(j,j)); if(s>0){ double c=a.correlation(R.p[i]->name(),R.p[j]->name()); EXPECT(std::abs(c-x/s)<1e-7+2*t,key+".correlation",d+vf::fmt(": %.12g, expected %.12Lg",c,x/s)); } } }
static void results(){ auto& r=vf::rng(); std::string dir=vf::scratch(); const double T=6e-8; for(int c=0;c<vf::scale(1200,12000);++c){ auto R=makeRes(r,false); int n=R->p.size(); std::string d=vf::fmt("result %d:",c)+R->d; vf::begin_case(d); vf::distinct(d+num(R->p[0]->mean())); vf::eval(); FitResult a(R->mps,R->cov); int nf=0; for(auto p: R->p) nf+=p->isFree(); EXPECT(a.nParam()==nf,"result.count",d+vf::fmt(": %d, expected %d",a.nParam(),nf)); compareCov(a,*R,0,"result.cov",d);
    double chi2=std::abs(val(r)); int bins=r.range(1,500); a.addChi2(chi2,bins); EXPECT(a.chi2()==chi2&&a.nBins()==bins&&a.dof()==bins-nf-1,"result.chi2",d); std::map<std::string,double> obs; for(int i=0;i<r.range(0,3);++i){ double v=val(r); obs[vf::fmt("obs%d",i)]=v; a.addObservable(vf::fmt("obs%d",i),v); } std::vector<FitFraction> ff; for(int i=0;i<r.range(0,4);++i) ff.emplace_back(vf::fmt("D0{K%d,pi-}",i),r.uni(-0.2,1),r.uni(0,0.1)); if(r.coin()) a.addFractions(ff); else for(auto& f: ff) a.addFraction(f.name(),f.val(),f.err());
    // what floats
    for(bool ext: {false,true}){ std::vector<int> ix; for(int i=0;i<n;++i) if((R->p[i]->isFree()||ext)&&R->p[i]->err()>1e-6) ix.push_back(i); auto fl=a.floating(ext); auto rc=a.getReducedCovariance(ext); if(EXPECT(fl.size()==ix.size()&&rc.GetNrows()==int(ix.size()),"result.floating",d)) for(size_t i=0;i<ix.size();++i){ EXPECT(fl[i]==R->p[ix[i]],"result.floating",d); for(size_t j=0;j<ix.size();++j) EXPECT(rc(i,j)==R->cov(ix[i],ix[j]),"result.reduced",d); } auto ep=a.getErrorPropagator(ext); EXPECT(ep.size()==ix.size(),"result.propagator",d); for(size_t i=0;i<ix.size();++i){ auto p=R->p[ix[i]]; double e=ep.getError(std::function<double(void)>([p]{ return p->mean(); })); EXPECT(std::abs(e-p->err())<=1e-6*p->err()+1e-9*std::abs(p->mean()),"result.propagator",d+vf::fmt(": %.10g, expected %.10g",e,p->err())); } } EXPECT(int(a.parameters().size())==n,"result.parameters",d);
    auto compare=[&](const FitResult& b,double t,const std::string& key){ auto* m=b.mps(); if(!EXPECT(m!=nullptr&&int(m->size())==n,key+".size",d+vf::fmt(": %d parameters",m? int(m->size()): -1))) return; for(int i=0;i<n;++i){ auto p=R->p[i]; auto q=m->find(p->name()); if(!EXPECT(q!=nullptr,key+".parameter",d+": "+p->name()+" is missing")) continue; EXPECT(q->flag()==p->flag(),key+".flag",d+": "+p->name()); EXPECT(same(q->mean(),p->mean(),t)&&same(q->err(),p->err(),t),key+".value",d+vf::fmt(": %s is %.12g +- %.12g, expected %.12g +- %.12g",p->name().c_str(),q->mean(),q->err(),p->mean(),p->err())); EXPECT(same(q->errNeg(),p->errNeg(),t)&&same(q->errPos(),p->errPos(),t),key+".errors",d+vf::fmt(": %s has %.12g %.12g, expected %.12g %.12g",p->name().c_str(),q->errNeg(),q->errPos(),p->errNeg(),p->errPos())); EXPECT(same(q->minInit(),p->minInit(),t)&&same(q->maxInit(),p->maxInit(),t),key+".limits",d+vf::fmt(": %s has [%.12g,%.12g], expected [%.12g,%.12g]",p->name().c_str(),q->minInit(),q->maxInit(),p->minInit(),p->maxInit())); } compareCov(b,*R,t,key+".cov",d); EXPECT(same(b.chi2(),a.chi2(),t)&&b.nBins()==a.nBins()&&b.nParam()==a.nParam()&&same(b.LL(),a.LL(),t)&&b.status()==a.status(),key+".quality",d); auto o=b.observables(); EXPECT(o.size()==obs.size(),key+".observables",d); for(auto& [k,v]: obs) EXPECT(o.count(k)&&same(o[k],v,t),key+".observables",d+": "+k); auto g=b.fitFractions(); if(EXPECT(g.size()==ff.size(),key+".fractions",d)) for(size_t i=0;i<g.size();++i) EXPECT(g[i].name()==ff[i].name()&&same(g[i].val(),ff[i].val(),t)&&same(g[i].err(),ff[i].err(),t),key+".fractions",d+": "+g[i].name()); };
    { FitResult b(a); compare(b,0,"copy"); vf::count("copies"); }
    std::string fn=dir+vf::fmt("/res%d_%d.txt",int(getpid()),c); std::string out; int rc=vf::in_child([&]{ a.writeToFile(fn); FitResult b(fn); },&out,30); if(EXPECT(rc==0,"file.crash",d+": writing and reading ended with "+std::to_string(rc)+" "+out.substr(0,300))){ std::unique_ptr<FitResult> b; quiet([&]{ a.writeToFile(fn); b.reset(new FitResult(fn)); }); compare(*b,T,"file"); int same2=0; std::string fn2=fn+"2"; quiet([&]{ b->writeToFile(fn2); }); std::ifstream x(fn),y(fn2); std::stringstream sx,sy; sx<<x.rdbuf(); sy<<y.rdbuf(); EXPECT(sx.str()==sy.str(),"file.again",d+": written again it differs"); unlink(fn2.c_str()); delete b->mps(); vf::count("files"); } unlink(fn.c_str()); if(c<2) vf::sample(d); }
  vf::require("files",200); vf::require("copies",200); }
// results of fits, with blinded parameters left out of what is written
static void fitted(){ auto& r=vf::rng(); std::string dir=vf::scratch(); quiet([&]{ OptionsParser::setArg("Minimiser::PrintLevel Quiet"); }); for(int c=0;c<vf::scale(150,1500);++c){ auto F=makeFit(r,r.coin(0.4)); std::string d=vf::fmt("fit %d:",c)+F->d; vf::begin_case(d); vf::eval(); vf::distinct(d); std::unique_ptr<Minimiser> mini; quiet([&]{ mini.reset(new Minimiser(F->f,&F->mps)); mini->doFit(); }); FitResult a(*mini); int nf=F->fl.size(); EXPECT(a.mps()==&F->mps&&a.nParam()==nf&&a.status()==mini->status()&&same(a.LL(),F->f.getVal(),1e-12)&&a.NCalls()==mini->NCalls(),"fitted.quality",d); auto cf=mini->covMatrixFull(); for(unsigned i=0;i<F->mps.size();++i) for(unsigned j=0;j<F->mps.size();++j) EXPECT(a.cov(F->mps.at(i)->name(),F->mps.at(j)->name())==cf(i,j)&&a.cov(i,j)==cf(i,j),"fitted.cov",d);
    std::string fn=dir+vf::fmt("/fit%d_%d.txt",int(getpid()),c),out; int rc=vf::in_child([&]{ a.writeToFile(fn); FitResult b(fn); b.writeToFile(fn+"b"); unlink((fn+"b").c_str()); },&out,30); if(EXPECT(rc==0,"fitted.crash",d+": "+out.substr(0,300))){ std::unique_ptr<FitResult> b; quiet([&]{ a.writeToFile(fn); b.reset(new FitResult(fn)); }); for(size_t i=0;i<F->f.p.size();++i){ auto p=F->f.p[i]; auto q=b->mps()->find(p->name()); if(!EXPECT(q!=nullptr,"fitted.parameter",d+": "+p->name())) continue; double o= F->off.count(i)? F->off[i]: 0; EXPECT(std::abs(q->mean()-p->mean()-o)<=2e-7*(std::abs(p->mean())+std::abs(o)+1e-3)&&std::abs(q->err()-p->err())<=2e-7*std::abs(p->err()),"fitted.value",d+vf::fmt(": %s is %.12g, expected %.12g",p->name().c_str(),q->mean(),p->mean()+o)); for(size_t j=0;j<F->f.p.size();++j){ auto u=F->f.p[j]; double v; try { v=b->cov(p->name(),u->name()); } catch(const std::exception&){ EXPECT(false,"fitted.readcov",d+": "+p->name()+" "+u->name()); continue; } double w=a.cov(p->name(),u->name()); EXPECT(same(v,w,6e-8),"fitted.readcov",d+vf::fmt(": covariance of %s and %s is %.12g, expected %.12g",p->name().c_str(),u->name().c_str(),v,w)); } }
      { auto rcv=b->getReducedCovariance(); auto fl=b->floating(); for(size_t i=0;i<fl.size();++i) for(size_t j=0;j<fl.size();++j) EXPECT(same(rcv(i,j),a.cov(fl[i]->name(),fl[j]->name()),6e-8),"fitted.reduced",d+vf::fmt(": covariance of %s and %s is %.12g",fl[i]->name().c_str(),fl[j]->name().c_str(),rcv(i,j))); } std::ifstream x(fn); std::stringstream sx; sx<<x.rdbuf(); for(auto& [i,o]: F->off) EXPECT(sx.str().find("Parameter "+F->f.p[i]->name()+"_blind")==std::string::npos,"fitted.blind",d); if(F->off.size()) vf::count("blind"); delete b->mps(); vf::count("files"); } unlink(fn.c_str()); }
  vf::require("files",50); vf::require("blind",10); }
// parameters written as options load to the same parameters
static void options(){ auto& r=vf::rng(); std::string dir=vf::scratch(); for(int c=0;c<vf::scale(1200,12000);++c){ auto R=makeRes(r,true); std::string d=vf::fmt("options %d:",c)+R->d; vf::begin_case(d); vf::distinct(d+num(R->p[0]->mean())); vf::eval(); FitResult a(R->mps,R->cov); std::string fn=dir+vf::fmt("/opt%d_%d",int(getpid()),c); bool withInput=r.coin(0.4); std::vector<std::string> extra; std::set<std::string> listed; if(withInput){ std::ofstream o(fn+".in"); auto other=[&]{ std::string l=r.pick(std::vector<std::string>{"EventType D0 K- pi+","# a comment","","nEvents 1000","alone","r0","x = 2 * r0 + 1","MakeCPConj 1"}); o<<l<<"\n"; extra.push_back(l); }; for(auto p: R->p){ if(r.coin(0.3)) other(); auto nm=p->name(); if(listed.count(nm)) continue; std::string st=nm.size()>3? nm.substr(nm.size()-3): ""; std::string base= nm.size()>3? nm.substr(0,nm.size()-3): ""; if((st=="_Re"||st=="_Im")&&R->mps.find(base+"_Re")&&R->mps.find(base+"_Im")&&r.coin(0.7)){ o<<base<<" Free 0.1 0.2 Fix 0.3 0.4\n"; listed.insert(base+"_Re"); listed.insert(base+"_Im"); } else { o<<nm<<(r.coin()? "   ":" ")<<"Free 0.5 0.25\n"; listed.insert(nm); } } }
    std::string out; int rc=vf::in_child([&]{ if(withInput) a.writeOptions(fn,fn+".in"); else a.writeOptions(fn); MinuitParameterSet m; m.loadFromFile(fn); },&out,30); if(EXPECT(rc==0,"options.crash",d+": "+out.substr(0,300))){ quiet([&]{ if(withInput) a.writeOptions(fn,fn+".in"); else a.writeOptions(fn); }); MinuitParameterSet m; std::string txt; { std::ifstream x(fn); std::stringstream s; s<<x.rdbuf(); txt=s.str(); } quiet([&]{ m.loadFromFile(fn); }); for(auto p: R->p){ auto q=m.find(p->name()); if(!EXPECT(q!=nullptr,"options.parameter",d+": "+p->name()+" is missing from "+txt.substr(0,500))) continue; EXPECT(q->flag()==p->flag()&&same(q->mean(),p->mean(),6e-8)&&same(q->stepInit(),p->err(),6e-8),"options.value",d+vf::fmt(": %s is %.12g step %.12g, expected %.12g step %.12g",p->name().c_str(),q->mean(),q->stepInit(),p->mean(),p->err())); EXPECT(same(q->minInit(),p->minInit(),6e-8)&&same(q->maxInit(),p->maxInit(),6e-8),"options.limits",d+vf::fmt(": %s has [%.12g,%.12g], expected [%.12g,%.12g]",p->name().c_str(),q->minInit(),q->maxInit(),p->minInit(),p->maxInit())); }
      std::stringstream s(txt); std::string l; std::vector<std::string> kept; while(std::getline(s,l)){ for(auto& e: extra) if(e==l){ kept.push_back(l); break; } } EXPECT(kept==extra,"options.lines",d+": other lines are not kept: "+txt.substr(0,500)); vf::count(withInput? "rewritten":"written"); } unlink(fn.c_str()); unlink((fn+".in").c_str()); if(c<2) vf::sample(d); }
  vf::require("written",200); vf::require("rewritten",200); }
// simultaneous fits and named functors
static void sums(){ auto& r=vf::rng(); struct P { double v; double getVal(){ return v; } }; for(int c=0;c<vf::scale(500,5000);++c){ int n=r.range(0,6); std::vector<P> p(n); SimFit s; vf::begin_case(vf::fmt("sum of %d",n)); vf::eval(); quiet([&]{ for(auto& x: p) s.add(x); }); for(int t=0;t<3;++t){ L w=0,a=0; for(auto& x: p){ x.v=val(r); w+=x.v; a+=std::abs(x.v); } double v=s.getVal(); EXPECT(std::abs(v-w)<=1e-14L*a,"sum",vf::fmt("%d functions: %.12g, expected %.12Lg",n,v,w)); } KeyedFunctors<double(double)> k; V cf; for(int i=0;i<n;++i){ double q=val(r); cf.push_back(q); k.add([q](double x){ return q*x; },vf::fmt("k%d",i),vf::fmt("t%d",i)); } double x=val(r); auto o=k(x); bool ok=o.size()==size_t(n)&&k.keys.size()==size_t(n)&&k.titles.size()==size_t(n); for(int i=0;ok&&i<n;++i) ok=o[i]==cf[i]*x&&k.keys[i]==vf::fmt("k%d",i)&&k.titles[i]==vf::fmt("t%d",i); EXPECT(ok,"keyed",vf::fmt("%d functors",n)); vf::distinct(vf::fmt("%d %g",n,x)); } }
void harness(){
  vf::section("gaussian",gaussian,300); vf::section("widths0",[]{ widths(0); },300); vf::section("widths1",[]{ widths(1); },300);
  vf::section("fits",[]{ fits(0); },600); vf::section("blind",[]{ fits(1); },600);
  vf::section("results",results,600); vf::section("fitted",fitted,600); vf::section("options",options,600); vf::section("sums",sums,120);
}
