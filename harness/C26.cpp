// C26: coherent and incoherent sums: probability, normalisation, couplings, likelihood
#include "vf.h"
#include "interp.h"
#include "decay.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/IncoherentSum.h"
#include "AmpGen/SumPDF.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/Particle.h"
using namespace AmpGen;
typedef long double L; typedef std::complex<L> C; typedef std::vector<double> V;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }
static void opt(const std::string& s){ OptionsParser::setArg(s); }
static std::string canon(const std::string& s){ return dk::canonical(dk::read(s)); }
static const double W=utils::size<real_v>::value;
static complex_t lane(const complex_v& v,unsigned i){
#if ENABLE_AVX
  return utils::at(v,i);
#else
  (void)i; return v;
#endif
}
static double laneR(const real_v& v,unsigned i){
#if ENABLE_AVX
  return v.at(i);
#else
  (void)i; return v;
#endif
}
// ---- rules: expansion of a hierarchical model, written independently over text trees
struct Rule { std::string desc; std::complex<double> g; bool expr; };
struct Model { std::vector<std::string> type; std::vector<std::string> rules; };
static const std::vector<Model> MODELS={
 {{"D0","K-","pi+","pi+","pi-"},{"D0{K*(892)bar0,rho(770)0}","D0[P]{K*(892)bar0,rho(770)0}","D0{a(1)(1260)+,K-}","a(1)(1260)+{rho(770)0,pi+}","a(1)(1260)+[D]{rho(770)0,pi+}","a(1)(1260)+{f(0)(980)0,pi+}","rho(770)0{pi+,pi-}","f(0)(980)0{pi+,pi-}","K*(892)bar0{K-,pi+}","D0{K(1)(1270)bar-,pi+}","K(1)(1270)bar-{rho(770)0,K-}","K(1)(1270)bar-{K*(892)bar0,pi-}","D0{K(1460)bar-{K*(892)bar0,pi-},pi+}"}},
 {{"D0","pi+","pi-","pi+","pi-"},{"D0{rho(770)0,rho(770)0}","D0[P]{rho(770)0,rho(770)0}","D0{f(2)(1270)0,rho(770)0}","rho(770)0{pi+,pi-}","rho(770)0[GounarisSakurai]{pi+,pi-}","f(2)(1270)0{pi+,pi-}","D0{rho(1450)0{pi+,pi-},rho(770)0}","D0{a(1)(1260)+,pi-}","a(1)(1260)+{rho(770)0,pi+}"}},
 {{"D0","K0S0","pi+","pi-"},{"D0{K0S0,rho(770)0}","rho(770)0{pi+,pi-}","D0{K*(892)+,pi-}","D0{K*(892)bar-,pi+}","K*(892)+{K0S0,pi+}","K*(892)bar-{K0S0,pi-}","D0{f(0)(980)0{pi+,pi-},K0S0}"}},
 {{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}"}},
 {{"Lambda(c)+","p+","K-","pi+"},{"Lambda(c)+{p+,K*(892)bar0}","Lambda(c)+[P]{p+,K*(892)bar0}","Lambda(c)+{Lambda(1520)0,pi+}","Lambda(1520)0{p+,K-}","Lambda(c)+{Delta(1232)++,K-}","Delta(1232)++{p+,pi+}","K*(892)bar0{K-,pi+}"}}};
static void expandRef(const dk::Node& n,const std::map<std::string,std::vector<size_t>>& by,const std::vector<dk::Node>& trees,std::vector<std::pair<dk::Node,std::vector<size_t>>>& out){ // all completions of a tree
  if(n.d.empty()){ auto it=by.find(n.name); if(it==by.end()){ out.push_back({n,{}}); return; } for(auto k: it->second){ std::vector<std::pair<dk::Node,std::vector<size_t>>> sub; expandRef(trees[k],by,trees,sub); for(auto& s: sub){ s.second.push_back(k); out.push_back(s); } } return; }
  std::vector<std::pair<dk::Node,std::vector<size_t>>> acc; { dk::Node m=n; m.d.clear(); acc.push_back({m,{}}); } for(auto& d: n.d){ std::vector<std::pair<dk::Node,std::vector<size_t>>> sub,next; expandRef(d,by,trees,sub); for(auto& a: acc) for(auto& s: sub){ auto z=a; z.first.d.push_back(s.first); z.second.insert(z.second.end(),s.second.begin(),s.second.end()); next.push_back(z); } acc=next; } for(auto& a: acc) out.push_back(a); }
struct Built { MinuitParameterSet mps; std::vector<Rule> rules; std::vector<std::pair<MinuitParameter*,MinuitParameter*>> par; std::vector<MinuitParameter*> knob; };
static std::complex<double> value(bool polar,double sf,double a,double b){ return polar? std::polar(1.0,sf*b)*a: std::complex<double>(a,b); }
static void fill(Built& B,const Model& M,bool exprs,const std::string& prefix=""){ auto& r=vf::rng(); for(auto& s: M.rules){ bool head=s.find(M.type[0])==0; std::string base=(head&&!prefix.empty()? prefix+"_": "")+s; Rule R{s,0,false}; if(exprs&&!(head&&!prefix.empty())&&r.coin(0.25)){ auto k=B.mps.add("knob"+std::to_string(B.knob.size()),Flag::Free,r.uni(-2,2),0.1); B.knob.push_back(k); auto e=new MinuitExpression(s,MinuitParameterLink(k)*Expression(complex_t(0.3,1.2))+1.); B.mps.add(e); R.expr=true; B.par.push_back({k,nullptr}); } else { auto a=B.mps.add(base+"_Re",r.coin()? Flag::Free: Flag::Fix,r.uni(-2,2),0.1); auto b=B.mps.add(base+"_Im",r.coin()? Flag::Free: Flag::Fix,r.uni(-2,2),0.1); B.par.push_back({a,b}); } B.rules.push_back(R); } }
static C couplingOf(const Built& B,const std::vector<size_t>& ks,bool polar,double sf){ C z=1; for(auto k: ks){ if(B.rules[k].expr){ double x=B.par[k].first->mean(); z*=C(0.3L*x+1,1.2L*x); } else { auto v=value(polar,sf,B.par[k].first->mean(),B.par[k].second->mean()); z*=C(v.real(),v.imag()); } } return z; }
static void rules(const std::string& coord,const std::string& units){ auto& r=vf::rng(); opt("CouplingConstant::Coordinates "+coord); opt("CouplingConstant::AngularUnits "+units); bool polar=coord=="polar"; double sf=units=="deg"? M_PI/180: 1;
  for(int c=0;c<vf::scale(40,400);++c){ Model M=MODELS[c%MODELS.size()]; // a random part of the model, in random order
    if(c>=int(MODELS.size())){ std::vector<std::string> keep; for(auto& s: M.rules) if(r.coin(0.8)) keep.push_back(s); M.rules=keep; r.shuffle(M.rules); } std::string prefix=r.coin(0.3)? r.pick(std::vector<std::string>{"Inco","sig","bkg2"}): ""; Built B; auto twin=[&](const std::string& what){ B.mps.add("zzz_"+what+"_Re",Flag::Free,1.,0.1); B.mps.add("zzz_"+what+"_Im",Flag::Free,1.,0.1); }; if(r.coin(0.4)) for(auto& s: MODELS[c%MODELS.size()].rules) if(s.find(M.type[0])==0&&r.coin(0.4)) twin(s); /* decays of another sum, with the same final state */
    fill(B,M,true,prefix); if(r.coin(0.3)) twin(std::string(M.type[0])+"{K+,K-}"); B.mps.add("rho(770)0_mass",Flag::Fix,0.77,0.); B.mps.add("x_y_Re",Flag::Fix,0.77,0.); B.mps.add("x_y_Im",Flag::Fix,0.77,0.); std::string d=vf::vstr(M.rules)+" prefix "+prefix; vf::begin_case(d); vf::distinct(d); EventType t(M.type);
    std::map<std::string,std::vector<size_t>> by; std::vector<dk::Node> trees; for(size_t k=0;k<M.rules.size();++k){ trees.push_back(dk::read(M.rules[k])); by[trees[k].name].push_back(k); } std::map<std::string,std::vector<size_t>> want; std::map<std::string,int> times; if(by.count(M.type[0])) for(auto k: by[M.type[0]]){ std::vector<std::pair<dk::Node,std::vector<size_t>>> ex; auto sub=by; sub.erase(M.type[0]); expandRef(trees[k],sub,trees,ex); for(auto& e: ex){ std::vector<std::string> lv; dk::leaves(e.first,lv); std::sort(lv.begin(),lv.end()); auto fs=t.finalStates(); std::sort(fs.begin(),fs.end()); if(lv!=fs) continue; e.second.push_back(k); std::string q=dk::canonical(e.first); ++times[q]; if(!want.count(q)) want[q]=e.second; } }
    std::vector<std::pair<Particle,TotalCoupling>> got; AmplitudeRules* R=nullptr; quiet([&]{ R=AmplitudeRules::create(B.mps); got=R->getMatchingRules(t,prefix); }); std::map<std::string,TotalCoupling> have; for(auto& g: got){ std::string q=canon(g.first.decayDescriptor()); EXPECT(--times[q]>=0,"rules.once",d+": "+q+" too often"); have[q]=g.second; } for(auto& w: want) EXPECT(have.count(w.first),"rules.missing",d+": no amplitude "+w.first); for(auto& h: have) EXPECT(want.count(h.first),"rules.extra",d+": unexpected amplitude "+h.first);
    for(int step=0;step<3;++step){ if(step) for(auto& p: B.par){ if(r.coin(0.5)){ p.first->setCurrentFitVal(r.uni(-3,3)); if(p.second) p.second->setCurrentFitVal(r.uni(-3,3)); } } Interp in; for(auto& p: B.mps) if(!dynamic_cast<MinuitExpression*>(p)) in.v[p->name()]=p->mean(); for(auto& w: want) if(have.count(w.first)){ vf::eval(); auto& T=have[w.first]; C e=couplingOf(B,w.second,polar,sf); auto z=T(); double sc=std::abs(e)+1e-3; EXPECT(std::abs(C(z.real(),z.imag())-e)<1e-12*sc,"rules.coupling",d+": coupling of "+w.first+vf::fmt(" is (%.9g,%.9g), expected (%.9Lg,%.9Lg)",z.real(),z.imag(),e.real(),e.imag())); in.fresh(); C x=in(T.to_expression()); EXPECT(std::abs(x-e)<1e-12*sc,"rules.expression",d+": "+w.first+vf::fmt(" (%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg)",x.real(),x.imag(),e.real(),e.imag())); EXPECT(T.size()==w.second.size(),"rules.size",d+": "+w.first); bool fixed=true,hasExpr=false; for(auto k: w.second){ if(B.rules[k].expr) hasExpr=true; else fixed=fixed&&B.par[k].first->isFixed()&&B.par[k].second->isFixed(); EXPECT(T.contains(B.rules[k].desc)||T.contains(dk::read(B.rules[k].desc).name),"rules.contains",d); } bool f=T.isFixed(); if(!hasExpr) EXPECT(f==fixed,"rules.fixed",d+": "+w.first); vf::count("couplings"); } }
    for(auto& b: by){ EXPECT(R->hasDecay(b.first),"rules.has",d+" "+b.first); std::string p= b.first==M.type[0]? prefix: ""; size_t n=0; for(auto& x: R->rulesForDecay(b.first,p)) n+= x.prefix()==p; EXPECT(n==b.second.size(),"rules.forDecay",d+" "+b.first); } EXPECT(!R->hasDecay("J/psi0")&&R->rulesForDecay("J/psi0").empty(),"rules.has",d); quiet([&]{ EXPECT(R->getMatchingRules(t,"nosuch").empty(),"rules.prefix",d); }); for(auto& kv: R->rules()) for(auto& q: kv.second){ if(q.x()) EXPECT(q.isCartesian()==!polar,"rules.coordinates",d); EXPECT(q.head()==kv.first&&q.eventType().mother()==kv.first,"rules.head",d); }
    // a coupling without an imaginary part is reported and does not take part
    if(c%4==1){ MinuitParameterSet half; half.add("D0{K0S0,rho(770)0}_Re",Flag::Free,1.,0.1); if(r.coin()) half.add("rho(770)0{pi+,pi-}_Im",Flag::Free,1.,0.1); half.add("D0{f(0)(980)0{pi+,pi-},K0S0}_Re",Flag::Free,1.,0.1); half.add("D0{f(0)(980)0{pi+,pi-},K0S0}_Im",Flag::Free,2.,0.1); std::vector<std::pair<Particle,TotalCoupling>> o; std::string said=vf::capture([&]{ AmplitudeRules h(half); o=h.getMatchingRules(EventType({"D0","K0S0","pi+","pi-"})); for(auto& kv: h.rules()) for(auto& q: kv.second) EXPECT(q.x()!=nullptr&&q.y()!=nullptr,"rules.half",q.name()); }); EXPECT(o.size()==1&&std::abs(o[0].second()-(polar? std::polar(1.0,sf*2.): complex_t(1,2)))<1e-14,"rules.half",vf::fmt("%zu amplitudes",o.size())); EXPECT(said.find("D0{K0S0,rho(770)0}_Re")!=std::string::npos,"rules.reported",said.substr(0,200)); vf::eval(); }
    // a rule added by hand
    if(c%4==0){ AmplitudeRules own; double f=r.uni(0.5,2); own.add_rule(Particle("D0{rho(770)0,K0S0}"),f); double f2=r.uni(0.5,2); own.add_rule(Particle("rho(770)0{pi+,pi-}"),f2); std::vector<std::pair<Particle,TotalCoupling>> o; quiet([&]{ o=own.getMatchingRules(EventType({"D0","K0S0","pi+","pi-"})); }); EXPECT(o.size()==1&&std::abs(o[0].second()-complex_t(f*f2))<1e-14,"rules.added",vf::fmt("%zu",o.size())); }
    if(c<2) vf::sample(d+vf::fmt(" -> %zu amplitudes",want.size())); }
  vf::require("couplings",100); }
// ---- conjugate couplings
static void conjugate(const std::string& coord){ auto& r=vf::rng(); opt("CouplingConstant::Coordinates "+coord); bool polar=coord=="polar"; for(int c=0;c<vf::scale(40,300);++c){ Model M=MODELS[c%MODELS.size()]; Built B; fill(B,M,true); std::vector<std::string> junk={"alpha","someYield","a_b_c","background_fraction"}; for(auto& j: junk) B.mps.add(j,Flag::Free,r.uni(0,2),0.1); std::vector<std::string> res={"K*(892)bar0_mass","K*(892)bar0_width","rho(770)+_mass","K(1)(1270)+_radius"}; for(auto& j: res) B.mps.add(j,Flag::Free,r.uni(0.5,1.5),0.1); std::vector<std::string> spl={"K*(892)bar0::Spline::Re::0","K(0)*(1430)+::GLASS::a"}; for(auto& j: spl) B.mps.add(j,Flag::Free,r.uni(0.5,1.5),0.1); std::map<std::string,double> before; std::vector<std::string> order; for(auto& p: B.mps){ before[p->name()]=p->mean(); order.push_back(p->name()); } std::string d=coord+" "+vf::vstr(M.rules); vf::begin_case(d); vf::distinct(d+std::to_string(c)); quiet([&]{ AddCPConjugate(B.mps); }); size_t n1=B.mps.size(); size_t i=0; bool same=true; for(auto& p: B.mps){ if(i<order.size()) same=same&&p->name()==order[i]&&p->mean()==before[p->name()]; EXPECT(!p->name().empty(),"conjugate.name",d+": a parameter without a name was added"); ++i; } EXPECT(same,"conjugate.keeps",d);
    auto check=[&]{ for(size_t k=0;k<M.rules.size();++k){ vf::eval(); Particle p(M.rules[k]); Particle q=p.conj(); if(B.rules[k].expr){ auto x=B.mps.find(q.decayDescriptor()); if(q.decayDescriptor()==p.decayDescriptor()||before.count(q.decayDescriptor())) continue; if(!EXPECT(x!=nullptr,"conjugate.missing",d+": "+q.decayDescriptor())) continue; auto e=dynamic_cast<MinuitExpression*>(x); double kv=B.par[k].first->mean(); complex_t want(0.3*kv+1,-1.2*kv); if(EXPECT(e!=nullptr,"conjugate.expression",d)) EXPECT(std::abs(e->getVal()-want)<1e-13,"conjugate.expression",d+": "+q.decayDescriptor()); vf::count("conjugates"); continue; } if(!ParticlePropertiesList::get(p.name())->hasDistinctAnti()) continue; for(int im=0;im<2;++im){ std::string n=q.uniqueString()+(im? "_Im": "_Re"); if(before.count(n)) continue; auto x=B.mps.find(n); if(!EXPECT(x!=nullptr,"conjugate.missing",d+": "+n)) continue; auto src=im? B.par[k].second: B.par[k].first; double s= polar&&im? 1: q.CP(); EXPECT(std::abs(x->mean()-s*src->mean())<1e-14,"conjugate.value",d+": "+n+vf::fmt(" is %.9g, original %.9g, sign %g",x->mean(),src->mean(),s)); vf::count("conjugates"); } }
      for(auto& j: res){ auto u=j.find('_'); auto pp=ParticlePropertiesList::get(j.substr(0,u)); std::string n=pp->anti().name()+j.substr(u); auto x=B.mps.find(n); if(EXPECT(x!=nullptr,"conjugate.missing",d+": "+n)) EXPECT(x->mean()==B.mps[j]->mean(),"conjugate.value",d+": "+n); } for(auto& j: spl){ auto u=j.find("::"); std::string n=ParticlePropertiesList::get(j.substr(0,u))->anti().name()+j.substr(u); auto x=B.mps.find(n); if(EXPECT(x!=nullptr,"conjugate.missing",d+": "+n)) EXPECT(x->mean()==B.mps[j]->mean(),"conjugate.value",d+": "+n); } };
    check(); for(auto& p: B.par){ p.first->setCurrentFitVal(r.uni(-2,2)); if(p.second) p.second->setCurrentFitVal(r.uni(-2,2)); } check(); (void)n1; }
  vf::require("conjugates",100); }
// heads that are excluded, prefixed couplings, heads that are their own antiparticle, and nothing besides
static void forbidden(int n){ auto& r=vf::rng(); static const std::vector<std::string> decays={"D0{K*(892)bar0{K-,pi+},pi0}","D0{K-,rho(770)+{pi+,pi0}}","D+{K*(892)bar0{K-,pi+},pi+}","D(s)+{phi(1020)0{K+,K-},pi+}","B0{D-{K+,pi-,pi-},pi+}","B-{D0{K-,pi+},pi-}","J/psi0{rho(770)+{pi+,pi0},pi-}","Lambda(b)0{Lambda(c)+{p+,K-,pi+},pi-}","K*(892)bar0{K-,pi+}","rho(770)+{pi+,pi0}","phi(1020)0{K+,K-}"};
  for(int c=0;c<n;++c){ int st=0; std::string o; std::vector<std::string> ds=decays; r.shuffle(ds); ds.resize(r.range(2,int(ds.size()))); std::set<std::string> heads; for(auto& x: ds) heads.insert(Particle(x).name()); std::vector<std::string> forbid; for(auto& h: heads) if(r.coin(0.4)) forbid.push_back(h); if(r.coin(0.2)) forbid.push_back("tau-"); bool polar=r.coin(); std::string d=std::string(polar?"polar":"cartesian")+" forbid "+vf::vstr(forbid)+" of "+vf::vstr(ds); vf::begin_case(d); vf::eval(); vf::distinct(d);
    struct In { std::string name; double v; int kind; std::string prefix,decay; }; std::vector<In> in; for(auto& x: ds){ int k=r.range(0,2); double a=r.uni(0.2,2), b=r.uni(-2,-0.2); if(k==2) in.push_back({Particle(x).decayDescriptor(),a,2,"",x}); else { std::string pre= k? r.pick({"A_","second_"}): ""; in.push_back({pre+Particle(x).uniqueString()+"_Re",a,0,pre,x}); in.push_back({pre+Particle(x).uniqueString()+"_Im",b,1,pre,x}); } }
    st=vf::in_child([&]{ opt(std::string("CouplingConstant::Coordinates ")+(polar?"polar":"cartesian")); if(forbid.size()){ std::string l="AddCPConjugate::Forbid"; for(auto& f: forbid) l+=" "+f; opt(l); } MinuitParameterSet mps; for(auto& x: in){ if(x.kind==2) mps.add(new MinuitExpression(x.name,Expression(Constant(x.v,0.5)))); else mps.add(x.name,Flag::Free,x.v,0.1); } std::map<std::string,complex_t> want; for(auto& x: in){ Particle p(x.decay); if(std::count(forbid.begin(),forbid.end(),p.name())) continue; Particle q=p.conj(); std::string nm; complex_t v; if(x.kind==2){ nm=q.decayDescriptor(); v=std::conj(complex_t(x.v,0.5)); } else { if(!p.props()->hasDistinctAnti()) continue; nm=x.prefix+q.uniqueString()+(x.kind? "_Im": "_Re"); v=x.v*(polar&&x.kind? 1.: double(q.CP())); } if(mps.find(nm)==nullptr&&!want.count(nm)) want[nm]=v; }
      AddCPConjugate(mps); std::string bad; for(auto& [nm,v]: want){ auto* m=mps.find(nm); auto* e=dynamic_cast<MinuitExpression*>(m); if(!m) bad+=" missing "+nm; else { complex_t g= e? e->getVal(): complex_t(m->mean(),0); if(std::abs(g-v)>1e-13) bad+=" value of "+nm; } } for(auto* m: mps){ bool was=false; for(auto& x: in) was|=x.name==m->name(); if(!was&&!want.count(m->name())) bad+=" unasked "+m->name(); } std::cout<<"\n@@"<<bad<<"@@"<<want.size()<<std::endl; },&o,60); auto i=o.find("\n@@"); if(!EXPECT(st==0&&i!=std::string::npos,"forbidden.crash",d+o.substr(0,300))) continue; auto j=o.find("@@",i+3); EXPECT(j==i+3,"forbidden",d+":"+o.substr(i+3,j-i-3)); vf::count("forbidden heads",forbid.size()); vf::count("conjugated",atoi(o.c_str()+j+2)); if(c<2) vf::sample(d); } vf::require("forbidden heads",n/2); vf::require("conjugated",n); }
// ---- single amplitudes: compiled, whole
struct Amp { std::vector<std::string> type; std::string d; int pol; };
static const std::vector<std::string> AMPS={"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)0[GounarisSakurai]{pi+,pi-},K0S0}","D0{f(2)(1270)0{pi+,pi-},K0S0}","D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0{a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+},K-}","D0{K(0)*(1430)bar0[LASS]{K-,pi+},pi0}","D0{f(0)(980)0[Flatte]{pi+,pi-},K0S0}","D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}","Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+{Lambda(1520)0{p+,K-},pi+}","Lambda(c)+{Delta(1232)++{p+,pi+},K-}","B0{J/psi0{mu+,mu-},K0S0}","J/psi0{rho(770)0{pi+,pi-},pi0}"};
static std::vector<std::string> typeOf(const std::string& s){ auto n=dk::read(s); std::vector<std::string> l; dk::leaves(n,l); l.insert(l.begin(),n.name); return l; }
static Event mkEvent(const EventType& t,TRandom3& rnd){ PhaseSpace ps(t,&rnd); return ps.makeEvent(); }
static void setEvent(Interp& in,const EventType& t,const Event& e){ in.fresh(); for(auto& f: t.getEventFormat()) in.v[f.first]=e[f.second]; }
static void amps(int part){ auto& r=vf::rng(); std::string basis=part%2? "Weyl": "Dirac"; opt("Particle::SpinBasis "+basis); std::string formalism= part>=4? "Canonical": "Covariant"; opt("Particle::SpinFormalism "+formalism); int per=vf::scale(2,14); for(int c=0;c<per;++c){ std::string s=AMPS[vf::scale(1,0)? (part*2+c+(formalism=="Canonical")*3)%AMPS.size(): c]; EventType t(typeOf(s)); MinuitParameterSet mps; std::string name=formalism+"/"+basis+" "+s; vf::begin_case(name); vf::distinct(name); std::vector<std::pair<MatrixElement,std::vector<int>>> v; Particle p(s,t.finalStates()); auto fs=p.getFinalStateParticles(); 
    // random spin states of the head and of the final state
    auto states=[&](int two,bool massless){ std::vector<int> o; if(two==0) o={0}; else if(two==1) o={1,-1}; else if(two==2) o= massless? std::vector<int>{1,-1}: std::vector<int>{1,0,-1}; else o={3,1,-1,-3}; return o; }; quiet([&]{ p.setPolarisationState(r.pick(states(p.props()->twoSpin(),false))); for(auto& f: fs) f->setPolarisationState(r.pick(states(f->props()->twoSpin(),f->props()->mass()==0))); }); Expression E; quiet([&]{ E=p.getExpression(); }); auto wp=mps.add("rho(770)0_mass",Flag::Free,0.77,0.1); MatrixElement me; std::string out=quiet([&]{ me=MatrixElement(p,TotalCoupling(),mps,t.getEventFormat()); CompilerWrapper().compile(me,""); }); if(!EXPECT(me.isReady(),"amps.ready",name+": "+out.substr(0,300))) continue; TRandom3 rnd(r.next()%100000); for(int step=0;step<2;++step){ if(step) wp->setCurrentFitVal(r.uni(0.6,0.9)); me.prepare(); for(int k=0;k<vf::scale(20,60);++k){ vf::eval(); Event e=mkEvent(t,rnd); Interp in; for(auto& q: mps) in.v[q->name()]=q->mean(); setEvent(in,t,e); C x=in(E); auto g=me(e); for(unsigned l=0;l<W;++l){ auto y=lane(g[0],l); EXPECT(std::abs(C(y.real(),y.imag())-x)<=1e-8L*std::abs(x)+1e-13L,"amps.value",name+vf::fmt(" lane %u: compiled (%.12g,%.12g), symbolic (%.12Lg,%.12Lg)",l,y.real(),y.imag(),x.real(),x.imag())); } if(std::abs(x)>0) vf::count("amplitudes"); } } vf::sample(name); }
  vf::require("amplitudes",10); }
// ---- sums over samples
#if ENABLE_AVX
typedef EventListSIMD List;
#else
typedef EventList List;
#endif
struct Sample { EventList plain; std::unique_ptr<List> l; };
static Sample mkSample(const EventType& t,TRandom3& rnd,int n,bool weights){ auto& r=vf::rng(); Sample s; s.plain=EventList(t); for(int i=0;i<n;++i){ Event e=mkEvent(t,rnd); e.setWeight(weights? r.uni(0.2,3): 1); e.setGenPdf(weights? r.uni(0.3,2): 1); s.plain.push_back(e); } s.l.reset(new List(s.plain)); return s; }
struct Ref { std::vector<Expression> E; std::vector<std::string> d; EventType t; MinuitParameterSet* mps; std::vector<C> amp(const Event& e) const { Interp in; for(auto& q: *mps) if(!dynamic_cast<MinuitExpression*>(q)) in.v[q->name()]=q->mean(); setEvent(in,t,e); std::vector<C> o; for(auto& x: E) o.push_back(in(x)); return o; } };
static void sums(int which){ auto& r=vf::rng(); Model M=MODELS[std::vector<int>{3,2,0,1}[which]]; if(which==2) M.rules={"D0{K*(892)bar0,rho(770)0}","D0{a(1)(1260)+,K-}","a(1)(1260)+{rho(770)0,pi+}","a(1)(1260)+[D]{rho(770)0,pi+}","rho(770)0{pi+,pi-}","K*(892)bar0{K-,pi+}"}; if(which==3) M.rules={"D0{rho(770)0,rho(770)0}","rho(770)0{pi+,pi-}","D0{f(2)(1270)0{pi+,pi-},rho(770)0}"}; EventType t(M.type); Built B; fill(B,M,which!=0); { Built I; } for(auto& s: M.rules) if(s.find(M.type[0])==0){ std::string n="Inco_"+s; B.mps.add(n+"_Re",Flag::Free,r.uni(0.5,2),0.1); B.mps.add(n+"_Im",Flag::Free,r.uni(-1,1),0.1); } std::vector<MinuitParameter*> shape; for(std::string n: {"rho(770)0_mass","rho(770)+_width","K*(892)bar0_mass","K*(892)bar-_mass","K*(892)+_width","a(1)(1260)+_mass"}){ double v=ParticlePropertiesList::get(n.substr(0,n.rfind('_')))->mass(); if(n.find("width")!=std::string::npos) v=ParticlePropertiesList::get(n.substr(0,n.rfind('_')))->width(); shape.push_back(B.mps.add(n,Flag::Free,v,0.01)); } auto yield=B.mps.add("yield",Flag::Free,0.8,0.1);
  TRandom3 rnd(r.next()%100000); std::string d=vf::vstr(M.rules); vf::begin_case(d); std::unique_ptr<CoherentSum> S; std::unique_ptr<IncoherentSum> I; std::string out=quiet([&]{ S.reset(new CoherentSum(t,B.mps)); I.reset(new IncoherentSum(t,B.mps,"Inco")); }); if(!EXPECT(S->size()>0&&I->size()==S->size(),"sums.size",d+out.substr(0,200))) return; size_t n=S->size(); Ref F{{},{},t,&B.mps}; for(size_t i=0;i<n;++i){ F.E.push_back((*S)[i].expression()); F.d.push_back((*S)[i].decayDescriptor()); } bool weighted=r.coin(0.7); if(weighted){ S->setWeight(MinuitProxy(yield)); }
  std::vector<Sample> keep; keep.reserve(64); Sample *data=nullptr,*mc=nullptr; auto fresh=[&](int lo,int hi){ keep.push_back(mkSample(t,rnd,r.range(lo,hi),r.coin(0.7))); return &keep.back(); }; auto reset=[&](bool dt){ if(dt){ data=fresh(data? 1: 5,vf::scale(23,60)); bool viaPlain=r.coin(0.3); quiet([&]{ if(viaPlain){ S->setEvents(data->plain); } else S->setEvents(*data->l); I->setEvents(*data->l); }); } else { mc=fresh(2,vf::scale(45,120)); quiet([&]{ S->setMC(*mc->l); I->setMC(*mc->l); }); } };
  reset(true); reset(false); std::string hist="set"; int steps=vf::scale(10,30); for(int step=0;step<steps;++step){ if(step){ int k=r.range(0,6); if(k==0){ reset(true); hist+=" events"; } else if(k==1){ reset(false); hist+=" mc"; } else if(k==2){ auto p=r.pick(B.par); p.first->setCurrentFitVal(r.uni(-2,2)); if(p.second&&r.coin()) p.second->setCurrentFitVal(r.uni(-2,2)); hist+=" coupling"; } else if(k==3||k==4){ auto p=r.pick(shape); p->setCurrentFitVal(p->mean()*r.uni(0.9,1.1)); hist+=" "+p->name(); } else if(k==5){ yield->setCurrentFitVal(r.uni(0.2,2)); hist+=" yield"; } else { quiet([&]{ S->reset(); }); hist+=" reset"; } }
    quiet([&]{ S->prepare(); I->prepare(); if(r.coin(0.3)) S->prepare(); }); std::string dd=d+" after"+hist; vf::begin_case(dd); vf::distinct(dd); double y=weighted? yield->mean(): 1; std::vector<C> g,gi; for(size_t i=0;i<n;++i){ auto z=(*S)[i].coupling(); g.push_back(C(z.real(),z.imag())); auto q=(*I)[i].coupling(); gi.push_back(C(q.real(),q.imag())); EXPECT((*I)[i].decayDescriptor()==F.d[i],"sums.order",dd); }
    // normalisation over the integration sample
    std::vector<std::vector<C>> N(n,std::vector<C>(n)); L w0=0,direct=0,inco=0; for(size_t e=0;e<mc->plain.size();++e){ Event ev=mc->plain[e]; auto A=F.amp(ev); L w=L(ev.weight())/ev.genPdf(); w0+=w; C s=0; for(size_t i=0;i<n;++i){ s+=g[i]*A[i]; inco+=w*std::norm(gi[i]*A[i]); for(size_t j=0;j<n;++j) N[i][j]+=w*A[i]*std::conj(A[j]); } direct+=w*std::norm(s); } direct/=w0; inco/=w0; for(auto& v: N) for(auto& z: v) z/=w0; for(size_t i=0;i<n;++i) for(size_t j=i;j<n;++j){ auto z=S->norm(i,j); L sc=std::sqrt(std::abs(N[i][i]*N[j][j])); EXPECT(std::abs(C(z.real(),z.imag())-N[i][j])<=1e-8L*sc,"sums.bilinear",dd+vf::fmt(": <%zu|%zu> is (%.9g,%.9g), expected (%.9Lg,%.9Lg) over %zu events",i,j,z.real(),z.imag(),N[i][j].real(),N[i][j].imag(),mc->plain.size())); } L scN=0; for(size_t i=0;i<n;++i) scN+=std::abs(g[i])*std::sqrt(N[i][i].real()); scN*=scN; EXPECT(std::abs(S->norm()-direct)<=1e-8L*scN,"sums.norm",dd+vf::fmt(": norm %.12g, expected %.12Lg over %zu events",S->norm(),direct,mc->plain.size())); EXPECT(std::abs(I->norm()-inco)<=1e-8L*inco,"incoherent.norm",dd+vf::fmt(": norm %.12g, expected %.12Lg",I->norm(),inco)); vf::count("norms"); double nrm=S->norm();
    // data events
    std::function<double(const Event&)> ev1,ev2,evI; std::function<complex_t(const Event&)> am; KeyedFunctors<double(Event)> comp; bool full=step%3==0; if(full) quiet([&]{ ev1=S->evaluator(data->l.get()); am=S->amplitudeEvaluator(data->l.get()); comp=S->componentEvaluator(data->l.get()); evI=I->evaluator(data->l.get()); }); L ll=0,llI=0; bool llok=true; unsigned idx=0; for(size_t e=0;e<data->plain.size();++e,++idx){ vf::eval(); Event ev=data->plain[e]; ev.setIndex(idx); auto A=F.amp(ev); C s=0; L sc=0,in=0; for(size_t i=0;i<n;++i){ s+=g[i]*A[i]; sc+=std::abs(g[i]*A[i]); in+=std::norm(gi[i]*A[i]); } L p=y*std::norm(s)/nrm, pt=1e-7L*y*sc*sc/nrm; auto z=S->getVal(ev); EXPECT(std::abs(C(z.real(),z.imag())-s)<=1e-8L*sc,"sums.amplitude",dd+vf::fmt(": event %u of %zu has amplitude (%.9g,%.9g), expected (%.9Lg,%.9Lg)",idx,data->plain.size(),z.real(),z.imag(),s.real(),s.imag())); auto zn=S->getValNoCache(ev); EXPECT(std::abs(C(zn.real(),zn.imag())-s)<=1e-8L*sc,"sums.nocache",dd); EXPECT(std::abs((*S)(ev)-p)<=pt,"sums.probability",dd+vf::fmt(": event %u has probability %.12g, expected %.12Lg",idx,(*S)(ev),p)); auto pb=laneR((*S)((const real_v*)nullptr,unsigned(idx/W)),idx%unsigned(W)); EXPECT(std::abs(pb-p)<=pt,"sums.block",dd+vf::fmt(": event %u has probability %.12g by blocks, expected %.12Lg",idx,pb,p)); EXPECT(std::abs((*I)(ev)-in/inco)<=1e-7L*in/inco,"incoherent.probability",dd+vf::fmt(": event %u has probability %.12g, expected %.12Lg",idx,(*I)(ev),in/inco)); auto ib=laneR((*I)((const real_v*)nullptr,unsigned(idx/W)),idx%unsigned(W)); EXPECT(std::abs(ib-in/inco)<=1e-7L*in/inco,"incoherent.block",dd); EXPECT(std::abs(I->prob_unnormalisedNoCache(ev)-in)<=1e-7L*in,"incoherent.nocache",dd); if(full){ EXPECT(std::abs(ev1(ev)-p)<=pt,"sums.evaluator",dd); auto za=am(ev); EXPECT(std::abs(C(za.real(),za.imag())-s)<=1e-8L*sc,"sums.evaluator",dd); auto cs=comp(ev); size_t k=0; if(EXPECT(cs.size()==n*(n+1)/2,"sums.components",dd)) for(size_t i=0;i<n;++i) for(size_t j=i;j<n;++j,++k){ L w=(i==j? 1: 2)*std::real(g[i]*A[i]*std::conj(g[j]*A[j])); EXPECT(std::abs(cs[k]-w)<=1e-7L*std::abs(g[i]*A[i])*std::abs(g[j]*A[j]),"sums.components",dd+" "+comp.keys[k]); } EXPECT(std::abs(evI(ev)-in/inco)<=1e-7L*in/inco,"incoherent.evaluator",dd+vf::fmt(": %.12g, expected %.12Lg",evI(ev),in/inco)); vf::count("evaluators"); } L tot=p+in/inco; ll+=ev.weight()*std::log(p); llI+=ev.weight()*std::log(tot); llok=llok&&p>1e-4L*y*sc*sc/nrm; vf::count("probabilities"); }
    // the likelihood of the sample
    if(step%2==0){ double v=0,v2=0; std::function<double(const Event&)> pe; quiet([&]{ auto P=make_likelihood(*data->l,*S,*I); v=P.getVal(); pe=P.evaluator(data->l.get()); }); L tol=1e-6L; for(size_t e=0;e<data->plain.size();++e) tol+=1e-7L*data->plain[e].weight(); EXPECT(std::abs(v+2*llI)<=tol*(1+std::abs(llI)),"likelihood.sum",dd+vf::fmt(": -2 log L is %.12g, expected %.12Lg, %zu events",v,-2*llI,data->plain.size())); quiet([&]{ auto P=make_pdf<List>(*S); P.setEvents(*data->l); v2=P.getVal(); }); if(llok) EXPECT(std::abs(v2+2*ll)<=tol*(1+std::abs(ll)),"likelihood.single",dd+vf::fmt(": -2 log L is %.12g, expected %.12Lg, %zu events",v2,-2*ll,data->plain.size())); for(size_t e=0;e<data->plain.size();++e){ Event ev=data->plain[e]; ev.setIndex(e); EXPECT(std::abs(pe(ev)-(*S)(ev)-(*I)(ev))<=1e-9*(std::abs(pe(ev))),"likelihood.evaluator",dd); } vf::count("likelihoods"); }
    if(full){ // fractions
      std::vector<FitFraction> ff; quiet([&]{ ff=S->fitFractions(LinearErrorPropagator(B.mps)); }); std::map<std::string,FitFraction> by; for(auto& f: ff) by[f.name()]=f; L sum=0; std::vector<std::pair<std::string,std::vector<size_t>>> heads; for(auto& s: M.rules) if(s.find(M.type[0])==0){ std::vector<size_t> ix; for(size_t i=0;i<n;++i){ bool has=false; for(auto& q: (*S)[i].coupling) has=has||q.name()==s; if(has) ix.push_back(i); } heads.push_back({s,ix}); } auto frac=[&](const std::vector<size_t>& a,const std::vector<size_t>& b){ C z=0; for(auto i: a) for(auto j: b) z+=g[i]*std::conj(g[j])*N[i][j]; return z.real()/direct; }; for(auto& h: heads){ L w=frac(h.second,h.second); sum+=w; if(h.second.size()==n||h.second.empty()) continue; if(EXPECT(by.count(h.first),"fractions.missing",dd+": "+h.first)) EXPECT(std::abs(by[h.first].val()-w)<=1e-7L*scN/direct,"fractions.value",dd+": "+h.first+vf::fmt(" %.9g, expected %.9Lg",by[h.first].val(),w)); vf::count("fractions"); } for(size_t a=0;a<heads.size();++a) for(size_t b=a+1;b<heads.size();++b){ std::string nm=heads[a].first+"x"+heads[b].first; L w=frac(heads[a].second,heads[b].second); if(EXPECT(by.count(nm),"fractions.missing",dd+": "+nm)) EXPECT(std::abs(by[nm].val()-w)<=1e-7L*scN/direct,"fractions.interference",dd+": "+nm+vf::fmt(" %.9g, expected %.9Lg",by[nm].val(),w)); } quiet([&]{ S->prepare(); }); EXPECT(std::abs(S->norm()-nrm)<=1e-12*std::abs(nrm),"fractions.restores",dd+": computing the fractions changed the normalisation"); } (void)llok; }
  vf::sample(d+" history:"+hist); vf::require("probabilities",15); }
void harness(){
  for(int i=0;i<2;++i) vf::section(vf::fmt("forbidden%d",i),[]{ forbidden(vf::scale(60,600)); },400);
  vf::section("rules0",[]{ rules("cartesian","rad"); }); vf::section("rules1",[]{ rules("polar","rad"); }); vf::section("rules2",[]{ rules("polar","deg"); }); vf::section("conjugate0",[]{ conjugate("cartesian"); }); vf::section("conjugate1",[]{ conjugate("polar"); });
  for(int i=0;i<6;++i) vf::section(vf::fmt("amps%d",i),[i]{ amps(i); },300);
  for(int i=0;i<4;++i) vf::section(vf::fmt("sums%d",i),[i]{ sums(i); },400);
}
