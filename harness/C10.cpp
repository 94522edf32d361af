// C10: decay descriptors: parse, print, reorder, conjugate
#include "decay.h"
#include "AmpGen/Particle.h"
#include "AmpGen/Lineshapes.h"
#include <functional>
using namespace AmpGen; using namespace dk;
static const std::vector<std::string> shapes={"BW","SBW","FormFactor","GounarisSakurai","Flatte","LASS","GSpline.EFF","BW.BL","SBW.NW","ExpFF","FormFactor.NFF","kMatrix.pole.1","Spline.alpha"};
static std::vector<std::string>& usable(){ static std::vector<std::string> v; if(v.empty()){ std::set<std::string> seen; auto l=ParticlePropertiesList::getMe(); for(auto it=l->begin();it!=l->end();++it){ std::string n=it->name(); auto p=props(n); if(!p||p->name()!=n||p->twoSpin()<0||n.find_first_of("{}[],;= ")!=std::string::npos) continue; std::string c=conjName(n); if(!props(c)||(c==n&&p->hasDistinctAnti())||props(c)->name()!=c||props(c)->mass()!=p->mass()) continue; if(p->pdgID()&&props(n)!=ParticlePropertiesList::get(p->pdgID(),true)) continue; if(p->pdgID()&&p->hasDistinctAnti()&&ParticlePropertiesList::get(-p->pdgID(),true)!=props(c)) continue; if(seen.insert(n).second) v.push_back(n); } std::sort(v.begin(),v.end()); } return v; }
static std::vector<std::string> common={"pi+","pi-","pi0","K+","K-","K0","Kbar0","gamma0","p+","pbar-","eta0","mu+","mu-","e+","e-","nu(e)0","rho(770)0","rho(770)+","K*(892)0","K*(892)bar0","D0","D+","B+","Lambda(c)+","J/psi(1S)0","phi(1020)0","a(1)(1260)+","f(0)(980)0","NonResS0","KS0","D*(2010)+"};
static std::string name(){ auto& r=vf::rng(); for(;;){ const std::string& n= r.coin(0.5)? r.pick(common): r.pick(usable()); auto p=props(n); if(p&&p->name()==n) return n; } }
static Node leafOr(int depth);
static Node tree(int depth){ auto& r=vf::rng(); for(int tries=0;;++tries){ Node n; n.name=name(); int k= r.coin(0.75)?2: r.coin(0.7)?3: r.range(1,5); for(int i=0;i<k;++i) n.d.push_back(leafOr(depth-1)); if(r.coin(0.15)&&k>1) n.d[1]=n.d[0];
    // siblings must be distinguishable: equal names only if equal; no three of equal mass and spin
    bool ok=true; std::map<std::string,std::string> seen; std::map<std::pair<double,int>,std::set<std::string>> ms; for(auto& d: n.d){ auto c=canonical(d); if(seen.count(d.name)&&seen[d.name]!=c) ok=false; seen[d.name]=c; auto p=props(d.name); ms[{p->mass(),p->twoSpin()}].insert(d.name); } for(auto& [x,s]: ms) if(s.size()>2) ok=false; if(!ok) continue;
    int m=minL(n); if(m!=999&&k==2){ if(r.coin(0.3)){ n.L=r.range(1,6); } else if(r.coin(0.1)&&m==0) n.L=0; if(r.coin(0.15)) n.S=r.range(1,9); }
    if(r.coin(0.3)){ n.ls=r.pick(shapes); if(!Lineshape::Factory::isLineshape(n.ls)) n.ls=""; if(n.ls=="BW"&&props(n.name)->width()<ParticlePropertiesList::getMe()->quasiStableThreshold()) n.ls=""; }
    for(auto f: {"BgSpin0","Inco","NoSym"}) if(r.coin(0.05)) n.flags.push_back(f); if(r.coin(0.08)) n.attrs.push_back("key="+std::to_string(r.range(0,99))); return n; } }
static Node leafOr(int depth){ if(depth<=0||vf::rng().coin(0.45)){ Node n; n.name=name(); return n; } return tree(depth); }
static std::string shape(const Node& n){ std::string s=std::to_string(n.d.size())+(n.L>=0?"L":"")+(n.S?"S":"")+(n.ls.empty()?"":"l")+(n.flags.empty()?"":"f"); for(auto& d: n.d) s+="("+shape(d)+")"; return s; }
// the parsed tree against the model, daughters in any order
static std::string defmod;
static bool agrees(const Particle& p,const Node& n,std::string& why){ auto q=props(n.name); if(p.name()!=n.name||p.props()!=q){ why=p.name()+" vs "+n.name; return false; } int m=minL(n); unsigned L= n.L>0? n.L: m; if(n.d.size()==2&&p.L()!=L){ why=n.name+" L="+std::to_string(p.L())+" want "+std::to_string(L); return false; } if(n.d.size()!=2&&n.L>0&&p.L()!=unsigned(n.L)){ why="L"; return false; } if(p.S()!=n.S){ why=n.name+" S"; return false; }
  std::string ls=n.ls; if(ls.empty()||ls=="BW"){ bool narrow=nonres(n.name)||q->width()<ParticlePropertiesList::getMe()->quasiStableThreshold(); ls= q->isPhoton()?"Photon": narrow?"FormFactor":"BW"; } if(!defmod.empty()&&ls.find('.')==std::string::npos) ls+="."+defmod; if(p.lineshape()!=ls){ why=n.name+" lineshape "+p.lineshape()+" want "+ls; return false; } for(auto& a: n.attrs){ auto e=a.find('='); auto v=p.attribute(a.substr(0,e)); if(!bool(v)||*v!=a.substr(e+1)){ why=n.name+" attribute "+a; return false; } } if(p.isStable()!=n.d.empty()){ why="stable"; return false; }
  auto ds=p.daughters(); if(ds.size()!=n.d.size()){ why=n.name+" daughters"; return false; } std::vector<bool> used(ds.size()); std::function<bool(size_t)> match=[&](size_t i){ if(i==n.d.size()) return true; for(size_t k=0;k<ds.size();++k) if(!used[k]&&ds[k]->name()==n.d[i].name&&agrees(*ds[k],n.d[i],why)){ used[k]=true; if(match(i+1)) return true; used[k]=false; } return false; }; if(!match(0)){ if(why.empty()) why=n.name+" daughters differ"; return false; } why=""; return true; }
static std::string inOrder(const Node& n){ std::string s=n.name; if(n.d.size()){ s+="{"; for(auto& d: n.d) s+=inOrder(d)+","; s+="}"; } return s; }
static bool flavoured(const Node& n){ if(n.d.empty()) return true; if(!props(n.name)->hasDistinctAnti()||props(n.name)->pdgID()==0) return false; for(auto& d: n.d) if(!flavoured(d)) return false; return true; }
static void one(const Node& n){
  auto& r=vf::rng(); std::string t=write(n,false); vf::begin_case(t); vf::eval(); vf::distinct(shape(n)); vf::sample(t); Particle p(t); std::string u=p.uniqueString(), why; EXPECT(agrees(p,n,why),"parse",t+": "+why); EXPECT(p.isStateGood(),"good",t); EXPECT(p.decayDescriptor()==u,"descriptor",t);
  { auto back=read(u); EXPECT(canonical(back)==canonical(n),"print",t+" printed as "+u); Particle q(u); EXPECT(q.uniqueString()==u,"print.stable",u+" -> "+q.uniqueString()); EXPECT(agrees(q,n,why),"print.parse",u+": "+why); EXPECT(p.matches(q)==Particle::MatchState::Exact||p.matches(q)&0,"matches.self",u); }
  for(int k=0;k<4;++k){ std::string s=write(n,true); Particle q(s); EXPECT(q.uniqueString()==u,"order",s+" -> "+q.uniqueString()+" but "+t+" -> "+u); EXPECT(p.matches(q)==Particle::MatchState::Exact&&q.matches(p)==Particle::MatchState::Exact,"matches.order",s); }
  // conjugation
  Node c=conj(n); std::string ct=write(c,r.coin()); Particle pc(ct); Particle cp=p.conj(); EXPECT(cp.uniqueString()==pc.uniqueString(),"conj",t+" conj -> "+cp.uniqueString()+" but "+ct+" -> "+pc.uniqueString()); EXPECT(agrees(cp,c,why),"conj.tree",t+": "+why); if(flavoured(n)){ vf::count("conj.order"); EXPECT(inOrder(conj(read(u)))==inOrder(read(cp.uniqueString())),"conj.order",u+" conj -> "+cp.uniqueString()); } EXPECT(cp.conj().uniqueString()==u,"conj.twice",t+" -> "+cp.conj().uniqueString()); EXPECT(p.uniqueString()==u,"conj.const",t); EXPECT(agrees(Particle(cp.uniqueString()),c,why),"conj.print",cp.uniqueString()+": "+why);
  { Particle h=p.conj(false); Node ch=conj(n,false); if(minL(ch)==minL(n)) EXPECT(h.uniqueString()==Particle(write(ch,false)).uniqueString(),"conj.daughters",t+" -> "+h.uniqueString()); } { Particle v(t); v.conjThis(); std::string s=v.makeUniqueString(); EXPECT(canonical(read(s))==canonical(c),"conj.inplace",t+" -> "+s); v.conjThis(); EXPECT(v.makeUniqueString()==u,"conj.inplace.twice",t); }
  // the same decay put together from its parts
  if(n.ls.empty()&&n.L<0&&!n.S&&n.flags.empty()&&n.attrs.empty()){ std::vector<Particle> ds; for(auto& d: n.d) ds.emplace_back(write(d,true)); r.shuffle(ds); EXPECT(Particle(n.name,ds).uniqueString()==u,"assembled",t); if(ds.size()==2){ EXPECT(Particle(n.name,ds[0],ds[1]).uniqueString()==u,"assembled.pair",t); auto q=props(n.name); if(q->pdgID()&&ParticlePropertiesList::get(q->pdgID(),true)==q) EXPECT(Particle(q->pdgID(),ds[0],ds[1]).uniqueString()==u,"assembled.id",t); } }
  // changed after parsing
  if(n.d.size()==2&&minL(n)!=999){ Particle v(t); Node w=n; int k=r.range(0,2); if(k==0){ w.L=r.range(1,6); v.setOrbital(w.L); } else if(k==1){ w.flags.push_back("NoSym"); std::sort(w.flags.begin(),w.flags.end()); w.flags.erase(std::unique(w.flags.begin(),w.flags.end()),w.flags.end()); v.addModifier("NoSym"); } else { w.ls="ExpFF"; v.setLineshape("ExpFF"); } EXPECT(canonical(read(v.uniqueString()))==canonical(w),"changed."+std::to_string(k),t+" -> "+v.uniqueString()); EXPECT(Particle(v.uniqueString()).uniqueString()==v.uniqueString(),"changed.stable",v.uniqueString()); if(k==0){ bool same= w.L==int(p.L()); EXPECT(((p.matches(v)&Particle::MatchState::DifferentOrbital)==0)==same,"matches.orbital",t); } }
  // final state indices
  { std::vector<std::string> fs; leaves(n,fs); if(fs.size()<=6){ std::vector<std::string> ev=fs; r.shuffle(ev); Particle q(t,ev); EXPECT(q.isStateGood(),"index.good",t); std::set<unsigned> used; for(auto& f: q.getFinalStateParticles()){ EXPECT(f->index()<ev.size()&&ev[f->index()]==f->name()&&f->originalIndex()==f->index(),"index.name",t); used.insert(f->index()); } EXPECT(used.size()==ev.size(),"index.distinct",t); EXPECT(q.uniqueString()==u,"index.descriptor",t); auto f=q.getFinalStateParticles(); for(size_t i=0;i<f.size();++i) EXPECT(f[i]->index()==i,"index.sorted",t); auto nu=q.getFinalStateParticles(false); EXPECT(nu.size()==fs.size(),"final.count",t);
      std::map<std::string,int> mult; for(auto& x: fs) ++mult[x]; size_t np=1; for(auto& [x,m]: mult) for(int i=2;i<=m;++i) np*=i; auto o=q.identicalDaughterOrderings(); std::set<std::vector<size_t>> so(o.begin(),o.end()); EXPECT(o.size()==np&&so.size()==np,"orderings.count",t); for(auto& x: o) for(size_t i=0;i<x.size();++i) EXPECT(ev[x[i]]==ev[i],"orderings.identical",t);
      std::vector<std::string> more=ev; more.push_back("tau+"); if(!mult.count("tau+")) EXPECT(!Particle(t,more).isStateGood(),"index.missing",t); } }
  // collapse of short-lived states
  { std::function<void(const Node&,std::vector<Node>&,bool)> flat=[&](const Node& x,std::vector<Node>& o,bool top){ Node y; y.name=x.name; for(auto& d: x.d) flat(d,y.d,false); bool qs=props(x.name)->width()<ParticlePropertiesList::getMe()->quasiStableThreshold()&&x.name!="gamma0"; if(top||y.d.empty()||qs) o.push_back(y); else for(auto& z: y.d) o.push_back(z); }; std::function<bool(const Node&)> single=[&](const Node& x){ if(x.d.size()==1) return true; for(auto& d: x.d) if(single(d)) return true; return false; }; if(!single(n)){ std::vector<Node> o; flat(n,o,true); std::function<std::string(const Node&)> bare=[&](const Node& x){ std::vector<std::string> k; for(auto& d: x.d) k.push_back(bare(d)); std::sort(k.begin(),k.end()); std::string s=x.name+"{"; for(auto& y: k) s+=y+","; return s+"}"; }; std::string s=p.quasiStableTree().uniqueString(); EXPECT(bare(read(s))==bare(o[0]),"quasistable",t+" -> "+s); EXPECT(p.uniqueString()==u,"quasistable.const",t); } }
  // validity of the text
  { EXPECT(Particle::isValidDecayDescriptor(u),"valid",u); auto b=u; b.insert(b.size()-1,"}"); EXPECT(!Particle::isValidDecayDescriptor(b),"invalid.braces",b); auto z=u; z.insert(z.rfind('}'),",notAParticle"); EXPECT(!Particle::isValidDecayDescriptor(z),"invalid.name",z); }
}
// different decays have different descriptors
static void differ(const Node& n){ auto& r=vf::rng(); Node m=n; Node* x=&m; while(!x->d.empty()&&r.coin(0.6)) x=&x->d[r.range(0,x->d.size()-1)]; int k=r.range(0,3); std::string was=x->name; if(k==0){ x->name=name(); } else if(k==1&&x->d.size()==2&&minL(*x)!=999) x->L=r.range(1,6); else if(k==2&&!x->d.empty()) x->ls="ExpFF"; else if(k==3&&x->d.size()==2&&minL(*x)!=999) x->S=r.range(1,9); std::string a=write(n,false), b=write(m,false); bool same=canonical(n)==canonical(m); vf::begin_case(a+" "+b); vf::eval(); Particle p(a), q(b); EXPECT((p.uniqueString()==q.uniqueString())==same,"differ",a+" "+b); if(k==0&&was!=x->name&&m.d.size()<=3) { bool ex=p.matches(q)==Particle::MatchState::Exact; if(ex) EXPECT(same,"matches.differ",a+" "+b); } }
// decays put together or changed through the interface rather than parsed
static std::vector<Node*> inner(Node& n){ std::vector<Node*> o; for(auto& d: n.d){ if(!d.d.empty()) o.push_back(&d); auto k=inner(d); o.insert(o.end(),k.begin(),k.end()); } return o; }
static int count(const std::string& s,const std::string& t){ int c=0; for(size_t i=0;(i=s.find(t,i))!=std::string::npos;i+=t.size()) ++c; return c; }
static void labels(const Particle& p,bool rec,bool top,std::vector<std::string>& o){ if(!top) o.push_back(p.props()->label()); if(top||rec) for(auto& d: p.daughters()) labels(*d,rec,false,o); }
static void edit(const Node& n){
  auto& r=vf::rng(); std::string t=write(n,false), why; vf::begin_case("edit "+t); vf::eval(); vf::distinct(shape(n)); Particle ref(t);
  auto says=[&](const Particle& p,const Node& m,const char* key){ EXPECT(p.decayDescriptor()==p.uniqueString(),key,"two descriptors"); EXPECT(canonical(read(p.decayDescriptor()))==canonical(m),key,"want "+write(m,false)+" got "+p.decayDescriptor()); EXPECT(agrees(p,m,why),key,write(m,false)+": "+why); };
  { // an undecayed state replaced by its decay
    Node m=n; std::vector<size_t> ok; for(size_t k=0;k<inner(m).size();++k){ Node c=n; Node* x=inner(c)[k]; if(nonres(x->name)) continue; Node leaf; leaf.name=x->name; *x=leaf; std::vector<std::string> fs; leaves(c,fs); if(std::count(fs.begin(),fs.end(),leaf.name)==1) ok.push_back(k); }
    if(!ok.empty()){ Node* x=inner(m)[r.pick(ok)]; Node sub=*x; Node leaf; leaf.name=sub.name; *x=leaf; Particle p(write(m,true)); Particle s(write(sub,true)); Particle other("Z0"); std::string was=p.decayDescriptor(); std::vector<std::string> fs; leaves(m,fs); if(!std::count(fs.begin(),fs.end(),"Z0")) EXPECT(!p.expand(other)&&p.decayDescriptor()==was,"expand.none",was+" -> "+p.decayDescriptor()); EXPECT(p.expand(s),"expand.done",was); says(p,n,"expand"); vf::count("expanded"); Node ch=conj(n,false); if(minL(ch)==minL(n)) EXPECT(canonical(read(p.conj(false).decayDescriptor()))==canonical(read(ref.conj(false).decayDescriptor())),"expand.conj",t+" -> "+p.conj(false).decayDescriptor()); EXPECT(canonical(read(p.conj().decayDescriptor()))==canonical(conj(n)),"expand.conj.all",t); } }
  { Particle c=ref.clone(); EXPECT(c.uniqueString()==ref.uniqueString(),"clone",t+" -> "+c.uniqueString()); says(c,n,"clone.tree"); std::function<void(Particle&)> spoil=[&](Particle& p){ for(auto& d: p.daughters()){ spoil(*d); d->clearDecayProducts(); d->setName("K+"); } }; spoil(c); says(ref,n,"clone.shared"); }
  { size_t i=r.range(0,n.d.size()-1); auto ds=ref.daughters(); // same state, with and without its decay
    Node bare=n; size_t at=0; for(size_t k=0;k<n.d.size();++k) if(n.d[k].name==ds[i]->name()) at=k; bare.d[at]=Node(); bare.d[at].name=n.d[at].name; bool twice=false; for(size_t k=0;k<n.d.size();++k) if(k!=at&&n.d[k].name==n.d[at].name) twice=true; if(!twice&&!nonres(n.d[at].name)){ Particle p=ref.clone(); Particle st(n.d[at].name); p.setDaughter(st,(unsigned)i); says(p,bare,"replace.bare"); p.setDaughter((unsigned)i,Particle(write(n.d[at],true))); says(p,n,"replace.back"); vf::count("replaced"); } }
  if(n.ls.empty()&&n.L<0&&!n.S&&n.flags.empty()&&n.attrs.empty()){ std::vector<Particle> ds; for(auto& d: n.d) ds.emplace_back(write(d,true)); Particle p(n.name); p.setDaughters(ds); says(p,n,"setDaughters"); if(!(nonres(n.name))){ Particle q(n.name,3u); for(auto& d: ds) q.addDaughter(std::make_shared<Particle>(d)); EXPECT(q.daughters().size()==n.d.size(),"addDaughter",t); for(size_t k=0;k<ds.size();++k) EXPECT(q.daughter(k)->uniqueString()==ds[k].uniqueString()&&!q.daughter(k)->isHead(),"addDaughter.order",t); EXPECT(count(q.uniqueString(),"{")==count(ref.uniqueString(),"{"),"addDaughter.text",q.uniqueString()); } vf::count("assembled"); }
  { Particle p=ref.clone(); p.clearDecayProducts(); EXPECT(p.isStable()&&p.daughters().empty()&&p.uniqueString().find('{')==std::string::npos,"cleared",p.uniqueString()); Particle q(n.name,2u); std::string other=name(); q.setName(other); EXPECT(q.name()==other&&q.props()==props(other)&&q.parity()==props(other)->P()&&q.uniqueString().compare(0,other.size(),other)==0,"renamed",n.name+" to "+other+": "+q.uniqueString()); }
  for(auto& d: ref.daughters()){ EXPECT(!d->isHead()&&d->parent()==&ref,"parent",t); { auto x=ref.daughter(d->name(),1); EXPECT(x&&x->name()==d->name(),"daughter.byname",t); } } EXPECT(ref.isHead(),"head",t); for(auto& f: ref.getFinalStateParticles()){ auto x=ref.daughter(f->name()); EXPECT(x&&x->name()==f->name()&&x->isStable(),"final.byname",t); } EXPECT(!ref.daughter("Z0")||count(t,"Z0"),"final.absent",t);
  { auto ds=ref.getFinalStateParticles(false); for(auto& a: ds) for(auto& b: ds){ bool lt=*a<*b; EXPECT(!(lt&&*b<*a),"order.antisymmetric",a->name()+" "+b->name()); EXPECT((*b>*a)==lt,"order.greater",a->name()+" "+b->name()); } }
  { auto ls=ref.lineshape(); EXPECT(ref.lineshapeContains({"??",ls.substr(0,2)})&&!ref.lineshapeContains({"??"})&&!ref.lineshapeContains({}),"lineshapeContains",ls); }
  for(bool head: {false,true}) for(bool rec: {false,true}){ std::string x=ref.texLabel(head,rec); std::vector<std::string> w; labels(ref,rec,true,w); size_t i=0; if(head){ EXPECT(x.compare(0,ref.props()->label().size(),ref.props()->label())==0&&count(x,"\\rightarrow")==1,"tex.head",t+": "+x); i=x.find("\\rightarrow"); } else EXPECT(count(x,"\\rightarrow")==0,"tex.nohead",t+": "+x); bool all=i!=std::string::npos; for(auto& y: w){ if(!all) break; i=x.find(y,i); if(i==std::string::npos) all=false; else i+=y.size(); } EXPECT(all,"tex.daughters",t+": "+x); EXPECT(count(x,"\\left[")==count(x,"\\right]"),"tex.braces",t+": "+x); }
}
// Particle::DefaultModifier qualifies every lineshape that has no qualifier of its own
static void modified(int n){ auto& r=vf::rng(); defmod=r.pick({"BL","N","BELLE2018"}); OptionsParser::setArg("Particle::DefaultModifier "+defmod); for(int i=0;i<n;++i) vf::capture([&]{ Node m=tree(r.range(1,4)); std::string t=write(m,false), why; vf::begin_case(defmod+": "+t); vf::eval(); vf::distinct(shape(m)); Particle p(t); EXPECT(agrees(p,m,why),"modifier.parse",t+": "+why); std::string u=p.uniqueString(); Particle q(u); EXPECT(q.uniqueString()==u,"modifier.print",t+" -> "+u+" -> "+q.uniqueString()); EXPECT(agrees(q,m,why),"modifier.print.parse",u+": "+why); Particle c=p.clone(); EXPECT(agrees(c,m,why)&&c.uniqueString()==u,"modifier.clone",u+": "+why); EXPECT(p.matches(q)==Particle::MatchState::Exact,"modifier.matches",u); Particle o(write(m,true)); EXPECT(o.uniqueString()==u,"modifier.order",t); vf::count("modified"); }); vf::require("modified",n); }
void harness(){
  vf::section("modifier",[]{ modified(vf::scale(600,8000)); },vf::scale(200,800));
  for(int s=0;s<vf::scale(2,8);++s) vf::section("edits"+std::to_string(s),[]{ for(int i=0;i<vf::scale(400,6000);++i){ std::string o=vf::capture([&]{ edit(tree(vf::rng().range(1,4))); }); } vf::require("expanded",20); vf::require("replaced",50); vf::require("assembled",20); },vf::scale(200,800));
  for(int s=0;s<vf::scale(6,16);++s) vf::section("trees"+std::to_string(s),[]{ vf::count("usable",usable().size()); for(int i=0;i<vf::scale(400,6000);++i){ std::string o=vf::capture([&]{ Node n=tree(vf::rng().range(1,4)); one(n); differ(n); }); } vf::require("usable",300); },vf::scale(200,800));
}
