// C11: quantum number selection rules
#include "decay.h"
#include "AmpGen/Particle.h"
using namespace AmpGen; using namespace dk;
static std::vector<std::string>& names(){ static std::vector<std::string> v; if(v.empty()){ std::set<std::string> seen; auto l=ParticlePropertiesList::getMe(); for(auto it=l->begin();it!=l->end();++it){ std::string n=it->name(); auto p=props(n); if(!p||p->name()!=n||p->twoSpin()<0||n.find_first_of("{}[],;= ")!=std::string::npos) continue; if(seen.insert(n).second) v.push_back(n); } std::sort(v.begin(),v.end()); } return v; }
static bool errors(const std::string& o){ return o.find("ERROR")!=std::string::npos; }
static void one(const std::string& A,const std::string& B,const std::string& C){
  auto& r=vf::rng(); Node n; n.name=A; n.d.resize(2); n.d[0].name=B; n.d[1].name=C; std::string t=write(n,r.coin()); vf::begin_case(t); vf::eval(); auto a=props(A), b=props(B), c=props(C); int J=a->twoSpin(), s1=b->twoSpin(), s2=c->twoSpin(); vf::distinct(std::to_string(J)+std::to_string(a->P())+std::to_string(s1)+std::to_string(b->P())+std::to_string(s2)+std::to_string(c->P())+(strong(n)?"s":"w"));
  std::unique_ptr<Particle> p; std::string o=vf::capture([&]{ p.reset(new Particle(t)); }); bool st=strong(n); int m=minL(n);
  bool charge= a->charge()==b->charge()+c->charge(); bool allowed=charge&&m!=999; EXPECT(errors(o)==!allowed,allowed?"conserving.accepted":"violating.reported",t+": "+o); vf::count(allowed?"allowed":"forbidden"); vf::count(st?"strong":"weak");
  for(int par=0;par<2;++par){ auto w=couplings(J,a->P(),s1,b->P(),s2,c->P(),par); std::vector<std::pair<double,double>> g; vf::capture([&]{ g=p->spinOrbitCouplings(par); }); std::vector<std::pair<double,double>> ww; for(auto& x: w) ww.emplace_back(x.first,x.second/2.0); std::sort(g.begin(),g.end()); std::sort(ww.begin(),ww.end()); std::string d=t+(par?" (parity)":"")+" got:"; for(auto& x: g) d+=" ("+vf::str(x.first)+","+vf::str(x.second)+")"; d+=" want:"; for(auto& x: ww) d+=" ("+vf::str(x.first)+","+vf::str(x.second)+")"; EXPECT(g==ww,"couplings",d);
    auto rg=p->orbitalRange(par); if(w.empty()) EXPECT(rg.first>100,"range.none",t); else { int lo=999,hi=0; for(auto& x: w){ lo=std::min(lo,x.first); hi=std::max(hi,x.first); } EXPECT(int(rg.first)==lo&&int(rg.second)==hi,"range",t+vf::fmt(" (%zu,%zu) want (%d,%d)",rg.first,rg.second,lo,hi)); } }
  for(unsigned L=0;L<8;++L) EXPECT(p->conservesParity(L)==parityOK(a->P(),b->P(),c->P(),L),"parity",t); EXPECT(int(p->L())==m,"default",t+vf::fmt(" L=%u want %d",p->L(),m)); EXPECT(p->parity()==a->P()&&p->spin()==J/2.0&&p->mass()==a->mass(),"properties",t);
  EXPECT(p->isWeakDecay()== (!nonres(A)&&!(quarksOf(n)==(quarksOf(n.d[0])+quarksOf(n.d[1])))),"weak",t);
  EXPECT(p->quarks()==quarksOf(n)&&p->daughterQuarks()==(quarksOf(n.d[0])+quarksOf(n.d[1])),"quarks",t); if(!nonres(A)) { auto q=p->daughterQuarks(); EXPECT((p->quarks()==q)==(props(A)->quarkContent()==q),"flavour",t); }
  // explicitly chosen values are kept
  for(int k=0;k<3;++k){ n.L=r.range(1,6); n.S=r.coin(0.4)?r.range(1,9):0; std::string e=write(n,true); vf::capture([&]{ Particle q(e); EXPECT(int(q.L())==n.L&&int(q.S())==n.S,"explicit",e+vf::fmt(" L=%u",q.L())); EXPECT(q.conservesParity(q.L())==parityOK(a->P(),b->P(),c->P(),n.L),"explicit.parity",e); q.setOrbital(2); EXPECT(q.L()==2,"set",e); }); }
  if(m==0){ n.L=0; n.S=0; vf::capture([&]{ EXPECT(Particle(write(n,false)).L()==0,"explicit.S",t); }); }
  // conjugation keeps the selection
  { std::string cj=conjName(A); if(props(cj)&&props(conjName(B))&&props(conjName(C))&&a->pdgID()&&b->pdgID()&&c->pdgID()) vf::capture([&]{ Particle q=p->conj(); Node cn=conj(n); cn.L=-1; cn.S=0; if(minL(cn)==m) EXPECT(q.L()==p->L(),"conj",t); }); }
}
void harness(){
  // one representative for every spin, parity and statistics class: all triples
  vf::section("classes",[]{ std::map<std::tuple<int,int>,std::vector<std::string>> cl; for(auto& n: names()){ auto p=props(n); cl[{p->twoSpin(),p->P()}].push_back(n); } vf::count("classes",cl.size()); for(auto& [x,X]: cl) for(auto& [y,Y]: cl) for(auto& [z,Z]: cl) if(vf::thorough()||vf::rng().coin(0.35)) one(vf::rng().pick(X),vf::rng().pick(Y),vf::rng().pick(Z)); vf::require("classes",12); },600);
  // real decays: triples that conserve charge and flavour
  for(int s=0;s<vf::scale(4,12);++s) vf::section("decays"+std::to_string(s),[]{ auto& r=vf::rng(); int done=0; for(int i=0;done<vf::scale(800,12000)&&i<40000000;++i){ auto &A=r.pick(names()), &B=r.pick(names()), &C=r.pick(names()); auto a=props(A), b=props(B), c=props(C); if(a->charge()!=b->charge()+c->charge()||(a->twoSpin()+b->twoSpin()+c->twoSpin())%2) { if(r.coin(0.999)) continue; } Node n; n.name=A; n.d.resize(2); n.d[0].name=B; n.d[1].name=C; if(!strong(n)&&r.coin(0.8)) continue; ++done; one(A,B,C); } vf::require("allowed",100); vf::require("forbidden",20); vf::require("strong",100); vf::require("weak",50); },vf::scale(200,900));
  // everything else the decay tree says about itself
  vf::section("bodies",[]{ auto& r=vf::rng(); for(int i=0;i<vf::scale(1000,10000);++i){ std::string A=r.pick(names()); int k=r.pick({1,3,4}); Node n; n.name=A; int q=0; for(int j=0;j<k;++j){ Node d; d.name=r.pick(names()); n.d.push_back(d); q+=props(d.name)->charge(); } std::string t=write(n,false); vf::begin_case(t); vf::eval(); vf::distinct(std::to_string(k)+A); std::unique_ptr<Particle> p; std::string o=vf::capture([&]{ p.reset(new Particle(t)); }); EXPECT(errors(o)==(q!=props(A)->charge()),"nbody.charge",t+": "+o); EXPECT(p->L()==0,"nbody.L",t); Particle st(r.pick(names()),3u); EXPECT(st.index()==3&&st.isStable()&&!st.name().empty()&&st.props()&&st.props()->name()==st.name(),"indexed",st.name()); } },300);
}
