// C08: the particle database against an independent reading of its tables
#include "ptable.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/OptionsParser.h"
#include <unistd.h>
#include <set>
#include <sys/stat.h>
using namespace AmpGen; using namespace pt;
static std::string options(){ std::string r= getenv("VF_REPO")? getenv("VF_REPO"): "/repo"; return r+"/options/"; }
static bool near(double a,double b){ return std::abs(a-b)<=1e-12*std::abs(b); }
static std::vector<Q6> content(const QuarkContent& q){ std::vector<Q6> v; for(size_t i=0;i<q.size();++i){ Q6 a; for(int k=0;k<6;++k) a[k]=q[i][k]; v.push_back(a); } return v; }
static void same(const ParticleProperties* p,const Entry& e,const std::string& how){
  std::string d=how+" "+e.name+" ("+std::to_string(e.id)+")"; vf::eval(); vf::distinct(how+e.name); if(!EXPECT(p!=nullptr,"found",d)) return;
  EXPECT(near(p->mass(),e.r.mass*1e-3),"mass",d+" "+vf::str(p->mass())); EXPECT(near(p->mErrPlus(),e.r.mp*1e-3)&&near(p->mErrMinus(),e.r.mm*1e-3),"mass.error",d); EXPECT(near(p->width(),e.r.w*1e-3),"width",d+" "+vf::str(p->width())); EXPECT(near(p->wErrPlus(),e.r.wp*1e-3)&&near(p->wErrMinus(),e.r.wm*1e-3),"width.error",d);
  if(e.r.w>0) EXPECT(std::abs(p->lifetime()*e.r.w/6.582119514e-13-1)<1e-6,"lifetime",d+" "+vf::str(p->lifetime()));
  EXPECT(p->name()==e.name,"name",d+" got "+p->name()); EXPECT(p->pdgID()==e.id,"id",d+" got "+std::to_string(p->pdgID())); EXPECT(p->charge()==e.q,"charge",d); EXPECT(p->twoSpin()==e.r.twoJ,"spin",d); EXPECT(p->P()==e.P,"parity",d); EXPECT(p->C()==e.r.C,"Cparity",d); EXPECT(p->G()==e.r.G,"Gparity",d); EXPECT(p->I()==e.r.f[6],"isospin",d); if(!e.r.f[15].empty()) EXPECT(p->S()==e.r.f[15][0],"status",d); EXPECT(p->R()==atoi(e.r.f[14].c_str()),"R",d);
  EXPECT(p->hasDistinctAnti()==e.r.anti,"own.anti",d); EXPECT(p->isValid(),"valid",d); std::string J= e.r.twoJ==-1? "?": e.r.twoJ%2? std::to_string(e.r.twoJ)+"/2": std::to_string(e.r.twoJ/2); EXPECT(p->J()==J,"J",d+" got "+p->J()); EXPECT(p->isFermion()==(e.r.twoJ%2==1)&&p->isBoson()==!(e.r.twoJ%2==1),"statistics",d);
  auto w=quarks(e.r.f[17]); if(e.bar) for(auto& q: w) for(auto& x: q) x=-x; EXPECT(content(p->quarkContent())==w,"quarks",d+" "+e.r.f[17]);
  EXPECT(p->isNonResonant()==(e.name.find("NonRes")!=std::string::npos),"nonresonant",d); if(e.r.twoJ>=0&&e.r.twoJ<=7){ static const char* nb[]={"S","V","T","H"}, *nf[]={"f","r","e","c"}, *na[]={"F","R","E","C"}; std::string w= e.r.twoJ%2==0? nb[e.r.twoJ/2]: e.id>0? nf[e.r.twoJ/2]: na[e.r.twoJ/2]; EXPECT(p->spinName()==w,"spinName",d+" "+p->spinName()); }
  { int a=std::abs(e.id); EXPECT(p->isPhoton()==(e.id==22),"photon",d); EXPECT(p->isNeutrino()==(a==12||a==14||a==16),"neutrino",d); if(e.r.twoJ>=0&&e.r.twoJ<=4&&e.r.twoJ!=3){ auto po=p->polarisations(); size_t n= e.id==22? 2: e.r.twoJ+1; std::set<int> u(po.begin(),po.end()); EXPECT(po.size()==n&&u.size()==n,"polarisations",d); for(int x: po) EXPECT(u.count(-x)==1 && (e.r.twoJ!=1||std::abs(x)==1) && 2*std::abs(x)<=std::max(2,e.r.twoJ),"polarisations.values",d); } }
  // conjugation
  ParticleProperties c=p->anti(); Entry ce= e.r.anti? entry(e.r,!e.bar): e; EXPECT(c.mass()==p->mass()&&c.width()==p->width()&&c.twoSpin()==p->twoSpin(),"anti.same",d); EXPECT(c.charge()==(e.r.anti?-e.q:e.q),"anti.charge",d); EXPECT(c.pdgID()==ce.id,"anti.id",d); EXPECT(c.name()==ce.name,"anti.name",d+" "+c.name()); EXPECT(c.P()==ce.P,"anti.parity",d); auto cq=content(c.quarkContent()); for(size_t i=0;i<w.size();++i) for(int k=0;k<6;++k) EXPECT(cq[i][k]==(e.r.anti?-w[i][k]:w[i][k]),"anti.quarks",d);
  ParticleProperties cc=c.anti(); EXPECT(cc.name()==p->name()&&cc.pdgID()==p->pdgID()&&cc.charge()==p->charge()&&cc.P()==p->P()&&content(cc.quarkContent())==content(p->quarkContent())&&cc.mass()==p->mass()&&cc==*p,"anti.twice",d);
}
// expected winners when a name or a number occurs twice: the later entry
struct Model { std::vector<Entry> all; std::map<std::string,Entry> byName; std::map<int,Entry> byId; std::set<std::string> dup; void add(const std::vector<Row>& rows){ for(auto& e: entries(rows)){ all.push_back(e); byName.insert_or_assign(e.name,e); byId.insert_or_assign(e.id,e); } } };
static void compare(const Model& m,const std::string& how){
  auto l=ParticlePropertiesList::getMe(); for(auto& [n,e]: m.byName) same(ParticlePropertiesList::get(n,true),e,how+".name"); for(auto& [i,e]: m.byId) if(i!=0) same(ParticlePropertiesList::get(i,true),e,how+".id");
  for(auto& [n,e]: m.byName){ auto it=m.byId.find(e.id); if(e.id!=0&&it!=m.byId.end()&&it->second.name==n) EXPECT(ParticlePropertiesList::get(n,true)==ParticlePropertiesList::get(e.id,true),"same.object",n); if(e.r.anti&&e.id!=0&&m.byId.count(-e.id)&&m.byId.at(-e.id).r.name==e.r.name){ auto a=ParticlePropertiesList::get(-e.id,true), p=ParticlePropertiesList::get(e.id,true); if(EXPECT(a&&p,"pair",n)) EXPECT(a->anti()==*p&&a->mass()==p->mass(),"pair.anti",n); } }
  size_t n=0; for(auto it=l->begin();it!=l->end();++it) ++n; EXPECT(n==m.all.size(),"list.size",std::to_string(n)+" vs "+std::to_string(m.all.size()));
  auto names=l->getParticleNames(); auto ids=l->getParticleIds(); EXPECT(std::set<std::string>(names.begin(),names.end()).size()==names.size(),"names.unique",""); EXPECT(ids.size()==m.byId.size(),"ids.size",std::to_string(ids.size())+" vs "+std::to_string(m.byId.size())); for(auto& [k,e]: m.byName) EXPECT(std::find(names.begin(),names.end(),k)!=names.end(),"names.complete",k);
}
static void unknown(const Model& m,int n){ auto& r=vf::rng(); auto l=ParticlePropertiesList::getMe(); for(int i=0;i<n;++i){ std::string s; auto it=m.byName.begin(); std::advance(it,r.range(0,m.byName.size()-1)); s=it->first; int op=r.range(0,4); if(op==0) s+="x"; else if(op==1) s=s.substr(0,s.size()-1); else if(op==2) s=""; else if(op==3) s[r.range(0,s.size()-1)]='?'; else s=std::string(r.range(1,200),'z'); int id=r.range(-99999999,99999999); vf::begin_case("unknown "+s); vf::eval(); bool quiet=i%4!=0; if(!m.byName.count(s)) EXPECT(l->find(s,quiet)==nullptr,"unknown.name",s); if(!m.byId.count(id)) EXPECT(l->find(id,quiet)==nullptr,"unknown.id",std::to_string(id)); } }
static Model shipped(){ Model m; m.add(read(options()+"mass_width.csv")); m.add(read(options()+"MintDalitzSpecialParticles.csv")); return m; }
// a random well-formed table
static std::string rowText(int id,const std::string& name,const std::string& ch){ auto& r=vf::rng(); char b[400]; auto pm=[&]{ static const char* t[]={"+","-"," ","?"}; return t[r.range(0,3)]; }; static const char* qs[]={"uD","dU","uS","sC","x(uU+dD)+y(sS)","udd","UUD","(uU-dD)/sqrt(2)","non-qQ","??","cU","usc","bS","(uD+uS)/sqrt(3)"}; static const char* Js[]={"0","1","2","1/2","3/2","5/2","3","?","7/2"}; static const char* Is[]={"0","1/2","1","?"}; char A=" BF"[r.range(0,2)]; if(ch=="+"||ch=="-"||ch=="++"||ch=="--") A="BF"[r.range(0,1)];
  snprintf(b,400,"%-14.6E,%-7.1E,%-7.1E,%-12.5E,%-7.1E,%-7.1E,%-3s,%s,%-4s,%s,%s,%c,%7d,%4s,%s,%c,%-17s,%-15s",r.uni(1,9000),r.uni(0,9),r.uni(0,9),r.uni(1e-12,400),r.uni(0,9),r.uni(0,9),Is[r.range(0,3)],pm(),Js[r.range(0,8)],pm(),pm(),A,id,ch.c_str(),r.coin()?" ":"4","RDSF"[r.range(0,3)],name.c_str(),qs[r.range(0,13)]); return b; }
static void writeTable(const std::string& f,int n,int base,const std::string& tag){ auto& r=vf::rng(); std::ofstream o(f); o<<"* header\n*\n"; static const char* ch[]={"0","+","-","++"," ","--"}; for(int i=0;i<n;++i){ if(r.coin(0.05)) o<<"* comment\n"; if(r.coin(0.03)) o<<"\n"; o<<rowText(base+i,tag+std::to_string(i)+(r.coin(0.2)?"(1000)":""),ch[r.range(0,5)])<<(r.coin(0.1)?"\r":"")<<(i+1<n||r.coin()? "\n":""); } }
static void userTable(int k){
  auto& r=vf::rng(); std::string d=vf::scratch()+"/root"+std::to_string(k)+"_"+std::to_string(getpid()); mkdir(d.c_str(),0755); writeTable(d+"/mass_width.csv",r.range(5,120),1000,"P"); writeTable(d+"/MintDalitzSpecialParticles.csv",r.range(1,20),20000,"S"); { std::ofstream l(d+"/pdgID_to_latex.dat"); for(int i=1000;i<1005;++i) l<<i<<" lab"<<i<<" \\bar{lab"<<i<<"}\n"; } setenv("AMPGENROOT",d.c_str(),1); vf::begin_case("user table "+d);
  Model m; m.add(read(d+"/mass_width.csv")); m.add(read(d+"/MintDalitzSpecialParticles.csv")); compare(m,"user"); for(int i=1000;i<1005;++i){ auto p=ParticlePropertiesList::get(i,true); if(p){ EXPECT(p->label()=="lab"+std::to_string(i),"label",p->label()); auto a=ParticlePropertiesList::get(-i,true); if(a) EXPECT(a->label()=="\\bar{lab"+std::to_string(i)+"}","label.anti",a->label()); } }
  // importing further tables keeps what is there
  std::vector<const ParticleProperties*> held; std::vector<std::string> hn; for(auto& [n,e]: m.byName){ held.push_back(ParticlePropertiesList::get(n,true)); hn.push_back(n); }
  for(int t=0;t<2;++t){ std::string f=d+"/extra"+std::to_string(t)+".csv"; writeTable(f,r.range(1,60),30000+1000*t,"X"+std::to_string(t)+"_"); OptionsParser::setArg("ParticlePropertiesList::Import "+f); m.add(read(f)); compare(m,"import"+std::to_string(t)); for(size_t i=0;i<held.size();++i) if(held[i]) EXPECT(held[i]->name()==hn[i],"held.pointer",hn[i]); }
  unknown(m,50); OptionsParser::setArg("ParticlePropertiesList::Import "+d+"/missing.csv"); compare(m,"after.missing");
  // aliases and user-defined particles
  auto it=m.byName.begin(); std::advance(it,r.range(0,m.byName.size()-1)); OptionsParser::setArg("ParticlePropertiesList::Alias "+it->first+" myalias"); auto p=ParticlePropertiesList::get("myalias",true); if(EXPECT(p!=nullptr,"alias.found",it->first)){ EXPECT(p->name()=="myalias"&&near(p->mass(),it->second.r.mass*1e-3)&&near(p->width(),it->second.r.w*1e-3)&&p->charge()==it->second.q&&p->twoSpin()==it->second.r.twoJ,"alias",it->first); }
  OptionsParser::setArg("ParticlePropertiesList::Alias nosuch other"); EXPECT(ParticlePropertiesList::get("other",true)==nullptr,"alias.unknown","");
  double ma=r.uni(0.1,5), wi=r.uni(0.01,1); OptionsParser::setArg("ParticleProperties Zed mass "+vf::str(ma)+" width "+vf::str(wi)+" spin 3/2 parity - charge + quarks uD"); p=ParticlePropertiesList::get("Zed",true); if(EXPECT(p!=nullptr,"added.found","")){ EXPECT(near(p->mass(),ma)&&near(p->width(),wi)&&p->twoSpin()==3&&p->P()==-1&&p->charge()==1&&content(p->quarkContent())==quarks("uD"),"added",vf::str(p->mass())); EXPECT(p->name()=="Zed","added.name",p->name()); EXPECT(!p->hasDistinctAnti(),"added.anti",""); }
  { // many definitions and redefinitions, each key on its own
    struct U { double m=0,w=0; int J=0,P=0,q=0; std::string qc; bool hm=false,hw=false,hJ=false,hP=false,hq=false; }; std::map<std::string,U> us; for(int i=0;i<40;++i){ std::string n="User"+std::to_string(r.range(0,11)); auto& u=us[n]; std::string l="ParticleProperties "+n; for(int j=r.range(0,5);j>0;--j) switch(r.range(0,5)){ case 0: u.m=r.uni(0.01,9); u.hm=true; l+=" mass "+vf::str(u.m); break; case 1: u.w=r.uni(0.001,2); u.hw=true; l+=" width "+vf::str(u.w); break; case 2: { u.J=r.range(0,15); u.hJ=true; l+=" spin "+(u.J%2? std::to_string(u.J)+"/2": std::to_string(u.J/2)); break; } case 3: u.P=r.coin()?1:-1; u.hP=true; l+= u.P>0? " parity +": " parity -"; break; case 4: { u.q=r.range(-2,2); u.hq=true; static const char* c[]={"--","-","0","+","++"}; l+=std::string(" charge ")+c[u.q+2]; break; } default: u.qc=r.pick({"uD","sU","uds","cD"}); l+=" quarks "+u.qc; }
      vf::begin_case("user particle "+l); vf::capture([&]{ OptionsParser::setArg(l); }); vf::eval(); for(auto& [nm,x]: us){ auto* z=ParticlePropertiesList::get(nm,true); if(!EXPECT(z!=nullptr,"user.found",nm)) continue; EXPECT(z->name()==nm,"user.name",nm+" "+z->name()); EXPECT((!x.hm||near(z->mass(),x.m))&&(!x.hw||near(z->width(),x.w)),"user.mass",l); EXPECT((!x.hJ||z->twoSpin()==x.J)&&(!x.hP||z->P()==x.P)&&(!x.hq||z->charge()==x.q),"user.numbers",l); if(!x.qc.empty()) EXPECT(content(z->quarkContent())==quarks(x.qc),"user.quarks",l); if(x.hJ) EXPECT(z->isFermion()==(x.J%2==1),"user.fermion",l); } }
    // an alias shares every property but the name, and later changes of the original do not reach it
    for(int i=0;i<10;++i){ auto k=m.byName.begin(); std::advance(k,r.range(0,int(m.byName.size())-1)); auto* o=ParticlePropertiesList::get(k->first,true); if(!o) continue; std::string al="al"+std::to_string(i); OptionsParser::setArg("ParticlePropertiesList::Alias "+k->first+" "+al); auto* z=ParticlePropertiesList::get(al,true); if(EXPECT(z!=nullptr,"alias.found",al)) EXPECT(z->pdgID()==o->pdgID()&&z->P()==o->P()&&z->C()==o->C()&&z->G()==o->G()&&z->I()==o->I()&&z->label()==o->label()&&z->radius()==o->radius()&&content(z->quarkContent())==content(o->quarkContent())&&ParticlePropertiesList::get(k->first,true)==o&&z->name()==al,"alias.shares",k->first); } }
  OptionsParser::setArg("ParticleProperties Zed mass"); OptionsParser::setArg("ParticleProperties Zed unknownKey 3"); p=ParticlePropertiesList::get("Zed",true); EXPECT(p&&near(p->mass(),ma),"added.malformed",""); compare(m,"after.added"); OptionsParser::setArg("ParticleProperties "+it->first+" mass "+vf::str(ma)); p=ParticlePropertiesList::get(it->first,true); EXPECT(p&&near(p->mass(),ma)&&p->charge()==it->second.q&&p->twoSpin()==it->second.r.twoJ,"overwritten",it->first);
}
static void order(const Model& m,int n){ auto& r=vf::rng(); std::vector<const ParticleProperties*> v; for(auto& [i,e]: m.byId) v.push_back(ParticlePropertiesList::get(i,true)); for(int i=0;i<n;++i){ auto a=r.pick(v), b=r.pick(v), c=r.pick(v); if(!a||!b||!c||!a->pdgID()||!b->pdgID()||!c->pdgID()) continue; vf::eval(); EXPECT((*a==*b)==(a->pdgID()==b->pdgID()),"equal",a->name()+" "+b->name()); int k=(*a<*b)+(*b<*a)+(*a==*b); EXPECT(k==1,"trichotomy",a->name()+" "+b->name()); EXPECT((*a>*b)==(*b<*a)&&(*a<=*b)==!(*b<*a)&&(*a>=*b)==!(*a<*b),"order.operators",a->name()+" "+b->name()); if(*a<*b&&*b<*c) EXPECT(*a<*c,"transitive",a->name()); } }
void harness(){
  vf::section("shipped",[]{ Model m=shipped(); EXPECT(m.all.size()>500,"table.read",std::to_string(m.all.size())); for(auto& e: m.all) if(e.q!=0) EXPECT(e.r.anti,"charged.has.anti",e.name); compare(m,"shipped"); unknown(m,200); compare(m,"again"); order(m,20000); },120);
  // lookups in random order, starting from an empty process
  vf::section("order",[]{ auto& r=vf::rng(); Model m=shipped(); unknown(m,3); std::vector<std::string> n; for(auto& [k,e]: m.byName) n.push_back(k); std::vector<int> ids; for(auto& [k,e]: m.byId) if(k) ids.push_back(k); for(int i=0;i<vf::scale(4000,40000);++i){ if(r.coin()){ auto& k=r.pick(n); same(ParticleProperties::get(k,true),m.byName.at(k),"random"); } else { int k=r.pick(ids); same(ParticlePropertiesList::get(k,true),m.byId.at(k),"random.id"); } } },120);
  for(int i=0;i<vf::scale(6,60);++i) vf::section("user"+std::to_string(i),[i]{ userTable(i); },60);
}
