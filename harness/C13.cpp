// C13: parameter sets against a list model, over random histories
#include "vf.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Expression.h"
#include <memory>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>
#include <sys/wait.h>
using namespace AmpGen;
struct P { std::string name; Flag flag; double mean,step,min,max,init,err,ep,en; MinuitParameter* p=nullptr; int idx=-1; };
static const char* fl(Flag f){ switch(f){ case Flag::Free: return "Free"; case Flag::Hide: return "Hide"; case Flag::Fix: return "Fix"; case Flag::CompileTimeConstant: return "CompileTimeConstant"; case Flag::Blind: return "Blind"; default: return "?"; } }
static Flag rflag(){ return vf::rng().pick({Flag::Free,Flag::Hide,Flag::Fix,Flag::CompileTimeConstant,Flag::Blind}); }
static double num(){ auto& r=vf::rng(); switch(r.range(0,4)){ case 0: return r.range(-5,5); case 1: return r.gauss()*1e-9; case 2: return r.gauss()*1e9; default: return r.gauss(); } }
static std::string nm(){ auto& r=vf::rng(); return r.pick({"a","b","a_Re","a_Im","K(1)(1270)+_mass","x","X","par"})+(r.coin(0.5)?std::to_string(r.range(0,5)):""); }
static bool eq(double a,double b){ return a==b||(a!=a&&b!=b); }
static void compare(const MinuitParameterSet& s,const std::vector<P>& m,const std::string& w){ vf::count("states"); EXPECT(s.size()==m.size(),"size",w+vf::fmt(" size %u want %zu",s.size(),m.size())); size_t i=0; for(auto* p: s){ if(i>=m.size()) break; auto& k=m[i]; std::string d=w+" at "+std::to_string(i)+" "+k.name; EXPECT(p!=nullptr&&p==k.p,"position.object",d); if(!p){ ++i; continue; } EXPECT(p->name()==k.name,"position.name",d+" has "+p->name()); EXPECT(s.at(i)==p,"at.index",d); EXPECT(s.find(k.name)==p,"find",d); EXPECT(const_cast<MinuitParameterSet&>(s).at(k.name)==p&&s[k.name]==p&&const_cast<MinuitParameterSet&>(s)[i]==p,"lookup",d);
    EXPECT(p->flag()==k.flag,"flag",d+fl(p->flag())); EXPECT(p->isFixed()==(k.flag==Flag::Fix||k.flag==Flag::CompileTimeConstant)&&p->isFree()==(k.flag==Flag::Free)&&p->isBlind()==(k.flag==Flag::Blind),"flag.kind",d); EXPECT(eq(p->mean(),k.mean)&&eq(double(*p),k.mean)&&eq(*p->vp(),k.mean),"mean",d+vf::str(p->mean())+" want "+vf::str(k.mean)); EXPECT(eq(p->meanInit(),k.init),"init",d); EXPECT(eq(p->stepInit(),k.step),"step",d); EXPECT(eq(p->minInit(),k.min)&&eq(p->maxInit(),k.max),"limits",d); EXPECT(eq(p->err(),k.err),"err",d+vf::str(p->err())+" want "+vf::str(k.err)); EXPECT(eq(p->errPos(),k.ep)&&eq(p->errNeg(),k.en),"asymmetric",d); EXPECT(p->index()==k.idx,"minuit.index",d); ++i; }
  EXPECT(size_t(std::distance(s.cbegin(),s.cend()))==m.size(),"iteration",w); std::set<std::string> ns; for(auto& k: m) EXPECT(ns.insert(k.name).second,"model",k.name); for(auto& n: {"a","b1","x","zz","a_Re"}) EXPECT((s.find(n)!=nullptr)==(ns.count(n)>0),"find.absent",w+" "+n); }
static void history(int steps){ auto& r=vf::rng(); auto s=std::make_unique<MinuitParameterSet>(); std::vector<P> m; std::vector<std::unique_ptr<MinuitParameter>> loose; auto locate=[&](const std::string& n)->P*{ for(auto& k: m) if(k.name==n) return &k; return nullptr; }; std::string trail;
  for(int it=0;it<steps;++it){ std::string w; int op=r.range(0,24); P* k= m.empty()?nullptr:&r.pick(m); auto fresh=[&](const std::string& n,Flag f,double me,double st,double mi,double ma){ return P{n,f,me,st,mi,ma,me,st,-9999,-9999}; }; vf::eval();
    vf::begin_case(trail);
    if(m.size()>25&&r.coin(0.5)) op=3;
    switch(op){
      case 0: case 1: { auto n=nm(); auto f=rflag(); double a=num(),b=num(),c=num(),d=num(); bool lim=r.coin(); w="add "+n; P* e=locate(n); MinuitParameter* p=nullptr; vf::capture([&]{ p= lim? s->add(n,f,a,b,c,d): s->add(n,f,a,b); }); if(e){ EXPECT(p==e->p,"add.duplicate",n); vf::count("duplicate"); } else { auto x=fresh(n,f,a,b,lim?c:0,lim?d:0); x.p=p; m.push_back(x); } break; }
      case 2: { auto n=nm(); bool full=r.coin(); auto f= full?rflag():Flag::Free; double a=num(),b=num(),c=num(),d=num(); auto* p= full? new MinuitParameter(n,f,a,b,c,d): new MinuitParameter(n,a,b,c,d); w="add object "+n; bool ok=false; vf::capture([&]{ ok=s->add(p); }); P* e=locate(n); EXPECT(ok==(e==nullptr),"add.result",n); if(ok){ auto x=fresh(n,f,a,b,c,d); x.p=p; m.push_back(x); } else { vf::count("duplicate"); loose.emplace_back(p); } break; }
      case 3: { if(!k) break; w="unregister "+k->name; vf::capture([&]{ EXPECT(s->unregister(k->p),"unregister",k->name); }); loose.emplace_back(k->p); m.erase(m.begin()+(k-m.data())); vf::count("removed"); break; }
      case 4: { MinuitParameter x("a",Flag::Free,1,1); w="unregister foreign"; std::string o=vf::capture([&]{ EXPECT(!s->unregister(&x),"unregister.foreign",""); }); break; }
      case 5: { auto n=nm(); auto f=rflag(); double a=num(),b=num(); w="addOrGet "+n; P* e=locate(n); auto* p=s->addOrGet(n,f,a,b); if(e) EXPECT(p==e->p,"addOrGet",n); else { auto x=fresh(n,f,a,b,0,0); x.p=p; m.push_back(x); } break; }
      case 6: case 7: { auto o= k&&r.coin(0.8)? k->name: nm(); auto n=nm(); w="rename "+o+" "+n; P* e=locate(o); bool ok=e&&o!=n&&!locate(n); EXPECT(s->rename(o,n)==ok,"rename.result",w); if(ok){ e->name=n; vf::count("renamed"); } break; }
      case 8: if(k){ double a=num(); w="setCurrentFitVal "+k->name; k->p->setCurrentFitVal(a); k->mean=a; } break;
      case 9: if(k){ double a=num(); w="setVal "+k->name; k->p->setVal(a); k->mean=a; } break;
      case 10: if(k){ double a=num(),b=std::abs(num())+0.5; bool st=r.coin(); w="setInit "+k->name; if(st) k->p->setInit(a,b); else k->p->setInit(a); k->mean=k->init=a; if(st) k->step=b; } break;
      case 11: if(k){ double a=num(),b=num(),c=num(),d=num(); w="setResult "+k->name; k->p->setResult(a,b,c,d); k->mean=a; k->err=b; k->en=c; k->ep=d; } break;
      case 12: if(k){ double a=num(),b=num(); w="setLimits "+k->name; k->p->setLimits(a,b); k->min=a; k->max=b; } break;
      case 13: if(k){ double a=num(); w="setStepInit "+k->name; k->p->setStepInit(a); k->step=a; } break;
      case 14: if(k){ double a=num(); w="scaleStep "+k->name; k->p->scaleStep(a); k->err*=a; k->step*=a; } break;
      case 15: if(k){ w="fix"; k->p->fix(); k->flag=Flag::Fix; } break;
      case 16: if(k){ w="free"; k->p->setFree(); k->flag=Flag::Free; } break;
      case 17: { w="reset all"; if(r.coin(0.5)){ s->resetToInit(); for(auto& x: m){ x.mean=x.init; x.err=x.step; x.ep=x.en=-9999; } } else if(k){ k->p->resetToInit(); k->mean=k->init; k->err=k->step; k->ep=k->en=-9999; } break; }
      case 18: { w="set from other"; MinuitParameterSet o; std::map<std::string,double> v; for(int i=r.range(0,12);i>0;--i){ auto n=nm(); double a=num(); if(!v.count(n)){ o.add(n,rflag(),0,1); o[n]->setCurrentFitVal(a); v[n]=a; } } if(r.coin(0.3)&&!v.count("viaExpr")){ for(auto& x: m) if(!v.count(x.name)){ Expression e=Constant(2.5); o.add(new MinuitExpression(x.name,e)); v[x.name]=2.5; break; } } vf::capture([&]{ s->set(o); }); for(auto& x: m) if(v.count(x.name)) x.mean=v[x.name]; vf::count("copied"); break; }
      case 19: { if(m.empty()) break; w="minuit"; std::vector<unsigned> mp; for(unsigned i=0;i<m.size();++i) if(r.coin()) mp.push_back(i); r.shuffle(mp); s->setMapping(mp); for(size_t i=0;i<mp.size();++i) m[mp[i]].idx=int(i); std::vector<double> x; for(size_t i=0;i<mp.size();++i) x.push_back(num()); x.push_back(0); s->setFromMinuit(x.data()); for(size_t i=0;i<mp.size();++i) m[mp[i]].mean=x[i]; vf::count("minuit"); break; }
      case 20: if(k){ unsigned i=k-m.data(); double a=num(); w="setFromMinuitIndex"; s->setFromMinuitIndex(i,a); k->mean=a; EXPECT(s->getFromMinuitIndex(i)==a,"getFromMinuitIndex",k->name); } break;
      case 21: { auto n=nm(); P* e=locate(n); w="lookup "+n; std::string o=vf::capture([&]{ EXPECT(s->at(n)==(e?e->p:nullptr),"at",n); EXPECT((*s)[n]==(e?e->p:nullptr),"brackets",n); const auto& cs=*s; EXPECT(cs[n]==(e?e->p:nullptr),"brackets.const",n); EXPECT(s->at(m.size()+r.range(0,5))==nullptr,"at.range",""); double v=0; bool t=false; try { v=(*s)(n); } catch(std::exception&){ t=true; } EXPECT(t==(e==nullptr),"call.missing",n); if(e) EXPECT(eq(v,e->mean),"call",n); }); if(!e) EXPECT(o.find("not found")!=std::string::npos,"missing.silent",n); vf::count(e?"found":"missing"); break; }
      case 22: { w="print"; std::ostringstream a,b; s->print(a); s->printVariable(b); size_t na=0,nb=0,wa=m.size(),wb=0; for(char c: a.str()) na+= c=='\n'; for(char c: b.str()) nb+= c=='\n'; for(auto& x: m) wb+= x.flag!=Flag::Hide; EXPECT(na==wa+1,"print.lines",vf::fmt("%zu %zu",na,wa)); EXPECT(nb==wb,"print.hidden",vf::fmt("%zu %zu",nb,wb)); for(auto& x: m){ std::ostringstream o; o<<*x.p; EXPECT(o.str().find(x.name)!=std::string::npos&&o.str().find(fl(x.flag))!=std::string::npos&&a.str().find(o.str())!=std::string::npos,"print.content",o.str()); if(x.flag==Flag::Blind) { std::ostringstream v; v<<x.mean; EXPECT(o.str().find("BLIND")!=std::string::npos,"print.blind",o.str()); } else { std::ostringstream v; v<<x.mean; EXPECT(o.str().find(v.str())!=std::string::npos,"print.value",o.str()); } } break; }
      case 23: { if(r.coin(0.9)) break; w="new set from vector"; std::vector<MinuitParameter*> v; for(auto& x: m){ s->unregister(x.p); v.push_back(x.p); } EXPECT(s->size()==0,"emptied",""); for(auto& x: m) EXPECT(s->find(x.name)==nullptr,"emptied.find",x.name); s.reset(new MinuitParameterSet(v)); break; }
      default: break; }
    trail=(trail.size()>600? trail.substr(trail.size()-500): trail)+"; "+w; vf::distinct(w); compare(*s,m,"after "+trail.substr(trail.size()>200?trail.size()-200:0)); }
  vf::require("removed",1); vf::require("renamed",1); vf::require("duplicate",1); if(vf::rng().coin()) vf::sample(trail.substr(0,300)); }
// parameters read from options and files, in a fresh process
static std::string dump(const MinuitParameterSet& s){ std::string o; for(auto* p: s) o+="@@ "+p->name()+" "+std::string(fl(p->flag()))+" "+vf::str(p->mean())+" "+vf::str(p->meanInit())+" "+vf::str(p->stepInit())+" "+vf::str(p->minInit())+" "+vf::str(p->maxInit())+" "+(s.find(p->name())==p?"ok":"LOST")+"\n"; return o; }
static void loading(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ std::vector<std::string> lines; std::vector<std::string> want, aliases, auto_; std::set<std::string> have; std::map<std::string,double> val; auto sn=[&](double x){ return vf::fmt("%.17g",x); };
  auto entry=[&](const std::string& nme,Flag f,double me,double st,double mi,double ma){ if(!have.insert(nme).second) return; val[nme]=me; want.push_back("@@ "+nme+" "+fl(f)+" "+vf::str(me)+" "+vf::str(me)+" "+vf::str(st)+" "+vf::str(mi)+" "+vf::str(ma)+" ok"); };
  int k=r.range(1,8); bool file=r.coin(); std::set<std::string> used; for(int i=0;i<k;++i){ std::string nme=r.pick({"p","K*(892)0_mass","K*(892)0_width","rho(770)0_mass","D0_radius","D0{K-,pi+}","K*(892)bar0_mass","q::r"})+(r.coin(0.3)?std::to_string(r.range(0,3)):""); if(!used.insert(nme).second) continue; auto f=rflag(),g=rflag(); double a=num(),b=num(),c=num(),d=num(),a2=num(),b2=num(),c2=num(),d2=num(); std::string l=nme; auto F=[&](Flag x){ return std::string(fl(x)); };
    switch(r.range(0,6)){ case 0: l+=" "+F(f)+" "+sn(a)+" "+sn(b); entry(nme,f,a,b,0,0); break; case 1: l+=" "+F(f)+" "+sn(a)+" "+sn(b)+" "+sn(c)+" "+sn(d); entry(nme,f,a,b,c,d); break; case 2: l+=" "+F(f)+" "+sn(a)+" "+sn(b)+" "+F(g)+" "+sn(a2)+" "+sn(b2); entry(nme+"_Re",f,a,b,0,0); entry(nme+"_Im",g,a2,b2,0,0); break; case 3: l+=" "+F(f)+" "+sn(a)+" "+sn(b)+" "+sn(c)+" "+sn(d)+" "+F(g)+" "+sn(a2)+" "+sn(b2)+" "+sn(c2)+" "+sn(d2); entry(nme+"_Re",f,a,b,c,d); entry(nme+"_Im",g,a2,b2,c2,d2); break; case 4: { double v=num(); l+=" = "+sn(v)+" + 0"; v=v+0; if(have.insert(nme).second){ std::string e="@@ "+nme+" Hide "+vf::str(v)+" 0 0 0 0 ok"; if(file) want.push_back(e); else aliases.push_back(e); } break; } case 5: { // exactly one field is wrong: the whole line declares nothing
      std::vector<std::string> fl0; bool cplx=r.coin(0.6), lim=r.coin(); for(int q=0;q<(cplx?2:1);++q){ fl0.push_back(q?F(g):F(f)); fl0.push_back(sn(a)); fl0.push_back(sn(b)); if(lim){ fl0.push_back(sn(c)); fl0.push_back(sn(d)); } } size_t bad=r.range(0,int(fl0.size())-1); bool isflag= bad%(lim?5:3)==0; fl0[bad]= isflag? r.pick({"Fre","free","2x","Fixed"}): r.pick({"1x","x1","Free","--1","1.2.3"}); for(auto& x: fl0) l+=" "+x; vf::count(isflag?"bad flag":"bad number"); break; } default: l+=" value"; }
    lines.push_back(l); }
  for(auto& a: aliases) want.push_back(a);
  if(!file){ // masses, widths and radii of conjugates follow the particle unless given
    static const std::map<std::string,std::string> cj={{"K*(892)0","K*(892)bar0"},{"K*(892)bar0","K*(892)0"},{"D0","Dbar0"},{"rho(770)0",""}}; std::vector<std::string> extra; for(auto& w: want){ std::istringstream is(w); std::string x,nme,f,v; is>>x>>nme>>f>>v; auto p=nme.find('_'); if(p==std::string::npos||nme.find('_',p+1)!=std::string::npos) continue; std::string q=nme.substr(p+1); if(q!="mass"&&q!="width"&&q!="radius") continue; auto c=cj.find(nme.substr(0,p)); if(c==cj.end()||c->second.empty()) continue; std::string cn=c->second+"_"+q; if(have.count(cn)) continue; have.insert(cn); extra.push_back("@@ "+cn+" Hide "+v+" 0 0 0 0 ok"); } for(auto& e: extra) want.push_back(e); }
  std::string text; for(auto& l: lines) text+=l+"\n"; vf::begin_case((file?"file ":"options ")+text); vf::eval(); vf::distinct(text); std::string out; int rc=vf::in_child([&]{ MinuitParameterSet s; if(file){ std::string f=vf::scratch()+"/c13_"+std::to_string(getpid()); { std::ofstream o(f); o<<text; } s.loadFromFile(f); unlink(f.c_str()); } else { for(auto& l: lines) OptionsParser::setArg(l); s.loadFromStream(); } std::cout<<"\n"<<dump(s)<<std::flush; },&out); if(rc){ EXPECT(false,"load.crash",text+out.substr(0,800)); continue; } std::vector<std::string> got; std::istringstream is(out); std::string l; while(std::getline(is,l)) if(l.rfind("@@ ",0)==0) got.push_back(l); std::string g,w; for(auto& x: got) g+=x+"\n"; for(auto& x: want) w+=x+"\n"; EXPECT(g==w,file?"load.file":"load.options",text+" got\n"+g+" want\n"+w); vf::count(file?"files":"options"); if(it<2) vf::sample(text); } }
void harness(){ for(int s=0;s<vf::scale(6,24);++s) vf::section("history"+std::to_string(s),[]{ for(int i=0;i<vf::scale(6,40);++i) history(vf::scale(600,2000)); },vf::scale(200,800)); for(int s=0;s<vf::scale(3,8);++s) vf::section("loading"+std::to_string(s),[]{ loading(vf::scale(80,800)); },vf::scale(200,800)); }
