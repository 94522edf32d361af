// C14: textual formulas against an independent evaluation of the tree they were written from
#include "vf.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Tensor.h"
#include <memory>
#include <map>
#include <iostream>
#include <sys/wait.h>
using namespace AmpGen; using C=std::complex<long double>;
struct N { std::string op; std::vector<std::shared_ptr<N>> k; long double c=0; };   // op: num,name,const, + - * / ^ > < &&, function
using NP=std::shared_ptr<N>;
struct Env { std::map<std::string,long double> v; std::map<std::string,NP> def; bool polar=false, deg=false; long double eps=0; mutable bool bad=false; mutable unsigned salt=0; long double jig(long double x) const { salt=salt*1664525u+1013904223u; return x*(1+eps*((salt>>8)%2001/1000.0L-1)); } };
static C ev(const NP& n,const Env& e);
static C name(const std::string& s,const Env& e){ if(s=="pi"||s=="PI"||s=="M_PI") return e.jig(acosl(-1)); if(s=="e") return e.jig(expl(1)); if(s=="i"||s=="I") return C(0,1); if(e.def.count(s)) return C(ev(e.def.at(s),e).real(),0); if(e.v.count(s)) return e.jig(e.v.at(s)); auto a=e.jig(e.v.at(s+"_Re")), b=e.jig(e.v.at(s+"_Im")); return e.polar? a*std::exp(C(0,b*(e.deg?acosl(-1)/180:1))): C(a,b); }
static C ev(const NP& n,const Env& e){ auto& o=n->op; if(o=="num") return e.jig(n->c); if(o.rfind("name:",0)==0) return name(o.substr(5),e); std::vector<C> a; for(auto& x: n->k) a.push_back(ev(x,e)); auto re=[&](int i){ if(std::abs(a[i].imag())>1e-12L*std::abs(a[i])) e.bad=true; return a[i].real(); };
  if(o=="+") return a[0]+a[1]; if(o=="-") return a[0]-a[1]; if(o=="*") return a[0]*a[1]; if(o=="/"){ if(std::abs(a[1])<1e-6L) e.bad=true; return a[0]/a[1]; } if(o=="^"){ long double b=re(0),x=re(1); if(b<=1e-3L||std::abs(x)>8) e.bad=true; return std::pow(b,x); }
  if(o==">"||o=="<"){ long double x=re(0),y=re(1); if(std::abs(x-y)<1e-6L*(std::abs(x)+std::abs(y))) e.bad=true; return o==">"? x>y: x<y; } if(o=="&&") return (a[0]!=0.0L)&&(a[1]!=0.0L);
  if(o=="Ternary") return a[0]!=0.0L? a[1]: a[2]; if(o=="atan2"){ long double y=re(0),x=re(1); if(std::abs(y)<1e-6L) e.bad=true; return atan2l(y,x); }
  if(o=="real") return a[0].real(); if(o=="imag") return a[0].imag(); if(o=="abs") return std::abs(a[0]);
  long double x=re(0); if(o=="sin") return sinl(x); if(o=="cos") return cosl(x); if(o=="tan"){ if(std::abs(cosl(x))<1e-2L) e.bad=true; return tanl(x); } if(o=="exp"){ if(x>50) e.bad=true; return expl(x); } if(o=="atan") return atanl(x); if(o=="log"||o=="sqrt"){ if(x<1e-3L) e.bad=true; return o=="log"?logl(std::abs(x)):sqrtl(std::abs(x)); } if(std::abs(x)>0.99L) e.bad=true; x=std::max(-0.99L,std::min(0.99L,x)); return o=="asin"?asinl(x):acosl(x); }
static int prec(const std::string& o){ if(o=="&&") return 1; if(o==">"||o=="<") return 2; if(o=="+"||o=="-") return 3; if(o=="*"||o=="/") return 4; if(o=="^") return 5; return 9; }
static std::string sp(){ auto& r=vf::rng(); return r.coin(0.8)?" ":std::string(r.range(1,4),' '); }
static std::vector<std::string> text(const NP& n){ auto& r=vf::rng(); auto& o=n->op; using V=std::vector<std::string>; V t; auto add=[&](const V& x){ t.insert(t.end(),x.begin(),x.end()); }; auto par=[&](const V& x){ t.push_back("("); add(x); t.push_back(")"); };
  if(o=="num"){ double d=double(n->c); t.push_back(d==std::floor(d)&&std::abs(d)<1e6&&r.coin()? vf::fmt("%d",int(d)): r.coin()? vf::fmt("%.17g",d): vf::fmt("%.17e",d)); return t; } if(o.rfind("name:",0)==0){ t.push_back(o.substr(5)); return t; }
  int p=prec(o); if(p==9){ t.push_back(o); if(n->k.size()>1){ V in; for(size_t i=0;i<n->k.size();++i){ if(i) in.push_back(","); auto x=text(n->k[i]); in.insert(in.end(),x.begin(),x.end()); } par(in); return t; } bool simple=n->k[0]->op=="num"||n->k[0]->op.rfind("name:",0)==0||(prec(n->k[0]->op)==9&&n->k[0]->op!="num"); if(simple&&r.coin(0.5)) add(text(n->k[0])); else par(text(n->k[0])); return t; }
  for(int i=0;i<2;++i){ if(i) t.push_back(o); int q=prec(n->k[i]->op); bool need= i==0? (q<p || (q==p&&(o=="^"||p==2))): (q<p || (q==p&& !(o=="+"&&n->k[i]->op=="+") && !(o=="*"&&n->k[i]->op=="*") )); if(need||r.coin(0.1)) par(text(n->k[i])); else add(text(n->k[i])); } return t; }
static NP mk(const std::string& o,std::vector<NP> k={}){ auto n=std::make_shared<N>(); n->op=o; n->k=std::move(k); return n; }
static NP num(double x){ auto n=mk("num"); n->c=x; return n; }
static NP leaf(const std::vector<std::string>& names){ auto& r=vf::rng(); if(!names.empty()&&r.coin(0.6)) return mk("name:"+r.pick(names)); switch(r.range(0,5)){ case 0: return num(r.range(0,9)); case 1: return num(r.range(-9,-1)); case 2: return num(std::ldexp(r.range(1,999),-r.range(0,12))); case 3: return mk(std::string("name:")+r.pick({"pi","PI","e","M_PI"})); default: return num(r.uni(0.1,4)); } }
static NP gen(int d,const std::vector<std::string>& nm,bool cplx=false){ auto& r=vf::rng(); if(d<=0||r.coin(0.1)) return cplx&&r.coin(0.1)? mk(std::string("name:")+r.pick({"i","I"})): leaf(nm); switch(r.range(0,15)){ case 0: case 1: case 2: return mk("+",{gen(d-1,nm,cplx),gen(d-1,nm,cplx)}); case 3: case 4: case 5: return mk("-",{gen(d-1,nm,cplx),gen(d-1,nm,cplx)}); case 6: case 7: return mk("*",{gen(d-1,nm,cplx),gen(d-1,nm,cplx)}); case 8: case 9: return mk("/",{gen(d-1,nm,cplx),gen(d-1,nm,cplx)}); case 10: return mk("^",{r.coin()?leaf(nm):mk("abs",{gen(d-2,nm)}),r.coin(0.7)?num(r.range(-3,4)):num(r.uni(-2,2))}); case 11: return mk(r.pick({"sin","cos","tan","atan","exp","abs"}),{gen(d-1,nm)}); case 12: return mk(r.pick({"sqrt","log"}),{mk("+",{mk("abs",{gen(d-2,nm)}),num(0.25)})}); case 13: return mk(r.pick({"asin","acos"}),{mk("sin",{gen(d-2,nm)})}); case 14: return mk(r.pick({"real","imag","abs"}),{gen(d-1,nm,true)}); default: { NP c=mk(r.pick({">","<"}),{gen(d-2,nm),gen(d-2,nm)}); if(r.coin(0.3)) c=mk("&&",{c,mk(r.pick({">","<"}),{gen(d-2,nm),gen(d-2,nm)})}); return r.coin(0.3)? mk("atan2",{gen(d-1,nm),gen(d-2,nm)}): mk("Ternary",{c,gen(d-1,nm,cplx),gen(d-1,nm,cplx)}); } } }
static std::string join(const std::vector<std::string>& t){ auto& r=vf::rng(); std::string s=r.coin(0.1)?" ":""; for(size_t i=0;i<t.size();++i) s+=(i?sp():"")+t[i]; return s+(r.coin(0.1)?"  ":""); }
// value and a tolerance from its sensitivity to the inputs; false if meaningless
static bool ref(const NP& n,Env e,C& v,long double& tol){ e.eps=0; e.bad=false; v=ev(n,e); if(e.bad||!std::isfinite(v.real())||!std::isfinite(v.imag())) return false; tol=1e-12L*std::abs(v)+1e-14L; e.eps=1e-10L; for(int i=0;i<4;++i){ e.salt=i*7919u+1; C w=ev(n,e); if(e.bad||!std::isfinite(std::abs(w))) return false; tol=std::max(tol,std::abs(w-v)*1e-3L); } tol*=20; return tol<1e-7L*std::max(std::abs(v),1.0L); }
static C got(const Expression& e){ auto z=e(); return C(z.real(),z.imag()); }
static void compareValue(const Expression& x,const NP& n,const Env& e,const std::string& key,const std::string& d){ C v; long double tol; if(!ref(n,e,v,tol)){ vf::count("skipped"); return; } vf::eval(); vf::count("judged"); C g=got(x); EXPECT(std::abs(g-v)<=tol,key,d+vf::fmt(" = (%.12Lg,%.12Lg) want (%.12Lg,%.12Lg)",g.real(),g.imag(),v.real(),v.imag())); }
static void formulas(int n,bool polar,bool deg){ auto& r=vf::rng(); if(polar) OptionsParser::setArg("CouplingConstant::Coordinates polar"); if(deg) OptionsParser::setArg("CouplingConstant::AngularUnits deg"); Env e; e.polar=polar; e.deg=deg; MinuitParameterSet mps; std::vector<std::string> nm={"a","bb","K(1)(1270)+_mass","x1","D0{K-,pi+}_Re","_x"}; for(auto& s: nm){ mps.add(s,Flag::Free,0,0); } for(auto& s: {"z","D0{pi+,pi-}"}){ mps.add(std::string(s)+"_Re",Flag::Free,0,0); mps.add(std::string(s)+"_Im",Flag::Fix,0,0); }
  std::vector<std::string> all=nm; all.push_back("z"); all.push_back("D0{pi+,pi-}");
  for(int it=0;it<n;++it){ for(auto* p: mps){ double v=r.coin()? r.range(-6,6): r.gauss()*2; p->setCurrentFitVal(v); e.v[p->name()]=v; } bool cx=r.coin(0.3); auto f=gen(r.range(1,6),cx?all:nm,cx); auto t=text(f); if(t.size()>400) continue; auto s=join(t); vf::begin_case(s); vf::distinct(s); bool thrown=false; Expression a,b; vf::capture([&]{ try { a=ExpressionParser::parse(s,&mps); b=ExpressionParser::parse(t.cbegin(),t.cend(),&mps); } catch(std::exception&){ thrown=true; } }); if(!EXPECT(!thrown,"rejected",s)) continue; compareValue(a,f,e,"value.text",s); compareValue(b,f,e,"value.tokens",s);
    for(auto* p: mps){ double v=r.gauss()*3; p->setCurrentFitVal(v); e.v[p->name()]=v; } compareValue(a,f,e,"value.changed",s);
    if(it<3) vf::sample(s.substr(0,200));
    if(it%10==0){ std::vector<NP> el; std::vector<std::string> tt{"{"}; int k=r.range(1,4); for(int i=0;i<k;++i){ el.push_back(gen(r.range(0,3),nm)); if(i) tt.push_back(","); auto x=text(el.back()); tt.insert(tt.end(),x.begin(),x.end()); } tt.push_back("}"); auto x=ExpressionParser::parse(join(tt),&mps); if(EXPECT(is<TensorExpression>(x),"tensor",join(tt))){ auto T=cast<TensorExpression>(x).tensor(); if(EXPECT(T.size()==unsigned(k),"tensor.size",join(tt))) for(int i=0;i<k;++i) compareValue(T[i],el[i],e,"tensor.element",join(tt)); } vf::count("tensor"); } }
  vf::require("judged",n/3); }
// parameters defined by formulas, also of other such parameters, over histories of changes
static void defined(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ MinuitParameterSet mps; Env e; std::vector<std::string> base={"p0","p1","p2","p3"}, names; for(auto& s: base){ double v=r.gauss()*2; mps.add(s,Flag::Free,v,0.1); e.v[s]=v; names.push_back(s); } std::vector<std::string> ex; int k=r.range(1,6); for(int i=0;i<k;++i){ std::string nme="f"+std::to_string(i); auto f=gen(r.range(1,4),names); std::vector<std::string> t{nme,"="}; auto x=text(f); t.insert(t.end(),x.begin(),x.end()); if(t.size()>300) continue; vf::begin_case(join(t)); auto* p=new MinuitExpression(t,&mps); mps.add(p); e.def[nme]=f; ex.push_back(nme); names.push_back(nme); EXPECT(p->name()==nme,"defined.name",nme); }
    std::string trail; for(int st=0;st<12;++st){ int i=r.range(0,3); double v; switch(r.range(0,4)){ case 0: v=r.gauss()*3; mps["p"+std::to_string(i)]->setCurrentFitVal(v); break; case 1: v=r.range(-5,5); mps["p"+std::to_string(i)]->setInit(v); break; case 2: v=r.gauss(); mps["p"+std::to_string(i)]->setResult(v,1,1,1); break; case 3: { auto* q=mps["p"+std::to_string(i)]; q->resetToInit(); v=q->meanInit(); break; } default: v=e.v["p"+std::to_string(i)]; if(ex.size()) { auto* q=mps[r.pick(ex)]; q->resetToInit(); q->setCurrentFitVal(99); } } e.v["p"+std::to_string(i)]=v; trail+=vf::fmt(" p%d=%g",i,v);
      for(auto& x: ex){ auto* p=dynamic_cast<MinuitExpression*>(mps[x]); C w; long double tol; if(!ref(e.def[x],e,w,tol)) continue; vf::eval(); vf::count("judged"); EXPECT(std::abs((long double)p->mean()-w.real())<=tol&&std::abs((long double)double(*p)-w.real())<=tol&&std::abs((long double)mps(x)-w.real())<=tol,"defined.value",x+trail+vf::fmt(" %.12g want %.12Lg",p->mean(),w.real())); auto z=p->getVal(); EXPECT(std::abs(C(z.real(),z.imag())-w)<=tol,"defined.complex",x); auto y=ExpressionParser::parse("2 * "+x+" + 1",&mps)(); EXPECT(std::abs((long double)y.real()-(2*w.real()+1))<=tol*4+1e-12L,"defined.used",x); } vf::distinct("h"+trail); } }
  vf::require("judged",10); }
// the same through options: definitions may come before what they mention
static void options(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){ Env e; std::vector<std::string> pl, names; for(int i=0;i<3;++i){ double v=r.gauss()*2; e.v["p"+std::to_string(i)]=v; pl.push_back("p"+std::to_string(i)+" Free "+vf::fmt("%.17g",v)+" 0.1"); names.push_back("p"+std::to_string(i)); } std::vector<std::string> al,ex; for(int i=0;i<3;++i){ auto f=gen(r.range(1,3),names); auto t=text(f); if(t.size()>200) continue; std::string nme="f"+std::to_string(i); al.push_back(nme+" = "+join(t)); e.def[nme]=f; ex.push_back(nme); names.push_back(nme); } std::vector<std::string> lines; size_t a=0,b=0; while(a<pl.size()||b<al.size()){ if(b>=al.size()||(a<pl.size()&&r.coin())) lines.push_back(pl[a++]); else lines.push_back(al[b++]); } std::string d; for(auto& l: lines) d+=l+"\n"; vf::begin_case(d); vf::distinct(d); std::string out; int rc=vf::in_child([&]{ for(auto& l: lines) OptionsParser::setArg(l); MinuitParameterSet s; s.loadFromStream(); std::cout<<"\n"; for(auto& x: ex) std::cout<<"@@ "<<x<<" "<<vf::str(s(x))<<"\n"; std::cout<<std::flush; },&out); if(!EXPECT(rc==0,"options.crash",d+out.substr(0,500))) continue; std::istringstream is(out); std::string l; std::map<std::string,double> g; while(std::getline(is,l)) if(l.rfind("@@ ",0)==0){ std::istringstream ls(l.substr(3)); std::string x; double v; ls>>x>>l; v=strtod(l.c_str(),0); g[x]=v; } for(auto& x: ex){ C w; long double tol; if(!EXPECT(g.count(x),"options.missing",d)||!ref(e.def[x],e,w,tol)) continue; vf::eval(); vf::count("judged"); EXPECT(std::abs(g[x]-w.real())<=tol,"options.value",d+x+vf::fmt(" %.12g want %.12Lg",g[x],w.real())); } } }
static void unknown(int n){ auto& r=vf::rng(); MinuitParameterSet mps; mps.add("a",Flag::Free,1,0); for(int it=0;it<n;++it){ std::string u="nosuch"+std::to_string(it); auto f=gen(r.range(0,4),{"a"}); f=mk(r.pick({"+","-"}),{f,mk("+",{mk("name:"+u),num(1)})}); if(r.coin()) std::swap(f->k[0],f->k[1]); auto t=text(f); std::string o=vf::capture([&]{ try { ExpressionParser::parse(t.cbegin(),t.cend(),&mps); } catch(std::exception&){} }); vf::eval(); vf::distinct(join(t)); EXPECT(o.find(u)!=std::string::npos,"unknown.silent",join(t)); auto g=gen(3,{"a"}); auto tg=text(g); o=vf::capture([&]{ ExpressionParser::parse(tg.cbegin(),tg.cend(),&mps); }); EXPECT(o.find("unknown")==std::string::npos,"known.reported",join(tg)+o); } }
void harness(){ for(int s=0;s<vf::scale(4,16);++s) vf::section("formulas"+std::to_string(s),[]{ formulas(vf::scale(1500,20000),false,false); },vf::scale(200,800)); vf::section("polar",[]{ formulas(vf::scale(700,7000),true,false); },vf::scale(200,800)); vf::section("degrees",[]{ formulas(vf::scale(700,7000),true,true); },vf::scale(200,800)); for(int s=0;s<vf::scale(2,8);++s) vf::section("defined"+std::to_string(s),[]{ defined(vf::scale(300,3000)); },vf::scale(200,800)); vf::section("options",[]{ options(vf::scale(80,800)); },vf::scale(200,800)); vf::section("unknown",[]{ unknown(vf::scale(500,5000)); }); }
