// C09: quark content algebra against sets of flavour vectors
#include "ptable.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/QuarkContent.h"
#include <set>
#include <functional>
using namespace AmpGen; using namespace pt;
typedef std::vector<Q6> MV;
static MV content(const QuarkContent& q){ MV v; for(size_t i=0;i<q.size();++i){ Q6 a; for(int k=0;k<6;++k) a[k]=q[i][k]; v.push_back(a); } return v; }
static Q6 op(const Q6& a,const Q6& b,int s){ Q6 r; for(int k=0;k<6;++k) r[k]=a[k]+s*b[k]; return r; }
static std::multiset<Q6> comb(const MV& a,const MV& b,int s){ std::multiset<Q6> o; for(auto& x: a) for(auto& y: b) o.insert(op(x,y,s)); return o; }
static std::set<Q6> S(const MV& v){ return std::set<Q6>(v.begin(),v.end()); }
static MV neg(MV v){ for(auto& q: v) for(auto& x: q) x=-x; return v; }
static std::string show(const MV& v){ std::string s="["; for(auto& q: v){ s+="("; for(int x: q) s+=std::to_string(x)+" "; s+=")"; } return s+"]"; }
static std::string rnd(){ auto& r=vf::rng(); static const char L[]="dusctbDUSCTB"; auto q=[&]{ std::string s; int n=r.range(1,5); for(int i=0;i<n;++i) s+=L[r.range(0,11)]; return s; }; switch(r.range(0,5)){ case 0: case 1: return q(); case 2: return "("+q()+"+"+q()+")/sqrt(2)"; case 3: return "x("+q()+"+"+q()+")+y("+q()+")"; case 4: return "sqrt(1/3)("+q()+"-"+q()+")"; default: return "("+q()+"-"+q()+"-"+q()+")"; } }
static void check(const QuarkContent& q,const MV& w,const std::string& k,const std::string& d){ vf::eval(); EXPECT(S(content(q))==S(w),k,d+" got "+show(content(q))+" want "+show(w)); }
static void algebra(int n,std::function<std::pair<QuarkContent,MV>(std::string&)> make){
  auto& r=vf::rng();
  for(int it=0;it<n;++it){ std::string sa,sb,sc; auto [a,A]=make(sa); auto [b,B]=make(sb); auto [c,C]=make(sc); std::string d=sa+" | "+sb+" | "+sc; vf::begin_case(d); vf::distinct(sa); check(a,A,"parse",sa);
    MV AB; for(auto& q: comb(A,B,1)) AB.push_back(q); MV ABm; for(auto& q: comb(A,B,-1)) ABm.push_back(q);
    check(a+b,AB,"sum",d); check(b+a,AB,"sum.commuted",d); check(a-b,ABm,"difference",d); { QuarkContent t=a; t+=b; check(t,AB,"sum.inplace",d); t=a; t-=b; check(t,ABm,"difference.inplace",d); check(a,A,"operand.kept",d); check(b,B,"operand.kept",d); }
    MV ABC; for(auto& q: comb(AB,C,1)) ABC.push_back(q); check((a+b)+c,ABC,"assoc.left",d); check(a+(b+c),ABC,"assoc.right",d); check(c+b+a,ABC,"assoc.reversed",d); { std::vector<QuarkContent> v={a,b,c}; for(int k=2;k>0;--k) std::swap(v[k],v[r.range(0,k)]); QuarkContent t; for(auto& x: v) t+=x; check(t,ABC,"sum.shuffled",d); }
    QuarkContent na=a; na.antiThis(); check(na,neg(A),"conjugate",d); QuarkContent nn=na; nn.antiThis(); check(nn,A,"conjugate.twice",d); { QuarkContent s=a+b; s.antiThis(); QuarkContent nb=b; nb.antiThis(); check(s,neg(AB),"conjugate.sum",d); EXPECT(S(content(na+nb))==S(content(s)),"conjugate.distributes",d); }
    EXPECT((a+na)==QuarkContent(),"no.net.flavour",d); EXPECT((a-a)==QuarkContent(),"minus.itself",d); check(a+QuarkContent(),A,"vacuum.neutral",d);
    auto compat=[&](const MV& x,const MV& y){ for(auto& p: x) for(auto& q: y) if(p==q) return true; return false; };
    EXPECT((a==b)==compat(A,B),"compatible",d); EXPECT((a!=b)==!compat(A,B),"incompatible",d); EXPECT(a==a,"reflexive",d); EXPECT((a==b)==(b==a),"symmetric",d); EXPECT(((a+b)==c)==compat(AB,C),"compatible.sum",d); EXPECT((a+b)==(b+a),"sum.compatible",d);
    QuarkContent ab=a+b; EXPECT((ab==c)==(c==ab),"symmetric.sum",d); if(A.size()==1&&B.size()==1){ QuarkContent z=a-b; EXPECT((z==QuarkContent())==(a==b),"difference.vacuum",d); }
    { QuarkState x(sa.substr(0,sa.find_first_of("(")==std::string::npos? sa.size():0)), y; EXPECT(y.isVacuum()&&(x-x).isVacuum()&&(x==x)&&(x+y==x),"state",sa); QuarkState z=x; z.antiThis(); EXPECT((x+z).isVacuum(),"state.anti",sa); EXPECT((x!=z)==!x.isVacuum(),"state.neq",sa); z+=x; z-=x; z.antiThis(); EXPECT(z==x,"state.inplace",sa); } }
}
static std::string options(){ std::string r= getenv("VF_REPO")? getenv("VF_REPO"): "/repo"; return r+"/options/"; }
void harness(){
  int sh=vf::scale(1,4);
  for(int i=0;i<sh;++i){
  vf::section("strings"+std::to_string(i),[]{ algebra(vf::scale(20000,300000),[](std::string& s){ s=rnd(); return std::make_pair(QuarkContent(s),quarks(s)); }); },300);
  vf::section("table"+std::to_string(i),[]{ auto rows=read(options()+"mass_width.csv"); auto rows2=read(options()+"MintDalitzSpecialParticles.csv"); rows.insert(rows.end(),rows2.begin(),rows2.end()); auto all=entries(rows); std::map<std::string,Entry> m; for(auto& e: all) m.insert_or_assign(e.name,e); std::vector<Entry> v; for(auto& [n,e]: m) v.push_back(e);
    algebra(vf::scale(20000,300000),[v](std::string& s){ auto& e=v[vf::rng().range(0,v.size()-1)]; s=e.name; MV w=quarks(e.r.f[17]); if(e.bar) w=neg(w); auto p=ParticlePropertiesList::get(e.name,true); return std::make_pair(p->quarkContent(),w); }); },300); }
  // charge implied by the content, for every particle with known quarks
  vf::section("charge",[]{ auto l=ParticlePropertiesList::getMe(); for(auto it=l->begin();it!=l->end();++it){ MV w=content(it->quarkContent()); if(S(w)==std::set<Q6>{Q6{}} && it->charge()!=0) { vf::count("charged.without.quarks"); continue; } for(auto& q: w){ vf::eval(); vf::distinct(it->name()); int n=0, m=0; for(int x: q){ n+=x; m+=std::abs(x); } if(m==1){ vf::count("bare.quark"); continue; } int three=2*(q[1]+q[3]+q[5])-(q[0]+q[2]+q[4]);  EXPECT(three==3*it->charge(),"charge."+it->name(),it->name()+" "+show(w)); EXPECT(n%3==0,"baryon.number",it->name()+" "+show(w)); } } },60);
}
