// C06: tensor algebra against a dense numeric reference model
#include "vf.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Expression.h"
#include <algorithm>
#include <numeric>
#include <map>
#include <set>
using namespace AmpGen;
typedef std::complex<double> C;
typedef std::vector<unsigned> U;
static vf::Rng& R(){ return vf::rng(); }
struct Ref { U dim; std::vector<C> v;
  unsigned idx(const U& c) const { unsigned k=0; for(size_t i=0;i<dim.size();++i) k=k*dim[i]+c[i]; return k; }
  C at(const U& c) const { return v[idx(c)]; } };
static unsigned prod(const U& d){ unsigned n=1; for(auto x: d) n*=x; return n; }
// all coordinates, last fastest
static std::vector<U> allc(const U& d){ std::vector<U> r; U c(d.size(),0); unsigned n=prod(d); for(unsigned k=0;k<n;++k){ r.push_back(c); for(int i=int(d.size())-1;i>=0;--i){ if(++c[i]<d[i]) break; c[i]=0; } } return r; }
static int pc=0;
static C rv(){ int k=R().range(0,9); if(k==0) return 0; if(k==1) return 1; if(k==2) return -1; if(k==3) return C(0,1); C z(R().uni(-3,3), R().coin()?R().uni(-3,3):0.); return z; }
static std::pair<Tensor,Ref> rt(const U& d, bool nz=false){
  Ref r; r.dim=d; std::vector<Expression> e;
  for(unsigned i=0;i<prod(d);++i){ C z=rv(); if(nz&&std::abs(z)<0.1) z=C(1.7,0.3);
    if(R().coin(0.3)){ double x=R().uni(-2,2); z=x; e.push_back(Parameter("p"+std::to_string(pc++),x)); } else e.push_back(Constant(z.real(),z.imag())); r.v.push_back(z); }
  return {Tensor(e,d),r}; }
static std::string show(const Ref& r){ return "dim="+vf::vstr(r.dim)+" v="+vf::vstr(r.v); }
static void cmp(const Tensor& t,const Ref& r,const std::string& key,const std::string& what,double tol=1e-10){
  vf::eval(); vf::distinct(key+vf::vstr(r.dim));
  if(!EXPECT(t.dims()==r.dim,key+".dims",what+" dims "+vf::vstr(t.dims())+" expected "+vf::vstr(r.dim))) return;
  if(!EXPECT(t.size()==r.v.size() && t.nElements()==r.v.size(),key+".size",what)) return;
  double sc=1; for(auto& x: r.v) sc=std::max(sc,std::abs(x));
  auto cs=allc(r.dim);
  for(size_t i=0;i<cs.size();++i){ C a=t[cs[i]](); CLOSE(a,r.v[i],tol,key,what+" at "+vf::vstr(cs[i])+" ref "+show(r),sc); C b=t[unsigned(i)](); CLOSE(b,r.v[i],tol,key+".linear",what+" linear index "+std::to_string(i),sc); C g=t.get(cs[i])(); CLOSE(g,r.v[i],tol,key+".get",what,sc); C g2=t.get(unsigned(i))(); CLOSE(g2,r.v[i],tol,key+".getl",what,sc);} }
static U rd(int rmin,int rmax,int dmax=4,unsigned cap=300){ U d; int n=R().range(rmin,rmax); for(int i=0;i<n;++i) d.push_back(R().range(1,dmax)); while(prod(d)>cap) d.pop_back(); return d; }
static void indexing(){
  for(int it=0;it<vf::scale(3000,60000);++it){ U d=rd(1,5,5); vf::begin_case("indexing dim "+vf::vstr(d)); vf::distinct(vf::vstr(d)); if(it<2) vf::sample("dims "+vf::vstr(d));
    auto cs=allc(d); std::set<unsigned> seen; for(size_t i=0;i<cs.size();++i){ vf::eval(); unsigned k=Tensor::coordinates_to_index(cs[i],d); EXPECT(k==i,"index.order",vf::vstr(cs[i])+" in "+vf::vstr(d)+" -> "+std::to_string(k)); EXPECT(seen.insert(k).second,"index.unique",vf::vstr(cs[i])); EXPECT(Tensor::index_to_coordinates(i,d)==cs[i],"index.inverse",std::to_string(i)+" in "+vf::vstr(d)+" -> "+vf::vstr(Tensor::index_to_coordinates(i,d))); } }
}
static void elementwise(){
  for(int it=0;it<vf::scale(1500,20000);++it){ U d=rd(0,4,4,64); if(d.empty()) d={1}; auto [A,a]=rt(d); auto [B,b]=rt(d); C s=rv(); if(std::abs(s)<0.1) s=C(0.7,-0.2); double x=R().uni(0.5,3)*(R().coin()?-1:1);
    vf::begin_case("elementwise "+show(a)+" "+show(b)); if(it<2) vf::sample(show(a));
    auto mk=[&](auto f){ Ref r=a; for(size_t i=0;i<r.v.size();++i) r.v[i]=f(a.v[i],b.v[i]); return r; };
    Expression S=Constant(s.real(),s.imag());
    cmp(A+B,mk([](C p,C q){return p+q;}),"add","A+B"); cmp(A-B,mk([](C p,C q){return p-q;}),"sub","A-B"); cmp(-A,mk([](C p,C){return -p;}),"neg","-A");
    cmp(A*S,mk([&](C p,C){return p*s;}),"mulR","A*s"); cmp(S*A,mk([&](C p,C){return p*s;}),"mulL","s*A"); cmp(A/S,mk([&](C p,C){return p/s;}),"div","A/s");
    cmp(A*x,mk([&](C p,C){return p*x;}),"muldR","A*x"); cmp(x*A,mk([&](C p,C){return p*x;}),"muldL","x*A"); cmp(A/x,mk([&](C p,C){return p/x;}),"divd","A/x");
    cmp(A.conjugate(),mk([](C p,C){return std::conj(p);}),"conj","A*"); Tensor T=A; T+=B; cmp(T,mk([](C p,C q){return p+q;}),"addeq","A+=B"); T-=A; cmp(T,mk([](C,C q){return q;}),"subeq","(A+B)-=A");
    C ds=0; auto cs=allc(d); double sc=1; if(a.v.size()==1) ds=a.v[0]*b.v[0]; else for(size_t i=0;i<cs.size();++i){ int sg=1; for(auto c: cs[i]) sg*= c==3?1:-1; C t=double(sg)*a.v[i]*b.v[i]; ds+=t; sc=std::max(sc,std::abs(t)); }
    CLOSE(dot(A,B)(),ds,1e-10,"dot","dot "+show(a)+show(b),sc); CLOSE(dot(B,A)(),ds,1e-10,"dot.sym","dot",sc);
    EXPECT(A.rank()==d.size() && A.nDim()==d.size(),"rank","rank"); EXPECT(A.rankMatches(B),"rankMatches","same dims"); for(size_t i=0;i<cs.size();++i){ int sg=1; for(auto c: cs[i]) sg*= c==3?1:-1; EXPECT(A.metricSgn(unsigned(i))==sg && A.metricSgn(cs[i])==sg,"metricSgn",vf::vstr(cs[i])); EXPECT(A.coords(i)==cs[i],"coords",vf::vstr(cs[i])); }
  }
}
// einsum over two index lists; pos shared labels contracted; metric when the variance differs
struct Lab { int id; bool up; };
static Ref einsum(const Ref& a,const std::vector<Lab>& la,const Ref& b,const std::vector<Lab>& lb,std::vector<Lab>& lo){
  lo.clear(); U od; std::vector<std::pair<int,int>> con; // positions
  for(size_t i=0;i<la.size();++i){ int f=-1; for(size_t j=0;j<lb.size();++j) if(lb[j].id==la[i].id) f=j; if(f<0){ lo.push_back(la[i]); od.push_back(a.dim[i]); } else con.push_back({int(i),f}); }
  for(size_t j=0;j<lb.size();++j){ bool f=false; for(auto& l: la) if(l.id==lb[j].id) f=true; if(!f){ lo.push_back(lb[j]); od.push_back(b.dim[j]); } }
  Ref r; r.dim=od; U cd; for(auto& c: con) cd.push_back(a.dim[c.first]);
  for(auto& oc: allc(od)){ U ca(a.dim.size()),cb(b.dim.size()); std::map<int,unsigned> val; for(size_t k=0;k<lo.size();++k) val[lo[k].id]=oc[k]; C s=0;
    for(auto& cc: allc(cd)){ for(size_t k=0;k<con.size();++k) val[la[con[k].first].id]=cc[k]; double sg=1; for(size_t k=0;k<con.size();++k) if(la[con[k].first].up!=lb[con[k].second].up && cc[k]!=3) sg=-sg; for(size_t i=0;i<la.size();++i) ca[i]=val[la[i].id]; for(size_t j=0;j<lb.size();++j) cb[j]=val[lb[j].id]; s+=sg*a.at(ca)*b.at(cb); }
    r.v.push_back(s); }
  return r; }
static std::string labs(const std::vector<Lab>& l){ std::string s; for(auto& x: l) s+=(x.up?"-":"")+std::to_string(x.id)+","; return s; }
static void contraction(){
  for(int it=0;it<vf::scale(1500,20000);++it){
    std::vector<Tensor::Index> ix(7); std::vector<unsigned> ldim; for(int i=0;i<7;++i) ldim.push_back(R().coin(0.6)?4:R().range(1,4));
    auto gen=[&](int n){ std::vector<int> ids(7); std::iota(ids.begin(),ids.end(),0); R().shuffle(ids); std::vector<Lab> l; for(int i=0;i<n;++i) l.push_back({ids[i],R().coin()}); return l; };
    int na=R().range(1,4), nb=R().range(1,3); auto la=gen(na), lb=gen(nb); int n3=R().range(1,3); auto lc=gen(n3);
    if(R().coin(0.4)){ lb=la; R().shuffle(lb); if(lb.size()>1&&R().coin()) lb.pop_back(); for(auto& l: lb) if(R().coin()) l.up=!l.up; }
    auto osz=[&](const std::vector<Lab>& x,const std::vector<Lab>& y){ unsigned n=1; for(auto& l: x){ bool f=false; for(auto& m: y) f|= m.id==l.id; if(!f) n*=ldim[l.id]; } for(auto& l: y){ bool f=false; for(auto& m: x) f|= m.id==l.id; if(!f) n*=ldim[l.id]; } return n; };
    if(osz(la,lb)>128){ --it; continue; }
    U da,db; for(auto& l: la) da.push_back(ldim[l.id]); for(auto& l: lb) db.push_back(ldim[l.id]);
    auto [A,a]=rt(da); auto [B,b]=rt(db);
    auto mi=[&](const std::vector<Lab>& l){ std::vector<Tensor::Index> v; for(auto& x: l) v.push_back(x.up? -ix[x.id]: ix[x.id]); return v; };
    std::string d="contract A("+labs(la)+")"+show(a)+" B("+labs(lb)+")"+show(b); vf::begin_case(d); if(it<2) vf::sample(d);
    std::vector<Lab> lo; Ref r=einsum(a,la,b,lb,lo); vf::count(lo.size()==0?"full_contractions":"partial_contractions");
    TensorProxy p=A(mi(la))*B(mi(lb));
    auto oi=p.indices(); bool same= oi.size()==lo.size(); if(same) for(size_t k=0;k<lo.size();++k) same&= oi[k]==ix[lo[k].id] && oi[k].isUpper()==lo[k].up;
    vf::distinct(labs(la)+"|"+labs(lb));
    EXPECT(same,"contract.freeindices",d);
    if(r.dim.empty()){ vf::eval(); double sc=1; for(auto&x:a.v) for(auto&y: b.v) sc=std::max(sc,std::abs(x*y)); CLOSE(Expression(p)(),r.v[0],1e-10,"contract.scalar",d,sc); }
    else cmp(Tensor(p),r,"contract",d);
    // chain with a third tensor (associativity of the chain is what the vertex code relies on)
    if(osz(lo,lc)>128) continue; U dc; for(auto& l: lc) dc.push_back(ldim[l.id]); auto [D,dd]=rt(dc);
    std::vector<Lab> lo2; Ref r2=einsum(r,lo,dd,lc,lo2); std::string d2="chain "+d+" C("+labs(lc)+")"; vf::begin_case(d2);
    vf::count(lo.empty()?"scalar_times_tensor":"chain");
    TensorProxy q=p*D(mi(lc)); double sc=1; for(auto&x:r.v) for(auto&y: dd.v) sc=std::max(sc,std::abs(x*y));
    if(r2.dim.empty()){ vf::eval(); CLOSE(Expression(q)(),r2.v[0],1e-10,"chain.scalar",d2,sc); } else cmp(Tensor(q),r2,"chain",d2);
    std::vector<Lab> lo3; Ref r3=einsum(dd,lc,r,lo,lo3); vf::begin_case("reversed "+d2); TensorProxy q3=D(mi(lc))*p;
    if(r3.dim.empty()){ vf::eval(); CLOSE(Expression(q3)(),r3.v[0],1e-10,"chainR.scalar",d2,sc); } else cmp(Tensor(q3),r3,"chainR",d2);
    // scaling of proxies
    C s(R().uni(0.3,2),R().uni(-1,1)); double x=R().uni(0.5,2); Expression S=Constant(s.real(),s.imag());
    if(!r.dim.empty()){ Ref rs=r; for(auto& v: rs.v) v*=s; cmp(Tensor(p*S),rs,"proxy.mulR",d); cmp(Tensor(S*p),rs,"proxy.mulL",d); rs=r; for(auto& v: rs.v) v/=s; cmp(Tensor(p/S),rs,"proxy.div",d); rs=r; for(auto& v: rs.v) v*=x; cmp(Tensor(p*x),rs,"proxy.muldR",d); cmp(Tensor(x*p),rs,"proxy.muldL",d); rs=r; for(auto& v: rs.v) v/=x; cmp(Tensor(p/x),rs,"proxy.divd",d); }
  }
  vf::require("scalar_times_tensor",5); vf::require("full_contractions",20); vf::require("partial_contractions",100);
}
static void addition(){
  for(int it=0;it<vf::scale(1500,20000);++it){
    int n=R().range(1,4); U da; for(int i=0;i<n;++i) da.push_back(R().coin(0.7)?3:R().range(1,4)); std::vector<Tensor::Index> ix(n); std::vector<int> perm(n); std::iota(perm.begin(),perm.end(),0); R().shuffle(perm);
    U db; std::vector<Tensor::Index> ib; for(int p: perm){ db.push_back(da[p]); ib.push_back(ix[p]); }
    auto [A,a]=rt(da); auto [B,b]=rt(db); std::string d="A+B perm "+vf::vstr(perm)+" "+show(a)+" "+show(b); vf::begin_case(d); if(it<2) vf::sample(d);
    Ref rp=a, rm=a; auto cs=allc(da); for(size_t k=0;k<cs.size();++k){ U cb; for(int p: perm) cb.push_back(cs[k][p]); rp.v[k]+=b.at(cb); rm.v[k]-=b.at(cb); }
    cmp(Tensor(A(ix)+B(ib)),rp,"proxy.add",d); cmp(Tensor(A(ix)-B(ib)),rm,"proxy.sub",d);
    // reorder: same tensor, indices listed in another order
    Ref ro; ro.dim=db; for(auto& c: allc(db)){ U ca(n); for(int k=0;k<n;++k) ca[perm[k]]=c[k]; ro.v.push_back(a.at(ca)); }
    vf::begin_case("reorder "+d); bool cubic=std::all_of(da.begin(),da.end(),[&](unsigned x){return x==da[0];});
    vf::count(cubic?"reorder_cubic":"reorder_rect");
    { TensorProxy p=A(ix); TensorProxy q=p.reorder(ib); cmp(Tensor(q),ro,"reorder",d); EXPECT(q.indices()==ib,"reorder.indices",d); }
  }
}
static void symmetry(){
  for(int it=0;it<vf::scale(600,6000);++it){
    int n=R().range(2,4); unsigned k=R().range(2,n==4?3:4); U d(n,k); std::vector<unsigned> si; { std::vector<unsigned> all(n); std::iota(all.begin(),all.end(),0); R().shuffle(all); int m=R().range(2,n); si.assign(all.begin(),all.begin()+m); }
    auto [A,a]=rt(d); std::string ds="symmetrise "+vf::vstr(si)+" "+show(a); vf::begin_case(ds); if(it<2) vf::sample(ds); vf::distinct(vf::vstr(si)+vf::vstr(d));
    if(si.size()==2 && R().coin()) A.imposeSymmetry(si[0],si[1]); else A.imposeSymmetry(si);
    std::sort(si.begin(),si.end()); std::set<U> orbits;
    for(auto& c: allc(d)){ vf::eval(); U s; for(auto i: si) s.push_back(c[i]); std::sort(s.begin(),s.end()); U canon=c; for(size_t i=0;i<si.size();++i) canon[si[i]]=s[i]; orbits.insert(canon);
      C v=A[c](); C vc=A[canon](); CLOSE(v,vc,1e-12,"sym.orbit",ds+" "+vf::vstr(c),1e-300); 
      bool in=false; U pp=s; do { U o=c; for(size_t i=0;i<si.size();++i) o[si[i]]=pp[i]; if(std::abs(a.at(o)-v)<1e-12) in=true; } while(std::next_permutation(pp.begin(),pp.end()));
      EXPECT(in,"sym.value",ds+" "+vf::vstr(c)); }
    EXPECT(A.uniqueElements().size()==orbits.size(),"sym.unique",ds+vf::fmt(" unique %zu orbits %zu",A.uniqueElements().size(),orbits.size()));
    // a symmetric tensor plus an arbitrary one is the element-wise sum
    auto [B,b]=rt(d); std::vector<Tensor::Index> ix(n); Ref r; r.dim=d; for(auto& c: allc(d)) r.v.push_back(A[c]()+b.at(c));
    vf::begin_case("sum with symmetric "+ds); cmp(Tensor(A(ix)+B(ix)),r,"sym.add",ds); cmp(Tensor(B(ix)+A(ix)),r,"sym.addR",ds); cmp(A+B,r,"sym.addT",ds);
    Ref rm; rm.dim=d; for(auto& c: allc(d)) rm.v.push_back(2.*A[c]()); cmp(A*2.,rm,"sym.scale",ds); cmp(A+A,rm,"sym.double",ds);
  }
}
static void inversion(){
  for(int it=0;it<vf::scale(500,6000);++it){ unsigned n=R().range(1,6); auto [A,a]=rt({n,n}); for(unsigned i=0;i<n;++i){ double x=n*4.+R().uni(0,3); A(i,i)=Constant(x,1.); a.v[i*n+i]=C(x,1); }
    std::string d="invert "+show(a); vf::begin_case(d); if(it<2) vf::sample(d); vf::distinct(vf::fmt("%u.%d",n,it));
    Tensor I=A.Invert(); vf::eval(); if(!EXPECT(I.dims()==U({n,n}),"invert.dims",d)) continue;
    std::vector<C> inv(n*n); for(unsigned i=0;i<n*n;++i) inv[i]=I[i]();
    for(unsigned i=0;i<n;++i) for(unsigned j=0;j<n;++j){ C s=0,t=0; for(unsigned k=0;k<n;++k){ s+=a.v[i*n+k]*inv[k*n+j]; t+=inv[i*n+k]*a.v[k*n+j]; } CLOSE(s,C(i==j),1e-9,"invert.right",d,1); CLOSE(t,C(i==j),1e-9,"invert.left",d,1); } }
  for(unsigned n=1;n<=8;++n){ Ref r; r.dim={n,n}; r.v.assign(n*n,0); for(unsigned i=0;i<n;++i) r.v[i*n+i]=1; cmp(Identity(n),r,"identity","identity"); }
  for(unsigned n=2;n<=4;++n){ Ref r; r.dim=U(n,n); for(auto& c: allc(r.dim)){ int s=1; for(unsigned i=0;i<n;++i) for(unsigned j=i+1;j<n;++j) s*= c[i]==c[j]?0:(c[i]<c[j]?1:-1); r.v.push_back(s); } cmp(LeviCivita(n),r,"levicivita","levi-civita rank "+std::to_string(n)); }
}
void harness(){ vf::section("indexing",indexing); vf::section("elementwise",elementwise); vf::section("contraction",contraction); vf::section("addition",addition); vf::section("symmetry",symmetry); vf::section("inversion",inversion); }
