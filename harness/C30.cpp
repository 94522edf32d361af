// C30: errors, binnings, angles and Dalitz integrals are the quantities they are named after
#include "vf.h"
#include "interp.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/BinDT.h"
#include "AmpGen/FastDT.h"
#include "AmpGen/Chi2Estimator.h"
#include "AmpGen/DalitzIntegrator.h"
#include "AmpGen/Kinematics.h"
#include "AmpGen/ThreeBodyCalculators.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Projection.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Event.h"
#include "AmpGen/EventList.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "TGraph.h"
#include <cstring>
#include <unistd.h>
#include <memory>
#include <set>
#include <fstream>
using namespace AmpGen;
typedef long double L; typedef std::vector<double> V; typedef std::function<double(void)> F;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }

// ---------------------------------------------------------------- errors
struct Setup { std::vector<std::unique_ptr<MinuitParameter>> own; std::vector<MinuitParameter*> p; V mean; std::vector<std::vector<L>> C; TMatrixD cov;
  bool kept() const { for(size_t i=0;i<p.size();++i) if(p[i]->mean()!=mean[i]) return false; return true; } };
static int g_name=0;
static Setup setup(vf::Rng& r,int n,bool diagonal,bool zeros){ Setup s; for(int i=0;i<n;++i){ double m=r.coin(0.15)? 0: r.gauss()*std::pow(10.,r.range(-2,3)); s.own.emplace_back(new MinuitParameter("par"+std::to_string(g_name++),Flag::Free,m,0.1)); s.p.push_back(s.own.back().get()); s.mean.push_back(m); }
  // covariance B B^T with widths of different size
  std::vector<std::vector<L>> B(n,std::vector<L>(n)); s.C.assign(n,std::vector<L>(n)); for(int i=0;i<n;++i){ L w=std::pow(10.L,L(r.range(-2,1))); for(int j=0;j<n;++j) B[i][j]= i==j? w*r.uni(0.5,2): diagonal? 0: w*r.uni(-1,1)*0.6; if(zeros&&r.coin(0.3)) for(auto& x: B[i]) x=0; }
  s.cov.ResizeTo(n,n); for(int i=0;i<n;++i) for(int j=0;j<n;++j){ L q=0; for(int k=0;k<n;++k) q+=B[i][k]*B[j][k]; s.C[i][j]=q; s.cov(i,j)=double(q); } for(int i=0;i<n;++i) s.p[i]->setResult(s.mean[i],double(std::sqrt(s.C[i][i])),0,0); return s; }
// functions at most quadratic in each parameter: central differences are exact
struct Fn { std::vector<L> a; std::vector<std::vector<L>> q; L c; std::vector<MinuitParameter*> p; L scale=0;
  double operator()() const { L s=c; for(size_t i=0;i<p.size();++i){ s+=a[i]*p[i]->mean(); for(size_t j=0;j<p.size();++j) s+=q[i][j]*p[i]->mean()*p[j]->mean(); } return s; }
  std::vector<L> grad(const V& m) const { std::vector<L> g(a); for(size_t i=0;i<m.size();++i) for(size_t j=0;j<m.size();++j) g[i]+=(q[i][j]+q[j][i])*m[j]; return g; } };
static Fn makefn(vf::Rng& r,const Setup& s){ int n=s.p.size(); Fn f; f.p=s.p; f.c=r.gauss(); bool quad=r.coin(); f.a.resize(n); f.q.assign(n,std::vector<L>(n)); for(int i=0;i<n;++i){ f.a[i]=r.coin(0.2)? 0: r.gauss(); if(quad) for(int j=0;j<n;++j) if(r.coin(0.3)) f.q[i][j]=r.gauss(); } return f; }
static L contract(const std::vector<L>& g,const std::vector<std::vector<L>>& C,const std::vector<L>& h){ L s=0; for(size_t i=0;i<g.size();++i) for(size_t j=0;j<h.size();++j) s+=g[i]*C[i][j]*h[j]; return s; }
// rounding of a central difference: the size of the function over the step
static L slack(const Fn& f,const Setup& s){ L big=std::abs(f.c)+1e-30L,e=0; for(size_t i=0;i<s.p.size();++i){ L x=std::abs(s.mean[i])+std::sqrt(s.C[i][i]); big+=std::abs(f.a[i])*x; for(size_t j=0;j<s.p.size();++j) big+=std::abs(f.q[i][j])*x*(std::abs(s.mean[j])+std::sqrt(s.C[j][j])); } for(size_t i=0;i<s.p.size();++i) e+=1; return big*(e+1)*1e-15L; }
static void linear(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(1500,15000);++c){ int n=r.range(1,7); bool zeros=r.coin(0.25); auto s=setup(r,n,r.coin(0.3),zeros); std::string d=vf::fmt("case %d: %d parameters%s ",c,n,zeros? ", some without uncertainty":"")+vf::vstr(s.mean); vf::begin_case(d); vf::distinct(d); vf::eval();
    LinearErrorPropagator p(s.cov,s.p); int m=r.range(1,4); std::vector<Fn> f; std::vector<F> fs; for(int k=0;k<m;++k){ f.push_back(makefn(r,s)); } for(int k=0;k<m;++k) fs.push_back(f[k]);
    std::vector<std::vector<L>> g; std::vector<L> sl; for(auto& x: f){ g.push_back(x.grad(s.mean)); sl.push_back(slack(x,s)); } auto var=[&](int i,int j){ return contract(g[i],s.C,g[j]); };
    for(int k=0;k<m;++k){ L w=std::sqrt(std::max(0.L,var(k,k))); double e=p.getError(fs[k]); EXPECT(std::abs(e-w)<=1e-9L*w+40*sl[k],"linear.error",d+vf::fmt(" function %d: error %.12g, expected %.12Lg",k,e,w)); EXPECT(s.kept(),"linear.restored",d+" after getError"); double e2=p(fs[k]); EXPECT(e2==e||std::abs(e2-w)<=1e-9L*w+40*sl[k],"linear.error",d); vf::count("errors"); }
    auto ve=p.getVectorError([&]{ V o; for(auto& x: f) o.push_back(x()); return o; },m); EXPECT(s.kept(),"linear.restored",d+" after getVectorError"); EXPECT(int(ve.size())==m,"linear.vector",d); for(int k=0;k<m&&k<int(ve.size());++k){ L w=std::sqrt(std::max(0.L,var(k,k))); EXPECT(std::abs(ve[k]-w)<=1e-9L*w+40*sl[k],"linear.vector",d+vf::fmt(" function %d: error %.12g, expected %.12Lg",k,ve[k],w)); }
    auto cv=p.covarianceMatrix(fs); EXPECT(s.kept(),"linear.restored",d+" after covarianceMatrix"); for(int i=0;i<m;++i) for(int j=0;j<m;++j){ L t=std::sqrt(std::max(0.L,var(i,i)*var(j,j))); EXPECT(std::abs(cv(i,j)-var(i,j))<=1e-9L*t+80*(sl[i]*std::sqrt(std::max(0.L,var(j,j)))+sl[j]*std::sqrt(std::max(0.L,var(i,i)))+sl[i]*sl[j]),"linear.covariance",d+vf::fmt(" (%d,%d): %.12g, expected %.12Lg",i,j,cv(i,j),var(i,j))); }
    bool well=true; for(int i=0;i<m;++i) well=well&&std::sqrt(std::max(0.L,var(i,i)))>1e5L*sl[i]; if(well){ auto cr=p.correlationMatrix(fs); for(int i=0;i<m;++i) for(int j=0;j<m;++j){ L w=var(i,j)/std::sqrt(var(i,i)*var(j,j)); EXPECT(std::abs(cr(i,j)-w)<1e-3L,"linear.correlation",d+vf::fmt(" (%d,%d): %.12g, expected %.12Lg",i,j,cr(i,j),w)); if(i==j) EXPECT(std::abs(cr(i,j)-1)<1e-12,"linear.correlation",d+": diagonal"); EXPECT(std::abs(cr(i,j))<=1+1e-9,"linear.correlation",d+": beyond one"); } vf::count("correlations");
      // combination of two: minimal variance
      if(m>=2){ std::vector<F> two={fs[0],fs[1]}; L a=var(0,0),b=var(1,1),k=var(0,1); L rho=k/std::sqrt(a*b); L den=a+b-2*k; if(std::abs(rho)<0.99L&&den>1e-3L*(a+b)){ L w0=(b-k)/den,w1=(a-k)/den; auto w=p.combinationWeights(two); auto [v,e]=p.combinationCovWeighted(two); L want=w0*f[0]()+w1*f[1](),err=std::sqrt((a*b-k*k)/den); EXPECT(w.size()==2&&std::abs(w[0]-w0)<1e-4L*(1+std::abs(w0))&&std::abs(w[1]-w1)<1e-4L*(1+std::abs(w1)),"linear.weights",d+": "+vf::vstr(w)+vf::fmt(" expected %.10Lg %.10Lg",w0,w1)); EXPECT(std::abs(v-want)<1e-4L*(std::abs(w0*f[0]())+std::abs(w1*f[1]())+1e-30L)&&std::abs(e-err)<1e-4L*err,"linear.combination",d+vf::fmt(": %.10g +- %.10g, expected %.10Lg +- %.10Lg",v,e,want,err)); EXPECT(s.kept(),"linear.restored",d+" after a combination"); vf::count("combinations"); } } }
    if(c<2) vf::sample(d); }
  vf::require("errors",200); vf::require("combinations",20); vf::require("correlations",20); }
// constructors from parameters, adding and resetting
static void sources(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(800,8000);++c){ int n=r.range(1,8); auto s=setup(r,n,true,r.coin(0.3)); std::vector<int> use; MinuitParameterSet mps; for(int i=0;i<n;++i){ if(r.coin(0.25)) s.p[i]->fix(); if(s.p[i]->isFree()&&s.p[i]->err()!=0) use.push_back(i); } std::string d=vf::fmt("case %d: %d of %d parameters",c,int(use.size()),n); vf::begin_case(d); vf::distinct(d+vf::vstr(s.mean)); vf::eval();
    for(auto& o: s.p) mps.add(o); LinearErrorPropagator a(s.p),b(mps); for(auto* q: {&a,&b}){ if(!EXPECT(q->size()==use.size()&&q->params().size()==use.size()&&q->cov().GetNrows()==int(use.size()),"sources.size",d)) continue; for(size_t i=0;i<use.size();++i){ EXPECT(q->params()[i]==s.p[use[i]],"sources.parameters",d); auto pm=q->posMap(); EXPECT(pm.size()==use.size()&&pm.at(s.p[use[i]]->name())==i,"sources.positions",d); for(size_t j=0;j<use.size();++j){ L w= i==j? s.C[use[i]][use[i]]: 0; EXPECT(std::abs(q->cov()(i,j)-w)<=1e-12L*w,"sources.covariance",d); } } auto f=makefn(r,s); auto g=f.grad(s.mean); L w=0; for(auto i: use) w+=g[i]*g[i]*s.C[i][i]; w=std::sqrt(w); double e=q->getError(F(f)); EXPECT(std::abs(e-w)<=1e-9L*w+40*slack(f,s),"sources.error",d+vf::fmt(": %.12g, expected %.12Lg",e,w)); EXPECT(s.kept(),"sources.restored",d); }
    // sums of independent covariances over different parameters
    int k=r.range(1,4); std::vector<std::vector<L>> T(n,std::vector<L>(n)); std::unique_ptr<LinearErrorPropagator> t; std::set<int> in; for(int q=0;q<k;++q){ std::vector<int> ix; for(int i=0;i<n;++i) if(r.coin(0.6)) ix.push_back(i); r.shuffle(ix); if(ix.empty()) continue; auto u=setup(r,ix.size(),false,false); std::vector<MinuitParameter*> pp; for(auto i: ix) pp.push_back(s.p[i]); LinearErrorPropagator x(u.cov,pp); if(!t) t.reset(new LinearErrorPropagator(x)); else t->add(x); for(size_t i=0;i<ix.size();++i){ in.insert(ix[i]); for(size_t j=0;j<ix.size();++j) T[ix[i]][ix[j]]+=u.C[i][j]; } }
    if(t){ EXPECT(t->size()==in.size(),"sources.add",d+vf::fmt(": %zu parameters, expected %zu",t->size(),in.size())); Setup v; v.mean=s.mean; v.C=T; v.p=s.p; auto f=makefn(r,v); L w=std::sqrt(std::max(0.L,contract(f.grad(s.mean),T,f.grad(s.mean)))); double e=t->getError(F(f)); EXPECT(std::abs(e-w)<=1e-9L*w+40*slack(f,v)*10,"sources.add",d+vf::fmt(": error %.12g, expected %.12Lg after adding",e,w)); vf::count("sums"); 
      t->reset(); EXPECT(t->size()==0,"sources.reset",d); auto zv=t->getVectorError([&]{ return V{f()}; },1); EXPECT(zv.size()==1&&zv[0]==0,"sources.reset",d); double z=t->getError(F(f)); EXPECT(z==0,"sources.reset",d+vf::fmt(": error %g after reset",z)); LinearErrorPropagator again(s.cov,s.p); t->add(again); EXPECT(t->size()==size_t(n),"sources.reset",d); auto g=f.grad(s.mean); L w2=std::sqrt(std::max(0.L,contract(g,s.C,g))); double e2=t->getError(F(f)); EXPECT(std::abs(e2-w2)<=1e-9L*w2+40*slack(f,s),"sources.reset",d+vf::fmt(": %.12g, expected %.12Lg",e2,w2)); }
    for(auto& o: s.p) mps.unregister(o); }
  vf::require("sums",20); }
static void gauss(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(20,80);++c){ int n=r.range(1,5); auto s=setup(r,n,r.coin(0.3),false); TRandom3 rnd(r.next()%100000); GaussErrorPropagator p(s.cov,s.p,&rnd); std::string d=vf::fmt("case %d: %d parameters",c,n); vf::begin_case(d); vf::distinct(d+vf::vstr(s.mean)); int N=vf::scale(4000,30000); std::vector<L> m1(n); std::vector<std::vector<L>> m2(n,std::vector<L>(n)); for(int k=0;k<N;++k){ p.perturb(); vf::eval(); for(int i=0;i<n;++i){ L x=s.p[i]->mean()-s.mean[i]; m1[i]+=x; for(int j=0;j<n;++j) m2[i][j]+=x*(s.p[j]->mean()-s.mean[j]); } }
    for(int i=0;i<n;++i){ L e=std::sqrt(s.C[i][i]/N); EXPECT(std::abs(m1[i]/N)<6.5L*e,"gauss.mean",d+vf::fmt(" parameter %d",i)); for(int j=0;j<n;++j){ L q=std::sqrt((s.C[i][i]*s.C[j][j]+s.C[i][j]*s.C[i][j])/N); EXPECT(std::abs(m2[i][j]/N-s.C[i][j])<6.5L*q,"gauss.covariance",d+vf::fmt(" (%d,%d): %.6Lg, expected %.6Lg +- %.2Lg",i,j,m2[i][j]/N,s.C[i][j],q)); } } p.reset(); EXPECT(s.kept(),"gauss.reset",d); vf::count("sets"); } vf::require("sets",5); }

// ---------------------------------------------------------------- binnings
struct Data { int dim; std::vector<V> rows; std::vector<double*> p; };
static Data sampleOf(vf::Rng& r,int n,int dim,bool weight,int kind){ Data d; d.dim=dim; V mu(dim),sg(dim); for(int k=0;k<dim;++k){ mu[k]=r.gauss()*2; sg[k]=std::pow(10.,r.range(-2,1)); } for(int i=0;i<n;++i){ V x; for(int k=0;k<dim;++k){ double v= kind==1? r.uni(): kind==2? std::exp(r.gauss()): mu[k]+sg[k]*r.gauss(); if(kind==3) v=std::floor(v*2)/2; x.push_back(v); } if(weight) x.push_back(kind==2? r.uni(0.5,2): 1); d.rows.push_back(x); } for(auto& x: d.rows) d.p.push_back(x.data()); return d; }
template<class TREE> std::vector<int> tally(const TREE& t,const Data& d,int size,const std::string& key,const std::string& w){ std::vector<int> n(size); for(auto& x: d.rows){ int b=t.getBinNumber(x.data()); if(!EXPECT(b>=0&&b<size,key+".range",w+vf::fmt(": bin %d of %d",b,size))) break; ++n[b]; vf::count("points"); } return n; }
static void bins(int part){ auto& r=vf::rng(); for(int c=0;c<vf::scale(120,800);++c){ int dim=r.range(1,6),kind=r.range(0,3); int n= r.coin(0.2)? r.range(1,12): r.range(20,vf::scale(900,4000)); unsigned mn=r.pick({1,2,3,5,10,20,33}); unsigned depth=r.coin(0.7)? 999: r.range(0,8); auto d=sampleOf(r,n,dim,false,kind); std::string w=vf::fmt("case %d: %d points of kind %d in %d dimensions, at least %u per bin, depth %u",c,n,kind,dim,mn,depth); vf::begin_case(w); vf::distinct(w); vf::eval(); std::unique_ptr<BinDT> t; std::vector<V> before=d.rows; quiet([&]{ if(part==0) t.reset(new BinDT(d.p,MinEvents(mn),MaxDepth(depth),Dim(dim))); else { t.reset(new BinDT(ArgumentPack(MinEvents(mn),MaxDepth(depth),Dim(dim)))); } });
    bool two=part==1; Data tg; if(two){ // source and target samples with weights
      d=sampleOf(r,n,dim,true,kind); int nt=r.coin(0.2)? r.range(1,12): r.range(20,900); tg=sampleOf(r,nt,dim,true,kind==3? 3: r.range(0,2)); before=d.rows; if(r.coin(0.5)){ std::vector<unsigned> o; for(int k=0;k<dim;++k) o.push_back(k); r.shuffle(o); t->setQueueOrdering(o); } quiet([&]{ t->makeNodes(d.p,tg.p); }); }
    EXPECT(before==d.rows,"bins.sample",w+": the sample was changed"); int size=t->size(); if(!EXPECT(size>=1&&t->top()!=nullptr,"bins.size",w)) continue; if(depth<20) EXPECT(size<=(1<<(depth+1)),"bins.depth",w+vf::fmt(": %d bins",size));
    std::set<unsigned> numbers; for(auto& x: *t) numbers.insert(x->voxNumber()); EXPECT(int(numbers.size())==size&&*numbers.rbegin()==unsigned(size-1),"bins.numbers",w); auto k=tally(*t,d,size,"bins",w); 
    if(kind!=3){ for(int b=0;b<size&&size>1;++b) EXPECT(k[b]>=int(mn),"bins.population",w+vf::fmt(": bin %d of %d holds %d",b,size,k[b])); if(two&&size>1){ auto kt=tally(*t,tg,size,"bins",w); for(int b=0;b<size;++b) EXPECT(kt[b]>=int(mn),"bins.population",w+vf::fmt(": bin %d of %d holds %d of the target",b,size,kt[b])); } if(!two&&depth==999) for(int b=0;b<size;++b) EXPECT(k[b]<2*int(mn),"bins.fine",w+vf::fmt(": bin %d of %d holds %d",b,size,k[b])); vf::count("populated"); }
    // any point of space; written and read again
    for(auto& x: *t) x->setBinNumber(r.range(0,50)); std::string file=vf::scratch()+vf::fmt("/tree%d.txt",int(getpid())); t->serialize(file); BinDT u; { std::ifstream in(file); u.readFromStream(in); } std::unique_ptr<BinDT> v; quiet([&]{ v.reset(new BinDT(File(file),Dim(dim))); }); EXPECT(int(u.size())==size&&int(v->size())==size,"bins.read",w+vf::fmt(": %u bins, written %d",u.size(),size)); for(int q=0;q<200;++q){ V x; for(int i=0;i<dim;++i) x.push_back(q%3==0? r.gauss()*100: q%3==1? before[r.next()%before.size()][i]: r.gauss()); if(q%5==0) x=before[r.next()%before.size()]; unsigned b=t->getBinNumber(x.data()); EXPECT(b<unsigned(size),"bins.range",w); EXPECT(u.getBinNumber(x.data())==b&&u.getBin(x.data())==t->getBin(x.data())&&v->getBinNumber(x.data())==b,"bins.read",w+": the tree read assigns another bin to "+vf::vstr(x)); vf::count("read"); } 
    // the order of the sample does not matter
    if(!two&&kind!=3){ auto e=d; r.shuffle(e.p); std::unique_ptr<BinDT> o; quiet([&]{ o.reset(new BinDT(e.p,MinEvents(mn),MaxDepth(depth),Dim(dim))); }); for(int q=0;q<40;++q){ auto& x=before[r.next()%before.size()]; EXPECT(o->size()==t->size()&&o->getBinNumber(x.data())==t->getBinNumber(x.data()),"bins.order",w); } } if(c<2) vf::sample(w); }
  vf::require("points",1000); vf::require("read",1000); vf::require("populated",8); }
static void fast(int part){ auto& r=vf::rng(); for(int c=0;c<vf::scale(120,800);++c){ int dim=r.range(1,6),kind=r.range(0,3); int n= r.coin(0.2)? r.range(1,12): r.range(20,vf::scale(900,4000)); unsigned mn=r.pick({1,2,3,5,10,20,33}); unsigned depth=r.coin(0.7)? 999: r.range(0,8); bool two=part>0; auto d=sampleOf(r,n,dim,two,kind); int nt=r.coin(0.2)? r.range(1,12): r.range(20,900); auto tg=sampleOf(r,nt,dim,true,kind==3? 3: r.range(0,2)); std::string w=vf::fmt("case %d: %d%s points of kind %d in %d dimensions, at least %u per bin, depth %u%s",c,n,two? vf::fmt(" and %d",nt).c_str():"",kind,dim,mn,depth,part==2? ", best cut":""); vf::begin_case(w); vf::distinct(w); vf::eval(); auto before=d.rows; FastDT t{MinEvents(mn),MaxDepth(depth),Dim(dim)}; if(part==2) t.m_strategy=FastDT::best; int top=0; quiet([&]{ auto p=d.p; if(two) top=t.makeNodes(d.p,tg.p); else top=t.makeNodes(p,std::queue<unsigned>(),0); }); EXPECT(before==d.rows,"fast.sample",w); int size=-t.m_endNodeCounter; if(!EXPECT(size>=1,"fast.size",w)) continue; EXPECT(int(t.m_nodes.size())==size-1&&(size==1? top==-1: top==size-2),"fast.size",w+vf::fmt(": %zu decisions, %d bins",t.m_nodes.size(),size)); if(depth<20) EXPECT(size<=(1<<(depth+1)),"fast.depth",w+vf::fmt(": %d bins",size)); auto k=tally(t,d,size,"fast",w); if(kind!=3&&size>1){ for(int b=0;b<size;++b) EXPECT(k[b]>=int(mn),"fast.population",w+vf::fmt(": bin %d of %d holds %d",b,size,k[b])); if(two){ auto kt=tally(t,tg,size,"fast",w); for(int b=0;b<size;++b) EXPECT(kt[b]>=int(mn),"fast.population",w+vf::fmt(": bin %d of %d holds %d of the target",b,size,kt[b])); } vf::count("populated"); }
    std::string file=vf::scratch()+vf::fmt("/fast%d.txt",int(getpid())); { std::ofstream o(file); t.serialise(o); } std::ifstream in(file); FastDT u(in,unsigned(t.m_nodes.size())); for(int q=0;q<200;++q){ V x; for(int i=0;i<dim;++i) x.push_back(q%3==0? r.gauss()*100: q%3==1? before[r.next()%before.size()][i]: r.gauss()); if(q%2==0) x=before[r.next()%before.size()]; int b=t.getBinNumber(x.data()); EXPECT(b>=0&&b<size,"fast.range",w); EXPECT(u.getBinNumber(x.data())==b,"fast.read",w+": the tree read assigns another bin to "+vf::vstr(x)); vf::count("read"); } if(c<2) vf::sample(w); }
  vf::require("points",1000); vf::require("read",1000); vf::require("populated",8); }
// ---------------------------------------------------------------- samples of events
static Event isotropic(vf::Rng& r,double M,const V& m,double beta=0){ int n=m.size(); std::vector<L> im(n); im[n-1]=M; for(int k=n-2;k>=1;--k){ L lo=0; for(int i=0;i<=k;++i) lo+=m[i]; L hi=im[k+1]-m[k+1]; im[k]=lo+(hi-lo)*r.uni(0.02,0.98); } im[0]=m[0]; std::vector<std::array<L,4>> p(n); auto lam=[](L a,L b,L c){ return std::sqrt(std::max(0.L,(a-b-c)*(a+b+c)*(a-b+c)*(a+b-c)))/(2*a); }; auto boost=[&](std::array<L,4>& x,const L* d,L g,L gb){ L l=x[0]*d[0]+x[1]*d[1]+x[2]*d[2]; L f=(g-1)*l+gb*x[3]; for(int a=0;a<3;++a) x[a]+=f*d[a]; x[3]=g*x[3]+gb*l; }; auto dir=[&](L* d){ L c=r.uni(-1,1),ph=r.uni(0,2*M_PI),s=std::sqrt(1-c*c); d[0]=s*std::cos(ph); d[1]=s*std::sin(ph); d[2]=c; }; p[0]={0,0,0,(L)m[0]}; for(int k=1;k<n;++k){ L q=lam(im[k],im[k-1],m[k]); L d[3]; dir(d); if(k==1) p[0]={q*d[0],q*d[1],q*d[2],std::sqrt(q*q+(L)m[0]*m[0])}; else for(int i=0;i<k;++i) boost(p[i],d,std::sqrt(1+q*q/(im[k-1]*im[k-1])),q/im[k-1]); p[k]={-q*d[0],-q*d[1],-q*d[2],std::sqrt(q*q+(L)m[k]*m[k])}; } if(beta>0){ L d[3]; dir(d); L g=1/std::sqrt(1-(L)beta*beta); for(auto& x: p) boost(x,d,g,g*beta); } Event e(4*n); for(int i=0;i<n;++i) for(int k=0;k<4;++k) e[4*i+k]=p[i][k]; return e; }
#if ENABLE_AVX
typedef EventListSIMD List;
#else
typedef EventList List;
#endif
static void chi2(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(30,200);++c){ bool four=r.coin(0.4); EventType type(four? std::vector<std::string>{"D0","K+","K-","pi+","pi-"}: std::vector<std::string>{"D+","K-","pi+","pi+"}); double M=type.motherMass(); V m; for(unsigned i=0;i<type.size();++i) m.push_back(type.mass(i)); int nd=r.range(30,400),nm=r.range(50,900); unsigned mn=r.pick({5,10,20}); bool boot=r.coin(0.3); EventList D(type),S(type); for(int i=0;i<nd;++i){ Event e=isotropic(r,M,m); e.setWeight(r.coin(0.5)? 1: r.uni(0.2,2)); D.push_back(e); if(boot&&r.coin(0.5)) D.push_back(e); } for(int i=0;i<nm;++i){ Event e=isotropic(r,M,m); e.setWeight(r.coin(0.5)? 1: r.uni(0.2,2)); e.setGenPdf(r.uni(0.3,2)); S.push_back(e); } std::string d=vf::fmt("case %d: %d against %d events in %s, at least %u per bin%s",c,nd,nm,four? "five dimensions":"two dimensions",mn,boot? ", repeated events":""); vf::begin_case(d); vf::distinct(d); vf::eval(); List ld(D),ls(S); auto f=[](const Event& e){ return 1+e.s(0,1)*0.3; }; std::string file=vf::scratch()+vf::fmt("/chi%d.txt",int(getpid())); double got=0,nb=0; quiet([&]{ Chi2Estimator x(ld,ls,f,MinEvents(mn),Dim(four? 5: 2)); got=x.chi2(); nb=x.nBins(); x.writeBinningToFile(file); });
    BinDT t; { std::ifstream in(file); t.readFromStream(in); } auto coords=[&](const Event& e)->V { if(four) return {e.s(1,2,3),e.s(0,1),e.s(0,2),e.s(2,3),e.s(0,1,2)}; return {e.s(0,1),e.s(1,2)}; }; size_t B=t.size(); if(!EXPECT(nb==B,"chi2.bins",d)) continue; std::vector<L> a(B),va(B),b(B),vb(B); L ta=0,tb=0; for(auto& e: D){ auto k=t.getBinNumber(coords(e).data()); a[k]+=e.weight(); va[k]+=L(e.weight())*e.weight(); ta+=e.weight(); } for(auto& e: S){ L w=L(f(e))*e.weight()/e.genPdf(); auto k=t.getBinNumber(coords(e).data()); b[k]+=w; vb[k]+=w*w; tb+=w; } L want=0; int empty=0; for(size_t k=0;k<B;++k){ L s=ta/tb,v=va[k]+vb[k]*s*s; if(v==0){ ++empty; continue; } want+=(a[k]-b[k]*s)*(a[k]-b[k]*s)/v; } EXPECT(std::abs(got-want)<1e-8L*(1+want),"chi2.value",d+vf::fmt(": %.12g, expected %.12Lg (%d bins empty)",got,want,empty)); vf::count("chi2"); 
    // binnings of event lists, in every way they can be asked for
    for(int how=0;how<4;++how){ std::unique_ptr<BinDT> q; int dim=four? 5: 2; quiet([&]{ if(how==0) q.reset(new BinDT(D,MinEvents(mn),Dim(dim))); else if(how==1) q.reset(new BinDT(D,ArgumentPack(MinEvents(mn),Dim(dim)))); else if(how==2) q.reset(new BinDT(D.begin(),D.end(),MinEvents(mn),Dim(dim))); else q.reset(new BinDT(D,MinEvents(mn),Dim(dim),Functor(std::function<V(const Event&)>(coords)))); }); if(!EXPECT(q->top()!=nullptr&&q->size()==B,"chi2.ways",d+vf::fmt(": way %d",how))) continue; for(int i=0;i<20;++i){ Event e=isotropic(r,M,m); EXPECT(q->getBinNumber(e)==t.getBinNumber(coords(e).data()),"chi2.ways",d+vf::fmt(": way %d",how)); } } if(c<2) vf::sample(d); } vf::require("chi2",8); }
// ---------------------------------------------------------------- Dalitz plots
static double lane(const real_v& x,int i){ double b[sizeof(real_v)/sizeof(double)]; std::memcpy(b,&x,sizeof x); return b[i]; }
static const int W=sizeof(real_v)/sizeof(double);
static real_v lanes(vf::Rng& r,V& o){ double b[8]; o.clear(); for(int i=0;i<W;++i){ b[i]=r.uni(0.01,0.99); o.push_back(b[i]); } real_v x; std::memcpy(&x,b,sizeof x); return x; }
struct Plot { L s,a,b,c; L min() const { return std::sqrt(a)+std::sqrt(b); } L max() const { return std::sqrt(s)-std::sqrt(c); } L mab(L x) const { return min()+(max()-min())*(std::cos(M_PIl*x)+1)/2; } static L mom(L m,L a,L b){ return std::sqrt(std::max(0.L,(m-a-b)*(m+a+b)*(m-a+b)*(m+a-b)))/(2*m); }
  // densities and invariants at a point of the square
  L jac(L x,L y) const { L m=mab(x),pa=mom(m,std::sqrt(a),std::sqrt(b)),pc=mom(std::sqrt(s),m,std::sqrt(c))*std::sqrt(s)/m; L d1=M_PIl/2*(max()-min())*std::sin(M_PIl*x),d2=M_PIl*std::sin(M_PIl*y); return 4*m*pa*pc*d1*d2; }
  void inv(L x,L y,L& s12,L& s13) const { L m=mab(x),pa=mom(m,std::sqrt(a),std::sqrt(b)),pc=mom(std::sqrt(s),m,std::sqrt(c))*std::sqrt(s)/m; s12=m*m; s13=a+c+2*(std::sqrt(pa*pa+a)*std::sqrt(pc*pc+c)-pa*pc*std::cos(M_PIl*y)); } };
static void nodes(int n,std::vector<L>& x,std::vector<L>& w){ x.resize(n); w.resize(n); for(int i=0;i<n;++i){ L z=std::cos(M_PIl*(i+0.75L)/(n+0.5L)),p1,p2,pp; for(int it=0;it<60;++it){ p1=1;p2=0; for(int j=0;j<n;++j){ L p3=p2;p2=p1;p1=((2*j+1)*z*p2-j*p3)/(j+1);} pp=n*(z*p1-p2)/(z*z-1); L dz=p1/pp; z-=dz; if(std::abs(dz)<1e-18L) break; } x[i]=(1-z)/2; w[i]=1/((1-z*z)*pp*pp); } }
static Plot plot(vf::Rng& r){ Plot p; L m[3]; for(auto& x: m) x=r.coin(0.15)? 0: r.coin(0.3)? 0.13957L: r.uni(0.01,1.2); if(r.coin(0.2)) m[1]=m[0]; L M=m[0]+m[1]+m[2]+(r.coin(0.3)? r.uni(0.01,0.1): r.uni(0.2,4)); p.s=double(M*M); p.a=double(m[0]*m[0]); p.b=double(m[1]*m[1]); p.c=double(m[2]*m[2]); return p; }
static std::string show(const Plot& p){ return vf::fmt("mass %.6Lg to %.6Lg %.6Lg %.6Lg",std::sqrt(p.s),std::sqrt(p.a),std::sqrt(p.b),std::sqrt(p.c)); }
// one integrator, asked about several parent masses
struct Ask { DalitzIntegrator I; Plot p; int how; double s; };
static Ask ask(vf::Rng& r,Plot p){ int how=r.range(0,3); Plot o=plot(r); double s=p.s; if(how==0) return {DalitzIntegrator(p.s,p.a,p.b,p.c),p,how,s}; if(how==1){ DalitzIntegrator I(o.s,o.a,o.b,o.c); I.set(p.s,p.a,p.b,p.c); return {I,p,how,s}; } DalitzIntegrator I(std::pow(std::sqrt(p.s)+r.uni(0.1,2),2),p.a,p.b,p.c); if(how==2) I.setMother(p.s); return {I,p,how,s}; }
static void dalitz(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(1500,20000);++c){ Plot p=plot(r); auto q=ask(r,p); std::string d=show(p)+(q.how==3? " asked for explicitly":""); vf::begin_case(d); vf::distinct(d); vf::eval(); V x,y; real_v X=lanes(r,x),Y=lanes(r,y); DalitzIntegrator::sqCo co(X,Y); for(int form= q.how==3? 1: 0; form<2;++form){ real_v ev[12]; for(auto& e: ev) e=real_v(0.); if(form) q.I.setEvent(co,ev,q.s); else q.I.setEvent(co,ev); real_v J= form? q.I.J(co,q.s): q.I.J(co), m= form? q.I.getMAB(co,q.s): q.I.getMAB(co); for(int k=0;k<W;++k){ L e[12]; for(int i=0;i<12;++i) e[i]=lane(ev[i],k); auto sq=[&](std::vector<int> ix){ L t[4]={0,0,0,0}; for(auto i: ix) for(int a=0;a<4;++a) t[a]+=e[4*i+a]; return t[3]*t[3]-t[0]*t[0]-t[1]*t[1]-t[2]*t[2]; }; L tol=1e-11L*p.s*(1+p.s/(p.mab(x[k])*p.mab(x[k]))); EXPECT(std::abs(sq({0})-p.a)<=tol&&std::abs(sq({1})-p.b)<=tol&&std::abs(sq({2})-p.c)<=tol,"dalitz.shell",d+vf::fmt(" at (%.4g,%.4g)",x[k],y[k])); EXPECT(std::abs(sq({0,1,2})-p.s)<=tol,"dalitz.mass",d+vf::fmt(" at (%.4g,%.4g): %.12Lg, expected %.12Lg",x[k],y[k],sq({0,1,2}),p.s)); L s12,s13; p.inv(x[k],y[k],s12,s13); EXPECT(std::abs(sq({0,1})-s12)<=tol&&std::abs(lane(m,k)-std::sqrt(s12))<=1e-12L*std::sqrt(p.s),"dalitz.first",d); EXPECT(std::abs(sq({0,2})-s13)<=tol*10,"dalitz.second",d+vf::fmt(" at (%.4g,%.4g): %.12Lg, expected %.12Lg",x[k],y[k],sq({0,2}),s13)); L j=p.jac(x[k],y[k]); EXPECT(std::abs(lane(J,k)-j)<=1e-9L*j+1e-10L*p.s*p.s,"dalitz.density",d+vf::fmt(" at (%.4g,%.4g): %.12g, expected %.12Lg",x[k],y[k],lane(J,k),j)); vf::count("points");
        // coordinates of an event, however it is oriented
        if(q.how!=3){ Event E(12); for(int i=0;i<12;++i) E[i]=lane(ev[i],k); rotate(E,std::tuple<double,double,double>(r.gauss(),r.gauss(),r.gauss()+0.1),r.uni(0,6)); boost(E,std::tuple<double,double,double>(r.gauss(),r.gauss(),r.gauss()+0.1),r.uni(0,0.7)); double a=0,b=0; quiet([&]{ a=q.I.sqDp1(E); b=q.I.sqDp2(E); }); L pa=Plot::mom(std::sqrt(s12),std::sqrt(p.a),std::sqrt(p.b)),pc=Plot::mom(std::sqrt(p.s),std::sqrt(s12),std::sqrt(p.c)); if(pa>0.01L*std::sqrt(p.s)&&pc>0.01L*std::sqrt(p.s)&&s12>1e-3L*p.s) EXPECT(std::abs(a-x[k])<1e-6&&std::abs(b-y[k])<1e-6,"dalitz.coordinates",d+vf::fmt(": (%.9g,%.9g), expected (%.9g,%.9g)",a,b,x[k],y[k])); } } } if(c<2) vf::sample(d); } vf::require("points",500); }
static void dpIntegral(){ auto& r=vf::rng(); std::vector<L> gx,gw; nodes(96,gx,gw); for(int c=0;c<vf::scale(16,80);++c){ Plot p=plot(r); auto q=ask(r,p); int kind=c%4; std::string d=show(p)+vf::fmt(" integrand %d",kind)+(q.how==3? " asked for explicitly":""); vf::begin_case(d); vf::distinct(d); vf::eval(); double k1=r.uni(0.2,2),k2=r.uni(-0.2,0.5),m0=double(p.min()+(p.max()-p.min())*r.uni(0.2,0.8)),g=r.uni(0.2,0.5)*double(p.max()-p.min())+0.05; auto shape=[&](auto s12,auto s13){ auto one=s12*0.+1.; if(kind==0) return one; if(kind==1) return one*k1+s13*k2; if(kind==2) return s12*s12*k1+s13*s13; return one/((s12-m0*m0)*(s12-m0*m0)+m0*m0*g*g); };
    auto f=[&](const real_v* e)->complex_v { auto E=e[3]+e[7],x=e[0]+e[4],y=e[1]+e[5],z=e[2]+e[6]; auto s12=E*E-x*x-y*y-z*z; auto E2=e[3]+e[11],x2=e[0]+e[8],y2=e[1]+e[9],z2=e[2]+e[10]; auto s13=E2*E2-x2*x2-y2*y2-z2*z2; return complex_v(shape(s12,s13),real_v(1.)); }; double got= q.how==3? q.I.integrateDP(f,q.s): q.I.integrateDP(f); L want=0; for(size_t i=0;i<gx.size();++i) for(size_t j=0;j<gx.size();++j){ L a,b; p.inv(gx[i],gx[j],a,b); want+=gw[i]*gw[j]*p.jac(gx[i],gx[j])*shape(a,b); } want/=p.s; EXPECT(std::abs(got-want)<=1e-6L*std::abs(want),"dalitz.integral",d+vf::fmt(": %.12g, expected %.12Lg",got,want)); vf::count("integrals"); if(c<2) vf::sample(d); } vf::require("integrals",6); }
static void boundary(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(20,200);++c){ Plot p=plot(r); if(p.min()<0.05L){ continue; } DalitzIntegrator I(p.s,p.a,p.b,p.c); Projection px([](const Event& e){ return e.s(0,1); },"a","a",10,0,10),py([](const Event& e){ return e.s(0,2); },"b","b",10,0,10); std::string d=show(p); vf::begin_case(d); vf::distinct(d); vf::eval(); std::unique_ptr<TGraph> g(I.makeBoundaryGraph(Projection2D(px,py))); EXPECT(g->GetN()>100,"boundary.points",d); L lo12=1e9,hi12=0; for(int i=0;i<g->GetN();++i){ L s12=g->X[i],s13=g->Y[i]; L m=std::sqrt(s12); lo12=std::min(lo12,s12); hi12=std::max(hi12,s12); L pa=Plot::mom(m,std::sqrt(p.a),std::sqrt(p.b)),pc=Plot::mom(std::sqrt(p.s),m,std::sqrt(p.c))*std::sqrt(p.s)/m; L mid=p.a+p.c+2*std::sqrt(pa*pa+p.a)*std::sqrt(pc*pc+p.c); L a=std::abs(std::abs(s13-mid)-2*pa*pc); EXPECT(a<=1e-3L*p.s&&m>p.min()-1e-6&&m<p.max()+1e-6,"boundary.on",d+vf::fmt(": point %d (%.8Lg,%.8Lg) is %.3Lg from the boundary",i,s12,s13,a)); vf::count("points"); } EXPECT(std::abs(std::sqrt(lo12)-p.min())<1e-3L*(p.max()-p.min())&&std::abs(std::sqrt(hi12)-p.max())<1e-3L*(p.max()-p.min()),"boundary.extent",d); } vf::require("points",500); }
// ---------------------------------------------------------------- angles
typedef std::array<L,4> P4; static P4 sum(const Event& e,const std::vector<unsigned>& ix){ P4 q{}; for(auto i: ix) for(int k=0;k<4;++k) q[k]+=e[4*i+k]; return q; } static L dot3(const P4& a,const P4& b){ return a[0]*b[0]+a[1]*b[1]+a[2]*b[2]; } static P4 rest(P4 x,const P4& f){ L m2=f[3]*f[3]-dot3(f,f),m=std::sqrt(m2); L pf=dot3(x,f); L k=(pf/(f[3]+m)-x[3])/m; P4 o; for(int i=0;i<3;++i) o[i]=x[i]+k*f[i]; o[3]=(x[3]*f[3]-pf)/m; return o; } static P4 cross(const P4& a,const P4& b){ return {a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0],0}; }
static void angles(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(2500,30000);++c){ V m; int n=r.range(4,5); L tot=0; for(int i=0;i<n;++i){ m.push_back(r.coin(0.1)? 0: r.uni(0.05,0.9)); tot+=m.back(); } Event e=isotropic(r,double(tot)+r.uni(0.5,3),m,r.coin()? r.uni(0,0.8): 0); bool flat=c%8==7; if(flat) for(int i=0;i<n;++i){ double q=e[4*i+2]; e[4*i+2]=0; e[4*i+3]=std::sqrt(e[4*i+3]*e[4*i+3]-q*q); } std::string d=vf::fmt("case %d: %d particles%s ",c,n,flat? " in a plane":"")+vf::vstr(V(e.address(),e.address()+4*n)); vf::begin_case(d.substr(0,80)); vf::distinct(d); vf::eval(); std::vector<unsigned> ix; for(int i=0;i<n;++i) ix.push_back(i); r.shuffle(ix); std::vector<unsigned> A(ix.begin(),ix.begin()+r.range(1,2)),B(ix.begin()+2,ix.begin()+2+r.range(1,2)),R=A; for(auto b: B) R.push_back(b); if(r.coin()) { R=ix; } auto PR=sum(e,R),a=rest(sum(e,A),PR),b=rest(sum(e,B),PR); L na=std::sqrt(dot3(a,a)),nb=std::sqrt(dot3(b,b)); if(na>1e-2L&&nb>1e-2L){ L w=dot3(a,b)/(na*nb); double g=HelicityCosine(A,B,R)(e); EXPECT(std::abs(g-w)<1e-8,"angles.helicity",d+vf::fmt(": %.12g, expected %.12Lg",g,w)); vf::count("angles"); if(A.size()==1&&B.size()==1) EXPECT(std::abs(HelicityCosine(A[0],B[0],R)(e)-w)<1e-8,"angles.helicity",d); std::vector<Event> es{e}; EXPECT(std::abs(HelicityCosine(A,B,R)(es.begin())-w)<1e-8,"angles.helicity",d); double dp=dotProduct(pFromEvent(e,A),pFromEvent(e,B),pFromEvent(e,R)); EXPECT(std::abs(dp-dot3(a,b))<1e-8L*(1+na*nb),"angles.dot",d); }
    std::vector<unsigned> AB=A; for(auto q: B) AB.push_back(q); auto S=sum(e,AB),t=rest(sum(e,A),S); L k=std::sqrt(dot3(t,t)); double mt=MomentumTransfer(A,B)(e); if(k>1e-2L) EXPECT(std::abs(mt-k)<1e-7L*(1+k),"angles.momentum",d+vf::fmt(": %.12g, expected %.12Lg",mt,k));
    if(n==4){ auto all=sum(e,{0,1,2,3}); auto at=[&](unsigned i){ return rest(sum(e,{i}),all); }; auto n1=cross(at(0),at(1)),n2=cross(at(2),at(3)); L q=std::sqrt(dot3(n1,n1)*dot3(n2,n2)); if(std::sqrt(dot3(n1,n1))>1e-3L&&std::sqrt(dot3(n2,n2))>1e-3L){ L w=std::max(-1.L,std::min(1.L,dot3(n1,n2)/q)); double g=acoplanarity(e); EXPECT(std::abs(std::cos((L)g)-w)<1e-7&&g>=0,"angles.acoplanarity",d+vf::fmt(": %.12g, cosine %.12Lg",g,w)); vf::count("planes"); }
      int o[4]={0,1,2,3}; for(int s=3;s>0;--s) std::swap(o[s],o[r.range(0,s)]); auto pa=at(o[0]),pb=at(o[1]),pc=at(o[2]),pd=at(o[3]); auto m1=cross(pa,pb),m2=cross(pc,pd); L l1=std::sqrt(dot3(m1,m1)),l2=std::sqrt(dot3(m2,m2)); P4 z; for(int i=0;i<3;++i) z[i]=pa[i]+pb[i]; auto pt=cross(pd,z); L lt=std::sqrt(dot3(pt,pt)/dot3(z,z)); if(l1>1e-3L&&l2>1e-3L&&lt>1e-3L){ double g=phi(e,o[0],o[1],o[2],o[3]); L co=dot3(m1,m2)/(l1*l2),si=dot3(pd,m1)/(l1*lt); EXPECT(std::abs(std::cos((L)g)-co)<1e-7&&std::abs(std::sin((L)g)-si)<1e-7,"angles.phi",d+vf::fmt(": %.12g, expected cosine %.10Lg and sine %.10Lg",g,co,si)); Event x(e); rotate(x,std::tuple<double,double,double>(r.gauss(),r.gauss(),r.gauss()+0.1),r.uni(0,6)); boost(x,std::tuple<double,double,double>(r.gauss(),r.gauss(),r.gauss()+0.1),r.uni(0,0.7)); double g2=phi(x,o[0],o[1],o[2],o[3]); EXPECT(std::abs(std::remainder(g2-g,2*M_PI))<1e-5,"angles.frame",d); Event y(e); for(int i=0;i<4;++i) for(int s=0;s<3;++s) y[4*i+s]=-y[4*i+s]; double g3=phi(y,o[0],o[1],o[2],o[3]); EXPECT(std::abs(std::remainder(g3+g,2*M_PI))<1e-7,"angles.parity",d); vf::count("planes"); double G=PHI(e),H=phi(e,0,1,3,2); EXPECT(G==H||std::abs(std::remainder(G-H,2*M_PI))<1e-9||(std::isnan(G)&&std::isnan(H)),"angles.phi",d); } }
    if(c<2) vf::sample(d.substr(0,60)); } vf::require("angles",100); vf::require("planes",50); }
// ---------------------------------------------------------------- running widths
struct Res { std::string head; std::vector<std::string> decays; double lo,hi; };
static const std::vector<Res> RES={ {"a(1)(1260)+",{"a(1)(1260)+{rho(770)0{pi+,pi-},pi+}","a(1)(1260)+[D]{rho(770)0{pi+,pi-},pi+}","a(1)(1260)+{f(0)(1370)0{pi+,pi-},pi+}"},0.6,3.}, {"pi(1300)+",{"pi(1300)+{rho(770)0{pi+,pi-},pi+}","pi(1300)+{f(0)(1370)0{pi+,pi-},pi+}"},0.8,3.}, {"K(1)(1270)+",{"K(1)(1270)+{rho(770)0{pi+,pi-},K+}","K(1)(1270)+{K*(892)0{K+,pi-},pi+}"},1.2,3.5}, {"omega(782)0",{"omega(782)0{rho(770)0{pi+,pi-},pi0}","omega(782)0{rho(770)+{pi+,pi0},pi-}"},0.4,1.5}, {"a(2)(1320)+",{"a(2)(1320)+{rho(770)0{pi+,pi-},pi+}"},1.,3.} };
static void widths(int which){ auto& r=vf::rng(); const Res& R=RES[which]; std::vector<L> gx,gw; nodes(vf::scale(36,80),gx,gw); MinuitParameterSet mps; std::vector<MinuitParameter*> coup; for(auto& x: R.decays){ coup.push_back(mps.add(x+"_Re",Flag::Free,r.uni(0.5,2),0.1)); coup.push_back(mps.add(x+"_Im",Flag::Free,r.uni(-1,1),0.1)); } auto rho=mps.add("rho(770)0_mass",Flag::Free,0.775,0.01); mps.add("rho(770)0_width",Flag::Fix,0.149,0); auto mass=mps.add(R.head+"_mass",Flag::Fix,std::sqrt(0.5*(R.lo+R.hi)),0); int K=r.range(3,5); for(int k=0;k<K;++k) mps.add(R.head+"::Spline::Gamma::"+std::to_string(k),Flag::Fix,-1,0);
  std::string d=R.head; vf::begin_case(d); std::unique_ptr<ThreeBodyCalculator> T; std::string out=quiet([&]{ T.reset(new ThreeBodyCalculator(R.head,mps,K,R.lo,R.hi)); }); Particle first(R.decays[0]); EventType type=first.eventType(); auto fs=type.finalStates(); L m[3]; for(int i=0;i<3;++i) m[i]=type.mass(i);
  // the amplitudes of every decay and every exchange of equal particles, as currents
  std::vector<std::vector<Tensor>> cur; for(auto& x: R.decays){ Particle p(x,fs); cur.push_back({}); quiet([&]{ for(auto& o: p.identicalDaughterOrderings()){ p.setOrdering(o); p.setLineshape("FormFactor"); cur.back().push_back(p.spinTensor()*p.propagator()); } }); }
  auto ref=[&](double s)->L { Plot p; p.s=s; p.a=m[0]*m[0]; p.b=m[1]*m[1]; p.c=m[2]*m[2]; L tot=0; for(size_t i=0;i<gx.size();++i) for(size_t j=0;j<gx.size();++j){ L M=p.mab(gx[i]),pa=Plot::mom(M,m[0],m[1]),pc=Plot::mom(std::sqrt(p.s),M,m[2])*std::sqrt(p.s)/M; L th=M_PIl*gx[j]; L e[3][4]={{0,0,pa,std::sqrt(pa*pa+p.a)},{0,0,-pa,std::sqrt(pa*pa+p.b)},{0,pc*std::sin(th),pc*std::cos(th),std::sqrt(pc*pc+p.c)}}; Interp in; for(auto& q: mps) in.v[q->name()]=q->mean(); const char* cn[4]={"_Px","_Py","_Pz","_E"}; for(int a=0;a<3;++a) for(int b=0;b<4;++b) in.v[std::to_string(a)+cn[b]]=e[a][b]; std::vector<std::complex<L>> J; int rank=0; for(size_t k=0;k<cur.size();++k){ std::complex<L> g(coup[2*k]->mean(),coup[2*k+1]->mean()); for(auto& t: cur[k]){ rank=t.dims().size(); if(t.size()==1) rank=0; J.resize(t.size()); for(size_t c=0;c<t.size();++c) J[c]+=g*in(t[c]); } } L v=0; for(size_t c=0;c<J.size();++c){ int sg=1; size_t q=c; for(int a=0;a<rank;++a){ if(q%4!=3) sg=-sg; q/=4; } v+=sg*std::norm(J[c]); } if(rank%2) v=-v; tot+=gw[i]*gw[j]*p.jac(gx[i],gx[j])*v; } return tot/p.s; };
  for(int step=0;step<vf::scale(2,3);++step){ if(step) for(auto& p: coup) p->setCurrentFitVal(r.uni(-2,2)); if(step) rho->setCurrentFitVal(r.uni(0.74,0.81)); quiet([&]{ T->prepare(); }); for(int q=0;q<1;++q){ double s=r.uni(R.lo,R.hi); std::string w=d+vf::fmt(" step %d at s=%.5g",step,s); vf::begin_case(w); vf::distinct(w); vf::eval(); double got=0; quiet([&]{ got=T->getWidth(s); }); L want=ref(s); EXPECT(std::abs(got-want)<=(vf::thorough()? 5e-4L: 6e-3L)*want&&want>0,"widths.value",w+vf::fmt(": %.9g, expected %.9Lg",got,want)); vf::count("widths"); }
    double norm=r.coin()? 0: std::sqrt(r.uni(R.lo,R.hi)); quiet([&]{ T->updateRunningWidth(mps,norm); }); double at=0; quiet([&]{ at=T->getWidth(norm==0? mass->mean()*mass->mean(): norm*norm); }); for(int k=0;k<K;++k){ double s=R.lo+k*(R.hi-R.lo)/(K-1),w=0; quiet([&]{ w=T->getWidth(s)/at; }); double g=mps[R.head+"::Spline::Gamma::"+std::to_string(k)]->mean(); EXPECT(std::abs(g-w)<=1e-9*std::abs(w),"widths.knots",d+vf::fmt(" knot %d: %.9g, expected %.9g",k,g,w)); } 
    int n=r.range(2,4); double a=r.uni(R.lo,0.5*(R.lo+R.hi)),b=r.uni(0.6*R.hi,R.hi); std::unique_ptr<TGraph> g; quiet([&]{ g.reset(T->widthGraph(size_t(n),a,b)); }); EXPECT(g->GetN()==n,"widths.graph",d); for(int k=0;k<std::min(n,g->GetN());++k){ double x=a+(b-a)*k/(n-1.),y=0; quiet([&]{ y=T->getWidth(g->X[k]); }); EXPECT(std::abs(g->X[k]-x)<1e-9*x&&std::abs(g->Y[k]-y)<=1e-9*std::abs(y),"widths.graph",d+vf::fmt(": point %d at %.9g, expected %.9g",k,g->X[k],x)); } }
  vf::sample(d); vf::require("widths",2); }
void harness(){ if(ENABLE_AVX||vf::thorough()) for(int i=0;i<int(RES.size());++i) vf::section(vf::fmt("widths%d",i),[i]{ widths(i); },800);
  vf::section("linear",linear); vf::section("sources",sources); vf::section("gauss",gauss); vf::section("bins0",[]{ bins(0); }); vf::section("bins1",[]{ bins(1); }); vf::section("fast0",[]{ fast(0); }); vf::section("fast1",[]{ fast(1); }); vf::section("fast2",[]{ fast(2); }); vf::section("chi2",chi2); vf::section("dalitz",dalitz); vf::section("integral",dpIntegral); vf::section("boundary",boundary); vf::section("angles",angles); }
