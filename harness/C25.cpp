// C25: generated events lie exactly in phase space and cover it correctly
#include "vf.h"
#include "ptable.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/RecursivePhaseSpace.h"
#include "AmpGen/TreePhaseSpace.h"
#include "AmpGen/DiscreteDistribution.h"
#include "AmpGen/NamedParameter.h"
#define make_decay_chain_stack vf_make_decay_chain_stack
#include "AmpGen/DecayChainStack.h"
#undef make_decay_chain_stack
#include "AmpGen/Generator.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/OptionsParser.h"
#include <set>
#include <chrono>
using namespace AmpGen;
typedef long double L; typedef std::vector<double> V;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }
static L lam(L m,L a,L b){ L x=(m-a-b)*(m+a+b)*(m-a+b)*(m+a-b); return x<=0? 0: std::sqrt(x)/(2*m); }
// an independent, weighted generator: uniform sub-masses from the last particle down, isotropic decays
struct Ref { double M; V m; vf::Rng& r; 
  std::pair<V,double> operator()(){ int n=m.size(); std::vector<L> im(n); im[n-1]=M; L w=1; for(int k=n-2;k>=1;--k){ L lo=0; for(int i=0;i<=k;++i) lo+=m[i]; L hi=im[k+1]-m[k+1]; im[k]=lo+(hi-lo)*r.uni(); w*=hi-lo; } im[0]=m[0]; std::vector<std::array<L,4>> p(n); p[0]={0,0,0,(L)m[0]}; for(int k=1;k<n;++k){ L q=lam(im[k],im[k-1],m[k]); w*=q; L c=r.uni(-1,1),ph=r.uni(0,2*M_PI),s=std::sqrt(1-c*c); L d[3]={s*std::cos(ph),s*std::sin(ph),c}; // system of 0..k-1 along d, k opposite
      if(k==1) p[0]={q*d[0],q*d[1],q*d[2],std::sqrt(q*q+(L)m[0]*m[0])}; else { L g=std::sqrt(1+q*q/(im[k-1]*im[k-1])),gb=q/im[k-1]; for(int i=0;i<k;++i){ L l=p[i][0]*d[0]+p[i][1]*d[1]+p[i][2]*d[2]; L f=(g-1)*l+gb*p[i][3]; for(int a=0;a<3;++a) p[i][a]+=f*d[a]; p[i][3]=g*p[i][3]+gb*l; } } p[k]={-q*d[0],-q*d[1],-q*d[2],std::sqrt(q*q+(L)m[k]*m[k])}; }
    V o; for(auto& x: p) for(auto y: x) o.push_back(y); return {o,double(w)}; } };
static double inv2(const double* p,const std::vector<unsigned>& ix){ L q[4]={0,0,0,0}; for(auto i: ix) for(int k=0;k<4;++k) q[k]+=p[4*i+k]; return q[3]*q[3]-q[0]*q[0]-q[1]*q[1]-q[2]*q[2]; }
// on shell, conserved, parent at rest with its mass
static bool kinematics(const double* p,double M,const V& m,const std::string& key,const std::string& d,double tol=2e-11){ L t[4]={0,0,0,0}; bool ok=true; for(size_t i=0;i<m.size();++i){ L s=(L)p[4*i+3]*p[4*i+3]; for(int k=0;k<3;++k) s-=(L)p[4*i+k]*p[4*i+k]; ok=ok&&std::abs(s-(L)m[i]*m[i])<=tol*M*M&&p[4*i+3]>=m[i]*(1-1e-12); for(int k=0;k<4;++k) t[k]+=p[4*i+k]; } bool cons=std::abs(t[0])+std::abs(t[1])+std::abs(t[2])<=tol*M&&std::abs(t[3]-M)<=tol*M; auto show=[&]{ return d+": "+vf::vstr(V(p,p+4*m.size())); }; EXPECT(ok,key+".shell",show()); EXPECT(cons,key+".conserved",show()+vf::fmt(" sums to (%.3Lg,%.3Lg,%.3Lg,%.15Lg), parent %.15g",t[0],t[1],t[2],t[3],M)); vf::count("events"); return ok&&cons; }
// observables of an event: invariants, energies, directions
static V observe(const double* p,int n,double M){ V o; for(int i=0;i<n;++i) for(int j=i+1;j<n;++j) if(n>2){ double s=inv2(p,{unsigned(i),unsigned(j)})/(M*M); o.push_back(s); o.push_back(s*s); } for(int i=0;i<n;++i){ L q=std::sqrt((L)p[4*i]*p[4*i]+(L)p[4*i+1]*p[4*i+1]+(L)p[4*i+2]*p[4*i+2])+1e-300L; for(int k=0;k<3;++k){ double c=p[4*i+k]/q; o.push_back(c); o.push_back(c*c); o.push_back(c*p[4*i+3]/M); } o.push_back(p[4*i]*p[4*i+1]/(q*q)); o.push_back(p[4*i+1]*p[4*i+2]/(q*q)); o.push_back(p[4*i]*p[4*i+2]/(q*q)); } if(n>2){ // orientation of the plane of the first two and its handedness with the third
    double x[3]; for(int k=0;k<3;++k) x[k]=p[(k+1)%3]*p[4+(k+2)%3]-p[(k+2)%3]*p[4+(k+1)%3]; double N=std::sqrt(x[0]*x[0]+x[1]*x[1]+x[2]*x[2])+1e-300; for(int k=0;k<3;++k){ o.push_back(x[k]/N); o.push_back(x[k]*x[k]/N/N); } if(n>3){ double t=0,q=1e-300; for(int k=0;k<3;++k){ t+=x[k]*p[8+k]; q+=p[8+k]*p[8+k]; } o.push_back(t/N/std::sqrt(q)); } } return o; }
struct Mean { std::vector<L> s1,s2,sw; L W=0,W2=0; std::vector<std::pair<V,double>> all; void add(const V& o,double w=1){ all.push_back({o,w}); W+=w; } 
  std::pair<L,L> get(size_t k) const { L a=0; for(auto& [o,w]: all) a+=w*o[k]; a/=W; L v=0; for(auto& [o,w]: all) v+=L(w)*w*(o[k]-a)*(o[k]-a); return {a,std::sqrt(v)/W}; } };
static void compare(const Mean& g,const Mean& r,const std::string& key,const std::string& d){ if(g.all.empty()) return; for(size_t k=0;k<g.all[0].first.size();++k){ auto [a,ea]=g.get(k); auto [b,eb]=r.get(k); L e=std::sqrt(ea*ea+eb*eb)+1e-6L; EXPECT(std::abs(a-b)<=6.5L*e,key,d+vf::fmt(": observable %zu averages %.6Lg, expected %.6Lg +- %.2Lg (%.1Lf sigma)",k,a,b,e,std::abs(a-b)/e)); vf::count("averages"); } }
// how well the sample is known: enough effective events
static void nbody(int part){ auto& r=vf::rng(); for(int c=0;c<vf::scale(5,18);++c){ int n= part==0? 2+c%2: 3+(c+part)%6; if(c%5==4&&part==2) n=9; V m; double tot=0; for(int i=0;i<n;++i){ m.push_back(r.coin(0.2)? 0: r.coin(0.3)? 0.13957: r.uni(0.01,1.2)); tot+=m.back(); } int kind=r.range(0,3); double M= tot+ (kind==0? r.uni(1e-4,1e-2)*(tot+0.1): kind==1? 0.05+r.uni(0,0.3)*(tot+0.1): r.uni(0.3,3)*(tot+0.5)); TRandom3 rnd(r.next()%1000000); PhaseSpace ps; ps.setRandom(&rnd); bool ok=ps.setDecay(M,m); std::string d=vf::fmt("mass %.6g to ",M)+vf::vstr(m); vf::begin_case(d); vf::distinct(d); if(!EXPECT(ok&&int(ps.size())==n,"nbody.set",d)) continue; Ref ref{M,m,r}; Mean g,q; int N=n>8? vf::scale(40,200): n>6? vf::scale(600,3000): vf::scale(2500,10000); auto t0=std::chrono::steady_clock::now(); for(int i=0;i<N;++i){ if(i%10==9&&std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()>vf::scale(3,20)) break; Event e=ps.makeEvent(); vf::eval(); if(!EXPECT(e.size()==unsigned(4*n)&&e.weight()==1&&e.genPdf()==1,"nbody.event",d)) break; if(!kinematics(e.address(),M,m,"nbody",d)) break; if(n<=8) g.add(observe(e.address(),n,M)); } if(n<=8&&g.all.size()>=300){ for(int i=0;i<4*N;++i){ auto [p,w]=ref(); if(i<3) kinematics(p.data(),M,m,"harness.reference",d); q.add(observe(p.data(),n,M),w); } compare(g,q,"nbody.distribution",d); } if(c<2) vf::sample(d); }
  // more bodies than there is room for: refused, not written past the end
  for(int n: {17,18,19,25,40}){ V m(n,0.01); vf::begin_case(vf::fmt("%d bodies",n)); vf::distinct(vf::fmt("%d bodies",n)); bool refused=false; PhaseSpace* ps=new PhaseSpace; quiet([&]{ try{ refused=!ps->setDecay(5,m); } catch(std::exception&){ refused=true; } }); EXPECT(refused==(n>18),"nbody.limit",vf::fmt("%d bodies",n)); delete ps; }
  vf::require("events",1000); }
// three bodies: flat in the Dalitz plot
static void dalitz(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(6,40);++c){ V m; for(int i=0;i<3;++i) m.push_back(r.coin(0.2)? 0: r.uni(0,0.8)); double M=m[0]+m[1]+m[2]+r.uni(0.2,2); TRandom3 rnd(r.next()%1000000); PhaseSpace ps; ps.setRandom(&rnd); ps.setDecay(M,m); std::string d=vf::fmt("mass %.6g to ",M)+vf::vstr(m); vf::begin_case(d); vf::distinct(d); int N=vf::scale(6000,40000); double lo=std::pow(m[0]+m[1],2),hi=std::pow(M-m[2],2); const int B=12; auto width=[&](double s){ double q=std::sqrt(s); return 4*lam(q,m[0],m[1])*lam(M,q,m[2])*M/q; }; std::vector<double> want(B),got(B); double norm=0; for(int b=0;b<B;++b){ int K=400; for(int k=0;k<K;++k) want[b]+=width(lo+(hi-lo)*(b+(k+0.5)/K)/B); norm+=want[b]; } std::vector<int> half(2); for(int i=0;i<N;++i){ Event e=ps.makeEvent(); vf::eval(); double s=e.s(0,1); int b=std::min(B-1,std::max(0,int((s-lo)/(hi-lo)*B))); got[b]++; // uniform along the other axis
      double q=std::sqrt(s); double E1=(s+m[1]*m[1]-m[0]*m[0])/(2*q),E2=(M*M-s-m[2]*m[2])/(2*q); double mid=m[1]*m[1]+m[2]*m[2]+2*E1*E2; half[e.s(1,2)>mid]++; } double chi=0; int nd=0; for(int b=0;b<B;++b){ double w=want[b]/norm*N; if(w<5) continue; chi+=(got[b]-w)*(got[b]-w)/w; ++nd; } EXPECT(chi<nd+9*std::sqrt(2.*nd)+30,"dalitz.flat",d+vf::fmt(": chi2 %.1f for %d bins ",chi,nd)+vf::vstr(got)); EXPECT(std::abs(half[0]-half[1])<6.5*std::sqrt(N),"dalitz.flat",d+vf::fmt(": %d and %d in the two halves",half[0],half[1])); vf::count("dalitz"); } vf::require("dalitz",3); }
static const std::vector<std::vector<std::string>> TYPES={{"D0","K+","K-"},{"D+","K-","pi+","pi+"},{"D0","K-","pi+","pi0"},{"D0","K+","K-","pi+","pi-"},{"B0","pi+","pi-","pi+","pi-","pi0"},{"Lambda(c)+","p+","K-","pi+"},{"B+","gamma0","K+","pi0"}};
// event types, time dependence, same random state, filling at a stride
static void types(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(21,200);++c){ auto names=TYPES[c%TYPES.size()]; bool td=r.coin(); EventType t(names,td); int n=t.size(); unsigned seed=r.next()%100000; TRandom3 a(seed),b(seed),e0(seed+1); PhaseSpace pa(t,&a),pb(t),pc(Particle(t.decayDescriptor(),t.finalStates()),&e0); pb.setRandom(&b); std::string d=vf::vstr(names)+(td? " with time":""); vf::begin_case(d); vf::distinct(d+std::to_string(seed)); L time=0,time2=0; int N=vf::scale(400,2000); unsigned st=r.range(1,5); for(int i=0;i<N;++i){ vf::eval(); Event x=pa.makeEvent(); Event y(4*n+td); if(i%2) y=pb.makeEvent(); else { std::vector<double> buf(st*(4*n+td)+3,-7.); pb.fill(buf.data(),st); for(int k=0;k<4*n+td;++k) y[k]=buf[k*st]; bool clean=true; for(size_t k=0;k<buf.size();++k) if(k%st||k>=st*(4*n+td)) clean=clean&&buf[k]==-7.; EXPECT(clean,"types.stride",d+vf::fmt(": fill at stride %u writes elsewhere",st)); } bool same=x.size()==y.size(); for(unsigned k=0;same&&k<x.size();++k) same=x[k]==y[k]; if(!EXPECT(same,"types.repeatable",d+": two generators with the same random state differ")) break; if(!kinematics(x.address(),t.motherMass(),t.masses(),"types",d)) break; if(td){ time+=x[4*n]; time2+=x[4*n]*x[4*n]; EXPECT(x[4*n]>0,"types.time",d); } Event z=pc.makeEvent(); if(i<50) kinematics(z.address(),t.motherMass(),t.masses(),"types",d+" from a particle"); } if(td){ L tau=ParticlePropertiesList::get(names[0])->lifetime(); EXPECT(std::abs(time/N-tau)<6.5L*tau/std::sqrt(L(N)),"types.lifetime",d+vf::fmt(": mean time %.6Lg, lifetime %.6Lg",time/N,tau)); EXPECT(std::abs(time2/N-2*tau*tau)<6.5L*std::sqrt(20.L)*tau*tau/std::sqrt(L(N)),"types.lifetime",d+": times are not exponential"); vf::count("time"); } EXPECT(pa.eventType()==t,"types.type",d); EventType tt(names); quiet([&]{ Event q=tt.makeEvent(); kinematics(q.address(),t.motherMass(),t.masses(),"types",d+" from the event type"); }); }
  vf::require("events",500); vf::require("time",2); }
static void dice(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(40,400);++c){ int n=r.range(1,14); V w; for(int i=0;i<n;++i) w.push_back(r.coin(0.15)? 0: r.coin(0.2)? r.uni(0,0.01): r.coin(0.2)? 1: r.uni(0,5)); double sum=0; for(auto x: w) sum+=x; if(sum==0){ w[0]=1; sum=1; } std::string d=vf::vstr(w); vf::begin_case(d); vf::distinct(d); DiscreteDistribution dd(w); EXPECT(dd.min()==0&&dd.max()==unsigned(n-1)&&dd.probabilities().size()==size_t(n),"dice.range",d); for(int i=0;i<n;++i) EXPECT(std::abs(dd.probabilities()[i]-w[i]/sum)<1e-14,"dice.probabilities",d); TRandom3 rnd(r.next()%100000); int N=vf::scale(6000,40000); std::vector<int> k(n); for(int i=0;i<N;++i){ unsigned x=dd(&rnd); vf::eval(); if(!EXPECT(x<unsigned(n),"dice.range",d)) break; ++k[x]; } for(int i=0;i<n;++i){ double p=w[i]/sum; if(p==0) EXPECT(k[i]<=0,"dice.frequency",d+vf::fmt(": %d picked %d times with weight 0",i,k[i])); EXPECT(std::abs(k[i]-N*p)<=6.5*std::sqrt(N*p*(1-p)+1),"dice.frequency",d+vf::fmt(": %d picked %d times, expected %.1f",i,k[i],N*p)); } vf::count("dice");
    // the measure of each outcome, exactly: sweep the random number
    struct Sweep: TRandom3 { double u=0; double Rndm() override { return u; } } sw; std::vector<int> mm(n); int K=20000; for(int i=0;i<K;++i){ sw.u=(i+0.5)/K; ++mm[dd(&sw)]; } for(int i=0;i<n;++i) EXPECT(std::abs(mm[i]-K*w[i]/sum)<=n+2,"dice.measure",d+vf::fmt(": outcome %d covers %.6g, expected %.6g",i,mm[i]/double(K),w[i]/sum)); }
  vf::require("dice",10); }
// decay chains: stated density = sum over chains and orderings of the product of sub-mass densities
struct Chain { std::vector<std::string> type; std::vector<std::string> decays; };
static const std::vector<Chain> CHAINS={
 {{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}"}}, {{"D0","K-","pi+","pi0"},{"D0{K*(892)bar0{K-,pi+},pi0}","D0{rho(770)+{pi+,pi0},K-}","D0{K*(892)bar-{K-,pi0},pi+}"}},
 {{"D+","K-","pi+","pi+"},{"D+{K*(892)bar0{K-,pi+},pi+}"}}, {{"D+","K-","pi+","pi+"},{"D+{K*(892)bar0{K-,pi+},pi+}","D+{NonResS0{K-,pi+},pi+}"}},
 {{"D0","K-","pi+","pi+","pi-"},{"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}}, {{"D0","K-","pi+","pi+","pi-"},{"D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}","D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}"}},
 {{"D0","K-","pi+","pi0"},{"D0{NonResS0{K-,pi+},pi0}"}}, {{"B0","K+","K-","pi+","pi-"},{"B0{phi(1020)0{K+,K-},rho(770)0{pi+,pi-}}"}}, {{"D0","K0S0","pi+","pi-"},{"D0{K0S0,rho(770)0{pi+,pi-}}","D0{K*(892)+{K0S0,pi+},pi-}"}}, {{"Lambda(c)+","p+","K-","pi+"},{"Lambda(c)+{p+,K*(892)bar0{K-,pi+}}","Lambda(c)+{Delta(1232)++{p+,pi+},K-}"}}, {{"B+","K+","pi+","pi-"},{"B+{K(1)(1270)+{rho(770)0{pi+,pi-},K+},gamma0}"}}, {{"D0","K+","K-"},{"D0{K+,K-}"}} };
struct Node { int type; double m,G,lo,hi; std::vector<unsigned> ix; double density(double s) const { if(type==0) return 1; if(type==1) return 1/(hi-lo); L g=L(m)*G,x=s-L(m)*m; return g/(x*x+g*g)/(std::atan((hi-L(m)*m)/g)-std::atan((lo-L(m)*m)/g)); } };
static std::vector<unsigned> leaves(const Particle& p){ std::vector<unsigned> o; if(p.isStable()) o.push_back(p.index()); else for(auto& d: p.daughters()){ auto q=leaves(*d); o.insert(o.end(),q.begin(),q.end()); } return o; }
static void walk(const Particle& p,double slack,std::vector<Node>& out,bool top){ if(p.isStable()) return; double mn=0; for(auto& f: p.getFinalStateParticles()) mn+=f->mass(); Node n; n.m=p.props()->mass(); n.G=p.props()->width(); n.lo=mn*mn; n.hi=(slack+mn)*(slack+mn); n.ix=leaves(p); n.type= top||p.isQuasiStable()? 0: p.name().find("NonRes")==0? 1: 2; out.push_back(n); for(auto& d: p.daughters()) walk(*d,slack,out,false); }
struct Density { std::vector<std::vector<Node>> ch; void add(const Particle& p0){ auto fs=p0.getFinalStateParticles(); double slack=p0.mass(); for(auto& f: fs) slack-=f->mass(); std::vector<unsigned> perm(fs.size()); for(size_t i=0;i<perm.size();++i) perm[i]=i; std::vector<std::string> nm; for(auto& f: fs) nm.push_back(f->name()); std::vector<Node> base; walk(p0,slack,base,true); do { bool ok=true; for(size_t i=0;i<perm.size();++i) ok=ok&&nm[perm[i]]==nm[i]; if(!ok) continue; auto q=base; for(auto& n: q) for(auto& i: n.ix) i=perm[i]; // the same set of sub-masses counts once
      for(auto& n: q) std::sort(n.ix.begin(),n.ix.end()); ch.push_back(q); } while(std::next_permutation(perm.begin(),perm.end())); }
  double one(size_t c,const double* p) const { double g=1; for(auto& n: ch[c]) g*=n.density(inv2(p,n.ix)); return g; } };
static double genPdfOf(const DecayChainStackBase* s,const double* p){ switch(s->NP()){ case 2: return static_cast<const DecayChainStack<2>*>(s)->genPdf(p); case 3: return static_cast<const DecayChainStack<3>*>(s)->genPdf(p); case 4: return static_cast<const DecayChainStack<4>*>(s)->genPdf(p); default: return static_cast<const DecayChainStack<5>*>(s)->genPdf(p); } }
static void chain(const Chain& C,int tag){ auto& r=vf::rng(); EventType t(C.type); if(C.decays[0].find("gamma0")!=std::string::npos) t=EventType({"B+","K+","pi+","pi-","gamma0"}); int n=t.size(); std::string d=vf::vstr(C.decays); std::vector<Particle> ps; for(auto& s: C.decays) ps.emplace_back(s,t.finalStates()); double M=t.motherMass(); unsigned seed=r.next()%100000; TRandom3 a(seed),b(seed),rg(seed+3); Density D; for(auto& p: ps) D.add(p);
  std::unique_ptr<TreePhaseSpace> A,B; bool vec=ps.size()>1||r.coin(); quiet([&]{ if(vec){ A.reset(new TreePhaseSpace(ps,t,&a)); B.reset(new TreePhaseSpace(ps,t,&rg)); B->setRandom(&b); } else { A.reset(new TreePhaseSpace(ps[0],t,&a)); B.reset(new TreePhaseSpace(ps[0],t,&b)); } }); int N=vf::scale(4000,20000); vf::distinct(d+std::to_string(seed)); EXPECT(A->eventType()==t,"chain.type",d);
  // every chain of the generator is one of the expected topologies and orderings, and each of those is represented
  std::vector<size_t> use; { Ref ref{M,t.masses(),r}; std::vector<V> pts; for(int k=0;k<6;++k) pts.push_back(ref().first); auto eq=[&](std::function<double(const double*)> x,size_t c){ for(auto& p: pts){ double y=D.one(c,p.data()); if(std::abs(x(p.data())-y)>1e-8*y) return false; } return true; }; std::vector<bool> seen(D.ch.size()); for(size_t k=0;k<A->size();++k){ bool found=false; for(size_t c=0;c<D.ch.size();++c) if(eq([&](const double* p){ return genPdfOf((*A)[k],p); },c)){ if(!found) use.push_back(c); found=true; seen[c]=true; } EXPECT(found,"chain.topology",d+vf::fmt(": the density of chain %zu of the generator is none of the expected ones",k)); } for(size_t c=0;c<D.ch.size();++c) EXPECT(seen[c],"chain.missing",d+vf::fmt(": ordering %zu is not generated",c)); if(use.empty()) return; } bool counted=A->size()==use.size(); auto dens=[&](const double* p){ double g=0; for(auto u: use) g+=D.one(u,p); return g/use.size(); };
  if(!vec) { counted=true; }
  Mean g; for(int i=0;i<N;++i){ vf::eval(); vf::begin_case(d+vf::fmt(" event %d",i)); Event e=A->makeEvent(),f=B->makeEvent(); bool same=e.data()==f.data()&&e.genPdf()==f.genPdf(); if(!EXPECT(same,"chain.repeatable",d)) break; if(!kinematics(e.address(),M,t.masses(),"chain",d,1e-9)) break; double w=dens(e.address()); if(!EXPECT(std::abs(e.genPdf()-w)<=1e-7*w,"chain.density",d+vf::fmt(": stated density %.12g, expected %.12g",e.genPdf(),w))) break; for(auto u: use) for(auto& nd: D.ch[u]) if(nd.type==2){ double s=inv2(e.address(),nd.ix); EXPECT(s>=nd.lo*(1-1e-9)&&s<=nd.hi*(1+1e-9),"chain.range",d); } g.add(observe(e.address(),n,M)); } (void)counted;
  if(n>2){ Ref ref{M,t.masses(),r}; Mean q; int K=vf::scale(40000,200000); for(int i=0;i<K;++i){ auto [p,w]=ref(); q.add(observe(p.data(),n,M),w*dens(p.data())); } compare(g,q,"chain.distribution",d); }
  // a single chain on its own
  quiet([&]{ for(unsigned k=0;k<A->size();++k){ auto* s=(*A)[k]; EXPECT(int(s->NP())==n&&s->maxWeight()>0,"chain.stack",d); for(int i=0;i<200;++i){ Event e=s->makeEvent(&rg); kinematics(e.address(),M,t.masses(),"chain.single",d,1e-9); } } }); vf::count("chains"); vf::sample(d); (void)tag; }
// weights adapted to a sample still describe the density
#if ENABLE_AVX
static void adapt(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(2,8);++c){ auto& C=CHAINS[std::vector<int>{1,5,8,9}[c%4]]; EventType t(C.type); std::vector<Particle> ps; for(auto& s: C.decays) ps.emplace_back(s,t.finalStates()); TRandom3 a(r.next()%100000); std::unique_ptr<TreePhaseSpace> A; quiet([&]{ A.reset(new TreePhaseSpace(ps,t,&a)); }); std::string d="adapted "+vf::vstr(C.decays); vf::begin_case(d); vf::distinct(d+std::to_string(c)); EventList l(t); for(int i=0;i<403;++i){ Event e=A->makeEvent(); e.setGenPdf((0.2+e.s(0,1))/e.genPdf()); l.push_back(e); } EventListSIMD sl(l); A->recalculate_weights(sl); int n=t.size(); size_t m=A->size(); std::vector<V> rows; Mean g; int N=vf::scale(3000,15000); auto gp=[&](size_t k,const double* p)->double{ if(n==3) return static_cast<const DecayChainStack<3>*>((*A)[k])->genPdf(p); return static_cast<const DecayChainStack<4>*>((*A)[k])->genPdf(p); }; std::vector<double> A2(m*m),y(m); for(int i=0;i<N;++i){ vf::eval(); Event e=A->makeEvent(); if(!kinematics(e.address(),t.motherMass(),t.masses(),"adapt",d,1e-9)) break; V v; for(size_t k=0;k<m;++k) v.push_back(gp(k,e.address())/e.genPdf()); rows.push_back(v); g.add(observe(e.address(),n,t.motherMass())); for(size_t p=0;p<m;++p){ y[p]+=v[p]; for(size_t q=0;q<m;++q) A2[p*m+q]+=v[p]*v[q]; } }
    // probabilities that explain every stated density: least squares of sum p_k g_k / g = 1
    std::vector<double> M2=A2,x=y; for(size_t p=0;p<m;++p){ size_t piv=p; for(size_t q=p;q<m;++q) if(std::abs(M2[q*m+p])>std::abs(M2[piv*m+p])) piv=q; for(size_t q=0;q<m;++q) std::swap(M2[p*m+q],M2[piv*m+q]); std::swap(x[p],x[piv]); for(size_t q=0;q<m;++q) if(q!=p){ double f=M2[q*m+p]/M2[p*m+p]; for(size_t z=0;z<m;++z) M2[q*m+z]-=f*M2[p*m+z]; x[q]-=f*x[p]; } } V pr; double tot=0; for(size_t p=0;p<m;++p){ pr.push_back(x[p]/M2[p*m+p]); tot+=pr.back(); } EXPECT(std::abs(tot-1)<1e-6,"adapt.normalised",d+": "+vf::vstr(pr)); for(auto p: pr) EXPECT(p>-1e-6,"adapt.positive",d+": "+vf::vstr(pr)); for(auto& v: rows){ double s=0; for(size_t k=0;k<m;++k) s+=pr[k]*v[k]; if(!EXPECT(std::abs(s-1)<1e-6,"adapt.density",d+vf::fmt(": stated density off by %.3g",s-1))) break; } Ref ref{t.motherMass(),t.masses(),r}; Mean q; for(int i=0;i<8*N;++i){ auto [p,w]=ref(); double f=0; for(size_t k=0;k<m;++k) f+=pr[k]*gp(k,p.data()); q.add(observe(p.data(),n,t.motherMass()),w*f); } compare(g,q,"adapt.distribution",d); vf::count("adapted"); vf::sample(d+" probabilities "+vf::vstr(pr)); } vf::require("adapted",2); }
#endif
// long-lived intermediate particles
static void recursive(){ auto& r=vf::rng(); struct R { std::vector<std::string> type; std::string decay; std::vector<std::pair<std::vector<unsigned>,std::string>> sub; }; std::vector<R> rs={{{"Lambda(c)+","p+","pi-","pi+"},"Lambda(c)+{Lambda0{p+,pi-},pi+}",{{{0,1},"Lambda0"}}},{{"D0","pi+","pi-","pi+","pi-"},"D0{K0S0{pi+,pi-},pi+,pi-}",{}},{{"Xi(b)-","p+","pi-","pi-","K+","K-"},"Xi(b)-{Xi-{Lambda0{p+,pi-},pi-},K+,K-}",{}},{{"B0","K+","K-","pi+","pi-"},"B0{D0{K+,K-},pi+,pi-}",{{{0,1},"D0"}}},{{"D0","K+","K-"},"D0{K+,K-}",{}}}; for(int c=0;c<vf::scale(10,60);++c){ auto& R0=rs[c%rs.size()]; EventType t(R0.type); unsigned seed=r.next()%100000; TRandom3 a(seed),b(seed); std::string d=R0.decay; vf::begin_case(d); vf::distinct(d+std::to_string(seed)); std::unique_ptr<RecursivePhaseSpace> A,B; quiet([&]{ Particle p(R0.decay,t.finalStates()); A.reset(new RecursivePhaseSpace(p,t,&a)); B.reset(new RecursivePhaseSpace(p,t)); B->setRandom(&b); A->print(); }); int n=t.size(); Mean g; Mean iso; int N=vf::scale(1500,6000); for(int i=0;i<N;++i){ vf::eval(); Event e=A->makeEvent(),f=B->makeEvent(); if(!EXPECT(e.data()==f.data(),"recursive.repeatable",d)) break; if(!kinematics(e.address(),t.motherMass(),t.masses(),"recursive",d,1e-10)) break; for(auto& s: R0.sub){ double m=ParticlePropertiesList::get(s.second)->mass(); EXPECT(std::abs(std::sqrt(inv2(e.address(),s.first))-m)<1e-8*m,"recursive.submass",d+vf::fmt(": %s at %.9g",s.second.c_str(),std::sqrt(inv2(e.address(),s.first)))); } g.add(observe(e.address(),n,t.motherMass()));
      // isotropic decay of the long-lived particle in its rest frame
      if(!R0.sub.empty()){ auto ix=R0.sub[0].first; L P[4]={0,0,0,0}; for(auto q: ix) for(int k=0;k<4;++k) P[k]+=e[4*q+k]; L m=std::sqrt(P[3]*P[3]-P[0]*P[0]-P[1]*P[1]-P[2]*P[2]); L pp=0; for(int k=0;k<3;++k) pp+=P[k]*e[4*ix[0]+k]; L pm=std::sqrt(P[0]*P[0]+P[1]*P[1]+P[2]*P[2]); L E=(P[3]*e[4*ix[0]+3]-pp)/m, pl=(pp/pm*P[3]-e[4*ix[0]+3]*pm)/m; L q=std::sqrt(E*E-(L)t.mass(ix[0])*t.mass(ix[0])); double c0=pl/q; iso.add({c0,c0*c0,c0*c0*c0}); } }
    auto half=[&](const Mean& s,size_t k,double want,const char* what){ auto [x,e]=s.get(k); EXPECT(std::abs(x-want)<6.5L*e+1e-9,"recursive.isotropic",d+vf::fmt(": %s averages %.5Lg +- %.2Lg, expected %.4g",what,x,e,want)); }; if(!iso.all.empty()){ half(iso,0,0,"cos"); half(iso,1,1/3.,"cos^2"); half(iso,2,0,"cos^3"); } size_t off=n>2? n*(n-1): 0; for(int i=0;i<n;++i) for(int k=0;k<3;++k){ half(g,off+12*i+3*k,0,"direction"); half(g,off+12*i+3*k+1,1/3.,"direction squared"); } vf::count("recursive"); }
  vf::require("recursive",5); }
// the event generator: phase space and accept-reject on a density
struct Pdf { EventType t; int resets=0,sets=0; double v(const double* p,unsigned st) const { L q[4]; for(int k=0;k<4;++k) q[k]=p[k*st]+p[(4+k)*st]; double s=q[3]*q[3]-q[0]*q[0]-q[1]*q[1]-q[2]*q[2]; double z=p[10*st]/p[11*st]; return s*(1+0.5*z); } void reset(bool=false){ ++resets; } template<class T> void setEvents(const T&){ ++sets; } void prepare(){} void debug(const Event&){}
  double operator()(const Event& e) const { return v(e.address(),1); }
#if ENABLE_AVX
  real_v operator()(const real_v* p,const unsigned) const { double o[4]; for(int k=0;k<4;++k) o[k]=v((const double*)p+k,4); return real_v(o); }
#else
  double operator()(const double* p,const unsigned) const { return v(p,1); }
#endif
};
template<class G> static void genOne(G& gen,const EventType& t,TRandom3& rnd,const std::string& d,double tol){ auto& r=vf::rng(); size_t n=r.range(0,23); EventList l; quiet([&]{ l=gen.generate(n); }); EXPECT(l.size()==n,"generator.count",d+vf::fmt(": %zu events asked for, %zu made",n,l.size())); for(size_t i=0;i<l.size();++i) kinematics(l[i].address(),t.motherMass(),t.masses(),"generator",d,tol);
  Pdf pdf{t}; EventList out(t); Event first=t.makeEvent(); bool had=r.coin(); if(had) out.push_back(first); size_t N=vf::scale(2500,10000); gen.setBlockSize(r.pick({997,2000,4001})); std::string log=quiet([&]{ gen.fillEventList(pdf,out,N); }); if(!EXPECT(out.size()==N+had,"generator.count",d+vf::fmt(": %zu events asked for, %zu made",N,out.size()-had))) return; if(had) EXPECT(out[0].data()==first.data(),"generator.keeps",d); Mean g; std::set<V> distinct; for(size_t i=had;i<out.size();++i){ vf::eval(); auto& e=out[i]; if(!kinematics(e.address(),t.motherMass(),t.masses(),"generator",d,tol)) break; double w=pdf(e); if(!EXPECT(std::abs(e.genPdf()-w)<=1e-12*w&&e.weight()==1,"generator.density",d)) break; g.add(observe(e.address(),t.size(),t.motherMass())); distinct.insert(e.data()); } EXPECT(distinct.size()==N,"generator.distinct",d+vf::fmt(": %zu different events of %zu",distinct.size(),N)); Ref ref{t.motherMass(),t.masses(),r}; Mean q; for(int i=0;i<8*int(N);++i){ auto [p,w]=ref(); q.add(observe(p.data(),t.size(),t.motherMass()),w*pdf.v(p.data(),1)); } compare(g,q,"generator.distribution",d); EXPECT(pdf.sets>0,"generator.events",d); vf::count("generators"); (void)rnd; }
static void generators(int kind){ auto& r=vf::rng(); for(int c=0;c<vf::scale(2,10);++c){ TRandom3 rnd(r.next()%100000); if(kind==0){ EventType t(r.pick(TYPES.begin()[1+c%3].size()? std::vector<std::vector<std::string>>{TYPES[1],TYPES[2],TYPES[3],TYPES[5]}: TYPES)); std::string d="phase space generator of "+t.decayDescriptor(); vf::begin_case(d); vf::distinct(d+std::to_string(c)); Generator<PhaseSpace> g(t); g.setRandom(&rnd); genOne(g,t,rnd,d,2e-11); unsigned seed=r.next()%10000; TRandom3 x(seed),y(seed),z(seed); Generator<PhaseSpace> gx(t,&x); PhaseSpace py(t,&y); gx.setRandom(&x); auto l=gx.generate(11); bool same=l.size()==11; for(size_t i=0;same&&i<11;++i) same=l[i].data()==py.makeEvent().data(); EXPECT(same,"generator.repeatable",d); EventList l2=[&]{ Generator<PhaseSpace> gz(t); gz.setRandom(&z); return gz.generate(11); }(); same=true; for(size_t i=0;i<11;++i) same=same&&l[i].data()==l2[i].data(); EXPECT(same,"generator.repeatable",d); EXPECT(gx.phsp().eventType()==t,"generator.phsp",d); }
    else if(kind==1){ auto& C=CHAINS[c%2? 3: 1]; EventType t(C.type); std::vector<Particle> ps; for(auto& s: C.decays) ps.emplace_back(s,t.finalStates()); std::string d="tree generator of "+vf::vstr(C.decays); vf::begin_case(d); vf::distinct(d+std::to_string(c)); std::unique_ptr<Generator<TreePhaseSpace>> g; quiet([&]{ g.reset(new Generator<TreePhaseSpace>(ps,t,&rnd)); }); g->setRandom(&rnd); genOne(*g,t,rnd,d,1e-9); size_t k=g->phsp().size(); EXPECT(k>0,"generator.phsp",d); }
    else { EventType t({"D+","K-","pi+","pi+"}); Particle p("D+{K-,pi+,pi+}",t.finalStates()); std::string d="recursive generator of "+p.decayDescriptor(); vf::begin_case(d); vf::distinct(d+std::to_string(c)); std::unique_ptr<Generator<RecursivePhaseSpace>> g; quiet([&]{ g.reset(new Generator<RecursivePhaseSpace>(p,t,&rnd)); }); g->setRandom(&rnd); genOne(*g,t,rnd,d,1e-10); } }
  if(kind==0){ for(unsigned n: {0u,1u,3u,4u,7u}){ V out(16*n+1,-7.); quiet([&]{ python__generate("D0 K+ K- pi+ pi-",out.data(),n); }); EventType t({"D0","K+","K-","pi+","pi-"}); for(unsigned i=0;i<n;++i) kinematics(&out[16*i],t.motherMass(),t.masses(),"python",vf::fmt("%u events",n)); EXPECT(out.back()==-7.,"python.bounds",""); } }
  vf::require("generators",2); }
void harness(){
  for(int i=0;i<3;++i) vf::section(vf::fmt("nbody%d",i),[i]{ nbody(i); }); vf::section("dalitz",dalitz); vf::section("types",types); vf::section("dice",dice);
  for(size_t i=0;i<CHAINS.size();++i) vf::section(vf::fmt("chain%zu",i),[i]{ chain(CHAINS[i],i); vf::require("chains",1); });
#if ENABLE_AVX
  vf::section("adapt",adapt);
#endif
  vf::section("recursive",recursive); for(int i=0;i<3;++i) vf::section(vf::fmt("generator%d",i),[i]{ generators(i); });
}
