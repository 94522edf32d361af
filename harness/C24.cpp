// C24: event containers return what was stored, in every layout
#include "vf.h"
#include "ptable.h"
#include "AmpGen/Event.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Store.h"
#include "AmpGen/Projection.h"
#include "AmpGen/DynamicContainer.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/TreeReader.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/OptionsParser.h"
#include <set>
#include <unistd.h>
#include <list>
#include <deque>
using namespace AmpGen;
typedef long double L;
static std::string quiet(std::function<void()> f){ return vf::capture(f); }
// the plain model of one event
struct M { std::vector<double> p; double w=1,g=1; };
static bool same(const M& m,const Event& e){ if(e.size()!=m.p.size()||e.weight()!=m.w||e.genPdf()!=m.g||e.data()!=m.p) return false; for(unsigned i=0;i<e.size();++i) if(e[i]!=m.p[i]||*(e.address(i))!=m.p[i]) return false; return true; }
static std::string show(const M& m){ return vf::vstr(m.p)+vf::fmt(" w=%.9g g=%.9g",m.w,m.g); }
static std::string show(const Event& e){ return vf::vstr(e.data())+vf::fmt(" w=%.9g g=%.9g",e.weight(),e.genPdf()); }
static double val(){ auto& r=vf::rng(); switch(r.range(0,9)){ case 0: return 0; case 1: return r.uni(-1e-6,1e-6); case 2: return r.uni(-1e6,1e6); default: return r.uni(-3,3); } }
static M randM(int n){ auto& r=vf::rng(); M m; for(int i=0;i<n;++i) m.p.push_back(val()); m.w=r.coin(0.2)? 0: r.coin(0.2)? -r.uni(0,2): r.uni(0,2); m.g=r.uni(0.1,3); return m; }
static Event toE(const M& m){ Event e(m.p.data(),m.p.size()); e.setWeight(m.w); e.setGenPdf(m.g); return e; }
// squared invariant mass of a set of particles and the size of the terms it is made of
static std::pair<L,L> s2(const std::vector<double>& p,const std::vector<unsigned>& ix){ L q[4]={0,0,0,0},a=0; for(auto i: ix) for(int k=0;k<4;++k){ q[k]+=p[4*i+k]; a+=std::abs(p[4*i+k]); } return {q[3]*q[3]-q[0]*q[0]-q[1]*q[1]-q[2]*q[2],a*a}; }
static void event(){ auto& r=vf::rng();
  for(int c=0;c<vf::scale(400,6000);++c){ int n=r.range(1,7); M m=randM(4*n); Event e= r.coin()? Event(m.p.data(),4*n): Event(4*n); if(r.coin(0.3)){ Event b(4*n); bool z=b.size()==unsigned(4*n)&&b.weight()==1&&b.genPdf()==1; for(int i=0;i<4*n;++i) z=z&&b[i]==0; EXPECT(z,"event.blank",show(b)); } e.set(m.p.data()); e.setWeight(m.w); e.setGenPdf(m.g); vf::begin_case(show(m)); EXPECT(same(m,e),"event.set","stored "+show(m)+", read "+show(e));
    for(int op=0;op<12;++op){ vf::eval(); std::string what; switch(r.range(0,10)){
        case 0: { unsigned i=r.range(0,n-1); std::vector<double> q{val(),val(),val(),val()}; what=vf::fmt("set(%u,vector)",i); e.set(i,q); std::copy(q.begin(),q.end(),m.p.begin()+4*i); break; }
        case 1: { unsigned i=r.range(0,n-1); double q[4]={val(),val(),val(),val()}; what=vf::fmt("set(%u,pointer)",i); e.set(i,q); std::copy(q,q+4,m.p.begin()+4*i); break; }
        case 2: { unsigned i=r.range(0,m.p.size()-1); double x=val(); what=vf::fmt("set(%u,value)",i); e.set(i,x); m.p[i]=x; break; }
        case 3: { unsigned i=r.range(0,n-1),j=r.range(0,n-1); what=vf::fmt("swap(%u,%u)",i,j); e.swap(i,j); for(int k=0;k<4;++k) std::swap(m.p[4*i+k],m.p[4*j+k]); break; }
        case 4: { std::vector<unsigned> a(n); for(int i=0;i<n;++i) a[i]=i; r.shuffle(a); what="reorder "+vf::vstr(a); e.reorder(a); auto c0=m.p; for(int i=0;i<n;++i) for(int k=0;k<4;++k) m.p[4*a[i]+k]=c0[4*i+k]; break; }
        case 5: { double x=val(); what="extendEvent"; e.extendEvent(x); m.p.push_back(x); break; }
        case 6: { m.w=val(); what="setWeight"; if(r.coin()) e.setWeight(m.w); else *e.pWeight()=m.w; break; }
        case 7: { m.g=val(); what="setGenPdf"; if(r.coin()) e.setGenPdf(m.g); else *e.pGenPdf()=m.g; break; }
        case 8: { unsigned i=r.range(0,m.p.size()-1); double x=val(); what="write through address"; if(r.coin()) *e.address(i)=x; else if(r.coin()) e[i]=x; else ((double*)e)[i]=x; m.p[i]=x; break; }
        case 9: { what="copy"; Event f=e; f.setIndex(77); f.set(0,3.25); f.setWeight(9); Event h; h=e; EXPECT(same(m,h),"event.copy",show(h)); EXPECT(f.index()==77&&f.weight()==9&&f[0]==3.25,"event.copy",""); break; }
        default: { what="s"; std::vector<unsigned> all(n); for(int i=0;i<n;++i) all[i]=i; r.shuffle(all); int k=r.range(1,n); std::vector<unsigned> ix(all.begin(),all.begin()+k); auto [s,a]=s2(m.p,ix); auto ck=[&](double x,const char* how){ EXPECT(std::abs(x-s)<=1e-15L*10*a,"event.s",vf::fmt("%s of particles ",how)+vf::vstr(ix)+" of "+show(m)+vf::fmt(" is %.17g, expected %.17Lg",x,s)); }; ck(e.s(ix),"s(list)"); if(k==1) ck(e.s(ix[0]),"s(i)"); if(k==2) ck(e.s(ix[0],ix[1]),"s(i,j)"); if(k==3) ck(e.s(ix[0],ix[1],ix[2]),"s(i,j,k)"); vf::count("invariants"); }
      }
      vf::count("operations"); if(!EXPECT(same(m,e),"event.content","after "+what+": expected "+show(m)+", read "+show(e))) break; }
    vf::distinct(show(m)); if(c<2) vf::sample(show(m)); 
    if(c%20==0){ std::string out=quiet([&]{ e.print(); }); EXPECT(!out.empty(),"event.print",""); } }
  vf::require("invariants",100); vf::require("operations",1000); }
#if ENABLE_AVX
static void simd(){ auto& r=vf::rng(); const unsigned W=real_v::size; for(int c=0;c<vf::scale(800,10000);++c){ vf::eval(); int n=r.range(1,23); std::vector<double> v(n); for(auto& x: v) x=val(); unsigned off=r.range(0,n+3); double df=r.coin(0.3)? 0: r.uni(0.5,2); std::string d=vf::fmt("%d values, offset %u",n,off); vf::begin_case(d); auto f=[](double x){ return 2*x+1; }; vf::distinct(d+vf::vstr(v));
    auto g=utils::gather<real_v>(v,f,off,df); for(unsigned k=0;k<W;++k){ double want= off+k<v.size()? f(v[off+k]): df; EXPECT(g.at(k)==want,"simd.gather",d+vf::fmt(": lane %u is %.17g, expected %.17g",k,g.at(k),want)); }
    auto h=utils::gather<real_v>(v,f,off); for(unsigned k=0;k<W;++k) if(off+k<v.size()) EXPECT(h.at(k)==f(v[off+k]),"simd.gather",d+vf::fmt(": lane %u",k));
    real_v x(v[0],v[n/2],v[n-1],v[n/3]); double xs[4]={v[0],v[n/2],v[n-1],v[n/3]}; for(unsigned k=0;k<W;++k) EXPECT(utils::at(x,k)==xs[k],"simd.at",d); EXPECT(utils::get<0>(x)==xs[0]&&utils::get<1>(x)==xs[1]&&utils::get<2>(x)==xs[2]&&utils::get<3>(x)==xs[3],"simd.get",d); real_v y(v[n-1],v[0],v[n/3],v[n/2]); double ys[4]={v[n-1],v[0],v[n/3],v[n/2]}; complex_v z(x,y); for(unsigned k=0;k<W;++k){ auto q=utils::at(z,k); EXPECT(q==std::complex<double>(xs[k],ys[k]),"simd.at",d+" complex"); } EXPECT(utils::get<2>(z)==std::complex<double>(xs[2],ys[2])&&utils::get<0>(z)==std::complex<double>(xs[0],ys[0]),"simd.get",d+" complex");
    L sum=0,ab=0; for(auto q: xs){ sum+=q; ab+=std::abs(q); } EXPECT(std::abs(utils::sum_elements(x)-sum)<=1e-15L*ab,"simd.sum",d); double out[6]={-7,0,0,0,0,-7}; utils::store(out+1,x); EXPECT(out[0]==-7&&out[5]==-7&&std::equal(xs,xs+4,out+1),"simd.store",d); double lone=0; utils::store(&lone,3.5); EXPECT(lone==3.5,"simd.store","scalar"); EXPECT(utils::at(2.5,3)==2.5&&utils::get<3>(2.5)==2.5&&utils::sum_elements(2.5)==2.5,"simd.scalar","");
    double t=r.pick({v[0],v[n-1],v[n/2],0.}); bool all=true; for(auto q: xs) all=all&&q==t; EXPECT(utils::all_of(x,real_v(t))==all,"simd.all_of",d); real_v same(t); EXPECT(utils::all_of(same,real_v(t)),"simd.all_of","equal lanes"); vf::count("simd"); }
  for(size_t n=0;n<4000;++n){ EXPECT(utils::aligned_size<real_v>(n)==(n+W-1)/W*W&&utils::aligned_size<complex_v>(n)==(n+W-1)/W*W&&utils::aligned_size<double>(n)==n,"simd.aligned",vf::fmt("%zu entries",n)); vf::eval(); }
  vf::require("simd",100); }
#endif
// a store that records every block handed out and taken back, for the iterator alone
template<unsigned W> struct Blocks { typedef int value_type; std::vector<int> v; size_t n=0; std::vector<size_t> reads,writes; explicit Blocks(size_t k):v((k+W-1)/W*W,-1),n(k){ for(size_t i=0;i<k;++i) v[i]=1000+i; } size_t size() const { return n; } size_t aligned_size() const { return v.size(); }
  std::array<int,W> scatter(unsigned pos){ reads.push_back(pos); std::array<int,W> a; a.fill(-99); if(pos>=v.size()) return a; for(unsigned k=0;k<W;++k) a[k]=v[pos/W*W+k]; return a; } void gather(const std::array<int,W>& a,unsigned block){ writes.push_back(block); if((block+1)*W<=v.size()) std::copy(a.begin(),a.end(),v.begin()+block*W); } };
template<unsigned W> static void iter(){ auto& r=vf::rng(); for(size_t n=0;n<=3*W+2;++n) for(size_t stop=0;stop<=n;++stop){ vf::eval(); std::string d=vf::fmt("width %u, %zu entries, stopping at %zu",W,n,stop); vf::begin_case(d); vf::distinct(d); auto judge=[&](Blocks<W>& b){ for(auto p: b.reads) EXPECT(p<b.aligned_size(),"iterator.bounds",d+vf::fmt(": block at %zu read, %zu entries",p,b.aligned_size())); for(auto p: b.writes) EXPECT((p+1)*W<=b.aligned_size(),"iterator.bounds",d+vf::fmt(": block %zu written",p)); };
    { Blocks<W> b(n); auto it=make_scatter_iterator<W>(0,&b); auto end=make_scatter_iterator<W>(n,(Blocks<W>*)nullptr); size_t k=0; for(;it!=end;++it,++k){ if(k==stop) break; EXPECT(*it==int(1000+k)&&it.pos()==int(k)&&end-it==int(n-k),"iterator.value",d+vf::fmt(": entry %zu reads %d",k,*it)); } EXPECT(k==stop,"iterator.count",d); judge(b); EXPECT(b.writes.empty(),"iterator.readonly",d); }
    { Blocks<W> b(n); { auto it=make_scatter_iterator<W,true>(0,&b); auto end=make_scatter_iterator<W,true>(n,(Blocks<W>*)nullptr); size_t k=0; for(;it!=end;++it,++k){ EXPECT(*it==int(1000+k),"iterator.value",d); *it=5000+k; if(k==stop) break; } } judge(b); for(size_t i=0;i<n;++i){ int want= i<=stop? 5000+i: 1000+i; EXPECT(b.v[i]==want,"iterator.modify",d+vf::fmt(": entry %zu is %d, expected %d",i,b.v[i],want)); } for(size_t i=n;i<b.v.size();++i) EXPECT(b.v[i]==-1,"iterator.padding",d); }
    if(stop<n){ Blocks<W> b(n); auto it=make_scatter_iterator<W>(stop,&b); auto end=make_scatter_iterator<W>(n,(Blocks<W>*)nullptr); size_t k=stop; for(;it!=end;++it,++k) EXPECT(*it==int(1000+k),"iterator.middle",d+vf::fmt(": started in the middle, entry %zu reads %d",k,*it)); judge(b); } vf::count("iterations"); } (void)r; }
// stores
struct Fn { std::string n; unsigned size; const std::string& name() const { return n; } unsigned returnTypeSize() const { return size; } };
template<class T> struct Lane; template<> struct Lane<double>{ static double make(int b,int f,int k){ return 10000.*f+b+0.25*k; } static double want(int e,int f,int W){ return make(e/W,f,e%W); } };
static std::complex<double> cwant(int e,int f,int W){ return {Lane<double>::want(e,f,W),-Lane<double>::want(e,f,W)/3}; }
template<class T> static T makeBlock(int b,int f){ if constexpr(std::is_same_v<T,double>) return Lane<double>::make(b,f,0); else if constexpr(std::is_same_v<T,std::complex<double>>) return cwant(b,f,1);
#if ENABLE_AVX
  else if constexpr(std::is_same_v<T,real_v>) return real_v(Lane<double>::make(b,f,0),Lane<double>::make(b,f,1),Lane<double>::make(b,f,2),Lane<double>::make(b,f,3)); else return complex_v(makeBlock<real_v>(b,f),-makeBlock<real_v>(b,f)/real_v(3.));
#endif
}
template<class T> static bool eq(const T& a,const T& b){ const double *x=(const double*)&a,*y=(const double*)&b; for(unsigned i=0;i<sizeof(T)/8;++i) if(x[i]!=y[i]) return false; return true; }
template<class T,Alignment A> static void checkStore(Store<T,A>& s,size_t n,size_t f,const std::string& d){ const unsigned W=utils::size<T>::value; size_t nb=(n+W-1)/W; if(!EXPECT(s.size()==n&&s.nFields()==f&&s.nBlocks()==nb&&s.aligned_size()==nb*W&&s.size_raw()==nb*f,"store.sizes",d+vf::fmt(": %zu entries, %zu fields, %zu blocks, %zu cells",s.size(),s.nFields(),s.nBlocks(),s.size_raw()))) return;
  for(size_t b=0;b<nb;++b) for(size_t j=0;j<f;++j) s(b,j)=makeBlock<T>(b,j);
  const auto& cs=s; bool good=true; for(size_t b=0;b<nb;++b) for(size_t j=0;j<f;++j) good=good&&eq(cs(b,j),makeBlock<T>(b,j)); EXPECT(good,"store.content",d+": cells do not read back");
  for(size_t e=0;e<n;++e) for(size_t j=0;j<f;++j){ if constexpr(std::is_same_v<T,double>||std::is_same_v<T,real_v>){ auto x=s.template get<double>(e,j); EXPECT(x==Lane<double>::want(e,j,W),"store.get",d+vf::fmt(": entry %zu field %zu",e,j)); } else { auto x=s.template get<std::complex<double>>(e,j); auto w=cwant(e,j,W); EXPECT(std::abs(x-w)<1e-9,"store.get",d+vf::fmt(": entry %zu field %zu",e,j)); } }
  // the layout is the declared one: fields of a block together, or blocks of a field together
  for(size_t i=0;i<nb*f;++i){ size_t b= A==AoS? i/f: i%nb, j= A==AoS? i%f: i/nb; if(!EXPECT(eq(s.data()[i],makeBlock<T>(b,j))&&eq(T(s[i]),makeBlock<T>(b,j)),"store.layout",d+vf::fmt(": cell %zu",i))) break; } vf::count("cells",nb*f); }
template<class T,Alignment A> static void stores(const char* nm){ auto& r=vf::rng(); for(int c=0;c<vf::scale(60,600);++c){ size_t n=r.range(0,17),f=r.range(0,6); std::string d=vf::fmt("%s, %zu entries, %zu fields",nm,n,f); vf::begin_case(d); Store<T,A> s(n,f); checkStore(s,n,f,d); 
    for(int op=0;op<6;++op){ vf::eval(); switch(r.range(0,4)){ case 0: n=r.range(0,40); s.resize(n); d+=vf::fmt(", resized to %zu",n); break; case 1: n=r.range(0,20); f=r.range(0,5); s.resize(n,f); d+=vf::fmt(", resized to %zu x %zu",n,f); break; case 2: { unsigned k=r.range(1,3); std::string name="fn"+std::to_string(r.range(0,3)); bool had=s.m_index.count(name); auto before= had? s.find(name): std::vector<unsigned>(); s.addFunctor(Fn{name,unsigned(k*sizeof(T))}); auto ix=s.find(name); d+=", "+name+vf::fmt("[%u]",k); if(had) EXPECT(ix==before,"store.functor",d+": fields of a known function moved"); else { EXPECT(ix.size()==k,"store.functor",d); for(unsigned q=0;q<k;++q) EXPECT(ix[q]==f+q,"store.functor",d+": fields "+vf::vstr(ix)); f+=k; } s.resize(n); break; } case 3: s.clear(); d+=", cleared"; EXPECT(s.size()==0&&s.size_raw()==0&&s.aligned_size()==0,"store.clear",d+vf::fmt(": %zu entries, %zu cells",s.size(),s.size_raw())); s.resize(n); s.resize(n,f); break; default: { Store<T,A> q=s; d+=", copied"; checkStore(q,n,f,d); s=q; } } checkStore(s,n,f,d); }
    // stored by list of fields
    if(n&&f){ s.resize(n,f); std::vector<unsigned> ix(f); for(unsigned i=0;i<f;++i) ix[i]=i; r.shuffle(ix); size_t nb=s.nBlocks(); for(size_t b=0;b<nb;++b){ std::vector<T> it; for(auto j: ix) it.push_back(makeBlock<T>(b+7,j)); s.store(b,ix.data(),it.data(),f); } for(size_t b=0;b<nb;++b) for(size_t j=0;j<f;++j) EXPECT(eq(s(b,j),makeBlock<T>(b+7,j)),"store.store",d); }
    // allocated from functions
    std::vector<Fn> fs; unsigned tot=0; for(int i=0;i<r.range(1,4);++i){ unsigned k=r.range(1,3); fs.push_back({"g"+std::to_string(i),unsigned(k*sizeof(T))}); tot+=k; } Store<T,A> q(n,fs); checkStore(q,n,tot,d+", from functions"); std::vector<int> seen(tot); for(auto& x: fs) for(auto i: q.find(x.n)) if(EXPECT(i<tot,"store.functor",d)) ++seen[i]; for(auto x: seen) EXPECT(x==1,"store.functor",d+": fields "+vf::vstr(seen)); vf::distinct(d); }
  vf::require("cells",500); }
// event types: names, layout, ordering and symmetrisation
static const std::vector<std::vector<std::string>> TYPES={{"D0","K+","K-","pi+","pi-"},{"D+","K-","pi+","pi+"},{"B+","K+","pi0"},{"D0","K+","pi-","pi0"},{"B0","pi+","pi-","pi+","pi-","pi0"},{"Lambda(c)+","p+","K-","pi+"},{"D0","pi+","pi-","pi0","pi0"}};
static void types(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(120,1500);++c){ vf::eval(); auto names=r.pick(TYPES); bool td=r.coin(0.3); EventType t(names,td); int n=names.size()-1; std::string d=vf::vstr(names)+(td? " with time":""); vf::begin_case(d); EXPECT(int(t.size())==n&&t.mother()==names[0]&&t.eventSize()==unsigned(4*n+td)&&t.isTimeDependent()==td,"type.size",d); for(int i=0;i<n;++i) EXPECT(t[i]==names[i+1]&&t.mass(i)==ParticlePropertiesList::get(names[i+1])->mass(),"type.names",d);
    int ext=r.range(0,2); for(int i=0;i<ext;++i) t.extendEventType("extra"+std::to_string(i)); for(bool out: {false,true}){ auto f=t.getEventFormat(out); std::set<unsigned> pos; for(auto& x: f) pos.insert(x.second); EXPECT(f.size()==size_t(4*n+td+ext)&&pos.size()==f.size()&&*pos.rbegin()==f.size()-1,"type.format",d+vf::fmt(": %zu names for %zu positions",f.size(),pos.size())); if(!out) for(int i=0;i<n;++i) EXPECT(f[std::to_string(i)+"_Px"]==unsigned(4*i)&&f[std::to_string(i)+"_Py"]==unsigned(4*i+1)&&f[std::to_string(i)+"_Pz"]==unsigned(4*i+2)&&f[std::to_string(i)+"_E"]==unsigned(4*i+3),"type.format",d); if(td) EXPECT(f[names[0]+"_decayTime"]==unsigned(4*n),"type.format",d); }
    // whole particles of the same kind are exchanged, nothing else
    auto sym=t.symmetriser(); std::map<std::vector<int>,int> perms; for(int k=0;k<60;++k){ M m=randM(4*n+td); for(int i=0;i<4*n;++i) m.p[i]=100*(i/4)+i%4; Event e=toE(m); sym(e); std::vector<int> perm; bool ok=e.weight()==m.w&&e.genPdf()==m.g; for(int i=0;i<n;++i){ int j=int(e[4*i])/100; perm.push_back(j); for(int q=0;q<4;++q) ok=ok&&e[4*i+q]==100*j+q; ok=ok&&j>=0&&j<n&&names[j+1]==names[i+1]; } auto s=perm; std::sort(s.begin(),s.end()); for(int i=0;i<n;++i) ok=ok&&s[i]==i; if(td) ok=ok&&e[4*n]==m.p[4*n]; EXPECT(ok,"type.symmetrise",d+": "+vf::vstr(perm)); ++perms[perm]; } size_t want=1; std::map<std::string,int> mult; for(int i=0;i<n;++i) want*=++mult[names[i+1]]; EXPECT(perms.size()<=want,"type.symmetrise",d); if(want<=4) EXPECT(perms.size()==want,"type.symmetrise",d+vf::fmt(": %zu of %zu orders in 60 events",perms.size(),want)); vf::count("symmetrised",60);
    // ordering by identity
    auto ord=t.automaticOrdering(); std::vector<int> ids; for(int i=0;i<n;++i) ids.push_back(ParticlePropertiesList::get(names[i+1])->pdgID()); for(int k=0;k<10;++k){ bool cc=r.coin(); std::vector<int> act; std::vector<unsigned> perm(n); for(int i=0;i<n;++i) perm[i]=i; r.shuffle(perm); for(int i=0;i<n;++i) act.push_back(cc? ParticlePropertiesList::get(names[perm[i]+1])->anti().pdgID(): ids[perm[i]]); bool wrong=r.coin(0.25); if(wrong) act[r.range(0,n-1)]=r.coin()? 13: act[r.range(0,n-1)]; auto sorted=[](std::vector<int> v){ std::sort(v.begin(),v.end()); return v; }; std::vector<int> aids; for(int i=0;i<n;++i) aids.push_back(ParticlePropertiesList::get(names[i+1])->anti().pdgID()); bool fits=sorted(act)==sorted(ids), cfits=sorted(act)==sorted(aids); M m=randM(4*n); Event e=toE(m); std::string dd=d+" read as "+vf::vstr(act); vf::begin_case(dd); bool ok=false; quiet([&]{ ok=ord(e,act); }); EXPECT(ok==(fits||cfits),"type.order",dd+(ok? " accepted":" rejected")); if(!ok){ EXPECT(same(m,e),"type.order",dd+": event changed"); continue; } const auto& ref= fits? ids: aids; std::vector<bool> used(n,false); bool good=ok; for(int i=0;i<n;++i){ bool f=false; for(int j=0;j<n&&!f;++j) if(!used[j]&&act[j]==ref[i]&&std::equal(m.p.begin()+4*j,m.p.begin()+4*j+4,e.address(4*i))){ used[j]=true; f=true; } good=good&&f; } if(fits||cfits) EXPECT(good,"type.order",dd+": momenta went to the wrong particles"); vf::count("ordered"); } vf::distinct(d+std::to_string(c)); }
  vf::require("ordered",100); }
// lists against a vector of plain events
static std::vector<M> randList(int n,int sz){ std::vector<M> v; for(int i=0;i<n;++i) v.push_back(randM(sz)); return v; }
static EventList toList(const EventType& t,const std::vector<M>& v){ EventList l(t); for(auto& m: v) l.push_back(toE(m)); return l; }
static bool checkList(const EventList& l,const std::vector<M>& v,const std::string& d){ if(!EXPECT(l.size()==v.size()&&l.nBlocks()==v.size()&&l.aligned_size()==v.size(),"list.size",d+vf::fmt(": %zu events, expected %zu",l.size(),v.size()))) return false; size_t i=0; L sum=0,ab=0; bool ok=true; for(const auto& e: l){ ok=ok&&EXPECT(same(v[i],e)&&same(v[i],l[i])&&same(v[i],l.at(i)),"list.content",d+vf::fmt(": event %zu is ",i)+show(e)+", expected "+show(v[i])); ok=ok&&EXPECT(e.index()==i,"list.index",d+vf::fmt(": event %zu has index %u",i,e.index())); ok=ok&&EXPECT(l.weight(i)==v[i].w&&l.genPDF(i)==v[i].g,"list.weight",d); sum+=v[i].w; ab+=std::abs(v[i].w); ++i; if(!ok) return false; } EXPECT(i==v.size(),"list.iterate",d); EXPECT(std::abs(l.integral()-sum)<=1e-13L*(ab+1e-300L),"list.integral",d+vf::fmt(": integral %.9g, weights sum to %.9Lg",l.integral(),sum)); vf::count("events",i); return ok; }
static void lists(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(150,2500);++c){ auto names=r.pick(TYPES); EventType t(names); int n=t.size(); std::string d=vf::vstr(names); std::vector<M> v=randList(r.range(0,12),4*n); EventList l=toList(t,v); if(!checkList(l,v,d)) continue; EXPECT(l.eventType()==t,"list.type",d);
    for(int op=0;op<10;++op){ vf::eval(); vf::begin_case(d); switch(r.range(0,12)){
      case 0: case 1: { M m=randM(4*n); Event e=toE(m); e.setIndex(55); if(r.coin()) l.push_back(e); else l.emplace_back(e); v.push_back(m); d+=", add"; break; }
      case 2: { auto w=randList(r.range(0,6),4*n); l.add(toList(t,w)); v.insert(v.end(),w.begin(),w.end()); d+=", add list"; break; }
      case 3: { double cut=r.uni(0,2); quiet([&]{ l.filter([cut](auto& e){ return e.weight()>cut; }); }); v.erase(std::remove_if(v.begin(),v.end(),[cut](auto& m){ return m.w>cut; }),v.end()); d+=", filter"; break; }
      case 4: { if(v.empty()) break; int a=r.range(0,v.size()-1),b=r.range(a,v.size()); l.erase(l.begin()+a,l.begin()+b); v.erase(v.begin()+a,v.begin()+b); d+=vf::fmt(", erase %d-%d",a,b); break; }
      case 5: if(r.coin(0.3)){ l.clear(); v.clear(); d+=", clear"; } break;
      case 6: { if(!r.coin(0.3)) break; size_t k=r.range(0,9); l.resize(k); v.assign(k,M{std::vector<double>(4*n,0.),1,1}); d+=vf::fmt(", resize %zu",k); break; }
      case 7: l.reserve(r.range(0,50)); d+=", reserve"; break;
      case 8: { if(v.empty()) break; unsigned k=r.range(0,v.size()-1); v[k].w=val(); v[k].g= r.coin()? 1: val(); if(v[k].g==1) l.setWeight(k,v[k].w); else l.setWeight(k,v[k].w,v[k].g); d+=vf::fmt(", setWeight %u",k); break; }
      case 9: { if(v.empty()) break; unsigned k=r.range(0,v.size()-1); v[k].g=val(); l.setGenPDF(k,v[k].g); d+=vf::fmt(", setGenPDF %u",k); break; }
      case 10: { double k=r.uni(0.5,2); l.transform([k](auto& e){ e.set(1,k*e[1]); e.setWeight(e.weight()*k); }); for(auto& m: v){ m.p[1]*=k; m.w*=k; } d+=", transform"; break; }
      case 11: { if(v.empty()) break; unsigned k=r.range(0,v.size()-1); double x=val(); double* p= r.coin()? l.getEvent(k): l.block(k); p[2]=x; v[k].p[2]=x; d+=", write event"; EXPECT(((const EventList&)l).getEvent(k)[2]==x,"list.getEvent",d); break; }
      default: { double cut=val(); unsigned k=l.count([cut](const auto& e){ return e[0]<cut; }); unsigned w=std::count_if(v.begin(),v.end(),[cut](auto& m){ return m.p[0]<cut; }); EXPECT(k==w,"list.count",d); EventList q=l; checkList(q,v,d+", copied"); std::vector<M> rv(v.rbegin(),v.rend()); size_t i=0; for(auto it=l.rbegin();it!=l.rend();++it,++i) EXPECT(same(rv[i],*it),"list.reverse",d); } }
      if(!checkList(l,v,d)) break; }
    if(!v.empty()){ for(auto& e: l) e.extendEvent(2.5); for(auto& m: v) m.p.push_back(2.5); l.extend("tag",4*n); EXPECT(l.key("tag")==unsigned(4*n),"list.key",d); EXPECT(l[0][l.key("tag")]==2.5,"list.key",d); } vf::distinct(d); if(c<2) vf::sample(d); }
  vf::require("events",500); }
#if ENABLE_AVX
static bool checkSIMD(const EventListSIMD& l,const std::vector<M>& v,const std::string& d){ const unsigned W=real_v::size; size_t nb=(v.size()+W-1)/W; if(!EXPECT(l.size()==v.size()&&l.nBlocks()==nb&&l.aligned_size()==nb*W,"vlist.size",d+vf::fmt(": %zu events, %zu blocks, expected %zu",l.size(),l.nBlocks(),v.size()))) return false; bool ok=true; size_t i=0; for(const auto e: l){ if(i>=v.size()) break; ok=ok&&EXPECT(same(v[i],e)&&same(v[i],l[i])&&same(v[i],l.at(i)),"vlist.content",d+vf::fmt(": event %zu of %zu is ",i,v.size())+show(e)+", "+show(l[i])+", expected "+show(v[i])); ok=ok&&EXPECT(e.index()==i&&l[i].index()==i,"vlist.index",d+vf::fmt(": event %zu has index %u",i,e.index())); for(unsigned j=0;j<v[i].p.size();++j) ok=ok&&EXPECT(l.block(i/W)[j].at(i%W)==v[i].p[j]&&l.data()[i/W*l.nFields()+j].at(i%W)==v[i].p[j],"vlist.block",d); ok=ok&&EXPECT(l.weight(i/W).at(i%W)==v[i].w&&l.genPDF(i/W).at(i%W)==v[i].g,"vlist.weight",d); ++i; if(!ok) return false; } EXPECT(i==v.size(),"vlist.iterate",d);
  // sums over all lanes, as the integrals are done, see every event once and nothing else
  L sum=0,ab=0; for(auto& m: v){ sum+=m.w; ab+=std::abs(m.w); } double tot=0; for(size_t b=0;b<nb;++b) tot+=utils::sum_elements(l.weight(b)); ok=ok&&EXPECT(std::abs(tot-sum)<=1e-13L*(ab+1e-300L),"vlist.aggregate",d+vf::fmt(": weights of all lanes sum to %.9g, of the %zu events to %.9Lg",tot,v.size(),sum)); bool fin=true; for(size_t b=0;b<nb;++b) for(unsigned k=0;k<W;++k){ fin=fin&&std::isfinite(l.genPDF(b).at(k))&&(b*W+k<v.size()||l.genPDF(b).at(k)!=0); for(size_t j=0;j<l.nFields();++j) fin=fin&&std::isfinite(l.block(b)[j].at(k)); } ok=ok&&EXPECT(fin,"vlist.padding",d+": unusable padding"); vf::count("vevents",i); return ok; }
static void vlists(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(150,2500);++c){ auto names=r.pick(TYPES); EventType t(names); int n=t.size(); std::vector<M> v=randList(r.range(0,13),4*n); std::string d=vf::vstr(names)+vf::fmt(" x%zu",v.size()); vf::begin_case(d); EventListSIMD l(toList(t,v)); if(!checkSIMD(l,v,d)) continue; EXPECT(l.eventType()==t&&l.eventSize()==size_t(4*n),"vlist.type",d);
    for(int op=0;op<7;++op){ vf::eval(); vf::begin_case(d); switch(r.range(0,7)){
      case 0: { double k=r.uni(0.5,2); l.transform([k](auto& e){ e.set(1,k*e[1]); e.setWeight(e.weight()*k); e.setGenPdf(e.genPdf()+1); }); for(auto& m: v){ m.p[1]*=k; m.w*=k; m.g+=1; } d+=", transform"; break; }
      case 1: { size_t stop=r.range(0,14),i=0; d+=vf::fmt(", changed up to %zu",stop); for(auto& e: l){ e.set(0,7.5+i); e.setWeight(0.25); if(i==stop) break; ++i; } for(size_t k=0;k<v.size()&&k<=stop;++k){ v[k].p[0]=7.5+k; v[k].w=0.25; } break; }
      case 2: { size_t k=r.range(0,11); l.resize(k); v.assign(k,M{std::vector<double>(4*n,0.),1,1}); d+=vf::fmt(", resize %zu",k); for(size_t b=0;b<l.nBlocks();++b) for(size_t j=0;j<l.nFields();++j){ bool z=true; for(unsigned q=0;q<real_v::size;++q) z=z&&l.block(b)[j].at(q)==0; EXPECT(z,"vlist.resize",d); } break; }
      case 3: { l.clear(); v.clear(); d+=", clear"; break; }
      case 4: { v=randList(r.range(0,10),4*n); l=EventListSIMD(toList(t,v)); d+=vf::fmt(", replaced by %zu",v.size()); break; }
      case 5: { if(v.empty()) break; unsigned b=r.range(0,l.nBlocks()-1); auto w=l.weight(b).to_array(); decltype(w) g; for(unsigned k=0;k<real_v::size;++k){ unsigned e=b*real_v::size+k; g[k]=r.uni(1,2); if(e<v.size()){ w[k]=r.uni(0,1); v[e].w=w[k]; v[e].g=g[k]; } } l.setWeight(b,real_v(w),real_v(g)); d+=vf::fmt(", setWeight block %u",b); break; }
      case 6: { if(v.empty()) break; unsigned b=r.range(0,l.nBlocks()-1); l.setGenPDF(b,real_v(1.5)); for(unsigned e=b*real_v::size;e<v.size()&&e<(b+1)*real_v::size;++e) v[e].g=1.5; d+=vf::fmt(", setGenPDF block %u",b); break; }
      default: { EventListSIMD q=l; checkSIMD(q,v,d+", copied"); Store<real_v,AoS> s=q; EXPECT(s.size()==v.size()&&s.nFields()==q.nFields(),"vlist.store",d); if(!v.empty()){ auto e=EventListSIMD::makeEvent(l[0]); bool ok=e.size()==v[0].p.size(); for(size_t j=0;j<e.size();++j) for(unsigned k=0;k<real_v::size;++k) ok=ok&&e[j].at(k)==v[0].p[j]; EXPECT(ok,"vlist.makeEvent",d); } } }
      if(!checkSIMD(l,v,d)) break; }
    vf::distinct(d); if(c<2) vf::sample(d); }
  vf::require("vevents",300); }
#endif
// projections count every selected event once, with its weight
template<class List> static void projectOne(const List& l,const std::vector<M>& v,const EventType& t,const std::string& d){ auto& r=vf::rng(); unsigned i=r.range(0,t.size()-1),j=r.range(0,t.size()-2); if(j>=i) ++j; std::vector<unsigned> ix{i,j}; size_t nb=r.range(1,20); double lo=r.uni(-10,0),hi=r.uni(1,10); auto f=[ix](const Event& e){ return e.s(ix); }; Projection p(f,"s","s",nb,lo,hi,r.coin()? "GeV":""); Projection q([](const Event& e){ return e[2]; },"q","q",3,-2.,2.); bool sel=r.coin(),wf=r.coin(); std::function<bool(const Event&)> S=[](const Event& e){ return e[0]>0; }; std::function<double(const Event&)> Wf=[](const Event& e){ return e[1]*e[1]; };
  auto inS=[&](const M& m){ return !sel||m.p[0]>0; }; auto wt=[&](const M& m){ return m.w*(wf? m.p[1]*m.p[1]/m.g: 1.); }; auto bin=[](double x,double a,double b,int n){ return x<a? 0: x>=b? n+1: 1+int((x-a)/(b-a)*n); };
  std::vector<double> h(nb+2),h2((nb+2)*5); int used=0; for(auto& m: v) if(inS(m)){ Event e=toE(m); double x=e.s(ix); int b=bin(x,lo,hi,nb); h[b]+=wt(m); h2[b+(nb+2)*bin(m.p[2],-2,2,3)]+=wt(m); ++used; auto bf=p.binFunctor(); if(x>=lo&&x<hi) EXPECT(bf(e)==b-1,"projection.bin",d+vf::fmt(": %.17g falls in bin %d",x,bf(e))); else EXPECT(bf(e)<0||bf(e)>=int(nb),"projection.bin",d+vf::fmt(": %.17g outside [%.9g,%.9g) falls in bin %d of %zu",x,lo,hi,bf(e),nb)); EXPECT(p(e)==x,"projection.value",d); }
  TH1D* a=nullptr; TH2D* b2=nullptr; TH1D* a2=nullptr; quiet([&]{ if(sel&&wf){ a=p(l,PlotOptions::Selection(S),WeightFunction(Wf)); a2=l.makeProjection(p,PlotOptions::Selection(S),WeightFunction(Wf)); b2=Projection2D(p,q)(l,PlotOptions::Selection(S),WeightFunction(Wf)); } else if(sel){ a=p(l,PlotOptions::Selection(S)); a2=l.makeProjection(p,PlotOptions::Selection(S)); b2=l.makeProjection(Projection2D(p,q),ArgumentPack(PlotOptions::Selection(S))); } else if(wf){ a=p(l,WeightFunction(Wf)); a2=l.makeProjection(p,WeightFunction(Wf)); b2=l.makeProjection(Projection2D(p,q),ArgumentPack(WeightFunction(Wf))); } else { a=p(l); a2=l.makeProjection(p); b2=Projection2D(p,q)(l); } });
  auto cmp=[&](TH1* x,const std::vector<double>& w,const char* k){ bool ok=x->c.size()==w.size(); double big=0; for(auto y: w) big=std::max(big,std::abs(y)); for(size_t b=0;ok&&b<w.size();++b) ok=std::abs(x->c[b]-w[b])<=1e-9*(big+1); EXPECT(ok&&x->GetEntries()==used,k,d+vf::fmt(": %g entries of %d",x->GetEntries(),used)+" "+vf::vstr(x->c)+" expected "+vf::vstr(w)); }; cmp(a,h,"projection.1d"); cmp(a2,h,"projection.1d"); cmp(b2,h2,"projection.2d");
  KeyedFunctors<double(Event)> kf; kf.add([](const Event& e){ return e[1]*e[1]; },"one"); kf.add([](const Event& e){ return 2+e[2]*e[2]; },"two"); auto res=p(l,kf,PlotOptions::Norm(-1)); auto hs=std::get<0>(res); L want[2]={0,0}; for(auto& m: v){ Event e=toE(m); double x=e.s(ix); if(x<lo||x>=hi) continue; want[0]+=m.w*m.p[1]*m.p[1]/m.g; want[1]+=m.w*(2+m.p[2]*m.p[2])/m.g; } for(auto x: hs){ int k=std::string(x->GetName()).find("one")!=std::string::npos? 0: 1; EXPECT(std::abs(x->Integral()-want[k])<=1e-9*(1+std::abs(want[k]))+1e-9*(std::abs(want[0])+std::abs(want[1])),"projection.components",d+vf::fmt(": component %d integrates to %.9g, expected %.9Lg",k,x->Integral(),want[k])); delete x; } delete std::get<1>(res); delete a; delete a2; delete b2; vf::count("projections",3); }
static void projections(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(100,1500);++c){ vf::eval(); auto names=r.pick(TYPES); EventType t(names); std::vector<M> v=randList(r.range(0,15),4*t.size()); for(auto& m: v) for(auto& x: m.p) if(std::abs(x)>10) x=r.uni(-2,2); std::string d=vf::vstr(names)+vf::fmt(" x%zu",v.size()); vf::begin_case(d); vf::distinct(d+std::to_string(c)); auto l=toList(t,v); projectOne(l,v,t,d);
#if ENABLE_AVX
    EventListSIMD s(l); projectOne(s,v,t,d+", vector list");
#endif
    if(c%10==0){ std::vector<TH1D*> hs; quiet([&]{ hs=l.makeDefaultProjections(PlotOptions::Bins(7)); }); int n=t.size(); size_t want=0; for(int k=2;k<n;++k){ size_t q=1; for(int i=0;i<k;++i) q=q*(n-i)/(i+1); want+=q; } EXPECT(hs.size()==want,"projection.default",d+vf::fmt(": %zu projections, expected %zu",hs.size(),want)); for(auto h: hs){ EXPECT(h->GetEntries()==double(v.size()),"projection.default",d); delete h; } } }
  vf::require("projections",100); }
// trees written and read back
template<class List> static std::vector<M> fromList(const List& l){ std::vector<M> o; for(const auto e: l) o.push_back({e.data(),e.weight(),e.genPdf()}); return o; }
static bool equalLists(const std::vector<M>& a,const std::vector<M>& b,const std::string& key,const std::string& d){ if(!EXPECT(a.size()==b.size(),key,d+vf::fmt(": %zu events read, %zu expected",a.size(),b.size()))) return false; for(size_t i=0;i<a.size();++i) if(!EXPECT(a[i].p==b[i].p&&a[i].w==b[i].w&&a[i].g==b[i].g,key,d+vf::fmt(": event %zu read as ",i)+show(a[i])+", written as "+show(b[i]))) return false; vf::count("tree events",a.size()); return true; }
template<class List> static void treeOne(int c){ auto& r=vf::rng(); auto names=r.pick(TYPES); bool td=r.coin(0.3); EventType t(names,td); int n=t.size(); std::vector<M> v=randList(r.range(1,14),4*n+td); std::string d=vf::vstr(names)+(td? " with time":"")+vf::fmt(" x%zu",v.size()); vf::begin_case(d); vf::eval(); vf::distinct(d+std::to_string(c)); List l; 
  if constexpr(std::is_same_v<List,EventList>) l=toList(t,v); else l=List(toList(t,v)); TTree* tr=nullptr; quiet([&]{ tr=l.tree("tree"); }); if(!EXPECT(tr!=nullptr&&tr->GetEntries()==(long long)v.size(),"tree.write",d)) return;
  { List q(t); quiet([&]{ q.loadFromTree(tr,ArgumentPack(WeightBranch("weight"))); }); equalLists(fromList(q),v,"tree.read",d); }
  { List q; quiet([&]{ q.loadFromTree(tr,ArgumentPack()); }); auto w=v; for(auto& m: w) m.w=1; equalLists(fromList(q),w,"tree.deduced",d); EXPECT(q.eventType()==t&&q.eventType().isTimeDependent()==td,"tree.type",d); }
  { List q(t); std::vector<size_t> el; std::vector<M> w; for(int k=0;k<r.range(1,9);++k){ el.push_back(r.range(0,v.size()-1)); w.push_back(v[el.back()]); } quiet([&]{ q.loadFromTree(tr,ArgumentPack(WeightBranch("weight"),EntryList(el),GetGenPdf(true))); }); equalLists(fromList(q),w,"tree.entries",d+" entries "+vf::vstr(el)); }
  { List q(t); double cut=r.pick({-1e9,-1.,0.,1.,1e9}); auto f=t.getEventFormat(true); auto it=std::next(f.begin(),r.range(0,f.size()-1)); std::vector<M> w; for(auto& m: v) if(m.p[it->second]<cut) w.push_back(m); quiet([&]{ q.loadFromTree(tr,ArgumentPack(WeightBranch("weight"),Filter(it->first+"<"+vf::fmt("%.3f",cut)))); }); equalLists(fromList(q),w,"tree.filter",d+" filter "+it->first+vf::fmt("<%g",cut)); if(r.coin(0.3)){ List q2(t); quiet([&]{ q2.loadFromTree(tr,ArgumentPack(WeightBranch("weight"),EntryList(std::vector<size_t>{0}),Filter(it->first+"<"+vf::fmt("%.3f",cut)))); }); equalLists(fromList(q2),w,"tree.filter",d+" filter replacing an entry list"); } }
  if constexpr(std::is_same_v<List,EventList>){ if(!td){ std::vector<std::string> br; for(int i=0;i<n;++i) for(auto c: {"_Px","_Py","_Pz"}){ auto f=t.getEventFormat(true); for(auto& x: f) if(x.second/4==unsigned(i)&&x.first.size()>3&&x.first.compare(x.first.size()-3,3,c)==0) br.push_back(x.first); } List ex(t); for(auto& m: v){ Event e=toE(m); e.extendEvent(m.w*3); ex.push_back(e); } ex.extend("tag",4*n); TTree* tx=ex.tree("tx"); List q(t); quiet([&]{ q.loadFromTree(tx,ArgumentPack(WeightBranch("weight"),Branches(br),ExtraBranches(std::vector<std::string>{"tag"}),InputUnits(Units::MeV))); }); delete tx; auto w=fromList(q); bool ok=w.size()==v.size(); for(size_t i=0;ok&&i<v.size();++i){ for(int k=0;ok&&k<n;++k){ L p2=0; for(int x=0;x<3;++x){ L s=v[i].p[4*k+x]*1e-3L; ok=ok&&std::abs(w[i].p[4*k+x]-s)<=1e-12L*std::abs(s)+1e-300L; p2+=s*s; } L E=std::sqrt(p2+L(t.mass(k))*t.mass(k)); ok=ok&&std::abs(w[i].p[4*k+3]-E)<=1e-12L*E; } ok=ok&&w[i].p.size()==size_t(4*n+1)&&w[i].p[4*n]==v[i].w*3&&w[i].w==v[i].w&&q[i][q.key("tag")]==v[i].w*3; } EXPECT(ok,"tree.branches",d+": three-momenta in MeV read into "+(w.empty()? std::string("nothing"):show(w[0]))+" from "+show(v[0])); } }
  EXPECT(tr->outside==0,"tree.bounds",d+vf::fmt(": %lld entries outside the tree asked for",tr->outside)); delete tr; if(c<2) vf::sample(d); }
static void trees(){ for(int c=0;c<vf::scale(60,900);++c){ treeOne<EventList>(c);
#if ENABLE_AVX
    treeOne<EventListSIMD>(c);
#endif
  } vf::require("tree events",200); }
// containers refilled as they are read
static void dynamic(){ auto& r=vf::rng(); for(int c=0;c<vf::scale(200,3000);++c){ vf::eval(); size_t total=r.range(1,40),buf=r.range(1,12); int made=0,calls=0; DynamicContainer<int> dc(total,[&](std::vector<int>& v){ ++calls; for(size_t i=0;i<buf;++i) v.push_back(made++); }); std::string d=vf::fmt("%zu values in blocks of %zu",total,buf); vf::begin_case(d); vf::distinct(d); int k=0; bool mixed=r.coin(); for(auto it=dc.begin();it!=dc.end();){ if(!EXPECT(*it==k,"dynamic.value",d+vf::fmt(": value %d reads %d",k,*it))) break; ++k; if(mixed&&r.coin()){ const auto cit=it; it=++cit; } else ++it; } EXPECT(k==int(total),"dynamic.count",d+vf::fmt(": %d visited",k)); EXPECT(calls==int((total+buf-1)/buf),"dynamic.refill",d+vf::fmt(": filled %d times",calls)); EXPECT(dc.size()==total,"dynamic.size",d); vf::count("dynamic",k); } vf::require("dynamic",100); }
// cached function values
static Expression P(const std::string& n){ return Parameter(n); }
template<Alignment A,class List> static void cacheOne(const std::string& d,const EventType& t,const std::vector<M>& v,const List& l){ typedef std::conditional_t<std::is_same_v<List,EventList>,std::complex<double>,complex_v> CT; typedef std::conditional_t<std::is_same_v<List,EventList>,double,real_v> RT; static int id=0; std::string tag="c24_"+std::to_string(getpid())+"_"+std::to_string(id++);
  auto evt=t.getEventFormat(); MinuitParameterSet mps; auto a=mps.add("a",Flag::Free,1.25,0.1); Expression i(std::complex<double>(0,1)); Expression e1=P("0_Px")*P("1_E")+P("a")*i*P("0_Pz"), e2=P("1_Py")*P("1_Py")*P("a")-i*P("0_E");
  CompiledExpression<CT(const double*,const RT*)> f1(e1,tag+"f1",evt,&mps), f2(e2,tag+"f2",evt,&mps); f1.compile(vf::scratch()+"/"+tag+"1.so"); f2.compile(vf::scratch()+"/"+tag+"2.so"); f1.prepare(); f2.prepare(); CompiledExpression<void(CT*,const size_t*,const double*,const RT*)> f3(TensorExpression(Tensor({e1,e2,e1-e2},Tensor::dim(3))),tag+"f3",evt,&mps); f3.compile(vf::scratch()+"/"+tag+"3.so"); f3.prepare();
  FunctionCache<List,CT,A> cache; cache.allocate(&l,std::vector<CompiledExpression<CT(const double*,const RT*)>>{f1,f2}); cache.allocate(&l,f3);
  auto W=utils::size<CT>::value; auto fill=[&]{ f1.prepare(); f2.prepare(); f3.prepare(); cache.update(f1); cache.update(f3); cache.update(f2); };
  for(int k=0;k<3;++k){ if(k){ a->setVal(vf::rng().uni(-2,2)); } fill(); double av=a->mean(); auto g=[&](size_t e,int field){ return cache.template get<std::complex<double>>(e,field); }; auto ix1=cache.find(f1.name()),ix2=cache.find(f2.name()),ix3=cache.find(f3.name()); if(!EXPECT(ix1.size()==1&&ix2.size()==1&&ix3.size()==3&&cache.nFields()==5&&cache.size()==v.size(),"cache.fields",d)) return; for(size_t e=0;e<v.size();++e){ auto& p=v[e].p; std::complex<double> w1(p[0]*p[7],av*p[2]),w2(p[5]*p[5]*av,-p[3]); double sc=std::abs(w1)+std::abs(w2)+1; auto ck=[&](std::complex<double> x,std::complex<double> w,const char* n){ EXPECT(std::abs(x-w)<=1e-12*sc,"cache.value",d+vf::fmt(": %s of event %zu of %zu is ",n,e,v.size())+vf::str(x)+", expected "+vf::str(w)); }; ck(g(e,ix1[0]),w1,"first function"); ck(g(e,ix2[0]),w2,"second function"); ck(g(e,ix3[0]),w1,"component 0"); ck(g(e,ix3[1]),w2,"component 1"); ck(g(e,ix3[2]),w1-w2,"component 2"); vf::count("cached",5); } }
  (void)W; }
template<Alignment A> static void caches(const char* nm){ auto& r=vf::rng(); for(int c=0;c<vf::scale(2,6);++c){ vf::eval(); EventType t(r.pick(TYPES)); std::vector<M> v=randList(std::vector<int>{5,8,1,7,0,12}[c],4*t.size()); for(auto& m: v) for(auto& x: m.p) if(std::abs(x)>10) x=r.uni(-2,2); auto l=toList(t,v); std::string d=vf::fmt("%s, %zu events",nm,v.size()); vf::begin_case(d); vf::distinct(d+t.decayDescriptor()); quiet([&]{ 
#if ENABLE_AVX
      EventListSIMD s(l); cacheOne<A>(d+", vector list",t,v,s);
#else
      cacheOne<A>(d+", list",t,v,l);
#endif
    }); }
  // a cache made for a list has room for it
  { EventType t(TYPES[0]); auto l=toList(t,randList(5,16)); FunctionCache<EventList,double,A> q(&l,size_t(3)); EXPECT(q.size()==5&&q.nFields()==3&&q.size_raw()==15,"cache.room",vf::fmt("%zu entries",q.size())); }
  vf::require("cached",50); }
void harness(){ OptionsParser::setArg("EventType::SymmetriserSeed "+std::to_string(1+vf::seed()));
  vf::section("event",event);
#if ENABLE_AVX
  vf::section("simd",simd); vf::section("store.real.soa",[]{ stores<real_v,SoA>("real vectors, SoA"); }); vf::section("store.real.aos",[]{ stores<real_v,AoS>("real vectors, AoS"); }); vf::section("store.complex.soa",[]{ stores<complex_v,SoA>("complex vectors, SoA"); }); vf::section("store.complex.aos",[]{ stores<complex_v,AoS>("complex vectors, AoS"); }); vf::section("vlists",vlists);
#endif
  vf::section("store.double",[]{ stores<double,SoA>("doubles, SoA"); stores<double,AoS>("doubles, AoS"); stores<std::complex<double>,SoA>("complex, SoA"); });
  vf::section("iterator",[]{ iter<1>(); iter<2>(); iter<4>(); iter<8>(); vf::require("iterations",50); });
  vf::section("types",types); vf::section("lists",lists); vf::section("projections",projections); vf::section("trees",trees); vf::section("dynamic",dynamic); vf::section("cache.aos",[]{ caches<AoS>("AoS"); }); vf::section("cache.soa",[]{ caches<SoA>("SoA"); });
}
