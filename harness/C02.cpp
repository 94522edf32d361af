// C02: compiled functions against the independent evaluator, scalar / tensor / vectorised / batch
#include "jit.h"
#include <unordered_map>
#include <dlfcn.h>
#include <unistd.h>
using namespace eg;
typedef CompiledExpression<complex_t(const double*,const double*)> CE; typedef CompiledExpression<double(const double*,const double*)> RE;
typedef CompiledExpression<void(complex_t*,const size_t*,const double*,const double*)> TE; typedef CompiledExpression<std::vector<complex_t>(const double*,const double*)> VE;
static int fileno_=0; static std::string newfile(){ return vf::scratch()+"/f"+std::to_string(getpid())+"_"+std::to_string(fileno_++)+".cpp"; }
static X gen_sized(Gen& g,bool c,int d,size_t maxlen){ for(;;){ X x=g.gen(c,d); if(x.s.size()<maxlen && x.e.to_string().size()<6*maxlen) return x; } }
static bool ref(const X& x,const Env& e,Val& v){ try { v=x.f(e); } catch(Skip&){ vf::count("skipped"); return false; } return true; }
// many functions of complex and real type in one library; single calls and batches; parameter changes
static void scalars(int rounds,int K,int dmin,int dmax){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    World w; std::vector<X> xs; std::vector<CompiledExpressionBase*> fs; std::vector<CE*> ce; std::vector<RE*> re; std::string all;
    for(int i=0;i<K;++i){ bool c=r.coin(0.6); X x=gen_sized(w.g,c,r.range(dmin,dmax),1500); xs.push_back(x); std::string nm="fcn_"+std::to_string(it)+"_"+std::to_string(i); all+=nm+" = "+x.s+"\n";
      if(c||x.cplx){ ce.push_back(new CE(x.e,nm,w.evt,&w.mps)); re.push_back(nullptr); fs.push_back(ce.back()); } else { re.push_back(new RE(x.e,nm,w.evt,&w.mps)); ce.push_back(nullptr); fs.push_back(re.back()); } }
    vf::begin_case(all); if(it<1) vf::sample(xs[0].s);
    CompilerWrapper cw; cw.compile(fs,newfile());
    for(int pset=0;pset<3;++pset){
      if(pset) { w.newParams(); }
      for(auto f: fs) f->prepare();
      int N=6; std::vector<std::vector<double>> evs; std::vector<double> flat; for(int i=0;i<N;++i){ evs.push_back(w.newEvent()); flat.insert(flat.end(),evs.back().begin(),evs.back().end()); }
      for(int i=0;i<K;++i){
        if(!EXPECT(fs[i]->isReady(),"not.ready",xs[i].s)) continue;
        std::vector<complex_t> cb(2*N,complex_t(-77,-77)); std::vector<double> rb(2*N,-77); auto ext=fs[i]->externBuffer();
        if(ce[i]) ce[i]->batch(size_t(N),size_t(NV),size_t(2),cb.data(),ext.data(),flat.data()); else re[i]->batch(size_t(N),size_t(NV),size_t(2),rb.data(),ext.data(),flat.data());
        for(int e=0;e<N;++e){ Val v; if(!ref(xs[i],w.at(evs[e]),v)) continue; complex_t got= ce[i]? (*ce[i])(evs[e].data()): complex_t((*re[i])(evs[e].data()));
          std::string ds=xs[i].s+" at "+vf::vstr(w.at(evs[e])); if(judge(got,v,true,ce[i]?"complex":"real",ds,JITTOL)){ vf::count("judged"); vf::distinct(xs[i].s); }
          complex_t b= ce[i]? cb[2*e]: complex_t(rb[2*e]); judge(b,v,true,"batch",ds,JITTOL); EXPECT(ce[i]? cb[2*e+1]==complex_t(-77,-77): rb[2*e+1]==-77,"batch.overrun",ds); } } }
    for(auto f: fs) delete f;
  }
  vf::require("judged",rounds*K*4);
}
// a tensor of formulas sharing sub-expressions: through the output pointer (with offsets and batches) and as a vector
static X dag(World& w,std::vector<X>& pool,int n){ auto& r=vf::rng(); for(int i=0;i<n;++i){ X a= r.coin(0.6)&&!pool.empty()? r.pick(pool): w.g.gen(r.coin(),1), b= r.coin(0.7)&&!pool.empty()? r.pick(pool): w.g.gen(r.coin(),1); static const char* ops[]={"+","-","*"}; X x=w.g.bin(ops[r.range(0,2)],a,b); if(r.coin(0.6)||true){ // bounded
      X q=w.g.positive(x,1.0); x=w.g.bin("/",x,q); } if(Gen::nonfinite(x.e)){ --i; continue; } x.e=make_cse(x.e,r.coin(0.3)); if(x.s.size()>1500){ X y=r.pick(w.g.rl); x.s="dag"+std::to_string(i)+"{"+x.s.substr(0,300)+"...}"; } pool.push_back(x); } return pool.back(); }
static void tensors(int rounds,int K){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    World w; std::vector<X> xs, pool; if(it%2==0){ dag(w,pool,r.range(10,30)); } std::vector<Expression> el; std::string all;
    for(int i=0;i<K;++i){ X x= it%2==0&&r.coin(0.6)? w.g.bin("*",r.pick(pool),r.coin()? r.pick(pool): w.g.gen(true,2)): gen_sized(w.g,true,r.range(1,4),900); xs.push_back(x); el.push_back(x.e); all+=x.s+"\n"; }
    vf::begin_case(all); if(it<1) vf::sample(xs[0].s);
    Tensor t(el,std::vector<unsigned>{unsigned(K)}); TE te(TensorExpression(t),"tensor_"+std::to_string(it),w.evt,&w.mps); VE ve(TensorExpression(t),"vec_"+std::to_string(it),w.evt,&w.mps,disableBatch(),includeParameters());
    EXPECT(te.returnTypeSize()==K*sizeof(complex_t),"returnTypeSize",std::to_string(te.returnTypeSize()));
    std::string file=newfile(); std::vector<CompiledExpressionBase*> fs={&te,&ve}; CompilerWrapper().compile(fs,file); 
    auto ext0=ve.externBuffer(); Env env0=w.env;
    DynamicFCN<std::vector<complex_t>(const double*)> wp(file.substr(0,file.size()-3)+"so",ve.progName()+"_wParams");
    for(int pset=0;pset<2;++pset){ if(pset) w.newParams(); te.prepare(); ve.prepare(); auto ext=te.externBuffer();
      int N=4; std::vector<std::vector<double>> evs; std::vector<double> flat; for(int i=0;i<N;++i){ evs.push_back(w.newEvent()); flat.insert(flat.end(),evs.back().begin(),evs.back().end()); }
      // batch with a field-major layout: event stride 1, field stride N
      std::vector<complex_t> out(K*N+2,complex_t(-77,0)); std::vector<size_t> off(K), id(K); for(int k=0;k<K;++k){ off[k]=size_t(k)*N; id[k]=k; } std::vector<size_t> perm=id; r.shuffle(perm);
      te.batch(size_t(N),size_t(NV),size_t(1),(void*)nullptr,out.data(),(const size_t*)off.data(),(const double*)ext.data(),(const double*)flat.data());
      EXPECT(out[K*N]==complex_t(-77,0),"tensor.batch.overrun",all);
      for(int e=0;e<N;++e){ std::vector<complex_t> one(K+1,complex_t(-77,0)); te(one.data(),perm.data(),ext.data(),evs[e].data()); std::vector<complex_t> vec=ve(evs[e].data()); EXPECT(vec.size()==size_t(K),"vector.size",std::to_string(vec.size())); EXPECT(one[K]==complex_t(-77,0),"tensor.overrun",all);
        std::vector<complex_t> wpv; if(wp.isLinked()) wpv=wp(evs[e].data()); else vf::expect(false,"wParams.link",all);
        for(int k=0;k<K;++k){ Val v; Env env=w.at(evs[e]); if(ref(xs[k],env,v)){ std::string ds=xs[k].s+" at "+vf::vstr(env); if(judge(one[perm[k]],v,true,"tensor",ds,JITTOL)){ vf::count("judged"); vf::distinct(xs[k].s+std::to_string(it)); } judge(out[k*N+e],v,true,"tensor.batch",ds,JITTOL); judge(vec[k],v,true,"vector",ds,JITTOL); }
          Env e0=env0; for(int i=0;i<NV;++i) e0[NP+i]=evs[e][i]; if(!wpv.empty() && ref(xs[k],e0,v)) judge(wpv[k],v,true,"wParams",xs[k].s+" at "+vf::vstr(e0),JITTOL); } } }
  }
  vf::require("judged",rounds*K);
}
#if INSTRUCTION_SET != 0
typedef CompiledExpression<void(complex_v*,const size_t*,const double*,const real_v*)> AE; typedef CompiledExpression<real_v(const double*,const real_v*)> ARE; typedef CompiledExpression<complex_v(const double*,const real_v*)> ACE;
static void vectorised(int rounds,int K){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    World w(true); std::vector<X> xs; std::vector<Expression> el; std::string all;
    for(int i=0;i<K;++i){ X x=gen_sized(w.g,true,r.range(1,4),900); if(!x.cplx) x=w.g.bin("+",x,w.g.kplx(CD(0.25,0.5))); if(!x.cplx){ --i; continue; } // make sure the event is involved, so that the value is a vector
      x=w.g.bin("+",x,w.g.bin("*",w.g.kplx(CD(0.5,0.25)),w.g.rl[NP+2*(i%NV)])); if(r.coin(0.3)) switch(r.range(0,5)){ case 0: x=w.g.konst(r.coin(0.3)? 0: r.uni(-2,2)); break; case 1: x=w.g.kplx(CD(r.uni(-2,2),r.uni(-2,2))); break; case 2: x=r.pick(w.g.rl); break; case 3: x=w.g.bin("*",r.pick(w.g.rl),r.pick(w.g.rl)); break; case 4: x=w.g.bin(r.coin()? "+": "-",r.pick(w.g.rl),w.g.konst(r.uni(-2,2))); break; default: x=w.g.bin(r.coin()? "*": "+",w.g.kplx(CD(r.uni(-2,2),r.uni(-2,2))),r.pick(w.g.rl)); } /* constants, parameters and real values among the results */ xs.push_back(x); el.push_back(x.e); all+=x.s+"\n"; }
    vf::begin_case(all); if(it<1) vf::sample(xs[0].s);
    Tensor t(el,std::vector<unsigned>{unsigned(K)}); AE ae(TensorExpression(t),"avx_"+std::to_string(it),w.evt,&w.mps); ae.compile(newfile());
    X rx=w.g.bin("+",gen_sized(w.g,false,3,600),w.g.rl[NP]); if(rx.cplx) rx=w.g.rl[NP]; ARE are(rx.e,"avxr_"+std::to_string(it),w.evt,&w.mps); are.compile(newfile());
    if(!EXPECT(ae.isReady()&&are.isReady(),"avx.not.ready",all+rx.s)) continue;
    for(int pset=0;pset<2;++pset){ if(pset) w.newParams(); ae.prepare(); are.prepare(); auto ext=ae.externBuffer(), extr=are.externBuffer(); extr.push_back(0); ext.push_back(0);
      const unsigned W=real_v::size; int B=2; std::vector<std::vector<double>> evs; for(unsigned i=0;i<W*B;++i) evs.push_back(w.newEvent());
      std::vector<real_v> in(NV*B); for(int b=0;b<B;++b) for(int v=0;v<NV;++v) for(unsigned l=0;l<W;++l) in[b*NV+v].to_ptr()[l]=evs[b*W+l][v];
      std::vector<complex_v> out(K*B+1,complex_v(real_v(-77.),real_v(0.))); std::vector<size_t> off(K), id(K); for(int k=0;k<K;++k){ off[k]=size_t(k)*B; id[k]=k; }
      ae.batch(size_t(B),size_t(NV),size_t(1),(void*)nullptr,out.data(),(const size_t*)off.data(),(const double*)ext.data(),(const real_v*)in.data());
      std::vector<real_v> ro(B); are.batch(size_t(B),size_t(NV),size_t(1),ro.data(),(const double*)extr.data(),(const real_v*)in.data());
      EXPECT(out[K*B].real().at(0)==-77.,"avx.overrun",all);
      for(int b=0;b<B;++b){ std::vector<complex_v> one(K); ae(one.data(),id.data(),ext.data(),in.data()+b*NV); real_v rone=are(extr.data(),in.data()+b*NV);
        for(unsigned l=0;l<W;++l){ Env env=w.at(evs[b*W+l]); Val v; for(int k=0;k<K;++k) if(ref(xs[k],env,v)){ std::string ds=xs[k].s+" lane "+std::to_string(l)+" at "+vf::vstr(env); v.e*=4; v.e2*=4; if(judge(utils::at(one[k],l),v,true,"avx",ds,4e-13L)){ vf::count("judged"); vf::distinct(xs[k].s); } judge(utils::at(out[k*B+b],l),v,true,"avx.batch",ds,4e-13L); }
          if(ref(rx,env,v)){ v.e*=4; v.e2*=4; judge(CD(rone.at(l)),v,true,"avx.real",rx.s+" at "+vf::vstr(env),4e-13L); judge(CD(ro[b].at(l)),v,true,"avx.real.batch",rx.s+" at "+vf::vstr(env),4e-13L); } } } }
  }
  vf::require("judged",rounds*K*4);
}
#endif
// values reported for debugging are those of the named expressions, and asking for them does not change the function
#if INSTRUCTION_SET != 0
typedef complex_v DV; typedef real_v DR; static DR lanes(const std::vector<std::vector<double>>& evs,int v){ DR x; for(unsigned l=0;l<DR::size;++l) x.to_ptr()[l]=evs[l][v]; return x; } static const int NL=real_v::size;
#else
typedef complex_t DV; typedef double DR; static DR lanes(const std::vector<std::vector<double>>& evs,int v){ return evs[0][v]; } static const int NL=1;
#endif
typedef CompiledExpression<DV(const double*,const DR*)> DE; typedef CompiledExpression<void(DV*,const size_t*,const double*,const DR*)> DTE; typedef std::vector<std::pair<std::string,DV>> DB;
static void debugged(int rounds){
  auto& r=vf::rng();
  for(int it=0;it<rounds;++it){
    World w(true); std::vector<X> pool; dag(w,pool,r.range(4,12)); std::vector<X> xs; std::vector<std::string> nm; DebugSymbols db; std::string all; auto vec=[&](X x){ return w.g.bin("+",x,w.g.bin("*",w.g.kplx(CD(0.5,0.25)),w.g.rl[NP+2*(it%NV)])); };
    X main=vec(w.g.bin("*",r.pick(pool),gen_sized(w.g,true,3,600))); for(int i=0;i<8;++i){ X x= i==0? main: i<4? vec(w.g.bin("*",r.pick(pool),r.pick(pool))): vec(gen_sized(w.g,true,r.range(1,3),500)); if(i==5) x=r.pick(w.g.rl); if(i==6) x=w.g.konst(r.uni(-2,2)); if(i==7) x=w.g.kplx(CD(r.uni(-2,2),r.uni(-2,2))); xs.push_back(x); nm.push_back(r.coin(0.4)? r.pick({"m1","coupling","p(1)[2].x"}): "value "+std::to_string(i)); /* labels repeat in real amplitudes */ db.emplace_back(nm.back(),x.e); all+=x.s+"\n"; }
    vf::begin_case(all); bool tens=it%2; std::string file=newfile(); Tensor t(std::vector<Expression>{main.e,xs[2].e},std::vector<unsigned>{2});
    DE de(main.e,"dbg_"+std::to_string(it),w.evt,&w.mps,db); DTE te(TensorExpression(t),"dbgt_"+std::to_string(it),w.evt,&w.mps,db); CompiledExpressionBase* f= tens? (CompiledExpressionBase*)&te: (CompiledExpressionBase*)&de; f->compile(file); if(!EXPECT(f->isReady(),"debug.ready",all)) continue;
    std::string so=file+"_"+std::to_string(f->hash())+".so"; DynamicFCN<DB(const double*,const DR*)> d1; DynamicFCN<DB(DV*,const size_t*,const double*,const DR*)> d2; { void* h=dlopen(so.c_str(),RTLD_NOW); if(!EXPECT(h!=nullptr,"debug.open",so)) continue; EXPECT(tens? d2.set(h,f->progName()+"_DB"): d1.set(h,f->progName()+"_DB"),"debug.symbol",f->progName()); }
    for(int pset=0;pset<2;++pset){ if(pset) w.newParams(); f->prepare(); auto ext=f->externBuffer(); ext.push_back(0); std::vector<std::vector<double>> evs; for(int l=0;l<NL;++l) evs.push_back(w.newEvent()); std::vector<DR> in; for(int v=0;v<NV;++v) in.push_back(lanes(evs,v));
      DB got= tens? d2(nullptr,nullptr,ext.data(),in.data()): d1(ext.data(),in.data()); if(!EXPECT(got.size()==xs.size(),"debug.count",std::to_string(got.size()))) continue; std::vector<DV> out(2); size_t id[2]={0,1}; if(tens) te(out.data(),id,ext.data(),in.data()); else out[0]=de(ext.data(),in.data());
      for(size_t k=0;k<xs.size();++k){ EXPECT(got[k].first==nm[k],"debug.name",got[k].first+" for "+nm[k]); for(int l=0;l<NL;++l){ Env env=w.at(evs[l]); Val v; if(!ref(xs[k],env,v)) continue; v.e*=4; v.e2*=4; std::string ds=xs[k].s+" at "+vf::vstr(env); auto at=[&](const DV& x)->complex_t{ 
#if INSTRUCTION_SET != 0
          return utils::at(x,l);
#else
          return x;
#endif
          }; if(judge(at(got[k].second),v,true,"debug.value",ds,4e-13L)){ vf::count("judged"); vf::distinct(xs[k].s); } if(k==0) judge(at(out[0]),v,true,"debug.function",ds,4e-13L); if(k==2&&tens) judge(at(out[1]),v,true,"debug.tensor",ds,4e-13L); } }
      std::string o=vf::capture([&]{ if(tens) te.debug(in.data()); else de.debug(in.data()); }); for(auto& n: nm) EXPECT(o.find(n)!=std::string::npos,"debug.print",n+" in "+o); }
  }
  vf::require("judged",rounds*8);
}
// constants survive with all their digits; sub-expressions that differ only in late digits stay apart
static void constants(){
  auto& r=vf::rng(); World w; std::vector<X> xs; std::vector<Expression> el;
  for(int i=0;i<vf::scale(60,300);++i){ double k=r.uni(-3,3)*std::pow(10.,r.range(-12,12)); double k2=k*(1+std::pow(10.,-r.range(7,14))); X a=w.g.bin("*",w.g.konst(k),w.g.rl[NP]); X b=w.g.bin("*",w.g.konst(k2),w.g.rl[NP]); X sa={make_cse(a.e),a.f,false,a.s}, sb={make_cse(b.e),b.f,false,b.s}; xs.push_back(sa); xs.push_back(sb); X d=w.g.bin("-",sb,sa); d.f=[fa=a.f,fb=b.f](const Env&x){ Val p=fa(x),q=fb(x); Val v=add(q,p,-1); return v; }; X z=w.g.kplx(CD(k,k2)); xs.push_back(w.g.bin("+",z,w.g.rl[NP+2])); }
  for(auto& x: xs) el.push_back(x.e); unsigned K=xs.size(); Tensor t(el,std::vector<unsigned>{K}); TE te(TensorExpression(t),"constants",w.evt,&w.mps); std::vector<CompiledExpressionBase*> fs={&te}; CompilerWrapper().compile(fs,newfile()); te.prepare(); std::vector<size_t> id(K); for(unsigned k=0;k<K;++k) id[k]=k; auto ext=te.externBuffer(); ext.push_back(0);
  for(int e=0;e<5;++e){ auto ev=w.newEvent(); std::vector<complex_t> out(K); te(out.data(),id.data(),ext.data(),ev.data()); for(unsigned k=0;k<K;++k){ Val v; if(ref(xs[k],w.at(ev),v)){ vf::eval(); vf::distinct(xs[k].s); CLOSE(out[k],CD(v.v),1e-15*8,"constant",xs[k].s,1e-300); } } }
}
// different sub-expressions never share a name in the generated code
static void collisions(){
  auto& r=vf::rng(); std::unordered_map<unsigned,int> seen; std::vector<std::pair<int,int>> pairs; auto nm=[](int i){ return "h"+std::to_string(i); };
  for(int i=0;i<400000&&pairs.size()<4;++i){ unsigned h=FNV1a_hash("sin("+nm(i)+")"); auto it=seen.find(h); if(it!=seen.end()) pairs.push_back({it->second,i}); else seen[h]=i; }
  vf::count("colliding_texts",pairs.size());
  for(auto& [i,j]: pairs){ double a=r.uni(-2,2), b=r.uni(-2,2); Expression e=make_cse(fcn::sin(Parameter(nm(i),a)))+2*make_cse(fcn::sin(Parameter(nm(j),b))); RE f(e,"coll"+std::to_string(i)); std::vector<CompiledExpressionBase*> fs={&f}; CompilerWrapper().compile(fs,newfile()); f.prepare(); double x=0; vf::eval(); vf::distinct(nm(i)+nm(j)); CLOSE(f(&x),std::sin(a)+2*std::sin(b),1e-13,"collision",nm(i)+" "+nm(j),1e-12); }
  // two lambdas of the same type, two parameters with equal values, two spellings of one value
  for(int k=0;k<4;++k){ std::vector<double> v(4); for(auto& x: v) x=r.uni(-2,2); std::vector<Expression> l; for(auto& x: v){ double* p=&x; l.push_back(LambdaExpression([p]{return *p;})); } Expression e=make_cse(l[0]*l[0])+3*make_cse(l[1]*l[1],true)-make_cse(fcn::sin(l[2]))*make_cse(fcn::sin(l[3])); RE f(e,"lams"+std::to_string(k)); std::vector<CompiledExpressionBase*> fs={&f}; CompilerWrapper().compile(fs,newfile());
    for(int q=0;q<3;++q){ for(auto& x: v) x=r.uni(-2,2); f.prepare(); double x=0; vf::eval(); vf::distinct(vf::vstr(v)); CLOSE(f(&x),v[0]*v[0]+3*v[1]*v[1]-std::sin(v[2])*std::sin(v[3]),1e-13,"lambdas",vf::vstr(v),1e-12); CLOSE(e().real(),v[0]*v[0]+3*v[1]*v[1]-std::sin(v[2])*std::sin(v[3]),1e-13,"lambdas.eval",vf::vstr(v),1e-12); } }
  for(int k=0;k<4;++k){ MinuitParameterSet mps; auto p=mps.add("p",Flag::Free,1.5,0.1), q=mps.add("q",Flag::Free,1.5,0.1); Expression e=make_cse(fcn::sin(MinuitParameterLink(p)))+3*make_cse(fcn::sin(MinuitParameterLink(q)),k%2); RE f(e,"eqp"+std::to_string(k),&mps); std::vector<CompiledExpressionBase*> fs={&f}; CompilerWrapper().compile(fs,newfile()); for(int t=0;t<3;++t){ double a=r.uni(-2,2),b=r.uni(-2,2); p->setVal(a); q->setVal(b); f.prepare(); double x=0; vf::eval(); CLOSE(f(&x),std::sin(a)+3*std::sin(b),1e-13,"equal.parameters",vf::str(a)+" "+vf::str(b),1e-12); } }
}
// Function nodes: user functions called by name, with arguments that are parameters
static void functions(){
  auto& r=vf::rng();
  for(int k=0;k<vf::scale(3,12);++k){ MinuitParameterSet mps; auto p=mps.add("p",Flag::Free,r.uni(0.2,2),0.1), q=mps.add("q",Flag::Free,r.uni(0.2,2),0.1); std::map<std::string,unsigned> evt={{"x",0}};
    Expression e=Function("std::hypot",{Parameter("p"),Parameter("x")*2.})+make_cse(Function("std::fmax",{Parameter("q"),Parameter("x")}))*Function("std::cbrt",{MinuitParameterLink(q)}); RE f(e,"fun"+std::to_string(k),evt,&mps); std::vector<CompiledExpressionBase*> fs={&f}; CompilerWrapper().compile(fs,newfile());
    for(int t=0;t<4;++t){ double x=r.uni(-2,2); p->setVal(r.uni(0.2,2)); q->setVal(r.uni(0.2,2)); f.prepare(); vf::eval(); vf::distinct(vf::str(x)); if(!EXPECT(f.isReady(),"function.ready","")) break; CLOSE(f(&x),std::hypot(p->mean(),2*x)+std::fmax(q->mean(),x)*std::cbrt(q->mean()),1e-12,"function",vf::str(x),1e-12); } }
}
// parameters frozen into the code
static void compiletime(int rounds){
  OptionsParser::getMe()->setQuiet(); OptionsParser::setArg("ASTResolver::CompileTimeConstants true"); auto& r=vf::rng();
  for(int it=0;it<rounds;++it){ World w; double tiny= it%2? 1e-9*r.uni(1,9): -r.uni(1,9)*1e7; w.env[I_CTC]=tiny; w.p[NP]->setVal(tiny); std::vector<X> xs; std::vector<Expression> el; std::string all; for(int i=0;i<12;++i){ X x=gen_sized(w.g,true,r.range(1,3),600); X c=r.coin()? w.g.rl[NP+2*NV+4]: w.g.rl[w.g.rl.size()-2]; x=w.g.bin(i%2?"-":"*",x,c); xs.push_back(x); el.push_back(x.e); all+=x.s+"\n"; } vf::begin_case(all); if(it<1) vf::sample(xs[0].s);
    unsigned K=el.size(); Tensor t(el,std::vector<unsigned>{K}); TE te(TensorExpression(t),"ct"+std::to_string(it),w.evt,&w.mps); std::vector<CompiledExpressionBase*> fs={&te}; CompilerWrapper().compile(fs,newfile()); te.prepare(); std::vector<size_t> id(K); for(unsigned k=0;k<K;++k) id[k]=k;
    for(int pset=0;pset<2;++pset){ if(pset) w.newParams(); te.prepare(); auto ext=te.externBuffer(); ext.push_back(0); for(int e=0;e<3;++e){ auto ev=w.newEvent(); std::vector<complex_t> out(K); te(out.data(),id.data(),ext.data(),ev.data()); for(unsigned k=0;k<K;++k){ Val v; if(ref(xs[k],w.at(ev),v)&&judge(out[k],v,true,"compiletime",xs[k].s+" at "+vf::vstr(w.at(ev)),JITTOL)) { vf::count("judged"); vf::distinct(xs[k].s); } } } } 
    // without a parameter set every unresolved parameter takes its default value
    double d=-r.uni(1e-8,2e-8); Expression e=Parameter("y")-Parameter("unk",d)*1e8; std::map<std::string,unsigned> evt={{"y",0}}; RE f(e,"ctd"+std::to_string(it),evt); std::vector<CompiledExpressionBase*> f2={&f}; CompilerWrapper().compile(f2,newfile()); f.prepare(); double y=r.uni(-2,2); vf::eval(); if(EXPECT(f.isReady(),"compiletime.default.ready","")) CLOSE(f(&y),y-d*1e8,1e-12,"compiletime.default",vf::str(d),1e-12); }
}
void harness(){
  vf::section("debugged",[]{ debugged(vf::scale(6,40)); },900);
#if INSTRUCTION_SET == 0
  if(!vf::thorough()) return; // the other sections run with vector types in the quick tier
#endif
  vf::section("constants",constants,600); vf::section("collisions",collisions,600); vf::section("functions",functions,600);
  vf::section("compiletime",[]{ compiletime(vf::scale(3,20)); },900);
  int sh=vf::scale(2,8);
  for(int i=0;i<sh;++i){ std::string k=std::to_string(i);
#if INSTRUCTION_SET != 0
    vf::section("vector"+k,[=]{ vectorised(vf::scale(3,15),16); },1500);
#endif
    vf::section("deep"+k,[=]{ scalars(vf::scale(1,6),12,4,6); },1500);
    vf::section("scalar"+k,[=]{ scalars(vf::scale(3,15),24,1,4); },1500);
    vf::section("tensor"+k,[=]{ tensors(vf::scale(3,15),14); },1500); }
}
