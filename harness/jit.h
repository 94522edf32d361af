// random formulas over parameters and event variables, compiled at run time
#ifndef VF_JIT_H
#define VF_JIT_H
#include "exprgen.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/simd/utils.h"
#include "AmpGen/Tensor.h"
namespace eg {
static const int NP=5, NV=5;                         // parameters, event variables
// env layout: [0,NP) parameters m*, [NP,NP+NV) event variables, then 2 defaults, 2 lambdas, 1 compile time constant
static const int I_DEF=NP+NV, I_LAM=I_DEF+2, I_CTC=I_LAM+2, NENV=I_CTC+1;
struct World {
  MinuitParameterSet mps; std::vector<MinuitParameter*> p; Env env=Env(NENV); double lam[2]; std::map<std::string,unsigned> evt; Gen g;
  World(bool avx=false,bool links=true){
    auto& r=vf::rng();
    for(int i=0;i<NP;++i){ env[i]=r.uni(-2,2); p.push_back(mps.add("m"+std::to_string(i),Flag::Free,env[i],0.1)); }
    env[I_CTC]=r.uni(-2,2); p.push_back(mps.add("ctc",Flag::CompileTimeConstant,env[I_CTC],0.));
    for(int i=0;i<NV;++i) evt["x"+std::to_string(i)+"v"]=i;
    g.jit=true; g.avx=avx;
    for(int i=0;i<NP;++i) g.rl.push_back({Parameter("m"+std::to_string(i)),[i](const Env&e){return leaf(e[i]);},false,"m"+std::to_string(i)});
    for(int i=0;i<NV;++i) for(int d=0;d<2;++d) g.rl.push_back({Parameter("x"+std::to_string(i)+"v"),[i](const Env&e){return leaf(e[NP+i]);},false,"x"+std::to_string(i)+"v"});
    for(int i=0;i<2;++i){ env[I_DEF+i]=r.uni(-2,2); g.rl.push_back({Parameter("dflt"+std::to_string(i),env[I_DEF+i]),[i](const Env&e){return leaf(e[I_DEF+i]);},false,"dflt"+std::to_string(i)}); }
    for(int i=0;i<2;++i){ lam[i]=env[I_LAM+i]=r.uni(-2,2); double* q=&lam[i]; g.rl.push_back({LambdaExpression([q]{return *q;}),[i](const Env&e){return leaf(e[I_LAM+i]);},false,"lam"+std::to_string(i)}); }
    g.rl.push_back({Parameter("ctc"),[](const Env&e){return leaf(e[I_CTC]);},false,"ctc"});
    if(links){ for(int i=0;i<2;++i) g.rl.push_back({MinuitParameterLink(p[i]),[i](const Env&e){return leaf(e[i]);},false,"link(m"+std::to_string(i)+")"});
      g.rl.push_back({MinuitParameterLink(p[NP]),[](const Env&e){return leaf(e[I_CTC]);},false,"link(ctc)"});
      auto me=new MinuitExpression("mexpr",MinuitParameterLink(p[2])-MinuitParameterLink(p[3])); mps.add(me);
      g.rl.push_back({MinuitParameterLink(me),[](const Env&e){return add(leaf(e[2]),leaf(e[3]),-1);},false,"link(m2-m3)"}); }
    for(int i=0;i<2;++i){ int a=i, b=NP+i; g.cl.push_back({ComplexParameter(Parameter("m"+std::to_string(a)),Parameter("x"+std::to_string(i)+"v")),[a,b](const Env&e){return leaf(CL(e[a],e[b]));},true,"cplx(m"+std::to_string(a)+",x"+std::to_string(i)+"v)"}); }
  }
  void newParams(){ auto& r=vf::rng(); for(int i=0;i<NP;++i) if(r.coin(0.7)){ env[i]=r.uni(-2,2); p[i]->setVal(env[i]); } for(int i=0;i<2;++i) lam[i]=env[I_LAM+i]=r.uni(-2,2); }
  std::vector<double> newEvent(){ auto& r=vf::rng(); std::vector<double> e(NV); for(auto& x: e) x=r.uni(-2,2); return e; }
  Env at(const std::vector<double>& ev) const { Env e=env; for(int i=0;i<NV;++i) e[NP+i]=ev[i]; return e; }
};
// every result has to be complex for a complex slot
inline X cplx(const X& x){ return x; }
static const L JITTOL=2e-13L;
}
#endif
