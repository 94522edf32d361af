// Minimal runtime-monitor framework shared by all harnesses.
//  - every harness is a list of named sections; each section runs in its own forked process, so a
//    crash (sanitizer report, signal, exit) is attributed to the section and to the case in flight
//  - monitors call vf::expect(ok, key, detail); a failure is recorded, never thrown
//  - each section reports what it observed: evaluations, distinct non-trivial fingerprints, counters, samples
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <complex>
#include <cmath>
#include <sstream>
#include <iomanip>

namespace vf {
  struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed=1){ for(auto& x: s){ seed += 0x9e3779b97f4a7c15ULL; uint64_t z=seed; z=(z^(z>>30))*0xbf58476d1ce4e5b9ULL; z=(z^(z>>27))*0x94d049bb133111ebULL; x=z^(z>>31);} }
    uint64_t next(){ auto r=[](uint64_t x,int k){return (x<<k)|(x>>(64-k));}; uint64_t o=r(s[1]*5,7)*9,t=s[1]<<17; s[2]^=s[0];s[3]^=s[1];s[1]^=s[2];s[0]^=s[3];s[2]^=t;s[3]=r(s[3],45); return o; }
    double uni(){ return (next()>>11)*0x1.0p-53; }
    double uni(double a,double b){ return a+(b-a)*uni(); }
    int    range(int a,int b){ return a + int(next()%uint64_t(b-a+1)); } // inclusive
    bool   coin(double p=0.5){ return uni()<p; }
    double gauss(){ double u=uni()+1e-300,v=uni(); return std::sqrt(-2*std::log(u))*std::cos(6.283185307179586*v); }
    template<class C> auto& pick(C& c){ return c[next()%c.size()]; }
    template<class C> const auto& pick(const C& c){ return c[next()%c.size()]; }
    template<class T> T pick(std::initializer_list<T> c){ return *(c.begin()+next()%c.size()); }
    template<class C> void shuffle(C& c){ for(size_t i=c.size();i>1;--i) std::swap(c[i-1],c[next()%i]); }
  };
  Rng&  rng();                    // generator of the running section
  uint64_t seed();                // VERIF_SEED
  bool  thorough();               // tier
  int   scale(int quick,int thor);// case count
  void  begin_case(const std::string&); // what is in flight, for crash replay
  bool  expect(bool ok, const std::string& key, const std::string& detail);
  void  eval(uint64_t n=1);       // one case evaluated
  void  distinct(const std::string& fingerprint); // distinct non trivial case
  void  count(const std::string& name, uint64_t n=1);
  void  sample(const std::string&);
  void  require(const std::string& counter, uint64_t min); // the section must have observed at least so many
  void  section(const std::string& name, std::function<void()> f, int timeout_s=200);
  std::string fmt(const char*, ...) __attribute__((format(printf,1,2)));
  inline std::string str(double x){ return fmt("%.17g",x);} 
  inline std::string str(std::complex<double> x){ return fmt("(%.17g,%.17g)",x.real(),x.imag());} 
  template<class T> std::string vstr(const T& v){ std::ostringstream o; o<<std::setprecision(17)<<"["; bool f=true; for(const auto& x: v){ if(!f) o<<","; o<<x; f=false;} o<<"]"; return o.str(); }
  inline bool same_nan(double a,double b){ return std::isnan(a)&&std::isnan(b); }
  // relative to max(|a|,|b|,floor)
  inline bool close(double a,double b,double rtol,double floor=1e-300){ if(a==b) return true; if(std::isnan(a)||std::isnan(b)) return std::isnan(a)&&std::isnan(b); if(std::isinf(a)||std::isinf(b)) return false; return std::abs(a-b)<=rtol*std::max({std::abs(a),std::abs(b),floor}); }
  inline bool close(std::complex<double> a,std::complex<double> b,double rtol,double floor=1e-300){ if(a==b) return true; double d=std::abs(a-b); if(std::isnan(d)) return false; return d<=rtol*std::max({std::abs(a),std::abs(b),floor}); }
  bool expect_close(double a,double b,double rtol,const std::string& key,const std::string& what,double floor=1e-300);
  bool expect_close(std::complex<double> a,std::complex<double> b,double rtol,const std::string& key,const std::string& what,double floor=1e-300);
  // run f with stdout/stderr captured (the library reports errors there)
  std::string capture(std::function<void()> f);
  // run f in a forked child; returns wait status. Child stdout+stderr go to *out when given.
  int in_child(std::function<void()> f, std::string* out=nullptr, int timeout_s=60);
  std::string scratch(); // scratch directory of this run
}
// lazy forms: key and detail are only built on failure
#define EXPECT(c,k,d) ((c) ? true : vf::expect(false,(k),(d)))
#define CLOSE(a,b,tol,k,d,fl) ([&]()->bool{ auto a__=(a); auto b__=(b); return vf::close(a__,b__,(tol),(fl)) || vf::expect_close(a__,b__,(tol),(k),(d),(fl)); }())
void harness(); // defined by each harness: calls vf::section(...)
#endif
