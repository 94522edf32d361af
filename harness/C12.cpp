// C12: options files, command line and typed access against a model that knows what was written
#include "vf.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Utilities.h"
#include <map>
#include <set>
#include <fstream>
#include <unistd.h>
#include <limits>
using namespace AmpGen;
using Tokens=std::vector<std::string>;
static std::string vs(const Tokens& v){ std::string s="["; for(auto& x: v) s+="\""+x+"\","; return s+"]"; }
struct Model { std::map<std::string,Tokens> m; std::vector<std::string> order; void add(const Tokens& t){ if(t.empty()) return; if(!m.count(t[0])) order.push_back(t[0]); m[t[0]]=t; } };
static std::string key(){ auto& r=vf::rng(); return r.pick({"Alpha","Beta","nEvents","Gen::Phsp","x","K(1)(1270)+_mass","D0{K-,pi+}","Very::Long::Option::Name","a_b","Z9"})+(r.coin(0.4)?std::to_string(r.range(0,6)):""); }
static std::string plain(){ auto& r=vf::rng(); switch(r.range(0,7)){ case 0: return std::to_string(r.range(-50,50)); case 1: return vf::fmt("%.*g",r.range(1,17),r.gauss()*std::pow(10,r.range(-12,12))); case 2: return r.pick({"true","false","1","0"}); case 3: return r.pick({"D0{K*(892)0{K+,pi-},pi0}","D+{K-,pi+,pi+}","X{a,b{c,d}}","{a,b}"}); case 4: return r.pick({"*","=","+","a=b","-","--x","'q'","/tmp/x.root","a:b","\\n","$x","%","a*","é"}); case 5: return std::to_string(r.next()); default: { std::string s; int n=r.range(1,8); for(int i=0;i<n;++i) s+="abcXYZ019_.,:()[]"[r.range(0,16)]; return s; } } }
static std::string blank(int mn=1){ auto& r=vf::rng(); std::string s; int n=r.range(mn,3); for(int i=0;i<n;++i) s+=r.coin(0.8)?' ':'\t'; return s; }
static std::string quotedText(){ auto& r=vf::rng(); std::string s; int n=r.range(1,10); for(int i=0;i<n;++i) s+="ab #{}=* \tZ"[r.range(0,10)]; size_t a=0; if(s=="{"||s=="}") s+="x"; (void)a; return s; }
static std::string comment(){ auto& r=vf::rng(); return std::string("#")+r.pick({""," note","Alpha 3"," { open"," } close"," \"quote","# x"}); }
// an option as written: one or several lines
static std::string render(const Tokens& t,const std::vector<bool>& quoted){ auto& r=vf::rng(); auto w=[&](size_t i){ return quoted[i]? "\""+t[i]+"\"": t[i]; }; auto eol=[&]{ return std::string(r.coin(0.15)? blank(0)+comment(): r.coin(0.1)?blank(0):"")+(r.coin(0.1)?"\r":"")+"\n"; };
  std::string s= r.coin(0.15)?blank(0):""; s+=w(0);
  if(t.size()>1&&r.coin(0.25)){ // continued over lines in braces
    s+=blank()+"{"; if(r.coin(0.7)) s+=eol(); else s+=blank(); bool start=s.back()=='\n';
    for(size_t i=1;i<t.size();++i){ if(start&&r.coin(0.2)) s+= r.coin()? "# inner comment { \n": "\n"; std::string x=w(i); s+=(start&&x[0]!='*'&&x[0]!='#'&&r.coin()?"":blank())+x; if(r.coin(0.5)){ s+=eol(); start=true; } else { s+=blank(); start=false; } }
    s+=(r.coin()?"":blank(0))+"}"+eol(); return s; }
  for(size_t i=1;i<t.size();++i) s+=blank()+w(i); return s+eol(); }
static std::pair<Tokens,std::vector<bool>> option(){ auto& r=vf::rng(); Tokens t{key()}; std::vector<bool> q{r.coin(0.05)}; int n= r.coin(0.05)?0: r.coin(0.5)?1: r.range(1,6); for(int i=0;i<n;++i){ bool qq=r.coin(0.2); t.push_back(qq?quotedText():plain()); q.push_back(qq); } return {t,q}; }
static int fileNo=0;
static std::string writeFile(Model& m,int depth,std::string* all){ auto& r=vf::rng(); std::string f=vf::scratch()+"/c12_"+std::to_string(getpid())+"_"+std::to_string(fileNo++)+".opt"; std::string s; int n=r.range(0,7); for(int i=0;i<n;++i){ switch(r.range(0,9)){ case 0: s+="\n"; break; case 1: s+=comment()+"\n"; break; case 2: s+=std::string("* ")+key()+" 7\n"; break; case 3: s+=blank()+"\n"; break;
    case 4: if(depth>0){ auto g=writeFile(m,depth-1,all); if(r.coin(0.3)){ setenv("VFC12",vf::scratch().c_str(),1); g="${VFC12}"+g.substr(vf::scratch().size()); } s+="Import "+g+(r.coin(0.2)?"  # imported":"")+"\n"; } break;
    case 5: if(r.coin(0.2)) s+="Import /nonexistent/file.opt\n"; break;
    default: { auto [t,q]=option(); m.add(t); s+=render(t,q); } } }
  if(!s.empty()&&s.back()=='\n'&&r.coin(0.2)) s.pop_back(); { std::ofstream o(f); o<<s; } *all+="["+f.substr(f.rfind('_'))+"] "+s; return f; }
static void compare(const Model& m,const std::string& what,bool full){ auto* p=OptionsParser::getMe(); for(auto& k: m.order){ auto it=p->find(k); EXPECT(it!=p->end()&&it->second==m.m.at(k),"value",what+" key "+k+" has "+(it==p->end()?"nothing":vs(it->second))+" written "+vs(m.m.at(k))); }
  size_t n=0; for(auto it=p->begin();it!=p->end();++it,++n) EXPECT(m.m.count(it->first),"extra",what+" extra key "+it->first); EXPECT(n==m.m.size(),"count",what);
  if(full){ auto o=p->getInputOrdered(); Tokens ks; for(auto& t: o) ks.push_back(t.empty()?"<empty>":t[0]); EXPECT(ks==m.order,"order",what+" "+vs(ks)+" want "+vs(m.order)); for(auto& t: o) if(!t.empty()&&m.m.count(t[0])) EXPECT(t==m.m.at(t[0]),"ordered.value",what+vs(t)); } }
template<class T> static bool refConv(const std::string& s,T& v);
template<> bool refConv(const std::string& s,std::string& v){ v=s; return true; }
template<> bool refConv(const std::string& s,bool& v){ v= s=="1"||s=="true"; return s=="1"||s=="0"||s=="true"||s=="false"; }
template<> bool refConv(const std::string& s,double& v){ char* e; v=strtod(s.c_str(),&e); return e!=s.c_str()&&*e==0; }
static bool refInt(const std::string& s,__int128& v){ size_t i=0; while(i<s.size()&&isspace((unsigned char)s[i])) ++i; bool neg=false; if(i<s.size()&&(s[i]=='-'||s[i]=='+')){ neg=s[i]=='-'; ++i; } if(i==s.size()) return false; v=0; for(;i<s.size();++i){ if(!isdigit((unsigned char)s[i])) return false; if(v<((__int128)1<<100)) v=v*10+(s[i]-'0'); } if(neg) v=-v; return true; }
template<class T> static bool refRange(const std::string& s,T& v){ __int128 x; if(!refInt(s,x)||x<(__int128)std::numeric_limits<T>::min()||x>(__int128)std::numeric_limits<T>::max()) return false; if(std::is_unsigned<T>::value&&s.find('-')!=std::string::npos) return false; v=T(x); return true; }
template<> bool refConv(const std::string& s,int& v){ return refRange(s,v); }
template<> bool refConv(const std::string& s,unsigned& v){ return refRange(s,v); }
template<> bool refConv(const std::string& s,size_t& v){ return refRange(s,v); }
template<class T> static void typed(const std::string& k,const Tokens* t,T def,const std::string& ty){ vf::eval(); auto& r=vf::rng(); std::string d=ty+" "+k+(t?vs(*t):" missing"); vf::begin_case(d); bool vec=r.coin(0.3); std::vector<T> dv; if(vec){ int n=r.range(0,4); for(int i=0;i<n;++i) dv.push_back(def); }
  std::vector<T> got; std::string out=vf::capture([&]{ if(vec){ NamedParameter<T> p(k,dv); got=p.getVector(); EXPECT(p.name()==k&&p.size()==got.size(),"np.name",d); } else { NamedParameter<T> p(k,def); got=p.getVector(); if(!got.empty()&&got[0]==got[0]) EXPECT(T(p)==got[0],"np.scalar",d); } });
  if(!t||t->size()<2){ vf::count("default"); EXPECT(got==(vec?dv:std::vector<T>{def}),"default",d); EXPECT(out.find("ERROR")==std::string::npos,"default.quiet",d+out); return; }
  bool bad=false; std::vector<T> want(t->size()-1,T()); std::vector<bool> ok(t->size()-1); for(size_t i=1;i<t->size();++i){ T v{}; ok[i-1]=refConv((*t)[i],v); if(ok[i-1]) want[i-1]=v; else bad=true; }
  EXPECT(got.size()==want.size(),"array.size",d); for(size_t i=0;i<std::min(got.size(),want.size());++i) if(ok[i]) EXPECT(got[i]==want[i]||(got[i]!=got[i]&&want[i]!=want[i]),"converted."+ty,d+" element "+std::to_string(i));
  if(bad){ vf::count("malformed"); EXPECT(out.find("ERROR")!=std::string::npos,"malformed.silent",d); } else { vf::count("wellformed"); EXPECT(out.find("ERROR")==std::string::npos,"wellformed.reported",d+out); }
  vf::distinct(ty+(t?(*t)[1]:"")); }
static void any(const std::string& k,const Tokens* t){ auto& r=vf::rng(); switch(r.range(0,5)){ case 0: typed<double>(k,t,r.gauss(),"double"); break; case 1: typed<int>(k,t,r.range(-9,9),"int"); break; case 2: typed<unsigned>(k,t,r.range(0,9),"unsigned"); break; case 3: typed<size_t>(k,t,size_t(r.next()),"size_t"); break; case 4: { // vector<bool> is special: scalar only
      bool def=r.coin(); bool got=false; std::string d="bool "+k+(t?vs(*t):""); vf::eval(); std::string out=vf::capture([&]{ NamedParameter<bool> p(k,def); got=p; }); bool v=false; if(!t||t->size()<2) EXPECT(got==def,"default",d); else if(refConv((*t)[1],v)) EXPECT(got==v,"converted.bool",d); else EXPECT(out.find("ERROR")!=std::string::npos,"malformed.silent",d); } break; default: typed<std::string>(k,t,"dflt","string"); } }
static void histories(int steps){ auto& r=vf::rng(); Model m; OptionsParser::getMe()->setQuiet(); for(int it=0;it<steps;++it){ std::string what; vf::eval();
  switch(r.range(0,3)){
    case 0: { std::string all; auto f=writeFile(m,2,&all); what="import "+all; // the model was filled in the order of writing: imports come where they stand, which writeFile's recursion follows
      vf::begin_case(what); vf::capture([&]{ OptionsParser::getMe()->import(f); }); vf::count("import"); break; }
    case 1: { auto [t,q]=option(); std::string s; for(size_t i=0;i<t.size();++i) s+=(i?blank():"")+(q[i]?"\""+t[i]+"\"":t[i]); if(r.coin(0.1)) s+=" # trailing"; what="setArg "+s; m.add(t); vf::begin_case(what); vf::capture([&]{ OptionsParser::setArg(s); }); vf::count("setArg"); break; }
    case 2: case 3: { std::vector<std::string> a{"prog"}; int n=r.range(0,5); for(int i=0;i<n;++i){ std::string k=key(); while(k.find('=')!=std::string::npos) k=key(); Tokens t{k}; int nv=r.coin(0.7)?1:r.range(1,4); std::string v; for(int j=0;j<nv;++j){ std::string x=plain(); while(x.find('#')!=std::string::npos||x.find('"')!=std::string::npos) x=plain(); if(j==0) while(x.find("--")==0) x=plain(); t.push_back(x); v+=(j?" ":"")+x; }
        switch(r.range(0,3)){ case 0: a.push_back("--"+k+"="+v); m.add(t); break; case 1: a.push_back("--"+k); a.push_back(v); m.add(t); break;
          case 2: { a.push_back("--"+k); m.add({k,"1"}); // bare flag: next must be an option or the end
              std::string k2=key(); a.push_back("--"+k2+"="+v); t[0]=k2; m.add(t); break; }
          default: { std::string all; a.push_back(writeFile(m,1,&all)); what+=all; } } }
      if(r.coin(0.3)){ auto k=key(); a.push_back("--"+k); m.add({k,"1"}); }
      std::vector<char*> av; for(auto& x: a) av.push_back(const_cast<char*>(x.c_str())); av.push_back(nullptr); what+=" argv "+vs(a); vf::begin_case(what); vf::capture([&]{ OptionsParser::setArgs(int(a.size()),av.data()); }); vf::count("commandline"); break; } }
  vf::distinct(what); compare(m,what,true); vf::count("states");
  for(int k=0;k<4;++k){ if(!m.order.empty()&&r.coin(0.75)){ auto kk=r.pick(m.order); any(kk,&m.m[kk]); } else any("missing"+std::to_string(r.range(0,99)),nullptr); }
  if(it<2) vf::sample(what.substr(0,300)); }
  vf::require("states",1); }
// values of every kind for every type, including boundaries
static void conversions(int n){ auto& r=vf::rng(); OptionsParser::getMe()->setQuiet(); auto val=[&]()->std::string{ switch(r.range(0,6)){ case 0: return r.pick({"2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","18446744073709551615","18446744073709551616","-1","0","+5","-0","007","0x10","1e3","1.0","1.","nan","inf","-inf","1e400","1e-400","5e-324","1,000","1 ","true","True","yes","","12abc","--","1e","e5",".5","-.5","9223372036854775807","9223372036854775808"}); case 1: return std::to_string(int64_t(r.next())); case 2: return vf::fmt("%.17g",std::ldexp(r.uni(-1,1),r.range(-300,300))); default: return plain(); } };
  for(int it=0;it<n;++it){ std::string k="Conv"+std::to_string(it); Tokens t{k}; int m=r.range(1,3); std::string s=k; for(int i=0;i<m;++i){ std::string v=val(); while(v.empty()||v.find_first_of("# \t\"")!=std::string::npos) v=val(); t.push_back(v); s+=" "+v; } vf::capture([&]{ OptionsParser::setArg(s); }); for(int j=0;j<4;++j) any(k,&t); } 
  // access by position
  for(int it=0;it<n/10;++it){ std::vector<double> v; int m=r.range(0,5); for(int i=0;i<m;++i) v.push_back(r.gauss()); NamedParameter<double> p("NoSuch"+std::to_string(it),v); for(int i=-2;i<m+2;++i){ bool threw=false; double x=0; vf::capture([&]{ try { x=p.getVal(i); } catch(std::exception&){ threw=true; } }); vf::eval(); EXPECT(threw==(i<0||i>=m),"position.range",std::to_string(i)+"/"+std::to_string(m)); if(!threw) EXPECT(x==v[i],"position.value",std::to_string(i)); }
    int j=r.range(0,7); p.setVal(4.5,j); v.resize(std::max<size_t>(v.size(),j+1)); v[j]=4.5; EXPECT(p.getVector()==v,"setVal",std::to_string(j)); p=7.25; v[0]=7.25; EXPECT(p.getVector()==v&&double(p)==7.25&&p==7.25&&p!=7.5,"assign",""); p=std::vector<double>{1,2}; EXPECT(p.getVector()==(std::vector<double>{1,2}),"assign.vector",""); }
  // numbered lists
  for(int it=0;it<n/10;++it){ std::string b="List"+std::to_string(it)+"_"; int m=r.range(0,4); Tokens w; for(int i=0;i<m;++i){ std::string v=r.pick({"u","v","w"})+std::to_string(i); OptionsParser::setArg(b+std::to_string(i)+" "+v); w.push_back(v); } if(r.coin(0.3)) OptionsParser::setArg(b+std::to_string(m+1)+" beyond"); vf::eval(); EXPECT(NamedParameter<std::string>::getVectorArgument(b,"")==w,"numbered",b+vs(w)); } }
// faulty files: every unmatched brace or quote is reported, and what comes before and after is still read
static void faulty(int n){ auto& r=vf::rng(); OptionsParser::getMe()->setQuiet(); std::string out; for(int it=0;it<n;++it){ std::string f=vf::scratch()+"/c12f_"+std::to_string(getpid()); std::string a="Fa"+std::to_string(it), b="Fb"+std::to_string(it), c="Fc"+std::to_string(it); std::string s=a+" 1 2\n"; int kind=r.range(0,3); bool after=true; switch(kind){ case 0: s+=b+" { 1 2\n"; after=false; break; case 1: s+=b+" \"abc\n"; break; case 2: s+="Import /nonexistent/"+b+"\n"; break; case 3: s+=b+" {\n"; after=false; break; } s+=c+" 3\n"; { std::ofstream o(f); o<<s; } vf::begin_case(s); vf::eval(); out=vf::capture([&]{ OptionsParser::getMe()->import(f); }); auto* p=OptionsParser::getMe(); EXPECT(p->find(a)!=p->end()&&p->find(a)->second==(Tokens{a,"1","2"}),"faulty.before",s); if(after) EXPECT(p->find(c)!=p->end()&&p->find(c)->second==(Tokens{c,"3"}),"faulty.after",s); EXPECT(out.find("ERROR")!=std::string::npos||out.find("WARNING")!=std::string::npos,"faulty.silent",s+out); vf::count("fault"+std::to_string(kind)); vf::distinct("fault"+std::to_string(kind));
    { std::ofstream o(f); o<<a<<" 9\n"; } vf::capture([&]{ p->import(f); }); EXPECT(p->find(a)->second==(Tokens{a,"9"}),"faulty.next",s); }
  out=vf::capture([&]{ OptionsParser::getMe()->import("/nonexistent/x.opt"); }); EXPECT(out.find("ERROR")!=std::string::npos,"missing.file",out);
  const char* av[]={"prog","--help","--n=3",nullptr}; EXPECT(!OptionsParser::printHelp(),"help.before",""); out=vf::capture([&]{ OptionsParser::setArgs(3,const_cast<char**>(av),"Description-of-program"); }); EXPECT(OptionsParser::printHelp()&&out.find("Description-of-program")!=std::string::npos,"help",out); int got=0; out=vf::capture([&]{ NamedParameter<int> p("n",5,"number-of-things"); got=p; }); EXPECT(got==3&&out.find("number-of-things")!=std::string::npos&&out.find("5")!=std::string::npos,"help.value",out); }
void harness(){ for(int s=0;s<vf::scale(5,24);++s){ vf::section("history"+std::to_string(s),[]{ histories(vf::scale(250,2500)); },vf::scale(200,800)); } for(int s=0;s<vf::scale(2,8);++s) vf::section("conversions"+std::to_string(s),[]{ conversions(vf::scale(1500,15000)); },vf::scale(200,800)); vf::section("faulty",[]{ faulty(vf::scale(300,2000)); }); }
