#include <set>
#include <functional>
// C27: hostile input is processed or rejected, under AddressSanitizer and UndefinedBehaviorSanitizer
#include "vf.h"
#include "decay.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/AddCPConjugate.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Projection.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/CompiledExpression.h"
#include <fstream>
#include <chrono>
#include <unistd.h>
using namespace AmpGen;
typedef std::vector<std::string> VS;
// ---- mutation of text
static std::string mutate(std::string s,const VS& dict,const VS& others){ auto& r=vf::rng(); int n=1+r.range(0,r.coin(0.2)? 8: 3); for(int k=0;k<n;++k){ size_t z=s.size(); auto pos=[&]{ return z==0? 0: size_t(r.range(0,int(z))); }; switch(r.range(0,9)){
  case 0: if(z) s.erase(std::min(pos(),z-1),1); break;
  case 1: s.insert(pos(),1,char(r.range(1,255))); break;
  case 2: if(z) s[std::min(pos(),z-1)]=char(r.coin()? r.range(32,126): r.range(0,255)); break;
  case 3: { size_t a=pos(); s.erase(a,r.range(1,12)); break; }
  case 4: { size_t a=pos(), b=r.range(1,16); s.insert(pos(),s.substr(a,b)); break; }
  case 5: s=s.substr(0,pos()); break;
  case 6: s.insert(pos(),r.pick(dict)); break;
  case 7: { auto& d=r.pick(dict); size_t a=z? s.find_first_of("{}[](),;=_ :.",pos()): std::string::npos; if(a==std::string::npos) s+=d; else s.replace(a,1,d); break; }
  case 8: { auto& o=r.pick(others); size_t a=pos(); s=s.substr(0,a)+o.substr(o.empty()? 0: r.range(0,int(o.size()))); break; }
  default: { size_t a=pos(),b=pos(); if(a<z&&b<z) std::swap(s[a],s[b]); } } if(s.size()>600) s.resize(600); } return s; }
static const VS SPECIAL={"","0","-1","1","4294967295","-2147483648","18446744073709551616","1e308","-1e400","nan","inf","\"","'","$","${","${HOME}","$AMPGENROOT","#","*","..","/","\\","\t","\n","%s%n","\x80\xff","999","2147483648"};
static VS plus(VS a,const VS& b){ a.insert(a.end(),b.begin(),b.end()); return a; }
static std::string show(const std::string& s){ std::string o; for(unsigned char c: s){ if(c<32||c>126) o+=vf::fmt("\\x%02x",c); else o+=char(c); } return o; }
// ---- every attempt: run, classify, and see that the library still works afterwards
static std::string healthy(); static std::string gHealthy;
struct Attempt { int done=0, rejected=0; } ;
template<class F> static void attempt(Attempt& a,const std::string& what,F f){ vf::begin_case(what); auto t0=std::chrono::steady_clock::now(); bool threw=false; std::string said=vf::capture([&]{ try { f(); } catch(const std::exception& e){ threw=true; } catch(...){ threw=true; } }); double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); vf::eval(); vf::distinct(what); if(threw) ++a.rejected; else ++a.done; vf::count(threw? "rejected by exception": said.find("ERROR")!=std::string::npos||said.find("WARN")!=std::string::npos? "reported": "processed"); EXPECT(dt<60,"hostile.time",show(what)+vf::fmt(": took %.0f s",dt)); }
static void after(const char* where,const std::string& last){ std::string h; vf::capture([&]{ try { h=healthy(); } catch(const std::exception& e){ h=std::string("exception ")+e.what(); } }); EXPECT(h==gHealthy,vf::fmt("hostile.after.%s",where),"after "+show(last)+": "+h+" instead of "+gHealthy); }
static std::string healthy(){ std::string s; Particle p("D0{K*(892)bar0{K-,pi+},pi0}",VS{"K-","pi+","pi0"}); s+=p.uniqueString()+" "+std::to_string(p.isStateGood())+" "; Particle q("a(1)(1260)+[D]{rho(770)0[GounarisSakurai]{pi+,pi-},pi+}"); s+=q.uniqueString()+" "+std::to_string(q.L())+" "; MinuitParameterSet mps; mps.add("alpha",Flag::Free,0.5,0.1); auto e=ExpressionParser::parse("alpha * ( 2 + 3 ) ^ 2",&mps); s+=vf::fmt("%.17g ",std::real(e())); OptionsParser::setArg("healthy_key \"a b\" c # d"); s+=vf::vstr(NamedParameter<std::string>("healthy_key","").getVector()); s+=Lineshape::Factory::isLineshape("BW")? " BW": " no BW"; auto g=ParticlePropertiesList::get("pi+",true); s+=g==nullptr? " no pi": vf::fmt(" %d",g->pdgID()); return s; }
static std::string tmpfile(const std::string& text){ static int n=0; std::string f=vf::scratch()+vf::fmt("/h27_%d_%d.txt",int(getpid()),n++%4); std::ofstream o(f,std::ios::binary); o<<text; return f; }
static const VS DESC={"D0{K-,pi+}","D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0[P;BgSpin0]{K*(892)bar0[GounarisSakurai]{K-,pi+},pi0}","B+{D*(2007)bar0{D0bar{K+,pi-},gamma0},pi+}","Lambda(b)0{Lambda(c)+{p+,K-,pi+},mu-,nu(mu)bar0}","Lambda(c)+[P]{p+,K*(892)bar0{K-,pi+}}","D0{rho(770)0{pi+,pi-},rho(770)0{pi+,pi-}}","D0{a(1)(1260)+[D;GSpline.EFF]{rho(770)0{pi+,pi-},pi+},K-}","psi(4040)0{D0{K-,pi+},D0bar{K+,pi-}}","D+{NonResS0{pi+,pi-},pi+}","D0{PiPi30[kMatrix.pole.0]{pi+,pi-},K0S0}","B0{J/psi0{mu+,mu-},K*(892)0{K+,pi-}}","tau-{rho(770)-{pi-,pi0},nu(tau)0}","K(2)*(1430)0[D]{K+,pi-}","D0[vertex=S_VV_P]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","Delta(1232)++{p+,pi+}","W-{mu-,nu(mu)bar0}","Omega-{Lambda0{p+,pi-},K-}","D0{gamma0,gamma0}"};
static const VS DDICT=plus({"{","}","[","]",",",";","=","{}","[]","{,}","[;]","{{","}}","D0","K-","pi+","pi0","rho(770)0","NonResS0","NonResV0","gamma0","[S]","[P]","[D]","[F]","[G]","[I]","[P0]","[D2]","[S9]","[PP]","[BW]","[BW.","[FormFactor.BL]","[LASS]","[kMatrix.","[GSpline.EFF]","[Flatte]","[BgSpin0]","[NoSym]","[Inco]","[vertex=","vertex=S_SS_S","vertex=f_fV_P","p+","Lambda0","mu-","nu(mu)bar0","Omega-","J/psi0","a(2)(1320)+","K(3)*(1780)0","f(4)(2050)0","_Re","_Im","_"},SPECIAL);
static void descriptors(int seed){ auto& r=vf::rng(); (void)seed; Attempt a; int N=vf::scale(600,3600); std::string s; for(int c=0;c<N;++c){ s=mutate(r.pick(DESC),DDICT,DESC); attempt(a,s,[&]{ Particle::isValidDecayDescriptor(s); Particle p(s); if(p.isStateGood()){ p.uniqueString(); p.decayDescriptor(); p.topologicalString(); p.conj(); p.P(); auto fs=p.getFinalStateParticles(); Particle again(p.decayDescriptor()); EXPECT(again.isStateGood(),"hostile.reread",show(s)+" -> "+p.decayDescriptor()); if(fs.size()<=8) p.identicalDaughterOrderings(); } VS fin; for(int k=r.range(0,5);k>0;--k) fin.push_back(r.pick(VS{"K-","pi+","pi-","pi0","p+","gamma0","","xyz"})); Particle q(s,fin); if(q.isStateGood()) q.uniqueString(); VS own; if(p.isStateGood()) for(auto& f: p.getFinalStateParticles()) own.push_back(f->name()); Particle w(s,own); if(w.isStateGood()){ w.quarks(); w.daughterQuarks(); w.eventType(); } }); if(c%50==0) after("descriptor",s); } after("descriptor",s); vf::count("descriptors",N); }
static void amplitudes(int k){ auto& r=vf::rng(); NamedParameter<std::string>("x",""); OptionsParser::setArg(std::string("Particle::SpinFormalism ")+(k%2? "Canonical": "Covariant")); Attempt a; std::string s; for(int c=0;c<vf::scale(60,700);++c){ s=mutate(r.pick(DESC),DDICT,DESC); attempt(a,s,[&]{ Particle p(s); if(!p.isStateGood()) return; VS own; auto fs=p.getFinalStateParticles(); if(fs.size()>4) return; for(auto& f: fs) own.push_back(f->name()); Particle w(s,own); if(!w.isStateGood()) return; std::vector<int> st; for(size_t i=0;i<own.size()+1;++i) st.push_back(r.coin(0.8)? r.range(-1,1): r.range(-5,5)); if(r.coin(0.2)) st.resize(r.range(0,8)); if(r.coin(0.6)) w.setPolarisationState(st); DebugSymbols db; auto e=w.getExpression(r.coin(0.3)? &db: nullptr); (void)e; }); if(c%10==0) after("amplitude",s); } after("amplitude",s); }
static void spins(){ auto& r=vf::rng(); Attempt a; for(int c=0;c<vf::scale(200,3000);++c){ std::string s=r.pick(DESC); std::vector<int> st; int n=r.range(0,9); for(int i=0;i<n;++i) st.push_back(r.coin(0.7)? r.range(-2,2): r.pick(std::vector<int>{-3,7,100,-100000,2147483647,-2147483647-1,999})); attempt(a,s+vf::vstr(st),[&]{ Particle p(s); if(!p.isStateGood()) return; VS own; for(auto& f: p.getFinalStateParticles()) own.push_back(f->name()); Particle w(s,own); w.setPolarisationState(st); w.setPolarisationState(st.empty()? 0: st[0]); w.props()->polarisations(); for(auto& f: w.getFinalStateParticles()){ f->setPolarisationState(st.empty()? 3: st.back()); f->externalSpinTensor(f->polState()); } w.externalSpinTensor(r.pick(std::vector<int>{0,1,-1,2,-2,3,77})); }); } after("spin","spins"); }
static void lineshapes(){ auto& r=vf::rng(); Attempt a; VS names={"BW","BW.BL","BW.L0","SBW","RBW","FormFactor","FormFactor.BL","FormFactor.BELLE2018","FormFactor.Exp","GounarisSakurai","LASS","LASS.BW","GLASS","Flatte","Bugg","kMatrix.pole.0","kMatrix.prod.1","kMatrix.pole.9","kMatrix.pole.","FOCUS.Kpi","FOCUS.KEta","FOCUS.I32","FOCUS","PALANO","Isotensor","Photon","Poly","Poly.2","Poly.x","Expo","Gaussian","GSpline","GSpline.EFF","MIPWA","NonRelBW","EtaDalitz.Linear","EtaDalitz","CoupledChannel","DecaySpline","FormFactorSpline","PolyNR.2","PolyNR","GenericKmatrix","kMatrix_fast","TD","InelasticityLASS","ExpFF","None"}; VS dict=plus({".",".BL",".0",".9",".x",".L","BW","kMatrix","pole","prod",".pole.",".prod.","..","0","99999999999"},SPECIAL); VS parts={"rho(770)0","K*(892)bar0","f(0)(980)0","NonResS0","K(0)*(1430)bar0","eta0","PiPi30","gamma0"}; std::string s; for(int c=0;c<vf::scale(500,6000);++c){ s=c<int(names.size())? names[c]: mutate(r.pick(names),dict,names); std::string pn=r.pick(parts); unsigned L=r.coin(0.8)? r.range(0,4): r.pick(std::vector<int>{5,6,99}); attempt(a,s+" for "+pn,[&]{ Lineshape::Factory::isLineshape(s); DebugSymbols db; Expression q=Parameter("s"); if(r.coin()) Lineshape::Factory::get(s,q,0.02,0.03,pn,L,r.coin()? &db: nullptr); else { Particle p(r.pick(DESC)); if(!p.isStateGood()) return; VS own; for(auto& f: p.getFinalStateParticles()) own.push_back(f->name()); Particle w(p.decayDescriptor(),own); Lineshape::Factory::get(s,w,r.coin()? &db: nullptr); } }); if(c%40==0) after("lineshape",s); } after("lineshape",s); }
static const VS FORM={"1 + 2","alpha * beta","sin ( alpha ) ^ 2","( alpha + 2 ) * ( beta - 3 )","{ 1 , 2 , alpha }","Ternary ( alpha > 0 , 1 , 2 )","atan2 ( alpha , beta )","Secret ( key , 0 , 1 )","exp ( - 1 )","sqrt sqrt 4","c","real ( c ) + imag ( c ) * I","alpha && beta","pi * e","1 / 0","abs ( -3 )","undefined * 2","( ( ( 1 ) ) )"};
static const VS FDICT=plus({" ( "," ) "," { "," } "," , "," + "," - "," * "," / "," ^ "," > "," < "," && "," sin "," sqrt "," log "," real "," Ternary "," atan2 "," Secret "," alpha "," c "," I "," i "," pi "," 1 "," ","(",")","{","}"," c_Re "," Ternary ( "," atan2 ( 1 "," Secret ( 1 "},SPECIAL);
static void formulas(){ auto& r=vf::rng(); Attempt a; MinuitParameterSet mps; mps.add("alpha",Flag::Free,0.5,0.1); mps.add("beta",Flag::Free,-2,0.1); mps.add("c_Re",Flag::Free,1,0.1); mps.add("c_Im",Flag::Free,2,0.1); std::string s; for(int c=0;c<vf::scale(2500,40000);++c){ s=mutate(r.pick(FORM),FDICT,FORM); attempt(a,s,[&]{ bool with=r.coin(0.7); auto e=ExpressionParser::parse(s,with? &mps: nullptr); e.to_string(); if(with) { try { e(); } catch(...){} } }); attempt(a,"tokens "+s,[&]{ auto t=split(s,' ',r.coin()); auto b=t.cbegin(); auto e=ExpressionParser::parse(b,t.cend(),&mps); e.to_string(); }); attempt(a,"x = "+s,[&]{ auto t=split("x = "+s,' '); MinuitExpression e(t,&mps); e.getVal(); e.mean(); }); if(c%100==0) after("formula",s); } after("formula",s); }
static const VS OPTS={"EventType D0 K- pi+ pi0","nEvents 1000","D0{K*(892)bar0{K-,pi+},pi0}  2 1 0  2 0 0","D0{rho(770)+{pi+,pi0},K-}  Free 0.5 0.1 Free 0.3 0.1","K*(892)bar0_mass Free 0.8955 0.001 0.7 1.1","K*(892)bar0_width Fix 0.047 0.001","alpha = 2 * beta","beta Free 1 0.1","CouplingConstant::Coordinates polar","CouplingConstant::AngularUnits deg","Import file.opt","ParticlePropertiesList::Alias rho(770)0 myrho","ParticleProperties Xi_new mass 1.2 width 0.1 spin 1/2 parity + charge 0 quarks uds","Particle::SpinFormalism Canonical","list { 1 2","3 4 }","name \"quoted value\" other","# comment","* star","GSpline::Spline 10 0.1 2.0","a b c d e f g","D0{K-,pi+}_Re Free 1 0.1","D0{K-,pi+}_Im Free 1 0.1","p_D0{K-,pi+}_Re Free 1 0.1","p_D0{K-,pi+}_Im Free 1 0.1","AddCPConjugate::Forbid D0","rho(770)0::Spline::N 5","K*(892)0::x Free 1 0.1","Xi_new_mass Free 1 0.1","ParticlePropertiesList::Import file.csv","D0 = 1"};
static const VS ODICT=plus({" ","{","}"," { "," } ","\"","#","=", " = ","Free","Fix","Blind","CompileTimeConstant","Hide","Invalid"," 2 "," 0.1 ","_Re","_Im","_mass","_width","::","D0","D0{K-,pi+}","K*(892)0","pi0","Import ","ParticleProperties ","mass","spin","ParticlePropertiesList::Alias "},SPECIAL);
static void useOptions(MinuitParameterSet& mps){ auto& r=vf::rng(); mps.loadFromStream(); if(r.coin(0.7)) AddCPConjugate(mps); { AmplitudeRules rules(mps); for(auto& head: rules.rules()){ for(auto& c: head.second){ c(); c.to_expression(); } } } std::ostringstream os; mps.print(os); mps.printVariable(os); for(auto& p: mps) p->mean(); }
static void options(int k){ auto& r=vf::rng(); (void)k; Attempt a; std::string text; int forks=vf::scale(18,150); for(int c=0;c<forks;++c){ // each in a process of its own: options are global state
    text=""; int lines=r.range(1,12); for(int i=0;i<lines;++i){ std::string l=r.pick(OPTS); if(r.coin(0.7)) l=mutate(l,ODICT,OPTS); text+=l+(r.coin(0.95)? "\n": "\r\n"); } std::string what=text; vf::begin_case(what); vf::eval(); vf::distinct(what); std::string out; int rc=vf::in_child([&]{ Attempt in; auto f=tmpfile(text); attempt(in,what,[&]{ OptionsParser::getMe()->import(f); }); attempt(in,what,[&]{ VS w=split(text,{' ','\n'}); w.insert(w.begin(),"prog"); w.resize(std::min<size_t>(w.size(),12)); for(auto& x: w) if(x.find('/')!=std::string::npos) x="--"; std::vector<char*> v; for(auto& x: w) v.push_back(&x[0]); OptionsParser::setArgs(int(v.size()),v.data(),"about"); }); attempt(in,what,[&]{ MinuitParameterSet mps; useOptions(mps); }); attempt(in,what,[&]{ for(auto& k: {"nEvents","EventType","a","name","list","beta","alpha"}){ try { double d=NamedParameter<double>(k,1.); (void)d; } catch(...){} try { int d=NamedParameter<int>(k,1); (void)d; } catch(...){} try { auto d=NamedParameter<std::string>(k,"").getVector(); } catch(...){} try { bool b=NamedParameter<bool>(k,true); (void)b; } catch(...){} try { size_t z=NamedParameter<size_t>(k,1); (void)z; } catch(...){} } auto et=NamedParameter<std::string>("EventType","").getVector(); EventType t(et); t.getEventFormat(); }); attempt(in,what,[&]{ MinuitParameterSet mps; mps.loadFromFile(f); useOptions(mps); }); },&out,120); EXPECT(rc==0,"hostile.options",vf::fmt("status %d for options:\n",rc)+show(text)+"\n"+out.substr(0,1500)); }
  // a file that imports itself, directly or through another one, is reported and ends
  for(int c=0;c<2;++c){ std::string d=vf::scratch()+vf::fmt("/imp_%d_%d",int(getpid()),c), f=d+"a.opt", g=d+"b.opt"; { std::ofstream o(f); o<<"first 1\nImport "<<(c? g: f)<<"\nlast 2\n"; } { std::ofstream o(g); o<<"inner 3\nImport "<<f<<"\nend 4\n"; } std::string out; vf::begin_case("an options file that imports itself"); vf::eval(); int rc=vf::in_child([&]{ std::string said=vf::capture([&]{ OptionsParser::getMe()->import(f); }); bool ok=OptionsParser::getMe()->find("first")!=OptionsParser::getMe()->end()&&OptionsParser::getMe()->find("last")!=OptionsParser::getMe()->end(); if(c) ok&=OptionsParser::getMe()->find("inner")!=OptionsParser::getMe()->end(); if(!ok) _exit(3); },&out,60); EXPECT(rc==0,"hostile.import",vf::fmt("an options file that imports itself%s: status %d ",c? " through another file": "",rc)+out.substr(0,600)); } }
// decays that contain themselves, directly or through others, end with an error; ones that do not are expanded
static void rules(){ auto& r=vf::rng(); VS names={"K(1)(1270)+","K*(892)0","rho(770)0","a(1)(1260)+","f(0)(980)0","K(1460)+"}, fin={"K+","pi+","pi-","pi0"}; for(int c=0;c<vf::scale(30,300);++c){ int n=r.range(1,4); VS heads=names; r.shuffle(heads); heads.resize(n); std::map<std::string,std::set<std::string>> to; VS text; auto decay=[&](const std::string& h,std::set<std::string>& leaves){ std::string s=h+"{"; for(int k=0;k<2;++k){ std::string d=r.coin(0.45)? r.pick(names): r.pick(fin); leaves.insert(d); s+=(k? ",": "")+(r.coin(0.15)&&std::find(fin.begin(),fin.end(),d)!=fin.end()? "rho(770)0{"+d+",pi0}": d); } return s+"}"; }; for(auto& h: heads) for(int k=r.range(1,2);k>0;--k) text.push_back(decay(h,to[h])); std::set<std::string> top; text.push_back(decay("D0",top)); std::function<bool(const std::string&,std::set<std::string>)> cyc=[&](const std::string& x,std::set<std::string> above){ if(!to.count(x)) return false; if(above.count(x)) return true; above.insert(x); for(auto& y: to[x]) if(cyc(y,above)) return true; return false; }; bool endless=false; for(auto& x: top) endless|=cyc(x,{}); std::string what=vf::vstr(text); vf::begin_case(what); vf::eval(); vf::distinct(what); vf::count(endless? "endless rules": "finite rules"); std::string out; int rc=vf::in_child([&]{ bool threw=false; vf::capture([&]{ try { MinuitParameterSet mps; for(auto& t: text){ mps.addOrGet(t+"_Re",Flag::Free,1,0.1); mps.addOrGet(t+"_Im",Flag::Free,1,0.1); } AmplitudeRules R(mps); R.getMatchingRules(EventType({"D0","K+","pi-"})); } catch(const std::exception&){ threw=true; } }); _exit(threw==endless? 0: threw? 4: 5); },&out,20); EXPECT(rc==0,"hostile.rules",what+vf::fmt(endless? ": endless, status %d ": ": finite, status %d ",rc)+out.substr(0,600)); } vf::require("endless rules",3); vf::require("finite rules",3); }
static void tables(){ auto& r=vf::rng(); Attempt a; VS lines={"1.39570E+02,3.5E-04,3.5E-04,2.52840E-14,0.0E+00,0.0E+00,1,-,0,-, ,B,     211,+, ,R,pi,uD","7.7549E+02,3.4E-01,3.4E-01,1.494E+02,1.0E+00,1.0E+00,1,+,1,-,-, ,     113,0, ,R,rho(770),(uU-dD)/sqrt(2)","9.38272013E+02,2.3E-05,2.3E-05,0,0,0,1/2, ,1/2,+, ,F,    2212,+, ,R,p,uud","1.8648E+03,1.7E-01,1.7E-01,1.605E-09,6.0E-12,6.0E-12,1/2, ,0,-, ,F,     421,0, ,R,D,cU","*MASS(MeV)"}; VS dict=plus({",",",,","?","1/2","3/2","/","-1","F","B"," ","uD","non-qQ","??","(","sqrt"},SPECIAL); VS latex={"211 $\\pi^{+}$ $\\pi^{-}$","113 $\\rho$ $\\rho$","421 D Dbar"}; std::string s; for(int c=0;c<vf::scale(400,6000);++c){ s=mutate(r.pick(lines),dict,lines); attempt(a,s,[&]{ ParticleProperties p(s); std::ostringstream o; p.print(o); if(!p.isValid()) return; p.polarisations(); p.J(); p.spinName(); p.name(); p.anti().name(); p.lifetime(); p.label(); (void)(p==p.anti()); (void)(p<p.anti()); }); attempt(a,"quarks "+s,[&]{ QuarkContent q(s), w(s.substr(s.size()/2)); (void)(q+w==w+q); q.antiThis(); std::ostringstream o; o<<q; }); } after("table",s);
  for(int c=0;c<vf::scale(24,250);++c){ std::string out; std::vector<std::string> all; for(int k=0;k<10;++k){ std::string t; for(int q=r.range(1,5);q>0;--q) t+=mutate(r.pick(lines),dict,lines)+"\n"; all.push_back(t); } std::vector<VS> toks; for(int k=0;k<10;++k){ VS tok={"ParticleProperties"}; for(int q=r.range(0,8);q>0;--q) tok.push_back(r.pick(plus({"new","pi+","mass","width","spin","parity","charge","quarks","name","1/2","uud","0.5","+"},SPECIAL))); toks.push_back(tok); } std::string u; for(int k=0;k<3;++k) u+=mutate(r.pick(latex),plus({" ","$","\n"},SPECIAL),latex)+"\n"; std::string what=all[0]+vf::vstr(toks[0])+u; vf::begin_case(what); vf::eval(20); vf::distinct(what); // a process of its own: the table is global
    int rc=vf::in_child([&]{ Attempt in; auto l=ParticlePropertiesList::getMutable(); attempt(in,u,[&]{ l->readLatexLabels(tmpfile(u)); }); for(int k=0;k<10;++k){ attempt(in,all[k],[&]{ l->readFile(tmpfile(all[k])); l->makeMappings(); l->find("pi+",true); l->getParticleNames(); for(auto& p: *l){ (void)p.name(); } Particle p("rho(770)0{pi+,pi-}",VS{"pi+","pi-"}); p.uniqueString(); }); attempt(in,vf::vstr(toks[k]),[&]{ l->addParticle(toks[k]); l->makeAlias(toks[k].back(),toks[k][toks[k].size()/2]); if(toks[k].size()>1) if(auto p=l->find(toks[k][1],true)){ std::ostringstream o; p->print(o); p->polarisations(); } }); } },&out,120); EXPECT(rc==0,"hostile.table",vf::fmt("status %d for ",rc)+show(what)+"\n"+out.substr(0,1500)); } }
static void tensors(){ auto& r=vf::rng(); Attempt a; auto shape=[&]{ std::vector<unsigned> d; int k=r.range(0,3); for(int i=0;i<k;++i) d.push_back(r.pick(std::vector<unsigned>{1,2,3,4,4,4})); return d; }; auto make=[&](const std::vector<unsigned>& d){ unsigned n=1; for(auto x: d) n*=x; std::vector<Expression> e; for(unsigned i=0;i<n;++i) e.push_back(Parameter(vf::fmt("t%u",i))); return Tensor(e,d); }; for(int c=0;c<vf::scale(1500,20000);++c){ auto d1=shape(), d2=r.coin(0.3)? d1: shape(); std::string what=vf::vstr(d1)+" with "+vf::vstr(d2); Tensor A=make(d1),B=make(d2); attempt(a,"sum "+what,[&]{ Tensor C=A+B; C.to_string(); }); attempt(a,"difference "+what,[&]{ Tensor C=A-B; C.to_string(); }); attempt(a,"dot "+what,[&]{ dot(A,B).to_string(); }); attempt(a,"invert "+what,[&]{ if(A.size()<=16) A.Invert().to_string(); }); attempt(a,"print "+what,[&]{ A.print(); A.dimString(); A.conjugate(); }); attempt(a,"+= "+what,[&]{ Tensor C=A; C+=B; C-=A; }); unsigned i=r.range(0,70); std::vector<unsigned> co; for(int k=r.range(0,4);k>0;--k) co.push_back(r.coin(0.8)? r.range(0,4): r.pick(std::vector<unsigned>{99,4294967295u})); attempt(a,vf::fmt("element %u of ",i)+what,[&]{ A[i].to_string(); A.get(i).to_string(); }); attempt(a,"element "+vf::vstr(co)+" of "+what,[&]{ A.get(co).to_string(); A[co].to_string(); }); attempt(a,"symmetry "+what,[&]{ Tensor C=A; if(r.coin()) C.imposeSymmetry(r.range(0,4),r.range(0,4)); else C.imposeSymmetry(co); C.to_string(); });
    std::vector<Tensor::Index> pool(5); std::vector<Tensor::Index> ia, ib; for(int k=r.coin(0.7)? int(d1.size()): r.range(0,5);k>0;--k) ia.push_back(r.coin()? r.pick(pool): -r.pick(pool)); for(int k=r.coin(0.7)? int(d2.size()): r.range(0,5);k>0;--k) ib.push_back(r.coin()? r.pick(pool): -r.pick(pool)); attempt(a,vf::fmt("contraction with %d and %d indices of ",int(ia.size()),int(ib.size()))+what,[&]{ Tensor C=A(ia)*B(ib); C.to_string(); }); attempt(a,"reordering of "+what,[&]{ Tensor C=A(ia)+B(ib); C.to_string(); Tensor D=A(ia)-A(ib); D.to_string(); }); } after("tensor","tensors"); }
static void eventTypes(){ auto& r=vf::rng(); Attempt a; VS names={"D0","K-","pi+","pi-","pi0","gamma0","p+","Lambda(c)+","B0","K0S0","{K-}","","{","{}","}","xyz","pi","mu-","nu(mu)bar0","Omega-","f(2)(1270)0"}; for(int c=0;c<vf::scale(600,9000);++c){ VS n; if(r.coin(0.6)) n={"D0","K-","pi+"}; int k=r.range(0,6); for(int i=0;i<k;++i) n.push_back(r.coin(0.8)? r.pick(VS(names.begin(),names.begin()+10)): r.coin()? r.pick(names): mutate(r.pick(names),plus({"{","}"},SPECIAL),names)); attempt(a,vf::vstr(n),[&]{ EventType t(n,r.coin()); t.getEventFormat(r.coin()); t.dim(); t.decayDescriptor(); t.label(r.range(0,int(std::max<size_t>(1,t.size()))-1)); t.size(); std::vector<unsigned> id; for(int i=r.range(0,4);i>0;--i) id.push_back(r.range(0,3)); bool in=true; for(auto i: id) in&=i<t.size(); if(in) t.minmax(id); t.conj(r.coin(),r.coin()); t.defaultProjections(3); std::ostringstream o; o<<t; t.constructor_string(); t.motherMass(); t.has("pi+"); t.count(r.range(0,int(std::max<size_t>(1,t.size()))-1)); }); } after("eventtype","event types"); }
static void parameters(){ auto& r=vf::rng(); Attempt a; VS lines={"alpha Free 1 0.1","beta Fix 1 0.1 0 2","c Free 1 0.1 Free 2 0.1","d Free 1 0.1 0 2 Fix 2 0.1 0 3","x = 2 * alpha","e Blind 1 0.1"}; std::string s; for(int c=0;c<vf::scale(400,6000);++c){ s=""; for(int i=r.range(1,8);i>0;--i){ std::string l=r.pick(lines); if(r.coin(0.7)) l=mutate(l,plus(ODICT,FDICT),lines); s+=l+"\n"; } attempt(a,s,[&]{ MinuitParameterSet mps; try { mps.loadFromFile(tmpfile(s)); } catch(...){} for(int k=0;k<r.range(0,12);++k){ std::string n=r.pick(VS{"alpha","beta","c_Re","x","y","","d_Im"}); try { switch(r.range(0,9)){ case 0: mps.rename(n,r.pick(VS{"alpha","q","x",""})); break; case 1: { auto p=mps.find(n); if(p){ mps.unregister(p); delete p; return; } break; } case 2: mps.add(n,Flag::Free,1,0.1); break; case 3: mps(n); break; case 4: mps.at(n); mps.at(r.range(0,20)); break; case 5: mps.resetToInit(); break; case 6: { MinuitParameterSet o; o.add(n,Flag::Free,3,0.1); mps.set(o); break; } case 7: { MinuitParameter out("outside",1,0.1); mps.unregister(&out); break; } case 8: mps.addOrGet(n,Flag::Free,1,0.1); break; default: mps[n]; } } catch(const std::exception&){ } } std::ostringstream o; mps.print(o); mps.printVariable(o); }); if(c%60==0) after("parameters",s); } after("parameters",s); }
static void text(){ auto& r=vf::rng(); Attempt a; VS base=plus(plus(plus(DESC,FORM),OPTS),{"*.opt","/tmp/*/x","a*b*c","$HOME/x","${HOME}/y.z","%5.3f"}); VS dict=plus(plus(DDICT,ODICT),{"*","**","?"}); std::string s; for(int c=0;c<vf::scale(3000,60000);++c){ s=mutate(r.pick(base),dict,base); std::string t=r.coin()? r.pick(dict): mutate(r.pick(dict),dict,base); attempt(a,s,[&]{ getItems(s); getItems(s,{"[","]"},";"); getItems(s,{"(",")"},","); split(s,t.empty()? ',': t[0],r.coin()); split(s,{'{','}',','},r.coin()); replaceAll(s,t,r.pick(dict)); trim(s); ltrim(s); rtrim(s); findAll(s,t.empty()? "a": t); vecFindAll(s,{"{","}"}); find_next_of(s,{t,"{"},r.range(0,20)); expandGlobals(s); stringMatchesWildcard(s,t); stringMatchesWildcard(t,s,r.coin()? '*': '{'); if(s.size()<200) editDistance(s,t); FNV1a_hash(s); std::string u=s; swapChars(u,'+','-'); fileExists(s); isDir(s); OptionsParser::setArg("text_key "+s); });
    attempt(a,"number "+t,[&]{ bool st=true; lexical_cast<double>(t,st); lexical_cast<int>(t,st); lexical_cast<unsigned>(t,st); lexical_cast<float>(t,st); lexical_cast<bool>(t,st); lexical_cast<std::string>(t,st); lexical_cast<long>(t,st); lexical_cast<unsigned long>(t,st); parse<Flag>(t); }); } std::string dir=vf::scratch()+"/lst"; (void)!system(("mkdir -p '"+dir+"/a' '"+dir+"/b'").c_str()); for(auto& p: VS{dir,dir+"/*",dir+"/a","*",dir+"/nothing/*","","/","$NOPE/x",dir+"/*/*"}) attempt(a,"files in "+p,[&]{ if(p!="/"&&p!="*") getListOfFiles(p,r.coin()? "": "*"); }); for(double x: {0.,-0.,1e300,-1e300,1e-300,123456.789,double(NAN),double(INFINITY)}) attempt(a,vf::fmt("round %g",x),[&]{ AmpGen::round(x,3); AmpGen::round(x,10); numberWithError(x,x,2); }); after("text",s); }
static void splines(){ auto& r=vf::rng(); Attempt a; for(int c=0;c<vf::scale(20,200);++c){ int n=r.range(0,8), have=r.range(0,8); std::string nm=vf::fmt("spl%d",c), what=vf::fmt("spline with %d knots, %d of them defined",n,have); vf::begin_case(what); attempt(a,what,[&]{ OptionsParser::setArg(nm+"::Spline "+std::to_string(n)+" 0 1"); MinuitParameterSet mps; for(int i=0;i<have;++i) mps.add(nm+"::Spline::Re::"+std::to_string(i),Flag::Free,i,0.1); auto e=getSpline(nm,Parameter("x",0,true),"Re"); e.to_string(); CompiledExpression<double(const double*,const double*)> t(e,nm,std::map<std::string,unsigned>{},&mps); t.prepare(); }); } after("spline","splines"); }
static void angular(){ auto& r=vf::rng(); Attempt a; auto h=[&]{ return r.coin(0.8)? r.range(-8,8)/2.: r.pick(std::vector<double>{0.25,9,-9,1e9,-1e9,0.1}); }; for(int c=0;c<vf::scale(400,6000);++c){ double x[6]; for(auto& v: x) v=h(); std::string what=vf::fmt("%g %g %g %g %g %g",x[0],x[1],x[2],x[3],x[4],x[5]); bool large=false; for(auto& v: x) large|=std::abs(v)>60; attempt(a,"coupling of "+what,[&]{ if(!large) CG(x[0],x[1],x[2],x[3],x[4],x[5]); }); attempt(a,"rotation "+what,[&]{ if(!large){ wigner_d(Expression(Parameter("b")),x[0],x[1],x[2]); wigner_D(std::make_pair(Expression(Parameter("a")),Expression(Parameter("b"))),x[0],x[1],x[2],nullptr); } }); attempt(a,"orders "+what,[&]{ std::vector<size_t> id; std::vector<int> ep; for(int i=r.range(0,6);i>0;--i) id.push_back(id.size()); r.shuffle(id); for(size_t i=0;i<id.size();++i) ep.push_back(r.coin()? 1: -1); minSwaps(id,ep); }); } after("angular","spins"); }
void harness(){ vf::capture([&]{ gHealthy=healthy(); });
  for(int i=0;i<3;++i) vf::section(vf::fmt("descriptors%d",i),[i]{ descriptors(i); },600);
  for(int i=0;i<4;++i) vf::section(vf::fmt("amplitudes%d",i),[i]{ amplitudes(i); },600);
  vf::section("spins",spins); vf::section("lineshapes",lineshapes); vf::section("formulas",formulas);
  for(int i=0;i<2;++i) vf::section(vf::fmt("options%d",i),[i]{ options(i); },600);
  vf::section("rules",rules,600); vf::section("tables",tables,600); vf::section("tensors",tensors); vf::section("eventtypes",eventTypes); vf::section("parameters",parameters); vf::section("text",text); vf::section("splines",splines); vf::section("angular",angular); }
