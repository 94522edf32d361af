// C15: text and container helpers against their definitions
#include "vf.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/enum.h"
#include "AmpGen/ArgumentPack.h"
#include <set>
#include <map>
#include <limits>
#include <numeric>
#include <unistd.h>
#include <cstring>
using namespace AmpGen;
namespace AmpGen { make_enum( vfEnum, Alpha, Beta, AlphaBeta, gamma_4, Z ) make_enum( vfOne, Only ) }
static std::string word(int n,const std::string& al){ std::string s; auto& r=vf::rng(); for(int i=0;i<n;++i) s+=al[r.range(0,al.size()-1)]; return s; }
static std::string rw(const std::string& al,int mx=12){ return word(vf::rng().range(0,mx),al); }
static std::string q(const std::string& s){ return "\""+s+"\""; }
static std::string vs(const std::vector<std::string>& v){ std::string s="["; for(auto& x: v) s+=q(x)+","; return s+"]"; }
// references
static std::string refReplace(const std::string& s,const std::string& a,const std::string& b){ std::string o; for(size_t i=0;i<s.size();){ if(s.compare(i,a.size(),a)==0){ o+=b; i+=a.size(); } else o+=s[i++]; } return o; }
static bool refGlob(const char* s,const char* p,char w){ if(*p==0) return *s==0; if(*p==w) return refGlob(s,p+1,w)||(*s&&refGlob(s+1,p,w)); return *s==*p&&*s&&refGlob(s+1,p+1,w); }
static unsigned refEdit(const std::string& a,const std::string& b){ std::map<std::pair<size_t,size_t>,unsigned> m; std::function<unsigned(size_t,size_t)> f=[&](size_t i,size_t j)->unsigned{ if(i==0) return j; if(j==0) return i; auto it=m.find({i,j}); if(it!=m.end()) return it->second; unsigned r=std::min({f(i-1,j)+1,f(i,j-1)+1,f(i-1,j-1)+(a[i-1]!=b[j-1])}); m[{i,j}]=r; return r; }; return f(a.size(),b.size()); }
static std::string tree(int d,char o,char c,const std::string& sep,std::vector<std::string>* top){ auto& r=vf::rng(); std::string s=word(r.range(0,4),"abXYZ*() "); if(top) top->push_back(s); if(d<=0) return s; int k=r.range(1,4); s+=o; for(int i=0;i<k;++i){ std::string x= r.coin(0.5)? tree(d-1,o,c,sep,nullptr): word(r.range(1,4),"abXYZ*()"); if(top) top->push_back(x); s+=(i?sep:"")+x; } return s+c; }
static void text(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){
  { std::string s=rw("ab, "), j; char d= r.coin()?',':' '; vf::begin_case("split "+q(s)); vf::eval(); vf::distinct("split"+s); auto v=split(s,d,false); for(size_t i=0;i<v.size();++i) j+=(i?std::string(1,d):"")+v[i]; EXPECT(j==s,"split.join",q(s)+" "+vs(v)); for(auto& x: v) EXPECT(x.find(d)==std::string::npos,"split.piece",q(s)); EXPECT(s.empty()? v.empty(): v.size()==size_t(std::count(s.begin(),s.end(),d)+1),"split.count",q(s)+vs(v));
    std::vector<std::string> w; for(auto& x: v) if(x!=""&&x!=" "&&x!="\n"&&x!="\t") w.push_back(x); EXPECT(split(s,d)==w,"split.blank",q(s)+vs(split(s,d))); }
  { std::string s=rw("ab,;@ ",16); std::vector<char> ds; for(char c: {',',';','@',' '}) if(r.coin(0.6)) ds.push_back(c); vf::eval(); auto isd=[&](char c){ return std::find(ds.begin(),ds.end(),c)!=ds.end(); }; std::vector<std::string> w,k; std::string cur; for(char c: s){ if(isd(c)){ if(!cur.empty()){ w.push_back(cur); k.push_back(cur); } k.push_back(std::string(1,c)); cur=""; } else cur+=c; } if(!cur.empty()){ w.push_back(cur); k.push_back(cur); } EXPECT(split(s,ds)==w,"splitv",q(s)+vs(split(s,ds))); auto kk=split(s,ds,true); EXPECT(kk==k,"splitv.keep",q(s)+vs(kk)); std::string j; for(auto& x: kk) j+=x; EXPECT(j==s,"splitv.join",q(s)); }
  { std::string s=rw("ab \t\n",10); vf::eval(); auto sp=[](char c){ return c==' '||c=='\t'||c=='\n'||c=='\r'||c=='\v'||c=='\f'; }; size_t a=0,b=s.size(); while(a<s.size()&&sp(s[a])) ++a; while(b>a&&sp(s[b-1])) --b; EXPECT(trim(s)==s.substr(a,b-a),"trim",q(s)); EXPECT(ltrim(s)==s.substr(a),"ltrim",q(s)); size_t e=s.size(); while(e>0&&sp(s[e-1])) --e; EXPECT(rtrim(s)==s.substr(0,e),"rtrim",q(s)); }
  { std::string s=rw("aab",14), a=word(r.range(1,3),"ab"), b=rw("abc",4); vf::begin_case("replace "+q(s)+q(a)+q(b)); vf::eval(); vf::distinct("replace"+s+a+b); if(a!=b){ auto o=replaceAll(s,a,b); EXPECT(o==refReplace(s,a,b),"replace",q(s)+q(a)+q(b)+" -> "+q(o)); EXPECT(replaceAll(s,{{a,b},{"c","zz"}})==refReplace(refReplace(s,a,b),"c","zz"),"replace.rules",q(s)); } else { vf::capture([&]{ EXPECT(replaceAll(s,a,b)==s,"replace.same",q(s)); }); } }
  { std::string s=rw("ab",12), p=rw("ab*",8); char w='*'; if(r.coin(0.2)){ w='?'; for(auto& c: p) if(c=='*') c='?'; } vf::begin_case("glob "+q(s)+q(p)); vf::eval(); vf::distinct("glob"+s+p); EXPECT(stringMatchesWildcard(s,p,w)==refGlob(s.c_str(),p.c_str(),w),"wildcard",q(s)+" "+q(p)); if(r.coin(0.5)){ std::string t; for(char c: p) t+= c==w? rw("ab",3): std::string(1,c); EXPECT(stringMatchesWildcard(t,p,w),"wildcard.made",q(t)+" "+q(p)); } }
  { std::string s=rw("aab",14), a=word(r.range(1,3),"ab"); vf::eval(); std::vector<size_t> w; for(size_t i=0;i+a.size()<=s.size();++i) if(s.compare(i,a.size(),a)==0) w.push_back(i); EXPECT(findAll(s,a)==w,"findAll",q(s)+q(a)); std::string b=word(r.range(1,2),"bc"); auto m=vecFindAll(s,{a,b}); std::map<size_t,std::string> wm; for(auto& t: {a,b}) for(size_t i=0;i+t.size()<=s.size();++i) if(s.compare(i,t.size(),t)==0) wm[i]=t; EXPECT(m==wm,"vecFindAll",q(s)); size_t bg=r.range(0,s.size()); size_t nx=std::string::npos; for(auto& [i,t]: wm) if(i>=bg){ nx=i; break; } EXPECT(find_next_of(s,{a,b},bg)==nx,"find_next_of",q(s)+q(a)+q(b)); }
  { std::string a=rw("abc",8), b=rw("abc",8), c=rw("abc",8); vf::eval(); unsigned e=editDistance(a,b); EXPECT(e==refEdit(a,b),"edit",q(a)+q(b)+std::to_string(e)); EXPECT(editDistance(b,a)==e&&editDistance(a,a)==0&&editDistance(a,c)<=e+editDistance(b,c)&&((e==0)==(a==b)),"edit.metric",q(a)+q(b)+q(c)); }
  { std::string s=rw("abhw",10), t=s; char a=r.pick({'a','b','h'}), b=r.pick({'b','w','z'}); swapChars(t,a,b); vf::eval(); for(size_t i=0;i<s.size();++i) EXPECT(t[i]==(s[i]==a?b: s[i]==b?a: s[i]),"swapChars",q(s)); swapChars(t,a,b); EXPECT(t==s,"swapChars.twice",q(s)); }
  { bool sq=r.coin(); char o=sq?'[':'{', c=sq?']':'}'; std::string sep=sq?";":","; std::vector<std::string> top; std::string s=tree(r.range(0,4),o,c,sep,&top); vf::begin_case("items "+q(s)); vf::eval(); vf::distinct("items"+s); auto v= sq? getItems(s,{"[","]"},";"): getItems(s); EXPECT(v==top,"items",q(s)+vs(v)+" want "+vs(top)); auto bad=s; bad+= r.coin()? o: c; std::string out=vf::capture([&]{ auto b= sq? getItems(bad,{"[","]"},";"): getItems(bad); EXPECT(b.empty(),"items.unmatched",q(bad)); }); EXPECT(out.find("ERROR")!=std::string::npos,"items.reported",q(bad)); }
  { std::string s=rw("abcXYZ0129 _",20); unsigned h=2166136261u; for(unsigned char c: s){ h^=c; h*=16777619u; } vf::eval(); EXPECT(FNV1a_hash(s)==h,"fnv",q(s)); }
  { std::vector<std::string> v; int k=r.range(0,5); for(int i=0;i<k;++i) v.push_back(rw("ab",3)); std::string j; for(int i=0;i<k;++i) j+=(i?"::":"")+v[i]; vf::eval(); EXPECT(vectorToString(v,"::")==j,"vectorToString",vs(v)); std::vector<int> n; std::string jn; for(int i=0;i<k;++i){ n.push_back(r.range(-99,99)); jn+=(i?",":"")+std::to_string(2*n[i]); } EXPECT(vectorToString(n,",",[](int x){ return 2*x; })==jn,"vectorToString.map",jn); }
} }
template<class T> static void integer(const std::string& s,const char* name){ // exact decimal reference
  vf::eval(); bool neg=false; size_t i=0; bool ok=!s.empty(); if(ok&&(s[0]=='-'||s[0]=='+')){ neg=s[0]=='-'; i=1; } ok=ok&&i<s.size(); __int128 v=0; for(size_t k=i;k<s.size()&&ok;++k){ if(!isdigit(s[k])) ok=false; else { v=v*10+(s[k]-'0'); if(v>(__int128(1)<<100)) v=__int128(1)<<100; } } if(neg) v=-v; bool in= v>=__int128(std::numeric_limits<T>::min())&&v<=__int128(std::numeric_limits<T>::max()); if(std::is_unsigned<T>::value&&neg) in=false; bool st=true; T x=lexical_cast<T>(s,st); EXPECT(st==(ok&&in),std::string("cast.status.")+name,q(s)+" status "+std::to_string(st)); if(ok&&in) EXPECT(__int128(x)==v,std::string("cast.value.")+name,q(s)); bool f=false; lexical_cast<T>(s,f); EXPECT(!f,"cast.status.kept",q(s)); }
static void numbers(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){
  { double x; switch(r.range(0,3)){ case 0: { uint64_t b=r.next(); memcpy(&x,&b,8); if(!std::isfinite(x)) x=1; break; } case 1: x=r.range(-100000,100000); break; case 2: x=r.uni(-1,1)*std::pow(10,r.range(-30,30)); break; default: x=r.range(-1000,1000)/8.0; } char b[64]; snprintf(b,64,"%.17g",x); bool st=true; vf::begin_case(b); vf::eval(); vf::distinct(b); EXPECT(lexical_cast<double>(b,st)==x&&st,"cast.double",b); snprintf(b,64,"%.9g",float(x)); st=true; if(std::isfinite(float(x))) EXPECT(lexical_cast<float>(b,st)==float(x)&&st,"cast.float",b); }
  { std::string s; switch(r.range(0,5)){ case 0: s=std::to_string(r.range(-1000,1000)); break; case 1: s=std::to_string((long)r.next()); break; case 2: s=word(r.range(1,25),"0123456789"); break; case 3: s="-"+word(r.range(1,20),"0123456789"); break; case 4: s=rw("0129+-. xe",6); while(!s.empty()&&s[0]==' ') s.erase(0,1); break; default: s=r.pick({"2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","9223372036854775808","18446744073709551615","18446744073709551616","","0","-0","00012"}); } vf::begin_case("int "+s); vf::distinct("i"+s); integer<int>(s,"int"); integer<unsigned>(s,"unsigned"); integer<long>(s,"long"); integer<unsigned long>(s,"ulong"); }
  { std::string s=rw("01truefals ",6); if(r.coin(0.3)) s=r.pick({"1","0","true","false","True","2",""}); bool st=true; bool v=lexical_cast<bool>(s,st); vf::eval(); bool ok=s=="1"||s=="true"||s=="0"||s=="false"; EXPECT(st==ok&&(!ok||v==(s=="1"||s=="true")),"cast.bool",q(s)); st=true; EXPECT(lexical_cast<std::string>(s,st)==s&&st,"cast.string",q(s)); }
  { std::string s=rw("0123456789.eE+-x ",6); while(!s.empty()&&isspace(s[0])) s.erase(0,1); bool st=true; double v=lexical_cast<double>(s,st); char* e; bool ok=!s.empty(); double w=strtod(s.c_str(),&e); ok=ok&&*e==0&&e!=s.c_str(); vf::eval(); EXPECT(st==ok,"cast.double.status",q(s)); if(ok) EXPECT(v==w||std::isnan(w),"cast.double.value",q(s)); }
  { double x=r.uni(-1,1)*std::pow(10,r.range(-4,6)); unsigned k=r.range(0,6); std::string s=round(x,k); vf::eval(); double y=atof(s.c_str()); EXPECT(std::abs(y-x)<=0.5000001*std::pow(10,-int(k))+1e-12*std::abs(x),"round",vf::str(x)+" "+std::to_string(k)+" "+s); size_t dot=s.find('.'); EXPECT(k==0? dot==std::string::npos: dot!=std::string::npos&&s.size()-dot-1==k,"round.digits",s); double er=std::abs(x)*0.1; EXPECT(numberWithError(x,er,k)==round(x,k)+"\\pm"+round(er,k),"numberWithError",s); }
  { int a=r.range(-999,999); double b=r.uni(0,1); std::string c=rw("ab",300); char buf[600]; snprintf(buf,600,"%d|%.5f|%s",a,b,c.c_str()); vf::eval(); EXPECT(mysprintf("%d|%.5f|%s",a,b,c.c_str())==buf,"sprintf",buf); }
} }
template<class T> static void perms(){ }
static void combinatorics(int n){ auto& r=vf::rng(); for(int it=0;it<n;++it){
  { int N=r.range(0,8), R=r.range(0,N+1); vf::begin_case("nCr"); vf::eval(); vf::distinct(vf::fmt("nCr%d,%d",N,R)); auto c=nCr(N,R); long w=1; for(int i=0;i<R;++i) w=w*(N-i)/(i+1); if(R>N) w=0; std::set<std::vector<int>> s(c.begin(),c.end()); EXPECT(long(c.size())==w&&s.size()==c.size(),"nCr",vf::fmt("%d %d -> %zu want %ld",N,R,c.size(),w)); for(auto& x: c){ EXPECT(int(x.size())==R&&std::is_sorted(x.begin(),x.end())&&std::set<int>(x.begin(),x.end()).size()==x.size(),"nCr.subset",vf::vstr(x)); for(int y: x) EXPECT(y>=0&&y<N,"nCr.range",vf::vstr(x)); } }
  { int k=r.range(0,4); std::vector<std::vector<int>> e(k); size_t w=1; for(auto& v: e){ int m=r.range(r.coin(0.1)?0:1,4); for(int i=0;i<m;++i) v.push_back(100*(&v-&e[0])+i); w*=v.size(); } vf::eval(); auto c=all_combinations(e); std::set<std::vector<int>> s(c.begin(),c.end()); EXPECT(c.size()==w&&s.size()==w,"combinations",std::to_string(c.size())); for(auto& x: c) for(int i=0;i<k;++i) EXPECT(int(x.size())==k&&std::find(e[i].begin(),e[i].end(),x[i])!=e[i].end(),"combinations.element",vf::vstr(x)); }
  { int k=r.range(1,8); std::vector<size_t> p(k); std::iota(p.begin(),p.end(),0); std::vector<int> sp(k); bool uniform=r.coin(0.3); int np=r.range(1,3); for(auto& x: sp) x=uniform?0:r.range(0,np-1); std::vector<int> par(np); for(auto& x: par) x=r.coin()?-1:1; std::vector<int> ex(k); for(int i=0;i<k;++i) ex[i]=par[sp[i]]; // permute within species
    for(int t=0;t<np;++t){ std::vector<size_t> pos; for(int i=0;i<k;++i) if(sp[i]==t) pos.push_back(i); auto sh=pos; r.shuffle(sh); for(size_t i=0;i<pos.size();++i) p[pos[i]]=sh[i]; }
    auto [sw,net]=minSwaps(p,ex); size_t cyc=0; std::vector<bool> v(k); for(int i=0;i<k;++i) if(!v[i]){ ++cyc; for(size_t j=i;!v[j];j=p[j]) v[j]=true; } int sign=1; for(int i=0;i<k;++i) for(int j=i+1;j<k;++j) if(p[i]>p[j]&&sp[i]==sp[j]) sign*=ex[i]; // inversions among identical ones
    vf::eval(); vf::distinct("swap"+vf::vstr(p)+vf::vstr(ex)); EXPECT(sw==k-cyc,"minSwaps",vf::vstr(p)+" "+std::to_string(sw)); EXPECT(net==sign,"minSwaps.parity",vf::vstr(p)+vf::vstr(ex)+" "+std::to_string(net)); }
  { int k=r.coin(0.1)?r.range(0,3000):r.range(0,60); std::vector<int> v(k); for(auto& x: v) x=r.range(-20,20); auto w=v, u=v; std::sort(w.begin(),w.end()); size_t g=r.coin(0.2)?r.range(0,2):r.range(k/8+1,k+2); vf::begin_case("sort "+std::to_string(k)+" "+std::to_string(g)); if(k<60||g>size_t(k/8)){ vf::eval(); parallel_sort(v.begin(),v.end(),g); EXPECT(v==w,"sort",std::to_string(k)); parallel_sort(u.begin(),u.end(),std::greater<int>(),g); std::reverse(w.begin(),w.end()); EXPECT(u==w,"sort.comparator",std::to_string(k)); } std::vector<double> d(k); double t=0.25; for(auto& x: d){ x=r.range(-100,100)/4.0; t+=x*2; } EXPECT(parallel_accumulate(d.begin(),d.end(),0.25,[](double x){ return 2*x; })==t,"accumulate",std::to_string(k)); }
} }
DECLARE_ARGUMENT(ArgI,int); DECLARE_ARGUMENT(ArgS,std::string); DECLARE_ARGUMENT(ArgD,double); DECLARE_ARGUMENT(ArgB,bool); DECLARE_ARGUMENT(ArgV,std::vector<int>); DECLARE_ARGUMENT(ArgI2,int);
static void misc(int n){ auto& r=vf::rng(); const std::vector<std::string> en={"Alpha","Beta","AlphaBeta","gamma_4","Z"};
  for(int it=0;it<n;++it){ std::string s; int k=r.range(0,3); if(k==0) s=r.pick(en); else if(k==1){ s=r.pick(en); if(r.coin()) s.pop_back(); else s+="a"; } else if(k==2) s=std::to_string(r.range(-3,12)); else s=rw("AlphaBet, _4",7); vf::eval(); vf::distinct("e"+s); auto f=std::find(en.begin(),en.end(),s); vfEnum want=vfEnum::Invalid; if(f!=en.end()) want=vfEnum(f-en.begin()); bool num=!s.empty()&&s.find_first_not_of("0123456789")==std::string::npos; if(num){ long v=atol(s.c_str()); if(v<5) want=vfEnum(v); } if(!num&&f==en.end()&&s.find_first_not_of("0123456789+- ")==std::string::npos) continue; vf::begin_case("enum "+s); EXPECT(parse<vfEnum>(s)==want,"enum.parse",q(s)+" "+std::to_string(int(parse<vfEnum>(s)))); bool st=true; EXPECT(lexical_cast<vfEnum>(s,st)==want,"enum.cast",q(s)); }
  for(size_t i=0;i<en.size();++i){ EXPECT(to_string(vfEnum(i))==en[i]&&parse<vfEnum>(en[i])==vfEnum(i),"enum.names",en[i]); std::stringstream ss; ss<<vfEnum(i); EXPECT(ss.str()==en[i],"enum.stream",en[i]); } EXPECT(parse<vfOne>("Only")==vfOne::Only&&to_string(vfOne::Only)=="Only"&&parse<vfOne>("only")==vfOne::Invalid&&parse<vfOne>("")==vfOne::Invalid,"enum.single","");
  for(int it=0;it<n;++it){ int i=r.range(-99,99), j=r.range(-99,99); double d=r.uni(); std::string s=rw("abc"); bool b=r.coin(); std::vector<int> v(r.range(0,4),i); vf::eval(); ArgumentPack none; EXPECT(none.getArg<ArgI>(7).val==7&&none.getArg<ArgI>().val==0&&none.getArg<ArgS>(s).val==s&&none.get<ArgD>()==nullptr,"args.default",s);
    ArgumentPack p{ArgS{s},ArgI{i},ArgB{b}}; EXPECT(p.getArg<ArgI>(1234).val==i&&p.getArg<ArgS>("zzz").val==s&&p.getArg<ArgB>(!b).val==b&&p.getArg<ArgD>(d).val==d&&p.getArg<ArgI2>(j).val==j,"args.some",s); ArgumentPack a{ArgV{v},ArgI2{j},ArgD{d},ArgI{i}}; EXPECT(a.getArg<ArgI2>().val==j&&a.getArg<ArgI>().val==i&&a.getArg<ArgV>().val==v&&double(a.getArg<ArgD>())==d&&a.get<ArgS>()==nullptr&&a.get<ArgD>()&&a.get<ArgD>()->val==d,"args.all",s); }
}
static void files(int n){ auto& r=vf::rng(); std::string d=vf::scratch()+"/c15_"+std::to_string(getpid()); for(int it=0;it<n;++it){ std::string f=d+"_"+std::to_string(it); std::string t; std::vector<std::string> lines; int k=r.range(0,8); for(int i=0;i<k;++i){ std::string l=rw("#ab* ",6); lines.push_back(l); t+=l+(r.coin(0.2)?"\r":"")+((i+1<k||r.coin())?"\n":""); } { std::ofstream o(f); o<<t; } char ig=r.pick({'#','*','\0'}); std::vector<std::string> w; { std::istringstream is(t); std::string l; while(std::getline(is,l)){ l.erase(std::remove(l.begin(),l.end(),'\r'),l.end()); if(ig!='\0'&&(l.empty()||l[0]==ig)) continue; w.push_back(l); } } vf::begin_case("file "+q(t)+" ignore "+std::to_string(int(ig))); vf::eval(); vf::distinct("f"+t); auto v= ig=='#'? vectorFromFile(f): vectorFromFile(f,ig); EXPECT(v==w,"lines",q(t)+vs(v)+" want "+vs(w)); std::vector<std::string> g; processFile(f,[&](const auto& l){ g.push_back(l); },ig); EXPECT(g==w,"process",q(t)+vs(g)); EXPECT(fileExists(f)&&!fileExists(f+"x")&&!isDir(f)&&isDir(vf::scratch()),"exists",f); unlink(f.c_str()); EXPECT(!fileExists(f),"exists.gone",f); }
  for(int it=0;it<n;++it){ std::string v1=rw("ab/",5), v2=rw("cd",5); setenv("VFA",v1.c_str(),1); setenv("VFBLONG",v2.c_str(),1); std::string t,w; int k=r.range(0,5); for(int i=0;i<k;++i){ switch(r.range(0,4)){ case 0: t+="${VFA}"; w+=v1; break; case 1: t+="${VFBLONG}"; w+=v2; break; case 2: { t+="$VFBLONG"; w+=v2; std::string c=r.pick({"/",".","/x"}); t+=c; w+=c; break; } default: { auto s=rw("xyz/._",4); t+=s; w+=s; } } } if(r.coin(0.2)){ t+="/$VFA"; w+="/"+v1; } vf::begin_case("expand "+q(t)); vf::eval(); vf::distinct("g"+t); EXPECT(expandGlobals(t)==w,"expand",q(t)+" -> "+q(expandGlobals(t))+" want "+q(w)); }
  // directory listing with patterns
  for(int it=0;it<std::max(1,n/20);++it){ std::string dir=d+"_d"+std::to_string(it); if(system(("mkdir -p "+dir).c_str())) continue; std::set<std::string> made; int k=r.range(0,6); for(int i=0;i<k;++i){ auto nm=word(r.range(1,4),"ab.")+"x"; made.insert(nm); std::ofstream o(dir+"/"+nm); } std::string p= r.coin(0.3)?"":word(r.range(1,3),"ab*x"); std::set<std::string> w; for(auto& m: made) if(p.empty()||refGlob(m.c_str(),p.c_str(),'*')) w.insert(dir+"/"+m); auto v=getListOfFiles(dir,p); vf::eval(); EXPECT(std::set<std::string>(v.begin(),v.end())==w&&v.size()==w.size(),"list",p+vs(v)); for(auto& m: made) unlink((dir+"/"+m).c_str()); rmdir(dir.c_str()); }
}
void harness(){
  for(int s=0;s<vf::scale(2,8);++s){ std::string k=std::to_string(s);
    vf::section("text"+k,[]{ text(vf::scale(8000,120000)); },vf::scale(200,800)); vf::section("numbers"+k,[]{ numbers(vf::scale(20000,400000)); },vf::scale(200,800)); vf::section("combinatorics"+k,[]{ combinatorics(vf::scale(3000,30000)); },vf::scale(200,800)); }
  vf::section("misc",[]{ misc(vf::scale(10000,100000)); }); vf::section("files",[]{ files(vf::scale(400,4000)); });
}
