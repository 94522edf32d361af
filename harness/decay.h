// a model of decay trees, independent of AmpGen::Particle: generator, writer, reader
#ifndef VF_DECAY_H
#define VF_DECAY_H
#include "vf.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/QuarkContent.h"
#include <map>
#include <set>
#include <algorithm>
namespace dk {
using AmpGen::ParticleProperties; using AmpGen::ParticlePropertiesList;
struct Node { std::string name; int L=-1; int S=0; std::string ls; std::vector<std::string> flags, attrs; std::vector<Node> d; };
inline const ParticleProperties* props(const std::string& n){ return ParticlePropertiesList::get(n,true); }
// quantum numbers: smallest orbital momentum of a two-body decay (999: none)
inline bool parityOK(int P,int p1,int p2,int L){ return P==p1*p2*(L%2?-1:1); }
inline std::vector<std::pair<int,int>> couplings(int J,int P,int s1,int p1,int s2,int p2,bool par){ // (L, 2S), doubled spins
  std::vector<std::pair<int,int>> o; for(int L=0;2*L<=J+s1+s2;++L){ if(par&&!parityOK(P,p1,p2,L)) continue; for(int S=std::abs(s1-s2);S<=s1+s2;S+=2) if(std::abs(2*L-S)<=J&&J<=2*L+S&&(2*L+S+J)%2==0) o.emplace_back(L,S); } return o; }
inline bool nonres(const std::string& n){ return n.find("NonRes")!=std::string::npos; }
inline AmpGen::QuarkContent quarksOf(const Node& n){ if(!nonres(n.name)) return props(n.name)->quarkContent(); AmpGen::QuarkContent q; for(auto& d: n.d) q+=quarksOf(d); return q; }
inline bool strong(const Node& n){ if(nonres(n.name)) return true; auto p=props(n.name); int id=std::abs(p->pdgID()); if(id==23||id==24) return false; AmpGen::QuarkContent q; for(auto& d: n.d) q+=quarksOf(d); return quarksOf(n)==q; }
inline int minL(const Node& n){ if(n.d.size()!=2) return 0; auto p=props(n.name), a=props(n.d[0].name), b=props(n.d[1].name); auto c=couplings(p->twoSpin(),p->P(),a->twoSpin(),a->P(),b->twoSpin(),b->P(),strong(n)); return c.empty()? 999: c[0].first; }
inline std::string conjName(const std::string& n){ auto p=props(n); return p->hasDistinctAnti()? p->anti().name(): n; }
inline Node conj(Node n,bool head=true){ if(head) n.name=conjName(n.name); for(auto& d: n.d) d=conj(d); return n; }
inline const std::string letters="SPDFGHI";
// spell out a decay; modifiers and daughters in random order when shuffled
inline std::string write(const Node& n,bool shuffle){ auto& r=vf::rng(); std::vector<std::string> m; if(n.L>=0&&n.S>0&&(!shuffle||r.coin(0.7))){ m.push_back(std::string(1,letters[n.L])+std::to_string(n.S)); } else { if(n.L>=0) m.push_back(std::string(1,letters[n.L])); if(n.S>0) m.push_back(std::to_string(n.S)); } if(!n.ls.empty()) m.push_back(n.ls); for(auto& f: n.flags) m.push_back(f); for(auto& a: n.attrs) m.push_back(a); std::vector<Node> d=n.d; if(shuffle){ r.shuffle(m); r.shuffle(d); }
  std::string s=n.name; if(!m.empty()){ s+="["; for(size_t i=0;i<m.size();++i) s+=(i?";":"")+m[i]; s+="]"; } if(!d.empty()){ s+="{"; for(size_t i=0;i<d.size();++i) s+=(i?",":"")+write(d[i],shuffle); s+="}"; } return s; }
// independent reader of a descriptor
inline Node read(const std::string& s,size_t& i){ Node n; int depth=0; auto stop=[&](char c){ return c=='['||c=='{'||c=='}'||c==','; }; while(i<s.size()&&!stop(s[i])) n.name+=s[i++]; (void)depth; if(i<s.size()&&s[i]=='['){ ++i; std::string t; std::vector<std::string> m; for(;i<s.size()&&s[i]!=']';++i){ if(s[i]==';'){ m.push_back(t); t=""; } else t+=s[i]; } m.push_back(t); ++i; for(auto& x: m){ static const std::set<std::string> fl={"BgSpin0","Inco","NoSym"}; if(fl.count(x)) n.flags.push_back(x); else if(x.find('=')!=std::string::npos) n.attrs.push_back(x); else if(x.size()<=2&&x!="BW"&&(letters.find(x[0])!=std::string::npos||isdigit(x[0]))){ for(char c: x){ if(isdigit(c)) n.S=c-'0'; else n.L=letters.find(c); } } else n.ls=x; } } if(i<s.size()&&s[i]=='{'){ do { ++i; n.d.push_back(read(s,i)); } while(i<s.size()&&s[i]==','); ++i; } return n; }
inline Node read(const std::string& s){ size_t i=0; return read(s,i); }
// what the decay means once defaults are filled in, as an order-independent text
inline std::string canonical(const Node& n){ auto p=props(n.name); std::string ls=n.ls; if(ls.empty()||ls=="BW"){ bool narrow=nonres(n.name)||(p&&p->width()<ParticlePropertiesList::getMe()->quasiStableThreshold()); ls= p&&p->isPhoton()? "Photon": narrow? "FormFactor": "BW"; } int L=n.L; int m=minL(n); if(L<=0) L=m; auto sorted=[](std::vector<std::string> v){ std::sort(v.begin(),v.end()); std::string s; for(auto& x: v) s+=x+";"; return s; }; std::vector<std::string> k; for(auto& d: n.d) k.push_back(canonical(d)); std::sort(k.begin(),k.end()); std::string s=n.name+"<"+std::to_string(L)+","+std::to_string(n.S)+","+ls+","+sorted(n.flags)+sorted(n.attrs)+">("; for(auto& x: k) s+=x+" "; return s+")"; }
inline void leaves(const Node& n,std::vector<std::string>& o){ if(n.d.empty()) o.push_back(n.name); for(auto& d: n.d) leaves(d,o); }
}
#endif
