// independent reader of the particle tables
#ifndef VF_PTABLE_H
#define VF_PTABLE_H
#include "vf.h"
#include <fstream>
#include <sstream>
#include <array>
#include <map>
#include <cstdlib>
#include <cctype>
#include <cmath>
namespace pt {
struct Row { std::array<std::string,18> f; double mass,mp,mm,w,wp,wm; int id,q,twoJ,G,P,C; bool anti; char A; std::string name; std::array<int,6> dummy; };
inline std::string strip(const std::string& s){ size_t a=s.find_first_not_of(" \t\r"), b=s.find_last_not_of(" \t\r"); return a==std::string::npos? "": s.substr(a,b-a+1); }
inline int sgn(const std::string& s){ return s=="+"?1: s=="-"?-1: s=="++"?2: s=="--"?-2: 0; }
inline std::string flip(std::string s){ for(auto& c: s) c= c=='+'?'-': c=='-'?'+': c; return s; }
inline bool parse(const std::string& line,Row& r){ if(line.empty()||line[0]=='*'||line[0]=='#') return false; std::vector<std::string> f; std::string t; std::stringstream ss(line); std::string cur; for(char c: line){ if(c==','){ f.push_back(strip(cur)); cur=""; } else cur+=c; } f.push_back(strip(cur)); if(f.size()!=18) return false; for(int i=0;i<18;++i) r.f[i]=f[i];
  r.mass=atof(f[0].c_str()); r.mp=atof(f[1].c_str()); r.mm=atof(f[2].c_str()); r.w=atof(f[3].c_str()); r.wp=atof(f[4].c_str()); r.wm=atof(f[5].c_str()); r.id=atoi(f[12].c_str()); r.G=sgn(f[7]); r.P=sgn(f[9]); r.C=sgn(f[10]); r.q=sgn(f[13]); r.A=f[11].size()==1? f[11][0]: ' '; r.twoJ= f[8]=="?"? -1: f[8].find('/')!=std::string::npos? atoi(f[8].c_str()): 2*atoi(f[8].c_str()); r.anti=r.A!=' '; r.name=f[16]+f[13]; return true; }
inline std::vector<Row> read(const std::string& file){ std::vector<Row> v; std::ifstream in(file); std::string l; while(std::getline(in,l)){ Row r; if(parse(l,r)) v.push_back(r); } return v; }
// the entries of the table including antiparticles
struct Entry { Row r; bool bar; std::string name; int id,q,P; };
inline Entry entry(const Row& r,bool bar){ Entry e{r,bar,r.name,r.id,r.q,r.P}; if(bar){ e.id=-r.id; e.q=-r.q; e.name=r.f[16]+(r.A=='F'&&e.id<0?"bar":"")+flip(r.f[13]); if(r.twoJ%2==1) e.P=-r.P; } else e.name=r.f[16]+(r.A=='F'&&r.id<0?"bar":"")+r.f[13]; return e; }
inline std::vector<Entry> entries(const std::vector<Row>& v){ std::vector<Entry> o; for(auto& r: v){ o.push_back(entry(r,false)); if(r.anti) o.push_back(entry(r,true)); } return o; }
// quark content: the list of flavour vectors a content string admits (d,u,s,c,b,t), zero vector if there is none
typedef std::array<int,6> Q6;
inline std::vector<Q6> quarks(std::string s){ std::vector<Q6> out; if(s.find("non-qQ")!=std::string::npos) return {Q6{}}; for(size_t p;(p=s.find("sqrt"))!=std::string::npos;) s.erase(p,4); std::string tok; auto flush=[&]{ Q6 q{}; static const std::string n="dusctb"; for(char c: tok) switch(c){ case 'd': q[0]++; break; case 'D': q[0]--; break; case 'u': q[1]++; break; case 'U': q[1]--; break; case 's': q[2]++; break; case 'S': q[2]--; break; case 'c': q[3]++; break; case 'C': q[3]--; break; case 'b': q[4]++; break; case 'B': q[4]--; break; case 't': q[5]++; break; case 'T': q[5]--; break; } if(q!=Q6{}) out.push_back(q); tok=""; };
  for(char c: s){ if(c=='('||c==')'||c=='+'||c=='-') flush(); else tok+=c; } flush(); if(out.empty()) out.push_back(Q6{}); return out; }
}
#endif
