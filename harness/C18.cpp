// C18: gamma matrices, projectors, external spin states and decay vertices against dense numerical references
#include "interp.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
using namespace AmpGen; using la::C; using la::L; using la::M; using la::V;
static const L G[4]={-1,-1,-1,1}; static const C I1(0,1);
// ---- an independent Dirac algebra: Pauli-Dirac representation, index order x,y,z,t,5
static M pauli(int i){ M s(2,2); if(i==0){ s(0,1)=1; s(1,0)=1; } else if(i==1){ s(0,1)=-I1; s(1,0)=I1; } else { s(0,0)=1; s(1,1)=-1; } return s; }
static M blocks(const M& a,const M& b,const M& c,const M& d){ M r(4,4); for(int i=0;i<2;++i) for(int j=0;j<2;++j){ r(i,j)=a(i,j); r(i,j+2)=b(i,j); r(i+2,j)=c(i,j); r(i+2,j+2)=d(i,j); } return r; }
static M g(int i){ M z(2,2), o=la::id(2); if(i<3) return blocks(z,pauli(i),la::scale(pauli(i),-1.L),z); if(i==3) return blocks(o,z,z,la::scale(o,-1.L)); return blocks(z,o,o,z); }
static M sl(const V& p){ M r(4,4); for(int i=0;i<4;++i) r=la::add(r,g(i),p[i]*G[i]); return r; }
static C dt(const V& a,const V& b){ C s=0; for(int i=0;i<4;++i) s+=G[i]*a[i]*b[i]; return s; }
static V vadd(V a,const V& b,C f=1){ for(size_t i=0;i<a.size();++i) a[i]+=f*b[i]; return a; } static V vsc(V a,C f){ for(auto& x: a) x*=f; return a; }
static int sgn(int a,int b,int c,int d){ int p[4]={a,b,c,d}, s=1; for(int i=0;i<4;++i) for(int j=i+1;j<4;++j){ if(p[i]==p[j]) return 0; if(p[i]>p[j]) s=-s; } return s; }
static V eps(const V& a,const V& b,const V& c){ V r(4); for(int m=0;m<4;++m) for(int i=0;i<4;++i) for(int j=0;j<4;++j) for(int k=0;k<4;++k){ int s=sgn(m,i,j,k); if(s) r[m]+=C(s)*G[i]*a[i]*G[j]*b[j]*G[k]*c[k]; } return r; }
static V Lv(const V& P,const V& Q){ return vadd(Q,P,-dt(P,Q)/dt(P,P)); }
static M S1(const V& P){ M r(4,4); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r(i,j)=(i==j?G[i]:0)-P[i]*P[j]/dt(P,P); return r; }
static M D2(const V& P,const V& Q){ V l=Lv(P,Q); M r=la::scale(S1(P),-dt(l,l)/C(3)); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r(i,j)+=l[i]*l[j]; return r; }
static V con(const M& t,const V& v){ V r(4); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i]+=t(i,j)*G[j]*v[j]; return r; }   // t^{mu nu} v_nu
static M gm(const M& a){ M r=a; for(int i=0;i<4;++i) for(int j=0;j<4;++j) r(i,j)*=G[j]; return r; }
static C tcon(const M& a,const M& b){ C s=0; for(int i=0;i<4;++i) for(int j=0;j<4;++j) s+=G[i]*G[j]*a(i,j)*b(i,j); return s; }
static M F1(const V& P,int s){ C m=std::sqrt(dt(P,P)); return la::scale(la::add(la::id(4),sl(P),C(s)/m),0.5L); }
static M gt(const V& P,int m){ return la::add(g(m),sl(P),-P[m]/dt(P,P)); }
static M sgt(const V& P,const V& v){ M r(4,4); for(int m=0;m<4;++m) r=la::add(r,gt(P,m),G[m]*v[m]); return r; }
static V bar(const V& u){ V r(4); M g0=g(3); for(int i=0;i<4;++i) for(int j=0;j<4;++j) r[i]+=std::conj(u[j])*g0(j,i); return r; }
static C bil(const V& b,const M& m,const V& u){ V w=la::mv(m,u); C s=0; for(int i=0;i<4;++i) s+=b[i]*w[i]; return s; }
// ---- reference vertices; x, y: the spin states of the two products
using Ref=std::function<V(const V&,const V&,const V&,const V&)>;
static M T2(const V& x){ return la::from(x,4,4); }
static V flat(const M& m){ return m.a; }
static std::map<std::string,Ref> refs(){ std::map<std::string,Ref> r;
#define REF(n) r[#n]=[](const V& P,const V& Q,const V& x,const V& y)->V
  REF(S_SS_S){ return {x[0]*y[0]}; }; REF(S_VV_S){ return {dt(x,y)}; }; REF(S_VV_S1){ return {dt(x,con(S1(P),y))}; }; REF(S_VV_D){ return {dt(x,con(D2(P,Q),y))}; };
  REF(S_VV_P){ return {dt(x,eps(y,Lv(P,Q),P))}; }; REF(S_VS_P){ return {dt(x,Lv(P,Q))*y[0]}; }; REF(S_TV_P){ return {dt(con(T2(x),Lv(P,Q)),y)}; }; REF(S_TS_D){ return {tcon(T2(x),D2(P,Q))*y[0]}; }; REF(S_TT_S){ return {tcon(T2(x),T2(y))}; };
  REF(S_TV_D){ M t=la::mul(gm(T2(x)),D2(P,Q)); C s=0; for(int i=0;i<4;++i) for(int j=0;j<4;++j) for(int a=0;a<4;++a) for(int b=0;b<4;++b) s+=C(sgn(i,j,a,b))*G[i]*G[j]*G[a]*G[b]*t(i,j)*P[a]*y[b]; return {s}; };
  REF(V_SS_P){ return vsc(Lv(P,Q),x[0]*y[0]); }; REF(V_VS_P){ return vsc(eps(x,Lv(P,Q),P),y[0]); }; REF(V_VS_S){ return vsc(con(S1(P),x),y[0]); }; REF(V_VS_D){ return vsc(con(S1(P),con(D2(P,Q),x)),y[0]); }; REF(V_TS_P){ return vsc(con(S1(P),con(T2(x),Lv(P,Q))),y[0]); };
  REF(V_TS_D){ V w=vsc(con(T2(x),Lv(P,Q)),-1.L); V o=eps(P,Q,w); /* eps(mu,P,Q,nu) w_nu against eps(mu,nu,P,Q) w_nu: even permutation */ return vsc(o,y[0]); };
  REF(V_VV_P){ return vsc(Lv(P,Q),dt(x,y)); }; REF(V_VV_S){ return con(S1(P),eps(P,x,y)); }; REF(V_VV_P1){ V phi=con(S1(P),eps(P,x,y)); return vsc(eps(P,Lv(P,Q),phi),-1.L); };
  REF(V_VV_P2){ V a=con(S1(P),x), b=con(S1(P),y), l=Lv(P,Q); C xy=dt(a,b); V o=vadd(vsc(b,0.5L*dt(a,l)),vsc(a,0.5L*dt(b,l))); return vadd(o,l,-xy/C(3)); };
  REF(T_VS_D){ V e=eps(P,Q,x), l=Lv(P,Q); M t(4,4); for(int i=0;i<4;++i) for(int j=0;j<4;++j) t(i,j)=-0.5L*(e[i]*l[j]+l[i]*e[j])*y[0]; return flat(t); };
  REF(T_VS_P){ V l=Lv(P,Q), v=con(S1(P),x); M s=S1(P), t(4,4); C d=dt(l,x); for(int i=0;i<4;++i) for(int j=0;j<4;++j) t(i,j)=((l[i]*v[j]+l[j]*v[i])/C(2)-s(i,j)*d/C(3))*y[0]; return flat(t); };
  REF(T_SS_D){ return flat(la::scale(D2(P,Q),x[0]*y[0])); }; REF(T_TS_S){ M s=S1(P); M t=la::mul(gm(s),la::mul(gm(T2(x)),s)); return flat(la::scale(la::add(t,s,-tcon(T2(x),s)/C(3)),y[0])); };
  // fermions: one body for the particle (f, r) and the antiparticle (F, R), which differ in the sign of the projector
  struct Half { std::string n; std::function<V(const V&,const V&,const V&,const V&,const M&)> f; };
#define HALF(n) {n,[](const V& P,const V& Q,const V& x,const V& y,const M& F)->V
  std::vector<Half> hs={ HALF("f_fS_S"){ (void)P;(void)Q; return vsc(la::mv(F,x),y[0]); }}, HALF("f_fS_S1"){ (void)P;(void)Q; return vsc(la::mv(la::mul(F,g(4)),x),y[0]); }}, HALF("f_fS_P"){ return vsc(la::mv(la::mul(F,la::mul(g(4),sl(Lv(P,Q)))),x),y[0]); }}, HALF("f_fS_P1"){ return vsc(la::mv(la::mul(F,sl(Lv(P,Q))),x),y[0]); }},
    HALF("f_fS_SL"){ (void)P;(void)Q; return vsc(la::mv(la::mul(F,la::add(la::id(4),g(4),-1.L)),x),y[0]); }}, HALF("f_fS_SR"){ (void)P;(void)Q; return vsc(la::mv(la::mul(F,la::add(la::id(4),g(4))),x),y[0]); }},
    HALF("f_Vf_S"){ (void)Q; return la::mv(la::mul(F,la::mul(g(4),sgt(P,x))),y); }}, HALF("f_Vf_S1"){ (void)Q; return la::mv(la::mul(F,sgt(P,x)),y); }}, HALF("f_Vf_P"){ return vsc(la::mv(F,y),dt(x,Lv(P,Q))); }}, HALF("f_Vf_P2"){ return vsc(la::mv(la::mul(F,g(4)),y),dt(x,Lv(P,Q))); }},
    HALF("f_Vf_P1"){ return la::mv(la::mul(F,la::mul(g(4),sgt(P,eps(x,Lv(P,Q),P)))),y); }}, HALF("f_Vf_P3"){ return la::mv(la::mul(F,sgt(P,eps(Lv(P,Q),x,P))),y); }}, HALF("f_Vf_D"){ return la::mv(la::mul(F,la::mul(g(4),sgt(P,con(D2(P,Q),x)))),y); }}, HALF("f_Vf_D1"){ return la::mv(la::mul(F,sgt(P,con(D2(P,Q),x))),y); }},
    HALF("f_Vf_SL"){ (void)P;(void)Q; return la::mv(la::mul(F,la::mul(sl(x),la::add(la::id(4),g(4),-1.L))),y); }}, HALF("f_Vf_SR"){ (void)P;(void)Q; return la::mv(la::mul(F,la::mul(sl(x),la::add(la::id(4),g(4)))),y); }}, HALF("f_Tf_P"){ return la::mv(la::mul(F,sgt(P,con(T2(x),Lv(P,Q)))),y); }},
    HALF("r_fS_P"){ V l=Lv(P,Q); V o; for(int m=0;m<4;++m){ V w=la::mv(la::add(la::scale(F,-l[m]),la::mul(F,la::mul(gt(P,m),sl(l))),1.L/3),x); for(auto& z: w) o.push_back(z*y[0]); } return o; }},
    HALF("r_fS_D"){ V l=Lv(P,Q); V o; for(int m=0;m<4;++m){ M t=la::add(la::scale(la::mul(F,sl(l)),l[m]),la::mul(F,gt(P,m)),-dt(l,l)/C(3)); V w=la::mv(la::mul(t,g(4)),x); for(auto& z: w) o.push_back(z*y[0]); } return o; }},
    HALF("f_rS_P"){ V l=Lv(P,Q), w(4); for(int m=0;m<4;++m) for(int a=0;a<4;++a) w[a]+=G[m]*l[m]*x[m*4+a]; return vsc(la::mv(F,w),y[0]); }}, HALF("f_rS_P1"){ V l=Lv(P,Q), w(4); for(int m=0;m<4;++m) for(int a=0;a<4;++a) w[a]+=G[m]*l[m]*x[m*4+a]; return vsc(la::mv(la::mul(F,g(4)),w),y[0]); }},
    HALF("f_rS_D"){ M d=D2(P,Q); V o(4); for(int m=0;m<4;++m){ V w(4); for(int n=0;n<4;++n) for(int a=0;a<4;++a) w[a]+=G[m]*G[n]*d(m,n)*x[n*4+a]; o=vadd(o,la::mv(la::mul(F,la::mul(g(4),gt(P,m))),w)); } return vsc(o,y[0]); }} };
  for(auto& h: hs){ auto f=h.f; r[h.n]=[f](const V& P,const V& Q,const V& x,const V& y){ return f(P,Q,x,y,F1(P,1)); }; std::string N=h.n; for(size_t i=0;i<4;++i){ if(N[i]=='f') N[i]='F'; if(N[i]=='r') N[i]='R'; } r[N]=[f](const V& P,const V& Q,const V& x,const V& y){ return f(P,Q,x,y,F1(P,-1)); }; }
  auto cur=[](const V& P,const V& a,const M& m,const V& b,bool proj){ V o(4); for(int i=0;i<4;++i) o[i]=bil(bar(a),la::mul(g(i),m),b); return proj? con(S1(P),o): o; };
  REF(S_fF_S){ (void)P;(void)Q; return {bil(bar(y),la::id(4),x)}; }; REF(S_fF_S1){ (void)P;(void)Q; return {bil(bar(y),g(4),x)}; };
  r["V_fF_S"]=[cur](const V& P,const V&,const V& x,const V& y){ return cur(P,y,la::id(4),x,true); }; r["V_fF_S1"]=[](const V&,const V&,const V& x,const V& y){ V o(4); for(int i=0;i<4;++i) o[i]=bil(bar(y),la::mul(g(4),g(i)),x); return o; };
  r["V_fF_PL"]=[cur](const V& P,const V&,const V& x,const V& y){ return cur(P,x,la::add(la::id(4),g(4),-1.L),y,true); }; r["V_fF_PR"]=[cur](const V& P,const V&,const V& x,const V& y){ return cur(P,x,la::add(la::id(4),g(4)),y,true); };
  return r; }
// ---- inputs
static int dimOf(char c){ switch(c){ case 'S': return 1; case 'V': case 'f': case 'F': return 4; default: return 16; } }
static Tensor tens(const V& v,char c,Interp& in,const std::string& tag,bool sym){ std::vector<Expression> e; for(size_t i=0;i<v.size();++i){ if(!sym) e.push_back(Constant(double(v[i].real()),double(v[i].imag()))); else { std::string n=tag+std::to_string(i); in.v[n+"r"]=v[i].real(); in.v[n+"i"]=v[i].imag(); e.push_back(Expression(Parameter(n+"r"))+Constant(0,1)*Expression(Parameter(n+"i"))); } } if(c=='S') return Tensor(e,Tensor::dim(1)); if(dimOf(c)==4) return Tensor(e,Tensor::dim(4)); return Tensor(e,Tensor::dim(4,4)); }
static Tensor vec(const V& v,Interp& in,const std::string& tag,bool sym){ std::vector<Expression> e; for(int i=0;i<4;++i){ if(!sym) e.push_back(double(v[i].real())); else { in.v[tag+std::to_string(i)]=v[i].real(); e.push_back(Parameter(tag+std::to_string(i))); } } return Tensor(e,Tensor::dim(4)); }
static V rnd(char c){ auto& r=vf::rng(); V v(dimOf(c)); for(auto& z: v) z=C(double(r.gauss()),double(r.gauss())); if(c=='T') for(int i=0;i<4;++i) for(int j=0;j<i;++j) v[i*4+j]=v[j*4+i]; return v; }
static V mom(double m,double scale){ auto& r=vf::rng(); V p(4); L s=0; for(int i=0;i<3;++i){ p[i]=double(r.gauss()*scale); s+=std::norm(p[i]); } if(r.coin(0.1)){ p[0]=p[1]=0; s=std::norm(p[2]); } p[3]=double(sqrtl(s+L(m)*m)); return p; }
static L vn(const V& a){ L s=0; for(auto& z: a) s=std::max(s,std::abs(z)); return s; }
static L vd(const V& a,const V& b){ if(a.size()!=b.size()) return 1e300L; L s=0; for(size_t i=0;i<a.size();++i) s=std::max(s,std::abs(a[i]-b[i])); return s; }
// ---- Lorentz transformations: vector matrix and the matching spinor matrix, from their generators
static void lorentz(M& v,M& s,bool boosts){ auto& r=vf::rng(); M w(4,4); L b[3],t[3]; for(int i=0;i<3;++i){ b[i]=boosts? r.gauss()*0.4:0; t[i]=r.gauss()*1.5; } for(int i=0;i<3;++i){ w(i,3)=b[i]; w(3,i)=b[i]; } w(0,1)=-t[2]; w(1,0)=t[2]; w(0,2)=t[1]; w(2,0)=-t[1]; w(1,2)=-t[0]; w(2,1)=t[0]; v=la::expm(w); M k(4,4); for(int i=0;i<3;++i){ k=la::add(k,la::mul(g(3),g(i)),0.5L*b[i]); M sg=blocks(pauli(i),M(2,2),M(2,2),pauli(i)); k=la::add(k,sg,C(0,-0.5L*t[i])); } s=la::expm(k); }
static V act(const V& x,char c,const M& v,const M& s){ switch(c){ case 'S': return x; case 'V': return la::mv(v,x); case 'f': case 'F': return la::mv(s,x); case 'T': return la::mul(v,la::mul(T2(x),la::tr(v))).a; default: return la::mul(v,la::mul(T2(x),la::tr(s))).a; } }
static std::vector<std::string> names(){ std::vector<std::string> o; for(auto& [k,p]: Factory<Vertex::Base>::getMe()->m_terms) o.push_back(k); return o; }
static void vertices(int part,int parts,int n){ auto& r=vf::rng(); auto rf=refs(); auto all=names(); static const std::set<std::string> photon={"S_VV_rp","S_VV_rm","S_TV_rp","S_TV_rm"}; if(part==0){ for(auto& [k,f]: rf) EXPECT(Factory<Vertex::Base>::get(k,true)!=nullptr,"registered",k); }
  for(size_t q=part;q<all.size();q+=parts){ auto nm=all[q]; if(nm.size()<6||nm[1]!='_'||nm[4]!='_') continue; char h=nm[0], a=nm[2], b=nm[3]; if(photon.count(nm)) continue; bool chiral=nm.back()=='L'||nm.back()=='R'; for(int it=0;it<n;++it){ V p1=mom(r.uni(0.1,2),r.uni(0.2,2)), p2=mom(r.uni(0.1,2),r.uni(0.2,2)); V P=vadd(p1,p2), Q=vadd(p1,p2,-1.L); for(auto& z: P) z=double(z.real()); for(auto& z: Q) z=double(z.real()); V x=rnd(a), y=rnd(b); bool sym=r.coin(0.4); std::string d=nm+vf::fmt(" #%d",it); vf::begin_case(d+" P="+vf::vstr(P)+" Q="+vf::vstr(Q)+" V1="+vf::vstr(x)+" V2="+vf::vstr(y)); vf::eval(); vf::distinct(vf::fmt("%Lg%Lg",P[0].real(),x[0].real())+nm);
      auto run=[&](const V& P,const V& Q,const V& x,const V& y)->V{ Interp in; Tensor t=Vertex::Factory::getSpinFactor(vec(P,in,"P",sym),vec(Q,in,"Q",sym),tens(x,a,in,"u",sym),tens(y,b,in,"w",sym),nm); return in(t); };
      V o; std::string msg; bool threw=false; std::string out=vf::capture([&]{ try { o=run(P,Q,x,y); } catch(std::exception& e){ threw=true; msg=e.what(); } }); if(threw||int(o.size())!=dimOf(h)){ EXPECT(false,"shape."+nm,d+vf::fmt(": %zu components ",o.size())+msg+out.substr(0,200)); break; }
      L sc=1+vn(o); L tol=1e-10L*sc*std::pow(1+vn(P),4)*(1+vn(x))*(1+vn(y)); V P0=P; L pm=std::max<L>(1,vn(P)*vn(P)/std::abs(dt(P,P))); tol*=pm*pm;
      auto f=rf.find(nm); if(f!=rf.end()){ V w=f->second(P,Q,x,y); EXPECT(vd(o,w)<tol,"value."+nm,d+": got "+vf::vstr(o)+" want "+vf::vstr(w)); vf::count("reference"); }
      // transforms as its indices say
      M v,s; lorentz(v,s,true); auto dr=[](V z){ for(auto& w: z) w=C(double(w.real()),double(w.imag())); return z; }; L amp=std::pow(std::max<L>(1,la::norm(v)),6); V o2; vf::capture([&]{ o2=run(dr(la::mv(v,P)),dr(la::mv(v,Q)),dr(act(x,a,v,s)),dr(act(y,b,v,s))); }); EXPECT(vd(o2,act(o,h,v,s))<tol*amp*10,"covariant."+nm,d+": got "+vf::vstr(o2)+" want "+vf::vstr(act(o,h,v,s)));
      // linear in the state of each product (antilinear where it enters through its bar)
      C ca(double(r.gauss()),double(r.gauss())), cb(double(r.gauss()),double(r.gauss())); V oa,ob; vf::capture([&]{ oa=run(P,Q,dr(vsc(x,ca)),y); ob=run(P,Q,x,dr(vsc(y,cb))); }); auto lin=[&](const V& z,C c){ return std::min(vd(z,vsc(o,c)),vd(z,vsc(o,std::conj(c)))); }; EXPECT(lin(oa,ca)<tol*(1+std::abs(ca)),"linear.first."+nm,d+vf::fmt(" %Lg",lin(oa,ca))); EXPECT(lin(ob,cb)<tol*(1+std::abs(cb)),"linear.second."+nm,d+vf::fmt(" %Lg",lin(ob,cb)));
      // parity: space inversion gives back the inverted object up to one sign
      if(!chiral){ M pv(4,4); for(int i=0;i<4;++i) pv(i,i)=G[i]; M ps=g(3); V o3; vf::capture([&]{ o3=run(la::mv(pv,P),la::mv(pv,Q),act(x,a,pv,ps),act(y,b,pv,ps)); }); V w=act(o,h,pv,ps); EXPECT(std::min(vd(o3,w),vd(o3,vsc(w,-1.L)))<tol,"parity."+nm,d); }
      // the spin it claims
      if(h=='V'&&nm!="V_fF_S1") EXPECT(std::abs(dt(o,P))<tol*vn(P),"transverse."+nm,d+vf::fmt(" %Lg",std::abs(dt(o,P))));
      if(h=='T'){ M t=T2(o); C tr=0; for(int i=0;i<4;++i) tr+=G[i]*t(i,i); EXPECT(vn(con(t,P))<tol*vn(P),"transverse."+nm,d); EXPECT(vn(con(la::tr(t),P))<tol*vn(P),"transverse2."+nm,d); EXPECT(std::abs(tr)<tol,"traceless."+nm,d+vf::fmt(" %Lg",std::abs(tr))); EXPECT(la::dist(t,la::tr(t))<tol,"symmetric."+nm,d); }
      C m=std::sqrt(dt(P,P)); int sg= h=='f'||h=='r'? 1: -1; if(h=='f'||h=='F') EXPECT(vd(la::mv(sl(P),o),vsc(o,m*C(sg)))<tol*vn(P)*4,"dirac."+nm,d+vf::fmt(" %Lg",vd(la::mv(sl(P),o),vsc(o,m*C(sg)))));
      if(h=='r'||h=='R'){ V pc(4), gc(4); for(int mu=0;mu<4;++mu){ V w(4); for(int i=0;i<4;++i) w[i]=o[mu*4+i]; EXPECT(vd(la::mv(sl(P),w),vsc(w,m*C(sg)))<tol*vn(P)*4,"dirac."+nm,d); pc=vadd(pc,w,P[mu]*G[mu]); gc=vadd(gc,la::mv(g(mu),w),G[mu]); } EXPECT(vn(pc)<tol*vn(P)*4,"transverse."+nm,d); EXPECT(vn(gc)<tol*16,"gammatraceless."+nm,d+vf::fmt(" %Lg",vn(gc))); }
      // exchange of two equal products
      if(a==b&&a!='f'&&nm.substr(5)!="S1"){ V o4; vf::capture([&]{ o4=run(P,vsc(Q,-1.L),y,x); }); EXPECT(std::min(vd(o4,o),vd(o4,vsc(o,-1.L)))<tol,"exchange."+nm,d); vf::count("exchange"); }
      vf::count("vertex"); } vf::distinct(nm); if(part==0&&q<3) vf::sample(nm); } }
// radiative vertices: rotation covariant, unchanged by a shift of the photon polarisation along its momentum, one sign of helicity only enters
static void radiative(int n){ auto& r=vf::rng(); for(auto nm: {"S_VV_rp","S_VV_rm","S_TV_rp","S_TV_rm"}){ if(!Factory<Vertex::Base>::get(nm,true)){ EXPECT(false,"registered",nm); continue; } char a=nm[2]; for(int it=0;it<n;++it){ V k=mom(0,1), p1=mom(r.uni(0.5,2),1); auto dr=[](V z){ for(auto& w: z) w=C(double(w.real()),double(w.imag())); return z; }; V P=dr(vadd(p1,k)),Q=dr(vadd(p1,k,-1.L)); V x=rnd(a), y=rnd('V'); y[3]=0; if(a=='V') x=dr(con(S1(p1),x)); else { M s=S1(p1); x=dr(la::mul(gm(s),la::mul(gm(T2(x)),s)).a); for(int i=0;i<4;++i) for(int j=0;j<i;++j) x[i*4+j]=x[j*4+i]; } L kk=0; C ky=0; for(int i=0;i<3;++i){ kk+=std::norm(k[i]); ky+=k[i]*y[i]; } for(int i=0;i<3;++i) y[i]-=k[i]*ky/kk; y=dr(y); std::string d=std::string(nm)+vf::fmt(" #%d",it); vf::begin_case(d); vf::eval(); vf::distinct(d+vf::fmt("%Lg",k[0].real())); auto run=[&](const V& P,const V& Q,const V& x,const V& y)->V{ Interp in; V o; vf::capture([&]{ Tensor t=Vertex::Factory::getSpinFactor(vec(P,in,"P",false),vec(Q,in,"Q",false),tens(x,a,in,"u",false),tens(y,'V',in,"w",false),nm); o=in(t); }); return o; }; V o=run(P,Q,x,y); if(o.size()!=1){ EXPECT(false,std::string("shape.")+nm,d); break; } L tol=1e-9L*(1+vn(P))*(1+vn(P))*(1+vn(P))*(1+vn(P))*(1+vn(x))*(1+vn(y))*std::max<L>(1,1/sqrtl(kk));
      { V W= a=='V'? x: con(T2(x),k), H(4); L km=sqrtl(kk); for(int i=0;i<3;++i) for(int j=0;j<3;++j) for(int q=0;q<3;++q) H[j]+=I1*C(-((i-j)*(j-q)*(q-i)/2.L))*k[i]/km*y[q]; bool hl=std::string(nm)=="S_VV_rp"||std::string(nm)=="S_TV_rm"; const V& e1= hl? H: y; const V& e2= hl? y: H; C w=-I1*dt(e1,eps(W,p1,k))+dt(e2,W)*dt(p1,k)-dt(e2,p1)*dt(W,k); EXPECT(std::abs(o[0]-w)<tol,std::string("value.")+nm,d+" "+vf::vstr(o)+vf::fmt(" want (%Lg,%Lg)",w.real(),w.imag())); }
      M v,s; lorentz(v,s,false); V o2=run(dr(la::mv(v,P)),dr(la::mv(v,Q)),dr(act(x,a,v,s)),dr(act(y,'V',v,s))); EXPECT(vd(o,o2)<tol,std::string("rotation.")+nm,d);
      V og=run(P,Q,x,dr(vadd(y,k,0.7L))); (void)og; // the helicity operator annihilates the momentum direction, the field strength annihilates the momentum
      EXPECT(vd(o,og)<tol,std::string("gauge.")+nm,d+" "+vf::vstr(o)+" vs "+vf::vstr(og)); C c(double(r.gauss()),double(r.gauss())); V oc=run(P,Q,x,dr(vsc(y,c))); EXPECT(vd(oc,vsc(o,c))<tol*(1+std::abs(c)),std::string("linear.")+nm,d); vf::count("radiative"); } } }
static M toM(Interp& in,const Tensor& t,int n){ return la::from(in(t),n,n); }
static void algebra(int n){ Interp in; for(int i=0;i<5;++i) EXPECT(la::dist(toM(in,Gamma[i],4),g(i))<1e-15L,"gamma",vf::fmt("%d",i)); for(int i=0;i<4;++i) for(int j=0;j<4;++j){ M a=toM(in,Gamma[i],4),b=toM(in,Gamma[j],4); M ac=la::add(la::mul(a,b),la::mul(b,a)); EXPECT(la::dist(ac,la::scale(la::id(4),i==j?2*G[i]:0))<1e-14L,"clifford",vf::fmt("%d %d",i,j)); } M g5=toM(in,Gamma[4],4); for(int i=0;i<4;++i) EXPECT(la::norm(la::add(la::mul(g5,toM(in,Gamma[i],4)),la::mul(toM(in,Gamma[i],4),g5)))<1e-14L,"gamma5",vf::fmt("%d",i));
  for(int i=0;i<3;++i){ EXPECT(la::dist(toM(in,Sigma[i],2),pauli(i))<1e-15L,"sigma",vf::fmt("%d",i)); M z(2,2); EXPECT(la::dist(toM(in,Sigma4[i],4),blocks(pauli(i),z,z,pauli(i)))<1e-15L,"sigma4",vf::fmt("%d",i)); M so=toM(in,SO3[i],4); for(int j=0;j<4;++j) for(int k=0;k<4;++k){ L w= j<3&&k<3? -((i-j)*(j-k)*(k-i)/2.L): 0; EXPECT(std::abs(so(j,k)-C(w))<1e-15L,"so3",vf::fmt("%d %d %d: %Lg want %Lg",i,j,k,so(j,k).real(),w)); } }
  for(int i=0;i<8;++i) for(int j=0;j<8;++j){ M p=la::mul(toM(in,SU3[i],3),toM(in,SU3[j],3)); C t=0; for(int k=0;k<3;++k) t+=p(k,k); EXPECT(std::abs(t-C(i==j?2:0))<1e-14L,"su3",vf::fmt("%d %d",i,j)); }
  Tensor g4=Gamma4Vec(); auto gv=in(g4); EXPECT(gv.size()==64,"gamma4vec",""); if(gv.size()==64) for(int m=0;m<4;++m) for(int i=0;i<4;++i) for(int j=0;j<4;++j) EXPECT(std::abs(gv[m*16+i*4+j]-g(m)(i,j))<1e-15L,"gamma4vec",""); 
  auto& r=vf::rng(); for(int it=0;it<n;++it){ double m=std::pow(10.,r.uni(-1,1)); V P=mom(m,r.uni(0,3)), q=mom(r.uni(0.1,2),1); bool sym=r.coin(); Interp in; Tensor Pt=vec(P,in,"P",sym), Qt=vec(q,in,"q",sym); C m2=dt(P,P); L sc=std::pow(std::max<L>(1,vn(P)*vn(P)/std::abs(m2)),2); L tol=1e-11L*sc*sc; std::string d=vf::vstr(P); vf::begin_case(d); vf::eval(); vf::distinct(d); 
    M s1=toM(in,Spin1Projector(Pt),4); EXPECT(la::dist(s1,S1(P))<tol,"spin1.value",d); EXPECT(la::dist(la::mul(gm(s1),s1),s1)<tol*10,"spin1.idempotent",d); EXPECT(vn(con(s1,P))<tol*vn(P)*10,"spin1.transverse",d); C tr=0; for(int i=0;i<4;++i) tr+=G[i]*s1(i,i); EXPECT(std::abs(tr-C(3))<tol*10,"spin1.states",d);
    { auto o=in(Spin2Projector(Pt)); EXPECT(o.size()==256,"spin2.size",d); if(o.size()==256){ auto at=[&](int a,int b,int c,int e){ return o[((a*4+b)*4+c)*4+e]; }; L id=0,tv=0,tl=0,sy=0; C n2=0; for(int a=0;a<4;++a) for(int b=0;b<4;++b){ n2+=G[a]*G[b]*at(a,b,a,b); for(int c=0;c<4;++c) for(int e=0;e<4;++e){ C s=0; for(int i=0;i<4;++i) for(int j=0;j<4;++j) s+=at(a,b,i,j)*G[i]*G[j]*at(i,j,c,e); id=std::max(id,std::abs(s-at(a,b,c,e))); sy=std::max({sy,std::abs(at(a,b,c,e)-at(b,a,c,e)),std::abs(at(a,b,c,e)-at(c,e,a,b))}); } C t=0; for(int i=0;i<4;++i) t+=G[i]*at(i,i,a,b); tl=std::max(tl,std::abs(t)); for(int c=0;c<4;++c){ C s=0; for(int i=0;i<4;++i) s+=G[i]*P[i]*at(i,a,b,c); tv=std::max(tv,std::abs(s)); } } L t2=tol*sc*100; EXPECT(id<t2,"spin2.idempotent",d+vf::fmt(" %Lg",id)); EXPECT(sy<t2,"spin2.symmetric",d); EXPECT(tl<t2,"spin2.traceless",d); EXPECT(tv<t2*vn(P),"spin2.transverse",d); EXPECT(std::abs(n2-C(5))<t2,"spin2.states",d+vf::fmt(" %Lg",n2.real())); } }
    for(int s=-1;s<=1;s+=2){ M f=toM(in,s>0?Spin1hProjector(Pt):Spin1hbProjector(Pt),4); EXPECT(la::dist(f,F1(P,s))<tol,"spin1h.value",d); EXPECT(la::dist(la::mul(f,f),f)<tol*10,"spin1h.idempotent",d); C t=0; for(int i=0;i<4;++i) t+=f(i,i); EXPECT(std::abs(t-C(2))<tol*10,"spin1h.states",d);
      auto o=in(s>0?Spin3hProjector(Pt):Spin3hbProjector(Pt)); EXPECT(o.size()==256,"spin3h.size",d); if(o.size()==256){ // indices mu, nu, a, b
        auto B=[&](int mu,int nu){ M b(4,4); for(int i=0;i<4;++i) for(int j=0;j<4;++j) b(i,j)=o[((mu*4+nu)*4+i)*4+j]; return b; }; L id=0,tv=0,gl=0,dq=0; C cnt=0; for(int a=0;a<4;++a){ M bb=B(a,a); for(int i=0;i<4;++i) cnt-=G[a]*bb(i,i); for(int b=0;b<4;++b){ M s2(4,4); for(int i=0;i<4;++i) s2=la::add(s2,la::mul(B(a,i),B(i,b)),G[i]); id=std::max(id,la::dist(la::scale(s2,-1.L),B(a,b))); dq=std::max(dq,la::dist(la::mul(sl(P),B(a,b)),la::scale(B(a,b),C(s)*std::sqrt(m2)))); } M t(4,4),u(4,4); for(int i=0;i<4;++i){ t=la::add(t,B(i,a),G[i]*P[i]); u=la::add(u,la::mul(g(i),B(i,a)),G[i]); } tv=std::max(tv,la::norm(t)); gl=std::max(gl,la::norm(u)); } L t2=tol*sc*100; EXPECT(id<t2,"spin3h.idempotent",d+vf::fmt(" %Lg",id)); EXPECT(tv<t2*vn(P),"spin3h.transverse",d); EXPECT(gl<t2,"spin3h.gammatraceless",d+vf::fmt(" %Lg",gl)); EXPECT(dq<t2*vn(P),"spin3h.dirac",d); EXPECT(std::abs(cnt-C(4))<t2,"spin3h.states",d+vf::fmt(" %Lg",cnt.real())); } }
    EXPECT(vd(in(Orbital_PWave(Pt,Qt)),Lv(P,q))<tol*10,"orbital.P",d); EXPECT(vd(in(Orbital_DWave(Pt,Qt)),D2(P,q).a)<tol*100*(1+vn(q)*vn(q)),"orbital.D",d); EXPECT(la::dist(toM(in,slash(Pt),4),sl(P))<tol,"slash",d); { M m=toM(in,slash(Pt),4); EXPECT(la::dist(la::mul(m,m),la::scale(la::id(4),m2))<tol*vn(P)*vn(P)*10,"slash.square",d); } auto gg=in(gamma_twiddle(Pt)); for(int mu=0;mu<4&&gg.size()==64;++mu) for(int i=0;i<16;++i) EXPECT(std::abs(gg[mu*16+i]-gt(P,mu).a[i])<tol*10,"gammatwiddle",d); V u=rnd('f'); EXPECT(vd(in(Bar(tens(u,'f',in,"s",false))),bar(u))<1e-13L*(1+vn(u)),"bar",d); vf::count("momenta"); } }
// external spin states
static V boost(const V& p,const V& rest,L m){ // active boost taking a state at rest to momentum p
  L gm=p[3].real()/m; V o(4); C bp=0; for(int i=0;i<3;++i) bp+=p[i]*rest[i]/m; for(int i=0;i<3;++i) o[i]=rest[i]+p[i]/m*(bp/(1+gm)+rest[3]); o[3]=gm*rest[3]+bp; return o; }
static void external(const std::string& basis,int n){ auto& r=vf::rng(); AmpGen::OptionsParser::setArg("Particle::SpinBasis "+basis); std::vector<std::string> nm={"K*(892)0","rho(770)0","omega(782)0","phi(1020)0","J/psi0","p+","pbar-","Lambda0","Lambdabar0","mu-","mu+","tau-","e-","e+"}; if(basis=="Weyl") nm.push_back("gamma0"); bool weyl=basis=="Weyl"; for(int it=0;it<n;++it){ auto name=r.pick(nm); Particle par(name); if(!par.props()){ continue; } int ts=par.props()->twoSpin(); bool photon=par.props()->isPhoton(); L m=par.mass(); V p=mom(double(m),std::pow(10.,r.uni(-1,0.7))); L pp=0; std::string kind="generic"; switch(r.range(0,9)){ case 0: { double z=r.uni(0.1,3); p[0]=p[1]=0; p[2]=z; kind="+z"; break; } case 1: { double z=r.uni(0.1,3); p[0]=p[1]=0; p[2]=-z; kind="-z"; break; } case 2: if(!photon){ p[0]=p[1]=p[2]=0; kind="rest"; } break; case 3: p[2]=0; kind="transverse"; break; } for(int i=0;i<3;++i) pp+=std::norm(p[i]); p[3]=double(sqrtl(pp+m*m)); pp=sqrtl(pp); par.setIndex(0); Interp in; const char* cn[4]={"0_Px","0_Py","0_Pz","0_E"}; for(int i=0;i<4;++i) in.v[cn[i]]=p[i].real(); std::string d=basis+" "+name+" "+kind+" "+vf::vstr(p); vf::begin_case(d); vf::eval(); vf::distinct(d); vf::count(kind); std::vector<int> st= ts==1? std::vector<int>{-1,1}: photon? std::vector<int>{-1,1}: std::vector<int>{-1,0,1}; std::map<int,V> e; bool ok=true; for(int s: st){ V o; vf::capture([&]{ o=in(par.externalSpinTensor(s)); }); if(o.size()!=4){ EXPECT(false,"size",d); ok=false; } e[s]=o; } if(!ok) continue; EXPECT(in.unset.empty(),"unset",d+vf::vstr(in.unset)); L gam=p[3].real()/std::max<L>(m,1e-3L); L tol=1e-10L*gam*gam*10; std::string K="."+basis+(ts==1?".half":".one");
    if(ts==2){ for(int a: st){ EXPECT(std::abs(dt(e[a],p))<tol*vn(p),"wave"+K,d+vf::fmt(" pol %d: %Lg",a,std::abs(dt(e[a],p)))); for(int b: st){ V cb=e[b]; for(auto& z: cb) z=std::conj(z); EXPECT(std::abs(dt(e[a],cb)-C(a==b?-1:0))<tol,"normalised"+K,d+vf::fmt(" %d %d",a,b)); } } M sum(4,4); for(int a: st) for(int i=0;i<4;++i) for(int j=0;j<4;++j) sum(i,j)+=e[a][i]*std::conj(e[a][j]); if(photon){ M w(4,4); for(int i=0;i<3;++i) for(int j=0;j<3;++j) w(i,j)=C(i==j?1:0)-p[i]*p[j]/(pp*pp); EXPECT(la::dist(sum,w)<tol,"complete"+K,d); } else EXPECT(la::dist(la::scale(sum,-1.L),S1(p))<tol*10,"complete"+K,d+vf::fmt(" %Lg",la::dist(la::scale(sum,-1.L),S1(p))));
      // Dirac basis: rest states with definite projection on z, boosted; Weyl basis: eigenstates of helicity
      if(!weyl){ L q=1/sqrtl(2.L); std::map<int,V> rs={{1,{-q,-q*I1,0,0}},{-1,{q,-q*I1,0,0}},{0,{0,0,1,0}}}; for(int a: st){ V w=boost(p,rs[a],m); EXPECT(vd(w,e[a])<tol*10,"boosted"+K,d+vf::fmt(" pol %d",a)+vf::vstr(e[a])+" want "+vf::vstr(w)); } }
      else { for(int a: st){ V h(4); for(int i=0;i<3;++i) for(int j=0;j<3;++j) for(int k=0;k<3;++k){ L s=((i-j)*(j-k)*(k-i)/2.L); V n(3); for(int q=0;q<3;++q) n[q]= pp>1e-9L? p[q]/pp: C(q==2); h[j]+=-I1*n[i]*C(s)*e[a][k]*C(1); } V w=vsc(e[a],C(a)); if(a==0){ for(int i=0;i<3;++i) w[i]=0; w[3]=0; } w[3]=0; EXPECT(vd(h,w)<tol*10,"helicity"+K,d+vf::fmt(" pol %d ",a)+vf::vstr(e[a])); } } }
    else { int sg=par.props()->pdgID()>0? 1:-1; M sum(4,4); for(int a: st){ EXPECT(vd(la::mv(sl(p),e[a]),vsc(e[a],C(sg*m)))<tol*vn(p)*4,"wave"+K,d+vf::fmt(" pol %d ",a)+vf::vstr(e[a])); for(int b: st) EXPECT(std::abs(bil(bar(e[a]),la::id(4),e[b])-C(a==b?sg:0))<tol,"normalised"+K,d+vf::fmt(" %d %d",a,b)); V ba=bar(e[a]); for(int i=0;i<4;++i) for(int j=0;j<4;++j) sum(i,j)+=e[a][i]*ba[j]; } EXPECT(la::dist(sum,la::scale(F1(p,sg),sg))<tol*4,"complete"+K,d);
      if(!weyl){ M bo(4,4); { L ch=sqrtl((p[3].real()+m)/(2*m)); bo=la::scale(la::id(4),ch); for(int i=0;i<3;++i) bo=la::add(bo,la::mul(g(3),g(i)),p[i]*ch/(p[3].real()+m)); } for(int a: st){ V w(4); w[(sg>0?0:2)+(a>0?0:1)]=1; w=la::mv(bo,w); EXPECT(vd(w,e[a])<tol*10,"boosted"+K,d+vf::fmt(" pol %d ",a)+vf::vstr(e[a])+" want "+vf::vstr(w)); } }
      else for(int a: st){ M h(4,4); for(int i=0;i<3;++i){ M z(2,2); C n= pp>1e-9L? p[i]/pp: C(i==2); h=la::add(h,blocks(pauli(i),z,z,pauli(i)),n); } EXPECT(vd(la::mv(h,e[a]),vsc(e[a],C(a)))<tol*10,"helicity"+K,d+vf::fmt(" pol %d ",a)+vf::vstr(e[a])); } }
    if(it<3) vf::sample(d); } for(auto k: {"generic","+z","-z","rest","transverse"}) vf::require(k,2); }
// three products coupled to a vector through the antisymmetric tensor of their momenta
static void nbody(int n){ for(int it=0;it<n;++it){ V a=mom(0.14,1),b=mom(0.14,1),c=mom(0.14,1); Interp in; auto one=Tensor(std::vector<double>({1.}),{1}); auto run=[&](const V& a,const V& b,const V& c){ return in(Vertex::Factory::getSpinFactorNBody({{vec(a,in,"",false),one},{vec(b,in,"",false),one},{vec(c,in,"",false),one}},1)); }; V o=run(a,b,c); std::string d=vf::vstr(a)+vf::vstr(b)+vf::vstr(c); vf::begin_case(d); vf::eval(); L tol=1e-11L*std::pow(1+vn(a)+vn(b)+vn(c),4); EXPECT(vd(o,eps(a,b,c))<tol,"nbody",d+vf::vstr(o)); EXPECT(vd(run(b,a,c),vsc(o,-1.L))<tol&&vd(run(a,c,b),vsc(o,-1.L))<tol,"nbody.antisymmetric",d); EXPECT(std::abs(dt(o,vadd(a,vadd(b,c))))<tol*10,"nbody.transverse",d); V s=in(Vertex::Factory::getSpinFactorNBody({{vec(a,in,"",false),one},{vec(b,in,"",false),one},{vec(c,in,"",false),one}},0)); EXPECT(s.size()==1&&std::abs(s[0]-C(1))<1e-15L,"nbody.scalar",d); vf::distinct(d); } }
void harness(){ for(int s=0;s<vf::scale(2,8);++s) vf::section("algebra"+std::to_string(s),[]{ algebra(vf::scale(12,150)); },vf::scale(250,850)); int parts=vf::scale(6,16); for(int s=0;s<parts;++s) vf::section("vertices"+std::to_string(s),[s,parts]{ vertices(s,parts,vf::scale(12,200)); },vf::scale(250,850)); vf::section("radiative",[]{ radiative(vf::scale(60,1000)); },vf::scale(250,850)); vf::section("dirac",[]{ external("Dirac",vf::scale(400,8000)); },vf::scale(250,850)); vf::section("weyl",[]{ external("Weyl",vf::scale(400,8000)); },vf::scale(250,850)); vf::section("nbody",[]{ nbody(vf::scale(50,1000)); }); }
