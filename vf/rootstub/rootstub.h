// Stand-ins for the few CERN ROOT classes AmpGen's sources name (ROOT is not installed here).
// Functional: random numbers, four-vectors, small matrices, histograms. The rest only has to compile.
#ifndef VF_ROOTSTUB_H
#define VF_ROOTSTUB_H
#include <array>
#include <cmath>
#include <cstdint>
#include <functional>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <iostream>
typedef int Int_t; typedef double Double_t; typedef float Float_t; typedef bool Bool_t; typedef unsigned UInt_t; typedef long long Long64_t; typedef unsigned long long ULong64_t; typedef long Long_t; typedef unsigned long ULong_t; typedef short Short_t; typedef unsigned short UShort_t; typedef unsigned char UChar_t; typedef char Char_t; typedef const char Option_t;
enum EColor { kWhite=0, kBlack=1, kGray=920, kRed=632, kGreen=416, kBlue=600, kYellow=400, kMagenta=616, kCyan=432, kOrange=800 };
class TObject { public: std::string n,t; virtual ~TObject()=default; virtual const char* GetName() const { return n.c_str(); } virtual const char* GetTitle() const { return t.c_str(); } virtual int Write(const char* ="",int=0,int=0) const { return 0; } virtual void Draw(const char* =""){} virtual void Print(const char* ="") const {} void SetName(const char* x){n=x;} void SetTitle(const char* x){t=x;} };
class TNamed: public TObject {};
class TRandom: public TObject { public: std::mt19937_64 e; uint64_t draws=0; TRandom(unsigned s=65539): e(s){} virtual ~TRandom()=default;
  virtual double Rndm(){ ++draws; double u; do { u=(e()>>11)*0x1.0p-53; } while(u<=0.); return u; }
  virtual void SetSeed(unsigned long s=0){ e.seed(s); } virtual unsigned GetSeed() const { return 1; }
  double Uniform(double b=1){ return b*Rndm(); } double Uniform(double a,double b){ return a+(b-a)*Rndm(); }
  double Exp(double tau){ return -tau*std::log(Rndm()); }
  double Gaus(double m=0,double s=1){ double u=Rndm(),v=Rndm(); return m+s*std::sqrt(-2*std::log(u))*std::cos(2*M_PI*v); }
  unsigned Integer(unsigned n){ return unsigned(n*Rndm()); } int Poisson(double m){ std::poisson_distribution<int> d(m); return d(e); } };
class TRandom3: public TRandom { public: TRandom3(unsigned s=4357): TRandom(s){} };
extern TRandom* gRandom;
class TVector3 { public: double fx=0,fy=0,fz=0; TVector3()=default; TVector3(double a,double b,double c):fx(a),fy(b),fz(c){} double X() const{return fx;} double Y() const{return fy;} double Z() const{return fz;} double x() const{return fx;} double y() const{return fy;} double z() const{return fz;} double Px() const{return fx;} double Py() const{return fy;} double Pz() const{return fz;}
  double Dot(const TVector3& o) const { return fx*o.fx+fy*o.fy+fz*o.fz; } TVector3 Cross(const TVector3& o) const { return {fy*o.fz-fz*o.fy,fz*o.fx-fx*o.fz,fx*o.fy-fy*o.fx}; } double Mag2() const { return Dot(*this);} double Mag() const { return std::sqrt(Mag2()); } TVector3 Unit() const { double m=Mag(); return m>0? TVector3(fx/m,fy/m,fz/m):*this; }
  TVector3 operator+(const TVector3& o) const { return {fx+o.fx,fy+o.fy,fz+o.fz}; } TVector3 operator-(const TVector3& o) const { return {fx-o.fx,fy-o.fy,fz-o.fz}; } TVector3 operator-() const { return {-fx,-fy,-fz}; } TVector3 operator*(double a) const { return {a*fx,a*fy,a*fz}; } double operator[](int i) const { return i==0?fx:i==1?fy:fz; } double operator()(int i) const { return (*this)[i]; } };
inline TVector3 operator*(double a,const TVector3& v){ return v*a; }
class TLorentzVector { public: TVector3 p; double e=0; TLorentzVector()=default; TLorentzVector(double a,double b,double c,double d):p(a,b,c),e(d){} explicit TLorentzVector(const double* q):p(q[0],q[1],q[2]),e(q[3]){} TLorentzVector(const TVector3& v,double d):p(v),e(d){}
  double Px() const{return p.fx;} double Py() const{return p.fy;} double Pz() const{return p.fz;} double E() const{return e;} double X() const{return p.fx;} double Y() const{return p.fy;} double Z() const{return p.fz;} double T() const{return e;} double P() const { return p.Mag(); } TVector3 Vect() const { return p; } double Dot(const TLorentzVector& o) const { return e*o.e-p.Dot(o.p);} double M2() const { return Dot(*this);} double Mag2() const { return M2(); } double M() const { double m=M2(); return m<0? -std::sqrt(-m):std::sqrt(m);} double Mag() const { return M(); }
  TLorentzVector operator+(const TLorentzVector& o) const { return {p+o.p,e+o.e}; } TLorentzVector operator-(const TLorentzVector& o) const { return {p-o.p,e-o.e}; } TVector3 BoostVector() const { return p*(1/e); } double operator[](int i) const { return i==3?e:p[i]; }
  void Boost(const TVector3& b){ double b2=b.Mag2(),g=1/std::sqrt(1-b2),bp=b.Dot(p),g2=b2>0?(g-1)/b2:0; double ne=g*(e+bp); p=p+b*(g2*bp+g*e); e=ne; } };
class TAxis: public TObject { public: int n=1; double a=0,b=1; std::string ti; double GetXmin() const{return a;} double GetXmax() const{return b;} int GetNbins() const {return n;} double GetBinCenter(int i) const { return a+(b-a)*(i-0.5)/n; } int FindBin(double x) const { if(x<a) return 0; if(x>=b) return n+1; return 1+int((x-a)/(b-a)*n); } void SetTitle(const char* x){ti=x;} const char* GetTitle() const override {return ti.c_str();} void SetDecimals(bool=true){} void SetTitleOffset(double){} double GetBinLowEdge(int i) const {return a+(b-a)*(i-1)/n;} double GetBinUpEdge(int i) const {return a+(b-a)*i/n;} };
class TH1: public TObject { public: TAxis ax,ay; std::vector<double> c,c2; long ent=0; virtual ~TH1()=default; TAxis* GetXaxis(){return &ax;} TAxis* GetYaxis(){return &ay;} const TAxis* GetXaxis() const {return &ax;} const TAxis* GetYaxis() const {return &ay;} void SetLineColor(int){} void SetMarkerSize(double){} void SetMarkerColor(int){} void SetFillColor(int){} void SetLineWidth(int){} void SetDrawOption(const char*){} void SetDirectory(void*){} void Sumw2(bool=true){} void SetOption(const char*){} int GetNbinsX() const {return ax.n;} double GetBinContent(int i) const {return c[i];} void SetBinContent(int i,double v){c[i]=v;} double GetBinError(int i) const {return std::sqrt(c2[i]);} void SetBinError(int i,double v){c2[i]=v*v;} double Integral() const { double s=0; for(int i=1;i<=ax.n;++i) s+=c[i]; return s; } double GetEntries() const {return ent;} void Scale(double k){ for(auto& x:c) x*=k; for(auto& x:c2) x*=k*k; } void SetMinimum(double){} void SetMaximum(double){} void Reset(){ for(auto&x:c)x=0; for(auto&x:c2)x=0; } void Add(const TH1* o,double k=1){ for(size_t i=0;i<c.size();++i) c[i]+=k*o->c[i]; } };
class TH1D: public TH1 { public: TH1D()=default; TH1D(const char* a,const char* b,int k,double lo,double hi){ n=a;t=b;ax.n=k;ax.a=lo;ax.b=hi;c.assign(k+2,0);c2.assign(k+2,0);} int Fill(double x,double w=1){ int i=ax.FindBin(x); c[i]+=w;c2[i]+=w*w;++ent; return i; } double Interpolate(double) const {return 0;} int FindBin(double x) const {return ax.FindBin(x);} };
class TH2: public TH1 { public: using TH1::GetBinContent; };
class TH2D: public TH2 { public: TH2D()=default; TH2D(const char* a,const char* b,int k,double lo,double hi,int k2,double lo2,double hi2){ n=a;t=b;ax.n=k;ax.a=lo;ax.b=hi;ay.n=k2;ay.a=lo2;ay.b=hi2;c.assign((k+2)*(k2+2),0);c2=c;} int Fill(double x,double y,double w=1){ int i=ax.FindBin(x)+(ax.n+2)*ay.FindBin(y); c[i]+=w;c2[i]+=w*w;++ent;return i;} };
class THStack: public TObject { public: THStack(const char* =nullptr,const char* =nullptr){} std::vector<TH1*> h; void Add(TH1* x,const char* =""){h.push_back(x);} std::vector<TH1*>* GetHists(){return &h;} };
class TGraph: public TObject { public: std::vector<double> X,Y; int GetN() const{return X.size();} void SetPoint(int i,double a,double b){ if((int)X.size()<=i){X.resize(i+1);Y.resize(i+1);} X[i]=a;Y[i]=b;} double Eval(double) const {return 0;} void GetPoint(int i,double& a,double& b) const {a=X[i];b=Y[i];} double* GetX(){return X.data();} double* GetY(){return Y.data();} };
// a tree kept in memory: typed columns, filled from and read to the addresses given
template<class T> struct VfType { static const char* name(){ return "?"; } };
template<> struct VfType<double>{ static const char* name(){ return "Double_t"; } }; template<> struct VfType<float>{ static const char* name(){ return "Float_t"; } }; template<> struct VfType<int>{ static const char* name(){ return "Int_t"; } }; template<> struct VfType<unsigned>{ static const char* name(){ return "UInt_t"; } }; template<> struct VfType<bool>{ static const char* name(){ return "Bool_t"; } }; template<> struct VfType<unsigned long long>{ static const char* name(){ return "ULong64_t"; } };
class TLeaf: public TObject { public: std::string ty="Double_t"; const char* GetTypeName() const {return ty.c_str();} };
class TBranch: public TObject { public: size_t sz=0; char* in=nullptr; char* out=nullptr; bool on=true; TLeaf leaf; std::vector<std::string> data; };
class TObjArray: public std::vector<TObject*> {};
class TEventList: public TObject { public: std::vector<long long> v; int GetN() const{return v.size();} long long GetEntry(int i) const{return v[i];} };
extern TEventList vf_evtList;
class TTree: public TObject { public: TObjArray br; std::vector<TBranch*> b; long long nf=0; long long outside=0; TTree(const char* a="",const char* c=""){n=a;t=c;} ~TTree(){ for(auto x: b) delete x; } TTree(const TTree&)=delete;
  TObjArray* GetListOfBranches(){return &br;} long long GetEntries() const{return nf;}
  TBranch* GetBranch(const char* a){ for(auto x: b) if(x->n==a) return x; return nullptr; } TLeaf* GetLeaf(const char* a){ auto x=GetBranch(a); return x? &x->leaf: nullptr; }
  template<class T> TBranch* Branch(const char* a,T* p){ auto x=new TBranch; x->n=a; x->sz=sizeof(T); x->in=(char*)p; x->leaf.ty=VfType<T>::name(); b.push_back(x); br.push_back(x); return x; } template<class... A> TBranch* Branch(const A&...){return nullptr;}
  int Fill(){ for(auto x: b) x->data.emplace_back(x->in,x->sz); ++nf; return 1; }
  template<class T> int SetBranchAddress(const char* a,T* p){ auto x=GetBranch(a); if(!x) return -1; x->out=(char*)p; return 0; } void SetBranchStatus(const char* a,bool on){ for(auto x: b) if(std::string(a)=="*"||x->n==a) x->on=on; }
  int GetEntry(long long i){ if(i<0||i>=nf){ ++outside; return 0; } for(auto x: b) if(x->on&&x->out) std::copy(x->data[i].begin(),x->data[i].end(),x->out); return 1; }
  // selections "branch<value" and "branch>value" of a double branch into an event list
  long long Draw(const char*,const char* sel="",const char* =""){ vf_evtList.v.clear(); std::string q=sel; auto k=q.find_first_of("<>"); if(k==std::string::npos) return 0; auto x=GetBranch(q.substr(0,k).c_str()); double c=std::stod(q.substr(k+1)); if(!x) return 0; for(long long i=0;i<nf;++i){ double d; std::copy(x->data[i].begin(),x->data[i].end(),(char*)&d); if(q[k]=='<'? d<c: d>c) vf_evtList.v.push_back(i); } return vf_evtList.v.size(); } };
class TDirectory: public TObject { public: TObject* Get(const char* a){ return std::string(a)=="evtList"? (TObject*)&vf_evtList: nullptr;} void cd(){} TDirectory* mkdir(const char*){return this;} };
class TFile: public TDirectory { public: static TFile* Open(const char*,const char* =""){return nullptr;} void Close(){} bool IsZombie() const{return true;} };
extern TFile* gFile; extern TDirectory* gDirectory;
template<class T> class TVectorT { public: std::vector<T> v; TVectorT(int n=0):v(n){} T& operator[](int i){return v[i];} const T& operator[](int i) const{return v[i];} T& operator()(int i){return v[i];} const T& operator()(int i) const{return v[i];} int GetNrows() const{return v.size();} TVectorT operator+(const TVectorT& o) const { TVectorT q(*this); for(size_t i=0;i<v.size();++i) q.v[i]+=o.v[i]; return q; } TVectorT operator-(const TVectorT& o) const { TVectorT q(*this); for(size_t i=0;i<v.size();++i) q.v[i]-=o.v[i]; return q; } };
template<class T> class TMatrixT: public TObject { public: enum EO{kTransposed}; int r=0,c=0; std::vector<T> v; TMatrixT()=default; TMatrixT(int a,int b):r(a),c(b),v(a*b){} TMatrixT(EO,const TMatrixT& o):TMatrixT(o.c,o.r){ for(int i=0;i<r;++i) for(int j=0;j<c;++j) (*this)(i,j)=o(j,i);} T& operator()(int i,int j){return v[i*c+j];} const T& operator()(int i,int j) const{return v[i*c+j];} T* operator[](int i){return &v[i*c];} const T* operator[](int i) const{return &v[i*c];} int GetNrows() const{return r;} int GetNcols() const{return c;} void ResizeTo(int a,int b){r=a;c=b;v.assign(a*b,0);} int GetNoElements() const {return r*c;} TMatrixT& operator*=(double k){ for(auto& x:v) x*=k; return *this; } TMatrixT& Invert(){ int n=r; std::vector<T> a=v,b(n*n); for(int i=0;i<n;++i) b[i*n+i]=1; for(int i=0;i<n;++i){ int p=i; for(int k=i+1;k<n;++k) if(std::abs(a[k*n+i])>std::abs(a[p*n+i])) p=k; for(int k=0;k<n;++k){ std::swap(a[i*n+k],a[p*n+k]); std::swap(b[i*n+k],b[p*n+k]); } T d=a[i*n+i]; for(int k=0;k<n;++k){ a[i*n+k]/=d; b[i*n+k]/=d; } for(int m=0;m<n;++m) if(m!=i){ T f=a[m*n+i]; for(int k=0;k<n;++k){ a[m*n+k]-=f*a[i*n+k]; b[m*n+k]-=f*b[i*n+k]; } } } v=b; return *this; } };
typedef TMatrixT<double> TMatrixD; typedef TVectorT<double> TVectorD;
template<class T> class TMatrixTSym: public TMatrixT<T> { public: using TMatrixT<T>::TMatrixT; TMatrixTSym(int n=0):TMatrixT<T>(n,n){} };
template<class T> TVectorT<T> operator*(const TMatrixT<T>& m,const TVectorT<T>& x){ TVectorT<T> o(m.r); for(int i=0;i<m.r;++i) for(int j=0;j<m.c;++j) o[i]+=m(i,j)*x[j]; return o; }
template<class T> TMatrixT<T> operator*(const TMatrixT<T>& a,const TMatrixT<T>& b){ TMatrixT<T> o(a.r,b.c); for(int i=0;i<a.r;++i) for(int j=0;j<b.c;++j) for(int k=0;k<a.c;++k) o(i,j)+=a(i,k)*b(k,j); return o; }
template<class T> T Dot(const TVectorT<T>& a,const TVectorT<T>& b){ T s=0; for(size_t i=0;i<a.v.size();++i) s+=a.v[i]*b.v[i]; return s; }
class TDecompChol { public: TMatrixD u; TDecompChol(const TMatrixD& m){ int n=m.r; TMatrixD L(n,n); for(int i=0;i<n;++i) for(int j=0;j<=i;++j){ double s=m(i,j); for(int k=0;k<j;++k) s-=L(i,k)*L(j,k); L(i,j)= i==j? std::sqrt(s): s/L(j,j); } u=TMatrixD(TMatrixD::kTransposed,L);} bool Decompose(){return true;} const TMatrixD& GetU() const {return u;} };
namespace TMath { inline double ATan2(double a,double b){return std::atan2(a,b);} inline double Pi(){return M_PI;} inline double Abs(double x){return std::abs(x);} inline double Prob(double,int){return 0;} }
#endif
