#pragma once
#include "symx.h"
#include <vector>
#include <string>
#include "Geometry.h"
using namespace std;
// the whole scene is scaled by 2^big (parameter, default 0): coordinates and the tolerances of closeP/closeS
static inline double KS(){ int b=sx_param("big",0); double k=1.; for(;b>0;b--) k*=2.; for(;b<0;b++) k*=0.5; return k; }
static inline Point3 symPoint(const char* n, double r){ string s(n); r*=KS(); double x=sx_real((s+"x").c_str(),-r,r), y=sx_real((s+"y").c_str(),-r,r), z=sx_real((s+"z").c_str(),-r,r); return Point3(x,y,z); }
static inline vector<Point3> symPoints(const char* n, int k, double r){ vector<Point3> v; for(int i=0;i<k;i++) v.push_back(symPoint(n,r)); return v; }
static inline vector<double> symWeights(const char* n, int k, bool rational){ vector<double> v; int ww=sx_param("ww",2); for(int i=0;i<k;i++) v.push_back(rational?sx_real(n,1./(1<<ww),1<<ww):1.); return v; }
static inline void closeS(double a,double b,double tol,const char* m){ sx_close(a,b,tol*KS(),m); }
static inline void closeU(const Point3& a,const Point3& b,double tol,const char* m){ sx_close(a._x,b._x,tol,m); sx_close(a._y,b._y,tol,m); sx_close(a._z,b._z,tol,m); } // not scaled
static inline void closeP(const Point3& a,const Point3& b,double tol,const char* m){ tol*=KS(); sx_close(a._x,b._x,tol,m); sx_close(a._y,b._y,tol,m); sx_close(a._z,b._z,tol,m); }
// clamped knot vector on [k0,k1]; pattern gives the interior multiplicities as decimal digits (0 = none), a negative one -k stands for k single knots
// mode 0: evenly spaced concrete, mode 1: symbolic interior positions at least 1/100 apart, mode 3: symbolic, at least 2^-17 apart, mode 2: concrete uneven
static inline vector<double> clampedKnots(int deg,int pattern,int mode,double k0=0.,double k1=1.){
 vector<int> mult; for(int i=0;i<-pattern;i++) mult.push_back(1); while(pattern>0){ mult.push_back(pattern%10); pattern/=10; } vector<double> k; for(int i=0;i<=deg;i++) k.push_back(k0); int n=(int)mult.size(); double prev=k0; static const double uneven[8]={0.1,0.15,0.5,0.55,0.7,0.9,0.93,0.97};
 for(int i=0;i<n;i++){ double v; if(mode==1||mode==3){ double gap=(k1-k0)*(mode==3?1./131072:0.01); v=sx_real("knot",k0,k1); sx_assume(v>prev+gap); sx_assume(v<k1-gap); } else if(mode==2) v= n>8? k0+(k1-k0)*(i+1.)*(i+2.)/((n+1.)*(n+2.)) : k0+(k1-k0)*uneven[(i*(n>4?1:2))%8]; else v=k0+(k1-k0)*(i+1)/(n+1); prev=v; for(int j=0;j<mult[i];j++) k.push_back(v); }
 for(int i=0;i<=deg;i++) k.push_back(k1); return k; }
static inline void clampedOK(const vector<double>& k,int deg){ int n=(int)k.size(); sx_assert(n>=2*deg+2,"knot count"); for(int i=0;i<=deg;i++){ sx_close(k[i],0.,1e-9,"the knots start at 0, repeated"); sx_close(k[n-1-i],1.,1e-9,"the knots end at 1, repeated"); } for(int i=1;i<n;i++) sx_assert(k[i-1]<=k[i]+1e-9,"the knots are in order"); }
static inline int patternSum(int pattern){ int s=pattern<0?-pattern:0; while(pattern>0){ s+=pattern%10; pattern/=10; } return s; }
// reference basis functions (Cox - de Boor recursion on the definition, half-open spans, last span closed)
static inline double refBasis(const vector<double>& U,int i,int p,double u,int span){ if(p==0) return i==span?1.:0.; double r=0; double d1=U[i+p]-U[i], d2=U[i+p+1]-U[i+1]; if(i<=span && span<i+p){ if(d1!=0) r+=(u-U[i])/d1*refBasis(U,i,p-1,u,span); } if(i+1<=span && span<i+1+p){ if(d2!=0) r+=(U[i+p+1]-u)/d2*refBasis(U,i+1,p-1,u,span); } return r; }
static inline int refSpan(const vector<double>& U,int p,int n,double u){ int s=p; for(int i=p;i<n;i++) if(U[i]<U[i+1]){ s=i; if(u<U[i+1]) break; } return s; }
struct RefH { Point3 p; double w; };
static inline RefH refCurveH(const vector<double>& U,int p,const vector<Point3>& P,const vector<double>& W,double u){ int n=(int)P.size(); int sp=refSpan(U,p,n,u); Point3 a(0,0,0); double w=0; for(int i=sp-p;i<=sp;i++){ double b=refBasis(U,i,p,u,sp)*W[i]; a._x+=P[i]._x*b; a._y+=P[i]._y*b; a._z+=P[i]._z*b; w+=b; } return {a,w}; }
static inline Point3 refCurve(const vector<double>& U,int p,const vector<Point3>& P,const vector<double>& W,double u){ RefH h=refCurveH(U,p,P,W,u); return Point3(h.p._x/h.w,h.p._y/h.w,h.p._z/h.w); }
// whether item i is removed: free to the solver for the first `free` items (parameter, default all), a fixed pattern beyond; point i: symbolic for the first `sym` points
static inline bool freeFlag(const char* n,int i){ return i<sx_param("free",1000000) ? sx_concretize(sx_int(n,0,1))!=0 : i%5==2; }
static inline Point3 freePoint(const char* n,int i,double r){ return i<sx_param("sym",1000000) ? symPoint(n,r) : Point3(i%97-48.,i%1009*0.5,i*0.25); }
