// Random axes. The draws of the generator are arbitrary values depending on the seed and the rank alone (engine/shadow/random); natively, the real generator over many seeds
#include "hcommon.h"
#include <random>
#include <cmath>
#include "GeometryUtil.h"
static bool perm(const Point3&p,const double*d,double n,double tol){ double q[3]={p._x*n,p._y*n,p._z*n}; int P[6][3]={{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}}; for(auto&t:P){ bool ok=true; for(int i=0;i<3;i++) ok&= q[i]-d[t[i]]<=tol && d[t[i]]-q[i]<=tol; if(ok) return true; } return false; }
static double draws(int s,double*d){ std::default_random_engine g; g.seed(s); std::normal_distribution<double> f; for(int i=0;i<3;i++) d[i]=f(g); double n2=d[0]*d[0]+d[1]*d[1]+d[2]*d[2]; sx_assume(n2>1e-12); return n2; } // all draws zero: no direction
static void one(int s,int s2,Point3 start){ double d[3]; draws(s2,d); double n2=draws(s,d);
 Point3 p=start; GeometryUtil::compute_random_axis(p,s); double l2=p._x*p._x+p._y*p._y+p._z*p._z; sx_close(l2,1.,1e-9,"a random axis has length 1");
 if(sx_param("dir",0)) sx_assert(perm(p,d,sqrt(n2),1e-9),"the direction is the one of three normal draws");
 Point3 r; GeometryUtil::compute_random_axis(r,s2); Point3 q; GeometryUtil::compute_random_axis(q,s); closeP(q,p,0.,"the same seed gives the same axis, whatever was asked before"); }
void sx_entry(){ int s=sx_int("seed",-1000000,1000000), s2=sx_int("seed2",-1000000,1000000); Point3 st=symPoint("st",4.);
 if(sx_param("def",0)){ int o=sx_int("other",1,1000); double d[3]; draws(0,d); draws(o,d); Point3 a,b; GeometryUtil::compute_random_axis(a); GeometryUtil::compute_random_axis(b,o); GeometryUtil::compute_random_axis(b); closeP(a,b,0.,"without a seed the axis is always the same"); }
 if(sx_native()) for(int k=0;k<200000;k++) one(k%2?-k:k,k/2,st);
 one(s,s2,st); sx_reach("end"); }
