// parametrisation of curves (surf=0) and surfaces (surf=1: u, surf=2: v): op 0 normalised knots, 1 uniform knots and equal weights, 2 a cleared object is like a new one, 3 polyline, 4 closedness, 5 knot span
#include "hcommon.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
static Point3 evs(const NurbsSurface&s,double u,double v){ Point3 p; s.evaluate(u,v,p); return p; }
void sx_entry(){
 int op=sx_param("op",0), surf=sx_param("surf",0), deg=sx_param("deg",2), pat=sx_param("pat",11);
 if(op==0){ double a=sx_real("a",-8,8),b=sx_real("b",-8,8); sx_assume(b>a+0.25); vector<double> K; int n=patternSum(pat)+deg+1; for(int i=0;i<=deg;i++) K.push_back(a); double prev=a; int q=pat; while(q){ double k=sx_real("k",-8,8); sx_assume(k>=prev); sx_assume(k<=b); prev=k; for(int j=0;j<q%10;j++) K.push_back(k); q/=10; } for(int i=0;i<=deg;i++) K.push_back(b);
  const vector<double>*R; NurbsCurve c; NurbsSurface s; vector<double> before=K; if(surf==0){ c.set_degree(deg); c.set_knots({0,0,0.5,1,1}); c.set_knots(K); R=&c.knots(); } else { s.set_degree(deg,deg); s.set_knots_u({0,0,1,1}); s.set_knots_v({0,0,1,1}); if(surf==1){ s.set_knots_u(K); R=&s.knots_u(); sx_assert(s.knots_v().size()==4,"other direction untouched"); } else { s.set_knots_v(K); R=&s.knots_v(); sx_assert(s.knots_u().size()==4,"other direction untouched"); } }
  sx_assert((int)R->size()==n+deg+1,"knot count"); for(size_t i=0;i<K.size();i++){ sx_close((*R)[i],(before[i]-a)/(b-a),1e-9,"knots are mapped affinely onto [0,1]"); sx_close(K[i],before[i],0,"argument untouched"); } }
 else if(op==1){ int n=sx_param("n",5),m=sx_param("m",4); vector<Point3> P=symPoints("P",n*(surf?m:1),4.); vector<double> W; if(surf==0){ NurbsCurve c; c.set_degree(deg); c.set_points(P); for(int i=0;i<sx_param("old",n);i++) W.push_back(sx_real("w",.25,4)); c.set_weights(W); c.set_knots({0,.3,1}); c.set_uniform(); c.set_equals_weights(); sx_assert((int)c.weights().size()==n,"one weight per point"); for(double w:c.weights()) sx_close(w,1.,0,"weights are one"); sx_assert((int)c.knots().size()==n+deg+1,"knot count"); for(int i=0;i<n+deg+1;i++){ double e=i<=deg?0:i>=n?1:(double)(i-deg)/(n-deg); sx_close(c.knots()[i],e,1e-9,"clamped and evenly spaced"); } sx_assert(c.nb_points()==n,"points kept"); }
  else { NurbsSurface s; s.set_degree(deg,sx_param("dv",1)); s.set_points(P,n,m); for(int i=0;i<sx_param("old",n*m);i++) W.push_back(sx_real("w",.25,4)); s.set_weights(W); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); sx_assert((int)s.weights().size()==n*m,"one weight per point"); for(double w:s.weights()) sx_close(w,1.,0,"weights are one"); int dv=s.degree_v(); sx_assert((int)s.knots_u().size()==n+deg+1&&(int)s.knots_v().size()==m+dv+1,"knot count"); for(int i=0;i<n+deg+1;i++){ double e=i<=deg?0:i>=n?1:(double)(i-deg)/(n-deg); sx_close(s.knots_u()[i],e,1e-9,"clamped and evenly spaced along u"); } for(int i=0;i<m+dv+1;i++){ double e=i<=dv?0:i>=m?1:(double)(i-dv)/(m-dv); sx_close(s.knots_v()[i],e,1e-9,"clamped and evenly spaced along v"); } } }
 else if(op==2){ int d1=sx_param("d1",3); double u=sx_real("u",0,1); if(surf==0){ NurbsCurve c,f; vector<double> U1=clampedKnots(d1,1,0); vector<Point3> P1=symPoints("Q",(int)U1.size()-d1-1,4.); c.set_degree(d1); c.set_points(P1); c.set_knots(U1); c.set_weights(symWeights("x",(int)P1.size(),true)); Point3 t; c.evaluate(0.25,t); c.clear(); sx_assert(c.nb_points()==0&&c.points().empty()&&c.weights().empty()&&c.knots().empty()&&c.degree()==0,"cleared"); sx_assert(!c.is_closed(),"an empty curve is not closed"); vector<Point3> pl(3); c.to_polyline(pl); sx_assert(pl.empty(),"an empty curve has an empty polyline"); vector<double> U=clampedKnots(deg,pat,0),W; vector<Point3> P=symPoints("P",(int)U.size()-deg-1,4.); W=symWeights("w",(int)P.size(),true); for(NurbsCurve*x:{&c,&f}){ x->set_degree(deg); x->set_points(P); x->set_knots(U); x->set_weights(W); } Point3 a,b; c.evaluate(u,a); f.evaluate(u,b); closeP(a,b,1e-9,"a reused curve evaluates like a new one"); NurbsCurve k(c),g; g=c; c.points()[0]=Point3(9,9,9); k.evaluate(u,a); closeP(a,b,1e-9,"copies are independent"); g.evaluate(u,a); closeP(a,b,1e-9,"copies are independent"); }
  else { NurbsSurface c,f; vector<Point3> g=symPoints("Q",12,4.); c.set_degree(2,3); c.set_points(g,3,4); c.set_uniform_u(); c.set_uniform_v(); c.set_equals_weights(); c.set_closed_u(true); c.set_closed_v(true); c.clear(); sx_assert(c.points().empty()&&c.weights().empty()&&c.knots_u().empty()&&c.knots_v().empty()&&c.nb_points_u()==0&&c.nb_points_v()==0&&c.degree_u()==0&&c.degree_v()==0&&!c.is_closed_u()&&!c.is_closed_v(),"cleared"); double v=sx_real("v",0,1); vector<Point3> P=symPoints("P",6,4.); vector<double> W=symWeights("w",6,true); for(NurbsSurface*x:{&c,&f}){ x->set_degree(2,1); x->set_points(P,3,2); x->set_uniform_u(); x->set_uniform_v(); x->set_weights(W); } closeP(evs(c,u,v),evs(f,u,v),1e-9,"a reused surface evaluates like a new one"); Point3 b=evs(f,u,v); NurbsSurface k(c),h; h=c; c.points()[0]=Point3(9,9,9); c.weights()[1]=2.; closeP(evs(k,u,v),b,1e-9,"copies are independent"); closeP(evs(h,u,v),b,1e-9,"copies are independent"); } }
 else if(op==3){ vector<double> U=clampedKnots(deg,pat,0); int n=(int)U.size()-deg-1; vector<Point3> P=symPoints("P",n,4.); vector<double> W=symWeights("w",n,sx_param("rat",0)); NurbsCurve c; c.set_degree(deg); c.set_points(P); c.set_knots(U); c.set_weights(W); vector<Point3> pl(2); c.to_polyline(pl); int m=(int)pl.size(); sx_assert(m>=2*n,"enough points"); closeP(pl[0],P[0],1e-9,"starts at the first point"); closeP(pl[m-1],P[n-1],1e-9,"ends at the last point"); for(int i=0;i<m;i+=sx_param("step",3)) closeP(pl[i],refCurve(U,deg,P,W,(double)i/(m-1)),1e-9,"evenly spaced points of the curve, in order"); }
 else if(op==4){ int n=sx_param("n",3); vector<Point3> P=symPoints("P",n,4.); NurbsCurve c; c.set_degree(1); c.set_points(P); double tol=sx_param("tol",0)?sx_real("tol",0.001,2.):1.e-6; bool r=sx_param("tol",0)?c.is_closed(tol):c.is_closed(); if(n<2) sx_assert(!r,"a single point is not closed"); else { double d=(P[0]._x-P[n-1]._x)*(P[0]._x-P[n-1]._x)+(P[0]._y-P[n-1]._y)*(P[0]._y-P[n-1]._y)+(P[0]._z-P[n-1]._z)*(P[0]._z-P[n-1]._z); bool e=d<tol*tol; sx_assert(r==e,"closed exactly when the ends are closer than the tolerance"); } }
 else if(op==6){ // an object that was evaluated before each change answers like a new object with the same attributes
  int chg=sx_param("chg",0); double u=sx_real("u",0,1); int kmode=sx_param("mode",1),poly=sx_param("poly",0); vector<double> U=clampedKnots(deg,pat,kmode); int n=(int)U.size()-deg-1;
  if(surf==0){ NurbsCurve c; c.set_degree(deg); c.set_points(symPoints("P",n,4.)); c.set_knots(U); c.set_weights(symWeights("w",n,true)); Point3 a,b; vector<Point3> pl; auto use=[&]{ c.evaluate(u,a); c.is_closed(); if(poly) c.to_polyline(pl); }; use(); 
   if(chg==0) c.set_knots(clampedKnots(deg,pat,kmode?kmode:2)); else if(chg==1) c.set_weights(symWeights("x",n,true)); else if(chg==2) c.set_points(symPoints("Q",n,4.)); else if(chg==3) c.points()[n-1]=symPoint("Q",4.); else if(chg==4){ c.set_degree(1); c.set_uniform(); } else if(chg==5) c.set_uniform(); else if(chg==6) c.set_equals_weights(); else if(chg==7){ c.set_points(symPoints("Q",deg+1,4.)); c.set_uniform(); c.set_equals_weights(); } else if(chg==8){ NurbsCurve o; o.set_degree(1); o.set_points({Point3(1,2,3),Point3(3,2,1),Point3(2,2,1),Point3(2,0,1)}); o.set_uniform(); o.set_equals_weights(); o.evaluate(u,b); c=o; } else { NurbsCurve o(c); o.set_knots(clampedKnots(deg,pat,kmode?kmode:2)); o.evaluate(u,b); }
   NurbsCurve f; f.set_degree(c.degree()); f.set_points(c.points()); f.set_knots(c.knots()); f.set_weights(c.weights()); c.evaluate(u,a); closeP(a,refCurve(f.knots(),f.degree(),f.points(),f.weights(),u),1e-9,"a changed curve evaluates like a new one"); sx_assert(c.is_closed()==f.is_closed(),"closedness"); if(poly){ vector<Point3> pf; c.to_polyline(pl); f.to_polyline(pf); sx_assert(pl.size()==pf.size(),"polyline"); if(pl.size()==pf.size()) for(size_t i=0;i<pl.size();i+=3) closeP(pl[i],pf[i],1e-9,"polyline"); } }
  else { int m=3; NurbsSurface s; s.set_degree(deg,2); s.set_points(symPoints("P",n*m,4.),n,m); s.set_knots_u(U); s.set_uniform_v(); s.set_weights(symWeights("w",n*m,true)); double v=sx_real("v",0,1); Point3 a,b; s.evaluate(u,v,a);
   if(chg==0) s.set_knots_u(clampedKnots(deg,pat,1)); else if(chg==1) s.set_weights(symWeights("x",n*m,true)); else if(chg==2) s.set_points(symPoints("Q",n*m,4.),n,m); else if(chg==3){ s.points()[n*m-1]=symPoint("Q",4.); s.weights()[1]=sx_real("x",0.25,4.); } else if(chg==4){ s.set_degree(1,1); s.set_uniform_u(); s.set_uniform_v(); } else if(chg==5){ s.set_uniform_u(); s.set_equals_weights(); } else if(chg==6){ s.set_degree(1,1); s.set_points(symPoints("Q",4,4.),2,2); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); } else if(chg==7){ NurbsSurface o; o.set_degree(1,1); o.set_points({Point3(1,2,3),Point3(3,2,1),Point3(2,2,1),Point3(2,0,1)},2,2); o.set_uniform_u(); o.set_uniform_v(); o.set_equals_weights(); o.evaluate(u,v,b); s=o; } else if(chg==8){ s.set_degree(deg,1); s.set_knots_v({0,0,.25,1,1}); } else { s.evaluate(u,1.-v,b); s.evaluate(0.,v,b); }
   const vector<double>&KU=s.knots_u(),&KV=s.knots_v(); int pu=s.degree_u(),pv=s.degree_v(),nu=s.nb_points_u(),nv=s.nb_points_v(); s.evaluate(u,v,a); int su=refSpan(KU,pu,nu,u),sv=refSpan(KV,pv,nv,v); Point3 r(0,0,0); double w=0; for(int j=sv-pv;j<=sv;j++) for(int i=su-pu;i<=su;i++){ double k=refBasis(KU,i,pu,u,su)*refBasis(KV,j,pv,v,sv)*s.weights()[i+nu*j]; const Point3&p=s.points()[i+nu*j]; w+=k; r._x+=k*p._x; r._y+=k*p._y; r._z+=k*p._z; } closeP(a,Point3(r._x/w,r._y/w,r._z/w),1e-9,"a changed surface evaluates like a new one"); } }
 else { vector<double> U=clampedKnots(deg,pat,1); double t=sx_real("t",-1.,2.); int i=NurbsCurve::find_knot_span(U,t); sx_assert(i>=0&&i+1<(int)U.size(),"a span exists for every parameter"); if(i<0||i+1>=(int)U.size()) return; double c=t<0?0:t>1?1:t; bool ne=U[i]<U[i+1]; sx_assert(ne,"span is not empty"); bool in=U[i]<=c&&(c<U[i+1]||(c==1.&&U[i+1]==1.)); sx_assert(in,"span holds the parameter (clamped to [0,1])"); }
 sx_reach("end");
}
