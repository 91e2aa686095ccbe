// Any history of knot insertions and degree elevations leaves the curve's shape unchanged.
// ops: decimal digits, first operation = lowest digit; 1 insert a symbolic knot, 2 elevate the degree, 3 insert at an existing interior knot, 4 insert at 0, 5 insert at 1
#include "hcommon.h"
#include "NurbsCurve.h"
void sx_entry(){
 int deg=sx_param("deg",2), pat=sx_param("pat",0), mode=sx_param("mode",0), rat=sx_param("rat",1), ops=sx_param("ops",1), dim=sx_param("dim",3), inner=sx_param("inner",0);
 vector<double> U=clampedKnots(deg,pat,mode); int n=(int)U.size()-deg-1;
 vector<Point3> P=symPoints("P",n,4.); vector<double> W=symWeights("w",n,rat);
 if(dim==1) for(auto&p:P){ p._y=1.; p._z=0.; }
 NurbsCurve c; c.set_degree(deg); c.set_points(P); c.set_knots(U); c.set_weights(W);
 int d=deg; vector<double> ins; int pre=sx_param("pre",0); double u=sx_real("u",0.,1.); Point3 q; NurbsCurve other(c); if(pre){ c.evaluate(u,q); other.evaluate(u,q); }
 for(;ops>0;ops/=10){ int o=ops%10; int np=c.nb_points(); vector<double> before=c.knots();
  if(o==2){ bool ok=c.degree_elevation(); sx_assert(ok==(d<3),"elevation reports success exactly below degree 3"); if(ok) d++; else { sx_assert(c.nb_points()==np && c.knots().size()==before.size(),"a refused elevation changes nothing"); } }
  else { double k= o==3? U[deg+1] : o==4? 0. : o==5? 1. : sx_real("ins",0.,1.); if(inner && o==1) sx_assume(k>0.001 && k<0.999); c.insert_knot(k);
   sx_assert(c.nb_points()==np+1 && c.knots().size()==before.size()+1,"insertion adds one knot and one control point");
   size_t at=0; while(at<before.size() && before[at]<=k) at++; for(size_t i=0;i<=before.size();i++) sx_close(c.knots()[i], i<at?before[i]:(i==at?k:before[i-1]),1e-9,"the knot vector gains exactly the inserted knot, in order"); }
  sx_assert(c.degree()==d,"degree"); sx_assert((int)c.knots().size()==c.nb_points()+d+1,"knot count = points + degree + 1"); sx_assert((int)c.weights().size()==c.nb_points(),"one weight per point"); sx_assert((int)c.points().size()==c.nb_points(),"point count"); if(pre&&ops>=10) c.evaluate(u,q); }
 clampedOK(c.knots(),d); for(double w:c.weights()) sx_assert(w>0.,"weights stay positive");
 c.evaluate(u,q); Point3 r=refCurve(U,deg,P,W,u);
 if(dim==1) closeS(q._x,r._x,1e-9,"shape unchanged"); else closeP(q,r,1e-9,"shape unchanged");
 sx_observe("x",q._x);
 sx_reach("end");
}
