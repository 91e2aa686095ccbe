// NurbsCurve::evaluate against the definition sum N_i w_i P_i / sum N_i w_i
#include "hcommon.h"
#include "NurbsCurve.h"
void sx_entry(){
 int deg=sx_param("deg",2), pat=sx_param("pat",0), mode=sx_param("mode",1), rat=sx_param("rat",1);
 vector<double> raw=clampedKnots(deg,pat,mode,-1.,3.); int n=(int)raw.size()-deg-1;
 vector<Point3> P=symPoints("P",n,4.); vector<double> W=symWeights("w",n,rat);
 NurbsCurve c; c.set_degree(deg); c.set_points(P); c.set_knots(raw); c.set_weights(W);
 double u=sx_real("u",0.,1.);
 Point3 q; c.evaluate(u,q);
 vector<double> U; for(double k:raw) U.push_back((k+1.)/4.);
 for(size_t i=0;i<U.size();i++) sx_close(c.knots()[i],U[i],1e-9,"knots are normalised to [0,1]");
 Point3 r=refCurve(U,deg,P,W,u);
 closeP(q,r,1e-9,"evaluate equals the rational B-spline definition");
 sx_observe("x",q._x);
 sx_reach("end");
}
