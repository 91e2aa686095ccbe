// surface of revolution: each profile point sweeps the exact circle around z, u=0 is the profile itself
#include "hcommon.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsRevolve.h"
void sx_entry(){
 int deg=sx_param("deg",1), pat=sx_param("pat",0), mode=sx_param("mode",0), rat=sx_param("rat",1), q4=sx_param("quarter",-1), fixv=sx_param("fixv",0), closed=sx_param("closed",0);
 vector<double> V=clampedKnots(deg,pat,mode); int n=(int)V.size()-deg-1;
 vector<Point3> P=symPoints("P",n,4.); vector<double> W=symWeights("w",n,rat);
 if(closed==1) P[n-1]=P[0]; else if(closed==0){ double dx=P[n-1]._x-P[0]._x; sx_assume(dx>0.01*KS()); }
 NurbsCurve c; c.set_degree(deg); c.set_points(P); c.set_knots(V); c.set_weights(W);
 NurbsSurface s; s.set_closed_u(false); s.set_closed_v(true); NurbsRevolve r; { NurbsCurve c0; NurbsSurface s0; c0.set_degree(2); c0.set_points({Point3(1,2,3),Point3(3,2,1),Point3(1,1,1),Point3(1,2,3)}); c0.set_uniform(); c0.set_weights({1,2,3,4}); r.revolve(c0,s0); } sx_assert(r.revolve(c,s),"revolve succeeds");
 sx_assert(s.degree_u()==2&&s.degree_v()==deg&&s.nb_points_v()==n&&(int)s.points().size()==s.nb_points_u()*n&&s.weights().size()==s.points().size(),"structure");
 sx_assert((int)s.knots_u().size()==s.nb_points_u()+3&&(int)s.knots_v().size()==n+deg+1,"knot counts"); sx_assert(s.is_closed_u(),"closed around the axis"); sx_assert(s.is_closed_v()==(closed==2?c.is_closed():closed!=0),"closed along the profile exactly when the profile is");
 clampedOK(s.knots_u(),2); clampedOK(s.knots_v(),deg); double u=sx_real("u",0.,1.); if(q4>=0){ sx_assume(u>=q4*0.25); sx_assume(u<=q4*0.25+0.25); }
 double v= fixv? (fixv-1)*0.25 : sx_real("v",0.,1.); Point3 q; s.evaluate(u,v,q); Point3 p; c.evaluate(v,p);
 closeS(q._z,p._z,1e-9,"height is the profile's");
 sx_close(q._x*q._x+q._y*q._y,p._x*p._x+p._y*p._y,1e-9*KS()*KS(),"distance to the axis is the profile's");
 // direction: at the quarter points the profile point has turned by exactly k quarter turns (clockwise), half way between by 45 degrees more
 if(q4>=0){ double ax=p._x, ay=p._y; for(int i=0;i<q4;i++){ double t=ax; ax=ay; ay=-t; } double bx=ay, by=-ax;
  s.evaluate(q4*0.25,v,q); closeS(q._x,ax,1e-9,"start of the quarter"); closeS(q._y,ay,1e-9,"start of the quarter");
  s.evaluate(q4*0.25+0.25,v,q); closeS(q._x,bx,1e-9,"end of the quarter"); closeS(q._y,by,1e-9,"end of the quarter");
  s.evaluate(q4*0.25+0.125,v,q); double h=0.70710678118654752440; closeS(q._x,(ax+bx)*h,1e-9,"middle of the quarter"); closeS(q._y,(ay+by)*h,1e-9,"middle of the quarter"); }
 sx_reach("end");
}
