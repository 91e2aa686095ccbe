// extrude (kind 0) and ruled (kind 1) surfaces against their definition; ns is reused from an earlier, different surface
#include "hcommon.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsExtrude.h"
#include "NurbsRuled.h"
void sx_entry(){
 int deg=sx_param("deg",2), pat=sx_param("pat",0), mode=sx_param("mode",0), kind=sx_param("kind",0), closed=sx_param("closed",0), rat=sx_param("rat",1);
 vector<double> U=clampedKnots(deg,pat,mode); int n=(int)U.size()-deg-1;
 vector<Point3> P=symPoints("P",n,4.), Q; vector<double> W=symWeights("w",n,rat), X=W; Point3 d;
 bool want=closed!=0; if(closed==1) P[n-1]=P[0]; else if(closed==0){ double dx=P[n-1]._x-P[0]._x; sx_assume(dx>0.01*KS()); }
 NurbsCurve c; c.set_degree(deg); c.set_points(P); c.set_knots(U); c.set_weights(W); if(closed==2) want=c.is_closed();
 NurbsSurface s; { vector<Point3> g(4); s.set_degree(1,1); s.set_points(g,2,2); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); s.set_closed_u(true); s.set_closed_v(true); }
 if(kind==0){ d=symPoint("d",4.); for(auto&p:P) Q.push_back(p+d); NurbsExtrude e; { NurbsCurve c0; NurbsSurface s0; c0.set_degree(2); c0.set_points({Point3(1,2,3),Point3(3,2,1),Point3(1,1,1),Point3(1,2,3)}); c0.set_uniform(); c0.set_weights({1,2,3,4}); e.extrude(c0,Point3(3,4,5),s0); } sx_assert(e.extrude(c,d,s),"extrude succeeds"); }
 else { Q=symPoints("Q",n,4.); X=symWeights("x",n,rat); if(closed==1) Q[n-1]=Q[0]; NurbsCurve c2; c2.set_degree(deg); c2.set_points(Q); c2.set_knots(U); c2.set_weights(X); if(closed==2) want=want&&c2.is_closed(); NurbsRuled r; { NurbsCurve c0; NurbsSurface s0; c0.set_degree(2); c0.set_points({Point3(1,2,3),Point3(3,2,1),Point3(1,1,1),Point3(1,2,3)}); c0.set_uniform(); c0.set_weights({1,2,3,4}); r.create_ruled(c0,c0,s0); } sx_assert(r.create_ruled(c,c2,s),"ruled succeeds"); }
 sx_assert(s.degree_u()==deg&&s.degree_v()==1&&s.nb_points_u()==n&&s.nb_points_v()==2,"structure: n x 2 net, degree (deg,1)");
 sx_assert((int)s.weights().size()==2*n&&(int)s.points().size()==2*n&&(int)s.knots_u().size()==n+deg+1&&s.knots_v().size()==4,"structure: counts");
 clampedOK(s.knots_u(),deg); clampedOK(s.knots_v(),1); for(size_t i=0;i<U.size();i++) sx_close(s.knots_u()[i],U[i],1e-9,"the knots along the profile are its own"); sx_assert(s.is_closed_u()==want,"closed in u exactly when the profile is closed"); sx_assert(!s.is_closed_v(),"never closed in v");
 double u=sx_real("u",0.,1.), v=sx_real("v",0.,1.); Point3 q; s.evaluate(u,v,q);
 RefH a=refCurveH(U,deg,P,W,u), b=refCurveH(U,deg,Q,X,u); double w=a.w*(1.-v)+b.w*v;
 closeS(q._x,(a.p._x*(1.-v)+b.p._x*v)/w,1e-9,"surface point (x)"); closeS(q._y,(a.p._y*(1.-v)+b.p._y*v)/w,1e-9,"surface point (y)"); closeS(q._z,(a.p._z*(1.-v)+b.p._z*v)/w,1e-9,"surface point (z)");
 if(kind==0) closeS(q._x,a.p._x/a.w+v*d._x,1e-9,"extruded point = curve point + v * direction");
 sx_reach("end");
}
