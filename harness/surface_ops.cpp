// Any history of knot insertions and degree elevations in u and v leaves the surface's shape unchanged.
// ops digits: 1 insert u, 2 insert v, 3 elevate u, 4 elevate v
#include "hcommon.h"
#include "NurbsSurface.h"
void sx_entry(){
 int du=sx_param("du",2), dv=sx_param("dv",1), pu=sx_param("pu",0), pv=sx_param("pv",0), mode=sx_param("mode",0), rat=sx_param("rat",1), ops=sx_param("ops",1), conc=sx_param("conc",0), inner=sx_param("inner",0);
 vector<double> U=clampedKnots(du,pu,mode), V=clampedKnots(dv,pv,mode); int nu=(int)U.size()-du-1, nv=(int)V.size()-dv-1;
 vector<Point3> P=symPoints("P",nu*nv,4.); vector<double> W=symWeights("w",nu*nv,rat);
 NurbsSurface s; s.set_degree(du,dv); s.set_points(P,nu,nv); s.set_knots_u(U); s.set_knots_v(V); s.set_weights(W); s.set_closed_u(false); s.set_closed_v(true);
 double u=sx_real("u",0.,1.), v=sx_real("v",0.,1.); Point3 q; int pre=sx_param("pre",0); if(pre) s.evaluate(u,v,q);
 int d[2]={du,dv}, np[2]={nu,nv};
 for(;ops>0;ops/=10){ int o=ops%10; int t=(o==2||o==4); vector<double> before=t?s.knots_v():s.knots_u(), other=t?s.knots_u():s.knots_v(); 
  if(o>=3){ bool ok= t? s.degree_elevation_v(): s.degree_elevation_u(); sx_assert(ok==(d[t]<3),"elevation reports success exactly below degree 3"); if(ok){ d[t]++; int m= t?s.nb_points_v():s.nb_points_u(); sx_assert(m>np[t],"elevation adds control points"); np[t]=m; } }
  else { double k= conc? (conc==2?0.5:0.3) : sx_real("ins",0.,1.); if(inner) sx_assume(k>0.001 && k<0.999); if(t) s.insert_knot_v(k); else s.insert_knot_u(k); np[t]++; const vector<double>&af=t?s.knots_v():s.knots_u(); sx_assert(af.size()==before.size()+1,"one more knot"); size_t at=0; while(at<before.size()&&before[at]<=k) at++; for(size_t i=0;i<af.size();i++) sx_close(af[i],i<at?before[i]:(i==at?k:before[i-1]),1e-9,"the knot vector gains exactly the inserted knot, in order"); bool has=false; for(double x:(t?s.knots_v():s.knots_u())) if(x-k<1e-9 && k-x<1e-9) has=true; sx_assert(has,"the inserted knot is in the knot vector"); }
  const vector<double>&same=t?s.knots_u():s.knots_v(); sx_assert(same.size()==other.size(),"the knots of the other direction stay"); for(size_t i=0;i<same.size();i++) sx_close(same[i],other[i],1e-9,"the knots of the other direction stay"); clampedOK(s.knots_u(),d[0]); clampedOK(s.knots_v(),d[1]);
  sx_assert(s.degree_u()==d[0]&&s.degree_v()==d[1],"degrees"); sx_assert(s.nb_points_u()==np[0]&&s.nb_points_v()==np[1],"control net size"); sx_assert((int)s.points().size()==np[0]*np[1]&&(int)s.weights().size()==np[0]*np[1],"one weight per point"); sx_assert((int)s.knots_u().size()==np[0]+d[0]+1&&(int)s.knots_v().size()==np[1]+d[1]+1,"knot counts"); sx_assert(!s.is_closed_u()&&s.is_closed_v(),"closed flags kept"); }
 s.evaluate(u,v,q);
 int su=refSpan(U,du,nu,u), sv=refSpan(V,dv,nv,v); Point3 a(0,0,0); double w=0;
 for(int j=sv-dv;j<=sv;j++) for(int i=su-du;i<=su;i++){ double b=refBasis(U,i,du,u,su)*refBasis(V,j,dv,v,sv)*W[i+nu*j]; w+=b; a._x+=b*P[i+nu*j]._x; a._y+=b*P[i+nu*j]._y; a._z+=b*P[i+nu*j]._z; }
 closeS(q._x,a._x/w,1e-9,"shape unchanged (x)"); closeS(q._y,a._y/w,1e-9,"shape unchanged (y)"); closeS(q._z,a._z/w,1e-9,"shape unchanged (z)");
 sx_observe("x",q._x);
 sx_reach("end");
}
