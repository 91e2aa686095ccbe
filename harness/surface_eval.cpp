// NurbsSurface::evaluate against the tensor-product definition
#include "hcommon.h"
#include "NurbsSurface.h"
void sx_entry(){
 int du=sx_param("du",2), dv=sx_param("dv",1), pu=sx_param("pu",0), pv=sx_param("pv",0), mode=sx_param("mode",0), rat=sx_param("rat",1), ax=sx_param("ax",1);
 vector<double> U=clampedKnots(du,pu,mode,0.,2.), V=clampedKnots(dv,pv,mode,-3.,1.); int nu=(int)U.size()-du-1, nv=(int)V.size()-dv-1;
 vector<Point3> P=symPoints("P",nu*nv,4.); vector<double> W=symWeights("w",nu*nv,rat);
 NurbsSurface s; s.set_degree(du,dv); s.set_points(P,nu,nv); s.set_knots_u(U); s.set_knots_v(V); s.set_weights(W);
 double u=sx_real("u",0.,1.), v=sx_real("v",0.,1.); Point3 q; s.evaluate(u,v,q);
 for(auto&k:U) k=k/2.; for(auto&k:V) k=(k+3.)/4.;
 for(size_t i=0;i<U.size();i++) sx_close(s.knots_u()[i],U[i],1e-9,"u knots normalised"); for(size_t i=0;i<V.size();i++) sx_close(s.knots_v()[i],V[i],1e-9,"v knots normalised");
 int su=refSpan(U,du,nu,u), sv=refSpan(V,dv,nv,v); Point3 a(0,0,0); double w=0;
 for(int j=sv-dv;j<=sv;j++) for(int i=su-du;i<=su;i++){ double b=refBasis(U,i,du,u,su)*refBasis(V,j,dv,v,sv)*W[i+nu*j]; w+=b; a._x+=b*P[i+nu*j]._x; a._y+=b*P[i+nu*j]._y; a._z+=b*P[i+nu*j]._z; }
 closeS(q._x,a._x/w,1e-9,"evaluate equals the tensor definition (x)"); if(ax){ closeS(q._y,a._y/w,1e-9,"evaluate equals the tensor definition (y)"); closeS(q._z,a._z/w,1e-9,"evaluate equals the tensor definition (z)"); }
 sx_observe("x",q._x);
 sx_reach("end");
}
