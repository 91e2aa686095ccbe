// NURBS primitives are exact: 0 circle, 1 disk, 2 sphere surface, 3 torus surface, 4 cylinder solid, 5 torus solid, 6 sphere solid, 7 quad, 8 triangle, 9 box, 10 curve from points
#include "mesh_topo.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
static double dim(const char*n){ double k=KS(); return sx_real(n,k/16384,8.*k); }
static void junk(NurbsSurface&s){ vector<Point3> g(6); s.set_degree(2,1); s.set_points(g,3,2); s.set_uniform_u(); s.set_uniform_v(); s.set_equals_weights(); s.set_closed_u(true); s.set_closed_v(true); }
static Point3 ev(const NurbsSurface&s,double u,double v){ Point3 p; s.evaluate(u,v,p); return p; }
static void shape(const NurbsSurface&s,int du,int dv,bool cu,bool cv){ sx_assert(s.degree_u()==du&&s.degree_v()==dv,"degrees"); sx_assert((int)s.points().size()==s.nb_points_u()*s.nb_points_v()&&s.weights().size()==s.points().size()&&(int)s.knots_u().size()==s.nb_points_u()+du+1&&(int)s.knots_v().size()==s.nb_points_v()+dv+1,"consistent counts"); clampedOK(s.knots_u(),du); clampedOK(s.knots_v(),dv); sx_assert(s.is_closed_u()==cu&&s.is_closed_v()==cv,"closed flags"); }
static void par(const char*n,double&u,int part,int of){ u=sx_real(n,0.,1.); if(part>=0){ double a=(double)part/of,b=(double)(part+1)/of; sx_assume(u>=a); sx_assume(u<=b); } }
// the surface runs once around the axis in quarters, always in the same sense
static void around(const NurbsSurface&s,double v,int sense,double R){ double e=1e-9*R; Point3 a=ev(s,0,v); double x=a._x,y=a._y; for(int k=1;k<=8;k++){ Point3 q=ev(s,k*0.125,v); if(k%2==0){ double t=x; x=-sense*y; y=sense*t; sx_close(q._x,x,e,"quarter points"); sx_close(q._y,y,e,"quarter points"); } else { double h=0.70710678118654752440, nx=-sense*y, ny=sense*x; sx_close(q._x,(x+nx)*h,e,"points between the quarters"); sx_close(q._y,(y+ny)*h,e,"points between the quarters"); } sx_close(q._z,a._z,e,"same height all around"); } }
static void outward(const NurbsSurface&s,double u,double v,const Point3&c){ double h=1./16; Point3 p=ev(s,u,v),n=crossP(sub(ev(s,u+h,v),p),sub(ev(s,u,v+h),p)); double d=dotP(n,sub(p,c)); sx_assert(d>0,"faces outside"); }
static void onTorus(const NurbsSurface&s,double u,double v,double R,double r){ Point3 p=ev(s,u,v),a=ev(s,0,v); sx_close(a._y,0,1e-9*r,"profile plane"); sx_close((a._x-R)*(a._x-R)+a._z*a._z,r*r,1e-9*r*r,"profile is the tube circle"); sx_close(p._z,a._z,1e-9*r,"height"); sx_close(p._x*p._x+p._y*p._y,a._x*a._x,1e-9*r*r,"distance to the axis"); }
static void tube(const NurbsSurface&s,double R,double r){ double c[4][2]={{1,0},{0,1},{-1,0},{0,-1}}; double sg=0; for(int k=0;k<4;k++){ Point3 a=ev(s,0,k*0.25); if(k==1) sg=a._z>0?1:-1; sx_close(a._x,R+r*c[k][0],1e-9*r,"tube quarters"); sx_close(a._z,r*c[k][1]*(k%2?sg:1),1e-9*r,"tube quarters"); } }
void sx_entry(){
 int kind=sx_param("kind",0), qu=sx_param("qu",-1), qv=sx_param("qv",-1); double u,v;
 if(kind==0){ double R=dim("R"); NurbsCurve c; vector<Point3> g(3); c.set_degree(1); c.set_points(g); c.set_uniform(); c.set_equals_weights(); NurbsFactory::create_circle(R,c); par("u",u,qu,4); Point3 p; c.evaluate(u,p); sx_close(p._z,0,0,"flat"); sx_close(p._x*p._x+p._y*p._y,R*R,1e-9*R*R,"on the circle"); clampedOK(c.knots(),c.degree()); sx_assert(c.is_closed(),"closed"); double e[4][2]={{1,0},{0,1},{-1,0},{0,-1}}; for(int k=0;k<=8;k++){ c.evaluate(k*0.125,p); int j=(k/2)%4,l=(j+1)%4; double h=k%2?0.70710678118654752440:1; sx_close(p._x,R*h*(k%2?e[j][0]+e[l][0]:e[j][0]),1e-9*R,"counter-clockwise from +x"); sx_close(p._y,R*h*(k%2?e[j][1]+e[l][1]:e[j][1]),1e-9*R,"counter-clockwise from +x"); } }
 else if(kind==1){ double R=dim("R"); NurbsSurface s; junk(s); NurbsFactory::create_disk(R,s); shape(s,2,1,true,false); par("u",u,qu,4); v=sx_real("v",0.,1.); Point3 p=ev(s,u,v); sx_close(p._z,0,1e-9*R,"flat"); sx_close(p._x*p._x+p._y*p._y,R*R*v*v,1e-9*R*R,"radius grows with v"); around(s,1.,-1,R); }
 else if(kind==2||kind==6){ double R=dim("R"); NurbsSurface s; if(kind==2){ junk(s); NurbsFactory::create_sphere(R,s); } else { NurbsSolid n; junk(s); n.add_surface(s); NurbsFactory::create_sphere(R,n); sx_assert(n.surfaces().size()==1,"one surface"); s=n.surfaces()[0]; } shape(s,2,2,true,false); par("u",u,qu,4); par("v",v,qv,2); Point3 p=ev(s,u,v); sx_close(p._x*p._x+p._y*p._y+p._z*p._z,R*R,1e-9*R*R,"on the sphere"); closeU(ev(s,u,0.),Point3(0,0,-R),1e-9*R,"south pole"); closeU(ev(s,u,1.),Point3(0,0,R),1e-9*R,"north pole"); sx_close(ev(s,u,.5)._z,0,1e-9*R,"equator"); around(s,.5,1,R); for(int i=0;i<4;i++) for(int j=1;j<4;j++) outward(s,i*0.25+0.0625,j*0.25-0.125,Point3(0,0,0)); }
 else if(kind==3||kind==5){ double R=dim("R"),r=dim("r"); sx_assume(R>r*1.125); NurbsSurface s; if(kind==3){ junk(s); NurbsFactory::create_torus(R,r,s); } else { NurbsSolid n; junk(s); n.add_surface(s); NurbsFactory::create_torus(R,r,n); sx_assert(n.surfaces().size()==1,"one surface"); s=n.surfaces()[0]; } shape(s,2,2,true,true); par("u",u,qu,4); par("v",v,qv,4); onTorus(s,u,v,R,r); tube(s,R,r); around(s,0,kind==3?-1:1,R); if(kind==5) for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double a=i*0.25+0.0625,b=j*0.25+0.0625; Point3 c=sub(ev(s,a,0),Point3(0,0,0)); c=c*(R/(R+r)); outward(s,a,b,c); } }
 else if(kind==4){ double R=dim("R"),H=dim("h"); NurbsSolid n; { NurbsSurface s; junk(s); n.add_surface(s); } NurbsFactory::create_cylinder(R,H,n); sx_assert(n.surfaces().size()==3,"two caps and a side"); par("u",u,qu,4); v=sx_real("v",0.,1.); int caps=0,side=0; for(auto&s:n.surfaces()){ shape(s,2,1,true,false); Point3 p=ev(s,u,v),a=ev(s,0,0),b=ev(s,0,1); if(a._z==b._z){ double z=a._z; bool top=z>0; caps+=top?1:10; sx_close(z*z,H*H/4,1e-9*H*H,"cap height"); sx_close(p._z,z,1e-9*H,"cap is flat"); sx_close(p._x*p._x+p._y*p._y,R*R*v*v,1e-9*R*R,"cap radius"); around(s,1.,top?-1:1,R); Point3 nrm=crossP(sub(ev(s,.0625,.5),ev(s,0,.5)),sub(ev(s,0,.75),ev(s,0,.5))); bool out=top?nrm._z>0:nrm._z<0; sx_assert(out,"cap faces outside"); } else { side++; sx_close(p._x*p._x+p._y*p._y,R*R,1e-9*R*R,"side radius"); sx_close(p._z,-H/2+v*H,1e-9*H,"side height"); around(s,.5,1,R); for(int i=0;i<4;i++){ Point3 q=ev(s,i*.25+.0625,.5); outward(s,i*.25+.0625,.5,Point3(0,0,q._z)); } } } sx_assert(caps==11&&side==1,"one bottom, one side, one top"); }
 else if(kind==7||kind==8){ Point3 p[4]; for(auto&q:p) q=symPoint("p",4.); NurbsSurface s; junk(s); if(kind==7) NurbsFactory::create_quad(p[0],p[1],p[2],p[3],s); else { p[3]=p[2]; NurbsFactory::create_triangle(p[0],p[1],p[2],s); } shape(s,1,1,s.is_closed_u(),false); u=sx_real("u",0.,1.); v=sx_real("v",0.,1.); closeP(ev(s,u,v),p[0]*((1-u)*(1-v))+p[1]*(u*(1-v))+p[2]*(u*v)+p[3]*((1-u)*v),1e-9,"bilinear patch through its corners"); }
 else if(kind==9){ double X=dim("x"),Y=dim("y"),Z=dim("z"); NurbsSolid n; { NurbsSurface s; junk(s); n.add_surface(s); } NurbsFactory::create_box(X,Y,Z,n); sx_assert(n.surfaces().size()==6,"six faces"); u=sx_real("u",0.,1.); v=sx_real("v",0.,1.); int seen[6]={0,0,0,0,0,0}; for(auto&s:n.surfaces()){ shape(s,1,1,false,false); Point3 a=ev(s,0,0),b=ev(s,1,0),c=ev(s,1,1),d=ev(s,0,1); Point3 q[4]={a,b,c,d}; for(auto&w:q){ sx_close(w._x*w._x,X*X/4,1e-9*X*X,"corner of the box"); sx_close(w._y*w._y,Y*Y/4,1e-9*Y*Y,"corner of the box"); sx_close(w._z*w._z,Z*Z/4,1e-9*Z*Z,"corner of the box"); } Point3 nn=crossP(sub(b,a),sub(d,a)); closeP(sub(c,b),sub(d,a),1e-9,"parallelogram"); double k[3]={nn._x/(Y*Z),nn._y/(Z*X),nn._z/(X*Y)}; int f=-1; for(int i=0;i<3;i++){ bool pos=k[i]>.5,neg=k[i]<-.5; if(pos) f=i; if(neg) f=3+i; } sx_assert(f>=0,"axis parallel face"); if(f<0) return; seen[f]++; double out=f%3==0?a._x*X:f%3==1?a._y*Y:a._z*Z, ar=k[f%3]*(f<3?1:-1); sx_close(ar,1.,1e-9,"full rectangle"); bool o=f<3?out>0:out<0; sx_assert(o,"faces outside"); closeP(ev(s,u,v),a+(b-a)*u+(d-a)*v,1e-9,"flat face"); } for(int i=0;i<6;i++) sx_assert(seen[i]==1,"every side once"); }
 else { int deg=sx_param("deg",2),n=sx_param("n",4); vector<Point3> P=symPoints("P",n,4.); NurbsCurve c; vector<Point3> g(3); c.set_degree(1); c.set_points(g); c.set_uniform(); c.set_weights({1,2,1}); NurbsFactory::create_curve_from_points(P,deg,c); sx_assert(c.degree()==deg&&c.nb_points()==n,"degree and points"); vector<double> U; for(int i=0;i<=deg;i++) U.push_back(0); for(int i=1;i<n-deg;i++) U.push_back((double)i/(n-deg)); for(int i=0;i<=deg;i++) U.push_back(1); u=sx_real("u",0.,1.); Point3 p; c.evaluate(u,p); closeP(p,refCurve(U,deg,P,vector<double>(n,1.),u),1e-9,"uniform clamped non-rational curve"); }
 sx_reach("end");
}
