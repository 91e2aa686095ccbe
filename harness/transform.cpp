// Rigid motions. op 0 matrix, 1 quaternion, 2 angle-axis: rotation by a right-handed angle about a unit axis; 3 Euler angles; 4 the three forms agree and forget earlier settings; 5 defaults, raw matrices and raw unit quaternions
#include "hcommon.h"
#include "Transform.h"
#include <cmath>
static const double RAD=2.*3.14159265359/360.;
static Point3 ap(const Transform&t,Point3 p){ t.apply(p); return p; }
static Point3 unit(){ int ax=sx_param("ax",0); if(ax==1) return Point3(0,0,1); if(ax==2) return Point3(0.6,0.8,0); if(ax==3) return Point3(-2./3.,1./3.,2./3.); if(ax==4) return Point3(1,0,0); if(ax==5) return Point3(0,1,0); if(ax==6) return Point3(0,0,-1); double f=sx_real("lat",-90,90),g=sx_real("lon",-180,180); return Point3(cos(f)*cos(g),cos(f)*sin(g),sin(f)); }
static double dist2(const Point3&a,const Point3&b){ double x=a._x-b._x,y=a._y-b._y,z=a._z-b._z; return x*x+y*y+z*z; }
static double det(const Point3&a,const Point3&b,const Point3&c){ return a._x*(b._y*c._z-b._z*c._y)-a._y*(b._x*c._z-b._z*c._x)+a._z*(b._x*c._y-b._y*c._x); }
static Point3 rodrigues(const Point3&n,double c,double s,const Point3&p){ double d=(n._x*p._x+n._y*p._y+n._z*p._z)*(1-c); return Point3(p._x*c+(n._y*p._z-n._z*p._y)*s+n._x*d,p._y*c+(n._z*p._x-n._x*p._z)*s+n._y*d,p._z*c+(n._x*p._y-n._y*p._x)*s+n._z*d); }
struct Rot { int k; RotationMatrix m; RotationQuaternion q; RotationAngleAxis a; void set(double an,const Point3&ax){ if(k==0) m.from_angle_axis(an,ax); else if(k==1) q.from_angle_axis(an,ax); else if(k==2) a.from_angle_axis(an,ax); else a.set_angle_axis(an,ax); } Point3 ap(Point3 p)const{ if(k==0) m.apply(p); else if(k==1) q.apply(p); else a.apply(p); return p; } };
static void isRigid(const Rot&r,const Point3&p,const Point3&q){ sx_close(dist2(r.ap(p),r.ap(q)),dist2(p,q),1e-9*KS()*KS(),"distances are preserved"); closeP(r.ap(Point3(0,0,0)),Point3(0,0,0),1e-9,"the origin stays"); sx_close(det(r.ap(Point3(1,0,0)),r.ap(Point3(0,1,0)),r.ap(Point3(0,0,1))),1.,1e-9,"orientation is preserved"); }
void sx_entry(){
 int op=sx_param("op",0), ang=sx_param("ang",9999); Rot r; r.k=op;
 if(op<=2){ double a=ang==9999?sx_real("angle",-720,720):ang; Point3 n=unit(); Point3 p=symPoint("p",4.),q=symPoint("q",4.); r.set(a,n); if(ang==9999) isRigid(r,p,q); closeP(r.ap(n),n,1e-9,"the axis stays"); double c=ang==9999?cos(a*RAD):cos(ang*M_PI/180),s=ang==9999?sin(a*RAD):sin(ang*M_PI/180); closeP(r.ap(p),rodrigues(n,c,s,p),1e-9,"turns right-handed by the angle about the axis"); Rot b; b.k=op; b.set(-a,n); closeP(b.ap(r.ap(p)),p,1e-9,"the opposite angle undoes it"); if(ang==9999){ Rot d; d.k=op; d.set(2*a,n); closeP(r.ap(r.ap(p)),d.ap(p),1e-9,"angles add up"); } }
 else if(op==3){ double y=sx_real("yaw",-360,360),pi=sx_real("pitch",-360,360),ro=sx_real("roll",-360,360); Point3 p=symPoint("p",4.),q=symPoint("q",4.); RotationEulerAngles e(y,pi,ro); sx_close(dist2(ap(e,p),ap(e,q)),dist2(p,q),1e-9*KS()*KS(),"distances are preserved"); closeP(ap(e,Point3(0,0,0)),Point3(0,0,0),1e-9,"the origin stays"); RotationEulerAngles g(7,8,9); ap(g,p); g.set_angles(y,pi,ro); closeP(ap(e,p),ap(g,p),1e-9,"set_angles forgets the earlier angles");
  RotationEulerAngles a(y,0,0),b(0,pi,0),c(0,0,ro),z(0,0,0); Point3 u=ap(a,p); sx_close(u._y,ap(z,p)._y,1e-9,"yaw turns about y"); sx_close(ap(b,p)._x,p._x,1e-9,"pitch turns about x"); sx_close(ap(c,p)._z,p._z,1e-9,"roll turns about z"); closeP(ap(c,ap(z,ap(b,ap(z,ap(a,p))))),ap(e,p),1e-9,"yaw, then pitch, then roll"); RotationEulerAngles d; closeP(ap(d,p),ap(z,p),1e-9,"default angles are zero"); closeP(ap(RotationEulerAngles(360,0,0),p),ap(z,p),1e-9,"360 degrees are a full turn"); closeP(ap(RotationEulerAngles(0,-360,0),p),ap(z,p),1e-9,"360 degrees are a full turn"); closeP(ap(RotationEulerAngles(0,0,360),p),ap(z,p),1e-9,"360 degrees are a full turn"); Point3 k=ap(RotationEulerAngles(90,0,0),p); sx_close(k._x*k._x,p._z*p._z,1e-9*KS()*KS(),"90 degrees are a quarter turn"); k=ap(RotationEulerAngles(0,0,90),p); sx_close(k._y*k._y,p._x*p._x,1e-9*KS()*KS(),"90 degrees are a quarter turn"); }
 else if(op==4){ double a=sx_real("angle",-720,720); Point3 n=unit(),p=symPoint("p",4.); RotationMatrix m; RotationQuaternion q; RotationAngleAxis x,y(33.,Point3(1,0,0)); m.from_angle_axis(70,Point3(0,1,0)); q.from_angle_axis(70,Point3(0,1,0)); x.from_angle_axis(70,Point3(0,1,0)); ap(m,p); ap(q,p); ap(x,p); ap(y,p); m.from_angle_axis(a,n); q.from_angle_axis(a,n); x.from_angle_axis(a,n); y.set_angle_axis(a,n); RotationAngleAxis w(a,n); Point3 t=ap(m,p); closeP(ap(q,p),t,1e-9,"quaternion and matrix agree"); closeP(ap(x,p),t,1e-9,"angle-axis and matrix agree"); closeP(ap(y,p),t,1e-9,"set_angle_axis and matrix agree"); closeP(ap(w,p),t,1e-9,"constructor and matrix agree"); }
 else { Point3 p=symPoint("p",4.); RotationMatrix m; RotationQuaternion q; RotationAngleAxis x; closeP(ap(m,p),p,1e-9,"default matrix is the identity"); closeP(ap(q,p),p,1e-9,"default quaternion is the identity"); closeP(ap(x,p),p,1e-9,"default angle-axis is the identity"); double M[9],N[9]; for(int i=0;i<9;i++) M[i]=sx_real("m",-4,4); RotationMatrix r1(M),r2; r2.from_angle_axis(20,Point3(0,0,1)); ap(r2,p); r2.set_matrix(M); closeP(ap(r1,p),Point3(M[0]*p._x+M[1]*p._y+M[2]*p._z,M[3]*p._x+M[4]*p._y+M[5]*p._z,M[6]*p._x+M[7]*p._y+M[8]*p._z),1e-9,"matrix times column vector"); closeP(ap(r2,p),ap(r1,p),0,"set_matrix"); r2.get_matrix(N); for(int i=0;i<9;i++) sx_close(N[i],M[i],0,"get_matrix");
  double a=sx_real("a",-180,180); double c=cos(a),s=sin(a); Point3 n=unit(); double Q[4]={c,n._x*s,n._y*s,n._z*s}; RotationQuaternion q1(Q),q2; q2.from_angle_axis(20,Point3(0,0,1)); ap(q2,p); q2.set_quaternion(Q); closeP(ap(q1,p),rodrigues(n,c*c-s*s,2*c*s,p),1e-9,"a unit quaternion turns by twice its angle about its axis"); closeP(ap(q2,p),ap(q1,p),0,"set_quaternion"); }
 sx_reach("end");
}
