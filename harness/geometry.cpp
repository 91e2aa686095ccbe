// Vectors and geometric predicates. op 0 algebra, 1 norms, 2 triangle measures, 3 plane, 4 plane and segment, 5 point in triangle, 6 two segments, 7 triangle and plane, 8 triangle and segment, 9 two triangles, 10 bounding boxes, 11 accessors
#include "hcommon.h"
#include <cmath>
static double dt(const Point3&a,const Point3&b){ return a._x*b._x+a._y*b._y+a._z*b._z; }
static Point3 cr(const Point3&a,const Point3&b){ return Point3(a._y*b._z-a._z*b._y,a._z*b._x-a._x*b._z,a._x*b._y-a._y*b._x); }
static Point3 P(double x,double y,double z){ return Point3(x,y,z); }
static Point3 sub(const Point3&a,const Point3&b){ return P(a._x-b._x,a._y-b._y,a._z-b._z); }
static Point3 mad(const Point3&a,double k,const Point3&b){ return P(a._x+k*b._x,a._y+k*b._y,a._z+k*b._z); }
static const double TRI[5][9]={{0,0,0,3,0,0,0,4,0},{1,0,0,0,1,0,0,0,1},{-1,2,0.5,2,-1,1,1,1,-2},{0,0,0,0,2,1,0,-1,3},{0.5,0.25,1,-2,-2,-2,3,-1,2}};
static void tri0(int k,Point3&a,Point3&b,Point3&c){ if(k<5){ const double*t=TRI[k]; a=P(t[0],t[1],t[2]); b=P(t[3],t[4],t[5]); c=P(t[6],t[7],t[8]); } else { a=symPoint("a",4.); b=symPoint("b",4.); c=symPoint("c",4.); if(k==6) a._z=b._z=c._z=1; Point3 n=cr(sub(b,a),sub(c,a)); sx_assume(dt(n,n)>0.01); } }
static double K=1; // scale of the whole scene
static void tri(int k,Point3&a,Point3&b,Point3&c){ tri0(k,a,b,c); for(Point3*p:{&a,&b,&c}) *p=P(K*p->_x,K*p->_y,K*p->_z); }
static Point3 sp(const char*n,double r){ Point3 p=symPoint(n,r); return P(K*p._x,K*p._y,K*p._z); }
static double sr(const char*n,double a,double b){ return K*sx_real(n,a,b); }
void sx_entry(){
 int op=sx_param("op",0),k=sx_param("k",0); for(int i=sx_param("sc",0);i;i+=i>0?-1:1) K*=sx_param("sc",0)>0?0.5:2;
 if(op==0){ Point3 a=sp("a",4.),b=sp("b",4.); double d=sx_real("d",-4,4); closeP(a+b,P(a._x+b._x,a._y+b._y,a._z+b._z),1e-9*K,"sum"); closeP(a-b,P(a._x-b._x,a._y-b._y,a._z-b._z),1e-9*K,"difference"); closeP(a*d,P(a._x*d,a._y*d,a._z*d),1e-9*K,"multiple"); Point3 c=a; Point3&r=(c+=b); closeP(c,a+b,0,"+="); sx_assert(&r==&c,"returns itself"); c=a; sx_assert(&(c-=b)==&c,"returns itself"); closeP(c,a-b,0,"-="); c=a; sx_assert(&(c*=d)==&c,"returns itself"); closeP(c,a*d,1e-9*K,"*="); sx_close(a.dot_product(b),dt(a,b),1e-9*K*K,"dot product"); closeP(a.cross_product(b),cr(a,b),1e-9*K*K,"cross product"); sx_close(a.norm_square(),dt(a,a),1e-9*K*K,"square of the norm"); sx_close(a.distance_square(b),dt(sub(a,b),sub(a,b)),1e-9*K*K,"square of the distance"); closeP(Point3(),P(0,0,0),0,"default is the origin"); c=a; c+=c; closeP(c,P(2*a._x,2*a._y,2*a._z),1e-9*K,"adding itself"); c=a; c-=c; closeP(c,P(0,0,0),1e-9*K,"subtracting itself"); c.x()=d; c.y()=d+1; c.z()=d+2; closeP(c,P(d,d+1,d+2),0,"accessors"); if(d!=0){ closeP(a/d,P(a._x/d,a._y/d,a._z/d),1e-9*K,"quotient"); c=a; sx_assert(&(c/=d)==&c,"returns itself"); closeP(c,a/d,1e-9*K,"/="); } }
 else if(op==1){ Point3 a=sp("a",4.); if(sx_param("flat",0)) a._z=0; sx_assume(dt(a,a)>0.01*K*K); double n=a.norm(); sx_close(n*n,dt(a,a),1e-9*K*K,"norm"); sx_assert(n>=0,"a norm is not negative"); Point3 u=a.normalized(); sx_close(dt(u,u),1.,1e-9,"unit length"); closeP(u*n,a,1e-9*K,"same direction"); Point3 b=a; b.normalize(); closeP(b,u,1e-9,"normalize"); Point3 z(0,0,0); sx_assert(z.norm()==0,"norm of zero"); Segment3 s(a,z); sx_close(s.norm(),n,1e-9*K,"segment length"); sx_close(s.norm_square(),dt(a,a),1e-9*K*K,"square of the segment length"); }
 else if(op==2){ Point3 a,b,c; tri(k,a,b,c); Triangle3 t(a,b,c); Point3 o=t.orthogonal(),e=sub(b,a),f=sub(c,a); closeP(o,cr(e,f),1e-9*K*K,"right-handed cross product of the sides"); double s=t.surface(); sx_assert(s>=0,"an area is not negative"); sx_close(4*s*s,dt(e,e)*dt(f,f)-dt(e,f)*dt(e,f),1e-8*K*K*K*K,"area"); Point3 n=t.normal(); sx_close(dt(n,n),1.,1e-9,"unit normal"); sx_close(dt(n,e),0,1e-9*K,"perpendicular"); sx_close(dt(n,f),0,1e-9*K,"perpendicular"); sx_assert(dt(n,o)>0,"right-handed normal"); sx_close(dt(n,o),2*s,1e-8*K*K,"normal and area"); Triangle3 q(a,c,b); closeP(q.orthogonal(),P(-o._x,-o._y,-o._z),1e-9*K*K,"reversed"); Triangle3 w(b,c,a); closeP(w.orthogonal(),o,1e-9*K*K,"rotated"); }
 else if(op==3){ Point3 a,b,c; tri(k,a,b,c); Plane3 p(a,b,c),p2(Triangle3(a,b,c)),p3; p3.compute_using(c,b,a); p3.compute_using(Triangle3(a,b,c)); sx_close(p.distance_to(a),0,1e-9*K,"the plane contains its points"); sx_close(p.distance_to(b),0,1e-9*K,"the plane contains its points"); sx_close(p.distance_to(c),0,1e-9*K,"the plane contains its points"); Point3 n=p.normal(); sx_close(dt(n,n),1.,1e-9,"unit normal"); sx_assert(dt(n,cr(sub(b,a),sub(c,a)))>0,"right-handed normal"); double h=sr("h",-4,4); Point3 x=mad(mad(mad(a,sx_real("s",-2,2),sub(b,a)),sx_real("t",-2,2),sub(c,a)),h,n); sx_close(p.distance_to(x),h,1e-8*K,"signed distance"); Point3 y; p.project_point(x,y); closeP(y,mad(x,-h,n),1e-8*K,"foot of the perpendicular"); double A,B,C,D; p.get(A,B,C,D); closeP(P(A,B,C),n,1e-9,"coefficients"); sx_close(p.distance_to(P(K,2*K,3*K)),K*(A+2*B+3*C)+D,1e-9*K,"coefficients"); closeP(p2.normal(),n,1e-9,"plane of a triangle"); sx_close(p2.distance_to(x),p.distance_to(x),1e-9*K,"plane of a triangle"); sx_close(p3.distance_to(x),p.distance_to(x),1e-9*K,"recomputed plane"); }
 else if(op==4){ Point3 a,b,c; tri(k,a,b,c); Plane3 p(a,b,c); Point3 n=p.normal(); Point3 q=sp("q",4.),r=sp("r",4.); double dq=p.distance_to(q),dr=p.distance_to(r); Point3 x(77,77,77); bool hit=p.intersect_with(Segment3(q,r),x); bool opp=(dq>0&&dr<0)||(dq<0&&dr>0); sx_assert(hit==opp,"a segment meets the plane exactly when its ends lie on opposite sides"); if(hit){ double t=dq/(dq-dr); closeP(x,mad(q,t,sub(r,q)),1e-9*K,"the meeting point is on the segment and on the plane"); } }
 else if(op==5){ Point3 a,b,c; tri(k,a,b,c); double s=sx_real("s",-2,2),t=sx_real("t",-2,2); Point3 p=mad(mad(a,s,sub(b,a)),t,sub(c,a)); bool in=Triangle3(a,b,c).contains(p); bool want=s>=0&&t>=0&&s+t<=1; if(sx_param("exact",1)) sx_assert(in==want,"contains exactly the points of the triangle"); }
 else if(op==6){ // segments on two lines that cross at x
  static const double D[4][6]={{1,0,0,0,1,0},{1,1,0,1,-1,0.5},{2,0,1,-1,1,1},{1,2,3,3,-1,1}}; Point3 u=P(D[k][0],D[k][1],D[k][2]),v=P(D[k][3],D[k][4],D[k][5]); Point3 x=sp("x",4.); double p=sr("p",-4,4),q=sr("q",-4,4),r=sr("r",-4,4),s=sr("s",-4,4); sx_assume(q>p+0.01*K); sx_assume(s>r+0.01*K); Point3 y(77,77,77); bool hit=Segment3(mad(x,p,u),mad(x,q,u)).intersect(Segment3(mad(x,r,v),mad(x,s,v)),y); bool want=p<=0&&0<=q&&r<=0&&0<=s; sx_assert(hit==want,"segments on crossing lines meet exactly when both contain the crossing"); if(hit) closeP(y,x,1e-9*K,"the meeting point is the crossing"); }
 else if(op==7){ Point3 a,b,c; tri(k,a,b,c); Plane3 p(a,b,c); Point3 q=sp("q",4.),r=sp("r",4.),s=sp("s",4.); double d[3]={p.distance_to(q),p.distance_to(r),p.distance_to(s)}; bool po=d[0]>0||d[1]>0||d[2]>0,ne=d[0]<0||d[1]<0||d[2]<0; sx_assert(Triangle3(q,r,s).cutted_by(p)==(po&&ne),"cut exactly when corners lie on both sides"); }
 else if(op==8){ Point3 a,b,c; tri(k,a,b,c); Point3 n=Plane3(a,b,c).normal(); double s=sx_real("s",-2,2),t=sx_real("t",-2,2),h=sr("h",-3,3),g=sr("g",-3,3); Point3 x=mad(mad(a,s,sub(b,a)),t,sub(c,a)); static const double D[3][3]={{1,2,3},{-1,0.5,0.25},{0,0,1}}; Point3 d=P(D[k%3][0],D[k%3][1],D[k%3][2]); Point3 y(77,77,77); bool hit=Triangle3(a,b,c).intersect_with(Segment3(mad(x,h,d),mad(x,g,d)),y); bool want=((h>0&&g<0)||(h<0&&g>0)); double e=0.001; bool in=s>=e&&t>=e&&s+t<=1-e,out=s<-e||t<-e||s+t>1+e; if(want&&in) sx_assert(hit,"a segment through the triangle meets it"); if(!want||out) sx_assert(!hit,"a segment beside the triangle misses it"); if(hit) closeP(y,x,1e-9*K,"the meeting point"); (void)n; }
 else if(op==9){ // second triangle has one side through the plane of the first at x and the third corner far away on one side
  Point3 a,b,c; tri(k,a,b,c); double s=sx_real("s",-2,2),t=sx_real("t",-2,2); Point3 x=mad(mad(a,s,sub(b,a)),t,sub(c,a)); static const double D[3][3]={{1,2,3},{-1,0.5,0.25},{0.1,0.2,1}}; Point3 d=P(D[k%3][0],D[k%3][1],D[k%3][2]); double h=sr("h",0.25,3),g=sr("g",0.25,3); Point3 q=mad(x,h,d),r=mad(x,-g,d); Point3 z=mad(q,sr("far",0.0625,1),P(0.25,-0.125,0.5)); Triangle3 A(a,b,c),B(q,r,z); bool ab=A.intersect_with(B),ba=B.intersect_with(A); bool in=s>=0.01&&t>=0.01&&s+t<=0.99; if(in) sx_assert(ab&&ba,"a triangle pierced by a side of another meets it"); sx_assert(ab==ba,"meeting is symmetric"); }
 else if(op==10){ int n=sx_param("n",3),m=sx_param("m",3); vector<Point3> V=symPoints("v",n,4.),W=symPoints("w",m,4.); BoundingBox3 x,y; BoundingBox3 e; for(auto&p:V){ x.add(p); if(sx_param("mix",0)){ x.intersect_with(e); x.intersect_with(x); } } for(auto&p:W){ y.add(p); if(sx_param("mix",0)) y.intersect_with(x); } bool want=true; for(int i=0;i<3;i++){ auto g=[&](const Point3&p){ return i==0?p._x:i==1?p._y:p._z; }; bool le=false,ge=false; for(auto&p:V) for(auto&q:W){ le=le|(g(p)<=g(q)); ge=ge|(g(p)>=g(q)); } want=want&le&ge; } sx_assert(x.intersect_with(y)==want,"boxes meet exactly when their ranges overlap on every axis"); sx_assert(y.intersect_with(x)==want,"meeting is symmetric"); if(n==3){ BoundingBox3 t(Triangle3(V[0],V[1],V[2])); sx_assert(t.intersect_with(y)==want,"box of a triangle"); } }
 else if(op==12){ static const double D[4][3]={{1,0,0},{1,1,0},{1,-2,0.5},{0,-1,-1}}; const double*d=D[sx_param("dir",1)]; Point3 n=P(d[0],d[1],d[2]); Point3 a,b,c; tri(k,a,b,c); double m=dt(a,n); if(dt(b,n)>m) m=dt(b,n); if(dt(c,n)>m) m=dt(c,n); Point3 q=sp("q",6.),r=sp("r",6.),s=sp("s",6.); if(sx_param("fix",1)){ r=P(q._x+2*K,q._y-K,q._z+K); s=P(q._x+sr("e",-2,2),q._y+K,q._z-K); } Point3 o=cr(sub(r,q),sub(s,q)); sx_assume(dt(o,o)>0.01*K*K*K*K); sx_assume((dt(q,n)>m+0.01*K)&(dt(r,n)>m+0.01*K)&(dt(s,n)>m+0.01*K)); Triangle3 A(a,b,c),B(q,r,s); bool ab=A.intersect_with(B); sx_assert(!ab,"triangles separated by a plane do not meet"); ab=B.intersect_with(A); sx_assert(!ab,"triangles separated by a plane do not meet"); }
 else if(op==14){ // two planes: fixed directions (dir), moved by any vector, the second also tilted if tilt is set
  Point3 a,b,c,e,f,g; tri(k,a,b,c); tri(sx_param("k2",1),e,f,g); Point3 d=sp("d",4.); e=mad(e,1,d); f=mad(f,1,d); g=mad(g,1,d); if(sx_param("tilt",0)){ double z=sr("tilt",-2,2); g=P(g._x,g._y,g._z+z); Point3 n=cr(sub(f,e),sub(g,e)),m=cr(sub(b,a),sub(c,a)),x=cr(n,m); sx_assume(dt(n,n)>0.01*K*K*K*K); sx_assume(dt(x,x)>0.01*K*K*K*K*K*K*K*K); } Plane3 p(a,b,c),q(e,f,g); if(sx_param("flip",0)) q=Plane3(f,e,g); Line3 l(P(7,7,7),P(8,8,8)); bool r=p.intersect_with(q,l); bool par=sx_param("k2",1)==k; sx_assert(r==!par,"two planes meet in a line exactly when they are not parallel"); if(r){ for(const Point3&x:{l.p1(),l.p2()}){ sx_close(p.distance_to(x),0,1e-8*K,"the line lies in both planes"); sx_close(q.distance_to(x),0,1e-8*K,"the line lies in both planes"); } Point3 u=sub(l.p2(),l.p1()); sx_assert(dt(u,u)>1e-6,"two different points"); } else closeP(l.p1(),P(7,7,7),0,"no line, nothing is written"); }
 else if(op==13){ // objects that were queried and then changed answer like new ones
  Point3 a,b,c; tri(k,a,b,c); Triangle3 t(mad(a,1,P(0.3,-0.2,0.5)),mad(b,1,P(0.1,0.3,0.7)),mad(c,1,P(-0.2,0.5,0.1))); double nx=sx_real("nx",-4,4); Point3 n[3]={P(nx,2-nx*0.5,sx_param("flat",0)?0:1+nx),b,symPoint("m",4.)}; sx_assume(dt(n[2],n[2])>0.01); int wh=sx_param("which",0); Point3 y,z; Segment3 sg(P(1,1,-5),P(1.5,1,5)); auto all=[&](const Triangle3&x){ Point3 o=cr(sub(x.p2(),x.p1()),sub(x.p3(),x.p1())); sx_assume(dt(o,o)>0.01); x.surface(); x.normal(); x.orthogonal(); x.contains(P(1,1,0)); x.cutted_by(Plane3(P(0,0,1),P(1,0,1),P(0,1,1.5))); x.intersect_with(sg,y); }; all(t); Triangle3 old(t); t.set_p1(a); all(t); if(wh==1) t.set_p2(n[0]); else t.set_p2(b); all(t); if(wh==2) t.set_p3(n[0]); else t.set_p3(c); if(wh==0) t.set_p1(n[0]); Triangle3 f(t.p1(),t.p2(),t.p3()); closeP(t.p1(),wh==0?n[0]:a,0,"corner"); closeP(t.p2(),wh==1?n[0]:b,0,"corner"); closeP(t.p3(),wh==2?n[0]:c,0,"corner"); Point3 e=cr(sub(f.p2(),f.p1()),sub(f.p3(),f.p1())); sx_assume(dt(e,e)>0.01); closeP(t.orthogonal(),e,1e-9,"a changed triangle is like a new one"); closeP(t.normal(),f.normal(),1e-9,"a changed triangle is like a new one"); sx_close(t.surface(),f.surface(),1e-9,"a changed triangle is like a new one"); Point3 oo=cr(sub(old.p2(),old.p1()),sub(old.p3(),old.p1())); closeP(old.orthogonal(),oo,1e-9,"a copy is independent"); Plane3 pl(P(0,0,1),P(1,0,1),P(0,1,1.5)); sx_assert(t.cutted_by(pl)==f.cutted_by(pl),"a changed triangle is like a new one"); bool h1=t.intersect_with(sg,y),h2=f.intersect_with(sg,z); sx_assert(h1==h2,"a changed triangle is like a new one"); if(h1&&h2) closeP(y,z,1e-9,"a changed triangle is like a new one");
  Segment3 s(a,b); s.norm(); s.norm_square(); s.intersect(sg,y); s.set_p1(n[0]); Point3 d=sub(b,n[0]); sx_close(s.norm_square(),dt(d,d),1e-9,"a changed segment is like a new one"); double sn=s.norm(); sx_close(sn*sn,dt(d,d),1e-9,"a changed segment is like a new one"); s.set_p2(n[2]); d=sub(n[2],n[0]); sx_close(s.norm_square(),dt(d,d),1e-9,"a changed segment is like a new one"); sn=s.norm(); sx_close(sn*sn,dt(d,d),1e-9,"a changed segment is like a new one");
  Plane3 p(a,b,c); p.normal(); p.distance_to(n[2]); p.intersect_with(sg,y); p.compute_using(f); Plane3 g(f.p1(),f.p2(),f.p3()); closeP(p.normal(),g.normal(),1e-9,"a recomputed plane is like a new one"); sx_close(p.distance_to(n[2]),g.distance_to(n[2]),1e-9,"a recomputed plane is like a new one"); Point3 v=n[2]; v.norm(); v.normalized(); v._x+=1; v*=2; sx_close(v.norm_square(),4*((n[2]._x+1)*(n[2]._x+1)+n[2]._y*n[2]._y+n[2]._z*n[2]._z),1e-9,"a changed vector is like a new one"); }
 else { Point3 a=symPoint("a",4.),b=symPoint("b",4.),c=symPoint("c",4.); Line3 l(a,b),l2; l2.set_p1(a); l2.set_p2(b); closeP(l.p1(),a,0,"line"); closeP(l.p2(),b,0,"line"); closeP(l2.p1(),a,0,"line"); closeP(l2.p2(),b,0,"line"); Segment3 s(a,b),s2; s2.set_p1(a); s2.set_p2(b); closeP(s.p1(),a,0,"segment"); closeP(s.p2(),b,0,"segment"); closeP(s2.p1(),a,0,"segment"); closeP(s2.p2(),b,0,"segment"); Triangle3 t(a,b,c),u; u.set_p1(a); u.set_p2(b); u.set_p3(c); closeP(t.p1(),a,0,"triangle"); closeP(t.p2(),b,0,"triangle"); closeP(t.p3(),c,0,"triangle"); closeP(u.p1(),a,0,"triangle"); closeP(u.p2(),b,0,"triangle"); closeP(u.p3(),c,0,"triangle"); }
 sx_reach("end");
}
