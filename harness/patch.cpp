// Bezier triangles. op 0 evaluation, 1 flat patches, 2 transform, 3 mesh of a patch, 4 Bernstein polynomials, 5 point-normal triangles; smooth meshes: 6 container, 7 flat polygons, 8 factory shapes
#include "mesh_topo.h"
#include "Transform.h"
#include "QuadBezierTriangle.h"
#include "CubicBezierTriangles.h"
#include "BezierUtil.h"
#include "SmoothMesh.h"
#include "SmoothMeshFactory.h"
#include <cmath>
struct Net{ Point3 p[6]; double w[6]; QuadBezierTriangle t; }; // corners 1 2 3, sides 12 13 23
static Net net(bool rat){ Net n; if(sx_param("reuse",0)){ n.t.set_points(Point3(1,2,3),Point3(3,2,1),Point3(0,1,0)); n.t.eval(0.25,0.5); n.t.set_control_points(Point3(1,1,1),Point3(2,1,1),Point3(1,2,1)); n.t.set_weights(1,2,3,4,5,6); n.t.eval(0.5,0.25); } for(auto&p:n.p) p=symPoint("P",4.); for(auto&w:n.w) w=rat?sx_real("w",0.25,4):1.; n.t.set_points(n.p[0],n.p[1],n.p[2]); n.t.set_control_points(n.p[3],n.p[4],n.p[5]); if(rat||sx_param("reuse",0)) n.t.set_weights(n.w[0],n.w[1],n.w[2],n.w[3],n.w[4],n.w[5]); return n; }
static Point3 lin(const Point3&a,double s,const Point3&b,double u,const Point3&c,double v){ return Point3(a._x*s+b._x*u+c._x*v,a._y*s+b._y*u+c._y*v,a._z*s+b._z*u+c._z*v); }
static Point3 casteljau(const Net&n,double s,double u,double v){ Point3 h[6]; for(int i=0;i<6;i++) h[i]=Point3(n.p[i]._x*n.w[i],n.p[i]._y*n.w[i],n.p[i]._z*n.w[i]); const double*w=n.w; Point3 a=lin(h[0],s,h[3],u,h[4],v),b=lin(h[3],s,h[1],u,h[5],v),c=lin(h[4],s,h[5],u,h[2],v); double wa=w[0]*s+w[3]*u+w[4]*v,wb=w[3]*s+w[1]*u+w[5]*v,wc=w[4]*s+w[5]*u+w[2]*v; Point3 r=lin(a,s,b,u,c,v); double k=wa*s+wb*u+wc*v; return Point3(r._x/k,r._y/k,r._z/k); }
struct Aff : public Transform { double M[9],T[3]; Aff(){ for(auto&x:M) x=sx_real("M",-2,2); for(auto&x:T) x=sx_real("T",-2,2); } void apply(Point3&p)const override{ p=of(p); } Point3 of(const Point3&p)const{ return Point3(M[0]*p._x+M[1]*p._y+M[2]*p._z+T[0],M[3]*p._x+M[4]*p._y+M[5]*p._z+T[1],M[6]*p._x+M[7]*p._y+M[8]*p._z+T[2]); } };
struct Cub : public CubicBezierTriangles { Point3 c(int i,int j){ return i==1?(j==2?_controlP1P2:_controlP1P3):i==2?(j==1?_controlP2P1:_controlP2P3):(j==1?_controlP3P1:_controlP3P2); } Point3 p(int i){ return i==1?_P1:i==2?_P2:_P3; } Point3 mid(){ return _controlCenter; } };
static Point3 unitv(const char*n){ string s(n); double f=sx_real((s+"lat").c_str(),-90,90),g=sx_real((s+"lon").c_str(),-180,180); return Point3(cos(f)*cos(g),cos(f)*sin(g),sin(f)); }
static bool same(const Point3&a,const Point3&b,double e){ double x=a._x-b._x,y=a._y-b._y,z=a._z-b._z; return (x<e)&(-x<e)&(y<e)&(-y<e)&(z<e)&(-z<e); }
// the triangles t0.. of m tile the triangle with corners P1 (s=1), P2 (u=1), P3 (v=1), cut into n*n parts
static void checkPatchMesh(const Mesh&m,int v0,int t0,int n,const QuadBezierTriangle&q){ int nv=(n+1)*(n+2)/2; auto T=linked(m); sx_assert(m.nb_vertices()>=v0+nv&&(int)T.size()>=t0+n*n,"n*n triangles over (n+1)(n+2)/2 points");
 vector<int> gi(nv),gj(nv); vector<int> at((n+1)*(n+1),-1); for(int k=0;k<nv;k++){ int is=0,r=k; while(r>n-is){ r-=n-is+1; is++; } gi[k]=is; gj[k]=r; closeP(vtx(m,v0+k),q.eval((double)is/n,(double)r/n),1e-9,"vertices are points of the patch"); }
 for(int t=t0;t<t0+n*n;t++){ int v[3]={T[t].a-v0,T[t].b-v0,T[t].c-v0}; for(int i:v) sx_assert(i>=0&&i<nv,"triangles use the vertices of their patch"); int d=(gi[v[1]]-gi[v[0]])*(gj[v[2]]-gj[v[0]])-(gj[v[1]]-gj[v[0]])*(gi[v[2]]-gi[v[0]]); sx_assert(d==1,"each triangle is one cell, oriented like the corners"); int is=n,js=n,ks=n; for(int i:v){ if(gi[i]<is) is=gi[i]; if(gj[i]<js) js=gj[i]; int k=n-gi[i]-gj[i]; if(k<ks) ks=k; } int up=is+js+ks==n-1; int cell=(is*(n+1)+js)*2+up; for(int o=t0;o<t;o++){ int a=n,b=n,c=n; int w[3]={T[o].a-v0,T[o].b-v0,T[o].c-v0}; for(int i:w){ if(gi[i]<a) a=gi[i]; if(gj[i]<b) b=gj[i]; int k=n-gi[i]-gj[i]; if(k<c) c=k; } sx_assert(!((a*(n+1)+b)*2+(a+b+c==n-1)==cell),"no cell is covered twice"); } } }
void sx_entry(){
 int op=sx_param("op",0), n=sx_param("n",2), rat=sx_param("rat",1);
 if(op==0){ Net q=net(rat); double s=sx_real("s",0,1),u=sx_real("u",0,1); sx_assume(s+u<=1); Point3 r=casteljau(q,s,u,1-s-u); closeP(q.t.eval(s,u),r,1e-9,"rational quadratic Bezier triangle"); closeP(q.t.eval(s,u,1-s-u),r,1e-9,"third coordinate given"); closeP(q.t.eval(1,0),q.p[0],1e-9,"first corner"); closeP(q.t.eval(0,1),q.p[1],1e-9,"second corner"); closeP(q.t.eval(0,0),q.p[2],1e-9,"third corner"); }
 else if(op==1){ Net q=net(rat); q.t.set_points(q.p[0],q.p[1],q.p[2]); q.t.set_weights(1,1,1,1,1,1); double s=sx_real("s",0,1),u=sx_real("u",0,1); closeP(q.t.eval(s,u),lin(q.p[0],s,q.p[1],u,q.p[2],1-s-u),1e-9,"set_points gives the flat triangle"); QuadBezierTriangle d; d.set_points(q.p[0],q.p[1],q.p[2]); closeP(d.eval(s,u),lin(q.p[0],s,q.p[1],u,q.p[2],1-s-u),1e-9,"default weights are equal"); }
 else if(op==2){ Net q=net(rat); double s=sx_real("s",0,1),u=sx_real("u",0,1); sx_assume(s+u<=1); Point3 r=q.t.eval(s,u); Aff a; q.t.apply_transform(a); closeP(q.t.eval(s,u),a.of(r),1e-9,"the transformed patch is the transform of the patch"); }
 else if(op==3){ Net q=net(rat); Mesh m; m.add_vertex(7,7,7); m.add_vertex(7,8,7); m.add_vertex(7,7,8); m.add_triangle(0,1,2); q.t.add_to_mesh(m,n); sx_assert(m.nb_vertices()==3+(n+1)*(n+2)/2&&m.nb_triangles()==1+n*n,"counts"); closeP(vtx(m,1),Point3(7,8,7),0,"earlier content kept"); auto T=linked(m); sx_assert(T[0].a==0&&T[0].b==1&&T[0].c==2,"earlier content kept"); checkPatchMesh(m,3,1,n,q.t); }
 else if(op==4){ double u=sx_real("u",-2,3); using namespace BezierUtil; double v=1-u; double b1[2]={Bernstein01(u),Bernstein11(u)},b2[3]={Bernstein02(u),Bernstein12(u),Bernstein22(u)},b3[4]={Bernstein03(u),Bernstein13(u),Bernstein23(u),Bernstein33(u)}; double r1[2]={v,u},r2[3]={v*v,2*u*v,u*u},r3[4]={v*v*v,3*u*v*v,3*u*u*v,u*u*u}; for(int i=0;i<2;i++) sx_close(b1[i],r1[i],1e-9,"degree 1"); for(int i=0;i<3;i++) sx_close(b2[i],r2[i],1e-9,"degree 2"); for(int i=0;i<4;i++) sx_close(b3[i],r3[i],1e-9,"degree 3"); sx_close(square(u),u*u,1e-9,"square"); sx_close(cubic(u),u*u*u,1e-9,"cubic"); }
 else if(op==5){ Cub c; Point3 P[4],N[4]; for(int i=1;i<4;i++){ P[i]=symPoint("P",4.); N[i]=unitv(i==1?"a":i==2?"b":"c"); } c.set_points(P[1],P[2],P[3]); c.set_normals(N[1],N[2],N[3]); Point3 e(0,0,0); for(int i=1;i<4;i++){ closeP(c.p(i),P[i],0,"corner"); for(int j=1;j<4;j++) if(i!=j){ Point3 k=c.c(i,j); e=lin(e,1,k,1,k,0); closeS(dotP(sub(k,P[i]),N[i]),0,1e-9,"the boundary is tangent to the plane of the corner normal"); Point3 d=sub(k,lin(P[i],2./3,P[j],1./3,P[i],0)); Point3 x=crossP(d,N[i]); closeP(x,Point3(0,0,0),1e-9,"control points move along the normal only"); } } Point3 E=lin(e,1./6,e,0,e,0),V=lin(P[1],1./3,P[2],1./3,P[3],1./3); closeP(c.mid(),lin(E,1.5,V,-0.5,V,0),1e-9,"central control point"); closeP(c.mid(),lin(e,1./4,lin(P[1],1,P[2],1,P[3],1),-1./6,e,0),1e-9,"central control point"); Point3 Q[7]; for(auto&q:Q) q=symPoint("Q",4.); c.set_control_points(Q[0],Q[1],Q[2],Q[3],Q[4],Q[5]); c.set_control_center(Q[6]); closeP(c.c(1,2),Q[0],0,"control point"); closeP(c.c(2,1),Q[1],0,"control point"); closeP(c.c(1,3),Q[2],0,"control point"); closeP(c.c(3,1),Q[3],0,"control point"); closeP(c.c(2,3),Q[4],0,"control point"); closeP(c.c(3,2),Q[5],0,"control point"); closeP(c.mid(),Q[6],0,"control point"); }
 else if(op==6){ int h=sx_param("h",0); Net a=net(true),b=net(false); double s=sx_real("s",0,1),u=sx_real("u",0,1); sx_assume(s+u<=1); SmoothMesh m; m.add_triangle(a.t); m.add_triangle(b.t); auto is=[&](const SmoothMesh&x,int i,const Net&q){ closeP(x.triangle(i).eval(s,u),q.t.eval(s,u),1e-9,"patches are kept in order"); }; sx_assert(m.nb_triangles()==2,"count"); is(m,0,a); is(m,1,b);
  if(h==0){ SmoothMesh c(m),d; d.add_triangle(b.t); d=m; sx_assert(c.nb_triangles()==2&&d.nb_triangles()==2,"a copy has the same patches"); is(c,0,a); is(d,1,b); m.clear(); sx_assert(m.nb_triangles()==0&&c.nb_triangles()==2&&d.nb_triangles()==2,"copies are independent"); d.add_mesh(c); sx_assert(d.nb_triangles()==4,"add_mesh appends"); is(d,0,a); is(d,1,b); is(d,2,a); is(d,3,b); }
  else if(h==1){ SmoothMesh&r=m; m=r; sx_assert(m.nb_triangles()==2,"assigning a mesh to itself changes nothing"); is(m,0,a); is(m,1,b); }
  else if(h==2){ m.add_mesh(m); sx_assert(m.nb_triangles()==4,"adding a mesh to itself doubles it"); is(m,0,a); is(m,1,b); is(m,2,a); is(m,3,b); }
  else { Point3 x=a.t.eval(s,u),y=b.t.eval(s,u); Aff f; m.apply_transform(f); sx_assert(m.nb_triangles()==2,"count"); closeP(m.triangle(0).eval(s,u),f.of(x),1e-9,"every patch is transformed once"); closeP(m.triangle(1).eval(s,u),f.of(y),1e-9,"every patch is transformed once"); Mesh o; m.add_to_mesh(o,n); int nv=(n+1)*(n+2)/2; sx_assert(o.nb_vertices()==2*nv&&o.nb_triangles()==2*n*n,"one mesh per patch"); checkPatchMesh(o,0,0,n,m.triangle(0)); checkPatchMesh(o,nv,n*n,n,m.triangle(1)); } }
 else if(op==7){ int k=sx_param("k",3); vector<Point3> P=symPoints("P",k,4.); for(int i=0;i<k;i++) P[i]._x=((i*3)%5)*KS(); SmoothMesh m; if(k==3) m.add_flat_triangle(P[0],P[1],P[2]); else if(k==4) m.add_flat_quad(P[0],P[1],P[2],P[3]); else m.add_flat_pentagon(P[0],P[1],P[2],P[3],P[4]); sx_assert(m.nb_triangles()==k-2,"a polygon of k corners has k-2 patches"); map<pair<int,int>,int> got,want; for(int i=0;i<k;i++) addChain(want,i,(i+1)%k); double s=sx_real("s",0,1),u=sx_real("u",0,1); for(int t=0;t<k-2;t++){ const QuadBezierTriangle&q=m.triangle(t); Point3 c[3]={q.eval(1,0),q.eval(0,1),q.eval(0,0)}; int id[3]={-1,-1,-1}; for(int i=0;i<3;i++) for(int j=0;j<k;j++) if(same(c[i],P[j],1e-6*KS())){ id[i]=j; break; } sx_assert(id[0]>=0&&id[1]>=0&&id[2]>=0&&id[0]!=id[1]&&id[1]!=id[2]&&id[0]!=id[2],"patches join corners of the polygon"); closeP(q.eval(s,u),lin(c[0],s,c[1],u,c[2],1-s-u),1e-9,"patches are flat"); T3 x={id[0],id[1],id[2]}; addTri(got,x); } sx_assert(got==want,"the patches cover the polygon once, with its orientation"); }
 else { int kind=sx_param("kind",0); const double lo=KS()/16384,hi=8*KS(); double d=sx_real("size",lo,hi),y=0,z=0,sm=d; SmoothMesh s; s.add_flat_triangle(Point3(9,9,9),Point3(9,8,9),Point3(9,9,8)); if(kind==0) SmoothMeshFactory::create_tetrahedron(d,s); else if(kind==1){ y=sx_real("ys",lo,hi); z=sx_real("zs",lo,hi); sm=lo; SmoothMeshFactory::create_box(d,y,z,s); } else if(kind==2) SmoothMeshFactory::create_octahedron(d,s); else if(kind==3) SmoothMeshFactory::create_dodecahedron(d,s); else if(kind==4) SmoothMeshFactory::create_icosahedron(d,s); else SmoothMeshFactory::create_sphere(d,s); static const int NT[6]={4,12,8,36,20,8}; sx_assert(s.nb_triangles()==NT[kind],"number of patches, earlier content dropped"); Mesh m; s.add_to_mesh(m,n);
  // join coinciding vertices, then the mesh must be closed and oriented outside
  Mesh j; vector<int> id; for(int i=0;i<m.nb_vertices();i++){ Point3 p=vtx(m,i); int f=-1; for(int k=0;k<j.nb_vertices()&&f<0;k++) if(same(p,vtx(j,k),1e-6*sm)) f=k; if(f<0) f=j.add_vertex(p); id.push_back(f); } for(auto&t:linked(m)) j.add_triangle(id[t.a],id[t.b],id[t.c]); checkClosedManifold(j,2); for(auto&t:linked(j)){ Point3 a=vtx(j,t.a),b=vtx(j,t.b),c=vtx(j,t.c); sx_assert(det3(a,b,c)>0,"every triangle faces outside"); if(kind==1){ bool x=a._x==b._x&&b._x==c._x,yy=a._y==b._y&&b._y==c._y,zz=a._z==b._z&&b._z==c._z; sx_assert(x||yy||zz,"box sides are axis parallel"); } }
  for(int i=0;i<s.nb_triangles();i++) for(int c=0;c<3;c++){ Point3 p=s.triangle(i).eval(c==0,c==1); double q=dotP(p,p); if(kind==0||kind==3) sx_close(q,3*d*d,1e-9*d*d,"corners lie on the circumscribed sphere"); else if(kind==2||kind==5) sx_close(q,d*d,1e-9*d*d,"corners lie on the circumscribed sphere"); else if(kind==4) sx_close(q,d*d*(1+(3-sqrt(5.))/2),1e-9*d*d,"corners lie on the circumscribed sphere"); else { sx_close(p._x*p._x,d*d/4,1e-9*d*d,"box corner"); sx_close(p._y*p._y,y*y/4,1e-9*y*y,"box corner"); sx_close(p._z*p._z,z*z/4,1e-9*z*z,"box corner"); } } if(kind==5){ double a=sx_real("a",0,1),b=sx_real("b",0,1); sx_assume(a+b<=1); for(int i=0;i<8;i++){ Point3 p=s.triangle(i).eval(a,b); double q=dotP(p,p); sx_assert(q<=1.13*d*d&&q>=0.92*d*d,"close to the sphere"); } } }
 sx_reach("end");
}
