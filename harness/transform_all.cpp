// Transforms applied to objects. op 0 translation and scale, 1 apply_all, 2 mesh, 3 surface, 4 solid, 5 surface evaluation commutes with affine maps
#include "hcommon.h"
#include "Transform.h"
#include "Mesh.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
struct Rec : public Transform { double M[9],T[3]; mutable int calls=0; Rec(){ for(auto&x:M) x=sx_real("M",-2,2); for(auto&x:T) x=sx_real("T",-2,2); } void apply(Point3&p)const override{ calls++; p=of(p); } Point3 of(const Point3&p)const{ return Point3(M[0]*p._x+M[1]*p._y+M[2]*p._z+T[0],M[3]*p._x+M[4]*p._y+M[5]*p._z+T[1],M[6]*p._x+M[7]*p._y+M[8]*p._z+T[2]); } };
static NurbsSurface surf(int du,int dv,int pu,int pv){ NurbsSurface s; vector<double> U=clampedKnots(du,pu,0),V=clampedKnots(dv,pv,0); int nu=(int)U.size()-du-1,nv=(int)V.size()-dv-1; s.set_degree(du,dv); s.set_points(symPoints("P",nu*nv,4.),nu,nv); s.set_knots_u(U); s.set_knots_v(V); s.set_weights(symWeights("w",nu*nv,true)); s.set_closed_u(sx_concretize(sx_int("cu",0,1))); s.set_closed_v(sx_concretize(sx_int("cv",0,1))); return s; }
static void sameButPoints(const NurbsSurface&a,const NurbsSurface&o,const Rec&r){ sx_assert(a.degree_u()==o.degree_u()&&a.degree_v()==o.degree_v()&&a.nb_points_u()==o.nb_points_u()&&a.nb_points_v()==o.nb_points_v()&&a.is_closed_u()==o.is_closed_u()&&a.is_closed_v()==o.is_closed_v()&&a.knots_u().size()==o.knots_u().size()&&a.knots_v().size()==o.knots_v().size()&&a.weights().size()==o.weights().size()&&a.points().size()==o.points().size(),"structure is untouched"); for(size_t i=0;i<o.knots_u().size();i++) sx_close(a.knots_u()[i],o.knots_u()[i],0,"knots are untouched"); for(size_t i=0;i<o.knots_v().size();i++) sx_close(a.knots_v()[i],o.knots_v()[i],0,"knots are untouched"); for(size_t i=0;i<o.weights().size();i++) sx_close(a.weights()[i],o.weights()[i],0,"weights are untouched"); for(size_t i=0;i<o.points().size();i++) closeP(a.points()[i],r.of(o.points()[i]),1e-9,"every control point is mapped once"); }
void sx_entry(){
 int op=sx_param("op",0), n=sx_param("n",4), du=sx_param("du",2),dv=sx_param("dv",1),pu=sx_param("pu",1),pv=sx_param("pv",0);
 if(op==0){ Point3 p=symPoint("p",4.),t=symPoint("t",4.); double a=sx_real("sx",-4,4),b=sx_real("sy",-4,4),c=sx_real("sz",-4,4); Point3 q=p; Translation T(t); T.apply(q); closeP(q,Point3(p._x+t._x,p._y+t._y,p._z+t._z),1e-9,"translation adds"); q=p; Scale S(a,b,c); S.apply(q); closeP(q,Point3(p._x*a,p._y*b,p._z*c),1e-9,"scale multiplies each axis"); q=p; Scale d; d.apply(q); closeP(q,p,0,"default scale is the identity"); Scale e(a),f(a,b); q=p; e.apply(q); closeP(q,Point3(p._x*a,p._y,p._z),1e-9,"missing factors are one"); q=p; f.apply(q); closeP(q,Point3(p._x*a,p._y*b,p._z),1e-9,"missing factors are one"); q=t; Translation U(q); q=Point3(9,9,9); Point3 w=p; U.apply(w); closeP(w,Point3(p._x+t._x,p._y+t._y,p._z+t._z),1e-9,"the vector is copied"); vector<Point3> v={p,t,p}; T.apply_all(v); closeP(v[2],Point3(p._x+t._x,p._y+t._y,p._z+t._z),1e-9,"apply_all"); closeP(v[1],Point3(t._x+t._x,t._y+t._y,t._z+t._z),1e-9,"apply_all"); Point3 o=p; T.apply(o); T.apply(o); closeP(o,Point3(p._x+2*t._x,p._y+2*t._y,p._z+2*t._z),1e-9,"translations add up"); }
 else if(op==1){ Rec r; vector<Point3> v=symPoints("p",n,4.),o=v; r.apply_all(v); sx_assert((int)v.size()==n&&r.calls==n,"one call per point"); for(int i=0;i<n;i++) closeP(v[i],r.of(o[i]),1e-9,"every point is mapped once"); }
 else if(op==2){ Rec r; int nt=sx_param("nt",3); Mesh m; vector<Point3> v=symPoints("v",n,4.); for(auto&p:v) m.add_vertex(p); for(int i=0;i<nt;i++){ m.add_triangle(i%n,(i+1)%n,(i+2)%n); } vector<int> un(nt); for(int i=0;i<nt;i++) if((un[i]=freeFlag("un",i))) m.unlink_triangle(i); int col=sx_int("col",-1,100000); m.set_color(col); m.apply_transform(r); sx_assert(m.nb_vertices()==n&&m.nb_triangles()==nt&&m.get_color()==col,"structure is untouched"); for(int i=0;i<n;i++){ Point3 p; m.get_vertex(i,p); closeP(p,r.of(v[i]),1e-9,"every vertex is mapped once"); } for(int i=0;i<nt;i++){ sx_assert(m.is_triangle_unlinked(i)==(bool)un[i],"linked triangles stay linked"); if(!un[i]){ int a,b,d; m.get_triangle_vertices(i,a,b,d); sx_assert(a==i%n&&b==(i+1)%n&&d==(i+2)%n,"triangles are untouched"); } } }
 else if(op==3){ Rec r; NurbsSurface s=surf(du,dv,pu,pv),o=s; s.apply_transform(r); sameButPoints(s,o,r); }
 else if(op==4){ Rec r; NurbsSolid n; vector<NurbsSurface> o; for(int i=0;i<sx_param("k",2);i++){ NurbsSurface s=surf(1+i%2,1,0,i%2); o.push_back(s); n.add_surface(s); } n.apply_transform(r); sx_assert(n.surfaces().size()==o.size(),"no surface is added or lost"); for(size_t i=0;i<o.size();i++) sameButPoints(n.surfaces()[i],o[i],r); }
 else { Rec r; NurbsSurface s=surf(du,dv,pu,pv); double u=sx_real("u",0,1),v=sx_real("v",0,1); Point3 a,b; s.evaluate(u,v,a); s.apply_transform(r); s.evaluate(u,v,b); closeP(b,r.of(a),1e-9,"the transformed surface is the transform of the surface"); }
 sx_reach("end");
}
