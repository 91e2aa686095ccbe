// Faces and solids as containers of a mesh. op 0 face, 1 solid
#include "mesh_topo.h"
#include "Face.h"
#include "Solid.h"
static Mesh mk(int n,int nt){ Mesh m; for(auto&p:symPoints("v",n,4.)) m.add_vertex(p); for(int i=0;i<nt;i++) m.add_triangle(i%n,(i+1)%n,(i+2)%n); m.set_color(sx_int("col",-1,100000)); return m; }
static void sameMesh(const Mesh&a,const Mesh&b){ sx_assert(a.nb_vertices()==b.nb_vertices()&&a.nb_triangles()==b.nb_triangles()&&a.get_color()==b.get_color(),"same mesh"); for(int i=0;i<a.nb_vertices();i++) closeP(vtx(a,i),vtx(b,i),0,"same mesh"); vector<T3> x=linked(a),y=linked(b); sx_assert(x.size()==y.size(),"same mesh"); for(size_t i=0;i<x.size();i++) sx_assert(x[i].a==y[i].a&&x[i].b==y[i].b&&x[i].c==y[i].c,"same mesh"); }
template<class F> static void run(){ Mesh a=mk(4,2),b=mk(3,1); F e; sx_assert(e.mesh().nb_vertices()==0&&e.mesh().nb_triangles()==0,"empty by default"); F f(a); sameMesh(f.mesh(),a); F g(b); F&r=(g=f); sx_assert(&r==&g,"assignment returns its left side"); sameMesh(g.mesh(),a); F h(f); sameMesh(h.mesh(),a); h.mesh().clear(); g.mesh().set_vertex(0,Point3(9,9,9)); sameMesh(f.mesh(),a); g=e; sx_assert(g.mesh().nb_vertices()==0,"an empty one can be assigned"); F&s=f; f=s; sameMesh(f.mesh(),a); f=e=F(b); sameMesh(f.mesh(),b); sameMesh(e.mesh(),b); }
struct SF : public Face { SF(){} SF(const Mesh&m):Face(m){} };
void sx_entry(){ if(sx_param("op",0)==0) run<Face>(); else { Solid s(mk(3,1)); Face f(mk(3,1)); f.set_color(5); s.add_face(f); s.add_face(f); Solid t; t=s; t.add_face(f); sameMesh(t.mesh(),s.mesh()); run<Solid>(); } sx_reach("end"); }
