// kind 0 tetrahedron 1 box 2 octahedron 3 dodecahedron 4 icosahedron 5 cylinder 6 geodesic sphere 7 uv sphere 8 torus
#include "mesh_topo.h"
#include "MeshFactory.h"
#include "MeshMeasurements.h"
static double sq(double x){ return x*x; }
static double dim(const char*n){ double k=KS(); return sx_real(n,k/16384,8.*k); }
void sx_entry(){
 int kind=sx_param("kind",0), n=sx_param("n",1), pre=sx_param("pre",0); Mesh m; if(pre){ m.add_vertex(9,9,9); m.add_vertex(9,8,9); m.add_vertex(9,9,8); m.add_triangle(0,1,2); }
 double s=dim("size"), h=0., r2=0.;
 if(kind==0) MeshFactory::create_tetrahedron(s,m);
 else if(kind==1){ h=dim("height"); r2=dim("depth"); MeshFactory::create_box(s,h,r2,m); }
 else if(kind==2) MeshFactory::create_octahedron(s,m);
 else if(kind==3) MeshFactory::create_dodecahedron(s,m);
 else if(kind==4) MeshFactory::create_icosahedron(s,m);
 else if(kind==5){ h=dim("height"); MeshFactory::create_cylinder(h,s,n,m); }
 else if(kind==6) MeshFactory::create_sphere_geodesic(s,n,m);
 else if(kind==7) MeshFactory::create_sphere_uv(s,n,m);
 else { int ratio=sx_param("ratio",0); if(ratio) r2=s*ratio/100.; else { r2=dim("minor"); sx_assume(r2<s); } MeshFactory::create_torus(s,r2,n,m); }
 checkClosedManifold(m,kind==8?0:2);
 vector<T3> L=linked(m);
 for(int i=0;i<m.nb_vertices();i++){ Point3 p=vtx(m,i); double q=p._x*p._x+p._y*p._y+p._z*p._z, rho=p._x*p._x+p._y*p._y;
  if(kind==0) sx_close(q,3*s*s,1e-9*s*s,"vertices lie on the circumscribed sphere"); else if(kind==2) sx_close(q,s*s,1e-9*s*s,"vertices lie on the circumscribed sphere"); else if(kind==3) sx_close(q,3*s*s,1e-9*s*s,"vertices lie on the circumscribed sphere"); else if(kind==4){ Point3 p0=vtx(m,0); sx_close(q,p0._x*p0._x+p0._y*p0._y+p0._z*p0._z,1e-9*s*s,"vertices lie on one sphere"); }
  else if(kind==6||kind==7) sx_close(q,s*s,1e-9*s*s,"vertices lie on the sphere");
  else if(kind==1){ sx_close(p._x*p._x,s*s/4,1e-9*s*s,"box corner x"); sx_close(p._y*p._y,h*h/4,1e-9*h*h,"box corner y"); sx_close(p._z*p._z,r2*r2/4,1e-9*r2*r2,"box corner z"); }
  else if(kind==5){ sx_close(p._z*p._z,h*h/4,1e-9*h*h,"cylinder vertices lie in the end planes"); if(i<m.nb_vertices()-2) sx_close(rho,s*s,1e-9*s*s,"cylinder rim radius"); else sx_close(rho,0.,1e-9*s*s,"cap centre"); }
  else if(kind==8) sx_close(sq(q+s*s-r2*r2),4*s*s*rho,1e-9*s*s*s*s,"vertices lie on the torus"); }
 // outside orientation: the origin (for the torus: the tube centre nearest to the triangle) lies strictly behind every triangle
 for(size_t i=0;i<L.size();i++){ Point3 a=vtx(m,L[i].a),b=vtx(m,L[i].b),c=vtx(m,L[i].c); if(kind!=8){ double d=det3(a,b,c); sx_assert(d>1e-6*s*s*s*(kind==1?h*r2/(s*s):kind==5?h/s:1.),"every triangle faces outside and is not degenerate"); }
  else if(i<400){ Point3 nrm=crossP(sub(b,a),sub(c,a)); sx_assert(dotP(nrm,nrm)>0.,"no degenerate triangle"); } }
 if(kind==8){ double v=MeshMeasurements::volume(m); sx_assert(v>0.,"faces point outside (positive volume)"); }
 if(kind<=4&&kind!=1){ double e0=-1; for(size_t i=0;i<L.size();i++){ if(kind==3) break; Point3 a=vtx(m,L[i].a),b=vtx(m,L[i].b),c=vtx(m,L[i].c); double e[3]={dotP(sub(a,b),sub(a,b)),dotP(sub(b,c),sub(b,c)),dotP(sub(c,a),sub(c,a))}; for(double x:e){ if(i==0&&e0==-1) e0=e[0]; sx_close(x,e0,1e-9*s*s,"all edges have the same length"); } } }
 sx_reach("end");
}
