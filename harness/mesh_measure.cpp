// volume, area and degeneracy reports
#include "mesh_topo.h"
#include "MeshMeasurements.h"
#include "Transform.h"
void sx_entry(){
 int op=sx_param("op",0); double K2=KS()*KS(),K3=K2*KS(); Mesh m; Point3 P[5]; for(int i=0;i<5;i++){ P[i]=symPoint("v",4.); m.add_vertex(P[i]); }
 if(op==0){ // closed tetrahedron and double pyramid: signed volume by determinants, with an unlinked triangle thrown in
  int k=sx_param("k",0); m.unlink_triangle(m.add_triangle(0,2,4)); if(k==0){ m.add_triangle(0,2,1); m.add_triangle(0,1,3); m.add_triangle(1,2,3); m.add_triangle(2,0,3); double v=det3(sub(P[1],P[0]),sub(P[2],P[0]),sub(P[3],P[0]))/6.; sx_close(MeshMeasurements::volume(m),v,1e-14*K3,"volume of a tetrahedron"); sx_assert(MeshMeasurements::is_oriented_outside(m)==(v>=0.)|| (v<1e-12*K3&&v>-1e-12*K3),"outside orientation is the sign of the volume"); }
  else { m.add_triangle(0,1,3); m.add_triangle(1,2,3); m.add_triangle(2,0,3); m.add_triangle(1,0,4); m.add_triangle(2,1,4); m.add_triangle(0,2,4); double v=(det3(sub(P[1],P[0]),sub(P[2],P[0]),sub(P[3],P[0]))-det3(sub(P[1],P[0]),sub(P[2],P[0]),sub(P[4],P[0])))/6.; sx_close(MeshMeasurements::volume(m),v,1e-14*K3,"volume of a double pyramid"); } }
 else if(op==1){ m.add_triangle(0,1,2); m.unlink_triangle(m.add_triangle(1,2,3)); m.add_triangle(2,3,4); Mesh m1,m2; for(int i=0;i<5;i++){ m1.add_vertex(P[i]); m2.add_vertex(P[i]); } m1.add_triangle(0,1,2); m2.add_triangle(2,3,4); double s=MeshMeasurements::surface(m), s1=MeshMeasurements::surface(m1), s2=MeshMeasurements::surface(m2); Point3 a=crossP(sub(P[1],P[0]),sub(P[2],P[0])),b=crossP(sub(P[3],P[2]),sub(P[4],P[2]));
  sx_close(4*s1*s1,dotP(a,a),1e-24*K2*K2,"area of a triangle"); sx_assert(s1>=0.&&s2>=0.,"area is not negative"); sx_close(4*s2*s2,dotP(b,b),1e-24*K2*K2,"area of a triangle"); sx_close(s,s1+s2,1e-14*K2,"surface is the sum of the areas of the linked triangles"); }
 else if(op==2){ m.add_triangle(0,1,2); if(sx_concretize(sx_int("un",0,1))) m.unlink_triangle(0); m.add_triangle(2,3,4); int coll=sx_concretize(sx_int("case",0,2)); // 0 general, 1 second triangle has two equal corners, 2 collinear corners
  if(coll==1) m.set_vertex(4,P[2]); if(coll==2){ double s=sx_real("s",-2.,2.); m.set_vertex(4,P[2]+(P[3]-P[2])*s); } Point3 a=areaVec(m,{0,1,2}),b=areaVec(m,{2,3,4}); bool d1=dotP(a,a)==0., d2=dotP(b,b)==0.; bool un=m.is_triangle_unlinked(0); if(coll) sx_assert(d2,"harness"); sx_assert(MeshMeasurements::has_no_degenerated_triangles(m)==!((d1&&!un)||d2),"a triangle of zero area is reported, an unlinked one is not"); }
 else if(op==5||op==6){ // op 5: measured, changed, measured again: as a fresh mesh with the same content; op 6: double pyramid over n corners
  if(op==5){ static const double Q[4][3]={{0,0,0},{3,0,1},{0,2,-1},{1,1,3}}; for(int i=0;i<4;i++) m.set_vertex(i,P[i]=Point3(Q[i][0],Q[i][1],Q[i][2])); if(sx_param("chg",0)==0) P[4]._x=-3; P[4]._y=2; P[4]._z=1.5; m.set_vertex(4,P[4]); int chg=sx_param("chg",0); m.add_triangle(0,1,2); m.add_triangle(1,3,2); m.add_triangle(2,3,4); double v0=MeshMeasurements::volume(m),s0=MeshMeasurements::surface(m); sx_assert(s0>=0.,"area"); bool o=MeshMeasurements::is_oriented_outside(m); MeshMeasurements::has_no_degenerated_triangles(m); sx_assert(o==(v0>=0.)||(v0<1e-6&&v0>-1e-6),"outside orientation is the sign of the volume"); Mesh other; other.add_vertex(P[1]); other.add_vertex(P[2]); other.add_vertex(P[3]); other.add_triangle(0,1,2); if(chg==6) MeshMeasurements::volume(other);
   if(chg==0) m.set_vertex(1,Point3(1,sx_real("q",-4,4),-2)); if(chg==1) m.unlink_triangle(1); if(chg==2) m.add_triangle(0,3,1); if(chg==3) m.flip_triangle(1); if(chg==4){ m.add_mesh(other); } if(chg==5||chg==6){ m=other; } if(chg==7){ m.clear(); m.add_vertex(P[0]); m.add_vertex(P[3]); m.add_vertex(P[4]); m.add_triangle(0,1,2); } if(chg==8){ Translation tr(Point3(1,2,3)); m.apply_transform(tr); } }
  else { int n=sx_param("n",12),miss=sx_param("miss",-1); m.clear(); for(int i=0;i<n;i++) m.add_vertex(freePoint("r",i,4.)); int a=m.add_vertex(symPoint("a",4.)), b=m.add_vertex(symPoint("b",4.)); for(int i=0;i<n;i++){ m.add_triangle(i,(i+1)%n,a); m.add_triangle((i+1)%n,i,b); } if(miss>=0){ m.unlink_triangle(miss); sx_assert(!MeshMeasurements::is_closed(m),"a mesh with a hole is not reported closed"); } }
  Mesh f; for(int i=0;i<m.nb_vertices();i++) f.add_vertex(vtx(m,i)); double v=0,s=0; for(auto&t:linked(m)){ f.add_triangle(t.a,t.b,t.c); v+=det3(vtx(m,t.a),vtx(m,t.b),vtx(m,t.c))/6.; s+=areaVec(m,t).norm()/2.; } sx_close(MeshMeasurements::volume(m),v,1e-9,"volume of the present content"); sx_close(MeshMeasurements::volume(f),v,1e-9,"volume"); sx_close(MeshMeasurements::surface(m),MeshMeasurements::surface(f),1e-9,"surface of the present content"); if(op==5){ sx_close(MeshMeasurements::surface(f),s,1e-9,"surface"); sx_assert(MeshMeasurements::is_oriented_outside(m)==(v>=0.)||(v<1e-6&&v>-1e-6),"orientation of the present content"); sx_assert(MeshMeasurements::has_no_degenerated_triangles(m)==MeshMeasurements::has_no_degenerated_triangles(f),"degeneracy of the present content"); } }
 else { // op 3: a closed mesh (with an unlinked triangle thrown in), op 4: the same with one triangle missing
  int f[4][3]={{0,2,1},{0,1,3},{1,2,3},{2,0,3}}; int r=sx_concretize(sx_int("rot",0,2)), miss=op==4?sx_concretize(sx_int("missing",0,3)):-1, how=op==4?sx_concretize(sx_int("unlinked",0,1)):0; for(int i=0;i<4;i++){ if(i==miss&&!how) continue; int t=m.add_triangle(f[i][r],f[i][(r+1)%3],f[i][(r+2)%3]); if(i==miss) m.unlink_triangle(t); } m.unlink_triangle(m.add_triangle(0,2,4));
  sx_assert(MeshMeasurements::is_closed(m)==(op==3),op==3?"a closed mesh is reported closed":"a mesh with a hole is not reported closed"); }
 if(op==0) sx_assert(MeshMeasurements::is_clean(m)==(MeshMeasurements::has_no_degenerated_triangles(m)&&MeshMeasurements::is_oriented_outside(m)&&MeshMeasurements::is_closed(m)&&MeshMeasurements::has_no_self_intersections(m)&&MeshMeasurements::has_no_isolated_vertices(m)&&MeshMeasurements::has_no_duplicated_vertices(m)&&MeshMeasurements::has_no_short_edges(m)),"clean means that every single test passes"); Mesh e; e.add_vertex(P[0]); e.unlink_triangle(e.add_triangle(0,0,0)); sx_assert(MeshMeasurements::is_clean(e),"a mesh without linked triangles is clean");
 sx_reach("end");
}
