// local edits: op 0 split a triangle at a vertex, 1 at a point, 2 split an edge shared by two triangles, 3 flip
#include "mesh_topo.h"
void sx_entry(){
 int op=sx_param("op",0); Mesh m; Point3 P[6]; for(int i=0;i<6;i++){ P[i]=symPoint("v",4.); m.add_vertex(P[i]); }
 int rot1=sx_concretize(sx_int("rot1",0,2)), rot2=sx_concretize(sx_int("rot2",0,2)), flipA=sx_concretize(sx_int("mirror",0,1));
 int A=0,B=1,C=2,D=3; if(flipA){ A=1; B=0; }
 int t1[3]={A,B,C}, t2[3]={B,A,D}; int T1=m.add_triangle(t1[rot1],t1[(rot1+1)%3],t1[(rot1+2)%3]); int T2=m.add_triangle(t2[rot2],t2[(rot2+1)%3],t2[(rot2+2)%3]); int T0=m.add_triangle(2,3,4);
 map<pair<int,int>,int> before; for(auto&t:linked(m)) addTri(before,t); int nt=m.nb_triangles();
 if(op==0||op==1){ int v=5; if(op==0) m.split_triangle_with_vertex(T1,5); else { Point3 q=symPoint("q",4.); m.split_triangle_with_vertex(T1,q); v=6; sx_assert(m.nb_vertices()==7,"one vertex added"); closeP(vtx(m,6),q,0.,"the new vertex is the split point"); }
  sx_assert(m.is_triangle_unlinked(T1)&&!m.is_triangle_unlinked(T2)&&!m.is_triangle_unlinked(T0),"only the split triangle is unlinked"); sx_assert(m.nb_triangles()==nt+3,"three new triangles"); for(int i=nt;i<nt+3;i++){ int a,b,c; m.get_triangle_vertices(i,a,b,c); int k=(a==v)+(b==v)+(c==v); sx_assert(k==1,"each new triangle has the split vertex as a corner"); }
  map<pair<int,int>,int> after; for(auto&t:linked(m)) addTri(after,t); sx_assert(before==after,"the boundary of the mesh is unchanged"); }
 else if(op==2){ double s=sx_real("s",0.,1.); Point3 M=P[A]+(P[B]-P[A])*s; m.set_vertex(5,M); int dir=sx_param("dir",0); if(dir==0) m.split_edge_with_vertex(T1,T2,A,B,5); else m.split_edge_with_vertex(T2,T1,B,A,5);
  sx_assert(m.is_triangle_unlinked(T1)&&m.is_triangle_unlinked(T2)&&!m.is_triangle_unlinked(T0),"exactly the two split triangles are unlinked"); sx_assert(m.nb_triangles()==nt+4,"four new triangles"); 
  map<pair<int,int>,int> after; for(auto&t:linked(m)) addTri(after,t); sx_assert(before==after,"the outer boundary is unchanged and the halves fit together");
  // same area vectors: the split halves of T1 add up to T1, each a nonnegative fraction of it
  Point3 a1=crossP(sub(P[B],P[A]),sub(P[C],P[A])), a2=crossP(sub(P[A],P[B]),sub(P[D],P[B])); Point3 s1(0,0,0),s2(0,0,0); int n1=0,n2=0; for(int i=nt;i<nt+4;i++){ T3 t; m.get_triangle_vertices(i,t.a,t.b,t.c); bool hasC=t.a==C||t.b==C||t.c==C; Point3 v=areaVec(m,t); if(hasC){ n1++; s1=s1+v; } else { n2++; s2=s2+v; } }
  sx_assert(n1==2&&n2==2,"two halves per triangle"); closeP(s1,a1,1e-9*KS(),"halves of the first triangle cover it, same orientation"); closeP(s2,a2,1e-9*KS(),"halves of the second triangle cover it, same orientation"); }
 else { m.flip_triangle(T1); sx_assert(m.is_triangle_unlinked(T1)&&!m.is_triangle_unlinked(T2)&&!m.is_triangle_unlinked(T0),"only the old triangle is unlinked"); vector<T3> L=linked(m); sx_assert(L.size()==3,"one triangle replaced"); T3 n=L.back(); Point3 a1=crossP(sub(P[B],P[A]),sub(P[C],P[A])); Point3 v=areaVec(m,n); closeP(v,Point3(-a1._x,-a1._y,-a1._z),1e-9*KS(),"the normal is reversed, the area kept"); map<pair<int,int>,int> ch; addTri(ch,n); addTri(ch,T3{A,B,C}); sx_assert(ch.empty(),"the flipped triangle has the same corners in reverse order"); }
 sx_assert(m.nb_vertices()==(op==1?7:6),"vertex count"); for(int i=0;i<5;i++) closeP(vtx(m,i),P[i],0.,"vertices are kept");
 sx_reach("end");
}
