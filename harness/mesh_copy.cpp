// copies, assignment and merging: op 0 copy-construct, 1 assign, 2 self-assign, 3 add_mesh, 4 add_mesh to itself, 5 assign over a filled mesh, 6 chained copy
#include "mesh_topo.h"
static void expectCopy(const Mesh&d,const vector<Point3>&V,const vector<T3>&T,int off,int nv,size_t nt0){ sx_assert(d.nb_vertices()==nv,"vertex count of the copy"); for(size_t i=0;i<V.size();i++) closeP(vtx(d,off+i),V[i],0.,"vertices are copied"); vector<T3> L=linked(d); sx_assert(L.size()==nt0+T.size(),"exactly the linked triangles are copied"); for(size_t i=0;i<T.size();i++) sx_assert(L[nt0+i].a==T[i].a+off&&L[nt0+i].b==T[i].b+off&&L[nt0+i].c==T[i].c+off,"triangles keep their order, orientation and vertices"); }
void sx_entry(){
 int op=sx_param("op",0); Mesh s; int nv=sx_param("nv",5); vector<Point3> V; for(int i=0;i<nv;i++){ Point3 p=freePoint("v",i,4.); V.push_back(p); s.add_vertex(p); }
 int nt=sx_param("nt",3); for(int i=0;i<nt;i++) s.add_triangle(i%nv,(i+1)%nv,(i+3)%nv); for(int i=0;i<nt;i++) if(freeFlag("unlink",i)) s.unlink_triangle(i); vector<T3> T=linked(s); int col=sx_int("color",-1,0xffffff); sx_assert(s.get_color()==-1,"a new mesh has no colour"); s.set_color(col);
 Mesh other; for(int i=0;i<3;i++) other.add_vertex(symPoint("o",4.)); other.add_triangle(0,1,2); other.set_color(77);
 if(op==0||op==6){ Mesh d(s); expectCopy(d,V,T,0,nv,0); sx_assert(d.get_color()==col,"the colour is copied"); if(op==6){ Mesh e=d; expectCopy(e,V,T,0,nv,0); d=other; expectCopy(e,V,T,0,nv,0); }
  if(nv) { Point3 q=symPoint("q",4.); d.set_vertex(0,q); d.add_triangle(0,1,2); d.add_vertex(q); if(d.nb_triangles()>0) d.unlink_triangle(0); expectCopy(s,V,T,0,nv,0); sx_assert(s.nb_triangles()==nt,"changing the copy leaves the source alone"); } }
 else if(op==1||op==5){ Mesh d; if(op==5) d=other; Mesh&r=(d=s); sx_assert(&r==&d,"assignment returns its target"); expectCopy(d,V,T,0,nv,0); sx_assert(d.get_color()==col,"the colour is copied"); s.set_vertex(1,symPoint("q",4.)); s.clear(); expectCopy(d,V,T,0,nv,0); expectCopy(other,{vtx(other,0),vtx(other,1),vtx(other,2)},{{0,1,2}},0,3,0); }
 else if(op==2){ Mesh&r=s; s=r; expectCopy(s,V,T,0,nv,0); sx_assert(s.get_color()==col,"the colour is kept"); }
 else if(op==3){ vector<Point3> O{vtx(other,0),vtx(other,1),vtx(other,2)}; if(sx_param("empty",0)){ Mesh e; e.add_mesh(s); expectCopy(e,V,T,0,nv,0); sx_assert(e.get_color()==col,"the colour of the merged mesh is taken"); } other.add_mesh(s); sx_assert(other.nb_vertices()==3+nv,"merging appends the vertices"); for(int i=0;i<3;i++) closeP(vtx(other,i),O[i],0.,"existing vertices are kept"); vector<T3> L=linked(other); sx_assert(L[0].a==0&&L[0].b==1&&L[0].c==2,"existing triangles are kept"); expectCopy(other,V,T,3,3+nv,1); expectCopy(s,V,T,0,nv,0); sx_assert(other.get_color()==col,"the colour of the merged mesh is taken"); sx_assert(s.get_color()==col,"the merged mesh keeps its colour"); if(nv){ other.set_vertex(3,symPoint("q",4.)); other.set_color(3); s.set_vertex(nv-1,symPoint("q",4.)); V[nv-1]=vtx(s,nv-1); expectCopy(s,V,T,0,nv,0); } }
 else { s.add_mesh(s); sx_assert(s.nb_vertices()==2*nv,"merging a mesh with itself doubles it"); for(int i=0;i<nv;i++){ closeP(vtx(s,i),V[i],0.,"first copy"); closeP(vtx(s,nv+i),V[i],0.,"second copy"); } vector<T3> L=linked(s); sx_assert(L.size()==2*T.size(),"triangles doubled"); for(size_t i=0;i<T.size();i++) sx_assert(L[T.size()+i].a==T[i].a+nv&&L[T.size()+i].b==T[i].b+nv&&L[T.size()+i].c==T[i].c+nv,"second copy refers to the second vertices"); }
 sx_reach("end");
}
