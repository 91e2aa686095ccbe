// The mesh kernels as vertex and triangle tables. kind 0 linked triangles, 1 TIN, 2 half edge (vertices only); histories of `ops` edits against a list model, through the MeshKernel interface
#include "mesh_topo.h"
#include "MeshKernelLinkedTriangles.h"
#include "MeshKernelTIN.h"
#include "MeshKernelHalfEdge.h"
struct KT{ int v[3]; bool un; };
static void compare(MeshKernel&m,const vector<Point3>&V,const vector<KT>&T,size_t from=0,size_t tfrom=0){
 sx_assert(m.nb_vertices()==(int)V.size(),"vertex count"); sx_assert(m.nb_triangles()==(int)T.size(),"triangle count (unlinked ones included)");
 for(size_t i=from;i<V.size();i++){ Point3 p(77,77,77); m.get_vertex((int)i,p); closeP(p,V[i],0.,"vertex coordinates are kept"); }
 for(size_t i=tfrom;i<T.size();i++){ int a=-7,b=-7,c=-7; m.get_triangle_vertices((int)i,a,b,c); sx_assert(a==T[i].v[0]&&b==T[i].v[1]&&c==T[i].v[2],"triangle vertex ids are kept"); sx_assert(m.is_triangle_unlinked((int)i)==T[i].un,"unlinked exactly when it was unlinked"); } }
static MeshKernel* mk(int k){ if(k==1) return new MeshKernelTIN; if(k==2) return new MeshKernelHalfEdge; return new MeshKernelLinkedTriangles; }
void sx_entry(){
 int kind=sx_param("kind",0), ops=sx_param("ops",3), n0=sx_param("n",0); MeshKernel*pm=mk(kind),*other=mk(kind); MeshKernel&m=*pm; vector<Point3> V; vector<KT> T; sx_assert(m.nb_vertices()==0&&m.nb_triangles()==0,"a new kernel is empty");
 sx_assert(other->add_vertex(Point3(5,6,7))==0,"new vertex id");
 // a large table: the first entries fixed, the last ones symbolic
 for(int i=0;i<n0;i++){ Point3 p= i<n0-2?Point3(i%97,i%1009,i):symPoint("v",4.); sx_assert(m.add_vertex(p)==i,"new vertex id"); V.push_back(p); }
 if(kind!=2) for(int i=0;i<n0;i++){ KT t={{i,(i+1)%n0,(i*7+2)%n0},i%5==3}; sx_assert(m.add_triangle(t.v[0],t.v[1],t.v[2])==i,"new triangle id"); if(t.un) m.unlink_triangle(i); T.push_back(t); }
 for(int k=0;k<ops;k++){ int n=(int)V.size(), nt=(int)T.size(); int o=sx_concretize(sx_int("op",0,kind==2?2:4)); int lo=n>6?n-3:0, tl=nt>6?nt-3:0;
  if(n==0&&(o==1||o==3)) continue; if(nt==0&&o==4) continue;
  if(o==0){ Point3 p=symPoint("p",4.); sx_assert(m.add_vertex(p)==n,"new vertex id"); V.push_back(p); }
  else if(o==1){ int i=sx_concretize(sx_int("i",lo,n-1)); Point3 p=symPoint("p",4.); m.set_vertex(i,p); V[i]=p; }
  else if(o==2){ m.clear(); V.clear(); T.clear(); }
  else if(o==3){ KT t={{sx_concretize(sx_int("a",lo,n-1)),0,0},false}; t.v[1]=(t.v[0]+1)%n; t.v[2]=sx_int("c",0,n-1); sx_assert(m.add_triangle(t.v[0],t.v[1],t.v[2])==nt,"new triangle id"); T.push_back(t); }
  else { int t=sx_concretize(sx_int("t",tl,nt-1)); m.unlink_triangle(t); T[t].un=true; }
  if(n0<100||k==ops-1) compare(m,V,T); }
 Point3 q; other->get_vertex(0,q); closeP(q,Point3(5,6,7),0.,"another kernel is not touched"); sx_assert(other->nb_vertices()==1&&other->nb_triangles()==0,"another kernel is not touched");
 delete pm; delete other; sx_reach("end");
}
