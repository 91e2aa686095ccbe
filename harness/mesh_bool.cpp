// cutting: op 0 split_triangle by any triangle, 1 split_meshes, 2 the plain kernels in lockstep with tables
#include "mesh_topo.h"
#include "MeshBoolean.h"
#include "MeshKernelTIN.h"
#include "MeshKernelLinkedTriangles.h"
static const double TT[4][9]={{0,0,0, 4,0,0, 0,4,0},{-1,0,0, 2,3,0, -2,4,0},{0,0,0, 0,4,0, 4,0,0},{0,0,1, 0,2,0, 2,0,0}};
static const double XY[6][6]={{1,1, 1,5, 1,-3},{1,1, 2,1, 1,2},{-1,-1, 3,3, 9,0},{1,1, 9,1, 9,9},{0,0, 2,2, -3,1},{-2,2, 6,2, 2,8}};
static Triangle3 spl(int k,int s){ Point3 p[3]; for(int i=0;i<3;i++) p[i]=Point3(XY[k][2*i]*KS(),XY[k][2*i+1]*KS(),i<sx_param("nz",3)?sx_real("z",-2*KS(),2*KS()):(i==2?1:-1)*KS()); if(s) for(int i=0;i<3;i++){ double d=sx_real("d",-1,1); p[i]._x+=d*KS(); } { Point3 nn=crossP(sub(p[1],p[0]),sub(p[2],p[0])); sx_assume((nn._x*nn._x+nn._y*nn._y+nn._z*nn._z)>1e-3*KS()*KS()*KS()*KS()); } sx_assume((p[0]._z<p[1]._z)|(p[0]._z>p[1]._z)|(p[0]._z<p[2]._z)|(p[0]._z>p[2]._z)); return Triangle3(p[0],p[1],p[2]); }
static Point3 total(const Mesh&m){ Point3 s(0,0,0); for(auto&t:linked(m)){ Point3 a=areaVec(m,t); s=Point3(s._x+a._x,s._y+a._y,s._z+a._z); } return s; }
static void same(const Mesh&a,const Mesh&b,int nv,const char*w){ // b: a after cutting
 sx_assert(b.nb_vertices()>=nv,w); for(int i=0;i<nv;i++) closeP(vtx(b,i),vtx(a,i),0.,"vertices are kept"); closeP(total(b),total(a),1e-6*KS(),"the pieces cover the surface once, with its orientation"); map<pair<int,int>,int> x,y; for(auto&t:linked(a)) addTri(x,t); for(auto&t:linked(b)) addTri(y,t); sx_assert(x==y,"the boundary is unchanged"); }
void sx_entry(){
 int op=sx_param("op",0),k=sx_param("k",0),q=sx_param("q",0),sh=sx_param("sh",0); double T[9]; for(int i=0;i<9;i++) T[i]=TT[k][i]*KS();
 if(op==0){ Mesh m; for(int i=0;i<3;i++) m.add_vertex(T[3*i],T[3*i+1],T[3*i+2]); m.add_vertex(symPoint("v",4.)); m.add_triangle(2,1,3); int t=m.add_triangle(0,1,2); bool un=sx_param("un",0); if(un) m.unlink_triangle(t); Mesh b=m; Triangle3 s=spl(q,sh); m.split_triangle(t,s); same(b,m,4,"vertices"); sx_assert(!m.is_triangle_unlinked(0),"other triangles are kept"); for(int i=2;i<m.nb_triangles();i++){ int x,y,z; m.get_triangle_vertices(i,x,y,z); for(int v:{x,y,z}) if(v>=4){ Point3 p=vtx(m,v); Triangle3 tt; b.get_triangle(t,tt); Plane3 pl(tt); closeS(pl.distance_to(p),0.,1e-6,"new vertices are on the triangle"); } } if(sx_param("twice",0)){ Triangle3 s2=spl(sx_param("q2",1),sh); int n=m.nb_triangles(); m.split_triangle(t,s2); same(b,m,4,"vertices"); (void)n; } }
 else if(op==1){ Mesh A,B,Ao,Bo,AB,BA; for(int i=0;i<3;i++) A.add_vertex(T[3*i],T[3*i+1],T[3*i+2]); A.add_triangle(0,1,2); for(int j=1;j<sx_param("na",1);j++){ double dz=j*0.5*KS(); A.add_triangle(Point3(T[0]+dz,T[1],T[2]+j*KS()),Point3(T[3]+dz,T[4],T[5]+dz),Point3(T[6],T[7]-dz,T[8]-dz)); } int nb=sx_param("nb",2); for(int j=0;j<nb;j++){ Triangle3 s=spl((q+j)%6,sh); B.add_triangle(s.p1(),s.p2(),s.p3()); } if(sx_param("pre",0)){ Ao.add_triangle(Point3(1,1,1),Point3(2,1,1),Point3(1,2,1)); Bo=Ao; } int c=sx_int("col",0,0xffffff); A.set_color(c); MeshBoolean mb; Mesh A0=A,B0=B; mb.split_meshes(A,B,Ao,Bo,AB,BA); same(A0,A,A0.nb_vertices(),"the first operand is unchanged"); same(B0,B,B0.nb_vertices(),"the second operand is unchanged"); sx_assert(A.nb_vertices()==A0.nb_vertices()&&B.nb_triangles()==B0.nb_triangles(),"operands are unchanged"); same(A0,Ao,A0.nb_vertices(),"first"); same(B0,Bo,B0.nb_vertices(),"second"); sx_assert(Ao.get_color()==c,"colour"); }
 else if(op==3){ // large tables: n vertices and triangles, a few of them chosen by the solver
  int n=sx_param("n",70000); MeshKernel*K[2]={new MeshKernelTIN,new MeshKernelLinkedTriangles}; Mesh m; vector<Point3> V; for(int i=0;i<n;i++){ Point3 p= i>=n-2? symPoint("v",4.) : Point3(i*0.5,i%1009,-i); V.push_back(p); for(auto q:K) sx_assert(q->add_vertex(p)==i,"vertex id"); sx_assert(m.add_vertex(p)==i,"vertex id"); }
  int c=sx_concretize(sx_int("c",n-2,n-1)), d=sx_concretize(sx_int("d",n-2,n-1)); vector<T3> R; for(int i=0;i<n;i++){ T3 t={i,(i+1)%n,(i+n/2)%n}; if(i==n-1) t={n-1,0,n-2}; R.push_back(t); for(auto q:K) sx_assert(q->add_triangle(t.a,t.b,t.c)==i,"triangle id"); sx_assert(m.add_triangle(t.a,t.b,t.c)==i,"triangle id"); }
  V[c]=symPoint("s",4.); for(auto q:K){ q->set_vertex(c,V[c]); q->unlink_triangle(d); } m.set_vertex(c,V[c]); m.unlink_triangle(d);
  for(auto q:K) sx_assert(q->nb_vertices()==n&&q->nb_triangles()==n,"counts"); sx_assert(m.nb_vertices()==n&&m.nb_triangles()==n,"counts"); for(int i=0;i<n;i++){ if(i>300&&i<n-300&&i%61&&(i<32700||i>32800)&&(i<65500||i>65600)) continue; Point3 x; int a,b,e; for(auto q:K){ q->get_vertex(i,x); closeP(x,V[i],0.,"vertices"); q->get_triangle_vertices(i,a,b,e); sx_assert((a==R[i].a)&(b==R[i].b)&(e==R[i].c),"corners"); sx_assert(q->is_triangle_unlinked(i)==(i==d),"unlinked"); } m.get_vertex(i,x); closeP(x,V[i],0.,"vertices"); m.get_triangle_vertices(i,a,b,e); sx_assert((a==R[i].a)&(b==R[i].b)&(e==R[i].c),"corners"); sx_assert(m.is_triangle_unlinked(i)==(i==d),"unlinked"); } for(auto q:K) delete q; }
 else { MeshKernel*K[2]={new MeshKernelTIN,new MeshKernelLinkedTriangles}; vector<Point3> V; vector<T3> R; vector<char> U; int ops=sx_param("ops",3); for(int i=0;i<3;i++){ V.push_back(symPoint("v",4.)); for(auto p:K) sx_assert(p->add_vertex(V[i])==i,"vertex id"); } for(int o=0;o<ops;o++){ int w=sx_concretize(sx_int("op",0,4)); if(w==0){ V.push_back(symPoint("v",4.)); for(auto p:K) sx_assert(p->add_vertex(V.back())==(int)V.size()-1,"vertex id"); } else if(w==1&&V.size()>=1){ int n=(int)V.size()-1; T3 t; t.a=sx_int("a",0,n); t.b=sx_int("b",0,n); t.c=sx_int("c",0,n); R.push_back(t); U.push_back(0); for(auto p:K) sx_assert(p->add_triangle(t.a,t.b,t.c)==(int)R.size()-1,"triangle id"); } else if(w==2&&V.size()>=1){ int i=sx_concretize(sx_int("i",0,(int)V.size()-1)); V[i]=symPoint("s",4.); for(auto p:K) p->set_vertex(i,V[i]); } else if(w==3&&R.size()){ int i=sx_concretize(sx_int("i",0,(int)R.size()-1)); U[i]=1; for(auto p:K) p->unlink_triangle(i); } else if(w==4){ V.clear(); R.clear(); U.clear(); for(auto p:K) p->clear(); } }
  for(auto p:K){ sx_assert(p->nb_vertices()==(int)V.size()&&p->nb_triangles()==(int)R.size(),"counts"); for(size_t i=0;i<V.size();i++){ Point3 x; p->get_vertex((int)i,x); closeP(x,V[i],0.,"vertices"); } for(size_t i=0;i<R.size();i++){ int a,b,c; p->get_triangle_vertices((int)i,a,b,c); sx_assert((a==R[i].a)&(b==R[i].b)&(c==R[i].c),"corners"); sx_assert(p->is_triangle_unlinked((int)i)==(bool)U[i],"unlinked"); } delete p; } }
 sx_reach("end");
}
