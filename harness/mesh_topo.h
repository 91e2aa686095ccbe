#pragma once
#include "hcommon.h"
#include "Mesh.h"
#include <map>
struct T3{ int a,b,c; };
static inline vector<T3> linked(const Mesh& m){ vector<T3> r; for(int i=0;i<m.nb_triangles();i++) if(!m.is_triangle_unlinked(i)){ T3 t; m.get_triangle_vertices(i,t.a,t.b,t.c); r.push_back(t); } return r; }
static inline void checkIndices(const Mesh& m){ for(auto&t:linked(m)) sx_assert(t.a>=0&&t.b>=0&&t.c>=0&&t.a<m.nb_vertices()&&t.b<m.nb_vertices()&&t.c<m.nb_vertices(),"triangle indices exist"); }
// closed, consistently oriented 2-manifold without degenerate triangles: every directed edge occurs once, and so does its reverse
static inline void checkClosedManifold(const Mesh& m,int chi,bool allUsed=true){ vector<T3> t=linked(m); int nv=m.nb_vertices(); sx_assert(!t.empty(),"has triangles"); vector<vector<int>> out(nv); int ne=0; vector<int> used(nv,0);
 for(auto&x:t){ sx_assert(x.a>=0&&x.a<nv&&x.b>=0&&x.b<nv&&x.c>=0&&x.c<nv,"triangle indices exist"); sx_assert(x.a!=x.b&&x.b!=x.c&&x.c!=x.a,"no degenerate triangle"); int e[3][2]={{x.a,x.b},{x.b,x.c},{x.c,x.a}}; for(auto&q:e){ for(int y:out[q[0]]) sx_assert(y!=q[1],"no directed edge occurs twice (consistent orientation)"); out[q[0]].push_back(q[1]); ne++; used[q[0]]=1; } }
 for(int i=0;i<nv;i++) for(int y:out[i]){ bool rev=false; for(int z:out[y]) rev|=z==i; sx_assert(rev,"every edge is shared by two triangles (closed)"); }
 int nu=0; for(int i=0;i<nv;i++) nu+=used[i]; if(allUsed) sx_assert(nu==nv,"every vertex belongs to a triangle"); sx_assert(nu-ne/2+(int)t.size()==chi,"Euler characteristic"); }
static inline double det3(const Point3&a,const Point3&b,const Point3&c){ return a._x*(b._y*c._z-b._z*c._y)-a._y*(b._x*c._z-b._z*c._x)+a._z*(b._x*c._y-b._y*c._x); }
static inline Point3 sub(const Point3&a,const Point3&b){ return Point3(a._x-b._x,a._y-b._y,a._z-b._z); }
static inline Point3 crossP(const Point3&a,const Point3&b){ return Point3(a._y*b._z-a._z*b._y,a._z*b._x-a._x*b._z,a._x*b._y-a._y*b._x); }
static inline void closeRel(double a,double b,double rel,const char*w){ double d=a-b; sx_assert(d*d<=rel*rel*b*b,w); }
static inline double dotP(const Point3&a,const Point3&b){ return a._x*b._x+a._y*b._y+a._z*b._z; }
static inline Point3 areaVec(const Mesh&m,const T3&t){ Point3 a,b,c; m.get_vertex(t.a,a); m.get_vertex(t.b,b); m.get_vertex(t.c,c); return crossP(sub(b,a),sub(c,a)); }
static inline Point3 vtx(const Mesh&m,int i){ Point3 p; m.get_vertex(i,p); return p; }
// signed sum of directed edges: edge (i,j), i<j, counts +1 or -1; the boundary chain of a set of triangles
static inline void addChain(map<pair<int,int>,int>&ch,int i,int j,int w=1){ int s=i<j?w:-w; pair<int,int> k(i<j?i:j,i<j?j:i); int v=(ch[k]+=s); if(v==0) ch.erase(k); }
static inline void addTri(map<pair<int,int>,int>&ch,const T3&t,int w=1){ addChain(ch,t.a,t.b,w); addChain(ch,t.b,t.c,w); addChain(ch,t.c,t.a,w); }
