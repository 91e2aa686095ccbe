// Any sequence of mesh edits keeps the mesh equal to a plain list model (vertices and triangles never move, unlinking only flags)
#include "mesh_topo.h"
struct MT{ int v[3]; bool un; };
static void compare(const Mesh&m,const vector<Point3>&V,const vector<MT>&T){
 sx_assert(m.nb_vertices()==(int)V.size(),"vertex count"); sx_assert(m.nb_triangles()==(int)T.size(),"triangle count (unlinked ones included)"); sx_assert(m.empty()==T.empty(),"empty means no triangle");
 for(size_t i=0;i<V.size();i++){ Point3 p; m.get_vertex(i,p); closeP(p,V[i],0.,"vertex coordinates are kept"); }
 for(size_t i=0;i<T.size();i++){ int a,b,c; m.get_triangle_vertices(i,a,b,c); sx_assert(a==T[i].v[0]&&b==T[i].v[1]&&c==T[i].v[2],"triangle vertex ids are kept"); sx_assert(m.is_triangle_unlinked(i)==T[i].un,"unlinked exactly when it was unlinked");
  Triangle3 t; m.get_triangle(i,t); closeP(t.p1(),V[a],0.,"triangle corner 1"); closeP(t.p2(),V[b],0.,"triangle corner 2"); closeP(t.p3(),V[c],0.,"triangle corner 3"); Point3 x,y,z; m.get_triangle_vertices(i,x,y,z); closeP(x,V[a],0.,"corner point 1"); closeP(y,V[b],0.,"corner point 2"); closeP(z,V[c],0.,"corner point 3"); } }
void sx_entry(){
 if(sx_param("quad",0)){ int k=sx_param("quad",0); Mesh m; m.add_vertex(7,7,7); m.add_vertex(8,7,7); m.add_vertex(7,8,7); m.add_triangle(0,1,2); Point3 p[4]; if(k==1) for(auto&q:p) q=symPoint("p",4.); else { double a=sx_real("a",0.5,4.),b=sx_real("b",0.5,4.),c=sx_real("c",0.5,4.),z=sx_real("z",-2.,2.); p[0]=Point3(-a,0,0); p[1]=Point3(0,-c,z); p[2]=Point3(b,0,0); p[3]=Point3(0,2,k==2?0.:-z); } bool opt=k>1||sx_concretize(sx_int("opt",0,1)); if(opt) m.add_quad(p[0],p[1],p[2],p[3]); else m.add_quad(p[0],p[1],p[2],p[3],false);
  sx_assert(m.nb_vertices()==7&&m.nb_triangles()==3,"four vertices and two triangles"); for(int i=0;i<4;i++) closeP(vtx(m,3+i),p[i],0.,"the corners in order"); map<pair<int,int>,int> ch; vector<T3> T=linked(m); sx_assert(T.size()==3&&T[0].a==0&&T[0].b==1&&T[0].c==2,"earlier triangles are kept"); addTri(ch,T[1]); addTri(ch,T[2]); for(int i=0;i<4;i++) addChain(ch,3+i,3+(i+1)%4,-1); sx_assert(ch.empty(),"the triangles' boundary is the quad, same orientation");
  bool diag02=true; for(int x:{T[1].a,T[1].b,T[1].c}) if(x==4) diag02=T[1].a!=6&&T[1].b!=6&&T[1].c!=6; if(!(T[1].a==4||T[1].b==4||T[1].c==4)) diag02=true; double s1=Triangle3(p[0],p[1],p[2]).surface()+Triangle3(p[2],p[3],p[0]).surface(), s2=Triangle3(p[1],p[2],p[3]).surface()+Triangle3(p[3],p[0],p[1]).surface(); if(!opt) sx_assert(diag02,"a quad is cut from its first corner unless asked otherwise"); else sx_assert(diag02?s1<=s2+1e-6:s2<=s1+1e-6,"the cut with the smaller surface is taken"); sx_reach("end"); return; }
 int ops=sx_param("ops",3); Mesh m; vector<Point3> V; vector<MT> T;
 for(int i=0;i<4;i++){ Point3 p=symPoint("v",4.); sx_assert(m.add_vertex(p)==i,"new vertex id"); V.push_back(p); }
 sx_assert(m.add_triangle(0,1,2)==0,"new triangle id"); T.push_back({{0,1,2},false}); m.add_triangle(2,1,3); T.push_back({{2,1,3},false});
 for(int k=0;k<ops;k++){ int n=(int)V.size(), nt=(int)T.size(); int o=sx_concretize(sx_int("op",0,8));
  if((o==2||o==3||o==6||o==7)&&n==0) continue; if((o==4)&&nt==0) continue;
  if(o==0){ Point3 p=symPoint("p",4.); sx_assert(m.add_vertex(p)==n,"new vertex id"); V.push_back(p); }
  else if(o==1){ Point3 p=symPoint("p",4.); sx_assert(m.add_vertex(p._x,p._y,p._z)==n,"new vertex id"); V.push_back(p); }
  else if(o==2){ int i=sx_concretize(sx_int("i",0,n-1)); Point3 p=symPoint("p",4.); m.set_vertex(i,p); V[i]=p; }
  else if(o==3){ int a=sx_concretize(sx_int("i",0,n-1)),b=(a+1)%n,c=(a+2)%n; sx_assert(m.add_triangle(a,b,c)==nt,"new triangle id"); T.push_back({{a,b,c},false}); }
  else if(o==4){ int t=sx_concretize(sx_int("t",0,nt-1)); m.unlink_triangle(t); T[t].un=true; }
  else if(o==5){ Point3 p=symPoint("p",4.),q=symPoint("p",4.),r=symPoint("p",4.); sx_assert(m.add_triangle(p,q,r)==nt,"new triangle id"); V.push_back(p); V.push_back(q); V.push_back(r); T.push_back({{n,n+1,n+2},false}); }
  else if(o==6||o==7){ if(n<(o==6?4:5)) continue; int c0=0; vector<int> poly; for(int i=0;i<(o==6?4:5);i++) poly.push_back((i*3+1)%n); bool dist=true; for(size_t i=0;i<poly.size();i++) for(size_t j=0;j<i;j++) if(poly[i]==poly[j]) dist=false; if(!dist){ poly.clear(); for(int i=0;i<(o==6?4:5);i++) poly.push_back(i); } (void)c0;
   if(o==6) m.add_quad(poly[0],poly[1],poly[2],poly[3]); else m.add_pentagon(poly[0],poly[1],poly[2],poly[3],poly[4]);
   map<pair<int,int>,int> ch; sx_assert(m.nb_triangles()==nt+(o==6?2:3),"a polygon of n corners adds n-2 triangles"); for(int i=nt;i<m.nb_triangles();i++){ T3 t; m.get_triangle_vertices(i,t.a,t.b,t.c); for(int x:{t.a,t.b,t.c}){ bool in=false; for(int y:poly) in|=x==y; sx_assert(in,"polygon triangles use its corners"); } sx_assert(t.a!=t.b&&t.b!=t.c&&t.a!=t.c,"polygon triangles are not degenerate"); addTri(ch,t); T.push_back({{t.a,t.b,t.c},false}); } for(size_t i=0;i<poly.size();i++) addChain(ch,poly[i],poly[(i+1)%poly.size()],-1); sx_assert(ch.empty(),"the triangles' boundary is the polygon, same orientation"); }
  else { m.clear(); V.clear(); T.clear(); }
  compare(m,V,T); }
 sx_reach("end");
}
