// mid: vertices mid.. but the last one are fixed and far apart. op 0 merge_vertices, 1 remove_empty_triangles, 2 create_from_grid, 3 create_from_z
#include "mesh_topo.h"
#include "MeshUtil.h"
void sx_entry(){
 int op=sx_param("op",0);
 if(op==0||op==1){ int nv=sx_param("nv",4), nt=sx_param("nt",2); double tol=sx_param("tolc",0)?0.5*KS():sx_real("tol",0.,2.*KS()); if(sx_param("pos",1)) sx_assume(tol>0.); Mesh m; vector<Point3> V; int dim=sx_param("dim",1), mid=sx_param("mid",0); for(int i=0;i<nv;i++){ Point3 p=(mid&&i>=mid&&i<nv-1)?Point3():symPoint("v",4.); if(dim<3) p._z=0; if(dim<2) p._y=0; int ax=sx_param("axis",0); if(ax==1) p=Point3(p._z,p._x,p._y); if(ax==2) p=Point3(p._y,p._z,p._x); if(ax==3) p=Point3(p._x,-p._x,p._x*0.5); if(mid&&i>=mid&&i<nv-1) p=Point3((10.+3*i)*KS(),0,0); V.push_back(p); m.add_vertex(p); } for(int i=0;i<nt;i++) m.add_triangle(i%nv,(i+1)%nv,(i+2)%nv); if(sx_param("un",0)) m.unlink_triangle(0); vector<T3> T=linked(m); m.set_color(5);
  if(op==0){ MeshUtil::merge_vertices(m,tol); sx_assert(m.nb_vertices()<=nv,"no new vertices"); vector<T3> L=linked(m); sx_assert(L.size()==T.size(),"every linked triangle survives, no other"); int k=m.nb_vertices(); 
   for(size_t i=0;i<T.size();i++){ int o[3]={T[i].a,T[i].b,T[i].c},q[3]={L[i].a,L[i].b,L[i].c}; for(int j=0;j<3;j++){ sx_assert(q[j]>=0&&q[j]<k,"indices exist"); Point3 d=sub(vtx(m,q[j]),V[o[j]]); double d2=dotP(d,d); sx_assert(d2<tol*tol||d2==0.,"no corner moves by the tolerance or more"); } }
   for(int i=0;i<k;i++){ bool same=false; Point3 p=vtx(m,i); for(int j=0;j<nv&&!same;j++){ Point3 d=sub(p,V[j]); if(dotP(d,d)==0.) same=true; } sx_assert(same,"kept vertices are old vertices"); for(int j=0;j<i;j++){ Point3 d=sub(p,vtx(m,j)); sx_assert(dotP(d,d)>=tol*tol,"no two remaining vertices are closer than the tolerance"); } } }
  else { int n0=m.nb_triangles(); MeshUtil::remove_empty_triangles(m,tol); sx_assert(m.nb_vertices()==nv&&m.nb_triangles()==n0,"nothing is moved or added"); for(int i=0;i<n0;i++){ int a,b,c; m.get_triangle_vertices(i,a,b,c); Point3 d1=sub(V[a],V[b]),d2=sub(V[b],V[c]),d3=sub(V[c],V[a]); bool shrt=dotP(d1,d1)<tol*tol||dotP(d2,d2)<tol*tol||dotP(d3,d3)<tol*tol; bool was=sx_param("un",0)&&i==0; sx_assert(m.is_triangle_unlinked(i)==(shrt||was),"a triangle is removed exactly when one of its edges is shorter than the tolerance"); } for(int i=0;i<nv;i++) closeP(vtx(m,i),V[i],0.,"vertices are kept"); } }
 else { int w=sx_param("w",3),h=sx_param("gh",2); Mesh m; m.add_vertex(1,1,1); m.add_vertex(2,1,1); m.add_vertex(1,2,1); m.add_triangle(0,1,2); vector<Point3> P; vector<double> z; for(int i=0;i<w*h;i++){ Point3 p=symPoint("v",4.); P.push_back(p); z.push_back(p._z); }
  if(op==2) MeshUtil::create_from_grid(P,w,h,m); else { MeshUtil::create_from_z(z,w,h,m); for(int j=0;j<h;j++) for(int i=0;i<w;i++) P[i+w*j]=Point3(i,j,z[i+w*j]); }
  sx_assert(m.nb_vertices()==w*h,"one vertex per sample"); for(int i=0;i<w*h;i++) closeP(vtx(m,i),P[i],0.,"vertices are the samples, row by row"); vector<T3> L=linked(m); sx_assert((int)L.size()==(w>0&&h>0?2*(w-1)*(h-1):0),"two triangles per cell");
  vector<int> cell((w>1&&h>1)?(w-1)*(h-1):0,0); map<pair<int,int>,int> ch; for(auto&t:L){ int mx=w,my=h,Mx=-1,My=-1; int v[3]={t.a,t.b,t.c}; for(int x:v){ sx_assert(x>=0&&x<w*h,"indices exist"); mx=min(mx,x%w); my=min(my,x/w); Mx=max(Mx,x%w); My=max(My,x/w); } sx_assert(Mx==mx+1&&My==my+1,"triangles stay in their cell"); int cr=(v[1]%w-v[0]%w)*(v[2]/w-v[0]/w)-(v[1]/w-v[0]/w)*(v[2]%w-v[0]%w); sx_assert(cr==1,"half a cell, counter-clockwise"); cell[mx+(w-1)*my]++; addTri(ch,t); } for(int c:cell) sx_assert(c==2,"every cell is covered by two triangles");
  if(w>1&&h>1){ for(int i=0;i<w-1;i++){ addChain(ch,i,i+1,-1); addChain(ch,i+1+w*(h-1),i+w*(h-1),-1); } for(int j=0;j<h-1;j++){ addChain(ch,w-1+w*j,w-1+w*(j+1),-1); addChain(ch,w*(j+1),w*j,-1); } sx_assert(ch.empty(),"the boundary is the rim of the grid"); } }
 sx_reach("end");
}
