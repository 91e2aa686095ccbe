// tessellation: on the reference triangle the output is exactly the n*n grid triangles, and on any triangle it is the affine image of that
#include "mesh_topo.h"
#include "MeshTessellate.h"
void sx_entry(){
 int n=sx_param("n",2); Mesh ref,out; ref.add_vertex(0,0,0); ref.add_vertex(n,0,0); ref.add_vertex(0,n,0); ref.add_triangle(0,1,2); MeshTessellate t; t.compute(ref,n,out);
 vector<T3> L=linked(out); sx_assert((int)L.size()==n*n,"n*n triangles per triangle"); vector<int> up(n*n,0),dn(n*n,0); vector<pair<int,int>> ij; for(int i=0;i<out.nb_vertices();i++){ Point3 p=vtx(out,i); int a=(int)(p._x+0.5),b=(int)(p._y+0.5); sx_close(p._x,a,1e-9,"grid vertex"); sx_close(p._y,b,1e-9,"grid vertex"); sx_close(p._z,0,1e-9,"grid vertex"); ij.push_back({a,b}); }
 for(auto&x:L){ pair<int,int> a=ij[x.a],b=ij[x.b],c=ij[x.c]; int cr=(b.first-a.first)*(c.second-a.second)-(b.second-a.second)*(c.first-a.first); sx_assert(cr==1,"each piece has area 1/n^2 and the orientation of the triangle"); int mx=min(a.first,min(b.first,c.first)),my=min(a.second,min(b.second,c.second)); int Mx=max(a.first,max(b.first,c.first)),My=max(a.second,max(b.second,c.second)); sx_assert(mx>=0&&my>=0&&Mx==mx+1&&My==my+1,"pieces are grid cells halves"); int sum=a.first+a.second+b.first+b.second+c.first+c.second; sx_assert(sum==3*(mx+my)+2||sum==3*(mx+my)+4,"half cell cut along the anti-diagonal"); sx_assert(mx+my<n,"inside"); int&cnt= sum==3*(mx+my)+2?up[mx*n+my]:dn[mx*n+my]; cnt++; sx_assert(cnt==1,"no piece occurs twice"); if(sum==3*(mx+my)+4) sx_assert(mx+my<n-1,"inside"); }
 { Mesh o3; t.compute(ref,n+1,o3); } // a tessellator keeps nothing
 // two symbolic triangles, one unlinked in between
 Mesh in,o2; Point3 P[6]; for(int i=0;i<6;i++){ P[i]=symPoint("v",4.); in.add_vertex(P[i]); } in.add_triangle(0,1,2); int un=in.add_triangle(1,2,3); in.add_triangle(5,3,4); in.unlink_triangle(un); t.compute(in,n,o2); sx_assert(o2.nb_triangles()==2*n*n&&o2.nb_vertices()==2*out.nb_vertices(),"unlinked triangles are skipped, the others are cut");
 int id[2][3]={{0,1,2},{5,3,4}}; int k=0; for(int q=0;q<2;q++){ Point3 A=P[id[q][0]],B=P[id[q][1]],C=P[id[q][2]]; for(int i=0;i<(int)ij.size();i++,k++){ Point3 v=vtx(o2,k); Point3 e=A+(B-A)*(ij[i].first/(double)n)+(C-A)*(ij[i].second/(double)n); closeP(v,e,1e-9,"pieces are the affine image of the reference pieces"); } }
 vector<T3> L2=linked(o2); for(size_t i=0;i<L2.size();i++){ int off= i<L.size()?0:out.nb_vertices(); T3 x=L[i%L.size()]; sx_assert(L2[i].a==x.a+off&&L2[i].b==x.b+off&&L2[i].c==x.c+off,"same connectivity on every triangle"); }
 sx_reach("end");
}
