// NURBS <-> mesh. op 0 surface to mesh, 1 solid to mesh, 2 control point mesh, 3 surface from heights, 4 solid from mesh, 5 closed torus is watertight, 6 degenerate requests
#include "mesh_topo.h"
#include "NurbsCurve.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "NurbsFactory.h"
#include "NurbsUtil.h"
static Point3 ev(const NurbsSurface&s,double u,double v){ Point3 p; s.evaluate(u,v,p); return p; }
static NurbsSurface surf(int du,int dv,int pu,int pv,bool cu,bool cv){ NurbsSurface s; vector<double> U=clampedKnots(du,pu,0),V=clampedKnots(dv,pv,0); int nu=(int)U.size()-du-1,nv=(int)V.size()-dv-1; s.set_degree(du,dv); s.set_points(symPoints("P",nu*nv,4.),nu,nv); s.set_knots_u(U); s.set_knots_v(V); s.set_weights(symWeights("w",nu*nv,sx_param("rat",1))); s.set_closed_u(cu); s.set_closed_v(cv); return s; }
static void prefill(Mesh&m){ m.add_vertex(7,7,7); m.add_vertex(7,8,7); m.add_vertex(7,7,8); m.add_triangle(0,1,2); }
// triangles from first onwards cover the nu x nv cells of the grid of points at(i,j), each with two triangles that run around it in the order (i,j) (i+1,j) (i+1,j+1) (i,j+1)
template<class F> static void checkGrid(const Mesh&m,int first,int nu,int nv,int base,F idx){ vector<T3> T=linked(m); sx_assert((int)T.size()-first>=2*nu*nv,"two triangles per cell"); map<pair<int,int>,int> got,want; for(int c=0;c<nu*nv;c++){ map<pair<int,int>,int> ch; int i=c%nu,j=c/nu; int q[4]={idx(i,j),idx(i+1,j),idx(i+1,j+1),idx(i,j+1)}; for(int k=0;k<4;k++) addChain(want,q[k],q[(k+1)%4]); }
 vector<int> cell(nu*nv,0); for(int t=first;t<first+2*nu*nv;t++){ addTri(got,T[t]); int hit=0; for(int c=0;c<nu*nv;c++){ int i=c%nu,j=c/nu; int q[4]={idx(i,j),idx(i+1,j),idx(i+1,j+1),idx(i,j+1)}; int in=0,pos[3]; int v[3]={T[t].a,T[t].b,T[t].c}; for(int k=0;k<3;k++) for(int l=0;l<4;l++) if(v[k]==q[l]){ in++; pos[k]=l; } if(in==3){ int a=(pos[1]-pos[0]+4)%4,b=(pos[2]-pos[1]+4)%4,d=(pos[0]-pos[2]+4)%4; if(a+b+d==4){ hit++; cell[c]++; } } } sx_assert(hit>=1,"every triangle lies in one cell, with the orientation of the surface"); } for(int c=0;c<nu*nv;c++) sx_assert(cell[c]>=2,"each cell is covered by two triangles"); sx_assert(got==want,"the triangles tile the cells"); (void)base; }
static void checkSurf(const Mesh&m,int v0,int t0,const NurbsSurface&s,int seg){ int N=seg*s.nb_points_u(),M=seg*s.nb_points_v(); sx_assert(m.nb_vertices()>=v0+(N+1)*(M+1),"vertex count"); for(int j=0;j<=M;j++) for(int i=0;i<=N;i++) closeP(vtx(m,v0+i+(N+1)*j),ev(s,(double)i/N,(double)j/M),1e-9,"vertices are surface points, row by row"); bool cu=s.is_closed_u(),cv=s.is_closed_v(); checkGrid(m,t0,N,M,v0,[&](int i,int j){ if(cu&&i==N) i=0; if(cv&&j==M) j=0; return v0+i+(N+1)*j; }); }
void sx_entry(){ { NurbsSurface f; sx_assert(!f.is_closed_u()&&!f.is_closed_v()&&f.points().empty()&&f.nb_points_u()==0&&f.nb_points_v()==0,"a new surface is empty and open"); }
 int op=sx_param("op",0), du=sx_param("du",1),dv=sx_param("dv",2),pu=sx_param("pu",0),pv=sx_param("pv",0),seg=sx_param("seg",1);
 if(op==0){ bool cu=sx_concretize(sx_int("cu",0,1)),cv=sx_concretize(sx_int("cv",0,1)),clr=sx_concretize(sx_int("clear",0,1)); NurbsSurface s=surf(du,dv,pu,pv,cu,cv); Mesh m; prefill(m); NurbsUtil::to_mesh(s,m,seg,clr); int v0=clr?0:3,t0=clr?0:1; int N=seg*s.nb_points_u(),M=seg*s.nb_points_v(); sx_assert(m.nb_vertices()==v0+(N+1)*(M+1)&&(int)linked(m).size()==t0+2*N*M,"counts"); checkIndices(m); if(!clr){ closeP(vtx(m,2),Point3(7,7,8),0,"earlier content kept"); vector<T3> T=linked(m); sx_assert(T[0].a==0&&T[0].b==1&&T[0].c==2,"earlier content kept"); } checkSurf(m,v0,t0,s,seg); }
 else if(op==1){ NurbsSurface a=surf(du,dv,pu,pv,false,false),b=surf(2,1,0,0,true,false),c=surf(1,1,0,0,false,true); NurbsSolid n; n.add_surface(a); n.add_surface(b); n.add_surface(c); Mesh m; prefill(m); NurbsUtil::to_mesh(n,m,seg); int v0=0,t0=0; for(auto&s:n.surfaces()){ checkSurf(m,v0,t0,s,seg); int N=seg*s.nb_points_u(),M=seg*s.nb_points_v(); v0+=(N+1)*(M+1); t0+=2*N*M; } sx_assert(m.nb_vertices()==v0&&(int)linked(m).size()==t0,"nothing but the surfaces"); checkIndices(m); }
 else if(op==2){ NurbsSurface s=surf(du,dv,pu,pv,false,false); for(int j=0;j<s.nb_points_v();j++) for(int i=0;i<s.nb_points_u();i++){ Point3&p=s.points()[i+s.nb_points_u()*j]; p._x=i; p._y=2*j; } Mesh m; prefill(m); NurbsUtil::to_controlpoints_mesh(s,m); int N=s.nb_points_u()-1,M=s.nb_points_v()-1; vector<T3> T=linked(m); sx_assert((int)T.size()==2*N*M,"two triangles per cell of the control net"); checkIndices(m); // triangles are matched to cells by position
  vector<int> cell(N*M,0); for(auto&t:T){ Point3 v[3]={vtx(m,t.a),vtx(m,t.b),vtx(m,t.c)}; int hit=0; for(int i=0;i<N;i++) for(int j=0;j<M;j++){ const Point3 q[4]={s.points()[i+(N+1)*j],s.points()[i+1+(N+1)*j],s.points()[i+1+(N+1)*(j+1)],s.points()[i+(N+1)*(j+1)]}; int pos[3]={-1,-1,-1}; for(int k=0;k<3;k++) for(int l=0;l<4;l++){ bool eq=v[k]._x==q[l]._x&&v[k]._y==q[l]._y&&v[k]._z==q[l]._z; if(eq){ pos[k]=l; break; } } if(pos[0]>=0&&pos[1]>=0&&pos[2]>=0){ int a=(pos[1]-pos[0]+4)%4,b=(pos[2]-pos[1]+4)%4,d=(pos[0]-pos[2]+4)%4; if(a+b+d==4){ hit++; cell[i+N*j]++; } } } sx_assert(hit>=1,"each triangle spans one cell"); } for(int x:cell) sx_assert(x>=2,"each cell is covered"); }
 else if(op==3){ int w=sx_param("w",3),h=sx_param("gh",2),deg=sx_param("deg",1); vector<double> z; for(int i=0;i<w*h;i++) z.push_back(sx_real("z",-4,4)); NurbsSurface s=surf(2,1,0,0,true,true); NurbsUtil::create_from_z(z,w,h,deg,s); sx_assert(s.degree_u()==deg&&s.degree_v()==deg&&s.nb_points_u()==w&&s.nb_points_v()==h&&(int)s.points().size()==w*h&&!s.is_closed_u()&&!s.is_closed_v(),"structure"); for(int j=0;j<h;j++) for(int i=0;i<w;i++) closeP(s.points()[i+w*j],Point3(i,j,z[i+w*j]),0,"control points at (column, row, height)"); if(deg==1) for(int j=0;j<h;j++) for(int i=0;i<w;i++) closeP(ev(s,(double)i/(w-1),(double)j/(h-1)),Point3(i,j,z[i+w*j]),1e-9,"degree 1 interpolates the heights"); Point3 p=ev(s,0,0); closeP(p,Point3(0,0,z[0]),1e-9,"corner"); closeP(ev(s,1,0),Point3(w-1,0,z[w-1]),1e-9,"corner"); closeP(ev(s,0,1),Point3(0,h-1,z[w*(h-1)]),1e-9,"corner"); closeP(ev(s,1,1),Point3(w-1,h-1,z[w*h-1]),1e-9,"corner"); }
 else if(op==4){ int nt=sx_param("nt",3); Mesh m; vector<Point3> V=symPoints("v",5,4.); for(auto&p:V) m.add_vertex(p); for(int i=0;i<nt;i++) m.add_triangle(i%5,(i*2+1)%5,(i+3)%5); for(int i=0;i<nt;i++) if(freeFlag("un",i)) m.unlink_triangle(i); NurbsSolid n; n.add_surface(surf(1,1,0,0,false,false)); NurbsUtil::create_from_mesh(m,n); vector<T3> T=linked(m); sx_assert(n.surfaces().size()==T.size(),"one surface per linked triangle"); double u=sx_real("u",0,1),v=sx_real("v",0,1); for(size_t i=0;i<T.size();i++){ const Point3&a=V[T[i].a],&b=V[T[i].b],&c=V[T[i].c]; closeP(ev(n.surfaces()[i],u,v),a*((1-u)*(1-v))+b*(u*(1-v))+c*v,1e-9,"the patch is the triangle"); } }
 else if(op==5){ double R=sx_real("R",2.,8.),r=sx_real("r",0.25,1.); NurbsSolid n; NurbsFactory::create_torus(R,r,n); Mesh m; NurbsUtil::to_mesh(n,m,seg); checkClosedManifold(m,0,false); double vol=0; for(auto&t:linked(m)) vol+=det3(vtx(m,t.a),vtx(m,t.b),vtx(m,t.c)); sx_assert(vol>0,"oriented outside"); }
 else { NurbsSurface s=surf(du,dv,0,0,false,false); Mesh m; prefill(m); NurbsUtil::to_mesh(s,m,0,false); sx_assert(m.nb_vertices()==3&&m.nb_triangles()==1,"no segments, nothing added"); NurbsSurface e; NurbsUtil::to_mesh(e,m,3,true); sx_assert(m.nb_vertices()==0&&m.nb_triangles()==0,"an empty surface gives an empty mesh"); NurbsUtil::to_controlpoints_mesh(e,m); sx_assert(m.nb_vertices()==0&&m.nb_triangles()==0,"an empty net gives an empty mesh"); NurbsSolid n; prefill(m); NurbsUtil::to_mesh(n,m,2); sx_assert(m.nb_vertices()==0&&m.nb_triangles()==0,"an empty solid gives an empty mesh"); Mesh m2; n.add_surface(s); NurbsUtil::create_from_mesh(m2,n); sx_assert(n.surfaces().empty(),"an empty mesh gives an empty solid"); }
 sx_reach("end");
}
