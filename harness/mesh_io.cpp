// mesh files. STL: op 0 round trip + layout, 1 any header / normals / attributes, 2 facet count against the file length.
// OBJ: op 3 round trip, 4 several meshes and polylines in one file, 5 free layout, 6 face indices, 7 short arbitrary text; large files: 8 STL, 9 OBJ
#include "mesh_topo.h"
#include "STLFile.h"
#include "OBJFile.h"
#include <fstream>
#include <sstream>
#include <cstring>
extern "C" int sx_text_precision();
static vector<unsigned char> slurp(const char* n){ vector<unsigned char> r; std::ifstream f(n,std::ios::binary|std::ios::in); char c; while(f.read(&c,1)) r.push_back((unsigned char)c); return r; }
static float fl(const vector<unsigned char>&b,size_t o){ float f; memcpy(&f,&b[o],4); return f; }
static int i32(const vector<unsigned char>&b,size_t o){ int v; memcpy(&v,&b[o],4); return v; }
static void someMesh(Mesh&m,vector<Point3>&V,int nv,int nt){ for(int i=0;i<nv;i++){ Point3 p=symPoint("v",4.); V.push_back(p); m.add_vertex(p); } for(int i=0;i<nt;i++) m.add_triangle((i*2)%nv,(i+1)%nv,(i*2+3)%nv); for(int i=0;i<nt;i++) if(sx_concretize(sx_int("unlink",0,1))) m.unlink_triangle(i); }
static void prefill(Mesh&m){ m.add_vertex(7,7,7); m.add_vertex(7,8,7); m.add_vertex(7,7,8); m.add_triangle(0,1,2); }
struct ObjFile{ vector<Point3> v; vector<vector<double>> col; vector<vector<int>> f,l; };
static ObjFile parse(const char*n){ ObjFile o; std::ifstream f(n); string s; sx_assert(!f.fail(),"file exists"); while(getline(f,s)){ std::stringstream ss(s); string k; if(!(ss>>k)) continue; if(k=="v"){ double x,y,z,c; ss>>x>>y>>z; sx_assert(!ss.fail(),"a vertex line has three coordinates"); o.v.push_back(Point3(x,y,z)); vector<double> cc; while(ss>>c) cc.push_back(c); o.col.push_back(cc); } else if(k=="f"||k=="l"){ vector<int> i; int x; while(ss>>x) i.push_back(x); sx_assert(ss.eof(),"only numbers on the line"); (k=="f"?o.f:o.l).push_back(i); } else sx_assert(k[0]=='#',"only v, f and l lines"); } return o; }
void sx_entry(){
 int op=sx_param("op",0), nv=sx_param("nv",4), nt=sx_param("nt",3); 
 if(op==0){ Mesh m; vector<Point3> V; someMesh(m,V,nv,nt); vector<T3> T=linked(m); sx_assert(STLFile::save("t.stl",m),"saving succeeds"); vector<unsigned char> b=slurp("t.stl"); sx_assert(b.size()==84+50*T.size(),"file size is 84 + 50 per triangle"); sx_assert(i32(b,80)==(int)T.size(),"facet count"); for(size_t i=0;i<T.size();i++){ int c[3]={T[i].a,T[i].b,T[i].c}; for(int k=0;k<3;k++){ size_t o=84+50*i+12+12*k; closeP(Point3(fl(b,o),fl(b,o+4),fl(b,o+8)),V[c[k]],1e-6,"facet corners, in order, as floats"); } }
  Mesh r; if(sx_param("pre",1)) prefill(r); sx_assert(STLFile::load("t.stl",r),"loading succeeds"); vector<T3> L=linked(r); sx_assert(L.size()==T.size()&&r.nb_triangles()==(int)T.size(),"exactly the linked triangles come back"); for(size_t i=0;i<T.size();i++){ closeP(vtx(r,L[i].a),V[T[i].a],1e-6,"corner 1"); closeP(vtx(r,L[i].b),V[T[i].b],1e-6,"corner 2"); closeP(vtx(r,L[i].c),V[T[i].c],1e-6,"corner 3"); } sx_assert(!STLFile::load("nothere.stl",r),"a missing file is refused"); }
 else if(op==1||op==2){ int k=sx_param("k",2), extra=sx_param("extra",0), n=k; if(op==2) n=sx_int("count",-2147483647-1,2147483647); std::ofstream f("t.stl",std::ios::binary); for(int i=0;i<80;i++){ char c=op==1?(char)sx_u8("h"):0; f.write(&c,1); } f.write((char*)&n,4); vector<Point3> P; for(int i=0;i<k;i++){ for(int j=0;j<12;j++){ float x=(float)sx_real("c",-4,4); f.write((char*)&x,4); if(j>2&&j%3==0) P.push_back(Point3(x,0,0)); if(j>2&&j%3==1) P.back()._y=x; if(j>2&&j%3==2) P.back()._z=x; } for(int j=0;j<2;j++){ char c=(char)sx_u8("a"); f.write(&c,1); } } for(int i=0;i<extra;i++){ char c=(char)sx_u8("x"); f.write(&c,1); } f.close();
  int cut=sx_param("cut",0); if(cut){ vector<unsigned char> b=slurp("t.stl"); int keep=sx_concretize(sx_int("keep",0,(int)b.size()-1)); std::ofstream g("t.stl",std::ios::binary); for(int i=0;i<keep;i++) g.write((char*)&b[i],1); g.close(); }
  Mesh r; prefill(r); bool ok=STLFile::load("t.stl",r); if(cut){ sx_assert(!ok,"a truncated file is refused"); sx_reach("end"); return; } sx_assert(ok==(n>=0&&n<=k),"a file is read exactly when it holds the facets it announces"); if(ok){ sx_assert(r.nb_triangles()==n,"one triangle per facet"); vector<T3> L=linked(r); for(size_t i=0;i<L.size();i++){ closeP(vtx(r,L[i].a),P[3*i],0.,"corner 1"); closeP(vtx(r,L[i].b),P[3*i+1],0.,"corner 2"); closeP(vtx(r,L[i].c),P[3*i+2],0.,"corner 3"); } } }
 else if(op==3){ Mesh m; vector<Point3> V; someMesh(m,V,nv,nt); if(sx_param("col",0)) m.set_color(sx_concretize(sx_int("c",0,2))*0x7f0140); vector<T3> T=linked(m); sx_assert(OBJFile::save("t.obj",m),"saving succeeds"); Mesh r; if(sx_param("pre",1)) prefill(r); sx_assert(OBJFile::load("t.obj",r),"loading succeeds"); 
  sx_assert(sx_text_precision()>=6,"coordinates are written with at least 6 significant digits");
  sx_assert(r.nb_vertices()==nv,"vertex count"); for(int i=0;i<nv;i++) closeP(vtx(r,i),V[i],1e-5,"vertices come back in order"); vector<T3> L=linked(r); sx_assert(L.size()==T.size()&&r.nb_triangles()==(int)T.size(),"exactly the linked triangles come back"); for(size_t i=0;i<T.size();i++) sx_assert(L[i].a==T[i].a&&L[i].b==T[i].b&&L[i].c==T[i].c,"triangles come back with their vertices and orientation"); 
  ObjFile o=parse("t.obj"); for(auto&c:o.col){ if(m.get_color()==-1) sx_assert(c.empty(),"no colour written without a colour"); else { sx_assert(c.size()==3,"three colour values"); int q=m.get_color(); sx_close(c[0],(q>>16&255)/255.,1e-5,"vertex colour"); sx_close(c[1],(q>>8&255)/255.,1e-5,"vertex colour"); sx_close(c[2],(q&255)/255.,1e-5,"vertex colour"); } } sx_assert(!OBJFile::load("nothere.obj",r),"a missing file is refused"); }
 else if(op==4){ int seq=sx_param("seq",121); OBJWriter w; if(sx_param("again",0)){ w.open("u.obj"); Mesh m; vector<Point3> v; someMesh(m,v,3,1); w.write(m); w.write(v); w.close(); sx_assert(!w.is_open(),"closed"); } w.open("t.obj"); sx_assert(w.is_open(),"file opens"); vector<Point3> V; vector<vector<int>> F,L; while(seq){ int k=seq%10; seq/=10; int off=(int)V.size(); if(k==1||k>7){ Mesh m; vector<Point3> v; if(k<9) someMesh(m,v,nv,k==1?2:0); w.write(m); V.insert(V.end(),v.begin(),v.end()); for(auto&t:linked(m)) F.push_back({t.a+1+off,t.b+1+off,t.c+1+off}); } else { vector<Point3> p=symPoints("p",k,4.); w.write(p); V.insert(V.end(),p.begin(),p.end()); vector<int> l; for(int i=0;i<k;i++) l.push_back(off+i+1); L.push_back(l); } } w.close(); 
  ObjFile o=parse("t.obj"); sx_assert(o.v.size()==V.size(),"every vertex is written once"); for(size_t i=0;i<V.size();i++) closeP(o.v[i],V[i],1e-5,"vertices in order"); sx_assert(o.f==F,"faces of every part refer to their own vertices"); sx_assert(o.l==L,"polylines refer to their own vertices"); }
 else if(op==5){ std::ofstream f("t.obj"); Point3 p[4]; for(auto&q:p) q=symPoint("v",4.); bool crlf=sx_concretize(sx_int("crlf",0,1)); const char*nl=crlf?"\r\n":"\n"; f<<"# comment"<<nl<<nl<<"o name"<<nl<<"v "<<p[0]._x<<" "<<p[0]._y<<" "<<p[0]._z<<nl; f<<"vn "<<p[3]._x<<" 0 1"<<nl<<"vt 0 0"<<nl<<"  v   "<<p[1]._x<<"  "<<p[1]._y<<"\t"<<p[1]._z<<" "<<nl<<"g group"<<nl<<"v "<<p[2]._x<<" "<<p[2]._y<<" "<<p[2]._z<<" 1 0 0"<<nl<<"s off"<<nl<<"f 3 1 2"<<nl<<"v "<<p[3]._x<<" "<<p[3]._y<<" "<<p[3]._z<<nl<<"usemtl m"<<nl<<"f 1 4 3"; if(sx_concretize(sx_int("lastnl",0,1))) f<<nl; f.close(); Mesh r; prefill(r); sx_assert(OBJFile::load("t.obj",r),"loading succeeds"); sx_assert(r.nb_vertices()==4&&r.nb_triangles()==2,"vertices and faces among other lines"); for(int i=0;i<4;i++) closeP(vtx(r,i),p[i],1e-5,"vertices in order"); vector<T3> L=linked(r); sx_assert(L.size()==2&&L[0].a==2&&L[0].b==0&&L[0].c==1&&L[1].a==0&&L[1].b==3&&L[1].c==2,"faces"); }
 else if(op==6){ int i1=sx_concretize(sx_int("i1",-2,5)),i2=sx_concretize(sx_int("i2",-2,5)),i3=sx_concretize(sx_int("i3",-2,5)); std::ofstream f("t.obj"); f<<"v 0 0 0\nv 1 0 0\nv 0 1 0\nf "<<i1<<" "<<i2<<" "<<i3<<"\n"; f.close(); Mesh r; prefill(r); bool ok=OBJFile::load("t.obj",r); bool in=i1>=1&&i1<=3&&i2>=1&&i2<=3&&i3>=1&&i3<=3; sx_assert(ok==in,"a face is read exactly when its vertices exist"); if(ok){ vector<T3> L=linked(r); sx_assert(L.size()==1&&L[0].a==i1-1&&L[0].b==i2-1&&L[0].c==i3-1,"face vertices"); } }
 else if(op==8||op==9){ // large files: nt triangles over nv vertices, a few of them symbolic, every 1000th triangle unlinked
  Mesh m; vector<Point3> V; for(int i=0;i<nv;i++){ Point3 p=i%(nv/3)==0?symPoint("v",4.):Point3(i%256,i/256%256,i/65536); V.push_back(p); m.add_vertex(p); } for(int i=0;i<nt;i++) m.add_triangle(i%nv,(i+1)%nv,(i*3+2)%nv); for(int i=5;i<nt;i+=1000) m.unlink_triangle(i); vector<T3> T=linked(m); Mesh r; prefill(r);
  if(op==8){ sx_assert(STLFile::save("t.stl",m),"saving succeeds"); vector<unsigned char> b=slurp("t.stl"); sx_assert(b.size()==84+50*T.size(),"file size is 84 + 50 per triangle"); sx_assert(i32(b,80)==(int)T.size(),"facet count"); sx_assert(STLFile::load("t.stl",r),"loading succeeds"); } else { sx_assert(OBJFile::save("t.obj",m),"saving succeeds"); sx_assert(OBJFile::load("t.obj",r),"loading succeeds"); sx_assert(r.nb_vertices()==nv,"vertex count"); }
  vector<T3> L=linked(r); sx_assert(L.size()==T.size()&&r.nb_triangles()==(int)T.size(),"exactly the linked triangles come back"); if(L.size()!=T.size()) return; for(size_t i=0;i<T.size();i++){ closeP(vtx(r,L[i].a),V[T[i].a],1e-5,"corner 1"); closeP(vtx(r,L[i].b),V[T[i].b],1e-5,"corner 2"); closeP(vtx(r,L[i].c),V[T[i].c],1e-5,"corner 3"); if(op==9) sx_assert(L[i].a==T[i].a&&L[i].b==T[i].b&&L[i].c==T[i].c,"triangles come back with their vertices and orientation"); } }
 else { static const char A[]="vf 13-/.\n"; int n=sx_param("n",5); std::ofstream f("t.obj"); f<<"v 1 0 0\nv 0 1 0\nv 0 0 1\n"; for(int i=0;i<n;i++){ char c=A[sx_concretize(sx_int("c",0,sizeof(A)-2))]; f<<c; } f.close(); Mesh r; bool ok=OBJFile::load("t.obj",r); checkIndices(r); if(ok) sx_assert(r.nb_vertices()>=3,"the leading vertices are there"); }
 sx_reach("end");
}
