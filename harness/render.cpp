// Software renderer. op 0 pixels, 1 one triangle: coverage, 2 depth of a tilted triangle against a flat one, 3 facing, 4 lines, 5 clear and background, 6 lights, 7 meshes, 8 camera, 9 two flat triangles in either order
#include "hcommon.h"
#include "Renderer.h"
#include "Mesh.h"
#include "Transform.h"
#include <cmath>
static int W=6,H=5; static const double F=4.;
struct Scr { int*b; Renderer*r; Scr(int bg=0){ b=new int[W*H]; r=new Renderer(b,W,H); if(bg){ r->set_background(bg); r->clear(); } r->set_camera(0,0,0,0,0,0,0,F); } ~Scr(){ delete r; delete[] b; } int at(int i,int j){ return b[i+W*j]; } };
// the point at depth z (w = 1/z) seen at pixel X,Y
static Point3 wp(double X,double Y,double z){ return Point3((X-W/2)*z/F,-(Y-H/2)*z/F,z); }
static int rnd(const char*n,int lo,int hi){ return sx_concretize(sx_int(n,lo,hi)); }
struct V2{ int x,y; };
static long edge(V2 a,V2 b,int i,int j){ return (long)(b.x-a.x)*(j-a.y)-(long)(b.y-a.y)*(i-a.x); }
static long len1(V2 a,V2 b){ return labs(b.x-a.x)+labs(b.y-a.y); }
// +1 well inside, -1 well outside (by about one pixel), 0 undecided
static int cover(const V2*v,int i,int j){ long o=edge(v[0],v[1],v[2].x,v[2].y); int s=o>0?1:-1; bool in=true; for(int k=0;k<3;k++){ long e=s*edge(v[k],v[(k+1)%3],i,j),l=len1(v[k],v[(k+1)%3]); if(e<=-l) return -1; if(e<l) in=false; } int y0=v[0].y,y1=v[0].y,x0=v[0].x,x1=v[0].x; for(int k=1;k<3;k++){ if(v[k].y<y0) y0=v[k].y; if(v[k].y>y1) y1=v[k].y; if(v[k].x<x0) x0=v[k].x; if(v[k].x>x1) x1=v[k].x; } if(j<y0||j>y1||i<x0-1||i>x1+1) return -1; return in?1:0; }
static void pick(int k,V2*v){ // two fixed corners by configuration, the third anywhere; or all from the configuration
 static const int T[18][4]={{0,0,5,4},{-3,2,7,1},{2,-4,3,9},{-5,-5,10,8},{1,1,4,0},{-8,3,3,-2},{5,4,5,-3},{0,4,9,4},{-1000,-2000,3000,1500},{-70000,2,70000,3},{2,-50000,4,50000},{30000,30001,-30000,-29999},{1,-20,30,2},{-30,1,2,12},{-20,2,2,-9},{0,-1,25,2},{2,30,-25,-1},{25,3,1,-6}}; v[0]={T[k][0],T[k][1]}; v[1]={T[k][2],T[k][3]}; int e=sx_param("ext",3); if(sx_param("vx",-999)!=-999) v[2]={sx_param("vx",0),rnd("Y",-e,H-1+e)}; else v[2]={rnd("X",-e,W-1+e),rnd("Y",-e,H-1+e)}; }
void sx_entry(){ W=sx_param("w",6); H=sx_param("ht",5);
 int op=sx_param("op",0),k=sx_param("k",0);
 if(op==0){ Scr s(7); double z=sx_real("z",0.25,8),X=sx_real("X",-3,W+3),Y=sx_real("Y",-3,H+3); s.r->draw_pixel(wp(X,Y,z),100); int n=0; for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); sx_assert(c==100||c==7,"colours"); if(c==100){ n++; sx_assert((X-i<=0.5+1e-9)&(i-X<=0.5+1e-9)&(Y-j<=0.5+1e-9)&(j-Y<=0.5+1e-9),"a point is drawn on the pixel it projects to"); } } sx_assert(n<=1,"one pixel"); if((X>-0.499)&(X<W-0.501)&(Y>-0.499)&(Y<H-0.501)) sx_assert(n==1,"a point on the screen is drawn"); double zb=sx_real("zb",-8,8); sx_assume(zb<-0.25); Scr t(7); t.r->draw_pixel(wp(X,Y,zb),100); for(int j=0;j<H;j++) for(int i=0;i<W;i++) sx_assert(t.at(i,j)==7,"points behind the camera are not drawn"); }
 else if(op==10){ int n=sx_param("n",2); Scr s; int X=rnd("X",-1,W),Y=2; vector<double> z; for(int i=0;i<n;i++){ z.push_back(sx_real("z",0.25,8)); s.r->draw_pixel(wp(X,Y,z[i]),i+1); } for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); if(j!=Y||i!=X){ sx_assert(c==0,"nothing else is drawn"); continue; } sx_assert(c>=1&&c<=n,"drawn"); for(int q=0;q<n;q++) sx_assert(z[c-1]<=z[q],"the nearest point is visible, whatever the order"); } }
 else if(op==1||op==3){ V2 v[3]; pick(k,v); double z[3]; for(auto&x:z) x=sx_real("z",0.25,8); long o=edge(v[0],v[1],v[2].x,v[2].y); bool two=rnd("two",0,1); if(o!=0||!two){ Scr s; s.r->add_ambient_light(0xffffff,1.); bool d=s.r->draw_triangle_1color(wp(v[0].x,v[0].y,z[0]),wp(v[1].x,v[1].y,z[1]),wp(v[2].x,v[2].y,z[2]),0x00804020,two); int col=0; for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); if(c){ col=c; sx_assert(d,"drawn triangles are reported"); } sx_assert(c==0||c==col,"one colour"); if(o<=0&&!two) sx_assert(c==0,"back faces are not drawn"); else if(o!=0){ int f=cover(v,i,j); if(f<0) sx_assert(c==0,"nothing is drawn outside the triangle"); if(f>0) sx_assert(c!=0,"the inside of the triangle is filled"); } } if(o<=0&&!two) sx_assert(!d,"hidden triangles are reported as such"); } }
 else if(op==2||op==9){ V2 v[3]; pick(k,v); long o=edge(v[0],v[1],v[2].x,v[2].y); if(o!=0){ double w[3]; for(int i=0;i<3;i++) w[i]=op==9?(i?w[0]:sx_real("w",0.125,4)):sx_real("w",0.125,4); double w0=sx_param("free",0)?sx_real("w0",0.125,4):1; bool first=sx_param("first",2)==2?rnd("first",0,1):sx_param("first",2); Scr s; s.r->add_ambient_light(0xffffff,1.);
   auto tilted=[&]{ s.r->draw_triangle_1color(wp(v[0].x,v[0].y,1/w[0]),wp(v[1].x,v[1].y,1/w[1]),wp(v[2].x,v[2].y,1/w[2]),0xff0000,true); }; auto flat=[&]{ double z=1/w0; s.r->draw_triangle_1color(wp(-30,-30,z),wp(60,-30,z),wp(-30,60,z),0x00ff00,true); }; if(first){ tilted(); flat(); } else { flat(); tilted(); }
   double gx=((w[1]-w[0])*(v[2].y-v[0].y)-(w[2]-w[0])*(v[1].y-v[0].y))/o,gy=((w[2]-w[0])*(v[1].x-v[0].x)-(w[1]-w[0])*(v[2].x-v[0].x))/o; double ax=fabs(gx),ay=fabs(gy); double m=op==9?1e-6:1.01*ax+1e-5;
   for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); bool red=(c&0xff0000)!=0,green=(c&0xff00)!=0; sx_assert(red!=green,"every pixel shows one of the surfaces"); int f=cover(v,i,j); double e=w[0]+gx*(i-v[0].x)+gy*(j-v[0].y); if(f<0) sx_assert(green,"outside the front triangle the back is seen"); else if(f>0){ if(e>w0+m) sx_assert(red,"the nearer surface is visible, whatever the order"); if(e<w0-m) sx_assert(green,"the nearer surface is visible, whatever the order"); } } } }
 else if(op==4){ V2 v[3]; pick(k,v); V2 a=v[0],b=v[2]; double za=sx_real("za",0.25,8),zb=sx_real("zb",0.25,8); Scr s; if(sx_param("poly",0)){ vector<Point3> pl={wp(a.x,a.y,za),wp(b.x,b.y,zb)}; s.r->draw_polyline(pl,9); pl.pop_back(); s.r->draw_polyline(pl,11); } else s.r->draw_line(wp(a.x,a.y,za),wp(b.x,b.y,zb),9); int dx=b.x-a.x,dy=b.y-a.y,n=abs(dx)>abs(dy)?abs(dx):abs(dy); for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); sx_assert(c==0||c==9,"colours"); if(c){ bool near=false; for(int t=0;t<=n;t++){ long px=(long)a.x*n+(long)t*dx-(long)i*n,py=(long)a.y*n+(long)t*dy-(long)j*n; if(labs(px)<=n&&labs(py)<=n) near=true; } sx_assert(near,"only pixels on the line are drawn"); } } for(int t=0;t<n;t++){ double x=a.x+(double)dx*t/n,y=a.y+(double)dy*t/n; if(x>=0&&y>=0&&x<=W-1&&y<=H-1){ bool hit=false; for(int j=0;j<H;j++) for(int i=0;i<W;i++) if(s.at(i,j)==9&&fabs(x-i)<=1&&fabs(y-j)<=1) hit=true; sx_assert(hit,"the line has no gap on the screen"); } } }
 else if(op==12){ V2 v[3]; pick(k,v); V2 a=v[0],b=v[2]; double wa=sx_real("wa",0.125,4),wb=sx_real("wb",0.125,4); bool first=sx_param("first",2)==2?rnd("first",0,1):sx_param("first",2); Scr s,t; s.r->add_ambient_light(0xffffff,1.); auto line=[&](Scr&x){ x.r->draw_line(wp(a.x,a.y,1/wa),wp(b.x,b.y,1/wb),9); }; auto flat=[&]{ s.r->draw_triangle_1color(wp(-30,-30,1),wp(60,-30,1),wp(-30,60,1),0x00ff00,true); }; line(t); if(first){ line(s); flat(); } else { flat(); line(s); } int dx=b.x-a.x,dy=b.y-a.y; bool hz=abs(dx)>abs(dy); for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); if(t.at(i,j)==0){ sx_assert(c!=9&&c!=0,"the surface is seen beside the line"); continue; } int num=hz?i-a.x:j-a.y,den=hz?dx:dy; double e=wa+(wb-wa)*num/den; if(e>1+1e-4) sx_assert(c==9,"a line in front of a surface is visible"); if(e<1-1e-4) sx_assert(c!=9&&c!=0,"a line behind a surface is hidden"); } }
 else if(op==5){ Scr s; for(int j=0;j<H;j++) for(int i=0;i<W;i++) sx_assert(s.at(i,j)==0,"a new renderer clears to black"); int bg=sx_int("bg",0,0xffffff); s.r->draw_pixel(wp(1,1,0.5),3); s.r->set_background(bg); sx_assert(s.at(1,1)==3&&s.at(0,0)==0,"the background waits for the next clear"); s.r->clear(); for(int j=0;j<H;j++) for(int i=0;i<W;i++) sx_assert(s.at(i,j)==bg,"clear fills with the background"); double z=sx_real("z",0.25,8); s.r->draw_pixel(wp(1,1,z),4); sx_assert(s.at(1,1)==4,"clear forgets depths"); }
 else if(op==6){ Scr s; int na=sx_param("na",1),nd=sx_param("nd",1); int col=sx_param("col",0x80c0ff),lc=sx_param("lc",0xff8040); double lo=sx_param("lo",0)/32.,hi=sx_param("hi",64)/32.; double f[16],tot[3]={0,0,0}; for(int i=0;i<na;i++){ f[i]=sx_real("amb",lo,hi); int c=i%2?sx_param("c2",0x40ff10):lc; s.r->add_ambient_light(c,f[i]); for(int q=0;q<3;q++) tot[q]+=f[i]*((c>>(16-8*q))&255)/256.; } for(int i=0;i<nd;i++){ double g=sx_real("dif",lo,hi); Point3 d=symPoint("d",2.); int c=i%2?sx_param("c2",0x1020f0):lc; s.r->add_diffuse_light(c,g,d); double pr=d._z; if(pr<0) pr=0; for(int q=0;q<3;q++) tot[q]+=g*pr*((c>>(16-8*q))&255)/256.; }
  Point3 A=wp(-5,-5,1),B=wp(20,-5,1),C=wp(-5,20,1); s.r->draw_triangle_1color(A,C,B,col,true); Point3 n=Triangle3(A,C,B).normal(); sx_assert(n._z>0.99,"normal"); int c=s.at(2,2); for(int q=0;q<3;q++){ double want=tot[q]*((col>>(16-8*q))&255); if(want>255) want=255; int ch=(c>>(16-8*q))&255; sx_assert(((double)ch-want<=0.51)&(want-ch<=0.51),"each channel is the light times the colour, limited to 255"); } sx_assert((c>>24)==0,"no overflow into other channels"); }
 else if(op==7){ Scr s(0x111111); s.r->add_ambient_light(0xffffff,256./255.); Mesh m; double z1=sx_real("z1",0.25,8),z2=sx_real("z2",0.25,8); auto quad=[&](double x0,double x1,double z,int vo){ m.add_vertex(wp(x0,-9,z)); m.add_vertex(wp(x1,-9,z)); m.add_vertex(wp(x1,19,z)); m.add_vertex(wp(x0,19,z)); m.add_triangle(vo,vo+1,vo+2); m.add_triangle(vo,vo+2,vo+3); }; quad(-9,20,z1,0); quad(-9,2,z2,4); int u=rnd("unlink",0,3); if(u&1) m.unlink_triangle(2),m.unlink_triangle(3); if(u&2) m.unlink_triangle(0),m.unlink_triangle(1); m.set_color(0x204060); bool own=rnd("own",0,1),edges=sx_param("edges",0); s.r->draw_mesh(m,edges,own?-1:0x608020); int want=own?0x204060:0x608020; for(int j=0;j<H;j++) for(int i=0;i<W;i++){ int c=s.at(i,j); bool cov=!(u&2)||(!(u&1)&&i<2); bool un=(u&2)&&((u&1)||i>3); if(edges){ sx_assert(c==want||c==0||c==0x111111,"colours"); } else { if(cov) sx_assert(c==want,"the linked triangles are drawn in the colour asked for"); if(un) sx_assert(c==0x111111,"nothing else is drawn"); } } }
 else if(op==8){ RendererCamera c; double y=sx_real("yaw",-180,180),p=sx_real("pitch",-90,90),r=sx_real("roll",-180,180),ah=sx_real("ahead",-4,4); Point3 o=symPoint("o",4.),q=symPoint("q",4.); c.set_angles(1,2,3); c.set_origin(9,9,9,9); Point3 first=c.local_ref(q); c.set_angles(y,p,r); Point3 second=c.local_ref(q); (void)first; (void)second; c.set_origin(o._x,o._y,o._z,ah); RotationEulerAngles e(y,p,r); Point3 l(q._x-o._x,q._y-o._y,q._z-o._z); e.apply(l); l._z+=ah; closeP(c.local_ref(q),l,1e-6,"moved, turned, then pushed ahead"); }
 else if(op==11){ RendererCamera c; int ax=sx_param("axis",0); double K=KS(),z=sx_real("z",0.25*K,8*K),zo=sx_real("zoom",0.5,2),x=ax==0?sx_real("x",-4*K,4*K):0.3*K,y=ax==1?sx_real("y",-4*K,4*K):-0.2*K; sx_assume((x<=z*3)&(x>=-3*z)&(y<=z*3)&(y>=-3*z)&(z>0.25*K)); int w=sx_param("sw",7),h=sx_param("sh",4); int sx,sy; double iw; c.set_screen(9,9,3.); c.project(Point3(1,2,3),sx,sy,iw); c.set_angles(0,0,0); c.set_origin(0,0,0,0); c.set_screen(w,h,zo); c.project(Point3(x,y,z),sx,sy,iw); double ex=x*zo/z+w/2,ey=-y*zo/z+h/2; sx_assert((sx-ex<=0.5001)&(ex-sx<=0.5001),"nearest pixel column"); sx_assert((sy-ey<=0.5001)&(ey-sy<=0.5001),"nearest pixel row"); sx_close(iw,1./z,1e-9/K,"inverse depth"); }
 sx_reach("end");
}
