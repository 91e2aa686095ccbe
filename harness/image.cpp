// images. op 0 addressing, 1 resize, 2 grey conversion, 3 scaling, 4 conversion to doubles, 5 Sierpinski, 6 Mandelbrot
#include "hcommon.h"
#include "Image.h"
#include "ImageUtil.h"
#include "ImageGenerator.h"
#include <cstring>
#include <cmath>
static void fill(Image&m,const char*n){ for(int y=0;y<m.height();y++) for(int x=0;x<m.width();x++) for(int p=0;p<m.planes();p++) m(x,y,p)=sx_u8(n); }
static vector<unsigned char> bytesOf(const Image&a){ vector<unsigned char> d; for(int y=0;y<a.height();y++) for(int x=0;x<a.width();x++) for(int p=0;p<a.planes();p++) d.push_back(a(x,y,p)); return d; }
void sx_entry(){
 int op=sx_param("op",0), w=sx_param("w",3), h=sx_param("ht",2), pl=sx_param("pl",3);
 if(op==0){ Image d0,d1(w,h); sx_assert(d0.size()==0&&d0.planes()==1&&d1.planes()==1&&d1.size()==w*h,"one plane unless asked otherwise"); Image im(w,h,pl); sx_assert(im.width()==w&&im.height()==h&&im.planes()==pl&&im.size()==w*h*pl,"size"); fill(im,"px"); vector<unsigned char> d=bytesOf(im); for(int i=0;i<w*h*pl;i++) sx_assert(im.data()[i]==d[i],"data() holds the pixels row by row, planes interleaved"); int x=sx_concretize(sx_int("x",0,w-1)),y=sx_concretize(sx_int("y",0,h-1)),p=sx_concretize(sx_int("p",0,pl-1)); unsigned char v=sx_u8("v"); if(sx_param("via",0)) *im.pixel(x,y,p)=v; else im(x,y,p)=v; const Image&c=im; sx_assert(c(x,y,p)==v&&*c.pixel(x,y,p)==v&&im(x,y,p)==v&&*im.pixel(x,y,p)==v,"every accessor reads what was written"); int k=0; for(int j=0;j<h;j++) for(int i=0;i<w;i++) for(int q=0;q<pl;q++,k++) if(!(i==x&&j==y&&q==p)) sx_assert(c(i,j,q)==d[k],"no other pixel changes"); Image cp(im); cp(x,y,p)=(unsigned char)(v+1); sx_assert(im(x,y,p)==v,"a copied image is independent"); }
 else if(op==1){ Image im(w,h,pl); fill(im,"px"); int w2=sx_param("w2",2),h2=sx_param("h2",5),p2=sx_param("p2",1); im.resize(w2,h2,p2); sx_assert(im.width()==w2&&im.height()==h2&&im.planes()==p2&&im.size()==w2*h2*p2,"resized"); for(int y=0;y<h2;y++) for(int x=0;x<w2;x++) for(int p=0;p<p2;p++) im(x,y,p)=(unsigned char)(x+y*w2+p*50); for(int y=0;y<h2;y++) for(int x=0;x<w2;x++) for(int p=0;p<p2;p++) sx_assert(im(x,y,p)==(unsigned char)(x+y*w2+p*50),"every pixel of the new size is usable and distinct"); }
 else if(op==2){ Image im(w,h,pl),bw(sx_param("w2",1),1,2); fill(im,"px"); vector<unsigned char> d=bytesOf(im); ImageUtil::convert_to_bw(im,bw); sx_assert(bw.width()==w&&bw.height()==h&&bw.planes()==1,"one plane of the same size"); int k=0; for(int y=0;y<h;y++) for(int x=0;x<w;x++,k++){ int r=d[k*pl],g=d[k*pl+1],b=d[k*pl+2],v=bw(x,y); sx_assert(3*v<=r+g+b&&r+g+b<3*v+3,"grey is the mean of the three colours, same place"); } vector<unsigned char> e=bytesOf(im); for(size_t i=0;i<d.size();i++) sx_assert(e[i]==d[i],"the source is unchanged"); }
 else if(op==3){ Image im(w,h,pl); for(int y=0;y<h;y++) for(int x=0;x<w;x++) for(int p=0;p<pl;p++) im(x,y,p)=sx_concretize(sx_int("sel",0,3))*85; if(sx_param("wide",0)) im(w-1,h-1,pl-1)=sx_u8("last"); vector<unsigned char> d=bytesOf(im); int q=sx_concretize(sx_int("quarters",0,20)); double s=q/4.; ImageUtil::scale(im,s); sx_assert(im.width()==w&&im.height()==h&&im.planes()==pl,"size is kept"); vector<unsigned char> e=bytesOf(im); for(size_t i=0;i<d.size();i++){ int v=d[i]*q; int o=e[i]; if(v>=1020) sx_assert(o==255,"too bright saturates"); else sx_assert(4*o-v<=2&&v-4*o<=2,"every plane of every pixel is scaled, rounded to nearest"); } }
 else if(op==4){ Image im(w,h,pl); if(sx_param("wide",0)) fill(im,"px"); else { int k=0; for(int y=0;y<h;y++) for(int x=0;x<w;x++) for(int p=0;p<pl;p++,k++) im(x,y,p)=k+ (p==0?sx_concretize(sx_int("sel",0,1))*100:50); } vector<double> v(sx_param("pre",0),7.); im.to_double(v); sx_assert((int)v.size()==w*h,"one value per pixel"); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ double e=im(x,y,0); sx_assert(v[x+w*y]==e,"values are row by row"); } }
 else { Image im(sx_param("w2",1),1,1); int it=sx_param("it",5); if(op==5) ImageGenerator::Shierpinsky(im,w,h); else ImageGenerator::Mandelbrot(im,w,h,it); sx_assert(im.width()==w&&im.height()==h&&im.planes()==4,"the generator sets the size"); for(int y=0;y<h;y++) for(int x=0;x<w;x++){ int v; memcpy(&v,im.pixel(x,y),4); if(op==5) sx_assert(v==((x&y)?0:(1<<25)-1),"pixel colour"); else { int g=v&255; sx_assert(v==g*0x10101&&g<=it,"grey level is the iteration count"); double a=-2.1+3.*(w-x)/w, b=-1.5+3.*(h-y)/h, zx=a, zy=b; int n=0; bool sure=true; double gain=1; for(;;n++){ double r=zx*zx+zy*zy; if(gain>2000) sure=false; gain=2*gain*sqrt(r)+1; if(r<4.01&&r>3.99) sure=false; if(!(r<4)||n>=it) break; double t=zx*zx-zy*zy+a; zy=2*zx*zy+b; zx=t; } if(sure) sx_assert(g==n,"the grey level is the escape step of the point of the plane under the pixel"); } } }
 sx_reach("end");
}
