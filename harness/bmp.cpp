// BMP files. op 0 round trip and file layout, 1 reading files laid out by the format description, 2 arbitrary bytes, 3 truncated files
#include "hcommon.h"
#include "Image.h"
#include "ImageIoBmp.h"
#include <fstream>
static vector<unsigned char> slurp(const char* n){ vector<unsigned char> r; std::ifstream f(n,std::ios::binary|std::ios::in); char c; while(f.read(&c,1)) r.push_back((unsigned char)c); return r; }
static void spill(const char* n,const vector<unsigned char>&v){ std::ofstream f(n,std::ios::binary|std::ios::out); for(unsigned char c:v){ char d=(char)c; f.write(&d,1); } f.close(); }
static int le(const vector<unsigned char>&f,int o,int n){ int r=0; for(int i=0;i<n;i++) r|=f[o+i]<<(8*i); return r; }
static void put(vector<unsigned char>&f,int v,int n){ for(int i=0;i<n;i++) f.push_back((unsigned char)((unsigned)v>>(8*i))); }
// sparse>1: only every sparse-th byte is symbolic, the others follow a fixed pattern
static void fill(Image&m,const char*n,int sparse=1){ int k=0; for(int y=0;y<m.height();y++) for(int x=0;x<m.width();x++) for(int p=0;p<m.planes();p++,k++) m(x,y,p)=k%sparse==0?sx_u8(n):(unsigned char)(k*7+(k>>8)); }
static void sameImage(const Image&a,int w,int h,int pl,const vector<unsigned char>&d,const char*msg){ sx_assert(a.width()==w&&a.height()==h&&a.planes()==pl,msg); int k=0; for(int y=0;y<h;y++) for(int x=0;x<w;x++) for(int p=0;p<pl;p++) sx_assert(a(x,y,p)==d[k++],msg); }
static vector<unsigned char> bytesOf(const Image&a){ vector<unsigned char> d; for(int y=0;y<a.height();y++) for(int x=0;x<a.width();x++) for(int p=0;p<a.planes();p++) d.push_back(a(x,y,p)); return d; }
static void header(vector<unsigned char>&f,int w,int h,int bpp,bool sym){ int nb=bpp/8,pad=(w*nb+3)/4*4,pal=bpp==8?1024:0; f.push_back('B'); f.push_back('M'); put(f,54+pal+pad*h,4); put(f,0,4); put(f,54+pal,4); put(f,40,4); put(f,w,4); put(f,h,4); put(f,1,2); put(f,bpp,2); put(f,0,4); for(int i=0;i<20;i++) f.push_back(sym?sx_u8("hdr"):0); for(int i=0;i<pal;i++) f.push_back(i%4==3?0:(unsigned char)(i/4)); }
void sx_entry(){
 int op=sx_param("op",0), w=sx_param("w",3), h=sx_param("ht",2), pl=sx_param("pl",3), pw=sx_param("pw",0); Image out(pw,pw?2:0,pw?3:1); if(pw) fill(out,"old");
 if(op==0){ Image in(w,h,pl); fill(in,"px",sx_param("sparse",1)); vector<unsigned char> d=bytesOf(in); bool ok=ImageIoBmp::write("t.bmp",&in); if(pl==2||pl==5){ sx_assert(!ok,"an image that cannot be stored is refused"); sx_reach("end"); return; } sx_assert(ok,"write succeeds"); sameImage(in,w,h,pl,d,"writing leaves the image alone");
  vector<unsigned char> f=slurp("t.bmp"); int nb=pl,pad=(w*nb+3)/4*4,pal=pl==1?1024:0,off=54+pal; sx_assert((int)f.size()==off+pad*h,"file size"); sx_assert(f[0]=='B'&&f[1]=='M',"signature"); sx_assert(le(f,2,4)==off+pad*h,"file size field"); sx_assert(le(f,10,4)==off,"pixel offset field"); sx_assert(le(f,14,4)==40,"info header size"); sx_assert(le(f,18,4)==w&&le(f,22,4)==h,"width and height fields"); sx_assert(le(f,26,2)==1&&le(f,28,2)==8*pl,"planes and bit count"); sx_assert(le(f,30,4)==0,"no compression"); if(pl==1) for(int i=0;i<256;i++) sx_assert(f[54+4*i]==i&&f[55+4*i]==i&&f[56+4*i]==i,"grey palette");
  for(int y=0;y<h;y++) for(int x=0;x<w;x++) for(int p=0;p<(pl==1?1:3);p++) sx_assert(f[off+pad*(h-1-y)+x*nb+(pl==1?0:2-p)]==d[(y*w+x)*pl+p],"pixels are stored bottom-up, blue green red, lines padded to 4 bytes");
  sx_assert(ImageIoBmp::read("t.bmp",&out),"the written file is read back"); sx_assert(out.width()==w&&out.height()==h&&out.planes()==pl,"size and planes survive"); for(int y=0;y<h;y++) for(int x=0;x<w;x++) for(int p=0;p<(pl==1?1:3);p++) sx_assert(out(x,y,p)==d[(y*w+x)*pl+p],"colours survive"); }
 else if(op==1){ vector<unsigned char> f; int bpp=8*pl,pad=(w*pl+3)/4*4; header(f,w,h,bpp,true); vector<unsigned char> d(w*h*pl); for(int y=h-1;y>=0;y--) for(int i=0;i<pad;i++){ unsigned char c=sx_u8("px"); if(y==0&&i>=w*pl&&sx_param("nolast",0)) break; f.push_back(c); if(i<w*pl){ int x=i/pl,p=i%pl; if(pl>=3&&p<3) p=2-p; d[(y*w+x)*pl+p]=c; } } spill("t.bmp",f); sx_assert(ImageIoBmp::read("t.bmp",&out),"a well-formed file is read"); sameImage(out,w,h,pl,d,"every pixel is the one in the file"); }
 else if(op==2){ int n=sx_param("n",60), fix=sx_param("bpp",0); vector<unsigned char> f; for(int i=0;i<n;i++) f.push_back(sx_u8("b")); if(n>1&&sx_param("magic",1)){ f[0]='B'; f[1]='M'; } if(fix&&n>29){ f[28]=fix; f[29]=0; } spill("t.bmp",f); vector<unsigned char> old=bytesOf(out); int ow=out.width(),oh=out.height(),op_=out.planes(); bool r=ImageIoBmp::read("t.bmp",&out); if(!r) sameImage(out,ow,oh,op_,old,"a refused file leaves the image as it was"); else { sx_assert(n>=54,"a file without a complete header is refused"); sx_assert(out.width()==le(f,18,4)&&out.height()==le(f,22,4),"the size is the one in the header"); sx_assert(out.planes()*8==le(f,28,2),"the planes are the ones in the header"); int pad=(out.width()*out.planes()+3)/4*4; sx_assert(out.width()>0&&out.height()>0&&54+(out.planes()==1?1024:0)+pad*(out.height()-1)+out.width()*out.planes()<=n,"a file that lacks pixels is refused"); sx_reach("read"); } }
 else { vector<unsigned char> f; int bpp=8*pl,pad=(w*pl+3)/4*4; header(f,w,h,bpp,false); for(int y=0;y<h;y++) for(int i=0;i<pad;i++) f.push_back(sx_u8("px")); int full=(int)f.size()-(pad-w*pl); int cut=sx_concretize(sx_int("cut",pl==1?1070:0,full-1)); f.resize(cut); spill("t.bmp",f); vector<unsigned char> old=bytesOf(out); int ow=out.width(),oh=out.height(),op_=out.planes(); sx_assert(!ImageIoBmp::read("t.bmp",&out),"a truncated file is refused"); sameImage(out,ow,oh,op_,old,"a refused file leaves the image as it was"); sx_assert(!ImageIoBmp::read("nothere.bmp",&out),"a missing file is refused"); }
 sx_reach("end");
}
