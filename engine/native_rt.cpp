// native side of symx.h: replays one solver model against the real code
#include "symx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <string>
#include <fstream>
#include <unistd.h>
#include <signal.h>
static std::map<std::string,double> g_in;
static std::map<std::string,int> g_par;
static std::map<std::string,int> g_cnt;
static bool g_loaded=false, g_missing=false;
static void load(){ if(g_loaded) return; g_loaded=true; const char* f=getenv("SX_INPUT"); if(!f) return; FILE* h=fopen(f,"r"); if(!h) return; char k[16],n[512]; char v[4096];
 while(fscanf(h,"%15s %511s %4095s",k,n,v)==3){ if(k[0]=='P') g_par[n]=atoi(v); else g_in[n]=strtod(v,nullptr);} fclose(h);}
static double get(const char* name,double def){ load(); std::string s=std::string(name)+"#"+std::to_string(g_cnt[name]++); auto it=g_in.find(s); if(it==g_in.end()){ g_missing=true; return def;} return it->second; }
static double clampd(double v,double lo,double hi){ return v<lo?lo:(v>hi?hi:v); }
[[noreturn]] static void fin(int c){ fflush(stdout); fflush(stderr); _exit(c); }
extern "C" {
int sx_int(const char* n,int lo,int hi){ return (int)clampd(get(n,lo),lo,hi); }
unsigned char sx_u8(const char* n){ return (unsigned char)(int)get(n,0); }
double sx_real(const char* n,double lo,double hi){ return clampd(get(n,(lo<=0&&hi>=0)?0.:lo),lo,hi); }
void sx_assume(bool c){ if(!c){ printf("SX-ASSUME-FAILED\n"); fin(0);} }
void sx_assert(bool c,const char* m){ if(!c){ printf("SX-VIOLATED %s\n",m); fin(7);} }
void sx_close(double a,double b,double tol,const char* m){ if(!(std::fabs(a-b)<=tol)){ printf("SX-VIOLATED %s (got %.17g, expected %.17g, tolerance %g)\n",m,a,b,tol); fin(7);} }
int sx_param(const char* n,int def){ load(); auto it=g_par.find(n); return it==g_par.end()?def:it->second; }
void sx_reach(const char* l){ printf("SX-REACH %s\n",l); }
int sx_concretize(int v){ return v; }
void sx_observe(const char* n,double v){ printf("SX-OBS %s %.17g\n",n,v); }
bool sx_native(){ return true; }
int sx_text_precision(){ return 1000; }
}
void sx_entry();
#ifdef SX_FILL
#include <new>
static unsigned char fillb(){ static int f=-1; if(f<0){ const char*e=getenv("SX_FILLBYTE"); f=e?atoi(e):0xAA;} return (unsigned char)f; }
void* operator new(size_t n){ void*p=malloc(n?n:1); if(!p) abort(); memset(p,fillb(),n); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p) noexcept { free(p); }
void operator delete[](void*p) noexcept { free(p); }
void operator delete(void*p,size_t) noexcept { free(p); }
void operator delete[](void*p,size_t) noexcept { free(p); }
#endif
static void onalarm(int){ static const char m[]="SX-TIMEOUT the run does not terminate\n"; (void)!write(1,m,sizeof m-1); _exit(8); }
int main(int argc,char**argv){ signal(SIGALRM,onalarm); alarm(argc>1?atoi(argv[1]):60); sx_entry(); printf("SX-DONE\n"); fin(0); }
