// STEP writer: the text parses as an exchange file whose instances are unique and resolved, and every surface can be read back from it.
// surfaces are given as digits of seq (last digit first): 1 = (du,dv,pu,pv) from the parameters, 2 = a plain bilinear patch, 3 = a solid of two patches
#include "hcommon.h"
#include "NurbsSurface.h"
#include "NurbsSolid.h"
#include "StepFile.h"
#include <fstream>
#include <sstream>
#include <map>
extern "C" int sx_text_precision();
struct Val{ char k='?'; double n=0; int ref=0; string s; vector<Val> l; };   // k: # ref, ( list, ' string, . enum, K keyword with list, n number, $ omitted
static Val parseVal(std::istream& f,int depth=0){ Val v; char c; if(!(f>>c)){ sx_assert(false,"value expected"); return v; } sx_assert(depth<8,"nesting");
 if(c=='#'){ v.k='#'; f>>v.ref; sx_assert(!f.fail(),"reference number"); }
 else if(c=='('){ v.k='('; char d=' '; if(f>>d){ if(d!=')'){ bool more=true; while(more){ f.seekg((long)f.tellg()-1); v.l.push_back(parseVal(f,depth+1)); if(!(f>>d)){ sx_assert(false,"unterminated list"); return v; } if(d==')') more=false; else if(d==','){ if(!(f>>d)) { sx_assert(false,"unterminated list"); return v; } } else { sx_assert(v.l.back().k=='K',"comma expected in list"); } } } } else sx_assert(false,"unterminated list"); }
 else if(c=='\''){ v.k='\''; int d; while((d=f.get())>=0&&d!='\'') v.s.push_back((char)d); sx_assert(d=='\'',"unterminated string"); }
 else if(c=='.'){ v.k='.'; int d; while((d=f.get())>=0&&d!='.') v.s.push_back((char)d); sx_assert(d=='.',"unterminated enumeration"); }
 else if(c=='$'||c=='*') v.k='$';
 else if((c>='A'&&c<='Z')||c=='_'){ v.k='K'; v.s.push_back(c); int d; while((d=f.peek())>=0&&((d>='A'&&d<='Z')||(d>='0'&&d<='9')||d=='_')) v.s.push_back((char)f.get()); Val a=parseVal(f,depth+1); sx_assert(a.k=='(',"keyword without arguments"); v.l=a.l; }
 else { f.seekg((long)f.tellg()-1); v.k='n'; f>>v.n; sx_assert(!f.fail(),"number"); if(f.eof()) f.clear(); }
 return v; }
struct Surf{ int du,dv,nu,nv; vector<double> U,V,W; vector<Point3> P; bool cu,cv; };
static Surf make(NurbsSurface&s,int du,int dv,int pu,int pv,int mode,bool flags){ Surf r; r.du=du; r.dv=dv; r.U=clampedKnots(du,pu,mode); r.V=clampedKnots(dv,pv,mode); r.nu=(int)r.U.size()-du-1; r.nv=(int)r.V.size()-dv-1; r.P=symPoints("P",r.nu*r.nv,4.); r.W=symWeights("w",r.nu*r.nv,true); r.cu=flags&&sx_concretize(sx_int("cu",0,1)); r.cv=flags&&sx_concretize(sx_int("cv",0,1));
 s.set_degree(du,dv); s.set_points(r.P,r.nu,r.nv); s.set_knots_u(r.U); s.set_knots_v(r.V); s.set_weights(r.W); s.set_closed_u(r.cu); s.set_closed_v(r.cv); return r; }
typedef std::map<int,Val> Tab;
static const Val& get(const Tab&t,int id,const char*kw){ static Val none; auto i=t.find(id); sx_assert(i!=t.end(),"reference resolves"); if(i==t.end()) return none; const Val&v=i->second; sx_assert(v.k=='K'&&v.s==kw,kw); return v; }
static void refs(const Tab&t,const Val&v){ if(v.k=='#') sx_assert(t.count(v.ref)==1,"every reference resolves"); for(auto&x:v.l) refs(t,x); }
static const Val* part(const Val&c,const char*kw){ for(auto&x:c.l) if(x.k=='K'&&x.s==kw) return &x; sx_assert(false,kw); return nullptr; }
static int num(const Val&v){ sx_assert(v.k=='n',"number expected"); return (int)v.n; }
void sx_entry(){
 int seq=sx_param("seq",1), how=sx_param("how",0); vector<Surf> S; { StepWriter w; if(how==2){ w.open("s.stp"); NurbsSurface t; make(t,1,1,0,0,0,false); w.write(t); w.close(); sx_assert(!w.is_open(),"closed"); } w.open("s.stp"); sx_assert(w.is_open(),"opens");
 for(;seq;seq/=10){ NurbsSurface a,b; int k=seq%10; if(k==1){ S.push_back(make(a,sx_param("du",2),sx_param("dv",1),sx_param("pu",0),sx_param("pv",0),sx_param("mode",0),true)); w.write(a); } else if(k==2){ S.push_back(make(a,1,1,0,0,0,false)); w.write(a); } else { S.push_back(make(a,1,2,0,0,0,false)); S.push_back(make(b,2,1,1,0,0,false)); NurbsSolid n; n.add_surface(a); n.add_surface(b); w.write(n); } }
 if(how==0) w.close(); }
 string text,l; std::ifstream f("s.stp"); sx_assert(!f.fail(),"file exists"); vector<string> L; while(getline(f,l)){ L.push_back(l); text+=l+"\n"; }
 // sections
 size_t d=text.find("\nDATA;"), h=text.find("HEADER;"), e1=text.find("ENDSEC;"), e2=text.rfind("ENDSEC;"), e3=text.find("END-ISO-10303-21;"); sx_assert(text.find("ISO-10303-21;")==0&&h!=string::npos&&d!=string::npos&&h<e1&&e1<d&&d<e2&&e3!=string::npos&&e2<e3&&text.find("ISO-10303-21;",e3+17)==string::npos,"sections of an exchange file, once and in order");
 Tab T; vector<int> order; std::stringstream ss(text.substr(d+6,e2-d-6)); char c; while(ss>>c){ sx_assert(c=='#',"instance starts with #"); if(c!='#') return; int id=0; ss>>id; sx_assert(!ss.fail()&&(ss>>c)&&c=='=',"instance name"); Val v=parseVal(ss); sx_assert((ss>>c)&&c==';',"instance ends with a semicolon"); sx_assert(T.count(id)==0,"instance numbers are unique"); T[id]=v; order.push_back(id); }
 for(auto&x:T) refs(T,x.second);
 size_t k=0; for(int id:order){ const Val&r=T[id]; if(!(r.k=='K'&&r.s=="SHAPE_REPRESENTATION_RELATIONSHIP")) continue; sx_assert(k<S.size(),"one shape per surface"); if(k>=S.size()) return; const Surf&s=S[k++]; sx_assert(r.l.size()==4&&r.l[2].k=='#'&&r.l[3].k=='#',"relationship"); get(T,r.l[2].ref,"SHAPE_REPRESENTATION"); const Val&ab=get(T,r.l[3].ref,"ADVANCED_BREP_SHAPE_REPRESENTATION"); sx_assert(ab.l.size()==3&&ab.l[1].l.size()==1,"representation items"); const Val&br=get(T,ab.l[1].l[0].ref,"MANIFOLD_SOLID_BREP"); const Val&sh=get(T,br.l[1].ref,"CLOSED_SHELL"); sx_assert(sh.l[1].l.size()==1,"one face"); const Val&fa=get(T,sh.l[1].l[0].ref,"ADVANCED_FACE"); sx_assert(fa.l.size()==4&&fa.l[2].k=='#',"face"); const Val&cx=T[fa.l[2].ref]; sx_assert(cx.k=='(',"surface is a complex instance");
  const Val*b=part(cx,"B_SPLINE_SURFACE"),*n=part(cx,"B_SPLINE_SURFACE_WITH_KNOTS"),*w=part(cx,"RATIONAL_B_SPLINE_SURFACE"); if(!b||!n||!w) return; sx_assert(b->l.size()==7&&n->l.size()==5&&w->l.size()==1,"attribute counts");
  sx_assert(num(b->l[0])==s.du&&num(b->l[1])==s.dv,"degrees"); sx_assert(b->l[4].s==(s.cu?"T":"F")&&b->l[5].s==(s.cv?"T":"F"),"closed flags");
  sx_assert((int)b->l[2].l.size()==s.nu&&(int)w->l[0].l.size()==s.nu,"outer list runs along u"); for(int i=0;i<s.nu;i++){ const Val&row=b->l[2].l[i],&wr=w->l[0].l[i]; sx_assert((int)row.l.size()==s.nv&&(int)wr.l.size()==s.nv,"inner list runs along v"); for(int j=0;j<s.nv;j++){ const Val&p=get(T,row.l[j].ref,"CARTESIAN_POINT"); sx_assert(p.l.size()==2&&p.l[1].l.size()==3,"three coordinates"); closeP(Point3(p.l[1].l[0].n,p.l[1].l[1].n,p.l[1].l[2].n),s.P[i+s.nu*j],1e-4,"control point"); sx_close(wr.l[j].n,s.W[i+s.nu*j],1e-4,"weight"); } }
  for(int q=0;q<2;q++){ const vector<double>&K=q?s.V:s.U; const Val&m=n->l[q],&v=n->l[2+q]; sx_assert(m.l.size()==v.l.size()&&m.l.size()>=2,"as many multiplicities as knots"); vector<double> x; for(size_t i=0;i<m.l.size();i++){ int z=num(m.l[i]); if(i){ bool inc=v.l[i].n>v.l[i-1].n; sx_assert(inc,"knot values increase strictly"); } for(int y=0;y<z;y++) x.push_back(v.l[i].n); } sx_assert(x.size()==K.size(),"multiplicities add up to points + degree + 1"); for(size_t i=0;i<K.size();i++) sx_close(x[i],K[i],2e-6,"knots"); } }
 sx_assert(k==S.size(),"every surface is written"); sx_assert(sx_text_precision()>=6,"numbers are written with at least 6 digits");
 sx_reach("end");
}
