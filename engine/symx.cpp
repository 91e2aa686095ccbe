// symx: a symbolic executor for LLVM IR (LLVM 18 API) deciding assertions with Z3.
// Floating point is interpreted either over the reals (symbolic values; exact rationals for constants)
// or, for concrete values, in IEEE arithmetic (--ieee).  Integers are bit-vectors.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/CFG.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <gmpxx.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <string>
#include <vector>
#include <algorithm>
#include <chrono>
#include <functional>
#include <fstream>
#include <sstream>
#include <stdexcept>
#include <atomic>
#include <thread>
using namespace llvm;
using std::string; using std::vector;
typedef std::chrono::steady_clock Clk;
static double since(Clk::time_point t){ return std::chrono::duration<double>(Clk::now()-t).count(); }
static Clk::time_point T0;

// ---------------------------------------------------------------- options / statistics
static bool OPT_FLT=false; static bool OPT_IEEE=false, OPT_FORKSEL=true, OPT_VERBOSE=false, OPT_CASTCHECK=false, OPT_DETECT_DIV0=true, OPT_EAGER=false, OPT_OVER=false; static std::map<string,uint64_t> OVERBR;
static double OPT_TIME=600, OPT_AFTER=8; static unsigned OPT_QT=15000; static uint64_t OPT_ILIMIT=200000000ull; static unsigned OPT_MAXPATHS=1000000, OPT_MAXCAND=4, OPT_ENUM=600;
static std::map<string,int> PARAMS;
static string OUTP="result", FIXEDIN;
static std::map<string,double> FIXED;  // concrete inputs (engine-vs-native cross check)
static bool HAVE_FIXED=false;

struct Stats { uint64_t insts=0, paths=0, forks=0; uint64_t q_sat=0,q_unsat=0,q_unk=0,q_triv=0,q_quick=0; double solver_s=0; double max_q=0; } ST;
struct AssertStat { uint64_t discharged=0, trivial=0, violated=0, unknown=0; };
static std::map<string,AssertStat> ASSERTS;
static std::map<string,uint64_t> REACH, KILLED, EXCLUDED;
static std::set<string> FUNCS;
static std::set<string> UNSUPPORTED;
static bool INCOMPLETE=false; static std::map<string,uint64_t> INCOMPLETE_WHY;
static void incomplete(const string&w){ INCOMPLETE=true; INCOMPLETE_WHY[w]++; }

// ---------------------------------------------------------------- z3
static Z3_context Z; static Z3_sort S_REAL,S_BOOL,S_INT; static Z3_ast A_TRUE,A_FALSE,R_ZERO,R_ONE;
static string z3err;
static void z3handler(Z3_context, Z3_error_code e){ z3err=Z3_get_error_msg(Z,e); throw std::runtime_error("z3: "+z3err); }
static Z3_sort bvs(unsigned b){ static Z3_sort c[257]; if(!c[b]) c[b]=Z3_mk_bv_sort(Z,b); return c[b]; }
static bool isNum(Z3_ast a){ return Z3_get_ast_kind(Z,a)==Z3_NUMERAL_AST; }
static unsigned aid(Z3_ast a){ return Z3_get_ast_id(Z,a); }
static Z3_ast simp(Z3_ast a){ return Z3_simplify(Z,a); }
static Z3_params P_SOM, P_EMPTY;
static std::atomic<double> DEADLINE{0}; // seconds since T0; 0 = none
[[noreturn]] static void hardStop();
static void startWatchdog(){ std::thread([]{ while(true){ std::this_thread::sleep_for(std::chrono::milliseconds(100)); if(since(T0)>OPT_TIME+15) hardStop(); double d=DEADLINE.load(); if(d>0&&since(T0)>d){ Z3_interrupt(Z); } } }).detach(); }
struct Guard{ double old; Guard(double sec){ old=DEADLINE.load(); double n=since(T0)+sec; if(old==0||n<old) DEADLINE=n; } ~Guard(){ DEADLINE=old; } };
static Z3_ast simpSom(Z3_ast a){ return Z3_simplify_ex(Z,a,P_SOM); }
static Z3_ast zadd(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_add(Z,2,x);} 
static Z3_ast zsub(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_sub(Z,2,x);} 
static Z3_ast zmul(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_mul(Z,2,x);} 
static Z3_ast zand(Z3_ast a,Z3_ast b){ if(a==A_TRUE)return b; if(b==A_TRUE)return a; Z3_ast x[2]={a,b}; return Z3_mk_and(Z,2,x);} 
static Z3_ast zor(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(Z,2,x);} 
static Z3_ast znot(Z3_ast a){ if(a==A_TRUE) return A_FALSE; if(a==A_FALSE) return A_TRUE; return Z3_mk_not(Z,a);} 
static std::map<uint64_t,Z3_ast> dblCache;
static string pow2str(int e){ string s="1"; for(int i=0;i<e;i++){ int c=0; for(int j=(int)s.size()-1;j>=0;j--){ int d=(s[j]-'0')*2+c; s[j]='0'+d%10; c=d/10;} if(c) s.insert(s.begin(),'0'+c);} return s; }
static Z3_ast snapReal(double d);
static Z3_ast realOf(double d){ uint64_t k; memcpy(&k,&d,8); auto it=dblCache.find(k); if(it!=dblCache.end()) return it->second;
  if(Z3_ast sn=snapReal(d)){ dblCache[k]=sn; return sn; }
  int e; double m=frexp(d,&e); int64_t mi=(int64_t)ldexp(m,53); e-=53; if(mi==0) return R_ZERO; while(!(mi&1)){mi/=2;e++;}
  Z3_ast r; if(e>=0&&e<10&&std::llabs(mi)<(1ll<<50)) r=Z3_mk_real_int64(Z,mi<<e,1); else if(e<0&&e>-62) r=Z3_mk_real_int64(Z,mi,1ll<<(-e));
  else { Z3_ast p=Z3_mk_numeral(Z,pow2str(e<0?-e:e).c_str(),S_REAL); Z3_ast mm=Z3_mk_real_int64(Z,mi,1); r= e<0? simp(Z3_mk_div(Z,mm,p)):simp(zmul(mm,p)); }
  dblCache[k]=r; return r; }
// variables
struct VarInfo{ string name; Z3_ast ast; int kind; /*0 real 1 int 2 aux*/ double lo,hi; unsigned bits; };
static vector<VarInfo> VARS; static std::unordered_map<unsigned,int> varOf; // ast id -> var
static std::unordered_map<unsigned,vector<int>> varsMemo;
static const vector<int>& varsOf(Z3_ast a){ unsigned id=aid(a); auto it=varsMemo.find(id); if(it!=varsMemo.end()) return it->second;
  // iterative post-order
  vector<Z3_ast> st{a}; while(!st.empty()){ Z3_ast x=st.back(); unsigned xi=aid(x); if(varsMemo.count(xi)){st.pop_back();continue;}
    if(Z3_get_ast_kind(Z,x)!=Z3_APP_AST){ varsMemo[xi]={}; st.pop_back(); continue; }
    Z3_app ap=Z3_to_app(Z,x); unsigned n=Z3_get_app_num_args(Z,ap); auto v=varOf.find(xi); if(v!=varOf.end()){ varsMemo[xi]={v->second}; st.pop_back(); continue; }
    bool ok=true; for(unsigned i=0;i<n;i++){ Z3_ast c=Z3_get_app_arg(Z,ap,i); if(!varsMemo.count(aid(c))){ st.push_back(c); ok=false; } }
    if(!ok) continue; vector<int> r; for(unsigned i=0;i<n;i++){ auto&m=varsMemo[aid(Z3_get_app_arg(Z,ap,i))]; vector<int> t; std::set_union(r.begin(),r.end(),m.begin(),m.end(),std::back_inserter(t)); r.swap(t);} varsMemo[xi]=r; st.pop_back(); }
  return varsMemo[id]; }

// ---------------------------------------------------------------- real constants
// A double constant that is the correctly rounded value of a simple rational (1/3, 1e-6) or of a rational multiple of a square
// root of a small integer (1/sqrt(2)) stands for that number: the real-arithmetic reading of the program.
typedef vector<std::pair<int,int>> Mono;
typedef std::map<Mono,mpq_class> Poly;
struct PolyFail{ bool big; PolyFail(bool b=false):big(b){} };
static std::map<int,Poly> REL;       // var -> polynomial equal to its square
static std::set<unsigned> AXIOM;     // defining constraints of auxiliary variables: passed to the solver as they are
static std::map<int,long> ALGN;      // var -> n for the constant sqrt(n)
static const Poly& polyOf(Z3_ast a);
static Z3_ast mpqAst(const mpq_class&q){ return Z3_mk_numeral(Z,q.get_str().c_str(),S_REAL); }
static bool simplest(const mpq_class&lo,const mpq_class&hi,mpq_class&out){ // simplest rational in [lo,hi], 0<lo<hi
  vector<mpz_class> cf; mpq_class a=lo,b=hi; for(int i=0;i<60;i++){ mpz_class fa; mpz_fdiv_q(fa.get_mpz_t(),a.get_num_mpz_t(),a.get_den_mpz_t()); if(mpq_class(fa)==a){ cf.push_back(fa); break; } mpz_class fb; mpz_fdiv_q(fb.get_mpz_t(),b.get_num_mpz_t(),b.get_den_mpz_t()); if(fa<fb){ cf.push_back(fa+1); break; } cf.push_back(fa); mpq_class na=1/(b-fa),nb=1/(a-fa); a=na; b=nb; }
  mpq_class r(cf.back()); for(int i=(int)cf.size()-2;i>=0;i--) r=mpq_class(cf[i])+1/r; out=r; return true; }
static bool snapRat(double d,mpq_class&r){ double ad=std::fabs(d); if(ad==0||ad>1e15||ad<1e-18) return false; mpq_class x(ad),u(nextafter(ad,INFINITY)),l(nextafter(ad,0)); mpq_class lo=(x+l)/2,hi=(x+u)/2; simplest(lo,hi,r); mpz_class w=r.get_num()*r.get_den(); if(w>mpz_class("20000000000")) return false; if(d<0) r=-r; return true; }
static Z3_ast algVar(long n);
static bool algForm(double d,mpq_class&c,long&n){ double q=d*d; mpq_class r; double e=q*4e-16; mpq_class lo(q-e),hi(q+e); simplest(lo,hi,r); mpz_class m=r.get_num()*r.get_den(); if(m>20000||r.get_den()>400) return false; long M=m.get_si(); long k=1; n=M; for(long p=2;p*p<=n;p++) while(n%(p*p)==0){ n/=p*p; k*=p; } if(n==1) return false; c=mpq_class(k)/r.get_den(); c.canonicalize(); double back=c.get_d()*std::sqrt((double)n); if(std::fabs(back-std::fabs(d))>3e-16*std::fabs(d)) return false; if(d<0) c=-c; return true; }
static Z3_ast snapReal(double d){ if(OPT_IEEE||d==0||!std::isfinite(d)) return nullptr; double w=d*1048576.; if(std::floor(w)==w&&std::fabs(w)<1e15) return nullptr; mpq_class r; if(snapRat(d,r)) return mpqAst(r); long n; if(std::fabs(d)<1e4&&std::fabs(d)>1e-4&&algForm(d,r,n)) return simp(zmul(mpqAst(r),algVar(n))); return nullptr; }
static Z3_ast algVar(long n){ static std::map<long,Z3_ast> c; auto it=c.find(n); if(it!=c.end()) return it->second; string nm="sqrt("+std::to_string(n)+")"; Z3_ast a=Z3_mk_const(Z,Z3_mk_string_symbol(Z,nm.c_str()),S_REAL); int id=VARS.size(); VARS.push_back({nm,a,2,0,0,64}); varOf[aid(a)]=id; Poly p; p[Mono()]=mpq_class(n); REL[id]=p; ALGN[id]=n; c[n]=a; return a; }
static void pAdd(Poly&a,const Poly&b,const mpq_class&k){ for(auto&t:b){ auto it=a.find(t.first); if(it==a.end()){ mpq_class v=t.second*k; if(v!=0) a.emplace(t.first,v); } else { it->second+=t.second*k; if(it->second==0) a.erase(it); } } }
static const size_t PLIM=30000; static double PDEADLINE=0;
static Poly pMul(const Poly&a,const Poly&b){ if(PDEADLINE>0&&since(T0)>PDEADLINE) throw PolyFail(true); if(a.size()*b.size()>4000000) throw PolyFail(true); Poly r; vector<std::pair<Mono,mpq_class>> red; for(auto&x:a) for(auto&y:b){ Mono m; m.reserve(x.first.size()+y.first.size()); size_t i=0,j=0; bool need=false; while(i<x.first.size()||j<y.first.size()){ if(j>=y.first.size()||(i<x.first.size()&&x.first[i].first<y.first[j].first)) m.push_back(x.first[i++]); else if(i>=x.first.size()||y.first[j].first<x.first[i].first) m.push_back(y.first[j++]); else { m.push_back({x.first[i].first,x.first[i].second+y.first[j].second}); i++; j++; } if(m.back().second>1&&REL.count(m.back().first)) need=true; }
    mpq_class c=x.second*y.second; if(!need){ auto&q=r[m]; q+=c; if(q==0) r.erase(m); } else red.push_back({m,c}); if(r.size()>PLIM) throw PolyFail(true); }
  for(auto&t:red){ Poly f; Mono rest; Poly acc; acc[Mono()]=t.second; vector<std::pair<int,int>> rel; for(auto&p:t.first){ auto it=REL.find(p.first); if(it!=REL.end()&&p.second>1){ rel.push_back(p); if(p.second&1) rest.push_back({p.first,1}); } else rest.push_back(p); } Poly base; base[rest]=t.second; for(auto&p:rel){ const Poly q=REL[p.first]; for(int k=0;k<p.second/2;k++) base=pMul(base,q); } pAdd(r,base,1); if(r.size()>PLIM) throw PolyFail(true); }
  return r; }
static std::unordered_map<unsigned,std::shared_ptr<Poly>> polyMemo; static std::set<unsigned> polyBig;
static const Poly& polyOf(Z3_ast a){ unsigned id=aid(a); auto it=polyMemo.find(id); if(it!=polyMemo.end()){ if(!it->second) throw PolyFail(polyBig.count(id)>0); return *it->second; } auto P=std::make_shared<Poly>();
  try{ if(isNum(a)){ mpq_class q(Z3_get_numeral_string(Z,a)); if(q!=0) (*P)[Mono()]=q; }
  else if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) throw PolyFail();
  else { auto v=varOf.find(id); if(v!=varOf.end()){ if(VARS[v->second].kind==1) throw PolyFail(); (*P)[Mono{{v->second,1}}]=1; }
    else { Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap); auto A=[&](unsigned i){ return Z3_get_app_arg(Z,ap,i); };
      if(k==Z3_OP_ADD||k==Z3_OP_SUB){ *P=polyOf(A(0)); for(unsigned i=1;i<n;i++) pAdd(*P,polyOf(A(i)),k==Z3_OP_ADD?1:-1); if(P->size()>PLIM) throw PolyFail(true); }
      else if(k==Z3_OP_UMINUS) pAdd(*P,polyOf(A(0)),-1);
      else if(k==Z3_OP_MUL){ *P=polyOf(A(0)); for(unsigned i=1;i<n;i++) *P=pMul(*P,polyOf(A(i))); }
      else if(k==Z3_OP_DIV&&n==2&&isNum(A(1))){ mpq_class q(Z3_get_numeral_string(Z,A(1))); if(q==0) throw PolyFail(); pAdd(*P,polyOf(A(0)),1/q); }
      else if(k==Z3_OP_POWER&&isNum(A(1))){ int e=atoi(Z3_get_numeral_string(Z,A(1))); if(e<0||e>16) throw PolyFail(); (*P)[Mono()]=1; for(int i=0;i<e;i++) *P=pMul(*P,polyOf(A(0))); }
      else throw PolyFail(); } } }
  catch(PolyFail&f){ if(!(PDEADLINE>0&&since(T0)>PDEADLINE)){ polyMemo[id]=nullptr; if(f.big) polyBig.insert(id); } throw; }
  polyMemo[id]=P; return *P; }
static Z3_ast polyAst(const Poly&p){ if(p.empty()) return R_ZERO; vector<Z3_ast> ts; for(auto&t:p){ vector<Z3_ast> f; if(t.second!=1||t.first.empty()) f.push_back(mpqAst(t.second)); for(auto&x:t.first) for(int i=0;i<x.second;i++) f.push_back(VARS[x.first].ast); ts.push_back(f.size()==1?f[0]:Z3_mk_mul(Z,f.size(),f.data())); } return ts.size()==1?ts[0]:Z3_mk_add(Z,ts.size(),ts.data()); }
// decide (or normalise) the comparison  l k 0 ; k is EQ, LT or LE
// terms that are non-negative as they were built (squares and sums of them), and their expanded polynomials
static std::map<string,bool> NNPOLY; static std::unordered_map<unsigned,bool> nnMemo;
static string polyKey(const Poly&p,int sg){ mpq_class c=abs(p.rbegin()->second)*sg; string k; for(auto&t:p){ for(auto&x:t.first) k+=std::to_string(x.first)+"^"+std::to_string(x.second)+"."; mpq_class q=t.second/c; k+=":"+q.get_str()+";"; } return k; }
static bool isNN(Z3_ast a);
static std::set<int> SQV; // variables that are non-negative square roots (REL gives the square)
static Z3_ast canonPoly(Z3_decl_kind k,Poly p);
static Z3_ast canonCmp(Z3_decl_kind k,Z3_ast l){ return canonPoly(k,polyOf(l)); }
// comparisons that are linear in one root, or in two roots without a constant: compare the squares instead
static bool rootCmp(Z3_decl_kind k,const Poly&p,Z3_ast&out){ int r1=-1,r2=-1; mpq_class c1=0,c2=0,c0=0; for(auto&t:p){ if(t.first.empty()){ c0=t.second; continue; } if(t.first.size()!=1||t.first[0].second!=1||!SQV.count(t.first[0].first)) return false; if(r1<0){ r1=t.first[0].first; c1=t.second; } else if(r2<0){ r2=t.first[0].first; c2=t.second; } else return false; }
 if(r1<0) return false; bool eq=k==Z3_OP_EQ, lt=k==Z3_OP_LT;
 if(r2>=0){ if(c0!=0) return false; if(sgn(c1)==sgn(c2)){ // both zero, or a sign
   if(eq||(sgn(c1)>0&&!lt)){ Poly a=REL[r1]; pAdd(a,REL[r2],1); out=canonPoly(Z3_OP_EQ,a); return true; } if(sgn(c1)>0){ out=A_FALSE; return true; } if(!lt){ out=A_TRUE; return true; } Poly a; pAdd(a,REL[r1],-1); pAdd(a,REL[r2],-1); out=canonPoly(Z3_OP_LT,a); return true; }
  Poly a; pAdd(a,REL[r1],c1*c1*sgn(c1)); pAdd(a,REL[r2],c2*c2*sgn(c2)); out=canonPoly(k,a); return true; }
 mpq_class t=-c0/c1; Poly d=REL[r1]; Poly tt; tt[Mono()]=t*t; if(t!=0) pAdd(d,tt,-1); 
 if(eq){ out= t<0?A_FALSE:canonPoly(Z3_OP_EQ,d); return true; }
 if(c1>0){ out= lt? (t<=0?A_FALSE:canonPoly(Z3_OP_LT,d)) : (t<0?A_FALSE:canonPoly(Z3_OP_LE,d)); return true; }
 Poly nd; pAdd(nd,d,-1); out= lt? (t<0?A_TRUE:canonPoly(Z3_OP_LT,nd)) : (t<=0?A_TRUE:canonPoly(Z3_OP_LE,nd)); return true; }
static bool isNN(Z3_ast a){ auto it=nnMemo.find(aid(a)); if(it!=nnMemo.end()) return it->second; bool r=false;
 if(isNum(a)){ mpq_class q(Z3_get_numeral_string(Z,a)); r=sgn(q)>=0; }
 else if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ auto v=varOf.find(aid(a)); if(v!=varOf.end()) r=SQV.count(v->second)||ALGN.count(v->second)||(VARS[v->second].kind==0&&VARS[v->second].lo>=0&&VARS[v->second].hi>=VARS[v->second].lo);
  else { Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
   if(k==Z3_OP_ADD||k==Z3_OP_DIV){ r=true; for(unsigned i=0;i<n&&r;i++) r=isNN(Z3_get_app_arg(Z,ap,i)); }
   else if(k==Z3_OP_MUL){ std::map<unsigned,std::pair<Z3_ast,int>> m; for(unsigned i=0;i<n;i++){ Z3_ast x=Z3_get_app_arg(Z,ap,i); auto&q=m[aid(x)]; q.first=x; q.second++; } r=true; for(auto&x:m) if((x.second.second&1)&&!isNN(x.second.first)) r=false; }
   else if(k==Z3_OP_POWER&&n==2&&isNum(Z3_get_app_arg(Z,ap,1))) r=!(atoi(Z3_get_numeral_string(Z,Z3_get_app_arg(Z,ap,1)))&1); } }
 nnMemo[aid(a)]=r; return r; }
static void noteNN(Z3_ast a){ if(isNum(a)||!isNN(a)) return; try{ const Poly&p=polyOf(a); if(p.size()>1) NNPOLY[polyKey(p,1)]=true; }catch(PolyFail&){} }
static Z3_ast canonPoly(Z3_decl_kind k,Poly p){ if(p.empty()) return k==Z3_OP_LT?A_FALSE:A_TRUE; { Z3_ast o; if(rootCmp(k,p,o)) return o; }
  if(!NNPOLY.empty()&&k!=Z3_OP_EQ&&p.size()>1&&p.size()<400){ if(k==Z3_OP_LT&&NNPOLY.count(polyKey(p,1))) return A_FALSE; if(k==Z3_OP_LE&&NNPOLY.count(polyKey(p,-1))) return A_TRUE; if(k==Z3_OP_LE&&NNPOLY.count(polyKey(p,1))) return canonPoly(Z3_OP_EQ,p); } bool alg=true; for(auto&t:p) for(auto&x:t.first) if(!ALGN.count(x.first)) alg=false;
  if(alg){ mpf_class v(0,300); for(auto&t:p){ mpf_class c(t.second,300); for(auto&x:t.first) for(int i=0;i<x.second;i++) c*=sqrt(mpf_class(ALGN[x.first],300)); v+=c; } int sg= abs(v)<mpf_class(1e-40)?0:sgn(v); bool r= k==Z3_OP_EQ?sg==0:k==Z3_OP_LT?sg<0:sg<=0; return r?A_TRUE:A_FALSE; }
  mpq_class c=abs(p.rbegin()->second); if(k==Z3_OP_EQ&&sgn(p.rbegin()->second)<0) c=-c; for(auto&t:p) t.second/=c; Z3_ast x=polyAst(p);
  // keep the constant on the right
  Poly q=p; mpq_class c0=0; auto it=q.find(Mono()); if(it!=q.end()){ c0=-it->second; q.erase(it); } x=polyAst(q); Z3_ast r0=mpqAst(c0); return k==Z3_OP_EQ?Z3_mk_eq(Z,x,r0):k==Z3_OP_LT?znot(Z3_mk_ge(Z,x,r0)):Z3_mk_le(Z,x,r0); }
// numerator / denominator form of a real term; denominators are kept factored so that sums use the least common multiple
typedef vector<std::pair<Z3_ast,int>> Fac;
struct ND{ Z3_ast n; Fac d; }; static std::unordered_map<unsigned,ND> ndMemo;
static Z3_ast atomND(Z3_ast a);
static Z3_ast facMul(const Fac&f,bool oddOnly=false){ Z3_ast r=R_ONE; for(auto&p:f){ int k=oddOnly?(p.second&1):p.second; for(int i=0;i<k;i++) r= r==R_ONE?p.first:zmul(r,p.first); } return r; }
static Fac facAdd(const Fac&a,const Fac&b){ std::map<unsigned,std::pair<Z3_ast,int>> m; for(auto&p:a) m[aid(p.first)]=p; for(auto&p:b){ auto&q=m[aid(p.first)]; if(q.second) q.second+=p.second; else q=p; } Fac r; for(auto&x:m) r.push_back(x.second); return r; }
static Fac facLcm(const Fac&a,const Fac&b){ std::map<unsigned,std::pair<Z3_ast,int>> m; for(auto&p:a) m[aid(p.first)]=p; for(auto&p:b){ auto&q=m[aid(p.first)]; if(q.second) q.second=std::max(q.second,p.second); else q=p; } Fac r; for(auto&x:m) r.push_back(x.second); return r; }
static Fac facSub(const Fac&a,const Fac&b){ std::map<unsigned,std::pair<Z3_ast,int>> m; for(auto&p:a) m[aid(p.first)]=p; for(auto&p:b) m[aid(p.first)].second-=p.second; Fac r; for(auto&x:m) if(x.second.second>0) r.push_back(x.second); return r; }
static Z3_ast mulR(Z3_ast a,Z3_ast b){ return a==R_ONE?b:(b==R_ONE?a:zmul(a,b)); }
static Z3_decl_kind kindOf(Z3_ast a){ return Z3_get_ast_kind(Z,a)==Z3_APP_AST?Z3_get_decl_kind(Z,Z3_get_app_decl(Z,Z3_to_app(Z,a))):Z3_OP_UNINTERPRETED; }
// split a polynomial into scalar * product of normalised factors
static void factorise(Z3_ast a,int e,Fac&out,Z3_ast*scalar){ Z3_ast s=simpSom(a); if(isNum(s)){ for(int i=0;i<e;i++) *scalar=simp(zmul(*scalar,s)); return; }
  if(Z3_get_ast_kind(Z,a)==Z3_APP_AST&&kindOf(a)==Z3_OP_MUL){ Z3_app ap=Z3_to_app(Z,a); for(unsigned i=0;i<Z3_get_app_num_args(Z,ap);i++) factorise(Z3_get_app_arg(Z,ap,i),e,out,scalar); return; }
  Z3_ast m=s; if(kindOf(s)==Z3_OP_ADD){ Z3_app ap=Z3_to_app(Z,s); m=Z3_get_app_arg(Z,ap,0); if(isNum(m)) m=Z3_get_app_arg(Z,ap,1); } Z3_ast c=R_ONE; if(kindOf(m)==Z3_OP_MUL){ Z3_ast f=Z3_get_app_arg(Z,Z3_to_app(Z,m),0); if(isNum(f)) c=f; } 
  if(c!=R_ONE&&simp(Z3_mk_eq(Z,c,R_ONE))!=A_TRUE){ s=simpSom(Z3_mk_div(Z,s,c)); for(int i=0;i<e;i++) *scalar=simp(zmul(*scalar,c)); }
  if(kindOf(s)==Z3_OP_MUL){ Z3_app ap=Z3_to_app(Z,s); Fac g; for(unsigned i=0;i<Z3_get_app_num_args(Z,ap);i++) g=facAdd(g,Fac{{Z3_get_app_arg(Z,ap,i),e}}); out=facAdd(out,g); return; }
  out=facAdd(out,Fac{{s,e}}); }
static ND ndAdd(const ND&x,const ND&y,bool sub){ ND o; if(x.d==y.d){ o.n=sub?zsub(x.n,y.n):zadd(x.n,y.n); o.d=x.d; return o; } o.d=facLcm(x.d,y.d); Z3_ast a=mulR(x.n,facMul(facSub(o.d,x.d))),b=mulR(y.n,facMul(facSub(o.d,y.d))); o.n=sub?zsub(a,b):zadd(a,b); return o; }
static ND ndOf(Z3_ast a){ unsigned id=aid(a); auto it=ndMemo.find(id); if(it!=ndMemo.end()) return it->second; ND r{a,{}};
  if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
    auto arg=[&](unsigned i){ return Z3_get_app_arg(Z,ap,i);} ;
    if(k==Z3_OP_ADD||k==Z3_OP_SUB){ r=ndOf(arg(0)); for(unsigned i=1;i<n;i++) r=ndAdd(r,ndOf(arg(i)),k==Z3_OP_SUB); }
    else if(k==Z3_OP_UMINUS){ ND x=ndOf(arg(0)); r={Z3_mk_unary_minus(Z,x.n),x.d}; }
    else if(k==Z3_OP_MUL){ r=ndOf(arg(0)); for(unsigned i=1;i<n;i++){ ND y=ndOf(arg(i)); r.n=mulR(r.n,y.n); r.d=facAdd(r.d,y.d); } }
    else if(k==Z3_OP_DIV&&n==2){ ND x=ndOf(arg(0)),y=ndOf(arg(1)); if(isNum(arg(1))) r={Z3_mk_div(Z,x.n,arg(1)),x.d}; else { Fac f; Z3_ast sc=R_ONE; factorise(y.n,1,f,&sc); Fac yd=y.d; Fac num=facSub(yd,x.d),den=facAdd(facSub(x.d,yd),f); // cancel equal factors
          Fac num2=facSub(num,den); den=facSub(den,num); r.n=mulR(x.n,facMul(num2)); if(sc!=R_ONE) r.n=Z3_mk_div(Z,r.n,sc); r.d=den; } }
    else if(k==Z3_OP_ITE){ Z3_ast c=atomND(arg(0)); ND x=ndOf(arg(1)),y=ndOf(arg(2)); Fac l=facLcm(x.d,y.d); r={Z3_mk_ite(Z,c,mulR(x.n,facMul(facSub(l,x.d))),mulR(y.n,facMul(facSub(l,y.d)))),l}; } }
  ndMemo[id]=r; return r; }
static std::unordered_map<unsigned,Z3_ast> atomMemo;
static Z3_ast atomND(Z3_ast a){ unsigned id=aid(a); auto it=atomMemo.find(id); if(it!=atomMemo.end()) return it->second; Z3_ast r=a;
  if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap);
    auto isreal=[&](Z3_ast x){ return Z3_get_sort(Z,x)==S_REAL; };
    if(k==Z3_OP_AND||k==Z3_OP_OR||k==Z3_OP_NOT||k==Z3_OP_ITE||k==Z3_OP_IMPLIES||k==Z3_OP_XOR||(k==Z3_OP_EQ&&!isreal(Z3_get_app_arg(Z,ap,0)))){ vector<Z3_ast> c; bool ch=false; for(unsigned i=0;i<n;i++){ Z3_ast o=Z3_get_app_arg(Z,ap,i); if(Z3_get_sort(Z,o)!=S_BOOL){ c.push_back(o); continue; } Z3_ast x=atomND(o); ch|=x!=o; c.push_back(x);} if(ch) r=Z3_update_term(Z,a,n,c.data()); }
    else if((k==Z3_OP_EQ||k==Z3_OP_LT||k==Z3_OP_LE||k==Z3_OP_GT||k==Z3_OP_GE)&&isreal(Z3_get_app_arg(Z,ap,0))){ ND p=ndOf(Z3_get_app_arg(Z,ap,0)),q=ndOf(Z3_get_app_arg(Z,ap,1)); ND df=ndAdd(p,q,true); Z3_ast l= k==Z3_OP_EQ?df.n:mulR(df.n,facMul(df.d,true)); bool done=false,big=false;
        try{ double od=PDEADLINE; PDEADLINE=since(T0)+20; struct R{double o;~R(){PDEADLINE=o;}} rr{od}; if(k==Z3_OP_EQ) r=canonCmp(Z3_OP_EQ,l); else if(k==Z3_OP_LT||k==Z3_OP_LE) r=canonCmp(k,l); else r=canonCmp(k==Z3_OP_GT?Z3_OP_LT:Z3_OP_LE,Z3_mk_unary_minus(Z,l)); done=true; }catch(PolyFail&f){ big=f.big; }
        if(!done){ if(!p.d.empty()||!q.d.empty()){ r= k==Z3_OP_EQ?Z3_mk_eq(Z,l,R_ZERO): k==Z3_OP_LT?Z3_mk_lt(Z,l,R_ZERO):k==Z3_OP_LE?Z3_mk_le(Z,l,R_ZERO):k==Z3_OP_GT?Z3_mk_gt(Z,l,R_ZERO):Z3_mk_ge(Z,l,R_ZERO); } if(!big) r=simpSom(r); } } }
  atomMemo[id]=r; return r; }

// ---------------------------------------------------------------- values
enum Kind:uint8_t{ KU,KI,KS,KF,KG,KR,KA }; // undef, int const, int sym, float const, float sym, raw bytes, aggregate
struct Val; struct RawB; 
struct Val{ Kind k=KU; uint16_t bits=0; union{ uint64_t c; double d; Z3_ast a; vector<RawB>* r; vector<Val>* g; }; Val():c(0){} };
struct RawB{ Val v; uint8_t idx; };  // byte idx of v; v KU: uninitialised; 
static Val VI(uint64_t c,unsigned b){ Val v; v.k=KI; v.bits=b; v.c= b>=64?c:(c&((1ull<<b)-1)); return v; }
static Val VF(double d,unsigned b){ Val v; v.k=KF; v.bits=b; v.d=d; return v; }
static Val VU(unsigned b){ Val v; v.bits=b; return v; }
static Val mkS(Z3_ast a,unsigned b){ // int symbolic; fold constants
  Val v; if(b==1){ if(a==A_TRUE) return VI(1,1); if(a==A_FALSE) return VI(0,1); v.k=KS; v.bits=1; v.a=a; return v; }
  if(isNum(a)){ uint64_t x; if(b<=64){ if(Z3_get_numeral_uint64(Z,a,&x)) return VI(x,b);} } v.k=KS; v.bits=b; v.a=a; return v; }
static Val mkSs(Z3_ast a,unsigned b){ return mkS(simp(a),b); }
static Val mkG(Z3_ast a,unsigned b){ if(isNum(a)){ int64_t n,d; if(Z3_get_numeral_rational_int64(Z,a,&n,&d)&&d>0&&(d&(d-1))==0&&std::llabs(n)<(1ll<<53)) return VF((double)n/(double)d,b);} Val v; v.k=KG; v.bits=b; v.a=a; return v; }
static Z3_ast toBV(const Val&v){ if(v.k==KI){ if(v.bits<=64) return Z3_mk_unsigned_int64(Z,v.c,bvs(v.bits)); }
  if(v.k==KS){ if(v.bits==1) return Z3_mk_ite(Z,v.a,Z3_mk_unsigned_int64(Z,1,bvs(1)),Z3_mk_unsigned_int64(Z,0,bvs(1))); return v.a; } throw std::runtime_error("toBV"); }
static Z3_ast toBool(const Val&v){ if(v.k==KI) return v.c&1?A_TRUE:A_FALSE; if(v.k==KS&&v.bits==1) return v.a; throw std::runtime_error("toBool"); }
static Z3_ast toReal(const Val&v){ if(v.k==KF){ if(!std::isfinite(v.d)) throw std::runtime_error("nonfinite constant in real arithmetic"); return realOf(v.d);} if(v.k==KG) return v.a; throw std::runtime_error("toReal"); }
static int64_t sx(uint64_t c,unsigned b){ return b>=64?(int64_t)c:(int64_t)(c<<(64-b))>>(64-b); }

// ---------------------------------------------------------------- memory
struct Cell{ Val v; uint32_t size; };
struct ObjData{ vector<uint8_t> b,t; std::map<uint32_t,Cell> cells; };
struct Obj{ uint64_t base; uint64_t size; uint8_t kind; /*0 global 1 heap 2 stack 3 function 4 const global*/ uint8_t allocf=0; string name; std::shared_ptr<ObjData> d; };
typedef std::shared_ptr<Obj> ObjP;
struct DInst; struct FnInfo;
struct Frame{ FnInfo* f; unsigned bb,ip; vector<Val> regs; vector<uint64_t> allocas; unsigned retDst; int normalBB; };
struct NameCnt{ std::map<string,int> m; };
struct State{ std::map<uint64_t,ObjP> mem; vector<Frame> st; vector<Z3_ast> pc; std::unordered_set<unsigned> pcset; std::map<int,Z3_ast> asg; bool asgOk=true;
  std::map<unsigned,uint64_t> conc; std::map<string,int> cnt; uint64_t brk=0x100000000ull; uint64_t insts=0; std::unordered_map<const GlobalVariable*,uint64_t> gaddr; std::map<uint64_t,string> freed; 
  vector<int> inputs; bool done=false; vector<std::pair<string,Val>> obs; bool usesUninit=false, overApprox=false; bool flt=false; vector<string> reached; std::set<unsigned> trigAx; vector<Z3_ast> trigArgs; };
static State* CUR=nullptr; static vector<State*> WORK;

struct Kill{ string why; };     // stop this path
[[noreturn]] static void killPath(const string&w){ throw Kill{w}; }

// ---------------------------------------------------------------- module preprocessing
struct Op{ int slot; Val c; const Value* gv=nullptr; };
struct DInst{ unsigned opc; int dst=-1; vector<Op> ops; const Instruction* I; unsigned bits=0; unsigned tsize=0; bool isf=false; };
struct BBInfo{ vector<DInst> ins; const BasicBlock* bb; vector<unsigned> succ; unsigned nphi=0; vector<vector<std::pair<unsigned,Op>>> phi; };
struct FnInfo{ const Function* F; vector<BBInfo> bbs; unsigned nslots=0; string name; unsigned nargs; };
static std::unordered_map<const Function*,FnInfo*> FNS; static Module* M; static const DataLayout* DL;
static std::unordered_map<const Function*,uint64_t> fnAddr; static std::map<uint64_t,const Function*> addrFn; static uint64_t fnBrk=0x10000;
static uint64_t addrOfFn(const Function*F){ auto it=fnAddr.find(F); if(it!=fnAddr.end()) return it->second; uint64_t a=fnBrk; fnBrk+=16; fnAddr[F]=a; addrFn[a]=F; return a; }
static string locOf(const Instruction*I){ if(auto&d=I->getDebugLoc()){ auto*L=d.get(); string f=L->getFilename().str(); size_t p=f.rfind('/'); if(p!=string::npos) f=f.substr(p+1); return f+":"+std::to_string(L->getLine()); } return "?"; }

static Obj* findObj(State&s,uint64_t addr,uint64_t n,bool wr,uint64_t*off);
static void runtimeError(State&s,const string&kind,const string&what);
static uint64_t allocObj(State&s,uint64_t size,uint8_t kind,const string&name,bool zero=false){ uint64_t a=(s.brk+15)&~15ull; s.brk=a+size+64; auto o=std::make_shared<Obj>(); o->base=a;o->size=size;o->kind=kind;o->name=name;o->d=std::make_shared<ObjData>(); if(size>(1ull<<28)) runtimeError(s,"nonterm","endless allocation (more than 256 MB)"); o->d->b.assign(size,0); o->d->t.assign(size,zero?1:0); s.mem[a]=o; return a; }
static void initConst(State&s,Obj&o,uint64_t off,const Constant*C);
static uint64_t gvAddr(State&s,const GlobalVariable*G){ auto it=s.gaddr.find(G); if(it!=s.gaddr.end()) return it->second; uint64_t sz=DL->getTypeAllocSize(G->getValueType()); if(!G->hasInitializer()) sz=std::max<uint64_t>(sz,256); uint64_t a=allocObj(s,sz,G->isConstant()?4:0,G->getName().str(),true); s.gaddr[G]=a; if(G->hasInitializer()){ Obj&o=*s.mem[a]; initConst(s,o,0,G->getInitializer()); } return a; }
static Val constVal(State&s,const Constant*C);
static void wr(State&s,ObjData&d,uint64_t off,const Val&v,unsigned n);
static void initConst(State&s,Obj&o,uint64_t off,const Constant*C){ if(isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return; 
  if(auto*CD=dyn_cast<ConstantDataSequential>(C)){ unsigned es=CD->getElementByteSize(); for(unsigned i=0;i<CD->getNumElements();i++) initConst(s,o,off+i*es,CD->getElementAsConstant(i)); return; }
  if(auto*CA=dyn_cast<ConstantArray>(C)){ uint64_t es=DL->getTypeAllocSize(CA->getType()->getElementType()); for(unsigned i=0;i<CA->getNumOperands();i++) initConst(s,o,off+i*es,CA->getOperand(i)); return; }
  if(auto*CS=dyn_cast<ConstantStruct>(C)){ auto*L=DL->getStructLayout(CS->getType()); for(unsigned i=0;i<CS->getNumOperands();i++) initConst(s,o,off+L->getElementOffset(i),CS->getOperand(i)); return; }
  Val v=constVal(s,C); wr(s,*o.d,off,v,DL->getTypeStoreSize(C->getType())); }
static Val constVal(State&s,const Constant*C){ Type*T=C->getType();
  if(auto*CI=dyn_cast<ConstantInt>(C)){ if(CI->getBitWidth()>64) { Val v; v.k=KS; v.bits=CI->getBitWidth(); SmallString<64> str; CI->getValue().toString(str,10,false); v.a=Z3_mk_numeral(Z,string(str.str()).c_str(),bvs(v.bits)); return v; } return VI(CI->getZExtValue(),CI->getBitWidth()); }
  if(auto*CF=dyn_cast<ConstantFP>(C)){ APFloat f=CF->getValueAPF(); bool li; unsigned bits=T->isFloatTy()?32:64; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); return VF(f.convertToDouble(),bits); }
  if(isa<ConstantPointerNull>(C)) return VI(0,64);
  if(isa<UndefValue>(C)){ if(T->isStructTy()||T->isArrayTy()||T->isVectorTy()){ Val v; v.k=KA; unsigned n=T->isStructTy()?T->getStructNumElements():T->isArrayTy()?T->getArrayNumElements():cast<FixedVectorType>(T)->getNumElements(); v.g=new vector<Val>(n); return v; } return VU(T->isPointerTy()?64:T->getScalarSizeInBits()); }
  if(auto*F=dyn_cast<Function>(C)) return VI(addrOfFn(F),64);
  if(auto*G=dyn_cast<GlobalVariable>(C)) return VI(gvAddr(s,G),64);
  if(auto*G=dyn_cast<GlobalAlias>(C)) return constVal(s,G->getAliasee());
  if(isa<ConstantAggregateZero>(C)||isa<ConstantAggregate>(C)||isa<ConstantDataSequential>(C)){ Val v; v.k=KA; v.g=new vector<Val>(); for(unsigned i=0;;i++){ Constant*e=C->getAggregateElement(i); if(!e) break; v.g->push_back(constVal(s,e)); } return v; }
  if(auto*CE=dyn_cast<ConstantExpr>(C)){ switch(CE->getOpcode()){ case Instruction::GetElementPtr:{ auto*G=cast<GEPOperator>(CE); APInt off(64,0); if(!G->accumulateConstantOffset(*DL,off)) throw std::runtime_error("constexpr gep"); Val b=constVal(s,cast<Constant>(G->getPointerOperand())); return VI(b.c+off.getSExtValue(),64);} 
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(s,CE->getOperand(0));
    case Instruction::Sub: { Val a=constVal(s,CE->getOperand(0)),b=constVal(s,CE->getOperand(1)); return VI(a.c-b.c,a.bits);} case Instruction::Add: { Val a=constVal(s,CE->getOperand(0)),b=constVal(s,CE->getOperand(1)); return VI(a.c+b.c,a.bits);} 
    case Instruction::Trunc: { Val a=constVal(s,CE->getOperand(0)); return VI(a.c,T->getScalarSizeInBits()); }
    default: break; } }
  string str; raw_string_ostream os(str); C->print(os); throw std::runtime_error("unsupported constant "+os.str().substr(0,120)); }
static unsigned typeBits(Type*T){ if(T->isPointerTy()) return 64; if(T->isVoidTy()) return 0; if(T->isX86_FP80Ty()) return 64; if(T->isAggregateType()) return 0; return T->getScalarSizeInBits(); }
static FnInfo* fnInfo(const Function*F){ auto it=FNS.find(F); if(it!=FNS.end()) return it->second; FnInfo*fi=new FnInfo; fi->F=F; fi->name=llvm::demangle(F->getName().str()); fi->nargs=F->arg_size(); std::unordered_map<const Value*,int> slot; int n=0; for(auto&A:F->args()) slot[&A]=n++; std::unordered_map<const BasicBlock*,unsigned> bi; unsigned nb=0; for(auto&B:*F){ bi[&B]=nb++; for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++; }
  fi->nslots=n; auto mkop=[&](const Value*V){ Op o; o.slot=-1; auto it=slot.find(V); if(it!=slot.end()) o.slot=it->second; else if(isa<Constant>(V)){ o.slot=-2; o.gv=V; if(isa<ConstantInt>(V)||isa<ConstantFP>(V)||isa<ConstantPointerNull>(V)){ State dummy; o.c=constVal(dummy,cast<Constant>(V)); o.slot=-1; } } return o; };
  fi->bbs.resize(nb); unsigned b=0; for(auto&B:*F){ BBInfo&X=fi->bbs[b++]; X.bb=&B; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; DInst d; d.opc=I.getOpcode(); d.I=&I; if(!I.getType()->isVoidTy()) d.dst=slot[&I]; d.bits=typeBits(I.getType()); d.isf=I.getType()->isFloatingPointTy();
      if(auto*P=dyn_cast<PHINode>(&I)){ (void)P; X.nphi++; } else if(auto*CB=dyn_cast<CallBase>(&I)){ for(auto&A:CB->args()) d.ops.push_back(isa<MetadataAsValue>(A.get())?Op{-1,VU(0),nullptr}:mkop(A.get())); Op co=Op{-1,VU(0),nullptr}; if(!CB->getCalledFunction()&&!CB->isInlineAsm()) co=mkop(CB->getCalledOperand()); d.ops.push_back(co); }
      else for(auto&O:I.operands()){ if(isa<BasicBlock>(O.get())) continue; d.ops.push_back(mkop(O.get())); }
      X.ins.push_back(std::move(d)); }
    for(auto*S:successors(&B)) X.succ.push_back(bi[S]); }
  b=0; for(auto&B:*F){ BBInfo&X=fi->bbs[b++]; if(X.nphi){ unsigned k=0; for(auto&I:B){ auto*P=dyn_cast<PHINode>(&I); if(!P) break; vector<std::pair<unsigned,Op>> v; for(unsigned i=0;i<P->getNumIncomingValues();i++) v.push_back({bi[P->getIncomingBlock(i)],mkop(P->getIncomingValue(i))}); X.phi.push_back(v); k++; } } }
  FNS[F]=fi; if(auto*SP=F->getSubprogram()){ string fn=SP->getFilename().str(); string dir=SP->getDirectory().str(); if(fn.find("/src/")!=string::npos && fn.find("/repo")!=string::npos) { FUNCS.insert(fi->name); } }
  return fi; }

// ---------------------------------------------------------------- memory access
static Obj* findObjRaw(State&s,uint64_t addr){ auto it=s.mem.upper_bound(addr); if(it==s.mem.begin()) return nullptr; --it; Obj*o=it->second.get(); if(addr<o->base||addr>=o->base+std::max<uint64_t>(o->size,1)) return nullptr; return o; }
[[noreturn]] static void memError(State&s,const string&what);
static string describeAddr(State&s,uint64_t addr){ if(addr<4096) return "null pointer"; auto f=s.freed.upper_bound(addr); if(f!=s.freed.begin()){ --f; size_t p=f->second.find('|'); uint64_t sz=strtoull(f->second.c_str()+p+1,0,10); if(addr<f->first+sz) return "freed memory ("+f->second.substr(0,p)+")"; }
  auto it=s.mem.upper_bound(addr); if(it!=s.mem.begin()){ --it; return "out of bounds: offset "+std::to_string((int64_t)(addr-it->second->base))+" of "+it->second->name+" size "+std::to_string(it->second->size);} return "unmapped"; }
static Obj* findObj(State&s,uint64_t addr,uint64_t n,bool wr,uint64_t*off){ auto it=s.mem.upper_bound(addr); if(it!=s.mem.begin()){ --it; Obj*o=it->second.get(); if(addr>=o->base&&addr+n<=o->base+o->size&&addr+n>=addr){ if(wr){ if(o->kind==4||o->kind==3) memError(s,"write to constant "+o->name); if(it->second.use_count()>1){ it->second=std::make_shared<Obj>(*it->second); o=it->second.get(); } if(o->d.use_count()>1) o->d=std::make_shared<ObjData>(*o->d); } *off=addr-o->base; return o; } }
  memError(s,string(wr?"write":"read")+" of "+std::to_string(n)+" bytes at "+describeAddr(s,addr)); }
static unsigned valSize(const Val&v){ return (v.bits+7)/8; }
static Val rawByte(const Val&v,unsigned i){ // single byte i of v
  if(v.k==KI) return VI(v.c>>(8*i),8); if(v.k==KS&&v.bits>8) return mkSs(Z3_mk_extract(Z,8*i+7,8*i,v.a),8); if(v.k==KS&&v.bits==8) return v; if(v.k==KS&&v.bits==1) return mkSs(Z3_mk_ite(Z,v.a,Z3_mk_unsigned_int64(Z,1,bvs(8)),Z3_mk_unsigned_int64(Z,0,bvs(8))),8);
  if(v.k==KF){ if(v.bits==64){ uint64_t c; memcpy(&c,&v.d,8); return VI(c>>(8*i),8);} float f=(float)v.d; if((double)f==v.d){ uint32_t c; memcpy(&c,&f,4); return VI(c>>(8*i),8);} }
  if(v.k==KR){ RawB rb=(*v.r)[i]; if(rb.v.k==KI) return rb.v; Val o; o.k=KR; o.bits=8; o.r=new vector<RawB>{rb}; return o; }
  if(v.k==KU) return VU(8);
  Val o; o.k=KR; o.bits=8; o.r=new vector<RawB>{ RawB{v,(uint8_t)i} }; return o; }
static void explode(ObjData&d,uint32_t at){ auto it=d.cells.find(at); Cell c=it->second; d.cells.erase(it); for(unsigned i=0;i<c.size;i++){ Val b=rawByte(c.v,i); if(b.k==KI){ d.t[at+i]=1; d.b[at+i]=b.c; } else if(b.k==KU) d.t[at+i]=0; else { d.t[at+i]=2; d.cells[at+i]=Cell{b,1}; } } }
static void clearRange(ObjData&d,uint32_t off,uint32_t n){ if(d.cells.empty()) return; auto it=d.cells.upper_bound(off); if(it!=d.cells.begin()){ auto p=std::prev(it); if(p->first<off&&p->first+p->second.size>off) explode(d,p->first); }
  it=d.cells.lower_bound(off); while(it!=d.cells.end()&&it->first<off+n){ if(it->first+it->second.size>off+n){ uint32_t a=it->first; explode(d,a); it=d.cells.lower_bound(off); continue; } it=d.cells.erase(it); } }
static void wr(State&s,ObjData&d,uint64_t off,const Val&v0,unsigned n){ Val v=v0; if(v.k==KA){ // store elements packed is not supported here
    throw std::runtime_error("aggregate store"); }
  clearRange(d,off,n); if(v.k==KI){ uint64_t c=v.c; for(unsigned i=0;i<n;i++){ d.b[off+i]= i<8?(uint8_t)(c>>(8*i)):0; d.t[off+i]=1; } return; }
  if(v.k==KF){ if(v.bits==64){ memcpy(&d.b[off],&v.d,8); memset(&d.t[off],1,8); return; } float f=(float)v.d; if((double)f==v.d||v.d!=v.d){ memcpy(&d.b[off],&f,4); memset(&d.t[off],1,4); return; } }
  if(v.k==KU){ memset(&d.t[off],0,n); return; }
  if(v.k==KS&&v.bits==1){ v=mkSs(Z3_mk_ite(Z,v.a,Z3_mk_unsigned_int64(Z,1,bvs(8)),Z3_mk_unsigned_int64(Z,0,bvs(8))),8); }
  if(v.k==KS&&(v.bits%8)){ v=mkSs(Z3_mk_zero_ext(Z,n*8-v.bits,v.a),n*8); }
  if(v.k==KR){ // regroup
    auto&r=*v.r; unsigned i=0; while(i<n){ RawB&x=r[i]; if(x.v.k==KU){ d.t[off+i]=0; i++; continue; } if(x.v.k==KI&&x.v.bits==8){ d.b[off+i]=x.v.c; d.t[off+i]=1; i++; continue; }
      unsigned sz=valSize(x.v); bool whole=x.idx==0&&i+sz<=n; if(whole) for(unsigned j=0;j<sz;j++) if(r[i+j].idx!=j||r[i+j].v.k!=x.v.k||r[i+j].v.c!=x.v.c) whole=false;
      if(whole){ d.cells[off+i]=Cell{x.v,sz}; memset(&d.t[off+i],2,sz); i+=sz; } else { Val b=rawByte(x.v,x.idx); if(b.k==KI){ d.b[off+i]=b.c; d.t[off+i]=1;} else { d.cells[off+i]=Cell{b,1}; d.t[off+i]=2; } i++; } }
    return; }
  d.cells[off]=Cell{v,n}; memset(&d.t[off],2,n); }
static int UNINIT=0; static Val newVar(State&s,const string&name,int kind,double lo,double hi,unsigned bits);
static Val rawNorm(Val v,bool isf); 
static Val rd(State&s,Obj*o,uint64_t off,unsigned bits,bool isf){ unsigned n=(bits+7)/8; ObjData&d=*o->d; bool all1=true,all0=true; for(unsigned i=0;i<n;i++){ all1&=d.t[off+i]==1; all0&=d.t[off+i]==0; }
  if(all1){ if(isf){ if(bits==64){ double x; memcpy(&x,&d.b[off],8); return VF(x,64);} float f; memcpy(&f,&d.b[off],4); return VF(f,32);} if(n<=8){ uint64_t c=0; memcpy(&c,&d.b[off],n); return VI(c,bits);} }
  if(all0){ return VU(bits); }
  if(d.t[off]==2){ auto it=d.cells.find(off); if(it!=d.cells.end()&&it->second.size==n){ Val v=it->second.v; if(isf&&(v.k==KF||v.k==KG)) return v; if(!isf&&v.k==KS){ if(v.bits==bits) return v; if(bits==1) return mkSs(Z3_mk_eq(Z,Z3_mk_extract(Z,0,0,v.a),Z3_mk_unsigned_int64(Z,1,bvs(1))),1); return mkSs(Z3_mk_extract(Z,bits-1,0,v.a),bits);} } }
  Val r; r.k=KR; r.bits=bits; r.r=new vector<RawB>; for(unsigned i=0;i<n;){ if(d.t[off+i]==1){ r.r->push_back({VI(d.b[off+i],8),0}); i++; continue; } if(d.t[off+i]==0){ r.r->push_back({VU(8),0}); i++; continue; }
    auto it=d.cells.upper_bound(off+i); --it; Cell c=it->second; unsigned idx=off+i-it->first; while(i<n&&idx<c.size){ if(c.v.k==KR) r.r->push_back((*c.v.r)[idx]); else r.r->push_back({c.v,(uint8_t)idx}); i++; idx++; } }
  return rawNorm(r,isf); }
static Val rawNorm(Val v,bool isf){ if(v.k!=KR) return v; auto&r=*v.r; unsigned n=r.size(); bool allc=true; for(auto&x:r){ if(!(x.v.k==KI)) allc=false; }
  if(allc&&n<=8){ uint64_t c=0; for(unsigned i=0;i<n;i++) c|=(uint64_t)((r[i].v.c>>(8*r[i].idx))&255)<<(8*i); if(isf){ if(n==8){ double x; memcpy(&x,&c,8); return VF(x,64);} float f; uint32_t q=c; memcpy(&f,&q,4); return VF(f,32);} return VI(c,v.bits); }
  // whole cell?
  unsigned sz=valSize(r[0].v); if(r[0].v.k!=KU&&sz==n){ bool w=true; for(unsigned j=0;j<n;j++) if(r[j].idx!=j||r[j].v.k!=r[0].v.k||r[j].v.c!=r[0].v.c) w=false; if(w){ Val c=r[0].v; if((c.k==KF||c.k==KG)==isf) return c; } }
  if(!isf){ bool ints=true; for(auto&x:r) if(!(x.v.k==KI||x.v.k==KS)) ints=false; if(ints){ Z3_ast acc=nullptr; for(unsigned i=0;i<n;i++){ Z3_ast b=toBV(rawByte(r[i].v,r[i].idx)); acc=acc?Z3_mk_concat(Z,b,acc):b; } if(v.bits<n*8) acc=Z3_mk_extract(Z,v.bits-1,0,acc); if(v.bits==1) return mkSs(Z3_mk_eq(Z,acc,Z3_mk_unsigned_int64(Z,1,bvs(1))),1); return mkSs(acc,v.bits);} }
  return v; }
static void memCopy(State&s,uint64_t dst,uint64_t src,uint64_t n){ if(!n) return; uint64_t so,dof; Obj*o=findObj(s,src,n,false,&so); // snapshot
  ObjData&sd=*o->d; vector<uint8_t> b(sd.b.begin()+so,sd.b.begin()+so+n),t(sd.t.begin()+so,sd.t.begin()+so+n); vector<std::pair<uint32_t,Cell>> cs; if(!sd.cells.empty()){ auto it=sd.cells.upper_bound(so); if(it!=sd.cells.begin()) --it; for(;it!=sd.cells.end()&&it->first<so+n;++it){ uint64_t a=it->first,e=a+it->second.size; if(e<=so) continue; if(a>=so&&e<=so+n) cs.push_back({a-so,it->second}); else for(uint64_t q=std::max(a,so);q<std::min(e,so+n);q++){ Val x=rawByte(it->second.v,q-a); if(x.k==KI){ b[q-so]=x.c; t[q-so]=1;} else if(x.k==KU) t[q-so]=0; else cs.push_back({q-so,Cell{x,1}}); } } }
  Obj*p=findObj(s,dst,n,true,&dof); ObjData&dd=*p->d; clearRange(dd,dof,n); std::copy(b.begin(),b.end(),dd.b.begin()+dof); std::copy(t.begin(),t.end(),dd.t.begin()+dof); 
  bool pieces=false; for(auto&c:cs){ dd.cells[dof+c.first]=c.second; memset(&dd.t[dof+c.first],2,c.second.size); if(c.second.size==1&&c.second.v.k==KR) pieces=true; }
  if(pieces){ // try to regroup raw byte cells into whole values
    for(auto&c:cs) if(c.second.size==1&&c.second.v.k==KR){ RawB rb=(*c.second.v.r)[0]; unsigned sz=valSize(rb.v); if(sz<=1) continue; int64_t start=(int64_t)(dof+c.first)-rb.idx; if(start<0||start+sz>p->size) continue; bool ok=true; for(unsigned j=0;j<sz&&ok;j++){ auto it=dd.cells.find(start+j); if(it==dd.cells.end()||it->second.size!=1||it->second.v.k!=KR) ok=false; else { RawB q=(*it->second.v.r)[0]; if(q.idx!=j||q.v.k!=rb.v.k||q.v.c!=rb.v.c) ok=false; } } if(ok){ for(unsigned j=0;j<sz;j++) dd.cells.erase(start+j); dd.cells[start]=Cell{rb.v,sz}; } } } }

// ---------------------------------------------------------------- solver
enum Res{ SAT,UNSAT,UNK };
static Z3_ast varAst(int v){ return VARS[v].ast; }
static Z3_ast algApprox(int v){ static std::map<int,Z3_ast> c; auto it=c.find(v); if(it!=c.end()) return it->second; mpf_class x(ALGN[v],128); x=sqrt(x); mpq_class q(x); return c[v]=mpqAst(q); }
static Z3_ast substAsg(const std::map<int,Z3_ast>&m,Z3_ast a){ auto&vs=varsOf(a); if(vs.empty()) return simp(a); vector<Z3_ast> f,t; for(int v:vs){ if(ALGN.count(v)){ f.push_back(VARS[v].ast); t.push_back(algApprox(v)); continue; } auto it=m.find(v); if(it==m.end()) return a; f.push_back(VARS[v].ast); t.push_back(it->second);} return simp(Z3_substitute(Z,a,f.size(),f.data(),t.data())); }
static vector<Z3_ast> slice(State&s,const vector<Z3_ast>&goals){ std::set<int> vs; for(auto g:goals) for(int v:varsOf(g)) if(!ALGN.count(v)) vs.insert(v); vector<Z3_ast> out; vector<char> used(s.pc.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<s.pc.size();i++) if(!used[i]){ auto&w=varsOf(s.pc[i]); bool hit=false; for(int v:w) if(vs.count(v)){hit=true;break;} if(hit){ used[i]=1; ch=true; for(int v:w) vs.insert(v);} } } for(size_t i=0;i<s.pc.size();i++) if(used[i]) out.push_back(s.pc[i]); return out; }
static bool nonlinearOrBig=false;
static Res runSolver(Z3_solver sv,const vector<Z3_ast>&fs,unsigned to,std::map<int,Z3_ast>*model){ Z3_solver_inc_ref(Z,sv); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),to); Res r=UNK; try{ Guard gd(to*0.0012+1); Z3_solver_set_params(Z,sv,p); for(auto f:fs) Z3_solver_assert(Z,sv,f); Z3_lbool b=Z3_solver_check(Z,sv); r= b==Z3_L_TRUE?SAT:b==Z3_L_FALSE?UNSAT:UNK;
    if(r==SAT&&model){ Z3_model m=Z3_solver_get_model(Z,sv); Z3_model_inc_ref(Z,m); std::set<int> vs; for(auto f:fs) for(int v:varsOf(f)) vs.insert(v); for(int v:vs){ Z3_ast val=nullptr; if(Z3_model_eval(Z,m,VARS[v].ast,true,&val)&&val) (*model)[v]=val; } Z3_model_dec_ref(Z,m); } }
  catch(std::exception&e){ if(OPT_VERBOSE) fprintf(stderr,"solver exception %s\n",e.what()); r=UNK; }
  Z3_params_dec_ref(Z,p); Z3_solver_dec_ref(Z,sv); return r; }
static bool hasReal(Z3_ast a){ for(int v:varsOf(a)) if(VARS[v].kind!=1) return true; return false; }
static bool isNonlin(Z3_ast a){ static std::unordered_map<unsigned,bool> memo; auto it=memo.find(aid(a)); if(it!=memo.end()) return it->second; bool r=false; if(Z3_get_ast_kind(Z,a)==Z3_APP_AST){ Z3_app ap=Z3_to_app(Z,a); unsigned n=Z3_get_app_num_args(Z,ap); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); if(k==Z3_OP_MUL){ int nn=0; for(unsigned i=0;i<n;i++) if(!varsOf(Z3_get_app_arg(Z,ap,i)).empty()) nn++; if(nn>1) r=true; } if(k==Z3_OP_POWER) r=true; for(unsigned i=0;i<n&&!r;i++) r=isNonlin(Z3_get_app_arg(Z,ap,i)); } memo[aid(a)]=r; return r; }
// sign analysis of a real term under the path condition: bit mask of the possible signs (1 negative, 2 zero, 4 positive); linear subterms are
// decided by the solver (LRA) against the linear part of the path condition
static int mskMul(int a,int b){ int r=0; if((a&2)||(b&2)) r|=2; if((a&4&&b&4)||(a&1&&b&1)) r|=4; if((a&4&&b&1)||(a&1&&b&4)) r|=1; return r; }
static int mskNeg(int a){ return (a&2)|((a&1)<<2)|((a&4)>>2); }
static int mskAdd(int a,int b){ int r=0; for(int i=1;i<=4;i*=2) for(int j=1;j<=4;j*=2) if((a&i)&&(b&j)){ if(i==2) r|=j; else if(j==2) r|=i; else if(i==j) r|=i; else r=7; } return r; }
static std::map<std::pair<vector<unsigned>,unsigned>,int> linSign;
struct SignCtx{ State&s; std::unordered_map<unsigned,int> memo; vector<Z3_ast> lin; vector<unsigned> lkey; bool have=false; int budget=400; SignCtx(State&s_):s(s_){} };
static int signMask(SignCtx&c,Z3_ast t);
static int linearSign(SignCtx&c,Z3_ast t){ if(varsOf(t).empty()||varsOf(t).size()>10||isNonlin(t)) return 7; for(int v:varsOf(t)) if(VARS[v].kind==1||ALGN.count(v)) return 7; vector<Z3_ast> lin; std::set<int> vs(varsOf(t).begin(),varsOf(t).end()); if(!c.have){ c.have=true; for(auto p:c.s.pc) if(!isNonlin(p)&&varsOf(p).size()<=6){ bool ok=true; for(int v:varsOf(p)) if(VARS[v].kind==1||ALGN.count(v)) ok=false; if(ok) c.lin.push_back(p); } }
  vector<char> used(c.lin.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=0;i<c.lin.size();i++) if(!used[i]){ bool hit=false; for(int v:varsOf(c.lin[i])) if(vs.count(v)){ hit=true; break; } if(hit){ used[i]=1; ch=true; for(int v:varsOf(c.lin[i])) vs.insert(v); lin.push_back(c.lin[i]); } } if(lin.size()>150) break; }
  vector<unsigned> key; for(auto p:lin) key.push_back(aid(p)); std::sort(key.begin(),key.end()); auto kk=std::make_pair(key,aid(t)); auto it=linSign.find(kk); if(it!=linSign.end()) return it->second; if(c.budget--<=0) return 7; int r=0; auto tt=Clk::now();
  Z3_ast q[3]={Z3_mk_lt(Z,t,R_ZERO),Z3_mk_eq(Z,t,R_ZERO),Z3_mk_gt(Z,t,R_ZERO)}; Z3_solver sv=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,sv); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),1000); try{ Guard gd(2); Z3_solver_set_params(Z,sv,p); for(auto f:lin) Z3_solver_assert(Z,sv,f); for(int i=0;i<3;i++){ Z3_solver_push(Z,sv); Z3_solver_assert(Z,sv,q[i]); Z3_lbool b=Z3_solver_check(Z,sv); if(b==Z3_L_FALSE) ST.q_unsat++; else { r|=1<<i; if(b==Z3_L_TRUE) ST.q_sat++; } Z3_solver_pop(Z,sv,1); } }catch(std::exception&){ r=7; } Z3_params_dec_ref(Z,p); Z3_solver_dec_ref(Z,sv); ST.solver_s+=since(tt); linSign[kk]=r; return r; }
static bool isOneMinus(Z3_ast t,Z3_ast al){ if(kindOf(t)!=Z3_OP_SUB) return false; Z3_app ap=Z3_to_app(Z,t); return Z3_get_app_num_args(Z,ap)==2&&Z3_get_app_arg(Z,ap,1)==al&&isNum(Z3_get_app_arg(Z,ap,0))&&Z3_get_app_arg(Z,ap,0)==R_ONE; }
static int signMask0(SignCtx&c,Z3_ast t){ if(isNum(t)){ mpq_class q(Z3_get_numeral_string(Z,t)); return sgn(q)<0?1:sgn(q)==0?2:4; } if(Z3_get_ast_kind(Z,t)!=Z3_APP_AST) return 7; auto v=varOf.find(aid(t)); if(v!=varOf.end()){ int i=v->second; if(ALGN.count(i)) return 4; if(VARS[i].kind==0){ if(VARS[i].lo>0) return 4; if(VARS[i].hi<0) return 1; } int r=7; if(REL.count(i)&&VARS[i].kind==2&&VARS[i].name.compare(0,4,"sqrt")==0) r=6; else r=linearSign(c,t); return r?r:7; }
  Z3_app ap=Z3_to_app(Z,t); unsigned n=Z3_get_app_num_args(Z,ap); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); auto A=[&](unsigned i){ return Z3_get_app_arg(Z,ap,i); }; int r=7;
  if(k==Z3_OP_UMINUS) return mskNeg(signMask(c,A(0)));
  if(k==Z3_OP_MUL){ if(n==2&&A(0)==A(1)){ int m=signMask(c,A(0)); return (m&2)|((m&5)?4:0); } r=signMask(c,A(0)); for(unsigned i=1;i<n;i++) r=mskMul(r,signMask(c,A(i))); return r; }
  if(k==Z3_OP_DIV&&n==2){ int d=signMask(c,A(1))&5; if(d==0) d=5; r=mskMul(signMask(c,A(0)),d); return r; }
  if((k==Z3_OP_ADD)&&n==2){ // x*(1-a)+y*a
    for(int sw=0;sw<2;sw++){ Z3_ast l=A(sw),q=A(1-sw); if(kindOf(l)!=Z3_OP_MUL||kindOf(q)!=Z3_OP_MUL) break; Z3_app lp=Z3_to_app(Z,l),qp=Z3_to_app(Z,q); if(Z3_get_app_num_args(Z,lp)!=2||Z3_get_app_num_args(Z,qp)!=2) break; for(int i=0;i<2;i++) for(int j=0;j<2;j++){ Z3_ast om=Z3_get_app_arg(Z,lp,i),al=Z3_get_app_arg(Z,qp,j); if(isOneMinus(om,al)){ int ma=signMask(c,al),mo=signMask(c,om); if(!(ma&1)&&!(mo&1)) return signMask(c,Z3_get_app_arg(Z,lp,1-i))|signMask(c,Z3_get_app_arg(Z,qp,1-j)); } } } }
  if(k==Z3_OP_ADD||k==Z3_OP_SUB){ r=signMask(c,A(0)); for(unsigned i=1;i<n&&r!=7;i++){ int m=signMask(c,A(i)); r=mskAdd(r,k==Z3_OP_SUB?mskNeg(m):m); } if(r!=7) return r; r=linearSign(c,t); if(r!=7&&r!=0) return r;
    if(k==Z3_OP_SUB&&n==2&&isNum(A(0))&&kindOf(A(1))==Z3_OP_DIV){ Z3_app dp=Z3_to_app(Z,A(1)); Z3_ast p=Z3_get_app_arg(Z,dp,0),q=Z3_get_app_arg(Z,dp,1); int d=signMask(c,q)&5; Z3_ast nu=zsub(A(0)==R_ONE?q:zmul(A(0),q),p); if(varsOf(nu).size()<=8){ try{ const Poly&P=polyOf(nu); if(P.size()<=12) nu=polyAst(P); }catch(PolyFail&){} } r=mskMul(signMask(c,nu),d?d:5); if(r!=7) return r; }
    if(varsOf(t).size()<=6){ bool num=true; (void)num; try{ const Poly&P=polyOf(t); bool lin=true; for(auto&x:P) if(x.first.size()>1||(x.first.size()==1&&x.first[0].second>1)) lin=false; if(lin&&P.size()<=8){ r=linearSign(c,polyAst(P)); if(r!=7&&r!=0) return r; } }catch(PolyFail&){} }
    return 7; }
  return r; }
static int signMask(SignCtx&c,Z3_ast t){ auto it=c.memo.find(aid(t)); if(it!=c.memo.end()) return it->second; int r=signMask0(c,t); c.memo[aid(t)]=r; return r; }
// a comparison decided by signs alone: true when it cannot hold on this path
static bool signRefutes(State&s,Z3_ast g){ bool neg=false; while(kindOf(g)==Z3_OP_NOT){ neg=!neg; g=Z3_get_app_arg(Z,Z3_to_app(Z,g),0); } Z3_decl_kind k=kindOf(g); if(k!=Z3_OP_LE&&k!=Z3_OP_LT&&k!=Z3_OP_GE&&k!=Z3_OP_GT&&k!=Z3_OP_EQ) return false; Z3_app ap=Z3_to_app(Z,g); Z3_ast l=Z3_get_app_arg(Z,ap,0),r=Z3_get_app_arg(Z,ap,1); if(Z3_get_sort(Z,l)!=S_REAL) return false; for(int v:varsOf(g)) if(VARS[v].kind==1) return false; if(!isNonlin(g)) return false;
  int allow= k==Z3_OP_LE?3:k==Z3_OP_LT?1:k==Z3_OP_GE?6:k==Z3_OP_GT?4:2; if(neg) allow=7&~allow; SignCtx c(s); int m; if(r==R_ZERO||(isNum(r)&&simp(Z3_mk_eq(Z,r,R_ZERO))==A_TRUE)) m=signMask(c,l); else if(isNum(l)&&simp(Z3_mk_eq(Z,l,R_ZERO))==A_TRUE) m=mskNeg(signMask(c,r)); else if(isNum(r)||isNum(l)){ int a=signMask(c,l),b=signMask(c,r); m=mskAdd(a,mskNeg(b)); } else m=signMask(c,zsub(l,r)); return (m&allow)==0; }
// variables that the path condition pins to one value (v <= c and v >= c)
static void pinned(State&s,vector<Z3_ast>&f,vector<Z3_ast>&t){ std::map<int,Z3_ast> lo,hi; std::set<int> done; for(auto p:s.pc){ Z3_decl_kind k=kindOf(p); if(k!=Z3_OP_GE&&k!=Z3_OP_LE&&k!=Z3_OP_EQ) continue; Z3_app ap=Z3_to_app(Z,p); Z3_ast l=Z3_get_app_arg(Z,ap,0),r=Z3_get_app_arg(Z,ap,1); if(Z3_get_sort(Z,l)!=S_REAL) continue; if(isNum(l)&&!isNum(r)){ std::swap(l,r); k= k==Z3_OP_GE?Z3_OP_LE:k==Z3_OP_LE?Z3_OP_GE:k; } auto v=varOf.find(aid(l)); if(v==varOf.end()||!isNum(r)||done.count(v->second)) continue; int id=v->second; bool pin= k==Z3_OP_EQ; if(k==Z3_OP_GE){ lo[id]=(!lo.count(id)||simp(Z3_mk_gt(Z,r,lo[id]))==A_TRUE)?r:lo[id]; } if(k==Z3_OP_LE){ hi[id]=(!hi.count(id)||simp(Z3_mk_lt(Z,r,hi[id]))==A_TRUE)?r:hi[id]; } if(!pin&&lo.count(id)&&hi.count(id)&&simp(Z3_mk_eq(Z,lo[id],hi[id]))==A_TRUE) pin=true; if(pin){ done.insert(id); f.push_back(VARS[id].ast); t.push_back(simp(r)); } } }
static uint64_t rng=88172645463325252ull; static uint64_t rnd(){ rng^=rng<<13; rng^=rng>>7; rng^=rng<<17; return rng; }
struct QC{ Res r; std::map<int,Z3_ast> m; }; static std::map<vector<unsigned>,QC> qcache;
static Res solve(State&s,const vector<Z3_ast>&goals,std::map<int,Z3_ast>*model,bool guess=false,unsigned toMul=1){ // is pc /\ goals satisfiable ?
  if(goals.size()==1&&!OPT_IEEE){ try{ if(signRefutes(s,goals[0])){ ST.q_triv++; return UNSAT; } }catch(std::exception&){} }
  vector<Z3_ast> fs=slice(s,goals); for(auto g:goals) fs.push_back(g); vector<Z3_ast> q; vector<unsigned> key; 
  vector<Z3_ast> pf,pt; pinned(s,pf,pt);
  auto tp=Clk::now(); for(auto f0:fs){ Z3_ast f=f0; Z3_ast x; try{ Guard g(OPT_QT/500.); if(!pf.empty()&&!AXIOM.count(aid(f))&&isNonlin(f)){ f=simp(Z3_substitute(Z,f,pf.size(),pf.data(),pt.data())); } x= AXIOM.count(aid(f))? f : simp(atomND(f)); }catch(std::exception&){ x=f; } if(x==A_FALSE){ ST.q_triv++; ST.solver_s+=since(tp); return UNSAT; } if(x==A_TRUE) continue; q.push_back(x); key.push_back(aid(x)); }
  std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end()); auto it=qcache.find(key); if(it!=qcache.end()){ if(model&&it->second.r==SAT) for(auto&p:it->second.m) (*model)[p.first]=p.second; return it->second.r; }
  { std::set<int> av; for(auto f:q) for(int v:varsOf(f)) if(ALGN.count(v)) av.insert(v); for(int v:av){ Z3_ast a=VARS[v].ast; q.push_back(Z3_mk_eq(Z,zmul(a,a),Z3_mk_real_int64(Z,ALGN[v],1))); q.push_back(znot(Z3_mk_le(Z,a,R_ZERO))); } }
  bool real=false,nl=false; for(auto f:q){ real|=hasReal(f); nl|=isNonlin(f);} 
  auto t=Clk::now(); std::map<int,Z3_ast> m; Res r=UNK; std::set<int> vs; for(auto f:fs) for(int v:varsOf(f)) vs.insert(v);
  if(!nl||!real) r=runSolver(Z3_mk_solver(Z),q,OPT_QT*toMul,&m);
  else { static Z3_symbol qfnra=Z3_mk_string_symbol(Z,"QF_NRA"); bool ints=false; for(int v:vs) if(VARS[v].kind==1) ints=true;
    if(ints) r=runSolver(Z3_mk_solver(Z),q,OPT_QT*toMul,&m);
    else { r=runSolver(Z3_mk_solver_for_logic(Z,qfnra),q,std::min(3000u,OPT_QT)*toMul,&m);
      if(r==UNK&&guess){ // concretise all but two variables with small rationals and let the solver decide the rest
        vector<int> real; for(int v:vs) if(VARS[v].kind==0) real.push_back(v); for(int k=0;k<12&&r==UNK;k++){ vector<Z3_ast> f,tt; size_t keep= real.size()>2? rnd()%real.size():9999; for(size_t i=0;i<real.size();i++){ if(i==keep||i==keep+1) continue; auto&V=VARS[real[i]]; double w=V.hi-V.lo; double val=V.lo+ w*((rnd()%15)+1)/16.; f.push_back(V.ast); tt.push_back(realOf(std::round(val*64)/64)); m[real[i]]=tt.back(); }
          vector<Z3_ast> q2; bool bad=false; for(auto x:q){ Z3_ast y=simp(Z3_substitute(Z,x,f.size(),f.data(),tt.data())); if(y==A_FALSE){bad=true;break;} if(y!=A_TRUE) q2.push_back(y);} if(bad) continue; std::map<int,Z3_ast> m2; Res rr=runSolver(Z3_mk_solver_for_logic(Z,qfnra),q2,1500,&m2); if(rr==SAT){ for(auto&p:m2) m[p.first]=p.second; r=SAT; } } if(r==UNK) m.clear(); }
      if(r==UNK) r=runSolver(Z3_mk_simple_solver(Z),q,OPT_QT*toMul,&m);
      if(r==UNK) r=runSolver(Z3_mk_solver_for_logic(Z,qfnra),q,OPT_QT*toMul,&m); } }
  double dt=since(t); ST.solver_s+=dt; ST.max_q=std::max(ST.max_q,dt); ST.solver_s+=0; if(r==SAT)ST.q_sat++; else if(r==UNSAT)ST.q_unsat++; else ST.q_unk++;
  if(OPT_VERBOSE&&dt>1) { fprintf(stderr,"[q %.1fs res %d nl=%d n=%zu]\n",dt,r,nl,q.size()); if(dt>5){ string z=Z3_ast_to_string(Z,goals[0]); fprintf(stderr,"GOAL %s\n",z.substr(0,1500).c_str()); for(auto x:q){ string y=Z3_ast_to_string(Z,x); fprintf(stderr,"   %s\n",y.substr(0,400).c_str()); } } }
  if(r==SAT) for(int v:vs) if(!m.count(v)) { auto i2=s.asg.find(v); bool inq=false; for(auto x:q){ for(int w:varsOf(x)) if(w==v){inq=true;break;} if(inq)break;} if(!inq&&i2!=s.asg.end()) m[v]=i2->second; else if(!inq) m[v]= VARS[v].kind==1?Z3_mk_unsigned_int64(Z,(uint64_t)(int64_t)VARS[v].lo,bvs(VARS[v].bits)):realOf(VARS[v].lo); }
  if(r!=UNK) qcache[key]=QC{r,m}; if(r==SAT&&model) for(auto&p:m) (*model)[p.first]=p.second; return r; }
static void addPC(State&s,Z3_ast c){ if(c==A_TRUE) return; if(s.pcset.insert(aid(c)).second) s.pc.push_back(c); }
static bool evalAsg(State&s,Z3_ast c,bool*res){ if(!s.asgOk) return false; Z3_ast r; try{ r=substAsg(s.asg,c); }catch(std::exception&){ return false; } if(r==A_TRUE){*res=true;return true;} if(r==A_FALSE){*res=false;return true;} return false; }
// can c be true on this path? fills m (complete overlay on s.asg)
static Res feasible(State&s,Z3_ast c,std::map<int,Z3_ast>*m){ bool b; if(evalAsg(s,c,&b)&&b){ ST.q_quick++; return SAT; } return solve(s,{c},m); }
static State* forkState(State&s){ ST.forks++; return new State(s); }
static void applyModel(State&s,const std::map<int,Z3_ast>&m){ for(auto&p:m) s.asg[p.first]=p.second; }
static void assumeIn(State&s,Z3_ast c,Res r,const std::map<int,Z3_ast>&m){ addPC(s,c); if(r==SAT) applyModel(s,m); else s.asgOk=false; }

static Val newVar(State&s,const string&name,int kind,double lo,double hi,unsigned bits){ static std::map<string,int> byName; int id; auto it=byName.find(name); if(it!=byName.end()) id=it->second; else { id=VARS.size(); Z3_ast a=Z3_mk_const(Z,Z3_mk_string_symbol(Z,name.c_str()),kind==1?bvs(bits):S_REAL); VARS.push_back({name,a,kind,lo,hi,bits}); varOf[aid(a)]=id; byName[name]=id; }
  Z3_ast a=VARS[id].ast; if(kind==1){ double init=lo; s.asg[id]=Z3_mk_unsigned_int64(Z,(uint64_t)(int64_t)init,bvs(bits)); } else if(kind==0){ double init=lo+(hi-lo)*(0.25+0.5*((id*7)%11)/11.); init=std::round(init*32)/32; if(init<lo||init>hi) init=lo; s.asg[id]=realOf(init); }
  Val v; v.k=kind==1?KS:KG; v.bits=bits; v.a=a; if(kind==1&&bits==1) v.a=a; s.inputs.push_back(id); return v; }

// ---------------------------------------------------------------- reports
struct Cand{ string kind,msg,loc; vector<std::pair<string,string>> in; bool uninit; bool robust; bool flt=false; };
static vector<Cand> CANDS; static std::map<string,int> candCnt; static vector<Cand> SAMPLES;
static string numStr(Z3_ast a,const VarInfo&V){ char buf[64]; if(V.kind==1){ uint64_t x=0; Z3_get_numeral_uint64(Z,a,&x); snprintf(buf,64,"%lld",(long long)sx(x,V.bits)); return buf; } 
  if(Z3_is_algebraic_number(Z,a)){ string r=Z3_get_numeral_decimal_string(Z,a,20); if(!r.empty()&&r.back()=='?') r.pop_back(); return r; }
  string r=Z3_get_numeral_decimal_string(Z,a,25); if(!r.empty()&&r.back()=='?') r.pop_back(); return r; }
static double numD(Z3_ast a){ try{ return atof(Z3_get_numeral_decimal_string(Z,a,25)); }catch(std::exception&){ return 0; } }
// an angle's sine and cosine are free unit-circle variables: derive the angle that realises them
static void trigInputs(State&s,const std::map<int,Z3_ast>&m,std::map<int,double>&over){ std::map<int,double> best; for(auto b:s.trigArgs){ auto&vs=varsOf(b); if(vs.size()!=1||VARS[vs[0]].kind!=0) continue; int v=vs[0]; Z3_ast f[1]={VARS[v].ast},t0[1]={R_ZERO},t1[1]={R_ONE},t2[1]={realOf(2)}; double c0=numD(simp(Z3_substitute(Z,b,1,f,t0))),c1=numD(simp(Z3_substitute(Z,b,1,f,t1))),c2=numD(simp(Z3_substitute(Z,b,1,f,t2))); double k=c1-c0; if(k==0||std::fabs(c2-c1-k)>1e-9) continue; if(best.count(v)&&std::fabs(best[v])<=std::fabs(k)) continue; best[v]=k; string id=std::to_string(aid(b)); auto get=[&](const string&n,double&o){ Z3_ast x=Z3_mk_const(Z,Z3_mk_string_symbol(Z,n.c_str()),S_REAL); auto it=varOf.find(aid(x)); if(it==varOf.end()) return false; auto q=m.find(it->second); if(q==m.end()){ q=s.asg.find(it->second); if(q==s.asg.end()) return false; } o=numD(q->second); return true; }; double sn,cs; if(!get("sin!"+id,sn)||!get("cos!"+id,cs)) continue; double a=(std::atan2(sn,cs)-c0)/k; double per=std::fabs(2*M_PI/k); while(a<VARS[v].lo&&a+per<=VARS[v].hi+1e-9) a+=per; while(a>VARS[v].hi&&a-per>=VARS[v].lo-1e-9) a-=per; over[v]=a; } }
static vector<std::pair<string,string>> inputsOf(State&s,const std::map<int,Z3_ast>&m){ vector<std::pair<string,string>> o; std::map<int,double> over; if(!s.trigArgs.empty()) trigInputs(s,m,over); for(int id:s.inputs){ auto&V=VARS[id]; if(V.kind==2) continue; if(over.count(id)){ char b[64]; snprintf(b,64,"%.17g",over[id]); o.push_back({V.name,b}); continue; } auto it=m.find(id); string v="0"; try{ if(it!=m.end()) v=numStr(it->second,V); else if(s.asg.count(id)) v=numStr(s.asg[id],V);}catch(std::exception&){ v="0"; } if(V.kind==0&&v.find_first_of(".en")==string::npos) v+=".0"; o.push_back({V.name,v}); } return o; }
static string stackLoc(State&s){ string o; for(int i=(int)s.st.size()-1;i>=0;i--){ auto&f=s.st[i]; auto&ins=f.f->bbs[f.bb].ins; const Instruction*I=ins[std::min<size_t>(f.ip,ins.size()-1)].I; string l=locOf(I); if(l!="?"){ if(!o.empty()) o+=" < "; o+=l; if(std::count(o.begin(),o.end(),'<')>5) break; } } return o; }
static void report(State&s,const string&kind,const string&msg,const std::map<int,Z3_ast>&m,bool robust=true){ string key=kind+"|"+msg; string l=stackLoc(s); if(candCnt[key]>= (int)OPT_MAXCAND*3) return; candCnt[key]++; Cand c; c.kind=kind;c.msg=msg;c.loc=l;c.uninit=s.usesUninit;c.robust=robust;c.flt=s.flt;c.in=inputsOf(s,m); CANDS.push_back(c); if(robust&&kind!="div0"&&kind!="uninit"&&!c.uninit) OPT_TIME=std::min(OPT_TIME,since(T0)+OPT_AFTER); if(OPT_VERBOSE){ fprintf(stderr,"[candidate %s: %s at %s]\n",kind.c_str(),msg.c_str(),l.c_str()); } }
// margins: strengthen strict comparisons so that a float replay follows the same path
static Z3_ast margin(Z3_ast a,double del){ if(Z3_get_ast_kind(Z,a)!=Z3_APP_AST) return a; Z3_app ap=Z3_to_app(Z,a); Z3_decl_kind k=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,ap)); unsigned n=Z3_get_app_num_args(Z,ap); auto A=[&](int i){return Z3_get_app_arg(Z,ap,i);} ; 
  if(k==Z3_OP_LT&&Z3_get_sort(Z,A(0))==S_REAL) return Z3_mk_le(Z,zadd(A(0),realOf(del)),A(1)); if(k==Z3_OP_GT&&Z3_get_sort(Z,A(0))==S_REAL) return Z3_mk_ge(Z,A(0),zadd(A(1),realOf(del)));
  if(k==Z3_OP_NOT){ Z3_ast b=A(0); if(Z3_get_ast_kind(Z,b)==Z3_APP_AST){ Z3_app bp=Z3_to_app(Z,b); Z3_decl_kind bk=Z3_get_decl_kind(Z,Z3_get_app_decl(Z,bp)); if((bk==Z3_OP_LE||bk==Z3_OP_GE)&&Z3_get_sort(Z,Z3_get_app_arg(Z,bp,0))==S_REAL){ Z3_ast x=Z3_get_app_arg(Z,bp,0),y=Z3_get_app_arg(Z,bp,1); return bk==Z3_OP_LE?Z3_mk_ge(Z,x,zadd(y,realOf(del))):Z3_mk_le(Z,zadd(x,realOf(del)),y); } } }
  if(k==Z3_OP_AND){ vector<Z3_ast> v; for(unsigned i=0;i<n;i++) v.push_back(margin(A(i),del)); return Z3_mk_and(Z,n,v.data()); }
  return a; }
static void reportRobust(State&s,const string&kind,const string&msg,Z3_ast viol,const std::map<int,Z3_ast>&m){ string key=kind+"|"+msg; if(candCnt[key]>=(int)OPT_MAXCAND) return; if(s.flt&&kind=="assert"){ report(s,kind,msg,m,true); return; }
  // look for a model with margins first
  State t(s); t.pc.clear(); for(auto c:s.pc) t.pc.push_back(simp(margin(c,1e-3))); std::map<int,Z3_ast> m2; bool has=false; for(int v:varsOf(viol)) if(VARS[v].kind!=1) has=true; if(has){ Res r=UNK; try{ r=solve(t,{margin(viol,1e-3)},&m2,true);}catch(std::exception&){} if(r==SAT){ std::map<int,Z3_ast> full=m; for(auto&p:m2) full[p.first]=p.second; report(s,kind,msg,full,true); } }
  report(s,kind,msg,m,!has); }
[[noreturn]] static void memError(State&s,const string&what){ report(s,"memory",what,s.asg); ASSERTS["memory safety / defined behaviour"].violated++; killPath("memory error: "+what); }
static void runtimeError(State&s,const string&kind,const string&what){ report(s,kind,what,s.asg); ASSERTS["memory safety / defined behaviour"].violated++; killPath(kind+": "+what); }

// ---------------------------------------------------------------- interpreter
static Val opv(State&s,Frame&f,const Op&o){ if(o.slot>=0) return f.regs[o.slot]; if(o.slot==-2) return constVal(s,cast<Constant>(o.gv)); return o.c; }
struct Refork{};  // the current instruction has to be executed again
// make int value concrete, forking over all feasible values. returns the value of this state.
static uint64_t concInt(State&s,Val v,int slot){ if(v.k==KI) return v.c; if(v.k==KU) { s.usesUninit=true; incomplete("use of uninitialised value as address/branch/size"); report(s,"uninit","use of an uninitialised value",s.asg); killPath("uninitialised value used"); }
  if(v.k!=KS) killPath("unsupported: concretise raw value"); unsigned id=aid(v.a); auto it=s.conc.find(id); if(it!=s.conc.end()) return it->second;
  Z3_ast bv=toBV(v); unsigned bits=v.bits; vector<uint64_t> vals; vector<std::map<int,Z3_ast>> ms; Z3_ast block=A_TRUE; 
  { Z3_ast cur; try{ cur=s.asgOk?substAsg(s.asg,bv):nullptr; }catch(std::exception&){cur=nullptr;} uint64_t x; if(cur&&isNum(cur)&&Z3_get_numeral_uint64(Z,cur,&x)){ vals.push_back(x); ms.push_back({}); block=znot(Z3_mk_eq(Z,bv,Z3_mk_unsigned_int64(Z,x,bvs(bits)))); } }
  while(true){ if(vals.size()>=OPT_ENUM){ incomplete("value enumeration limit at "+stackLoc(s)); break; } std::map<int,Z3_ast> m; Z3_ast g=simp(block); Res r= g==A_FALSE?UNSAT:solve(s,{g},&m); if(r==UNSAT) break; if(r==UNK){ incomplete("solver unknown while enumerating values"); break; } std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; Z3_ast val=substAsg(full,bv); uint64_t x; if(!isNum(val)||!Z3_get_numeral_uint64(Z,val,&x)) { incomplete("enumeration"); break; } vals.push_back(x); ms.push_back(m); block=zand(block,znot(Z3_mk_eq(Z,bv,Z3_mk_unsigned_int64(Z,x,bvs(bits))))); }
  if(vals.empty()) killPath("infeasible");
  for(size_t i=1;i<vals.size();i++){ State*n=forkState(s); addPC(*n,simp(Z3_mk_eq(Z,bv,Z3_mk_unsigned_int64(Z,vals[i],bvs(bits))))); applyModel(*n,ms[i]); n->conc[id]=vals[i]; if(slot>=0) n->st.back().regs[slot]=VI(vals[i],bits); WORK.push_back(n); }
  if(vals.size()>1) addPC(s,simp(Z3_mk_eq(Z,bv,Z3_mk_unsigned_int64(Z,vals[0],bvs(bits))))); applyModel(s,ms[0]); s.conc[id]=vals[0]; if(slot>=0) s.st.back().regs[slot]=VI(vals[0],bits); return vals[0]; }
static uint64_t concOp(State&s,Frame&f,const Op&o){ Val v=opv(s,f,o); if(v.k==KI) return v.c; return concInt(s,v,o.slot); }
// symbolic address -> concrete, with an explicit out-of-bounds query on the object the current model points into
static uint64_t concAddr(State&s,Frame&f,const Op&o,uint64_t n){ Val v=opv(s,f,o); if(v.k==KI) return v.c; if(v.k==KU){ return concInt(s,v,o.slot);} if(v.k!=KS) killPath("unsupported: raw address"); auto it=s.conc.find(aid(v.a)); if(it!=s.conc.end()) return it->second;
  std::map<int,Z3_ast> m; Z3_ast cur=substAsg(s.asg,v.a); uint64_t x; if(!isNum(cur)||!Z3_get_numeral_uint64(Z,cur,&x)){ return concInt(s,v,o.slot); }
  Obj*ob=findObjRaw(s,x); if(!ob){ // the current model is out of bounds
    report(s,"memory","access at "+describeAddr(s,x),s.asg); ASSERTS["memory safety / defined behaviour"].violated++; // continue with in-bounds values of nearest object
    auto q=s.mem.upper_bound(x); if(q==s.mem.begin()) killPath("memory error"); --q; ob=q->second.get(); }
  else { Z3_ast lo=Z3_mk_unsigned_int64(Z,ob->base,bvs(64)),hi=Z3_mk_unsigned_int64(Z,ob->base+ob->size-n,bvs(64)); Z3_ast oob= ob->size<n?A_TRUE: zor(Z3_mk_bvult(Z,v.a,lo),Z3_mk_bvugt(Z,v.a,hi)); Res r=solve(s,{simp(oob)},&m); 
    if(r==SAT){ std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; Z3_ast val=substAsg(full,v.a); uint64_t y=0; Z3_get_numeral_uint64(Z,val,&y); Obj*o2=findObjRaw(s,y); if(!o2||y+n>o2->base+o2->size){ report(s,"memory","access at "+describeAddr(s,y),full); ASSERTS["memory safety / defined behaviour"].violated++; Z3_ast in=znot(oob); m.clear(); r=solve(s,{simp(in)},&m); if(r!=SAT) killPath("memory error"); addPC(s,simp(in)); applyModel(s,m); } }
    else if(r==UNSAT) ASSERTS["memory safety / defined behaviour"].discharged++; else incomplete("solver unknown on bounds query"); return concInt(s,v,o.slot); }
  Z3_ast lo=Z3_mk_unsigned_int64(Z,ob->base,bvs(64)),hi=Z3_mk_unsigned_int64(Z,ob->base+ob->size-n,bvs(64)); Z3_ast in=zand(Z3_mk_bvuge(Z,v.a,lo),Z3_mk_bvule(Z,v.a,hi)); m.clear(); if(ob->size<n||solve(s,{simp(in)},&m)!=SAT) killPath("memory error"); addPC(s,simp(in)); applyModel(s,m); return concInt(s,v,o.slot); }

static Val fconst2(unsigned opc,double a,double b,unsigned bits){ double r; switch(opc){ case Instruction::FAdd:r=a+b;break; case Instruction::FSub:r=a-b;break; case Instruction::FMul:r=a*b;break; case Instruction::FDiv:r=a/b;break; default:r=fmod(a,b);} if(bits==32&&OPT_IEEE) r=(float)r; return VF(r,bits); }
static bool exactOp(unsigned opc,double a,double b){ if(!std::isfinite(a)||!std::isfinite(b)) return true; switch(opc){ case Instruction::FAdd: case Instruction::FSub:{ if(opc==Instruction::FSub) b=-b; double s=a+b; double bb=s-a; double e=(a-(s-bb))+(b-bb); return std::isfinite(s)&&e==0; } case Instruction::FMul:{ double p=a*b; return std::isfinite(p)&&fma(a,b,-p)==0; } case Instruction::FDiv:{ if(b==0) return true; double q=a/b; return std::isfinite(q)&&fma(q,b,-a)==0; } default: return true; } }
// x * y where a divisor of one operand equals the other operand ((p/w)*w); the divisor is known to be nonzero on this path
static Z3_ast mulCancel(Z3_ast x,Z3_ast y,int depth=0){ if(Z3_get_ast_kind(Z,x)!=Z3_APP_AST) return nullptr; Z3_decl_kind k=kindOf(x); if(k!=Z3_OP_DIV&&k!=Z3_OP_MUL) return nullptr; Z3_app ap=Z3_to_app(Z,x); if(Z3_get_app_num_args(Z,ap)!=2) return nullptr; Z3_ast p=Z3_get_app_arg(Z,ap,0),q=Z3_get_app_arg(Z,ap,1);
  if(k==Z3_OP_DIV){ if(q==y) return p; if(depth<3){ Z3_ast r=mulCancel(p,y,depth+1); if(r) return Z3_mk_div(Z,r,q); } return nullptr; }
  if(depth<3){ Z3_ast r=mulCancel(p,y,depth+1); if(r) return r==R_ONE?q:q==R_ONE?r:zmul(r,q); r=mulCancel(q,y,depth+1); if(r) return r==R_ONE?p:zmul(p,r); } return nullptr; }
static Val floatOp(State&s,unsigned opc,Val a,Val b,unsigned bits,int dslot){ (void)dslot;
  if(a.k==KU||b.k==KU){ return VU(bits); }
  if(a.k==KF&&b.k==KF){ if(OPT_IEEE||exactOp(opc,a.d,b.d)) return fconst2(opc,a.d,b.d,bits); }
  if((a.k==KF&&!std::isfinite(a.d))||(b.k==KF&&!std::isfinite(b.d))){ double x=a.k==KF?a.d:1.,y=b.k==KF?b.d:1.; if(std::isnan(x)||std::isnan(y)) return VF(NAN,bits); if(opc==Instruction::FAdd||opc==Instruction::FSub) return fconst2(opc,x,y,bits); if(opc==Instruction::FDiv&&a.k==KG) return VF(0,bits); killPath("unsupported: infinity in symbolic arithmetic"); }
  if((a.k!=KF&&a.k!=KG)||(b.k!=KF&&b.k!=KG)) killPath("unsupported: float op on raw bits");
  switch(opc){ case Instruction::FAdd: if(a.k==KF&&a.d==0) return b; if(b.k==KF&&b.d==0) return a; break; case Instruction::FSub: if(b.k==KF&&b.d==0) return a; if(a.k==KG&&b.k==KG&&a.a==b.a) return VF(0,bits); break; case Instruction::FMul: if((a.k==KF&&a.d==0)||(b.k==KF&&b.d==0)) return VF(0,bits); if(a.k==KF&&a.d==1) return b; if(b.k==KF&&b.d==1) return a; break; case Instruction::FDiv: if(b.k==KF&&b.d==1) return a; break; default: break; }
  Z3_ast x=toReal(a),y=toReal(b),r; bool bn=isNum(x)&&isNum(y);
  switch(opc){ case Instruction::FAdd:r=zadd(x,y);break; case Instruction::FSub:r=zsub(x,y);break; case Instruction::FMul:{ r=nullptr; if(!isNum(x)&&!isNum(y)){ r=mulCancel(x,y); if(!r) r=mulCancel(y,x); } if(!r) r=zmul(x,y); break; }
    case Instruction::FDiv:{ if(isNum(y)){ if(b.k==KF&&b.d==0){ // x/0
          EXCLUDED["division of a symbolic value by zero"]++; report(s,"div0","division by zero",s.asg); killPath("excluded: division by zero"); } r=Z3_mk_div(Z,x,y); break; }
        Z3_ast z=simp(Z3_mk_eq(Z,y,R_ZERO)); bool fb=true; if(s.flt&&s.asgOk&&z!=A_FALSE&&evalAsg(s,z,&fb)&&!fb) z=A_FALSE; if(z!=A_FALSE){ std::map<int,Z3_ast> m; bool bb; Res r1; if(evalAsg(s,z,&bb)&&bb) r1=SAT; else r1=solve(s,{z},&m); if(r1==SAT){ EXCLUDED["division by zero"]++; std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; if(OPT_DETECT_DIV0) report(s,"div0","division by zero",full); } else if(r1==UNK) incomplete("unknown: zero divisor");
          if(r1!=UNSAT){ Z3_ast nz=znot(z); std::map<int,Z3_ast> m2; Res r2=feasible(s,nz,&m2); if(r2==UNSAT) killPath("excluded: division by zero"); assumeIn(s,nz,r2,m2); } }
        if(a.k==KF&&a.d==0) return VF(0,bits); if(x==y) return VF(1,bits);
        r=Z3_mk_div(Z,x,y); break; }
    default: killPath("unsupported: frem"); }
  if(bn) r=simp(r); return mkG(r,bits); }
// single precision (--flt): a rounded symbolic value is off by a fixed fraction of the last place; what comes of it is confirmed by replaying with the real rounding
static Val roundF(State&s,Val v){ if(!OPT_FLT||OPT_IEEE||HAVE_FIXED) return v; if(v.k==KF){ if(!std::isfinite(v.d)||v.d==(double)(float)v.d) return v; s.flt=true; v.d=(float)v.d; return v; } if(v.k!=KG) return v; s.flt=true; if(isNum(v.a)) return VF((double)(float)atof(Z3_get_numeral_decimal_string(Z,v.a,25)),v.bits);
  int k=s.cnt["single precision"]++; return mkG(zmul(v.a,simp(zadd(R_ONE,realOf(std::ldexp(k%2?-0.6875:0.625,-24))))),v.bits); }
static Val fcmpV(State&s,CmpInst::Predicate p,Val a,Val b){ if(a.k==KU||b.k==KU){ return VU(1); } if(a.k==KF&&b.k==KF){ double x=a.d,y=b.d; bool un=std::isnan(x)||std::isnan(y),r=false; switch(p){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; case CmpInst::FCMP_TRUE:r=true;break; default:break;} return VI(r,1); }
  if(p==CmpInst::FCMP_ORD||p==CmpInst::FCMP_UNO){ bool nan=(a.k==KF&&std::isnan(a.d))||(b.k==KF&&std::isnan(b.d)); return VI((p==CmpInst::FCMP_UNO)==nan,1); }
  if((a.k==KF&&!std::isfinite(a.d))||(b.k==KF&&!std::isfinite(b.d))){ Val x=a,y=b; if(x.k!=KF) x=VF(0,64); if(y.k!=KF) y=VF(0,64); return fcmpV(s,p,x,y); }
  if((a.k!=KF&&a.k!=KG)||(b.k!=KF&&b.k!=KG)) killPath("unsupported: float compare on raw bits");
  Z3_ast x=toReal(a),y=toReal(b),r; if(a.k==KG&&b.k==KF) noteNN(x); if(b.k==KG&&a.k==KF) noteNN(y); switch(p){ case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r=Z3_mk_eq(Z,x,y);break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r=znot(Z3_mk_eq(Z,x,y));break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r=Z3_mk_gt(Z,x,y);break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r=Z3_mk_ge(Z,x,y);break; case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r=Z3_mk_lt(Z,x,y);break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r=Z3_mk_le(Z,x,y);break; case CmpInst::FCMP_TRUE: return VI(1,1); default: return VI(0,1);} return mkSs(r,1); }
static Val rawOf(const Val&v){ Val o; o.k=KR; o.bits=v.bits; o.r=new vector<RawB>; for(unsigned i=0;i<(v.bits+7)/8u;i++){ if(v.k==KI) o.r->push_back({VI(v.c>>(8*i),8),0}); else if(v.k==KR) o.r->push_back((*v.r)[i]); else o.r->push_back({v,(uint8_t)i}); } return o; }
static Val intOp(State&s,unsigned opc,Val a,Val b,unsigned bits){ if(a.k==KI&&b.k==KI&&bits<=64){ uint64_t x=a.c,y=b.c; switch(opc){ case Instruction::Add:return VI(x+y,bits); case Instruction::Sub:return VI(x-y,bits); case Instruction::Mul:return VI(x*y,bits); case Instruction::And:return VI(x&y,bits); case Instruction::Or:return VI(x|y,bits); case Instruction::Xor:return VI(x^y,bits);
      case Instruction::Shl:return VI(y>=bits?0:x<<y,bits); case Instruction::LShr:return VI(y>=bits?0:x>>y,bits); case Instruction::AShr:return VI((uint64_t)(sx(x,bits)>>std::min<uint64_t>(y,bits-1)),bits);
      case Instruction::UDiv: if(!y) runtimeError(s,"div0int","integer division by zero"); return VI(x/y,bits); case Instruction::URem: if(!y) runtimeError(s,"div0int","integer division by zero"); return VI(x%y,bits);
      case Instruction::SDiv: if(!y) runtimeError(s,"div0int","integer division by zero"); if(sx(y,bits)==-1) return VI(-x,bits); return VI((uint64_t)(sx(x,bits)/sx(y,bits)),bits); case Instruction::SRem: if(!y) runtimeError(s,"div0int","integer division by zero"); if(sx(y,bits)==-1) return VI(0,bits); return VI((uint64_t)(sx(x,bits)%sx(y,bits)),bits); } }
  if(a.k==KU||b.k==KU){ return VU(bits); }
  if(a.k==KR||b.k==KR){ // byte-granular manipulation of raw values
    if((opc==Instruction::Shl||opc==Instruction::LShr)&&b.k==KI&&b.c%8==0&&bits%8==0){ Val r=rawOf(a); unsigned k=b.c/8,n=bits/8; Val o; o.k=KR;o.bits=bits;o.r=new vector<RawB>; for(unsigned i=0;i<n;i++){ int j= opc==Instruction::Shl?(int)i-(int)k:(int)(i+k); if(j<0||j>=(int)n) o.r->push_back({VI(0,8),0}); else o.r->push_back((*r.r)[j]); } return rawNorm(o,false); }
    if(opc==Instruction::Or||opc==Instruction::Add||opc==Instruction::Xor){ Val x=rawOf(a),y=rawOf(b); Val o; o.k=KR;o.bits=bits;o.r=new vector<RawB>; bool ok=true; for(unsigned i=0;i<bits/8u;i++){ auto&p=(*x.r)[i]; auto&q=(*y.r)[i]; if(p.v.k==KI&&p.v.c==0) o.r->push_back(q); else if(q.v.k==KI&&q.v.c==0) o.r->push_back(p); else ok=false; } if(ok) return rawNorm(o,false); }
    if(opc==Instruction::And&&b.k==KI){ Val x=rawOf(a); Val o; o.k=KR;o.bits=bits;o.r=new vector<RawB>; bool ok=true; for(unsigned i=0;i<bits/8u;i++){ unsigned mk=(b.c>>(8*i))&255; if(mk==255) o.r->push_back((*x.r)[i]); else if(mk==0) o.r->push_back({VI(0,8),0}); else ok=false; } if(ok) return rawNorm(o,false); }
    killPath("unsupported: integer op on float bits"); }
  if(bits==1){ Z3_ast x=toBool(a),y=toBool(b),r; switch(opc){ case Instruction::And:r=zand(x,y);break; case Instruction::Or:r=zor(x,y);break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r=Z3_mk_xor(Z,x,y);break; case Instruction::Mul: r=zand(x,y);break; default: killPath("unsupported: i1 op"); } return mkSs(r,1); }
  Z3_ast x=toBV(a),y=toBV(b),r; if(opc==Instruction::UDiv||opc==Instruction::SDiv||opc==Instruction::URem||opc==Instruction::SRem){ Z3_ast z=simp(Z3_mk_eq(Z,y,Z3_mk_unsigned_int64(Z,0,bvs(bits)))); if(z!=A_FALSE){ std::map<int,Z3_ast> m; Res q=feasible(s,z,&m); if(q==SAT){ std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; report(s,"div0int","integer division by zero",full); Z3_ast nz=znot(z); m.clear(); q=feasible(s,nz,&m); if(q==UNSAT) killPath("integer division by zero"); assumeIn(s,nz,q,m);} } }
  switch(opc){ case Instruction::Add:r=Z3_mk_bvadd(Z,x,y);break; case Instruction::Sub:r=Z3_mk_bvsub(Z,x,y);break; case Instruction::Mul:r=Z3_mk_bvmul(Z,x,y);break; case Instruction::And:r=Z3_mk_bvand(Z,x,y);break; case Instruction::Or:r=Z3_mk_bvor(Z,x,y);break; case Instruction::Xor:r=Z3_mk_bvxor(Z,x,y);break; case Instruction::Shl:r=Z3_mk_bvshl(Z,x,y);break; case Instruction::LShr:r=Z3_mk_bvlshr(Z,x,y);break; case Instruction::AShr:r=Z3_mk_bvashr(Z,x,y);break; case Instruction::UDiv:r=Z3_mk_bvudiv(Z,x,y);break; case Instruction::URem:r=Z3_mk_bvurem(Z,x,y);break; case Instruction::SDiv:r=Z3_mk_bvsdiv(Z,x,y);break; case Instruction::SRem:r=Z3_mk_bvsrem(Z,x,y);break; default: killPath("unsupported: int op"); }
  return mkSs(r,bits); }
static Val icmpV(State&s,CmpInst::Predicate p,Val a,Val b){ unsigned bits=a.bits; if(a.k==KI&&b.k==KI&&bits<=64){ uint64_t x=a.c,y=b.c; int64_t sxx=sx(x,bits),sy=sx(y,bits); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=sxx>sy;break; case CmpInst::ICMP_SGE:r=sxx>=sy;break; case CmpInst::ICMP_SLT:r=sxx<sy;break; default:r=sxx<=sy;} return VI(r,1); }
  if(a.k==KU||b.k==KU) return VU(1); if(a.k==KR||b.k==KR) killPath("unsupported: compare of float bits");
  Z3_ast r; if(bits==1&&(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)){ r=Z3_mk_eq(Z,toBool(a),toBool(b)); if(p==CmpInst::ICMP_NE) r=znot(r); return mkSs(r,1);} Z3_ast x=toBV(a),y=toBV(b); switch(p){ case CmpInst::ICMP_EQ:r=Z3_mk_eq(Z,x,y);break; case CmpInst::ICMP_NE:r=znot(Z3_mk_eq(Z,x,y));break; case CmpInst::ICMP_UGT:r=Z3_mk_bvugt(Z,x,y);break; case CmpInst::ICMP_UGE:r=Z3_mk_bvuge(Z,x,y);break; case CmpInst::ICMP_ULT:r=Z3_mk_bvult(Z,x,y);break; case CmpInst::ICMP_ULE:r=Z3_mk_bvule(Z,x,y);break; case CmpInst::ICMP_SGT:r=Z3_mk_bvsgt(Z,x,y);break; case CmpInst::ICMP_SGE:r=Z3_mk_bvsge(Z,x,y);break; case CmpInst::ICMP_SLT:r=Z3_mk_bvslt(Z,x,y);break; default:r=Z3_mk_bvsle(Z,x,y);} return mkSs(r,1); }
// decide a symbolic boolean by forking; returns this state's side. slot: register to overwrite.
static bool decide(State&s,Val c,int slot){ if(c.k==KI) return c.c&1; if(c.k==KU){ s.usesUninit=true; Val v=newVar(s,"uninit_"+std::to_string(UNINIT++),2,0,1,64); Z3_ast b=Z3_mk_gt(Z,v.a,R_ZERO); s.asg[varOf[aid(v.a)]]=R_ONE; c=mkS(b,1); if(slot>=0) s.st.back().regs[slot]=c; report(s,"uninit","branch depends on an uninitialised value",s.asg); }
  if(c.k!=KS) killPath("unsupported: branch on raw"); Z3_ast t=c.a; unsigned id=aid(t); auto it=s.conc.find(id); if(it!=s.conc.end()) return it->second; if(s.pcset.count(id)) return true; Z3_ast nt=simp(znot(t)); if(s.pcset.count(aid(nt))) return false;
  bool cur; bool known=evalAsg(s,t,&cur); std::map<int,Z3_ast> m1,m2; Res rt,rf; if(known){ ST.q_quick++; if(cur){ rt=SAT; rf=solve(s,{nt},&m2);} else { rf=SAT; rt=solve(s,{t},&m1);} } else { rt=solve(s,{t},&m1); rf= rt==UNSAT?SAT:solve(s,{nt},&m2); if(rt==UNSAT) m2.clear(); }
  // undecided branch: both sides are explored (an over-approximation, so nothing is missed); with --over the undecided condition is not passed on to later queries
  if(rt==UNK||rf==UNK){ OVERBR[stackLoc(s)]++; if(OPT_VERBOSE) fprintf(stderr,"unknown branch at %s\n",stackLoc(s).c_str());
    if(OPT_OVER){ State*n=forkState(s); State&B=*n; bool side= known?cur:(rt!=UNK); s.pcset.insert(aid(side?t:nt)); B.pcset.insert(aid(side?nt:t)); if(slot>=0){ s.st.back().regs[slot]=VI(side,1); B.st.back().regs[slot]=VI(!side,1); } s.conc[id]=side; B.conc[id]=!side; B.overApprox=true; if(!known) s.overApprox=true; WORK.push_back(n); return side; } }
  if(rt!=UNSAT&&rf!=UNSAT){ State*n=forkState(s); bool side=true; // continue with the side the current model satisfies
    if(known) side=cur; else if(rt==UNK) side=false; State&A=s; State&B=*n; if(side){ addPC(A,t); if(!known){ if(rt==SAT) applyModel(A,m1); else A.asgOk=false; } addPC(B,nt); if(rf==SAT) { applyModel(B,m2); } else B.asgOk=false; } else { addPC(A,nt); if(!known){ if(rf==SAT) applyModel(A,m2); else A.asgOk=false;} addPC(B,t); if(rt==SAT) applyModel(B,m1); else B.asgOk=false; }
    if(slot>=0){ A.st.back().regs[slot]=VI(side,1); B.st.back().regs[slot]=VI(!side,1); } if(B.asgOk||true) WORK.push_back(n); return side; }
  bool side=rt!=UNSAT; if(slot>=0) s.st.back().regs[slot]=VI(side,1); if(!known&&!s.asgOk){ applyModel(s,side?m1:m2); } s.conc[id]=side; return side; }
struct Forks{ vector<std::pair<Z3_ast,Val>> alts; };
// assign dst among alternatives (cond_i -> value_i), forking; conditions must be exhaustive
static Val altValue(State&s,int dst,const vector<std::pair<Z3_ast,Val>>&alts){ vector<int> ok; vector<std::map<int,Z3_ast>> ms(alts.size()); for(size_t i=0;i<alts.size();i++){ Res r=feasible(s,alts[i].first,&ms[i]); if(r==UNK) incomplete("unknown alternative"); if(r==SAT) ok.push_back(i); }
  if(ok.empty()) killPath("infeasible"); for(size_t k=1;k<ok.size();k++){ State*n=forkState(s); addPC(*n,alts[ok[k]].first); applyModel(*n,ms[ok[k]]); n->st.back().regs[dst]=alts[ok[k]].second; n->st.back().ip++; WORK.push_back(n);} addPC(s,alts[ok[0]].first); applyModel(s,ms[ok[0]]); return alts[ok[0]].second; }
static Val symFloorLike(State&s,int dst,Val v,int mode,unsigned bits,bool toInt){ // mode 0 trunc 1 floor 2 ceil 3 round; enumerate the integer values
  Z3_ast x=toReal(v); vector<std::pair<Z3_ast,Val>> alts; vector<std::map<int,Z3_ast>> ms; Z3_ast block=A_TRUE; std::map<int,Z3_ast> cur=s.asg; Res r=SAT; if(!s.asgOk){ std::map<int,Z3_ast> m; r=solve(s,{A_TRUE},&m); }
  while(alts.size()<OPT_ENUM){ std::map<int,Z3_ast> m; if(!alts.empty()||!s.asgOk){ r=solve(s,{simp(block)},&m); if(r!=SAT) break; } std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; Z3_ast val=substAsg(full,x); string ds; double d; if(isNum(val)||Z3_is_algebraic_number(Z,val)){ ds=Z3_get_numeral_decimal_string(Z,val,20); d=atof(ds.c_str()); } else { r=UNK; break; }
    double k= mode==0?std::trunc(d):mode==1?std::floor(d):mode==2?std::ceil(d):std::round(d); Z3_ast c; auto R=[&](double q){return realOf(q);} ; if(mode==1||(mode==0&&k>0)) c=zand(Z3_mk_le(Z,R(k),x),Z3_mk_lt(Z,x,R(k+1))); else if(mode==2||(mode==0&&k<0)) c=zand(Z3_mk_lt(Z,R(k-1),x),Z3_mk_le(Z,x,R(k))); else if(mode==0) c=zand(Z3_mk_lt(Z,R(-1),x),Z3_mk_lt(Z,x,R(1))); else c= k>0?zand(Z3_mk_le(Z,R(k-.5),x),Z3_mk_lt(Z,x,R(k+.5))): k<0?zand(Z3_mk_lt(Z,R(k-.5),x),Z3_mk_le(Z,x,R(k+.5))):zand(Z3_mk_lt(Z,R(-.5),x),Z3_mk_lt(Z,x,R(.5)));
    c=simp(c); bool chk; { std::map<int,Z3_ast> f2=full; Z3_ast e=substAsg(f2,c); chk= e==A_TRUE; } if(!chk){ r=UNK; break; }
    alts.push_back({c, toInt?VI((uint64_t)(int64_t)k,bits):VF(k,bits)}); ms.push_back(m); block=zand(block,znot(c)); }
  if(r==UNK) incomplete("unknown while enumerating integer part"); else if(alts.size()>=OPT_ENUM) incomplete("integer enumeration limit"); if(alts.empty()) killPath("infeasible");
  for(size_t k=1;k<alts.size();k++){ State*n=forkState(s); addPC(*n,alts[k].first); applyModel(*n,ms[k]); n->st.back().regs[dst]=alts[k].second; n->st.back().ip++; WORK.push_back(n);} if(alts.size()>1) addPC(s,alts[0].first); applyModel(s,ms[0]); return alts[0].second; }
static Val auxVar(State&s,const string&nm,Z3_ast init){ Val v=newVar(s,nm,2,0,0,64); int id=varOf[aid(v.a)]; if(init) s.asg[id]=init; else s.asgOk=false; return v; }
static Val symSqrt(State&s,Val v,unsigned bits){ if(v.k==KF){ if(v.d<0||!std::isfinite(v.d)) return VF(std::sqrt(v.d),bits); double r=std::sqrt(v.d); if(OPT_IEEE) return VF(r,bits); if(r*r==v.d&&fma(r,r,-v.d)==0) return VF(r,bits); }
  if(v.k==KU) return v; noteNN(toReal(v)); Z3_ast x=simp(toReal(v)); if(isNum(x)){ Val q=mkG(x,bits); if(q.k==KF){ double r=std::sqrt(q.d); if(r*r==q.d&&fma(r,r,-q.d)==0) return VF(r,bits);} mpq_class w(Z3_get_numeral_string(Z,x)); mpz_class mm=w.get_num()*w.get_den(); if(w>0){ mpz_class rt=sqrt(mm); if(rt*rt==mm) return mkG(mpqAst(mpq_class(rt)/w.get_den()),bits); if(mm<1000000){ long n=mm.get_si(),k=1; for(long p=2;p*p<=n;p++) while(n%(p*p)==0){ n/=p*p; k*=p; } mpq_class c=mpq_class(k)/w.get_den(); return mkG(simp(zmul(mpqAst(c),algVar(n))),bits); } } }
  if(!isNum(x)){ try{ Poly p=polyOf(x); if(p.empty()) return VF(0,bits); if(p.size()==1&&p.begin()->first.empty()){ return symSqrt(s,mkG(mpqAst(p.begin()->second),64),bits); } }catch(PolyFail&){} }
  if(!isNum(x)){ Z3_ast neg=simp(atomND(Z3_mk_lt(Z,x,R_ZERO))); bool sos=false; try{ const Poly&p=polyOf(x); sos=true; for(auto&t:p){ if(t.second<0) sos=false; for(auto&q:t.first) if(q.second&1) sos=false; } }catch(PolyFail&){ sos=false; } if(sos) neg=A_FALSE; if(neg!=A_FALSE){ std::map<int,Z3_ast> m; Res r=feasible(s,neg,&m); if(r==SAT){ EXCLUDED["square root of a negative value"]++; std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; report(s,"div0","square root of a negative value",full); std::map<int,Z3_ast> m2; Res r2=feasible(s,znot(neg),&m2); if(r2==UNSAT) killPath("excluded: sqrt of negative"); assumeIn(s,znot(neg),r2,m2);} } }
  string nm="sqrt!"+std::to_string(aid(x)); Val r=auxVar(s,nm,nullptr); bool was=false; Z3_ast c1=Z3_mk_ge(Z,r.a,R_ZERO),c2=Z3_mk_eq(Z,zmul(r.a,r.a),x); (void)was; if(!s.pcset.count(aid(c2))){ 
    // give the new variable its value under the current assignment when that is a perfect square, otherwise ask the solver
    addPC(s,c1); addPC(s,c2); try{ AXIOM.insert(aid(c2)); AXIOM.insert(aid(c1)); Poly px=polyOf(x); int rid=varOf[aid(r.a)]; REL[rid]=px; SQV.insert(rid); }catch(PolyFail&){} std::map<int,Z3_ast> m; s.asgOk=true; Z3_ast xv=substAsg(s.asg,x); bool set=false; if(isNum(xv)){ Val q=mkG(xv,64); if(q.k==KF){ double t=std::sqrt(q.d); if(t*t==q.d&&fma(t,t,-q.d)==0){ s.asg[varOf[aid(r.a)]]=realOf(t); set=true; } } }
    if(!set){ int id=varOf[aid(r.a)]; s.asg.erase(id); Res q=solve(s,{c2},&m); if(q==SAT) applyModel(s,m); else if(q==UNSAT) killPath("infeasible"); else s.asgOk=false; } }
  r.bits=bits; return r; }
static double snap(double v){ for(double t:{0.,1.,-1.,.5,-.5}) if(std::fabs(v-t)<1e-15) return t; return v; }
static void trigVars(State&s,Z3_ast x,Z3_ast*sn,Z3_ast*cs){ // sine / cosine of a symbolic angle: a point of the unit circle, functionally consistent, parity and double-angle aware
  Z3_ast nx=simp(Z3_mk_unary_minus(Z,x)); bool negd=false; Z3_ast base=x; if(aid(nx)<aid(x)&&s.trigAx.count(aid(nx))){ base=nx; negd=true; }
  string id=std::to_string(aid(base)); bool have=s.trigAx.count(aid(base)); Val S=auxVar(s,"sin!"+id,have?s.asg.count(varOf.size())?nullptr:nullptr:nullptr); (void)S; Val C=auxVar(s,"cos!"+id,nullptr); if(have){ s.asgOk=true; int a=varOf[aid(S.a)],b=varOf[aid(C.a)]; if(!s.asg.count(a)||!s.asg.count(b)) s.asgOk=false; }
  else { s.trigAx.insert(aid(base)); Z3_ast c=Z3_mk_eq(Z,zadd(zmul(S.a,S.a),zmul(C.a,C.a)),R_ONE); AXIOM.insert(aid(c)); { Poly p; p[Mono()]=1; p[Mono{{varOf[aid(S.a)],2}}]=-1; REL[varOf[aid(C.a)]]=p; } addPC(s,c); addPC(s,Z3_mk_le(Z,S.a,R_ONE)); addPC(s,Z3_mk_ge(Z,S.a,realOf(-1))); addPC(s,Z3_mk_le(Z,C.a,R_ONE)); addPC(s,Z3_mk_ge(Z,C.a,realOf(-1)));
    for(auto o:s.trigArgs){ string oi=std::to_string(aid(o)); Z3_ast so=Z3_mk_const(Z,Z3_mk_string_symbol(Z,("sin!"+oi).c_str()),S_REAL),co=Z3_mk_const(Z,Z3_mk_string_symbol(Z,("cos!"+oi).c_str()),S_REAL); Z3_ast two=realOf(2); 
      if(simp(zsub(base,zmul(two,o)))==R_ZERO){ addPC(s,Z3_mk_eq(Z,S.a,zmul(two,zmul(so,co)))); addPC(s,Z3_mk_eq(Z,C.a,zsub(zmul(co,co),zmul(so,so)))); } else if(simp(zsub(o,zmul(two,base)))==R_ZERO){ addPC(s,Z3_mk_eq(Z,so,zmul(two,zmul(S.a,C.a)))); addPC(s,Z3_mk_eq(Z,co,zsub(zmul(C.a,C.a),zmul(S.a,S.a)))); } }
    s.trigArgs.push_back(base); s.asgOk=true; std::map<int,Z3_ast> m; Res r=solve(s,{c},&m); if(r==SAT) applyModel(s,m); else s.asgOk=false; }
  *sn=negd?Z3_mk_unary_minus(Z,S.a):S.a; *cs=C.a; }

static string cstr(State&s,uint64_t a){ string r; while(r.size()<4096){ uint64_t off; Obj*o=findObj(s,a,1,false,&off); if(o->d->t[off]!=1) { r+='?'; a++; continue;} char c=o->d->b[off]; if(!c) break; r+=c; a++; } return r; }
static void pushFrame(State&s,FnInfo*fi,unsigned dst,int normal){ if(s.st.size()>3000) runtimeError(s,"nonterm","stack overflow (recursion)"); Frame f; f.f=fi; f.bb=0; f.ip=0; f.retDst=dst; f.normalBB=normal; f.regs.resize(fi->nslots); s.st.push_back(std::move(f)); }
static void jump(State&s,unsigned to){ Frame&f=s.st.back(); unsigned from=f.bb; BBInfo&B=f.f->bbs[to]; if(B.nphi){ vector<Val> nv(B.nphi); for(unsigned i=0;i<B.nphi;i++){ for(auto&p:B.phi[i]) if(p.first==from){ nv[i]=opv(s,f,p.second); break; } } for(unsigned i=0;i<B.nphi;i++) f.regs[B.ins[i].dst]=nv[i]; } f.bb=to; f.ip=B.nphi; }
typedef std::function<Val(State&,Frame&,DInst&)> Ext;
static std::unordered_map<string,Ext> EXT;
static uint64_t heapAlloc(State&s,uint64_t n,uint8_t allocf){ uint64_t a=allocObj(s,n,1,"heap block"); s.mem[a]->allocf=allocf; return a; }
static void heapFree(State&s,uint64_t a,uint8_t allocf){ if(!a) return; auto it=s.mem.find(a); if(it==s.mem.end()||it->second->kind!=1){ if(s.freed.count(a)) runtimeError(s,"memory","double free"); runtimeError(s,"memory","free of a pointer that is not a heap block"); } if(it->second->allocf!=allocf) runtimeError(s,"memory","mismatched new/delete"); s.freed[a]=it->second->name+"|"+std::to_string(it->second->size); s.mem.erase(it); }
static void doAssert(State&s,Val c,const string&msg){ auto&A=ASSERTS[msg]; if(c.k==KI){ if(c.c&1){ A.trivial++; return; } A.violated++; std::map<int,Z3_ast> m=s.asg; if(!s.asgOk){ Res r=solve(s,{A_TRUE},&m); (void)r; m.clear(); vector<Z3_ast> all=s.pc; r=solve(s,all,&m,true); if(r==UNSAT){ A.violated--; killPath("infeasible"); } if(r==UNK){ A.violated--; A.unknown++; incomplete("assertion on a path of unknown feasibility"); } } reportRobust(s,"assert",msg,A_TRUE,m); killPath("assertion failed"); }
  if(c.k==KU){ s.usesUninit=true; report(s,"uninit","assertion depends on an uninitialised value: "+msg,s.asg); A.violated++; killPath("assertion on uninitialised value"); }
  Z3_ast t=c.a,nt=simp(znot(t)); if(s.pcset.count(aid(t))){ A.trivial++; return; } std::map<int,Z3_ast> m; Res r=feasible(s,nt,&m); if(r==UNK) r=solve(s,{nt},&m,true,3); if(r==UNSAT){ A.discharged++; addPC(s,t); return; } if(r==UNK){ A.unknown++; incomplete("solver unknown on assertion: "+msg); addPC(s,t); s.asgOk=false; return; }
  A.violated++; { State v(s); std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; v.pc.push_back(nt); reportRobust(v,"assert",msg,nt,full); }
  if(s.flt) killPath("assertion failed"); std::map<int,Z3_ast> m2; Res r2=feasible(s,t,&m2); if(r2==UNSAT) killPath("assertion failed"); assumeIn(s,t,r2,m2); }
static void doAssume(State&s,Val c){ if(c.k==KI){ if(c.c&1) return; killPath("assume"); } if(c.k!=KS) killPath("assume on undefined value"); std::map<int,Z3_ast> m; Res r=feasible(s,c.a,&m); if(r==UNSAT) killPath("assume"); if(r==UNK) incomplete("unknown assume"); assumeIn(s,c.a,r,m); }
static Val minmaxF(State&s,Val a,Val b,bool mn,unsigned bits){ Val c=fcmpV(s,CmpInst::FCMP_OLT,a,b); bool lt=decide(s,c,-1); return mn==lt?a:b; }
static const Instruction* curI=nullptr;
static Val nameInput(State&s,const string&nm,int kind,double lo,double hi,unsigned bits){ int k=s.cnt[nm]++; string full=nm+"#"+std::to_string(k); if(HAVE_FIXED){ auto it=FIXED.find(full); double v= it==FIXED.end()? lo:it->second; if(kind==1) return VI((uint64_t)(int64_t)v,bits); if(OPT_IEEE) return VF(v,bits); return VF(v,bits);} Val v=newVar(s,full,kind,lo,hi,bits); int id=varOf[aid(v.a)]; if(kind==0){ if(lo==hi) return VF(lo,bits); addPC(s,Z3_mk_ge(Z,v.a,realOf(lo))); addPC(s,Z3_mk_le(Z,v.a,realOf(hi))); } else { if(lo==hi) return VI((uint64_t)(int64_t)lo,bits); if(!(bits==8&&lo==0&&hi==255)){ Z3_ast L=Z3_mk_unsigned_int64(Z,(uint64_t)(int64_t)lo,bvs(bits)),H=Z3_mk_unsigned_int64(Z,(uint64_t)(int64_t)hi,bvs(bits)); addPC(s,Z3_mk_bvsge(Z,v.a,L)); addPC(s,Z3_mk_bvsle(Z,v.a,H)); } } (void)id; return v; }
static Val callExt(State&s,Frame&f,DInst&d,const Function*F,bool*handled){ string nm=F->getName().str(); *handled=true; auto arg=[&](unsigned i){ return opv(s,f,d.ops[i]); }; auto carg=[&](unsigned i){ return concOp(s,f,d.ops[i]); };
  Intrinsic::ID id=F->getIntrinsicID(); if(id!=Intrinsic::not_intrinsic){ switch(id){
    case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return Val();
    case Intrinsic::lifetime_start:{ uint64_t a=carg(1); Obj*o=findObjRaw(s,a); if(o&&o->base==a){ uint64_t off; o=findObj(s,a,o->size,true,&off); o->d->cells.clear(); std::fill(o->d->t.begin(),o->d->t.end(),0);} return Val(); }
    case Intrinsic::stacksave: return VI(0,64); case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return arg(0);
    case Intrinsic::is_constant: return VI(0,1); case Intrinsic::objectsize: return VI(~0ull,d.bits);
    case Intrinsic::memcpy: case Intrinsic::memmove:{ uint64_t n=carg(2),a=carg(0),b=carg(1); memCopy(s,a,b,n); return Val(); }
    case Intrinsic::memset:{ uint64_t n=carg(2),a=carg(0); Val v=arg(1); if(!n) return Val(); uint64_t off; Obj*o=findObj(s,a,n,true,&off); clearRange(*o->d,off,n); if(v.k==KI){ memset(&o->d->b[off],(int)v.c,n); memset(&o->d->t[off],1,n);} else for(uint64_t i=0;i<n;i++) wr(s,*o->d,off+i,v,1); return Val(); }
    case Intrinsic::trap: runtimeError(s,"trap","trap"); 
    case Intrinsic::fabs:{ Val v=arg(0); if(v.k==KF) return VF(std::fabs(v.d),d.bits); if(v.k==KU) return v; Val c=fcmpV(s,CmpInst::FCMP_OLT,v,VF(0,d.bits)); if(c.k==KS&&!OPT_FORKSEL){ return mkG(Z3_mk_ite(Z,c.a,Z3_mk_unary_minus(Z,v.a),v.a),d.bits);} bool neg=decide(s,c,-1); if(neg) return floatOp(s,Instruction::FSub,VF(0,d.bits),v,d.bits,-1); return v; }
    case Intrinsic::sqrt: return symSqrt(s,arg(0),d.bits);
    case Intrinsic::sin: case Intrinsic::cos:{ Val v=arg(0); if(v.k==KU) return v; if(v.k==KG){ Z3_ast x=simp(v.a); if(isNum(x)) v=VF(atof(Z3_get_numeral_decimal_string(Z,x,25)),d.bits); else { Z3_ast a,b; trigVars(s,x,&a,&b); return mkG(id==Intrinsic::sin?a:b,d.bits);} } double r=id==Intrinsic::sin?std::sin(v.d):std::cos(v.d); return VF(OPT_IEEE?r:snap(r),d.bits); }
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round:{ Val v=arg(0); int m=id==Intrinsic::trunc?0:id==Intrinsic::floor?1:id==Intrinsic::ceil?2:3; if(v.k==KF) return VF(m==0?std::trunc(v.d):m==1?std::floor(v.d):m==2?std::ceil(v.d):std::round(v.d),d.bits); if(v.k==KU) return v; return symFloorLike(s,d.dst,v,m,d.bits,false); }
    case Intrinsic::fmuladd: case Intrinsic::fma: return floatOp(s,Instruction::FAdd,floatOp(s,Instruction::FMul,arg(0),arg(1),d.bits,-1),arg(2),d.bits,-1);
    case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum:{ Val a=arg(0),b=arg(1); bool mn=id==Intrinsic::minnum||id==Intrinsic::minimum; return minmaxF(s,a,b,mn,d.bits);} 
    case Intrinsic::copysign:{ Val a=arg(0),b=arg(1); if(a.k==KF&&b.k==KF) return VF(std::copysign(a.d,b.d),d.bits); Val c=fcmpV(s,CmpInst::FCMP_OLT,a,VF(0,d.bits)); bool an=decide(s,c,-1); bool bn=decide(s,fcmpV(s,CmpInst::FCMP_OLT,b,VF(0,d.bits)),-1); return an==bn?a:floatOp(s,Instruction::FSub,VF(0,d.bits),a,d.bits,-1); }
    case Intrinsic::pow:{ Val a=arg(0),b=arg(1); if(a.k==KF&&b.k==KF) return VF(std::pow(a.d,b.d),d.bits); if(b.k==KF&&b.d==std::floor(b.d)&&b.d>=0&&b.d<=16){ Val r=VF(1,d.bits); for(int i=0;i<(int)b.d;i++) r=floatOp(s,Instruction::FMul,r,a,d.bits,-1); return r;} if(b.k==KF&&b.d==.5) return symSqrt(s,a,d.bits); killPath("unsupported: symbolic pow"); }
    case Intrinsic::powi:{ Val a=arg(0); int64_t e=sx(carg(1),32); Val r=VF(1,d.bits); for(int64_t i=0;i<std::llabs(e);i++) r=floatOp(s,Instruction::FMul,r,a,d.bits,-1); if(e<0) r=floatOp(s,Instruction::FDiv,VF(1,d.bits),r,d.bits,-1); return r; }
    case Intrinsic::log: case Intrinsic::exp: case Intrinsic::log2: case Intrinsic::log10:{ Val a=arg(0); if(a.k==KF) return VF(id==Intrinsic::log?std::log(a.d):id==Intrinsic::exp?std::exp(a.d):id==Intrinsic::log2?std::log2(a.d):std::log10(a.d),d.bits); killPath("unsupported: symbolic log/exp"); }
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin:{ Val a=arg(0),b=arg(1); auto p=id==Intrinsic::smax?CmpInst::ICMP_SGT:id==Intrinsic::smin?CmpInst::ICMP_SLT:id==Intrinsic::umax?CmpInst::ICMP_UGT:CmpInst::ICMP_ULT; Val c=icmpV(s,p,a,b); if(c.k==KI) return c.c?a:b; if(c.k!=KS) return VU(d.bits); return mkSs(Z3_mk_ite(Z,c.a,toBV(a),toBV(b)),d.bits); }
    case Intrinsic::abs:{ Val a=arg(0); Val c=icmpV(s,CmpInst::ICMP_SLT,a,VI(0,d.bits)); Val n=intOp(s,Instruction::Sub,VI(0,d.bits),a,d.bits); if(c.k==KI) return c.c?n:a; if(c.k!=KS) return VU(d.bits); return mkSs(Z3_mk_ite(Z,c.a,toBV(n),toBV(a)),d.bits); }
    case Intrinsic::usub_sat:{ Val a=arg(0),b=arg(1); Val c=icmpV(s,CmpInst::ICMP_ULT,a,b); Val r=intOp(s,Instruction::Sub,a,b,d.bits); if(c.k==KI) return c.c?VI(0,d.bits):r; if(c.k!=KS) return VU(d.bits); return mkSs(Z3_mk_ite(Z,c.a,toBV(VI(0,d.bits)),toBV(r)),d.bits); }
    case Intrinsic::uadd_sat:{ Val a=arg(0),b=arg(1); Val r=intOp(s,Instruction::Add,a,b,d.bits); Val c=icmpV(s,CmpInst::ICMP_ULT,r,a); if(c.k==KI) return c.c?VI(~0ull,d.bits):r; if(c.k!=KS) return VU(d.bits); return mkSs(Z3_mk_ite(Z,c.a,toBV(VI(~0ull,d.bits)),toBV(r)),d.bits); }
    case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:{ uint64_t x=carg(0),y=carg(1); unsigned b=arg(0).bits; Val r; r.k=KA; r.g=new vector<Val>(2); __int128 v; bool sg=id==Intrinsic::smul_with_overflow||id==Intrinsic::sadd_with_overflow||id==Intrinsic::ssub_with_overflow; if(sg){ __int128 p=sx(x,b),q=sx(y,b); v=id==Intrinsic::smul_with_overflow?p*q:id==Intrinsic::sadd_with_overflow?p+q:p-q; bool ov= v!=(__int128)sx((uint64_t)v,b); (*r.g)[0]=VI((uint64_t)v,b); (*r.g)[1]=VI(ov,1);} else { unsigned __int128 p=x,q=y,w; bool ov; if(id==Intrinsic::usub_with_overflow){ w=p-q; ov=x<y; } else { w=id==Intrinsic::umul_with_overflow?p*q:p+q; ov= (w>>b)!=0; } (*r.g)[0]=VI((uint64_t)w,b); (*r.g)[1]=VI(ov,1);} return r; }
    case Intrinsic::ctpop: return VI(__builtin_popcountll(carg(0)),d.bits); case Intrinsic::ctlz:{ uint64_t x=carg(0); unsigned n=0; for(int i=d.bits-1;i>=0&&!((x>>i)&1);i--) n++; return VI(n,d.bits);} case Intrinsic::cttz:{ uint64_t x=carg(0); unsigned n=0; for(unsigned i=0;i<d.bits&&!((x>>i)&1);i++) n++; return VI(n,d.bits);} 
    case Intrinsic::bswap:{ Val v=arg(0); unsigned n=d.bits/8; if(v.k==KI){ uint64_t r=0; for(unsigned i=0;i<n;i++) r|=((v.c>>(8*i))&255)<<(8*(n-1-i)); return VI(r,d.bits);} Z3_ast acc=nullptr; for(unsigned i=0;i<n;i++){ Z3_ast b=Z3_mk_extract(Z,8*i+7,8*i,toBV(v)); acc=acc?Z3_mk_concat(Z,acc,b):b; } return mkSs(acc,d.bits);} 
    case Intrinsic::fshl: case Intrinsic::fshr:{ uint64_t k=carg(2)%d.bits; Val a=arg(0),b=arg(1); if(id==Intrinsic::fshr) { if(k==0) return b; k=d.bits-k; } if(k==0) return a; return intOp(s,Instruction::Or,intOp(s,Instruction::Shl,a,VI(k,d.bits),d.bits),intOp(s,Instruction::LShr,b,VI(d.bits-k,d.bits),d.bits),d.bits);} 
    case Intrinsic::rint: case Intrinsic::nearbyint:{ Val v=arg(0); if(v.k==KF) return VF(std::nearbyint(v.d),d.bits); return symFloorLike(s,d.dst,v,3,d.bits,false);} 
    case Intrinsic::lround:{ Val v=arg(0); if(v.k==KF) return VI((uint64_t)std::lround(v.d),d.bits); return symFloorLike(s,d.dst,v,3,d.bits,true);} 
    case Intrinsic::is_fpclass:{ Val v=arg(0); uint64_t k=carg(1); double x=v.k==KF?v.d:1.; bool r=false; if(std::isnan(x)) r=k&3; else if(std::isinf(x)) r=k&(x<0?4:512); else r= (k&(8|16|32|64|128|256))!=0; return VI(r,1);} 
    default: killPath("unsupported intrinsic: "+nm); } }
  auto it=EXT.find(nm); if(it!=EXT.end()) return it->second(s,f,d); *handled=false; return Val(); }
static void initExt(){
#define E(n) EXT[n]=[](State&s,Frame&f,DInst&d)->Val
#define ARG(i) opv(s,f,d.ops[i])
#define CARG(i) concOp(s,f,d.ops[i])
  E("_Znwm"){ return VI(heapAlloc(s,CARG(0),1),64); }; E("_Znam"){ return VI(heapAlloc(s,CARG(0),2),64); }; E("malloc"){ return VI(heapAlloc(s,CARG(0),3),64); };
  E("calloc"){ uint64_t n=CARG(0)*CARG(1); uint64_t a=heapAlloc(s,n,3); auto&o=*s.mem[a]; std::fill(o.d->t.begin(),o.d->t.end(),1); return VI(a,64); };
  E("_ZnwmRKSt9nothrow_t"){ return VI(heapAlloc(s,CARG(0),1),64); }; E("_ZnamRKSt9nothrow_t"){ return VI(heapAlloc(s,CARG(0),2),64); };
  E("_ZdlPv"){ heapFree(s,CARG(0),1); return Val(); }; EXT["_ZdlPvm"]=EXT["_ZdlPv"]; E("_ZdaPv"){ heapFree(s,CARG(0),2); return Val(); }; EXT["_ZdaPvm"]=EXT["_ZdaPv"]; E("free"){ heapFree(s,CARG(0),3); return Val(); };
  E("__assert_fail"){ string m=cstr(s,CARG(0)); runtimeError(s,"crash","assertion in the code fails: "+m); return Val(); };
  for(const char*n:{"_ZSt9terminatev","abort","exit","_exit","__cxa_pure_virtual","__cxa_throw","__cxa_rethrow","__cxa_bad_cast","_ZSt17__throw_bad_allocv","_ZSt28__throw_bad_array_new_lengthv","_ZSt16__throw_bad_castv"}){ string nn=n; EXT[n]=[nn](State&s,Frame&,DInst&)->Val{ runtimeError(s,"crash",nn); return Val(); }; }
  E("__cxa_atexit"){ return VI(0,32); }; E("__cxa_allocate_exception"){ return VI(heapAlloc(s,CARG(0),3),64); };
  E("__cxa_guard_acquire"){ uint64_t off; uint64_t a=CARG(0); Obj*o=findObj(s,a,1,false,&off); Val v=rd(s,o,off,8,false); return VI(v.k==KI&&v.c?0:1,32); }; E("__cxa_guard_release"){ uint64_t off; Obj*o=findObj(s,CARG(0),1,true,&off); wr(s,*o->d,off,VI(1,8),1); return Val(); };
  E("strlen"){ uint64_t a=CARG(0),n=0; while(true){ uint64_t off; Obj*o=findObj(s,a+n,1,false,&off); Val v=rd(s,o,off,8,false); if(v.k==KI){ if(!v.c) break; } else { bool z=decide(s,icmpV(s,CmpInst::ICMP_EQ,v,VI(0,8)),-1); if(z) break; } n++; } return VI(n,64); };
  auto cmp=[](State&s,Frame&f,DInst&d)->Val{ uint64_t a=CARG(0),b=CARG(1),n=CARG(2); Val res=VI(0,32); vector<Val> x(n),y(n); for(uint64_t i=0;i<n;i++){ uint64_t o1,o2; Obj*p=findObj(s,a+i,1,false,&o1); x[i]=rd(s,p,o1,8,false); Obj*q=findObj(s,b+i,1,false,&o2); y[i]=rd(s,q,o2,8,false); if(x[i].k==KI&&y[i].k==KI&&x[i].c!=y[i].c){ n=i+1; x.resize(n); y.resize(n); break; } }
    for(int64_t i=n-1;i>=0;i--){ if(x[i].k==KU||y[i].k==KU) { s.usesUninit=true; report(s,"uninit","comparison of uninitialised memory",s.asg); killPath("uninitialised compare"); } if(x[i].k==KR||y[i].k==KR) killPath("unsupported: memcmp of float bits"); Val e=icmpV(s,CmpInst::ICMP_EQ,x[i],y[i]); Val l=icmpV(s,CmpInst::ICMP_ULT,x[i],y[i]); if(e.k==KI&&e.c) continue; Z3_ast d2=Z3_mk_ite(Z,toBool(l),toBV(VI(-1ll,32)),toBV(VI(1,32))); res=mkSs(Z3_mk_ite(Z,toBool(e),toBV(res),d2),32); } return res; };
  EXT["memcmp"]=cmp; EXT["bcmp"]=cmp;
  E("memcpy"){ memCopy(s,CARG(0),CARG(1),CARG(2)); return ARG(0); }; EXT["memmove"]=EXT["memcpy"];
  E("memset"){ uint64_t n=CARG(2),a=CARG(0); Val v=ARG(1); if(v.k==KI) v=VI(v.c,8); else v=mkSs(Z3_mk_extract(Z,7,0,toBV(v)),8); uint64_t off; if(n){ Obj*o=findObj(s,a,n,true,&off); for(uint64_t i=0;i<n;i++) wr(s,*o->d,off+i,v,1);} return ARG(0); };
  E("memchr"){ uint64_t a=CARG(0),c=CARG(1)&255,n=CARG(2); for(uint64_t i=0;i<n;i++){ uint64_t off; Obj*o=findObj(s,a+i,1,false,&off); Val v=rd(s,o,off,8,false); if(decide(s,icmpV(s,CmpInst::ICMP_EQ,v,VI(c,8)),-1)) return VI(a+i,64);} return VI(0,64); };
  struct M{ const char*n; double(*f)(double); }; static const M ms[]={{"acos",std::acos},{"asin",std::asin},{"atan",std::atan},{"tan",std::tan},{"exp",std::exp},{"log",std::log},{"cbrt",std::cbrt},{"log2",std::log2},{"log10",std::log10},{"sinh",std::sinh},{"cosh",std::cosh}}; for(auto&m:ms){ auto fn=m.f; string nn=m.n; EXT[nn]=[fn,nn](State&s,Frame&f,DInst&d)->Val{ Val v=ARG(0); if(v.k==KF) return VF(fn(v.d),d.bits); killPath("unsupported: symbolic "+nn); }; }
  E("atan2"){ Val a=ARG(0),b=ARG(1); if(a.k==KF&&b.k==KF) return VF(std::atan2(a.d,b.d),d.bits); killPath("unsupported: symbolic atan2"); };
  E("nextafter"){ Val a=ARG(0),b=ARG(1); if(a.k==KF&&b.k==KF) return VF(std::nextafter(a.d,b.d),64); killPath("unsupported: symbolic nextafter"); };
  E("fmod"){ Val a=ARG(0),b=ARG(1); if(a.k==KF&&b.k==KF) return VF(std::fmod(a.d,b.d),64); killPath("unsupported: symbolic fmod"); };
  E("hypot"){ Val a=ARG(0),b=ARG(1); return symSqrt(s,floatOp(s,Instruction::FAdd,floatOp(s,Instruction::FMul,a,a,64,-1),floatOp(s,Instruction::FMul,b,b,64,-1),64,-1),64); };
  // ---- harness API
  E("sx_int"){ string n=cstr(s,CARG(0)); int64_t lo=sx(CARG(1),32),hi=sx(CARG(2),32); return nameInput(s,n,1,lo,hi,32); };
  E("sx_u8"){ string n=cstr(s,CARG(0)); return nameInput(s,n,1,0,255,8); };
  E("sx_real"){ string n=cstr(s,CARG(0)); Val lo=ARG(1),hi=ARG(2); return nameInput(s,n,0,lo.d,hi.d,64); };
  E("sx_assume"){ doAssume(s,ARG(0)); return Val(); };
  E("sx_assert"){ string m=cstr(s,CARG(1)); doAssert(s,ARG(0),m); return Val(); };
  E("sx_close"){ string m=cstr(s,CARG(3)); Val a=ARG(0),b=ARG(1),t=ARG(2); if(a.k==KF&&b.k==KF){ doAssert(s,VI(std::fabs(a.d-b.d)<=t.d,1),m); return Val(); } if(a.k==KU||b.k==KU){ doAssert(s,VU(1),m); return Val(); } Val df=floatOp(s,Instruction::FSub,a,b,64,-1); if(df.k==KF){ doAssert(s,VI(std::fabs(df.d)<=t.d,1),m); return Val(); }
     { vector<Z3_ast> pf,pt; pinned(s,pf,pt); if(!pf.empty()) df.a=simp(Z3_substitute(Z,df.a,pf.size(),pf.data(),pt.data())); }
     if(s.flt&&s.asgOk&&df.k==KG){ Z3_ast T=toReal(t); Z3_ast c=simp(zand(Z3_mk_le(Z,df.a,T),Z3_mk_ge(Z,df.a,Z3_mk_unary_minus(Z,T)))); bool b=true; if(c!=A_TRUE&&c!=A_FALSE) for(int k=0;k<24;k++){ std::map<int,Z3_ast> keep=s.asg; // models next to the current one
       if(k) for(int id:s.inputs){ auto&V=VARS[id]; if(V.kind!=0||!keep.count(id)) continue; double x=k%2?V.lo+(V.hi-V.lo)*((rnd()%1000)+0.5)/1000.:atof(Z3_get_numeral_decimal_string(Z,keep[id],20))+(V.hi-V.lo)*((double)(rnd()%1001)-500.)/4.e4; s.asg[id]=realOf(std::min(V.hi,std::max(V.lo,x))); }
       bool ok=true; if(k) for(auto q:s.pc){ bool z=false; if(!evalAsg(s,q,&z)||!z){ ok=false; break; } } if(ok&&evalAsg(s,c,&b)&&!b){ std::map<int,Z3_ast> full=s.asg; s.asg=keep; ASSERTS[m].violated++; report(s,"assert",m,full); killPath("assertion failed"); } s.asg=keep; } }
     Z3_ast nn=nullptr; try{ Guard g(OPT_QT/500.); auto tt=Clk::now(); ND nd=ndOf(df.a); try{ double od=PDEADLINE; PDEADLINE=since(T0)+30; struct R{double o;~R(){PDEADLINE=o;}} rr{od}; const Poly&p=polyOf(nd.n); nn=p.empty()?R_ZERO:nullptr; }catch(PolyFail&f){ if(!f.big) nn=simpSom(nd.n); } ST.solver_s+=since(tt); }catch(std::exception&){ nn=nullptr; } if(nn==R_ZERO){ ASSERTS[m].discharged++; ST.q_unsat++; return Val(); } Z3_ast T=toReal(t); Z3_ast c; if(t.k==KF&&t.d==0) c=Z3_mk_eq(Z,df.a,R_ZERO); else c=zand(Z3_mk_le(Z,df.a,T),Z3_mk_ge(Z,df.a,Z3_mk_unary_minus(Z,T)));
     // decide the two sides separately: pure conjunctions are easier for nlsat
     if(t.k==KF&&t.d==0){ doAssert(s,mkSs(c,1),m); return Val(); }
     { Val up=mkSs(Z3_mk_le(Z,df.a,T),1); doAssert(s,up,m); Val dn=mkSs(Z3_mk_ge(Z,df.a,Z3_mk_unary_minus(Z,T)),1); doAssert(s,dn,m); } return Val(); };
  E("sx_param"){ string n=cstr(s,CARG(0)); auto it=PARAMS.find(n); return it==PARAMS.end()?VI(CARG(1),32):VI((uint64_t)(int64_t)it->second,32); };
  E("sx_reach"){ string n=cstr(s,CARG(0)); if(!s.asgOk){ vector<Z3_ast> all=s.pc; std::map<int,Z3_ast> m; Res r=solve(s,all,&m,true); if(r==UNSAT) killPath("infeasible"); if(r==SAT){ applyModel(s,m); s.asgOk=true; } } REACH[n]++; s.reached.push_back(n); return Val(); };
  E("sx_concretize"){ return VI(CARG(0),32); };
  E("sx_observe"){ string n=cstr(s,CARG(0)); s.obs.push_back({n,ARG(1)}); return Val(); };
  E("sx_native"){ return VI(0,1); };
  E("sx_is_concrete_d"){ Val v=ARG(0); return VI(v.k==KF,1); };
#undef E
}
static bool isThrowHelper(const string&n){ return n.compare(0,11,"_ZSt__throw")==0||n.find("__throw_")!=string::npos; }

static void step(State&s){ Frame&f=s.st.back(); BBInfo&B=f.f->bbs[f.bb]; DInst&d=B.ins[f.ip]; curI=d.I; ST.insts++; s.insts++; 
  switch(d.opc){
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:{ Val a=opv(s,f,d.ops[0]),b=opv(s,f,d.ops[1]); f.regs[d.dst]=intOp(s,d.opc,a,b,d.bits); f.ip++; return; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:{ Val a=opv(s,f,d.ops[0]),b=opv(s,f,d.ops[1]); if(a.k==KA) killPath("unsupported: vector op"); Val r=floatOp(s,d.opc,a,b,d.bits,d.dst); if(d.bits==32) r=roundF(s,r); s.st.back().regs[d.dst]=r; s.st.back().ip++; return; }
  case Instruction::FNeg:{ Val a=opv(s,f,d.ops[0]); if(a.k==KF) f.regs[d.dst]=VF(-a.d,d.bits); else if(a.k==KG) f.regs[d.dst]=mkG(Z3_mk_unary_minus(Z,a.a),d.bits); else f.regs[d.dst]=VU(d.bits); f.ip++; return; }
  case Instruction::ICmp:{ Val a=opv(s,f,d.ops[0]),b=opv(s,f,d.ops[1]); f.regs[d.dst]=icmpV(s,cast<ICmpInst>(d.I)->getPredicate(),a,b); f.ip++; return; }
  case Instruction::FCmp:{ Val a=opv(s,f,d.ops[0]),b=opv(s,f,d.ops[1]); f.regs[d.dst]=fcmpV(s,cast<FCmpInst>(d.I)->getPredicate(),a,b); f.ip++; return; }
  case Instruction::Alloca:{ auto*AI=cast<AllocaInst>(d.I); uint64_t n=concOp(s,f,d.ops[0]); uint64_t sz=DL->getTypeAllocSize(AI->getAllocatedType())*n; uint64_t a=allocObj(s,sz,2,"local variable"); f.allocas.push_back(a); f.regs[d.dst]=VI(a,64); f.ip++; return; }
  case Instruction::Load:{ Type*T=d.I->getType(); if(T->isAggregateType()||T->isVectorTy()) killPath("unsupported: aggregate load"); unsigned n=(d.bits+7)/8; uint64_t a=concAddr(s,f,d.ops[0],n); uint64_t off; Obj*o=findObj(s,a,n,false,&off); Val v=rd(s,o,off,d.bits,d.isf);
      s.st.back().regs[d.dst]=v; s.st.back().ip++; return; }
  case Instruction::Store:{ Val v=opv(s,f,d.ops[0]); unsigned n; Type*T=d.I->getOperand(0)->getType(); if(T->isAggregateType()||T->isVectorTy()) killPath("unsupported: aggregate store"); n=(typeBits(T)+7)/8; if(v.k==KU) v.bits=typeBits(T); uint64_t a=concAddr(s,f,d.ops[1],n); uint64_t off; Obj*o=findObj(s,a,n,true,&off); wr(s,*o->d,off,v,n); s.st.back().ip++; return; }
  case Instruction::GetElementPtr:{ auto*G=cast<GEPOperator>(d.I); Val base=opv(s,f,d.ops[0]); int64_t coff=0; Val sym; bool hs=false; unsigned i=1; for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it,++i){ Val ix=opv(s,f,d.ops[i]); if(StructType*ST_=it.getStructTypeOrNull()){ coff+=DL->getStructLayout(ST_)->getElementOffset(ix.c); continue; } int64_t es=DL->getTypeAllocSize(it.getIndexedType()); if(ix.k==KI) coff+=es*sx(ix.c,ix.bits); else if(ix.k==KS){ Z3_ast t=toBV(ix); if(ix.bits<64) t=Z3_mk_sign_ext(Z,64-ix.bits,t); t=Z3_mk_bvmul(Z,t,Z3_mk_unsigned_int64(Z,(uint64_t)es,bvs(64))); sym= hs?mkS(Z3_mk_bvadd(Z,sym.a,t),64):mkS(t,64); hs=true; } else { f.regs[d.dst]=VU(64); f.ip++; return; } }
      if(base.k==KI&&!hs) f.regs[d.dst]=VI(base.c+coff,64); else if(base.k==KU||base.k==KR) f.regs[d.dst]=VU(64); else { Z3_ast t=Z3_mk_bvadd(Z,toBV(base),Z3_mk_unsigned_int64(Z,(uint64_t)coff,bvs(64))); if(hs) t=Z3_mk_bvadd(Z,t,toBV(sym)); f.regs[d.dst]=mkSs(t,64); } f.ip++; return; }
  case Instruction::Trunc:{ Val a=opv(s,f,d.ops[0]); if(a.k==KI) f.regs[d.dst]=VI(a.c,d.bits); else if(a.k==KS){ if(a.bits==1) killPath("unsupported trunc"); if(d.bits==1) f.regs[d.dst]=mkSs(Z3_mk_eq(Z,Z3_mk_extract(Z,0,0,a.a),Z3_mk_unsigned_int64(Z,1,bvs(1))),1); else f.regs[d.dst]=mkSs(Z3_mk_extract(Z,d.bits-1,0,a.a),d.bits);} else if(a.k==KR){ Val o; o.k=KR;o.bits=d.bits;o.r=new vector<RawB>(a.r->begin(),a.r->begin()+(d.bits+7)/8); f.regs[d.dst]=rawNorm(o,false);} else f.regs[d.dst]=VU(d.bits); f.ip++; return; }
  case Instruction::ZExt: case Instruction::SExt:{ Val a=opv(s,f,d.ops[0]); bool sg=d.opc==Instruction::SExt; if(a.k==KI&&d.bits<=64) f.regs[d.dst]=VI(sg?(uint64_t)sx(a.c,a.bits):a.c,d.bits); else if(a.k==KS||a.k==KI){ if(a.bits==1){ f.regs[d.dst]=mkSs(Z3_mk_ite(Z,toBool(a),Z3_mk_unsigned_int64(Z,sg?~0ull>>(64-std::min(64u,d.bits)):1,bvs(d.bits)),Z3_mk_unsigned_int64(Z,0,bvs(d.bits))),d.bits);} else f.regs[d.dst]=mkSs(sg?Z3_mk_sign_ext(Z,d.bits-a.bits,toBV(a)):Z3_mk_zero_ext(Z,d.bits-a.bits,toBV(a)),d.bits);} else if(a.k==KR&&!sg){ Val o; o.k=KR;o.bits=d.bits;o.r=new vector<RawB>(*a.r); while(o.r->size()<d.bits/8) o.r->push_back({VI(0,8),0}); f.regs[d.dst]=rawNorm(o,false);} else f.regs[d.dst]=VU(d.bits); f.ip++; return; }
  case Instruction::FPExt: case Instruction::FPTrunc:{ Val a=opv(s,f,d.ops[0]); a.bits=d.bits; if(a.k==KF&&OPT_IEEE&&d.opc==Instruction::FPTrunc&&d.bits==32) a.d=(float)a.d; if(d.opc==Instruction::FPTrunc&&d.bits==32) a=roundF(s,a); f.regs[d.dst]=a; f.ip++; return; }
  case Instruction::SIToFP: case Instruction::UIToFP:{ Val v=opv(s,f,d.ops[0]); bool sg=d.opc==Instruction::SIToFP; if(v.k==KU){ f.regs[d.dst]=VU(d.bits); f.ip++; return; } uint64_t c=concOp(s,f,d.ops[0]); Frame&g=s.st.back(); double r=sg?(double)sx(c,v.bits):(double)c; g.regs[d.dst]=VF(r,d.bits); g.ip++; return; }
  case Instruction::FPToSI: case Instruction::FPToUI:{ Val v=opv(s,f,d.ops[0]); bool sg=d.opc==Instruction::FPToSI; if(v.k==KU){ f.regs[d.dst]=VU(d.bits); f.ip++; return; } if(v.k==KG){ Z3_ast x=simp(v.a); if(isNum(x)) v=VF(atof(Z3_get_numeral_decimal_string(Z,x,25)),64); }
      if(v.k==KF){ double t=std::trunc(v.d); double lo=sg?-std::ldexp(1.,d.bits-1):0,hi=sg?std::ldexp(1.,d.bits-1)-1:std::ldexp(1.,d.bits)-1; if(!(t>=lo&&t<=hi)){ if(OPT_CASTCHECK){ runtimeError(s,"cast","floating value "+std::to_string(v.d)+" does not fit the integer it is converted to"); } f.regs[d.dst]=(std::fabs(t)<9e18)?VI((uint64_t)(int64_t)t,d.bits):VI(sg&&d.bits>=32?1ull<<(d.bits-1):0,d.bits); f.ip++; return; } f.regs[d.dst]=sg?VI((uint64_t)(int64_t)t,d.bits):VI((uint64_t)t,d.bits); f.ip++; return; }
      if(v.k!=KG) killPath("unsupported: fptosi of raw"); if(OPT_CASTCHECK&&d.bits<=32){ double lo=sg?-std::ldexp(1.,d.bits-1):0,hi=sg?std::ldexp(1.,d.bits-1)-1:std::ldexp(1.,d.bits)-1; Z3_ast bad=simp(zor(Z3_mk_le(Z,v.a,realOf(lo-1)),Z3_mk_ge(Z,v.a,realOf(hi+1)))); if(bad!=A_FALSE){ std::map<int,Z3_ast> m; Res r=feasible(s,bad,&m); if(r==SAT){ std::map<int,Z3_ast> full=s.asg; for(auto&p:m) full[p.first]=p.second; report(s,"cast","floating value does not fit the integer it is converted to",full); ASSERTS["memory safety / defined behaviour"].violated++; m.clear(); Res r2=feasible(s,znot(bad),&m); if(r2==UNSAT) killPath("cast out of range"); assumeIn(s,znot(bad),r2,m);} else if(r==UNSAT) ASSERTS["memory safety / defined behaviour"].discharged++; else incomplete("unknown cast range"); } }
      Val r=symFloorLike(s,d.dst,v,0,d.bits,true); Frame&g=s.st.back(); g.regs[d.dst]=r; g.ip++; return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr:{ Val a=opv(s,f,d.ops[0]); if(a.k==KI) a=VI(a.c,d.bits); else if(a.k==KS&&a.bits<d.bits) a=mkSs(Z3_mk_zero_ext(Z,d.bits-a.bits,toBV(a)),d.bits); f.regs[d.dst]=a; f.ip++; return; }
  case Instruction::BitCast:{ Val a=opv(s,f,d.ops[0]); bool tf=d.isf; if(tf&&(a.k==KI||a.k==KR)){ Val r=rawOf(a); f.regs[d.dst]=rawNorm(r,true); if(f.regs[d.dst].k==KR&&a.k!=KR) killPath("unsupported: bitcast int to float"); } else if(!tf&&(a.k==KF||a.k==KG)){ if(a.k==KF&&(a.bits==64||(double)(float)a.d==a.d)) f.regs[d.dst]=rawNorm(rawOf(rawByte(a,0).k==KI? ([&]{ uint64_t c=0; for(unsigned i=0;i<a.bits/8u;i++) c|=rawByte(a,i).c<<(8*i); return VI(c,a.bits);} )():a),false); else f.regs[d.dst]=rawOf(a); f.regs[d.dst].bits=d.bits; } else f.regs[d.dst]=a; f.ip++; return; }
  case Instruction::Freeze:{ Val a=opv(s,f,d.ops[0]); if(a.k==KU&&!d.isf) { s.usesUninit=true; Val v=newVar(s,"uninit_"+std::to_string(UNINIT++),1,0,0,d.bits==1?8:d.bits); if(d.bits==1) a=mkSs(Z3_mk_eq(Z,Z3_mk_extract(Z,0,0,v.a),Z3_mk_unsigned_int64(Z,1,bvs(1))),1); else a=v; } f.regs[d.dst]=a; f.ip++; return; }
  case Instruction::Select:{ Val c=opv(s,f,d.ops[0]); if(c.k==KI){ f.regs[d.dst]=opv(s,f,d.ops[(c.c&1)?1:2]); f.ip++; return; } Val a=opv(s,f,d.ops[1]),b=opv(s,f,d.ops[2]); if(c.k==KS){ if((a.k==KS||a.k==KI)&&(b.k==KS||b.k==KI)&&!d.I->getType()->isPointerTy()){ if(d.bits==1) f.regs[d.dst]=mkSs(Z3_mk_ite(Z,c.a,toBool(a),toBool(b)),1); else f.regs[d.dst]=mkSs(Z3_mk_ite(Z,c.a,toBV(a),toBV(b)),d.bits); f.ip++; return; }
          if(!OPT_FORKSEL&&(a.k==KF||a.k==KG)&&(b.k==KF||b.k==KG)&&(a.k!=KF||std::isfinite(a.d))&&(b.k!=KF||std::isfinite(b.d))){ f.regs[d.dst]=mkG(simp(Z3_mk_ite(Z,c.a,toReal(a),toReal(b))),d.bits); f.ip++; return; } }
      bool t=decide(s,c,d.ops[0].slot); Frame&g=s.st.back(); g.regs[d.dst]=opv(s,g,d.ops[t?1:2]); g.ip++; return; }
  case Instruction::Br:{ auto*BI=cast<BranchInst>(d.I); if(!BI->isConditional()){ jump(s,B.succ[0]); return; } Val c=opv(s,f,d.ops[0]); bool t; if(c.k==KI) t=c.c&1; else t=decide(s,c,d.ops[0].slot); jump(s,f.f->bbs[s.st.back().bb].succ[t?0:1]); return; }
  case Instruction::Switch:{ auto*SI=cast<SwitchInst>(d.I); { Val sv=opv(s,f,d.ops[0]); if((sv.k==KS||sv.k==KR)&&SI->getNumCases()<=24){ unsigned bits=SI->getCondition()->getType()->getIntegerBitWidth(); unsigned fi=s.st.size()-1; for(auto&c:SI->cases()){ Val q=icmpV(s,CmpInst::ICMP_EQ,sv,VI(c.getCaseValue()->getZExtValue(),bits)); if(decide(s,q,-1)){ jump(s,s.st[fi].f->bbs[s.st[fi].bb].succ[c.getSuccessorIndex()]); return; } } jump(s,s.st[fi].f->bbs[s.st[fi].bb].succ[0]); return; } } uint64_t v=concOp(s,f,d.ops[0]); unsigned k=0; for(auto&c:SI->cases()) if(c.getCaseValue()->getZExtValue()==v){ k=c.getSuccessorIndex(); break; } jump(s,B.succ[k]); return; }
  case Instruction::ExtractValue:{ auto*EV=cast<ExtractValueInst>(d.I); Val a=opv(s,f,d.ops[0]); for(unsigned i:EV->indices()){ if(a.k!=KA){ a=VU(d.bits); break; } a=(*a.g)[i]; } f.regs[d.dst]=a; f.ip++; return; }
  case Instruction::InsertValue:{ auto*IV=cast<InsertValueInst>(d.I); Val a=opv(s,f,d.ops[0]); Type*T=d.I->getType(); Val r; r.k=KA; if(a.k==KA) r.g=new vector<Val>(*a.g); else r.g=new vector<Val>(T->isStructTy()?T->getStructNumElements():T->getArrayNumElements()); if(IV->getNumIndices()!=1) killPath("unsupported: nested insertvalue"); (*r.g)[IV->getIndices()[0]]=opv(s,f,d.ops[1]); f.regs[d.dst]=r; f.ip++; return; }
  case Instruction::Ret:{ Val v; bool has=!d.ops.empty(); if(has) v=opv(s,f,d.ops[0]); for(auto a:f.allocas){ s.mem.erase(a); } unsigned dst=f.retDst; int nb=f.normalBB; s.st.pop_back(); if(s.st.empty()){ s.done=true; return; } Frame&g=s.st.back(); if(has&&dst!=~0u) g.regs[dst]=v; if(nb>=0) jump(s,nb); else g.ip++; return; }
  case Instruction::Unreachable: runtimeError(s,"crash","undefined behaviour: unreachable code is reached");
  case Instruction::Call: case Instruction::Invoke:{ auto*CB=cast<CallBase>(d.I); if(CB->isInlineAsm()){ f.ip++; return; } const Function*F=CB->getCalledFunction(); unsigned na=d.ops.size()-1; if(!F){ uint64_t a; const Value*cv=CB->getCalledOperand()->stripPointerCasts(); if(auto*FF=dyn_cast<Function>(cv)) F=FF; else if(auto*GA=dyn_cast<GlobalAlias>(cv)) F=dyn_cast<Function>(GA->getAliasee()->stripPointerCasts()); else { a=concOp(s,f,d.ops[na]); auto it=addrFn.find(a); if(it==addrFn.end()) runtimeError(s,"memory","call through an invalid pointer"); F=it->second; } }
      int normal=-1; if(d.opc==Instruction::Invoke) normal=(int)B.succ[0]; unsigned dst=d.dst>=0?(unsigned)d.dst:~0u;
      if(F->isDeclaration()||EXT.count(F->getName().str())){ bool h; Val r=callExt(s,f,d,F,&h); if(!h){ string nm=F->getName().str(); if(isThrowHelper(nm)) runtimeError(s,"crash","uncaught exception: "+llvm::demangle(nm)); killPath("unsupported external function: "+llvm::demangle(nm)); } if(s.st.empty()) return; Frame&g=s.st.back(); if(dst!=~0u) g.regs[dst]=r; if(normal>=0) jump(s,normal); else g.ip++; return; }
      FnInfo*fi=fnInfo(F); vector<Val> av; for(unsigned i=0;i<na&&i<fi->nargs;i++) av.push_back(opv(s,f,d.ops[i])); 
      // byval arguments are copied
      for(unsigned i=0;i<av.size();i++) if(CB->isByValArgument(i)){ uint64_t sz=DL->getTypeAllocSize(CB->getParamByValType(i)); uint64_t src=concOp(s,f,d.ops[i]); uint64_t c=allocObj(s,sz,2,"by-value argument"); memCopy(s,c,src,sz); av[i]=VI(c,64); }
      pushFrame(s,fi,dst,normal); for(unsigned i=0;i<av.size();i++) s.st.back().regs[i]=av[i]; return; }
  case Instruction::ExtractElement: case Instruction::InsertElement: case Instruction::ShuffleVector: default: killPath(string("unsupported instruction: ")+d.I->getOpcodeName()); } }

static void jstr(string&o,const string&s){ o+='"'; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c<32){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else if(c>126){ o+='?'; } else o+=c; } o+='"'; }
[[noreturn]] static void writeOut(){
  uint64_t left=WORK.size(); string o="{\n"; auto kv=[&](const string&k,const string&v,bool last=false){ jstr(o,k); o+=": "+v+(last?"\n":",\n"); }; auto mp=[&](const std::map<string,uint64_t>&m){ string r="{"; bool first=true; for(auto&p:m){ if(!first) r+=", "; first=false; jstr(r,p.first); r+=": "+std::to_string(p.second);} return r+"}"; };
  auto dbl=[](double x){ char b[32]; snprintf(b,32,"%.3f",x); return string(b); };
  kv("paths",std::to_string(ST.paths)); kv("pending",std::to_string(left)); kv("forks",std::to_string(ST.forks)); kv("instructions",std::to_string(ST.insts)); kv("q_sat",std::to_string(ST.q_sat)); kv("q_unsat",std::to_string(ST.q_unsat)); kv("q_unknown",std::to_string(ST.q_unk)); kv("q_trivial",std::to_string(ST.q_triv)); kv("q_model_reuse",std::to_string(ST.q_quick)); kv("solver_s",dbl(ST.solver_s)); kv("max_query_s",dbl(ST.max_q)); kv("wall_s",dbl(since(T0))); kv("incomplete",INCOMPLETE?"true":"false"); kv("incomplete_why",mp(INCOMPLETE_WHY)); kv("overbr",mp(OVERBR)); kv("ends",mp(KILLED)); kv("excluded",mp(EXCLUDED)); kv("reach",mp(REACH));
  { string r="{"; bool first=true; for(auto&p:ASSERTS){ if(!first) r+=", "; first=false; jstr(r,p.first); r+=": {\"solver\": "+std::to_string(p.second.discharged)+", \"folded\": "+std::to_string(p.second.trivial)+", \"violated\": "+std::to_string(p.second.violated)+", \"unknown\": "+std::to_string(p.second.unknown)+"}"; } kv("asserts",r+"}"); }
  auto lst=[&](const std::set<string>&m){ string r="["; bool first=true; for(auto&p:m){ if(!first) r+=", "; first=false; jstr(r,p);} return r+"]"; }; kv("functions",lst(FUNCS)); kv("unsupported",lst(UNSUPPORTED));
  auto cands=[&](vector<Cand>&v){ string r="["; bool first=true; for(auto&c:v){ if(!first) r+=",\n "; first=false; r+="{\"kind\": "; jstr(r,c.kind); r+=", \"msg\": "; jstr(r,c.msg); r+=", \"loc\": "; jstr(r,c.loc); r+=string(", \"flt\": ")+(c.flt?"true":"false")+", \"uninit\": "+(c.uninit?"true":"false")+", \"robust\": "+(c.robust?"true":"false")+", \"in\": ["; bool f2=true; for(auto&p:c.in){ if(!f2) r+=", "; f2=false; r+="["; jstr(r,p.first); r+=", "; jstr(r,p.second); r+="]"; } r+="]}"; } return r+"]"; };
  kv("samples",cands(SAMPLES)); kv("candidates",cands(CANDS),true); o+="}\n"; if(OUTP=="-") fputs(o.c_str(),stdout); else { std::ofstream f(OUTP); f<<o; } fflush(stdout); _Exit(0); }
[[noreturn]] static void hardStop(){ incomplete("hard stop (one step exceeded the time budget)"); writeOut(); }
int main(int argc,char**argv){ T0=Clk::now(); string file,entry="_Z8sx_entryv"; for(int i=1;i<argc;i++){ string a=argv[i]; auto nxt=[&]{ return string(argv[++i]); }; if(a=="--param"){ string p=nxt(); size_t e=p.find('='); PARAMS[p.substr(0,e)]=atoi(p.c_str()+e+1);} else if(a=="--out") OUTP=nxt(); else if(a=="--after") OPT_AFTER=atof(nxt().c_str()); else if(a=="--time") OPT_TIME=atof(nxt().c_str()); else if(a=="--qt") OPT_QT=atoi(nxt().c_str()); else if(a=="--ieee") OPT_IEEE=true; else if(a=="--flt") OPT_FLT=true; else if(a=="--over") OPT_OVER=true; else if(a=="--no-forksel") OPT_FORKSEL=false; else if(a=="--castcheck") OPT_CASTCHECK=true; else if(a=="--no-div0") OPT_DETECT_DIV0=false; else if(a=="-v") OPT_VERBOSE=true; else if(a=="--ilimit") OPT_ILIMIT=strtoull(nxt().c_str(),0,10); else if(a=="--enum") OPT_ENUM=atoi(nxt().c_str()); else if(a=="--fixed"){ HAVE_FIXED=true; FIXEDIN=nxt(); } else file=a; }
  if(HAVE_FIXED){ std::ifstream f(FIXEDIN); string k,n; double v; string vs; while(f>>k>>n>>vs){ v=strtod(vs.c_str(),0); if(k=="P") PARAMS[n]=(int)v; else FIXED[n]=v; } }
  Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); Z3_set_error_handler(Z,z3handler); S_REAL=Z3_mk_real_sort(Z); S_BOOL=Z3_mk_bool_sort(Z); S_INT=Z3_mk_int_sort(Z); A_TRUE=Z3_mk_true(Z); A_FALSE=Z3_mk_false(Z); R_ZERO=Z3_mk_real_int64(Z,0,1); R_ONE=Z3_mk_real_int64(Z,1,1); P_SOM=Z3_mk_params(Z); Z3_params_inc_ref(Z,P_SOM); Z3_params_set_bool(Z,P_SOM,Z3_mk_string_symbol(Z,"som"),true); Z3_params_set_uint(Z,P_SOM,Z3_mk_string_symbol(Z,"som_blowup"),1000000000u); startWatchdog(); 
  LLVMContext C; SMDiagnostic err; auto mod=parseIRFile(file,err,C); if(!mod){ err.print("symx",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout(); initExt();
  Function*F=M->getFunction(entry); if(!F){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 3; }
  State*s0=new State; fnInfo(F); pushFrame(*s0,fnInfo(F),~0u,-1);
  if(auto*GC=M->getGlobalVariable("llvm.global_ctors")) if(GC->hasInitializer()) if(auto*CA=dyn_cast<ConstantArray>(GC->getInitializer())) for(int i=(int)CA->getNumOperands()-1;i>=0;i--){ auto*cs=cast<ConstantStruct>(CA->getOperand(i)); if(auto*cf=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())){ Frame fr; // run constructors before the entry: each returns into the next frame without advancing it
        FnInfo*fi=fnInfo(cf); Frame nf; nf.f=fi; nf.bb=0; nf.ip=0; nf.retDst=~0u; nf.normalBB=-2; nf.regs.resize(fi->nslots); s0->st.push_back(nf); } }
  // normalBB==-2: do not advance the caller
  WORK.push_back(s0); double lastp=0; (void)lastp;
  while(!WORK.empty()){ State*s=WORK.back(); WORK.pop_back(); CUR=s; string end="completed"; if(since(T0)>OPT_TIME||ST.paths>=OPT_MAXPATHS){ incomplete("time budget"); break; }
    try{ while(!s->done){ if(s->st.back().f->bbs[s->st.back().bb].ins[s->st.back().ip].opc==Instruction::Ret&&s->st.back().normalBB==-2){ for(auto a:s->st.back().allocas) s->mem.erase(a); s->st.pop_back(); continue; } step(*s); if((s->insts&0xfff)==0){ if(since(T0)>OPT_TIME){ incomplete("time budget"); killPath("time budget"); } } if(s->insts>OPT_ILIMIT) runtimeError(*s,"nonterm","instruction limit reached (no termination)"); } }
    catch(Kill&k){ end=k.why; } catch(std::exception&e){ end=string("unsupported: ")+e.what(); }
    if(end.compare(0,11,"unsupported")==0){ UNSUPPORTED.insert(end+" at "+stackLoc(*s)); incomplete(end); }
    if(OPT_VERBOSE&&end!="completed"&&end!="assume") fprintf(stderr,"[path end: %s at %s]\n",end.c_str(),stackLoc(*s).c_str());
    ST.paths++; KILLED[end]++; if(end=="completed"&&!s->overApprox){ if(SAMPLES.size()<6||(rnd()%std::max<uint64_t>(1,ST.paths))<3){ Cand c; c.kind="sample"; c.uninit=s->usesUninit; c.robust=true; std::map<int,Z3_ast> m=s->asg; if(!s->asgOk){} else { c.in=inputsOf(*s,m); string o; for(auto&p:s->obs){ string v="?"; try{ if(p.second.k==KF){ char b[64]; snprintf(b,64,"%.17g",p.second.d); v=b; } else if(p.second.k==KG){ Z3_ast x=substAsg(s->asg,p.second.a); if(isNum(x)||Z3_is_algebraic_number(Z,x)) v=Z3_get_numeral_decimal_string(Z,x,20); if(!v.empty()&&v.back()=='?') v.pop_back(); } }catch(std::exception&){} o+=p.first+"="+v+";"; } c.msg=o; for(auto&r:s->reached) c.loc+=r+";"; if(SAMPLES.size()<12) SAMPLES.push_back(c); else SAMPLES[rnd()%12]=c; } } }
    delete s; }
  writeOut(); }
