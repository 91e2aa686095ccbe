// In-memory model of the iostream library used for the symbolic run only (environment stub).
// Files are byte strings in a table; a formatted floating point number is one opaque token
// "\x01dddddd\x02" that indexes a table of exact values, so text formats can be followed symbolically.
#pragma once
#include <string>
#include <vector>
#include <iosfwd>
#include <cstring>
extern "C" int sx_concretize(int);
extern "C" bool sx_is_concrete_d(double);
extern "C" void sx_unsupported_text_number();
namespace __sx {
struct File { std::string name, data; };
struct Num { double v; bool isInt; };
std::vector<File*>& files(); std::vector<Num>& nums(); int& minprec();
inline File* find(const std::string& n){ for(auto f:files()) if(f->name==n) return f; return nullptr; }
}
namespace std {
class ios_base { public:
 typedef int openmode; typedef int iostate; typedef int fmtflags; typedef int seekdir;
 static const openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
 static const iostate goodbit=0, badbit=1, eofbit=2, failbit=4;
 static const seekdir beg=0, cur=1, end=2;
 static const fmtflags fixed=1, scientific=2, floatfield=3, dec=4, hex=8, basefield=12;
 int precision() const { return prec_; } int precision(int p){ int o=prec_; prec_=p; return o; }
 fmtflags setf(fmtflags f){ fl_|=f; return fl_; } fmtflags setf(fmtflags f,fmtflags m){ fl_=(fl_&~m)|f; return fl_; } fmtflags flags() const { return fl_; } int width(int){ return 0; }
 int prec_=6; int fl_=0; virtual ~ios_base(){} };
template<> class basic_ios<char,char_traits<char>> : public ios_base { public:
 iostate st_=0; std::string* buf_=nullptr; size_t gp_=0, pp_=0; bool app_=false;
 bool good() const { return st_==0; } bool eof() const { return st_&eofbit; } bool fail() const { return st_&(failbit|badbit); } bool bad() const { return st_&badbit; }
 explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
 void clear(iostate s=0){ st_=s; } void setstate(iostate s){ st_|=s; } iostate rdstate() const { return st_; }
 void exceptions(iostate){} };
template<> class basic_ostream<char,char_traits<char>> : virtual public basic_ios<char,char_traits<char>> { public:
 typedef basic_ostream O;
 O& raw(const char* p, size_t n){ if(!buf_){ st_|=badbit; return *this; } if(st_) return *this; if(app_||pp_>=buf_->size()){ if(!app_ && pp_>buf_->size()) buf_->resize(pp_); buf_->append(p,n); pp_=buf_->size(); } else { size_t k=buf_->size()-pp_; if(k>n) k=n; buf_->replace(pp_,k,p,k); if(n>k) buf_->append(p+k,n-k); pp_+=n; } return *this; }
 O& write(const char* p, long n){ return raw(p,(size_t)n); }
 O& put(char c){ return raw(&c,1); }
 O& flush(){ return *this; }
 O& integer(long v,bool neg,unsigned long m){ (void)v; char t[24]; int n=0; do { t[n++]='0'+(char)(m%10); m/=10; } while(m); if(neg) t[n++]='-'; char r[24]; for(int i=0;i<n;i++) r[i]=t[n-1-i]; return raw(r,n); }
 O& operator<<(int v){ v=sx_concretize(v); return integer(v,v<0,v<0?(unsigned long)(-(long)v):(unsigned long)v); }
 O& operator<<(long v){ return integer(v,v<0,v<0?0ul-(unsigned long)v:(unsigned long)v); }
 O& operator<<(long long v){ return (*this)<<(long)v; }
 O& operator<<(short v){ return (*this)<<(int)v; }
 O& operator<<(unsigned short v){ return (*this)<<(int)v; }
 O& operator<<(unsigned v){ v=(unsigned)sx_concretize((int)v); return integer(0,false,v); }
 O& operator<<(unsigned long v){ return integer(0,false,v); }
 O& operator<<(unsigned long long v){ return integer(0,false,v); }
 O& operator<<(bool v){ return (*this)<<(int)v; }
 O& operator<<(double v){ auto& t=__sx::nums(); size_t id=t.size(); t.push_back({v,false}); int p=(fl_&ios_base::fixed)?prec_:prec_; if(p<__sx::minprec()) __sx::minprec()=p; char r[8]; r[0]='\x01'; for(int i=0;i<6;i++){ r[6-i]='0'+(char)(id%10); id/=10; } r[7]='\x02'; return raw(r,8); }
 O& operator<<(float v){ return (*this)<<(double)v; }
 O& operator<<(O&(*f)(O&)){ return f(*this); }
 O& operator<<(ios_base&(*f)(ios_base&)){ f(*this); return *this; }
 long tellp(){ return (long)pp_; } O& seekp(long p){ pp_=(size_t)p; return *this; } O& seekp(long p,int d){ pp_=(size_t)(d==0?p:d==1?(long)pp_+p:(long)buf_->size()+p); return *this; }
 };
template<> class basic_istream<char,char_traits<char>> : virtual public basic_ios<char,char_traits<char>> { public:
 typedef basic_istream I; long gc_=0;
 size_t avail() const { return buf_ && gp_<buf_->size() ? buf_->size()-gp_ : 0; }
 I& read(char* p,long n){ gc_=0; if(st_||!buf_){ st_|=failbit; return *this; } size_t a=avail(); size_t k=(size_t)n; if(n<0) k=0; if(k>a){ k=a; st_|=eofbit|failbit; } if(k) memcpy(p,buf_->data()+gp_,k); gp_+=k; gc_=(long)k; return *this; }
 long gcount() const { return gc_; }
 int get(){ gc_=0; if(st_||!avail()){ st_|=eofbit|failbit; return -1; } gc_=1; return (unsigned char)(*buf_)[gp_++]; }
 I& get(char& c){ int v=get(); if(v>=0) c=(char)v; return *this; }
 int peek(){ if(st_) return -1; if(!avail()){ st_|=eofbit; return -1; } return (unsigned char)(*buf_)[gp_]; }
 I& ignore(long n=1,int d=-1){ while(n-->0){ int c=get(); if(c<0||c==d) break; } if(st_&failbit) st_=eofbit; return *this; }
 long tellg(){ return fail()?-1:(long)gp_; } I& seekg(long p){ st_&=~eofbit; if(st_) return *this; if(p<0) st_|=failbit; else gp_=(size_t)p; return *this; } I& seekg(long p,int d){ return seekg(d==0?p:d==1?(long)gp_+p:(long)(buf_?buf_->size():0)+p); }
 static bool isws(char c){ return c==' '||c=='\n'||c=='\t'||c=='\r'||c=='\v'||c=='\f'; }
 bool skipws(){ if(st_){ st_|=failbit; return false; } while(avail() && isws((*buf_)[gp_])) gp_++; if(!avail()){ st_|=eofbit|failbit; return false; } return true; }
 I& operator>>(std::string& s){ s.clear(); if(!skipws()) return *this; while(avail() && !isws((*buf_)[gp_])) s.push_back((*buf_)[gp_++]); if(!avail()) st_|=eofbit; return *this; }
 I& operator>>(char& c){ if(!skipws()) return *this; c=(*buf_)[gp_++]; return *this; }
 bool dig() const { return avail() && (*buf_)[gp_]>='0' && (*buf_)[gp_]<='9'; }
 I& operator>>(double& v){ if(!skipws()){ return *this; } if((*buf_)[gp_]=='\x01'){ size_t id=0; for(int i=1;i<=6;i++) id=id*10+((*buf_)[gp_+i]-'0'); gp_+=8; v=__sx::nums()[id].v; if(!avail()) st_|=eofbit; return *this; }
   bool neg=false; if((*buf_)[gp_]=='-'||(*buf_)[gp_]=='+'){ neg=(*buf_)[gp_]=='-'; gp_++; } if(neg && avail() && (*buf_)[gp_]=='\x01'){ double w; (*this)>>w; v=-w; return *this; } bool any=false; double r=0; while(dig()){ r=r*10+((*buf_)[gp_++]-'0'); any=true; } if(avail()&&(*buf_)[gp_]=='.'){ gp_++; double d=10; while(dig()){ r=r+((*buf_)[gp_++]-'0')/d; d*=10; any=true; } }
   if(!any){ v=0; st_|=failbit; if(!avail()) st_|=eofbit; return *this; } if(avail()&&((*buf_)[gp_]=='e'||(*buf_)[gp_]=='E')){ gp_++; bool en=false; if(avail()&&((*buf_)[gp_]=='-'||(*buf_)[gp_]=='+')){ en=(*buf_)[gp_]=='-'; gp_++; } int e=0; while(dig()) e=e*10+((*buf_)[gp_++]-'0'); while(e-->0) r=en?r/10:r*10; }
   v=neg?-r:r; if(!avail()) st_|=eofbit; return *this; }
 I& operator>>(float& v){ double d=0; (*this)>>d; if(!fail()) v=(float)d; else v=0; return *this; }
 template<class T> I& rdint(T& v){ if(!skipws()) return *this; if((*buf_)[gp_]=='\x01') sx_unsupported_text_number(); bool neg=false; if((*buf_)[gp_]=='-'||(*buf_)[gp_]=='+'){ neg=(*buf_)[gp_]=='-'; gp_++; } bool any=false; long r=0; while(dig()){ r=r*10+((*buf_)[gp_++]-'0'); any=true; if(r>4000000000000l) r=4000000000000l; } if(!any){ v=0; st_|=failbit; if(!avail()) st_|=eofbit; return *this; } if(neg) r=-r; if(sizeof(T)==4 && (r>2147483647l||r<-2147483648l)){ st_|=failbit; r=r>0?2147483647l:-2147483648l; } v=(T)r; if(!avail()) st_|=eofbit; return *this; }
 I& operator>>(int& v){ return rdint(v); } I& operator>>(long& v){ return rdint(v); } I& operator>>(unsigned& v){ return rdint(v); } I& operator>>(unsigned long& v){ return rdint(v); }
 };
template<> class basic_iostream<char,char_traits<char>> : public basic_istream<char,char_traits<char>>, public basic_ostream<char,char_traits<char>> {};
namespace __sxd { struct fbase { bool open_=false; }; 
 template<class S> void fopen_(S& s,fbase& b,const std::string& n,int m){ if(b.open_){ s.setstate(ios_base::failbit); return; } __sx::File* f=__sx::find(n); bool wr=m&(ios_base::out|ios_base::app); bool keep=(m&ios_base::in)||(m&ios_base::app); if(!f){ if(!wr || ((m&ios_base::in)&&!(m&(ios_base::app|ios_base::trunc)))){ s.setstate(ios_base::failbit); return; } f=new __sx::File; f->name=n; __sx::files().push_back(f); } else if(wr && (!keep || (m&ios_base::trunc))) f->data.clear(); s.clear(); s.buf_=&f->data; s.gp_=0; s.pp_=0; s.app_=m&ios_base::app; if(m&ios_base::ate){ s.gp_=s.pp_=f->data.size(); } b.open_=true; }
}
template<> class basic_ofstream<char,char_traits<char>> : public basic_ostream<char,char_traits<char>> { public: __sxd::fbase b_;
 basic_ofstream(){} explicit basic_ofstream(const char* n,int m=ios_base::out){ open(n,m);} explicit basic_ofstream(const std::string& n,int m=ios_base::out){ open(n,m);} 
 void open(const std::string& n,int m=ios_base::out){ __sxd::fopen_(*this,b_,n,m|ios_base::out);} void open(const char* n,int m=ios_base::out){ open(std::string(n),m);} bool is_open() const { return b_.open_; } void close(){ if(!b_.open_) setstate(failbit); b_.open_=false; buf_=nullptr; } };
template<> class basic_ifstream<char,char_traits<char>> : public basic_istream<char,char_traits<char>> { public: __sxd::fbase b_;
 basic_ifstream(){} explicit basic_ifstream(const char* n,int m=ios_base::in){ open(n,m);} explicit basic_ifstream(const std::string& n,int m=ios_base::in){ open(n,m);} 
 void open(const std::string& n,int m=ios_base::in){ __sxd::fopen_(*this,b_,n,m|ios_base::in);} void open(const char* n,int m=ios_base::in){ open(std::string(n),m);} bool is_open() const { return b_.open_; } void close(){ if(!b_.open_) setstate(failbit); b_.open_=false; buf_=nullptr; } };
template<> class basic_fstream<char,char_traits<char>> : public basic_iostream<char,char_traits<char>> { public: __sxd::fbase b_;
 basic_fstream(){} explicit basic_fstream(const char* n,int m=ios_base::in|ios_base::out){ open(n,m);} explicit basic_fstream(const std::string& n,int m=ios_base::in|ios_base::out){ open(n,m);} 
 void open(const std::string& n,int m=ios_base::in|ios_base::out){ __sxd::fopen_(*this,b_,n,m);} void open(const char* n,int m=ios_base::in|ios_base::out){ open(std::string(n),m);} bool is_open() const { return b_.open_; } void close(){ if(!b_.open_) setstate(failbit); b_.open_=false; buf_=nullptr; } };
template<> class basic_stringstream<char,char_traits<char>,allocator<char>> : public basic_iostream<char,char_traits<char>> { public: std::string s_;
 basic_stringstream(){ buf_=&s_; } explicit basic_stringstream(const std::string& s,int=0):s_(s){ buf_=&s_; } std::string str() const { return s_; } void str(const std::string& s){ s_=s; gp_=0; pp_=0; } };
template<> class basic_ostringstream<char,char_traits<char>,allocator<char>> : public basic_ostream<char,char_traits<char>> { public: std::string s_;
 basic_ostringstream(){ buf_=&s_; } explicit basic_ostringstream(const std::string& s,int=0):s_(s){ buf_=&s_; } std::string str() const { return s_; } void str(const std::string& s){ s_=s; pp_=0; } };
template<> class basic_istringstream<char,char_traits<char>,allocator<char>> : public basic_istream<char,char_traits<char>> { public: std::string s_;
 basic_istringstream(){ buf_=&s_; } explicit basic_istringstream(const std::string& s,int=0):s_(s){ buf_=&s_; } std::string str() const { return s_; } void str(const std::string& s){ s_=s; gp_=0; } };
inline ostream& operator<<(ostream& o,const std::string& s){ return o.raw(s.data(),s.size()); }
inline ostream& operator<<(ostream& o,const char* s){ return o.raw(s,strlen(s)); }
inline ostream& operator<<(ostream& o,char c){ return o.raw(&c,1); }
inline ostream& operator<<(ostream& o,unsigned char c){ return o.raw((const char*)&c,1); }
inline istream& getline(istream& i,std::string& s,char d){ s.clear(); if(i.st_){ i.st_|=ios_base::failbit; return i; } bool any=false; while(true){ if(!i.avail()){ i.st_|=ios_base::eofbit; break; } char c=(*i.buf_)[i.gp_++]; any=true; if(c==d) break; s.push_back(c); } if(!any) i.st_|=ios_base::failbit; return i; }
inline istream& getline(istream& i,std::string& s){ return getline(i,s,'\n'); }
inline ostream& endl(ostream& o){ return o.put('\n'); }
inline ostream& flush(ostream& o){ return o; }
inline ios_base& fixed(ios_base& b){ b.fl_|=ios_base::fixed; return b; }
inline ios_base& scientific(ios_base& b){ b.fl_|=ios_base::scientific; return b; }
struct __sxsetprec{ int p; }; inline __sxsetprec setprecision(int p){ return {p}; } inline ostream& operator<<(ostream& o,__sxsetprec p){ o.prec_=p.p; return o; }
typedef ios_base::openmode __sx_om; 
extern ostream cout, cerr, clog; extern istream cin;
}
