#include "sx_io.h"
namespace __sx { std::vector<File*>& files(){ static std::vector<File*> f; return f; } std::vector<Num>& nums(){ static std::vector<Num> n; return n; } int& minprec(){ static int p=1000; return p; } }
namespace std { static std::string sink; ostream cout, cerr, clog; istream cin; struct __sxinit{ __sxinit(){ cout.buf_=&sink; cerr.buf_=&sink; clog.buf_=&sink; } } __sxi; }
// read-only view used by harnesses
extern "C" int sx_text_precision(){ return __sx::minprec(); }
// parts of libstdc++ that live in the shared library: node containers. Trees stay unbalanced (all nodes black); only the order matters here.
#include <map>
#include <list>
#include <unordered_map>
namespace std {
typedef _Rb_tree_node_base RB;
static RB* rbInc(RB*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; } RB*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; return x; }
static RB* rbDec(RB*x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) return x->_M_right; if(x->_M_left){ RB*y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; } RB*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
RB* _Rb_tree_increment(RB*x) throw(){ return rbInc(x); }
const RB* _Rb_tree_increment(const RB*x) throw(){ return rbInc(const_cast<RB*>(x)); }
RB* _Rb_tree_decrement(RB*x) throw(){ return rbDec(x); }
const RB* _Rb_tree_decrement(const RB*x) throw(){ return rbDec(const_cast<RB*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left,RB*x,RB*p,RB&h) throw(){ x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_black;
 if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; }
 else { p->_M_right=x; if(p==h._M_right) h._M_right=x; } }
RB* _Rb_tree_rebalance_for_erase(RB*const z,RB&h) throw(){ 
 if(h._M_left==z) h._M_left = (z->_M_right||z->_M_parent!=&h||h._M_right!=z) ? rbInc(z) : &h;
 if(h._M_right==z) h._M_right = h._M_left==&h ? &h : ((z->_M_left)?rbDec(z):z->_M_parent);
 auto put=[&](RB*o,RB*n){ if(h._M_parent==o) h._M_parent=n; else if(o->_M_parent->_M_left==o) o->_M_parent->_M_left=n; else o->_M_parent->_M_right=n; if(n) n->_M_parent=o->_M_parent; };
 if(!z->_M_left) put(z,z->_M_right); else if(!z->_M_right) put(z,z->_M_left);
 else { RB*y=z->_M_right; while(y->_M_left) y=y->_M_left; if(y->_M_parent!=z){ put(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } put(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
 return z; }
namespace __detail {
 void _List_node_base::_M_hook(_List_node_base*const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
 void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
 void _List_node_base::_M_transfer(_List_node_base*const f,_List_node_base*const l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; auto*t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
 void _List_node_base::_M_reverse() noexcept { auto*t=this; do { auto*n=t->_M_next; t->_M_next=t->_M_prev; t->_M_prev=n; t=n; } while(t!=this); }
 size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b=13; while(b<n) b=b*2+1; _M_next_resize=b; return b; }
 pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb,size_t ne,size_t ni) const { if(ne+ni<=nb&&nb>1) return {false,0}; return {true,_M_next_bkt(ne+ni>nb*2?ne+ni:nb*2)}; }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed; for(size_t i=0;i<n;i++) h=h*131+c[i]; return h; }
}
