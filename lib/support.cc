// Executable definitions of out-of-line library functions the extracted code
// calls (dependencies, not code of dune-functions): libstdc++ node containers,
// Dune::Exception, dune-geometry's topology tables. tools/support_test.cc
// compares the topology functions with the installed library.
#include <dune/common/exceptions.hh>
#include <map>
#include <list>
#include <unordered_map>
#include <cassert>
#include <dune/geometry/type.hh>
#ifndef VP_SUPPORT_TEST
// verified for single-threaded use
extern "C" { extern char __libc_single_threaded; char __libc_single_threaded = 1; }
namespace Dune {
  Exception::Exception() {}
  void Exception::message(const std::string&) {}
  const char* Exception::what() const noexcept { return ""; }
}
#endif
#ifdef VP_SUPPORT_TEST
#define VPNS VpImpl
#else
#define VPNS Impl
#endif
namespace Dune { namespace Geo { namespace VPNS {
  using namespace Dune::Geo::Impl;
  static bool prism_(unsigned id, int dim) { return (((id | 1u) >> (dim-1)) & 1u) != 0; }
  static unsigned base_(unsigned id, int dim) { return id & ((1u << (dim-1)) - 1); }
  unsigned int size(unsigned int topologyId, int dim, int codim) {
    if (codim<=0) return 1;
    const unsigned b = base_(topologyId,dim);
    const unsigned m = VPNS::size(b,dim-1,codim-1);
    if (prism_(topologyId,dim)) return (codim<dim ? VPNS::size(b,dim-1,codim) : 0) + 2*m;
    return m + (codim<dim ? VPNS::size(b,dim-1,codim) : 1);
  }
  unsigned int subTopologyId(unsigned int topologyId, int dim, int codim, unsigned int i) {
    const int mydim = dim-codim;
    if (codim<=0) return topologyId;
    const unsigned b = base_(topologyId,dim);
    const unsigned m = VPNS::size(b,dim-1,codim-1);
    if (prism_(topologyId,dim)) {
      const unsigned n = codim<dim ? VPNS::size(b,dim-1,codim) : 0;
      if (i<n) return VPNS::subTopologyId(b,dim-1,codim,i) | (1u << (mydim-1));
      return VPNS::subTopologyId(b,dim-1,codim-1, i<n+m ? i-n : i-(n+m));
    }
    if (i<m) return VPNS::subTopologyId(b,dim-1,codim-1,i);
    if (codim<dim) return VPNS::subTopologyId(b,dim-1,codim,i-m);
    return 0;
  }
  void subTopologyNumbering(unsigned int topologyId, int dim, int codim, unsigned int i, int subcodim, unsigned int* beginOut, unsigned int* endOut) {
    if (codim==0) { for (unsigned j=0; beginOut+j!=endOut; ++j) beginOut[j]=j; return; }
    if (subcodim==0) { *beginOut=i; return; }
    const unsigned b = base_(topologyId,dim);
    const unsigned m = VPNS::size(b,dim-1,codim-1), mb = VPNS::size(b,dim-1,codim+subcodim-1);
    const unsigned nb = codim+subcodim<dim ? VPNS::size(b,dim-1,codim+subcodim) : 0;
    if (prism_(topologyId,dim)) {
      const unsigned n = VPNS::size(b,dim-1,codim);
      if (i<n) {
        const unsigned subId = VPNS::subTopologyId(b,dim-1,codim,i);
        unsigned* beginBase = beginOut;
        if (codim+subcodim<dim) { beginBase = beginOut + VPNS::size(subId,dim-codim-1,subcodim); VPNS::subTopologyNumbering(b,dim-1,codim,i,subcodim,beginOut,beginBase); }
        const unsigned ms = VPNS::size(subId,dim-codim-1,subcodim-1);
        VPNS::subTopologyNumbering(b,dim-1,codim,i,subcodim-1,beginBase,beginBase+ms);
        for (unsigned j=0;j<ms;++j) { beginBase[j] += nb; beginBase[j+ms] = beginBase[j] + mb; }
      } else {
        const unsigned s = i<n+m ? 0 : 1;
        VPNS::subTopologyNumbering(b,dim-1,codim-1,i-(n+s*m),subcodim,beginOut,endOut);
        for (unsigned* it=beginOut; it!=endOut; ++it) *it += nb+s*mb;
      }
    } else {
      if (i<m) VPNS::subTopologyNumbering(b,dim-1,codim-1,i,subcodim,beginOut,endOut);
      else {
        const unsigned subId = VPNS::subTopologyId(b,dim-1,codim,i-m);
        const unsigned ms = VPNS::size(subId,dim-codim-1,subcodim-1);
        VPNS::subTopologyNumbering(b,dim-1,codim,i-m,subcodim-1,beginOut,beginOut+ms);
        if (codim+subcodim<dim) {
          unsigned* beginBase = beginOut+ms;
          VPNS::subTopologyNumbering(b,dim-1,codim,i-m,subcodim,beginBase,endOut);
          for (; beginBase!=endOut; ++beginBase) *beginBase += mb;
        } else beginOut[ms] = mb;
      }
    }
  }
  unsigned long referenceVolumeInverse(unsigned int topologyId, int dim) {
    if (dim<=0) return 1;
    const unsigned long v = VPNS::referenceVolumeInverse(base_(topologyId,dim),dim-1);
    return prism_(topologyId,dim) ? v : v*dim;
  }
}}}
#ifndef VP_SUPPORT_TEST
// node containers (unbalanced trees are enough: balance is not observable)
namespace std {
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; return x; }
    _Rb_tree_node_base* y=x->_M_parent;
    while (x==y->_M_right) { x=y; y=y->_M_parent; }
    if (x->_M_right!=y) x=y;
    return x;
  }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color==_S_red && x->_M_parent->_M_parent==x) return x->_M_right;
    if (x->_M_left) { x=x->_M_left; while (x->_M_right) x=x->_M_right; return x; }
    _Rb_tree_node_base* y=x->_M_parent;
    while (x==y->_M_left) { x=y; y=y->_M_parent; }
    return y;
  }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent=p; x->_M_left=nullptr; x->_M_right=nullptr; x->_M_color=_S_black;
    if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; }
    else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
  }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl=[&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) { if (h._M_parent==o) h._M_parent=n; else if (o->_M_parent->_M_left==o) o->_M_parent->_M_left=n; else o->_M_parent->_M_right=n; if (n) n->_M_parent=o->_M_parent; };
    if (h._M_left==z) { if (z->_M_right) { auto y=z->_M_right; while (y->_M_left) y=y->_M_left; h._M_left=y; } else h._M_left=z->_M_parent; }
    if (h._M_right==z) { if (z->_M_left) { auto y=z->_M_left; while (y->_M_right) y=y->_M_right; h._M_right=y; } else h._M_right=z->_M_parent; }
    if (!z->_M_left) repl(z,z->_M_right);
    else if (!z->_M_right) repl(z,z->_M_left);
    else { auto y=z->_M_right; while (y->_M_left) y=y->_M_left; if (y->_M_parent!=z) { repl(y,y->_M_right); y->_M_right=z->_M_right; y->_M_right->_M_parent=y; } repl(z,y); y->_M_left=z->_M_left; y->_M_left->_M_parent=y; }
    return z;
  }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
    void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; auto t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
    // hash table growth policy: bucket count is not observable
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = n<3 ? 3 : n; return n<3 ? 3 : n; }
    pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne+ni>nb) { size_t k=nb*2+1; if (k<ne+ni) k=ne+ni; return {true,_M_next_bkt(k)}; } return {false,0}; }
  }
}
#endif
