// libstdc++ itself is not instrumented: what its out-of-line container functions write would look unwritten.
#pragma once
#if defined(MC_MSAN)
#include <dlfcn.h>
#include <list>
#include <map>
extern "C" void __msan_unpoison(const volatile void*, size_t);
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
    typedef void (*F)(const bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&);
    static F real = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
    real(left, x, p, header);
    __msan_unpoison(x, sizeof *x);
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const pos) noexcept {
    _M_next = pos;
    _M_prev = pos->_M_prev;
    pos->_M_prev->_M_next = this;
    pos->_M_prev = this;
}
}
}
#endif
