// Pieces of libstdc++/libgcc/libc that the harnesses need in bitcode form (symbolic build only).
#pragma once
#include "sx.h"
#include <cstddef>
#include <string>
#include <map>
#include <list>
#include <unordered_map>
#include <chrono>
#include <stdexcept>
#include <new>
#include <iostream>
#define SXW __attribute__((weak))

extern "C" {
SXW double sx_tok_value(const char *p) { return sxio::tok_value(sxio::tok_index(p)); }
SXW char __libc_single_threaded = 0;
SXW int sx_errno_;
SXW int *__errno_location() { return &sx_errno_; }
SXW int __cxa_guard_acquire(char *g) { return *g == 0; }
SXW void __cxa_guard_release(char *g) { *g = 1; }
SXW void __cxa_guard_abort(char *) {}
struct SxCD { double re, im; };
struct SxCF { float re, im; };
SXW SxCD __muldc3(double a, double b, double c, double d) { return {a * c - b * d, a * d + b * c}; }
SXW SxCD __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
double hypot(double, double) noexcept;
double sx_cabs_(double a, double b) __asm__("cabs");
SXW double sx_cabs_(double a, double b) { return hypot(a, b); }
}
namespace std {
namespace chrono { inline namespace _V2 {
SXW steady_clock::time_point steady_clock::now() noexcept { static long t = 0; t += 1000000; return time_point(duration(t)); }
SXW system_clock::time_point system_clock::now() noexcept { static long t = 0; t += 1000000; return time_point(duration(t)); }
}}
// red-black tree: same interface as libstdc++'s tree.cc, unbalanced insertion (balance is not observable)
SXW _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
SXW const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
SXW _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
SXW const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
SXW void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
SXW _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept {
    _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right, *y = z, *x = nullptr, *xp = nullptr;
    if (!y->_M_left) x = y->_M_right;
    else if (!y->_M_right) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
        if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { _Rb_tree_node_base *m = x; while (m->_M_right) m = m->_M_right; rm = m; } }
    }
    (void)xp;
    return y;
}
namespace __detail {
SXW void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
SXW void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
SXW size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { _M_next_resize = 1000000; return n < 13 ? 13 : n * 2 + 1; }
SXW std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > 2 * nb) return {true, (ne + ni) * 2 + 1}; return {false, 0}; }
}
SXW size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t k = 0; k < n; k++) h = h * 31 + c[k]; return h; }
}
