// Assumed contract of the four libstdc++ tree functions that live in the shared library, given
// operationally: an unbalanced binary search tree insertion and in-order successor/predecessor.
// (Balance is not observable through std::map / std::set.) Used by the proof engine only.
#include <bits/stl_tree.h>
namespace std {
static _Rb_tree_node_base* klv_next(_Rb_tree_node_base* x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* klv_prev(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x)
        return x->_M_right;      // the header: its predecessor is the rightmost node
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return klv_next(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return klv_next(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return klv_prev(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return klv_prev(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;          // also sets the header's leftmost when p is the header
        if (p == &header) {
            header._M_parent = x;
            header._M_right = x;
        } else if (p == header._M_left)
            header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right)
            header._M_right = x;
    }
}
}
namespace std {
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
    _Rb_tree_node_base* next = klv_next(z);
    _Rb_tree_node_base* y;      // what takes z's place
    if (!z->_M_left)
        y = z->_M_right;
    else if (!z->_M_right)
        y = z->_M_left;
    else {
        // the left subtree goes below the successor
        _Rb_tree_node_base* s = z->_M_right;
        while (s->_M_left) s = s->_M_left;
        s->_M_left = z->_M_left;
        z->_M_left->_M_parent = s;
        y = z->_M_right;
    }
    if (header._M_left == z)
        header._M_left = next;
    if (header._M_right == z) {
        _Rb_tree_node_base* p;
        if (z->_M_left) {
            p = z->_M_left;
            while (p->_M_right) p = p->_M_right;
        } else
            p = z->_M_parent;
        header._M_right = p;
    }
    if (y)
        y->_M_parent = z->_M_parent;
    if (header._M_parent == z)
        header._M_parent = y;
    else if (z->_M_parent->_M_left == z)
        z->_M_parent->_M_left = y;
    else
        z->_M_parent->_M_right = y;
    if (!header._M_parent)
        header._M_left = header._M_right = &header;
    return z;
}
}
