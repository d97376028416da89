// The list and tree functions that the standard library keeps in its compiled part, where no sanitizer sees their
// memory accesses. Defined here they are compiled with the harness, so that a data race inside list::splice or
// map::erase, or a use of a freed node, is seen. The tree is kept sorted but not balanced: no caller can tell.
#include <list>
#include <map>

namespace std
{
    namespace __detail
    {
        void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
        {
            const bool xe = x._M_next == &x, ye = y._M_next == &y;
            _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
            if (ye) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x; }
            if (xe) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; }
        }

        void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
        {
            if (this == last) return;
            last->_M_prev->_M_next = this;
            first->_M_prev->_M_next = last;
            this->_M_prev->_M_next = first;
            _List_node_base* const tmp = this->_M_prev;
            this->_M_prev = last->_M_prev;
            last->_M_prev = first->_M_prev;
            first->_M_prev = tmp;
        }

        void _List_node_base::_M_reverse() noexcept
        {
            _List_node_base* t = this;
            do
            {
                _List_node_base* const n = t->_M_next;
                t->_M_next = t->_M_prev; t->_M_prev = n; t = n;
            }
            while (t != this);
        }

        void _List_node_base::_M_hook(_List_node_base* const p) noexcept
        {
            _M_next = p; _M_prev = p->_M_prev;
            p->_M_prev->_M_next = this; p->_M_prev = this;
        }

        void _List_node_base::_M_unhook() noexcept
        {
            _List_node_base *const n = _M_next, *const p = _M_prev;
            p->_M_next = n; n->_M_prev = p;
        }
    }

    typedef _Rb_tree_node_base nb;

    static nb* inc(nb* x) throw ()
    {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        nb* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }

    static nb* dec(nb* x) throw ()
    {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;     // the header
        if (x->_M_left) { nb* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        nb* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }

    nb* _Rb_tree_increment(nb* x) throw () { return inc(x); }
    const nb* _Rb_tree_increment(const nb* x) throw () { return inc(const_cast<nb*>(x)); }
    nb* _Rb_tree_decrement(nb* x) throw () { return dec(x); }
    const nb* _Rb_tree_decrement(const nb* x) throw () { return dec(const_cast<nb*>(x)); }

    void _Rb_tree_insert_and_rebalance(const bool left, nb* x, nb* p, nb& header) throw ()
    {
        x->_M_parent = p; x->_M_left = x->_M_right = nullptr;
        x->_M_color = _S_black;     // only the header is red
        if (left)
        {
            p->_M_left = x;         // also makes leftmost = x when p is the header
            if (p == &header) { header._M_parent = x; header._M_right = x; }
            else if (p == header._M_left) header._M_left = x;
        }
        else
        {
            p->_M_right = x;
            if (p == header._M_right) header._M_right = x;
        }
    }

    nb* _Rb_tree_rebalance_for_erase(nb* const z, nb& header) throw ()
    {
        nb* const next = z->_M_right ? inc(z) : nullptr;
        if (header._M_left == z) header._M_left = next ? next : z->_M_parent;
        if (header._M_right == z) { if (z->_M_left) { nb* y = z->_M_left; while (y->_M_right) y = y->_M_right; header._M_right = y; } else header._M_right = z->_M_parent; }
        nb* with;
        if (!z->_M_left) with = z->_M_right;
        else if (!z->_M_right) with = z->_M_left;
        else
        {
            with = next;            // no left child
            if (with->_M_parent != z)
            {
                with->_M_parent->_M_left = with->_M_right;
                if (with->_M_right) with->_M_right->_M_parent = with->_M_parent;
                with->_M_right = z->_M_right; z->_M_right->_M_parent = with;
            }
            with->_M_left = z->_M_left; z->_M_left->_M_parent = with;
        }
        if (header._M_parent == z) header._M_parent = with;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = with;
        else z->_M_parent->_M_right = with;
        if (with) with->_M_parent = z->_M_parent;
        return z;
    }

    unsigned int _Rb_tree_black_count(const nb*, const nb*) throw () { return 0; }
}
