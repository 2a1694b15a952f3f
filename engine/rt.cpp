// Out-of-line parts of libstdc++ (its sources are not in the headers): reimplemented here so that
// the verifier sees their bodies.  Trusted: assumed to behave like the installed libstdc++.
#include <list>
#include <map>
#include <set>
#include <unordered_map>
#include <string>
#include <typeinfo>

namespace std
{
_Rb_tree_node_base *
_Rb_tree_increment(_Rb_tree_node_base * x) noexcept
{
  if (x->_M_right)
  {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  auto y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  if (x->_M_right != y)
    x = y;
  return x;
}
const _Rb_tree_node_base *
_Rb_tree_increment(const _Rb_tree_node_base * x) noexcept
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *
_Rb_tree_decrement(_Rb_tree_node_base * x) noexcept
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left)
  {
    auto y = x->_M_left;
    while (y->_M_right)
      y = y->_M_right;
    return y;
  }
  auto y = x->_M_parent;
  while (x == y->_M_left)
  {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
const _Rb_tree_node_base *
_Rb_tree_decrement(const _Rb_tree_node_base * x) noexcept
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
static void
rotL(_Rb_tree_node_base * x, _Rb_tree_node_base *& root)
{
  auto y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left)
    y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_left)
    x->_M_parent->_M_left = y;
  else
    x->_M_parent->_M_right = y;
  y->_M_left = x;
  x->_M_parent = y;
}
static void
rotR(_Rb_tree_node_base * x, _Rb_tree_node_base *& root)
{
  auto y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right)
    y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_right)
    x->_M_parent->_M_right = y;
  else
    x->_M_parent->_M_left = y;
  y->_M_right = x;
  x->_M_parent = y;
}
void
_Rb_tree_insert_and_rebalance(
    const bool left,
    _Rb_tree_node_base * x,
    _Rb_tree_node_base * p,
    _Rb_tree_node_base & h) noexcept
{
  auto & root = h._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_red;
  if (left)
  {
    p->_M_left = x;
    if (p == &h)
    {
      h._M_parent = x;
      h._M_right = x;
    }
    else if (p == h._M_left)
      h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red)
  {
    auto g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left)
    {
      auto y = g->_M_right;
      if (y && y->_M_color == _S_red)
      {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        g->_M_color = _S_red;
        x = g;
      }
      else
      {
        if (x == x->_M_parent->_M_right)
        {
          x = x->_M_parent;
          rotL(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        g->_M_color = _S_red;
        rotR(g, root);
      }
    }
    else
    {
      auto y = g->_M_left;
      if (y && y->_M_color == _S_red)
      {
        x->_M_parent->_M_color = _S_black;
        y->_M_color = _S_black;
        g->_M_color = _S_red;
        x = g;
      }
      else
      {
        if (x == x->_M_parent->_M_left)
        {
          x = x->_M_parent;
          rotR(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        g->_M_color = _S_red;
        rotL(g, root);
      }
    }
  }
  root->_M_color = _S_black;
}
_Rb_tree_node_base *
_Rb_tree_rebalance_for_erase(_Rb_tree_node_base * const z, _Rb_tree_node_base & h) noexcept
{
  auto & root = h._M_parent;
  auto & leftmost = h._M_left;
  auto & rightmost = h._M_right;
  auto y = z;
  _Rb_tree_node_base * x = nullptr;
  _Rb_tree_node_base * xp = nullptr;
  if (!y->_M_left)
    x = y->_M_right;
  else if (!y->_M_right)
    x = y->_M_left;
  else
  {
    y = y->_M_right;
    while (y->_M_left)
      y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z)
  {
    z->_M_left->_M_parent = y;
    y->_M_left = z->_M_left;
    if (y != z->_M_right)
    {
      xp = y->_M_parent;
      if (x)
        x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    else
      xp = y;
    if (root == z)
      root = y;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color;
    y->_M_color = z->_M_color;
    z->_M_color = c;
    y = z;
  }
  else
  {
    xp = y->_M_parent;
    if (x)
      x->_M_parent = y->_M_parent;
    if (root == z)
      root = x;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if (leftmost == z)
    {
      if (!z->_M_right)
        leftmost = z->_M_parent;
      else
      {
        auto m = x;
        while (m->_M_left)
          m = m->_M_left;
        leftmost = m;
      }
    }
    if (rightmost == z)
    {
      if (!z->_M_left)
        rightmost = z->_M_parent;
      else
      {
        auto m = x;
        while (m->_M_right)
          m = m->_M_right;
        rightmost = m;
      }
    }
  }
  if (y->_M_color != _S_red)
  {
    while (x != root && (!x || x->_M_color == _S_black))
    {
      if (x == xp->_M_left)
      {
        auto w = xp->_M_right;
        if (w->_M_color == _S_red)
        {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotL(xp, root);
          w = xp->_M_right;
        }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black)
            && (!w->_M_right || w->_M_right->_M_color == _S_black))
        {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        }
        else
        {
          if (!w->_M_right || w->_M_right->_M_color == _S_black)
          {
            w->_M_left->_M_color = _S_black;
            w->_M_color = _S_red;
            rotR(w, root);
            w = xp->_M_right;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_right)
            w->_M_right->_M_color = _S_black;
          rotL(xp, root);
          break;
        }
      }
      else
      {
        auto w = xp->_M_left;
        if (w->_M_color == _S_red)
        {
          w->_M_color = _S_black;
          xp->_M_color = _S_red;
          rotR(xp, root);
          w = xp->_M_left;
        }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black)
            && (!w->_M_left || w->_M_left->_M_color == _S_black))
        {
          w->_M_color = _S_red;
          x = xp;
          xp = xp->_M_parent;
        }
        else
        {
          if (!w->_M_left || w->_M_left->_M_color == _S_black)
          {
            w->_M_right->_M_color = _S_black;
            w->_M_color = _S_red;
            rotL(w, root);
            w = xp->_M_left;
          }
          w->_M_color = xp->_M_color;
          xp->_M_color = _S_black;
          if (w->_M_left)
            w->_M_left->_M_color = _S_black;
          rotR(xp, root);
          break;
        }
      }
    }
    if (x)
      x->_M_color = _S_black;
  }
  return y;
}

namespace __detail
{
static const unsigned long primes[] = { 2,    3,    5,    7,     11,    13,    29,   59,
                                        127,  257,  541,  1109,  2357,  5087,  10273, 20753,
                                        42043, 85229, 172933, 351061, 712697, 1447153 };
size_t
_Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  for (unsigned long p : primes)
    if (p >= n)
    {
      _M_next_resize = p;
      return p;
    }
  __builtin_trap();
}
std::pair<bool, size_t>
_Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
  if (elt + ins > _M_next_resize)
  {
    size_t want = elt + ins;
    if (!_M_next_resize && want < 11)
      want = 11;
    if (want >= bkt)
    {
      size_t a = want + 1, b = bkt * 2;
      return { true, _M_next_bkt(a > b ? a : b) };
    }
    _M_next_resize = bkt;
    return { false, 0 };
  }
  return { false, 0 };
}

void
_List_node_base::_M_hook(_List_node_base * const p) noexcept
{
  _M_next = p;
  _M_prev = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev = this;
}
void
_List_node_base::_M_unhook() noexcept
{
  auto n = _M_next, p = _M_prev;
  p->_M_next = n;
  n->_M_prev = p;
}
void
_List_node_base::_M_transfer(_List_node_base * const f, _List_node_base * const l) noexcept
{
  if (this != l)
  {
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    auto t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
  }
}
void
_List_node_base::_M_reverse() noexcept
{
  auto t = this;
  do
  {
    auto n = t->_M_next;
    t->_M_next = t->_M_prev;
    t->_M_prev = n;
    t = n;
  } while (t != this);
}
}
size_t
_Hash_bytes(const void * p, size_t n, size_t seed)
{
  size_t h = seed ^ n;
  auto c = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
}
