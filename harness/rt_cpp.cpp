// C++ run-time pieces for the symbolic executor: the string class is instantiated here for units
// built against the library's extern templates; the tree helpers keep the library's header
// invariants (leftmost, rightmost, root) without rebalancing, which no caller can observe.
#include <map>
#include <string>
#include <vector>
template class std::basic_string<char>;
namespace std {
typedef _Rb_tree_node_base *N;
static N up_next(N x) {
  if (x->_M_right != 0) {
    x = x->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
  } else {
    N y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static N up_prev(N x) {
  if (x->_M_color == _S_red && x->_M_parent != 0 && x->_M_parent->_M_parent == x && x->_M_parent->_M_color == _S_black) return x->_M_right;
  if (x->_M_left != 0) {
    N y = x->_M_left;
    while (y->_M_right != 0) y = y->_M_right;
    return y;
  }
  N y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return up_next(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return up_next(const_cast<N>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return up_prev(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return up_prev(const_cast<N>(x)); }
// all nodes black, the header red: the header is recognised by its colour
void _Rb_tree_insert_and_rebalance(const bool left, N x, N p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
} // namespace std
// exceptions kept by pointer: the library hands them on only while they are being handled
#include <exception>
namespace std {
namespace __exception_ptr {
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
} // namespace __exception_ptr
exception_ptr current_exception() noexcept { return exception_ptr(); }
void rethrow_exception(exception_ptr) { throw; }
} // namespace std
namespace std {
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(N z, _Rb_tree_node_base &h) throw() {
  N x; // what takes the place of z
  if (z == h._M_left) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent;
  if (z == h._M_right) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
  if (z->_M_left == 0) x = z->_M_right;
  else if (z->_M_right == 0) x = z->_M_left;
  else {
    x = z->_M_right;
    while (x->_M_left != 0) x = x->_M_left;
    if (x != z->_M_right) {
      x->_M_parent->_M_left = x->_M_right;
      if (x->_M_right != 0) x->_M_right->_M_parent = x->_M_parent;
      x->_M_right = z->_M_right; x->_M_right->_M_parent = x;
    }
    x->_M_left = z->_M_left; x->_M_left->_M_parent = x;
  }
  if (x != 0) x->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = x;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
  else z->_M_parent->_M_right = x;
  return z;
}
} // namespace std
// the exceptions of <stdexcept> that are made from a text
#include <cstring>
#include <stdexcept>
namespace std {
__cow_string::__cow_string(const std::string &s) { char *p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); _M_p = p; }
__cow_string::__cow_string(const char *s, size_t n) { char *p = new char[n + 1]; memcpy(p, s, n); p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept { size_t n = strlen(o._M_p); char *p = new char[n + 1]; memcpy(p, o._M_p, n + 1); _M_p = p; }
__cow_string::~__cow_string() { delete[] const_cast<char *>(_M_p); }
logic_error::logic_error(const string &s) : exception(), _M_msg(s) {}
logic_error::logic_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
invalid_argument::invalid_argument(const string &s) : logic_error(s) {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
runtime_error::runtime_error(const string &s) : exception(), _M_msg(s) {}
runtime_error::runtime_error(const char *s) : exception(), _M_msg(s, strlen(s)) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
} // namespace std
