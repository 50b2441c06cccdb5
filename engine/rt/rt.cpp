// Runtime library executed symbolically: the parts of libstdc++/libc/BLAS/LAPACK that the code under
// test calls and that exist only as compiled libraries.
#include "sx.h"
#include <cctype>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <ios>
#include <map>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <typeinfo>
extern "C" {
void sx_rt_bad_alloc() { throw std::bad_alloc(); }
// ---- OpenMP: one thread
int omp_get_thread_num() { return 0; }
int omp_get_max_threads() { return 1; }
}
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
template class basic_string<char>;
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string &s) { char *p = (char *)malloc(s.size() + 1); for (size_t i = 0; i < s.size(); i++) p[i] = s.data()[i]; p[s.size()] = 0; _M_p = p; }
__cow_string::__cow_string(const char *s, size_t n) { char *p = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; _M_p = p; }
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) {}
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define STR_EXC(T, B) T::T(const std::string &s) : B(s) {} T::T(const char *s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const std::string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
STR_EXC(domain_error, logic_error) STR_EXC(invalid_argument, logic_error) STR_EXC(length_error, logic_error) STR_EXC(out_of_range, logic_error)
STR_EXC(range_error, runtime_error) STR_EXC(overflow_error, runtime_error) STR_EXC(underflow_error, runtime_error)
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
type_info::~type_info() {}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { auto *c = (const unsigned char *)p; size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull; return h; }
namespace __detail {
bool sx_prime(size_t n) { if (n < 2) return false; for (size_t i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
size_t sx_next(size_t n) { if (n < 3) n = 3; while (!sx_prime(n)) n++; return n; }
}
// red-black tree support: an unbalanced tree keeps every observable property (order, iteration)
static _Rb_tree_node_base *tmin(_Rb_tree_node_base *x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base *tmax(_Rb_tree_node_base *x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) return tmin(x->_M_right);
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) return tmax(x->_M_left);
  _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *y = z, *x = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = tmin(y->_M_right); x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
  } else {
    if (x) x->_M_parent = y->_M_parent;
    if (h._M_parent == z) h._M_parent = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (h._M_left == z) h._M_left = z->_M_right ? tmin(x) : z->_M_parent;
    if (h._M_right == z) h._M_right = z->_M_left ? tmax(x) : z->_M_parent;
  }
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t want = ne + ni; if (want < 11 && !_M_next_resize) want = 11; if (want >= nb) { size_t n = sx_next(want + 1 > nb * 2 ? want + 1 : nb * 2); _M_next_resize = n; return {true, n}; } _M_next_resize = nb; return {false, 0}; }
  return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t r = sx_next(n); _M_next_resize = r; return r; }
}
// locale: only ASCII classification is ever used
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale &) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &) noexcept { return *this; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
}
