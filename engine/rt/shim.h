// Force-included in every translation unit (symbolic and native replay alike): after all library
// headers are read, a few locale/stream based library names are redirected to small ASCII models,
// and std::mt19937 becomes a generator whose every output is an arbitrary (symbolic) value.
#pragma once
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <execution>
#include <fstream>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <random>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <boost/algorithm/string.hpp>
#include <boost/algorithm/string/join.hpp>
#include <boost/date_time/gregorian/gregorian.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/math/special_functions/beta.hpp>
#include <boost/math/special_functions/erf.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <boost/range/adaptor/transformed.hpp>
#include "sx.h"
namespace std {
class sx_ostringstream {
  std::string s_; int prec_ = 6; bool fixed_ = false; int w_ = 0; char fill_ = ' ';
  sx_ostringstream &put(const std::string &t) { for (int i = (int)t.size(); i < w_; i++) s_ += fill_; w_ = 0; s_ += t; return *this; }
  sx_ostringstream &putu(unsigned long long v, bool) { char b[32]; sx_fmti((long long)v, b, 32); return put(b); }
public:
  sx_ostringstream() {}
  sx_ostringstream(const std::string &s) : s_(s) {}
  long tellp() const { return (long)s_.size(); }
  std::string str() const { return s_; }
  void str(const std::string &s) { s_ = s; }
  sx_ostringstream &operator<<(const char *c) { return put(c); }
  sx_ostringstream &operator<<(const std::string &c) { return put(c); }
  sx_ostringstream &operator<<(char c) { return put(std::string(1, c)); }
  sx_ostringstream &operator<<(bool v) { return putu(v ? 1 : 0, false); }
  sx_ostringstream &operator<<(short v) { return *this << (long long)v; }
  sx_ostringstream &operator<<(unsigned short v) { return putu(v, false); }
  sx_ostringstream &operator<<(int v) { return *this << (long long)v; }
  sx_ostringstream &operator<<(unsigned v) { return putu(v, false); }
  sx_ostringstream &operator<<(long v) { return *this << (long long)v; }
  sx_ostringstream &operator<<(unsigned long v) { return putu(v, false); }
  sx_ostringstream &operator<<(long long v) { char b[32]; sx_fmti(v, b, 32); return put(b); }
  sx_ostringstream &operator<<(unsigned long long v) { return putu(v, false); }
  sx_ostringstream &operator<<(double v) { char b[400]; sx_fmt(v, b, 400, prec_, fixed_ ? 1 : 0); return put(b); }
  sx_ostringstream &operator<<(float v) { return *this << (double)v; }
  sx_ostringstream &operator<<(const void *) { return put("0x0"); }
  sx_ostringstream &operator<<(sx_ostringstream &(*)(sx_ostringstream &)) { return *this; }
  sx_ostringstream &operator<<(std::ostream &(*f)(std::ostream &)) { s_ += '\n'; return *this; }
  sx_ostringstream &operator<<(std::ios_base &(*f)(std::ios_base &)) { fixed_ = true; return *this; }
  sx_ostringstream &operator<<(std::_Setprecision p) { prec_ = p._M_n; return *this; }
  sx_ostringstream &operator<<(std::_Setw p) { w_ = p._M_n; return *this; }
  sx_ostringstream &operator<<(std::_Setfill<char> p) { fill_ = p._M_c; return *this; }
};
// every output is an arbitrary value; the range divides all ranges needed for shuffles of up to 10 items
struct sx_mt19937 {
  typedef unsigned int result_type;
  sx_mt19937() {}
  template <class T> explicit sx_mt19937(T) {}
  template <class T> void seed(T) {}
  static constexpr unsigned min() { return 0; }
  static constexpr unsigned max() { return 6350400u - 1; }
  unsigned operator()() { return (unsigned)sx_int("rng", 0, (int)max()); }
};
// a draw is an arbitrary value of the interval; harnesses read the draws
inline double sx_draws[32], sx_draw_lo[32], sx_draw_hi[32]; inline int sx_ndraws = 0;
template <class T = double> struct sx_uniform_real_distribution { T a_, b_; sx_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {} template <class G> T operator()(G &) { T u = sx_real("draw"); sx_assume(u >= a_); sx_assume(u < b_); if (sx_ndraws < 32) { sx_draw_lo[sx_ndraws] = a_; sx_draw_hi[sx_ndraws] = b_; sx_draws[sx_ndraws++] = u; } return u; } };
// every permutation
template <class It, class G> void sx_shuffle(It a, It b, G &&) { for (auto n = b - a; n > 1; n--) { auto k = sx_choose("perm", 0, (int)n - 1); if (k != n - 1) std::iter_swap(a + k, a + (n - 1)); } }
inline std::string sx_tostr(long long v) { char b[32]; sx_fmti(v, b, 32); return b; }
inline std::string sx_to_string(int v) { return sx_tostr(v); }
inline std::string sx_to_string(unsigned v) { return sx_tostr(v); }
inline std::string sx_to_string(long v) { return sx_tostr(v); }
inline std::string sx_to_string(unsigned long v) { return sx_tostr((long long)v); }
inline std::string sx_to_string(long long v) { return sx_tostr(v); }
inline std::string sx_to_string(unsigned long long v) { return sx_tostr((long long)v); }
inline std::string sx_to_string(double v) { char b[400]; sx_fmt(v, b, 400, 6, 1); return b; }
struct sx_random_device { unsigned operator()() { return 1; } };
}
namespace boost {
inline char sx_low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
inline bool sx_iequals(const char *a, const char *b) { for (;; a++, b++) { if (sx_low(*a) != sx_low(*b)) return false; if (!*a) return true; } }
namespace algorithm { inline void sx_to_lower(std::string &s) { for (auto &c : s) c = boost::sx_low(c); } }
namespace gregorian {
#ifdef SX_NATIVE
inline bool sx_dtok(const char *) { return false; }
#else
extern "C" int sx_tok(const char *s, long *len, long *val);
inline bool sx_dtok(const char *s) { long a, b; return sx_tok(s, &a, &b) != 0; }
#endif
inline std::string sx_to_iso_string(const date &d) {
  char b[32]; sx_fmti((long long)d.day_number(), b, 32); if (b[0] == '#') return b;  // symbolic date: opaque token
  auto ymd = d.year_month_day(); int y = ymd.year, m = ymd.month, dd = ymd.day; std::string r(8, '0');
  for (int i = 3; i >= 0; i--) { r[i] = '0' + (char)(y % 10); y /= 10; }
  r[4] = '0' + (char)(m / 10); r[5] = '0' + (char)(m % 10); r[6] = '0' + (char)(dd / 10); r[7] = '0' + (char)(dd % 10); return r; }
inline date sx_date_from_iso_string(const std::string &s) {
  if (s.size() > 1 && sx_dtok(s.c_str())) return date(1400, 1, 1) + days(strtol(s.c_str(), nullptr, 10) - (long)date(1400, 1, 1).day_number());
  auto num = [&](size_t a, size_t n) { int v = 0; size_t k = 0; for (; k < n && a + k < s.size(); k++) { char c = s[a + k]; if (c < '0' || c > '9') throw std::out_of_range("bad lexical cast"); v = v * 10 + (c - '0'); } if (!k) throw std::out_of_range("empty field"); return v; };
  int y = num(0, 4), m = num(4, 2), d = num(6, 2);
  return date((unsigned short)y, (unsigned short)m, (unsigned short)d); }
}
}
#define ostringstream sx_ostringstream
#define mt19937 sx_mt19937
#define uniform_real_distribution sx_uniform_real_distribution
#define shuffle sx_shuffle
#define to_string sx_to_string
#define random_device sx_random_device
#define iequals sx_iequals
#define to_iso_string sx_to_iso_string
#define date_from_iso_string sx_date_from_iso_string
#define to_lower sx_to_lower
#endif
