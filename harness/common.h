#pragma once
#include "sx.h"
#include <cmath>
#include <stdexcept>
#include <vector>
// value that is NaN when the bit of the pattern is set
static inline double sx_nanor(const char *name, int mask, int bit) { return (mask >> bit) & 1 ? (double)NAN : sx_real(name); }
static inline double sx_range(const char *name, double lo, double hi) { double v = sx_real(name); sx_assume(v >= lo); sx_assume(v <= hi); return v; }
static inline double sx_pos(const char *name) { double v = sx_real(name); sx_assume(v > 0); return v; }
static inline bool isnan_(double d) { return d != d; }
// true if f throws a C++ exception
template <class F> static inline bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
