// Harness interface.  Under the symbolic executor these are engine primitives; with -DSX_NATIVE
// they read the values of a counterexample from a file so that it is replayed on the real code.
#pragma once
#include <cmath>
#include <cstddef>
extern "C" {
int sx_int(const char *name, int lo, int hi);              // symbolic int in [lo,hi]
long long sx_i64(const char *name, long long lo, long long hi);
bool sx_bool(const char *name);
double sx_real(const char *name);                          // symbolic exact real
double sx_f64(const char *name);                           // symbolic IEEE double
int sx_choose(const char *name, int lo, int hi);           // enumerated shape parameter (one path per value)
void sx_assume(bool c);
void sx_assert_(bool c, const char *msg);
void sx_reach(const char *msg);
int sx_conc(int v);                                        // fork over the feasible values
bool sx_eq(double a, double b);                            // equal reals (tolerance natively), NaN == NaN
bool sx_is_symbolic(double v);
bool sx_ident(double a, double b);                         // equal for all values of the inputs (never forks)
void sx_unsupported(const char *why);
void sx_fmti(long long v, char *buf, int n);                   // text of an integer (opaque token when symbolic)
void sx_fmt(double v, char *buf, int n, int prec, int fixed);  // text of a double (opaque token when symbolic)
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define sx_assert(c, msg) sx_assert_((c), msg)
#define SX_ENTRY(name) extern "C" __attribute__((used, noinline, visibility("default"))) void h_##name()
