// native implementation of the harness interface: replays one input assignment
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <string>
#include <vector>
struct In { std::string name; char kind; std::string val; };
static std::vector<In> ins; static size_t pos = 0;
static const In *nextIn(const char *name) {
  while (pos < ins.size() && ins[pos].kind == 'u') pos++;
  if (pos >= ins.size()) { printf("SX-EXHAUSTED at %s\n", name); fflush(stdout); _Exit(78); }
  if (ins[pos].name != name) { printf("SX-DIVERGED wanted %s have %s\n", name, ins[pos].name.c_str()); fflush(stdout); _Exit(79); }
  return &ins[pos++];
}
extern "C" {
int sx_int(const char *n, int lo, int hi) { long long v = atoll(nextIn(n)->val.c_str()); if (v < lo || v > hi) { printf("SX-ASSUME\n"); fflush(stdout); _Exit(77); } return (int)v; }
long long sx_i64(const char *n, long long lo, long long hi) { return atoll(nextIn(n)->val.c_str()); }
bool sx_bool(const char *n) { return atoi(nextIn(n)->val.c_str()) != 0; }
double sx_real(const char *n) { return strtod(nextIn(n)->val.c_str(), nullptr); }
double sx_f64(const char *n) { return strtod(nextIn(n)->val.c_str(), nullptr); }
int sx_choose(const char *n, int lo, int hi) { return sx_int(n, lo, hi); }
void sx_assume(bool c) { if (!c) { printf("SX-ASSUME\n"); fflush(stdout); _Exit(77); } }
void sx_assert_(bool c, const char *msg) { if (!c) { printf("SX-VIOLATION %s\n", msg); fflush(stdout); _Exit(42); } }
void sx_reach(const char *msg) { printf("SX-REACH %s\n", msg); }
int sx_conc(int v) { return v; }
bool sx_is_symbolic(double) { return false; }
bool sx_ident(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
void sx_unsupported(const char *) {}
bool sx_eq(double a, double b) {
  if (a != a || b != b) return a != a && b != b;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
void sx_fmti(long long v, char *b, int n) { snprintf(b, n, "%lld", v); }
void sx_fmt(double v, char *b, int n, int prec, int fixed) { snprintf(b, n, fixed ? "%.*f" : "%.*g", prec, v); }
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[2], "r"); if (!f) return 3;
  char name[256], kind; char val[256];
  while (fscanf(f, "%255s %c %255s", name, &kind, val) == 3) ins.push_back({name, kind, val});
  fclose(f);
  void *h = dlopen(nullptr, RTLD_NOW); void (*fn)() = (void (*)())dlsym(h, argv[1]);
  if (!fn) { printf("no entry %s\n", argv[1]); return 3; }
  std::set_terminate([] { printf("SX-TERMINATE uncaught exception or std::terminate\n"); fflush(stdout); _Exit(43); });
  fn();
  printf("SX-OK\n"); fflush(stdout); _Exit(0);
}
