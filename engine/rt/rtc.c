/* C library functions executed symbolically */
typedef unsigned long size_t;
int sx_errno = 0;
char __libc_single_threaded = 1;
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = (const unsigned char *)a; const unsigned char *y = (const unsigned char *)b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a < (unsigned char)*b ? -1 : (unsigned char)*a > (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return (void*)0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return (void*)0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int sx_isspace(int c) { return c == 32 || (c >= 9 && c <= 13); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
static unsigned long long sx_strtoull(const char *s, char **end, int base, int *neg, int *ovf) {
  const char *p = s; while (sx_isspace((unsigned char)*p)) p++;
  *neg = 0; *ovf = 0; if (*p == '+' || *p == '-') { *neg = *p == '-'; p++; }
  if (base == 0) base = 10;
  unsigned long long v = 0; int any = 0;
  for (;; p++) { int d; unsigned char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; any = 1; if (v > (~0ull - d) / base) *ovf = 1; v = v * base + d; }
  if (end) *end = (char *)(any ? p : s);
  return v;
}
int sx_tok(const char *s, long *len, long *val);
long strtol(const char *s, char **e, int b) {
  long tl, tv; if (sx_tok(s, &tl, &tv)) { if (e) *e = (char *)s + tl; return tv; }
  int n, o; unsigned long long v = sx_strtoull(s, e, b, &n, &o); if (o || v > 0x7fffffffffffffffull + (n ? 1 : 0)) { sx_errno = 34; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { int n, o; unsigned long long v = sx_strtoull(s, e, b, &n, &o); if (o) { sx_errno = 34; return ~0ull; } return n ? 0 - v : v; }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, (void*)0, 10); }
double ldexp(double x, int n) { double r = x; while (n > 0) { r *= 2; n--; } while (n < 0) { r /= 2; n++; } return r; }
double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; return x - t; }

long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
typedef struct { int quot, rem; } sx_div_t; typedef struct { long quot, rem; } sx_ldiv_t;
sx_div_t div(int a, int b) { sx_div_t r; r.quot = a / b; r.rem = a % b; return r; }
sx_ldiv_t ldiv(long a, long b) { sx_ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
