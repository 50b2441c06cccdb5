// Reference BLAS/LAPACK semantics (column major, real arithmetic).
#include <cmath>
#include <cstdlib>
static inline bool T(const char *c) { return *c == 'T' || *c == 't' || *c == 'C' || *c == 'c'; }
static inline bool U(const char *c) { return *c == 'U' || *c == 'u'; }
static inline bool L_(const char *c) { return *c == 'L' || *c == 'l'; }
static inline double ab(double v) { double n = -v, r = v < 0 ? n : v; return r; }  // selects: no fork
extern "C" {
int dcopy_(int *n, double *x, int *ix, double *y, int *iy) { for (int i = 0; i < *n; i++) y[i * *iy] = x[i * *ix]; return 0; }
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { double s = 0; for (int i = 0; i < *n; i++) s += x[i * *ix] * y[i * *iy]; return s; }
int dgemv_(const char *t, const int *m, const int *n, const double *al, const double *a, const int *lda, const double *x, const int *ix, const double *be, double *y, const int *iy) {
  int ly = T(t) ? *n : *m, lx = T(t) ? *m : *n;
  for (int i = 0; i < ly; i++) { double s = 0; for (int j = 0; j < lx; j++) s += (T(t) ? a[j + i * *lda] : a[i + j * *lda]) * x[j * *ix]; double *q = &y[i * *iy]; *q = *be == 0 ? *al * s : *al * s + *be * *q; }
  return 0; }
int dgemm_(const char *ta, const char *tb, const int *m, const int *n, const int *k, const double *al, const double *a, const int *lda, const double *b, const int *ldb, const double *be, double *c, const int *ldc) {
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { double s = 0; for (int l = 0; l < *k; l++) s += (T(ta) ? a[l + i * *lda] : a[i + l * *lda]) * (T(tb) ? b[j + l * *ldb] : b[l + j * *ldb]); double *q = &c[i + j * *ldc]; *q = *be == 0 ? *al * s : *al * s + *be * *q; }
  return 0; }
int dsyrk_(const char *ul, const char *t, const int *n, const int *k, const double *al, const double *a, const int *lda, const double *be, double *c, const int *ldc) {
  for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) { if (U(ul) ? i > j : i < j) continue; double s = 0; for (int l = 0; l < *k; l++) s += T(t) ? a[l + i * *lda] * a[l + j * *lda] : a[i + l * *lda] * a[j + l * *lda]; double *q = &c[i + j * *ldc]; *q = *be == 0 ? *al * s : *al * s + *be * *q; }
  return 0; }
int dsymm_(const char *side, const char *ul, const int *m, const int *n, const double *al, const double *a, const int *lda, const double *b, const int *ldb, const double *be, double *c, const int *ldc) {
  auto A = [&](int i, int j) { if (U(ul) ? i > j : i < j) { int t = i; i = j; j = t; } return a[i + j * *lda]; };
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { double s = 0; if (L_(side)) for (int l = 0; l < *m; l++) s += A(i, l) * b[l + j * *ldb]; else for (int l = 0; l < *n; l++) s += b[i + l * *ldb] * A(l, j); double *q = &c[i + j * *ldc]; *q = *be == 0 ? *al * s : *al * s + *be * *q; }
  return 0; }
double dlange_(char const *norm, int const *m, int const *n, double const *a, int const *lda, double *work) {
  double r = 0; char c = *norm;
  if (c == '1' || c == 'O' || c == 'o') { for (int j = 0; j < *n; j++) { double s = 0; for (int i = 0; i < *m; i++) s += ab(a[i + j * *lda]); r = s > r ? s : r; } return r; }
  if (c == 'I' || c == 'i') { for (int i = 0; i < *m; i++) { double s = 0; for (int j = 0; j < *n; j++) s += ab(a[i + j * *lda]); r = s > r ? s : r; } return r; }
  if (c == 'M' || c == 'm') { for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) { double s = ab(a[i + j * *lda]); r = s > r ? s : r; } return r; }
  for (int j = 0; j < *n; j++) for (int i = 0; i < *m; i++) r += a[i + j * *lda] * a[i + j * *lda];
  return std::sqrt(r); }
void dpotrf2_(char const *ul, int const *n, double *a, int const *lda, int *info) {
  *info = 0; bool up = U(ul);
  auto A = [&](int i, int j) -> double & { return up ? a[j + i * *lda] : a[i + j * *lda]; };  // A(i,j), i>=j: lower factor entry
  for (int j = 0; j < *n; j++) {
    double s = A(j, j); for (int k = 0; k < j; k++) s -= A(j, k) * A(j, k);
    if (!(s > 0)) { *info = j + 1; return; }
    double d = std::sqrt(s); A(j, j) = d;
    for (int i = j + 1; i < *n; i++) { double t = A(i, j); for (int k = 0; k < j; k++) t -= A(i, k) * A(j, k); A(i, j) = t / d; }
  } }
void dtrtrs_(char const *ul, char const *tr, char const *diag, int const *n, int const *nrhs, double const *a, int const *lda, double *b, int const *ldb, int *info) {
  *info = 0; bool up = U(ul), t = T(tr), unit = *diag == 'U' || *diag == 'u';
  if (!unit) for (int i = 0; i < *n; i++) if (a[i + i * *lda] == 0) { *info = i + 1; return; }
  bool fwd = up == t;  // upper+trans or lower+notrans: forward substitution
  auto A = [&](int i, int j) { return t ? a[j + i * *lda] : a[i + j * *lda]; };
  for (int c = 0; c < *nrhs; c++) { double *x = b + c * *ldb;
    for (int q = 0; q < *n; q++) { int i = fwd ? q : *n - 1 - q; double s = x[i]; if (fwd) for (int k = 0; k < i; k++) s -= A(i, k) * x[k]; else for (int k = i + 1; k < *n; k++) s -= A(i, k) * x[k]; x[i] = unit ? s : s / A(i, i); } } }
void dposv_(char const *ul, int const *n, int const *nrhs, double *a, int const *lda, double *b, int const *ldb, int *info) {
  dpotrf2_(ul, n, a, lda, info); if (*info) return; int i2;
  char N = 'N', Tc = 'T', d = 'N';
  if (U(ul)) { dtrtrs_(ul, &Tc, &d, n, nrhs, a, lda, b, ldb, &i2); dtrtrs_(ul, &N, &d, n, nrhs, a, lda, b, ldb, &i2); }
  else { dtrtrs_(ul, &N, &d, n, nrhs, a, lda, b, ldb, &i2); dtrtrs_(ul, &Tc, &d, n, nrhs, a, lda, b, ldb, &i2); } }
// LU with "first non zero pivot" instead of "largest pivot": the factorisation differs, every result
// derived from it (inverse, determinant) does not.
void dgetrf_(int const *m, int const *n, double *a, int const *lda, int *ipiv, int *info) {
  *info = 0; int mn = *m < *n ? *m : *n;
  for (int k = 0; k < mn; k++) {
    int p = k; while (p < *m && a[p + k * *lda] == 0) p++;
    if (p == *m) { ipiv[k] = k + 1; if (!*info) *info = k + 1; continue; }
    ipiv[k] = p + 1;
    if (p != k) for (int j = 0; j < *n; j++) { double t = a[k + j * *lda]; a[k + j * *lda] = a[p + j * *lda]; a[p + j * *lda] = t; }
    for (int i = k + 1; i < *m; i++) { double f = a[i + k * *lda] / a[k + k * *lda]; a[i + k * *lda] = f; for (int j = k + 1; j < *n; j++) a[i + j * *lda] -= f * a[k + j * *lda]; }
  } }
void dgetri_(int const *n, double *a, int const *lda, int const *ipiv, double *work, int const *lwork, int *info) {
  int N = *n; *info = 0; if (*lwork == -1) { work[0] = N; return; }
  for (int i = 0; i < N; i++) if (a[i + i * *lda] == 0) { *info = i + 1; return; }
  double *inv = (double *)malloc(sizeof(double) * N * N);
  for (int c = 0; c < N; c++) {
    double *x = inv + c * N; for (int i = 0; i < N; i++) x[i] = i == c ? 1.0 : 0.0;
    for (int k = 0; k < N; k++) { int p = ipiv[k] - 1; if (p != k) { double t = x[k]; x[k] = x[p]; x[p] = t; } }
    for (int i = 0; i < N; i++) for (int k = 0; k < i; k++) x[i] -= a[i + k * *lda] * x[k];
    for (int i = N - 1; i >= 0; i--) { for (int k = i + 1; k < N; k++) x[i] -= a[i + k * *lda] * x[k]; x[i] /= a[i + i * *lda]; }
  }
  for (int c = 0; c < N; c++) for (int i = 0; i < N; i++) a[i + c * *lda] = inv[i + c * N];
  free(inv); }
// workspace contract only (tau and work are written, the factors are not computed)
void dgeqrf_(int const *m, int const *n, double *a, int const *lda, double *tau, double *work, int const *lwork, int *info) {
  *info = 0; int N = *n > 1 ? *n : 1; if (*lwork == -1) { work[0] = N; return; }
  if (*lwork < N) { *info = -7; return; }
  for (int i = 0; i < *lwork; i++) work[i] = 0;
  for (int i = 0; i < *m && i < *n; i++) tau[i] = 0; }
}
