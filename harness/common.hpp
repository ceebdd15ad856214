#pragma once
#include "mc.hpp"
#include "config.h"
extern "C" {
#include "l1c.h"
#include "l1c_logging.h"
#include "wrap.h"
}
#include <memory>
#include <algorithm>
#include <numeric>

typedef std::vector<double> Vec;
typedef long double ld;

// A guarded array handed to the code under test: 64-byte aligned start (plus an
// optional misalignment in doubles), NaN guards on both sides so that stray reads
// poison results and stray writes are seen. In the ASan build the block is exactly
// sized so that the sanitizer sees any stray access.
class Buf {
 public:
  static constexpr int PAD = 16;
  double* d = nullptr;
  size_t n = 0;
  explicit Buf(size_t n_, double fill = 0, size_t off = 0) : n(n_) {
    bytes_ = exact() ? (n + off) * 8 : (n + off + 2 * PAD) * 8;
    void* p = nullptr;
    if (posix_memalign_real(&p, 64, bytes_ ? bytes_ : 8)) { fprintf(stderr, "harness out of memory\n"); _exit(3); }
    base_ = p;
    if (exact()) d = (double*)p + off;
    else {
      double* b = (double*)p;
      for (size_t i = 0; i < n + off + 2 * PAD; i++) b[i] = guard();
      d = b + PAD + off; off_ = off;
    }
    for (size_t i = 0; i < n; i++) d[i] = fill;
  }
  explicit Buf(const Vec& v, size_t off = 0) : Buf(v.size(), 0.0, off) { set(v); }
  Buf(const Buf&) = delete;
  Buf& operator=(const Buf&) = delete;
  ~Buf() { free_real(base_); }
  void set(const Vec& v) { for (size_t i = 0; i < n && i < v.size(); i++) d[i] = v[i]; }
  void fill(double a) { for (size_t i = 0; i < n; i++) d[i] = a; }
  operator double*() { return d; }
  Vec vec() const { return Vec(d, d + n); }
  bool guards_ok() const {
    if (exact()) return true;
    const double* b = (const double*)base_;
    for (size_t i = 0; i < PAD + off_; i++) if (!is_guard(b[i])) return false;
    for (size_t i = PAD + off_ + n; i < n + off_ + 2 * PAD; i++) if (!is_guard(b[i])) return false;
    return true;
  }
  bool same(const Vec& v) const { return v.size() >= n && memcmp(v.data(), d, n * 8) == 0; }

 private:
  void* base_ = nullptr;
  size_t bytes_ = 0, off_ = 0;
  static bool exact() { return mc::is_asan(); }
  static double guard() { uint64_t g = 0x7ff8dead0000beefULL; double x; memcpy(&x, &g, 8); return x; }
  static bool is_guard(double x) { uint64_t g; memcpy(&g, &x, 8); return g == 0x7ff8dead0000beefULL; }
  static int posix_memalign_real(void** p, size_t a, size_t n);
  static void free_real(void* p);
};
extern "C" int __real_posix_memalign(void**, size_t, size_t);
extern "C" void __real_free(void*);
inline int Buf::posix_memalign_real(void** p, size_t a, size_t n) { return __real_posix_memalign(p, a, n); }
inline void Buf::free_real(void* p) { __real_free(p); }

// ---- dense reference matrices (long double) ----
struct Mat {
  int r = 0, c = 0;
  std::vector<ld> a;
  Mat() {}
  Mat(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0.0L) {}
  ld& operator()(int i, int j) { return a[(size_t)i * c + j]; }
  ld operator()(int i, int j) const { return a[(size_t)i * c + j]; }
  Mat T() const { Mat t(c, r); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) t(j, i) = (*this)(i, j); return t; }
  Vec mul(const double* x) const {
    Vec y(r);
    for (int i = 0; i < r; i++) { ld s = 0; for (int j = 0; j < c; j++) s += (*this)(i, j) * x[j]; y[i] = (double)s; }
    return y;
  }
  Vec mul(const Vec& x) const { return mul(x.data()); }
  Mat mm(const Mat& b) const {
    Mat m(r, b.c);
    for (int i = 0; i < r; i++) for (int k = 0; k < c; k++) { ld v = (*this)(i, k); if (v != 0) for (int j = 0; j < b.c; j++) m(i, j) += v * b(k, j); }
    return m;
  }
  static Mat I(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
};
inline Mat hcat(const std::vector<Mat>& v) {
  int c = 0; for (auto& m : v) c += m.c;
  Mat o(v[0].r, c); int k = 0;
  for (auto& m : v) { for (int i = 0; i < m.r; i++) for (int j = 0; j < m.c; j++) o(i, k + j) = m(i, j); k += m.c; }
  return o;
}
// orthonormal inverse DCT (DCT-III), x = M*c : x[i] = sum_k w_k c_k cos(pi (i+1/2) k / N)
inline Mat idct1(int N) {
  Mat m(N, N);
  const ld pi = acosl(-1.0L);
  for (int i = 0; i < N; i++) for (int k = 0; k < N; k++)
    m(i, k) = (k == 0 ? sqrtl(1.0L / N) : sqrtl(2.0L / N)) * cosl(pi * (i + 0.5L) * k / N);
  return m;
}
inline Mat idct2(int R, int C) {
  Mat a = idct1(R), b = idct1(C), m(R * C, R * C);
  for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) for (int k = 0; k < R; k++) for (int l = 0; l < C; l++)
    m(i * C + j, k * C + l) = a(i, k) * b(j, l);
  return m;
}
inline Mat sel(const std::vector<int>& pix, int m) { Mat r((int)pix.size(), m); for (size_t i = 0; i < pix.size(); i++) r((int)i, pix[i]) = 1; return r; }
inline Mat Dxm(int n, int m, double al) { Mat d(n * m, n * m); for (int i = 0; i < n; i++) for (int j = 0; j + 1 < m; j++) { d(i * m + j, i * m + j) = -al; d(i * m + j, i * m + j + 1) = al; } return d; }
inline Mat Dym(int n, int m, double al) { Mat d(n * m, n * m); for (int i = 0; i + 1 < n; i++) for (int j = 0; j < m; j++) { d(i * m + j, i * m + j) = -al; d(i * m + j, (i + 1) * m + j) = al; } return d; }

inline double nrm2(const Vec& v) { ld s = 0; for (double x : v) s += (ld)x * x; return (double)sqrtl(s); }
inline double nrm1(const Vec& v) { ld s = 0; for (double x : v) s += fabsl((ld)x); return (double)s; }
inline double nrminf(const Vec& v) { double s = 0; for (double x : v) s = std::max(s, std::fabs(x)); return s; }
inline bool allfinite(const Vec& v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }

// compare within tol * max(scale, |want|max); returns index of the first bad entry or -1
inline int cmpv(const double* got, const Vec& want, double tol, double scale = 0) {
  double s = std::max(scale, nrminf(want));
  for (size_t i = 0; i < want.size(); i++)
    if (!(std::fabs(got[i] - want[i]) <= tol * s + 1e-300)) return (int)i;
  return -1;
}
inline std::string vstr(const double* x, size_t n, size_t lim = 24) {
  std::string s = "[";
  for (size_t i = 0; i < n && i < lim; i++) { char b[40]; snprintf(b, 40, "%s%.10g", i ? " " : "", x[i]); s += b; }
  if (n > lim) s += " ...";
  return s + "]";
}
inline std::string vstr(const Vec& v, size_t lim = 24) { return vstr(v.data(), v.size(), lim); }
inline std::string istr(const std::vector<int>& v, size_t lim = 24) {
  std::string s = "[";
  for (size_t i = 0; i < v.size() && i < lim; i++) { if (i) s += " "; s += std::to_string(v[i]); }
  if (v.size() > lim) s += " ...";
  return s + "]";
}
// deterministic "generic" vector: no zero entries, no symmetry
inline double gen(int i, int salt) {
  uint64_t h = mc::mix(0x1234567 + (uint64_t)salt * 7919, (uint64_t)i + 1);
  double v = (double)(h >> 11) / 9007199254740992.0;  // [0,1)
  return (v * 2 - 1) * 3 + ((h & 1) ? 0.125 : -0.125);
}
inline Vec genv(int n, int salt) { Vec v(n); for (int i = 0; i < n; i++) v[i] = gen(i, salt); return v; }
