// Independent reference for min ||x||_1 s.t. ||Ax-b||<=eps (dense barrier method, long double).
#pragma once
#include "l1p.hpp"
#include <map>
// returns a point that is optimal to `gap` (absolute) together with a certified lower bound
struct L1Opt { std::vector<ld> x; ld val = 0, lower = 0; };
inline L1Opt l1_reference(const Mat& A, const Vec& b, double eps, std::vector<ld> x, ld gap) {
  int m = A.c, n = A.r;
  L1Opt o;
  ld nb = 0; for (double t : b) nb += (ld)t * t; nb = sqrtl(nb);
  if (nb <= eps) { o.x.assign(m, 0); return o; }
  ld mx = 0; for (ld t : x) mx = std::max(mx, fabsl(t)); if (mx == 0) mx = 1;
  std::vector<ld> u(m); for (int i = 0; i < m; i++) u[i] = fabsl(x[i]) + 0.2L * mx;
  auto resid = [&](const std::vector<ld>& q, std::vector<ld>& r) { ld s = 0; r.assign(n, 0); for (int i = 0; i < n; i++) { r[i] = -(ld)b[i]; for (int j = 0; j < m; j++) r[i] += A(i, j) * q[j]; s += r[i] * r[i]; } return s; };
  auto f = [&](const std::vector<ld>& xx, const std::vector<ld>& uu, ld T) {
    std::vector<ld> r; ld rr = resid(xx, r), s = 0, l = 0, fe = (ld)eps * eps - rr;
    if (!(fe > 0)) return (ld)NAN;
    for (int i = 0; i < m; i++) { ld a = uu[i] - xx[i], c = uu[i] + xx[i]; if (!(a > 0) || !(c > 0)) return (ld)NAN; s += uu[i]; l += logl(a) + logl(c); }
    return T * s - l - logl(fe);
  };
  ld T = 1 / mx;
  for (int outer = 0; outer < 80; outer++) {
    for (int it = 0; it < 60; it++) {
      std::vector<ld> r; ld rr = resid(x, r), F = (ld)eps * eps - rr;
      std::vector<ld> atr(m, 0); for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) atr[j] += A(i, j) * r[i];
      // eliminate du: H22 du = -g2 - H12 dx
      Mat S(m, m); std::vector<ld> g1(m), g2(m), s11(m), s12(m), rhs(m);
      for (int i = 0; i < m; i++) {
        ld a = 1 / (u[i] - x[i]), c = 1 / (u[i] + x[i]);
        g1[i] = a - c + 2 * atr[i] / F; g2[i] = T - a - c; s11[i] = a * a + c * c; s12[i] = c * c - a * a;
        for (int j = 0; j < m; j++) { ld t = 0; for (int k = 0; k < n; k++) t += A(k, i) * A(k, j); S(i, j) = 2 * t / F + 4 * atr[i] * atr[j] / (F * F); }
      }
      for (int i = 0; i < m; i++) { ld a = 1 / (u[i] - x[i]), c = 1 / (u[i] + x[i]); S(i, i) += 4 * a * a * c * c / s11[i]; rhs[i] = -g1[i] + s12[i] / s11[i] * g2[i]; }
      std::vector<ld> dx = dsolve(S, rhs), du(m);
      ld dec = 0;
      for (int i = 0; i < m; i++) { du[i] = (-g2[i] - s12[i] * dx[i]) / s11[i]; dec -= g1[i] * dx[i] + g2[i] * du[i]; }
      if (!(dec > 1e-12L)) break;
      ld f0 = f(x, u, T), st = 1; bool ok = false;
      for (int k = 0; k < 60; k++, st /= 2) {
        std::vector<ld> xx(m), uu(m); for (int i = 0; i < m; i++) { xx[i] = x[i] + st * dx[i]; uu[i] = u[i] + st * du[i]; }
        ld v = f(xx, uu, T);
        if (!(v <= f0 - 0.01L * st * dec)) continue;
        x = xx; u = uu; ok = true; break;
      }
      if (!ok) break;
    }
    if ((2 * m + 1) / T < gap) break;
    T *= 6;
  }
  o.x = x; for (ld t : x) o.val += fabsl(t);
  // dual certificate y = -r / ||A^T r||_inf
  std::vector<ld> r; ld rr = resid(x, r); ld mxa = 0, br = 0;
  for (int j = 0; j < m; j++) { ld t = 0; for (int i = 0; i < n; i++) t += A(i, j) * r[i]; mxa = std::max(mxa, fabsl(t)); }
  for (int i = 0; i < n; i++) br -= b[i] * r[i];
  if (mxa > 0) o.lower = std::max((ld)0, (br - eps * sqrtl(rr)) / mxa);
  return o;
}
// minimum-norm solution of A x = b
inline std::vector<ld> least_norm(const Mat& A, const Vec& b) {
  int n = A.r, m = A.c; Mat G = A.mm(A.T());
  std::vector<ld> z = dsolve(G, std::vector<ld>(b.begin(), b.end())), x(m, 0);
  for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) x[j] += A(i, j) * z[i];
  return x;
}
inline Vec tod(const std::vector<ld>& v) { return Vec(v.begin(), v.end()); }
