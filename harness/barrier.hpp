// Reference minimiser of ||K x||_1 + q/2 ||x-f||^2  [ s.t. ||Ax-b|| <= eps ]  (long double, dense barrier Newton)
#pragma once
#include "l1ref.hpp"
struct BarOpt { std::vector<ld> x; ld val; };
// K: p x m.  ball: use A,b,eps.  x: strictly feasible start.  Result is optimal to about `gap`.
inline BarOpt barrier_min(const Mat& K, ld q, const Vec* f, const Mat* A, const Vec* b, double eps, std::vector<ld> x, ld gap) {
  int p = K.r, m = K.c, n = A ? A->r : 0;
  auto kx = [&](const std::vector<ld>& v) { std::vector<ld> o(p, 0); for (int i = 0; i < p; i++) for (int j = 0; j < m; j++) { ld t = K(i, j); if (t != 0) o[i] += t * v[j]; } return o; };
  Mat G(m, m); if (A) G = A->T().mm(*A);
  std::vector<ld> v = kx(x); ld mx = 1e-3L; for (ld t : v) mx = std::max(mx, fabsl(t));
  std::vector<ld> u(p); for (int i = 0; i < p; i++) u[i] = fabsl(v[i]) + 0.2L * mx;
  auto resid = [&](const std::vector<ld>& z, std::vector<ld>& r) { ld s = 0; r.assign(n, 0); for (int i = 0; i < n; i++) { r[i] = -(ld)(*b)[i]; for (int j = 0; j < m; j++) r[i] += (*A)(i, j) * z[j]; s += r[i] * r[i]; } return s; };
  auto fun = [&](const std::vector<ld>& xx, const std::vector<ld>& uu, ld T) {
    ld s = 0, l = 0; std::vector<ld> vv = kx(xx);
    for (int i = 0; i < p; i++) { ld a = uu[i] - vv[i], c = uu[i] + vv[i]; if (!(a > 0) || !(c > 0)) return (ld)NAN; s += uu[i]; l += logl(a) + logl(c); }
    if (f) for (int j = 0; j < m; j++) s += q / 2 * (xx[j] - (*f)[j]) * (xx[j] - (*f)[j]);
    if (A) { std::vector<ld> r; ld F = (ld)eps * eps - resid(xx, r); if (!(F > 0)) return (ld)NAN; l += logl(F); }
    return T * s - l;
  };
  ld T = 1 / mx;
  for (int outer = 0; outer < 120; outer++) {
    for (int it = 0; it < 60; it++) {
      v = kx(x);
      Mat S(m, m); std::vector<ld> gx(m, 0), w(p), g2(p), s11(p), s12(p), h(p);
      for (int i = 0; i < p; i++) { ld a = 1 / (u[i] - v[i]), c = 1 / (u[i] + v[i]); g2[i] = T - a - c; s11[i] = a * a + c * c; s12[i] = c * c - a * a; w[i] = 4 * a * a * c * c / s11[i]; h[i] = a - c; }
      std::vector<ld> rhs(m, 0);
      for (int i = 0; i < p; i++) for (int j = 0; j < m; j++) { ld t = K(i, j); if (t == 0) continue; gx[j] += t * h[i]; rhs[j] += t * (s12[i] / s11[i] * g2[i]); for (int k = 0; k < m; k++) if (K(i, k) != 0) S(j, k) += t * w[i] * K(i, k); }
      if (f) for (int j = 0; j < m; j++) { gx[j] += T * q * (x[j] - (*f)[j]); S(j, j) += T * q; }
      if (A) {
        std::vector<ld> r; ld F = (ld)eps * eps - resid(x, r); std::vector<ld> atr(m, 0);
        for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) atr[j] += (*A)(i, j) * r[i];
        for (int j = 0; j < m; j++) { gx[j] += 2 * atr[j] / F; for (int k = 0; k < m; k++) S(j, k) += 2 * G(j, k) / F + 4 * atr[j] * atr[k] / (F * F); }
      }
      for (int j = 0; j < m; j++) rhs[j] -= gx[j];
      std::vector<ld> dx = dsolve(S, rhs), dv = kx(dx), du(p);
      ld dec = 0; for (int j = 0; j < m; j++) dec -= gx[j] * dx[j];
      for (int i = 0; i < p; i++) { du[i] = (-g2[i] - s12[i] * dv[i]) / s11[i]; dec -= g2[i] * du[i]; }
      if (!(dec > 1e-9L)) break;
      ld f0 = fun(x, u, T), st = 1; bool ok = false;
      for (int k = 0; k < 60; k++, st /= 2) {
        std::vector<ld> xx(m), uu(p); for (int j = 0; j < m; j++) xx[j] = x[j] + st * dx[j]; for (int i = 0; i < p; i++) uu[i] = u[i] + st * du[i];
        ld val = fun(xx, uu, T);
        if (!(val <= f0 - 0.01L * st * dec)) continue;
        x = xx; u = uu; ok = true; break;
      }
      if (!ok) break;
    }
    if ((2 * p + 1) / T < gap) break;
    T *= 8;
  }
  BarOpt o; o.x = x; o.val = 0; v = kx(x); for (ld t : v) o.val += fabsl(t);
  if (f) for (int j = 0; j < m; j++) o.val += q / 2 * (x[j] - (*f)[j]) * (x[j] - (*f)[j]);
  return o;
}
