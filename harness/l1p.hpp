// Small measurement operators shared by the l1qc checks.
#pragma once
#include "kern.hpp"
inline Cfg mk_mat(int n, int m, int salt) { Cfg g; g.kind = K_MAT; g.n = n; g.m = m; g.mat = genv(n * m, salt); return g; }
inline Cfg mk_dct(int r, int k, DctMode md, std::vector<int> pix) { Cfg g; g.kind = K_DCT; g.mrow = r; g.mcol = k; g.mode = md; g.pix = pix; return g; }
inline Cfg mk_tv(int r, int k, DctMode md, BpMode bp, double av, double ah, std::vector<int> pix) { Cfg g; g.kind = K_TV; g.mrow = r; g.mcol = k; g.mode = md; g.bp = bp; g.av = av; g.ah = ah; g.pix = pix; return g; }
inline std::vector<Cfg> l1_operators(bool big) {
  std::vector<Cfg> v{mk_mat(1, 1, 3), mk_mat(1, 2, 4), mk_mat(2, 2, 5), mk_mat(1, 3, 6), mk_mat(2, 3, 7), mk_mat(2, 5, 8), mk_mat(3, 6, 9), mk_mat(3, 3, 10), mk_mat(4, 9, 13),
                     mk_dct(5, 1, dct1, {3, 0}), mk_dct(1, 6, dct2, {5, 2, 4}), mk_dct(2, 3, dct2, {5, 0, 2}), mk_dct(3, 2, dct1, {1, 4}), mk_dct(3, 3, dct2, {8, 3, 4, 0})};
  if (big) { v.push_back(mk_mat(7, 17, 14)); v.push_back(mk_dct(4, 4, dct2, {15, 1, 7, 8, 2, 11})); v.push_back(mk_dct(11, 1, dct1, {10, 1, 7, 4})); v.push_back(mk_dct(2, 7, dct1, {3, 9, 12, 6, 0})); }
  return v;
}
// dense symmetric solve (long double, partial pivoting)
inline std::vector<ld> dsolve(Mat A, std::vector<ld> b) {
  int n = A.r;
  for (int k = 0; k < n; k++) {
    int p = k; for (int i = k; i < n; i++) if (fabsl(A(i, k)) > fabsl(A(p, k))) p = i;
    if (p != k) { for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j)); std::swap(b[k], b[p]); }
    for (int i = k + 1; i < n; i++) { ld f = A(i, k) / A(k, k); if (f == 0) continue; for (int j = k; j < n; j++) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; }
  }
  for (int i = n - 1; i >= 0; i--) { for (int j = i + 1; j < n; j++) b[i] -= A(i, j) * b[j]; b[i] /= A(i, i); }
  return b;
}
