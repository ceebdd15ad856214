// Transform sets with A A^T = I, for which NESTA's projection is exact.
#pragma once
#include "l1p.hpp"
#include "bigops.hpp"
struct NProb { Cfg g; bool ortho; };
// n orthonormal rows of length m
inline Cfg mk_ortho(int n, int m, int salt) {
  Cfg g = mk_mat(n, m, salt);
  for (int i = 0; i < n; i++) {
    for (int rep = 0; rep < 2; rep++) for (int k = 0; k < i; k++) {
      ld s = 0; for (int j = 0; j < m; j++) s += (ld)g.mat[i * m + j] * g.mat[k * m + j];
      for (int j = 0; j < m; j++) g.mat[i * m + j] -= (double)(s * g.mat[k * m + j]);
    }
    ld s = 0; for (int j = 0; j < m; j++) s += (ld)g.mat[i * m + j] * g.mat[i * m + j];
    for (int j = 0; j < m; j++) g.mat[i * m + j] = (double)(g.mat[i * m + j] / sqrtl(s));
  }
  return g;
}
inline std::vector<NProb> problems(bool big) {
  std::vector<NProb> v{{mk_ortho(1, 1, 3), 1}, {mk_ortho(1, 4, 4), 1}, {mk_ortho(3, 3, 5), 1}, {mk_ortho(2, 5, 6), 1}, {mk_ortho(4, 9, 7), 1},
    {mk_dct(5, 1, dct1, {3, 0}), 1}, {mk_dct(3, 4, dct2, {11, 2, 5, 0}), 1}, {mk_dct(4, 3, dct1, {1, 10, 4}), 1}, {mk_dct(1, 7, dct2, {6, 1, 3, 2}), 1},
    {mk_tv(3, 4, dct1, analysis, 0, 0, {11, 2, 5, 0}), 1}, {mk_tv(3, 4, dct2, analysis, 0.7, 0, {11, 2, 5, 0}), 1}, {mk_tv(3, 5, dct1, analysis, 0, 1.5, {14, 2, 5}), 1},
    {mk_tv(4, 3, dct2, analysis, 0.5, 2.0, {11, 2, 5, 0, 7}), 1}, {mk_tv(3, 4, dct2, synthesis, 0, 0, {9, 3, 1}), 1}};
  if (big) {
    v.push_back({mk_ortho(7, 17, 8), 1}); v.push_back({mk_tv(5, 7, dct2, analysis, 0.3, 0.9, {34, 0, 12, 7, 20, 19, 3}), 1});
    v.push_back({mk_tv(7, 3, dct1, analysis, 4.0, 0.25, {20, 0, 12, 7, 19, 3}), 1}); v.push_back({mk_dct(6, 5, dct2, {29, 0, 15, 3, 8, 22}), 1});
  }
  return v;
}
// signals beyond the dense reference
inline std::vector<Cfg> big_problems() {
  std::vector<Cfg> v;
  for (auto s : {std::pair<int, int>{33, 1}, {1, 64}, {100, 1}, {12, 11}, {9, 16}, {16, 17}, {20, 7}, {3, 70}, {300, 1}, {33, 35}}) {
    int R = s.first, C = s.second; auto pix = mask_family(R * C)[9];
    for (DctMode md : {dct1, dct2}) {
      v.push_back(mk_dct(R, C, md, pix));
      if (R > 2 && C > 2) { v.push_back(mk_tv(R, C, md, analysis, 0.6, 1.7, pix)); v.push_back(mk_tv(R, C, md, analysis, md == dct1 ? 0.9 : 0, md == dct1 ? 0 : 0.4, pix)); }
    }
  }
  return v;
}
inline l1c_NestaOpts nopts(double mu, double tol, double sigma, int nc) { l1c_NestaOpts o; memset(&o, 0, sizeof o); o.mu = mu; o.tol = tol; o.sigma = sigma; o.n_continue = nc; return o; }
struct SetUp { Live L; SetUp(const Cfg& g, mc::Ctx& c) : L(g) { if (L.setup()) c.fail("set-up failed"); } ~SetUp() { L.f.destroy(); } };
