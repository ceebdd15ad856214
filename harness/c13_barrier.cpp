// C13: the pieces of the log-barrier Newton step against closed forms.
#include "l1p.hpp"
#include "bigops.hpp"
struct Prob {
  l1c_l1qcProb p; std::vector<std::unique_ptr<Buf>> own; std::vector<double*> dw; Vec b0;
  Buf* mk(size_t n, double v = 0) { own.emplace_back(new Buf(n, v)); return own.back().get(); }
  Prob(int m, int n, const Vec& b, double eps, double tau, l1c_AxFuns f) : b0(b) {
    memset(&p, 0, sizeof p);
    p.m = m; p.n = n; p.epsilon = eps; p.tau = tau; p.ax_funs = f;
    p.b = mk(n)->d; for (int i = 0; i < n; i++) p.b[i] = b[i];
    p.r = mk(n, NAN)->d; p.fu1 = mk(m, NAN)->d; p.fu2 = mk(m, NAN)->d; p.w1p = mk(m, NAN)->d; p.dx = mk(m)->d; p.du = mk(m)->d;
    p.sig11 = mk(m, NAN)->d; p.sig12 = mk(m, NAN)->d; p.ntgu = mk(m, NAN)->d; p.gradf = mk(2 * m, NAN)->d;
    for (int i = 0; i < 7; i++) dw.push_back(mk(std::max(m, n), NAN)->d);
    p.DWORK7 = dw.data();
  }
  void ok(mc::Ctx& c) { for (auto& o : own) if (!o->guards_ok()) c.fail("wrote outside a work array"); if (memcmp(p.b, b0.data(), b0.size() * 8)) c.fail("the data vector was modified"); }
};
struct Setup { Cfg g; Vec x, u, b; double eps, tau, sc = 1; };
static ld fcl(const Mat& A, const Setup& s, const std::vector<ld>& x, const std::vector<ld>& u) {
  int m = A.c, n = A.r; ld f = 0, lg = 0;
  for (int i = 0; i < m; i++) { f += u[i]; lg += logl(u[i] - x[i]) + logl(u[i] + x[i]); }
  ld rr = 0; for (int i = 0; i < n; i++) { ld t = -s.b[i]; for (int j = 0; j < m; j++) t += A(i, j) * x[j]; rr += t * t; }
  lg += logl(0.5L * ((ld)s.eps * s.eps - rr));
  return f - lg / s.tau;
}
static Setup make(mc::Ctx& c, const std::vector<Cfg>& ops, bool pick_tau = true) {
  Setup s; s.g = c.pick(ops);
  int m = s.g.mtot(), n = s.g.nmeas();
  int xk = c.choose(4, "x"), uk = c.choose(3, "u"), ek = c.choose(4, "eps");
  s.tau = pick_tau ? c.pick({1.0, 12.5, 1e4}) : 1;
  s.x = genv(m, 41);
  if (xk == 1) for (int i = 0; i < m; i++) if (i % 2) s.x[i] = 0;
  if (xk == 2) for (double& v : s.x) v *= 1e-4;
  if (xk == 3) for (double& v : s.x) v = fabs(v) * 50;
  double mx = nrminf(s.x); if (mx == 0) mx = 1;
  s.u.resize(m);
  for (int i = 0; i < m; i++) s.u[i] = uk == 0 ? 0.95 * fabs(s.x[i]) + 0.1 * mx : uk == 1 ? fabs(s.x[i]) + mx * 1e-3 * (1 + i % 3) : fabs(s.x[i]) * (1 + 0.3 * (i % 4)) + mx * 5;
  Ref R = make_ref(s.g);
  Vec ax = R.A.mul(s.x), d = genv(n, 77);
  double sc = std::max(nrminf(ax), 1e-6) * 0.1;
  s.b.resize(n); for (int i = 0; i < n; i++) s.b[i] = ax[i] + (ek == 3 ? 0 : d[i] * sc);
  Vec r(n); for (int i = 0; i < n; i++) r[i] = ax[i] - s.b[i];
  s.eps = ek == 0 ? nrm2(r) * 1.01 : ek == 1 ? nrm2(r) * 2 : ek == 2 ? nrm2(r) * 100 : sc;
  // the whole problem in other units
  s.sc = c.pick({1.0, 1e-12, 1e-7, 1e8}, "unit");
  if (s.sc != 1) { if (m > 9 || mc::is_asan() || uk == 2) c.prune(); for (Vec* v : {&s.x, &s.u, &s.b}) for (double& t : *v) t *= s.sc; s.eps *= s.sc; if (pick_tau) s.tau /= s.sc; }
  return s;
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  static const std::vector<Cfg> ops = [] { auto v = l1_operators(mc::thorough());
    for (Cfg g : {mk_mat(6, 20, 21), mk_mat(12, 33, 22), mk_dct(33, 1, dct1, mask_family(33)[9]), mk_dct(5, 7, dct2, mask_family(35)[9]), mk_dct(8, 9, dct2, mask_family(72)[8]), mk_mat(20, 65, 23)}) v.push_back(g);
    return v; }();
  mc::explore("functional_and_direction", [](mc::Ctx& c) {
    Setup s = make(c, ops);
    if (s.g.mtot() > 16 && s.tau == 12.5) c.prune();
    if (s.g.mtot() > 33 && mc::is_asan()) c.prune();
    c.begin("%s x=%s u=%s eps=%g tau=%g", s.g.str().c_str(), vstr(s.x, 6).c_str(), vstr(s.u, 6).c_str(), s.eps, s.tau);
    RefOps R(s.g); const Mat& A = R.r.A; int m = A.c, n = A.r;
    Live L(s.g); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
    Prob P(m, n, s.b, s.eps, s.tau, L.f);
    Buf x(s.x), u(s.u);
    double f = _l1c_l1qc_f_eval(&P.p, x, u);
    c.step(); c.check();
    if (!x.same(s.x) || !u.same(s.u) || !x.guards_ok() || !u.guards_ok()) c.fail("the functional evaluation modified the point");
    std::vector<ld> lx(s.x.begin(), s.x.end()), lu(s.u.begin(), s.u.end());
    ld w = fcl(A, s, lx, lu);
    ld rr = 0; std::vector<ld> r(n); for (int i = 0; i < n; i++) { r[i] = -(ld)s.b[i]; for (int j = 0; j < m; j++) r[i] += A(i, j) * lx[j]; rr += r[i] * r[i]; }
    ld fe = 0.5L * (rr - (ld)s.eps * s.eps);
    double mag = nrm1(s.u) + (s.sc == 1 ? 20.0 : 60.0) * m / s.tau;
    // sensitivity of log(eps^2-r^2) to rounding of r
    double sens = 1e-13 * (nrm2(s.b) + nrm2(s.x)) * nrm2(s.b) / fabs((double)fe) + 1e-13;
    if (!(fabs(f - (double)w) <= 1e-12 * mag + sens / s.tau)) c.fail("functional is %.15g, closed form %.15g", f, (double)w);
    if (!(P.p.f_val == f)) c.fail("stored functional value %.15g differs from the returned %.15g", P.p.f_val, f);
    c.state(mc::hvals(&f, 1, m * 100 + n));
    // closed-form gradient and Hessian
    std::vector<ld> g(2 * m); Mat H(2 * m, 2 * m);
    std::vector<ld> atr(m, 0); for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) atr[j] += A(i, j) * r[i];
    ld T = s.tau;
    for (int i = 0; i < m; i++) {
      ld a = lu[i] - lx[i], b = lu[i] + lx[i];
      g[i] = (1 / a - 1 / b) / T + atr[i] / (-fe) / T;
      g[m + i] = 1 - (1 / a + 1 / b) / T;
      ld s11 = 1 / (a * a) + 1 / (b * b), s12 = -1 / (a * a) + 1 / (b * b);
      H(i, i) += s11 / T; H(m + i, m + i) += s11 / T; H(i, m + i) += s12 / T; H(m + i, i) += s12 / T;
      for (int j = 0; j < m; j++) { ld t = 0; for (int k = 0; k < n; k++) t += A(k, i) * A(k, j); H(i, j) += (t / (-fe) + atr[i] * atr[j] / (fe * fe)) / T; }
    }
    // gradient, Hessian product
    Vec vatr(m); for (int i = 0; i < m; i++) vatr[i] = (double)atr[i];
    Buf ba(vatr), sigx((size_t)m, NAN);
    _l1c_l1qc_hess_grad(&P.p, sigx, ba);
    c.step();
    double gs = 0; for (ld t : g) gs = std::max(gs, (double)fabsl(t)); gs += 1;
    double rel = 1e-12 + sens / 10;
    for (int i = 0; i < 2 * m; i++) {
      ld mg = i < m ? (1 / (lu[i] - lx[i]) + 1 / (lu[i] + lx[i]) + fabsl(atr[i] / fe)) / T : 1 + (1 / (lu[i - m] - lx[i - m]) + 1 / (lu[i - m] + lx[i - m])) / T;
      double slack = 1e-11 + sens + 1e-15 * (double)(lu[i % m] / (lu[i % m] - fabsl(lx[i % m])));
      c.check();
      if (!(fabs(P.p.gradf[i] - (double)g[i]) <= slack * (double)mg)) c.fail("gradient element %d is %.15g, closed form %.15g", i, P.p.gradf[i], (double)g[i]);
    }
    Mat S(m, m);    // Schur complement H11 - H12 H22^-1 H21, times tau
    for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) { S(i, j) = H(i, j) * T; if (i == j) S(i, j) -= T * H(i, m + i) * H(i, m + i) / H(m + i, m + i); }
    ld smax = 0; for (ld t : S.a) smax = std::max(smax, fabsl(t));
    Hess_data hd; memset(&hd, 0, sizeof hd);
    Buf wk((size_t)m, NAN);
    hd.one_by_fe = (double)(1 / fe); hd.one_by_fe_sqrd = (double)(1 / (fe * fe)); hd.atr = ba; hd.sigx = sigx; hd.Dwork_1m = wk; hd.AtAx = L.f.AtAx;
    for (int k = 0; k <= m; k++) {
      Vec z(m, 0.0); if (k < m) z[k] = 1; else z = genv(m, 91);
      Buf bz(z), y((size_t)m, NAN);
      _l1c_l1qc_H11pfun(m, bz, y, &hd);
      c.step(); if (!bz.same(z) || !y.guards_ok()) c.fail("the Hessian product modified its input or wrote outside its output");
      Vec want(m); { Vec q = S.mul(z); want = q; }
      // sensitivity of sigx (cancellation in sig11 - sig12^2/sig11)
      for (int i = 0; i < m; i++) {
        ld a = lu[i] - lx[i], b = lu[i] + lx[i]; double s11 = (double)(1 / (a * a) + 1 / (b * b));
        c.check();
        double slack = (1e-11 + sens) * (double)smax * 3 * m + 1e-13 * s11 * fabs(z[i]) + 1e-14 * s11 * (double)(lu[i] / std::min(a, b)) * fabs(z[i]);
        if (!(fabs(y.d[i] - want[i]) <= slack)) c.fail("Hessian product element %d is %.15g, closed form %.15g", i, y.d[i], want[i]);
      }
    }
    // full Newton direction
    for (int ws = 0; ws < 2; ws++) {
      for (int i = 0; i < m; i++) P.p.dx[i] = ws ? gen(i, 55) * 1e-2 * s.sc : 0;
      l1c_CgParams cp; cp.verbose = 0; cp.max_iter = 50 * m + 100; cp.tol = 1e-13; l1c_CgResults cr;
      double fe0 = P.p.fe_val; (void)fe0;
      int st = _l1c_l1qc_descent_dir(&P.p, cp, &cr);
      c.step(); P.ok(c);
      if (st) c.fail("the direction solve failed with status %d (relative residual %g)", st, cr.cgres);
      std::vector<ld> ng(2 * m); for (int i = 0; i < 2 * m; i++) ng[i] = -g[i];
      std::vector<ld> d = dsolve(H, ng);
      // compare in the local norm: || d - d* ||_H <= tol * ||d*||_H
      std::vector<ld> e(2 * m); for (int i = 0; i < 2 * m; i++) e[i] = (i < m ? P.p.dx[i] : P.p.du[i - m]) - d[i];
      auto hn = [&](const std::vector<ld>& v) { ld q = 0; for (int i = 0; i < 2 * m; i++) for (int j = 0; j < 2 * m; j++) q += v[i] * H(i, j) * v[j]; return (double)sqrtl(fabsl(q)); };
      double he = hn(e), hd2 = hn(d);
      c.check();
      if (!(he <= 1e-4 * hd2 + 1e-9 * sqrt(s.sc))) c.fail("direction is off by %.3g of its length %.3g (local norm); dx=%s expected %s", he, hd2, vstr(P.p.dx, m, 6).c_str(), vstr(Vec(d.begin(), d.begin() + m), 6).c_str());
      c.state(mc::hvals(P.p.dx, m, 3));
      c.outcome(mc::mix(m, n));
    }
    L.inputs_intact(c);
  });
  // large problems, all closed forms without matrices
  mc::explore("large", [](mc::Ctx& c) {
    auto sh = c.pick({std::pair<int, int>{130, 1}, {12, 11}, {300, 1}, {1025, 1}, {33, 35}, {65, 64}}, "shape"); DctMode md = c.pick({dct1, dct2}); int uk = c.choose(2), ek = c.choose(2); double tau = c.pick({3.0, 1e3});
    if (sh.second == 1 && md == dct2) c.prune();
    if (mc::is_asan() && sh.first * sh.second > 200) c.prune();
    Cfg g = mk_dct(sh.first, sh.second, md, mask_family(sh.first * sh.second)[9]); BigRef R(g); int m = g.mtot(), n = g.nmeas();
    c.begin("large %s u %d eps %d tau=%g", g.str().substr(0, 60).c_str(), uk, ek, tau);
    Vec xv = genv(m, 41), uv(m); for (int i = 0; i < m; i++) { if (i % 3 == 1) xv[i] = 0; uv[i] = uk ? fabs(xv[i]) + 0.05 * (1 + i % 3) : 0.95 * fabs(xv[i]) + 0.1 * nrminf(xv); }
    LVec x(xv.begin(), xv.end()), u(uv.begin(), uv.end()), ax = R.op(O_Ax, x); Vec d = genv(n, 77), bv(n); LVec r(n); ld rr = 0;
    for (int i = 0; i < n; i++) { bv[i] = (double)ax[i] + 0.1 * d[i]; r[i] = ax[i] - bv[i]; rr += r[i] * r[i]; }
    double eps = (double)sqrtl(rr) * (ek ? 1.05 : 3); ld fe = 0.5L * (rr - (ld)eps * eps), T = tau;
    Live L(g); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
    Prob P(m, n, bv, eps, tau, L.f); Buf X(xv), U(uv);
    double f = _l1c_l1qc_f_eval(&P.p, X, U); c.step(); c.check(4);
    ld w = 0, lg = logl(-fe); for (int i = 0; i < m; i++) { w += u[i]; lg += logl(u[i] - x[i]) + logl(u[i] + x[i]); } w -= lg / T;
    if (!X.same(xv) || !U.same(uv)) c.fail("the functional evaluation modified the point");
    if (!(fabs(f - (double)w) <= 1e-12 * (nrm1(uv) + 20.0 * m / tau))) c.fail("functional is %.15g, closed form %.15g", f, (double)w);
    LVec atr = R.op(O_Aty, r), g1(m), g2(m), s11(m), s12(m), sx(m);
    for (int i = 0; i < m; i++) { ld a = 1 / (u[i] - x[i]), b = 1 / (u[i] + x[i]); g1[i] = a - b - atr[i] / fe; g2[i] = T - a - b; s11[i] = a * a + b * b; s12[i] = b * b - a * a; sx[i] = 4 * a * a * b * b / s11[i]; }
    Vec va(atr.begin(), atr.end()); Buf ba(va), sg((size_t)m, NAN);
    _l1c_l1qc_hess_grad(&P.p, sg, ba); c.step();
    for (int i = 0; i < m; i++) { ld a = 1 / (u[i] - x[i]), b = 1 / (u[i] + x[i]);
      if (!(fabs(P.p.gradf[i] - (double)(g1[i] / T)) <= 1e-11 * (double)((a + b + fabsl(atr[i] / fe)) / T))) c.fail("gradient element %d is %.15g, closed form %.15g", i, P.p.gradf[i], (double)(g1[i] / T));
      if (!(fabs(P.p.gradf[m + i] - (double)(g2[i] / T)) <= 1e-11 * (double)(1 + (a + b) / T))) c.fail("gradient element %d is %.15g, closed form %.15g", m + i, P.p.gradf[m + i], (double)(g2[i] / T)); }
    auto S = [&](const LVec& z) { LVec y = R.op(O_Aty, R.op(O_Ax, z)); ld q = 0; for (int i = 0; i < m; i++) q += atr[i] * z[i]; for (int i = 0; i < m; i++) y[i] = sx[i] * z[i] - y[i] / fe + q * atr[i] / (fe * fe); return y; };
    Hess_data hd; memset(&hd, 0, sizeof hd); Buf wk((size_t)m, NAN); hd.one_by_fe = (double)(1 / fe); hd.one_by_fe_sqrd = (double)(1 / (fe * fe)); hd.atr = ba; hd.sigx = sg; hd.Dwork_1m = wk; hd.AtAx = L.f.AtAx;
    Vec z = genv(m, 91); Buf Z(z), Y((size_t)m, NAN); _l1c_l1qc_H11pfun(m, Z, Y, &hd); c.step();
    LVec sz = S(LVec(z.begin(), z.end())); ld mz = 0; for (ld t : sz) mz = std::max(mz, fabsl(t));
    if (!Z.same(z) || !Y.guards_ok()) c.fail("the Hessian product modified its input or wrote outside its output");
    for (int i = 0; i < m; i++) if (!(fabs(Y.d[i] - (double)sz[i]) <= 1e-10 * (double)mz)) c.fail("Hessian product element %d is %.15g, closed form %.15g", i, Y.d[i], (double)sz[i]);
    l1c_CgParams cp; cp.verbose = 0; cp.max_iter = 4000; cp.tol = 1e-10; l1c_CgResults cr; int st = _l1c_l1qc_descent_dir(&P.p, cp, &cr); c.step(); P.ok(c);
    if (st) c.fail("the direction solve failed with status %d (relative residual %g)", st, cr.cgres);
    LVec dx(P.p.dx, P.p.dx + m), q = S(dx); ld en = 0, bn = 0;
    for (int i = 0; i < m; i++) { ld w1 = -g1[i] + s12[i] / s11[i] * g2[i]; en += (q[i] - w1) * (q[i] - w1); bn += w1 * w1; ld du = (-g2[i] - s12[i] * dx[i]) / s11[i]; if (!(fabsl(P.p.du[i] - du) <= 1e-10L * (fabsl(du) + fabsl(g2[i] / s11[i]) + fabsl(dx[i])))) c.fail("du[%d] is %.15g, the eliminated equation gives %.15g", i, P.p.du[i], (double)du); }
    if (!(sqrtl(en) <= 1e-8L * sqrtl(bn))) c.fail("the reduced Newton system is left with relative residual %.3Lg", sqrtl(en / bn));
    double st2 = _l1c_l1qc_find_max_step(&P.p); c.step(); ld lim = INFINITY; LVec ad = R.op(O_Ax, dx); ld qa = 0, qb = 0; for (int i = 0; i < n; i++) { qa += ad[i] * ad[i]; qb += 2 * r[i] * ad[i]; }
    for (int i = 0; i < m; i++) { ld e = dx[i] - P.p.du[i]; if (e > 0) lim = std::min(lim, (u[i] - x[i]) / e); e = -dx[i] - P.p.du[i]; if (e > 0) lim = std::min(lim, (u[i] + x[i]) / e); }
    ld cc = 2 * fe, dis = sqrtl(qb * qb - 4 * qa * cc); lim = std::min(lim, qb > 0 ? -2 * cc / (qb + dis) : (-qb + dis) / (2 * qa));
    double want = 0.99 * (double)std::min((ld)1, lim);
    if (!(fabs(st2 - want) <= 1e-8 * want)) c.fail("step bound is %.15g, expected %.15g", st2, want);
    c.state(mc::hvals(P.p.dx, m)); c.outcome(mc::hvals(&want, 1));
  });
  mc::explore("outside_is_nan", [](mc::Ctx& c) {
    Setup s = make(c, ops, false);
    int m = s.g.mtot();
    int k = m <= 16 ? c.choose(2 * m + 1, "which bound") : c.pick({0, 15, 16, m / 2, m - 1, m, m + 16, 2 * m - 2, 2 * m - 1, 2 * m}, "which bound");
    c.begin("%s x=%s bound %d violated", s.g.str().c_str(), vstr(s.x, 6).c_str(), k);
    RefOps R(s.g);
    Live L(s.g); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
    double eps = s.eps;
    if (k < m) s.u[k] = s.x[k] > 0 ? s.x[k] * (1 - 1e-6) - 1e-9 * s.sc : -fabs(s.x[k]) - s.sc;
    else if (k < 2 * m) { int i = k - m; s.u[i] = s.x[i] < 0 ? -s.x[i] * (1 - 1e-6) - 1e-9 * s.sc : -fabs(s.x[i]) - s.sc; }
    else { Vec ax = R.r.A.mul(s.x); double q = 0; for (size_t i = 0; i < ax.size(); i++) q += (ax[i] - s.b[i]) * (ax[i] - s.b[i]); if (q <= 1e-24 * nrm2(s.b) * nrm2(s.b)) { s.b[0] += s.sc; q = 0; for (size_t i = 0; i < ax.size(); i++) q += (ax[i] - s.b[i]) * (ax[i] - s.b[i]); } eps = sqrt(q) * (1 - 1e-6); }
    Prob P(m, s.g.nmeas(), s.b, eps, 1, L.f);
    Buf x(s.x), u(s.u);
    double f = _l1c_l1qc_f_eval(&P.p, x, u);
    c.step(); c.check(); P.ok(c);
    if (!std::isnan(f)) c.fail("the functional outside the feasible set is %.15g", f);
    c.state(mc::mix(k, mc::hvals(s.x.data(), m)));
  });
  mc::explore("max_step", [](mc::Ctx& c) {
    Setup s = make(c, ops, false);
    int m = s.g.mtot(), n = s.g.nmeas();
    int dk = c.choose(9, "direction"); double sc = c.pick({1e-3, 0.1, 1.0, 30.0});
    if (m > 16 && mc::is_asan() && sc != 1.0) c.prune();
    int pk = dk < 5 ? 0 : m <= 16 ? c.choose(m, "coordinate") : c.pick({0, 15, 16, m - 2, m - 1}, "coordinate");
    c.begin("%s x=%s eps=%g direction %d/%d scale %g", s.g.str().c_str(), vstr(s.x, 6).c_str(), s.eps, dk, pk, sc);
    RefOps R(s.g); const Mat& A = R.r.A;
    Live L(s.g); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
    Prob P(m, n, s.b, s.eps, 1, L.f);
    Buf x(s.x), u(s.u);
    _l1c_l1qc_f_eval(&P.p, x, u);
    double mx = nrminf(s.x) * sc;
    Vec dx(m, 0.0), du(m, 0.0);
    for (int i = 0; i < m; i++) {
      if (dk == 0) { dx[i] = gen(i, 61) * mx; du[i] = gen(i, 62) * mx; }
      if (dk == 1) { dx[i] = -s.x[i] * sc; du[i] = -s.u[i] * sc; }
      if (dk == 2) { dx[i] = gen(i, 63) * mx; du[i] = fabs(dx[i]) * 2; }     // bounds never active
      if (dk == 3) du[i] = mx * (i % 2 ? 1 : 2);                            // dx = 0, moving away from the bounds
      if (dk == 4) du[i] = -mx * (1 + i % 2);                              // dx = 0, towards the bounds
    }
    if (dk == 5) { dx[pk] = mx; } if (dk == 6) dx[pk] = -mx;
    if (dk == 7) { dx[pk] = mx; for (double& t : du) t = 2 * mx; } if (dk == 8) du[pk] = -mx;
    for (int i = 0; i < m; i++) { P.p.dx[i] = dx[i]; P.p.du[i] = du[i]; }
    double st = _l1c_l1qc_find_max_step(&P.p);
    c.step(); c.check(3); P.ok(c);
    ld lim = INFINITY;
    for (int i = 0; i < m; i++) {
      ld e = (ld)dx[i] - du[i]; if (e > 0) lim = std::min(lim, ((ld)s.u[i] - s.x[i]) / e);
      e = -(ld)dx[i] - du[i]; if (e > 0) lim = std::min(lim, ((ld)s.u[i] + s.x[i]) / e);
    }
    ld a = 0, b = 0, cc = 0;
    for (int i = 0; i < n; i++) { ld ad = 0, r = -(ld)s.b[i]; for (int j = 0; j < m; j++) { ad += A(i, j) * dx[j]; r += A(i, j) * s.x[j]; } a += ad * ad; b += 2 * r * ad; cc += r * r; }
    cc -= (ld)s.eps * s.eps;
    double slack = 1e-9;
    if (a > 0) { ld root = b > 0 ? -2 * cc / (b + sqrtl(b * b - 4 * a * cc)) : (-b + sqrtl(b * b - 4 * a * cc)) / (2 * a); lim = std::min(lim, root); slack += 1e-14 * (double)(b * b / (4 * a * fabsl(cc))) + 1e-13 * nrm2(s.b) * nrm2(s.b) / fabs((double)cc); }
    double want = 0.99 * (double)std::min((ld)1, lim);
    if (!(st > 0)) c.fail("step bound %.15g is not positive", st);
    if (!(st <= 0.99 + 1e-15)) c.fail("step bound %.15g exceeds 0.99", st);
    if (!(fabs(st - want) <= slack * want)) c.fail("step bound is %.15g, expected %.15g", st, want);
    c.state(mc::hvals(&st, 1, mc::mix(m, dk))); c.outcome(want < 0.989);
  });
  mc::explore("init", [](mc::Ctx& c) {
    int m = 1 + c.choose(mc::thorough() ? 40 : 12), xk = c.choose(9), lb = c.choose(3); double lbtol = c.pick({1e-3, 1e-1, 1e-6}), mu = c.pick({10.0, 2.0, 50.0});
    c.begin("newton_init m=%d x %d lbiter %d lbtol %g mu %g", m, xk, lb, lbtol, mu);
    Vec xv = genv(m, 21 + xk);
    if (xk == 1) { xv.assign(m, 0.0); xv[m - 1] = -3; }
    if (xk == 2) for (double& t : xv) t *= 1e-3;
    if (xk == 3) for (double& t : xv) t *= 1e3;
    if (xk >= 6) for (double& t : xv) t *= xk == 6 ? 1e-8 : xk == 7 ? 1e-13 : 1e9;
    if (xk == 4) { xv.assign(m, 2.0); }
    if (xk == 5) { for (double& t : xv) t = -fabs(t); xv[0] *= 1e4; }
    Buf x(xv), u((size_t)m, NAN);
    l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.mu = mu; o.lbtol = lbtol; o.tau = -5; o.lbiter = lb == 0 ? 0 : lb == 1 ? 1 : 17; o.epsilon = 0.1;
    l1c_L1qcOpts o0 = o;
    int st = _l1c_l1qc_newton_init(m, x, u, &o);
    c.step(); c.check(3);
    if (st) c.fail("status %d", st);
    if (!x.same(xv) || !x.guards_ok() || !u.guards_ok()) c.fail("x modified or arrays overrun");
    for (int i = 0; i < m; i++) if (!(u.d[i] > fabs(xv[i])) || !std::isfinite(u.d[i])) c.fail("u[%d] = %.17g does not strictly dominate |x| = %.17g", i, u.d[i], fabs(xv[i]));
    double l1 = nrm1(xv), tau = std::max((2.0 * m + 1) / l1, 1.0);
    if (!(fabs(o.tau - tau) <= 1e-12 * tau)) c.fail("barrier parameter %.15g, documented %.15g", o.tau, tau);
    double k = (log(2.0 * m + 1) - log(lbtol) - log(tau)) / log(mu);
    int want = lb == 0 ? std::max(1, (int)ceil(k)) : o0.lbiter;   // at least one: the start is not centred
    if (!(o.lbiter == want || (lb == 0 && fabs(k - round(k)) < 1e-9 && abs(o.lbiter - std::max(1, (int)round(k))) <= 1 && o.lbiter >= 1))) c.fail("iteration count %d, expected %d", o.lbiter, want);
    if (o.mu != mu || o.lbtol != lbtol || o.epsilon != 0.1) c.fail("other options changed");
    c.state(mc::hvals(u.d, m)); c.outcome(o.lbiter);
  });
  mc::explore("feasible_start", [](mc::Ctx& c) {
    Setup s = make(c, ops, false);
    double fac = c.pick({1 - 1e-9, 1 + 1e-9, 0.5, 2.0, 1e-3, 1e3});
    c.begin("%s x=%s residual %g eps", s.g.str().c_str(), vstr(s.x, 6).c_str(), fac);
    RefOps R(s.g); Vec ax = R.r.A.mul(s.x); int m = s.g.mtot(), n = s.g.nmeas();
    double q = 0; for (int i = 0; i < n; i++) q += (ax[i] - s.b[i]) * (ax[i] - s.b[i]); q = sqrt(q);
    if (q < 1e-5 * nrm2(s.b) || q == 0) c.prune();
    Live L(s.g); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
    Prob P(m, n, s.b, q / fac, 1, L.f);
    Buf x(s.x);
    int st = _l1c_l1qc_check_feasible_start(&P.p, x);
    c.step(); c.check(); P.ok(c);
    if (!x.same(s.x)) c.fail("x modified");
    if (st != (fac > 1 ? (int)L1C_INFEASIBLE_START : 0)) c.fail("residual %.12g, epsilon %.12g: status %d", q, q / fac, st);
    c.state(mc::mix(mc::hvals(&q, 1), (int)(fac * 1000))); c.outcome(st);
  });
  return mc::finish();
}
