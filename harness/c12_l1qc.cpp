// C12: the log-barrier solver end to end.
#include "l1ref.hpp"
#include "bigops.hpp"
struct P { Cfg g; Vec b, xt; double eps; int key; };
static P problem(mc::Ctx& c, const std::vector<Cfg>& ops) {
  P p; int oi = c.choose((int)ops.size(), "operator"); p.g = ops[oi];
  int m = p.g.mtot(), n = p.g.nmeas();
  int dk = c.choose(3, "data"), ek = c.choose(4, "eps");
  Ref R = make_ref(p.g);
  p.xt = genv(m, 31);
  if (dk == 0) for (int i = 0; i < m; i++) if (i % 3) p.xt[i] = 0;
  if (dk == 2) for (double& t : p.xt) t *= 100;
  p.b = R.A.mul(p.xt);
  Vec e = genv(n, 33); double nb = nrm2(p.b), ne = nrm2(e);
  double er = ek == 0 ? 0.1 : ek == 1 ? 1e-2 : ek == 2 ? 1e-3 : 1.5;
  p.eps = er * nb;
  for (int i = 0; i < n; i++) p.b[i] += e[i] / ne * p.eps * 0.5 * (ek == 3 ? 0 : 1);
  p.key = (oi * 3 + dk) * 4 + ek;
  return p;
}
static const L1Opt& refopt(const P& p, const Mat& A) {
  static std::map<int, L1Opt> cache;
  auto it = cache.find(p.key);
  if (it != cache.end()) return it->second;
  L1Opt o = l1_reference(A, p.b, p.eps, least_norm(A, p.b), 1e-9L * (1 + nrm1(p.xt)));
  return cache[p.key] = o;
}
static Vec start(int k, const P& p, const Mat& A) {
  Vec x = tod(least_norm(A, p.b));
  int m = A.c;
  if (k == 1) return p.xt;
  if (k == 2) { // least norm plus a null-space component
    Vec z = genv(m, 99); std::vector<ld> q = least_norm(A, A.mul(z)); double s = 5 * nrm2(x) / nrm2(z);
    for (int i = 0; i < m; i++) x[i] += s * (z[i] - (double)q[i]);
  }
  if (k == 3) for (int i = 0; i < m; i++) x[i] *= 1 + 0.9 * p.eps / nrm2(p.b);  // moves the residual towards the boundary
  return x;
}
static double residual(const Mat& A, const Vec& x, const Vec& b) { Vec r = A.mul(x); for (size_t i = 0; i < r.size(); i++) r[i] -= b[i]; return nrm2(r); }
static l1c_L1qcOpts opts(double eps) {
  l1c_L1qcOpts o; memset(&o, 0, sizeof o);
  if (getenv("L1C_LOUD")) o.verbose = 2;
  o.epsilon = eps; o.mu = 10; o.lbtol = 1e-3; o.newton_tol = 1e-7; o.newton_max_iter = 80; o.l1_tol = 0; o.cg_tol = 1e-9; o.cg_maxiter = 400; o.dct_mode = dct1;
  return o;
}
struct Run { l1c_LBResult r; Vec x; long nAx = 0, nAty = 0, nAtAx = 0; };
static l1c_AxFuns inner; static long cAx, cAty, cAtAx;
static void wAx(double* x, double* y) { cAx++; inner.Ax(x, y); }
static void wAty(double* x, double* y) { cAty++; inner.Aty(x, y); }
static void wAtAx(double* x, double* y) { cAtAx++; inner.AtAx(x, y); }
static Run go(mc::Ctx& c, const P& p, const Vec& x0, l1c_L1qcOpts o) {
  Live L(p.g); if (L.setup()) c.fail("set-up failed");
  struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
  int m = p.g.mtot(), n = p.g.nmeas();
  Buf x(x0), b(p.b);
  wrap_reset(); long lv = wrap_live();
  inner = L.f; cAx = cAty = cAtAx = 0;
  l1c_AxFuns f = L.f; f.Ax = wAx; f.Aty = wAty; f.AtAx = wAtAx;
  Run q; q.r = l1c_l1qc_newton(m, x, n, b, o, f);
  q.nAx = cAx; q.nAty = cAty; q.nAtAx = cAtAx;
  c.step(1 + q.r.total_newton_iter);
  q.x = x.vec();
  if (!b.same(p.b)) c.fail("the data vector was modified");
  if (!x.guards_ok() || !b.guards_ok()) c.fail("wrote outside x or b");
  if (wrap_error()) c.fail("%s", wrap_error());
  if (wrap_live() != lv) c.fail("%ld blocks leaked", wrap_live() - lv);
  if (!allfinite(q.x)) c.fail("result is not finite");
  L.inputs_intact(c);
  double l1 = nrm1(q.x);
  if (!(fabs(q.r.l1 - l1) <= 1e-12 * l1)) c.fail("reported 1-norm %.15g, the returned point has %.15g", q.r.l1, l1);
  return q;
}
static void common(mc::Ctx& c, const P& p, const Mat& A, const Vec& x0, const Run& q, const l1c_L1qcOpts& o) {
  if (q.r.status) c.fail("status %d from a feasible start", q.r.status);
  double rs = residual(A, q.x, p.b);
  c.check(3);
  if (!(rs <= p.eps * (1 + 1e-7) + 1e-12 * nrm2(p.b))) c.fail("returned point has residual %.12g > epsilon %.12g", rs, p.eps);
  int m = A.c; double tau = std::max((2.0 * m + 1) / nrm1(x0), 1.0);
  int lb = o.lbiter; if (!lb) lb = std::max(1, (int)ceil((log(2.0 * m + 1) - log(o.lbtol) - log(tau)) / log(o.mu) - 1e-9) + (0));
  lb += o.lbiter ? 0 : 1;    // rounding of an exact integer
  if (q.r.total_newton_iter < 0 || q.r.total_newton_iter > lb * std::max(o.newton_max_iter, 1)) c.fail("reports %d Newton iterations; the limit is %d x %d", q.r.total_newton_iter, lb, o.newton_max_iter);
  if (q.r.total_cg_iter < 0 || q.r.total_cg_iter > (long)q.r.total_newton_iter * o.cg_maxiter) c.fail("reports %d CG iterations for %d Newton iterations with limit %d", q.r.total_cg_iter, q.r.total_newton_iter, o.cg_maxiter);
  // every CG iteration applies the Hessian once; a solve applies it a few times more
  if (q.r.total_cg_iter > q.nAtAx + q.nAty || q.nAtAx > q.r.total_cg_iter + 3L * (q.r.total_newton_iter + lb)) c.fail("reports %d CG and %d Newton iterations; the operator A'A was applied %ld times", q.r.total_cg_iter, q.r.total_newton_iter, q.nAtAx);
  c.state(mc::hvals(q.x.data(), q.x.size(), q.r.total_newton_iter)); c.outcome(q.r.total_newton_iter);
}
static double worst = 0;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  if (!getenv("L1C_LOUD")) l1c_replace_printf(quiet_printf);
  static const std::vector<Cfg> ops = l1_operators(mc::thorough());
  auto optimal = [](mc::Ctx& c, double unit, double tol) {
    P p = problem(c, ops), p1 = p;
    if (unit != 1) { if (p.key / 4 % 3 == 2) c.prune(); for (Vec* v : {&p.b, &p.xt}) for (double& t : *v) t *= unit; p.eps *= unit; }
    int sk = c.choose(4, "start"), ws = c.choose(3, "warm start");
    double lbtol = tol ? tol : c.pick({1e-3, 1e-1}), mu = c.pick({10.0, 3.0});
    int lbi = c.pick({0, 1, 4});
    if (lbi && lbtol != 1e-3) c.prune();
    if (tol && p.key % 4 == 3) c.prune();      // zero is the optimum: the strictly feasible path ends there
    c.begin("%s b=%s eps=%g start %d warm %d lbtol %g mu %g lbiter %d", p.g.str().c_str(), vstr(p.b, 6).c_str(), p.eps, sk, ws, lbtol, mu, lbi);
    RefOps R(p.g); const Mat& A = R.r.A;
    Vec x0 = start(sk, p, A);
    if (!(residual(A, x0, p.b) < 0.999 * p.eps)) c.fail("harness: start not feasible");
    l1c_L1qcOpts o = opts(p.eps); o.warm_start_cg = ws; o.lbtol = lbtol; o.mu = mu; o.lbiter = lbi;
    if (unit != 1) { lbtol *= unit; o.lbtol = lbtol; o.newton_tol *= unit; o.newton_max_iter = unit > 1 ? 20000 : 400; o.cg_maxiter = 2000; }
    if (tol) o.newton_tol *= tol / 1e-3, o.cg_tol = 1e-11;
    if (nrm1(p.b) > 200 * unit) o.lbtol *= 10, lbtol *= 10;
    Run q = go(c, p, x0, o);
    common(c, p, A, x0, q, o);
    L1Opt ref = refopt(p1, A); ref.val *= unit; ref.lower *= unit;
    double l1 = nrm1(q.x);
    int m = A.c; double tau = std::max((2.0 * m + 1) / nrm1(x0), 1.0);
    double gap = lbi ? (2.0 * m + 1) / (tau * pow(mu, lbi - 1)) : mu * lbtol;
    double ex = (l1 - (double)ref.val) / gap;
    worst = std::max(worst, ex); if (getenv("L1C_MARGIN")) fprintf(stderr, "%s ratio %g\n", c.desc.c_str(), ex);
    if (!(ex <= 1.25 + 1e-6 * (double)ref.val / gap)) c.fail("1-norm %.12g exceeds the minimum %.12g by %.3g; the requested accuracy allows %.3g", l1, (double)ref.val, l1 - (double)ref.val, gap);
    if (l1 < (double)ref.lower * (1 - 1e-6) - 1e-9 * unit) c.fail("1-norm %.12g is below the certified minimum %.12g", l1, (double)ref.lower);
  };
  mc::explore("optimal", [=](mc::Ctx& c) { optimal(c, 1, 0); });
  // the same problems in other units (data, tolerances and accuracies all multiplied), and with tight accuracies
  mc::explore("units", [=](mc::Ctx& c) { double un = c.pick({1e-4, 1e-8, 1e-12, 1e3}); if (mc::is_asan()) c.prune(); optimal(c, un, 0); });
  mc::explore("tight", [=](mc::Ctx& c) { if (mc::is_asan()) c.prune(); optimal(c, 1, c.pick({1e-5, 1e-6})); });
  // larger operators: optimality by the dual certificate y = r / ||A^T r||_inf of the returned point itself
  mc::explore("large", [](mc::Ctx& c) {
    static const std::vector<Cfg> big = [] { std::vector<Cfg> v{mk_mat(6, 20, 21), mk_mat(12, 33, 22), mk_mat(20, 64, 23), mk_mat(30, 65, 24), mk_mat(40, 130, 25), mk_mat(24, 24, 26)};
      for (auto s : {std::pair<int, int>{33, 1}, {8, 9}, {128, 1}, {11, 13}}) for (DctMode md : {dct1, dct2}) v.push_back(mk_dct(s.first, s.second, md, mask_family(s.first * s.second)[9])); return v; }();
    P p = problem(c, big);
    int sk = c.choose(4, "start"), ws = c.choose(3, "warm start");
    RefOps R(p.g); const Mat& A = R.r.A; int m = A.c, n = A.r;
    if (mc::is_asan() && m > 70) c.prune();
    if (p.key % 4 == 3 || p.key / 4 % 3 == 2) c.prune();       // zero is optimal / badly scaled data, where the iteration limits bind: covered above
    c.begin("large %s eps=%g start %d warm %d", p.g.str().c_str(), p.eps, sk, ws);
    Vec x0 = start(sk, p, A);
    if (!(residual(A, x0, p.b) < 0.999 * p.eps)) c.fail("harness: start not feasible");
    l1c_L1qcOpts o = opts(p.eps); o.warm_start_cg = ws; o.newton_max_iter = 400; o.cg_maxiter = 2000; o.lbtol = 0.01 * nrm1(p.xt) / m;
    Run q = go(c, p, x0, o);
    common(c, p, A, x0, q, o);
    Vec r = A.mul(q.x); for (int i = 0; i < n; i++) r[i] = p.b[i] - r[i];
    double mx = nrminf(R.apply(O_Aty, r)), low = 0, l1 = nrm1(q.x); for (int i = 0; i < n; i++) low += p.b[i] * r[i];
    low = mx > 0 ? std::max(0.0, (low - p.eps * nrm2(r)) / mx) : 0;
    double gap = o.mu * o.lbtol, ex = (l1 - low) / gap; worst = std::max(worst, ex); c.check();
    if (getenv("L1C_MARGIN")) fprintf(stderr, "%s ratio %g\n", c.desc.c_str(), ex);
    if (!(ex <= 1.25 + 1e-6 * l1 / gap)) c.fail("1-norm %.12g; a dual certificate bounds the minimum by %.12g; the requested accuracy allows a gap of %.3g", l1, low, gap);
  });
  mc::explore("huge", [](mc::Ctx& c) {
    auto s = c.pick({std::pair<int, int>{300, 1}, {24, 23}, {1025, 1}, {33, 34}}, "shape"); DctMode md = c.pick({dct1, dct2}); int ws = c.choose(3, "warm start"), ek = c.choose(2, "eps");
    if (s.second == 1 && md == dct2) c.prune();
    if (mc::is_asan()) c.prune();
    P p; p.g = mk_dct(s.first, s.second, md, mask_family(s.first * s.second)[9]); BigRef R(p.g); int m = p.g.mtot(), n = p.g.nmeas();
    p.xt = genv(m, 31); for (int i = 0; i < m; i++) if (i % 4) p.xt[i] = 0;
    p.b = R.apply(O_Ax, p.xt); p.eps = (ek ? 1e-2 : 0.1) * nrm2(p.b);
    c.begin("huge %s eps=%g warm %d", p.g.str().substr(0, 60).c_str(), p.eps, ws);
    Vec x0 = R.apply(O_Aty, p.b);
    l1c_L1qcOpts o = opts(p.eps); o.warm_start_cg = ws; o.newton_max_iter = 400; o.cg_maxiter = 2000; o.lbtol = 2e-3 * nrm1(p.xt); o.newton_tol = 1e-4;
    Run q = go(c, p, x0, o); c.check(5);
    if (q.r.status) c.fail("status %d from a feasible start", q.r.status);
    Vec r = R.apply(O_Ax, q.x); for (int i = 0; i < n; i++) r[i] = p.b[i] - r[i];
    if (!(nrm2(r) <= p.eps * (1 + 1e-7))) c.fail("returned point has residual %.12g > epsilon %.12g", nrm2(r), p.eps);
    double mx = nrminf(R.apply(O_Aty, r)), low = 0, l1 = nrm1(q.x); for (int i = 0; i < n; i++) low += p.b[i] * r[i];
    low = mx > 0 ? std::max(0.0, (low - p.eps * nrm2(r)) / mx) : 0;
    double gap = o.mu * o.lbtol, ex = (l1 - low) / gap; worst = std::max(worst, ex);
    if (getenv("L1C_MARGIN")) fprintf(stderr, "%s ratio %g newton %d cg %d\n", c.desc.c_str(), ex, q.r.total_newton_iter, q.r.total_cg_iter);
    if (!(ex <= 1.25)) c.fail("1-norm %.12g; a dual certificate bounds the minimum by %.12g; the requested accuracy allows a gap of %.3g", l1, low, gap);
    if (q.r.total_cg_iter > q.nAtAx + q.nAty || q.nAtAx > q.r.total_cg_iter + 3L * (q.r.total_newton_iter + 20)) c.fail("reports %d CG and %d Newton iterations; the operator A'A was applied %ld times", q.r.total_cg_iter, q.r.total_newton_iter, q.nAtAx);
    c.state(mc::hvals(q.x.data(), m)); c.outcome(q.r.total_newton_iter);
  });
  mc::explore("limits", [](mc::Ctx& c) {
    P p = problem(c, ops);
    int sk = c.choose(4), ws = c.choose(3), nm = c.pick({1, 2, 5}), cm = c.pick({1, 3, 100}), lbi = c.pick({0, 2});
    double l1t = c.pick({0.0, 1e-2}), nt = c.pick({1e-1, 1e-6});
    c.begin("%s eps=%g start %d warm %d newton limit %d cg limit %d lbiter %d l1_tol %g newton_tol %g", p.g.str().c_str(), p.eps, sk, ws, nm, cm, lbi, l1t, nt);
    RefOps R(p.g); const Mat& A = R.r.A; Vec x0 = start(sk, p, A);
    l1c_L1qcOpts o = opts(p.eps); o.warm_start_cg = ws; o.newton_max_iter = nm; o.cg_maxiter = cm; o.lbiter = lbi; o.l1_tol = l1t; o.newton_tol = nt;
    Run q = go(c, p, x0, o);
    common(c, p, A, x0, q, o);
  });
  // raising the Newton limit by one performs and reports one more iteration until the solve stops by itself; the same for barrier iterations
  mc::explore("counts", [](mc::Ctx& c) {
    P p = problem(c, ops);
    int sk = c.choose(4), ws = c.choose(3), lbi = c.pick({1, 3}); double nt = c.pick({1e-2, 1e-7}), l1t = c.pick({0.0, 1e-3});
    if (mc::is_asan() && (sk > 1 || lbi > 1)) c.prune();
    c.begin("counts %s eps=%g start %d warm %d lbiter %d newton_tol %g l1_tol %g", p.g.str().c_str(), p.eps, sk, ws, lbi, nt, l1t);
    RefOps R(p.g); const Mat& A = R.r.A; int m = A.c; Vec x0 = start(sk, p, A), prev = x0; int Np = 0, frozen = -1;
    for (int k = 0; k <= 9; k++) {
      l1c_L1qcOpts o = opts(p.eps); o.warm_start_cg = ws; o.lbiter = lbi; o.newton_max_iter = k; o.newton_tol = nt; o.l1_tol = l1t;
      Run q = go(c, p, x0, o); int N = q.r.total_newton_iter; c.check(4);
      bool same = !memcmp(q.x.data(), prev.data(), m * 8);
      if (N < 0 || N > lbi * k) c.fail("limit %d x %d: reports %d Newton iterations", lbi, k, N);
      if (k == 0) { if (!same || N || q.r.total_cg_iter) c.fail("without any permitted Newton iteration the point changes, or iterations are reported"); continue; }
      if (N < Np && lbi == 1) c.fail("limit %d: reports %d Newton iterations, %d with a smaller limit", k, N, Np);
      if (lbi == 1 && !same && (N != k || Np != k - 1)) c.fail("limits %d and %d give different points but %d and %d reported Newton iterations", k - 1, k, Np, N);
      if (lbi == 1 && same && N > Np && frozen < 0) frozen = N;                    // a last iteration that accepts no step
      if (frozen >= 0 && N > frozen) c.fail("limit %d: reports %d Newton iterations although the point did not change at %d", k, N, frozen);
      if (N < lbi && k) c.fail("reports %d Newton iterations for %d barrier iterations", N, lbi);
      prev = q.x; Np = N; c.state(mc::mix(p.key, mc::hvals(q.x.data(), m, k))); c.outcome(N);
    }
  });
  mc::explore("infeasible", [](mc::Ctx& c) {
    P p = problem(c, ops);
    int sk = c.choose(3); double f = c.pick({1 + 1e-6, 2.0, 100.0}); int lbi = c.pick({0, 3}); double un = c.pick({1.0, 1e-4, 1e-9, 1e6});
    for (Vec* v : {&p.b, &p.xt}) for (double& t : *v) t *= un; p.eps *= un;
    c.begin("%s eps=%g infeasible start %d x%g", p.g.str().c_str(), p.eps, sk, f);
    RefOps R(p.g); const Mat& A = R.r.A; int m = A.c;
    Vec x0 = start(0, p, A), z = genv(m, 45);
    if (sk == 2) { // zero
      x0.assign(m, 0.0); if (!(nrm2(p.b) > p.eps * 1.0001)) c.prune();
    } else {
      Vec Az = A.mul(z); double na = nrm2(Az); if (na < 1e-9) c.prune();  // z is not scaled
      double t = f * p.eps / na * (sk ? -1 : 1); for (int i = 0; i < m; i++) x0[i] += t * z[i];
      if (!(residual(A, x0, p.b) > p.eps * (1 + 1e-8))) c.prune();
    }
    l1c_L1qcOpts o = opts(p.eps); o.lbiter = lbi;
    Run q = go(c, p, x0, o);
    c.check(2);
    if (q.r.status != (int)L1C_INFEASIBLE_START) c.fail("status %d from an infeasible start", q.r.status);
    if (memcmp(q.x.data(), x0.data(), m * 8)) c.fail("the infeasible start was modified");
    c.state(mc::hvals(x0.data(), m)); c.outcome(q.r.status);
  });
  if (getenv("L1C_MARGIN")) fprintf(stderr, "worst gap ratio %g\n", worst);
  return mc::finish();
}
