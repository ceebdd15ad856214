// C15: NESTA end to end.
#include "nprob.hpp"
#include "barrier.hpp"
struct Q { Cfg g; Vec b; double sigma; int key; };
static std::vector<NProb> PS;
static Q problem(mc::Ctx& c, bool zero) {
  Q q; int oi = c.choose((int)PS.size(), "operator"); q.g = PS[oi].g;
  int dk = c.choose(zero ? 4 : 3, "data"), sk = c.choose(4, "sigma");
  RefOps R(q.g); int m = R.r.m, n = R.r.n;
  Vec x = genv(m, 31);
  if (dk == 1) for (int i = 0; i < m; i++) if (i % 3) x[i] = 0;
  q.b = R.r.A.mul(x);
  if (dk == 2) { q.b.assign(n, 0.0); q.b[n - 1] = -20; }
  if (nrm2(q.b) == 0) q.b[0] = 2;
  if (dk == 3) q.b.assign(n, 0.0);
  double nb = nrm2(q.b); if (nb == 0) nb = 1;
  q.sigma = nb * (sk == 0 ? 1e-3 : sk == 1 ? 0.05 : sk == 2 ? 0.4 : 1.7);
  q.key = (oi * 4 + dk) * 4 + sk;
  return q;
}
static double refval(const Q& q, const RefOps& R) {
  static std::map<int, double> cache;
  auto it = cache.find(q.key); if (it != cache.end()) return it->second;
  double v = 0;
  if (nrm2(q.b) > q.sigma) v = (double)barrier_min(R.Wt, 0, nullptr, &R.r.A, &q.b, q.sigma, least_norm(R.r.A, q.b), 1e-9L * (1 + nrm1(q.b))).val;
  return cache[q.key] = v;
}
// Huber-smoothed objective, and its minimum over the residual ball (A A^T = I) by a restarted accelerated projected gradient
static double huber(const Vec& v, double mu) { ld f = 0; for (double t : v) { ld a = fabsl((ld)t); f += a <= mu ? a * a / (2 * (ld)mu) : a - (ld)mu / 2; } return (double)f; }
static double refsmooth(const Q& q, const RefOps& R, double mu, Vec x) {
  static std::map<std::pair<int, double>, double> cache;
  auto key = std::make_pair(q.key, mu);
  auto it = cache.find(key); if (it != cache.end()) return it->second;
  int m = R.r.m, n = R.r.n, p = R.Wt.r;
  std::vector<double> Wt(p * m), A(n * m); for (int i = 0; i < p * m; i++) Wt[i] = (double)R.Wt.a[i]; for (int i = 0; i < n * m; i++) A[i] = (double)R.r.A.a[i];
  double L = specnorm(R.r.W); L = L * L * 1.0001 / mu;
  auto proj = [&](Vec& z) { Vec r(n); double s = 0; for (int i = 0; i < n; i++) { double t = -q.b[i]; for (int j = 0; j < m; j++) t += A[i * m + j] * z[j]; r[i] = t; s += t * t; } s = sqrt(s); if (s > q.sigma) { double k = 1 - q.sigma / s; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) z[j] -= k * A[i * m + j] * r[i]; } };
  auto val = [&](const Vec& z, Vec* g) { Vec v(p); for (int i = 0; i < p; i++) { double t = 0; for (int j = 0; j < m; j++) t += Wt[i * m + j] * z[j]; v[i] = t; } if (g) { g->assign(m, 0.0); for (int i = 0; i < p; i++) { double u = v[i] / std::max(mu, fabs(v[i])); for (int j = 0; j < m; j++) (*g)[j] += Wt[i * m + j] * u; } } return huber(v, mu); };
  proj(x); double best = val(x, nullptr), fprev = best, tk = 1; Vec y = x, xp = x, g; int still = 0;
  for (int k = 0; k < 60000 && still < 400; k++) {
    val(y, &g); Vec z = y; for (int j = 0; j < m; j++) z[j] -= g[j] / L; proj(z);
    double f = val(z, nullptr), t2 = (1 + sqrt(1 + 4 * tk * tk)) / 2;
    if (f > fprev) { tk = 1; y = x; fprev = f + 1e300 * 0; f = val(x, nullptr); fprev = f; still++; continue; }
    for (int j = 0; j < m; j++) y[j] = z[j] + (tk - 1) / t2 * (z[j] - x[j]);
    still = best - f > 1e-13 * (1 + fabs(best)) ? 0 : still + 1;
    x = z; tk = t2; fprev = f; best = std::min(best, f);
  }
  return cache[key] = best;
}
static Vec go(mc::Ctx& c, const Q& q, const RefOps& R, l1c_NestaOpts o, double junk) {
  SetUp S(q.g, c);
  int m = R.r.m, n = R.r.n;
  Buf x(m, junk), b(q.b);
  wrap_reset(); wrap_junk(0x7f); long lv = wrap_live();
  int st = l1c_nesta(m, x, n, b, S.L.f, o);
  wrap_junk(-1); c.step();
  c.check(3);
  if (st) c.fail("status %d", st);
  if (wrap_error()) c.fail("%s", wrap_error());
  if (wrap_live() != lv) c.fail("%ld blocks leaked", wrap_live() - lv);
  if (!b.same(q.b) || !b.guards_ok()) c.fail("the data vector was modified");
  if (!x.guards_ok()) c.fail("wrote outside the output vector of the advertised size %d", m);
  S.L.inputs_intact(c);
  Vec v = x.vec();
  if (!allfinite(v)) c.fail("result is not finite: %s", vstr(v).c_str());
  Vec r = R.r.A.mul(v); for (int i = 0; i < n; i++) r[i] -= q.b[i];
  if (!(nrm2(r) <= q.sigma * (1 + 1e-9) + 1e-11 * (nrm2(q.b) + nrm2(v)))) c.fail("residual %.12g exceeds sigma %.12g", nrm2(r), q.sigma);
  return v;
}
static bool lean() { return mc::is_asan() && !mc::thorough(); }   // the sanitizer build repeats a subset
static double worst = 0, worstsm = 0, worstneg = 0;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  PS = problems(mc::thorough());
  mc::explore("optimal", [](mc::Ctx& c) {
    Q q = problem(c, false);
    double mur = c.pick({1e-2, 1e-3}), tol = c.pick({1e-9, 1e-12}); int nc = c.pick({1, 3, 5});
    if (lean() && (tol == 1e-12 || nc == 5)) c.prune();
    double un = c.pick({1.0, 1e-9, 1e9}, "unit"); Q q1 = q;
    if (un != 1) { if (mc::is_asan() || tol != 1e-9 || nc == 5) c.prune(); for (double& t : q.b) t *= un; q.sigma *= un; }
    c.begin("%s b=%s sigma=%g mu=%g*|b| tol=%g n_continue=%d", q.g.str().c_str(), vstr(q.b, 6).c_str(), q.sigma, mur, tol, nc);
    RefOps R(q.g); double sc = nrm2(q.b), mu = mur * sc;
    Vec x = go(c, q, R, nopts(mu, tol, q.sigma, nc), NAN);
    double f = nrm1(R.Wt.mul(x)), fs = un * refval(q1, R); int p = R.Wt.r;
    double gap = mu * p / 2;
    double fm = huber(R.Wt.mul(x), mu), fms; { Vec x1 = x; for (double& t : x1) t /= un; fms = un * refsmooth(q1, R, mu / un, x1); }
    c.check(); if (!getenv("L1C_MARGIN") && !(fm - fms <= 0.15 * gap + 1e-8 * sc)) c.fail("the smoothed objective is %.12g, its minimum %.12g: not converged although the tolerance is %g", fm, fms, tol);
    worstsm = std::max(worstsm, (fm - fms) / gap);
    if (getenv("L1C_MARGIN") && (fm - fms) / gap > 0.001) fprintf(stderr, "%g %s\n", (fm - fms) / gap, c.desc.c_str());

    worst = std::max(worst, (f - fs) / gap); worstneg = std::max(worstneg, (fs - f) / gap);
    if (getenv("L1C_MARGIN") && (f - fs) / gap > 0.5) fprintf(stderr, "%g %s\n", (f - fs) / gap, c.desc.c_str());
    if (!getenv("L1C_MARGIN") && !(f - fs <= gap * 1.05 + 1e-6 * sc)) c.fail("objective %.12g exceeds the minimum %.12g by %.3g; smoothing allows %.3g", f, fs, f - fs, gap);
    if (!(fs - f <= 1e-6 * sc)) c.fail("objective %.12g of a feasible point is below the minimum %.12g", f, fs);
    c.check(2); c.state(mc::hvals(x.data(), x.size())); c.outcome(mc::hvals(&f, 1));
  });
  // larger signals, orthonormal first block in W: the returned point's own dual certificate bounds the minimum from below
  mc::explore("large", [](mc::Ctx& c) {
    static const std::vector<Cfg> BIG = big_problems();
    Q q; q.g = c.pick(BIG, "operator"); int dk = c.choose(2, "data"), sk = c.choose(3, "sigma"); double mur = c.pick({2e-2, 5e-3}); int nc = c.pick({1, 4});
    if (mc::is_asan() && (q.g.mrow * q.g.mcol > 70 || mur < 1e-2)) c.prune();
    if (q.g.mrow * q.g.mcol > 290 && (dk || sk == 2 || mur < 1e-2)) c.prune();
    BigRef R(q.g); int m = R.h.m, n = R.h.n, p = R.h.p, mt = R.mt;
    Vec xt = genv(m, 31); if (q.g.kind == K_TV) { for (int i = 0; i < m; i++) xt[i] = (i / q.g.mcol < q.g.mrow / 2) == (i % q.g.mcol < q.g.mcol / 3) ? 2 : -1 + 0.05 * xt[i]; } else for (int i = 0; i < m; i++) if (i % 5) xt[i] = 0;
    q.b = R.apply(O_Ax, xt); if (dk) { Vec z = genv(n, 77); double k = 0.2 * nrm2(q.b) / nrm2(z); for (int i = 0; i < n; i++) q.b[i] += k * z[i]; }
    double nb = nrm2(q.b); q.sigma = nb * (sk == 0 ? 1e-3 : sk == 1 ? 0.05 : 0.4);
    double mu = mur * nb / sqrt((double)n) * 3;
    c.begin("large %s data %d sigma=%g mu=%g n_continue=%d", q.g.str().c_str(), dk, q.sigma, mu, nc);
    SetUp S(q.g, c); Buf x(m, NAN), b(q.b);
    wrap_reset(); wrap_junk(0x7f); long lv = wrap_live();
    int st = l1c_nesta(m, x, n, b, S.L.f, nopts(mu, 1e-13, q.sigma, nc)); wrap_junk(-1); c.step(); c.check(5);
    if (st) c.fail("status %d", st);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv) c.fail("%ld blocks leaked", wrap_live() - lv);
    if (!b.same(q.b) || !b.guards_ok() || !x.guards_ok()) c.fail("the data or memory around the output was modified");
    Vec v = x.vec(); if (!allfinite(v)) c.fail("result is not finite");
    Vec r = R.apply(O_Ax, v); for (int i = 0; i < n; i++) r[i] -= q.b[i];
    if (!(nrm2(r) <= q.sigma * (1 + 1e-9) + 1e-11 * (nb + nrm2(v)))) c.fail("residual %.12g exceeds sigma %.12g", nrm2(r), q.sigma);
    // u in the cube with W u = A' lambda
    LVec w = R.op(O_Wtx, LVec(v.begin(), v.end())), u(p); ld f = 0, D = 0; for (int i = 0; i < p; i++) { f += fabsl(w[i]); u[i] = w[i] / std::max((ld)mu, fabsl(w[i])); D += fabsl(w[i]) - u[i] * w[i]; }
    LVec gr = R.op(O_Wz, u), la = R.op(O_Ax, gr), at = R.op(O_Aty, la), d(m); for (int i = 0; i < m; i++) d[i] = at[i] - gr[i];
    if (q.g.kind == K_TV) d = R.dct(d.data());
    for (int i = 0; i < mt; i++) u[i] += d[i];
    ld s = 1, bl = 0, nl = 0; for (ld t : u) s = std::max(s, fabsl(t)); for (int i = 0; i < n; i++) { bl += q.b[i] * la[i]; nl += la[i] * la[i]; }
    double low = std::max(0.0, (double)((bl - q.sigma * sqrtl(nl)) / s)), gap = mu * p / 2, ex = ((double)f - low - (double)D) / gap;   // D: the gap of an exact minimiser of the smoothed problem
    worst = std::max(worst, ex);
    if (getenv("L1C_MARGIN")) { fprintf(stderr, "%s f %g low %g ratio %g scale %g\n", c.desc.c_str(), (double)f, low, ex, (double)s); return; }
    if (!(ex <= 0.3 + 1e-6 * nb / gap)) c.fail("objective %.12g; a dual certificate bounds the minimum by %.12g; smoothing explains %.3g of the gap", (double)f, low, (double)D);
    c.state(mc::hvals(v.data(), m)); c.outcome(mc::hvals(&low, 1));
  });
  mc::explore("options", [](mc::Ctx& c) {
    Q q = problem(c, true);
    double mu = c.pick({1e-5, 0.3, 40.0}), tol = c.pick({1e-6, 1e-2, 0.5}); int nc = c.pick({1, 2, 7}); double junk = c.pick({0.0, (double)NAN});
    if (lean() && (mu == 1e-5 || nc == 7 || junk == 0)) c.prune();
    bool z = nrm2(q.b) == 0;
    if (z && (tol != 1e-6 || nc == 7)) c.prune();
    c.begin("%s b=%s sigma=%g mu=%g tol=%g n_continue=%d x0=%g", q.g.str().c_str(), vstr(q.b, 6).c_str(), q.sigma, mu, tol, nc, junk);
    RefOps R(q.g);
    Vec x = go(c, q, R, nopts(mu, tol, q.sigma, nc), junk);
    if (z && nrm2(x) > 1e-12) c.fail("zero data gives a non-zero result %s", vstr(x).c_str());
    Vec y = go(c, q, R, nopts(mu, tol, q.sigma, nc), junk == 0 ? 5.0 : -7.0);
    if (memcmp(x.data(), y.data(), x.size() * 8)) c.fail("the result depends on what the output vector held before (or on an earlier call)");
    c.check(2); c.state(mc::hvals(x.data(), x.size()));
  });
  if (getenv("L1C_MARGIN")) fprintf(stderr, "worst gap ratio %g, below %g, smoothed %g\n", worst, worstneg, worstsm);
  return mc::finish();
}
