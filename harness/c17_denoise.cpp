// C17: the split-Bregman denoiser end to end.
#include "barrier.hpp"
static Mat vcat(const Mat& a, const Mat& b) { Mat o(a.r + b.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) o(i, j) = a(i, j); for (int i = 0; i < b.r; i++) for (int j = 0; j < b.c; j++) o(a.r + i, j) = b(i, j); return o; }
static Vec image(int k, int n, int m) {
  Vec f = genv(n * m, 200 + k);
  if (k == 1) for (int i = 0; i < n * m; i++) f[i] = (i / m < n / 2) == (i % m < m / 2) ? 2 : -1;
  if (k == 2) { for (double& t : f) t = 0; f[(n / 2) * m + m - 1] = 5; }
  if (k == 3) for (int i = 0; i < n * m; i++) f[i] = 10 * (i / m) + 0.1 * (i % m) + f[i] * 0.3;
  if (k == 4) for (double& t : f) t = f[0];
  if (k == 5) for (double& t : f) t = 0;
  return f;
}
static Vec run(mc::Ctx& c, int n, int m, const Vec& fv, double mu, double tol, int maxit, int jac, double fill = NAN) {
  Buf u((size_t)n * m, fill), f(fv);
  wrap_reset(); long lv = wrap_live();
  int st = l1c_breg_anistropic_TV(n, m, u, f, mu, tol, maxit, jac);
  c.step(1 + maxit);
  if (st) c.fail("status %d", st);
  if (!f.same(fv)) c.fail("the noisy image was modified");
  if (!u.guards_ok() || !f.guards_ok()) c.fail("wrote outside the images");
  if (wrap_live() != lv || wrap_error()) c.fail("memory: %s, %ld blocks left", wrap_error() ? wrap_error() : "", wrap_live() - lv);
  Vec r = u.vec();
  if (!allfinite(r)) c.fail("result is not finite");
  c.state(mc::hvals(r.data(), r.size(), n * 64 + m));
  return r;
}
// the published iteration, straight from the paper, dense matrices
static std::vector<Vec> iterates(int n, int m, const Vec& f, double mu, int K, int jac) {
  int N = n * m; double la = 2 * mu;
  Mat X = Dxm(n, m, 1), Y = Dym(n, m, 1), Xt = X.T(), Yt = Y.T(), H = Xt.mm(X), H2 = Yt.mm(Y);
  for (size_t i = 0; i < H.a.size(); i++) H.a[i] = la * (H.a[i] + H2.a[i]);
  for (int i = 0; i < N; i++) H(i, i) += mu;
  std::vector<Vec> out; Vec u = f, dx(N, 0.0), dy(N, 0.0), bx(N, 0.0), by(N, 0.0);
  out.push_back(u);
  for (int k = 0; k < K; k++) {
    Vec a(N), b(N); for (int i = 0; i < N; i++) { a[i] = dx[i] - bx[i]; b[i] = dy[i] - by[i]; }
    Vec p = Xt.mul(a), q = Yt.mul(b), rhs(N); for (int i = 0; i < N; i++) rhs[i] = mu * f[i] + la * (p[i] + q[i]);
    for (int s = 0; s < jac; s++) for (int i = 0; i < N; i++) { ld t = rhs[i]; for (int j = 0; j < N; j++) if (j != i) t -= H(i, j) * u[j]; u[i] = (double)(t / H(i, i)); }
    Vec gx = X.mul(u), gy = Y.mul(u);
    auto sh = [&](double v) { double g = 1 / la; return v > g ? v - g : v < -g ? v + g : 0.0; };
    for (int i = 0; i < N; i++) { double v = gx[i] + bx[i]; dx[i] = sh(v); bx[i] = v - dx[i]; v = gy[i] + by[i]; dy[i] = sh(v); by[i] = v - dy[i]; }
    out.push_back(u);
  }
  return out;
}
// the same iteration in stencil form (neighbour differences only), for larger images
static std::vector<Vec> iterates_stencil(int n, int m, const Vec& f, double mu, int K, int jac) {
  int N = n * m; double la = 2 * mu; Vec u = f, dx(N, 0.0), dy(N, 0.0), bx(N, 0.0), by(N, 0.0), rhs(N);
  std::vector<Vec> out{u};
  auto sh = [&](double v) { double g = 1 / la; return v > g ? v - g : v < -g ? v + g : 0.0; };
  for (int k = 0; k < K; k++) {
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      int t = i * m + j; ld s = 0;
      if (j > 0) s += (ld)dx[t - 1] - bx[t - 1]; if (j + 1 < m) s -= (ld)dx[t] - bx[t];
      if (i > 0) s += (ld)dy[t - m] - by[t - m]; if (i + 1 < n) s -= (ld)dy[t] - by[t];
      rhs[t] = (double)(mu * (ld)f[t] + la * s);
    }
    for (int q = 0; q < jac; q++) for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      int t = i * m + j, d = 0; ld s = 0;
      if (j > 0) s += u[t - 1], d++; if (j + 1 < m) s += u[t + 1], d++; if (i > 0) s += u[t - m], d++; if (i + 1 < n) s += u[t + m], d++;
      u[t] = (double)((rhs[t] + la * s) / (mu + la * d));
    }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
      int t = i * m + j;
      if (j + 1 < m) { double v = u[t + 1] - u[t] + bx[t]; dx[t] = sh(v); bx[t] = v - dx[t]; }
      if (i + 1 < n) { double v = u[t + m] - u[t] + by[t]; dy[t] = sh(v); by[t] = v - dy[t]; }
    }
    out.push_back(u);
  }
  return out;
}
static double objective(int n, int m, const Vec& u, const Vec& f, double mu) {
  ld s = 0; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { if (j + 1 < m) s += fabsl((ld)u[i * m + j + 1] - u[i * m + j]); if (i + 1 < n) s += fabsl((ld)u[(i + 1) * m + j] - u[i * m + j]); s += mu / 2 * ((ld)u[i * m + j] - f[i * m + j]) * ((ld)u[i * m + j] - f[i * m + j]); }
  return (double)s;
}
static double worst = 0;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  static const std::vector<double> MU{0.3, 2.0, 20.0};
  mc::explore("limit", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 5 : 4;
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim), k = c.choose(6), jac = c.pick({1, 3});
    double mu = c.pick(MU);
    if (mc::is_asan() && n * m > 12) c.prune();
    c.begin("denoise %dx%d image %d mu=%g sweeps %d to convergence", n, m, k, mu, jac);
    Vec f = image(k, n, m); int N = n * m;
    Vec u = run(c, n, m, f, mu, 0, 6000, jac);
    c.check(2);
    if (k >= 4) { for (int i = 0; i < N; i++) if (!(fabs(u[i] - f[i]) <= 1e-10 * fabs(f[i]))) c.fail("constant image changed at %d: %.15g -> %.15g", i, f[i], u[i]); return; }
    Mat D = vcat(Dxm(n, m, 1), Dym(n, m, 1));
    // drop zero rows
    Mat K(0, N); { std::vector<ld> a; int rr = 0; for (int i = 0; i < D.r; i++) { bool z = true; for (int j = 0; j < N; j++) if (D(i, j) != 0) z = false; if (z) continue; rr++; for (int j = 0; j < N; j++) a.push_back(D(i, j)); } K.r = rr; K.a = a; }
    BarOpt o = barrier_min(K, mu, &f, nullptr, nullptr, 0, std::vector<ld>(f.begin(), f.end()), 1e-12L);
    double e = 0; for (int i = 0; i < N; i++) e = std::max(e, fabs(u[i] - (double)o.x[i]));
    double oe = objective(n, m, u, f, mu) - (double)o.val;
    worst = std::max(worst, e);
    if (!(e <= 1e-4 * (1 + nrminf(f)))) c.fail("limit differs from the TV minimiser by %.3g (u=%s, minimiser %s)", e, vstr(u, 9).c_str(), vstr(tod(o.x), 9).c_str());
    if (!(oe <= 1e-5 * (1 + fabs((double)o.val)))) c.fail("objective exceeds the minimum by %.3g", oe);
    // transposed image -> transposed limit
    Vec ft(N); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) ft[j * n + i] = f[i * m + j];
    Vec ut = run(c, m, n, ft, mu, 0, 6000, jac, 3.5);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (!(fabs(ut[j * n + i] - u[i * m + j]) <= 2e-4 * (1 + nrminf(f)))) c.fail("the transposed image gives %.12g at (%d,%d), the image %.12g", ut[j * n + i], i, j, u[i * m + j]);
    c.outcome(mc::mix(n, m));
  });
  mc::explore("iterates", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 8 : 6;
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim), k = c.choose(5), jac = 1 + c.choose(3);
    double mu = c.pick(MU);
    c.begin("denoise %dx%d image %d mu=%g sweeps %d, limits 0..7", n, m, k, mu, jac);
    Vec f = image(k, n, m);
    auto it = iterates(n, m, f, mu, 7, jac);
    for (int q = 0; q <= 7; q++) {
      Vec u = run(c, n, m, f, mu, 0, q, jac, q % 2 ? NAN : -4);
      c.check();
      int b = cmpv(u.data(), it[q], 1e-10, 1 + nrminf(f));
      if (b >= 0) c.fail("limit %d: pixel %d is %.12g, iterate %d has %.12g", q, b, u[b], q, it[q][b]);
    }
  });
  // images and weights of every size: scaling f by s and mu by 1/s scales every iterate by s
  mc::explore("scaled", [](mc::Ctx& c) {
    auto sz = c.pick(std::vector<std::pair<int, int>>{{2, 2}, {2, 5}, {4, 3}, {5, 5}}, "size"); int n = sz.first, m = sz.second;
    int k = c.choose(5), jac = c.pick({1, 2}); double mu = c.pick({0.3, 20.0, 1e-5, 1e5}), s = c.pick({1.0, 1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12});
    c.begin("denoise %dx%d image %d times %g, mu=%g, sweeps %d", n, m, k, s, mu / s, jac);
    Vec f = image(k, n, m); for (double& t : f) t *= s;
    auto it = iterates(n, m, f, mu / s, 200, jac);
    for (int q : {0, 1, 2, 3, 5, 12, 60, 200}) {
      Vec u = run(c, n, m, f, mu / s, 0, q, jac, q % 2 ? NAN : -4);
      c.check();
      int b = cmpv(u.data(), it[q], 1e-9, nrminf(f));
      if (b >= 0) c.fail("limit %d: pixel %d is %.12g, iterate %d has %.12g", q, b, u[b], q, it[q][b]);
    }
    c.outcome(mc::mix(n * 8 + m, k));
  });
  mc::explore("large", [](mc::Ctx& c) {
    auto sz = c.pick(std::vector<std::pair<int, int>>{{2, 40}, {40, 2}, {3, 33}, {33, 3}, {16, 16}, {16, 17}, {17, 16}, {33, 20}, {20, 33}, {64, 65}, {65, 31}, {3, 300}, {300, 3}, {40, 30}, {101, 103}, {2, 5003}, {260, 257}}, "size"); int n = sz.first, m = sz.second;
    int k = c.choose(5), jac = c.pick({1, 2}); double mu = c.pick(MU);
    if (mc::is_asan() && n * m > 700) c.prune();
    if (n * m > 5000 && (k > 1 || mu != MU[0])) c.prune();
    c.begin("denoise %dx%d image %d mu=%g sweeps %d, limits 0..4 and 25", n, m, k, mu, jac);
    Vec f = image(k, n, m); if (k == 3) for (double& t : f) t /= n;
    auto it = iterates_stencil(n, m, f, mu, 25, jac);
    if (n * m <= 60) { auto d = iterates(n, m, f, mu, 3, jac); for (int q = 0; q < 4; q++) if (cmpv(it[q].data(), d[q], 1e-12, 1 + nrminf(f)) >= 0) c.fail("harness: the two references differ"); }
    for (int q : {0, 1, 2, 3, 4, 25}) {
      Vec u = run(c, n, m, f, mu, 0, q, jac, q % 2 ? NAN : -4); c.check();
      int b = cmpv(u.data(), it[q], 1e-9, 1 + nrminf(f));
      if (b >= 0) c.fail("limit %d: pixel %d is %.12g, iterate %d has %.12g", q, b, u[b], q, it[q][b]);
    }
    c.outcome(mc::mix(n, m));
  });
  mc::explore("tolerance", [](mc::Ctx& c) {
    int n = 2 + c.choose(3), m = 2 + c.choose(3), k = c.choose(4), jac = c.pick({1, 2});
    double mu = c.pick(MU), tol = c.pick({0.5, 0.1, 1e-2, 1e-3, 1e-5, 1e-7, 1e-9}); int lim = tol < 1e-4 ? mc::is_asan() ? 60 : 160 : c.pick({3, 40});
    if (tol < 1e-4 && (n == 3 || m == 3)) c.prune();
    c.begin("denoise %dx%d image %d mu=%g sweeps %d tol %g limit %d", n, m, k, mu, jac, tol, lim);
    Vec f = image(k, n, m);
    std::vector<Vec> seq(1, Vec(n * m, 0.0));          // the first change is measured from zero
    for (int q = 1; q <= lim; q++) seq.push_back(run(c, n, m, f, mu, 0, q, jac));
    Vec u = run(c, n, m, f, mu, tol, lim, jac);
    // admissible stopping points: relative change measured against the old or the new iterate
    std::vector<int> ok; bool d1 = false, d2 = false;
    for (int q = 1; q <= lim && !(d1 && d2); q++) {
      Vec e(n * m); for (int i = 0; i < n * m; i++) e[i] = seq[q][i] - seq[q - 1][i];
      double r1 = nrm2(e) / nrm2(seq[q - 1]), r2 = nrm2(e) / nrm2(seq[q]);
      for (int w = 0; w < 2; w++) { bool& d = w ? d2 : d1; double r = w ? r2 : r1; if (d) continue; if (fabs(r - tol) <= 1e-9 * tol) { ok.push_back(q); } else if (r < tol) { ok.push_back(q); d = true; } }
    }
    if (!d1 || !d2) ok.push_back(lim);
    bool hit = false;
    for (int q : ok) if (cmpv(u.data(), seq[q], 1e-12, 1) < 0) hit = true;
    c.check();
    if (!hit) c.fail("tolerance %g: the result is not the first iterate whose relative change falls below it (expected iterate %d)", tol, ok.empty() ? -1 : ok[0]);
    c.outcome(ok.empty() ? -1 : ok[0]);
  });
  if (getenv("L1C_MARGIN")) fprintf(stderr, "worst distance %g\n", worst);
  return mc::finish();
}
