// C18: split-Bregman building blocks.
#include "kern.hpp"
static BregFuncs BF;
extern "C" void breg_hess_eval(l1c_int n, l1c_int m, double* x, double* y, double mu, double lambda, double* w1, double* w2) __attribute__((weak));
static Mat hess(int n, int m, double mu, double la) {
  Mat X = Dxm(n, m, 1), Y = Dym(n, m, 1), H = X.T().mm(X), K = Y.T().mm(Y);
  for (size_t i = 0; i < H.a.size(); i++) H.a[i] = la * (H.a[i] + K.a[i]);
  for (int i = 0; i < n * m; i++) H(i, i) += mu;
  return H;
}
static const std::vector<std::pair<double, double>> ML{{1, 2}, {10, 20}, {0.3, 0.1}, {1e-3, 5}, {0.05, 0.1}, {2, 0}, {1e-9, 2e-9}, {1e9, 2e9}};
static void same(mc::Ctx& c, const char* f, Buf& b, const Vec& v, const char* what) {
  if (!b.same(v)) c.fail("%s modified %s", f, what);
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  BF = breg_get_functions();
  mc::explore("shrink", [](mc::Ctx& c) {
    int n = c.choose(mc::thorough() ? 306 : 76); { static const int XL[6] = {255, 1024, 1025, 4099, 20000, 70001}; int b = mc::thorough() ? 300 : 70; if (n >= b) n = XL[n - b]; }
    double g = c.pick({0.0, 0.5, 1.0, 2.5, 1e3, 1e-7, 1e-13, 1e-40, 1e12});
    c.begin("shrink length %d gamma %g", n, g);
    for (int s = 0; s < 5; s++) {
      Vec v = genv(n, 5 + s);
      if (s == 3) for (double& t : v) t *= 2 * g;
      if (s == 4) for (int i = 0; i < n; i++) v[i] *= pow(10, i % 31 - 15);
      if (s == 1) for (int i = 0; i < n; i++) v[i] = (i % 7 - 3) * g * 0.5;     // on, just on, and around the threshold
      if (s == 2) for (int i = 0; i < n; i++) v[i] = (i % 2 ? -1 : 1) * (i % 3 == 0 ? g : i % 3 == 1 ? nextafter(g, 1e9) : nextafter(g, -1));
      Buf x(v), d((size_t)n, 55.0);
      BF.breg_shrink1(n, x, d, g);
      c.step();
      same(c, "shrink", x, v, "its input");
      if (!x.guards_ok() || !d.guards_ok()) c.fail("shrink wrote outside its output");
      for (int i = 0; i < n; i++) {
        double w = v[i] > g ? v[i] - g : v[i] < -g ? v[i] + g : 0;
        c.check();
        if (!(d.d[i] == w)) c.fail("shrink: element %d of %d: %.17g -> %.17g, expected %.17g (gamma %g)", i, n, v[i], d.d[i], w, g);
      }
      c.state(mc::hvals(d.d, n, n + 1000 * s));
    }
  });
  mc::explore("mxpy", [](mc::Ctx& c) {
    int n = c.choose(mc::thorough() ? 306 : 136); { static const int XL[6] = {255, 1024, 1025, 4099, 20000, 70001}; int b = mc::thorough() ? 300 : 130; if (n >= b) n = XL[n - b]; }
    double sa = c.pick({1.0, 1e-12, 1e12}), sb = c.pick({1.0, 1e-12, 1e12});
    c.begin("mxpy length %d sizes %g %g", n, sa, sb);
    Vec a = genv(n, 1), b = genv(n, 2);
    for (double& t : a) t *= sa;
    for (double& t : b) t *= sb;
    Buf x(a), y(b), z((size_t)n, 9.0);
    BF.breg_mxpy_z(n, x, y, z);
    c.step(); same(c, "mxpy", x, a, "x"); same(c, "mxpy", y, b, "y");
    if (!x.guards_ok() || !y.guards_ok() || !z.guards_ok()) c.fail("mxpy wrote outside its output");
    for (int i = 0; i < n; i++) { c.check(); if (!(z.d[i] == b[i] - a[i])) c.fail("mxpy: element %d of %d", i, n); }
    c.state(mc::hvals(z.d, n, n));
  });
  mc::explore("sweeps", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 12 : 8;
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim);
    auto ml = c.pick(ML);
    c.begin("%dx%d mu=%g lambda=%g", n, m, ml.first, ml.second);
    double mu = ml.first, la = ml.second;
    int N = n * m;
    Mat H = hess(n, m, mu, la);
    // inverse diagonal
    Buf D((size_t)N, 4.0);
    BF.hess_inv_diag(n, m, mu, la, D);
    c.step();
    if (!D.guards_ok()) c.fail("hess_inv_diag wrote outside its output");
    for (int i = 0; i < N; i++) { c.check(); if (!(fabs(D.d[i] * (double)H(i, i) - 1) <= 1e-14)) c.fail("hess_inv_diag: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, D.d[i], (double)(1 / H(i, i))); }
    Vec dv = D.vec();
    std::vector<Vec> U{genv(N, 3), Vec(N, 1.0)};
    for (int k = 0; k < N; k++) { Vec e(N, 0.0); e[k] = 1; U.push_back(e); }
    for (double sc : {1e-12, 1e-50, 1e10}) { U.push_back(genv(N, 4)); for (double& t : U.back()) t *= sc; }
    for (size_t q = 0; q < U.size(); q++) {
      for (int rk = 0; rk < 4; rk++) {
        if (rk == 3 && q < U.size() - 3) continue;
        Vec rhs = rk == 3 ? H.mul(genv(N, 8)) : rk == 0 ? genv(N, 8) : rk == 1 ? Vec(N, 0.0) : H.mul(U[q]);     // rk==2: U[q] solves the system
        if (rk == 3) { double k = nrminf(U[q]); for (double& t : rhs) t *= k; }      // everything of the size of U[q]
        // Gauss-Seidel
        Buf u(U[q]), r(rhs);
        BF.breg_anis_guass_seidel(n, m, u, r, mu, la);
        c.step(); same(c, "Gauss-Seidel", r, rhs, "the right-hand side");
        if (!u.guards_ok() || !r.guards_ok()) c.fail("Gauss-Seidel wrote outside the image");
        std::vector<ld> w(U[q].begin(), U[q].end());
        for (int i = 0; i < N; i++) { ld s = rhs[i]; for (int j : {i - m, i - 1, i + 1, i + m}) if (j >= 0 && j < N) s -= H(i, j) * w[j]; w[i] = s / H(i, i); }
        double sc = std::max(nrminf(rhs) / mu, nrminf(U[q]));
        for (int i = 0; i < N; i++) { c.check(); if (!(fabs(u.d[i] - (double)w[i]) <= 1e-13 * sc)) c.fail("Gauss-Seidel: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, u.d[i], (double)w[i]); }
        if (rk == 2) for (int i = 0; i < N; i++) if (!(fabs(u.d[i] - U[q][i]) <= 1e-12 * sc)) c.fail("Gauss-Seidel moved a solution of the system at pixel (%d,%d): %.15g -> %.15g", i / m, i % m, U[q][i], u.d[i]);
        c.state(mc::hvals(u.d, N, q * 4 + rk));
        // Jacobi
        Buf uj(U[q]), wk((size_t)N, NAN), rj(rhs), Dj(dv);
        BF.breg_anis_jacobi(n, m, uj, wk, rj, Dj, la);
        c.step(); same(c, "Jacobi", rj, rhs, "the right-hand side"); same(c, "Jacobi", Dj, dv, "the diagonal");
        if (!uj.guards_ok() || !wk.guards_ok() || !rj.guards_ok() || !Dj.guards_ok()) c.fail("Jacobi wrote outside the image");
        for (int i = 0; i < N; i++) {
          ld s = rhs[i];
          for (int j : {i - m, i - 1, i + 1, i + m}) if (j >= 0 && j < N) s -= H(i, j) * U[q][j];
          double e = (double)(s * dv[i]);
          c.check();
          if (!(fabs(uj.d[i] - e) <= 1e-13 * sc)) c.fail("Jacobi: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, uj.d[i], e);
        }
      }
    }
    // the Hessian product itself (not used by the solver; checked where the library provides it)
    if (breg_hess_eval) for (size_t q = 0; q < U.size(); q++) {
      Buf x(U[q]), y((size_t)N, NAN), w1((size_t)N, NAN), w2((size_t)N, NAN);
      breg_hess_eval(n, m, x, y, mu, la, w1, w2);
      c.step(); same(c, "hess_eval", x, U[q], "its input");
      if (!x.guards_ok() || !y.guards_ok() || !w1.guards_ok() || !w2.guards_ok()) c.fail("hess_eval wrote outside its arrays");
      int b = cmpv(y, H.mul(U[q]), 1e-14, (mu + 8 * la) * nrminf(U[q])); c.check();
      if (b >= 0) c.fail("hess_eval: pixel (%d,%d) is %.15g", b / m, b % m, y.d[b]);
    }
    c.outcome(n * 100 + m);
  });
  // larger images, with the stencil written out instead of the matrix
  mc::explore("large", [](mc::Ctx& c) {
    std::vector<int> S{2, 3, 16, 31, 33, 64, 65, 100, 130, 258};
    if (mc::thorough()) { S.push_back(256); S.push_back(301); }
    int n = c.pick(S), m = c.pick(S); auto ml = c.pick({ML[0], ML[2]});
    double mu = ml.first, la = ml.second; int N = n * m;
    if (mc::is_asan() && N > 4300) c.prune();
    c.begin("large %dx%d mu=%g lambda=%g", n, m, mu, la);
    auto diag = [&](int i) { int a = i / m, b = i % m; return (ld)mu + (ld)la * ((a > 0) + (a < n - 1) + (b > 0) + (b < m - 1)); };
    auto nb = [&](int i, const std::vector<ld>& w) { int a = i / m, b = i % m; ld s = 0; if (a > 0) s += w[i - m]; if (a < n - 1) s += w[i + m]; if (b > 0) s += w[i - 1]; if (b < m - 1) s += w[i + 1]; return la * s; };
    Buf D((size_t)N, 4.0);
    BF.hess_inv_diag(n, m, mu, la, D);
    c.step();
    for (int i = 0; i < N; i++) { c.check(); if (!(fabs(D.d[i] * (double)diag(i) - 1) <= 1e-14)) c.fail("hess_inv_diag: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, D.d[i], (double)(1 / diag(i))); }
    Vec U = genv(N, 3), rhs = genv(N, 8), dv = D.vec();
    std::vector<ld> w(U.begin(), U.end()), u0 = w;
    Buf u(U), r(rhs), uj(U), wk((size_t)N, NAN), rj(rhs), Dj(dv);
    BF.breg_anis_guass_seidel(n, m, u, r, mu, la);
    BF.breg_anis_jacobi(n, m, uj, wk, rj, Dj, la);
    c.step(2); same(c, "Gauss-Seidel", r, rhs, "the right-hand side"); same(c, "Jacobi", rj, rhs, "the right-hand side"); same(c, "Jacobi", Dj, dv, "the diagonal");
    if (!u.guards_ok() || !uj.guards_ok() || !wk.guards_ok() || !D.guards_ok()) c.fail("a sweep wrote outside the image");
    double sc = std::max(nrminf(rhs) / mu, nrminf(U));
    for (int i = 0; i < N; i++) {
      w[i] = (rhs[i] + nb(i, w)) / diag(i);
      double e = (double)((rhs[i] + nb(i, u0)) * dv[i]);
      c.check(2);
      if (!(fabs(u.d[i] - (double)w[i]) <= 1e-13 * sc)) c.fail("Gauss-Seidel: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, u.d[i], (double)w[i]);
      if (!(fabs(uj.d[i] - e) <= 1e-13 * sc)) c.fail("Jacobi: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, uj.d[i], e);
    }
    Vec v[5]; for (int q = 0; q < 5; q++) v[q] = genv(N, 20 + q);
    Buf f(v[0]), dx(v[1]), bx(v[2]), dy(v[3]), by(v[4]), rh((size_t)N, NAN), w1((size_t)N, NAN), w2((size_t)N, NAN);
    BF.breg_anis_rhs(n, m, f, dx, bx, dy, by, rh, mu, la, w1, w2);
    c.step();
    for (int i = 0; i < N; i++) {
      int a = i / m, b = i % m;
      auto X = [&](int k) { return v[1][k] - v[2][k]; };
      auto Y = [&](int k) { return v[3][k] - v[4][k]; };
      double e = mu * v[0][i] + la * ((b > 0 ? X(i - 1) : 0) - (b < m - 1 ? X(i) : 0)) + la * ((a > 0 ? Y(i - m) : 0) - (a < n - 1 ? Y(i) : 0));
      c.check();
      if (!(fabs(rh.d[i] - e) <= 1e-13 * (mu * 4 + la * 30))) c.fail("right-hand side: pixel (%d,%d) is %.15g, expected %.15g", a, b, rh.d[i], e);
    }
    int NN = N + 3;     // vector kernels at image-sized lengths that are not a multiple of anything
    Vec p = genv(NN, 31), q = genv(NN, 32);
    Buf bp(p), bq(q), bz((size_t)NN, 9.0), bd((size_t)NN, 9.0);
    BF.breg_mxpy_z(NN, bp, bq, bz); BF.breg_shrink1(NN, bp, bd, 0.75);
    c.step(2);
    if (!bz.guards_ok() || !bd.guards_ok()) c.fail("a vector kernel wrote outside its output");
    for (int i = 0; i < NN; i++) {
      double e = p[i] > 0.75 ? p[i] - 0.75 : p[i] < -0.75 ? p[i] + 0.75 : 0;
      c.check(2);
      if (!(bz.d[i] == q[i] - p[i])) c.fail("mxpy: element %d of %d", i, NN);
      if (!(bd.d[i] == e)) c.fail("shrink: element %d of %d is %.17g, expected %.17g", i, NN, bd.d[i], e);
    }
    c.state(mc::hvals(u.d, std::min(N, 16), mc::mix(n, m)));
    c.outcome(n * 1000 + m);
  });
  mc::explore("rhs", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 16 : 10;
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim);
    auto ml = c.pick(ML);
    c.begin("rhs %dx%d mu=%g lambda=%g", n, m, ml.first, ml.second);
    double mu = ml.first, la = ml.second; int N = n * m;
    Mat Xt = Dxm(n, m, 1).T(), Yt = Dym(n, m, 1).T();
    int probes = N <= 16 ? 5 * N : 0;
    for (int k = -4; k < probes; k++) {
      Vec v[5];
      for (int q = 0; q < 5; q++) { v[q] = k < 0 ? genv(N, 20 + q) : Vec(N, 0.0); }
      if (k >= 0) v[k / N][k % N] = 1;
      double sc = k == -2 ? 1e-12 : k == -3 ? 1e-60 : k == -4 ? 1e10 : 1;
      for (auto& w : v) for (double& t : w) t *= sc;
      Buf f(v[0]), dx(v[1]), bx(v[2]), dy(v[3]), by(v[4]), rhs((size_t)N, NAN), w1((size_t)N, NAN), w2((size_t)N, NAN);
      BF.breg_anis_rhs(n, m, f, dx, bx, dy, by, rhs, mu, la, w1, w2);
      c.step();
      Buf* B[] = {&f, &dx, &bx, &dy, &by};
      const char* NN[] = {"f", "dx", "bx", "dy", "by"};
      for (int q = 0; q < 5; q++) { same(c, "rhs", *B[q], v[q], NN[q]); if (!B[q]->guards_ok()) c.fail("rhs wrote outside %s", NN[q]); }
      if (!rhs.guards_ok() || !w1.guards_ok() || !w2.guards_ok()) c.fail("rhs wrote outside its arrays");
      Vec a(N), b(N);
      for (int i = 0; i < N; i++) { a[i] = v[1][i] - v[2][i]; b[i] = v[3][i] - v[4][i]; }
      Vec p = Xt.mul(a), q = Yt.mul(b);
      for (int i = 0; i < N; i++) {
        double w = mu * v[0][i] + la * p[i] + la * q[i];
        c.check();
        if (!(fabs(rhs.d[i] - w) <= 1e-13 * sc * (mu * 4 + la * 30))) c.fail("right-hand side: pixel (%d,%d) is %.15g, expected %.15g", i / m, i % m, rhs.d[i], w);
      }
      c.state(mc::hvals(rhs.d, N, n * 100 + m));
    }
  });
  return mc::finish();
}
