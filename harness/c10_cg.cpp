// C10: conjugate gradients. Enumerates systems, starts, preconditioners, tolerances and limits.
#include "kern.hpp"
struct Sys { int N; Mat A; int calls; };
static void AX(l1c_int n, double* x, double* y, void* d) {
  Sys* s = (Sys*)d; s->calls++;
  for (int i = 0; i < n; i++) { ld t = 0; for (int j = 0; j < n; j++) t += s->A(i, j) * x[j]; y[i] = (double)t; }
}
struct Res { Vec x; double cgres; int iter, calls; };
static double resid(const Mat& A, const Vec& x, const Vec& b) { Vec r = A.mul(x); for (size_t i = 0; i < r.size(); i++) r[i] = b[i] - r[i]; return nrm2(r); }
static Res solve(mc::Ctx& c, const Mat& A, const Vec& x0, const Vec& b, const Vec* M, double tol, int maxit, double junk, int verbose = 0) {
  int N = A.r;
  Sys s{N, A, 0};
  Buf x(x0), bb(b), mm(M ? *M : Vec(N, 1.0));
  Buf w0((size_t)N, junk), w1((size_t)N, junk), w2((size_t)N, junk), w3((size_t)N, junk), w4((size_t)N, junk);
  double* W[5] = {w0, w1, w2, w3, w4};
  double* W0[5] = {w0, w1, w2, w3, w4};
  l1c_CgResults r; r.cgres = -7; r.cgiter = -7;
  l1c_CgParams p; p.verbose = verbose; p.max_iter = maxit; p.tol = tol;
  int st = M ? l1c_cgsolve_diag_precond(N, x, bb, mm, W, AX, &s, &r, p) : l1c_cgsolve(N, x, bb, W, AX, &s, &r, p);
  c.step();
  const char* nm = M ? "cgsolve_diag_precond" : "cgsolve";
  if (st) c.fail("%s returned %d", nm, st);
  if (!bb.same(b)) c.fail("%s modified the right-hand side", nm);
  if (M && !mm.same(*M)) c.fail("%s modified the preconditioner", nm);
  if (!x.guards_ok() || !bb.guards_ok() || !mm.guards_ok() || !w0.guards_ok() || !w1.guards_ok() || !w2.guards_ok() || !w3.guards_ok() || !w4.guards_ok()) c.fail("%s wrote outside its arrays", nm);
  if (memcmp(W, W0, sizeof W)) c.fail("%s changed the work-array pointers", nm);
  return Res{x.vec(), r.cgres, (int)r.cgiter, s.calls};
}
// residual norms of the exact (long double) iterates of preconditioned CG
static std::vector<double> trajectory(const Mat& A, const Vec& x0, const Vec& b, const Vec* M, int K) {
  int N = A.r; std::vector<ld> r(N), p(N), z(N), q(N); std::vector<double> out;
  auto nr = [&] { ld s = 0; for (ld t : r) s += t * t; return (double)sqrtl(s); };
  for (int i = 0; i < N; i++) { ld s = 0; for (int j = 0; j < N; j++) s += A(i, j) * x0[j]; r[i] = b[i] - s; }
  ld d = 0; for (int i = 0; i < N; i++) { p[i] = z[i] = r[i] * (M ? (*M)[i] : 1); d += r[i] * z[i]; }
  out.push_back(nr());
  for (int k = 1; k <= K && d > 0; k++) {
    ld pq = 0; for (int i = 0; i < N; i++) { q[i] = 0; for (int j = 0; j < N; j++) q[i] += A(i, j) * p[j]; pq += p[i] * q[i]; }
    ld al = d / pq, dn = 0; for (int i = 0; i < N; i++) r[i] -= al * q[i];
    for (int i = 0; i < N; i++) { z[i] = r[i] * (M ? (*M)[i] : 1); dn += r[i] * z[i]; }
    ld be = dn / d; d = dn; for (int i = 0; i < N; i++) p[i] = z[i] + be * p[i];
    out.push_back(nr());
  }
  return out;
}
// one system: all limits 0..K for the given tolerance
static void check(mc::Ctx& c, const Mat& A, const Vec& x0, const Vec& b, const Vec* M, double tol, int K, double cond) {
  double nb = nrm2(b), r0 = resid(A, x0, b);
  double na = 0; for (ld v : A.a) na = std::max(na, (double)fabsl(v)); na *= A.r;
  double prev = r0, prevres = 0;
  bool prevstopped = false, refstopped = false;
  std::vector<double> T = trajectory(A, x0, b, M, K); double best = r0;
  for (int k = 0; k <= K; k++) {
    Res r = solve(c, A, x0, b, M, tol, k, k % 2 ? NAN : 1e30);
    c.check(5);
    if (!allfinite(r.x)) c.fail("limit %d: result is not finite: %s", k, vstr(r.x).c_str());
    double rr = resid(A, r.x, b);
    double slack = 1e-13 * cond * (na * (nrminf(r.x) + nrminf(x0)) + nb);
    if (!(rr <= r0 + slack)) c.fail("limit %d: residual grew from %.15g to %.15g", k, r0, rr);
    if (!(fabs(r.cgres - rr / nb) <= 1e-6 * rr / nb + slack / nb)) c.fail("limit %d: reported relative residual %.12g, true %.12g", k, r.cgres, rr / nb);
    if (k == 0 && memcmp(r.x.data(), x0.data(), x0.size() * 8)) c.fail("no iteration allowed, but x changed");
    if (r.iter > k || r.iter < 0) c.fail("limit %d: reports %d iterations", k, r.iter);
    if (r.calls > k + 1) c.fail("limit %d: %d operator applications", k, r.calls);
    if (r0 / nb >= tol * 1.000001 + 1e-300 && r0 > slack) {
      if (r.iter < k && !(r.cgres < tol)) c.fail("limit %d: stopped after %d iterations with residual %.12g above the tolerance %g", k, r.iter, r.cgres, tol);
      if (k > 0 && r.iter == k && prevstopped) c.fail("limit %d: continued although the tolerance %g was met after %d iterations (residual %.12g)", k, tol, k - 1, prevres);
      if (k > 0 && r.calls - 1 > r.iter) c.fail("limit %d: %d operator applications for %d reported iterations", k, r.calls - 1, r.iter);
    }
    // while rounding is immaterial: the best of the iterates, and the first iterate below the tolerance stops the solve
    if (k < (int)T.size() && k <= 4 && cond < 1e4 && T[k] > 1e-5 * r0 && T[k] > 1e4 * slack && !refstopped) {
      c.check(2); best = std::min(best, T[k]);
      if (getenv("L1C_MARGIN") && fabs(rr - best) > 1e-8 * best) fprintf(stderr, "dev %g k=%d %s\n", fabs(rr - best) / best, k, c.desc.c_str());
      if (!(fabs(rr - best) <= 1e-4 * best + slack)) c.fail("limit %d: residual %.12g, but the best of the iterates has %.12g", k, rr, best);
      if (k > 0 && T[k] < 0.999 * tol * nb && r.iter != k) c.fail("limit %d: reports %d iterations", k, r.iter);
    } else refstopped = true;
    if (k > 0 && k < (int)T.size() && T[k] < tol * nb * 1.001) refstopped = true;
    if (!(rr <= prev + slack)) c.fail("limit %d: residual %.12g, but limit %d gave %.12g", k, rr, k - 1, prev);
    prevstopped = r.cgres < tol && (r.iter == k || prevstopped); prevres = r.cgres;
    prev = rr;
    c.state(mc::hvals(r.x.data(), r.x.size(), mc::mix(k, M ? 1 : 0)));
    c.outcome(mc::mix(r.iter, k));
  }
}
static void converge(mc::Ctx& c, const Mat& A, const Vec& x0, const Vec& b, const Vec* M, int iters, double acc) {
  Res r = solve(c, A, x0, b, M, 1e-14, iters, NAN);
  double rr = resid(A, r.x, b) / nrm2(b), na = 0;
  for (ld v : A.a) na = std::max(na, (double)fabsl(v));
  acc += 1e-14 * A.r * na * nrm2(x0) / nrm2(b);        // attainable accuracy from a far start
  c.check();
  if (!(rr <= acc)) c.fail("after %d iterations on %d unknowns the relative residual is %.3g", iters, A.r, rr);
}
static Mat family(int k, int N, double& cond) {
  Mat A(N, N); cond = 10;
  if (k == 0) A = Mat::I(N);
  if (k == 1) for (int i = 0; i < N; i++) { A(i, i) = 1 + i * 3; cond = 4.0 * N; }
  if (k == 2) { for (int i = 0; i < N; i++) { A(i, i) = 2; if (i) A(i, i - 1) = A(i - 1, i) = -1; } cond = N * N; }
  if (k == 3) { Mat B(N, N); for (int i = 0; i < N * N; i++) B.a[i] = gen(i, 71 + N); A = B.T().mm(B); for (int i = 0; i < N; i++) A(i, i) += 1; cond = 40.0 * N; }
  if (k == 4) { for (int i = 0; i < N; i++) A(i, i) = powl(10, 4.0L * i / std::max(1, N - 1)); for (int i = 0; i + 1 < N; i++) A(i, i + 1) = A(i + 1, i) = 0.3L * sqrtl(A(i, i)); cond = 2e4; }
  if (k == 5) { for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) A(i, j) = (i == j ? 1.0L : 0.0L) + 1.0L / (i + j + 1); cond = 4; }
  return A;
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  static const std::vector<double> TOL{1e-1, 1e-3, 1e-9};
  // every 2x2 SPD matrix with small integer entries, every small integer rhs and start
  mc::explore("int2", [](mc::Ctx& c) {
    int R = mc::thorough() ? 5 : 4;
    int a = 1 + c.choose(R), d = 1 + c.choose(R), o = c.choose(2 * R - 1) - (R - 1);
    if (a * d - o * o <= 0) c.prune();
    int P = c.choose(4);
    double tol = c.pick(TOL);
    c.begin("[[%d %d][%d %d]] precond %d tol %g", a, o, o, d, P, tol);
    Mat A(2, 2); A(0, 0) = a; A(1, 1) = d; A(0, 1) = A(1, 0) = o;
    Vec M = P == 1 ? Vec{1, 1} : P == 2 ? Vec{1.0 / a, 1.0 / d} : Vec{4, 0.125};
    double cond = (double)(a + d) * (a + d) / (a * d - o * o) * (P == 3 ? 32 : 1);
    for (int b0 = -2; b0 <= 2; b0++) for (int b1 = -2; b1 <= 2; b1++) {
      if (!b0 && !b1) continue;
      Vec b{(double)b0, (double)b1};
      for (int x0 = -1; x0 <= 2; x0++) for (int x1 = -1; x1 <= 2; x1++) {
        Vec x{(double)x0, (double)x1};
        c.desc = ""; c.note("[[%d %d][%d %d]] precond %d tol %g b=[%d %d] x0=[%d %d]", a, o, o, d, P, tol, b0, b1, x0, x1);
        check(c, A, x, b, P ? &M : nullptr, tol, 4, cond);
      }
      if (tol == TOL[0]) converge(c, A, Vec{0.5, 3}, b, P ? &M : nullptr, 4, 1e-10);
    }
  });
  mc::explore("families", [](mc::Ctx& c) {
    int k = c.choose(6), N = 1 + c.choose(mc::thorough() ? 16 : 9), P = c.choose(6), S = c.choose(5), bk = c.choose(3);
    double tol = c.pick({1e-1, 1e-4, 1e-9, 0.9});
    c.begin("family %d N=%d precond %d start %d rhs %d tol %g", k, N, P, S, bk, tol);
    double cond; Mat A = family(k, N, cond);
    Vec M(N, 1.0);
    if (P == 2) for (int i = 0; i < N; i++) M[i] = (double)(1 / A(i, i));
    if (P == 3) { for (int i = 0; i < N; i++) M[i] = i % 2 ? 6 : 0.2; cond *= 30; }
    if (P >= 4) for (int i = 0; i < N; i++) M[i] = (double)((P == 4 ? 1e6 : 1e-6) / A(i, i));   // the scale of the preconditioner is immaterial
    Vec xs = genv(N, 4), b = bk == 0 ? genv(N, 5) : bk == 1 ? Vec(N, 0.0) : genv(N, 6);
    if (bk == 1) b[N - 1] = -2; if (bk == 2) for (double& t : b) t *= 1e-6;
    Vec x0(N, 0.0);
    if (S == 1) x0 = genv(N, 8);
    if (S == 2) { for (int i = 0; i < N; i++) x0[i] = round(xs[i] * 4) / 4; b = A.mul(x0); if (nrm2(b) == 0) c.prune(); if (k == 4 || k == 5) x0[0] += 1e-5; }  // exact (or nearly exact) solution
    if (S == 3) x0.assign(N, 1e3);
    if (S == 4) { x0[0] = 1e6; }
    check(c, A, x0, b, P ? &M : nullptr, tol, N + 3, cond);
    if (tol == 1e-9 && S != 4) converge(c, A, x0, b, P ? &M : nullptr, (k == 4 ? 4 * N + 20 : 2 * N + 4) * (P == 3 ? 2 : 1), 1e-8);
  });
  // every magnitude of operator, right-hand side and start
  mc::explore("scaled", [](mc::Ctx& c) {
    int k = c.choose(6), N = c.pick({1, 2, 5, 8}), P = c.choose(4), S = c.choose(2);
    double sa = c.pick({1e-20, 1e-12, 1e-6, 1.0, 1e6, 1e12, 1e20}), sb = c.pick({1e-40, 1e-20, 1e-12, 1e-6, 1.0, 1e6, 1e12, 1e20, 1e40}), tol = c.pick({1e-1, 1e-4, 1e-9});
    c.begin("family %d times %g N=%d precond %d start %d rhs of size %g tol %g", k, sa, N, P, S, sb, tol);
    double cond; Mat A = family(k, N, cond);
    for (ld& t : A.a) t *= sa;
    Vec M(N, 1.0), b = genv(N, 5), x0(N, 0.0);
    if (P == 2) for (int i = 0; i < N; i++) M[i] = (double)(1 / A(i, i));
    if (P == 3) { for (int i = 0; i < N; i++) M[i] = (i % 2 ? 6 : 0.2) * 1e-9; cond *= 30; }
    for (double& t : b) t *= sb;
    if (S == 1) { x0 = genv(N, 8); for (double& t : x0) t *= sb / sa; }
    check(c, A, x0, b, P ? &M : nullptr, tol, N + 2, cond);
    if (tol == 1e-9) converge(c, A, x0, b, P ? &M : nullptr, (k == 4 ? 4 * N + 20 : 2 * N + 4) * (P == 3 ? 2 : 1), 1e-8);
  });
  // larger systems (sparse), the limits around the number of iterations needed
  mc::explore("large", [](mc::Ctx& c) {
    int k = c.pick({1, 2, 5}), N = c.pick({17, 32, 33, 64, 65, 100, 130, 257}), P = c.choose(5), S = c.choose(2);
    double tol = c.pick({1e-2, 1e-8});
    if (mc::is_asan() && N > 65) c.prune();
    c.begin("large family %d N=%d precond %d start %d tol %g", k, N, P, S, tol);
    double cond; Mat A = family(k, N, cond);
    if (k == 2) { for (int i = 0; i < N; i++) A(i, i) = 2.25; cond = 30; }
    if (k == 1) { for (int i = 0; i < N; i++) A(i, i) = 1 + (i % 5) * 3; cond = 20; }
    Vec M(N, 1.0), b = genv(N, 5), x0(N, 0.0);
    if (P >= 2) for (int i = 0; i < N; i++) M[i] = (double)((P == 2 ? 1 : P == 3 ? 1e6 : 1e-6) / A(i, i));
    if (S == 1) x0 = genv(N, 8);
    check(c, A, x0, b, P ? &M : nullptr, tol, 12, cond);
    converge(c, A, x0, b, P ? &M : nullptr, N + 30, 1e-10);
  });
  // systems of many unknowns, without a matrix
  mc::explore("huge", [](mc::Ctx& c) {
    int N = c.pick({300, 513, 1000, 1025, 2049, 4099, 10007, 70001}), P = c.choose(3), S = c.choose(2); double tol = c.pick({1e-2, 1e-9});
    if (mc::is_asan() && N > 600) c.prune();
    c.begin("huge N=%d precond %d start %d tol %g", N, P, S, tol);
    struct T { int calls; static void mul(l1c_int n, double* x, double* y, void* d) { ((T*)d)->calls++; for (int i = 0; i < n; i++) y[i] = (2.5 + i % 3) * x[i] - (i ? x[i - 1] : 0) - (i + 1 < n ? x[i + 1] : 0); } } t{0};
    Vec bv = genv(N, 5), xv(N, 0.0), mv(N); if (S) xv = genv(N, 8); for (int i = 0; i < N; i++) mv[i] = P == 2 ? 1 / (2.5 + i % 3) : 3.0;
    auto res = [&](const Vec& x) { Vec y(N); T q{0}; Vec xx = x; T::mul(N, xx.data(), y.data(), &q); for (int i = 0; i < N; i++) y[i] -= bv[i]; return nrm2(y) / nrm2(bv); };
    double prev = res(xv);
    for (int k : {0, 1, 2, 5, 60}) {
      Buf x(xv), b(bv), M(mv), w0(N, NAN), w1(N, NAN), w2(N, NAN), w3(N, NAN), w4(N, NAN); double* W[5] = {w0, w1, w2, w3, w4};
      l1c_CgResults r; memset(&r, 0, sizeof r); l1c_CgParams p; memset(&p, 0, sizeof p); p.max_iter = k; p.tol = tol; t.calls = 0;
      int st = P ? l1c_cgsolve_diag_precond(N, x, b, M, W, T::mul, &t, &r, p) : l1c_cgsolve(N, x, b, W, T::mul, &t, &r, p); c.step(); c.check(4);
      if (st) c.fail("returned %d", st);
      if (!b.same(bv) || !M.same(mv) || !x.guards_ok() || !w0.guards_ok() || !w1.guards_ok() || !w2.guards_ok() || !w3.guards_ok() || !w4.guards_ok()) c.fail("modified its inputs or wrote outside its arrays");
      double rr = res(x.vec());
      if (!(fabs(rr - r.cgres) <= 1e-10 + 1e-6 * rr)) c.fail("limit %d: reports the relative residual %.12g, x has %.12g", k, r.cgres, rr);
      if (r.cgiter > k || r.cgiter < 0 || t.calls > k + 1) c.fail("limit %d: reports %d iterations, %d operator applications", k, (int)r.cgiter, t.calls);
      if (!(rr <= prev + 1e-12)) c.fail("limit %d: residual %.12g, a smaller limit gave %.12g", k, rr, prev);
      if (k == 60 && !(rr < tol)) c.fail("after 60 iterations the relative residual is %.3g (about 30 suffice)", rr);
      if (r.cgiter < k && !(r.cgres < tol)) c.fail("limit %d: stopped after %d iterations with residual %.12g", k, (int)r.cgiter, r.cgres);
      prev = rr; c.state(mc::hvals(x.d, N, k)); c.outcome(mc::mix(r.cgiter, k));
    }
  });
  // zero tolerance never stops early
  mc::explore("tol0", [](mc::Ctx& c) {
    int k = c.choose(6), N = 1 + c.choose(6), P = c.choose(2), K = c.choose(10);
    c.begin("tol=0 family %d N=%d precond %d limit %d", k, N, P, K);
    double cond; Mat A = family(k, N, cond); Vec M(N, 0.5), b = genv(N, 5);
    Res r = solve(c, A, genv(N, 9), b, P ? &M : nullptr, 0, K, NAN);
    if (r.iter > K) c.fail("limit %d: reports %d iterations", K, r.iter);
    if (r.iter < K && r.iter < N) c.fail("limit %d: stopped after %d iterations without meeting the tolerance 0", K, r.iter);
    if (!allfinite(r.x)) c.fail("result not finite");
    c.state(mc::hvals(r.x.data(), N, K));
  });
  return mc::finish();
}
