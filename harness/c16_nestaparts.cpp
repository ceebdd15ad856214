// C16: the pieces of NESTA on the real code: projection, smoothed objective, set-up, stopping window.
#include "nprob.hpp"
#include <deque>
static const std::vector<double> MUS{1e-5, 1e-2, 1.0, 30.0};
struct NP {
  l1c_NestaProb* p; double bm, bt; int st;
  NP(Live& L, double* b, l1c_NestaOpts o) { p = _l1c_NestaProb_new(L.f); bm = bt = NAN; st = p ? l1c_nesta_setup(p, &bm, &bt, b, L.f, &o) : -9; }
  ~NP() { l1c_free_nesta_problem(p); }
};

int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  static const std::vector<NProb> PS = problems(mc::thorough());

  mc::explore("project", [](mc::Ctx& c) {
    const NProb& q = c.pick(PS, "operator");
    double mu = c.pick(MUS); int xk = c.choose(4, "point"), gk = c.choose(4, "gradient"), dk = c.choose(3, "data"), sk = c.choose(6, "sigma"); double un = c.pick({1.0, 1e-10, 1e11}, "unit");
    if (un != 1 && (mc::is_asan() || gk == 2 || sk == 4)) c.prune();
    mu *= un;
    c.begin("%s mu_j=%g point %d gradient %d data %d sigma %d unit %g", q.g.str().c_str(), mu, xk, gk, dk, sk, un);
    RefOps R(q.g); const Mat& A = R.r.A; int m = R.r.m, n = R.r.n;
    SetUp S(q.g, c);
    Vec b = dk == 0 ? Vec(n, 0.0) : genv(n, 31 + dk); if (dk == 2) for (double& t : b) t *= 100;
    for (double& t : b) t *= un;
    Buf bb(b);
    wrap_reset(); long lv = wrap_live();
    {
    NP P(S.L, bb, nopts(1e-3 * un, 1e-3, 1.0, 3));
    if (P.st) c.fail("nesta set-up returned %d", P.st);
    double Lmu = P.p->L / mu;
    Vec x = xk == 0 ? Vec(m, 0.0) : xk == 1 ? genv(m, 41) : xk == 2 ? R.At.mul(b) : genv(m, 42);
    if (xk != 2) for (double& t : x) t *= (xk == 3 ? 1e3 : 1) * un;
    Vec g = gk == 0 ? Vec(m, 0.0) : genv(m, 50 + gk); if (gk == 2) for (double& t : g) t *= 1e-4 ; if (gk == 3) for (double& t : g) t *= Lmu * un;
    // q, its residual and the exact minimiser (A A^T = I)
    std::vector<ld> qq(m); for (int i = 0; i < m; i++) qq[i] = (ld)x[i] - (ld)g[i] / Lmu;
    std::vector<ld> r(n); ld rn = 0, bn = 0, qn = 0; for (int i = 0; i < n; i++) { ld s = -(ld)b[i]; for (int j = 0; j < m; j++) s += A(i, j) * qq[j]; r[i] = s; rn += s * s; bn += (ld)b[i] * b[i]; }
    for (ld t : qq) qn += t * t; rn = sqrtl(rn); bn = sqrtl(bn); qn = sqrtl(qn);
    double sig = sk == 0 ? 1e-3 * (double)(rn + bn) : sk == 1 ? 0.5 * (double)rn : sk == 2 ? 2 * (double)rn : sk == 3 ? un : sk == 5 ? (double)rn * (1 - 1e-6) : 1e-8;
    if (!(sig > 0)) c.prune();
    P.p->mu_j = mu; P.p->sigma = sig;
    std::vector<ld> want = qq; bool active = rn > sig;
    if (active) for (int j = 0; j < m; j++) { ld s = 0; for (int i = 0; i < n; i++) s += A(i, j) * r[i]; want[j] = qq[j] - s * (1 - sig / rn); }
    Vec w(m); for (int i = 0; i < m; i++) w[i] = (double)want[i];
    Buf X(x), Gr(g), V(m, NAN);
    l1c_nesta_project(P.p, X, Gr, V); c.step(); c.check();
    if (!X.same(x) || !Gr.same(g) || !bb.same(b)) c.fail("the projection modified its inputs");
    if (!X.guards_ok() || !Gr.guards_ok() || !V.guards_ok()) c.fail("the projection wrote outside its output");
    double sc = (double)(qn + bn + rn) + 1e-300 * un;
    double ptol = 2e-11 + 16 * EPS * (double)(rn / sig);   // lambda/Lmu*(1-a1) cancels when sigma is tiny
    int bad = cmpv(V, w, ptol, sc);
    if (bad >= 0) c.fail("projection (constraint %s, |Aq-b| = %Lg, sigma = %g): element %d is %.15g, the exact minimiser has %.15g", active ? "active" : "inactive", rn, sig, bad, V.d[bad], w[bad]);
    // the result is feasible
    Vec av = A.mul(V.vec()); for (int i = 0; i < n; i++) av[i] -= b[i];
    if (!(nrm2(av) <= sig + ptol * sqrt(n + 1.0) * sc)) c.fail("projected point has residual %.12g > sigma %.12g", nrm2(av), sig);
    c.state(mc::mix(mc::hvals(w.data(), m), mc::hvals(&sig, 1))); c.outcome(active);
    }
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv) c.fail("%ld blocks leaked", wrap_live() - lv);
  });
  mc::explore("feval", [](mc::Ctx& c) {
    const NProb& q = c.pick(PS, "operator");
    double mu = c.pick(MUS); int xk = c.choose(6, "point"); double un = c.pick({1.0, 1e-13, 1e-7, 1e11}, "unit");
    c.begin("%s mu_j=%g point %d unit %g", q.g.str().c_str(), mu, xk, un);
    RefOps R(q.g); int m = R.r.m, n = R.r.n;
    Mat Wt = R.Wt;
    int p = Wt.r;
    SetUp S(q.g, c);
    Vec b = genv(n, 31); Buf bb(b);
    NP P(S.L, bb, nopts(1e-3, 1e-3, 1.0, 3));
    if (P.st) c.fail("nesta set-up returned %d", P.st);
    Vec x = xk == 0 ? Vec(m, 0.0) : genv(m, 60 + xk);
    if (xk == 2) for (double& t : x) t *= mu; if (xk == 3) for (double& t : x) t *= 100; if (xk == 4) for (int i = 0; i < m; i++) if (i & 1) x[i] = 0;
    if (xk == 5) for (double& t : x) t *= 1e-7;
    mu *= un; for (double& t : x) t *= un;
    P.p->mu_j = mu;
    for (int i = 0; i < m; i++) { P.p->xk[i] = x[i]; P.p->gradf[i] = NAN; }
    P.p->fx = NAN;
    Vec so(P.p->xo, P.p->xo + m), sy(P.p->yk, P.p->yk + m), sz(P.p->zk, P.p->zk + m), sa(P.p->Atb, P.p->Atb + m), ss(P.p->gradf_sum, P.p->gradf_sum + m);
    l1c_nesta_feval(P.p); c.step(); c.check(2);
    if (memcmp(P.p->xk, x.data(), m * 8)) c.fail("feval modified the iterate");
    if (memcmp(P.p->xo, so.data(), m * 8) || memcmp(P.p->yk, sy.data(), m * 8) || memcmp(P.p->zk, sz.data(), m * 8) || memcmp(P.p->Atb, sa.data(), m * 8) || memcmp(P.p->gradf_sum, ss.data(), m * 8)) c.fail("feval modified another part of the problem");
    std::vector<ld> v(p), u(p); ld f = 0, f1 = 0;
    for (int i = 0; i < p; i++) { ld s = 0; for (int j = 0; j < m; j++) s += Wt(i, j) * x[j]; v[i] = s; ld a = fabsl(s); f += a <= mu ? s * s / (2 * (ld)mu) : a - (ld)mu / 2; f1 += a; u[i] = a <= mu ? s / mu : (s > 0 ? 1 : -1); }
    Vec gr(m); for (int j = 0; j < m; j++) { ld s = 0; for (int i = 0; i < p; i++) s += Wt(i, j) * u[i]; gr[j] = (double)s; }
    double sc = (double)f1 + nrm2(x);
    if (!(fabs(P.p->fx - (double)f) <= 1e-12 * sc)) c.fail("smoothed objective is %.15g, the Huber sum is %.15Lg", P.p->fx, f);
    int bad = cmpv(P.p->gradf, gr, 1e-11, 1.0 * sqrt((double)p) + nrm2(x) / mu * 1e-3);
    if (bad >= 0) c.fail("gradient element %d is %.15g, the derivative of the smoothed objective is %.15g", bad, P.p->gradf[bad], gr[bad]);
    c.state(mc::hvals(gr.data(), m, (uint64_t)(mu * 1e6))); c.outcome(mc::hvals(&P.p->fx, 1));
  });
  mc::explore("setup", [](mc::Ctx& c) {
    const NProb& q = c.pick(PS, "operator");
    int dk = c.choose(6, "data"), nc = c.pick({1, 2, 3, 5, 8}); double mu = c.pick({1e-6, 1e-2, 5.0}), tol = c.pick({1e-8, 1e-3, 0.5}), sigma = c.pick({1e-4, 2.0});
    int miss = c.choose(5, "missing operator");
    if (miss && (nc != 1 || mu != 1e-6 || tol != 1e-8)) c.prune();
    c.begin("%s data %d n_continue %d mu %g tol %g sigma %g missing %d", q.g.str().c_str(), dk, nc, mu, tol, sigma, miss);
    RefOps R(q.g); int m = R.r.m, n = R.r.n, p = R.Wt.r;
    SetUp S(q.g, c);
    Vec b(n, 0.0);
    if (dk == 0) { for (int i = 0; i < n; i++) b[i] = gen(i, 71); } else if (dk == 1) b[n - 1] = -3; else if (dk == 2) b[0] = 1e-3; else if (dk >= 4) { double un = dk == 4 ? 1e-10 : 1e9; for (int i = 0; i < n; i++) b[i] = un * gen(i, 73); mu *= un; sigma *= un; } else for (int i = 0; i < n; i++) b[i] = 50 * gen(i, 72);
    Buf bb(b);
    l1c_NestaOpts o = nopts(mu, tol, sigma, nc);
    l1c_AxFuns keep = S.L.f;
    if (miss == 1) S.L.f.Wz = NULL; if (miss == 2) S.L.f.Wtx = NULL; if (miss == 3) S.L.f.Rx = NULL; if (miss == 4) S.L.f.Rty = NULL;
    NP P(S.L, bb, o); c.step(); c.check(6);
    S.L.f = keep;
    if (!bb.same(b)) c.fail("set-up modified the data");
    if (miss) { if (P.st != (int)L1C_INCONSISTENT_ARGUMENTS) c.fail("set-up without a required operator returned %d", P.st); c.outcome(miss); return; }
    if (P.st) c.fail("set-up returned %d", P.st);
    Vec atb = R.At.mul(b), w = R.Wt.mul(atb);
    double mu0 = 0.9 * nrminf(w);
    if (p != (int)w.size()) c.fail("harness");
    auto rel = [&](double a, double z) { return fabs(a - z) <= 1e-9 * fabs(z); };
    if (!rel(P.p->mu_j, mu0)) c.fail("smoothing starts at %.15g, 0.9 max|W'A'b| is %.15g", P.p->mu_j, mu0);
    double e = P.p->mu_j; for (int i = 0; i < nc; i++) e *= P.bm;
    if (!rel(e, mu)) c.fail("after %d continuation steps the smoothing is %.15g, requested %.15g", nc, e, mu);
    e = P.p->tol_j; for (int i = 0; i < nc; i++) e *= P.bt;
    if (!rel(e, tol)) c.fail("after %d continuation steps the tolerance is %.15g, requested %.15g", nc, e, tol);
    if (!rel(P.p->sigma, sigma) || P.p->n != n || P.p->m != m || P.p->p != p) c.fail("problem instance has wrong sizes or noise level");
    if (P.p->b != bb.d) c.fail("problem instance does not refer to the data");
    int bad = cmpv(P.p->xo, atb, 1e-12, nrm2(b)); if (bad >= 0) c.fail("initial point element %d is %.15g, A'b has %.15g", bad, P.p->xo[bad], atb[bad]);
    bad = cmpv(P.p->Atb, atb, 1e-12, nrm2(b)); if (bad >= 0) c.fail("stored A'b element %d is %.15g instead of %.15g", bad, P.p->Atb[bad], atb[bad]);
    c.state(mc::hvals(atb.data(), m, nc)); c.outcome(mc::hvals(&P.bm, 1, nc));
  });
  mc::explore("large", [](mc::Ctx& c) {
    static const std::vector<Cfg> BIG = big_problems();
    const Cfg& g = c.pick(BIG, "operator"); double mu = c.pick({1e-3, 0.5}); int xk = c.choose(3, "point"), sk = c.choose(3, "sigma");
    if (mc::is_asan() && g.mrow * g.mcol > 140) c.prune();
    c.begin("large %s mu_j=%g point %d sigma %d", g.str().c_str(), mu, xk, sk);
    BigRef R(g); int m = R.h.m, n = R.h.n, p = R.h.p;
    SetUp S(g, c);
    Vec b = genv(n, 33); Buf bb(b); double nb = nrm2(b), msig = sk == 0 ? 0.01 * nb : sk == 1 ? 0.5 * nb : 30 * nb;
    wrap_reset(); long lv = wrap_live();
    {
    int nc = 1 + 2 * sk; double mu_opt = 1e-4, tol_opt = 1e-5;
    NP P(S.L, bb, nopts(mu_opt, tol_opt, msig, nc)); c.step();
    if (P.st) c.fail("set-up returned %d", P.st);
    Vec atb = R.apply(O_Aty, b), w = R.apply(O_Wtx, atb); c.check(6);
    if ((int)w.size() != p || (int)atb.size() != m) c.fail("harness");
    auto rel = [&](double a, double z) { return fabs(a - z) <= 1e-9 * fabs(z); };
    if (!rel(P.p->mu_j, 0.9 * nrminf(w))) c.fail("smoothing starts at %.15g, 0.9 max|W'A'b| is %.15g", P.p->mu_j, 0.9 * nrminf(w));
    double e = P.p->mu_j, t = P.p->tol_j; for (int i = 0; i < nc; i++) { e *= P.bm; t *= P.bt; }
    if (!rel(e, mu_opt) || !rel(t, tol_opt)) c.fail("the schedule ends at smoothing %.12g and tolerance %.12g instead of %g and %g", e, t, mu_opt, tol_opt);
    int bad = cmpv(P.p->xo, atb, 1e-12, nb); if (bad >= 0) c.fail("initial point element %d is %.15g, A'b has %.15g", bad, P.p->xo[bad], atb[bad]);
    // value and gradient
    Vec x = genv(m, 60 + xk); if (xk == 1) for (double& q : x) q *= mu; if (xk == 2) x = atb;
    for (int i = 0; i < m; i++) { P.p->xk[i] = x[i]; P.p->gradf[i] = NAN; }
    P.p->mu_j = mu; P.p->fx = NAN;
    l1c_nesta_feval(P.p); c.step();
    if (memcmp(P.p->xk, x.data(), m * 8)) c.fail("feval modified the iterate");
    LVec v = R.op(O_Wtx, LVec(x.begin(), x.end())), u(p); ld f = 0, f1 = 0;
    for (int i = 0; i < p; i++) { ld s = v[i], a = fabsl(s); f += a <= mu ? s * s / (2 * (ld)mu) : a - (ld)mu / 2; f1 += a; u[i] = a <= mu ? s / mu : (s > 0 ? 1 : -1); }
    LVec gl = R.op(O_Wz, u); Vec gr(gl.begin(), gl.end());
    if (!(fabs(P.p->fx - (double)f) <= 1e-12 * ((double)f1 + nrm2(x)))) c.fail("smoothed objective is %.15g, the Huber sum is %.15Lg", P.p->fx, f);
    bad = cmpv(P.p->gradf, gr, 1e-11, sqrt((double)p) + nrm2(x) / mu * 1e-3);
    if (bad >= 0) c.fail("gradient element %d is %.15g, the derivative of the smoothed objective is %.15g", bad, P.p->gradf[bad], gr[bad]);
    // projection of a gradient step
    double Lmu = P.p->L / mu; P.p->sigma = msig;
    LVec q(m); for (int i = 0; i < m; i++) q[i] = (ld)x[i] - (ld)gr[i] / Lmu;
    LVec r = R.op(O_Ax, q); ld rn = 0, qn = 0; for (int i = 0; i < n; i++) { r[i] -= b[i]; rn += r[i] * r[i]; } for (ld z : q) qn += z * z; rn = sqrtl(rn); qn = sqrtl(qn);
    bool active = rn > msig; if (active) { LVec d = R.op(O_Aty, r); for (int i = 0; i < m; i++) q[i] -= d[i] * (1 - msig / rn); }
    Vec want(q.begin(), q.end()); Buf X(x), G(gr), V(m, NAN);
    l1c_nesta_project(P.p, X, G, V); c.step();
    if (!X.same(x) || !G.same(gr) || !bb.same(b) || !V.guards_ok()) c.fail("the projection modified its inputs or wrote outside its output");
    bad = cmpv(V, want, 2e-11 + 16 * EPS * (double)(rn / msig), (double)(qn + rn) + nb);
    if (bad >= 0) c.fail("projection (constraint %s): element %d is %.15g, the exact minimiser has %.15g", active ? "active" : "inactive", bad, V.d[bad], want[bad]);
    c.state(mc::hvals(want.data(), m)); c.outcome(active);
    }
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv) c.fail("%ld blocks leaked", wrap_live() - lv);
  });
  // the whole iteration against a model of it: each step restarts the mean and stops at the first iteration within the tolerance of it
  mc::explore("trajectory", [](mc::Ctx& c) {
    const NProb& q = c.pick(PS, "operator");
    int dk = c.choose(2, "data"), sk = c.choose(3, "sigma"); double mur = c.pick({0.3, 0.03, 2.0}), tol = c.pick({0.09, 1e-2, 1e-4, 1e-6}); int nc = c.pick({1, 2, 4}); double un = c.pick({1.0, 1e-9});
    if (un != 1 && (mc::is_asan() || nc == 1)) c.prune();
    RefOps R(q.g); int m = R.r.m, n = R.r.n, p = R.Wt.r;
    Vec xt = genv(m, 31); if (dk) for (int i = 0; i < m; i++) if (i % 3) xt[i] = 0;
    Vec b = R.r.A.mul(xt); if (nrm2(b) == 0) b[0] = 2;
    for (double& t : b) t *= un;
    double nb = nrm2(b), sigma = nb * (sk == 0 ? 1e-2 : sk == 1 ? 0.2 : 0.6), mu = mur * nb;
    c.begin("%s b=%s sigma=%g mu=%g tol=%g n_continue=%d", q.g.str().c_str(), vstr(b, 6).c_str(), sigma, mu, tol, nc);
    SetUp S(q.g, c); Buf x(m, NAN), bb(b);
    wrap_reset(); long lv = wrap_live();
    int st = l1c_nesta(m, x, n, bb, S.L.f, nopts(mu, tol, sigma, nc)); c.step(); c.check(2);
    if (st) c.fail("status %d", st);
    if (wrap_error() || wrap_live() != lv) c.fail("%s (%ld blocks leaked)", wrap_error() ? wrap_error() : "", wrap_live() - lv);
    const Mat &A = R.r.A, &Wt = R.Wt;
    auto mul = [](const Mat& M, const LVec& v) { LVec o(M.r, 0); for (int i = 0; i < M.r; i++) for (int j = 0; j < M.c; j++) o[i] += M(i, j) * v[j]; return o; };
    auto mulT = [](const Mat& M, const LVec& v) { LVec o(M.c, 0); for (int i = 0; i < M.r; i++) for (int j = 0; j < M.c; j++) o[j] += M(i, j) * v[i]; return o; };
    LVec lb(b.begin(), b.end()), xo = mulT(A, lb), xk = xo, w = mul(Wt, xo); ld mx = 0; for (ld t : w) mx = std::max(mx, fabsl(t));
    double L = S.L.f.norm_W * S.L.f.norm_W;
    ld muj = 0.9L * mx, tj = 0.1L, bm = powl(mu / muj, 1.0L / nc), bt = powl(tol / tj, 1.0L / nc); long total = 0; double close = 1;
    for (int it = 0; it < nc; it++) {
      muj *= bm; tj *= bt; std::deque<ld> win; LVec gs(m, 0);
      auto proj = [&](const LVec& z, const LVec& g) { LVec v(m); for (int i = 0; i < m; i++) v[i] = z[i] - g[i] * muj / L; LVec r = mul(A, v); ld s = 0; for (int i = 0; i < n; i++) { r[i] -= lb[i]; s += r[i] * r[i]; } s = sqrtl(s); if (s > sigma) { LVec d = mulT(A, r); for (int i = 0; i < m; i++) v[i] -= d[i] * (1 - sigma / s); } return v; };
      for (int k = 0; k < 10000; k++, total++) {
        w = mul(Wt, xk); ld f = 0; LVec u(p); for (int i = 0; i < p; i++) { ld a = fabsl(w[i]); f += a <= muj ? a * a / (2 * muj) : a - muj / 2; u[i] = w[i] / std::max(muj, a); }
        LVec g = mulT(Wt, u), y = proj(xk, g); for (int i = 0; i < m; i++) gs[i] += 0.5L * (k + 1) * g[i];
        LVec z = proj(xo, gs); ld tk = 2.0L / (k + 3); for (int i = 0; i < m; i++) xk[i] = tk * z[i] + (1 - tk) * y[i];
        bool stop = false;
        if (!win.empty()) { ld mean = 0; for (ld t : win) mean += t; mean /= win.size(); ld rd = fabsl(f - mean) / mean; stop = rd < tj; close = std::min(close, (double)(fabsl(rd - tj) / tj)); }
        win.push_back(f); if (win.size() > 10) win.pop_front();
        if (stop) break;
      }
      xo = xk;
      if (total > 4000) break;
    }
    if (total > 4000 || close < 1e-6) { c.outcome(1); return; }   // too long for rounding to stay small, or a decision on the edge
    double e = 0; for (int i = 0; i < m; i++) e = std::max(e, fabs(x.d[i] - (double)xk[i]));
    if (!(e <= 1e-8 * nb)) c.fail("the result is %s; stopping each step by the mean of the last ten objective values gives %s (%ld iterations)", vstr(x.vec(), 8).c_str(), vstr(Vec(xk.begin(), xk.end()), 8).c_str(), total);
    static double worst = 0; worst = std::max(worst, e / nb); if (getenv("L1C_MARGIN")) fprintf(stderr, "worst %g (%ld)\n", worst, total);
    c.state(mc::hvals(x.d, m)); c.outcome(mc::mix(nc, total));
  });
  // every history of pushes over a small value set, checked after every push against the mean of the last ten
  mc::explore("window", [](mc::Ctx& c) {
    int len = mc::thorough() ? 16 : 13;
    std::vector<double> seq;
    for (int i = 0; i < 6; i++) seq.push_back(c.flip() ? -3.25 : 1.5);
    c.begin("two-valued histories of length %d", len);
    for (int i = 6; i < len; i++) seq.push_back(c.flip() ? -3.25 : 1.5);
    struct l1c_fmean_fifo f = _l1c_new_fmean_fifo();
    if (!f.f_vals) c.fail("no window");
    struct D { double* p; ~D() { l1c_free_double(p); } } d{f.f_vals};
    for (int i = 0; i < len; i++) {
      _l1c_push_fmeans_fifo(&f, seq[i]); c.step(); c.check();
      ld s = 0; int k = std::min(i + 1, 10); for (int j = i + 1 - k; j <= i; j++) s += seq[j];
      double got = _l1c_mean_fmean_fifo(&f), want = (double)(s / k);
      if (!(fabs(got - want) <= 1e-13 * 4)) c.fail("after pushes %s the mean is %.15g; the mean of the last %d values is %.15g", vstr(Vec(seq.begin(), seq.begin() + i + 1)).c_str(), got, k, want);
      c.state(mc::mix(i, mc::hvals(&want, 1)));
    }
  });
  // long histories of distinct powers: identifies every slot, in every phase of the circular buffer
  mc::explore("window_long", [](mc::Ctx& c) {
    int len = 1 + c.choose(64, "length"), sal = c.choose(4, "values");
    c.begin("history of %d values, kind %d", len, sal);
    struct l1c_fmean_fifo f = _l1c_new_fmean_fifo();
    struct D { double* p; ~D() { l1c_free_double(p); } } d{f.f_vals};
    Vec s;
    for (int i = 0; i < len; i++) {
      s.push_back(sal == 0 ? ldexp(1, i % 40) : sal == 1 ? gen(i, 3) : sal == 2 ? (i == len - 1 ? 1e6 : 0) : 1e-3 * i);
      _l1c_push_fmeans_fifo(&f, s.back()); c.step();
    }
    int k = std::min(len, 10); ld t = 0, a = 0; for (int j = len - k; j < len; j++) t += s[j], a += fabsl((ld)s[j]);
    double got = _l1c_mean_fmean_fifo(&f), again = _l1c_mean_fmean_fifo(&f); c.check();
    if (!(fabs(got - (double)(t / k)) <= 1e-14 * (double)a) || got != again) c.fail("mean after %d pushes is %.15g (%.15g when asked again), the last %d values have %.15Lg", len, got, again, k, t / k);
    c.state(mc::mix(len, sal)); c.outcome(mc::hvals(&got, 1));
  });
  return mc::finish();
}
