// C25: every solver call ends within the work its iteration limits permit, whatever the data.
// The operators are wrapped in counters; one application too many is a violation on the spot.
#include "nprob.hpp"
#include <map>
extern "C" {
int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
}
static const double SPECIAL[] = {NAN, INFINITY, -INFINITY, 1e200, -1e300, 1e-310, 0.0, 1e-160};
static const int NS = 8;
static mc::Ctx* CX; static l1c_AxFuns U; static long cnt[8], lim[8]; static const char* OPC[8] = {"Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx/Rty"};
static void tick(int i) { if (++cnt[i] > lim[i]) CX->fail("operator %s is applied more than %ld times", OPC[i], lim[i]); }
static void wAx(double* x, double* y) { tick(0); U.Ax(x, y); }
static void wAty(double* x, double* y) { tick(1); U.Aty(x, y); }
static void wAtAx(double* x, double* y) { tick(2); U.AtAx(x, y); }
static void wMx(double* x, double* y) { tick(3); U.Mx(x, y); }
static void wMty(double* x, double* y) { tick(4); U.Mty(x, y); }
static void wWz(double* x, double* y) { tick(5); U.Wz(x, y); }
static void wWtx(double* x, double* y) { tick(6); U.Wtx(x, y); }
static void wRx(double* x, double* y) { tick(7); U.Rx(x, y); }
static void wRty(double* x, double* y) { tick(7); U.Rty(x, y); }
static l1c_AxFuns counted(mc::Ctx& c, l1c_AxFuns f, long bound) {
  CX = &c; U = f; for (int i = 0; i < 8; i++) { cnt[i] = 0; lim[i] = bound; }
  if (f.Ax) f.Ax = wAx; if (f.Aty) f.Aty = wAty; if (f.AtAx) f.AtAx = wAtAx; if (f.Mx) f.Mx = wMx; if (f.Mty) f.Mty = wMty; if (f.Wz) f.Wz = wWz; if (f.Wtx) f.Wtx = wWtx; if (f.Rx) f.Rx = wRx; if (f.Rty) f.Rty = wRty;
  return f;
}
static int NN(const Cfg& g) { return g.kind == K_MAT ? g.n : (int)g.pix.size(); }
static int silent(const char*, ...) { return 0; }
static bool bits(const Vec& a, const Vec& b) { return a.size() == b.size() && !memcmp(a.data(), b.data(), 8 * a.size()); }
static Vec poison(mc::Ctx& c, Vec v, int kind, int pos) { (void)c; if (pos < (int)v.size()) v[pos] = SPECIAL[kind]; else for (double& t : v) t = t * (std::isfinite(SPECIAL[kind]) ? SPECIAL[kind] : 1) + (std::isfinite(SPECIAL[kind]) ? 0 : SPECIAL[kind]); return v; }
static void post(mc::Ctx& c, long lv, long lp) {
  c.check(3);
  if (wrap_error()) c.fail("%s", wrap_error());
  if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("%ld blocks and %ld plans stay allocated", wrap_live() - lv, wrap_live_plans() - lp);
}
struct Quiet { Quiet() { wrap_reset(); wrap_junk(0x7f); } ~Quiet() { wrap_junk(-1); } };
static l1c_L1qcOpts lopts(double eps) { l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = eps; o.mu = 10; o.lbtol = 0.1; o.newton_tol = 1e-3; o.newton_max_iter = 6; o.cg_tol = 1e-9; o.cg_maxiter = 12; o.l1_tol = 0; return o; }
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(silent);
  static std::vector<Cfg> NP{mk_ortho(2, 5, 6), mk_dct(5, 1, dct1, {3, 0}), mk_tv(3, 4, dct2, analysis, 0.5, 2.0, {11, 2, 5, 0}), mk_ortho(1, 1, 3)};
  mc::explore("nesta", [](mc::Ctx& c) {
    const Cfg& g = NP[c.choose((int)NP.size(), "operator")]; int kind = c.choose(NS, "value"), pos = c.choose(NN(g) + 1, "position");
    double sg = c.pick({0.1, 1e-300, 1e200}), mu = c.pick({1e-2, 1e-9}), tol = c.pick({1e-3, 0.0, -1.0}); int nc = c.pick({1, 3});
    if (mc::is_asan() && nc == 3) c.prune();
    if (!mc::thorough() && tol <= 0 && (nc == 3 || mu < 1e-3)) c.prune();
    c.begin("nesta %s value %g at %d sigma %g mu %g tol %g steps %d", g.str().c_str(), SPECIAL[kind], pos, sg, mu, tol, nc);
    Quiet q; Live L(g); if (L.setup()) c.fail("set-up failed");
    Vec bv = poison(c, genv(L.f.n, 3), kind, pos); Buf b(bv), x(L.f.m, 9.0);
    long lv = wrap_live(), lp = wrap_live_plans();
    l1c_AxFuns f = counted(c, L.f, nc * 10000L * 8 + 400);
    l1c_NestaOpts no = nopts(mu, tol, sg, nc); int st = l1c_nesta(L.f.m, x, L.f.n, b, f, no); c.step();
    post(c, lv, lp); c.check(2); if (!bits(b.vec(), bv)) c.fail("the data were modified");
    // a later ordinary call is not affected
    static std::map<std::string, Vec> usual; Vec b2v = genv(L.f.n, 4); Buf b2(b2v), x2(L.f.m, -3.0);
    auto it = usual.find(g.str());
    int s2 = l1c_nesta(L.f.m, x2, L.f.n, b2, L.f, nopts(1e-2, 1e-3, 0.1, 2)); c.step(); if (s2) c.fail("a later ordinary call returns %d", s2);
    if (it == usual.end()) usual[g.str()] = x2.vec(); else if (!bits(it->second, x2.vec())) c.fail("a later ordinary call gives another answer");
    for (double t : x2.vec()) if (!std::isfinite(t)) c.fail("a later ordinary call gives %g", t);
    L.f.destroy(); c.state(mc::mix(mc::mix(pos * NS + kind, (int)(g.mtot() * 100 + NN(g))), mc::mix((int)(tol * 1e4) + nc * 7, (int)log10(mu * sg)))); c.outcome(st);
  });
  static std::vector<Cfg> LP{mk_mat(2, 5, 8), mk_dct(3, 3, dct2, {8, 3, 4, 0}), mk_mat(3, 3, 9), mk_mat(1, 1, 2)};
  // barrier x Newton x (CG + 32 trials + a few)
  static auto lbound = [](int lb, int nm, int cg) { return 20L + (long)lb * (10 + (long)nm * (2L * cg + 2 * 32 + 20)); };
  mc::explore("l1qc_newton", [](mc::Ctx& c) {
    const Cfg& g = LP[c.choose((int)LP.size(), "operator")]; int kind = c.choose(NS, "value"), wh = c.choose(2, "data or start");
    Ref R = make_ref(g); int len = wh ? R.m : R.n; int pos = c.choose(len + 1, "position");
    int set = c.choose(6, "tolerances"), ws = c.choose(3, "warm start"), lbi = c.pick({0, 1, 4}); double eps = c.pick({0.1, 1e-9, 1e250});
    c.begin("l1qc_newton %s value %g at %s %d, option set %d warm %d lbiter %d eps %g", g.str().c_str(), SPECIAL[kind], wh ? "start" : "data", pos, set, ws, lbi, eps);
    Quiet q; Live L(g); if (L.setup()) c.fail("set-up failed");
    Vec x0 = genv(R.m, 31), bv = R.A.mul(x0); if (wh) x0 = poison(c, x0, kind, pos); else bv = poison(c, bv, kind, pos);
    l1c_L1qcOpts o = lopts(eps); o.warm_start_cg = ws; o.lbiter = lbi;
    if (set == 1) o.newton_tol = 0; if (set == 2) { o.newton_tol = -1; o.cg_tol = 0; } if (set == 3) o.cg_maxiter = 0; if (set == 4) o.newton_max_iter = 0; if (set == 5) { o.l1_tol = 1; o.cg_tol = 2; }
    Buf b(bv), x(x0); long lv = wrap_live(), lp = wrap_live_plans();
    // without an explicit count: log((2m+1)/(lbtol tau))/log(mu) with tau >= 1
    int lb = lbi ? lbi : 1 + (int)ceil(log((2 * R.m + 1) / o.lbtol) / log(o.mu));
    l1c_LBResult r = l1c_l1qc_newton(R.m, x, R.n, b, o, counted(c, L.f, lbound(lb, o.newton_max_iter, o.cg_maxiter))); c.step();
    post(c, lv, lp); c.check(4); if (!bits(b.vec(), bv)) c.fail("the data were modified");
    if (r.total_newton_iter < 0 || r.total_newton_iter > lb * o.newton_max_iter) c.fail("reports %d Newton iterations, %d x %d permitted", r.total_newton_iter, lb, o.newton_max_iter);
    if (r.total_cg_iter < 0 || r.total_cg_iter > lb * o.newton_max_iter * std::max(1, o.cg_maxiter)) c.fail("reports %d CG iterations", r.total_cg_iter);
    // is the residual of the start a number within epsilon?
    bool nonfinite = false; for (double t : x0) nonfinite |= !std::isfinite(t); for (double t : bv) nonfinite |= !std::isfinite(t);
    if (nonfinite && (r.status != (int)L1C_INFEASIBLE_START || !bits(x.vec(), x0))) c.fail("status %d for a start whose residual is not a finite number", r.status);
    if (r.status != 0 && r.status != (int)L1C_INFEASIBLE_START) c.fail("status %d", r.status);
    L.f.destroy(); c.state(mc::mix(mc::mix(pos * NS + kind, (int)(g.mtot() * 100 + NN(g)) * 2 + wh), mc::mix(set * 9 + ws * 3 + lbi, (int)log10(eps)))); c.outcome(r.status);
  });
  mc::explore("l1qc_dct", [](mc::Ctx& c) {
    static const std::vector<Cfg> D{mk_dct(3, 3, dct2, {8, 3, 4, 0}), mk_dct(5, 1, dct1, {3, 0, 1}), mk_dct(2, 3, dct1, {3, 0})};
    const Cfg& g = D[c.choose((int)D.size(), "shape")]; int kind = c.choose(NS, "value"), pos = c.choose(NN(g) + 1, "position"), set = c.choose(4, "option set"); double eps = c.pick({0.1, 1e-9, 1e250});
    c.begin("l1qc_dct %s value %g at %d set %d eps %g", g.str().c_str(), SPECIAL[kind], pos, set, eps);
    Quiet q; Vec bv = poison(c, genv(NN(g), 8), kind, pos); std::vector<int> pix = g.pix; Buf b(bv), x(g.mtot(), 9.0);
    l1c_L1qcOpts o = lopts(eps); o.dct_mode = g.mode; if (set == 1) o.newton_tol = -1; if (set == 2) o.newton_max_iter = 0; if (set == 3) o.cg_maxiter = 0;
    l1c_LBResult r; memset(&r, 0, sizeof r); long lv = wrap_live(), lp = wrap_live_plans();
    int st = l1qc_dct(g.mrow, g.mcol, x, NN(g), b, pix.data(), o, &r); c.step(); post(c, lv, lp); c.check(2);
    if (!bits(b.vec(), bv) || pix != g.pix) c.fail("the inputs were modified");
    bool nf = false; for (double t : bv) nf |= !std::isfinite(t);
    if (nf && st == 0) c.fail("data that are not finite numbers are reported as solved");
    if (st) for (double t : x.vec()) if (t != 9) c.fail("status %d, but the output image was written", st);
    c.state(mc::mix(mc::mix(pos * NS + kind, g.mtot() * 100 + NN(g)), set * 7 + (int)log10(eps))); c.outcome(st);
  });
  // operators that are not positive definite, and data that are not numbers
  mc::explore("cg", [](mc::Ctx& c) {
    static long calls, limit; static Vec M; static mc::Ctx* cx;
    int n = c.pick({1, 2, 4}), fam = c.choose(7, "matrix"), wh = c.choose(3, "where"), kind = c.choose(NS, "value"), pos = c.choose(n + 1, "position"), pre = c.choose(3, "preconditioner"), mi = c.pick({0, 1, 3, 17}), verb = c.choose(2, "verbosity"); double tol = c.pick({1e-6, 0.0, -1.0, 10.0});
    if (wh == 2 && !pre) c.prune();
    c.begin("cg n=%d matrix %d, %g at %d of %s, preconditioner %d limit %d tol %g", n, fam, SPECIAL[kind], pos, wh == 0 ? "b" : wh == 1 ? "x" : "the preconditioner", pre, mi, tol);
    Quiet q; M.assign(n * n, 0.0);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double t = i == j ? 2 + i : 0.3 / (1 + i + j); if (fam == 1) t = 0; if (fam == 2) t = 1; if (fam == 3) t = i == j ? (i % 2 ? -1 : 1) : 0; if (fam == 4) t = i == j ? 1e200 : 0; if (fam == 5) t = i == 0 && j == 0 ? NAN : t; if (fam == 6) t = -t; M[i * n + j] = t; }
    Vec bv = genv(n, 5), xv = genv(n, 6), mv(n, 0.5); if (wh == 0) bv = poison(c, bv, kind, pos); if (wh == 1) xv = poison(c, xv, kind, pos); if (wh == 2) mv = poison(c, mv, kind, pos);
    Buf b(bv), x(xv), m(mv), w0(n, NAN), w1(n, NAN), w2(n, NAN), w3(n, NAN), w4(n, NAN); double* dw[5] = {w0, w1, w2, w3, w4};
    calls = 0; limit = mi + 2; cx = &c;
    auto ax = [](l1c_int k, double* in, double* out, void* d) { if (++calls > limit) cx->fail("the operator is applied more than %ld times", limit); const double* A = (const double*)d; for (int i = 0; i < k; i++) { double s = 0; for (int j = 0; j < k; j++) s += A[i * k + j] * in[j]; out[i] = s; } };
    l1c_CgParams p; memset(&p, 0, sizeof p); p.tol = tol; p.max_iter = mi; p.verbose = verb; l1c_CgResults r; memset(&r, 0, sizeof r); Vec Mcopy = M;
    int st = pre ? l1c_cgsolve_diag_precond(n, x, b, m, dw, ax, M.data(), &r, p) : l1c_cgsolve(n, x, b, dw, ax, M.data(), &r, p); c.step();
    post(c, 0, 0); c.check(4);
    if (!bits(b.vec(), bv) || !bits(m.vec(), mv) || !bits(M, Mcopy)) c.fail("inputs were modified");
    if (r.cgiter < 0 || r.cgiter > mi) c.fail("reports %d iterations of %d", (int)r.cgiter, mi);
    if (mi == 0 && !bits(x.vec(), xv)) c.fail("without a permitted iteration the point changes");
    // from a start whose residual is a number, no point that is not a number is ever preferred
    bool nf = false; for (double t : xv) nf |= !(fabs(t) < 1e100); for (double t : bv) nf |= !(fabs(t) < 1e100);
    if (!nf && fam != 5 && fam != 4) for (double t : x.vec()) if (std::isnan(t)) c.fail("returns a point that is not a number from an ordinary start");
    c.state(mc::mix(mc::mix(mc::mix(pos * NS + kind, n * 10 + fam), mc::mix(wh * 3 + pre, mi)), mc::hvals(x.vec().data(), n))); c.outcome(st);
  });
  mc::explore("denoise", [](mc::Ctx& c) {
    int n = c.pick({3, 4}), m = c.pick({3, 5}), kind = c.choose(NS, "value"), pos = c.choose(n * m + 1, "position"), it = c.pick({0, 1, 9}), jac = c.pick({0, 1, 3}); double tol = c.pick({1e-3, 0.0, -1.0}), mu = c.pick({1.0, 1e-200, 1e200});
    c.begin("denoise %dx%d %g at %d mu %g tol %g limits %d %d", n, m, SPECIAL[kind], pos, mu, tol, it, jac);
    Quiet q; Vec fv = poison(c, genv(n * m, 5), kind, pos); Buf f(fv), u(n * m, 9.0);
    int st = l1c_breg_anistropic_TV(n, m, u, f, mu, tol, it, jac); c.step(); post(c, 0, 0); c.check(2);
    if (!bits(f.vec(), fv)) c.fail("the image was modified"); if (st) c.fail("status %d", st);
    c.state(mc::mix(mc::mix(pos * NS + kind, n * 10 + m), mc::mix(it * 4 + jac, (int)log10(mu) * 3 + (tol > 0)))); c.outcome(st);
  });
  return mc::finish();
}
