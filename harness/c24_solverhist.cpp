// C24: a solver call's answer depends on its arguments only: every sequence of calls over a menu of solvers, against
// the answer of the same call in a fresh process.
#include "nprob.hpp"
#include <sys/wait.h>
#include <map>
extern "C" {
int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
}
struct Out { int status = 0; Vec res; std::string bad; };
struct Entry { std::string name; std::function<Out()> fn; bool fails; };
static l1c_L1qcOpts lopts(double eps, DctMode md, int ws, int verb) { l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = eps; o.mu = 10; o.lbtol = 0.1; o.newton_tol = 1e-3; o.newton_max_iter = 25; o.cg_tol = 1e-9; o.cg_maxiter = 100; o.dct_mode = md; o.warm_start_cg = ws; o.verbose = verb; o.cg_verbose = verb; return o; }
static void spd(l1c_int n, double* x, double* y, void*) { for (int i = 0; i < n; i++) y[i] = (3 + i) * x[i] + (i ? x[i - 1] : 0) + (i + 1 < n ? x[i + 1] : 0); }
static std::vector<Entry> menu(bool big) {
  std::vector<Entry> E;
  auto nesta = [&](Cfg g, double mu, double tol, double sg, int nc, int verb, double junk) {
    E.push_back({"nesta " + g.str(), [=] { Out o; Live L(g); if (L.setup()) { o.status = 1; return o; } Vec bv = genv(L.f.n, 3); Buf b(bv), x(L.f.m, junk); l1c_NestaOpts no = nopts(mu, tol, sg, nc); no.verbose = verb; o.status = l1c_nesta(L.f.m, x, L.f.n, b, L.f, no); o.res = x.vec(); if (!b.same(bv)) o.bad = "data modified"; L.f.destroy(); return o; }, false}); };
  auto small = [&] {
  nesta(mk_ortho(2, 5, 6), 1e-2, 1e-5, 0.1, 2, 0, 9); nesta(mk_dct(7, 1, dct1, {3, 0, 5}), 1e-1, 1e-3, 0.1, 5, 3, NAN);
  nesta(mk_tv(3, 4, dct2, analysis, 0.5, 2.0, {11, 2, 5}), 1e-1, 1e-4, 0.3, 1, 0, 0); nesta(mk_tv(4, 3, dct1, analysis, 0, 1, {1, 2, 9, 7}), 1e-1, 1e-4, 1e-3, 3, 1, -1);
  // same shapes as above, other pixels, weights, data scale or options
  nesta(mk_dct(7, 1, dct1, {6, 1, 2}), 1e-2, 1e-4, 0.01, 3, 0, 0); nesta(mk_tv(4, 3, dct1, analysis, 2, 0.5, {1, 2, 9, 7}), 1e-2, 1e-4, 0.5, 3, 0, 0);
  };
  if (!big) small(); else { auto F = [](int m) { return mask_family(m)[4]; }; nesta(mk_dct(64, 1, dct1, F(64)), 1e-1, 1e-3, 0.1, 2, 0, 9); nesta(mk_tv(9, 7, dct2, analysis, 0.5, 2.0, F(63)), 1e-1, 1e-3, 0.1, 2, 0, 0); nesta(mk_tv(7, 9, dct1, analysis, 1, 1, F(63)), 1e-1, 1e-3, 0.1, 1, 0, 0); nesta(mk_ortho(9, 20, 6), 1e-1, 1e-3, 0.1, 2, 0, 9); nesta(mk_dct(16, 16, dct2, F(256)), 1e-1, 1e-3, 0.1, 2, 0, 9); }
  auto newton = [&](Cfg g, int ws, double f) { E.push_back({"l1qc_newton " + g.str(), [=] { Out o; Live L(g); if (L.setup()) { o.status = 1; return o; } Ref R = make_ref(g); Vec x0 = genv(R.m, 31), bv = R.A.mul(x0); if (f > 1) for (double& t : x0) t *= f; Buf b(bv), x(x0); l1c_LBResult r = l1c_l1qc_newton(R.m, x, R.n, b, lopts(0.1 * nrm2(bv), dct1, ws, ws), L.f); o.status = r.status; o.res = x.vec(); o.res.push_back(r.l1); o.res.push_back(r.total_newton_iter); o.res.push_back(r.total_cg_iter); if (!b.same(bv)) o.bad = "data modified"; L.f.destroy(); return o; }, f > 1}); };
  if (big) { newton(mk_mat(8, 20, 8), 0, 1); newton(mk_dct(9, 8, dct2, mask_family(72)[4]), 2, 1); newton(mk_mat(20, 40, 9), 1, 50); } else
  { newton(mk_mat(2, 5, 8), 0, 1); newton(mk_dct(3, 3, dct2, {8, 3, 4, 0}), 2, 1); newton(mk_mat(3, 4, 9), 1, 50); newton(mk_mat(2, 5, 21), 1, 1); }
  auto ldct = [&](int r, int k, DctMode md, std::vector<int> pix, int ws) { E.push_back({"l1qc_dct", [=] { Out o; std::vector<int> p = pix; Vec bv = genv((int)p.size(), 8); Buf b(bv), x(r * k, 9.0); l1c_LBResult l; memset(&l, 0, sizeof l); o.status = l1qc_dct(r, k, x, (int)p.size(), b, p.data(), lopts(0.1 * nrm2(bv), md, ws, 0), &l); o.res = x.vec(); o.res.push_back(l.total_newton_iter); if (!b.same(bv) || p != pix) o.bad = "inputs modified"; return o; }, pix[0] < 0}); };
  if (big) { ldct(12, 12, dct1, mask_family(144)[4], 1); ldct(9, 8, dct2, mask_family(72)[8], 2); ldct(100, 1, dct1, mask_family(100)[4], 0); } else
  { ldct(5, 1, dct1, {3, 0}, 1); ldct(3, 4, dct2, {8, 3, 4, 0}, 2); ldct(3, 4, dct2, {-1, 3, 4, 0}, 0); ldct(3, 4, dct2, {1, 6, 10, 11}, 0); ldct(4, 3, dct1, {8, 3, 4, 0}, 0); }
  auto breg = [&](int n, int m, double tol, int it, int jac) { E.push_back({"denoise", [=] { Out o; Vec fv = genv(n * m, 5); Buf f(fv), u(n * m, NAN); o.status = l1c_breg_anistropic_TV(n, m, u, f, 2.0, tol, it, jac); if (!o.status) o.res = u.vec(); if (!f.same(fv)) o.bad = "image modified"; return o; }, n < 2}); };
  if (big) { breg(5, 5, 1e-3, 30, 2); breg(20, 17, 0, 7, 1); breg(17, 20, 1e-3, 30, 2); breg(64, 70, 1e-2, 5, 2); breg(70, 33, 0, 3, 1); return E; }
  breg(3, 4, 1e-3, 30, 2); breg(5, 2, 0, 7, 1); breg(1, 6, 0, 7, 1); breg(4, 3, 1e-3, 30, 2);
  for (int d = 0; d < 2; d++) E.push_back({d ? "cgsolve_diag_precond" : "cgsolve", [d] { Out o; int n = 6 + d; Vec bv = genv(n, 4), mi(n); for (int i = 0; i < n; i++) mi[i] = 1.0 / (3 + i); Buf b(bv), x(n, 0.0), w0(n, NAN), w1(n, NAN), w2(n, NAN), w3(n, NAN), w4(n, NAN), M(mi); double* dw[5] = {w0, w1, w2, w3, w4}; l1c_CgParams p; memset(&p, 0, sizeof p); p.tol = 1e-10; p.max_iter = 40; l1c_CgResults r; memset(&r, 0, sizeof r); int st = d ? l1c_cgsolve_diag_precond(n, x, b, M, dw, spd, nullptr, &r, p) : l1c_cgsolve(n, x, b, dw, spd, nullptr, &r, p); o.status = st; o.res = x.vec(); o.res.push_back(r.cgiter); return o; }, false});
  return E;
}
static int silent(const char*, ...) { return 0; }
// the answer in a fresh process
static std::map<int, Out> fresh;
static void fork_reference(const std::vector<Entry>& E, int e) {
  int fd[2]; if (pipe(fd)) _exit(3);
  pid_t p = fork();
  if (!p) { wrap_junk(0x7f); Out o = E[e].fn(); int n = (int)o.res.size(), b = !o.bad.empty(); (void)!write(fd[1], &o.status, 4); (void)!write(fd[1], &b, 4); (void)!write(fd[1], &n, 4); (void)!write(fd[1], o.res.data(), 8 * n); _exit(0); }
  close(fd[1]); Out o; int b = 0, n = 0; auto rd = [&](void* q, size_t k) { size_t t = 0; while (t < k) { ssize_t g = read(fd[0], (char*)q + t, k - t); if (g <= 0) return false; t += g; } return true; };
  if (!rd(&o.status, 4) || !rd(&b, 4) || !rd(&n, 4)) { o.bad = "the call made first in a fresh process died"; } else { o.res.resize(n); rd(o.res.data(), 8 * n); if (b) o.bad = "the call made first in a fresh process modified its inputs"; }
  close(fd[0]); waitpid(p, nullptr, 0); fresh[e] = o;
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(silent);
  static const size_t NE = menu(false).size();
  static const std::vector<Entry> E = [] { auto v = menu(false), w = menu(true); v.insert(v.end(), w.begin(), w.end()); return v; }();
  for (size_t e = 0; e < E.size(); e++) fork_reference(E, (int)e);
  static auto one = [](mc::Ctx& c, int e, int k, const char* how) {
    long lv = wrap_live(), lp = wrap_live_plans();
    Out o = E[e].fn(); c.step(); c.check(4); const Out& w = fresh[e];
    if (!w.bad.empty()) c.fail("%s: %s", E[e].name.c_str(), w.bad.c_str());
    if (wrap_error()) c.fail("call %d (%s)%s: %s", k, E[e].name.c_str(), how, wrap_error());
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("call %d (%s)%s leaves %ld blocks and %ld plans", k, E[e].name.c_str(), how, wrap_live() - lv, wrap_live_plans() - lp);
    if (!o.bad.empty()) c.fail("call %d (%s)%s: %s", k, E[e].name.c_str(), how, o.bad.c_str());
    if (o.status != w.status) c.fail("call %d (%s)%s returns %d, in a fresh process %d", k, E[e].name.c_str(), how, o.status, w.status);
    if ((E[e].fails) != (o.status != 0)) c.fail("call %d (%s) returns %d", k, E[e].name.c_str(), o.status);
    if (o.res.size() != w.res.size()) c.fail("harness");
    double s = 0; for (double t : w.res) if (fabs(t) < 1e6) s = std::max(s, fabs(t));
    for (size_t i = 0; i < w.res.size(); i++) if (!(fabs(o.res[i] - w.res[i]) <= 1e-12 * (1 + s)) && !(std::isnan(o.res[i]) && std::isnan(w.res[i]))) c.fail("call %d (%s)%s: element %zu of the answer is %.17g, in a fresh process %.17g", k, E[e].name.c_str(), how, i, o.res[i], w.res[i]);
  };
  mc::explore("sequences", [](mc::Ctx& c) {
    int len = mc::thorough() ? 4 : 3; std::vector<int> seq;
    for (int i = 0; i < len; i++) seq.push_back(c.choose((int)NE, "call"));
    c.begin("calls %s", istr(seq).c_str());
    wrap_reset(); wrap_junk(0x7f);
    uint64_t h = 3; for (int i = 0; i < len; i++) { one(c, seq[i], i, ""); h = mc::mix(h, seq[i]); c.state(h); }
    c.outcome(seq.back()); wrap_junk(-1);
  });
  // larger problems: every sequence over the larger entries and two of the small ones
  mc::explore("large", [](mc::Ctx& c) {
    int nb = (int)(E.size() - NE), len = mc::thorough() && !mc::is_asan() ? 3 : 2; std::vector<int> seq;
    for (int i = 0; i < len; i++) { int k = c.choose(nb + 3, "call"); seq.push_back(k < nb ? (int)NE + k : k == nb ? 0 : k == nb + 1 ? 11 : (int)NE - 4); }
    c.begin("large calls %s", istr(seq).c_str());
    wrap_reset(); wrap_junk(0x7f);
    uint64_t h = 3; for (int i = 0; i < len; i++) { one(c, seq[i], i, ""); h = mc::mix(h, seq[i]); c.state(h); }
    c.outcome(seq.back()); wrap_junk(-1);
  });
  // a call that runs out of memory at any point, between two others
  mc::explore("after_failure", [](mc::Ctx& c) {
    int a = c.choose((int)NE, "failing call"), b = c.choose((int)NE, "next call");
    c.begin("calls %d (out of memory) and %d", a, b);
    wrap_reset(); wrap_junk(0x7f); E[a].fn(); long N = wrap_requests();
    if (N == 0) c.prune();
    int k = c.choose((int)N, "request"); int st = c.choose(2, "sticky");
    wrap_reset(); wrap_arm(k + 1, st); E[a].fn(); c.step(); wrap_disarm();
    if (wrap_error()) c.fail("failing call: %s", wrap_error());
    wrap_reset(); wrap_junk(st ? 0x7f : 0x11);
    char how[64]; snprintf(how, 64, " after call %d failed at request %d", a, k + 1);
    one(c, b, 1, how); c.state(mc::mix(mc::mix(a, b), k * 2 + st)); c.outcome(b); wrap_junk(-1);
  });
  return mc::finish();
}
