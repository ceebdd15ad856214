#include "ops.hpp"
#include <climits>
extern "C" {
#include "nesta.h"
}
static Cfg live_cfg(int k) {
  Cfg g;
  if (k == 1) { g.mrow = 5; g.mcol = 1; g.pix = {3, 0}; }
  if (k == 2) { g.mrow = 2; g.mcol = 3; g.mode = dct2; g.pix = {5, 2, 0}; }
  if (k == 3) { g.kind = K_TV; g.mrow = 4; g.mcol = 3; g.mode = dct2; g.pix = {7, 2}; g.av = 0.5; g.ah = 2; }
  if (k == 4) { g.kind = K_TV; g.mrow = 3; g.mcol = 3; g.mode = dct1; g.bp = synthesis; g.pix = {8, 1}; g.av = 1; }
  if (k == 5) { g.kind = K_MAT; g.n = 2; g.m = 3; g.mat = {1, 2, 3, -4, 5, 0.5}; }
  return g;
}
static const char* LN[] = {"none", "dct1", "dct2", "dctTV analysis", "dctTV synthesis", "matrix"};
static void poke(mc::Ctx& c, Live& L, const RefOps& R) {
  for (int o = 0; o < O_COUNT; o++) for (int s = 0; s < 2; s++) {
    int in, out; opdims(R.r, o, in, out);
    run_op(c, L, R, o, genv(in, 3 + s), 1e-11);
  }
}
// set up the live set, run body (which makes one call), verify the live set
template <class F> static void with_live(mc::Ctx& c, int k, F body) {
  wrap_reset();
  long lv = wrap_live(), lp = wrap_live_plans();
  if (k == 0) { body(); if (wrap_error()) c.fail("%s", wrap_error()); if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("the call left %ld blocks and %ld plans allocated", wrap_live() - lv, wrap_live_plans() - lp); return; }
  Cfg g = live_cfg(k);
  RefOps R(g);
  Live L(g);
  if (L.setup()) c.fail("live set-up failed");
  struct D { Live& L; ~D() { L.f.destroy(); } };
  {
    D d{L};
    poke(c, L, R);
    long lv2 = wrap_live(), lp2 = wrap_live_plans();
    body();
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv2 || wrap_live_plans() != lp2) c.fail("the rejected call left %ld blocks and %ld plans allocated", wrap_live() - lv2, wrap_live_plans() - lp2);
    poke(c, L, R);
    L.inputs_intact(c);
  }
  if (wrap_error()) c.fail("%s", wrap_error());
  if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("destroying the live set left %ld blocks, %ld plans", wrap_live() - lv, wrap_live_plans() - lp);
}
// index lists of length max(n,1) around the boundary
static std::vector<int> idx_list(mc::Ctx& c, int n, int mtot, bool& bad) {
  int k = std::max(n, 1);
  std::vector<int> v(k);
  for (int i = 0; i < k; i++) v[i] = mtot > 0 ? i % mtot : 0;
  bad = false;
  int pos = c.choose(k + 1, "bad position");
  if (pos < k) {
    v[pos] = c.pick({-1, mtot, mtot + 1, INT_MAX, INT_MIN, mtot - 1}, "bad index");
    bad = v[pos] < 0 || v[pos] > mtot - 1;
    if (!bad) for (int i = 0; i < k; i++) if (i != pos && v[i] == v[pos]) c.prune();   // repeated pixel: not specified
  }
  return v;
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  wrap_junk(0xA5);
  static const std::vector<int> SZ{-2, -1, 0, 1, 2, 3, 4};
  mc::explore("dct", [](mc::Ctx& c) {
    int r = c.pick(SZ), k = c.pick(SZ), n = c.pick({-1, 0, 1, 2, 3});
    DctMode mode = c.flip() ? dct2 : dct1;
    bool badidx;
    auto pix = idx_list(c, n, r * k, badidx);
    if (r > 0 && k > 0 && n > r * k) c.prune();       // would need repeated pixels
    bool bad = r <= 0 || k <= 0 || n <= 0 || badidx;
    int lk = bad ? c.choose(6, "live") : 0;
    c.begin("dct n=%d %dx%d mode=%d pix=%s live=%s", n, r, k, mode, istr(pix).c_str(), LN[lk]);
    with_live(c, lk, [&] {
      auto p0 = pix;
      l1c_AxFuns f; memset(&f, 0x5a, sizeof f);
      int st = l1c_setup_dct_transforms(n, r, k, mode, pix.data(), &f);
      c.step(); c.check();
      if (pix != p0) c.fail("pixel list modified");
      if (bad && st != (int)L1C_INVALID_ARGUMENT) c.fail("invalid arguments: status %d", st);
      if (!bad && st) c.fail("valid arguments: status %d", st);
      if (!st) f.destroy();
      uint64_t h = mc::hbytes(pix.data(), pix.size() * 4); c.state(mc::mix(h, (((n + 9) * 31 + r + 9) * 31 + k + 9) * 13 + mode * 7 + lk)); c.outcome(mc::mix(st, bad));
    });
  });
  mc::explore("dctTV", [](mc::Ctx& c) {
    int r = c.pick(SZ), k = c.pick(SZ), n = c.pick({-1, 0, 1, 2});
    double av = c.pick({0.0, 1.0, -1.0, -1e-300}), ah = c.pick({0.0, 0.5, -0.5});
    DctMode mode = c.flip() ? dct2 : dct1;
    BpMode bp = c.flip() ? synthesis : analysis;
    bool badidx;
    std::vector<int> pix;
    if (av >= 0 && ah >= 0) pix = idx_list(c, n, r * k, badidx); else { pix.assign(std::max(n, 1), 0); if (n == 2) pix[1] = 1; badidx = false; }
    if (r > 0 && k > 0 && n > r * k) c.prune();
    bool bad = r <= 0 || k <= 0 || n <= 0 || badidx || av < 0 || ah < 0 || ((av > 0 || ah > 0) && (r <= 2 || k <= 2));
    int lk = bad ? c.choose(mc::thorough() ? 6 : 3, "live") : 0;
    if (!mc::thorough() && lk) lk = lk == 1 ? 3 : 4;
    c.begin("dctTV n=%d %dx%d av=%g ah=%g mode=%d bp=%d pix=%s live=%s", n, r, k, av, ah, mode, bp, istr(pix).c_str(), LN[lk]);
    with_live(c, lk, [&] {
      auto p0 = pix;
      l1c_AxFuns f; memset(&f, 0x5a, sizeof f);
      int st = l1c_setup_dctTV_transforms(n, r, k, av, ah, mode, bp, pix.data(), &f);
      c.step(); c.check();
      if (pix != p0) c.fail("pixel list modified");
      if (bad && st != (int)L1C_INVALID_ARGUMENT) c.fail("invalid arguments: status %d", st);
      if (!bad && st) c.fail("valid arguments: status %d", st);
      if (!st) f.destroy();
      uint64_t h = mc::hbytes(pix.data(), pix.size() * 4); c.state(mc::mix(mc::mix(h, (((n + 9) * 31 + r + 9) * 31 + k + 9) * 13 + mode * 7 + lk), mc::hbytes(&av, 8) ^ mc::hbytes(&ah, 8, 5) ^ bp)); c.outcome(mc::mix(st, bad));
    });
  });
  // all live kinds for one representative of each rejected class
  mc::explore("dctTV_live_kinds", [](mc::Ctx& c) {
    int lk = c.choose(6);
    struct Bad { int n, r, k; double av, ah; int p; } B[] = {{0, 3, 3, 0, 0, 0}, {1, 0, 3, 0, 0, 0}, {1, 3, -1, 0, 0, 0}, {1, 9, 9, -1, 0, 0}, {1, 9, 9, 0, -1, 0}, {1, 2, 9, 1, 0, 0}, {1, 9, 2, 0, 1, 0}, {1, 7, 5, 0.5, 0.5, 35}, {1, 7, 5, 0, 0, -1}};
    int b = c.choose(9); DctMode mode = c.flip() ? dct2 : dct1; BpMode bp = c.flip() ? synthesis : analysis;
    int reps = 1 + c.choose(2);
    c.begin("rejected dctTV %dx%d n=%d av=%g ah=%g idx=%d, %d times, live=%s", B[b].r, B[b].k, B[b].n, B[b].av, B[b].ah, B[b].p, reps, LN[lk]);
    with_live(c, lk, [&] {
      for (int i = 0; i < reps; i++) {
        l1c_AxFuns f; memset(&f, 0x5a, sizeof f);
        int st = l1c_setup_dctTV_transforms(B[b].n, B[b].r, B[b].k, B[b].av, B[b].ah, mode, bp, &B[b].p, &f);
        c.step(); c.check();
        if (st != (int)L1C_INVALID_ARGUMENT) c.fail("status %d", st);
      }
      c.state(lk * 1000 + b * 10 + reps);
    });
  });
  mc::explore("matrix", [](mc::Ctx& c) {
    int n = c.pick(SZ), m = c.pick(SZ);
    bool bad = n <= 0 || m <= 0;
    int lk = bad ? c.choose(6) : 0;
    c.begin("matrix n=%d m=%d live=%s", n, m, LN[lk]);
    with_live(c, lk, [&] {
      Buf A(genv(16, 1));
      l1c_AxFuns f; memset(&f, 0x5a, sizeof f);
      int st = l1c_setup_matrix_transforms(n, m, A, &f);
      c.step(); c.check();
      if (bad && st != (int)L1C_INVALID_ARGUMENT) c.fail("invalid arguments: status %d", st);
      if (!bad && st) c.fail("valid arguments: status %d", st);
      if (!st) f.destroy();
      c.state((n + 5) * 100 + (m + 5) * 10 + lk); c.outcome(mc::mix(st, bad));
    });
  });
  mc::explore("nesta_lengths", [](mc::Ctx& c) {
    int lk = 1 + c.choose(5);
    Cfg g = live_cfg(lk); Ref r = make_ref(g);
    int dm = c.pick({-3, -1, 0, 1, 5}), dn = c.pick({-2, -1, 0, 1, 4});
    int zero = c.choose(3);
    int m = zero == 1 ? 0 : zero == 2 ? -1 : r.m + dm, n = r.n + dn;
    if (m == r.m && n == r.n) c.prune();
    c.begin("nesta m=%d n=%d with live %s (m=%d n=%d)", m, n, LN[lk], r.m, r.n);
    RefOps R(g); Live L(g);
    wrap_reset();
    if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } d{L};
    Vec x0 = genv(64, 5), b0 = genv(64, 6);
    Buf x(x0), b(b0);
    l1c_NestaOpts o{}; o.mu = 1e-2; o.tol = 1e-2; o.sigma = 0.1; o.n_continue = 2;
    long lv = wrap_live();
    int st = l1c_nesta(m, x, n, b, L.f, o);
    c.step(); c.check();
    if (st != (int)L1C_INVALID_ARGUMENT) c.fail("status %d for mismatching lengths", st);
    if (!x.same(x0) || !b.same(b0)) c.fail("rejected call wrote to its vectors");
    if (wrap_live() != lv) c.fail("rejected call left %ld blocks", wrap_live() - lv);
    poke(c, L, R);
    c.state(lk * 10000 + (m + 9) * 100 + n); c.outcome(st);
  });
  // a transform set without the operators NESTA needs
  mc::explore("nesta_missing_ops", [](mc::Ctx& c) {
    int lk = 1 + c.choose(5); int miss = 1 + c.choose(15);
    c.begin("nesta with missing operator mask %d, live %s", miss, LN[lk]);
    Cfg g = live_cfg(lk); RefOps R(g); Live L(g);
    wrap_reset();
    if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } d{L};
    l1c_AxFuns f = L.f;
    if (miss & 1) f.Wz = nullptr; if (miss & 2) f.Wtx = nullptr; if (miss & 4) f.Rx = nullptr; if (miss & 8) f.Rty = nullptr;
    Vec x0 = genv(R.r.m, 5), b0 = genv(R.r.n, 6);
    Buf x(x0), b(b0);
    l1c_NestaOpts o{}; o.mu = 1e-2; o.tol = 1e-2; o.sigma = 0.1; o.n_continue = 2;
    long lv = wrap_live();
    int st = l1c_nesta(R.r.m, x, R.r.n, b, f, o);
    c.step(); c.check();
    if (st != (int)L1C_INCONSISTENT_ARGUMENTS) c.fail("status %d", st);
    if (!x.same(x0) || !b.same(b0)) c.fail("rejected call wrote to its vectors");
    if (wrap_live() != lv) c.fail("rejected call left %ld blocks", wrap_live() - lv);
    poke(c, L, R);
    c.state(lk * 100 + miss); c.outcome(st);
  });
  mc::explore("l1qc_dct", [](mc::Ctx& c) {
    int r = c.pick(SZ), k = c.pick(SZ), n = c.pick({-1, 0, 1, 2});
    DctMode mode = c.flip() ? dct2 : dct1;
    bool badidx;
    auto pix = idx_list(c, n, r * k, badidx);
    if (r > 0 && k > 0 && n > r * k) c.prune();
    bool bad = r <= 0 || k <= 0 || n <= 0 || badidx;
    c.begin("l1qc_dct n=%d %dx%d mode=%d pix=%s", n, r, k, mode, istr(pix).c_str());
    wrap_reset();
    long lv = wrap_live(), lp = wrap_live_plans();
    Vec x0 = genv(std::max(1, std::abs(r * k)), 5), b0 = genv(8, 6);
    Buf x(x0), b(b0); auto p0 = pix;
    l1c_L1qcOpts o{}; o.epsilon = 0.1; o.mu = 10; o.lbtol = 1e-2; o.newton_tol = 1e-2; o.newton_max_iter = 15; o.l1_tol = 0; o.cg_tol = 1e-8; o.cg_maxiter = 50; o.dct_mode = mode;
    l1c_LBResult res{};
    int st = l1qc_dct(r, k, x, n, b, pix.data(), o, &res);
    c.step(); c.check();
    if (bad && st == 0) c.fail("invalid arguments accepted");
    if (!bad && st) c.fail("valid arguments: status %d", st);
    if (bad && !x.same(x0)) c.fail("rejected call wrote to its output");
    if (!b.same(b0) || pix != p0) c.fail("inputs modified");
    if (!x.guards_ok() || !b.guards_ok()) c.fail("wrote outside its vectors");
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("call left %ld blocks", wrap_live() - lv);
    c.state((((n + 9) * 31 + r + 9) * 31 + k + 9) * 13 + mode * 7 + mc::hbytes(pix.data(), pix.size() * 4)); c.outcome(mc::mix(st, bad));
  });
  // one bad index at every position of longer pixel lists
  mc::explore("long_masks", [](mc::Ctx& c) {
    auto sz = c.pick(std::vector<std::pair<int, int>>{{17, 1}, {1, 64}, {10, 13}, {300, 1}, {20, 35}}, "size"); int R = sz.first, C = sz.second, mt = R * C;
    int which = c.choose(4, "set-up"), half = c.choose(2, "half mask"), order = c.choose(2, "order");
    if (which == 1 && (R < 3 || C < 3)) c.prune();
    std::vector<int> pix; for (int i = 0; i < mt; i++) if (!half || i % 2 == 0) pix.push_back(i);
    if (order) std::reverse(pix.begin(), pix.end());
    int pos = c.choose((int)pix.size() + 1, "bad position"), val = pos < (int)pix.size() ? c.pick({-1, mt, mt + 1, INT_MIN, INT_MAX}, "bad index") : 0;
    if (mc::is_asan() && mt > 200 && val != mt) c.prune();
    if (pos == (int)pix.size() && (which == 2 || mt > 200)) c.prune();      // valid lists: the set-ups are exercised elsewhere
    c.begin("%dx%d set-up %d, %zu pixels, position %d holds %d", R, C, which, pix.size(), pos, val);
    bool bad = pos < (int)pix.size(); if (bad) pix[pos] = val;
    auto p0 = pix; int n = (int)pix.size();
    wrap_reset(); long lv = wrap_live(), lp = wrap_live_plans();
    l1c_AxFuns f; memset(&f, 0x5a, sizeof f); int st;
    if (which == 0) st = l1c_setup_dct_transforms(n, R, C, order ? dct2 : dct1, pix.data(), &f);
    else if (which == 1) st = l1c_setup_dctTV_transforms(n, R, C, 0.5, 1.5, order ? dct2 : dct1, half ? synthesis : analysis, pix.data(), &f);
    else if (which == 3) st = l1c_setup_dctTV_transforms(n, R, C, 0, 0, order ? dct2 : dct1, half ? synthesis : analysis, pix.data(), &f);
    else {
      Vec b0 = genv(n, 6); Buf x((size_t)mt, 3.25), b(b0);
      l1c_L1qcOpts o{}; o.epsilon = 0.1; o.mu = 10; o.lbtol = 1e-2; o.newton_tol = 1e-2; o.newton_max_iter = 15; o.cg_tol = 1e-8; o.cg_maxiter = 50; o.dct_mode = order ? dct2 : dct1;
      l1c_LBResult res{}; st = l1qc_dct(R, C, x, n, b, pix.data(), o, &res);
      for (int i = 0; i < mt; i++) if (x.d[i] != 3.25) c.fail("rejected call wrote to its output");
      if (!b.same(b0) || !x.guards_ok()) c.fail("inputs modified");
    }
    c.step(); c.check(3);
    if (pix != p0) c.fail("pixel list modified");
    if (bad && (which == 2 ? st == 0 : st != (int)L1C_INVALID_ARGUMENT)) c.fail("status %d although pixel %d of %d is %d", st, pos, n, val);
    if (!bad && st) c.fail("valid arguments: status %d", st);
    if (!st) f.destroy();
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("the call left %ld blocks and %ld plans allocated", wrap_live() - lv, wrap_live_plans() - lp);
    c.state(mc::hbytes(pix.data(), pix.size() * 4, which)); c.outcome(st);
  });
  mc::explore("breg", [](mc::Ctx& c) {
    int r = c.pick(SZ), k = c.pick(SZ), it = c.choose(3), jac = c.choose(3);
    bool bad = r < 2 || k < 2;
    c.begin("breg %dx%d max_iter=%d sweeps=%d", r, k, it, jac);
    wrap_reset();
    long lv = wrap_live();
    int N = std::max(1, std::abs(r * k));
    Vec u0 = genv(N, 5), f0 = genv(N, 6);
    Buf u(u0), f(f0);
    int st = l1c_breg_anistropic_TV(r, k, u, f, 2.0, 1e-3, it, jac);
    c.step(); c.check();
    if (bad && st != (int)L1C_INVALID_ARGUMENT) c.fail("invalid size: status %d", st);
    if (!bad && st) c.fail("valid size: status %d", st);
    if (bad && !u.same(u0)) c.fail("rejected call wrote to its output");
    if (!f.same(f0)) c.fail("input image modified");
    if (!u.guards_ok() || !f.guards_ok()) c.fail("wrote outside its vectors");
    if (wrap_live() != lv) c.fail("call left %ld blocks", wrap_live() - lv);
    c.state((r + 9) * 1000 + (k + 9) * 100 + it * 10 + jac); c.outcome(mc::mix(st, bad));
  });
  return mc::finish();
}
