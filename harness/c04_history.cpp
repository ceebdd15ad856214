#include "ops.hpp"
#include "bigops.hpp"
static std::vector<Cfg> configs() {
  std::vector<Cfg> v;
  auto dct = [&](Kind k, int r, int c, DctMode m, std::vector<int> p, double av = 0, double ah = 0, BpMode bp = analysis) {
    Cfg g; g.kind = k; g.mrow = r; g.mcol = c; g.mode = m; g.pix = p; g.av = av; g.ah = ah; g.bp = bp; v.push_back(g); };
  dct(K_DCT, 5, 1, dct1, {4, 0, 2});
  dct(K_DCT, 6, 1, dct1, {1, 3});
  dct(K_DCT, 2, 3, dct2, {5, 1, 2});
  dct(K_DCT, 3, 2, dct2, {0, 3, 4, 5});
  dct(K_TV, 3, 3, dct2, {8, 2, 4}, 0.5, 0);
  dct(K_TV, 3, 4, dct1, {7, 0, 11, 3}, 0, 1.5);
  dct(K_TV, 3, 3, dct2, {1, 4, 6}, 2, 0.25, synthesis);
  dct(K_TV, 4, 3, dct1, {3, 10}, 0.75, 0.75);
  dct(K_TV, 2, 2, dct2, {3, 1}, 0, 0, synthesis);
  auto mat = [&](int n, int m, int salt) { Cfg g; g.kind = K_MAT; g.n = n; g.m = m; for (int i = 0; i < n * m; i++) g.mat.push_back(gen(i, salt)); v.push_back(g); };
  mat(2, 4, 1); mat(4, 2, 2); mat(3, 3, 3);
  return v;
}
static const double TOL = 1e-11;
static Vec input_for(int in, int which, const Vec& last) {
  if (which == 0) return genv(in, 71 + in);
  if (which == 1) { Vec e(in, 0.0); e[in - 1] = -1.75; return e; }
  if ((int)last.size() == in) return last;          // chain: result of the previous operator
  return Vec(in, 0.5);
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  wrap_junk(0xA5);
  static std::vector<Cfg> C = configs();
  static std::vector<RefOps> R;
  for (auto& g : C) R.emplace_back(g);
  // every operator sequence on one live set
  mc::explore("op_sequences", [&](mc::Ctx& c) {
    int k = c.choose((int)C.size());
    const Cfg& g = C[k];
    int depth = mc::thorough() ? 4 : 3;
    if (mc::is_asan()) depth--;
    int o1 = c.choose(O_COUNT), i1 = c.choose(3);
    int o2 = c.choose(O_COUNT), i2 = c.choose(3);
    c.begin("%s: %s(%d) %s(%d)", g.str().c_str(), OPN[o1], i1, OPN[o2], i2);
    Live L(g);
    long lv = wrap_live();
    if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } d{L};
    uint64_t h = mc::hbytes(&k, sizeof k);
    Vec last;
    for (int s = 0; s < depth; s++) {
      int o = s == 0 ? o1 : s == 1 ? o2 : c.choose(O_COUNT, "op");
      int w = s == 0 ? i1 : s == 1 ? i2 : c.choose(3, "input");
      if (s >= 2) c.note(" %s(%d)", OPN[o], w);
      int in, out; opdims(R[k].r, o, in, out);
      double garbage = (s & 1) ? -3e5 : 0.0;
      last = run_op(c, L, R[k], o, input_for(in, w, last), TOL, garbage);
      h = mc::mix(h, o * 3 + w);
      c.state(mc::mix(h, mc::hvals(last.data(), std::min<size_t>(last.size(), 4))));
    }
    L.inputs_intact(c);
    c.outcome(mc::hvals(last.data(), last.size()));
    (void)lv;
  });
  // every sequence of set-up / use / destroy cycles over all kinds, with rejected set-ups in between
  mc::explore("setup_cycles", [&](mc::Ctx& c) {
    int depth = mc::thorough() ? 4 : 3;
    if (mc::is_asan()) depth = 2;
    std::vector<int> seq, use, ev;
    for (int s = 0; s < depth; s++) { seq.push_back(c.choose((int)C.size())); }
    for (int s = 0; s + 1 < depth; s++) { use.push_back(c.choose(3)); ev.push_back(s == 0 ? c.choose(4) : 0); }
    std::string d;
    for (int s = 0; s < depth; s++) { d += C[seq[s]].str() + (s + 1 < depth ? " use" + std::to_string(use[s]) + " ev" + std::to_string(ev[s]) + "; " : ""); }
    c.begin("%s", d.c_str());
    wrap_reset();
    long lv = wrap_live(), lp = wrap_live_plans();
    uint64_t h = 1;
    for (int s = 0; s < depth; s++) {
      const Cfg& g = C[seq[s]];
      const RefOps& Rf = R[seq[s]];
      Live L(g);
      if (L.setup()) c.fail("set-up %d failed", s);
      c.step();
      struct D { Live& L; ~D() { L.f.destroy(); } } dd{L};
      check_header(c, L.f, Rf.r);
      bool lastone = s + 1 == depth;
      if (lastone) {
        for (int o = 0; o < O_COUNT; o++) for (int w = 0; w < 3; w++) {
          int in, out; opdims(Rf.r, o, in, out);
          Vec y = run_op(c, L, Rf, o, input_for(in, w, {}), TOL, w ? 0.0 : 1e6);
          h = mc::mix(h, mc::hvals(y.data(), y.size()));
        }
      } else {
        for (int o = 0; o < O_COUNT; o++) {
          if (use[s] == 0) break;
          if (use[s] == 2 && (o & 1)) continue;
          int in, out; opdims(Rf.r, o, in, out);
          run_op(c, L, Rf, o, input_for(in, 0, {}), TOL);
        }
        if (ev[s] == 1) { l1c_AxFuns f; int p = 99; l1c_setup_dctTV_transforms(1, 3, 3, 1, 1, dct2, analysis, &p, &f); }
        if (ev[s] == 2) { l1c_AxFuns f; int p = 0; l1c_setup_dct_transforms(0, 4, 4, dct2, &p, &f); l1c_setup_matrix_transforms(0, 2, nullptr, &f); }
        if (ev[s]) for (int o = 0; o < O_COUNT; o++) { int in, out; opdims(Rf.r, o, in, out); run_op(c, L, Rf, o, input_for(in, 1, {}), TOL); }
      }
      L.inputs_intact(c);
      c.state(mc::mix(h, s * 1000 + seq[s]));
      if (!lastone && ev[s] == 3) { // a complete l1qc_dct run between two sets
        dd.L.f.destroy();
        // rebuild so that the guard's destroy stays balanced
        Buf b(Vec{1.0, -0.5}); Buf xo(6); int p[2] = {4, 1};
        l1c_L1qcOpts o{}; o.epsilon = 0.1; o.mu = 10; o.lbtol = 1e-2; o.newton_tol = 1e-2; o.newton_max_iter = 20; o.l1_tol = 0; o.cg_tol = 1e-8; o.cg_maxiter = 50; o.dct_mode = dct2;
        l1c_LBResult res{};
        int st = l1qc_dct(3, 2, xo, 2, b, p, o, &res);
        if (st) c.fail("l1qc_dct between sets returned %d", st);
        if (L.setup()) c.fail("set-up after l1qc_dct failed");
      }
    }
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("%ld blocks and %ld plans left after all sets were destroyed", wrap_live() - lv, wrap_live_plans() - lp);
    c.outcome(h);
  });
  static std::vector<Cfg> G;
  {
    auto add = [&](Kind k, int r, int cc, DctMode m, double av = 0, double ah = 0, BpMode bp = analysis) { Cfg g; g.kind = k; g.mrow = r; g.mcol = cc; g.mode = m; g.pix = mask_family(r * cc)[9]; g.av = av; g.ah = ah; g.bp = bp; G.push_back(g); };
    add(K_DCT, 100, 1, dct1); add(K_DCT, 12, 11, dct2); add(K_TV, 9, 16, dct2, 0.5, 1.5); add(K_TV, 16, 9, dct1, 0.5, 0, synthesis); add(K_TV, 20, 7, dct2, 0, 2, synthesis); add(K_DCT, 3, 2, dct2); add(K_DCT, 1, 128, dct1); add(K_TV, 17, 16, dct1, 3, 0.1);
  }
  // larger signals: every ordered pair of operators, inputs chained; every ordered pair of configurations
  mc::explore("large_pairs", [&](mc::Ctx& c) {
    int k = c.choose((int)G.size()), o1 = c.choose(O_COUNT), o2 = c.choose(O_COUNT), chain = c.choose(2);
    if (mc::is_asan() && (G[k].mrow * G[k].mcol > 150 || chain)) c.prune();
    c.begin("large %s: %s, %s%s", G[k].str().c_str(), OPN[o1], OPN[o2], chain ? " chained" : "");
    static std::vector<std::unique_ptr<BigRef>> BR(G.size()); if (!BR[k]) BR[k].reset(new BigRef(G[k])); BigRef& B = *BR[k];
    Live L(G[k]); if (L.setup()) c.fail("set-up failed");
    struct D { Live& L; ~D() { L.f.destroy(); } } d{L};
    Vec last; int os[3] = {o1, o2, o1};
    for (int s = 0; s < 3; s++) {
      int in, out; opdims(B.h, os[s], in, out);
      Vec x = chain && (int)last.size() == in ? last : genv(in, 71 + s);
      Buf bx(x), by((size_t)out, s & 1 ? -3e5 : NAN);
      opf(L.f, os[s])(bx, by); c.step(); c.check(2);
      if (!bx.same(x) || !bx.guards_ok() || !by.guards_ok()) c.fail("%s changed its input or memory around its vectors", OPN[os[s]]);
      Vec want = B.apply(os[s], x); int b = cmpv(by, want, 1e-11, nrm2(x));
      if (b >= 0) c.fail("call %d, %s: element %d is %.15g, the documented matrix gives %.15g", s, OPN[os[s]], b, by.d[b], want[b]);
      last = want;
    }
    L.inputs_intact(c); c.state(mc::mix(mc::hvals(last.data(), std::min<size_t>(last.size(), 6)), k * 1000 + o1 * 30 + o2 * 2 + chain)); c.outcome(k);
  });
  mc::explore("large_cycles", [&](mc::Ctx& c) {
    int a = c.choose((int)G.size()), b = c.choose((int)G.size());
    c.begin("large %s, then %s, then the first again", G[a].str().c_str(), G[b].str().c_str());
    check_big(c, G[a], 1e-11); check_big(c, G[b], 1e-11); check_big(c, G[a], 1e-11);
  });
  return mc::finish();
}
