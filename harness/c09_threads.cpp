// C09: every parallel loop gives the single-thread result for every team size and every interleaving.
#include "nprob.hpp"
#include "sched.hpp"
typedef std::vector<Vec> Out;
typedef std::function<Out()> Kernel;
struct TC { int m, l; };
static std::vector<TC> teams() {
  std::vector<TC> v; const int INF = 1 << 20;
  for (int k = 2; k <= 9; k++) v.push_back({k, INF});
  v.push_back({16, INF}); v.push_back({33, INF}); v.push_back({64, INF});
  for (int k = 1; k <= 7; k += 2) v.push_back({8, k});
  v.push_back({3, 2}); v.push_back({64, 5}); v.push_back({8, 2});
  return v;
}
static const std::vector<TC> TEAMS = teams();
static Out go(mc::Ctx& c, sched::Config k, const Kernel& f, const char* what, sched::Stats* keep = nullptr) {
  sched::start(k);
  Out o = f();
  sched::Stats s = sched::stop();
  c.step(s.switches + s.sync_ops + 1);
  if (s.deadlock) c.fail("%s: %s", what, s.what.c_str());
  if (keep) *keep = s;
  return o;
}
static void same(mc::Ctx& c, const Out& ref, const Out& got, double tol, const std::string& what) {
  for (size_t i = 0; i < ref.size(); i++) {
    double sc = 0; for (double v : ref[i]) if (std::isfinite(v)) sc = std::max(sc, fabs(v));
    for (size_t j = 0; j < ref[i].size(); j++) {
      c.check();
      if (!near(got[i][j], ref[i][j], tol * (sc + 1e-300))) c.fail("%s: output %zu element %zu of %zu is %.17g, one thread gives %.17g", what.c_str(), i, j, ref[i].size(), got[i][j], ref[i][j]);
    }
  }
}
// decide one kernel on one input for one team
static void decide(mc::Ctx& c, const Kernel& f, TC t, double tol, bool solver = false) {
  sched::Config k;
  Out ref = go(c, k, f, "one thread");
  char nm[80]; snprintf(nm, 80, "%d thread(s) offered, at most %d provided", t.m, t.l > 1000 ? t.m : t.l);
  k.max_threads = t.m; k.limit = t.l;
  k.mode = sched::ASC;
  sched::Stats st;
  Out a = go(c, k, f, nm, &st);
  bool conf = sched::conflicts_found(); std::string ct = sched::conflict_text();
  same(c, ref, a, tol, std::string(nm) + ", threads one after the other");
  k.mode = sched::DESC;
  same(c, ref, go(c, k, f, nm), tol, std::string(nm) + ", threads in reverse order");
  uint64_t h = mc::mix(mc::mix(t.m, t.l), st.regions * 1000003 + st.threads);
  for (auto& v : a) h = mc::hvals(v.data(), std::min<size_t>(v.size(), 16), h);
  c.state(h);
  c.outcome(mc::mix(mc::mix(st.regions, st.threads), conf));
  if (!conf) return;      // no two threads touch the same memory: every interleaving is equivalent to the one run
  k.mode = sched::RR;
  same(c, ref, go(c, k, f, nm), tol, std::string(nm) + ", switching at every conflicting access (" + ct + ")");
  if (solver || st.threads > 3) return;
  // the number of deviations from the default schedule is bounded so that all of them fit the budget;
  // inputs with very many conflicting accesses are left to the smaller inputs of the same kernel
  double pts = (double)(st.conflict_accesses + st.hot_sync + st.regions * st.threads) * (st.threads - 1), lim = mc::thorough() ? 20000 : 1500;
  if (pts > lim) return;
  k.mode = sched::EXPLORE;
  k.preemptions = pts * pts * pts / 6 <= lim ? 3 : pts * pts / 2 <= lim ? 2 : 1;
  k.choose = [&](int n) { return c.choose(n, "thread"); };
  Out e = go(c, k, f, nm);
  h = mc::mix(h, mc::hbytes(sched::schedule().data(), sched::schedule().size()));
  c.state(h);
  same(c, ref, e, tol, std::string(nm) + ", schedule " + sched::schedule() + " (" + ct + ")");
}
static Vec pos(Vec v) { for (double& x : v) x = fabs(x) + 0.01; return v; }
static BregFuncs BF;
static const char* MATHN[] = {"init_vec", "dxmuly_z", "daxpy_z", "daxpby_z", "daxpby", "dnorm1", "dsum", "dlogsum", "dnrm2_rel_err", "dnrm2_err", "max_vec", "abs_vec", "shrink1", "mxpy_z", "vcl_logsum", "vcl_dxMy_pz"};
static Out math(int k, int n) {
  Buf x(genv(n, 1)), y(genv(n, 2)), z((size_t)n, 7.5), p(pos(genv(n, 3)));
  double r = 0;
  switch (k) {
    case 0: l1c_init_vec(n, z, 3.25); break;
    case 1: l1c_dxmuly_z(n, x, y, z); break;
    case 2: l1c_daxpy_z(n, 1.5, x, y, z); break;
    case 3: l1c_daxpby_z(n, 1.5, x, -0.75, y, z); break;
    case 4: __l1c_daxpby(n, 1.5, x, -0.75, y); break;
    case 5: r = l1c_dnorm1(n, x); break;
    case 6: r = l1c_dsum(n, p); break;
    case 7: r = l1c_dlogsum(n, 1.25, p); break;
    case 8: r = n ? l1c_dnrm2_rel_err(n, x, y) : 0; break;
    case 9: r = l1c_dnrm2_err(n, x, y); break;
    case 10: r = n ? l1c_max_vec(n, x) : 0; break;
    case 11: l1c_abs_vec(n, x, y); break;
    case 12: BF.breg_shrink1(n, x, z, 0.7); break;
    case 13: BF.breg_mxpy_z(n, x, y, z); break;
    case 14: r = vcl_logsum(n, 1.25, p); break;
    case 15: vcl_dxMy_pz(n, x, y, z); break;
  }
  // r is judged against the sizes of the summands
  return {x.vec(), y.vec(), z.vec(), p.vec(), Vec{r, (double)(n + 1)}};
}
static const char* IMGN[] = {"Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy", "jacobi", "gauss_seidel", "rhs", "hess_inv_diag"};
static Out img(int k, int n, int m) {
  int N = n * m;
  Buf x(genv(N, 1)), z((size_t)N, 7.5), a(genv(N, 2)), b(genv(N, 3)), d(genv(N, 4)), e(genv(N, 5)), w1((size_t)N, 1.0), w2((size_t)N, 2.0);
  switch (k) {
    case 0: l1c_Dx(n, m, 0.7, x, z); break;
    case 1: l1c_DxT(n, m, 0.7, x, z); break;
    case 2: l1c_DxTDx(n, m, 0.7, x, z); break;
    case 3: l1c_Dy(n, m, 0.7, x, z); break;
    case 4: l1c_DyT(n, m, 0.7, x, z); break;
    case 5: l1c_DyTDy(n, m, 0.7, x, z); break;
    case 6: { Buf D(pos(genv(N, 6))); BF.breg_anis_jacobi(n, m, x, z, a, D, 0.3); break; }
    case 7: BF.breg_anis_guass_seidel(n, m, x, a, 1.2, 0.4); break;
    case 8: BF.breg_anis_rhs(n, m, x, a, b, d, e, z, 1.2, 0.4, w1, w2); w1.fill(0); w2.fill(0); break;
    case 9: BF.hess_inv_diag(n, m, 1.2, 0.4, z); break;
  }
  return {x.vec(), z.vec(), a.vec(), b.vec(), d.vec(), e.vec()};
}
static void spd(l1c_int n, double* x, double* y, void*) { for (int i = 0; i < n; i++) y[i] = (2.5 + i % 3) * x[i] - (i ? x[i - 1] : 0) - (i + 1 < n ? x[i + 1] : 0); }
static Out cg(int n, bool pre) {
  Buf x((size_t)n, 0.25), b(genv(n, 2)), mi(pos(genv(n, 8)));
  std::vector<std::unique_ptr<Buf>> o; std::vector<double*> w; for (int i = 0; i < 5; i++) { o.emplace_back(new Buf((size_t)n, 3.0)); w.push_back(o.back()->d); }
  l1c_CgResults r; memset(&r, 0, sizeof r); l1c_CgParams p; memset(&p, 0, sizeof p); p.max_iter = 400; p.tol = 1e-13; p.verbose = 0;
  if (pre) l1c_cgsolve_diag_precond(n, x, b, mi, w.data(), spd, nullptr, &r, p);
  else l1c_cgsolve(n, x, b, w.data(), spd, nullptr, &r, p);
  return {x.vec(), b.vec()};
}
struct Quiet { Live L; Quiet(const Cfg& g) : L(g) { L.setup(); } ~Quiet() { L.f.destroy(); } };
static Out applyop(const Cfg& g, const Ref& r, int o) {
  Quiet q(g);
  int in, out; opdims(r, o, in, out);
  Buf x(genv(in, 21)), y((size_t)out, 7.5);
  opf(q.L.f, o)(x, y);
  return {x.vec(), y.vec(), Vec{q.L.f.norm_W}};
}
static Out barrier(const Cfg& g) {
  Quiet q(g);
  int m = q.L.f.m, n = q.L.f.n;
  Buf x(genv(m, 41)), u((size_t)m), ax((size_t)n, 0.0), b((size_t)n), r((size_t)n), f1((size_t)m), f2((size_t)m), w1((size_t)m), dx((size_t)m), du((size_t)m), s1((size_t)m), s2((size_t)m), nt((size_t)m), gr((size_t)2 * m);
  for (int i = 0; i < m; i++) u.d[i] = fabs(x.d[i]) * 1.2 + 0.8;
  q.L.f.Ax(x, ax);
  Vec d = genv(n, 77); for (int i = 0; i < n; i++) b.d[i] = ax.d[i] + 0.1 * d[i];
  std::vector<std::unique_ptr<Buf>> o; std::vector<double*> w; for (int i = 0; i < 7; i++) { o.emplace_back(new Buf((size_t)std::max(m, n), 0.0)); w.push_back(o.back()->d); }
  l1c_l1qcProb P; memset(&P, 0, sizeof P);
  P.m = m; P.n = n; P.epsilon = 2 * nrm2(Vec(d)) * 0.1 + 0.01; P.tau = 3; P.ax_funs = q.L.f; P.b = b; P.r = r; P.fu1 = f1; P.fu2 = f2; P.w1p = w1; P.dx = dx; P.du = du; P.sig11 = s1; P.sig12 = s2; P.ntgu = nt; P.gradf = gr; P.DWORK7 = w.data();
  double f = _l1c_l1qc_f_eval(&P, x, u);
  l1c_CgParams cp; memset(&cp, 0, sizeof cp); cp.max_iter = 300; cp.tol = 1e-12; l1c_CgResults cr; memset(&cr, 0, sizeof cr);
  int st = _l1c_l1qc_descent_dir(&P, cp, &cr);
  double s = _l1c_l1qc_find_max_step(&P);
  return {Vec{f}, Vec{(double)st + 1}, Vec{s}, r.vec(), f1.vec(), f2.vec(), dx.vec(), du.vec(), s1.vec(), s2.vec(), nt.vec(), gr.vec(), x.vec(), u.vec()};
}
static Out nparts(const Cfg& g) {
  Quiet q(g); int m = q.L.f.m, n = q.L.f.n;
  Buf b(genv(n, 31)), x(genv(m, 41)), v((size_t)m, 0.0), gg(genv(m, 51));
  l1c_NestaOpts o = nopts(1e-2, 1e-3, 0.4, 3);
  l1c_NestaProb* p = _l1c_NestaProb_new(q.L.f); double bm = 0, bt = 0;
  int st = l1c_nesta_setup(p, &bm, &bt, b, q.L.f, &o);
  Out out; out.push_back({(double)st + 1}); out.push_back({bm}); out.push_back({bt});
  if (!st) {
    l1c_nesta_project(p, x, gg, v); out.push_back(v.vec());
    for (int i = 0; i < m; i++) p->xk[i] = x.d[i];
    l1c_nesta_feval(p); out.push_back({p->fx}); out.push_back(Vec(p->gradf, p->gradf + m));
  }
  l1c_free_nesta_problem(p);
  return out;
}
static double sphere(void* d, double* x) { l1c_int n = *(l1c_int*)d; double s = 0; for (int i = 0; i < n; i++) s += (1 + i % 4) * x[i] * x[i]; return s; }

int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  BF = breg_get_functions();
  bool th = mc::thorough();
  mc::explore("vector_kernels", [&](mc::Ctx& c) {
    int k = c.choose(16);
    static std::vector<int> L; if (L.empty()) { for (int i = 0; i <= (th ? 140 : 42); i++) L.push_back(i); for (int i : {63, 64, 65, 100, 127, 129, 200, 257, 513, 1000, 1024, 2049, 5003}) L.push_back(i); }
    int n = c.pick(L); TC t = c.pick(TEAMS);
    c.begin("%s of length %d", MATHN[k], n);
    decide(c, [&] { return math(k, n); }, t, 1e-12);
  });
  mc::explore("image_kernels", [&](mc::Ctx& c) {
    int k = c.choose(10); int lim = th ? 11 : 6;
    int s = c.choose(lim * lim + 8);
    static const int X[8][2] = {{2, 40}, {40, 2}, {17, 5}, {5, 17}, {16, 16}, {33, 9}, {40, 41}, {101, 100}};
    int n = s < lim * lim ? 2 + s / lim : X[s - lim * lim][0], m = s < lim * lim ? 2 + s % lim : X[s - lim * lim][1];
    TC t = c.pick(TEAMS);
    c.begin("%s of %dx%d", IMGN[k], n, m);
    decide(c, [&] { return img(k, n, m); }, t, 1e-13);
  });
  static std::vector<Cfg> ops; ops = l1_operators(true);
  for (auto& p : problems(true)) ops.push_back(p.g);
  mc::explore("operators", [&](mc::Ctx& c) {
    const Cfg& g = c.pick(ops); int o = c.choose(O_COUNT); TC t = c.pick(TEAMS);
    c.begin("%s of %s", OPN[o], g.str().c_str());
    RefOps R(g);
    decide(c, [&] { return applyop(g, R.r, o); }, t, 1e-12);
  });
  mc::explore("barrier_pieces", [&](mc::Ctx& c) {
    static const std::vector<Cfg> B = l1_operators(true);
    const Cfg& g = c.pick(B); TC t = c.pick(TEAMS);
    c.begin("functional, direction and step of %s", g.str().c_str());
    decide(c, [&] { return barrier(g); }, t, 1e-8);
  });
  mc::explore("nesta_pieces", [&](mc::Ctx& c) {
    static const std::vector<NProb> P = problems(true);
    const NProb& p = c.pick(P); TC t = c.pick(TEAMS);
    c.begin("set-up, projection, gradient of %s", p.g.str().c_str());
    decide(c, [&] { return nparts(p.g); }, t, 1e-9);
  });
  mc::explore("cg", [&](mc::Ctx& c) {
    int n = c.pick({1, 2, 3, 5, 8, 13, 31, 64}); bool pre = c.flip(); TC t = c.pick(TEAMS);
    c.begin("%s CG of size %d", pre ? "preconditioned" : "plain", n);
    decide(c, [&] { return cg(n, pre); }, t, 1e-9, true);
  });
  mc::explore("solvers", [&](mc::Ctx& c) {
    int k = c.choose(3); int s = c.choose(4); TC t = c.pick(TEAMS);
    c.begin("%s problem %d", k == 0 ? "TV denoising" : k == 1 ? "l1qc_dct" : "nesta", s);
    if (k == 0) {
      static const int X[4][2] = {{4, 4}, {3, 9}, {9, 3}, {8, 12}}; int n = X[s][0], m = X[s][1];
      decide(c, [&] { Buf f(genv(n * m, 5)), u((size_t)n * m, 0.0); int st = l1c_breg_anistropic_TV(n, m, u, f, 2.0, 1e-10, 60, 1); return Out{Vec{(double)st + 1}, u.vec(), f.vec()}; }, t, 1e-9, true);
    } else if (k == 1) {
      static const int X[4][2] = {{6, 1}, {3, 4}, {1, 9}, {5, 5}}; int n = X[s][0], m = X[s][1]; int N = n * m;
      std::vector<l1c_int> pix; for (int i = 0; i < N; i += 2) pix.push_back(i);
      Vec cf(N, 0.0); cf[0] = 3; cf[N / 2] = -2; Vec im = (n == 1 || m == 1 || s % 2 ? idct1(N) : idct2(n, m)).mul(cf);
      decide(c, [&] {
        Buf x((size_t)N, 0.0), b(pix.size(), 0.0); for (size_t i = 0; i < pix.size(); i++) b.d[i] = im[pix[i]];
        l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 0.05; o.mu = 10; o.lbtol = 1e-4; o.newton_tol = 1e-7; o.newton_max_iter = 60; o.cg_maxiter = 300; o.cg_tol = 1e-12; o.l1_tol = 0; o.verbose = 0;
        o.dct_mode = n == 1 || m == 1 || s % 2 ? dct1 : dct2;
        l1c_LBResult r = {0}; int st = l1qc_dct(n, m, x, (l1c_int)pix.size(), b, pix.data(), o, &r);
        return Out{Vec{(double)st + 1}, x.vec(), Vec{r.l1}};
      }, t, 1e-4, true);
    } else {
      static const std::vector<NProb> P = problems(false);
      const Cfg& g = P[s == 0 ? 4 : s == 1 ? 6 : s == 2 ? 12 : 13].g;
      decide(c, [&] { Quiet q(g); Buf b(genv(q.L.f.n, 31)), x((size_t)q.L.f.m, 0.0); int st = l1c_nesta(q.L.f.m, x, q.L.f.n, b, q.L.f, nopts(1e-2, 1e-5, 0.3, 4)); return Out{Vec{(double)st + 1}, x.vec()}; }, t, 1e-4, true);
    }
  });
  return mc::finish();
}
