// C14: reconstruction from sampled pixels, the public entry point.
#include "l1ref.hpp"
#include "bigops.hpp"
extern "C" int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
struct Call { int r, k; DctMode mode; std::vector<int> pix; int dk, ek, off, key; Vec b; double eps, un = 1; };
static std::vector<std::pair<int, int>> SH;
static std::vector<int> bits(unsigned v, int m) { return subset_of(v, m); }
static void data(Call& q) {
  Cfg g = mk_dct(q.r, q.k, q.mode, q.pix); Ref R = make_ref(g); int m = q.r * q.k, n = (int)q.pix.size();
  Vec x = genv(m, 31); if (q.dk == 1) for (int i = 0; i < m; i++) if (i % 3) x[i] = 0;
  if (q.dk == 2) for (double& t : x) t *= 200;
  q.b = R.A.mul(x);
  double nb = nrm2(q.b);
  if (q.dk == 3) { q.b.assign(n, 0.0); q.eps = 0.1; return; }
  if (!(nb > 1e-6)) { q.b[0] = 1; nb = nrm2(q.b); }
  q.eps = nb * (q.ek == 0 ? 0.1 : q.ek == 1 ? 1e-3 : 1.5);
}
static l1c_L1qcOpts opts(double eps) {
  l1c_L1qcOpts o; memset(&o, 0, sizeof o);
  o.epsilon = eps; o.mu = 10; o.lbtol = 1e-3; o.newton_tol = 1e-7; o.newton_max_iter = 80; o.l1_tol = 0; o.cg_tol = 1e-9; o.cg_maxiter = 400;
  return o;
}
static const double MARK = 123456.75;
struct Res { int st; Vec x; l1c_LBResult r; };
static Res call(mc::Ctx& c, const Call& q, l1c_L1qcOpts o) {
  int m = q.r * q.k, n = (int)q.pix.size();
  std::vector<int> pix = q.pix; o.dct_mode = q.mode;
  Buf x(m, MARK), b(q.b, q.off);
  Res z; memset(&z.r, 0xee, sizeof z.r);
  wrap_reset(); wrap_junk(0x7f); long lv = wrap_live(), lp = wrap_live_plans();
  z.st = l1qc_dct(q.r, q.k, x, n, b, pix.data(), o, &z.r);
  wrap_junk(-1); c.step(); c.check(4);
  z.x = x.vec();
  if (wrap_error()) c.fail("%s", wrap_error());
  if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("%ld blocks, %ld plans leaked", wrap_live() - lv, wrap_live_plans() - lp);
  if (!b.same(q.b) || !b.guards_ok()) c.fail("the measurements were modified");
  if (pix != q.pix) c.fail("the pixel list was modified");
  if (!x.guards_ok()) c.fail("wrote outside the image");
  return z;
}
static double worst = 0;
static void judge(mc::Ctx& c, const Call& q, const l1c_L1qcOpts& o, const Res& z, bool optimal) {
  if (z.st) c.fail("returned %d for a valid problem", z.st);
  if (z.r.status) c.fail("result status %d with return value 0", z.r.status);
  if (!allfinite(z.x)) c.fail("image is not finite");
  Cfg g = mk_dct(q.r, q.k, q.mode, q.pix); static std::map<std::string, Ref> rc; Ref& R = rc[g.str()]; if (!R.A.r) R = make_ref(g);
  int m = q.r * q.k;
  ld rs = 0; for (size_t i = 0; i < q.pix.size(); i++) { ld d = (ld)z.x[q.pix[i]] - q.b[i]; rs += d * d; }
  c.check(3);
  if (!(sqrtl(rs) <= q.eps * (1 + 1e-7) + 1e-12 * nrm2(q.b))) c.fail("sampled pixels differ from the measurements by %.12Lg, epsilon is %.12g", sqrtl(rs), q.eps);
  Vec co = R.M.T().mul(z.x); double l1 = nrm1(co);
  if (!(fabs(l1 - z.r.l1) <= 1e-9 * (l1 + nrm2(z.x)))) c.fail("reported 1-norm %.15g, the image's coefficients have %.15g", z.r.l1, l1);
  if (optimal) {
    static std::map<int, double> cache; auto it = cache.find(q.key); double ref;
    if (it != cache.end()) ref = it->second;
    else { Vec b1 = q.b; for (double& t : b1) t /= q.un; ref = cache[q.key] = (double)l1_reference(R.A, b1, q.eps / q.un, least_norm(R.A, b1), 1e-9L * (1 + nrm1(b1))).val; }
    ref *= q.un;
    double gap = o.mu * o.lbtol, ex = (l1 - ref) / gap; worst = std::max(worst, ex);
    if (!(ex <= 1.25 + 1e-6 * ref / gap)) c.fail("coefficient 1-norm %.12g exceeds the minimum %.12g by %.3g; the requested accuracy allows %.3g", l1, ref, l1 - ref, gap);
    if (l1 < ref - 1e-6 * (q.un + ref)) c.fail("coefficient 1-norm %.12g is below the minimum %.12g", l1, ref);
  }
  c.state(mc::hvals(z.x.data(), m)); c.outcome(mc::hvals(&l1, 1));
}
static void one(mc::Ctx& c, Call& q, bool lean) {
  q.dk = c.choose(4, "data"); q.ek = c.choose(3, "epsilon"); q.off = c.pick({0, 1, 3});
  if (lean && (q.off == 1 || q.dk == 2 || q.ek == 2)) c.prune();
  if (q.off && q.dk == 0) c.prune();
  if (q.dk == 3 && q.ek) c.prune();
  data(q);
  q.un = c.pick({1.0, 1e-5, 1e-10, 1e3}, "unit");
  if (q.un != 1) { if (mc::is_asan() || lean || q.dk > 1 || q.off == 3 || q.r * q.k > 12) c.prune(); for (double& t : q.b) t *= q.un; q.eps *= q.un; }
  c.begin("%dx%d %s pix=%s b=%s eps=%g b misaligned by %d doubles", q.r, q.k, q.mode == dct1 ? "dct1" : "dct2", istr(q.pix).c_str(), vstr(q.b, 6).c_str(), q.eps, q.off);
  std::string ks = c.desc.substr(0, c.desc.find(" b misaligned")); q.key = (int)mc::hbytes(ks.data(), ks.size());
  l1c_L1qcOpts o = opts(q.eps); if (nrm1(q.b) > 200 * q.un) o.lbtol *= 10;
  if (q.un != 1) { o.lbtol *= q.un; o.newton_tol *= q.un; o.newton_max_iter = q.un > 1 ? 20000 : 400; o.cg_maxiter = 2000; }
  judge(c, q, o, call(c, q, o), true);
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  bool T = mc::thorough();
  // every non-empty subset of the pixels of every small shape
  static std::vector<std::pair<int, int>> small{{1, 1}, {1, 4}, {4, 1}, {5, 1}, {2, 2}, {2, 3}, {3, 2}};
  if (T) { small.push_back({1, 7}); small.push_back({2, 4}); small.push_back({4, 2}); }
  mc::explore("subsets", [](mc::Ctx& c) {
    auto s = c.pick(small, "shape"); Call q; q.r = s.first; q.k = s.second; int m = q.r * q.k;
    q.mode = c.pick({dct1, dct2}); q.pix = bits(1 + c.choose((1 << m) - 1, "mask"), m);
    one(c, q, true);
  });
  mc::explore("shapes", [T](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> big{{1, 9}, {11, 1}, {3, 3}, {3, 4}, {4, 3}, {4, 4}, {2, 7}, {5, 3}, {1, 16}, {5, 5}, {3, 7}};
    auto s = c.pick(big, "shape"); Call q; q.r = s.first; q.k = s.second; int m = q.r * q.k;
    q.mode = c.pick({dct1, dct2}); auto F = mask_family(m); q.pix = F[c.choose((int)F.size(), "mask")];
    if (m > 16 && !T && mc::is_asan()) c.prune();
    one(c, q, false);
  });
  // larger images: optimality by the dual certificate y = r / ||A^T r||_inf of the returned image itself
  mc::explore("large", [T](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{6, 6}, {7, 9}, {64, 1}, {1, 65}, {8, 16}, {16, 8}, {12, 12}, {130, 1}, {16, 17}, {300, 1}, {1, 1100}, {35, 32}};
    if (T) { S.push_back({24, 20}); S.push_back({33, 31}); S.push_back({1, 1025}); S.push_back({40, 40}); }
    auto s = c.pick(S, "shape"); Call q; q.r = s.first; q.k = s.second; int m = q.r * q.k;
    q.mode = c.pick({dct1, dct2}); q.pix.clear();
    if ((q.r == 1 || q.k == 1) && q.mode == dct2) c.prune();
    if (mc::is_asan() && m > 150) c.prune();
    auto F = mask_family(m); q.pix = F[c.pick({4, 8, 9, 7})];
    q.dk = c.choose(2); q.ek = c.choose(2); q.off = 1; q.key = 0;
    if (m > 1000 && !T && (q.dk == 0 || q.pix.size() < (size_t)m / 3)) c.prune();
    Cfg g = mk_dct(q.r, q.k, q.mode, q.pix); BigRef R(g);
    Vec x = genv(m, 31); if (q.dk == 1) for (int i = 0; i < m; i++) if (i % 5) x[i] = 0;
    q.b = R.apply(O_Ax, x); q.eps = nrm2(q.b) * (q.ek ? 1e-3 : 0.1);
    c.begin("large %dx%d %s %zu pixels data %d eps=%g", q.r, q.k, q.mode == dct1 ? "dct1" : "dct2", q.pix.size(), q.dk, q.eps);
    l1c_L1qcOpts o = opts(q.eps); o.lbtol = 1e-1;
    if (m > 310) { o.newton_max_iter = 400; o.cg_maxiter = 2000; o.lbtol = 2e-3 * nrm1(x); o.newton_tol = 1e-4; }
    Res z = call(c, q, o);
    if (z.st || z.r.status) c.fail("returned %d, status %d for a valid problem", z.st, z.r.status);
    if (!allfinite(z.x)) c.fail("image is not finite");
    size_t n = q.pix.size(); Vec r(n); for (size_t i = 0; i < n; i++) r[i] = q.b[i] - z.x[q.pix[i]];
    double rs = nrm2(r); c.check(4);
    if (!(rs <= q.eps * (1 + 1e-7) + 1e-12 * nrm2(q.b))) c.fail("sampled pixels differ from the measurements by %.12g, epsilon is %.12g", rs, q.eps);
    Vec co = R.apply(O_Mty, z.x); double l1 = nrm1(co);
    if (!(fabs(l1 - z.r.l1) <= 1e-9 * (l1 + nrm2(z.x)))) c.fail("reported 1-norm %.15g, the image's coefficients have %.15g", z.r.l1, l1);
    double mx = nrminf(R.apply(O_Aty, r)), low = 0; for (size_t i = 0; i < n; i++) low += q.b[i] * r[i];
    low = (low - q.eps * rs) / mx;
    double gap = o.mu * o.lbtol, ex = (l1 - low) / gap; worst = std::max(worst, ex);
    if (getenv("L1C_MARGIN")) fprintf(stderr, "large %s m=%d l1=%g low=%g ratio %g rel %g\n", c.desc.c_str(), m, l1, low, ex, (l1-low)/l1);
    if (!(ex <= 1.25 + 1e-6 * l1 / gap)) c.fail("coefficient 1-norm %.12g; a dual certificate bounds the minimum by %.12g; the requested accuracy allows a gap of %.3g", l1, low, gap);
    c.state(mc::hvals(z.x.data(), m)); c.outcome(mc::hvals(&l1, 1));
  });
  mc::explore("options", [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> sh{{1, 6}, {3, 4}};
    auto s = c.pick(sh); Call q; q.r = s.first; q.k = s.second; int m = q.r * q.k;
    q.mode = c.pick({dct1, dct2}); q.pix = m == 6 ? std::vector<int>{5, 0, 2} : std::vector<int>{11, 2, 5, 0, 7}; q.dk = 1; q.ek = c.choose(2); q.off = 0; data(q);
    double mu = c.pick({10.0, 3.0}), lbtol = c.pick({1e-3, 1e-1}); int ws = c.choose(3), lbi = c.pick({0, 3}), nm = c.pick({2, 80}), cm = c.pick({3, 400});
    int verb = c.pick({0, 1});
    c.begin("%dx%d %s eps=%g mu=%g lbtol=%g warm start %d lbiter %d newton limit %d cg limit %d verbose %d", q.r, q.k, q.mode == dct1 ? "dct1" : "dct2", q.eps, mu, lbtol, ws, lbi, nm, cm, verb);
    q.key = q.r * 100 + q.mode * 10 + q.ek;
    l1c_L1qcOpts o = opts(q.eps); o.mu = mu; o.lbtol = lbtol; o.warm_start_cg = ws; o.lbiter = lbi; o.newton_max_iter = nm; o.cg_maxiter = cm; o.verbose = verb;
    judge(c, q, o, call(c, q, o), !lbi && nm == 80 && cm == 400);
  });
  mc::explore("invalid", [](mc::Ctx& c) {
    int r = c.pick({-1, 0, 1, 3}), k = c.pick({-2, 0, 1, 4}), n = c.pick({-1, 0, 2}), bad = c.choose(5, "bad index"); DctMode md = c.pick({dct1, dct2});
    c.begin("%dx%d n=%d bad index %d", r, k, n, bad);
    int m = r > 0 && k > 0 ? r * k : 0;
    std::vector<int> pix{0, m > 1 ? m - 1 : 0};
    if (bad == 1) pix[0] = -1; if (bad == 2) pix[1] = m; if (bad == 3) pix[1] = m + 7; if (bad == 4) pix[0] = -100;
    bool valid = m > 1 && n == 2 && bad == 0;
    if (m == 1 && n == 2 && bad == 0) c.prune();   // duplicate pixel
    std::vector<int> pc = pix; Vec bv{1.5, -2};
    Buf x(std::max(m, 1), MARK), b(bv); l1c_LBResult lr; memset(&lr, 0, sizeof lr);
    l1c_L1qcOpts o = opts(0.1); o.dct_mode = md;
    wrap_reset(); long lv = wrap_live(), lp = wrap_live_plans();
    int st = l1qc_dct(r, k, x, n, b, pix.data(), o, &lr); c.step(); c.check(3);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("leak after status %d", st);
    if (pix != pc || !b.same(bv)) c.fail("inputs modified");
    if (valid != (st == 0)) c.fail("status %d for a%s configuration", st, valid ? " valid" : "n invalid");
    if (!valid) for (size_t i = 0; i < x.n; i++) if (x.d[i] != MARK) c.fail("status %d but the output image was written", st);
    if (!x.guards_ok()) c.fail("wrote outside the image");
    c.state(mc::hbytes(&st, 4, r * 100 + k * 10 + n)); c.outcome(st);
  });
  // data that are not numbers, or an epsilon no image can meet: failure, and no image
  mc::explore("unusable", [](mc::Ctx& c) {
    static const std::vector<std::pair<int, int>> sh{{1, 6}, {3, 4}, {7, 9}};
    auto s = c.pick(sh); Call q; q.r = s.first; q.k = s.second; int m = q.r * q.k; q.mode = c.pick({dct1, dct2}); q.dk = 1; q.ek = 0; q.off = c.pick({0, 1});
    q.pix = m == 6 ? std::vector<int>{5, 0, 2} : m == 12 ? std::vector<int>{11, 2, 5, 0, 7} : mask_family(m)[4]; data(q);
    int n = (int)q.pix.size(), pos = c.choose(n + 2, "position"); double v = c.pick({(double)NAN, (double)INFINITY, (double)-INFINITY}); int ws = c.choose(3), lbi = c.pick({0, 2}); double sc = c.pick({1.0, 100.0});
    c.begin("unusable %dx%d %s value %g at %d warm %d lbiter %d eps x %g", q.r, q.k, q.mode == dct1 ? "dct1" : "dct2", v, pos, ws, lbi, sc);
    q.eps *= sc;
    if (pos < n) q.b[pos] = v; else if (pos == n) for (double& t : q.b) t = v; else q.eps = std::isnan(v) ? -q.eps : -1e-3;
    l1c_L1qcOpts o = opts(q.eps); o.lbtol = 0.1; o.warm_start_cg = ws; o.lbiter = lbi;
    Res z = call(c, q, o); c.check(2);
    if (!z.st) c.fail("reported as solved");
    for (double t : z.x) if (t != MARK) c.fail("status %d, but the output image was written", z.st);
    c.state(mc::mix(mc::mix(m, pos), z.st)); c.outcome(z.st);
  });
  // call sequences: each answer equals (bit for bit) the answer of the same call made first; failing calls interleaved
  mc::explore("sequences", [T](mc::Ctx& c) {
    std::vector<Call> M;
    auto mk = [&](int r, int k, DctMode md, std::vector<int> pix, int dk) { Call q; q.r = r; q.k = k; q.mode = md; q.pix = pix; q.dk = dk; q.ek = 0; q.off = dk ? 1 : 0; data(q); M.push_back(q); };
    mk(1, 6, dct1, {5, 0, 2}, 0); mk(3, 4, dct2, {11, 2, 5, 0}, 1); mk(3, 4, dct1, {11, 2, 5, 0}, 1); mk(4, 3, dct2, {1, 7, 4}, 0); mk(9, 1, dct2, {8, 1, 2, 6}, 1);
    int len = T ? 4 : 3; std::vector<int> seq;
    for (int i = 0; i < len; i++) seq.push_back(c.choose((int)M.size() + 2, "call"));
    c.begin("sequence %s", istr(seq).c_str());
    for (int i = 0; i < len; i++) {
      if (seq[i] >= (int)M.size()) { // failing call
        Call q = M[1]; q.pix[1] = seq[i] == (int)M.size() ? 12 : -1; l1c_L1qcOpts o = opts(q.eps); o.lbtol = 0.1;
        Res z = call(c, q, o); if (!z.st) c.fail("call %d with a pixel outside the image succeeded", i);
        for (double t : z.x) if (t != MARK) c.fail("failing call %d wrote the image", i);
        continue;
      }
      Call& q = M[seq[i]]; l1c_L1qcOpts o = opts(q.eps); o.lbtol = 0.1; o.warm_start_cg = seq[i] % 3;
      Res z = call(c, q, o); if (z.st) c.fail("call %d returned %d", i, z.st);
      static std::map<int, Vec> first; auto it = first.find(seq[i]);
      if (it == first.end()) first[seq[i]] = z.x;
      else for (size_t j = 0; j < z.x.size(); j++) if (!(fabs(z.x[j] - it->second[j]) <= 1e-9 * (1 + nrminf(z.x)))) c.fail("call %d returns %.17g for pixel %zu; the same call made first returned %.17g", i, z.x[j], j, it->second[j]);
      judge(c, q, o, z, false);
    }
  });
  if (getenv("L1C_MARGIN")) fprintf(stderr, "worst gap ratio %g\n", worst);
  return mc::finish();
}
