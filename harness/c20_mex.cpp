// C20: the MEX functions, run against a stand-in of the Octave array interface, compared with the C solvers.
#include "common.hpp"
#include "mxstub.hpp"
#include <sys/stat.h>
extern "C" {
void mexFunction_l1qc_dct(int, void**, int, const void**);
void mexFunction_nesta_dctTV(int, void**, int, const void**);
void mexFunction_breg_anistropic_TV(int, void**, int, const void**);
int ref_l1qc(int, int, int, const double*, int*, const double*, const int*, double*, double*);
int ref_nesta(int, int, int, const double*, int*, const double*, const int*, double*, int*);
int ref_breg(int, int, const double*, double, double, int, int, double*);
int ref_mode(int);
}
using mc::Ctx;
static Vec mgen(size_t n, unsigned s) { Vec v(n); uint64_t h = s * 7919u + 13; for (auto& x : v) { h = h * 6364136223846793005ULL + 1442695040888963407ULL; int q = (int)((h >> 40) % 13) - 6; x = q ? q : 1; } return v; }
static std::vector<std::vector<int>> masks(int m) {
  std::vector<std::vector<int>> o(4);
  for (int i = 0; i < m; i += 2) o[0].push_back(i);
  for (int i = 0; i < m; i++) if ((i * 5 + 3) % m < m / 2 + 1) o[1].push_back(m - 1 - i);
  for (int i = m - 1; i >= 1; i--) o[2].push_back(i);       // all but one, backwards
  for (int i = 0; i < 2; i++) o[3].push_back((i * (m / 2) + m - 1) % m);
  for (auto& v : o) { while ((int)v.size() >= m) v.pop_back(); }
  return o;
}
static std::string show(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : " ") + std::to_string(x + 1); return s; }
static int nlines(const std::string& s) { return (int)std::count(s.begin(), s.end(), '\n'); }

struct Opt { const char* k; double v; };
typedef std::vector<Opt> Opts;
static Opts L_DEF() { return {{"epsilon", .1}, {"mu", 10}, {"lbtol", 1e-3}, {"tau", 0}, {"lbiter", 0}, {"newton_tol", 1e-3}, {"newton_max_iter", 50}, {"verbose", 0}, {"l1_tol", 1e-5}, {"cgtol", 1e-8}, {"cgmaxiter", 200}, {"warm_start_cg", 0}, {"dct_mode", 1}}; }
static Opts N_DEF() { return {{"sigma", .01}, {"mu", 1e-2}, {"tol", 1e-3}, {"alpha_v", 0}, {"alpha_h", 0}, {"verbose", 0}, {"n_continue", 5}, {"dct_mode", 1}, {"bp_mode", 1}}; }
static double& get(Opts& o, const char* k) { for (auto& x : o) if (!strcmp(x.k, k)) return x.v; fprintf(stderr, "no option %s\n", k); _exit(3); }
static Arr* ostruct(const Opts& o, bool rev = false, const char* drop = "") {
  Arr* s = mx::strct();
  std::vector<Opt> l(o); if (rev) std::reverse(l.begin(), l.end());
  for (auto& x : l) if (strcmp(x.k, drop)) mx::put(s, x.k, !strcmp(x.k, "bp_mode") ? mx::str(x.v == 1 ? "analysis" : x.v == 2 ? "synthesis" : x.v == 3 ? "Analysis" : "") : mx::num(x.v));
  return s;
}
struct RefL { int st; Vec x, s; std::string text; };
static RefL refl(int r, int k, const Vec& b, std::vector<int> pix, Opts o) {
  RefL q; q.x.resize(r * k); q.s.resize(4);
  double d[] = {get(o, "epsilon"), get(o, "mu"), get(o, "lbtol"), get(o, "newton_tol"), get(o, "l1_tol"), get(o, "cgtol"), get(o, "tau")};
  int i[] = {(int)get(o, "newton_max_iter"), (int)get(o, "verbose"), (int)get(o, "cgmaxiter"), get(o, "dct_mode") == 1 ? ref_mode(0) : get(o, "dct_mode") == 2 ? ref_mode(1) : (int)get(o, "dct_mode"), (int)get(o, "lbiter"), (int)get(o, "warm_start_cg")};
  l1c_replace_printf(mexPrintf); mx::W().printed = "";
  q.st = ref_l1qc(r, k, (int)b.size(), b.data(), pix.data(), d, i, q.x.data(), q.s.data());
  q.text = mx::W().printed;
  return q;
}
struct RefN { int st, setup; Vec f; std::string text; };
static RefN refn(int r, int k, const Vec& b, std::vector<int> pix, Opts o) {
  RefN q; q.f.resize(r * k);
  double d[] = {get(o, "alpha_v"), get(o, "alpha_h"), get(o, "sigma"), get(o, "mu"), get(o, "tol")};
  int bp = (int)get(o, "bp_mode");
  int i[] = {(int)get(o, "n_continue"), (int)get(o, "verbose"), get(o, "dct_mode") == 1 ? ref_mode(0) : get(o, "dct_mode") == 2 ? ref_mode(1) : (int)get(o, "dct_mode"), ref_mode(bp == 1 ? 2 : 3)};
  l1c_replace_printf(mexPrintf); mx::W().printed = "";
  q.st = ref_nesta(r, k, (int)b.size(), b.data(), pix.data(), d, i, q.f.data(), &q.setup);
  q.text = mx::W().printed;
  return q;
}
static bool near_(const double* a, const Vec& b, double tol) {
  double s = 0; for (double x : b) s = std::max(s, std::fabs(x));
  for (size_t i = 0; i < b.size(); i++) if (!(std::fabs(a[i] - b[i]) <= tol * (s + 1e-12))) return false;
  return true;
}
static std::string vs(const double* a, size_t n) { std::string s; char b[32]; for (size_t i = 0; i < n && i < 12; i++) { snprintf(b, 32, " %.6g", a[i]); s += b; } return s; }

// One call with monitors: inputs unchanged, nothing held afterwards.
struct Res { int raised; std::vector<Arr*> out; std::string text; };
static Res mrun(Ctx& c, mx::Fn f, int nlhs, const std::vector<Arr*>& in) {
  std::vector<std::string> before; for (Arr* a : in) before.push_back(mx::content(a));
  std::set<Arr*> mine = mx::W().live;
  std::vector<void*> out((size_t)std::max(1, nlhs) + 1, nullptr);
  long lv = wrap_live(), pl = wrap_live_plans();
  c.step(); c.check();
  Res r; r.raised = mx::call(f, nlhs, out.data(), (int)in.size(), (const void**)in.data());
  r.text = mx::W().printed;
  if (const char* e = wrap_error()) c.fail("memory error: %s", e);
  for (size_t i = 0; i < in.size(); i++) if (mx::content(in[i]) != before[i]) c.fail("the call modified argument %zu in the caller's workspace", i + 1);
  if (wrap_live() != lv || wrap_live_plans() != pl) c.fail("%ld blocks and %ld transform plans are still held after the call (%s %s)", wrap_live() - lv, wrap_live_plans() - pl, r.raised ? "it raised" : "it returned", mx::W().id.c_str());
  if (r.raised && mx::W().id == "misuse") c.fail("%s", mx::W().msg.c_str());
  if (!mx::W().misuse.empty()) c.fail("misuse of the array interface: %s", mx::W().misuse.c_str());
  for (int i = 0; i < nlhs; i++) r.out.push_back(r.raised ? nullptr : (Arr*)out[i]);
  if (!r.raised) {
    for (Arr* a : r.out) if (a && !mx::W().live.count(a)) c.fail("an output is not a live array");
    for (Arr* a : r.out) for (Arr* b : in) if (a && a == b) c.fail("an output is one of the inputs");
  }
  // what Octave does: arrays of the call that are not returned are released
  std::set<Arr*> keep(mine);
  std::function<void(Arr*)> mark = [&](Arr* a) { if (a && keep.insert(a).second) for (Arr* v : a->vals) mark(v); };
  for (Arr* a : r.out) mark(a);
  std::vector<Arr*> drop; for (Arr* a : mx::W().live) if (!keep.count(a)) drop.push_back(a);
  for (Arr* a : drop) if (mx::W().live.erase(a)) { delete[] a->raw; delete a; }
  for (void* p : std::vector<void*>(mx::W().heap.begin(), mx::W().heap.end())) mxFree(p);
  return r;
}
struct Cleaner { ~Cleaner() { for (Arr* a : std::vector<Arr*>(mx::W().live.begin(), mx::W().live.end())) { delete[] a->raw; delete a; } mx::W().live.clear(); } };
static void is_real(Ctx& c, Arr* a, int64_t m, int64_t n, const char* what) {
  if (!a) c.fail("%s was not returned", what);
  if (a->c != mx::DOUBLE || a->dim.size() != 2 || a->dim[0] != m || a->dim[1] != n) c.fail("%s is a %s of size %ldx%ld, expected a double %ldx%ld", what, mxGetClassName(a), (long)a->dim[0], (long)a->dim[1], (long)m, (long)n);
}
static Arr* mvec(const Vec& v, bool row) { return row ? mx::dbl(1, (int64_t)v.size(), v) : mx::dbl((int64_t)v.size(), 1, v); }
static Vec ones_based(const std::vector<int>& p) { Vec v; for (int x : p) v.push_back(x + 1.0); return v; }
static void lines(Ctx& c, int got, int want, int slack) {
  if (got < want - std::max(2, want / 7) || got > want + slack + std::max(2, want / 7)) c.fail("the call printed %d lines, the C solver with the same verbosity prints %d", got, want);
}

static void do_l1qc(Ctx& c, int r, int k, const std::vector<int>& pix, const Vec& b, const Opts& o, int nlhs, bool brow, bool prow, bool rev, bool nomode = false) {
  Cleaner cl;
  RefL q = refl(r, k, b, pix, o);
  auto R = mrun(c, mexFunction_l1qc_dct, nlhs, {mx::num(r), mx::num(k), mvec(b, brow), mvec(ones_based(pix), prow), ostruct(o, rev, nomode ? "dct_mode" : "")});
  int N = r * k;
  if (R.raised) { if (q.st == 0) c.fail("a valid call raised %s (%s)", mx::W().id.c_str(), mx::W().msg.c_str()); c.outcome(1); return; }
  if (nlhs == 2) {
    if (!R.out[1] || R.out[1]->c != mx::STRUCT || R.out[1]->count() != 1) c.fail("LBRes is not a 1x1 struct");
    static const char* nm[] = {"l1", "total_newton_iter", "total_cg_iter", "status"};
    for (int i = 0; i < 4; i++) {
      const Arr* f = mx::fld(R.out[1], nm[i]);
      if (!f || f->c != mx::DOUBLE || f->count() != 1) c.fail("LBRes.%s is missing or not a double scalar", nm[i]);
      double v = mx::val(f, 0), w = q.s[i], s = i == 0 ? 1e-6 * std::fabs(w) : std::max(2.0, .1 * w);
      if (i == 3) { if ((v != 0) != (q.st != 0)) c.fail("LBRes.status = %g, the C solver returns %d", v, q.st); }
      else if (q.st == 0 && !(std::fabs(v - w) <= s)) c.fail("LBRes.%s = %g, the C solver reports %g", nm[i], v, w);
    }
  }
  if (q.st) { if (nlhs == 2) c.outcome(2); return; }
  is_real(c, R.out[0], N, 1, "x");
  if (!near_((double*)R.out[0]->d, q.x, 1e-6)) c.fail("x differs from the C result:%s expected%s", vs((double*)R.out[0]->d, N).c_str(), vs(q.x.data(), N).c_str());
  lines(c, nlines(R.text), nlines(q.text), get((Opts&)o, "verbose") > 0 ? 20 : 0);
  c.state(mc::hvals(q.x.data(), N, mc::mix(r, k))); c.outcome(mc::mix(3, (uint64_t)nlhs));
}
static void do_nesta(Ctx& c, int r, int k, const std::vector<int>& pix, const Vec& b, const Opts& o, bool brow, bool prow, bool rev) {
  Cleaner cl;
  RefN q = refn(r, k, b, pix, o);
  auto R = mrun(c, mexFunction_nesta_dctTV, 2, {mx::num(r), mx::num(k), mvec(b, brow), mvec(ones_based(pix), prow), ostruct(o, rev)});
  int N = r * k;
  if (R.raised) { if (q.st == 0) c.fail("a valid call raised %s (%s)", mx::W().id.c_str(), mx::W().msg.c_str()); c.outcome(1); return; }
  is_real(c, R.out[1], 1, 1, "the status");
  double st = mx::val(R.out[1], 0);
  if ((st != 0) != (q.st != 0)) c.fail("status %g, the C solver returns %d", st, q.st);
  if (q.st) { c.outcome(2); return; }
  is_real(c, R.out[0], r, k, "the image");
  if (!near_((double*)R.out[0]->d, q.f, 1e-5)) c.fail("the image differs from the C result:%s expected%s", vs((double*)R.out[0]->d, N).c_str(), vs(q.f.data(), N).c_str());
  lines(c, nlines(R.text), nlines(q.text), get((Opts&)o, "verbose") > 0 ? 20 : 0);
  c.state(mc::hvals(q.f.data(), N, mc::mix(r, k))); c.outcome(3);
}
static void do_breg(Ctx& c, int n, int m, const Vec& f /* column major n x m */, double mu, double tol, int it) {
  Cleaner cl;
  // reference in row-major order: image element (i,j) is f[j*n+i]
  Vec rm(n * m), u(n * m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) rm[i * m + j] = f[j * n + i];
  Vec cmu(n * m); int st = ref_breg(m, n, f.data(), mu, tol, it, 1, cmu.data());
  Vec rmu(n * m); int st2 = ref_breg(n, m, rm.data(), mu, tol, it, 1, rmu.data());
  auto R = mrun(c, mexFunction_breg_anistropic_TV, 1, {mx::dbl(n, m, f), mx::num(mu), mx::num(tol), mx::num(it)});
  if (R.raised) c.fail("a valid call raised %s (%s)", mx::W().id.c_str(), mx::W().msg.c_str());
  if (st || st2) return;
  is_real(c, R.out[0], n, m, "the image");
  // both sweep orders are the same image up to the order of the Gauss-Seidel updates
  const double* g = (double*)R.out[0]->d; Vec alt(n * m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) alt[j * n + i] = rmu[i * m + j];
  if (!near_(g, cmu, 1e-9) && !near_(g, alt, 1e-9)) c.fail("the image differs from the C result:%s expected%s", vs(g, n * m).c_str(), vs(cmu.data(), n * m).c_str());
  c.state(mc::hvals(g, n * m, mc::mix(n, m)));
}

struct Var { const char* k; double a, b; };
static const std::vector<Var> LV = {{"epsilon", .5, 1e-3}, {"mu", 3, 40}, {"lbtol", .1, 1e-5}, {"tau", 2, 50}, {"lbiter", 1, 3}, {"newton_tol", .5, 1e-8}, {"newton_max_iter", 1, 3}, {"verbose", 1, 2}, {"l1_tol", .5, 0}, {"cgtol", .4, 1e-3}, {"cgmaxiter", 1, 2}, {"warm_start_cg", 1, 2}, {"dct_mode", 2, 1}};
static const std::vector<Var> NV = {{"sigma", .5, 2}, {"mu", .3, 1e-3}, {"tol", .1, 1e-5}, {"alpha_v", .7, 3}, {"alpha_h", .4, 2}, {"verbose", 1, 5}, {"n_continue", 1, 3}, {"dct_mode", 2, 1}, {"bp_mode", 2, 1}};
static std::string vary(Ctx& c, Opts& o, const std::vector<Var>& V) {
  std::string s; int n = (int)V.size();
  int i = c.choose(n + 1), j = i < n ? c.choose(n - i) : 0;   // j = 0: one option only
  auto set = [&](int q) { double v = c.flip() ? V[q].b : V[q].a; get(o, V[q].k) = v; char b[64]; snprintf(b, 64, " %s=%g", V[q].k, v); s += b; };
  if (i < n) { set(i); if (j) set(i + j); }
  return s;
}
static void s_l1qc_options(Ctx& c) {
  int sh = c.choose(2), mi = c.choose(3), nl = 1 + c.choose(2); int r = sh ? 5 : 3, k = sh ? 2 : 4;
  Opts o = L_DEF(); std::string t = vary(c, o, LV);
  auto p = masks(r * k)[mi]; Vec full = mgen(r * k, 10 * r + k), b; for (int x : p) b.push_back(full[x]);
  c.begin("l1qc_dct %dx%d pixels %s options%s, %d outputs", r, k, show(p).c_str(), t.c_str(), nl);
  do_l1qc(c, r, k, p, b, o, nl, false, false, false);
}
static const std::vector<std::pair<int, int>> SH = {{2, 3}, {3, 2}, {4, 1}, {1, 5}, {3, 3}, {4, 3}, {5, 5}, {6, 1}, {2, 7}, {3, 5}, {4, 4}};
static void s_l1qc_forms(Ctx& c) {
  auto s = mc::thorough() ? std::make_pair(1 + c.choose(7), 1 + c.choose(7)) : c.pick(SH);
  int mi = c.choose(4); bool br = c.flip(), pr = c.flip(), rev = c.flip(); int dm = c.choose(3); int nl = 1 + c.choose(2);
  int r = s.first, k = s.second; if (r * k < 3) c.prune();
  Opts o = L_DEF(); get(o, "dct_mode") = dm == 1 ? 2 : 1;
  auto p = masks(r * k)[mi]; if (p.size() < 2) c.prune();
  Vec full = mgen(r * k, 10 * r + k), b; for (int x : p) b.push_back(full[x]);
  c.begin("l1qc_dct %dx%d pixels %s b as %s, pix_idx as %s, options %s, dct_mode %s, %d outputs", r, k, show(p).c_str(), br ? "row" : "column", pr ? "row" : "column", rev ? "in reverse order" : "in order", dm == 2 ? "absent" : dm ? "2" : "1", nl);
  do_l1qc(c, r, k, p, b, o, nl, br, pr, rev, dm == 2);
}
static void s_nesta_options(Ctx& c) {
  int sh = c.choose(2), mi = c.choose(3); int r = sh ? 5 : 3, k = sh ? 2 : 4;
  Opts o = N_DEF(); std::string t = vary(c, o, NV);
  auto p = masks(r * k)[mi]; Vec full = mgen(r * k, 10 * r + k), b; for (int x : p) b.push_back(full[x]);
  c.begin("nesta_dctTV %dx%d pixels %s options%s", r, k, show(p).c_str(), t.c_str());
  do_nesta(c, r, k, p, b, o, false, false, false);
}
static void s_nesta_forms(Ctx& c) {
  auto s = mc::thorough() ? std::make_pair(1 + c.choose(7), 1 + c.choose(7)) : c.pick(SH);
  int mi = c.choose(4); bool br = c.flip(), pr = c.flip(), rev = c.flip(); int al = c.choose(4), bp = 1 + c.choose(2), dm = 1 + c.choose(2);
  int r = s.first, k = s.second; if (r * k < 3) c.prune();
  Opts o = N_DEF(); get(o, "bp_mode") = bp; get(o, "dct_mode") = dm; get(o, "alpha_v") = al & 1 ? .6 : 0; get(o, "alpha_h") = al & 2 ? .3 : 0; get(o, "n_continue") = 2;
  auto p = masks(r * k)[mi]; if (p.size() < 2) c.prune();
  Vec full = mgen(r * k, 10 * r + k), b; for (int x : p) b.push_back(full[x]);
  c.begin("nesta_dctTV %dx%d pixels %s b as %s, pix_idx as %s, options %s, bp_mode %d, dct_mode %d, weights %d", r, k, show(p).c_str(), br ? "row" : "column", pr ? "row" : "column", rev ? "in reverse order" : "in order", bp, dm, al);
  do_nesta(c, r, k, p, b, o, br, pr, rev);
}
static void s_denoise(Ctx& c) {
  int top = mc::thorough() ? 8 : 5;
  int n = 3 + c.choose(top), m = 3 + c.choose(top); double mu = c.pick({10., .5, 2.}), tol = c.pick({.001, .3, 1e-6}); int it = c.pick({1000, 1, 2, 5}); int im = c.choose(3);
  Vec f = mgen(n * m, 3 * n + m + 100 * im); if (im == 2) for (int i = 0; i < n * m; i++) f[i] = i % n < n / 2 ? 1 : 5 + i / n;
  c.begin("breg_anistropic_TV %dx%d image %d mu %g tol %g max_iter %d", n, m, im, mu, tol, it);
  do_breg(c, n, m, f, mu, tol, it);
}

// ---- invalid calls ----
static const int NBAD = 16;
static Arr* bad_object(int i, std::string& nm) {
  switch (i) {
    case 0: nm = "empty double"; return mx::dbl(0, 0);
    case 1: nm = "0x3 double"; return mx::dbl(0, 3);
    case 2: nm = "2x2 double"; return mx::dbl(2, 2, {1, 2, 3, 4});
    case 3: nm = "int32 scalar"; { Arr* a = mx::mk(mx::I32, {1, 1}); *(int32_t*)a->d = 3; return a; }
    case 4: nm = "single scalar"; { Arr* a = mx::mk(mx::SINGLE, {1, 1}); *(float*)a->d = 3; return a; }
    case 5: nm = "string"; return mx::str("3");
    case 6: nm = "longer string"; return mx::str("abc");
    case 7: nm = "logical"; { Arr* a = mx::mk(mx::LOGICAL, {1, 1}); a->d[0] = 1; return a; }
    case 8: nm = "empty struct"; return mx::strct(0, 0);
    case 9: nm = "struct without fields"; return mx::strct();
    case 10: nm = "cell"; { Arr* a = mx::mk(mx::CELL, {1, 1}); a->vals = {mx::num(3)}; return a; }
    case 11: nm = "2x2x2 double"; { Arr* a = mx::mk(mx::DOUBLE, {2, 2, 2}); return a; }
    case 12: nm = "int32 vector"; { Arr* a = mx::mk(mx::I32, {4, 1}); for (int j = 0; j < 4; j++) ((int32_t*)a->d)[j] = j + 1; return a; }
    case 13: nm = "single vector"; { Arr* a = mx::mk(mx::SINGLE, {4, 1}); for (int j = 0; j < 4; j++) ((float*)a->d)[j] = j + 1; return a; }
    case 14: nm = "logical vector"; { Arr* a = mx::mk(mx::LOGICAL, {4, 1}); a->d[0] = 1; return a; }
    default: nm = "function handle"; return mx::mk(mx::FUNC, {1, 1});
  }
}
static std::vector<Arr*> good(int fn, const Opts* o = nullptr) {
  if (fn == 2) return {mx::dbl(3, 4, mgen(12, 5)), mx::num(10), mx::num(.001), mx::num(20)};
  return {mx::num(3), mx::num(4), mvec({1, 2, 3, 4}, false), mvec({1, 5, 7, 12}, false), ostruct(o ? *o : fn == 0 ? L_DEF() : N_DEF())};
}
static const char* FN[] = {"l1qc_dct", "nesta_dctTV", "breg_anistropic_TV"};
static mx::Fn FP[] = {mexFunction_l1qc_dct, mexFunction_nesta_dctTV, mexFunction_breg_anistropic_TV};
static void must_raise(Ctx& c, int fn, int nlhs, const std::vector<Arr*>& in) {
  for (int rep = 0; rep < 2; rep++) {
    auto R = mrun(c, FP[fn], nlhs, in);
    if (R.raised) { c.outcome(mc::hbytes(mx::W().id.data(), mx::W().id.size())); continue; }
    c.fail("invalid arguments were accepted");
  }
}
static void s_wrong_class(Ctx& c) {
  int fn = c.choose(3), na = fn == 2 ? 4 : 5, a = c.choose(na), bo = c.choose(NBAD);
  Cleaner cl; std::string nm; Arr* bad = bad_object(bo, nm);
  c.begin("%s with argument %d a %s", FN[fn], a + 1, nm.c_str());
  auto in = good(fn); in[a] = bad;
  must_raise(c, fn, fn == 2 ? 1 : 2, in);
  c.state(mc::mix(mc::mix(fn, a), bo));
}
static void s_counts(Ctx& c) {
  int fn = c.choose(3), nr = c.choose(6), nl = c.choose(4); int need = fn == 2 ? 4 : 5, lneed = fn == 1 ? 2 : 1;
  if (nr > need) c.prune();
  bool valid = nr >= need && nl >= lneed; if (valid) c.prune();
  if (nl > 2) c.prune();
  Cleaner cl;
  c.begin("%s with %d arguments and %d outputs", FN[fn], nr, nl);
  auto in = good(fn); in.resize(nr);
  if (nr >= need && nl == 0) {   // Octave passes nargout = 0 for a call without assignment; some output is still due
    auto R = mrun(c, FP[fn], nl, in); c.outcome(R.raised); return;
  }
  must_raise(c, fn, nl, in);
  c.state(mc::mix(mc::mix(fn, nr), nl));
}
static void s_fields(Ctx& c) {
  int fn = c.choose(2); const Opts& d = fn == 0 ? L_DEF() : N_DEF(); Opts o = d;
  int f = c.choose((int)o.size()), bo = c.choose(NBAD + 2);
  Cleaner cl; std::string nm = "missing"; std::string key = o[f].k;
  Arr* s = mx::strct();
  Arr* bad = nullptr;
  if (bo < NBAD) bad = bad_object(bo, nm); else if (bo == NBAD + 1) { nm = "a vector"; bad = mx::dbl(1, 2, {1, 1}); }
  if (key == "dct_mode" && fn == 0 && bo == NBAD) c.prune();   // optional there
  for (auto& x : o) if (x.k != key) mx::put(s, x.k, !strcmp(x.k, "bp_mode") ? mx::str("analysis") : mx::num(x.v)); else if (bad) mx::put(s, x.k, bad);
  c.begin("%s with field %s %s", FN[fn], key.c_str(), nm.c_str());
  auto in = good(fn); in[4] = s;
  must_raise(c, fn, 2, in);
  c.state(mc::mix(mc::mix(fn, f), bo));
}
static void s_values(Ctx& c) {
  int fn = c.choose(2), w = c.choose(4);
  Cleaner cl;
  auto in = good(fn); bool stok = false;
  if (w == 0) {  // pixel indices
    int pos = c.choose(4); double v = c.pick({0., -1., 13., 14., 1e6, -2147483648., 2147483647., (double)NAN, (double)INFINITY, -(double)INFINITY, 1e300, -1e300, 4294967297., 0.5, -0.5});
    if (mc::is_asan() && !(std::fabs(v) < 2e9)) c.prune();   // the conversion itself is undefined there
    c.begin("%s with pixel index %g at position %d", FN[fn], v, pos + 1);
    ((double*)in[3]->d)[pos] = v;
  } else if (w == 1) {  // sizes
    static const std::pair<double, double> S[] = {{0, 4}, {3, 0}, {0, 0}, {-3, 4}, {3, -4}, {-3, -4}, {1, 3}, {3, 1}, {2, 2}, {1, 1}, {-1, -12}, {1, -4}};
    auto s = S[c.choose(12)];
    c.begin("%s with size %gx%g and 4 measurements", FN[fn], s.first, s.second);
    ((double*)in[0]->d)[0] = s.first; ((double*)in[1]->d)[0] = s.second;
    for (int i = 0; i < 4; i++) ((double*)in[3]->d)[i] = i + 1;
    if (s.first * s.second == 4 && s.first > 0) { // as many measurements as pixels: rejected or solved
      auto R = mrun(c, FP[fn], 2, in); c.outcome(R.raised); return;
    }
  } else if (w == 2) {  // lengths
    int nb = 2 + c.choose(5), np = 2 + c.choose(5); if (nb == np) c.prune();
    c.begin("%s with %d measurements and %d pixel indices", FN[fn], nb, np);
    Vec b(nb, 1.0), p; for (int i = 0; i < np; i++) p.push_back(i + 1);
    in[2] = mvec(b, false); in[3] = mvec(p, false);
  } else {  // modes
    if (fn == 0) {
      double v = c.pick({0., 3., -1., 4., 100.}); Opts o = L_DEF(); get(o, "dct_mode") = v; in[4] = ostruct(o); stok = true;
      c.begin("l1qc_dct with dct_mode %g", v);
    } else {
      int q = c.choose(14);
      Opts o = N_DEF();
      static const char* M[] = {"", "a", "Analysis", "ANALYSIS", "analysi", "analysis ", "analysisx", "synthesys", "synthesi", "synthesisx", "synthesis and more", "analysis_and_more"};
      if (q < 12) { c.begin("nesta_dctTV with bp_mode '%s'", M[q]); Arr* s = mx::strct(); for (auto& x : o) mx::put(s, x.k, !strcmp(x.k, "bp_mode") ? mx::str(M[q]) : mx::num(x.v)); in[4] = s; }
      else { double v = q == 12 ? 0 : 3; get(o, "dct_mode") = v; in[4] = ostruct(o); stok = true; c.begin("nesta_dctTV with dct_mode %g", v); }
    }
  }
  if (stok) { mrun(c, FP[fn], 2, in); c.outcome(77); return; }   // the C library itself takes any other mode for dct2: no crash, no leak
  must_raise(c, fn, 2, in);
  c.state(mc::mix(fn, w));
}
static void s_small_images(Ctx& c) {
  int n = c.choose(6), m = c.choose(6); if (n >= 3 && m >= 3) c.prune();
  Cleaner cl;
  c.begin("breg_anistropic_TV with a %dx%d image", n, m);
  auto in = good(2); in[0] = mx::dbl(n, m, mgen(n * m, 3));
  must_raise(c, 2, 1, in);
  c.state(n * 10 + m);
}
// every pair of shapes for the measurements and the pixel list; the image of the denoiser
static void s_array_shapes(Ctx& c) {
  int fn = c.choose(3); Cleaner cl;
  if (fn == 2) {
    static const std::vector<std::vector<int64_t>> S{{2, 2}, {1, 12}, {12, 1}, {2, 6}, {6, 2}, {3, 4, 1, 2}, {3, 4, 2}, {3, 2, 2}, {1, 3, 4}, {3, 1, 4}, {0, 4}, {4, 0}, {1, 1}};
    auto d = c.pick(S, "shape");
    if (d.size() == 2 && d[0] >= 2 && d[1] >= 2) c.prune();    // an image: the denoiser itself decides
    auto in = good(2); in[0] = mx::mk(mx::DOUBLE, d); for (size_t i = 0; i < in[0]->count(); i++) ((double*)in[0]->d)[i] = 1 + i % 5;
    std::string t; for (auto x : d) t += std::to_string(x) + " ";
    c.begin("breg_anistropic_TV with an image of shape %s", t.c_str());
    must_raise(c, 2, 1, in); c.state(mc::hbytes(d.data(), d.size() * 8)); return;
  }
  std::vector<std::vector<int64_t>> S; for (int a = 0; a <= 6; a++) for (int b = 0; b <= 6; b++) S.push_back({a, b});
  for (auto d : std::vector<std::vector<int64_t>>{{1, 1, 4}, {4, 1, 2}, {1, 4, 2}, {2, 2, 2}, {2, 1, 4}, {1, 2, 4}, {2, 1, 2}, {1, 2, 2}, {4, 4, 4}}) S.push_back(d);
  auto db = c.pick(S, "b shape"), dp = c.pick(S, "pix shape");
  auto vec = [](const std::vector<int64_t>& d) { return d.size() == 2 && (d[0] == 1 || d[1] == 1) && d[0] * d[1] > 1; };
  bool valid = vec(db) && vec(dp) && db[0] * db[1] == dp[0] * dp[1];
  if (valid) c.prune();                                        // forms suite
  Arr* b = mx::mk(mx::DOUBLE, db); Arr* p = mx::mk(mx::DOUBLE, dp);
  for (size_t i = 0; i < b->count(); i++) ((double*)b->d)[i] = 1 + i % 5;
  for (size_t i = 0; i < p->count(); i++) ((double*)p->d)[i] = 1 + (i * 5) % 12;
  auto in = good(fn); in[2] = b; in[3] = p;
  c.begin("%s with b %ldx%ld%s and pix_idx %ldx%ld%s", FN[fn], (long)db[0], (long)db[1], db.size() > 2 ? "x.." : "", (long)dp[0], (long)dp[1], dp.size() > 2 ? "x.." : "");
  must_raise(c, fn, 2, in); c.state(mc::mix(mc::hbytes(db.data(), db.size() * 8, fn), mc::hbytes(dp.data(), dp.size() * 8)));
}
static void struct_shape(Ctx& c) {
  int fn = c.choose(2), sh = c.choose(4); static const int S[4][2] = {{1, 2}, {2, 1}, {2, 2}, {0, 1}};
  Cleaner cl; c.begin("%s with a %dx%d struct of options", FN[fn], S[sh][0], S[sh][1]);
  auto in = good(fn); Arr* s = mx::strct(S[sh][0], S[sh][1]);
  for (auto& x : fn == 0 ? L_DEF() : N_DEF()) mx::put(s, x.k, !strcmp(x.k, "bp_mode") ? mx::str("analysis") : mx::num(x.v));
  in[4] = s;
  must_raise(c, fn, 2, in);
  c.state(fn * 10 + sh);
}
// ---- histories and faults ----
static const int NMENU = 10;
static const char* MN[] = {"l1qc dct1", "l1qc dct2", "nesta analysis with TV", "nesta synthesis", "nesta synthesis with TV", "denoise", "l1qc bad index", "nesta bad index", "denoise too small", "l1qc without dct_mode"};
static void menu(Ctx& c, int i) {
  std::vector<int> p1 = {2, 0, 7, 11, 5}, p2 = {1, 3, 4, 6, 10, 8}; Vec f = mgen(12, 34), b1, b2; for (int x : p1) b1.push_back(f[x]); for (int x : p2) b2.push_back(f[x]);
  Opts l = L_DEF(), n = N_DEF(); get(n, "n_continue") = 2;
  switch (i) {
    case 0: do_l1qc(c, 3, 4, p1, b1, l, 2, false, true, false); break;
    case 1: get(l, "dct_mode") = 2; do_l1qc(c, 4, 3, p2, b2, l, 1, true, false, false); break;
    case 2: get(n, "alpha_v") = .5; do_nesta(c, 3, 4, p1, b1, n, false, true, false); break;
    case 3: get(n, "bp_mode") = 2; get(n, "dct_mode") = 2; do_nesta(c, 4, 3, p2, b2, n, true, true, false); break;
    case 4: get(n, "bp_mode") = 2; get(n, "alpha_h") = .5; do_nesta(c, 4, 3, p2, b2, n, true, true, false); break;
    case 5: do_breg(c, 3, 4, f, 10, .001, 100); break;
    case 6: { Cleaner cl; auto in = good(0); ((double*)in[3]->d)[1] = 13; must_raise(c, 0, 2, in); break; }
    case 7: { Cleaner cl; auto in = good(1); ((double*)in[3]->d)[3] = 0; must_raise(c, 1, 2, in); break; }
    case 8: { Cleaner cl; auto in = good(2); in[0] = mx::dbl(2, 5, mgen(10, 1)); must_raise(c, 2, 1, in); break; }
    case 9: do_l1qc(c, 3, 4, p1, b1, l, 2, false, false, true, true); break;
  }
}
static void s_sequences(Ctx& c) {
  int n = mc::thorough() ? 4 : 3; std::vector<int> q; std::string t;
  for (int i = 0; i < n; i++) { q.push_back(c.choose(NMENU)); t += std::string(i ? ", " : "") + MN[q[i]]; }
  c.begin("calls: %s", t.c_str());
  for (int x : q) menu(c, x);
}
static void s_faults(Ctx& c) {
  int fn = c.choose(4), st = c.choose(2), plan = c.choose(2); int k = 1 + c.choose(30); int nl = fn == 2 ? 1 : fn == 1 || fn == 3 ? 2 : 1 + c.choose(2);
  Cleaner cl;
  c.begin("%s with %s %d failing%s, %d outputs", fn == 3 ? "nesta_dctTV synthesis" : FN[fn], plan ? "plan" : "allocation", k, st ? " and all later ones" : "", nl);
  Opts o = N_DEF(); get(o, "bp_mode") = 2; get(o, "n_continue") = 1;
  auto in = fn == 3 ? good(1, &o) : good(fn);
  wrap_reset();
  if (plan) wrap_arm_plan(k, st); else wrap_arm(k, st);
  wrap_junk(0x7f);
  Res R;
  try { R = mrun(c, FP[fn == 3 ? 1 : fn], nl, in); } catch (...) { long i = wrap_injected(); wrap_disarm(); wrap_junk(-1); if (!i) throw mc::Prune(); throw; }
  long inj = wrap_injected();
  wrap_disarm(); wrap_junk(-1);
  if (!inj) c.prune();
  c.outcome(R.raised);
  if (!R.raised && R.out[0]) {
    bool ok = false; Vec b = {1, 2, 3, 4}; std::vector<int> p = {0, 4, 6, 11};
    if (nl == 2 && R.out[1]) { const Arr* s = fn == 0 ? mx::fld(R.out[1], "status") : R.out[1]; ok = s && s->count() == 1 && mx::val(s, 0) != 0; }
    if (!ok) {
      const double* g = (double*)R.out[0]->d;
      if (fn == 0) ok = near_(g, refl(3, 4, b, p, L_DEF()).x, 1e-6);
      else if (fn == 2) { Vec u(12); ref_breg(4, 3, mgen(12, 5).data(), 10, .001, 20, 1, u.data()); ok = near_(g, u, 1e-9); }
      else { Opts q = fn == 3 ? o : N_DEF(); ok = near_(g, refn(3, 4, b, p, q).f, 1e-5); }
      if (!ok && fn == 0 && nl == 1) { ok = true; for (int i = 0; i < 12; i++) ok &= std::isfinite(g[i]) && g[i] == 0; }  // a single output has no room for the status
    }
    if (!ok) c.fail("the call reported success although memory ran out");
  }
  menu(c, fn == 0 ? 0 : fn == 1 ? 2 : fn == 2 ? 5 : 3);   // and the function still works
  c.state(mc::mix(mc::mix(fn, st), mc::mix(plan, k)));
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  mc::explore("l1qc_options", s_l1qc_options);
  mc::explore("l1qc_forms", s_l1qc_forms);
  mc::explore("nesta_options", s_nesta_options);
  mc::explore("nesta_forms", s_nesta_forms);
  mc::explore("denoise", s_denoise);
  mc::explore("wrong_class", s_wrong_class);
  mc::explore("counts", s_counts);
  mc::explore("fields", s_fields);
  mc::explore("values", s_values);
  mc::explore("small_images", s_small_images);
  mc::explore("struct_shape", struct_shape);
  mc::explore("array_shapes", s_array_shapes);
  mc::explore("sequences", s_sequences);
  mc::explore("faults", s_faults);
  return mc::finish();
}
