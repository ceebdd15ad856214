// C22: progress output.
#include "nprob.hpp"
#include <sys/mman.h>
extern "C" int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
static std::string TXT[4]; static int NCALL, SWITCH_AT = -1, CUR;
static void put(int who, const char* f, va_list ap);
static int rec0(const char* f, ...) { va_list ap; va_start(ap, f); put(0, f, ap); va_end(ap); return 1; }
static int rec1(const char* f, ...) { va_list ap; va_start(ap, f); put(1, f, ap); va_end(ap); return 0; }
static int rec2(const char* f, ...) { va_list ap; va_start(ap, f); put(2, f, ap); va_end(ap); return -1; }
static std::string ALL;
static bool WRONG;
static void put(int who, const char* f, va_list ap) {
  char b[8192]; vsnprintf(b, sizeof b, f, ap); TXT[who] += b; ALL += b; NCALL++;
  if (who != CUR) WRONG = true;
  if (NCALL == SWITCH_AT) { l1c_replace_printf(rec1); CUR = 1; }
}
// everything written to descriptor 1 while fn runs
static std::string capture(const std::function<void()>& fn) {
  fflush(stdout); int keep = dup(1), fd = memfd_create("out", 0); dup2(fd, 1);
  try { fn(); } catch (...) { fflush(stdout); dup2(keep, 1); close(keep); close(fd); throw; }
  fflush(stdout);
  off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); if (n) { ssize_t k = read(fd, &s[0], n); (void)k; }
  dup2(keep, 1); close(keep); close(fd); return s;
}
// drop lines that show elapsed time
static std::string notime(const std::string& s) { std::string o; size_t i = 0; while (i < s.size()) { size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size() - 1; std::string l = s.substr(i, j - i + 1); if (l.find("time") == std::string::npos) o += l; i = j + 1; } return o; }
static void mulA(l1c_int n, double* x, double* y, void* p) { const Mat& A = *(const Mat*)p; Vec v = A.mul(Vec(x, x + n)); for (int i = 0; i < n; i++) y[i] = v[i]; }
struct Job { int entry, prob; };
static const int NE = 7;
static const char* EN[] = {"nesta", "l1qc_newton", "l1qc_dct", "cgsolve", "cgsolve_diag_precond", "breg_anistropic_TV", "transforms"};
// runs one entry point; returns all numerical results
static Vec run(mc::Ctx& c, Job j, int verbose, int cgverbose) {
  Vec out;
  if (j.entry == 0) {
    static const std::vector<NProb> PS = problems(false); const NProb& q = PS[j.prob * 2 + 2]; SetUp S(q.g, c);
    int m = S.L.f.m, n = S.L.f.n; Buf b(genv(n, 3)), x(m, 0.0); l1c_NestaOpts o = nopts(1e-2, 1e-4, 0.1, 2); o.verbose = verbose;
    int st = l1c_nesta(m, x, n, b, S.L.f, o); out = x.vec(); out.push_back(st);
  } else if (j.entry == 1 || j.entry == 2) {
    static const std::vector<Cfg> ops{mk_dct(5, 1, dct1, {3, 0}), mk_dct(3, 3, dct2, {8, 3, 4, 0}), mk_dct(2, 3, dct1, {5, 0, 2}), mk_dct(1, 6, dct2, {5, 2, 4})};
    const Cfg& g = ops[j.prob % 4]; Ref R = make_ref(g); int m = g.mtot(), n = g.nmeas();
    Vec bv = R.A.mul(genv(m, 31)), x0 = R.A.T().mul(bv); Buf b(bv), x(x0);
    l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = 0.1 * nrm2(bv); o.mu = 10; o.lbtol = 0.1; o.newton_tol = 1e-2; o.newton_max_iter = 40; o.cg_tol = 1e-8; o.cg_maxiter = 200; o.dct_mode = g.mode;
    o.verbose = verbose; o.cg_verbose = cgverbose; l1c_LBResult r; memset(&r, 0, sizeof r); int st = 0;
    if (j.entry == 1) { SetUp S(g, c); r = l1c_l1qc_newton(m, x, n, b, o, S.L.f); st = r.status; }
    else { std::vector<int> pix = g.pix; st = l1qc_dct(g.mrow, g.mcol, x, n, b, pix.data(), o, &r); }
    out = x.vec(); out.push_back(st); out.push_back(r.l1); out.push_back(r.total_newton_iter); out.push_back(r.total_cg_iter);
  } else if (j.entry <= 4) {
    int n = 3 + 2 * j.prob; Mat A(n, n); Vec g = genv(n * n, 8); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) A(i, k) = (i == k ? 8 : 0) + 0.3 * (g[i * n + k] + g[k * n + i]);
    Buf b(genv(n, 4)), x(n, 0.0), d(n, 0.1); double** W = l1c_calloc_double_2D(5, n); l1c_CgResults r; memset(&r, 0, sizeof r); l1c_CgParams p; memset(&p, 0, sizeof p); p.tol = 1e-6; p.max_iter = 50; p.verbose = verbose;
    int st = j.entry == 3 ? l1c_cgsolve(n, x, b, W, mulA, &A, &r, p) : l1c_cgsolve_diag_precond(n, x, b, d, W, mulA, &A, &r, p);
    l1c_free_double_2D(5, W); out = x.vec(); out.push_back(st); out.push_back(r.cgres); out.push_back(r.cgiter);
  } else if (j.entry == 5) {
    int n = 2 + j.prob, m = 4; Buf f(genv(n * m, 5)), u(n * m, 0.0); int st = l1c_breg_anistropic_TV(n, m, u, f, 2.0, 1e-3, 50, 2); out = u.vec(); out.push_back(st);
  } else {
    Cfg g = j.prob % 2 ? mk_tv(3, 4, dct2, analysis, 0.5, 1.0, {1, 4, 7}) : mk_mat(2, 4, 3); SetUp S(g, c); RefOps R(g);
    for (int o = 0; o < O_COUNT; o++) { int in, ou; opdims(R.r, o, in, ou); Buf x(genv(in, o)), y(ou, 0.0); opf(S.L.f, o)(x, y); Vec v = y.vec(); out.insert(out.end(), v.begin(), v.end()); }
  }
  c.step();
  return out;
}
static void fresh(int cur) { for (auto& t : TXT) t.clear(); ALL.clear(); NCALL = 0; SWITCH_AT = -1; CUR = cur; WRONG = false; }
int main(int argc, char** argv) {
  mc::init(argc, argv);
  static l1c_printf_t* const DEF = l1c_printf;
  static l1c_printf_t* PR[4]; PR[0] = rec0; PR[1] = rec1; PR[2] = rec2; PR[3] = DEF;
  mc::explore("default", [](mc::Ctx& c) {
    c.begin("default printer"); std::string s = capture([] { l1c_printf("hello %d %s\n", 42, "x"); fflush(stdout); });
    if (s != "hello 42 x\n") c.fail("the default printer wrote '%s' to standard output", s.c_str());
    c.check(); c.step(); c.state(1);
  });
  mc::explore("replace", [](mc::Ctx& c) {
    int depth = mc::thorough() ? 9 : 7; std::vector<int> seq; int cur = 3;
    for (int i = 0; i < depth; i++) seq.push_back(c.choose(4, "printer"));
    c.begin("replacements %s", istr(seq).c_str());
    struct Restore { ~Restore() { l1c_replace_printf(DEF); } } rs;
    l1c_replace_printf(DEF);
    for (int i = 0; i < depth; i++) {
      l1c_printf_t* old = l1c_replace_printf(PR[seq[i]]); c.step(); c.check(2);
      if (old != PR[cur]) c.fail("replacement %d did not return the printer installed before it", i);
      cur = seq[i];
      if (l1c_printf != PR[cur]) c.fail("replacement %d did not install the printer", i);
      if (cur < 3) { fresh(cur); l1c_printf("t%d", i); if (TXT[cur] != "t" + std::to_string(i) || WRONG) c.fail("text did not reach the installed printer"); }
      c.state(mc::mix(i, cur));
    }
  });
  mc::explore("solvers", [](mc::Ctx& c) {
    Job j; j.entry = c.choose(NE, "entry"); j.prob = c.choose(5, "problem"); int v = c.pick({0, 1, 2, 3, 7}), cv = c.pick({0, 1, 4}); int pr = c.choose(4, "printer");
    if (cv && (j.entry < 1 || j.entry > 2)) c.prune();
    if (v && j.entry >= 5) c.prune();
    c.begin("%s problem %d verbose %d cg_verbose %d printer %d", EN[j.entry], j.prob, v, cv, pr);
    struct Restore { ~Restore() { l1c_replace_printf(DEF); } } rs;
    l1c_replace_printf(rec0); fresh(0);
    Vec base; std::string o0 = capture([&] { base = run(c, j, 0, 0); }); c.check(2);
    if (!o0.empty()) c.fail("standard output received '%s' although another printer is installed", o0.substr(0, 200).c_str());
    if (NCALL) c.fail("verbosity 0 printed '%s'", ALL.substr(0, 200).c_str());
    fresh(pr); l1c_replace_printf(PR[pr]);
    Vec got; std::string o1 = capture([&] { got = run(c, j, v, cv); }); c.check(4);
    if (got.size() != base.size() || memcmp(got.data(), base.data(), got.size() * 8)) c.fail("results change with the verbosity or printer: %s instead of %s", vstr(got).c_str(), vstr(base).c_str());
    if (WRONG) c.fail("text went to a printer that is not installed");
    std::string text = pr == 3 ? o1 : ALL;
    if (pr != 3 && !o1.empty()) c.fail("standard output received '%s' although another printer is installed", o1.substr(0, 200).c_str());
    if (l1c_printf != PR[pr]) c.fail("the solver changed the installed printer");
    if (v == 0 && cv == 0 && !text.empty()) c.fail("verbosity 0 printed '%s'", text.substr(0, 200).c_str());
    bool must = v > 0 && j.entry <= 2; if (v == 1 && (j.entry == 3 || j.entry == 4)) must = true; if (cv == 1 && (j.entry == 1 || j.entry == 2)) must = true;
    if (must && text.empty()) c.fail("verbosity %d/%d reported nothing", v, cv);
    // the same text whichever printer is installed
    fresh(2); l1c_replace_printf(rec2); std::string o2 = capture([&] { run(c, j, v, cv); });
    if (!o2.empty()) c.fail("standard output received '%s'", o2.substr(0, 200).c_str());
    if (notime(ALL) != notime(text)) c.fail("the text differs between printers");
    c.state(mc::hbytes(notime(text).data(), notime(text).size(), mc::mix(j.entry * 8 + j.prob, v * 10 + cv))); c.outcome(text.empty());
  });
  // a printer may be replaced at any time: the k-th call installs another one
  mc::explore("switch", [](mc::Ctx& c) {
    Job j; j.entry = c.choose(5, "entry"); j.prob = c.choose(3, "problem"); int v = c.pick({1, 2}), k = 1 + c.choose(mc::thorough() ? 60 : 25, "call");
    c.begin("%s problem %d verbose %d, printer replaced during call %d", EN[j.entry], j.prob, v, k);
    struct Restore { ~Restore() { l1c_replace_printf(DEF); } } rs;
    l1c_replace_printf(rec2); fresh(2); Vec base = run(c, j, v, 1); std::string want = notime(ALL); int n = NCALL;
    if (k > n) c.prune();
    l1c_replace_printf(rec0); fresh(0); SWITCH_AT = k; Vec got; std::string o = capture([&] { got = run(c, j, v, 1); }); c.check(4);
    if (!o.empty()) c.fail("standard output received '%s'", o.substr(0, 200).c_str());
    if (WRONG) c.fail("text went to a printer that is no longer installed");
    if (notime(ALL) != want || NCALL != n) c.fail("text lost or added when the printer is replaced");
    if (got.size() != base.size() || memcmp(got.data(), base.data(), got.size() * 8)) c.fail("results change");
    c.state(mc::mix(j.entry * 10 + j.prob, k * 4 + v)); c.outcome(k < n);
  });
  return mc::finish();
}
