// C06: every allocation and every plan creation of every entry point fails, once or from then on.
#include "nprob.hpp"
#include <cjson/cJSON.h>
#include <map>
extern "C" {
int l1qc_dct(int, int, double*, int, double*, l1c_int*, l1c_L1qcOpts, l1c_LBResult*);
int extract_json_double_array(cJSON*, char*, double**, l1c_int*);
int load_file_as_text(char*, char**);
int load_file_to_json(char*, cJSON**);
int extract_json_int_array(cJSON*, char*, l1c_int**, l1c_int*);
void __wrap_free(void*);
void* __real_malloc(size_t);
}
// a call: status, numerical result, and whether its inputs are intact
struct Out { int status = 0; Vec res; std::string bad; };
static std::string FILEN = "c06." + std::to_string(getpid()) + ".json";
typedef std::function<Out(mc::Ctx&)> Fn;
struct Entry { std::string name; Fn fn; };
static void apply_all(Live& L, const Cfg& g, Vec& out) {
  RefOps R(g);
  for (int o = 0; o < O_COUNT; o++) { int in, ou; opdims(R.r, o, in, ou); Buf x(genv(in, o)), y(ou, 0.0); opf(L.f, o)(x, y); Vec v = y.vec(); out.insert(out.end(), v.begin(), v.end()); }
}
static l1c_L1qcOpts lopts(double eps, DctMode md) { l1c_L1qcOpts o; memset(&o, 0, sizeof o); o.epsilon = eps; o.mu = 10; o.lbtol = 1; o.newton_tol = 1e-2; o.newton_max_iter = 20; o.cg_tol = 1e-8; o.cg_maxiter = 100; o.dct_mode = md; return o; }
static std::vector<Entry> entries() {
  std::vector<Entry> E;
  std::vector<Cfg> sets{mk_dct(5, 1, dct1, {3, 0}), mk_dct(1, 5, dct2, {4, 2}), mk_dct(3, 4, dct1, {11, 2}), mk_dct(3, 4, dct2, {11, 2, 0}), mk_mat(2, 5, 3), mk_mat(3, 2, 4)};
  for (int b = 0; b < 2; b++) for (int k = 0; k < 4; k++) for (int d = 0; d < 2; d++) sets.push_back(mk_tv(3, 4, d ? dct2 : dct1, b ? synthesis : analysis, k & 1 ? 0.5 : 0, k & 2 ? 1.5 : 0, {11, 2, 5}));
  { Cfg g = mk_dct(7, 1, dct1, {3, 6}); g.kind = K_DCT1_DIRECT; sets.push_back(g); g = mk_dct(3, 5, dct2, {3, 6, 14}); g.kind = K_DCT2_DIRECT; sets.push_back(g); }
  for (auto& g : sets) E.push_back({"set-up " + g.str(), [g](mc::Ctx& c) { Out o; Live L(g); o.status = L.setup(); if (!o.status) { apply_all(L, g, o.res); L.f.destroy(); } if (L.pix != g.pix || (L.mat && !L.mat->same(g.mat))) o.bad = "inputs modified"; return o; }});
  std::vector<NProb> PS{{mk_ortho(2, 5, 6), 1}, {mk_dct(5, 1, dct1, {3, 0}), 1}, {mk_tv(3, 4, dct2, analysis, 0.5, 2.0, {11, 2, 5}), 1}};
  for (auto& q : PS) { Cfg g = q.g;
    E.push_back({"nesta on " + g.str(), [g](mc::Ctx& c) { Out o; Live L(g); if (L.setup()) { o.status = 1; o.bad = ""; return o; } Vec bv = genv(L.f.n, 3); Buf b(bv), x(L.f.m, 9.0); o.status = l1c_nesta(L.f.m, x, L.f.n, b, L.f, nopts(1e-2, 1e-3, 0.1, 2)); o.res = x.vec(); if (!b.same(bv)) o.bad = "data modified"; if (o.status) for (double t : o.res) if (t != 9) o.bad = "the solution vector was written although the call failed"; L.f.destroy(); return o; }});
    E.push_back({"nesta problem for " + g.str(), [g](mc::Ctx& c) { Out o; Live L(g); if (L.setup()) { o.status = 1; return o; } l1c_NestaProb* p = _l1c_NestaProb_new(L.f); o.status = !p; if (p) { Vec bv = genv(L.f.n, 3); Buf b(bv); double bm = 0, bt = 0; l1c_NestaOpts no = nopts(1e-2, 1e-3, 0.1, 2); o.status = l1c_nesta_setup(p, &bm, &bt, b, L.f, &no); o.res = {bm, bt, p->mu_j}; } l1c_free_nesta_problem(p); L.f.destroy(); return o; }});
  }
  std::vector<Cfg> ls{mk_mat(2, 5, 8), mk_dct(5, 1, dct1, {3, 0}), mk_dct(3, 3, dct2, {8, 3, 4, 0})};
  for (auto& g : ls) E.push_back({"l1qc_newton on " + g.str(), [g](mc::Ctx& c) { Out o; Live L(g); if (L.setup()) { o.status = 1; return o; } Ref R = make_ref(g); Vec x0 = genv(R.m, 31), bv = R.A.mul(x0); Buf b(bv), x(x0); l1c_LBResult r = l1c_l1qc_newton(R.m, x, R.n, b, lopts(0.1 * nrm2(bv), dct1), L.f); o.status = r.status; o.res = x.vec(); if (!b.same(bv)) o.bad = "data modified"; if (o.status && !x.same(x0)) o.bad = "the starting point was modified although the call failed"; L.f.destroy(); return o; }});
  for (auto& g : {mk_dct(5, 1, dct1, {3, 0}), mk_dct(3, 3, dct2, {8, 3, 4, 0}), mk_dct(2, 3, dct1, {5, 1})}) E.push_back({"l1qc_dct on " + g.str(), [g](mc::Ctx& c) { Out o; Ref R = make_ref(g); std::vector<int> pix = g.pix; Vec bv = R.A.mul(genv(R.m, 31)); Buf b(bv), x(R.m, 9.0); l1c_LBResult r; memset(&r, 0, sizeof r); o.status = l1qc_dct(g.mrow, g.mcol, x, R.n, b, pix.data(), lopts(0.1 * nrm2(bv), g.mode), &r); o.res = x.vec(); if (!b.same(bv) || pix != g.pix) o.bad = "inputs modified"; if (o.status) for (double t : o.res) if (t != 9) o.bad = "output image written although the call failed"; return o; }});
  for (int s = 0; s < 3; s++) { int n = s == 1 ? 2 : 3, m = s == 2 ? 2 : 4; E.push_back({"TV denoising", [n, m](mc::Ctx& c) { Out o; Vec fv = genv(n * m, 5); Buf f(fv), u(n * m, 9.0); o.status = l1c_breg_anistropic_TV(n, m, u, f, 2.0, 1e-3, 30, 2); o.res = u.vec(); if (!f.same(fv)) o.bad = "image modified"; if (o.status) for (double t : o.res) if (t != 9) o.bad = "the output image was written although the call failed"; return o; }}); }
  for (int z = 0; z < 2; z++) for (int r : {0, 1, 4}) E.push_back({"2-D allocation", [z, r](mc::Ctx& c) { Out o; double** q = z ? l1c_calloc_double_2D(r, 3) : l1c_malloc_double_2D(r, 3); o.status = !q; if (q && z) for (int i = 0; i < r; i++) for (int k = 0; k < 3; k++) o.res.push_back(q[i][k]); l1c_free_double_2D(r, q); return o; }});
  for (int z = 0; z < 2; z++) E.push_back({"1-D allocation", [z](mc::Ctx& c) { Out o; double* q = z ? l1c_calloc_double(5) : l1c_malloc_double(5); o.status = !q; if (q && z) o.res.assign(q, q + 5); l1c_free_double(q); return o; }});
  E.push_back({"load_file_as_text", [](mc::Ctx& c) { Out o; FILE* f = fopen(FILEN.c_str(), "w"); fputs("{\"a\":[1,2.5],\"b\":3}", f); fclose(f); char* d = nullptr; o.status = load_file_as_text((char*)FILEN.c_str(), &d); if (!o.status) { o.res.push_back(strlen(d)); __wrap_free(d); } return o; }});
  E.push_back({"load_file_to_json", [](mc::Ctx& c) { Out o; FILE* f = fopen(FILEN.c_str(), "w"); fputs("{\"a\":[1,2.5],\"b\":3}", f); fclose(f); cJSON* d = nullptr; o.status = load_file_to_json((char*)FILEN.c_str(), &d); if (!o.status) { o.res.push_back(cJSON_GetArraySize(cJSON_GetObjectItem(d, "a"))); cJSON_Delete(d); } return o; }});
  for (int w = 0; w < 2; w++) for (int n : {1, 5}) E.push_back({w ? "extract_json_int_array" : "extract_json_double_array", [w, n](mc::Ctx& c) { Out o; std::string s = "{\"a\":["; for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(i * 3); s += "]}"; cJSON* j = cJSON_Parse(s.c_str()); l1c_int k = 0; if (w) { l1c_int* x = nullptr; o.status = extract_json_int_array(j, (char*)"a", &x, &k); if (!o.status) { for (int i = 0; i < k; i++) o.res.push_back(x[i]); __wrap_free(x); } } else { double* x = nullptr; o.status = extract_json_double_array(j, (char*)"a", &x, &k); if (!o.status) { o.res.assign(x, x + k); l1c_free_double(x); } } cJSON_Delete(j); return o; }});
  return E;
}
// faults inside the JSON parser too
static void* cj_malloc(size_t n) { return malloc(n); }
static void cj_free(void* p) { free(p); }
static bool same(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; double s = std::max(nrminf(a), nrminf(b)); for (size_t i = 0; i < a.size(); i++) if (!(fabs(a[i] - b[i]) <= 1e-12 * s)) return false; return true; }
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  cJSON_Hooks hk{cj_malloc, cj_free}; cJSON_InitHooks(&hk);   // malloc/free of this object are interposed
  static const std::vector<Entry> E = entries();
  static std::map<int, Out> good; static std::map<int, std::pair<long, long>> cnt;
  auto baseline = [](mc::Ctx& c, int e) {
    if (good.count(e)) return;
    wrap_reset(); wrap_junk(0x7f); Out o = E[e].fn(c); cnt[e] = {wrap_requests(), wrap_plan_requests()};
    if (o.status || !o.bad.empty() || wrap_error()) c.fail("without faults: status %d %s %s", o.status, o.bad.c_str(), wrap_error() ? wrap_error() : "");
    good[e] = o;
  };
  static std::function<void(mc::Ctx&, int)> BL = baseline;
  mc::explore("faults", [](mc::Ctx& c) {
    int e = c.choose((int)E.size(), "entry");
    int prior = c.choose(4, "history");     // 0: none, 1: a successful call, 2: a failed call, 3: a successful call of another entry
    c.begin("%s, %s", E[e].name.c_str(), prior == 0 ? "first call" : prior == 1 ? "after a successful call" : prior == 2 ? "after a failed call" : "after another kind of call");
    BL(c, e);
    struct Off { ~Off() { wrap_reset(); wrap_junk(-1); } } off;
    long N = cnt[e].first, P = cnt[e].second;
    int k = c.choose((int)(N + P), "fault point"), sticky = c.choose(2, "sticky");
    c.note("; %s request %ld%s", k < N ? "memory" : "plan", (k < N ? k : k - N) + 1, sticky ? " and all later ones" : "");
    wrap_reset(); wrap_junk(0x7f); long lv = wrap_live(), lp = wrap_live_plans();
    if (prior == 1) { Out o = E[e].fn(c); if (o.status) c.fail("the first call failed"); }
    if (prior == 2) { wrap_arm(1, 1); E[e].fn(c); wrap_disarm(); if (wrap_error()) c.fail("first failed call: %s", wrap_error()); }
    if (prior == 3) { Out o = E[(e + 5) % E.size()].fn(c); if (o.status) c.fail("the other call failed"); }
    wrap_reset();
    if (k < N) wrap_arm(k + 1, sticky); else wrap_arm_plan(k - N + 1, sticky);
    Out o = E[e].fn(c); c.step();
    wrap_disarm(); c.check(5);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (!wrap_injected()) c.prune();     // fewer requests after this history
    if (!o.bad.empty()) c.fail("%s", o.bad.c_str());
    if (!o.status && !same(o.res, good[e].res)) c.fail("the call reports success although it ran out of memory, and its result is wrong");
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("status %d; %ld blocks and %ld plans were not released", o.status, wrap_live() - lv, wrap_live_plans() - lp);
    // memory is available again
    Out r = E[e].fn(c); c.step(); c.check(3);
    if (wrap_error()) c.fail("the call after the failure: %s", wrap_error());
    if (r.status) c.fail("the call after the failure returns %d", r.status);
    if (!same(r.res, good[e].res)) c.fail("the call after the failure gives a different result");
    if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("the call after the failure leaks");
    c.state(mc::mix(mc::mix(e, prior), k * 2 + sticky)); c.outcome(mc::mix(e, o.status));
  });
  // two separate faults in one call or in two consecutive calls
  mc::explore("pairs", [](mc::Ctx& c) {
    int e = c.choose((int)E.size(), "entry");
    c.begin("two failed calls of %s", E[e].name.c_str());
    BL(c, e);
    struct Off { ~Off() { wrap_reset(); wrap_junk(-1); } } off;
    long N = cnt[e].first, P = cnt[e].second, n = N + P; if (n > 14 && !mc::thorough()) n = 14;
    int k1 = c.choose((int)n), k2 = c.choose((int)n);
    c.note("; requests %d then %d", k1 + 1, k2 + 1);
    wrap_reset(); wrap_junk(0x7f); long lv = wrap_live(), lp = wrap_live_plans();
    for (int k : {k1, k2}) {
      wrap_reset(); if (k < N) wrap_arm(k + 1, 0); else wrap_arm_plan(k - N + 1, 0);
      Out o = E[e].fn(c); c.step(); wrap_disarm(); c.check(3);
      if (wrap_error()) c.fail("%s", wrap_error());
      if (!o.bad.empty()) c.fail("%s", o.bad.c_str());
      if (wrap_injected() && !o.status && !same(o.res, good[e].res)) c.fail("success reported with a wrong result");
      if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("status %d; %ld blocks and %ld plans were not released", o.status, wrap_live() - lv, wrap_live_plans() - lp);
    }
    Out r = E[e].fn(c); c.step(); c.check(2);
    if (r.status || !same(r.res, good[e].res) || wrap_error()) c.fail("the call after two failures returns %d %s", r.status, wrap_error() ? wrap_error() : "");
    c.state(mc::mix(mc::mix(e, 77), k1 * 100 + k2));
  });
  remove(FILEN.c_str());
  return mc::finish();
}
