// Transform sets of the library next to dense reference matrices.
#pragma once
#include "common.hpp"

enum Kind { K_DCT, K_TV, K_MAT, K_DCT1_DIRECT, K_DCT2_DIRECT };
struct Cfg {
  Kind kind = K_DCT;
  int mrow = 1, mcol = 1;
  DctMode mode = dct1;
  BpMode bp = analysis;
  double av = 0, ah = 0;
  std::vector<int> pix;       // K_DCT, K_TV
  Vec mat; int n = 0, m = 0;  // K_MAT
  int mtot() const { return kind == K_MAT ? m : mrow * mcol; }
  int nmeas() const { return kind == K_MAT ? n : (int)pix.size(); }
  std::string str() const {
    char b[256];
    if (kind == K_MAT) snprintf(b, 256, "matrix %dx%d %s", n, m, vstr(mat, 8).c_str());
    else snprintf(b, 256, "%s %dx%d %s%s av=%g ah=%g", kind == K_TV ? "dctTV" : kind == K_DCT ? "dct" : kind == K_DCT1_DIRECT ? "dct1_setup" : "dct2_setup", mrow, mcol,
                  mode == dct1 ? "dct1" : "dct2", kind == K_TV ? (bp == analysis ? " analysis" : " synthesis") : "", av, ah);
    return std::string(b) + (kind == K_MAT ? "" : " pix=" + istr(pix));
  }
};
struct Ref { int n, q, m, p; Mat A, M, W, R; double normW; bool w_prefix = false; };

inline Ref make_ref(const Cfg& c) {
  Ref r;
  int mt = c.mtot();
  if (c.kind == K_MAT) {
    r.n = c.n; r.q = r.m = r.p = c.m;
    r.A = Mat(c.n, c.m);
    for (int i = 0; i < c.n * c.m; i++) r.A.a[i] = c.mat[i];
    r.R = r.A; r.M = Mat::I(mt); r.W = Mat::I(mt); r.normW = 1;
    return r;
  }
  bool one = c.kind == K_DCT1_DIRECT || (c.kind != K_DCT2_DIRECT && (c.mrow == 1 || c.mcol == 1 || c.mode == dct1));
  Mat D = one ? idct1(mt) : idct2(c.mrow, c.mcol);
  Mat R = sel(c.pix, mt);
  r.n = (int)c.pix.size(); r.q = mt; r.R = R;
  if (c.kind != K_TV) {
    r.m = r.p = mt; r.M = D; r.W = Mat::I(mt); r.A = R.mm(D); r.normW = 1;
    return r;
  }
  std::vector<Mat> bl{D};
  if (c.av > 0) bl.push_back(Dym(c.mrow, c.mcol, c.av));
  if (c.ah > 0) bl.push_back(Dxm(c.mrow, c.mcol, c.ah));
  Mat dict = hcat(bl);
  if (c.bp == analysis) {
    r.m = mt; r.p = dict.c; r.M = Mat::I(mt); r.W = dict; r.A = R;
  } else {
    r.m = dict.c; r.p = mt; r.M = dict; r.A = R.mm(dict);
    r.W = Mat::I(mt);       // see w_prefix
    r.w_prefix = true;      // identity; only the first mtot entries are specified
  }
  r.normW = 1;
  return r;
}
// The library keeps the pointers it is given: they must stay alive and unchanged.
struct Live {
  l1c_AxFuns f;
  Cfg c;
  std::vector<int> pix;
  std::unique_ptr<Buf> mat;
  int status = -1;
  explicit Live(const Cfg& cc) : c(cc), pix(cc.pix) {
    memset(&f, 0, sizeof f);
    if (c.kind == K_MAT) mat.reset(new Buf(c.mat));
  }
  int setup() {
    switch (c.kind) {
      case K_DCT: return status = l1c_setup_dct_transforms((int)pix.size(), c.mrow, c.mcol, c.mode, pix.data(), &f);
      case K_TV: return status = l1c_setup_dctTV_transforms((int)pix.size(), c.mrow, c.mcol, c.av, c.ah, c.mode, c.bp, pix.data(), &f);
      case K_MAT: return status = l1c_setup_matrix_transforms(c.n, c.m, mat->d, &f);
      case K_DCT1_DIRECT: return status = l1c_dct1_setup((int)pix.size(), c.mrow * c.mcol, pix.data(), &f);
      case K_DCT2_DIRECT: return status = l1c_dct2_setup((int)pix.size(), c.mrow, c.mcol, pix.data(), &f);
    }
    return -1;
  }
  void inputs_intact(mc::Ctx& x) {
    if (pix != c.pix) x.fail("the pixel list given at set-up was modified");
    if (mat && (!mat->same(c.mat) || !mat->guards_ok())) x.fail("the matrix given at set-up was modified");
  }
};

enum Op { O_Ax, O_Aty, O_AtAx, O_Mx, O_Mty, O_Wz, O_Wtx, O_Rx, O_Rty, O_COUNT };
static const char* const OPN[] = {"Ax", "Aty", "AtAx", "Mx", "Mty", "Wz", "Wtx", "Rx", "Rty"};
typedef void (*opfn)(double*, double*);
inline opfn opf(const l1c_AxFuns& f, int o) {
  switch (o) {
    case O_Ax: return f.Ax; case O_Aty: return f.Aty; case O_AtAx: return f.AtAx; case O_Mx: return f.Mx; case O_Mty: return f.Mty;
    case O_Wz: return f.Wz; case O_Wtx: return f.Wtx; case O_Rx: return f.Rx; case O_Rty: return f.Rty;
  }
  return nullptr;
}
inline void opdims(const Ref& r, int o, int& in, int& out) {
  switch (o) {
    case O_Ax: in = r.m; out = r.n; break; case O_Aty: in = r.n; out = r.m; break; case O_AtAx: in = out = r.m; break;
    case O_Mx: in = r.m; out = r.q; break; case O_Mty: in = r.q; out = r.m; break;
    case O_Wz: in = r.p; out = r.m; break; case O_Wtx: in = r.m; out = r.p; break;
    case O_Rx: in = r.q; out = r.n; break; default: in = r.n; out = r.q; break;
  }
}
struct RefOps {
  Ref r; Mat At, Mt, Wt, Rt;
  explicit RefOps(const Cfg& c) : r(make_ref(c)), At(r.A.T()), Mt(r.M.T()), Wt(r.W.T()), Rt(r.R.T()) {}
  Vec apply(int o, const Vec& x) const {
    switch (o) {
      case O_Ax: return r.A.mul(x); case O_Aty: return At.mul(x);
      case O_AtAx: return At.mul(r.A.mul(x));
      case O_Mx: return r.M.mul(x); case O_Mty: return Mt.mul(x);
      case O_Wz: case O_Wtx:
        if (r.w_prefix) return Vec(x.begin(), x.begin() + r.q);
        return o == O_Wz ? r.W.mul(x) : Wt.mul(x);
      case O_Rx: return r.R.mul(x); default: return Rt.mul(x);
    }
  }
};
inline void check_header(mc::Ctx& c, const l1c_AxFuns& f, const Ref& r) {
  if (f.n != r.n || f.m != r.m || f.p != r.p || f.q != r.q)
    c.fail("advertised sizes n,m,p,q = %d,%d,%d,%d; the matrices have %d,%d,%d,%d", f.n, f.m, f.p, f.q, r.n, r.m, r.p, r.q);
  for (int o = 0; o < O_COUNT; o++) if (!opf(f, o)) c.fail("operator %s is not provided", OPN[o]);
  if (!f.destroy) c.fail("destroy is not provided");
}
// spectral norm of W by power iteration on W W^T (from several starts), accurate lower bound
inline double specnorm(const Mat& W) {
  double best = 0;
  Mat Wt = W.T();
  for (int s = 0; s < 3; s++) {
    Vec v = genv(W.c, 100 + s);
    double l = 0;
    for (int k = 0; k < 300; k++) {
      double nv = nrm2(v); if (nv == 0) break;
      for (double& t : v) t /= nv;
      Vec w = W.mul(v); l = nrm2(w); v = Wt.mul(w);
    }
    best = std::max(best, l);
  }
  return best;
}
// Runs one operator on one input through guarded buffers; compares with the reference.
inline Vec run_op(mc::Ctx& c, Live& L, const RefOps& R, int o, const Vec& x, double tol, double garbage = 7.25, bool compare = true) {
  int in, out;
  opdims(R.r, o, in, out);
  Buf bx(x), by((size_t)out, garbage);
  wrap_reset();
  opf(L.f, o)(bx, by);
  c.step();
  if (wrap_error()) c.fail("%s: %s", OPN[o], wrap_error());
  if (!bx.same(x)) {
    int k = 0; while (k < in && !memcmp(&bx.d[k], &x[k], 8)) k++;
    c.fail("%s changed its input vector at %d: %.17g -> %.17g", OPN[o], k, x[k], bx.d[k]);
  }
  if (!bx.guards_ok() || !by.guards_ok()) c.fail("%s wrote outside its output vector of %d elements", OPN[o], out);
  Vec got = by.vec();
  if (compare) {
    Vec want = R.apply(o, x);
    double sc = nrm2(x) * (R.r.w_prefix || !R.r.normW ? 1 : 1);
    int b = cmpv(by, want, tol, std::max(sc, nrminf(want)));
    c.check();
    if (b >= 0) c.fail("%s: element %d is %.15g, the documented matrix gives %.15g (input %s)", OPN[o], b, by.d[b], want[b], vstr(x).c_str());
  }
  return got;
}
// All structural input vectors for dimension k: every signed unit vector plus dense ones.
inline std::vector<Vec> probe_vectors(int k, bool lean = false) {
  std::vector<Vec> v;
  for (int j = 0; j < k; j++) { Vec e(k, 0.0); e[j] = 1; v.push_back(e); }
  for (int s = 0; s < 2; s++) v.push_back(genv(k, 11 + s + 17 * k));
  v.push_back(Vec(k, 0.0));
  if (!lean) {
    for (int j = 0; j < k; j++) { Vec e(k, 0.0); e[j] = -2.5; v.push_back(e); }
    v.push_back(Vec(k, 1.0));
    Vec g = genv(k, 13 + 17 * k), h = g; for (double& t : g) t *= 1e-9; for (double& t : h) t *= 1e9;
    v.push_back(g); v.push_back(h);
  }
  return v;
}
// mask families for m pixels; `count` many, deterministic
inline std::vector<std::vector<int>> mask_family(int m) {
  std::vector<std::vector<int>> F;
  auto add = [&](std::vector<int> v) { if (!v.empty() && std::find(F.begin(), F.end(), v) == F.end()) F.push_back(v); };
  std::vector<int> all(m); std::iota(all.begin(), all.end(), 0);
  add(all);
  add({0}); add({m - 1}); add({m / 2});
  std::vector<int> v;
  for (int i = 0; i < m; i += 2) v.push_back(i); add(v);
  v.clear(); for (int i = 1; i < m; i += 2) v.push_back(i); add(v);
  v.assign(all.rbegin(), all.rend()); add(v);
  v = all; std::rotate(v.begin(), v.begin() + m / 3, v.end()); add(v);
  v.clear(); for (int i = 0; i < m; i++) if (gen(i, 5) > 0) v.push_back(i); add(v);
  // unsorted subset
  std::vector<std::pair<double, int>> o; for (int i = 0; i < m; i++) o.push_back({gen(i, 6), i});
  std::sort(o.begin(), o.end());
  v.clear(); for (int i = 0; i < (m + 1) / 2; i++) v.push_back(o[i].second); add(v);
  v.clear(); for (int i = 0; i < m; i++) v.push_back(o[i].second); add(v);
  return F;
}
inline std::vector<int> subset_of(unsigned bits, int m) { std::vector<int> v; for (int i = 0; i < m; i++) if (bits >> i & 1) v.push_back(i); return v; }
// every ordered selection of distinct pixels (all permutations of all subsets)
inline void choose_ordered(mc::Ctx& c, int m, std::vector<int>& out) {
  std::vector<int> rest(m); std::iota(rest.begin(), rest.end(), 0);
  out.clear();
  while (!rest.empty()) {
    int k = c.choose((int)rest.size() + (out.empty() ? 0 : 1), "next pixel");
    if (k == (int)rest.size()) break;
    out.push_back(rest[k]); rest.erase(rest.begin() + k);
  }
}
// full check of one configuration
inline void check_config(mc::Ctx& c, const Cfg& cfg, double tol, bool lean = false) {
  RefOps R(cfg);
  Live L(cfg);
  wrap_reset();
  long lv = wrap_live(), lp = wrap_live_plans();
  int st = L.setup();
  c.step();
  if (st) c.fail("set-up of a valid configuration returned %d", st);
  check_header(c, L.f, R.r);
  if (cfg.kind == K_MAT || (cfg.kind != K_TV)) {
    if (!(L.f.norm_W >= 1 - 1e-9 && L.f.norm_W <= 1 + 1e-9)) c.fail("norm_W = %g; W is the identity", L.f.norm_W);
  } else {
    double s = cfg.bp == analysis ? specnorm(R.r.W) : 1.0;
    if (!(L.f.norm_W >= s * (1 - 1e-9))) c.fail("norm_W = %.12g is below the spectral norm of W (at least %.12g)", L.f.norm_W, s);
    if (!(L.f.norm_W <= sqrt(1 + 4 * cfg.av * cfg.av + 4 * cfg.ah * cfg.ah) * (1 + 1e-9))) c.fail("norm_W = %.12g is larger than the documented bound", L.f.norm_W);
  }
  uint64_t h = mc::hbytes(cfg.str().data(), cfg.str().size());
  for (int o = 0; o < O_COUNT; o++) {
    int in, out;
    opdims(R.r, o, in, out);
    uint64_t ho = mc::mix(h, o);
    auto pv = probe_vectors(in, lean);
    for (size_t k = 0; k < pv.size(); k++) {
      Vec y = run_op(c, L, R, o, pv[k], tol);
      c.state(mc::mix(mc::mix(ho, k), mc::hvals(y.data(), std::min<size_t>(y.size(), 6))));
    }
  }
  L.inputs_intact(c);
  wrap_reset();
  L.f.destroy();
  c.step();
  if (wrap_error()) c.fail("destroy: %s", wrap_error());
  if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("after destroy %ld blocks and %ld plans are still held", wrap_live() - lv, wrap_live_plans() - lp);
  c.outcome(h);
}
