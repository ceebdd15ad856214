// Reference operators in functional form (separable cosine sums in long double), for signals too large for dense matrices.
#pragma once
#include "ops.hpp"
struct Cos1 {   // one-dimensional orthonormal cosine transform of length N by its definition
  int N; std::vector<ld> t; ld w0, w1;
  explicit Cos1(int n) : N(n), t((size_t)4 * n), w0(sqrtl(1.0L / n)), w1(sqrtl(2.0L / n)) {
    const ld pi = acosl(-1.0L);
    for (int k = 0; k < 4 * n; k++) t[k] = cosl(pi * k / (2.0L * n));
  }
  void inv(const ld* x, ld* y, int sx, int sy) const {     // y[i] = sum_k w_k x_k cos(pi (2i+1) k / 2N)
    for (int i = 0; i < N; i++) {
      ld s = w0 * x[0]; int a = 0, st = 2 * i + 1;
      ld u = 0;
      for (int k = 1; k < N; k++) { a += st; if (a >= 4 * N) a -= 4 * N; u += x[(size_t)k * sx] * t[a]; }
      y[(size_t)i * sy] = s + w1 * u;
    }
  }
  void fwd(const ld* x, ld* y, int sx, int sy) const {     // the transpose
    for (int k = 0; k < N; k++) {
      ld u = 0; int a = k, st = (2 * k) % (4 * N);
      for (int i = 0; i < N; i++) { u += x[(size_t)i * sx] * t[a]; a += st; if (a >= 4 * N) a -= 4 * N; }
      y[(size_t)k * sy] = (k ? w1 : w0) * u;
    }
  }
};
typedef std::vector<ld> LVec;
struct BigRef {
  Cfg c; int R, C, mt; bool one;
  std::unique_ptr<Cos1> a, b;
  Ref h;      // header only
  explicit BigRef(const Cfg& cc) : c(cc), R(cc.mrow), C(cc.mcol), mt(cc.mrow * cc.mcol) {
    one = R == 1 || C == 1 || c.mode == dct1;
    if (one) a.reset(new Cos1(mt)); else { a.reset(new Cos1(R)); b.reset(new Cos1(C)); }
    h.n = (int)c.pix.size(); h.q = mt; h.m = h.p = mt; h.normW = 1;
    int d = mt * (1 + (c.kind == K_TV && c.av > 0) + (c.kind == K_TV && c.ah > 0));
    if (c.kind == K_TV) { if (c.bp == analysis) h.p = d; else { h.m = d; h.w_prefix = true; } }
  }
  LVec idct(const ld* x) const {
    LVec y(mt);
    if (one) { a->inv(x, y.data(), 1, 1); return y; }
    LVec t(mt);
    for (int j = 0; j < C; j++) a->inv(x + j, t.data() + j, C, C);
    for (int i = 0; i < R; i++) b->inv(t.data() + (size_t)i * C, y.data() + (size_t)i * C, 1, 1);
    return y;
  }
  LVec dct(const ld* x) const {
    LVec y(mt);
    if (one) { a->fwd(x, y.data(), 1, 1); return y; }
    LVec t(mt);
    for (int j = 0; j < C; j++) a->fwd(x + j, t.data() + j, C, C);
    for (int i = 0; i < R; i++) b->fwd(t.data() + (size_t)i * C, y.data() + (size_t)i * C, 1, 1);
    return y;
  }
  LVec dict(const LVec& x) const {       // [M, av Dy, ah Dx] x
    LVec y = idct(x.data());
    const ld* v = x.data() + mt;
    if (c.kind == K_TV && c.av > 0) { for (int i = 0; i + 1 < R; i++) for (int j = 0; j < C; j++) y[i * C + j] += c.av * (v[(i + 1) * C + j] - v[i * C + j]); v += mt; }
    if (c.kind == K_TV && c.ah > 0) { for (int i = 0; i < R; i++) for (int j = 0; j + 1 < C; j++) y[i * C + j] += c.ah * (v[i * C + j + 1] - v[i * C + j]); }
    return y;
  }
  LVec dictT(const LVec& x) const {
    LVec y = dct(x.data());
    if (c.kind == K_TV && c.av > 0) { LVec t(mt, 0.0L); for (int i = 0; i + 1 < R; i++) for (int j = 0; j < C; j++) { t[(i + 1) * C + j] += c.av * x[i * C + j]; t[i * C + j] -= c.av * x[i * C + j]; } y.insert(y.end(), t.begin(), t.end()); }
    if (c.kind == K_TV && c.ah > 0) { LVec t(mt, 0.0L); for (int i = 0; i < R; i++) for (int j = 0; j + 1 < C; j++) { t[i * C + j + 1] += c.ah * x[i * C + j]; t[i * C + j] -= c.ah * x[i * C + j]; } y.insert(y.end(), t.begin(), t.end()); }
    return y;
  }
  LVec pick(const LVec& x) const { LVec y; for (int p : c.pix) y.push_back(x[p]); return y; }
  LVec put(const LVec& y) const { LVec x(mt, 0.0L); for (size_t i = 0; i < c.pix.size(); i++) x[c.pix[i]] += y[i]; return x; }
  LVec op(int o, const LVec& x) const {
    bool an = c.kind == K_TV && c.bp == analysis;
    switch (o) {
      case O_Mx: return an ? x : dict(x);
      case O_Mty: return an ? x : dictT(x);
      case O_Rx: return pick(x);
      case O_Rty: return put(x);
      case O_Ax: return pick(op(O_Mx, x));
      case O_Aty: return op(O_Mty, put(x));
      case O_AtAx: return op(O_Aty, op(O_Ax, x));
      case O_Wz: return an ? dict(x) : LVec(x.begin(), x.begin() + mt);
      default: return an ? dictT(x) : LVec(x.begin(), x.begin() + mt);
    }
  }
  Vec apply(int o, const Vec& x) const { LVec y = op(o, LVec(x.begin(), x.end())); return Vec(y.begin(), y.end()); }
};
inline std::vector<Vec> big_vectors(int k) {
  std::vector<Vec> v{genv(k, 5 + k)};
  Vec e(k, 0.0); e[0] = 1; e[k - 1] = -2; e[k / 2] += 3; e[k / 3] += -1; v.push_back(e);
  Vec s(k, 0.0); for (int i = 0; i < k; i++) s[i] = 1 + (i % 7) + 1e-3 * i; v.push_back(s);
  return v;
}
inline void check_big(mc::Ctx& c, const Cfg& cfg, double tol) {
  BigRef R(cfg);
  Live L(cfg);
  wrap_reset();
  long lv = wrap_live(), lp = wrap_live_plans();
  int st = L.setup();
  c.step();
  if (st) c.fail("set-up of a valid configuration returned %d", st);
  check_header(c, L.f, R.h);
  ld nw = 1;          // W W^T = I + av^2 Dy Dy^T + ah^2 Dx Dx^T, a Kronecker sum whose largest eigenvalue is known in closed form
  if (cfg.kind == K_TV && cfg.bp == analysis) {
    auto top = [](int k) { ld s = cosl(acosl(-1.0L) / (2 * k)); return 4 * s * s; };
    nw = sqrtl(1 + (ld)cfg.av * cfg.av * top(cfg.mrow) + (ld)cfg.ah * cfg.ah * top(cfg.mcol));
  }
  c.check();
  if (!(L.f.norm_W >= (double)nw * (1 - 1e-12))) c.fail("norm_W = %.15g is below the spectral norm of W, %.15g", L.f.norm_W, (double)nw);
  if (cfg.kind != K_TV && !(fabs(L.f.norm_W - 1) <= 1e-9)) c.fail("norm_W = %g; W is the identity", L.f.norm_W);
  uint64_t h = mc::hbytes(cfg.str().data(), cfg.str().size());
  for (int o = 0; o < O_COUNT; o++) {
    int in, out;
    opdims(R.h, o, in, out);
    int kk = 0;
    for (auto& x : big_vectors(in)) {
      Buf bx(x), by((size_t)out, kk == 1 ? NAN : 7.25);
      wrap_reset();
      opf(L.f, o)(bx, by);
      c.step();
      if (wrap_error()) c.fail("%s: %s", OPN[o], wrap_error());
      if (!bx.same(x)) c.fail("%s changed its input vector", OPN[o]);
      if (!bx.guards_ok() || !by.guards_ok()) c.fail("%s wrote outside its output vector of %d elements", OPN[o], out);
      Vec want = R.apply(o, x);
      int b = cmpv(by, want, tol, nrm2(x));
      c.check();
      if (b >= 0) c.fail("%s: element %d of %d is %.15g, the documented matrix gives %.15g", OPN[o], b, out, by.d[b], want[b]);
      c.state(mc::mix(mc::mix(h, o * 8 + kk++), mc::hvals(by.d, std::min(out, 6))));
    }
  }
  L.inputs_intact(c);
  wrap_reset();
  L.f.destroy();
  c.step();
  if (wrap_error()) c.fail("destroy: %s", wrap_error());
  if (wrap_live() != lv || wrap_live_plans() != lp) c.fail("after destroy %ld blocks and %ld plans are still held", wrap_live() - lv, wrap_live_plans() - lp);
  c.outcome(h);
}
