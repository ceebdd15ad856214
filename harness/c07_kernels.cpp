// C07: every vector kernel at every length, every position of a special value.
#include "kern.hpp"
enum F { F_daxpby, F_init, F_mul, F_axpby_z, F_axpy_z, F_abs, F_abs_inplace, F_fma, F_EL,
         F_norm1 = F_EL, F_dsum, F_vsum, F_logsum, F_vlogsum, F_relerr, F_err, F_max, F_N };
static const char* FN[] = {"daxpby", "init_vec", "dxmuly_z", "daxpby_z", "daxpy_z", "abs_vec", "abs_vec in place", "vcl_dxMy_pz",
                           "dnorm1", "dsum", "vcl_sum", "dlogsum", "vcl_logsum", "dnrm2_rel_err", "dnrm2_err", "max_vec"};
struct In { Vec x, y, z; double a, b; };
static bool scaled_special(double s) { return s != 0; }
static void run(mc::Ctx& c, int f, int n, const In& in) {
  Buf x(in.x), y(in.y), z(in.z);
  Buf* out = nullptr;
  double red = 0;
  switch (f) {
    case F_daxpby: __l1c_daxpby(n, in.a, x, in.b, y); out = &y; break;
    case F_init: l1c_init_vec(n, x, in.a); out = &x; break;
    case F_mul: l1c_dxmuly_z(n, x, y, z); out = &z; break;
    case F_axpby_z: l1c_daxpby_z(n, in.a, x, in.b, y, z); out = &z; break;
    case F_axpy_z: l1c_daxpy_z(n, in.a, x, y, z); out = &z; break;
    case F_abs: l1c_abs_vec(n, x, z); out = &z; break;
    case F_abs_inplace: l1c_abs_vec(n, x, x); out = &x; break;
    case F_fma: vcl_dxMy_pz(n, x, y, z); out = &z; break;
    case F_norm1: red = l1c_dnorm1(n, x); break;
    case F_dsum: red = l1c_dsum(n, x); break;
    case F_vsum: red = vcl_sum(n, x); break;
    case F_logsum: red = l1c_dlogsum(n, in.a, x); break;
    case F_vlogsum: red = vcl_logsum(n, in.a, x); break;
    case F_relerr: red = l1c_dnrm2_rel_err(n, x, y); break;
    case F_err: red = l1c_dnrm2_err(n, x, y); break;
    case F_max: red = l1c_max_vec(n, x); break;
  }
  c.step();
  if (!x.guards_ok() || !y.guards_ok() || !z.guards_ok()) c.fail("%s wrote outside its %d elements", FN[f], n);
  if (out != &x && !x.same(in.x)) c.fail("%s modified its input x", FN[f]);
  if (out != &y && !y.same(in.y)) c.fail("%s modified its input y", FN[f]);
  if (out != &z && !z.same(in.z)) c.fail("%s modified an array it was not given", FN[f]);
  if (out) {
    for (int i = 0; i < n; i++) {
      double X = in.x[i], Y = in.y[i], Z = in.z[i]; ld w = 0; double mag = 0;
      switch (f) {
        case F_daxpby: case F_axpby_z: w = (ld)in.a * X + (ld)in.b * Y; mag = fabs(in.a * X) + fabs(in.b * Y); break;
        case F_init: w = in.a; break;
        case F_mul: w = (ld)X * Y; mag = fabs(X * Y); break;
        case F_axpy_z: w = (ld)in.a * X + Y; mag = fabs(in.a * X) + fabs(Y); break;
        case F_abs: case F_abs_inplace: w = fabsl(X); break;
        case F_fma: w = (ld)X * Y + Z; mag = fabs(X * Y) + fabs(Z); break;
      }
      c.check();
      if (!near(out->d[i], (double)w, std::isfinite(mag) ? 3 * EPS * mag : 0)) c.fail("%s of length %d: element %d is %.17g, expected %.17g", FN[f], n, i, out->d[i], (double)w);
    }
    c.state(mc::hvals(out->d, n, f + 100 * n));
    return;
  }
  ld w = 0, mag = 0;
  double tol = 0, want;
  switch (f) {
    case F_norm1: for (double v : in.x) w += fabsl(v); want = w; tol = (n + 4) * EPS * (double)w; break;
    case F_dsum: case F_vsum: for (double v : in.x) { w += v; mag += fabsl(v); } want = w; tol = (n + 4) * EPS * (double)mag; break;
    case F_logsum: case F_vlogsum:
      { bool neg = false, zero = false, inf = false, nan = false;
        for (double v : in.x) { double t = v * in.a; if (std::isnan(t)) nan = true; else if (t < 0) neg = true; else if (t == 0) zero = true; else if (std::isinf(t)) inf = true; else { ld l = logl((ld)v * in.a); w += l; mag += fabsl(l) + 1; } }
        if (neg || nan || (zero && inf)) want = NAN; else if (zero) want = -INFINITY; else if (inf) want = INFINITY; else want = w;
        tol = (n + 8) * 2 * EPS * (double)mag; }
      break;
    case F_relerr: case F_err: {
      ld d = 0, yy = 0; for (int i = 0; i < n; i++) { d += ((ld)in.x[i] - in.y[i]) * ((ld)in.x[i] - in.y[i]); yy += (ld)in.y[i] * in.y[i]; }
      want = f == F_err ? sqrtl(d) : sqrtl(d / yy); tol = (n + 8) * 4 * EPS * want; break; }
    case F_max: if (n <= 0) want = NAN; else { want = in.x[0]; for (double v : in.x) want = std::max(want, v); } tol = 0; break;
  }
  c.check();
  if (!near(red, want, tol)) c.fail("%s of length %d returned %.17g, expected %.17g", FN[f], n, red, want);
  c.state(mc::hvals(&red, 1, f + 100 * n)); c.outcome(mc::mix(f, std::isnan(red) ? 1 : std::isinf(red) ? (red > 0 ? 2 : 3) : 4));
}
static In base(int f, int n, int salt) {
  In in; in.x = genv(n, salt); in.y = genv(n, salt + 1); in.z = genv(n, salt + 2);
  if (f == F_logsum || f == F_vlogsum) for (double& v : in.x) v = fabs(v) + 0.01;
  in.a = 1; in.b = 1; return in;
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  static std::vector<int> LEN;
  int top = mc::thorough() ? 1100 : (mc::is_asan() ? 140 : 530);
  for (int i = 0; i <= top; i++) LEN.push_back(i);
  for (int p : {1024, 2048, 4096, 16384, 65536}) for (int d = -5; d <= 5; d++) if (p + d > top) LEN.push_back(p + d);
  if (!mc::is_asan()) for (int p : {10000, 32768, 100000, 131072, 262145, 1048577}) LEN.push_back(p), LEN.push_back(p + 3);
  static const std::vector<double> AL{1, -1, 0.5, 0, -2.75, 1e8};
  mc::explore("lengths", [](mc::Ctx& c) {
    int f = c.choose(F_N), n = c.pick(LEN), salt = c.choose(2);
    bool lg = f == F_logsum || f == F_vlogsum;
    double a = 1, b = 1;
    if (f == F_daxpby || f == F_axpby_z) { a = c.pick(AL); b = c.pick({1.0, -1.0, 0.0, 3.5}); }
    else if (f == F_axpy_z || f == F_init) a = c.pick(AL);
    else if (lg) a = c.pick({1.0, 0.5, -3.0, 1e100});
    if (n > 70000 && (salt || (a != 1 && a != -2.75) || (b != 1 && b != 3.5))) c.prune();
    c.begin("%s length %d a=%g b=%g data %d", FN[f], n, a, b, salt);
    In in = base(f, n, 7 * salt + 1); in.a = a; in.b = b;
    if (lg && a < 0) for (double& v : in.x) v = -v;
    if ((f == F_relerr || f == F_err) && n == 0) { if (f == F_relerr) c.prune(); }
    run(c, f, n, in);
  });
  // every magnitude: whole vectors tiny or huge, and vectors whose entries span many orders of magnitude
  mc::explore("scales", [](mc::Ctx& c) {
    int f = c.choose(F_N), n = c.pick({1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 67, 130, 1000});
    bool lg = f == F_logsum || f == F_vlogsum;
    static const std::vector<double> SC{1e-140, 1e-60, 1e-20, 1e-12, 1e-8, 1e-4, 1e4, 1e8, 1e12, 1e20, 1e60, 1e140};
    int k = c.choose((int)SC.size() + 3), who = c.choose(3);
    double a = 1, b = 1;
    if (f == F_daxpby || f == F_axpby_z) { a = c.pick({1.0, -2.5e-11, 3e11}); b = c.pick({1.0, -1e-9}); }
    else if (f == F_axpy_z || f == F_init) a = c.pick({1.0, -2.5e-11, 3e11});
    else if (lg) a = c.pick({1.0, 1e-80, 1e80});
    else if (f == F_norm1 || f == F_dsum || f == F_vsum || f == F_max || f == F_abs || f == F_abs_inplace) { if (who) c.prune(); }
    c.begin("%s length %d magnitude %d of %s a=%g b=%g", FN[f], n, k, who == 0 ? "x and y" : who == 1 ? "x" : "y", a, b);
    In in = base(f, n, 4); in.a = a; in.b = b;
    auto put = [&](Vec& v, int s) {
      for (int i = 0; i < n; i++) {
        double t = k < (int)SC.size() ? SC[k] : k == (int)SC.size() ? pow(10, (i * 7 + s) % 41 - 20) : k == (int)SC.size() + 1 ? pow(10, -(i % 24)) : pow(10, i % 24);
        v[i] *= t;
      }
    };
    if (who != 2) put(in.x, 0);
    if (who != 1 && !lg) put(in.y, 3);
    if (f == F_fma) put(in.z, 5);
    run(c, f, n, in);
    if (f == F_err || f == F_relerr) {      // nearly equal vectors
      in.y = in.x; for (int i = 0; i < n; i++) in.y[i] *= 1 + (i % 3 - 1) * 1e-11 * (1 + i % 5);
      in.y[n - 1] *= 1 + 1e-13;
      run(c, f, n, in);
    }
  });
  // a marked element at every position: shows which elements take part
  mc::explore("one_element", [](mc::Ctx& c) {
    int f = c.choose(F_N), n = 1 + c.choose(mc::thorough() ? 130 : 67);
    bool lg = f == F_logsum || f == F_vlogsum;
    int k = c.choose(n);
    std::vector<double> S;
    if (lg) S = {0.0, -0.0, -1.0, -1e-300, INFINITY, 1e300, 1e-300, -INFINITY, NAN};
    else if (f < F_EL) S = {NAN, INFINITY, -INFINITY, -0.0, 1e300, 5e-324};
    else if (f == F_max) S = {1e300, -1e300, INFINITY, -INFINITY};
    else S = {1e6, -1e6, -0.0};
    double v = c.pick(S);
    double a = lg ? c.pick({1.0, -2.0}) : 1.5;
    c.begin("%s length %d element %d = %g a=%g", FN[f], n, k, v, a);
    In in = base(f, n, 3); in.a = a; in.b = -0.5;
    if (lg && a < 0) for (double& t : in.x) t = -t;
    in.x[k] = v;
    if (lg && (v == 0) && a < 0) ; // 0 * -2 = -0 : log gives -inf as well
    run(c, f, n, in);
    if (f == F_daxpby || f == F_axpby_z || f == F_axpy_z || f == F_mul || f == F_fma || f == F_relerr || f == F_err) {
      in = base(f, n, 5); in.a = 1.5; in.b = -0.5; in.y[k] = v;
      run(c, f, n, in);
    }
  });
  // every combination of special values meeting in one element, at every position
  mc::explore("combinations", [](mc::Ctx& c) {
    static const std::vector<double> S{0.0, -0.0, 1.0, -2.5, INFINITY, -INFINITY, NAN, 1e300, -1e200, 1e-290, 1e-200};
    int f = c.pick({(int)F_daxpby, (int)F_mul, (int)F_axpby_z, (int)F_axpy_z, (int)F_fma}), n = 1 + c.choose(mc::thorough() ? 33 : mc::is_asan() ? 6 : 17), k = c.choose(n);
    double X = c.pick(S), Y = c.pick(S), Z = f == F_fma ? c.pick({0.5, -0.0, (double)INFINITY, (double)-INFINITY, (double)NAN, -1e300}) : 1;
    double a = f == F_fma || f == F_mul ? 1 : c.pick({1.0, -1.0, 2.0}), b = f == F_daxpby || f == F_axpby_z ? c.pick({1.0, -1.0, 0.5}) : 1;
    c.begin("%s length %d element %d: x=%g y=%g z=%g a=%g b=%g", FN[f], n, k, X, Y, Z, a, b);
    // results at the edge of the range may differ by the order of rounding
    ld w = f == F_mul || f == F_fma ? (ld)X * Y : 0; if (std::isfinite((double)X) && std::isfinite(Y) && (fabsl(w) > 1e307L || (w != 0 && fabsl(w) < 1e-307L))) c.prune();
    In in = base(f, n, 3); in.a = a; in.b = b; in.x[k] = X; in.y[k] = Y; in.z[k] = Z;
    run(c, f, n, in);
  });
  // two special values at every pair of positions (log-sum)
  mc::explore("log_pairs", [](mc::Ctx& c) {
    int f = c.pick({(int)F_logsum, (int)F_vlogsum}), n = 2 + c.choose(mc::thorough() ? 40 : 20);
    int i = c.choose(n), j = c.choose(n);
    if (i == j) c.prune();
    double u = c.pick({0.0, -1.0, (double)INFINITY}), v = c.pick({0.0, -1.0, (double)INFINITY, 1e300});
    c.begin("%s length %d [%d]=%g [%d]=%g", FN[f], n, i, u, j, v);
    In in = base(f, n, 3); in.x[i] = u; in.x[j] = v;
    run(c, f, n, in);
  });
  // maximum at every pair of positions, all-negative vectors, ties
  mc::explore("max", [](mc::Ctx& c) {
    int n = c.choose(mc::thorough() ? 60 : 34) ;
    int i = n ? c.choose(n) : 0, j = n ? c.choose(n) : 0, neg = c.choose(2);
    c.begin("max length %d peaks %d %d %s", n, i, j, neg ? "negative" : "");
    In in = base(F_max, n, 9);
    if (n) { if (neg) for (double& t : in.x) t = -fabs(t) - 10; in.x[i] = neg ? -5 : 50; in.x[j] = neg ? -5.5 : 50.5; }
    run(c, F_max, n, in);
    if (n == 0) { Buf q(1); if (!std::isnan(l1c_max_vec(-3, q))) c.fail("maximum of a negative-length vector is not NaN"); }
  });
  return mc::finish();
}
