// C08: the six difference operators against their matrices, for every shape in the bound.
#include "kern.hpp"
typedef void (*fn)(l1c_int, l1c_int, double, double*, double*);
static const char* ON[] = {"Dx", "DxT", "DxTDx", "Dy", "DyT", "DyTDy"};
static fn FT[] = {l1c_Dx, l1c_DxT, l1c_DxTDx, l1c_Dy, l1c_DyT, l1c_DyTDy};
// stencil reference straight from the definitions (independent of the matrices in common.hpp)
static Vec ref(int op, int n, int m, double al, const Vec& v) {
  auto dx = [&](const Vec& a) { Vec o(n * m, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j + 1 < m; j++) o[i * m + j] = a[i * m + j + 1] - a[i * m + j]; return o; };
  auto dy = [&](const Vec& a) { Vec o(n * m, 0.0); for (int i = 0; i + 1 < n; i++) for (int j = 0; j < m; j++) o[i * m + j] = a[(i + 1) * m + j] - a[i * m + j]; return o; };
  auto dxt = [&](const Vec& a) { Vec o(n * m, 0.0); for (int i = 0; i < n; i++) for (int j = 0; j + 1 < m; j++) { o[i * m + j + 1] += a[i * m + j]; o[i * m + j] -= a[i * m + j]; } return o; };
  auto dyt = [&](const Vec& a) { Vec o(n * m, 0.0); for (int i = 0; i + 1 < n; i++) for (int j = 0; j < m; j++) { o[(i + 1) * m + j] += a[i * m + j]; o[i * m + j] -= a[i * m + j]; } return o; };
  Vec r;
  double s = al;
  switch (op) { case 0: r = dx(v); break; case 1: r = dxt(v); break; case 2: r = dxt(dx(v)); s = al * al; break; case 3: r = dy(v); break; case 4: r = dyt(v); break; default: r = dyt(dy(v)); s = al * al; }
  for (double& t : r) t *= s;
  return r;
}
static void one(mc::Ctx& c, int op, int n, int m, double al, const Vec& v, size_t o1, size_t o2) {
  Buf x(v, o1), y((size_t)n * m, (n + m) & 1 ? 777.0 : NAN, o2);
  FT[op](n, m, al, x, y);
  c.step(); c.check(n * m);
  if (!x.same(v)) c.fail("%s modified its input image", ON[op]);
  if (!x.guards_ok() || !y.guards_ok()) c.fail("%s wrote outside the %dx%d output image", ON[op], n, m);
  Vec w = ref(op, n, m, al, v);
  double s = 8 * EPS * (nrminf(v) * (op % 3 == 2 ? al * al : fabs(al)) * 4) + 1e-320;
  for (int i = 0; i < n * m; i++) if (!(fabs(y.d[i] - w[i]) <= s)) c.fail("%s (%dx%d, alpha=%g): pixel (%d,%d) is %.15g, expected %.15g", ON[op], n, m, al, i / m, i % m, y.d[i], w[i]);
  c.state(mc::mix(mc::hvals(y.d, n * m), op * 10007 + n * 131 + m));
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  static const std::vector<double> AL{1, 0.5, -2, 0, 1e6};
  mc::explore("shapes", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 33 : (mc::is_asan() ? 14 : 18);
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim), op = c.choose(6);
    double al = c.pick(AL);
    c.begin("%s %dx%d alpha=%g", ON[op], n, m, al);
    for (int s = 0; s < 2; s++) one(c, op, n, m, al, genv(n * m, 3 + s), 0, 0);
    one(c, op, n, m, al, Vec(n * m, 1.25), 0, 0);
    one(c, op, n, m, al, genv(n * m, 9), 1, 3);
    c.outcome(op * 8 + (al == 0) * 2 + (al < 0));
  });
  // every magnitude of image and factor
  mc::explore("scales", [](mc::Ctx& c) {
    int n = 2 + c.choose(6), m = 2 + c.choose(6), op = c.choose(6);
    double al = c.pick({1.0, 1e-3, -1e-7, 1e-13, 1e-40, 1e9, -1e40}), sc = c.pick({1.0, 1e-4, 1e-9, 1e-13, 1e-60, 1e9, 1e60});
    c.begin("%s %dx%d alpha=%g image of size %g", ON[op], n, m, al, sc);
    Vec v = genv(n * m, 8); for (double& t : v) t *= sc;
    one(c, op, n, m, al, v, 0, 0);
    for (int i = 0; i < n * m; i++) v[i] = gen(i, 12) * pow(10, i % 17 - 8) * sc;
    one(c, op, n, m, al, v, 0, 0);
    // an almost flat image: the differences are far smaller than the values
    for (int i = 0; i < n * m; i++) v[i] = sc * (1 + 1e-12 * (i * i % 7));
    one(c, op, n, m, al, v, 0, 0);
  });
  mc::explore("every_pixel", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 12 : 7;
    int n = 2 + c.choose(lim), m = 2 + c.choose(lim), op = c.choose(6);
    c.begin("%s %dx%d all unit images", ON[op], n, m);
    for (int k = 0; k < n * m; k++) { Vec e(n * m, 0.0); e[k] = 1; one(c, op, n, m, 1, e, 0, 0); e[k] = -3; one(c, op, n, m, 0.25, e, 0, 0); }
  });
  mc::explore("long_shapes", [](mc::Ctx& c) {
    int k = c.choose(2), L = c.pick({63, 64, 65, 127, 128, 129, 255, 257, 1000, 1025, 2050, 4099, 9001, 66000}), s = 2 + c.choose(4), op = c.choose(6);
    int n = k ? L : s, m = k ? s : L;
    c.begin("%s %dx%d", ON[op], n, m);
    one(c, op, n, m, -1.5, genv(n * m, 4), 0, 0);
  });
  mc::explore("large_shapes", [](mc::Ctx& c) {
    std::vector<int> D{31, 33, 48, 64, 65, 100, 129, 200, 257, 520, 1030};
    int n = c.pick(D), m = c.pick(D), op = c.choose(6);
    if (mc::is_asan() && n * m > 3000) c.prune();
    c.begin("%s %dx%d", ON[op], n, m);
    one(c, op, n, m, 0.75, genv(n * m, 6), 0, 0);
  });
  return mc::finish();
}
