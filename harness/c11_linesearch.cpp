// C11: both line searches against every tree of objective answers.
#include "kern.hpp"
struct St {
  mc::Ctx* c; bool xu; int n; Vec x0, u0, dx, du; double f0, alpha, beta, g, s; double* fx; bool scribble;
  int trial = 0, dev = 0; double step; int mode; int accepted = 0; double fval = 0, flin = 0; bool dyadic; int defans; double un = 1;
  const double *px, *pu;
};
static St* S;
enum Ans { A_ABOVE, A_NAN, A_PINF, A_BIG, A_EQ, A_BELOW, A_NINF };
static double answer(St& s, double* x, double* u) {
  mc::Ctx& c = *s.c;
  if (s.accepted) c.fail("trial %d evaluated after trial %d met the sufficient-decrease test", s.trial + 1, s.accepted);
  s.trial++;
  if (s.trial > MAX_LINESEARCH_ITER || s.trial > 32) c.fail("more than 32 trials");
  if (s.trial > 1) s.step *= s.beta;
  for (int i = 0; i < s.n; i++) {
    double w = s.x0[i] + s.step * s.dx[i];
    if (!(fabs(x[i] - w) <= 1e-13 * (fabs(s.x0[i]) + fabs(s.step * s.dx[i])))) c.fail("trial %d: x[%d] = %.17g, expected %.17g (step %.17g)", s.trial, i, x[i], w, s.step);
    if (s.xu) { w = s.u0[i] + s.step * s.du[i]; if (!(fabs(u[i] - w) <= 1e-13 * (fabs(s.u0[i]) + fabs(s.step * s.du[i])))) c.fail("trial %d: u[%d] = %.17g, expected %.17g", s.trial, i, u[i], w); }
  }
  c.step(); c.check();
  double flin = s.f0 + s.alpha * s.step * s.g;
  int a;
  if (s.mode == 0) a = s.trial <= (mc::thorough() ? 8 : 5) ? c.choose(7, "answer") : s.defans;
  else { // at most two deviations from the default rejection
    a = s.defans;
    if (s.dev < 2) { int k = c.choose(4, "deviate"); if (k) { a = k == 1 ? (s.dyadic ? A_EQ : A_BELOW) : k == 2 ? A_NAN : A_PINF; s.dev++; } }
  }
  double m = s.dyadic ? 0 : 1e-9 * (fabs(s.f0) + fabs(s.alpha * s.s * s.g) + 1e-3), v = 0;
  switch (a) {
    case A_ABOVE: v = s.dyadic ? nextafter(flin, INFINITY) : flin + m; break;
    case A_NAN: v = NAN; break;
    case A_PINF: v = INFINITY; break;
    case A_BIG: v = flin + 1e6 * s.un; break;
    case A_EQ: v = s.dyadic ? flin : flin - m; break;
    case A_BELOW: v = flin - s.un - m; break;
    case A_NINF: v = -INFINITY; break;
  }
  if (a >= A_EQ) { s.accepted = s.trial; s.fval = v; s.flin = flin; }
  if (s.scribble) *s.fx = v;
  if (c.desc.size() < 4000) c.note(" %s", (const char*[]){"above", "nan", "+inf", "big", "equal", "below", "-inf"}[a]);
  return v;
}
static double ev1(void*, double* x) { return answer(*S, x, nullptr); }
static double ev2(void*, double* x, double* u) { return answer(*S, x, u); }
static void body(mc::Ctx& c, int mode) {
  St s; S = &s; s.c = &c; s.mode = mode;
  s.xu = c.flip("xu"); s.scribble = s.xu ? c.flip("scribble") : false;
  s.dyadic = mode == 2 || !c.flip("params");
  double xs = 1;
  if (mode == 2) { // every quantity far from one: only the exact comparison decides
    struct Q { double s, g, f0, un, xs; };
    static const std::vector<Q> T{{1, -0x1p-45, 0x1p-40, 0x1p-45, 0x1p-40}, {1, -0x1p-45, 0, 0x1p-45, 0x1p-40}, {0.25, 0x1p-45, -0x1p-40, 0x1p-45, 1}, {0x1p-30, -2, 4, 1, 1}, {0x1p-20, -0x1p-20, -0x1p-20, 0x1p-40, 0x1p-20},
                                  {1, -0x1p60, 0x1p70, 0x1p60, 0x1p40}, {0x1p-10, -0x1p80, 0, 0x1p70, 0x1p90}, {1, -0x1p-100, 0, 0x1p-100, 0x1p-100}, {0x1p-600, -0x1p-300, 0, 0x1p-900, 0x1p-200}, {0x1p-990, -0x1p20, 0, 0x1p-970, 1}, {0x1p200, -0x1p-200, 1, 1, 0x1p-200}, {1, -0x1p-30, 1, 0x1p-10, 1}};
    auto q = c.pick(T); s.s = q.s; s.g = q.g; s.f0 = q.f0; s.un = q.un; xs = q.xs; s.beta = 0.5; s.alpha = 0.25;
  } else if (s.dyadic) { s.s = c.pick({1.0, 0.25}); s.beta = 0.5; s.alpha = 0.25; s.g = c.pick({-2.0, 0.0, 4.0}); s.f0 = c.pick({0.0, 4.0}); }
  else { s.s = c.pick({0.99, 1e-3}); s.beta = c.pick({0.9, 0.3}); s.alpha = 0.01; s.g = c.pick({-3.7, -1e-6}); s.f0 = -12.25; }
  s.n = mode == 2 ? 5 : c.pick({1, 6}); s.defans = c.pick({(int)A_ABOVE, (int)A_NAN, (int)A_BIG});
  c.begin("%s%s n=%d s=%g beta=%g alpha=%g g=%g f0=%g answers:", s.xu ? "linesearch_xu" : "linesearch", s.scribble ? " (objective stores its value)" : "", s.n, s.s, s.beta, s.alpha, s.g, s.f0);
  s.x0 = genv(s.n, 1); s.u0 = genv(s.n, 2); s.dx = genv(s.n, 3); s.du = genv(s.n, 4); s.step = s.s;
  for (Vec* v : {&s.x0, &s.u0, &s.dx, &s.du}) for (double& t : *v) t *= xs;
  Buf x(s.x0), u(s.u0), dx(s.dx), du(s.du), w1((size_t)s.n, NAN), w2((size_t)s.n, NAN);
  double* W[2] = {w1, w2};
  double fx = s.f0; s.fx = &fx;
  LSParams p; p.s = s.s; p.alpha = s.alpha; p.beta = s.beta;
  LSStat r = s.xu ? l1c_linesearch_xu(s.n, x, u, dx, du, &fx, s.g, nullptr, ev2, p, W) : l1c_linesearch(s.n, x, dx, &fx, s.g, nullptr, ev1, p, w1);
  if (!dx.same(s.dx) || !du.same(s.du)) c.fail("a direction was modified");
  if (!x.guards_ok() || !u.guards_ok() || !dx.guards_ok() || !du.guards_ok() || !w1.guards_ok() || !w2.guards_ok()) c.fail("wrote outside its arrays");
  if (s.accepted) {
    if (r.status) c.fail("status %d although trial %d was acceptable", r.status, s.accepted);
    if (r.iter != s.accepted) c.fail("reports iteration %d, accepted trial was %d", r.iter, s.accepted);
    if (!(fabs(r.step - s.step) <= 1e-12 * s.step)) c.fail("reports step %.17g, accepted step %.17g", r.step, s.step);
    if (!(fabs(r.flin - s.flin) <= 1e-12 * (fabs(s.f0) + fabs(s.alpha * s.s * s.g)))) c.fail("reports threshold %.17g, expected %.17g", r.flin, s.flin);
    if (!(fx == s.fval)) c.fail("objective value %.17g on return, the accepted one is %.17g", fx, s.fval);
    for (int i = 0; i < s.n; i++) {
      double w = s.x0[i] + s.step * s.dx[i];
      if (!(fabs(x.d[i] - w) <= 1e-13 * (fabs(s.x0[i]) + fabs(s.step * s.dx[i])))) c.fail("x[%d] = %.17g, accepted point has %.17g", i, x.d[i], w);
      w = s.u0[i] + s.step * s.du[i];
      if (s.xu && !(fabs(u.d[i] - w) <= 1e-13 * (fabs(s.u0[i]) + fabs(s.step * s.du[i])))) c.fail("u[%d] = %.17g, accepted point has %.17g", i, u.d[i], w);
    }
  } else {
    if (s.trial != 32) c.fail("gave up after %d trials", s.trial);
    if (r.status != 1) c.fail("status %d although no trial was acceptable", r.status);
    if (!x.same(s.x0) || !u.same(s.u0)) c.fail("the point changed although no trial was acceptable");
    if (!s.scribble && !(fx == s.f0)) c.fail("objective value changed to %.17g although no trial was acceptable", fx);
  }
  c.outcome(mc::mix(s.accepted, s.xu * 2 + s.scribble));
  c.state(mc::hvals(x.d, s.n, mc::hbytes(&fx, 8)));
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  l1c_replace_printf(quiet_printf);
  mc::explore("answers", [](mc::Ctx& c) { body(c, 0); });
  mc::explore("deviations", [](mc::Ctx& c) { body(c, 1); });
  mc::explore("scales", [](mc::Ctx& c) { body(c, 2); });
  return mc::finish();
}
