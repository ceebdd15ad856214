#include "ops.hpp"
static const double TOL = 1e-12;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  wrap_junk(0xA5);
  // every matrix with entries in {-1,0,2} for tiny sizes
  mc::explore("all_small_matrices", [](mc::Ctx& c) {
    auto s = c.pick({std::pair<int, int>{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}});
    Cfg g; g.kind = K_MAT; g.n = s.first; g.m = s.second;
    for (int i = 0; i < g.n * g.m; i++) g.mat.push_back(c.pick({-1.0, 0.0, 2.0}));
    if (mc::is_asan() && g.n * g.m > 4) c.prune();
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL, true);
  });
  mc::explore("shapes", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 40 : 14;
    std::vector<int> D;
    for (int i = 1; i <= lim; i++) D.push_back(i);
    D.push_back(47); D.push_back(64);
    Cfg g; g.kind = K_MAT; g.n = c.pick(D); g.m = c.pick(D);
    int fam = c.choose(3);
    if (mc::is_asan() && (g.n > 9 || g.m > 9)) c.prune();
    for (int i = 0; i < g.n * g.m; i++)
      g.mat.push_back(fam == 0 ? gen(i, 31) : fam == 1 ? (i / g.m == i % g.m ? 1.0 : 0.0) : (double)(i + 1));
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL * 4000, g.n * g.m > 64);
  });
  mc::explore("large", [](mc::Ctx& c) {
    auto s = c.pick({std::pair<int, int>{1, 257}, {257, 1}, {100, 130}, {130, 100}, {128, 128}, {200, 65}, {65, 200}, {1, 1000}, {1000, 1}, {3, 515}, {515, 3}});
    Cfg g; g.kind = K_MAT; g.n = s.first; g.m = s.second;
    if (mc::is_asan() && g.n * g.m > 2000) c.prune();
    for (int i = 0; i < g.n * g.m; i++) g.mat.push_back(gen(i, 37));
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL * 4000, true);
  });
  return mc::finish();
}
