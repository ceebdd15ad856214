#include "bigops.hpp"
static const double TOL = 4e-12;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  wrap_junk(0xA5);
  auto weights = [](mc::Ctx& c, Cfg& g) {
    if (g.mrow <= 2 || g.mcol <= 2) { g.av = g.ah = 0; return; }
    g.av = c.pick({0.0, 1.0, 0.3, 4.0, 1e-9, 1e-14, 1e7});
    g.ah = c.pick({0.0, 1.0, 2.5, 0.05, 1e-9, 1e-14, 1e7});
    if ((g.av && (g.av < 1e-5 || g.av > 1e5) && g.ah && g.ah != 1) || (g.ah && (g.ah < 1e-5 || g.ah > 1e5) && g.av && g.av != 1)) c.prune();
  };
  mc::explore("shapes_weights", [&](mc::Ctx& c) {
    int lim = mc::thorough() ? 8 : 6;
    std::vector<std::pair<int, int>> S;
    for (int i = 1; i <= lim; i++) for (int j = 1; j <= lim; j++) S.push_back({i, j});
    for (auto p : {std::pair<int, int>{3, 11}, {11, 3}, {7, 1}, {1, 9}}) S.push_back(p);
    if (mc::thorough()) for (auto p : {std::pair<int, int>{3, 20}, {20, 3}, {12, 9}, {9, 12}, {13, 1}}) S.push_back(p);
    auto s = c.pick(S);
    Cfg g; g.kind = K_TV; g.mrow = s.first; g.mcol = s.second;
    weights(c, g);
    g.mode = c.flip() ? dct2 : dct1;
    g.bp = c.flip() ? synthesis : analysis;
    auto F = mask_family(g.mrow * g.mcol);
    g.pix = mc::thorough() ? c.pick(F) : F[std::min<size_t>(F.size() - 1, std::vector<size_t>{0, 8, 9}[c.choose(3)])];
    if (mc::is_asan() && g.mrow * g.mcol > 16) c.prune();
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL * 10, g.mrow * g.mcol > 12);
  });
  mc::explore("all_subsets", [&](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{4, 1}, {2, 2}, {2, 3}, {3, 2}};
    if (mc::thorough()) S.push_back({3, 3});
    auto s = c.pick(S);
    Cfg g; g.kind = K_TV; g.mrow = s.first; g.mcol = s.second;
    int m = g.mrow * g.mcol;
    g.mode = c.flip() ? dct2 : dct1;
    g.bp = c.flip() ? synthesis : analysis;
    if (m == 9) { int w = c.choose(3); g.av = w != 1 ? 0.7 : 0; g.ah = w != 0 ? 1.9 : 0; }
    g.pix = subset_of(1 + c.choose((1 << m) - 1), m);
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL * 10, true);
  });
  mc::explore("all_ordered_masks_3x3", [&](mc::Ctx& c) {
    Cfg g; g.kind = K_TV; g.mrow = 3; g.mcol = 3; g.mode = dct2; g.av = 1.5; g.ah = 0.25;
    g.bp = c.flip() ? synthesis : analysis;
    // all ordered lists of up to 3 of the 9 pixels
    int k = 1 + c.choose(mc::thorough() ? 3 : 2);
    for (int i = 0; i < k; i++) {
      int p = c.choose(9);
      if (std::find(g.pix.begin(), g.pix.end(), p) != g.pix.end()) c.prune();
      g.pix.push_back(p);
    }
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL * 10, true);
  });
  // larger images, compared with the cosine sums and differences themselves
  mc::explore("large", [](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{3, 100}, {100, 3}, {16, 16}, {17, 19}, {20, 30}, {31, 33}, {64, 64}, {65, 63}, {100, 40}, {3, 400}, {400, 3}, {130, 129}, {129, 130}, {183, 181}, {3, 1400}, {1400, 3}, {257, 257}};
    if (mc::thorough()) for (auto p : {std::pair<int, int>{257, 255}, {5, 1001}, {1001, 5}}) S.push_back(p);
    auto s = c.pick(S);
    Cfg g; g.kind = K_TV; g.mrow = s.first; g.mcol = s.second;
    int m = g.mrow * g.mcol;
    g.mode = c.flip() ? dct2 : dct1;
    g.bp = c.flip() ? synthesis : analysis;
    int w = c.choose(4); g.av = w & 1 ? 0.7 : 0; g.ah = w & 2 ? 1.9 : 0;
    if (g.mode == dct1 && m > 4200) c.prune();
    if (mc::is_asan() && m > 700) c.prune();
    g.pix = mask_family(m)[c.flip() ? 9 : 0];
    c.begin("%s", g.str().c_str());
    check_big(c, g, TOL * 10);
  });
  mc::explore("real_planner", [&](mc::Ctx& c) {
    auto s = c.pick({std::pair<int, int>{3, 3}, {4, 3}, {3, 5}});
    Cfg g; g.kind = K_TV; g.mrow = s.first; g.mcol = s.second; g.av = 1; g.ah = 2;
    g.mode = c.flip() ? dct2 : dct1;
    g.bp = c.flip() ? synthesis : analysis;
    g.pix = mask_family(g.mrow * g.mcol).back();
    c.begin("%s (FFTW flags as given)", g.str().c_str());
    wrap_plan_real(1);
    struct Off { ~Off() { wrap_plan_real(0); } } off;
    check_config(c, g, TOL * 10);
  });
  return mc::finish();
}
