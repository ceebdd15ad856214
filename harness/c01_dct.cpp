#include "bigops.hpp"
static const double TOL = 4e-12;
int main(int argc, char** argv) {
  mc::init(argc, argv);
  wrap_junk(0xA5);
  // every 1-D length with the mask families, through the dispatcher (m x 1, 1 x m) and the direct entry point
  mc::explore("dct1_lengths", [](mc::Ctx& c) {
    std::vector<int> lens;
    for (int i = 1; i <= (mc::thorough() ? 72 : 36); i++) lens.push_back(i);
    for (int i : {47, 64, 81, 97, 100, 127, 128}) if (i > lens.back()) lens.push_back(i);
    if (mc::thorough()) for (int i : {131, 169, 210, 243, 256, 257, 360}) lens.push_back(i);
    Cfg g;
    int m = c.pick(lens);
    int how = c.choose(4, "how");
    auto F = mask_family(m);
    g.pix = c.pick(F);
    if (how == 0) { g.mrow = m; g.mcol = 1; g.mode = dct1; }
    if (how == 1) { g.mrow = 1; g.mcol = m; g.mode = dct1; }
    if (how == 2) { g.mrow = m; g.mcol = 1; g.mode = dct2; }
    if (how == 3) { g.mrow = m; g.mcol = 1; g.kind = K_DCT1_DIRECT; }
    if (mc::is_asan() && m > 40) c.prune();
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL, m > 40 || how);
  });
  mc::explore("dct2_shapes", [](mc::Ctx& c) {
    int lim = mc::thorough() ? 10 : 7;
    std::vector<std::pair<int, int>> S;
    for (int i = 1; i <= lim; i++) for (int j = 1; j <= lim; j++) S.push_back({i, j});
    for (auto p : {std::pair<int, int>{2, 17}, {17, 2}, {5, 13}, {13, 5}, {3, 16}, {16, 3}, {8, 12}, {12, 8}}) S.push_back(p);
    if (mc::thorough()) for (auto p : {std::pair<int, int>{11, 13}, {16, 16}, {9, 20}, {20, 9}, {2, 64}, {64, 2}, {15, 17}}) S.push_back(p);
    auto s = c.pick(S);
    Cfg g;
    g.mrow = s.first; g.mcol = s.second;
    int how = c.choose(3, "how");
    g.mode = how == 1 ? dct1 : dct2;
    if (how == 2) { if (g.mrow < 2 || g.mcol < 2) c.prune(); g.kind = K_DCT2_DIRECT; }
    auto F = mask_family(g.mrow * g.mcol);
    g.pix = c.pick(F);
    if (mc::is_asan() && g.mrow * g.mcol > 40) c.prune();
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL, g.mrow * g.mcol > 24 || how == 2);
  });
  // every ordered list of distinct pixels of every tiny signal
  mc::explore("all_ordered_masks", [](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {4, 1}, {1, 4}, {2, 2}};
    if (mc::thorough()) for (auto p : {std::pair<int, int>{5, 1}, {2, 3}, {3, 2}, {6, 1}}) S.push_back(p);
    else S.push_back({5, 1});
    auto s = c.pick(S);
    Cfg g; g.mrow = s.first; g.mcol = s.second;
    g.mode = c.flip() ? dct2 : dct1;
    choose_ordered(c, g.mrow * g.mcol, g.pix);
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL, true);
  });
  // every subset of the pixels of small signals
  mc::explore("all_subsets", [](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{6, 1}, {7, 1}, {2, 3}, {3, 2}, {8, 1}, {2, 4}, {4, 2}};
    if (mc::thorough()) for (auto p : {std::pair<int, int>{9, 1}, {3, 3}, {10, 1}, {2, 5}, {5, 2}, {12, 1}, {3, 4}, {4, 3}, {2, 6}}) S.push_back(p);
    auto s = c.pick(S);
    Cfg g; g.mrow = s.first; g.mcol = s.second;
    int m = g.mrow * g.mcol;
    g.mode = c.flip() ? dct2 : dct1;
    if (g.mcol == 1 && g.mode == dct2) c.prune();
    g.pix = subset_of(1 + c.choose((1 << m) - 1), m);
    if (mc::is_asan() && g.pix.size() > 3) c.prune();
    c.begin("%s", g.str().c_str());
    check_config(c, g, TOL, true);
  });
  // larger signals, compared with the cosine sums themselves
  mc::explore("large", [](mc::Ctx& c) {
    std::vector<std::pair<int, int>> S{{200, 1}, {256, 1}, {1, 300}, {511, 1}, {512, 1}, {1, 513}, {1000, 1}, {1024, 1}, {1025, 1}, {2050, 1}, {20, 30}, {31, 33}, {33, 31}, {64, 64}, {65, 63}, {100, 40}, {3, 200}, {200, 3}, {2, 512}, {512, 2}, {130, 129}, {129, 130}, {183, 181}, {4200, 1}, {1, 8300}, {257, 257}};
    if (mc::thorough()) for (auto p : {std::pair<int, int>{4096, 1}, {1, 5000}, {257, 255}, {256, 300}, {7, 1001}, {1001, 7}, {3001, 1}}) S.push_back(p);
    auto s = c.pick(S);
    Cfg g; g.mrow = s.first; g.mcol = s.second;
    int m = g.mrow * g.mcol;
    g.mode = c.flip() ? dct2 : dct1;
    if (g.mode == dct1 && m > 9000) c.prune();
    if (g.mode == dct2 && (g.mrow == 1 || g.mcol == 1)) c.prune();
    if (mc::is_asan() && m > 1100) c.prune();
    auto F = mask_family(m);
    g.pix = F[std::vector<size_t>{0, 2, 6, 9}[c.choose(4)]];
    c.begin("%s", g.str().c_str());
    check_big(c, g, TOL);
  });
  // the library's own planner flags
  mc::explore("real_planner", [](mc::Ctx& c) {
    auto s = c.pick({std::pair<int, int>{1, 1}, {2, 1}, {7, 1}, {12, 1}, {16, 1}, {3, 4}, {4, 4}, {5, 3}, {8, 6}});
    Cfg g; g.mrow = s.first; g.mcol = s.second;
    g.mode = c.flip() ? dct2 : dct1;
    if (mc::is_asan() && g.mrow * g.mcol > 16) c.prune();
    auto F = mask_family(g.mrow * g.mcol);
    g.pix = F[(F.size() - 1) * c.choose(2)];
    c.begin("%s (FFTW flags as given)", g.str().c_str());
    wrap_plan_real(1);
    struct Off { ~Off() { wrap_plan_real(0); } } off;
    check_config(c, g, TOL);
  });
  return mc::finish();
}
