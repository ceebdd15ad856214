// C23: aligned allocators - every history of allocate/write/free operations up to a depth.
#include "kern.hpp"
struct Blk { int kind; double* p; double** q; int r, n; int tag; };
static double pat(int tag, int row, int i) { return tag * 1000003.0 + row * 1009 + i + 0.5; }
static void check_row(mc::Ctx& c, const Blk& b, double* p, int row) {
  if ((uintptr_t)p % 64) c.fail("array of %d elements is not aligned to 64 bytes", b.n);
  size_t sz = wrap_block_size(p);
  if (b.n > 0 && sz < 8u * (size_t)b.n) c.fail("array of %d elements has only %zu bytes", b.n, sz);
  if (b.kind & 1) for (int i = 0; i < b.n; i++) { uint64_t u; memcpy(&u, p + i, 8); if (u) c.fail("element %d of row %d of a zeroed array of %d elements is %g", i, row, b.n, p[i]); }
  for (int i = 0; i < b.n; i++) p[i] = pat(b.tag, row, i);
  c.check(2);
}
static Blk make(mc::Ctx& c, int kind, int r, int n, int tag) {
  Blk b{kind, nullptr, nullptr, r, n, tag};
  c.step();
  if (kind == 0) b.p = l1c_malloc_double(n); else if (kind == 1) b.p = l1c_calloc_double(n);
  else b.q = kind == 2 ? l1c_malloc_double_2D(r, n) : l1c_calloc_double_2D(r, n);
  if (kind < 2) { if (!b.p) c.fail("no storage for %d elements", n); check_row(c, b, b.p, 0); }
  else {
    if (!b.q) c.fail("no storage for %dx%d", r, n);
    if (r > 0 && wrap_block_size(b.q) < sizeof(double*) * (size_t)r) c.fail("row table of %d rows has only %zu bytes", r, wrap_block_size(b.q));
    for (int k = 0; k < r; k++) { if (!b.q[k]) c.fail("row %d missing", k); check_row(c, b, b.q[k], k); }
  }
  return b;
}
static void intact(mc::Ctx& c, const Blk& b) {
  int rows = b.kind < 2 ? 1 : b.r;
  for (int k = 0; k < rows; k++) { double* p = b.kind < 2 ? b.p : b.q[k]; for (int i = 0; i < b.n; i++) if (p[i] != pat(b.tag, k, i)) c.fail("element %d of row %d of a live %dx%d array was overwritten by another operation", i, k, rows, b.n); }
  c.check();
}
static void drop(mc::Ctx& c, const Blk& b) {
  c.step();
  if (b.kind < 2) l1c_free_double(b.p); else l1c_free_double_2D(b.r, b.q);
}
int main(int argc, char** argv) {
  mc::init(argc, argv);
  bool T = mc::thorough();
  mc::explore("sizes", [T](mc::Ctx& c) {
    int kind = c.choose(2), n = c.choose(T ? 3000 : 700, "size"), jb = c.pick({0x7f, 0xff});
    c.begin("%s of %d elements", kind ? "calloc" : "malloc", n);
    wrap_reset(); wrap_junk(jb); long l = wrap_live(), lb = wrap_live_bytes();
    Blk b = make(c, kind, 1, n, 3); 
    Blk b2 = make(c, kind ^ 1, 1, n, 4); intact(c, b); intact(c, b2);
    drop(c, b); intact(c, b2); drop(c, b2);
    wrap_junk(-1);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != l || wrap_live_bytes() != lb) c.fail("%ld blocks left after freeing", wrap_live() - l);
    c.state(n * 2 + kind);
  });
  mc::explore("shapes", [T](mc::Ctx& c) {
    int kind = 2 + c.choose(2), r = c.choose(T ? 40 : 14, "rows"), n = c.choose(T ? 60 : 36, "cols");
    c.begin("2-D %s %dx%d", kind == 3 ? "calloc" : "malloc", r, n);
    wrap_reset(); wrap_junk(0x7f); long l = wrap_live();
    Blk b = make(c, kind, r, n, 5); intact(c, b);
    for (int i = 0; i < r; i++) for (int k = i + 1; k < r; k++) { uintptr_t x = (uintptr_t)b.q[i], y = (uintptr_t)b.q[k]; if (x == y || (x < y ? x + 8 * n > y : y + 8 * n > x)) c.fail("rows %d and %d overlap", i, k); }
    drop(c, b); wrap_junk(-1);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != l) c.fail("%ld blocks left after freeing", wrap_live() - l);
    c.state(kind * 10000 + r * 100 + n);
  });
  mc::explore("large", [](mc::Ctx& c) {
    int kind = c.choose(4), k = c.choose(8, "size");
    static const int S1[] = {4095, 4096, 4097, 65535, 65536, 65537, 262147, 1000003}, S2[][2] = {{100, 1000}, {1000, 3}, {257, 257}, {512, 512}, {3, 65537}, {2000, 1}, {64, 4096}, {129, 1023}};
    int r = kind < 2 ? 1 : S2[k][0], n = kind < 2 ? S1[k] : S2[k][1];
    c.begin("large kind %d, %d x %d", kind, r, n);
    wrap_reset(); wrap_junk(0x7f); long l = wrap_live(), lb = wrap_live_bytes();
    Blk b = make(c, kind, r, n, 5); intact(c, b);
    if (kind > 1) for (int i = 0; i + 1 < r; i++) for (int j : {i + 1, r - 1}) if (j > i) { uintptr_t x = (uintptr_t)b.q[i], y = (uintptr_t)b.q[j]; if (x < y ? x + 8 * n > y : y + 8 * n > x) c.fail("rows %d and %d overlap", i, j); }
    Blk b2 = make(c, kind ^ 1, r, n, 6); intact(c, b); drop(c, b); intact(c, b2); drop(c, b2); wrap_junk(-1);
    if (wrap_error()) c.fail("%s", wrap_error());
    if (wrap_live() != l || wrap_live_bytes() != lb) c.fail("%ld blocks left after freeing", wrap_live() - l);
    c.state(mc::mix(kind, r * 1000003LL + n));
  });
  // operation histories: allocate one of K kinds, free any live one, free NULL
  mc::explore("histories", [T](mc::Ctx& c) {
    static const int K[][3] = {{0, 1, 5}, {1, 1, 8}, {2, 2, 3}, {3, 3, 9}, {1, 1, 0}};
    int depth = T ? 7 : 6; std::vector<Blk> live; std::vector<int> ops;
    // the first three operations decide the shard
    wrap_reset(); wrap_junk(0x7f); long l0 = wrap_live(); int tag = 10;
    struct Cl { std::vector<Blk>& v; ~Cl() { wrap_junk(-1); } } cl{live};
    for (int i = 0; i < depth; i++) {
      int nl = (int)live.size(), w = 5 + nl + 1 + 1;   // allocate, free one, free NULL, stop
      int o = c.choose(w, "operation");
      ops.push_back(o);
      if (i == 0) c.begin("history");
      if (o == w - 1) break;
      if (o < 5) { Blk b = make(c, K[o][0], K[o][1], K[o][2], tag++); live.push_back(b); }
      else if (o < 5 + nl) { Blk b = live[o - 5]; live.erase(live.begin() + (o - 5)); intact(c, b); drop(c, b); }
      else { l1c_free_double(nullptr); l1c_free_double_2D(3, nullptr); c.step(2); }
      for (auto& b : live) intact(c, b);
      if (wrap_error()) c.fail("history %s: %s", istr(ops).c_str(), wrap_error());
      if (live.empty() && wrap_live() != l0) c.fail("history %s: nothing is live but %ld blocks are held", istr(ops).c_str(), wrap_live() - l0);
      uint64_t h = i; for (auto& b : live) h = mc::mix(h, b.kind * 100 + b.n); c.state(h);
    }
    for (auto& b : live) { intact(c, b); drop(c, b); }
    if (wrap_error()) c.fail("history %s, final frees: %s", istr(ops).c_str(), wrap_error());
    if (wrap_live() != l0) c.fail("history %s: %ld blocks left at the end", istr(ops).c_str(), wrap_live() - l0);
    c.outcome(ops.size());
  });
  return mc::finish();
}
