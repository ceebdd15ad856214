// Bounded exhaustive explorer ("choice-point DFS") for the real L1c code.
//
// A suite is a function of a Ctx.  Every decision of the driver or of the
// environment (shape, mask, operation, callback answer, fault, thread to run)
// is a call of choose(n): the explorer runs the suite again and again until
// every sequence of answers has been taken.  Nothing is sampled.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {
struct Skip {};
struct Prune {};
struct Violation { std::string msg; };

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 29;
  return h;
}
inline uint64_t hbytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
  return mix(h, n);
}
// hash of values rounded to ~9 significant digits (robust to rounding noise)
inline uint64_t hvals(const double* x, size_t n, uint64_t h = 7) {
  for (size_t i = 0; i < n; i++) {
    double v = x[i];
    char b[40];
    if (!(std::fabs(v) > 1e-9)) v = 0;
    snprintf(b, sizeof b, "%.6e", v);
    h = hbytes(b, strlen(b), h);
  }
  return h;
}

struct Global {
  int shard = 0, nshards = 1;
  bool thorough = false, replay = false;
  std::string variant = "prod";
  std::string only;
  std::vector<int> replay_path;
  char* journal = nullptr;  // 64 KiB: u64 counter, then text
  std::string out;
  uint64_t executions = 0, transitions = 0, skipped = 0, pruned = 0, checks = 0;
  std::unordered_set<uint64_t> states, outcomes;
  std::vector<std::string> samples;
  struct V { std::string suite, path, msg, desc; };
  std::vector<V> viols;
  std::vector<std::pair<std::string, uint64_t>> per_suite;
  int maxviol = 3;
};
inline Global& G() { static Global g; return g; }
inline bool thorough() { return G().thorough; }
inline bool is_asan() { return G().variant == "asan"; }

class Ctx {
 public:
  std::string suite;
  std::vector<int> path, width;
  size_t pos = 0;
  bool begun = false;
  std::string desc;

  int choose(int n, const char* label = "") {
    (void)label;
    if (n <= 0) { fprintf(stderr, "choose(0) in %s\n", suite.c_str()); _exit(3); }
    int c;
    if (G().replay) {
      c = pos < G().replay_path.size() ? G().replay_path[pos] : 0;
      if (c >= n) { fprintf(stderr, "replay divergence: choice %d of %d at %zu (%s)\n", c, n, pos, label); _exit(3); }
      path.push_back(c); width.push_back(n);
    } else if (pos < path.size()) {
      c = path[pos];
      if (width[pos] != n) { fprintf(stderr, "nondeterministic driver: width %d != %d at %zu (%s) in %s\n", n, width[pos], pos, label, suite.c_str()); _exit(3); }
    } else {
      c = 0;
      path.push_back(0); width.push_back(n);
    }
    pos++;
    if (begun) journal();
    return c;
  }
  bool flip(const char* label = "") { return choose(2, label) == 1; }
  template <class T> T pick(std::initializer_list<T> l, const char* label = "") {
    return *(l.begin() + choose((int)l.size(), label));
  }
  template <class T> const T& pick(const std::vector<T>& l, const char* label = "") {
    return l[choose((int)l.size(), label)];
  }
  // All cheap "input" choices made: decide whether this shard runs it.
  void begin(const char* fmt = nullptr, ...) {
    if (!begun) {
      begun = true;
      // shard by the choices made so far: all continuations of a prefix stay in one shard
      uint64_t k = 0x51;
      for (size_t i = 0; i < pos; i++) k = mix(k, (uint64_t)path[i] + 1);
      if (!G().replay && (int)((k >> 17) % (uint64_t)G().nshards) != G().shard) { G().skipped++; throw Skip(); }
    }
    if (fmt) { char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); desc = b; }
    journal();
  }
  void note(const char* fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (desc.size() < 6000) { desc += b; }
    journal_desc();
  }
  void prune() { throw Prune(); }
  void step(uint64_t n = 1) { G().transitions += n; }
  void check(uint64_t n = 1) { G().checks += n; }
  void state(uint64_t h) { G().states.insert(mix(h, hbytes(suite.data(), suite.size()))); }
  void outcome(uint64_t h) { G().outcomes.insert(mix(h, hbytes(suite.data(), suite.size()))); }
  [[noreturn]] void fail(const char* fmt, ...) {
    char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    throw Violation{b};
  }
  std::string path_str() const {
    std::string s;
    size_t n = std::min(pos, path.size());
    for (size_t i = 0; i < n; i++) { if (i) s += ","; s += std::to_string(path[i]); }
    return s;
  }
  void journal() {
    char* j = G().journal;
    if (!j) return;
    ++*(volatile uint64_t*)j;
    std::string s = suite + ":" + path_str() + "\n";
    size_t n = std::min(s.size(), (size_t)30000);
    memcpy(j + 8, s.data(), n); j[8 + n] = 0;
    journal_desc();
  }
  void journal_desc() {
    char* j = G().journal;
    if (!j) return;
    size_t n = std::min(desc.size(), (size_t)30000);
    memcpy(j + 32768, desc.data(), n); j[32768 + n] = 0;
  }
};

inline void explore(const char* name, const std::function<void(Ctx&)>& body) {
  if (!G().only.empty() && G().only != name) return;
  Ctx c;
  c.suite = name;
  uint64_t ex0 = G().executions;
  for (;;) {
    c.pos = 0; c.begun = false; c.desc.clear();
    if (G().replay) { c.path.clear(); c.width.clear(); }
    bool ran = false;
    try {
      body(c);
      ran = true;
      G().executions++;
      if (G().samples.size() < 6 && (G().executions & (G().executions - 1)) == 0 && !c.desc.empty())
        G().samples.push_back(std::string(name) + ": " + c.desc);
    } catch (Skip&) {
    } catch (Prune&) { G().pruned++;
    } catch (Violation& v) {
      ran = true;
      G().executions++;
      G().viols.push_back({name, c.path_str(), v.msg, c.desc});
      if ((int)G().viols.size() >= G().maxviol) break;
    }
    (void)ran;
    if (G().replay) break;
    // drop unused tail (choices beyond pos come from a longer previous run)
    c.path.resize(c.pos); c.width.resize(c.pos);
    while (!c.path.empty() && c.path.back() + 1 >= c.width.back()) { c.path.pop_back(); c.width.pop_back(); }
    if (c.path.empty()) break;
    c.path.back()++;
  }
  G().per_suite.push_back({name, G().executions - ex0});
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

inline int finish() {
  Global& g = G();
  if (!g.out.empty()) {
    FILE* f = fopen((g.out + ".json").c_str(), "w");
    fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"skipped\":%llu,\"pruned\":%llu,\"states\":%zu,\"outcomes\":%zu,\n",
            (unsigned long long)g.executions, (unsigned long long)g.transitions, (unsigned long long)g.checks,
            (unsigned long long)g.skipped, (unsigned long long)g.pruned, g.states.size(), g.outcomes.size());
    fprintf(f, "\"per_suite\":{");
    for (size_t i = 0; i < g.per_suite.size(); i++)
      fprintf(f, "%s\"%s\":%llu", i ? "," : "", g.per_suite[i].first.c_str(), (unsigned long long)g.per_suite[i].second);
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < g.samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g.samples[i]).c_str());
    fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < g.viols.size(); i++) {
      auto& v = g.viols[i];
      fprintf(f, "%s{\"suite\":\"%s\",\"path\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\"}", i ? "," : "", jesc(v.suite).c_str(), v.path.c_str(), jesc(v.msg).c_str(), jesc(v.desc).c_str());
    }
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((g.out + ".states").c_str(), "wb");
    for (uint64_t h : g.states) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((g.out + ".outcomes").c_str(), "wb");
    for (uint64_t h : g.outcomes) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  for (auto& v : g.viols)
    fprintf(stderr, "FAIL %s:%s\n  case: %s\n  what: %s\n", v.suite.c_str(), v.path.c_str(), v.desc.c_str(), v.msg.c_str());
  fflush(stderr);
  return g.viols.empty() ? 0 : 1;
}

inline void init(int argc, char** argv) {
  Global& g = G();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--shard") { std::string s = val(); sscanf(s.c_str(), "%d/%d", &g.shard, &g.nshards); }
    else if (a == "--tier") g.thorough = val() == "thorough";
    else if (a == "--variant") g.variant = val();
    else if (a == "--suite") g.only = val();
    else if (a == "--out") g.out = val();
    else if (a == "--maxviol") g.maxviol = atoi(val().c_str());
    else if (a == "--journal") {
      int fd = open(val().c_str(), O_RDWR | O_CREAT, 0600);
      if (fd < 0 || ftruncate(fd, 65536)) { perror("journal"); _exit(3); }
      g.journal = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    } else if (a == "--replay") {
      std::string s = val();
      size_t k = s.find(':');
      g.only = s.substr(0, k);
      g.replay = true;
      std::string p = k == std::string::npos ? "" : s.substr(k + 1);
      for (char* t = strtok(&p[0], ","); t; t = strtok(nullptr, ",")) g.replay_path.push_back(atoi(t));
    } else { fprintf(stderr, "bad arg %s\n", a.c_str()); _exit(3); }
  }
}
}  // namespace mc
