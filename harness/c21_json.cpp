// C21: loading JSON data.
#include "kern.hpp"
#include <cjson/cJSON.h>
#include <dirent.h>
#include <sys/stat.h>
extern "C" {
int extract_json_double_array(cJSON*, char*, double**, l1c_int*);
int load_file_as_text(char*, char**);
int load_file_to_json(char*, cJSON**);
int extract_json_int(cJSON*, char*, l1c_int*);
int extract_json_double(cJSON*, char*, double*);
int extract_json_int_array(cJSON*, char*, l1c_int**, l1c_int*);
void* __real_malloc(size_t);
void __wrap_free(void*);
}
static long cj_live = 0;
static void* cj_malloc(size_t n) { void* p = __real_malloc(n); if (p) cj_live++; return p; }
static void cj_free(void* p) { if (p) cj_live--; __real_free(p); }
static int nfds() { int n = 0; DIR* d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static std::string PATH, DIRN;
static void put(const std::string& s) { FILE* f = fopen(PATH.c_str(), "wb"); if (!f) { perror("scratch"); _exit(3); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
// reference recogniser: does the text begin (after white space) with a JSON value?
struct Rec {
  const std::string& s; size_t i = 0;
  void ws() { while (i < s.size() && (unsigned char)s[i] <= 32) i++; }
  bool str() { if (s[i] != '"') return false; i++; while (i < s.size() && s[i] != '"') i++; if (i >= s.size()) return false; i++; return true; }
  bool val() {
    ws(); if (i >= s.size()) return false;
    char c = s[i];
    if (c == '"') return str();
    if (c == '1') { i++; while (i < s.size() && s[i] == '1') i++; return true; }
    if (s.compare(i, 4, "true") == 0 || s.compare(i, 4, "null") == 0) { i += 4; return true; }
    if (c == '[') { i++; ws(); if (i < s.size() && s[i] == ']') { i++; return true; } for (;;) { if (!val()) return false; ws(); if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; return true; } return false; } }
    if (c == '{') { i++; ws(); if (i < s.size() && s[i] == '}') { i++; return true; } for (;;) { ws(); if (i >= s.size() || !str()) return false; ws(); if (i >= s.size() || s[i] != ':') return false; i++; if (!val()) return false; ws(); if (i >= s.size()) return false; if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; return true; } return false; } }
    return false;
  }
};
static bool begins_with_value(const std::string& s) { Rec r{s}; return r.val(); }
struct Guard { // nothing stays allocated or open
  mc::Ctx& c; long l, j; int f;
  Guard(mc::Ctx& x) : c(x) { wrap_reset(); l = wrap_live(); j = cj_live; f = nfds(); }
  void done(const char* what) { if (wrap_error()) c.fail("%s: %s", what, wrap_error()); if (wrap_live() != l || cj_live != j) c.fail("%s: %ld blocks leaked", what, wrap_live() - l + cj_live - j); int g = nfds(); if (g != f) c.fail("%s: %d file handles left open", what, g - f); c.check(2); }
};
static std::string num(double v) { char b[40]; snprintf(b, 40, "%.17g", v); return b; }
int main(int argc, char** argv) {
  mc::init(argc, argv);
  char tmpl[] = "l1c_json_XXXXXX"; DIRN = mkdtemp(tmpl); PATH = DIRN + "/d.json";
  cJSON_Hooks hk{cj_malloc, cj_free}; cJSON_InitHooks(&hk);
  static const std::vector<std::string> TOK{"{", "}", "[", "]", ",", ":", "\"a\"", "1", " ", "true", "x"};
  // every sequence of tokens up to a length
  mc::explore("text", [](mc::Ctx& c) {
    int L = mc::thorough() ? 6 : 5; int len = c.choose(L + 1, "tokens"); std::string s;
    for (int i = 0; i < len; i++) s += TOK[c.choose((int)TOK.size())];
    if (mc::is_asan() && len > 4 && !mc::thorough()) c.prune();
    c.begin("file content '%s'", s.c_str());
    put(s);
    Guard g(c);
    cJSON* j = nullptr; int st = load_file_to_json((char*)PATH.c_str(), &j); c.step(); c.check();
    bool ok = begins_with_value(s);
    if (ok && (st || !j)) c.fail("a file holding a JSON value is refused (status %d)", st);
    if (!ok && !st) c.fail("status 0 for a file that holds no JSON value");
    if (!st) { // extraction never crashes on any document
      double* x = nullptr; l1c_int* q = nullptr; l1c_int n = -5; double d = 1.5;
      int a = extract_json_int(j, (char*)"a", &n), b = extract_json_double(j, (char*)"a", &d); l1c_int k1 = 0, k2 = 0;
      int e = extract_json_double_array(j, (char*)"a", &x, &k1), f = extract_json_int_array(j, (char*)"a", &q, &k2);
      cJSON* it = cJSON_GetObjectItemCaseSensitive(j, "a"); bool nu = cJSON_IsNumber(it), ar = cJSON_IsArray(it);
      if ((a == 0) != nu || (b == 0) != nu || (e == 0) != ar || (f == 0) != ar) c.fail("extraction statuses %d %d %d %d for a field of type %s", a, b, e, f, nu ? "number" : ar ? "array" : "other/absent");
      if (ar) { if (k1 != cJSON_GetArraySize(it) || k2 != k1) c.fail("array lengths %d %d instead of %d", k1, k2, cJSON_GetArraySize(it)); l1c_free_double(x); __wrap_free(q); }
      if (nu && (n != (int)it->valuedouble || d != it->valuedouble)) c.fail("extracted %d, %g", n, d);
    }
    cJSON_Delete(j);
    g.done("load");
    c.state(mc::hbytes(s.data(), s.size())); c.outcome(st * 2 + ok);
  });
  mc::explore("bytes", [](mc::Ctx& c) {  // load_file_as_text returns exactly the bytes
    int kind = c.choose(4, "content"); static const int S[] = {1, 2, 3, 10, 511, 512, 513, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200001}; int n = S[c.choose(15)];
    c.begin("%d bytes, kind %d", n, kind);
    std::string s(n, 'a'); for (int i = 0; i < n; i++) s[i] = kind == 0 ? 'a' : kind == 1 ? "\n x{"[i % 4] : kind == 2 ? (char)(1 + i % 255) : (i == n - 1 ? 'Z' : '\r');
    put(s); Guard g(c); char* d = nullptr; int st = load_file_as_text((char*)PATH.c_str(), &d); c.step(); c.check();
    if (st || !d) c.fail("status %d", st);
    if (strlen(d) != s.size() || s != d) c.fail("text differs from the file");
    __wrap_free(d); g.done("load"); c.state(mc::mix(n, kind)); c.outcome(st);
  });
  mc::explore("paths", [](mc::Ctx& c) {
    int kind = c.choose(6, "path"), which = c.choose(2, "loader");
    std::string p = kind == 0 ? DIRN + "/missing" : kind == 1 ? DIRN : kind == 2 ? "" : kind == 3 ? DIRN + "/no/such/dir" : kind == 4 ? DIRN + "/empty" : PATH + "/x";
    c.begin("path kind %d loader %d", kind, which);
    put("[1]"); if (kind == 4) { FILE* f = fopen(p.c_str(), "w"); fclose(f); }
    Guard g(c); cJSON* j = nullptr; char* d = nullptr; int st = which ? load_file_to_json((char*)p.c_str(), &j) : load_file_as_text((char*)p.c_str(), &d); c.step(); c.check();
    if (which == 1 || kind != 4) if (!st) c.fail("status 0");
    if (which == 1 && j) c.fail("a document is returned together with status %d", st);
    if (!st) __wrap_free(d);
    g.done("load"); c.state(kind * 2 + which); c.outcome(st);
  });
  // documents: several fields of enumerated types; every extractor on every name
  mc::explore("fields", [](mc::Ctx& c) {
    static const char* NM[] = {"a", "A", "ab", "b c", "", "x"};
    int nf = 1 + c.choose(3, "fields"); std::string s = "{"; struct F { std::string nm; int ty; Vec v; }; std::vector<F> fs;
    static const Vec DV{-0.0, -1, 3.25, 1e300, -2.2250738585072014e-308, 0.1, 123456789.0, 1.0 / 3, -7e-5, 0.0};
    static const Vec IV{0, -1, 7, 2147483647.0, -2147483648.0, 100000};
    for (int i = 0; i < nf; i++) {
      F f; f.nm = NM[c.choose(i == 0 ? 6 : 3, "name")]; f.ty = c.choose(7, "type");
      for (auto& o : fs) if (o.nm == f.nm) c.prune();
      int k = i == 0 ? c.choose(6) : 1;
      std::string t;
      if (f.ty == 0) { f.v = {IV[k]}; t = num(IV[k]); } else if (f.ty == 1) { f.v = {DV[k]}; t = num(DV[k]); }
      else if (f.ty == 2) { if (k > 1) c.prune(); t = k ? "true" : "null"; } else if (f.ty == 3) { if (k > 1) c.prune(); t = k ? "\"12\"" : "\"[1,2]\""; } else if (f.ty == 4) { if (k) c.prune(); t = "{\"a\":[1,2],\"x\":3}"; }
      else { int n = k == 0 ? 0 : k == 1 ? 3 : k == 2 ? 1 : k == 3 ? 8 : k == 4 ? 17 : 2; t = "["; for (int j = 0; j < n; j++) { double v = f.ty == 5 ? IV[(j + k) % 6] : DV[(j + k) % 10]; f.v.push_back(v); t += (j ? ", " : "") + num(v); } t += "]"; }
      s += (i ? ",\n" : "") + std::string("\"") + f.nm + "\" : " + t; fs.push_back(f);
    }
    s += "}";
    if (mc::is_asan() && nf == 3 && !mc::thorough()) c.prune();
    c.begin("document %s", s.c_str());
    put(s); Guard g(c); cJSON* j = nullptr; if (load_file_to_json((char*)PATH.c_str(), &j) || !j) c.fail("valid document refused");
    struct DJ { cJSON*& j; ~DJ() { if (j) cJSON_Delete(j); j = nullptr; } }; { DJ dj{j};
    for (auto nm : NM) {
      const F* f = nullptr; for (auto& o : fs) if (o.nm == nm) f = &o;
      bool isn = f && f->ty <= 1, isa = f && f->ty >= 5;
      l1c_int n = -99; double d = NAN; int st = extract_json_int(j, (char*)nm, &n); c.step(); c.check();
      if ((st == 0) != isn) c.fail("extract_json_int('%s') returned %d", nm, st);
      if (isn && f->ty == 0 && n != (int)f->v[0]) c.fail("extract_json_int('%s') gives %d, the file has %.17g", nm, n, f->v[0]);
      st = extract_json_double(j, (char*)nm, &d); c.step(); c.check();
      if ((st == 0) != isn) c.fail("extract_json_double('%s') returned %d", nm, st);
      if (isn && memcmp(&d, &f->v[0], 8)) c.fail("extract_json_double('%s') gives %.17g, the file has %.17g", nm, d, f->v[0]);
      double* x = nullptr; l1c_int k = -1; st = extract_json_double_array(j, (char*)nm, &x, &k); c.step(); c.check();
      if ((st == 0) != isa) c.fail("extract_json_double_array('%s') returned %d", nm, st);
      if (st && x) c.fail("failed extraction returned an array");
      if (isa) { if (k != (int)f->v.size()) c.fail("array '%s' has length %d instead of %zu", nm, k, f->v.size()); if (k && ((uintptr_t)x % 64)) c.fail("array is not aligned"); if (k && wrap_block_size(x) < 8u * k) c.fail("array block too small"); for (int i = 0; i < k; i++) if (f->ty == 5 ? x[i] != f->v[i] : !!memcmp(&x[i], &f->v[i], 8)) c.fail("element %d of '%s' is %.17g, the file has %.17g", i, nm, x[i], f->v[i]); l1c_free_double(x); }
      l1c_int* q = nullptr; k = -1; st = extract_json_int_array(j, (char*)nm, &q, &k); c.step(); c.check();
      if ((st == 0) != isa) c.fail("extract_json_int_array('%s') returned %d", nm, st);
      if (st && q) c.fail("failed extraction returned an array");
      if (isa) { if (k != (int)f->v.size()) c.fail("int array '%s' has length %d instead of %zu", nm, k, f->v.size()); if (f->ty == 5) for (int i = 0; i < k; i++) if (q[i] != (int)f->v[i]) c.fail("element %d of '%s' is %d, the file has %.17g", i, nm, q[i], f->v[i]); __wrap_free(q); }
    } }
    g.done("fields"); c.state(mc::hbytes(s.data(), s.size())); c.outcome(nf * 10 + fs[0].ty);
  });
  mc::explore("lengths", [](mc::Ctx& c) {
    int n = c.choose(mc::thorough() ? 2500 : 700, "length"), dbl = c.choose(2); if (n > 300) n = 300 + (n - 300) * 37;
    c.begin("array of %d %s", n, dbl ? "reals" : "ints");
    std::string s = "{\"pre\": [1,2], \"v\": ["; Vec v; for (int i = 0; i < n; i++) { double t = dbl ? gen(i, 9) : (double)((i * 7919) % 100003 - 50000); v.push_back(t); s += (i ? "," : "") + num(t); } s += "], \"post\": 4}\n";
    put(s); Guard g(c); cJSON* j = nullptr; if (load_file_to_json((char*)PATH.c_str(), &j)) c.fail("refused");
    l1c_int k = -1; c.step(2); c.check(2); bool bad = false; int at = 0;
    if (dbl) { double* x = nullptr; int st = extract_json_double_array(j, (char*)"v", &x, &k); if (st || k != n) bad = true; else { for (int i = 0; i < n; i++) if (x[i] != v[i]) bad = true, at = i; l1c_free_double(x); } }
    else { l1c_int* x = nullptr; int st = extract_json_int_array(j, (char*)"v", &x, &k); if (st || k != n) bad = true; else { for (int i = 0; i < n; i++) if (x[i] != (int)v[i]) bad = true, at = i; __wrap_free(x); } }
    l1c_int p = 0; if (extract_json_int(j, (char*)"post", &p) || p != 4) bad = true;
    cJSON_Delete(j);
    if (bad) c.fail("array of %d elements not returned exactly (length %d, element %d)", n, k, at);
    g.done("array"); c.state(n * 2 + dbl);
  });
  mc::explore("null", [](mc::Ctx& c) {
    int w = c.choose(4); c.begin("NULL document, extractor %d", w); Guard g(c);
    l1c_int n = 0; double d = 0; double* x = nullptr; l1c_int* q = nullptr; int st = w == 0 ? extract_json_int(nullptr, (char*)"a", &n) : w == 1 ? extract_json_double(nullptr, (char*)"a", &d) : w == 2 ? extract_json_double_array(nullptr, (char*)"a", &x, &n) : extract_json_int_array(nullptr, (char*)"a", &q, &n);
    c.step(); c.check(); if (!st) c.fail("status 0"); g.done("null"); c.state(w);
  });
  remove(PATH.c_str()); remove((DIRN + "/empty").c_str()); rmdir(DIRN.c_str());
  return mc::finish();
}
