// A stand-in for the Octave/MATLAB array and error interface (mex.h), under the explorer's control.
// Numeric data sits in exactly sized blocks at an 8-byte (not 16-byte) boundary.
#pragma once
#include <csetjmp>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mx {
enum Cls { UNKNOWN, CELL, STRUCT, LOGICAL, CHAR, VOIDC, DOUBLE, SINGLE, I8, U8, I16, U16, I32, U32, I64, U64, FUNC };  // order of mxClassID
struct Arr {
  Cls c = DOUBLE;
  std::vector<int64_t> dim{0, 0};
  char *raw = nullptr, *d = nullptr;   // raw block, data
  std::vector<std::string> keys;       // struct: field names; vals[index * nkeys + key]
  std::vector<Arr*> vals;              // struct or cell contents
  bool sparse = false;
  size_t count() const { size_t n = 1; for (auto x : dim) n *= (size_t)x; return n; }
  static size_t esz(Cls c) { switch (c) { case DOUBLE: case I64: case U64: return 8; case SINGLE: case I32: case U32: return 4; case I16: case U16: return 2; case STRUCT: case CELL: case FUNC: return 0; default: return 1; } }
  size_t bytes() const { return count() * esz(c); }
  void alloc() {  // data at 8 mod 16, ending exactly at the end of the block
    size_t b = bytes(), off = 8;
    raw = new char[b + off];
    if (((uintptr_t)raw + off) % 16 != 8) { delete[] raw; off = 16; raw = new char[b + off]; }
    d = raw + off;
    memset(d, 0, b);
  }
};
struct World {
  std::set<Arr*> live;
  std::set<void*> heap;
  jmp_buf jb; bool in_call = false;
  std::string id, msg, printed, misuse;
  void (*atexit_)() = nullptr;
};
inline World& W() { static World w; return w; }
inline Arr* mk(Cls c, std::vector<int64_t> dim) { Arr* a = new Arr; a->c = c; a->dim = dim; if (Arr::esz(c)) a->alloc(); W().live.insert(a); return a; }
inline void kill(Arr* a) { if (!a || !W().live.erase(a)) return; for (Arr* v : a->vals) kill(v); delete[] a->raw; delete a; }
inline Arr* dup(const Arr* a) { Arr* b = mk(a->c, a->dim); if (a->d) memcpy(b->d, a->d, a->bytes()); b->keys = a->keys; b->sparse = a->sparse; for (Arr* v : a->vals) b->vals.push_back(v ? dup(v) : nullptr); return b; }
inline Arr* dbl(int64_t m, int64_t n, const std::vector<double>& v = {}) { Arr* a = mk(DOUBLE, {m, n}); for (size_t i = 0; i < v.size() && i < a->count(); i++) ((double*)a->d)[i] = v[i]; return a; }
inline Arr* num(double x) { return dbl(1, 1, {x}); }
inline Arr* str(const char* s) { Arr* a = mk(CHAR, {1, (int64_t)strlen(s)}); memcpy(a->d, s, strlen(s)); return a; }
inline Arr* strct(int64_t m = 1, int64_t n = 1) { return mk(STRUCT, {m, n}); }
inline void put(Arr* s, const char* k, Arr* v) { s->keys.push_back(k); size_t n = s->count(); std::vector<Arr*> o; size_t nk = s->keys.size(); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j + 1 < nk; j++) o.push_back(s->vals[i * (nk - 1) + j]); o.push_back(i == 0 ? v : dup(v)); } s->vals = o; }
inline const Arr* fld(const Arr* s, const char* k) { for (size_t i = 0; i < s->keys.size(); i++) if (s->keys[i] == k && !s->vals.empty()) return s->vals[i]; return nullptr; }
inline std::string content(const Arr* a) { if (!a) return "-"; std::string s(1, (char)('A' + a->c)); for (auto d : a->dim) s += std::to_string(d) + "x"; if (a->d) s.append(a->d, a->bytes()); for (auto& k : a->keys) s += "|" + k; for (Arr* v : a->vals) s += "{" + content(v) + "}"; return s; }
inline double val(const Arr* a, size_t i) { switch (a->c) { case DOUBLE: return ((double*)a->d)[i]; case SINGLE: return ((float*)a->d)[i]; case I32: return ((int32_t*)a->d)[i]; case U32: return ((uint32_t*)a->d)[i]; case I64: return (double)((int64_t*)a->d)[i]; case U64: return (double)((uint64_t*)a->d)[i]; case I16: return ((int16_t*)a->d)[i]; case U16: return ((uint16_t*)a->d)[i]; case I8: return ((int8_t*)a->d)[i]; case CHAR: case LOGICAL: case U8: return ((uint8_t*)a->d)[i]; default: return 0; } }
[[noreturn]] inline void raise(const std::string& id, const std::string& m) { World& w = W(); w.id = id; w.msg = m; if (!w.in_call) { fprintf(stderr, "error raised outside a call\n"); _exit(3); } longjmp(w.jb, 1); }
inline void misuse(const char* f) { if (W().misuse.empty()) W().misuse = f; }
// One call of a MEX function: 0 = returned, 1 = raised.
typedef void (*Fn)(int, void**, int, const void**);
inline int call(Fn f, int nlhs, void** out, int nrhs, const void** in) {
  World& w = W(); w.id = w.msg = w.printed = w.misuse = "";
  int r = 0;
  w.in_call = true;
  if (setjmp(w.jb) == 0) f(nlhs, out, nrhs, in); else r = 1;
  w.in_call = false;
  return r;
}
}  // namespace mx

using mx::Arr;
static inline const Arr* A_(const void* p, const char* f) { if (!p || !mx::W().live.count((Arr*)p)) { mx::misuse(f); mx::raise("misuse", std::string(f) + " called with something that is not a live array"); } return (const Arr*)p; }
#define A(p) A_((p), __func__)
extern "C" {
const char* mexFunctionName(void) { return "mex"; }
void mexErrMsgTxt(const char* s) { mx::raise("", s ? s : ""); }
void mexErrMsgIdAndTxt(const char* id, const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); mx::raise(id ? id : "", b); }
void mexWarnMsgTxt(const char*) {}
void mexWarnMsgIdAndTxt(const char*, const char*, ...) {}
int mexPrintf(const char* f, ...) { char b[8192]; va_list ap; va_start(ap, f); int r = vsnprintf(b, sizeof b, f, ap); va_end(ap); mx::W().printed += b; return r; }
int mexEvalString(const char*) { return 0; }
void mexSetTrapFlag(int) {}
void mexMakeArrayPersistent(void*) {}
void mexMakeMemoryPersistent(void*) {}
void mexLock(void) {}
void mexUnlock(void) {}
int mexIsLocked(void) { return 0; }
int mexAtExit(void (*f)(void)) { mx::W().atexit_ = f; return 0; }
bool mxIsFinite(double v) { return std::isfinite(v); }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsNaN(double v) { return std::isnan(v); }
double mxGetEps(void) { return 2.220446049250313e-16; }
double mxGetInf(void) { return INFINITY; }
double mxGetNaN(void) { return NAN; }
void* mxMalloc(size_t n) { void* p = n ? new char[n] : nullptr; if (p) mx::W().heap.insert(p); return p; }
void* mxCalloc(size_t n, size_t s) { void* p = mxMalloc(n * s); if (p) memset(p, 0, n * s); return p; }
void mxFree(void* p) { if (!p) return; if (!mx::W().heap.erase(p)) { mx::misuse("mxFree"); return; } delete[] (char*)p; }
void* mxRealloc(void* p, size_t n) { void* q = mxMalloc(n); if (p && q) { memcpy(q, p, n); } mxFree(p); return q; }
void* mxCreateDoubleMatrix(int64_t m, int64_t n, int) { return mx::mk(mx::DOUBLE, {m, n}); }
void* mxCreateDoubleScalar(double v) { return mx::num(v); }
void* mxCreateLogicalScalar(unsigned char v) { Arr* a = mx::mk(mx::LOGICAL, {1, 1}); a->d[0] = v; return a; }
void* mxCreateNumericMatrix(int64_t m, int64_t n, int c, int) { return mx::mk((mx::Cls)c, {m, n}); }
void* mxCreateUninitNumericMatrix(int64_t m, int64_t n, int c, int) { Arr* a = mx::mk((mx::Cls)c, {m, n}); memset(a->d, 0xC3, a->bytes()); return a; }
void* mxCreateNumericArray(int64_t nd, const int64_t* d, int c, int) { std::vector<int64_t> v(d, d + nd); while (v.size() < 2) v.push_back(1); return mx::mk((mx::Cls)c, v); }
void* mxCreateString(const char* s) { return mx::str(s); }
void* mxCreateStructMatrix(int64_t m, int64_t n, int k, const char** keys) { Arr* a = mx::mk(mx::STRUCT, {m, n}); for (int i = 0; i < k; i++) a->keys.push_back(keys[i]); a->vals.assign(a->count() * (size_t)k, nullptr); return a; }
void* mxCreateStructArray(int64_t nd, const int64_t* d, int k, const char** keys) { return mxCreateStructMatrix(d[0], nd > 1 ? d[1] : 1, k, keys); }
void* mxCreateCellMatrix(int64_t m, int64_t n) { Arr* a = mx::mk(mx::CELL, {m, n}); a->vals.assign(a->count(), nullptr); return a; }
void* mxDuplicateArray(const void* p) { return mx::dup(A(p)); }
void mxDestroyArray(void* p) { if (p) mx::kill((Arr*)A(p)); }
int mxGetClassID(const void* p) { return A(p)->c; }
const char* mxGetClassName(const void* p) { static const char* n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return n[A(p)->c]; }
bool mxIsClass(const void* p, const char* s) { return !strcmp(mxGetClassName(p), s); }
bool mxIsCell(const void* p) { return A(p)->c == mx::CELL; }
bool mxIsChar(const void* p) { return A(p)->c == mx::CHAR; }
bool mxIsComplex(const void* p) { A(p); return false; }
bool mxIsDouble(const void* p) { return A(p)->c == mx::DOUBLE; }
bool mxIsFunctionHandle(const void* p) { return A(p)->c == mx::FUNC; }
bool mxIsInt8(const void* p) { return A(p)->c == mx::I8; }
bool mxIsInt16(const void* p) { return A(p)->c == mx::I16; }
bool mxIsInt32(const void* p) { return A(p)->c == mx::I32; }
bool mxIsInt64(const void* p) { return A(p)->c == mx::I64; }
bool mxIsUint8(const void* p) { return A(p)->c == mx::U8; }
bool mxIsUint16(const void* p) { return A(p)->c == mx::U16; }
bool mxIsUint32(const void* p) { return A(p)->c == mx::U32; }
bool mxIsUint64(const void* p) { return A(p)->c == mx::U64; }
bool mxIsLogical(const void* p) { return A(p)->c == mx::LOGICAL; }
bool mxIsSingle(const void* p) { return A(p)->c == mx::SINGLE; }
bool mxIsNumeric(const void* p) { int c = A(p)->c; return c >= mx::DOUBLE && c <= mx::U64; }
bool mxIsSparse(const void* p) { return A(p)->sparse; }
bool mxIsStruct(const void* p) { return A(p)->c == mx::STRUCT; }
bool mxIsEmpty(const void* p) { return A(p)->count() == 0; }
bool mxIsScalar(const void* p) { return A(p)->count() == 1; }
bool mxIsLogicalScalar(const void* p) { return mxIsLogical(p) && mxIsScalar(p); }
bool mxIsLogicalScalarTrue(const void* p) { return mxIsLogicalScalar(p) && A(p)->d[0]; }
bool mxIsFromGlobalWS(const void* p) { A(p); return false; }
size_t mxGetM(const void* p) { return (size_t)A(p)->dim[0]; }
size_t mxGetN(const void* p) { const Arr* a = A(p); size_t n = 1; for (size_t i = 1; i < a->dim.size(); i++) n *= (size_t)a->dim[i]; return n; }
const int64_t* mxGetDimensions(const void* p) { return A(p)->dim.data(); }
int64_t mxGetNumberOfDimensions(const void* p) { return (int64_t)A(p)->dim.size(); }
size_t mxGetNumberOfElements(const void* p) { return A(p)->count(); }
size_t mxGetElementSize(const void* p) { return Arr::esz(A(p)->c); }
void mxSetM(void* p, int64_t m) { const_cast<Arr*>(A(p))->dim[0] = m; }
void mxSetN(void* p, int64_t n) { const_cast<Arr*>(A(p))->dim[1] = n; }
int mxSetDimensions(void* p, const int64_t* d, int64_t n) { const_cast<Arr*>(A(p))->dim.assign(d, d + n); return 0; }
double* mxGetPr(const void* p) { return (double*)A(p)->d; }
double* mxGetPi(const void* p) { A(p); return nullptr; }
void* mxGetData(const void* p) { return A(p)->d; }
void* mxGetImagData(const void* p) { A(p); return nullptr; }
char* mxGetChars(const void* p) { return A(p)->d; }
unsigned char* mxGetLogicals(const void* p) { return (unsigned char*)A(p)->d; }
double* mxGetDoubles(const void* p) { return mxGetPr(p); }
int32_t* mxGetInt32s(const void* p) { return (int32_t*)A(p)->d; }
double mxGetScalar(const void* p) { const Arr* a = A(p); if (!a->d || !a->count()) mx::raise("misuse", "mxGetScalar: no data"); return mx::val(a, 0); }
int mxGetFieldNumber(const void* p, const char* k) { const Arr* a = A(p); for (size_t i = 0; i < a->keys.size(); i++) if (a->keys[i] == k) return (int)i; return -1; }
int mxGetNumberOfFields(const void* p) { return (int)A(p)->keys.size(); }
const char* mxGetFieldNameByNumber(const void* p, int k) { const Arr* a = A(p); return k >= 0 && k < (int)a->keys.size() ? a->keys[k].c_str() : nullptr; }
void* mxGetFieldByNumber(const void* p, int64_t i, int k) { const Arr* a = A(p); size_t nk = a->keys.size(); if (k < 0 || (size_t)k >= nk || (size_t)i >= a->count()) return nullptr; return a->vals[(size_t)i * nk + (size_t)k]; }
void* mxGetField(const void* p, int64_t i, const char* k) { if (!mxIsStruct(p)) return nullptr; int n = mxGetFieldNumber(p, k); return n < 0 ? nullptr : mxGetFieldByNumber(p, i, n); }
void mxSetFieldByNumber(void* p, int64_t i, int k, void* v) { Arr* a = const_cast<Arr*>(A(p)); size_t nk = a->keys.size(); if (k < 0 || (size_t)k >= nk || (size_t)i >= a->count()) return; a->vals[(size_t)i * nk + (size_t)k] = (Arr*)v; }
void mxSetField(void* p, int64_t i, const char* k, void* v) { int n = mxGetFieldNumber(p, k); if (n >= 0) mxSetFieldByNumber(p, i, n, v); }
int mxAddField(void* p, const char* k) { Arr* a = const_cast<Arr*>(A(p)); mx::put(a, k, nullptr); return (int)a->keys.size() - 1; }
void* mxGetCell(const void* p, int64_t i) { const Arr* a = A(p); return (size_t)i < a->vals.size() ? a->vals[i] : nullptr; }
void mxSetCell(void* p, int64_t i, void* v) { Arr* a = const_cast<Arr*>(A(p)); if ((size_t)i < a->vals.size()) a->vals[i] = (Arr*)v; }
int mxGetString(const void* p, char* b, int64_t n) { const Arr* a = A(p); if (a->c != mx::CHAR || n <= 0) return 1; size_t len = a->count(), k = len < (size_t)n ? len : (size_t)n - 1; memcpy(b, a->d, k); b[k] = 0; return len > k; }
char* mxArrayToString(const void* p) { const Arr* a = A(p); if (a->c != mx::CHAR) return nullptr; char* s = (char*)mxMalloc(a->count() + 1); memcpy(s, a->d, a->count()); s[a->count()] = 0; return s; }
int64_t mxCalcSingleSubscript(const void* p, int64_t n, int64_t* s) { const Arr* a = A(p); int64_t r = 0; for (int64_t i = n; i-- > 0;) r = r * a->dim[i] + s[i]; return r; }
}
#undef A
