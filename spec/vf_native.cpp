// Native implementation of the specification primitives: replay (name=value file) and concrete search.
// usage: prog HARNESS replay FILE | prog HARNESS search SECONDS SEED OUTFILE [name=value ...fixed]
// exit 0: nothing failed; 10: a contract clause failed; 77: replay input rejected by the precondition;
// sanitizer / signal death: abnormal
#include "vf.h"
#include <gmp.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <string>
#include <vector>
#include <random>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <malloc.h>
#include <new>
#include <chrono>
extern "C" { struct vf_entry { const char* name; void (*fn)(); }; extern vf_entry vf_entries[]; }
#ifdef VF_HEAP
static long live_ = 0; static int in_vf = 0;
struct InVf { InVf() { ++in_vf; } ~InVf() { --in_vf; } };
void* operator new(std::size_t n) { char* p = (char*)std::malloc(n + 16); *p = in_vf == 0; live_ += *p; return p + 16; }
void operator delete(void* q) noexcept { if (!q) return; char* p = (char*)q - 16; live_ -= *p; std::free(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* q) noexcept { operator delete(q); }
void operator delete(void* q, std::size_t) noexcept { operator delete(q); }
void operator delete[](void* q, std::size_t) noexcept { operator delete(q); }
#define IN_VF InVf in_vf_;
#else
#define IN_VF
#endif
namespace {
struct Skip {}; struct Fail {};
std::map<std::string, std::string> given; bool replaying = false; bool searching = false; bool usehint = false;
std::vector<std::pair<std::string, std::string>> log_;
std::string failed, outfile;
std::mt19937_64 rng(1);
struct Mpz { mpz_t z; };
std::vector<mpz_t*> zt;
int style = 0;
void zclear() { for (auto p : zt) { mpz_clear(*p); delete p; } zt.clear(); }
int znew(mpz_t*& p) { p = new mpz_t[1]; mpz_init(*p); zt.push_back(p); return (int)zt.size() - 1; }
std::string key(const char* n, std::int64_t i) { return i < 0 ? std::string(n) : std::string(n) + "[" + std::to_string(i) + "]"; }
void dump() {
  if (outfile.empty()) return;
  FILE* f = std::fopen(outfile.c_str(), "w"); if (!f) return;
  for (auto& kv : log_) std::fprintf(f, "%s=%s\n", kv.first.c_str(), kv.second.c_str());
  std::fclose(f);
}
void onsig(int s) { dump(); signal(s, SIG_DFL); raise(s); }
std::uint64_t pick(std::uint64_t lo, std::uint64_t hi) {
  if (lo == hi) return lo;
  std::uint64_t span = hi - lo;
  switch (style == 1 ? rng() % 4 : style == 2 ? 4 + rng() % 8 : rng() % 12) {
    case 0: return lo; case 1: return hi; case 2: return lo + (span < 1 ? 0 : 1); case 3: return hi - 1;
    case 4: { std::uint64_t k = 1 + rng() % 60; std::uint64_t m = (1ULL << k) - 1; return lo + (span == ~0ULL ? rng() & m : (rng() & m) % (span + 1)); }
    case 5: return lo + (span >= 10 ? rng() % 10 : rng() % (span + 1));
    case 6: return hi - (span >= 10 ? rng() % 10 : rng() % (span + 1));
    case 7: { static const std::uint64_t c[] = {1,9,10,99,100,99999999,100000000,10000000,50000000,2147483647,2147483648ULL,4294967295ULL,4294967296ULL,9007199254740992ULL};
              std::uint64_t v = c[rng() % (sizeof c / sizeof *c)]; if (v >= lo && v <= hi) return v; }
    // fallthrough
    default: return span == ~0ULL ? rng() : lo + rng() % (span + 1);
  }
}
std::int64_t picki(std::int64_t lo, std::int64_t hi) {
  std::uint64_t span = (std::uint64_t)hi - (std::uint64_t)lo;
  if (lo < 0 && hi > 0 && rng() % 3 == 0) {       // near zero, multiples of 8
    static const std::int64_t c[] = {0,1,-1,8,-8,16,-16,24,40,64,96,104,112,120,128,-96,-104,-112,-120,-128,2,3,-2,-3,7,-7};
    std::int64_t v = c[rng() % (sizeof c / sizeof *c)]; if (v >= lo && v <= hi) return v;
  }
  if (span > 4000 && rng() % 2) { std::int64_t v = (std::int64_t)(rng() % 400) - 200; if (v >= lo && v <= hi) return v; }
  return (std::int64_t)((std::uint64_t)lo + pick(0, span));
}
}
extern "C" {
extern int vf_native_case_hint(const char*) __attribute__((weak));
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0"; }
const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
std::int64_t vf_case_(const char* n, std::int64_t i, std::int64_t lo, std::int64_t hi) { return vf_nondet_i64_(n, i, lo, hi); }
std::uint64_t vf_nondet_u64_(const char* n, std::int64_t i, std::uint64_t lo, std::uint64_t hi) {
  IN_VF std::string k = key(n, i); std::uint64_t v;
  auto it = given.find(k);
  if (it != given.end()) { v = std::strtoull(it->second.c_str(), nullptr, 10); }
  else v = replaying ? lo : pick(lo, hi);
  log_.emplace_back(k, std::to_string(v));
  if (v < lo || v > hi) throw Skip();
  return v;
}
std::int64_t vf_nondet_i64_(const char* n, std::int64_t i, std::int64_t lo, std::int64_t hi) {
  IN_VF std::string k = key(n, i); std::int64_t v;
  auto it = given.find(k);
  if (it != given.end()) { v = std::strtoll(it->second.c_str(), nullptr, 10); }
  else v = replaying ? lo : picki(lo, hi);
  log_.emplace_back(k, std::to_string(v));
  if (v < lo || v > hi) throw Skip();
  return v;
}
void vf_assume(bool c) { if (!c) throw Skip(); }
void vf_assert_(bool c, const char* n) { if (!c) { failed = n; throw Fail(); } }
void vf_reach(const char*) {}
std::uint64_t vf_havoc_u64(std::uint64_t lo, std::uint64_t hi) { return pick(lo, hi); }
int vf_zi(std::int64_t v) { IN_VF mpz_t* p; int h = znew(p); mpz_set_si(*p, v); return h; }
int vf_zu(std::uint64_t v) { IN_VF mpz_t* p; int h = znew(p); mpz_set_ui(*p, v); return h; }
int vf_zadd(int a, int b) { IN_VF mpz_t* p; int h = znew(p); mpz_add(*p, *zt[a], *zt[b]); return h; }
int vf_zsub(int a, int b) { IN_VF mpz_t* p; int h = znew(p); mpz_sub(*p, *zt[a], *zt[b]); return h; }
int vf_zmul(int a, int b) { IN_VF mpz_t* p; int h = znew(p); mpz_mul(*p, *zt[a], *zt[b]); return h; }
int vf_zpow(std::int64_t b, std::int64_t n) { IN_VF mpz_t* p; int h = znew(p); mpz_set_si(*p, b); mpz_pow_ui(*p, *p, (unsigned long)n); return h; }
bool vf_zle(int a, int b) { return mpz_cmp(*zt[a], *zt[b]) <= 0; }
bool vf_zeq(int a, int b) { return mpz_cmp(*zt[a], *zt[b]) == 0; }
bool vf_and(bool a, bool b) { return a && b; }
bool vf_or(bool a, bool b) { return a || b; }
#ifdef VF_HEAP
std::int64_t vf_heap_live() { return live_; }
#else
std::int64_t vf_heap_live() { return 0; }
#endif
}
// ---- exact values for the field abstraction: 1200-bit floating point natively
#include <mpfr.h>
namespace { std::vector<mpfr_ptr> qt_; void qclear() { for (auto p : qt_) { mpfr_clear(p); delete p; } qt_.clear(); }
mpfr_ptr qnew(int& h) { mpfr_ptr p = new __mpfr_struct; mpfr_init2(p, 1200); qt_.push_back(p); h = (int)qt_.size() - 1; return p; } }
extern "C" {
int vf_qin_(const char* n, std::int64_t i) {
  int h; mpfr_ptr p = qnew(h); mpfr_t d; mpfr_init2(d, 1200);
  std::string k = key(n, i); bool fresh = !given.count("D");
  if (fresh) { static const char* ds[] = {"1", "2", "3", "7", "100", "1000000", "1000000007", "100000000000000000000"}; given["D"] = ds[rng() % 8]; }
  if (!given.count(k)) { std::int64_t m = (std::int64_t)(rng() % 5); std::int64_t v = m == 0 ? (std::int64_t)(rng() % 3) - 1 : m == 1 ? (std::int64_t)(rng() % 21) - 10 : (std::int64_t)(rng() % 2000001) - 1000000;
    mpz_t z; mpz_init_set_str(z, given["D"].c_str(), 10); mpz_mul_si(z, z, m < 2 ? v : (v % 40)); if (m >= 2) { mpz_t w; mpz_init_set_si(w, v); mpz_add(z, z, w); mpz_clear(w); } char* s = mpz_get_str(nullptr, 10, z); given[k] = s; free(s); mpz_clear(z); }
  log_.emplace_back(k, given[k]); log_.emplace_back("D", given["D"]);
  mpfr_set_str(p, given[k].c_str(), 10, MPFR_RNDN); mpfr_set_str(d, given["D"].c_str(), 10, MPFR_RNDN); mpfr_div(p, p, d, MPFR_RNDN); mpfr_clear(d);
  return h; }
int vf_qrat(int a, int b) { int h; mpfr_ptr p = qnew(h); mpfr_set_z(p, *zt[a], MPFR_RNDN); mpfr_div_z(p, p, *zt[b], MPFR_RNDN); return h; }
int vf_qadd(int a, int b) { int h; mpfr_ptr p = qnew(h); mpfr_add(p, qt_[a], qt_[b], MPFR_RNDN); return h; }
int vf_qneg(int a) { int h; mpfr_ptr p = qnew(h); mpfr_neg(p, qt_[a], MPFR_RNDN); return h; }
int vf_qmul(int a, int b) { int h; mpfr_ptr p = qnew(h); mpfr_mul(p, qt_[a], qt_[b], MPFR_RNDN); return h; }
int vf_qsign(int a) { return mpfr_sgn(qt_[a]); }
int vf_qinv(int a) { int h; mpfr_ptr p = qnew(h); if (!mpfr_sgn(qt_[a])) throw Skip(); mpfr_ui_div(p, 1, qt_[a], MPFR_RNDN); return h; }
int vf_qsqrt(int a) { int h; mpfr_ptr p = qnew(h); mpfr_sqrt(p, qt_[a], MPFR_RNDN); return h; }
int vf_qhavoc() { return vf_qrat(vf_zi(0), vf_zi(1)); }
int vf_qfloor(int a) { int h; mpfr_ptr p = qnew(h); mpfr_floor(p, qt_[a]); return h; }
int vf_qfun(const char* f, int a, int b) {
  int h; mpfr_ptr p = qnew(h); std::string s = f; mpfr_ptr x = qt_[a], y = qt_[b];
#define F(n) else if (s == #n) mpfr_##n(p, x, MPFR_RNDN);
  if (s == "pi") mpfr_const_pi(p, MPFR_RNDN);
  F(sin) F(cos) F(tan) F(exp) F(log) F(sinh) F(cosh) F(tanh) F(atan) F(asin) F(acos) F(asinh) F(acosh) F(atanh) else if (s == "atan2") mpfr_atan2(p, x, y, MPFR_RNDN); else throw Skip();
  return h; }
static bool near(int a, int b) {
  if (mpfr_nan_p(qt_[a]) || mpfr_nan_p(qt_[b])) return mpfr_nan_p(qt_[a]) && mpfr_nan_p(qt_[b]);
  mpfr_t d, s; mpfr_init2(d, 1200); mpfr_init2(s, 1200); mpfr_sub(d, qt_[a], qt_[b], MPFR_RNDN); mpfr_abs(d, d, MPFR_RNDN); mpfr_abs(s, qt_[a], MPFR_RNDN);
  mpfr_max(s, s, d, MPFR_RNDN); mpfr_add_ui(s, s, 1, MPFR_RNDN); mpfr_div(d, d, s, MPFR_RNDN); bool r = mpfr_cmp_d(d, 1e-70) < 0; mpfr_clear(d); mpfr_clear(s); return r; }
bool vf_qeq(int a, int b) { return near(a, b); }
bool vf_qle(int a, int b) { return mpfr_cmp(qt_[a], qt_[b]) <= 0 || near(a, b); }
int vf_qlimbs(const std::uint32_t* d, int n, bool neg, std::int64_t e) {
  int h; mpfr_ptr p = qnew(h); mpfr_set_ui(p, 0, MPFR_RNDN); for (int i = 0; i < n; ++i) { mpfr_mul_ui(p, p, 100000000, MPFR_RNDN); mpfr_add_ui(p, p, d[i], MPFR_RNDN); }
  mpfr_t t; mpfr_init2(t, 1200); std::int64_t k = e - 8 * (n - 1); if (k > 100000 || k < -100000) throw Skip(); mpfr_ui_pow_ui(t, 10, (unsigned long)(k < 0 ? -k : k), MPFR_RNDN);
  if (k < 0) mpfr_div(p, p, t, MPFR_RNDN); else mpfr_mul(p, p, t, MPFR_RNDN); mpfr_clear(t); if (neg) mpfr_neg(p, p, MPFR_RNDN); return h; }
void vf_qstr(int q, char* out, int n) { mpfr_snprintf(out, n, "%.118RNe", qt_[q]); }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  void (*fn)() = nullptr;
  for (vf_entry* e = vf_entries; e->name; ++e) if (!std::strcmp(e->name, argv[1])) fn = e->fn;
  if (!fn) { std::fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onsig);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
  if (!std::strcmp(argv[2], "replay")) {
    replaying = true;
    FILE* f = std::fopen(argv[3], "r"); if (!f) return 2;
    char b[4096];
    while (std::fgets(b, sizeof b, f)) { char* e = std::strchr(b, '='); if (!e || b[0] == '#') continue; *e = 0; given[b] = std::string(e + 1, std::strcspn(e + 1, "\n")); }
    std::fclose(f);
    try { fn(); } catch (Skip&) { std::printf("precondition rejects this input\n"); return 77; } catch (Fail&) { std::printf("FAILED %s\n", failed.c_str()); return 10; } catch (...) { std::printf("FAILED implicit:uncaught-exception\n"); return 10; }
    std::printf("holds\n"); return 0;
  }
  double secs = std::atof(argv[3]); rng.seed(std::strtoull(argv[4], nullptr, 10)); outfile = argv[5];
  std::map<std::string, std::string> hint;
  for (int i = 6; i < argc; ++i) { char* e = std::strchr(argv[i], '='); if (e) hint[std::string(argv[i], e - argv[i])] = e + 1; }
  auto t0 = std::chrono::steady_clock::now(); long n = 0, skipped = 0;
  while (true) {
    if ((n & 15) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
    ++n; log_.clear(); zclear(); qclear(); style = (int)(rng() % 4);
    given = hint;
    // drop a random part of the hint (cases and model values); every third round keeps all of it
    if (!hint.empty() && n % 3 != 0) { unsigned keep = (unsigned)(rng() % 101); for (auto it = given.begin(); it != given.end();) { if (rng() % 100 >= keep) it = given.erase(it); else ++it; } }
    try { fn(); } catch (Skip&) { ++skipped; } catch (Fail&) { dump(); std::printf("FAILED %s after %ld runs\n", failed.c_str(), n); return 10; } catch (...) { failed = "implicit:uncaught-exception"; dump(); std::printf("FAILED %s after %ld runs\n", failed.c_str(), n); return 10; }
  }
  std::printf("no failure in %ld runs (%ld rejected)\n", n, skipped); return 0;
}
