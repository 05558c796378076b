// Specification primitives.  Interpreted by the verifier (engine/handlers.py) for all inputs;
// implemented natively by vf_native.cpp for replay of counterexamples and concrete search.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstddef>
extern "C" {
std::int64_t  vf_case_(const char* name, std::int64_t idx, std::int64_t lo, std::int64_t hi);
std::uint64_t vf_nondet_u64_(const char* name, std::int64_t idx, std::uint64_t lo, std::uint64_t hi);
std::int64_t  vf_nondet_i64_(const char* name, std::int64_t idx, std::int64_t lo, std::int64_t hi);
void vf_assume(bool c);
void vf_assert_(bool c, const char* name);
void vf_reach(const char* name);
std::uint64_t vf_havoc_u64(std::uint64_t lo, std::uint64_t hi);
int  vf_zi(std::int64_t v);
int  vf_zu(std::uint64_t v);
int  vf_zadd(int a, int b);
int  vf_zsub(int a, int b);
int  vf_zmul(int a, int b);
int  vf_zpow(std::int64_t base, std::int64_t n);
bool vf_zle(int a, int b);
bool vf_zeq(int a, int b);
bool vf_and(bool a, bool b);
bool vf_or(bool a, bool b);
std::int64_t vf_heap_live();
}
namespace vf {
inline std::int64_t  kase(const char* n, std::int64_t lo, std::int64_t hi) { return vf_case_(n, -1, lo, hi); }
inline std::int64_t  kase(const char* n, std::int64_t i, std::int64_t lo, std::int64_t hi) { return vf_case_(n, i, lo, hi); }
inline std::uint64_t u64(const char* n, std::uint64_t lo, std::uint64_t hi) { return vf_nondet_u64_(n, -1, lo, hi); }
inline std::uint64_t u64(const char* n, std::int64_t i, std::uint64_t lo, std::uint64_t hi) { return vf_nondet_u64_(n, i, lo, hi); }
inline std::int64_t  i64(const char* n, std::int64_t lo, std::int64_t hi) { return vf_nondet_i64_(n, -1, lo, hi); }
inline std::int64_t  i64(const char* n, std::int64_t i, std::int64_t lo, std::int64_t hi) { return vf_nondet_i64_(n, i, lo, hi); }
inline void check(bool c, const char* n) { vf_assert_(c, n); }
inline bool both(bool a, bool b) { return vf_and(a, b); }
inline bool either(bool a, bool b) { return vf_or(a, b); }
inline bool implies(bool a, bool b) { return vf_or(!a, b); }

struct Z { int h; 
  Z() : h(vf_zi(0)) {}
  Z(int v) : h(vf_zi(v)) {}
  Z(long v) : h(vf_zi(v)) {}
  Z(long long v) : h(vf_zi(v)) {}
  Z(unsigned v) : h(vf_zu(v)) {}
  Z(unsigned long v) : h(vf_zu(v)) {}
  Z(unsigned long long v) : h(vf_zu(v)) {}
  static Z of(int handle) { Z r(handle, 0); return r; }
private:
  Z(int hh, int) : h(hh) {}
};
inline Z operator+(Z a, Z b) { return Z::of(vf_zadd(a.h, b.h)); }
inline Z operator-(Z a, Z b) { return Z::of(vf_zsub(a.h, b.h)); }
inline Z operator*(Z a, Z b) { return Z::of(vf_zmul(a.h, b.h)); }
inline Z operator-(Z a) { return Z(0) - a; }
inline bool operator<=(Z a, Z b) { return vf_zle(a.h, b.h); }
inline bool operator>=(Z a, Z b) { return vf_zle(b.h, a.h); }
inline bool operator<(Z a, Z b) { return vf_zle((a + Z(1)).h, b.h); }
inline bool operator>(Z a, Z b) { return b < a; }
inline bool operator==(Z a, Z b) { return vf_zeq(a.h, b.h); }
inline bool operator!=(Z a, Z b) { return !vf_zeq(a.h, b.h); }
inline Z zpow(std::int64_t b, std::int64_t n) { return Z::of(vf_zpow(b, n)); }
}
#define VF_HARNESS(name) extern "C" void name()
#endif
