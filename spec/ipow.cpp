// Integer powers.  A multiplicative ghost: a value stands for base^e and only e is kept, so that "the result is the
// p-th power" becomes "the ghost exponent of the result is p" - for every 64-bit p.
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include <e_float/e_float_complex.h>
#include <e_float/detail/e_float_detail_pown_template.h>
#include "field.h"
typedef ef::complex<EF> C;
// the template on a type with the interface of a number: multiplication adds, division subtracts exponents
struct G { std::uint64_t e; explicit G(unsigned v) : e(0) { check(v == 1, "pown: only the constant one is used"); } explicit G(int v) : e(0) { check(v == 1, "pown: only the constant one is used"); }
  G(std::uint64_t x, char) : e(x) {} G& operator*=(const G& o) { e += o.e; return *this; } G& operator/=(const G& o) { e -= o.e; return *this; } };
inline G operator*(G a, const G& b) { return a *= b; }
inline G operator/(G a, const G& b) { return a /= b; }
// any 64-bit exponent, split by sign and by the length of its magnitude in bits
static std::int64_t exponent(int bits) { int s = (int)kase("sign of p", -1, 1); if (!s) return 0; int k = (int)kase("bits of |p|", 1, bits + (s < 0)); std::int64_t lo = (std::int64_t)1 << (k > 63 ? 0 : k - 1), hi = lo - 1 + lo;
  if (k > bits) return bits == 63 ? INT64_MIN : INT32_MIN;
  std::int64_t m = i64("|p|", lo, hi); return s > 0 ? m : -m; }
VF_HARNESS(h_pown) { std::int64_t p = exponent(63);
  G r = ef::detail::pown_template(G(1, 'x'), p); check(r.e == (std::uint64_t)p, "pown(t, p) is the product of p factors t (reciprocal for negative p)"); }
VF_HARNESS(h_pown_small) { int p = (int)kase("p", -9, 9); G r = ef::detail::pown_template(G(1, 'x'), p); check(r.e == (std::uint64_t)(std::int64_t)p, "pown(t, p), small p"); }
#ifdef VF_VERIFIER
static bool base_two = false;      // literals 2 and 1/2 stand for exponents +1 and -1 in the verification of pow2
// a ghost is the literal one (two, one half) with the ghost exponent in my_exp
static std::int64_t off(const EF& x) {
  std::uint32_t d = x.my_data.data()[0]; bool z = !x.my_neg; for (int i = 1; i < EF::ef_elem_number; ++i) z = z && x.my_data.data()[i] == 0;
  if (z && d == 1) return 0;
  if (z && base_two && d == 2) return 1;
  if (z && base_two && d == 50000000) return 8 - 1;
  check(false, "pow: unexpected factor"); return 0; }
static EF mk(std::uint64_t e) { EF x(1); x.my_exp = (std::int64_t)e; return x; }
static std::uint64_t gexp(const EF& x) { return (std::uint64_t)x.my_exp + (std::uint64_t)off(x); }
static void sete(EF* u, std::uint64_t e) { u->my_exp = (std::int64_t)(e - (std::uint64_t)off(*u)); }
extern "C" {
EF* vf_g_mul(EF* u, const EF* v) { sete(u, gexp(*u) + gexp(*v)); return u; }
EF* vf_g_div(EF* u, const EF* v) { sete(u, gexp(*u) - gexp(*v)); return u; }
EF* vf_g_inv(EF* u) { sete(u, -gexp(*u)); return u; }
C* vf_g_cmul(C* u, const C* v) { vf_g_mul(&u->c__my_re, &v->c__my_re); return u; }
C* vf_g_cdiv(C* u, const C* v) { vf_g_div(&u->c__my_re, &v->c__my_re); return u; }
void vf_g_cdiv2(C* r, const C* u, const C* v) { new (r) C(*u); vf_g_div(&r->c__my_re, &v->c__my_re); }
void vf_g_cmul2(C* r, const C* u, const C* v) { new (r) C(*u); vf_g_mul(&r->c__my_re, &v->c__my_re); }
void vf_g_rdiv(C* r, const EF* u, const C* v) { new (r) C(); r->c__my_re = *u; vf_g_div(&r->c__my_re, &v->c__my_re); }
}
#define PARAM std::int64_t p = exponent(63)
VF_HARNESS(h_pow) { PARAM; EF b = mk(1); const EF r = ef::pow(b, p); check(gexp(r) == (std::uint64_t)p, "pow(b, p) is the product of p factors b (reciprocal for negative p)"); check(gexp(b) == 1, "pow: base unchanged"); }
VF_HARNESS(h_pow2) { base_two = true; PARAM; vf_assume(p != INT64_MIN); const EF r = ef::pow2(p); check(gexp(r) == (std::uint64_t)p, "pow2(p) is the product of p factors 2 (or -p factors 1/2)"); }
VF_HARNESS(h_cpow) { PARAM; C b; b.c__my_re = mk(1); const C r = ef::pow(b, p); check(gexp(r.c__my_re) == (std::uint64_t)p, "complex pow(z, p) is the product of p factors z"); }
VF_HARNESS(h_cpow_int) { int p = (int)exponent(31); C b; b.c__my_re = mk(1); const C r = ef::pow(b, p); check(gexp(r.c__my_re) == (std::uint64_t)(std::int64_t)p, "complex pow(z, int) is the product of p factors z"); }
#else
// natively: real numbers; powers beyond 400 only of +-1
static std::int64_t inp() { return exponent(63); }
static bool small(std::int64_t p) { return p > -400 && p < 400; }
static Q qpow(Q b, std::int64_t p) { Q r(1); for (std::int64_t i = 0; i < (p < 0 ? -p : p); ++i) r = r * b; return p < 0 ? Q(1) / r : r; }
static void both_(std::int64_t p, const char* what, EF (*f)(const EF&, std::int64_t)) {
  Q b = Q(3) / Q(2); EF x; setv(x, b);
  if (small(p)) check(val(f(x, p)) == qpow(b, p), what);
  check(f(EF(-1), p) == EF(p % 2 ? -1 : 1), what); check(f(EF(1), p) == EF(1), what);
  std::int64_t q = p % 397; check(val(f(x, q)) == qpow(b, q), what); }
static EF f_pow(const EF& x, std::int64_t p) { return ef::pow(x, p); }
static EF f_cpow(const EF& x, std::int64_t p) { C z(x), r = ef::pow(z, p); check(r.imag().iszero(), "power of a real"); return r.real(); }
static EF f_cpowi(const EF& x, std::int64_t p) { C z(x), r = ef::pow(z, (int)p); check(r.imag().iszero(), "power of a real"); return r.real(); }
VF_HARNESS(h_pow) { both_(inp(), "pow(b, p)", f_pow); }
VF_HARNESS(h_pow2) { std::int64_t p = inp(), q = p % 397; check(val(ef::pow2(q)) == qpow(Q(2), q), "pow2(p)"); if (p < -10000000000LL) check(ef::pow2(p).iszero(), "pow2 underflow"); if (p > 10000000000LL) check(ef::pow2(p).isinf(), "pow2 overflow"); }
VF_HARNESS(h_cpow) { both_(inp(), "complex pow(z, p)", f_cpow); }
VF_HARNESS(h_cpow_int) { both_(exponent(31), "complex pow(z, int)", f_cpowi); }
#endif
