// e_float (op) machine integer, for every integer and every operand: the e_float operation applied to the exact
// value of the integer.
#define EFX_LOG_IMPL
#include "efx_log.h"

static long long anyll(int c)
{
  switch (c) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (long long)(1ULL << 63); case 4: return -(long long)u64("n", 2, (1ULL << 63) - 1); default: return (long long)u64("n", 2, (1ULL << 63) - 1); }
}
static unsigned long long anyull(int c) { switch (c) { case 0: return 0; case 1: return 1; default: return u64("n", 2, ~0ULL); } }
static void anyu(EF& u)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = cu == ZERO || cu == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
}
#ifdef VF_VERIFIER
static void sum_post(const Ghost& u, const Ghost& v, const Ghost& r) { check(is_sum(u, v, r), "integer operand: the sum with the exact value of the integer"); }
static void prod_post(const Ghost& u, const Ghost& v, const Ghost& r) { check(is_product(u, v, r), "integer operand: the product with the exact value of the integer"); }
static void quot_post(const Ghost& u, const Ghost& v, const Ghost& r) { check(is_call(OP_DIV, u, v, r), "integer operand: the quotient by the exact value of the integer"); }
#else
// concrete runs use the real operations: identical results are required
static EF mk(const Ghost& g) { EF x; write(x, g); return x; }
static void sum_post(const Ghost& u, const Ghost& v, const Ghost& r) { EF a = mk(u), b = mk(v); check(same(view(a + b), r) || same(view(b + a), r) || same(view(-((-a) + (-b))), r), "integer operand: the sum with the exact value of the integer"); }
static void prod_post(const Ghost& u, const Ghost& v, const Ghost& r) { EF a = mk(u), b = mk(v); check(same(view(a * b), r), "integer operand: the product with the exact value of the integer"); }
static void quot_post(const Ghost& u, const Ghost& v, const Ghost& r) { EF a = mk(u), b = mk(v); check(same(view(a / b), r), "integer operand: the quotient by the exact value of the integer"); }
#endif
template<class I> static void addsub(I n, int op, int form)
{
  EF u; anyu(u); Ghost g = view(u);
  EF w(n); Ghost v = view(w);
  if (op == 0) { Ghost r; if (form == 0) r = view(u + n); else if (form == 1) r = view(n + u); else { u += n; r = view(u); } sum_post(g, v, r); }
  else if (form == 1) sum_post(v, negated(g), view(n - u));
  else { Ghost r; if (form == 0) r = view(u - n); else { u -= n; r = view(u); } sum_post(g, negated(v), r); }
}
VF_HARNESS(h_addsub_ll) { long long n = anyll((int)kase("n.kind", 0, 5)); int op = (int)kase("op", 0, 1), form = (int)kase("form", 0, 2); addsub(n, op, form); }
VF_HARNESS(h_addsub_ull) { unsigned long long n = anyull((int)kase("n.kind", 0, 2)); int op = (int)kase("op", 0, 1), form = (int)kase("form", 0, 2); addsub(n, op, form); }
VF_HARNESS(h_addsub_int)
{
  bool neg = kase("n.neg", 0, 1); std::uint64_t m = u64("mag", neg ? 1 : 0, neg ? 1ULL << 31 : (1ULL << 31) - 1);
  int n = (int)(neg ? -(long long)m : (long long)m); int op = (int)kase("op", 0, 1), form = (int)kase("form", 0, 2); addsub(n, op, form);
}
// integers of one limb or more delegate to the general product / quotient
VF_HARNESS(h_mulu_large) { std::uint64_t n = u64("n", 100000000, ~0ULL); EF u; anyu(u); Ghost g = view(u); vf_assume(g.cls == FIN); EF w(n); u.mul_unsigned_long_long(n); prod_post(g, view(w), view(u)); }
VF_HARNESS(h_divu_large) { std::uint64_t n = u64("n", 100000000, ~0ULL); EF u; anyu(u); Ghost g = view(u); vf_assume(g.cls == FIN); EF w(n); u.div_unsigned_long_long(n); quot_post(g, view(w), view(u)); }
