// multiplication and division by signed integers in terms of the unsigned ones; the operator forms
#define EFX_LOG_IMPL
#include "efx_log.h"
static long long anyll(int c)
{
  switch (c) { case 0: return 0; case 1: return 1; case 2: return -1; case 3: return (long long)(1ULL << 63); case 4: return -(long long)u64("n", 2, (1ULL << 63) - 1); default: return (long long)u64("n", 2, (1ULL << 63) - 1); }
}
static void anyu(EF& u)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = cu == ZERO || cu == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
}
static void ispost(int op, const Ghost& g, long long n, const Ghost& r)
{
  bool neg = n < 0; std::uint64_t mag = neg ? 0 - (std::uint64_t)n : (std::uint64_t)n;
  Ghost s = neg ? negated(r) : r;
#ifdef VF_VERIFIER
  Ghost ng = negated(g);
  // (-x) op n and -(x op n) are the same by the contracts
  check(either(is_calln(op, g, mag, s), both(neg, is_calln(op, ng, mag, r))), op == OP_MULU ? "signed integer factor: the product with the magnitude, with the sign applied" : "signed integer divisor: the quotient by the magnitude, with the sign applied");
#else
  EF a; write(a, g); if (op == OP_MULU) a.mul_unsigned_long_long(mag); else a.div_unsigned_long_long(mag);
  check(same(view(a), s), op == OP_MULU ? "signed integer factor: the product with the magnitude, with the sign applied" : "signed integer divisor: the quotient by the magnitude, with the sign applied");
#endif
}
VF_HARNESS(h_mul_ll) { long long n = anyll((int)kase("n.kind", 0, 5)); int form = (int)kase("form", 0, 3); EF u; anyu(u); Ghost g = view(u), r;
  if (form == 0) r = view(u * n); else if (form == 1) r = view(n * u); else if (form == 2) { u *= n; r = view(u); } else { u.mul_signed_long_long(n); r = view(u); } ispost(OP_MULU, g, n, r); }
VF_HARNESS(h_div_ll) { long long n = anyll((int)kase("n.kind", 0, 5)); int form = (int)kase("form", 0, 2); EF u; anyu(u); Ghost g = view(u), r;
  if (form == 0) r = view(u / n); else if (form == 1) { u /= n; r = view(u); } else { u.div_signed_long_long(n); r = view(u); } ispost(OP_DIVU, g, n, r); }
VF_HARNESS(h_muldiv_ull)
{
  unsigned long long n = u64("n", 0, ~0ULL); int form = (int)kase("form", 0, 4); EF u; anyu(u); Ghost g = view(u), r; int op = form < 3 ? OP_MULU : OP_DIVU;
  switch (form) { case 0: r = view(u * n); break; case 1: r = view(n * u); break; case 2: u *= n; r = view(u); break; case 3: r = view(u / n); break; default: u /= n; r = view(u); }
#ifdef VF_VERIFIER
  check(is_calln(op, g, n, r), "unsigned integer operator");
#else
  EF a; write(a, g); if (op == OP_MULU) a.mul_unsigned_long_long(n); else a.div_unsigned_long_long(n); check(same(view(a), r), "unsigned integer operator");
#endif
}
// n / u
VF_HARNESS(h_ndiv)
{
  long long n = anyll((int)kase("n.kind", 0, 5)); EF u; anyu(u); Ghost g = view(u); EF w(n); Ghost r = view(n / u);
#ifdef VF_VERIFIER
  check(is_call(OP_DIV, view(w), g, r), "integer dividend: the quotient of its exact value");
#else
  check(same(view(w / u), r), "integer dividend: the quotient of its exact value");
#endif
}
// operators with two e_float operands, and the increments
VF_HARNESS(h_binary)
{
  int cv = (int)kase("v.cls", ZERO, NAN_); bool vn = kase("v.neg", 0, 1);
  EF u, v; anyu(u); put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8") : 0); Ghost a = view(u), b = view(v), r;
  int op = (int)kase("op", 0, 3);
  switch (op) { case 0: r = view(u + v); break; case 1: r = view(u - v); break; case 2: r = view(u * v); break; default: r = view(u / v); }
  check(same_rep(view(u), a) & same_rep(view(v), b), "binary operators leave the operands unchanged");
#ifdef VF_VERIFIER
  check(op == 0 ? is_sum(a, b, r) : op == 1 ? is_sum(a, negated(b), r) : op == 2 ? is_product(a, b, r) : is_call(OP_DIV, a, b, r), "binary operator is the compound assignment on a copy");
#else
  EF w(u); if (op == 0) w += v; else if (op == 1) w -= v; else if (op == 2) w *= v; else w /= v; check(same(view(w), r), "binary operator is the compound assignment on a copy");
#endif
}
VF_HARNESS(h_incdec)
{
  EF u; anyu(u); Ghost g = view(u), r, o; int op = (int)kase("op", 0, 3); EF one(1); Ghost go = view(one);
  switch (op) { case 0: o = view(++u); break; case 1: o = view(--u); break; case 2: o = view(u++); break; default: o = view(u--); }
  r = view(u);
  check(same(o, op < 2 ? r : g), "increment/decrement: returned value");
#ifdef VF_VERIFIER
  check(is_sum(g, op % 2 ? negated(go) : go, r), "increment/decrement adds or subtracts one");
#else
  EF a; write(a, g); EF b(a); a += one; b -= one; check(same(r, op % 2 ? view(b) : view(a)), "increment/decrement adds or subtracts one");
#endif
}
