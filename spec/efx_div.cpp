// operator/= and calculate_inv of efx::e_float: special values, signs, exact quotients
#include "efx_contracts.h"
#include <e_float/e_float_functions.h>

// contract of calculate_inv (class and sign; accuracy is a separate property)
static Ghost call_inv(const Ghost& v)
{
  if (v.cls == NAN_) return special(NAN_, (bool)vf_havoc_u64(0, 1));
  if (v.cls == ZERO) return special(INF, false);
  if (v.cls == INF) return special(ZERO, false);
  if (v.exp == 0 && mant(v) == B(N - 1)) return v;
  if ((v.exp < -EXPMAX + 16) | (v.exp > EXPMAX - 16)) { return vf_havoc_u64(0, 1) ? special(INF, v.neg) : special(ZERO, false); }   // nothing is promised there
  std::int64_t e = -v.exp - 8 * (std::int64_t)vf_havoc_u64(0, 1);
  return anyfin(v.neg, e);
}
static int n_inv, n_mul; static Ghost inv_in, inv_out, mul_a, mul_b, mul_r;
extern "C" EF* vf_stub_inv(EF* u) { pre(view(*u)); inv_in = view(*u); inv_out = call_inv(inv_in); ++n_inv; write(*u, inv_out); return u; }
// class, sign and exponent part of the product's contract (the full one is proved in efx_mul)
static Ghost call_mul_class(const Ghost& u, const Ghost& v)
{
  bool neg = u.neg != v.neg;
  if (u.cls == NAN_ || v.cls == NAN_ || (u.cls == INF && v.cls == ZERO) || (u.cls == ZERO && v.cls == INF)) return special(NAN_, (bool)vf_havoc_u64(0, 1));
  if (u.cls == INF || v.cls == INF) return special(INF, neg);
  if (u.cls == ZERO || v.cls == ZERO) return special(ZERO, false);
  switch (vf_havoc_u64(0, 2)) {
    case 0: vf_assume(u.exp + v.exp + 8 >= EXPMAX); return special(INF, neg);
    case 1: vf_assume((u.exp < 0) & (v.exp < 0) & (u.exp + v.exp < -EXPMAX)); return special(ZERO, false);
    default: { std::int64_t e = u.exp + v.exp + 8 * (std::int64_t)vf_havoc_u64(0, 1); vf_assume(e <= EXPMAX); return anyfin(neg, e); }
  }
}
extern "C" EF* vf_divmul(EF* u, const EF* v) { mul_a = view(*u); mul_b = view(*v); pre(mul_a); pre(mul_b); mul_r = call_mul_class(mul_a, mul_b); ++n_mul; write(*u, mul_r); return u; }

VF_HARNESS(h_div_special)
{
  int cu = (int)kase("u.cls", ZERO, NAN_), cv = (int)kase("v.cls", ZERO, NAN_);
  bool un = cu == ZERO ? false : (bool)kase("u.neg", 0, 1), vn = cv == ZERO ? false : (bool)kase("v.neg", 0, 1);
  EF u, v; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8", -EXPMAX / 8, EXPMAX / 8) : 0); put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8", -EXPMAX / 8, EXPMAX / 8) : 0);
  Ghost gu = view(u), gv = view(v);
  EF& rr = (u /= v);
  check(&rr == &u, "div: returns *this");
  check(same_rep(view(v), gv), "div: right operand unchanged");
  inv(u, "div: representation invariant of the result");
  Ghost r = view(u);
  if (cu == NAN_ || cv == NAN_) check(r.cls == NAN_, "div: NaN operand");
  else if (cu == INF && cv == INF) check(r.cls == NAN_, "div: inf / inf");
  else if (cu == ZERO && cv == ZERO) check(r.cls == NAN_, "div: 0 / 0");
  else if (cu == INF) check((r.cls == INF) & (r.neg == (un != vn)), "div: inf / x");
  else if (cv == INF) check(r.cls == ZERO, "div: x / inf");
  else if (cv == ZERO) check((r.cls == INF) & (r.neg == un), "div: x / 0 is an infinity with the sign of x");
  else if (cu == ZERO) check(r.cls == ZERO, "div: 0 / x");
  else {
    check(r.cls != NAN_, "div: quotient of finite non-zero values is not NaN");
    if (r.cls != ZERO) check(r.neg == (un != vn), "div: sign of the quotient");
    vf_reach("finite quotient");
    if (n_mul) {
      check((n_mul == 1) & (n_inv == 1), "div: one product with one reciprocal");
      Ghost a = mul_a, b = inv_in; std::int64_t d = mul_r.exp + (gu.exp - gv.exp) - (mul_a.exp - inv_in.exp); a.exp = gu.exp; b.exp = gv.exp;
      check(both(same(a, gu), both(same(mul_b, inv_out), same(b, gv))), "div: the operands are the significands of u and the reciprocal of the one of v");
      if (d > EXPMAX || (d == EXPMAX && mant(mul_r) > VMAX())) check((r.cls == INF) & (r.neg == (un != vn)), "div: overflow of the quotient is a signed infinity");
      else if (d < -EXPMAX) check(r.cls == ZERO, "div: underflow of the quotient is zero");
      else { Ghost q = mul_r; q.exp = d; check(same(r, q), "div: the result is that product, with the difference of the exponents"); }
    }
    bool eqm = both(Z((long)gu.exp) == Z((long)gv.exp), mant(gu) == mant(gv));
    if (eqm) check((r.cls == FIN) & (r.exp == 0) & (mant(r) == B(N - 1)), "div: values of equal magnitude give exactly +-1");
  }
}
VF_HARNESS(h_div_alias)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = cu == ZERO ? false : (bool)kase("u.neg", 0, 1);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8", -EXPMAX / 8, EXPMAX / 8) : 0);
  u /= u;
  Ghost r = view(u); inv(u, "div: representation invariant (aliased operands)");
  if (cu == FIN) check((r.cls == FIN) & !r.neg & (r.exp == 0) & (mant(r) == B(N - 1)), "div: x / x is exactly one");
  else check(r.cls == NAN_, "div: x / x for zero, infinity, NaN");
}
VF_HARNESS(h_div_one)
{
  bool un = kase("u.neg", 0, 1), on = kase("minus-one", 0, 1);
  EF u; put(u, "u", FIN, un, anyexp("u.exp/8", -EXPMAX / 8, EXPMAX / 8)); Ghost g = view(u);
  EF one(1); if (on) one.negate();
  u /= one; g.neg = un != on;
  check(same(view(u), g), "div: division by one is exact");
}
// calculate_inv itself on the values that do not iterate
VF_HARNESS(h_inv_special)
{
  int c = (int)kase("v.cls", ZERO, NAN_); bool neg = c == ZERO ? false : (bool)kase("v.neg", 0, 1);
  EF v; if (c == FIN) { v = EF(1); if (neg) v.negate(); } else put(v, "v", c, neg, 0);
  Ghost g = view(v);
  EF& r = v.calculate_inv(); check(&r == &v, "inv: returns *this");
  inv(v, "inv: representation invariant"); Ghost q = view(v);
  if (c == NAN_) check(q.cls == NAN_, "inv: NaN");
  else if (c == ZERO) check((q.cls == INF) & !q.neg, "inv: 1/0");
  else if (c == INF) check(q.cls == ZERO, "inv: 1/inf");
  else check(same(q, g), "inv: 1/+-1 is exact");
}
VF_HARNESS(h_sqrt_special)
{
  int c = (int)kase("v.cls", ZERO, NAN_); bool neg = c == ZERO ? false : (bool)kase("v.neg", 0, 1), one = c == FIN && !neg;
  EF v; if (one) v = EF(1); else put(v, "v", c, neg, c == FIN ? anyexp("v.exp/8") : 0);
  EF& r = v.calculate_sqrt(); check(&r == &v, "sqrt: returns *this");
  inv(v, "sqrt: representation invariant"); Ghost q = view(v);
  if (c == NAN_ || neg) check(q.cls == NAN_, "sqrt: NaN and negative values");
  else if (c == INF) check((q.cls == INF) & !q.neg, "sqrt: infinity");
  else if (c == ZERO) check(q.cls == ZERO, "sqrt: zero");
  else check(same(q, view(EF(1))), "sqrt: one");
}
