// operator*= of efx::e_float
#include "efx_contracts.h"

VF_HARNESS(h_mul_finite)
{
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  std::int64_t ue = anyexp("u.exp/8"), ve = anyexp("v.exp/8");
  const bool top = kase("top", 0, 1);
  vf_assume(top ? ue + ve >= EXPMAX - 16 : ue + ve < EXPMAX - 16);
  EF u, v; put(u, "u", FIN, un, ue); put(v, "v", FIN, vn, ve);
  Ghost gu = view(u), gv = view(v);
  EF& r = (u *= v);
  check(&r == &u, "mul: returns *this");
  inv(u, "mul: representation invariant of the result");
  check(same_rep(view(v), gv), "mul: right operand unchanged");
  mul_post<false>(gu, gv, view(u));
}
VF_HARNESS(h_mul_alias)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  Ghost gu = view(u);
  u *= u;
  Ghost r = view(u);
  inv(u, "mul: representation invariant (aliased operands)");
  if (cu == NAN_) check(r.cls == NAN_, "alias: NaN squared");
  else if (cu == INF) check((r.cls == INF) & !r.neg, "alias: inf squared");
  else if (cu == ZERO) check(r.cls == ZERO, "alias: zero squared");
  else mul_post<false>(gu, gu, r);
}
VF_HARNESS(h_mul_comm)
{
  std::int64_t ue = anyexp("u.exp/8"), ve = anyexp("v.exp/8");
  const bool top = kase("top", 0, 1);
  vf_assume(top ? ue + ve >= EXPMAX - 16 : ue + ve < EXPMAX - 16);
  EF u, v; put(u, "u", FIN, false, ue); put(v, "v", FIN, true, ve);
  EF a(u), b(v);
  a *= v; b *= u;
  check(same(view(a), view(b)), "mul: u*v and v*u are identical");
}
VF_HARNESS(h_mul_special)
{
  int cu = (int)kase("u.cls", ZERO, NAN_), cv = (int)kase("v.cls", ZERO, NAN_);
  vf_assume(!(cu == FIN && cv == FIN));
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  EF u, v; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0); put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8") : 0);
  u *= v;
  Ghost r = view(u);
  inv(u, "mul: representation invariant (special operands)");
  if (cu == NAN_ || cv == NAN_) check(r.cls == NAN_, "mul: NaN operand gives NaN");
  else if ((cu == INF && cv == ZERO) || (cu == ZERO && cv == INF)) check(r.cls == NAN_, "mul: inf * 0");
  else if (cu == INF || cv == INF) check((r.cls == INF) & (r.neg == (un != vn)), "mul: inf * nonzero");
  else check(r.cls == ZERO, "mul: zero product");
}
// multiplication by one is exact
VF_HARNESS(h_mul_one)
{
  std::int64_t ue = anyexp("u.exp/8", -EXPMAX / 8, EXPMAX / 8);
  bool un = kase("u.neg", 0, 1), side = kase("side", 0, 1), on = kase("minus-one", 0, 1);
  EF u; put(u, "u", FIN, un, ue);
  Ghost g = view(u);
  EF one(1); if (on) one.negate();
  EF a(side ? one : u); a *= (side ? u : one);
  g.neg = g.neg != on;
  check(same(view(a), g), "mul: multiplication by one is exact");
}
