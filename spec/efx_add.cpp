// operator+= / operator-= of efx::e_float
#include "efx_contracts.h"

static std::int64_t offset_case() { return kase("ofs", -(N + 1), N + 1); }

VF_HARNESS(h_add_finite)
{
  std::int64_t ofs = offset_case();
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  std::int64_t ue = anyexp("u.exp/8");
  std::int64_t ve;
  if (ofs > N) { ve = anyexp("v.exp/8"); vf_assume(ue - ve > 8 * N); }
  else if (ofs < -N) { ve = anyexp("v.exp/8"); vf_assume(ve - ue > 8 * N); }
  else { ve = ue - 8 * ofs; vf_assume(vf_and(ve <= EXPMAX, ve >= EXPLOW)); }
  EF u, v; put(u, "u", FIN, un, ue); put(v, "v", FIN, vn, ve);
  Ghost gu = view(u), gv = view(v);
  EF& r = (u += v);
  check(&r == &u, "add: returns *this");
  inv(u, "add: representation invariant of the result");
  check(same_rep(view(v), gv), "add: right operand unchanged");
  add_post<false>(gu, gv, view(u));
}

VF_HARNESS(h_sub_finite)
{
  std::int64_t ofs = offset_case();
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  std::int64_t ue = anyexp("u.exp/8");
  std::int64_t ve;
  if (ofs > N) { ve = anyexp("v.exp/8"); vf_assume(ue - ve > 8 * N); }
  else if (ofs < -N) { ve = anyexp("v.exp/8"); vf_assume(ve - ue > 8 * N); }
  else { ve = ue - 8 * ofs; vf_assume(vf_and(ve <= EXPMAX, ve >= EXPLOW)); }
  EF u, v; put(u, "u", FIN, un, ue); put(v, "v", FIN, vn, ve);
  Ghost gu = view(u), gv = view(v), gm = gv; gm.neg = !gv.neg;
  EF& r = (u -= v);
  check(&r == &u, "sub: returns *this");
  inv(u, "sub: representation invariant of the result");
  check(same_rep(view(v), gv), "sub: right operand unchanged");
  add_post<false>(gu, gm, view(u));
}

// every combination of classes in which an operand is zero, infinite or NaN
VF_HARNESS(h_add_special)
{
  int cu = (int)kase("u.cls", ZERO, NAN_), cv = (int)kase("v.cls", ZERO, NAN_);
  vf_assume(!(cu == FIN && cv == FIN));
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  bool minus = kase("minus", 0, 1);
  EF u, v; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0); put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8") : 0);
  Ghost gu = view(u), gv = view(v);
  if (minus) u -= v; else u += v;
  Ghost r = view(u);
  inv(u, "add: representation invariant (special operands)");
  bool vneg = gv.neg != minus;
  if (cu == NAN_ || cv == NAN_) check(r.cls == NAN_, "add: NaN operand gives NaN");
  else if (cu == INF && cv == INF) check(un == vneg ? (r.cls == INF) & (r.neg == un) : r.cls == NAN_, "add: inf +- inf");
  else if (cu == INF) check((r.cls == INF) & (r.neg == un), "add: inf + finite");
  else if (cv == INF) check((r.cls == INF) & (r.neg == vneg), "add: finite + inf");
  else if (cu == ZERO) { Ghost e = gv; if (cv == FIN) e.neg = vneg; check(same(r, e), "add: 0 + v"); }
  else check(same(r, gu), "add: u + 0");
}

// the operands may be the same object
VF_HARNESS(h_add_alias)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1); bool minus = kase("minus", 0, 1);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  Ghost gu = view(u);
  if (minus) u -= u; else u += u;
  Ghost r = view(u);
  inv(u, "add: representation invariant (aliased operands)");
  if (cu == NAN_) check(r.cls == NAN_, "alias: NaN");
  else if (cu == INF) check(minus ? r.cls == NAN_ : (r.cls == INF) & (r.neg == un), "alias: inf");
  else if (minus || cu == ZERO) check(r.cls == ZERO, "alias: x -= x is zero");
  else add_post<false>(gu, gu, view(u));
}
