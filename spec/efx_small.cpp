// multiplication and division of efx::e_float by machine integers
#include "efx_common.h"

static std::uint64_t anyn(int c, const char* nm = "n")
{
  switch (c) { case 0: return 0; case 1: return 1; default: return u64(nm, 2, 99999999); }
}
VF_HARNESS(h_mulu_small)
{
  int c = (int)kase("n.kind", 0, 2);
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1);
  std::uint64_t n = anyn(c);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  Ghost g = view(u);
  EF& rr = u.mul_unsigned_long_long(n);
  check(&rr == &u, "muln: returns *this");
  Ghost r = view(u);
  inv(u, "muln: representation invariant of the result");
  if (cu == NAN_) { check(r.cls == NAN_, "muln: NaN"); return; }
  if (cu == INF) { check(c == 0 ? r.cls == NAN_ : (r.cls == INF) & (r.neg == un), "muln: infinity"); return; }
  if (c == 0 || cu == ZERO) { check(r.cls == ZERO, "muln: zero"); return; }
  if (c == 1) { check(same(r, g), "muln: times one"); return; }
  if (r.cls == INF) {
    check(g.exp >= EXPMAX - 8, "muln: infinity only at the top of the range");
    check(mant(g) * Z((unsigned long)n) > (g.exp == EXPMAX ? VMAX() : VMAX() * B(1)), "muln: infinity only if the exact product exceeds the largest finite value");
    check(r.neg == un, "muln: sign of infinity"); vf_reach("muln overflow"); return; }
  check(r.cls == FIN, "muln: finite");
  if (r.cls != FIN) return;
  check(r.neg == un, "muln: sign");
  std::int64_t k = r.exp - g.exp;
  check((k == 0) | (k == 8), "muln: exponent");
  if (!((k == 0) | (k == 8))) return;
  Z D = mant(r) * B(k == 0 ? 0 : 1) - mant(g) * Z((unsigned long)n);
  check(both(D <= Z(0), -B(k == 0 ? 0 : 1) < D), "muln: product truncated to 16 limbs");
  vf_reach(k == 0 ? "muln no carry" : "muln carry");
}
VF_HARNESS(h_divu_small)
{
  int c = (int)kase("n.kind", 0, 2);
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1);
  std::uint64_t n = anyn(c);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  Ghost g = view(u);
  EF& rr = u.div_unsigned_long_long(n);
  check(&rr == &u, "divn: returns *this");
  Ghost r = view(u);
  inv(u, "divn: representation invariant of the result");
  if (cu == NAN_) { check(r.cls == NAN_, "divn: NaN"); return; }
  if (cu == INF) { check((r.cls == INF) & (r.neg == un), "divn: infinity"); return; }
  if (c == 0) { if (cu == ZERO) check(r.cls == NAN_, "divn: 0/0"); else check((r.cls == INF) & (r.neg == un), "divn: x/0 is an infinity with the sign of x"); return; }
  if (cu == ZERO) { check(r.cls == ZERO, "divn: 0/n"); return; }
  if (c == 1) { check(same(r, g), "divn: by one"); return; }
  check(r.cls == FIN, "divn: finite");
  if (r.cls != FIN) return;
  check(r.neg == un, "divn: sign");
  std::int64_t k = g.exp - r.exp;
  check((k == 0) | (k == 8), "divn: exponent");
  if (!((k == 0) | (k == 8))) return;
  Z nn((unsigned long)n);
  Z D = mant(g) * B(k == 0 ? 0 : 1) - mant(r) * nn;
  check(both(D >= Z(0), D < nn), "divn: quotient truncated to 16 limbs");
  vf_reach(k == 0 ? "divn no shift" : "divn shift");
}
