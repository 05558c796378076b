// floor and ceil, and the sign functions, at limb level
#include "efx_common.h"
#include <e_float/e_float_functions.h>
static void rounding(bool up)
{
  int c = (int)kase("u.cls", ZERO, NAN_); bool neg = c == ZERO || c == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  int k = c == FIN ? (int)kase("u.ek", -3, 16) : 0;
  std::int64_t ue = c != FIN ? 0 : k < -2 ? anyexp("u.exp/8", EXPLOW / 8, -3) : k > 15 ? anyexp("u.exp/8", 16, EXPMAX / 8) : 8 * k;
  EF x; put(x, "u", c, neg, ue); Ghost g = view(x);
  bool frac = false;
  if (c == FIN && k >= 0 && k < N - 1) { frac = !(mant(g.d, k + 1, N) == Z(0)); }
  EF r = up ? ef::ceil(x) : ef::floor(x);
  inv(r, "floor, ceil: representation invariant"); check(same_rep(view(x), g), "floor, ceil: operand unchanged");
  Ghost q = view(r);
  if (c != FIN) { check(same(q, g), "floor, ceil: special values"); return; }
  bool away = up != neg;                       // away from zero
  if (k < 0) {
    if (!away) { check(q.cls == ZERO, "floor, ceil: magnitude below one, towards zero"); return; }
    check((q.cls == FIN) & (q.neg == neg) & (q.exp == 0), "floor, ceil: magnitude below one, away from zero"); check(mant(q) == B(N - 1), "floor, ceil: magnitude below one, away from zero is one"); return; }
  if (k >= N - 1) { check(same(q, g), "floor, ceil: beyond the resolved digits"); return; }
  if (!frac) { check(same(q, g), "floor, ceil: an integral value is its own floor and ceiling"); return; }
  check((q.cls == FIN) & (q.neg == neg), "floor, ceil: sign"); if (q.cls != FIN) return;
  // the integral magnitude I = floor(M / B^(15-k)); one more when rounding away from zero
  Z I = mant(g.d, 0, k + 1); if (away) I = I + Z(1);
  int e = (int)(q.exp / 8);
  check((q.exp % 8 == 0) & ((e == k) | (e == k + 1)), "floor, ceil: exponent"); if (!((e == k) | (e == k + 1))) return;
  check(mant(q) == I * B(N - 1 - e), "floor, ceil: the nearest integer in the direction of rounding");
}
VF_HARNESS(h_floor) { rounding(false); }
VF_HARNESS(h_ceil) { rounding(true); }
VF_HARNESS(h_signs)
{
  int c = (int)kase("u.cls", ZERO, NAN_); bool neg = kase("u.neg", 0, 1); EF x; put(x, "u", c, neg, c == FIN ? anyexp("u.exp/8") : 0); Ghost g = view(x), p = g; p.neg = false;
  int op = (int)kase("function", 0, 5); bool n = g.neg & (c != NAN_);
  switch (op) {
    case 0: if (c == NAN_) { check(ef::fabs(x).isnan(), "fabs of NaN"); check(ef::abs(x).isnan(), "abs of NaN"); } else { check(same(view(ef::fabs(x)), p), "fabs"); check(same(view(ef::abs(x)), p), "abs"); } break;
    case 1: if (c != NAN_) check(ef::sgn(x) == (c == ZERO ? 0 : n ? -1 : 1), "sgn"); break;
    case 2: if (c != NAN_) { check(ef::isneg(x) == n, "isneg"); check(ef::ispos(x) == !n, "ispos"); check(x.isneg() == n, "isneg"); check(x.ispos() == !n, "ispos"); } break;
    case 3: check(ef::isnan(x) == (c == NAN_), "isnan"); check(ef::isinf(x) == (c == INF), "isinf"); check(ef::isfinite(x) == ((c == FIN) | (c == ZERO)), "isfinite"); check(ef::iszero(x) == (c == ZERO), "iszero"); check(x.iszero() == (c == ZERO), "iszero"); break;
    case 4: check(same(view(ef::real(x)), g), "real part of a real value"); check(view(ef::imag(x)).cls == ZERO, "imaginary part of a real value"); break;
    default: { if (c == NAN_) break; EF s = ef::fabs(-x); check(same(view(s), p), "fabs of the negated value"); break; } }
  check(same_rep(view(x), g), "sign functions: operand unchanged");
}
