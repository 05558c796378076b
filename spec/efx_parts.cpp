// integer part, decimal part, isint, isone, negate, fabs, sign, swap, copy, assignment
#include "efx_common.h"
#include <e_float/e_float_functions.h>

static void anyx(EF& x, int& c, bool& neg, int& k)
{
  c = (int)kase("u.cls", ZERO, NAN_); neg = c == ZERO || c == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  k = c == FIN ? (int)kase("u.ek", -1, 16) : 0;
  std::int64_t ue = c != FIN ? 0 : k < 0 ? anyexp("u.exp/8", EXPLOW / 8, -1) : k > 15 ? anyexp("u.exp/8", 16, EXPMAX / 8) : 8 * k;
  put(x, "u", c, neg, ue);
}
// number of limbs before the decimal point from which on a value counts as an integer
static const int KINT = N - 1;

VF_HARNESS(h_integer_part)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  bool viaef = kase("api", 0, 1);
  EF r = viaef ? ef::integer_part(x) : x.extract_integer_part();
  inv(r, "integer_part: representation invariant"); check(same_rep(view(x), g), "integer_part: operand unchanged");
  Ghost q = view(r);
  if (c == NAN_ || c == INF || c == ZERO) { check(same(q, g), "integer_part: special values"); return; }
  if (k < 0) { check(q.cls == ZERO, "integer_part: below one"); return; }
  if (k >= KINT) { check(same(q, g), "integer_part: beyond the resolved digits the value is its own integer part"); return; }
  check(q.cls == FIN, "integer_part: finite"); if (q.cls != FIN) return;
  check((q.neg == neg) & (q.exp == g.exp), "integer_part: sign and exponent");
  if (q.exp != g.exp) return;
  // q.M = floor(M / B^(15-k)) * B^(15-k)
  for (int i = k + 1; i < N; ++i) check(q.d[i] == 0, "integer_part: no fractional digits");
  Z D = mant(g) - mant(q); check(both(D >= Z(0), D < B(N - 1 - k)), "integer_part: truncation towards zero");
}
VF_HARNESS(h_decimal_part)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  bool viaef = kase("api", 0, 1);
  EF r = viaef ? ef::decimal_part(x) : x.extract_decimal_part();
  inv(r, "decimal_part: representation invariant"); check(same_rep(view(x), g), "decimal_part: operand unchanged");
  Ghost q = view(r);
  if (c == NAN_ || c == INF || c == ZERO) { check(same(q, g), "decimal_part: special values"); return; }
  if (k < 0) { check(same(q, g), "decimal_part: below one"); return; }
  if (k >= KINT) { check(q.cls == ZERO, "decimal_part: beyond the resolved digits"); return; }
  // fractional mantissa F = M mod B^(15-k)
  Z F = mant(g.d, k + 1, N);
  if (q.cls == ZERO) { check(F == Z(0), "decimal_part: zero only without fractional digits"); return; }
  check(q.cls == FIN, "decimal_part: finite"); if (q.cls != FIN) return;
  check(q.neg == neg, "decimal_part: sign");
  int e = (int)(-q.exp / 8);                               // 1..15
  check((q.exp % 8 == 0) & (e >= 1) & (e <= N - 1 - k), "decimal_part: exponent");
  if (!((e >= 1) & (e <= N - 1 - k))) return;
  check(mant(q) == F * B(k + e), "decimal_part: exactly the fractional digits");
}
VF_HARNESS(h_isint)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  bool r = kase("api", 0, 1) ? ef::isint(x) : x.isint();
  if (c == NAN_ || c == INF) { check(!r, "isint: non-finite"); return; }
  if (c == ZERO) { check(r, "isint: zero"); return; }
  if (k < 0) { check(!r, "isint: below one"); return; }
  if (k >= N - 1) { check(r, "isint: large"); return; }
  check(r ? mant(g.d, k + 1, N) == Z(0) : mant(g.d, k + 1, N) > Z(0), "isint: no fractional digits");
}
VF_HARNESS(h_isone)
{
  EF x; int c = (int)kase("u.cls", ZERO, NAN_); bool neg = kase("u.neg", 0, 1);
  int k = (int)kase("ek", -2, 1);
  std::int64_t ue = k < -1 ? anyexp("u.exp/8", EXPLOW / 8, -2) : k > 0 ? anyexp("u.exp/8", 1, EXPMAX / 8) : 8 * k;
  put(x, "u", c, neg, c == FIN ? ue : 0); Ghost g = view(x);
  bool r = kase("api", 0, 1) ? ef::isone(x) : x.isone();
  if (c != FIN || neg) { check(!r, "isone: only positive finite values"); return; }
  if (k == 0) check(r ? mant(g) == B(N - 1) : mant(g) != B(N - 1), "isone: exactly one");
  else if (k == -1) check(r ? mant(g) == B(N) - Z(1) : mant(g) < B(N) - Z(1), "isone: the largest value below one counts as one");
  else check(!r, "isone: other magnitudes");
}
VF_HARNESS(h_negate)
{
  EF x; int c = (int)kase("u.cls", ZERO, NAN_); bool neg = kase("u.neg", 0, 1);
  put(x, "u", c, neg, c == FIN ? anyexp("u.exp/8") : 0); Ghost g = view(x), n = g;
  if (c != ZERO) n.neg = !g.neg;
  EF y(-x); check(same(view(y), n), "unary minus"); inv(y, "unary minus: representation invariant");
  EF z(+x); check(same(view(z), g), "unary plus");
  check(same_rep(view(x), g), "unary operators: operand unchanged");
  Ghost p = g; p.neg = false;
  if (c != NAN_) { check(same(view(ef::fabs(x)), p), "fabs"); check(same(view(ef::abs(x)), p), "abs"); }
  else check(view(ef::fabs(x)).cls == NAN_, "fabs of NaN");
  EF& r = x.negate(); check(&r == &x, "negate: returns *this"); check(same(view(x), n), "negate");
  x.negate(); check(same(view(x), g), "negate is an involution");
  if (c != NAN_) check(ef::sgn(x) == (c == ZERO ? 0 : g.neg ? -1 : 1), "sgn");
}
