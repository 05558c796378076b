// cmp and the comparison operators of efx::e_float: the order of the represented values
#include "efx_common.h"
#include <e_float/e_float_functions.h>

static int sg(bool neg) { return neg ? -1 : 1; }
// c == sign(X - Y)
static bool is_sign(std::int32_t c, Z X, Z Y)
{ return c < 0 ? X < Y : c > 0 ? X > Y : X == Y; }

// c is the three-way comparison of the represented values
static void cmp_post(const Ghost& u, const Ghost& v, std::int32_t c)
{
  check((c == -1) | (c == 0) | (c == 1), "cmp: result is -1, 0 or 1");
  if (u.cls == NAN_ || v.cls == NAN_) { check(c != 0, "cmp: NaN is never equal to anything"); return; }
  // sign classes: -inf < negative < 0 < positive < +inf
  int ru = u.cls == ZERO ? 0 : sg(u.neg) * (u.cls == INF ? 2 : 1);
  int rv = v.cls == ZERO ? 0 : sg(v.neg) * (v.cls == INF ? 2 : 1);
  if (ru != rv || u.cls != FIN) { check(c == (ru < rv ? -1 : ru > rv ? 1 : 0), "cmp: order of infinities, signs and zero"); return; }
  // both finite, non-zero, same sign
  int big;   // three-way comparison of the magnitudes
  if (u.exp > v.exp) { check(mant(u) * B(1) > mant(v), "cmp: lemma: larger exponent, larger magnitude"); check(c == sg(u.neg), "cmp: larger exponent"); }
  else if (u.exp < v.exp) { check(mant(v) * B(1) > mant(u), "cmp: lemma: larger exponent, larger magnitude"); check(c == -sg(u.neg), "cmp: smaller exponent"); }
  else check(is_sign(u.neg ? -c : c, mant(u), mant(v)), "cmp: sign of the exact difference");
}
static void two(EF& u, EF& v)
{
  int cu = (int)kase("u.cls", ZERO, NAN_), cv = (int)kase("v.cls", ZERO, NAN_);
  bool un = cu == ZERO || cu == NAN_ ? false : (bool)kase("u.neg", 0, 1), vn = cv == ZERO || cv == NAN_ ? false : (bool)kase("v.neg", 0, 1);
  put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8") : 0);
}
VF_HARNESS(h_cmp)
{
  EF u, v; two(u, v);
  Ghost gu = view(u), gv = view(v);
  std::int32_t c = u.cmp(v);
  cmp_post(gu, gv, c);
  check(same_rep(view(u), gu) & same_rep(view(v), gv), "cmp: operands unchanged");
}
// the operators are the order given by cmp
VF_HARNESS(h_cmp_ops)
{
  EF u, v; two(u, v);
  std::int32_t c = u.cmp(v);
  check((u < v) == (c < 0), "operator<");
  check((u <= v) == (c <= 0), "operator<=");
  check((u == v) == (c == 0), "operator==");
  check((u != v) == (c != 0), "operator!=");
  check((u >= v) == (c >= 0), "operator>=");
  check((u > v) == (c > 0), "operator>");
}
// antisymmetry (non-NaN) follows from h_cmp; comparison of a value with itself
VF_HARNESS(h_cmp_self)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  if (cu == NAN_) { check(u != u, "NaN != NaN"); check(!(u == u), "NaN == NaN is false"); }
  else check(u.cmp(u) == 0, "cmp: a value equals itself");
}
// sign predicates and class predicates
VF_HARNESS(h_pred)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = kase("u.neg", 0, 1);
  EF u; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0);
  Ghost g = view(u);
  check(u.iszero() == (cu == ZERO), "iszero");
  check(u.isfinite() == (cu == ZERO || cu == FIN), "isfinite");
  check(u.isinf() == (cu == INF), "isinf");
  check(u.isnan() == (cu == NAN_), "isnan");
  if (cu != NAN_) { check(u.isneg() == g.neg, "isneg"); check(u.ispos() == !g.neg, "ispos"); }
  check(ef::iszero(u) == (cu == ZERO), "ef::iszero"); check(ef::isfinite(u) == (cu == ZERO || cu == FIN), "ef::isfinite");
  check(ef::isnan(u) == (cu == NAN_), "ef::isnan"); check(ef::isinf(u) == (cu == INF), "ef::isinf");
  check(same_rep(view(u), g), "predicates leave the value unchanged");
}
// comparison with a machine integer is comparison with its exact value
template<class I> static void cmp_int(I n, bool nneg, std::uint64_t mag)
{
  int cu = (int)kase("u.cls", ZERO, NAN_); bool un = cu == ZERO || cu == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  int k = cu == FIN ? (int)kase("u.ek", -1, 3) : 0;
  std::int64_t ue = 0;
  if (cu == FIN) ue = k < 0 ? anyexp("u.exp/8", EXPLOW / 8, -1) : k > 2 ? anyexp("u.exp/8", 3, EXPMAX / 8) : 8 * k;
  EF u; put(u, "u", cu, un, ue);
  bool lt = u < n, gt = u > n, eq = u == n, le = u <= n, ge = u >= n, ne = u != n;
  bool lt2 = n > u, gt2 = n < u, eq2 = n == u, le2 = n >= u, ge2 = n <= u, ne2 = n != u;
  check(lt == lt2 && gt == gt2 && eq == eq2 && le == le2 && ge == ge2 && ne == ne2, "integer on the left and on the right");
  check(ne == !eq, "!= is not ==");
  if (cu == NAN_) { check(!eq, "NaN == n"); return; }
  check(le == !gt && ge == !lt && !(lt && gt) && !(lt && eq) && !(gt && eq) && (lt || gt || eq), "exactly one of <, ==, >");
  // exact values scaled by B^15 (exponents beyond [0,16] are settled by magnitude)
  if (cu == INF) { check(un ? lt : gt, "infinity against integer"); return; }
  Z n1 = nneg ? -Z((unsigned long)mag) : Z((unsigned long)mag);
  if (cu == ZERO) { check(lt == (n1 > Z(0)) && gt == (n1 < Z(0)), "zero against integer"); return; }
  Ghost g = view(u);
  if (k < 0) { // |u| < 1
    if (n1 == Z(0)) check(un ? lt : gt, "|u| < 1 against 0"); else check(nneg ? gt : lt, "|u| < 1 against integer"); return; }
  if (k > 2) { check(un ? lt : gt, "large magnitude against integer"); return; }
  Z U = un ? -mant(g) : mant(g);
  U = U * B(k); Z V = n1 * B(N - 1);
  check(lt ? U < V : gt ? U > V : U == V, "order against integer is the order of the exact values");
}
VF_HARNESS(h_cmp_ull) { std::uint64_t n = u64("n", 0, ~0ULL); cmp_int<unsigned long long>(n, false, n); }
VF_HARNESS(h_cmp_ll)
{
  bool nn = kase("n.neg", 0, 1);
  std::uint64_t mag = u64("mag", nn ? 1 : 0, nn ? 1ULL << 63 : (1ULL << 63) - 1);
  long long n = nn ? (long long)(0 - mag) : (long long)mag;
  cmp_int<long long>(n, nn, mag);
}
