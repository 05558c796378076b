// conversions between machine integers and efx::e_float
#include "efx_common.h"
#include <e_float/e_float_functions.h>

// x represents exactly the integer (-1)^neg * mag
static void is_int_value(const EF& x, bool neg, std::uint64_t mag, const char* what)
{
  inv(x, what);
  Ghost g = view(x);
  check(g.prec == N, what);
  if (Z((unsigned long)mag) == Z(0)) { check(g.cls == ZERO, what); return; }
  check(g.cls == FIN, what);
  if (g.cls != FIN) return;
  check(g.neg == neg, what);
  check((g.exp >= 0) & (g.exp <= 16), what);
  if (!((g.exp >= 0) & (g.exp <= 16))) return;
  check(mant(g) == Z((unsigned long)mag) * B(N - 1 - (int)(g.exp / 8)), what);
}
template<class T> static void ctor_unsigned(const char* what) { T n = (T)u64("n", 0, (T)~(T)0); EF x(n); is_int_value(x, false, n, what); }
template<class T> static void ctor_signed(const char* what)
{
  bool neg = kase("n.neg", 0, 1);
  std::uint64_t lim = (std::uint64_t)1 << (8 * sizeof(T) - 1);
  std::uint64_t mag = u64("mag", neg ? 1 : 0, neg ? lim : lim - 1);
  T n = (T)(neg ? (long long)(0 - mag) : (long long)mag);
  EF x(n); is_int_value(x, neg, mag, what);
}
VF_HARNESS(h_from_int)
{
  switch (kase("type", 0, 8)) {
    case 0: ctor_unsigned<unsigned long long>("construction from unsigned long long is exact"); break;
    case 1: ctor_unsigned<unsigned long>("construction from unsigned long is exact"); break;
    case 2: ctor_unsigned<unsigned>("construction from unsigned is exact"); break;
    case 3: ctor_unsigned<unsigned char>("construction from unsigned char is exact"); break;
    case 4: ctor_signed<long long>("construction from long long is exact"); break;
    case 5: ctor_signed<long>("construction from long is exact"); break;
    case 6: ctor_signed<int>("construction from int is exact"); break;
    case 7: ctor_signed<short>("construction from short is exact"); break;
    case 8: ctor_signed<signed char>("construction from signed char is exact"); break;
  }
}
VF_HARNESS(h_roundtrip_ull)
{
  std::uint64_t n = u64("n", 0, ~0ULL);
  EF x(n);
  check(x.extract_unsigned_long_long() == n, "unsigned long long -> e_float -> unsigned long long");
}
VF_HARNESS(h_roundtrip_ll)
{
  bool neg = kase("n.neg", 0, 1);
  std::uint64_t mag = u64("mag", neg ? 1 : 0, neg ? 1ULL << 63 : (1ULL << 63) - 1);
  long long n = neg ? (long long)(0 - mag) : (long long)mag;
  EF x(n);
  check(x.extract_signed_long_long() == n, "long long -> e_float -> long long");
  check(ef::to_int64(x) == n, "long long -> e_float -> to_int64");
}
static void anyx(EF& x, int& c, bool& neg, int& k)
{
  c = (int)kase("u.cls", ZERO, NAN_); neg = c == ZERO || c == NAN_ ? false : (bool)kase("u.neg", 0, 1);
  k = c == FIN ? (int)kase("u.ek", -1, 3) : 0;
  std::int64_t ue = c != FIN ? 0 : k < 0 ? anyexp("u.exp/8", EXPLOW / 8, -1) : k > 2 ? anyexp("u.exp/8", 3, EXPMAX / 8) : 8 * k;
  put(x, "u", c, neg, ue);
}
// r = x truncated towards zero, saturated to [lo, hi]
static void trunc_post(const Ghost& g, int k, Z r, Z lo, Z hi)
{
  if (g.cls == ZERO) { check(r == Z(0), "extract: zero"); return; }
  if (g.cls == INF || k > 2) { check(r == (g.neg ? lo : hi), "extract: saturation"); return; }
  if (k < 0) { check(r == Z(0), "extract: magnitude below one"); return; }
  Z S = B(N - 1), X = mant(g) * B(k); if (g.neg) X = -X;
  if (X > hi * S) { check(r == hi, "extract: saturation above"); vf_reach("saturation above"); return; }
  if (X < lo * S) { check(r == lo, "extract: saturation below"); vf_reach("saturation below"); return; }
  check(g.neg ? both(r * S >= X, (r - Z(1)) * S < X) : both(r * S <= X, X < (r + Z(1)) * S), "extract: truncation towards zero");
  vf_reach("truncation");
}
static const Z z64max() { return zpow(2, 63) - Z(1); }
VF_HARNESS(h_extract_ll)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  long long r = x.extract_signed_long_long();
  check(same_rep(view(x), g), "extract: operand unchanged");
  if (c == NAN_) return;
  trunc_post(g, k, Z((long)r), -zpow(2, 63), z64max());
}
VF_HARNESS(h_extract_ull)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  unsigned long long r = x.extract_unsigned_long_long();
  check(same_rep(view(x), g), "extract: operand unchanged");
  if (c == NAN_) return;
  if (g.neg) trunc_post(g, k, Z((long)(long long)r), -zpow(2, 63), z64max());
  else trunc_post(g, k, Z((unsigned long)r), Z(0), zpow(2, 64) - Z(1));
}
VF_HARNESS(h_to_int64)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  std::int64_t r = ef::to_int64(x);
  if (c == NAN_) return;
  trunc_post(g, k, Z((long)r), -zpow(2, 63), z64max());
}
VF_HARNESS(h_to_int32)
{
  EF x; int c, k; bool neg; anyx(x, c, neg, k); Ghost g = view(x);
  std::int32_t r = ef::to_int32(x);
  if (c == NAN_) return;
  trunc_post(g, k, Z((int)r), -zpow(2, 31), zpow(2, 31) - Z(1));
}
