// Ghost view of efx::e_float: class, sign, exponent and the integer mantissa
//   value = (-1)^neg * M * 10^(exp - 8*(N-1)),  M = sum data[i] * B^(N-1-i),  B = 10^8, N = 16
#ifndef EFX_COMMON_H
#define EFX_COMMON_H
#include <e_float/e_float.h>
#include "vf.h"
using namespace vf;
typedef efx::e_float EF;
static const int N = EF::ef_elem_number;
static const std::int64_t EXPMAX = EF::ef_max_exp10;
static const std::int64_t EXPLOW = -(std::int64_t(1) << 40);
enum { ZERO = 0, FIN = 1, INF = 2, NAN_ = 3 };

struct Ghost { int cls; bool neg; std::int64_t exp; std::uint32_t d[EF::ef_elem_number]; int prec; };

inline Z mant(const std::uint32_t* d, int from = 0, int to = EF::ef_elem_number)
{ Z m(0); for (int i = from; i < to; ++i) m = m * Z(100000000) + Z(d[i]); return m; }
inline Z mant(const Ghost& g) { return mant(g.d); }
inline Z B(int n) { return zpow(100000000, n); }

// mantissa of numeric_limits<e_float>::max() = 9.99..9e(EXPMAX), 102 nines after the point
inline Z VMAX() { return (zpow(10, 103) - Z(1)) * zpow(10, 8 * (N - 1) - 102); }

inline Ghost view(const EF& x)
{
  Ghost g;
  g.neg = x.my_neg; g.exp = x.my_exp; g.prec = x.my_prec_elem;
  for (int i = 0; i < N; ++i) g.d[i] = x.my_data.data()[i];
  g.cls = x.my_fpclass == EF::ef_NaN ? NAN_ : x.my_fpclass == EF::ef_inf ? INF : g.d[0] == 0 ? ZERO : FIN;
  return g;
}

// representation invariant, asserted clause by clause on a result
inline void inv(const EF& x, const char* what)
{
  check(x.my_data.elem_count == std::size_t(N), what);
  if (x.my_fpclass == EF::ef_finite) {
    bool ok = true;
    for (int i = 0; i < N; ++i) ok = both(ok, Z(x.my_data.data()[i]) <= Z(99999999));
    check(ok, what);
    check(x.my_exp % 8 == 0, what);
    if (x.my_data.data()[0] == 0) {
      bool z = true;
      for (int i = 1; i < N; ++i) z = both(z, Z(x.my_data.data()[i]) == Z(0));
      check(z, what);
      check(x.my_exp == 0, what);
      check(!x.my_neg, what);
    } else {
      check(Z((long long)x.my_exp) <= Z((long long)EXPMAX), what);
      // no finite value exceeds numeric_limits::max()
      if (x.my_exp == EXPMAX) check(mant(x.my_data.data()) <= VMAX(), what);
    }
  } else check((x.my_fpclass == EF::ef_inf) | (x.my_fpclass == EF::ef_NaN), what);
  check((x.my_prec_elem >= 2) & (x.my_prec_elem <= N), what);
}

// arbitrary value of the given class satisfying the representation invariant
inline void put(EF& x, const char* nm, int cls, bool neg, std::int64_t exp)
{
  x.my_fpclass = cls == NAN_ ? EF::ef_NaN : cls == INF ? EF::ef_inf : EF::ef_finite;
  x.my_neg = cls == ZERO ? false : neg;
  x.my_exp = cls == FIN ? exp : 0;
  x.my_prec_elem = N;
  for (int i = 0; i < N; ++i)
    x.my_data.data()[i] = cls == FIN ? (std::uint32_t)u64(nm, i, i == 0 ? 1 : 0, 99999999) : 0u;
  if (cls == FIN) vf_assume(either(exp < EXPMAX, mant(x.my_data.data()) <= VMAX()));
}
inline std::int64_t anyexp(const char* nm, std::int64_t lo = EXPLOW / 8, std::int64_t hi = EXPMAX / 8) { return 8 * i64(nm, lo, hi); }

inline bool same(const Ghost& a, const Ghost& b)
{
  bool r = (a.cls == b.cls);
  if (!r) return false;
  if (a.cls == NAN_) return true;
  r = (a.neg == b.neg);
  if (a.cls == FIN) { r = both(r, Z((long long)a.exp) == Z((long long)b.exp)); for (int i = 0; i < N; ++i) r = both(r, Z(a.d[i]) == Z(b.d[i])); }
  return r;
}
// bit-for-bit the same representation
inline bool same_rep(const Ghost& a, const Ghost& b)
{
  bool r = (a.cls == b.cls) & (a.neg == b.neg) & (a.prec == b.prec);
  r = both(r, Z((long long)a.exp) == Z((long long)b.exp)); for (int i = 0; i < N; ++i) r = both(r, Z(a.d[i]) == Z(b.d[i]));
  return r;
}
#endif
