// Contracts of the efx::e_float arithmetic primitives.  Each postcondition is a template: ck<false> asserts the
// clauses (verification of the body), ck<true> assumes them (use of the contract at a call site).
#ifndef EFX_CONTRACTS_H
#define EFX_CONTRACTS_H
#include "efx_common.h"
template<bool A> inline void ck(bool c, const char* n) { if (A) vf_assume(c); else check(c, n); }

// exact specification of r = u + sgn*v for finite non-zero u, v
template<bool A> inline void add_post(const Ghost& u, const Ghost& v, const Ghost& r)
{
  // decimal offset between the operands, in limbs
  std::int64_t df = (u.exp - v.exp) / 8;
  if (df > N - 1) { ck<A>(same(r, u), "add: |v| negligible, result is u"); return; }
  if (df < -(N - 1)) { ck<A>(same(r, v), "add: |u| negligible, result is v"); return; }
  Z U = u.neg ? -mant(u) : mant(u), V = v.neg ? -mant(v) : mant(v);
  std::int64_t top = df >= 0 ? df : -df;                        // lsb(larger) / lsb(smaller), in limbs
  Z S = df >= 0 ? U * B((int)top) + V : U + V * B((int)top);      // exact sum in units of the smaller lsb
  std::int64_t elow = df >= 0 ? v.exp : u.exp;
  if (r.cls == INF) {
    // overflow only if the exact sum exceeds the largest finite magnitude 9.99..9e(EXPMAX) (102 nines after the point)
    ck<A>(elow + 8 * top >= EXPMAX - 8, "add: infinity only near the top of the range");
    std::int64_t sh = (EXPMAX - elow) / 8;
    Z M = S < Z(0) ? -S : S;
    ck<A>(M > (Z(10) * zpow(10, 102) - Z(1)) * zpow(10, 8 * (N - 1) - 102) * (sh >= 0 ? B((int)sh) : Z(1)), "add: infinity only if the exact sum exceeds the largest finite value");
    ck<A>(r.neg == (S < Z(0)), "add: sign of the infinity");
    vf_reach("add overflow");
    return;
  }
  if (r.cls == ZERO) { Z AS = S < Z(0) ? -S : S; ck<A>(AS < B((int)top), "add: zero result only if the exact sum is below one unit of the larger operand"); vf_reach("add zero"); return; }
  ck<A>(r.cls == FIN, "add: finite result");
  if (r.cls != FIN) return;
  std::int64_t k = (r.exp - elow) / 8;
  ck<A>(k <= top + 1, "add: exponent");
  ck<A>(8 * k == r.exp - elow, "add: exponent step");
  Z R = r.neg ? -mant(r) : mant(r);
  Z D = k >= 0 ? R * B((int)k) - S : R - S * B((int)-k);
  Z unit = k > top ? B((int)k) : (k >= 0 ? B((int)top) : B((int)(top - k)));
  ck<A>(both(D < unit, -unit < D), "add: error below one unit in the last limb of the larger operand / result");
  if (u.neg == v.neg) {
    ck<A>(r.neg == u.neg, "add: sign");
    ck<A>(u.neg ? D >= Z(0) : D <= Z(0), "add: magnitudes add with truncation");
  }
  if (top == 0 && k <= 0) ck<A>(D == Z(0), "add: exact when the exponents agree");
  vf_reach("add finite");
}

// r is the product u*v of finite non-zero values, up to a relative error of 16 units in the 112th digit
// (one-sided: magnitudes are truncated)
template<bool A> inline void mul_post(const Ghost& u, const Ghost& v, const Ghost& r)
{
  const bool neg = u.neg != v.neg;
  std::int64_t e = u.exp + v.exp;                                   // |u v| in [10^e, 10^(e+16))
  if (r.cls == INF) { 
    // the exact product exceeds the largest finite value
    if (e <= EXPMAX) {
      ck<A>(e >= EXPMAX - 8, "mul: infinity only at the top of the range");
      if (e < EXPMAX) ck<A>(mant(u) * mant(v) > VMAX() * B(N), "mul: infinity only if the exact product exceeds the largest finite value");
      else ck<A>(mant(u) * mant(v) > VMAX() * B(N - 1), "mul: infinity only if the exact product exceeds the largest finite value");
    }
    ck<A>(r.neg == neg, "mul: sign of the infinity"); vf_reach("mul overflow"); return; }
  if (r.cls == ZERO) { ck<A>(e < -EXPMAX, "mul: zero only below the bottom of the range"); vf_reach("mul underflow"); return; }
  ck<A>(r.cls == FIN, "mul: finite result");
  if (r.cls != FIN) return;
  ck<A>(r.neg == neg, "mul: sign");
  std::int64_t k = r.exp - e;
  ck<A>((k == 0) | (k == 8), "mul: exponent");
  if (!((k == 0) | (k == 8))) return;
  Z D = mant(r) * B(k == 0 ? N - 1 : N) - mant(u) * mant(v);
  ck<A>(both(D <= Z(0), Z(-16) * B(N) < D), "mul: truncated product, error below 16e-112 relative to the leading limb");
  vf_reach(k == 0 ? "mul without carry" : "mul with carry");
}


// contract of u += v for every class of operands
template<bool A> inline void add_full(const Ghost& u, const Ghost& v, const Ghost& r)
{
  if (u.cls == NAN_ || v.cls == NAN_) { ck<A>(r.cls == NAN_, "add: NaN operand"); return; }
  if (u.cls == INF && v.cls == INF) { ck<A>(u.neg == v.neg ? same(r, u) : r.cls == NAN_, "add: two infinities"); return; }
  if (u.cls == INF || v.cls == ZERO) { ck<A>(same(r, u), "add: infinity or zero operand"); return; }
  if (v.cls == INF || u.cls == ZERO) { ck<A>(same(r, v), "add: infinity or zero operand"); return; }
  add_post<A>(u, v, r);
}
template<bool A> inline void mul_full(const Ghost& u, const Ghost& v, const Ghost& r)
{
  if (u.cls == NAN_ || v.cls == NAN_) { ck<A>(r.cls == NAN_, "mul: NaN operand"); return; }
  if ((u.cls == INF && v.cls == ZERO) || (u.cls == ZERO && v.cls == INF)) { ck<A>(r.cls == NAN_, "mul: inf * 0"); return; }
  if (u.cls == INF || v.cls == INF) { ck<A>((r.cls == INF) & (r.neg == (u.neg != v.neg)), "mul: inf * nonzero"); return; }
  if (u.cls == ZERO || v.cls == ZERO) { ck<A>(r.cls == ZERO, "mul: zero product"); return; }
  mul_post<A>(u, v, r);
}
inline Ghost negated(Ghost g) { if (g.cls != ZERO) g.neg = !g.neg; return g; }
inline void write(EF& x, const Ghost& g)
{
  x.my_fpclass = g.cls == NAN_ ? EF::ef_NaN : g.cls == INF ? EF::ef_inf : EF::ef_finite;
  x.my_neg = g.neg; x.my_exp = g.exp; x.my_prec_elem = g.prec;
  for (int i = 0; i < N; ++i) x.my_data.data()[i] = g.d[i];
}
inline Ghost special(int cls, bool neg) { Ghost g; g.cls = cls; g.neg = neg; g.exp = 0; g.prec = N; for (int i = 0; i < N; ++i) g.d[i] = 0; return g; }
// arbitrary finite non-zero value satisfying the representation invariant
inline Ghost anyfin(bool neg, std::int64_t exp)
{
  Ghost g; g.cls = FIN; g.neg = neg; g.exp = exp; g.prec = N;
  for (int i = 0; i < N; ++i) g.d[i] = (std::uint32_t)vf_havoc_u64(i == 0 ? 1 : 0, 99999999);
  if (exp == EXPMAX) vf_assume(mant(g) <= VMAX());
  return g;
}
// call-site versions (operands of full precision; the contracts of the bodies are proved for these)
inline void pre(const Ghost& g) { check(g.prec == N, "precondition: operand of full precision"); }
inline Ghost call_add(const Ghost& u, const Ghost& v)
{
  pre(u); pre(v);
  Ghost r;
  if (u.cls == NAN_ || v.cls == NAN_) r = special(NAN_, (bool)vf_havoc_u64(0, 1));
  else if (u.cls == INF && v.cls == INF) r = u.neg == v.neg ? u : special(NAN_, (bool)vf_havoc_u64(0, 1));
  else if (u.cls == INF || v.cls == ZERO) r = u;
  else if (v.cls == INF || u.cls == ZERO) r = v;
  else {
    std::int64_t df = (u.exp - v.exp) / 8;
    if (df > N - 1) r = u; else if (df < -(N - 1)) r = v;
    else {
      std::int64_t elow = u.exp < v.exp ? u.exp : v.exp, top = df < 0 ? -df : df;
      switch (vf_havoc_u64(0, 2)) {
        case 0: r = special(INF, (bool)vf_havoc_u64(0, 1)); break;
        case 1: r = special(ZERO, false); break;
        default: {
          std::int64_t k = (std::int64_t)vf_havoc_u64(0, 2 * N + 2) - N;
          std::int64_t kk = -N; while (kk < k) ++kk;       // one path per exponent
          vf_assume(kk <= top + 1);
          vf_assume(Z((long)(elow + 8 * kk)) <= Z((long)EXPMAX));
          r = anyfin(u.neg == v.neg ? u.neg : (bool)vf_havoc_u64(0, 1), elow + 8 * kk); break; }
      }
      add_post<true>(u, v, r);
    }
  }
  return r;
}
inline Ghost call_mul(const Ghost& u, const Ghost& v)
{
  pre(u); pre(v);
  bool neg = u.neg != v.neg;
  if (u.cls == NAN_ || v.cls == NAN_ || (u.cls == INF && v.cls == ZERO) || (u.cls == ZERO && v.cls == INF)) return special(NAN_, (bool)vf_havoc_u64(0, 1));
  if (u.cls == INF || v.cls == INF) return special(INF, neg);
  if (u.cls == ZERO || v.cls == ZERO) return special(ZERO, false);
  Ghost r;
  std::int64_t e = u.exp + v.exp;
  switch (vf_havoc_u64(0, 3)) {
    case 0: r = special(INF, neg); break;
    case 1: r = special(ZERO, false); break;
    case 2: vf_assume(e <= EXPMAX); r = anyfin(neg, e); break;
    default: vf_assume(e + 8 <= EXPMAX); r = anyfin(neg, e + 8); break;
  }
  mul_post<true>(u, v, r);
  return r;
}
// replacement bodies (engine redirect table)
extern "C" {
EF* vf_stub_add(EF* u, const EF* v) { write(*u, call_add(view(*u), view(*v))); return u; }
EF* vf_stub_sub(EF* u, const EF* v) { write(*u, call_add(view(*u), negated(view(*v)))); return u; }
EF* vf_stub_mul(EF* u, const EF* v) { write(*u, call_mul(view(*u), view(*v))); return u; }
}
#endif
