// fmod, ldexp, frexp over the exact-arithmetic contracts of field.h
#define FIELD_IMPL
#include "field.h"
enum { FIN, PINF, NINF, NAN_ };
static EF special(int c) { EF x = std::numeric_limits<EF>::infinity(); return c == PINF ? x : c == NINF ? -x : std::numeric_limits<EF>::quiet_NaN(); }
struct A { int cls; Q q; EF x; int s; A(const char* n, const char* cn) : cls((int)kase(cn, 0, 3)), s(0) { if (cls == FIN) { q = qin(n); setv(x, q); s = sign(q); } else x = special(cls); } bool fin() const { return cls == FIN; } };
static Q absq(Q q) { return sign(q) < 0 ? -q : q; }
#ifdef VF_VERIFIER
// the quotient is rounded: its integer part may be off by one
static int off = 0;
extern "C" EF vf_f_intpart_rounded(const EF* u) { EF r(*u); if (isfld(*u)) { Q t = trunc_(val(*u)); setv(r, t + Q(off)); } return r; }
#endif
VF_HARNESS(h_fmod) { A a("x", "class of x"), b("y", "class of y");
#ifdef VF_VERIFIER
  off = (int)kase("rounding of the quotient", -1, 1);
#else
  if (a.fin() && b.fin() && b.s) vf_assume(sign(absq(a.q) - absq(b.q) * Q(1000000)) <= 0);
#endif
  EF r = ef::fmod(a.x, b.x);
  if (a.cls != FIN || b.cls == NAN_ || (b.fin() && b.s == 0)) { check(is_nan(r), "fmod of NaN or infinity, or modulo zero or NaN, is NaN"); return; }
  check(isfld(r), "fmod is finite"); if (!isfld(r)) return;
  if (!b.fin()) { check(val(r) == a.q, "fmod modulo infinity is the dividend"); return; }
  Q m = absq(a.q), d = absq(b.q), t = m - Q::of(vf_qfloor((m / d).h)) * d; if (a.s < 0) t = -t;
  check(val(r) == t, "fmod: the remainder of the truncated quotient, with the sign of the dividend"); }
VF_HARNESS(h_ldexp) { int n = (int)vf::i64("n", -2147483647 - 1, 2147483647); A a("x", "class of x");
#ifndef VF_VERIFIER
  vf_assume(n < 100 && n > -100);
#endif
  EF r = ef::ldexp(a.x, n);
  if (a.cls == NAN_) { check(is_nan(r), "ldexp of NaN"); return; }
  if (a.cls != FIN) { check(is_inf(r), "ldexp of infinities"); check(r.my_neg == (a.cls == NINF), "ldexp of infinities: sign"); return; }
  check(isfld(r), "ldexp is finite"); if (!isfld(r)) return;
#ifdef VF_VERIFIER
  Q p = n == 0 ? Q(1) : qf("exp", Q::z(Z((unsigned long long)(n < 0 ? -(long long)n : (long long)n))) * qf("log", Q(2)));
  check(val(r) == (n < 0 ? a.q / p : a.q * p), "ldexp(x, n) = x 2^n");
#else
  Q p = Q::z(zpow(2, n < 0 ? -n : n)); check(val(r) == (n < 0 ? a.q / p : a.q * p), "ldexp(x, n) = x 2^n");
#endif
}
#ifdef VF_VERIFIER
static bool small_pow2 = false; static double estimate = 0.0;
extern "C" EF vf_f_pow2r(std::int64_t p) { if (!small_pow2) return vf_f_pow2(p); return ret(p < 0 ? Q(1) / Q::z(zpow(2, -p)) : Q::z(zpow(2, p))); }
extern "C" double vf_f_log2(double) { return estimate; }
#endif
VF_HARNESS(h_frexp) { A a("x", "class of x"); int e = 12345;
#ifdef VF_VERIFIER
  // the double precision estimate n of the exponent is at most one off
  static const int t[] = { -5000, -333, -65, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 31, 32, 63, 64, 333, 5000 };
  int n = t[(int)kase("estimate", 0, 19)]; small_pow2 = true; estimate = n - 0.5;
  if (a.fin() && a.s) { Q m = absq(a.q), p = n < 0 ? Q(1) / Q::z(zpow(2, -n)) : Q::z(zpow(2, n)); vf_assume(sign(m - p / Q(4)) >= 0); vf_assume(sign(m - p * Q(2)) < 0); }
#endif
  EF r = ef::frexp(a.x, &e);
  if (a.cls == NAN_) { check(is_nan(r), "frexp of NaN"); return; }
  if (a.cls != FIN) { check(is_inf(r), "frexp of infinities"); check(r.my_neg == (a.cls == NINF), "frexp of infinities: sign"); return; }
  check(isfld(r), "frexp is finite"); if (!isfld(r)) return;
  if (a.s == 0) { check(e == 0, "frexp of zero"); check(val(r) == Q(0), "frexp of zero"); return; }
  Q v = val(r), w = absq(v); check(sign(v) == a.s, "frexp: sign");
  check(sign(w - Q(1) / Q(2)) >= 0, "frexp: at least one half"); check(sign(w - Q(1)) < 0, "frexp: below one");
  vf_assume(e < 6000 && e > -6000);
  Q p = e < 0 ? Q(1) / Q::z(zpow(2, -e)) : Q::z(zpow(2, e)); check(v * p == a.q, "frexp: x = result 2^e");
}
