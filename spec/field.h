// e_float objects as exact field elements.  In the verifier an object with class 77 carries the handle of its value in
// my_exp and the arithmetic primitives are replaced by the stubs below (engine redirect table), i.e. callers are
// verified against the exact-arithmetic contract of the primitives; natively the real primitives run and values are
// compared to about 85 digits.
#ifndef FIELD_H
#define FIELD_H
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
#include "vf.h"
#include <string>
#include <new>
using namespace vf;
typedef efx::e_float EF;
extern "C" {
int vf_qin_(const char* n, std::int64_t i);
int vf_qrat(int zn, int zd); int vf_qadd(int a, int b); int vf_qneg(int a); int vf_qmul(int a, int b);
int vf_qsign(int a); int vf_qinv(int a); int vf_qsqrt(int a); int vf_qfun(const char* f, int a, int b); bool vf_qeq(int a, int b); bool vf_qle(int a, int b); int vf_qfloor(int a);
int vf_qhavoc();
int vf_qlimbs(const std::uint32_t* d, int n, bool neg, std::int64_t e);      // native: literal value
void vf_qstr(int q, char* out, int n);                                       // native: decimal string
}
struct Q { int h; Q() : h(vf_qrat(vf_zi(0), vf_zi(1))) {} Q(long v) : h(vf_qrat(vf_zi(v), vf_zi(1))) {} Q(int v) : h(vf_qrat(vf_zi(v), vf_zi(1))) {} static Q of(int h) { Q q(0); q.h = h; return q; } static Q z(Z v) { return of(vf_qrat(v.h, vf_zi(1))); } };
inline Q operator+(Q a, Q b) { return Q::of(vf_qadd(a.h, b.h)); }
inline Q operator-(Q a) { return Q::of(vf_qneg(a.h)); }
inline Q operator-(Q a, Q b) { return a + (-b); }
inline Q operator*(Q a, Q b) { return Q::of(vf_qmul(a.h, b.h)); }
inline Q operator/(Q a, Q b) { return a * Q::of(vf_qinv(b.h)); }
inline bool operator==(Q a, Q b) { return vf_qeq(a.h, b.h); }
inline bool operator<=(Q a, Q b) { return vf_qle(a.h, b.h); }
inline int sign(Q a) { return vf_qsign(a.h); }
inline Q qsqrt(Q a) { return Q::of(vf_qsqrt(a.h)); }
inline Q qf(const char* f, Q a) { return Q::of(vf_qfun(f, a.h, a.h)); }
inline Q qf(const char* f, Q a, Q b) { return Q::of(vf_qfun(f, a.h, b.h)); }
inline Q qin(const char* n) { return Q::of(vf_qin_(n, -1)); }
static const int FLD = 77;
#ifdef VF_VERIFIER
inline bool isfld(const EF& x) { return (int)x.my_fpclass == FLD || x.my_fpclass == EF::ef_finite; }
inline Q val(const EF& x)
{
  if ((int)x.my_fpclass == FLD) return Q::of((int)x.my_exp);
  check(x.my_fpclass == EF::ef_finite, "finite value expected");
  Z m(0); for (int i = 0; i < EF::ef_elem_number; ++i) m = m * Z(100000000) + Z(x.my_data.data()[i]);
  std::int64_t k = x.my_exp - 8 * (EF::ef_elem_number - 1);
  Q q = Q::of(k >= 0 ? vf_qrat((m * zpow(10, k)).h, vf_zi(1)) : vf_qrat(m.h, zpow(10, -k).h));
  return x.my_neg ? -q : q;
}
inline void setv(EF& x, Q q) { x.my_fpclass = (EF::fpclass_type)FLD; x.my_exp = q.h; x.my_neg = false; x.my_prec_elem = EF::ef_elem_number; }
inline void setspecial(EF& x, bool nan, bool neg) { x.my_fpclass = nan ? EF::ef_NaN : EF::ef_inf; x.my_neg = neg; x.my_exp = 0; }
#else
inline bool isfld(const EF& x) { return x.isfinite(); }
inline Q val(const EF& x) { check(x.isfinite(), "finite value expected"); return Q::of(vf_qlimbs(x.my_data.data(), EF::ef_elem_number, x.my_neg, x.my_exp)); }
inline void setv(EF& x, Q q) { char b[256]; vf_qstr(q.h, b, 256); x = EF(b); }
#endif
inline EF ef_in(const char* n) { EF x; setv(x, qin(n)); return x; }
inline bool is_nan(const EF& x) { return x.my_fpclass == EF::ef_NaN; }
inline bool is_inf(const EF& x) { return x.my_fpclass == EF::ef_inf; }

#if defined(VF_VERIFIER) && defined(FIELD_IMPL)
static bool lit(const EF& x) { return x.my_fpclass == EF::ef_finite; }
static int sgnof(const EF& x) { return isfld(x) ? sign(val(x)) : x.my_neg ? -1 : 1; }
extern "C" {
EF* vf_f_add(EF* u, const EF* v)
{
  if (is_nan(*u) || is_nan(*v) || (is_inf(*u) && is_inf(*v) && u->my_neg != v->my_neg)) setspecial(*u, true, false);
  else if (is_inf(*u)) {}
  else if (is_inf(*v)) setspecial(*u, false, v->my_neg);
  else setv(*u, val(*u) + val(*v));
  return u;
}
EF* vf_f_negate(EF* u) { if (isfld(*u)) setv(*u, -val(*u)); else u->my_neg = !u->my_neg; return u; }
EF* vf_f_sub(EF* u, const EF* v) { EF t(*v); vf_f_negate(&t); return vf_f_add(u, &t); }
EF* vf_f_mul(EF* u, const EF* v)
{
  if (isfld(*u) && isfld(*v)) { setv(*u, val(*u) * val(*v)); return u; }
  if (is_nan(*u) || is_nan(*v)) { setspecial(*u, true, false); return u; }
  int s = sgnof(*u) * sgnof(*v);
  if (s == 0) setspecial(*u, true, false); else setspecial(*u, false, s < 0);
  return u;
}
EF* vf_f_inv(EF* u)
{
  if (is_nan(*u)) return u;
  if (is_inf(*u)) { setv(*u, Q(0)); return u; }
  Q q = val(*u);
  if (sign(q) == 0) setspecial(*u, false, false); else setv(*u, Q(1) / q);
  return u;
}
EF* vf_f_div(EF* u, const EF* v) { if (isfld(*u) && isfld(*v) && sign(val(*v)) == 0) { int s = sgnof(*u); setspecial(*u, s == 0, s < 0); return u; } EF t(*v); vf_f_inv(&t); return vf_f_mul(u, &t); }
EF* vf_f_sqrt(EF* u) { int s = sgnof(*u); if (is_inf(*u) && s > 0) return u; if (s < 0 || !isfld(*u)) setspecial(*u, true, false); else setv(*u, qsqrt(val(*u))); return u; }
EF* vf_f_addu(EF* u, unsigned long long n) { EF t; setv(t, Q::z(Z(n))); return vf_f_add(u, &t); }
EF* vf_f_subu(EF* u, unsigned long long n) { EF t; setv(t, Q::z(Z(n))); return vf_f_sub(u, &t); }
EF* vf_f_mulu(EF* u, unsigned long long n) { EF t; setv(t, Q::z(Z(n))); return vf_f_mul(u, &t); }
EF* vf_f_divu(EF* u, unsigned long long n) { EF t; setv(t, Q::z(Z(n))); return vf_f_div(u, &t); }
std::int32_t vf_f_cmp(const EF* u, const EF* v)
{
  if (is_inf(*u) || is_inf(*v)) { int a = is_inf(*u) ? (u->my_neg ? -1 : 1) : 0, b = is_inf(*v) ? (v->my_neg ? -1 : 1) : 0; return a < b ? -1 : a > b ? 1 : 0; }
  // literals outside 10^(+-100000) (range limits): the abstract values lie inside
  if (lit(*v) && v->my_exp > 100000) return v->my_neg ? 1 : -1;
  if (lit(*v) && v->my_exp < -100000) { int s = sign(val(*u)); return s ? s : v->my_neg ? 1 : -1; }
  if (lit(*u) && (u->my_exp > 100000 || u->my_exp < -100000)) return -vf_f_cmp(v, u);
  return sign(val(*u) - val(*v));
}
bool vf_f_isnan(const EF* u) { return is_nan(*u); }
bool vf_f_isinf(const EF* u) { return is_inf(*u); }
bool vf_f_isfinite(const EF* u) { return isfld(*u); }
bool vf_f_iszero(const EF* u) { return isfld(*u) && sign(val(*u)) == 0; }
bool vf_f_isone(const EF* u) { return isfld(*u) && sign(val(*u) - Q(1)) == 0; }
bool vf_f_isneg(const EF* u) { return sgnof(*u) < 0; }
Q trunc_(Q q) { return sign(q) < 0 ? -Q::of(vf_qfloor((-q).h)) : Q::of(vf_qfloor(q.h)); }
bool vf_f_isint(const EF* u) { if (!isfld(*u)) return false; Q q = val(*u); return sign(q - trunc_(q)) == 0; }
void vf_f_fromu(EF* u, unsigned long long n) { bool neg = u->my_neg; Q q = Q::z(Z(n)); setv(*u, neg ? -q : q); }
EF vf_f_intpart(const EF* u) { EF r(*u); if (isfld(*u)) setv(r, trunc_(val(*u))); return r; }
EF vf_f_decpart(const EF* u) { EF r(*u); if (isfld(*u)) { Q q = val(*u); setv(r, q - trunc_(q)); } return r; }
void vf_f_precision(EF*, std::int32_t) {}
Q pow10q(int n) { return n >= 0 ? Q::of(vf_qrat(zpow(10, n).h, vf_zi(1))) : Q::of(vf_qrat(vf_zi(1), zpow(10, -n).h)); }
// decimal order: only its relation to a few thresholds is fixed
#ifndef FIELD_ORDERS
#define FIELD_ORDERS { -112, 113 }
#endif
int vf_orders[] = FIELD_ORDERS, vf_norders = sizeof vf_orders / sizeof vf_orders[0];
std::int64_t vf_f_order(const EF* u)
{
  if (!isfld(*u)) return 0;
  Q q = val(*u); int s = sign(q); if (!s) return 0; if (s < 0) q = -q;
  std::int64_t lo = -(1LL << 32), hi = 1LL << 32;
  for (int i = 0; i < vf_norders; ++i) { int k = vf_orders[i]; if (sign(q - pow10q(k)) < 0) { hi = k - 1; break; } lo = k; }
  return lo + (std::int64_t)vf_havoc_u64(0, (std::uint64_t)(hi - lo));
}
enum { OWN_NAN, OWN_INF, OWN_ZERO };
// value at +inf / -inf, and the domain (0: all, 1: x >= 0 with a pole at 0)
static EF fun1(const char* f, const EF& x, int pinf, int ninf, int dom = 0)
{
  EF r;
  if (is_nan(x)) setspecial(r, true, false);
  else if (is_inf(x)) { int k = x.my_neg ? ninf : pinf; if (k == OWN_ZERO) setv(r, Q(0)); else setspecial(r, k == OWN_NAN, k < 0); }
  else if (dom && sign(val(x)) <= 0) setspecial(r, sign(val(x)) < 0, true);
  else setv(r, qf(f, val(x)));
  return r;
}
EF vf_f_sin(const EF* x) { return fun1("sin", *x, OWN_NAN, OWN_NAN); }
EF vf_f_cos(const EF* x) { return fun1("cos", *x, OWN_NAN, OWN_NAN); }
EF vf_f_tan(const EF* x) { return fun1("tan", *x, OWN_NAN, OWN_NAN); }
EF vf_f_exp(const EF* x) { return fun1("exp", *x, OWN_INF, OWN_ZERO); }
EF vf_f_log(const EF* x) { return fun1("log", *x, OWN_INF, OWN_NAN, 1); }
EF vf_f_sinh(const EF* x) { return fun1("sinh", *x, OWN_INF, -OWN_INF); }
EF vf_f_cosh(const EF* x) { return fun1("cosh", *x, OWN_INF, OWN_INF); }
EF vf_f_asin(const EF* x) { return fun1("asin", *x, OWN_NAN, OWN_NAN); }
EF vf_f_acos(const EF* x) { return fun1("acos", *x, OWN_NAN, OWN_NAN); }
EF vf_f_atan(const EF* x) { if (is_inf(*x)) { EF r; Q h = qf("pi", Q(0)) / Q(2); setv(r, x->my_neg ? -h : h); return r; } return fun1("atan", *x, OWN_NAN, OWN_NAN); }
// the series functions, by the elementary function they represent
static EF ret(Q q) { EF r; setv(r, q); return r; }
static Q asinhq(Q t) { return qf("log", t + qsqrt(t * t + Q(1))); }
EF vf_f_h0f0(const EF* x) { return ret(qf("exp", val(*x))); }
EF vf_f_h1f0(const EF* a, const EF* x) { Q b = Q(1) - val(*x); check(sign(b) > 0, "1F0: argument below one"); return ret(qf("exp", -(val(*a) * qf("log", b)))); }
EF vf_f_h0f1(const EF* b, const EF* x)
{
  Q t = qsqrt(Q(-4) * val(*x));
  if (val(*b) == Q(1) / Q(2)) return ret(qf("cos", t));
  check(val(*b) == Q(3) / Q(2), "0F1: parameter 1/2 (cosine) or 3/2 (sine)");
  if (sign(t) == 0) return ret(Q(1)); return ret(qf("sin", t) / t);
}
EF vf_f_h2f1(const EF* a_, const EF* b_, const EF* c_, const EF* x)
{
  Q a = val(*a_), b = val(*b_), c = val(*c_), z = val(*x), one(1), half = Q(1) / Q(2); int s = sign(z);
  if (s == 0) return ret(one);
  if (c == Q(2)) { check(a == one, "2F1(1,1;2): logarithm"); check(b == one, "2F1(1,1;2): logarithm"); return ret(-(qf("log", one - z) / z)); }
  check(c == Q(3) / Q(2), "2F1: third parameter 3/2");
  Q t = qsqrt(s > 0 ? z : -z);
  if (a == half) { if (b == half) return ret((s > 0 ? qf("asin", t) : asinhq(t)) / t); check(b == one, "2F1(1/2,1;3/2): arc tangent"); }
  else { check(a == one, "2F1(1,1/2;3/2): arc tangent"); check(b == half, "2F1(1,1/2;3/2): arc tangent"); }
  return ret((s > 0 ? qf("log", (one + t) / (one - t)) / Q(2) : qf("atan", t)) / t);
}
EF vf_f_log1p1m2(const EF* x) { if (!isfld(*x)) return *x; Q t = val(*x); return ret(qf("log", (Q(1) + t) / (Q(1) - t)) / Q(2)); }
// integral powers: x^n for positive x is exp(n log x)
static Q powint(Q x, Q n) { int s = sign(n); if (s == 0) return Q(1); if (s < 0) return Q(1) / powint(x, -n); if (sign(n - Q(1)) == 0) return x;
  if (sign(x) > 0) return qf("exp", n * qf("log", x)); return qf("powi", x, n); }
EF vf_f_pown(const EF* x, std::int64_t p) { check(isfld(*x), "power of a finite value"); return ret(powint(val(*x), p < 0 ? -Q::z(Z(0ULL - (unsigned long long)p)) : Q::z(Z((unsigned long long)p)))); }
EF vf_f_pow2(std::int64_t p) { if (p == 0) return ret(Q(1)); Q e = qf("exp", Q::z(Z(p < 0 ? 0ULL - (unsigned long long)p : (unsigned long long)p)) * qf("log", Q(2))); return ret(p < 0 ? Q(1) / e : e); }
// truncation to a 64-bit integer, saturating
signed long long vf_f_toll(const EF* u)
{
  if (is_nan(*u)) return (signed long long)vf_havoc_u64(0, ~0ULL);
  if (is_inf(*u)) return u->my_neg ? INT64_MIN : INT64_MAX;
  Q q = trunc_(val(*u)); int s = sign(q); if (s < 0) q = -q;
  Q lim = Q::z(Z(s < 0 ? 1ULL << 63 : ~0ULL >> 1));
  if (sign(q - lim) >= 0) return s < 0 ? INT64_MIN : INT64_MAX;
  std::uint64_t m = vf_havoc_u64(0, ~0ULL >> 1); vf_assume(Q::z(Z((unsigned long long)m)) == q);
  return s < 0 ? -(signed long long)m : (signed long long)m;
}
// double precision start values of the iterations are arbitrary; spec/elem.cpp reads the last one
Q vf_start(0); bool vf_start_positive = false;
static void start_(EF* u) { vf_start = Q::of(vf_qhavoc()); if (vf_start_positive) vf_assume(sign(vf_start) > 0); setv(*u, vf_start); }
void vf_f_fromd(EF* u, double, std::int64_t) { new (u) EF(); start_(u); }
void vf_f_fromld(EF* u, long double) { start_(u); }
double vf_f_dpow(double b, double n) { if (n == (double)(int)n && n >= 0 && n < 64) { double r = 1; for (int i = 0; i < (int)n; ++i) r *= b; return r; } return 1.25; }
double vf_f_dlog(double) { return 0.40625; }
void vf_f_parts(const EF*, double* m, std::int64_t* e) { *m = 1.5; *e = 0; }
EF vf_f_atan2(const EF* y, const EF* x) { EF r; if (isfld(*x) && isfld(*y)) setv(r, qf("atan2", val(*y), val(*x))); else setspecial(r, true, false); return r; }
#define VF_CONST(name, expr) const EF* vf_f_##name() { static EF r; setv(r, expr); return &r; }
VF_CONST(pi, qf("pi", Q(0))) VF_CONST(pi_half, qf("pi", Q(0)) / Q(2)) VF_CONST(two_pi, qf("pi", Q(0)) * Q(2)) VF_CONST(ln2, qf("log", Q(2))) VF_CONST(ln10, qf("log", Q(10))) VF_CONST(e, qf("exp", Q(1))) VF_CONST(sqrt2, qsqrt(Q(2)))
}
#endif
#endif
