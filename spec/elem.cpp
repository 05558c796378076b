// Elementary functions of the real number type over the exact-arithmetic contracts of field.h.
#define FIELD_IMPL
#define FIELD_ORDERS { -1000, -112, -11, 12, 113, 1001 }
#include "field.h"
enum { FIN, PINF, NINF, NAN_ };
static EF special(int c) { EF x = std::numeric_limits<EF>::infinity(); return c == PINF ? x : c == NINF ? -x : std::numeric_limits<EF>::quiet_NaN(); }
// an argument: any finite value, both infinities, NaN
struct A { int cls; Q q; EF x; int s; A(const char* n, const char* cn) : cls((int)kase(cn, 0, 3)), s(0) { if (cls == FIN) { q = qin(n); setv(x, q); s = sign(q); } else x = special(cls); } bool fin() const { return cls == FIN; } };
static Q pi_() { return qf("pi", Q(0)); }
static Q absq(Q q) { return sign(q) < 0 ? -q : q; }
static void is(const EF& r, Q q, const char* w) { check(isfld(r), w); check(val(r) == q, w); }
static void isnan_(const EF& r, const char* w) { check(is_nan(r), w); }
static void isinf_(const EF& r, int s, const char* w) { check(is_inf(r), w); check(r.my_neg == (s < 0), w); }
static void either2(const EF& r, Q a, Q b, const char* w) { check(isfld(r), w); check(either(val(r) == a, val(r) == b), w); }
static Q p10(int n) { return n >= 0 ? Q::of(vf_qrat(zpow(10, n).h, vf_zi(1))) : Q::of(vf_qrat(vf_zi(1), zpow(10, -n).h)); }
static Q lt(Q x, Q y) { return x - y; }
#ifdef VF_VERIFIER
static void range(const A&) {}
#else
static void range(const A& a) { if (a.fin() && sign(absq(a.q) - Q(10000000)) > 0) vf_assume(false); }   // the decimal comparison of the replay needs moderate arguments
#endif
static Q E(Q x) { return qf("exp", x); }
static Q L(Q x) { return qf("log", x); }

// ---- trigonometric functions derived from sine and cosine
VF_HARNESS(h_e_trig) { int op = (int)kase("function", 0, 5); A a("x", "class of x"); range(a);
  EF r, r2; switch (op) {
    case 0: r = ef::tan(a.x); break; case 1: r = ef::csc(a.x); break; case 2: r = ef::sec(a.x); break; case 3: r = ef::cot(a.x); break;
    case 4: ef::sincos(a.x, &r, &r2); break; case 5: { EF k(7); r = k; ef::sincos(a.x, nullptr, &r2); is(r, Q(7), "sincos leaves what is not asked for"); ef::sincos(a.x, &r, nullptr); break; } }
  if (!a.fin()) { isnan_(r, "trigonometric functions of infinities and NaN are NaN"); if (op >= 4) isnan_(r2, "cosine of infinities and NaN is NaN"); return; }
  Q s = qf("sin", a.q), c = qf("cos", a.q);
  if (op >= 4) { is(r, s, "sincos: sine"); is(r2, c, "sincos: cosine"); return; }
  Q n = op == 0 ? s : op == 3 ? c : Q(1), d = op == 0 || op == 2 ? c : s;
  vf_assume(sign(d) != 0);
  is(r, n / d, op == 0 ? "tan = sin / cos" : op == 1 ? "csc = 1 / sin" : op == 2 ? "sec = 1 / cos" : "cot = cos / sin"); }

// ---- sine and cosine: argument reduction, reflection, multiple angles
static void trig(int f) { A a("x", "class of x"); range(a);
  if (a.fin()) { Q pp = pi_(), mm = absq(a.q); vf_assume((a.s < 0) == (kase("negative", 0, 1) != 0));
    if (sign(mm - pp) > 0) { vf_assume(kase("above pi", 0, 1) == 1); Q kk = Q::of(vf_qfloor((mm / pp).h)), rest = mm - kk * pp, hh = kk / Q(2); vf_assume((sign(hh - Q::of(vf_qfloor(hh.h))) != 0) == (kase("odd multiple", 0, 1) != 0));
      vf_assume((sign(rest - pp / Q(2)) > 0) == (kase("above half", 0, 1) != 0)); }
    else { vf_assume(kase("above pi", 0, 1) == 0); vf_assume((sign(mm - pp / Q(2)) > 0) == (kase("above half", 0, 1) != 0)); } }
#ifdef VF_VERIFIER
  vf_orders[0] = -11; vf_norders = 1;      // the only threshold that matters
#endif
  EF r = f ? ef::cos(a.x) : ef::sin(a.x);
  if (!a.fin()) { isnan_(r, "sin, cos of infinities and NaN are NaN"); return; }
  Q p = pi_(), m = absq(a.q), k = sign(m - p) <= 0 ? Q(0) : Q::of(vf_qfloor((m / p).h)), t = m - k * p; Q h = k / Q(2); bool odd = sign(h - Q::of(vf_qfloor(h.h))) != 0, neg = odd;
  if (!f && a.s < 0) neg = !neg;
  Q u = t; if (sign(t - p / Q(2)) > 0) { u = p - t; if (f) neg = !neg; }
  Q v = p / Q(2) - u;
  Q e1 = qf(f ? "cos" : "sin", u), e2 = qf(f ? "sin" : "cos", v);
  if (sign(u) == 0) e1 = e2 = f ? Q(1) : Q(0);
  else if (sign(v) == 0) e1 = e2 = f ? Q(0) : Q(1);
  either2(r, neg ? -e1 : e1, neg ? -e2 : e2, f ? "cosine: reduction modulo pi, reflection and sign" : "sine: reduction modulo pi, reflection and sign"); }
VF_HARNESS(h_e_sin) { trig(0); }
VF_HARNESS(h_e_cos) { trig(1); }

// ---- hyperbolic functions
VF_HARNESS(h_e_hyp) { int op = (int)kase("function", 0, 4); A a("x", "class of x"); range(a); EF r, r2;
  if (op == 3 || op == 4) { vf_assume(a.fin()); r = EF(7); r2 = EF(8); if (op == 3) ef::sinhcosh(a.x, &r, &r2); else if (kase("pointer", 0, 1)) { ef::sinhcosh(a.x, &r, nullptr); is(r2, Q(8), "sinhcosh leaves what is not asked for"); Q e = E(a.q); is(r, (e - Q(1) / e) / Q(2), "sinhcosh: sine only"); return; } else { ef::sinhcosh(a.x, nullptr, &r2); is(r, Q(7), "sinhcosh leaves what is not asked for"); Q e = E(a.q); is(r2, (e + Q(1) / e) / Q(2), "sinhcosh: cosine only"); return; } }
  else r = op == 0 ? ef::sinh(a.x) : op == 1 ? ef::cosh(a.x) : ef::tanh(a.x);
  if (a.cls == NAN_) { isnan_(r, "hyperbolic functions of NaN are NaN"); return; }
  if (!a.fin()) { int s = a.cls == PINF ? 1 : -1; if (op == 0) isinf_(r, s, "sinh of infinities"); else if (op == 1) isinf_(r, 1, "cosh of infinities"); else is(r, Q(s), "tanh of infinities is +-1"); return; }
  Q e = E(a.q), i = Q(1) / e, s = (e - i) / Q(2), c = (e + i) / Q(2);
  if (op == 0 || op == 3) is(r, s, "sinh = (e^x - e^-x) / 2");
  if (op == 1) is(r, c, "cosh = (e^x + e^-x) / 2");
  if (op == 3) is(r2, c, "cosh = (e^x + e^-x) / 2");
  if (op == 2) { if (sign(absq(a.q) - Q(150)) > 0) either2(r, s / c, Q(a.s), "tanh = sinh / cosh, or +-1 when the difference is below the precision"); else is(r, s / c, "tanh = sinh / cosh"); } }

// ---- inverse hyperbolic functions
VF_HARNESS(h_e_asinh) { A a("x", "class of x"); range(a); EF r = ef::asinh(a.x);
  if (a.cls == NAN_) isnan_(r, "asinh of NaN"); else if (!a.fin()) isinf_(r, a.cls == PINF ? 1 : -1, "asinh of infinities");
  else { Q m = absq(a.q), v = L(m + qsqrt(m * m + Q(1))); is(r, a.s == 0 ? Q(0) : a.s < 0 ? -v : v, "asinh x = sign(x) log(|x| + sqrt(x^2 + 1))"); } }
VF_HARNESS(h_e_acosh) { A a("x", "class of x"); range(a); EF r = ef::acosh(a.x);
  if (a.cls == PINF) { isinf_(r, 1, "acosh of infinity"); return; }
  if (!a.fin()) { isnan_(r, "acosh of NaN and negative infinity"); return; }
  int s = sign(a.q - Q(1)); if (s < 0) { isnan_(r, "acosh below one is NaN"); return; }
  if (s == 0) { is(r, Q(0), "acosh(1) = 0"); return; }
  Q h = qsqrt((a.q - Q(1)) / Q(2)); either2(r, L(a.q + qsqrt(a.q * a.q - Q(1))), Q(2) * L(h + qsqrt(h * h + Q(1))), "acosh x = log(x + sqrt(x^2 - 1)) = 2 asinh(sqrt((x - 1)/2))"); }
VF_HARNESS(h_e_atanh) { A a("x", "class of x"); range(a); EF r = ef::atanh(a.x);
  if (!a.fin()) { isnan_(r, "atanh of infinities and NaN"); return; }
  int s = sign(absq(a.q) - Q(1)); if (s > 0) isnan_(r, "atanh outside [-1,1] is NaN"); else if (s == 0) isinf_(r, a.s, "atanh(+-1) is infinite");
  else is(r, L((Q(1) + a.q) / (Q(1) - a.q)) / Q(2), "atanh x = log((1 + x)/(1 - x)) / 2"); }

// ---- logarithms
VF_HARNESS(h_e_logs) { int op = (int)kase("function", 0, 2); A a("x", "class of x"); range(a); A b("a", op == 2 ? "class of a" : "unused"); vf_assume(op == 2 || b.fin());
  if (op == 0) { EF r = ef::log10(a.x);
    if (a.cls == NAN_ || a.cls == NINF || a.s < 0) isnan_(r, "log10 of NaN and negative values"); else if (a.cls == PINF) isinf_(r, 1, "log10 of infinity"); else if (a.s == 0) isinf_(r, -1, "log10(0)"); else is(r, L(a.q) / L(Q(10)), "log10 x = log x / log 10"); }
  else if (op == 1) { EF r = ef::log1p(a.x); int s = a.fin() ? sign(a.q + Q(1)) : 0;
    if (a.cls == NAN_ || a.cls == NINF || s < 0) isnan_(r, "log1p of NaN and values below -1"); else if (a.cls == PINF) isinf_(r, 1, "log1p of infinity"); else if (s == 0) isinf_(r, -1, "log1p(-1)"); else is(r, L(a.q + Q(1)), "log1p x = log(1 + x)"); }
  else { vf_assume(a.fin() && b.fin()); vf_assume(a.s > 0); vf_assume(b.s > 0); vf_assume(sign(L(b.q)) != 0); EF r = ef::loga(b.x, a.x); is(r, L(a.q) / L(b.q), "loga(a, x) = log x / log a"); } }

// ---- functions computed by Newton iteration: from any start value the iteration is Newton's for the function
#ifdef VF_VERIFIER
template<class F> static void newton(const EF& r, Q fixed, Q fixed2, Q start2, F step, Q (*post)(Q), const char* w)
{
  Q v = vf_start, u = start2; for (int k = 0; k < 4; ++k) { v = step(v); u = step(u); }
  Q v5 = step(v), u5 = step(u);
  check(isfld(r), w);
  bool ok = either(val(r) == fixed, val(r) == fixed2);
  ok = either(ok, either(val(r) == post(v), val(r) == post(v5)));
  ok = either(ok, either(val(r) == post(u), val(r) == post(u5)));
  check(ok, w);
}
#else
static Q vf_start;
template<class F> static void newton(const EF& r, Q fixed, Q, Q, F, Q (*)(Q), const char* w) { is(r, fixed, w); }
#endif
static Q pos(Q q) { return q; }
static Q neg_(Q q) { return -q; }
VF_HARNESS(h_e_log) { A a("x", "class of x"); range(a);
  if (a.fin() && a.s > 0) { vf_assume(sign(a.q - p10(-1000)) >= 0); vf_assume(sign(a.q - p10(1001)) < 0); }
  EF r = ef::log(a.x);
  if (a.cls == NAN_ || a.cls == NINF || a.s < 0) isnan_(r, "log of NaN and negative values"); else if (a.cls == PINF) isinf_(r, 1, "log of infinity"); else if (a.s == 0) isinf_(r, -1, "log(0)");
  else { Q x = a.q; newton(r, L(x), L(x), x - Q(1), [x](Q v) { return v + x / E(v) - Q(1); }, pos, "log: series near one, else Newton steps for exp(v) = x"); } }
VF_HARNESS(h_e_asin) { A a("x", "class of x"); EF r = ef::asin(a.x);
  if (!a.fin()) { isnan_(r, "asin of infinities and NaN"); return; }
  Q m = absq(a.q); int s = sign(m - Q(1)); if (s > 0) { isnan_(r, "asin outside [-1,1] is NaN"); return; }
  if (s == 0) { is(r, a.s < 0 ? -(pi_() / Q(2)) : pi_() / Q(2), "asin(+-1)"); return; }
  if (a.s == 0) { is(r, Q(0), "asin(0)"); return; }
  Q u = pi_() / Q(2) - Q(2) * qf("asin", qsqrt((Q(1) - m) / Q(2)));     // the same value, as used near one
  Q f = qf("asin", m); 
  newton(r, a.s < 0 ? -f : f, a.s < 0 ? -u : u, vf_start, [m](Q v) { Q c = qf("cos", v); vf_assume(sign(c) != 0); return v - (qf("sin", v) - m) / c; }, a.s < 0 ? neg_ : pos, "asin: series near zero and one, else Newton steps for sin(v) = |x|"); }
VF_HARNESS(h_e_acos) { A a("x", "class of x"); EF r = ef::acos(a.x);
  if (!a.fin()) { isnan_(r, "acos of infinities and NaN"); return; }
  int s = sign(absq(a.q) - Q(1)); if (s > 0) isnan_(r, "acos outside [-1,1] is NaN"); else if (s == 0) is(r, a.s > 0 ? Q(0) : pi_(), "acos(1) = 0, acos(-1) = pi");
  else is(r, pi_() / Q(2) - qf("asin", a.q), "acos x = pi/2 - asin x"); }
VF_HARNESS(h_e_atan) { A a("x", "class of x"); EF r = ef::atan(a.x); Q h = pi_() / Q(2);
  if (a.cls == NAN_) { isnan_(r, "atan of NaN"); return; }
  if (!a.fin()) { is(r, a.cls == PINF ? h : -h, "atan of infinities is +-pi/2"); return; }
  if (a.s == 0) { is(r, Q(0), "atan(0)"); return; }
  Q m = absq(a.q), f = qf("atan", m); if (a.s < 0) f = -f;
  Q i = h - qf("atan", Q(1) / m); if (a.s < 0) i = -i;                 // the same value, as used for large arguments
  check(isfld(r), "atan is finite");
#ifdef VF_VERIFIER
  if (sign(m - p10(112)) >= 0) { if (val(r) == (a.s < 0 ? -h : h)) return; }
#endif
  newton(r, f, i, a.s < 0 ? -i : i, [m](Q v) { Q s = qf("sin", v), c = qf("cos", v); return v + c * (m * c - s); }, a.s < 0 ? neg_ : pos, "atan: series for small and large arguments, else Newton steps for tan(v) = |x|"); }
VF_HARNESS(h_e_atan2) { A y("y", "class of y"), x("x", "class of x"); EF r = ef::atan2(y.x, x.x); Q p = pi_();
  if (y.cls == NAN_ || x.cls == NAN_) { isnan_(r, "atan2 with NaN"); return; }
  int sy = y.fin() ? y.s : y.cls == PINF ? 1 : -1, sx = x.fin() ? x.s : x.cls == PINF ? 1 : -1;
  Q m;      // angle for |y|
  if (!x.fin() && !y.fin()) m = sx > 0 ? p / Q(4) : p * Q(3) / Q(4);
  else if (!x.fin()) m = sx > 0 ? Q(0) : p;
  else if (!y.fin() || (sx == 0 && sy != 0)) m = p / Q(2);
  else if (sy == 0) m = sx < 0 ? p : Q(0);
  else { Q t = qf("atan", absq(y.q) / absq(x.q)); m = sx > 0 ? t : p - t; }
  is(r, sy < 0 ? -m : m, "atan2: quadrant and special values"); }

// ---- exponential
VF_HARNESS(h_e_exp) { A a("x", "class of x"); range(a); EF r = ef::exp(a.x);
  if (a.cls == NAN_) { isnan_(r, "exp of NaN"); return; }
  if (a.cls == PINF) { isinf_(r, 1, "exp of infinity"); return; }
  if (a.cls == NINF) { is(r, Q(0), "exp of negative infinity"); return; }
  Q big = val(std::numeric_limits<EF>::max_exponent10 * EF(1)) * L(Q(10)), m = absq(a.q);
  vf_assume(sign(m - big) != 0);      // a multiple of ln 10 is not a decimal fraction
  if (sign(m - big) > 0) { if (a.s > 0) isinf_(r, 1, "exp overflows above max_exponent10 * ln 10"); else is(r, Q(0), "exp underflows below -max_exponent10 * ln 10"); return; }
  if (sign(m - p10(-112)) < 0) either2(r, Q(1), E(a.q), "exp of tiny arguments is one"); else is(r, E(a.q), "exp: reduction modulo ln 2 and scaling"); }

// ---- general powers
static Q powq(Q x, Q a) { int s = sign(a); if (s == 0) return Q(1); if (s < 0) return Q(1) / powq(x, -a); if (sign(a - Q(1)) == 0) return x; return sign(x) > 0 ? E(a * L(x)) : qf("powi", x, a); }
VF_HARNESS(h_e_pow) { A x("x", "class of x"), a("a", "class of a");
#ifndef VF_VERIFIER
  if (a.fin()) vf_assume(sign(absq(a.q) - Q(100)) <= 0);
#endif
  EF r = ef::pow(x.x, a.x);
  if (a.fin() && a.s == 0) { is(r, Q(1), "x^0 = 1"); return; }
  if (x.cls == NAN_ || a.cls == NAN_) { isnan_(r, "powers with NaN"); return; }
  int sx = x.fin() ? x.s : x.cls == PINF ? 1 : -1, sa = a.fin() ? a.s : a.cls == PINF ? 1 : -1;
  if (!a.fin()) { int c = x.fin() ? sign(absq(x.q) - Q(1)) : 1; if (c == 0) is(r, Q(1), "(+-1)^inf = 1"); else if ((c > 0) == (sa > 0)) isinf_(r, 1, "x^(+-inf), growing"); else is(r, Q(0), "x^(+-inf), shrinking"); return; }
  Q m = absq(a.q); bool isint = sign(m - Q::of(vf_qfloor(m.h))) == 0; Q h = m / Q(2); bool odd = isint && sign(h - Q::of(vf_qfloor(h.h))) != 0;
  if (!x.fin() || sx == 0) { bool z = x.fin(); if (z == (sa > 0)) is(r, Q(0), "power of zero or infinity: zero"); else isinf_(r, sx < 0 && odd ? -1 : 1, "power of zero or infinity: infinite"); return; }
  if (sx < 0 && !isint) { isnan_(r, "negative base, non-integral exponent"); return; }
  if (sx < 0 && sign(m - Q::z(Z(~0ULL >> 1))) > 0) { Q v = E(m * L(-x.q)); if (odd) v = -v; is(r, sa < 0 ? Q(1) / v : v, "negative base, huge integral exponent"); return; }
#ifndef VF_VERIFIER
  vf_assume(sx > 0);
#endif
#ifdef VF_VERIFIER
  if (sx > 0 && !isint && sign(m - Q(1)) > 0 && sign(m - Q(2)) < 0) { Q v = x.q * E((m - Q(1)) * L(x.q)); either2(r, powq(x.q, a.q), sa < 0 ? Q(1) / v : v, "x^a = exp(a log x), for an exponent between one and two"); return; }
#endif
  is(r, powq(x.q, a.q), "x^a = exp(a log x), product of factors x for an integral exponent"); }

// ---- roots
VF_HARNESS(h_e_root) { int op = (int)kase("function", 0, 2), p = op == 2 ? 3 : (int)kase("p", -7, 7); A a("x", "class of x"); range(a);
#ifdef VF_VERIFIER
  vf_start_positive = true;
#endif
  EF r = op == 0 ? ef::rootn(a.x, p) : op == 1 ? ef::rootn_inverse(a.x, p) : ef::cbrt(a.x);
  if (!a.fin()) { isnan_(r, "roots of infinities and NaN are NaN"); return; }
  if (op == 1 && p < 0) { is(r, p == -1 || a.s > 0 ? powq(a.q, Q(-p)) : a.s == 0 ? Q(0) : qf("powi", a.q, Q(-p)), "inverse root with negative index is the power"); return; }
  if (p == 0 || a.s < 0) { isnan_(r, "root of index zero or of a negative value is NaN"); return; }
  bool inv = (op == 1) != (p < 0); int n = p < 0 ? -p : p;
  if (a.s == 0) { if (p < 0) isnan_(r, "root of 1/0"); else if (inv) isinf_(r, 1, "inverse root of zero"); else is(r, Q(0), "root of zero"); return; }
  Q x = a.q;
  if (n == 1) { is(r, inv ? Q(1) / x : x, "root of index one"); return; }
  if (n == 2) { Q s = qsqrt(x); either2(r, inv ? Q(1) / s : s, inv ? qsqrt(Q(1) / x) : Q(1) / qsqrt(Q(1) / x), "root of index two is the square root"); return; }
#ifdef VF_VERIFIER
  Q y = p < 0 ? Q(1) / x : x, v = vf_start;
  for (int k = 0; k < 4; ++k) { v = v * ((Q(1) - powq(v, Q(n)) * y) / Q(n) + Q(1)); vf_assume(sign(v) > 0); }
  check(isfld(r), "root is finite");
  is(r, op == 1 ? v : Q(1) / v, "root: Newton steps for v^-n = x");
#else
  Q l = E(L(x) / Q(n)); is(r, inv ? Q(1) / l : l, "root is exp(log(x)/n)");
#endif
}
