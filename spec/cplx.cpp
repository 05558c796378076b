// ef::complex<e_float>: algebraic contracts over exact component arithmetic
#define FIELD_IMPL
#include "field.h"
#include <e_float/e_float_functions_complex.h>
typedef ef::complex<EF> C;
struct QC { Q x, y; };
static QC qc(const C& z) { QC r; r.x = val(z.c__my_re); r.y = val(z.c__my_im); return r; }
static QC cin_(const char* a, const char* b) { QC r; r.x = qin(a); r.y = qin(b); return r; }
static C mkc(QC q) { EF a, b; setv(a, q.x); setv(b, q.y); return C(a, b); }
#ifndef VF_VERIFIER   // native replay works with rounded values: compare relative to the norm
static void eqc(const C& z, QC q, const char* what) { Q s = (sign(q.x) < 0 ? -q.x : q.x) + (sign(q.y) < 0 ? -q.y : q.y); s = s + s; check(val(z.c__my_re) + s == q.x + s, what); check(val(z.c__my_im) + s == q.y + s, what); }
#else
static void eqc(const C& z, QC q, const char* what) { check(val(z.c__my_re) == q.x, what); check(val(z.c__my_im) == q.y, what); }
#endif
static QC add_(QC a, QC b) { QC r; r.x = a.x + b.x; r.y = a.y + b.y; return r; }
static QC sub_(QC a, QC b) { QC r; r.x = a.x - b.x; r.y = a.y - b.y; return r; }
static QC mul_(QC a, QC b) { QC r; r.x = a.x * b.x - a.y * b.y; r.y = a.x * b.y + a.y * b.x; return r; }
static QC scale(QC a, Q s) { QC r; r.x = a.x * s; r.y = a.y * s; return r; }
static Q norm_(QC a) { return a.x * a.x + a.y * a.y; }
static QC conj_(QC a) { QC r; r.x = a.x; r.y = -a.y; return r; }
static QC div_(QC a, QC b) { return scale(mul_(a, conj_(b)), Q(1) / norm_(b)); }
static QC neg_(QC a) { QC r; r.x = -a.x; r.y = -a.y; return r; }
static QC real_(Q a) { QC r; r.x = a; return r; }
static void nonzero(QC a) { vf_assume(sign(norm_(a)) != 0); }

VF_HARNESS(h_c_add) { QC p = cin_("a", "b"), q = cin_("c", "d"); C u = mkc(p); const C v = mkc(q);
  switch (kase("op", 0, 4)) { 
    case 0: eqc(u + v, add_(p, q), "complex sum"); break;  case 1: eqc(u - v, sub_(p, q), "complex difference"); break;
    case 2: u += v; eqc(u, add_(p, q), "complex +="); break; case 3: u -= v; eqc(u, sub_(p, q), "complex -="); break;
    case 4: eqc(-u, neg_(p), "complex negation"); eqc(+u, p, "complex unary plus"); break; }
  eqc(v, q, "right operand unchanged"); }
VF_HARNESS(h_c_mul) { QC p = cin_("a", "b"), q = cin_("c", "d"); C u = mkc(p); const C v = mkc(q);
  if (kase("op", 0, 1) == 0) eqc(u * v, mul_(p, q), "complex product"); else { u *= v; eqc(u, mul_(p, q), "complex *="); }
  eqc(v, q, "right operand unchanged"); }
VF_HARNESS(h_c_div) { QC p = cin_("a", "b"), q = cin_("c", "d"); nonzero(q); C u = mkc(p); const C v = mkc(q);
  if (kase("op", 0, 1) == 0) eqc(u / v, div_(p, q), "complex quotient"); else { u /= v; eqc(u, div_(p, q), "complex /="); }
  eqc(v, q, "right operand unchanged"); }
VF_HARNESS(h_c_alias) { QC p = cin_("a", "b"); C u = mkc(p);
  switch (kase("op", 0, 4)) {
    case 0: u += u; eqc(u, add_(p, p), "z += z"); break;  case 1: u -= u; eqc(u, real_(Q(0)), "z -= z"); break;
    case 2: u *= u; eqc(u, mul_(p, p), "z *= z"); break;  case 3: nonzero(p); u /= u; eqc(u, real_(Q(1)), "z /= z"); break;
    case 4: u = *&u; eqc(u, p, "z = z"); break; } }
VF_HARNESS(h_c_real) { QC p = cin_("a", "b"); Q r = qin("c"); EF x; setv(x, r); const C u = mkc(p); C w = u; QC qr = real_(r); int op = (int)kase("op", 0, 11);
  switch (op) {
    case 0: eqc(u + x, add_(p, qr), "z + x"); break; case 1: eqc(x + u, add_(p, qr), "x + z"); break;
    case 2: eqc(u - x, sub_(p, qr), "z - x"); break; case 3: eqc(x - u, sub_(qr, p), "x - z"); break;
    case 4: eqc(u * x, mul_(p, qr), "z * x"); break; case 5: eqc(x * u, mul_(p, qr), "x * z"); break;
    case 6: vf_assume(sign(r) != 0); eqc(u / x, scale(p, Q(1) / r), "z / x"); break;
    case 7: nonzero(p); eqc(x / u, div_(qr, p), "x / z"); break;
    case 8: w += x; eqc(w, add_(p, qr), "z += x"); break; case 9: w -= x; eqc(w, sub_(p, qr), "z -= x"); break;
    case 10: w *= x; eqc(w, mul_(p, qr), "z *= x"); break; case 11: vf_assume(sign(r) != 0); w /= x; eqc(w, scale(p, Q(1) / r), "z /= x"); break; }
  check(val(x) == r, "real operand unchanged"); eqc(u, p, "complex operand unchanged"); }
VF_HARNESS(h_c_int) { QC p = cin_("a", "b"); C w = mkc(p); int op = (int)kase("op", 0, 7);
  if (op < 4) { long long n = i64("n", (-9223372036854775807LL - 1), 9223372036854775807LL); Q r = Q::z(Z(n));
    switch (op) { case 0: w += n; eqc(w, add_(p, real_(r)), "z += n"); break; case 1: w -= n; eqc(w, sub_(p, real_(r)), "z -= n"); break;
      case 2: w *= n; eqc(w, scale(p, r), "z *= n"); break; case 3: vf_assume(sign(r) != 0); w /= n; eqc(w, scale(p, Q(1) / r), "z /= n"); break; } }
  else { unsigned long long n = u64("n", 1, ~0ULL); Q r = Q::z(Z(n));
    switch (op) { case 4: w += n; eqc(w, add_(p, real_(r)), "z += n"); break; case 5: w -= n; eqc(w, sub_(p, real_(r)), "z -= n"); break;
      case 6: w *= n; eqc(w, scale(p, r), "z *= n"); break; case 7: w /= n; eqc(w, scale(p, Q(1) / r), "z /= n"); break; } } }
VF_HARNESS(h_c_cmp) { QC p = cin_("a", "b"), q = cin_("c", "d"); if (kase("same re", 0, 1)) q.x = p.x; if (kase("same im", 0, 1)) q.y = p.y; if (kase("zero im", 0, 1)) p.y = Q(0);
  const C u = mkc(p), v = mkc(q); EF x; setv(x, q.x); bool ex = sign(p.x - q.x) == 0, ey = sign(p.y - q.y) == 0, zy = sign(p.y) == 0;
  check((u == v) == (ex & ey), "complex =="); check((u != v) == !(ex & ey), "complex !=");
  check((u == x) == (ex & zy), "complex == real"); check((u != x) == !(ex & zy), "complex != real"); check((x == u) == (ex & zy), "real == complex"); check((x != u) == !(ex & zy), "real != complex"); }
VF_HARNESS(h_c_value) { QC p = cin_("a", "b"); const C u = mkc(p);
  check(val(ef::real(u)) == p.x, "real part"); check(val(ef::imag(u)) == p.y, "imaginary part"); check(val(u.real()) == p.x, "real part"); check(val(u.imag()) == p.y, "imaginary part");
  check(val(ef::norm(u)) == norm_(p), "norm = x^2 + y^2"); check(val(ef::abs(u)) == qsqrt(norm_(p)), "abs = sqrt(norm)");
  check(val(ef::arg(u)) == qf("atan2", p.y, p.x), "arg = atan2(y, x)"); eqc(ef::conj(u), conj_(p), "conjugate = (x, -y)");
  C w; w = u; eqc(w, p, "assignment"); w.real(u.imag()); w.imag(u.real()); check(val(w.c__my_re) == p.y, "setter of the real part"); check(val(w.c__my_im) == p.x, "setter of the imaginary part");
  EF x; setv(x, p.y); w = x; eqc(w, real_(p.y), "assignment of a real"); }
// component functions: natively the real functions of e_float, in the verifier the same uninterpreted symbols
static Q rf(const char* f, Q a) { return qf(f, a); }
VF_HARNESS(h_c_trig) { QC p = cin_("a", "b"); const C u = mkc(p); QC s, c;
  int k = (int)kase("fn", 0, 5);
  if (k < 2 || k == 4) { s.x = rf("sin", p.x) * rf("cosh", p.y); s.y = rf("cos", p.x) * rf("sinh", p.y); c.x = rf("cos", p.x) * rf("cosh", p.y); c.y = -(rf("sin", p.x) * rf("sinh", p.y)); }
  else { s.x = rf("cos", p.y) * rf("sinh", p.x); s.y = rf("sin", p.y) * rf("cosh", p.x); c.x = rf("cos", p.y) * rf("cosh", p.x); c.y = rf("sin", p.y) * rf("sinh", p.x); }
  switch (k) { case 0: eqc(ef::sin(u), s, "sin z"); break; case 1: eqc(ef::cos(u), c, "cos z"); break; case 2: eqc(ef::sinh(u), s, "sinh z"); break; case 3: eqc(ef::cosh(u), c, "cosh z"); break;
    case 4: nonzero(c); eqc(ef::tan(u), div_(s, c), "tan z = sin z / cos z"); break; case 5: nonzero(c); eqc(ef::tanh(u), div_(s, c), "tanh z = sinh z / cosh z"); break; } }
static QC qlog(QC p) { QC r; r.x = qf("log", norm_(p)) * (Q(1) / Q(2)); r.y = qf("atan2", p.y, p.x); return r; }
static QC qexp(QC p) { QC r; Q e = qf("exp", p.x); r.x = qf("cos", p.y) * e; r.y = qf("sin", p.y) * e; return r; }
VF_HARNESS(h_c_explog) { QC p = cin_("a", "b"), q = cin_("c", "d"); const C u = mkc(p), v = mkc(q); EF x; setv(x, q.x);
  switch (kase("fn", 0, 6)) {
    case 0: eqc(ef::exp(u), qexp(p), "exp z"); break;
    case 1: nonzero(p); eqc(ef::log(u), qlog(p), "log z = (log(norm)/2, arg)"); break;
    case 2: nonzero(p); vf_assume(sign(qf("log", Q(10))) > 0); eqc(ef::log10(u), scale(qlog(p), Q(1) / qf("log", Q(10))), "log10 z = log z / log 10"); break;
    case 3: nonzero(p); eqc(ef::pow(u, v), qexp(mul_(q, qlog(p))), "z^w = exp(w log z)"); break;
    case 4: nonzero(p); eqc(ef::pow(u, x), qexp(scale(qlog(p), q.x)), "z^x = exp(x log z)"); break;
    case 5: vf_assume(sign(q.x) > 0); eqc(ef::pow(x, u), qexp(scale(p, qf("log", q.x))), "x^z = exp(z log x)"); break;
    case 6: { EF t; setv(t, p.y); QC r; r.x = q.x * qf("cos", p.y); r.y = q.x * qf("sin", p.y); eqc(ef::polar(x, t), r, "polar"); break; } } }
VF_HARNESS(h_c_sqrt) { QC p = cin_("a", "b"); int sx = (int)kase("sign re", -1, 1), sy = (int)kase("sign im", -1, 1);
  if (sx == 0) p.x = Q(0); else vf_assume(sign(p.x) == sx);
  if (sy == 0) p.y = Q(0); else vf_assume(sign(p.y) == sy);
  const C u = mkc(p); const C w = ef::sqrt(u);
  QC r = qc(w); QC s = mul_(r, r);
  check(s.x == p.x, "sqrt(z)^2 = z (real part)"); check(s.y == p.y, "sqrt(z)^2 = z (imaginary part)");
  check(sign(r.x) >= 0, "sqrt(z) lies in the right half plane");
  check(sy == 0 ? sign(r.y) >= 0 : sign(r.y) * sy >= 0, "imaginary part of sqrt(z) has the sign of the imaginary part of z"); }
static void small_pow(QC p, const C& u, long n, const char* what) { QC r = real_(Q(1)); for (long i = 0; i < (n < 0 ? -n : n); ++i) r = mul_(r, p); if (n < 0) { nonzero(p); r = div_(real_(Q(1)), r); } eqc(ef::pow(u, (std::int64_t)n), r, what); }
VF_HARNESS(h_c_pow) { QC p = cin_("a", "b"); const C u = mkc(p); small_pow(p, u, kase("n", -4, 9), "z^n is the n-fold product"); }
// inverse functions over the contracts of complex log and sqrt (principal values, proved above)
extern "C" {
void vf_clog(C* r, const C* z) { QC p = qc(*z); new (r) C(); EF a, b; setv(a, qf("clog_re", p.x, p.y)); setv(b, qf("clog_im", p.x, p.y)); r->c__my_re = a; r->c__my_im = b; }
void vf_csqrt(C* r, const C* z) { QC p = qc(*z); new (r) C(); EF a, b; setv(a, qf("csqrt_re", p.x, p.y)); setv(b, qf("csqrt_im", p.x, p.y)); r->c__my_re = a; r->c__my_im = b; }
}
#ifdef VF_VERIFIER
static QC clog_(QC p) { QC r; r.x = qf("clog_re", p.x, p.y); r.y = qf("clog_im", p.x, p.y); return r; }
static QC csqrt_(QC p) { QC r; r.x = qf("csqrt_re", p.x, p.y); r.y = qf("csqrt_im", p.x, p.y); return r; }
#else
static QC clog_(QC p) { return qlog(p); }
static QC csqrt_(QC p) { QC r; Q a = qsqrt(norm_(p)); if (sign(a) == 0) return real_(Q(0)); Q ax = sign(p.x) < 0 ? -p.x : p.x; Q s = qsqrt((ax + a) * (Q(1) / Q(2)));
  if (sign(p.x) >= 0) { r.x = s; r.y = p.y / (s * Q(2)); } else { r.x = (sign(p.y) < 0 ? -p.y : p.y) / (s * Q(2)); r.y = sign(p.y) < 0 ? -s : s; } return r; }
#endif
static QC one_() { return real_(Q(1)); }
static QC iz_(QC p) { QC r; r.x = -p.y; r.y = p.x; return r; }
static QC asin_(QC p) { QC w = clog_(add_(iz_(p), csqrt_(sub_(one_(), mul_(p, p))))); QC r; r.x = w.y; r.y = -w.x; return r; }
VF_HARNESS(h_c_inverse) { QC p = cin_("a", "b"); nonzero(sub_(real_(Q(1)), mul_(p, p))); nonzero(add_(real_(Q(1)), mul_(p, p))); /* poles and branch points */ const C u = mkc(p); Q half = Q(1) / Q(2); QC i; i.x = Q(0); i.y = Q(1);
  switch (kase("fn", 0, 5)) {
    case 0: eqc(ef::asin(u), asin_(p), "asin z = -i log(iz + sqrt(1 - z^2))"); break;
    case 1: eqc(ef::acos(u), sub_(real_(qf("pi", Q(0)) * half), asin_(p)), "acos z = pi/2 - asin z"); break;
    case 2: eqc(ef::atan(u), mul_(scale(i, half), sub_(clog_(sub_(one_(), iz_(p))), clog_(add_(one_(), iz_(p))))), "atan z = i/2 (log(1 - iz) - log(1 + iz))"); break;
    case 3: eqc(ef::asinh(u), clog_(add_(p, csqrt_(add_(mul_(p, p), one_())))), "asinh z = log(z + sqrt(z^2 + 1))"); break;
    case 4: eqc(ef::acosh(u), clog_(add_(p, mul_(csqrt_(add_(p, one_())), csqrt_(sub_(p, one_()))))), "acosh z = log(z + sqrt(z + 1) sqrt(z - 1))"); break;
    case 5: eqc(ef::atanh(u), scale(sub_(clog_(add_(one_(), p)), clog_(sub_(one_(), p))), half), "atanh z = (log(1 + z) - log(1 - z)) / 2"); break; } }
