// GMP and MPFR back ends: every combination of classes, and patterned and seeded finite operands, against exact oracles
#include "backend.h"
static std::uint64_t rs = 1; static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((rs >> 33) % n); }
static std::uint64_t rnd64() { return ((std::uint64_t)rnd(1u << 31) << 33) ^ ((std::uint64_t)rnd(1u << 31) << 11) ^ rnd(1u << 20); }
static bool deep = false;
static std::string digs(int n, int kind) { std::string s; for (int i = 0; i < n; ++i) s += kind == 0 ? (char)('0' + rnd(10)) : kind == 1 ? '9' : '0'; return s; }
static EF num() { std::string s = rnd(2) ? "-" : ""; switch (rnd(8)) {
    case 0: s += std::to_string(rnd(1000)); break; case 1: s += std::to_string(rnd64()); break; case 2: s += std::to_string(rnd(100)) + "." + digs(1 + rnd(100), rnd(2)); break;
    case 3: s += "1." + digs(1 + rnd(100), 2) + "7"; break; case 4: s += digs(1 + rnd(99), 0) + "." + digs(rnd(60), 0) + "5"; break; case 5: s += "0." + digs(rnd(30), 2) + digs(70, 0); break;
    case 6: s += "1." + digs(90, 0) + "e" + std::to_string((int)rnd(4000) - 2000); break; default: s += digs(1 + rnd(30), 1) + "." + digs(rnd(70), 1); } 
  s += s.find_first_of("0123456789") == std::string::npos ? "1" : ""; return EF(s); }
static EF special(int k) { const EF inf = std::numeric_limits<e_float>::infinity(); return k == 0 ? inf : k == 1 ? -inf : k == 2 ? std::numeric_limits<e_float>::quiet_NaN() : k == 3 ? EF(0) : k == 4 ? EF(1) : k == 5 ? EF(-1) : k == 6 ? EF(7) : EF(-3) / 2; }
static R op(int o, const R& a, const R& b) { if (o == 3 && o_zero_p(b.v) && o_regular_p(a.v)) { R r; o_set_inf(r.v, o_sgn(a.v)); return r; } return o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; }
static void one(const EF& a, const EF& b, int digits) {
  static const char* n[] = {" + ", " - ", " * ", " / "}; R ra = from(a), rb = from(b);
  for (int o = 0; o < 4; ++o) { EF r = o == 0 ? a + b : o == 1 ? a - b : o == 2 ? a * b : a / b; R want = op(o, ra, rb); bool ok;
    if (o < 2 && o_number_p(want.v)) { R d = from(r) - want, s = o_cmpabs(ra.v, rb.v) > 0 ? ra : rb; ok = o_number_p(d.v) && near(s + d, s, digits); } else ok = near(from(r), want, digits);
    verdict(ok, str(ra) + n[o] + str(rb) + " is " + str(from(r))); EF t(a), u(b); switch (o) { case 0: t += b; break; case 1: t -= b; break; case 2: t *= b; break; default: t /= b; } verdict(near(from(t), from(r), 200), "compound assignment equals the operator for " + str(ra) + n[o] + str(rb)); verdict(near(from(u), rb, 125), "the right operand is unchanged"); }
  bool un = o_unordered_p(ra.v, rb.v) != 0; int c = un ? 0 : o_cmp(ra.v, rb.v);
  verdict((a == b) == (!un && c == 0) && (a != b) == (un || c != 0) && (un || ((a < b) == (c < 0) && (a > b) == (c > 0) && (a <= b) == (c <= 0) && (a >= b) == (c >= 0))), "comparison of " + str(ra) + " with " + str(rb)); }
static void self(const EF& a) { R ra = from(a); EF t(a); t += t; verdict(near(from(t), ra + ra, 100), "x += x for " + str(ra)); t = a; t -= t; verdict(near(from(t), ra - ra, 100), "x -= x for " + str(ra)); t = a; t *= t; verdict(near(from(t), ra * ra, 100), "x *= x for " + str(ra)); t = a; t /= t; verdict(near(from(t), op(3, ra, ra), 100), "x /= x for " + str(ra));
  t = a; EF& tr = t; t = tr; verdict(near(from(t), ra, 125), "x = x"); t = std::move(tr); verdict(near(from(t), ra, 125), "x = move(x)"); EF u(std::move(t)); verdict(near(from(u), ra, 125), "moved value"); t = EF(5); verdict(t == EF(5), "assignment to a moved-from object"); EF w(3); std::swap(u, w); verdict(near(from(w), ra, 125) && u == EF(3), "swap"); w.swap(u); verdict(near(from(u), ra, 125) && w == EF(3), "member swap");
  R m; o_neg(m.v, ra.v); verdict(near(from(-a), m, 125), "-x for " + str(ra)); o_abs(m.v, ra.v); verdict(near(from(ef::fabs(a)), m, 125), "fabs of " + str(ra));
  verdict(ef::isnan(a) == (o_nan_p(ra.v) != 0) && ef::isinf(a) == (o_inf_p(ra.v) != 0) && ef::isfinite(a) == (o_number_p(ra.v) != 0) && ef::iszero(a) == (o_zero_p(ra.v) != 0) && (o_nan_p(ra.v) || ef::isneg(a) == (o_sgn(ra.v) < 0)), "predicates of " + str(ra));
  verdict(ef::isint(a) == (o_integer_p(ra.v) != 0), "isint of " + str(ra)); verdict(ef::isone(a) == (o_number_p(ra.v) && o_cmp_si(ra.v, 1) == 0), "isone of " + str(ra));
  if (o_nan_p(ra.v) || o_sgn(ra.v) < 0) verdict(ef::isnan(ef::sqrt(a)), "sqrt of " + str(ra)); else { R q; o_sqrt(q.v, ra.v); verdict(near(from(ef::sqrt(a)), q, 100), "sqrt of " + str(ra)); } }
static void ints(const EF& a, long long n) { R ra = from(a), rn((long)n), ru; o_set_ui(ru.v, (unsigned long)n); const std::string w = " for " + str(ra) + " and " + std::to_string(n); unsigned long long u = (unsigned long long)n; EF t;
  auto s = [&](const char* what, const EF& got, const R& want, const R& big) { bool ok; if (o_number_p(want.v) && o_number_p(big.v)) { R d = from(got) - want; ok = o_number_p(d.v) && near(big + d, big, 100); } else ok = near(from(got), want, 100); verdict(ok, what + w + ": " + str(from(got))); };
  const R& bg = o_number_p(ra.v) && o_cmpabs(ra.v, rn.v) > 0 ? ra : rn; const R& bu = o_number_p(ra.v) && o_cmpabs(ra.v, ru.v) > 0 ? ra : ru;
  t = a; t += n; s("x += n", t, ra + rn, bg); t = a; t -= n; s("x -= n", t, ra - rn, bg); t = a; t *= n; s("x *= n", t, ra * rn, ra * rn); t = a; t /= n; s("x /= n", t, op(3, ra, rn), op(3, ra, rn));
  t = a; t += u; s("x += u", t, ra + ru, bu); t = a; t -= u; s("x -= u", t, ra - ru, bu); t = a; t *= u; s("x *= u", t, ra * ru, ra * ru); t = a; t /= u; s("x /= u", t, op(3, ra, ru), op(3, ra, ru));
  s("n - x", n - a, rn - ra, bg); s("n / x", n / a, op(3, rn, ra), op(3, rn, ra));
  verdict(o_cmp(from(EF(n)).v, rn.v) == 0 && o_cmp(from(EF(u)).v, ru.v) == 0, "construction from " + std::to_string(n)); verdict(EF(n).extract_signed_long_long() == n, "round trip of " + std::to_string(n)); verdict(EF(u).extract_unsigned_long_long() == u, "round trip of the unsigned " + std::to_string(u));
  verdict(ef::to_int64(EF(n)) == n, "to_int64 of " + std::to_string(n)); }
static void conv(const EF& a) { R ra = from(a), t; if (!o_number_p(ra.v)) return; o_trunc(t.v, ra.v); const std::string w = " of " + str(ra); if (o_get_exp(ra.v) < 300) {
    verdict(near(from(a.extract_integer_part()), t, 900), "integer part" + w); verdict(near(from(a.extract_decimal_part()), ra - t, 900), "decimal part" + w); EF fl = ef::floor(a), ce = ef::ceil(a); R g; o_floor(g.v, ra.v); verdict(near(from(fl), g, 100), "floor" + w); o_ceil(g.v, ra.v); verdict(near(from(ce), g, 100), "ceil" + w); }
  long long want = o_cmp_si(t.v, LLONG_MAX) > 0 ? LLONG_MAX : o_cmp_si(t.v, LLONG_MIN) < 0 ? LLONG_MIN : o_get_si(t.v); long long got = a.extract_signed_long_long(); verdict(got == want || (want == LLONG_MIN && got == -LLONG_MAX && o_cmp_si(t.v, LLONG_MIN) < 0), "conversion to a 64-bit integer" + w + ": " + std::to_string(got));
  if (o_sgn(ra.v) >= 0) { unsigned long long wu = o_cmp_ui(t.v, ULLONG_MAX) > 0 ? ULLONG_MAX : o_get_ui(t.v), gu = a.extract_unsigned_long_long(); verdict(wu == gu, "conversion to an unsigned 64-bit integer" + w + ": " + std::to_string(gu)); }
  double d = ef::to_double(a); R rd; o_set_d(rd.v, d); long ex = o_zero_p(ra.v) ? 0 : o_get_exp(ra.v); if (ex > 1030) verdict(std::isinf(d) && (d < 0) == (o_sgn(ra.v) < 0), "to_double" + w); else if (ex > -1000 && ex < 1020) verdict(near(rd, ra, 15), "to_double" + w);
  if (!o_zero_p(ra.v) && ex > -900 && ex < 900) { double m; std::int64_t e; a.extract_parts(m, e); R rm; o_set_d(rm.v, m); R p(10); o_pow_si(p.v, p.v, e); verdict(near(rm * p, ra, 12), "extract_parts" + w); std::int64_t o = a.order(); R l; R aa; o_abs(aa.v, ra.v); o_log10(l.v, aa.v); o_floor(l.v, l.v); verdict(std::llabs(o - o_get_si(l.v)) <= 1, "order" + w + ": " + std::to_string(o)); } }
static void dbl(double d) { EF x(d); R r; o_set_d(r.v, d); verdict(near(from(x), r, 100) && (std::isnan(d) || std::isinf(d) || o_zero_p(r.v) || o_cmp(from(x).v, r.v) == 0), "construction from a double " + str(r)); verdict(std::isnan(d) ? std::isnan(ef::to_double(x)) : ef::to_double(x) == d || std::fabs(d) < 1e-306, "double round trip " + str(r)); }
int main(int argc, char** argv) { deep = argc > 1 && argv[1][0] == 't'; rs = 0x9E3779B97F4A7C15ull * ((argc > 2 ? std::atoi(argv[2]) : 1) + 1); EF warm(1); (void)warm;
  for (int i = 0; i < 8; ++i) { self(special(i)); conv(special(i)); for (int j = 0; j < 8; ++j) one(special(i), special(j), 100); for (int k = 0; k < 20; ++k) { EF x = num(); one(special(i), x, 100); one(x, special(i), 100); } for (long long n : {0LL, 1LL, -1LL, 2LL, 1000000007LL, -99999999999LL, LLONG_MAX, LLONG_MIN, LLONG_MIN + 1}) ints(special(i), n); }
  const int N = deep ? 200000 : 6000; for (int k = 0; k < N; ++k) { EF a = num(), b = rnd(8) ? num() : a; if (rnd(10) == 0) b.negate(); if (rnd(10) == 0) b += a / 1000000007; one(a, b, 100); if (k % 3 == 0) { self(a); conv(a); ints(a, (long long)(rnd64() >> rnd(64)) * (rnd(2) ? 1 : -1)); } }
  for (int k = 0; k < (deep ? 40000 : 3000); ++k) { std::uint64_t u = rnd64() >> rnd(64); for (int d = -2; d <= 2; ++d) { EF x = EF(u) + EF(d) / (rnd(2) ? 4 : 1); if (rnd(3) == 0) x += EF("1e-75") * ((int)rnd(3) - 1); if (rnd(2)) x.negate(); conv(x); } }
  for (const char* p : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "9223372036854775806.9999999999999999999999999999999999999999999999999999999999999999999999999", "18446744073709551615", "18446744073709551616", "18446744073709551615.5", "18446744073709551614.99999999999999999999999999999999999999999999999999999999999999999999", "4.99999999999999999999999999999999999999999999999999999999999999999999999999999999", "0.99999999999999999999999999999999999999999999999999999999999999999999999999999999", "1e40", "-1e40"}) conv(EF(p));
  for (int k = 0; k < (deep ? 100000 : 5000); ++k) { std::uint64_t u = rnd64(); double d; std::memcpy(&d, &u, 8); dbl(d); dbl((double)(long long)(rnd64() >> rnd(64))); dbl((rnd(2000) - 1000.0) / 8); } dbl(0); dbl(1); dbl(INFINITY); dbl(-INFINITY); dbl(NAN); dbl(DBL_MAX); dbl(-DBL_MAX);
  verdict(ef::isfinite((std::numeric_limits<e_float>::max)()) && ef::isfinite((std::numeric_limits<e_float>::min)()) && (std::numeric_limits<e_float>::min)() > 0 && ef::isinf((std::numeric_limits<e_float>::max)() * 2) && std::numeric_limits<e_float>::lowest() == -(std::numeric_limits<e_float>::max)(), "numeric_limits");
  return done(); }
