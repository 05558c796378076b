// mathematical constants and numeric_limits
#include "exact.h"
static const int PREC = 700;
static void rat(const char* name, const EF& v, long a, long b) { mpz_t x, y; mpz_init_set_si(x, a); mpz_init_set_si(y, b); verdict(close(v, x, y, 112), name); mpz_clears(x, y, nullptr); }
static void intc(const char* name, const EF& v, const char* dec) { mpz_t x; mpz_init_set_str(x, dec, 10); mpz_t m; mpz_init(m); std::int64_t e; bool ok = exact(v, m, e) && e > -400; if (ok) { mpz_t p; mpz_init(p); mpz_ui_pow_ui(p, 10, e < 0 ? -e : e); if (e < 0) mpz_mul(x, x, p); else mpz_mul(m, m, p); ok = mpz_cmp(m, x) == 0; mpz_clear(p); } verdict(ok, name); mpz_clears(x, m, nullptr); }
static void fr(const char* name, const EF& v, mpfr_t r, int digits = 110) { verdict(closef(v, r, digits), name); }
static void glaisher(mpfr_t A) { // ln A = (gamma + ln 2 pi)/12 - zeta'(2)/(2 pi^2), -zeta'(2) = sum ln k / k^2 by Euler-Maclaurin
  const int N = 150, J = 60; mpfr_t s, t, u, ln; mpfr_inits2(PREC, s, t, u, ln, (mpfr_ptr)0); mpfr_set_ui(s, 0, MPFR_RNDN);
  for (int k = 2; k < N; ++k) { mpfr_set_ui(t, k, MPFR_RNDN); mpfr_log(t, t, MPFR_RNDN); mpfr_div_ui(t, t, k * k, MPFR_RNDN); mpfr_add(s, s, t, MPFR_RNDN); }
  mpfr_set_ui(ln, N, MPFR_RNDN); mpfr_log(ln, ln, MPFR_RNDN);
  mpfr_add_ui(t, ln, 1, MPFR_RNDN); mpfr_div_ui(t, t, N, MPFR_RNDN); mpfr_add(s, s, t, MPFR_RNDN);
  mpfr_div_ui(t, ln, 2 * N * N, MPFR_RNDN); mpfr_add(s, s, t, MPFR_RNDN);
  // f^(m)(x) = (-1)^m (a_m ln x - b_m) / x^(m+2)
  mpq_t B[J + 1]; mpz_t T[J + 1], z; mpz_init(z); for (int i = 0; i <= J; ++i) { mpq_init(B[i]); mpz_init(T[i]); }
  mpz_set_ui(T[1], 1); for (int k = 2; k <= J; ++k) mpz_mul_ui(T[k], T[k - 1], k - 1);
  for (int k = 2; k <= J; ++k) for (int j = k; j <= J; ++j) { mpz_mul_ui(z, T[j - 1], j - k); mpz_mul_ui(T[j], T[j], j - k + 2); mpz_add(T[j], T[j], z); }
  for (int k = 1; k <= J; ++k) { mpz_mul_ui(mpq_numref(B[k]), T[k], 2 * k); if (k % 2 == 0) mpz_neg(mpq_numref(B[k]), mpq_numref(B[k])); mpz_ui_pow_ui(mpq_denref(B[k]), 4, k); mpz_sub_ui(z, mpq_denref(B[k]), 1); mpz_mul(mpq_denref(B[k]), mpq_denref(B[k]), z); mpq_canonicalize(B[k]); }
  mpfr_t a, b; mpfr_inits2(PREC, a, b, (mpfr_ptr)0); mpfr_set_ui(a, 1, MPFR_RNDN); mpfr_set_ui(b, 0, MPFR_RNDN);
  mpz_t fac; mpz_init_set_ui(fac, 1);
  for (int m = 1; m <= 2 * J - 1; ++m) { mpfr_mul_ui(b, b, m + 1, MPFR_RNDN); mpfr_add(b, b, a, MPFR_RNDN); mpfr_mul_ui(a, a, m + 1, MPFR_RNDN);
    if (m % 2) { int j = (m + 1) / 2; mpfr_mul(t, a, ln, MPFR_RNDN); mpfr_sub(t, t, b, MPFR_RNDN); mpfr_neg(t, t, MPFR_RNDN); mpfr_set_ui(u, N, MPFR_RNDN); mpfr_pow_ui(u, u, m + 2, MPFR_RNDN); mpfr_div(t, t, u, MPFR_RNDN);
      mpz_fac_ui(fac, 2 * j); mpfr_mul_q(t, t, B[j], MPFR_RNDN); mpfr_div_z(t, t, fac, MPFR_RNDN); mpfr_sub(s, s, t, MPFR_RNDN); } }
  mpfr_const_pi(t, MPFR_RNDN); mpfr_mul_ui(u, t, 2, MPFR_RNDN); mpfr_log(u, u, MPFR_RNDN); mpfr_const_euler(a, MPFR_RNDN); mpfr_add(a, a, u, MPFR_RNDN); mpfr_div_ui(a, a, 12, MPFR_RNDN);
  mpfr_sqr(t, t, MPFR_RNDN); mpfr_mul_ui(t, t, 2, MPFR_RNDN); mpfr_div(s, s, t, MPFR_RNDN); mpfr_add(a, a, s, MPFR_RNDN); mpfr_exp(A, a, MPFR_RNDN); }
static void khinchin(mpfr_t K) { // ln K = (1/ln 2) sum (zeta(2n) - 1)/n * sum_{k=1}^{2n-1} (-1)^(k+1)/k
  mpfr_t s, t, h, u; mpfr_inits2(PREC, s, t, h, u, (mpfr_ptr)0); mpfr_set_ui(s, 0, MPFR_RNDN); mpfr_set_ui(h, 0, MPFR_RNDN);
  for (unsigned n = 1; n < 260; ++n) { if (n > 1) { mpfr_set_ui(u, 1, MPFR_RNDN); mpfr_div_ui(u, u, 2 * n - 2, MPFR_RNDN); mpfr_sub(h, h, u, MPFR_RNDN); } mpfr_set_ui(u, 1, MPFR_RNDN); mpfr_div_ui(u, u, 2 * n - 1, MPFR_RNDN); mpfr_add(h, h, u, MPFR_RNDN);
    mpfr_zeta_ui(t, 2 * n, MPFR_RNDN); mpfr_sub_ui(t, t, 1, MPFR_RNDN); mpfr_div_ui(t, t, n, MPFR_RNDN); mpfr_mul(t, t, h, MPFR_RNDN); mpfr_add(s, s, t, MPFR_RNDN); }
  mpfr_const_log2(t, MPFR_RNDN); mpfr_div(s, s, t, MPFR_RNDN); mpfr_exp(K, s, MPFR_RNDN); }
typedef std::numeric_limits<e_float> L;
int main() {
  mpfr_t r, t; mpfr_inits2(PREC, r, t, (mpfr_ptr)0);
  intc("zero", ef::zero(), "0"); intc("one", ef::one(), "1"); intc("two", ef::two(), "2"); intc("three", ef::three(), "3"); intc("four", ef::four(), "4"); intc("five", ef::five(), "5"); intc("six", ef::six(), "6"); intc("seven", ef::seven(), "7"); intc("eight", ef::eight(), "8"); intc("nine", ef::nine(), "9"); intc("ten", ef::ten(), "10");
  intc("fifty", ef::fifty(), "50"); intc("hundred", ef::hundred(), "100"); intc("thousand", ef::thousand(), "1000"); intc("million", ef::million(), "1000000"); intc("billion", ef::billion(), "1000000000"); intc("trillion", ef::trillion(), "1000000000000"); intc("googol", ef::googol(), ("1" + std::string(100, '0')).c_str()); intc("one_minus", ef::one_minus(), "-1");
  intc("int32_min", ef::int32_min(), "-2147483648"); intc("int32_max", ef::int32_max(), "2147483647"); intc("int64_min", ef::int64_min(), "-9223372036854775808"); intc("int64_max", ef::int64_max(), "9223372036854775807");
  intc("signed_long_long_min", ef::signed_long_long_min(), "-9223372036854775808"); intc("signed_long_long_max", ef::signed_long_long_max(), "9223372036854775807"); intc("unsigned_long_long_max", ef::unsigned_long_long_max(), "18446744073709551615");
  rat("half", ef::half(), 1, 2); rat("tenth", ef::tenth(), 1, 10); rat("eighth", ef::eighth(), 1, 8); rat("fifth", ef::fifth(), 1, 5); rat("quarter", ef::quarter(), 1, 4); rat("third", ef::third(), 1, 3); rat("two_third", ef::two_third(), 2, 3); rat("three_half", ef::three_half(), 3, 2);
  mpfr_set_d(r, std::numeric_limits<double>::max(), MPFR_RNDN); fr("double_max", ef::double_max(), r, 100); mpfr_set_d(r, std::numeric_limits<double>::min(), MPFR_RNDN); fr("double_min", ef::double_min(), r, 100);
  mpfr_set_ld(r, std::numeric_limits<long double>::max(), MPFR_RNDN); fr("long_double_max", ef::long_double_max(), r, 100); mpfr_set_ld(r, std::numeric_limits<long double>::min(), MPFR_RNDN); fr("long_double_min", ef::long_double_min(), r, 100);
  mpfr_sqrt_ui(r, 2, MPFR_RNDN); fr("sqrt2", ef::sqrt2(), r);
  mpfr_const_pi(r, MPFR_RNDN); fr("pi", ef::pi(), r); mpfr_div_ui(t, r, 2, MPFR_RNDN); fr("pi_half", ef::pi_half(), t); mpfr_mul_ui(t, r, 2, MPFR_RNDN); fr("two_pi", ef::two_pi(), t); mpfr_sqr(t, r, MPFR_RNDN); fr("pi_squared", ef::pi_squared(), t); mpfr_sqrt(t, r, MPFR_RNDN); fr("sqrt_pi", ef::sqrt_pi(), t);
  mpfr_set_ui(t, 1, MPFR_RNDN); mpfr_exp(r, t, MPFR_RNDN); fr("e", ef::e(), r); mpfr_const_log2(r, MPFR_RNDN); fr("ln2", ef::ln2(), r); mpfr_log_ui(r, 10, MPFR_RNDN); fr("ln10", ef::ln10(), r);
  mpfr_const_euler(r, MPFR_RNDN); fr("euler_gamma", ef::euler_gamma(), r); mpfr_const_catalan(r, MPFR_RNDN); fr("catalan", ef::catalan(), r);
  glaisher(r); fr("glaisher", ef::glaisher(), r); khinchin(r); fr("khinchin", ef::khinchin(), r);
  mpfr_sqrt_ui(r, 5, MPFR_RNDN); mpfr_add_ui(r, r, 1, MPFR_RNDN); mpfr_div_ui(r, r, 2, MPFR_RNDN); fr("phi", ef::phi(), r);
  // numeric_limits
  verdict(L::is_specialized && L::is_signed && !L::is_integer && !L::is_exact && L::is_bounded && !L::is_modulo && L::has_infinity && L::has_quiet_NaN, "numeric_limits flags");
  verdict(L::radix == 10, "radix"); verdict(L::digits10 == 101 && L::digits >= L::digits10, "digits10"); verdict(L::max_digits10 > L::digits10, "max_digits10");
  verdict(L::max_exponent10 > 2000000000 && L::min_exponent10 < -2000000000 && L::max_exponent == L::max_exponent10 && L::min_exponent == L::min_exponent10, "exponent range");
  const EF mx = (L::max)(), mn = (L::min)(), ep = L::epsilon(), inf = L::infinity(), nan = L::quiet_NaN();
  verdict(mx.isfinite() && !mx.isneg() && mx.order() == L::max_exponent10, "max() is finite"); verdict(ef::isinf(mx * 2) && !ef::isinf(mx * ef::half()), "twice max() is infinite");
  { bool nines = true; for (int i = 0; i < 8; ++i) nines = nines && mx.my_data.data()[i + 1] == 99999999u; verdict(nines && mx.my_data.data()[0] == 9u, "max() is all nines"); }
  verdict(mn.isfinite() && !mn.isneg() && !mn.iszero() && mn.order() == L::min_exponent10, "min() is positive"); mpz_t m; mpz_init(m); std::int64_t e; exact(mn, m, e); { while (mpz_divisible_ui_p(m, 10)) { mpz_divexact_ui(m, m, 10); ++e; } verdict(mpz_cmp_ui(m, 1) == 0 && e == L::min_exponent10, "min() is a power of ten"); }
  exact(ep, m, e); while (mpz_sgn(m) > 0 && mpz_divisible_ui_p(m, 10)) { mpz_divexact_ui(m, m, 10); ++e; } verdict(mpz_cmp_ui(m, 1) == 0 && e <= 1 - L::digits10 && e >= -112, "epsilon() is a power of ten at the last digit");
  verdict(ef::one() + ep > ef::one() && ef::one() - ep < ef::one() && (ef::one() + ep) - ef::one() == ep, "1 + epsilon() > 1");
  verdict(L::lowest() == -mx && L::lowest().isneg() && L::lowest() < -ef::googol(), "lowest() is -max()");
  verdict(ef::isinf(inf) && !inf.isneg() && inf > mx, "infinity()"); verdict(ef::isnan(nan) && nan != nan, "quiet_NaN()"); verdict(L::round_error() == ef::half(), "round_error()"); verdict(L::denorm_min().iszero() || !L::denorm_min().isneg(), "denorm_min()");
  return done();
}
