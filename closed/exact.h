// exact values of e_float objects of the default backend, for comparison with GMP/MPFR oracles
#ifndef EXACT_H
#define EXACT_H
#include <algorithm>
#include <array>
#include <cmath>
#include <complex>
#include <cstdint>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <vector>
#include <gmp.h>
#include <mpfr.h>
#define private public
#define protected public
#include <e_float/e_float.h>
#undef private
#undef protected
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
#include <cstdio>
typedef efx::e_float EF;
static long n_ok = 0, n_bad = 0;
static void verdict(bool ok, const std::string& what) { if (ok) ++n_ok; else { ++n_bad; if (n_bad <= 60) std::printf("BAD %s\n", what.c_str()); } }
static int done() { std::printf("COUNT %ld BAD %ld\n", n_ok + n_bad, n_bad); return n_bad ? 1 : 0; }
// x = m * 10^e exactly
static bool exact(const EF& x, mpz_t m, std::int64_t& e) {
  if (!x.isfinite()) return false;
  mpz_set_ui(m, 0); for (int i = 0; i < EF::ef_elem_number; ++i) { mpz_mul_ui(m, m, 100000000); mpz_add_ui(m, m, x.my_data.data()[i]); }
  if (x.my_neg) mpz_neg(m, m); e = x.my_exp - 8 * (EF::ef_elem_number - 1); return true; }
// |x - num/den| * 10^digits <= |num/den|
static bool close(const EF& x, const mpz_t num, const mpz_t den, unsigned digits) {
  mpz_t m, p, a, b; std::int64_t e; mpz_inits(m, p, a, b, nullptr); bool r = false;
  if (exact(x, m, e) && e > -100000 && e < 100000) { mpz_set(b, num); mpz_mul(a, m, den); if (e >= 0) { mpz_ui_pow_ui(p, 10, e); mpz_mul(a, a, p); } else { mpz_ui_pow_ui(p, 10, -e); mpz_mul(b, b, p); }
    mpz_sub(a, a, b); mpz_abs(a, a); mpz_abs(b, b); mpz_ui_pow_ui(p, 10, digits); mpz_mul(a, a, p); r = mpz_cmp(a, b) <= 0; if (mpz_sgn(num) == 0) r = mpz_sgn(m) == 0; }
  mpz_clears(m, p, a, b, nullptr); return r; }
static bool closez(const EF& x, const mpz_t num, unsigned digits) { mpz_t one; mpz_init_set_ui(one, 1); bool r = close(x, num, one, digits); mpz_clear(one); return r; }
static void tofr(mpfr_t r, const EF& x) { mpz_t m; mpz_init(m); std::int64_t e; exact(x, m, e); mpfr_t t; mpfr_init2(t, 1200); mpfr_set_z(r, m, MPFR_RNDN); mpz_ui_pow_ui(m, 10, e < 0 ? -e : e); mpfr_set_z(t, m, MPFR_RNDN); if (e < 0) mpfr_div(r, r, t, MPFR_RNDN); else mpfr_mul(r, r, t, MPFR_RNDN); mpfr_clear(t); mpz_clear(m); }
static bool closef(const EF& x, const mpfr_t v, int digits) { if (!x.isfinite()) return false; if (mpfr_zero_p(v)) return x.iszero(); mpfr_t t, d; mpfr_init2(t, 1200); mpfr_init2(d, 1200); tofr(t, x); mpfr_sub(t, t, v, MPFR_RNDN); mpfr_div(t, t, v, MPFR_RNDN); mpfr_abs(t, t, MPFR_RNDN);
  mpfr_set_si(d, -digits, MPFR_RNDN); mpfr_exp10(d, d, MPFR_RNDN); bool r = mpfr_cmp(t, d) <= 0; mpfr_clear(t); mpfr_clear(d); return r; }
#endif
