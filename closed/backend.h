// the value of an e_float of the GMP or MPFR back end, exactly
#ifndef EXACTB_H
#define EXACTB_H
#include <algorithm>
#include <array>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <vector>
#include "backend_oracle.h"
#define private public
#define protected public
#include <e_float/e_float.h>
#undef private
#undef protected
#include <e_float/e_float_functions.h>
#include <e_float/e_float_functions_complex.h>
typedef e_float EF;
static long n_ok = 0, n_bad = 0;
static void verdict(bool ok, const std::string& what) { if (ok) ++n_ok; else { ++n_bad; if (n_bad <= 60) std::printf("BAD %s\n", what.c_str()); } }
static int done() { std::printf("COUNT %ld BAD %ld\n", n_ok + n_bad, n_bad); return n_bad ? 1 : 0; }
enum { P = 3000 };
struct R { void* v; R() : v(o_new(P)) { o_set_zero(v, 1); } R(long n) : v(o_new(P)) { o_set_si(v, n); } R(const R& o) : v(o_new(P)) { o_set(v, o.v); } R& operator=(const R& o) { o_set(v, o.v); return *this; } ~R() { o_delete(v); } };
static R operator+(const R& a, const R& b) { R r; o_add(r.v, a.v, b.v); return r; } static R operator-(const R& a, const R& b) { R r; o_sub(r.v, a.v, b.v); return r; }
static R operator*(const R& a, const R& b) { R r; o_mul(r.v, a.v, b.v); return r; } static R operator/(const R& a, const R& b) { R r; o_div(r.v, a.v, b.v); return r; }
// the library sets the exponent range of MPFR; the oracle works in the widest one
static R from(const EF& x) { R r; if (x.isnan()) { o_set_nan(r.v); return r; } if (x.isinf()) { o_set_inf(r.v, x.isneg() ? -1 : 1); return r; }
#if defined(E_FLOAT_TYPE_GMP)
  o_set_mpf(r.v, &x.my_rop[0]);
#else
  o_set_mpfr(r.v, &x.my_rop[0]);
#endif
  return r; }
static std::string str(const R& r) { char b[200]; o_str(b, 200, r.v); return b; }
// |a - b| <= 10^-digits |b|
static bool near(const R& a, const R& b, int digits) { if (o_nan_p(b.v)) return o_nan_p(a.v); if (o_inf_p(b.v)) return o_inf_p(a.v) && o_sgn(a.v) == o_sgn(b.v); if (!o_number_p(a.v)) return false; if (o_zero_p(b.v)) return o_zero_p(a.v); R d = a - b, t; o_abs(d.v, d.v); o_set_si(t.v, -digits); o_exp10(t.v, t.v); t = t * b; o_abs(t.v, t.v); return o_cmp(d.v, t.v) <= 0; }
#endif
