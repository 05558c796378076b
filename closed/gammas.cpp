// gamma, pochhammer, binomial and zeta functions against MPFR (real) and an independent Stirling / Euler-Maclaurin evaluation (complex)
#include "exact.h"
#include <vector>
static std::uint64_t rs = 1; static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((rs >> 33) % n); }
static bool deep = false; enum { P = 1300 };
struct R { mpfr_t v; R() { mpfr_init2(v, P); mpfr_set_zero(v, 1); } R(long n) { mpfr_init2(v, P); mpfr_set_si(v, n, MPFR_RNDN); } R(const R& o) { mpfr_init2(v, P); mpfr_set(v, o.v, MPFR_RNDN); } R& operator=(const R& o) { mpfr_set(v, o.v, MPFR_RNDN); return *this; } ~R() { mpfr_clear(v); } };
static R operator+(const R& a, const R& b) { R r; mpfr_add(r.v, a.v, b.v, MPFR_RNDN); return r; } static R operator-(const R& a, const R& b) { R r; mpfr_sub(r.v, a.v, b.v, MPFR_RNDN); return r; }
static R operator*(const R& a, const R& b) { R r; mpfr_mul(r.v, a.v, b.v, MPFR_RNDN); return r; } static R operator/(const R& a, const R& b) { R r; mpfr_div(r.v, a.v, b.v, MPFR_RNDN); return r; } static R neg(const R& a) { R r; mpfr_neg(r.v, a.v, MPFR_RNDN); return r; }
static R from(const EF& x) { R r; tofr(r.v, x); return r; }
struct C { R a, b; C() {} C(const R& x) : a(x) {} C(const R& x, const R& y) : a(x), b(y) {} C(long n) : a(n) {} };
static C operator+(const C& x, const C& y) { return C(x.a + y.a, x.b + y.b); } static C operator-(const C& x, const C& y) { return C(x.a - y.a, x.b - y.b); } static C operator*(const C& x, const C& y) { return C(x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a); }
static C operator/(const C& x, const C& y) { R d = y.a * y.a + y.b * y.b; return C((x.a * y.a + x.b * y.b) / d, (x.b * y.a - x.a * y.b) / d); }
static C cexp(const C& z) { R e, s, c; mpfr_exp(e.v, z.a.v, MPFR_RNDN); mpfr_sin_cos(s.v, c.v, z.b.v, MPFR_RNDN); return C(e * c, e * s); }
static C clog(const C& z) { R h, l, t; mpfr_hypot(h.v, z.a.v, z.b.v, MPFR_RNDN); mpfr_log(l.v, h.v, MPFR_RNDN); mpfr_atan2(t.v, z.b.v, z.a.v, MPFR_RNDN); return C(l, t); }
static R Pi() { R r; mpfr_const_pi(r.v, MPFR_RNDN); return r; }
static C csin(const C& z) { C i(R(0), R(1)); C e = cexp(i * z), f = cexp(C(0) - i * z); return (e - f) / C(R(0), R(2)); }
static C cpow(const R& b, const C& s) { R l; mpfr_log(l.v, b.v, MPFR_RNDN); return cexp(s * C(l)); }
static std::vector<R> B; // B[k] = Bernoulli number of index 2k
static void bern(unsigned n) { for (unsigned k = 0; k <= n; ++k) { R r; if (k == 0) { B.push_back(R(1)); continue; } R z, f, t; mpfr_zeta_ui(z.v, 2 * k, MPFR_RNDN); mpfr_fac_ui(f.v, 2 * k, MPFR_RNDN); R tp = Pi() * R(2); mpfr_pow_ui(t.v, tp.v, 2 * k, MPFR_RNDN); r = R(2) * z * f / t; B.push_back(k & 1 ? r : neg(r)); } }
static C cgamma(const C& z0) {
  if (mpfr_sgn(z0.a.v) < 0) { C pz = C(Pi()) * z0; return C(Pi()) / (csin(pz) * cgamma(C(1) - z0)); }
  const long N = 160; C z = z0, den(1); while (mpfr_cmp_si(z.a.v, N) < 0) { den = den * z; z = z + C(1); }
  R l2, tp = Pi() * R(2); mpfr_log(l2.v, tp.v, MPFR_RNDN); R half = R(1) / R(2); C s = (z - C(half)) * clog(z) - z + C(l2 * half), iz = C(1) / z, iz2 = iz * iz, p = iz;
  for (unsigned k = 1; k <= 150; ++k) { s = s + C(B[k] / R(2L * k * (2L * k - 1))) * p; p = p * iz2; }
  return cexp(s) / den; }
static C czeta(const C& s) { // Euler-Maclaurin
  const long N = 200; C sum(0); for (long k = 1; k < N; ++k) sum = sum + C(1) / cpow(R(k), s);
  C ns = C(1) / cpow(R(N), s); sum = sum + ns * C(N) / (s - C(1)) + ns / C(2); C t = s * ns / C(N), n2 = C(N) * C(N); R f(2);
  for (unsigned k = 1; k <= 150; ++k) { sum = sum + C(B[k] / f) * t; t = t * (s + C(2L * k - 1)) * (s + C(2L * k)) / n2; f = f * R((2L * k + 1) * (2L * k + 2)); }
  return sum; }
static bool nearc(const ef::complex<e_float>& x, const C& v, int digits) { if (!x.real().isfinite() || !x.imag().isfinite()) return false; C d = C(from(x.real()), from(x.imag())) - v; R h, m, t; mpfr_hypot(h.v, d.a.v, d.b.v, MPFR_RNDN); mpfr_hypot(m.v, v.a.v, v.b.v, MPFR_RNDN); mpfr_set_si(t.v, -digits, MPFR_RNDN); mpfr_exp10(t.v, t.v, MPFR_RNDN); m = m * t; return mpfr_cmp(h.v, m.v) <= 0; }
static std::string str(const EF& x) { std::ostringstream s; s.precision(103); s << x; return s.str(); }
static double worst = 1e9;
static void same(const char* f, const std::string& arg, const EF& got, const R& want, int digits) { bool ok; if (mpfr_nan_p(want.v)) ok = got.isnan(); else if (mpfr_inf_p(want.v)) ok = got.isinf() && got.isneg() == (mpfr_sgn(want.v) < 0); else if (mpfr_zero_p(want.v)) ok = got.iszero(); else ok = closef(got, want.v, digits);
  verdict(ok, std::string(f) + "(" + arg + ") is " + str(got)); }
static EF num(int kind) { std::string s; int n = 1 + rnd(40); for (int i = 0; i < n; ++i) s += (char)('0' + rnd(10)); switch (kind) { case 0: return EF(("0." + s).c_str()); case 1: return EF((std::to_string(rnd(300)) + "." + s).c_str()); case 2: return EF((std::to_string(rnd(20000)) + "." + s).c_str()); case 3: return EF(("0." + s + "1e-" + std::to_string(rnd(120))).c_str()); case 4: return EF((int)rnd(2000)) + EF(1) / 2; default: return EF((std::to_string(230 + rnd(20)) + "." + s).c_str()); } }
static R rgamma(const R& x) { R r; mpfr_gamma(r.v, x.v, MPFR_RNDN); return r; }
static void gammas() {
  const EF inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN();
  verdict(ef::isinf(ef::gamma(inf)) && !ef::isneg(ef::gamma(inf)), "gamma(inf)"); verdict(ef::isnan(ef::gamma(-inf)), "gamma(-inf)"); verdict(ef::isnan(ef::gamma(nan)), "gamma(NaN)");
  for (unsigned n : {0u, 1u, 2u, 49u, 50u, 51u, 200u}) verdict(ef::pochhammer(EF(0), n) == (n ? EF(0) : EF(1)), "pochhammer(0, " + std::to_string(n) + ")");
  for (int n = -60; n <= 0; ++n) verdict(ef::isnan(ef::gamma(EF(n))), "gamma at the pole " + std::to_string(n));
  for (const char* p : {"-1000000", "-1000001", "-4294967296", "-18446744073709551616", "-1e30"}) verdict(ef::isnan(ef::gamma(EF(p))), std::string("gamma at the pole ") + p);
  for (int n = 1; n <= (deep ? 3000 : 1200); ++n) { EF x(n); same("gamma", str(x), ef::gamma(x), rgamma(R(n)), 100); }
  for (int k = 0; k < (deep ? 4000 : 300); ++k) for (int kind = 0; kind < 6; ++kind) for (int neg = 0; neg < 2; ++neg) { EF x = num(kind); if (neg) x.negate(); if (ef::isint(x)) continue; R rx = from(x); if (neg) { R fr; mpfr_frac(fr.v, rx.v, MPFR_RNDN); double d = std::fabs(mpfr_get_d(fr.v, MPFR_RNDN)); if (kind != 3 && (d < 1e-6 || d > 1 - 1e-6)) continue; } same("gamma", str(x), ef::gamma(x), rgamma(rx), 95); }
  for (int w = -3; w <= 3; ++w) for (int q = 1; q < 8; ++q) for (int b : {1, 2, 169, 170, 171, 239, 240, 241, 242, 500, 1000, 1001}) for (int neg = 0; neg < 2; ++neg) { EF x = EF(b + w) + EF(q) / 8; if (neg) x.negate(); same("gamma", str(x), ef::gamma(x), rgamma(from(x)), 95); }
  for (const char* p : {"1e5", "123456789.5", "-123456.5", "100000000.25"}) { EF x(p); same("gamma", p, ef::gamma(x), rgamma(from(x)), 90); }
  for (const char* p : {"1e12", "1e30"}) verdict(ef::isinf(ef::gamma(EF(p))), std::string("gamma(") + p + ")"); 
  for (int n = -7; n <= 7; ++n) for (int k = 0; k < 6; ++k) { EF e = num(3) / 100; if (k & 1) e.negate(); if (e.iszero()) continue; R x = R(n) + from(e); same("gamma_near_n", std::to_string(n) + ", " + str(e), ef::gamma_near_n(n, e), rgamma(x), 95); }
  // pochhammer and binomial
  for (unsigned n = 0; n <= (deep ? 200u : 90u); ++n) for (int k = 0; k < 8; ++k) { EF x = k < 4 ? num(k % 2 ? 1 : 0) : k < 6 ? EF((int)rnd(200)) : EF((int)rnd(60)); if (k & 1) x.negate(); R rx = from(x), p(1); double wd = 1; for (unsigned i = 0; i < n; ++i) { R t = rx + R(i); wd = std::min(wd, std::fabs(mpfr_get_d(t.v, MPFR_RNDN)) + (mpfr_zero_p(t.v) ? 1 : 0)); p = p * t; } if (wd < 1e-8) continue; same("pochhammer", str(x) + ", " + std::to_string(n), ef::pochhammer(x, n), p, 90);
      if (k < 2 && n < 70) { EF y = num(1); ef::complex<e_float> z(x, y); C cz(rx, from(y)), cp(1); for (unsigned i = 0; i < n; ++i) cp = cp * (cz + C((long)i)); verdict(nearc(ef::pochhammer(z, n), cp, 90), "pochhammer of (" + str(x) + ", " + str(y) + "), " + std::to_string(n)); } }
  for (int k = 0; k < 40; ++k) { EF x = num(1), a = num(1); R want = rgamma(from(x) + from(a)) / rgamma(from(x)); same("pochhammer", str(x) + ", " + str(a), ef::pochhammer(x, a), want, 90);
    R bw = rgamma(from(x) + from(a) + R(1)) / (rgamma(from(a) + R(1)) * rgamma(from(x) + R(1))); same("binomial", str(x + a) + ", " + str(a), ef::binomial(x + a, a), bw, 88);
    unsigned n = rnd(200), m = rnd(100); R f; mpfr_fac_ui(f.v, n, MPFR_RNDN); EF y = num(0); same("binomial", std::to_string(n) + ", " + str(y), ef::binomial(n, y), f / (rgamma(from(y) + R(1)) * rgamma(R(n) - from(y) + R(1))), 88); mpfr_fac_ui(f.v, m, MPFR_RNDN); same("binomial", str(x) + ", " + std::to_string(m), ef::binomial(x + EF((int)m), m), rgamma(from(x) + R(m) + R(1)) / (f * rgamma(from(x) + R(1))), 88); }
  // complex
  for (int k = 0; k < (deep ? 500 : 60); ++k) for (int s = 0; s < 4; ++s) { EF a = k % 5 == 4 ? EF((int)rnd(20)) : num(k % 3 == 2 ? 5 : rnd(2)), b = k % 7 == 6 ? num(3) * EF("1e10") : num(rnd(2)); if (k % 5 == 3) a = EF(0); if (s & 1) a.negate(); if (s & 2) b.negate(); if (b.iszero() || b.order() < -8 || b.order() > 8) continue; ef::complex<e_float> z(a, b); verdict(nearc(ef::gamma(z), cgamma(C(from(a), from(b))), 90), "gamma of (" + str(a) + ", " + str(b) + ")"); }
  // every pairing of sizes of the two parts
  { const char* sizes[] = {"1e-60", "3e-25", "7e-9", "0.01", "0.5", "3", "27.25", "180.5"};
    for (const char* p : sizes) for (const char* q : sizes) for (int s = 0; s < 4; ++s) { EF a = EF(p) * (1 + num(0)), b = EF(q) * (1 + num(0)); if (s & 1) a.negate(); if (s & 2) b.negate(); if (a.isneg() && b.order() < -8 && (a.order() > -8 || b.order() < -40)) continue; ef::complex<e_float> z(a, b); verdict(nearc(ef::gamma(z), cgamma(C(from(a), from(b))), 85), "gamma of (" + str(a) + ", " + str(b) + ")"); } }
  { ef::complex<e_float> z(EF("-2e-60"), EF("1e-60")); C want = cgamma(C(from(z.real()), from(z.imag()))); verdict(nearc(ef::gamma(z), want, 57), "gamma(-2e-60 + 1e-60 i) is not good to 57 digits"); verdict(nearc(ef::gamma(z), want, 85), "gamma(-2e-60 + 1e-60 i) is not good to 85 digits"); }
  { ef::complex<e_float> g = ef::gamma(ef::complex<e_float>(EF(-18), EF(2000000000))); verdict(!g.real().isnan() && !g.imag().isnan(), "gamma(-18 + 2e9 i) is NaN"); }
  { ef::complex<e_float> z(EF("5.5")), g = ef::gamma(z); verdict(nearc(g, C(rgamma(R(11) / R(2))), 95) && g.imag().iszero(), "complex gamma on the real axis"); } }
static R rzeta(const R& s) { R r; mpfr_zeta(r.v, s.v, MPFR_RNDN); return r; }
static void zetas() {
  for (int n = -(deep ? 400 : 260); n <= 800; ++n) { if (n == 1) continue; same("riemann_zeta", std::to_string(n), ef::riemann_zeta(n), rzeta(R(n)), 95); if (n % 3 == 0 || n < 40) same("riemann_zeta", std::to_string(n) + " as e_float", ef::riemann_zeta(EF(n)), rzeta(R(n)), 95); }
  verdict(ef::isinf(ef::riemann_zeta(1)) && !ef::isneg(ef::riemann_zeta(1)), "riemann_zeta(1)"); verdict(ef::isone(ef::riemann_zeta(1000000)), "riemann_zeta(1000000)"); for (const char* p : {"7.2e9", "1e15", "1e300"}) verdict(ef::isone(ef::riemann_zeta(EF(p))), std::string("riemann_zeta(") + p + ")"); verdict(ef::isone(ef::riemann_zeta(std::numeric_limits<e_float>::infinity())), "riemann_zeta(inf)"); verdict(ef::isnan(ef::riemann_zeta(std::numeric_limits<e_float>::quiet_NaN())), "riemann_zeta(NaN)");
  for (int k = 0; k < (deep ? 1000 : 80); ++k) for (int kind : {0, 1, 4}) for (int neg = 0; neg < 2; ++neg) { EF s = num(kind); if (kind == 1) s /= (k % 2 ? 1 : 6); if (neg) { s /= 2; s.negate(); } if (ef::fabs(s - 1) < EF("1e-3") || (neg && s < -150)) continue; R r = from(s), fr; if (neg) { R h = r / R(2); mpfr_frac(fr.v, h.v, MPFR_RNDN); double d = std::fabs(mpfr_get_d(fr.v, MPFR_RNDN)); if (d < 1e-4 || d > 1 - 1e-4) continue; } same("riemann_zeta", str(s), ef::riemann_zeta(s), rzeta(r), 90); }
  for (int k = 0; k < (deep ? 300 : 25); ++k) for (int s = 0; s < 4; ++s) { EF a = k % 3 == 1 ? EF(1) / 2 : num(rnd(2)) / (k % 3 + 1), b = num(1) / (1 + rnd(10)); if (a > 60) a /= 10; if (b > 90) b /= 10; if (s & 1) a.negate(); if (s & 2) b.negate(); if (b.iszero() || b.order() < -3) continue; ef::complex<e_float> z(a, b), g = ef::riemann_zeta(z); C want = czeta(C(from(a), from(b))); verdict(nearc(g, want, 85), "riemann_zeta of (" + str(a) + ", " + str(b) + ")"); }
  { ef::complex<e_float> z(EF("2.5")), g = ef::riemann_zeta(z); verdict(nearc(g, C(rzeta(R(5) / R(2))), 90) && g.imag().iszero(), "complex riemann_zeta on the real axis"); } }
int main(int argc, char** argv) { deep = argc > 1 && argv[1][0] == 't'; rs = 0x9E3779B97F4A7C15ull * ((argc > 2 ? std::atoi(argv[2]) : 1) + 1); const std::string what = argc > 3 ? argv[3] : "gz"; mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); bern(152);
  if (what.find('g') != std::string::npos) gammas(); if (what.find('z') != std::string::npos) zetas(); return done(); }
