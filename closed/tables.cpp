// integer functions: every value of the tables, the whole list of small primes, factorisations
#include "exact.h"
#include <functions/tables/tables.h>
#include <functions/integer/prime_factors.h>
static std::vector<unsigned char> sieve(std::uint32_t n) { std::vector<unsigned char> c(n + 1, 1); c[0] = c[1] = 0; for (std::uint64_t i = 2; i * i <= n; ++i) if (c[i]) for (std::uint64_t j = i * i; j <= n; j += i) c[j] = 0; return c; }
static std::vector<unsigned char> S;
static bool isprime(std::uint32_t n) { if (n < S.size()) return S[n]; for (std::uint32_t p = 2; (std::uint64_t)p * p <= n; ++p) if (S[p] && n % p == 0) return false; return true; }
static void factors(std::uint32_t n) {
  std::deque<Util::point<std::uint32_t>> pf; pf.push_back(Util::point<std::uint32_t>(77, 77)); ef::prime_factors(n, pf);
  bool ok = true; std::uint64_t prod = 1; std::uint32_t last = 0;
  if (n < 2) ok = pf.size() == 1 && pf[0].x == n && pf[0].y == 1;
  else { for (auto& f : pf) { ok = ok && f.x > last && f.y >= 1 && f.y < 32 && isprime(f.x); last = f.x; for (std::uint32_t k = 0; k < f.y && k < 33; ++k) prod *= f.x; } ok = ok && prod == n; }
  if (!ok) verdict(false, "prime_factors(" + std::to_string(n) + ")"); else verdict(true, ""); }
int main(int argc, char** argv) {
  bool deep = argc > 1 && argv[1][0] == 't'; unsigned seed = argc > 2 ? std::atoi(argv[2]) : 1;
  mpz_t f, g; mpz_inits(f, g, nullptr);

  const std::uint32_t n0 = (std::uint32_t)Tables::A000142().size(), n2 = (std::uint32_t)Tables::A006882().size(), nb = (std::uint32_t)Tables::A007318().size();
  verdict(n0 >= 100 && n2 >= 100 && nb >= 20, "tables have been shortened");
  // factorial, double factorial
  for (std::uint32_t n = 0; n < n0; ++n) { mpz_fac_ui(f, n); verdict(closez(ef::factorial(n), f, 112), "factorial(" + std::to_string(n) + ")"); }
  for (std::uint32_t n = n0; n < n0 + (deep ? 2000u : 150u); n += 1 + (n - n0) / 20) { mpz_fac_ui(f, n); verdict(closez(ef::factorial(n), f, 95), "factorial(" + std::to_string(n) + ")"); }
  for (std::uint32_t n = 0; n < n2; ++n) { mpz_2fac_ui(f, n); verdict(closez(ef::factorial2((std::int32_t)n), f, 112), "factorial2(" + std::to_string(n) + ")"); }
  for (std::uint32_t n = n2; n < n2 + (deep ? 2000u : 150u); n += 1 + (n - n2) / 20) { mpz_2fac_ui(f, n); verdict(closez(ef::factorial2((std::int32_t)n), f, 95), "factorial2(" + std::to_string(n) + ")"); }
  verdict(ef::factorial2(-1) == ef::one(), "factorial2(-1)");
  for (std::int32_t n = 3; n < (std::int32_t)n2; n += 2) { mpz_2fac_ui(f, n - 2); mpz_set_si(g, ((n - 1) / 2) % 2 ? -1 : 1); verdict(close(ef::factorial2(-n), g, f, 110), "factorial2(-" + std::to_string(n) + ")"); }
  for (std::int32_t n = 2; n < 1000; n += 2) verdict(ef::isnan(ef::factorial2(-n)), "factorial2(-" + std::to_string(n) + ") is not NaN");
  verdict(ef::isnan(ef::factorial2((std::numeric_limits<std::int32_t>::min)())), "factorial2(INT32_MIN) is not NaN");
  // binomial coefficients
  for (std::uint32_t n = 0; n < nb + 40; ++n) for (std::uint32_t k = 0; k <= n; ++k) { mpz_bin_uiui(f, n, k); verdict(closez(ef::binomial(n, k), f, n < nb ? 112 : 95), "binomial(" + std::to_string(n) + ", " + std::to_string(k) + ")"); }
  for (std::uint32_t n = 0; n < 30; ++n) verdict(ef::isnan(ef::binomial(n, n + 1)), "binomial(n, n + 1) is not NaN");
  // Bernoulli numbers from the tangent numbers: B(2k) = (-1)^(k-1) 2k T(k) / (4^k (4^k - 1))
  { const int K = deep ? 1400 : 1050; std::vector<mpz_t> T(K + 1); for (auto& t : T) mpz_init(t); mpz_set_ui(T[1], 1);
    for (int k = 2; k <= K; ++k) mpz_mul_ui(T[k], T[k - 1], k - 1);
    for (int k = 2; k <= K; ++k) for (int j = k; j <= K; ++j) { mpz_mul_ui(f, T[j - 1], j - k); mpz_mul_ui(T[j], T[j], j - k + 2); mpz_add(T[j], T[j], f); }
    const std::size_t tb = (std::min)(Tables::A000367().size(), Tables::A002445().size()); verdict(tb >= 100, "tables have been shortened");
    auto bern = [&](int k, mpz_t num, mpz_t den) { mpz_mul_ui(num, T[k], 2 * k); if (k % 2 == 0) mpz_neg(num, num); mpz_ui_pow_ui(den, 4, k); mpz_t t; mpz_init(t); mpz_sub_ui(t, den, 1); mpz_mul(den, den, t); mpz_clear(t); };
    verdict(ef::bernoulli(0) == ef::one(), "bernoulli(0)"); verdict(ef::bernoulli(1) == -ef::half(), "bernoulli(1)");
    for (int n = 3; n < 2 * K; n += 2) verdict(ef::bernoulli(n).iszero(), "bernoulli(" + std::to_string(n) + ")");
    for (int k = 1; k < K; ++k) if (k < (int)tb || k < (int)tb + 20 || k % 50 == 0) { bern(k, f, g); verdict(close(ef::bernoulli(2 * k), f, g, k < (int)tb ? 110 : 95), "bernoulli(" + std::to_string(2 * k) + ")"); }
    for (int n = 0; n < (deep ? 400 : 130); n += 1 + n / 60) { std::vector<e_float> bn(3, e_float(7)); ef::bernoulli_table(bn, n); bool ok = (int)bn.size() >= n + 1;
      for (int i = 0; ok && i <= n; ++i) { if (i == 0) ok = bn[0] == ef::one(); else if (i == 1) ok = bn[1] == -ef::half(); else if (i % 2) ok = bn[i].iszero(); else { bern(i / 2, f, g); ok = close(bn[i], f, g, 105); } if (!ok) verdict(false, "bernoulli_table(" + std::to_string(n) + ")[" + std::to_string(i) + "]"); }
      verdict(ok, "bernoulli_table(" + std::to_string(n) + ")"); }
    // the polynomial table entries one by one
    for (std::size_t k = 0; k < tb; ++k) { EF a = Tables::A000367()[k](), b = Tables::A002445()[k](); verdict(!b.iszero() && !b.isneg() && b.isint(), "A002445[" + std::to_string(k) + "]"); (void)a; } }
  // primes
  S = sieve(3000000); std::vector<std::uint32_t> P; for (std::uint32_t i = 2; i < S.size(); ++i) if (S[i]) P.push_back(i);
  for (std::uint32_t n : {0u, 1u, 2u, 3u, 10u, 99u, 100u, 101u, 6541u, 6542u, 6543u, 6549u, 6550u, 6551u, 7000u, 20000u, 100003u, 200000u}) { std::deque<std::uint32_t> d(5, 4u); ef::prime(n, d); bool ok = d.size() == n; for (std::uint32_t i = 0; ok && i < n; ++i) ok = d[i] == P[i]; verdict(ok, "prime(" + std::to_string(n) + ")"); }
  for (std::uint32_t n = 0; n < 6551; n += 13) { std::deque<std::uint32_t> d; ef::prime(n, d); verdict(d.size() == n && (n == 0 || (d[0] == 2 && d[n - 1] == P[n - 1])), "prime(" + std::to_string(n) + ")"); }
  for (std::uint32_t n = 0; n < (deep ? 3000000u : 300000u); ++n) factors(n);
  for (std::uint32_t k = 0; k < 2000; ++k) factors(0xFFFFFFFFu - k);
  for (std::size_t i = 6400; i + 1 < 6542; ++i) { factors(P[i] * P[i]); factors(P[i] * P[i + 1]); factors(P[6541]); }
  for (int k = 1; k < 32; ++k) for (int d = -3; d <= 3; ++d) factors((1u << k) + d);
  for (std::uint32_t p : {3u, 5u, 7u, 11u, 13u, 1625u, 65521u}) for (std::uint64_t q = p; q < 0x100000000ull; q *= p) factors((std::uint32_t)q);
  std::uint64_t s = seed * 0x9E3779B97F4A7C15ull + 1; for (int i = 0; i < (deep ? 400000 : 20000); ++i) { s = s * 6364136223846793005ull + 1442695040888963407ull; factors((std::uint32_t)(s >> 32)); }
  return done();
}
