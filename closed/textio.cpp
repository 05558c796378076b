// reading and writing decimal numerals: every shape up to a bound, digits from patterns and a seeded generator
#include "exact.h"
#include <iomanip>
static std::uint64_t rs = 1; static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ull + 1442695040888963407ull; return (unsigned)((rs >> 33) % n); }
static bool deep = false;
// ---- input ----
static void rd(int sign, const std::string& I, const std::string& F, bool point, long long ex, int estyle, int how) {
  std::string s = sign == 1 ? "+" : sign == 2 ? "-" : ""; s += I; if (point || !F.empty()) { s += "."; s += F; }
  if (estyle) { s += estyle & 1 ? "e" : "E"; if (ex >= 0 && (estyle & 2)) s += "+"; s += std::to_string(ex); } else ex = 0;
  EF x(5); if (how == 0) x = EF(s.c_str()); else if (how == 1) x = EF(s); else { std::istringstream is(s + " rest"); is >> x; if (!is) { verdict(false, "stream state after reading " + s); return; } }
  std::string d = I + F; std::size_t z = d.find_first_not_of('0'); bool ok = true; const char* why = "value";
  if (z == std::string::npos) { ok = x.iszero() && !x.isneg() && x.isfinite(); }
  else {
    long long order = (long long)I.size() - (long long)z - 1 + ex;
    if (order > std::numeric_limits<e_float>::max_exponent10) ok = ef::isinf(x) && x.isneg() == (sign == 2);
    else if (order < std::numeric_limits<e_float>::min_exponent10) ok = x.iszero();
    else { mpz_t v, m, p; mpz_inits(v, m, p, nullptr); mpz_set_str(v, d.c_str(), 10); long long e = ex - (long long)F.size(); std::int64_t xe = 0; ok = exact(x, m, xe);
      ok = ok && x.isneg() == (sign == 2) && x.my_data.data()[0] != 0 && x.my_exp % 8 == 0; for (int i = 0; i < EF::ef_elem_number; ++i) ok = ok && x.my_data.data()[i] < 100000000u; if (!ok) why = "representation";
      if (ok) { mpz_abs(m, m); if (xe >= e) { mpz_ui_pow_ui(p, 10, xe - e); mpz_mul(m, m, p); } else { mpz_ui_pow_ui(p, 10, e - xe); mpz_mul(v, v, p); }
        std::size_t last = d.find_last_not_of('0'); bool fits = last - z + 1 <= 120;
        if (mpz_cmp(m, v) > 0) ok = false; else if (fits) ok = mpz_cmp(m, v) == 0; else { mpz_sub(m, v, m); mpz_ui_pow_ui(p, 10, 119); mpz_mul(m, m, p); ok = mpz_cmp(m, v) <= 0; } }
      mpz_clears(v, m, p, nullptr); } }
  verdict(ok, std::string(why) + " of \"" + s + "\""); }
static std::string digits(int n, int kind) { std::string s; for (int i = 0; i < n; ++i) s += kind == 0 ? (char)('0' + rnd(10)) : kind == 1 ? '9' : kind == 2 ? '0' : (char)('1' + rnd(9)); return s; }
static std::string shape(int n, int lead, int trail, int kind) { std::string s = digits(n, kind); for (int i = 0; i < lead && i < n; ++i) s[i] = '0'; for (int i = 0; i < trail && i < n; ++i) s[n - 1 - i] = '0'; return s; }
static void reading() {
  const int L = deep ? 34 : 26; const long long big = 2147483616LL;
  for (int i = 0; i <= L; ++i) for (int f = 0; f <= L; ++f) { if (i + f == 0) continue;
    for (int k = 0; k < 10; ++k) { int il = k < 3 ? 0 : rnd(i + 1), ft = k < 3 ? 0 : rnd(f + 1), it = k > 7 ? rnd(i + 1) : 0, fl = k > 6 ? rnd(f + 1) : 0; int kd = k == 1 ? 1 : k == 2 ? 2 : k % 2 ? 3 : 0;
      if (k == 9) { il = i; fl = rnd(f + 1); ft = 0; }
      for (int e = 0; e < 4; ++e) rd(rnd(3), shape(i, il, it, kd), shape(f, fl, ft, kd), rnd(2), e == 0 ? 0 : (long long)rnd(41) - 20, e == 0 ? 0 : 1 + rnd(3), rnd(3)); } }
  for (int e = -40; e <= 40; ++e) for (int st = 1; st < 4; ++st) for (int i = 1; i < 18; i += 3) for (int f = 0; f < 20; f += 3) rd(rnd(3), digits(i, 3), digits(f, 3), true, e, st, rnd(3));
  for (int i : {0, 1, 5, 8, 9, 16, 100, 111, 112, 113, 119, 120, 121, 126, 127, 128, 129, 130, 136, 200}) for (int f : {0, 1, 7, 8, 104, 111, 112, 113, 119, 120, 121, 127, 128, 129, 130, 200}) { if (i + f == 0) continue; for (int k = 0; k < 4; ++k) for (int e : {0, -3, 7, 1000, -100000}) rd(rnd(3), digits(i, k == 2 ? 3 : k), digits(f, k == 2 ? 3 : k), true, e, 1 + rnd(3), rnd(3)); }
  for (int d = -40; d <= 40; ++d) for (int i : {0, 1, 2, 9, 17}) for (int f : {0, 1, 9}) { if (i + f == 0) continue; rd(rnd(3), digits(i, 3), digits(f, 3), true, big + d, 1, 0); rd(rnd(3), digits(i, 3), digits(f, 3), true, -big + d, 1, 0); }
  for (long long e : {1000000000000LL, -1000000000000LL, 4294967296LL, -4294967296LL, 4294967297LL, 2147483648LL, -2147483649LL}) rd(rnd(3), "12", "5", true, e, 1, 0); }
// ---- output ----
enum { GEN, SCI, FIX };
struct Fmt { int f; int prec; bool pt, pos, up, left; int width; char fill; };
static std::string scaled(const mpz_t M, long long e, long long k) { // round half up of |M| * 10^(e + k)
  mpz_t q, p; mpz_inits(q, p, nullptr); mpz_abs(q, M); long long s = e + k; if (s >= 0) { mpz_ui_pow_ui(p, 10, s); mpz_mul(q, q, p); } else if (-s > 4000) mpz_set_ui(q, 0); else { mpz_ui_pow_ui(p, 10, -s); mpz_mul_ui(q, q, 2); mpz_add(q, q, p); mpz_mul_ui(p, p, 2); mpz_fdiv_q(q, q, p); }
  char* c = mpz_get_str(nullptr, 10, q); std::string r(c); free(c); mpz_clears(q, p, nullptr); return r; }
static std::string expected(const EF& x, const Fmt& F) {
  const int prec = F.prec <= 0 ? 6 : F.prec; mpz_t M; mpz_init(M); std::int64_t e64; exact(x, M, e64); long long e = e64, order = 0; const bool zero = mpz_sgn(M) == 0;
  if (!zero) { char* c = mpz_get_str(nullptr, 10, M); order = (long long)std::string(c).size() - (c[0] == '-') - 1 + e; free(c); } else e = 0;
  const int MAXD = 103; bool sci = F.f == SCI || (F.f == GEN && (order < -4 || order >= std::min<long long>(101, std::max(prec, 6)))); std::string s;
  // number of significant digits that the value is rounded to
  long long nd = F.f == GEN ? std::min<long long>(prec, 102) : F.f == SCI ? std::min<long long>(MAXD, prec + 1LL) : std::min<long long>(MAXD, order + 1 + prec);
  std::string q = nd < 0 ? "0" : scaled(M, e, nd - 1 - order); // an integer with nd (or, after rounding up, nd + 1) digits
  long long o = order; if (!zero && (long long)q.size() > nd && q != "0") { ++o; if (nd > 0) q.resize(nd); } if (nd <= 0 && q == "0") { q = ""; }
  if (zero) q = std::string(nd > 0 ? nd : 0, '0');
  if (sci) { s = q.substr(0, 1); std::string fr = q.substr(1); int want = prec; if (F.f == GEN) { while (!fr.empty() && fr.back() == '0') fr.pop_back(); if (F.pt) while ((int)fr.size() < prec - 1) fr += '0'; } else while ((int)fr.size() < want) fr += '0';
    if (!fr.empty() || F.pt) s += "."; s += fr; std::string t = std::to_string(o < 0 ? -o : o); while (t.size() % 3) t = "0" + t; s += F.up ? "E" : "e"; s += o < 0 ? "-" : "+"; s += t; }
  else { std::string in, fr; if (q.empty()) { in = "0"; } else if (o < 0) { in = "0"; fr = std::string(-o - 1, '0') + q; } else { while ((long long)q.size() < o + 1) q += '0'; in = q.substr(0, o + 1); fr = q.substr(o + 1); }
    if (F.f == FIX) { while ((int)fr.size() < prec) fr += '0'; }
    else { while (!fr.empty() && fr.back() == '0') fr.pop_back(); if (F.pt) { if (in == "0") { std::size_t z = fr.find_first_not_of('0'); std::size_t sig = z == std::string::npos ? 0 : fr.size() - z; while ((int)sig < prec) { fr += '0'; ++sig; } } else while ((int)(in.size() + fr.size()) < prec) fr += '0'; } }
    s = in; if (!fr.empty() || F.pt) s += "."; s += fr; }
  if (x.isneg()) s = "-" + s; else if (F.pos) s = "+" + s;
  if ((int)s.size() < F.width) { if (F.left) s += std::string(F.width - s.size(), F.fill); else s = std::string(F.width - s.size(), F.fill) + s; }
  mpz_clear(M); return s; }
static void setfmt(std::ostream& os, const Fmt& F) { os.precision(F.prec); if (F.f == SCI) os.setf(std::ios::scientific, std::ios::floatfield); if (F.f == FIX) os.setf(std::ios::fixed, std::ios::floatfield); if (F.pt) os << std::showpoint; if (F.pos) os << std::showpos; if (F.up) os << std::uppercase; if (F.left) os << std::left; os.width(F.width); os.fill(F.fill); }
static void wr(const EF& x, const Fmt& F) { std::ostringstream os; setfmt(os, F); std::string got; try { os << x; got = os.str(); } catch (const std::exception& ex) { got = std::string("exception ") + ex.what(); }
  std::string want = expected(x, F); if (got != want) { std::ostringstream w; w << "writing (format " << F.f << ", precision " << F.prec << ", point " << F.pt << ", pos " << F.pos << ", upper " << F.up << ", width " << F.width << ") limbs"; for (int i = 0; i < 16; ++i) w << " " << x.my_data.data()[i]; w << " exponent " << x.my_exp << (x.my_neg ? " negative" : "") << ": \"" << got << "\" instead of \"" << want << "\""; verdict(false, w.str()); } else verdict(true, ""); }
static EF value(int kind, long long ex) { // the exponent is that of the first limb
  EF x(1); std::uint32_t* d = x.my_data.data(); for (int i = 0; i < 16; ++i) { switch (kind) { case 0: d[i] = rnd(100000000); break; case 1: d[i] = 99999999; break; case 2: d[i] = 0; break; case 3: d[i] = rnd(3) ? 99999999 : rnd(100000000); break; case 4: d[i] = rnd(3) ? 0 : rnd(100000000); break; case 5: d[i] = 50000000; break; default: d[i] = 49999999; } }
  static const std::uint32_t first[] = {1, 9, 99999999, 10, 12345678, 5, 9999, 50000000}; d[0] = rnd(3) ? first[rnd(8)] : 1 + rnd(99999999); if (kind == 7) { int n = 1 + rnd(120); std::string t; for (int i = 0; i < n; ++i) t += '9'; t += (char)('4' + rnd(2)); t += digits(20, 0); t.resize(128, '0'); for (int i = 0; i < 16; ++i) d[i] = (std::uint32_t)std::strtoul(t.substr(8 * i, 8).c_str(), nullptr, 10); }
  x.my_exp = 8 * ex; x.my_neg = rnd(3) == 0; return x; }
static void writing() {
  for (int f = 0; f < 3; ++f) for (int prec = -1; prec <= 135; ++prec) { const bool often = prec < 20 || (prec > 95 && prec < 110);
    for (int ex = -17; ex <= 17; ++ex) for (int k = 0; k < (often ? (deep ? 24 : 9) : 3); ++k) { Fmt F = {f, prec, rnd(4) == 0, rnd(4) == 0, rnd(4) == 0, rnd(2) == 0, rnd(3) ? 0 : (int)rnd(200), rnd(2) ? ' ' : '*'}; wr(value(k % 9, often || k ? ex : (int)rnd(5)), F); }
    for (int ex : {-2, -1, 0, 1}) for (int k = 0; k < (deep ? 100 : 25); ++k) { Fmt F = {f, prec, rnd(2) == 0, false, false, false, 0, ' '}; wr(value(rnd(9), ex), F); }
    for (int k = 0; k < 8; ++k) { Fmt F = {f, prec, (k & 1) != 0, (k & 2) != 0, (k & 4) != 0, rnd(2) == 0, rnd(2) ? 0 : (int)rnd(40), '0'}; wr(EF(0), F); } }
  for (int f : {GEN, SCI}) for (int prec : {1, 5, 6, 20, 100, 102, 103, 104, 120}) for (long long ex : {-268435452LL, -268435450LL, -1000000LL, -12500LL, 12500LL, 1000000LL, 268435450LL, 268435452LL}) for (int k = 0; k < 9; ++k) { Fmt F = {f, prec, rnd(2) == 0, rnd(2) == 0, rnd(2) == 0, false, 0, ' '}; EF x = value(k, ex); if (ex == 268435452LL && x.my_data.data()[0] > 8) x.my_data.data()[0] = 8; wr(x, F); }
  const EF inf = std::numeric_limits<e_float>::infinity(), nan = std::numeric_limits<e_float>::quiet_NaN();
  for (int pos = 0; pos < 2; ++pos) for (int up = 0; up < 2; ++up) for (int f = 0; f < 3; ++f) { std::ostringstream a, b, c; Fmt F = {f, 6, false, pos != 0, up != 0, false, 0, ' '}; setfmt(a, F); setfmt(b, F); setfmt(c, F); a << inf; b << -inf; c << nan; verdict(a.str() == (pos ? std::string("+") : std::string()) + (up ? "INF" : "inf"), "writing infinity"); verdict(b.str() == (up ? "-INF" : "-inf"), "writing -infinity"); verdict(c.str() == (up ? "NAN" : "nan"), "writing NaN"); } }
// ---- both: a value written with all its digits is read back unchanged ----
static void round_trip() {
  for (int ex = -40; ex <= 40; ++ex) for (int k = 0; k < 30; ++k) { EF x = value(rnd(9), ex); std::uint32_t* d = x.my_data.data(); int digs = d[0] > 9999999 ? 8 : d[0] > 999999 ? 7 : d[0] > 99999 ? 6 : d[0] > 9999 ? 5 : d[0] > 999 ? 4 : d[0] > 99 ? 3 : d[0] > 9 ? 2 : 1; int left = 102 - digs; int i = 1; for (; left >= 8; ++i) left -= 8; std::uint32_t p = 1; for (int j = left; j < 8; ++j) p *= 10; if (i < 16) { d[i] -= d[i] % p; for (int j = i + 1; j < 16; ++j) d[j] = 0; } // at most 102 significant digits
      for (int f = 0; f < 2; ++f) { std::ostringstream os; os.precision(102); if (f == 1) os << std::scientific; os << x; EF y(os.str()); bool same = y.my_exp == x.my_exp && y.my_neg == x.my_neg; for (int j = 0; j < 16; ++j) same = same && y.my_data.data()[j] == d[j]; verdict(same, "written and read back: " + os.str()); } } }
int main(int argc, char** argv) { deep = argc > 1 && argv[1][0] == 't'; rs = 0x9E3779B97F4A7C15ull * ((argc > 2 ? std::atoi(argv[2]) : 1) + 1); const std::string what = argc > 3 ? argv[3] : "rw"; const int rounds = deep ? 200 : 10;
  for (int i = 0; i < rounds; ++i) { if (what.find('r') != std::string::npos) reading(); if (what.find('w') != std::string::npos) writing(); round_trip(); } return done(); }
