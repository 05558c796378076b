// ---- output ----
enum { GEN, SCI, FIX };
struct Fmt { int f; int prec; bool pt, pos, up, left; int width; char fill; };
static std::string scaled(const mpz_t M, long long e, long long k) { // round half up of |M| * 10^(e + k)
  mpz_t q, p; mpz_inits(q, p, nullptr); mpz_abs(q, M); long long s = e + k; if (s >= 0) { mpz_ui_pow_ui(p, 10, s); mpz_mul(q, q, p); } else if (-s > 4000) mpz_set_ui(q, 0); else { mpz_ui_pow_ui(p, 10, -s); mpz_mul_ui(q, q, 2); mpz_add(q, q, p); mpz_mul_ui(p, p, 2); mpz_fdiv_q(q, q, p); }
  char* c = mpz_get_str(nullptr, 10, q); std::string r(c); free(c); mpz_clears(q, p, nullptr); return r; }
static std::string expected(const EF& x, const Fmt& F) {
  const int prec = F.prec <= 0 ? 6 : F.prec; mpz_t M; mpz_init(M); std::int64_t e64; exact(x, M, e64); long long e = e64, order = 0; const bool zero = mpz_sgn(M) == 0;
  if (!zero) { char* c = mpz_get_str(nullptr, 10, M); order = (long long)std::string(c).size() - (c[0] == '-') - 1 + e; free(c); } else e = 0;
  const int MAXD = 103; bool sci = F.f == SCI || (F.f == GEN && (order < -4 || order >= std::min<long long>(101, std::max(prec, 6)))); std::string s;
  // number of significant digits that the value is rounded to
  long long nd = F.f == GEN ? std::min<long long>(prec, 102) : F.f == SCI ? std::min<long long>(MAXD, prec + 1LL) : std::min<long long>(MAXD, order + 1 + prec);
  std::string q = nd < 0 ? "0" : scaled(M, e, nd - 1 - order); // an integer with nd (or, after rounding up, nd + 1) digits
  long long o = order; if (!zero && (long long)q.size() > nd && q != "0") { ++o; if (nd > 0) q.resize(nd); } if (nd <= 0 && q == "0") { q = ""; }
  if (zero) q = std::string(nd > 0 ? nd : 0, '0');
  if (sci) { s = q.substr(0, 1); std::string fr = q.substr(1); int want = prec; if (F.f == GEN) { while (!fr.empty() && fr.back() == '0') fr.pop_back(); if (F.pt) while ((int)fr.size() < prec - 1) fr += '0'; } else while ((int)fr.size() < want) fr += '0';
    if (!fr.empty() || F.pt) s += "."; s += fr; std::string t = std::to_string(o < 0 ? -o : o); while (t.size() % 3) t = "0" + t; s += F.up ? "E" : "e"; s += o < 0 ? "-" : "+"; s += t; }
  else { std::string in, fr; if (q.empty()) { in = "0"; } else if (o < 0) { in = "0"; fr = std::string(-o - 1, '0') + q; } else { while ((long long)q.size() < o + 1) q += '0'; in = q.substr(0, o + 1); fr = q.substr(o + 1); }
    if (F.f == FIX) { while ((int)fr.size() < prec) fr += '0'; }
    else { while (!fr.empty() && fr.back() == '0') fr.pop_back(); if (F.pt) { if (in == "0") { std::size_t z = fr.find_first_not_of('0'); std::size_t sig = z == std::string::npos ? 0 : fr.size() - z; while ((int)sig < prec) { fr += '0'; ++sig; } } else while ((int)(in.size() + fr.size()) < prec) fr += '0'; } }
    s = in; if (!fr.empty() || F.pt) s += "."; s += fr; }
  if (x.isneg()) s = "-" + s; else if (F.pos) s = "+" + s;
  if ((int)s.size() < F.width) { if (F.left) s += std::string(F.width - s.size(), F.fill); else s = std::string(F.width - s.size(), F.fill) + s; }
  mpz_clear(M); return s; }
static void setfmt(std::ostream& os, const Fmt& F) { os.precision(F.prec); if (F.f == SCI) os.setf(std::ios::scientific, std::ios::floatfield); if (F.f == FIX) os.setf(std::ios::fixed, std::ios::floatfield); if (F.pt) os << std::showpoint; if (F.pos) os << std::showpos; if (F.up) os << std::uppercase; if (F.left) os << std::left; os.width(F.width); os.fill(F.fill); }
static void wr(const EF& x, const Fmt& F) { std::ostringstream os; setfmt(os, F); std::string got; try { os << x; got = os.str(); } catch (const std::exception& ex) { got = std::string("exception ") + ex.what(); }
  std::string want = expected(x, F); if (got != want) { std::ostringstream w; w << "writing (format " << F.f << ", precision " << F.prec << ", point " << F.pt << ", pos " << F.pos << ", upper " << F.up << ", width " << F.width << ") limbs"; for (int i = 0; i < 16; ++i) w << " " << x.my_data.data()[i]; w << " exponent " << x.my_exp << (x.my_neg ? " negative" : "") << ": \"" << got << "\" instead of \"" << want << "\""; verdict(false, w.str()); } else verdict(true, ""); }
