#include <cstdio>
#include <cstdlib>
#include <gmp.h>
#include <mpfr.h>
#include "backend_oracle.h"
// the library sets the exponent range of MPFR; the oracle works in the widest one
struct W { mpfr_exp_t lo, hi; W() : lo(mpfr_get_emin()), hi(mpfr_get_emax()) { mpfr_set_emin(mpfr_get_emin_min()); mpfr_set_emax(mpfr_get_emax_max()); } ~W() { mpfr_set_emin(lo); mpfr_set_emax(hi); } };
extern "C" {
void o_add(void* r, const void* a, const void* b) { W w; mpfr_add((mpfr_ptr)r, (mpfr_srcptr)a, (mpfr_srcptr)b, MPFR_RNDN); }
void o_sub(void* r, const void* a, const void* b) { W w; mpfr_sub((mpfr_ptr)r, (mpfr_srcptr)a, (mpfr_srcptr)b, MPFR_RNDN); }
void o_mul(void* r, const void* a, const void* b) { W w; mpfr_mul((mpfr_ptr)r, (mpfr_srcptr)a, (mpfr_srcptr)b, MPFR_RNDN); }
void o_div(void* r, const void* a, const void* b) { W w; mpfr_div((mpfr_ptr)r, (mpfr_srcptr)a, (mpfr_srcptr)b, MPFR_RNDN); }
void o_set(void* r, const void* a) { W w; mpfr_set((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_neg(void* r, const void* a) { W w; mpfr_neg((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_abs(void* r, const void* a) { W w; mpfr_abs((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_sqrt(void* r, const void* a) { W w; mpfr_sqrt((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_log10(void* r, const void* a) { W w; mpfr_log10((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_exp10(void* r, const void* a) { W w; mpfr_exp10((mpfr_ptr)r, (mpfr_srcptr)a, MPFR_RNDN); }
void o_floor(void* r, const void* a) { W w; mpfr_floor((mpfr_ptr)r, (mpfr_srcptr)a); }
void o_ceil(void* r, const void* a) { W w; mpfr_ceil((mpfr_ptr)r, (mpfr_srcptr)a); }
void o_trunc(void* r, const void* a) { W w; mpfr_trunc((mpfr_ptr)r, (mpfr_srcptr)a); }
int o_cmp(const void* a, const void* b) { W w; return mpfr_cmp((mpfr_srcptr)a, (mpfr_srcptr)b); }
int o_cmpabs(const void* a, const void* b) { W w; return mpfr_cmpabs((mpfr_srcptr)a, (mpfr_srcptr)b); }
int o_unordered_p(const void* a, const void* b) { W w; return mpfr_unordered_p((mpfr_srcptr)a, (mpfr_srcptr)b); }
int o_cmp_si(const void* a, long n) { W w; return mpfr_cmp_si((mpfr_srcptr)a, n); }
int o_cmp_ui(const void* a, unsigned long n) { W w; return mpfr_cmp_ui((mpfr_srcptr)a, n); }
int o_inf_p(const void* a) { W w; return mpfr_inf_p((mpfr_srcptr)a); }
int o_nan_p(const void* a) { W w; return mpfr_nan_p((mpfr_srcptr)a); }
int o_number_p(const void* a) { W w; return mpfr_number_p((mpfr_srcptr)a); }
int o_zero_p(const void* a) { W w; return mpfr_zero_p((mpfr_srcptr)a); }
int o_regular_p(const void* a) { W w; return mpfr_regular_p((mpfr_srcptr)a); }
int o_integer_p(const void* a) { W w; return mpfr_integer_p((mpfr_srcptr)a); }
int o_sgn(const void* a) { W w; return mpfr_sgn((mpfr_srcptr)a); }
long o_get_exp(const void* a) { W w; return mpfr_get_exp((mpfr_srcptr)a); }
long o_get_si(const void* a) { W w; return mpfr_get_si((mpfr_srcptr)a, MPFR_RNDZ); }
unsigned long o_get_ui(const void* a) { W w; return mpfr_get_ui((mpfr_srcptr)a, MPFR_RNDZ); }
void o_pow_si(void* r, const void* a, long n) { W w; mpfr_pow_si((mpfr_ptr)r, (mpfr_srcptr)a, n, MPFR_RNDN); }
void o_set_d(void* r, double d) { W w; mpfr_set_d((mpfr_ptr)r, d, MPFR_RNDN); }
void o_set_si(void* r, long n) { W w; mpfr_set_si((mpfr_ptr)r, n, MPFR_RNDN); }
void o_set_ui(void* r, unsigned long n) { W w; mpfr_set_ui((mpfr_ptr)r, n, MPFR_RNDN); }
void o_set_inf(void* r, int s) { W w; mpfr_set_inf((mpfr_ptr)r, s); }
void o_set_zero(void* r, int s) { W w; mpfr_set_zero((mpfr_ptr)r, s); }
void o_set_nan(void* r) { W w; mpfr_set_nan((mpfr_ptr)r); }
void o_set_mpf(void* r, const void* f) { W w; mpfr_set_f((mpfr_ptr)r, (mpf_srcptr)f, MPFR_RNDN); }
void o_set_mpfr(void* r, const void* f) { W w; mpfr_set((mpfr_ptr)r, (mpfr_srcptr)f, MPFR_RNDN); }
void o_str(char* b, int n, const void* a) { W w; mpfr_snprintf(b, n, "%.60Re", (mpfr_srcptr)a); }
void* o_new(long p) { W w; mpfr_ptr r = (mpfr_ptr)std::malloc(sizeof(mpfr_t)); mpfr_init2(r, p); return r; }
void o_delete(void* r) { W w; mpfr_clear((mpfr_ptr)r); std::free(r); }
}
