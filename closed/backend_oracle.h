// MPFR as oracle behind untyped handles: the headers of the library declare the functions of GMP and MPFR themselves
#ifndef ORACLEB_H
#define ORACLEB_H
extern "C" {
void o_add(void* r, const void* a, const void* b);
void o_sub(void* r, const void* a, const void* b);
void o_mul(void* r, const void* a, const void* b);
void o_div(void* r, const void* a, const void* b);
void o_set(void* r, const void* a);
void o_neg(void* r, const void* a);
void o_abs(void* r, const void* a);
void o_sqrt(void* r, const void* a);
void o_log10(void* r, const void* a);
void o_exp10(void* r, const void* a);
void o_floor(void* r, const void* a);
void o_ceil(void* r, const void* a);
void o_trunc(void* r, const void* a);
int o_cmp(const void* a, const void* b);
int o_cmpabs(const void* a, const void* b);
int o_unordered_p(const void* a, const void* b);
int o_cmp_si(const void* a, long n);
int o_cmp_ui(const void* a, unsigned long n);
int o_inf_p(const void* a);
int o_nan_p(const void* a);
int o_number_p(const void* a);
int o_zero_p(const void* a);
int o_regular_p(const void* a);
int o_integer_p(const void* a);
int o_sgn(const void* a);
long o_get_exp(const void* a);
long o_get_si(const void* a);
unsigned long o_get_ui(const void* a);
void o_pow_si(void* r, const void* a, long n);
void o_set_d(void* r, double d);
void o_set_si(void* r, long n);
void o_set_ui(void* r, unsigned long n);
void o_set_inf(void* r, int s);
void o_set_zero(void* r, int s);
void o_set_nan(void* r);
void o_set_mpf(void* r, const void* f);
void o_set_mpfr(void* r, const void* f);
void o_str(char* b, int n, const void* a);
void* o_new(long p);
void o_delete(void* r);
}
#endif
