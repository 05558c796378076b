// Logging stand-ins for contracted callees: the call is recorded, the result is an arbitrary value satisfying the
// representation invariant.  A caller's postcondition "result satisfies the callee's contract for operands a, b" is
// then discharged by showing that the logged operands are a and b and that the result is the logged result.
#ifndef EFX_LOG_H
#define EFX_LOG_H
#include "efx_contracts.h"
struct Call { int op; Ghost a, b, r; std::uint64_t n; };
enum { OP_ADD = 1, OP_MUL, OP_DIV, OP_MULU, OP_DIVU, OP_INV, OP_SQRT };
extern Call calls[]; extern int ncalls;
#ifdef EFX_LOG_IMPL
Call calls[8]; int ncalls = 0;
#ifdef VF_VERIFIER
static void fresh(EF& x)
{
  switch (vf_havoc_u64(0, 3)) {
    case 0: write(x, special(ZERO, false)); break;
    case 1: write(x, special(INF, (bool)vf_havoc_u64(0, 1))); break;
    case 2: write(x, special(NAN_, (bool)vf_havoc_u64(0, 1))); break;
    default: {
      // exponents of results reach down to the square of the smallest operand
      std::int64_t e = 8 * ((std::int64_t)vf_havoc_u64(0, (EXPMAX - 4 * EXPLOW) / 8) + 4 * (EXPLOW / 8));
      Ghost g; g.cls = FIN; g.exp = e; g.neg = (bool)vf_havoc_u64(0, 1); g.prec = N;
      for (int i = 0; i < N; ++i) g.d[i] = (std::uint32_t)vf_havoc_u64(i == 0 ? 1 : 0, 99999999);
      vf_assume(either(Z((long)e) < Z((long)EXPMAX), mant(g) <= VMAX()));
      write(x, g); break; }
  }
}
static EF* log_(int op, EF* u, const Ghost& b, std::uint64_t n)
{
  check(ncalls < 8, "log capacity");
  Call& c = calls[ncalls++]; c.op = op; c.a = view(*u); c.b = b; c.n = n; pre(c.a); if (op <= OP_DIV) pre(c.b);
  fresh(*u); c.r = view(*u); return u;
}
extern "C" {
EF* vf_log_add(EF* u, const EF* v) { return log_(OP_ADD, u, view(*v), 0); }
EF* vf_log_sub(EF* u, const EF* v) { return log_(OP_ADD, u, negated(view(*v)), 0); }
EF* vf_log_mul(EF* u, const EF* v) { return log_(OP_MUL, u, view(*v), 0); }
EF* vf_log_div(EF* u, const EF* v) { return log_(OP_DIV, u, view(*v), 0); }
EF* vf_log_mulu(EF* u, unsigned long long n) { return log_(OP_MULU, u, view(*u), n); }
EF* vf_log_divu(EF* u, unsigned long long n) { return log_(OP_DIVU, u, view(*u), n); }
}
#endif
#endif
inline bool eqv(const Ghost& a, const Ghost& b) { return same(a, b); }
// the one logged call is the sum u + v (the contract of + is symmetric and odd)
inline bool is_sum(const Ghost& u, const Ghost& v, const Ghost& r)
{
  if (ncalls != 1 || calls[0].op != OP_ADD) return false;
  Call& c = calls[0];
  bool d = both(eqv(r, c.r), either(both(eqv(c.a, u), eqv(c.b, v)), both(eqv(c.a, v), eqv(c.b, u))));
  Ghost nu = negated(u), nv = negated(v), nr = negated(r);
  bool n = both(eqv(nr, c.r), either(both(eqv(c.a, nu), eqv(c.b, nv)), both(eqv(c.a, nv), eqv(c.b, nu))));
  return either(d, n);
}
inline bool is_call(int op, const Ghost& u, const Ghost& v, const Ghost& r)
{
  if (ncalls != 1 || calls[0].op != op) return false;
  return both(eqv(r, calls[0].r), both(eqv(calls[0].a, u), eqv(calls[0].b, v)));
}
inline bool is_product(const Ghost& u, const Ghost& v, const Ghost& r) { return either(is_call(OP_MUL, u, v, r), is_call(OP_MUL, v, u, r)); }
inline bool is_calln(int op, const Ghost& u, std::uint64_t n, const Ghost& r)
{
  if (ncalls != 1 || calls[0].op != op) return false;
  return both(eqv(r, calls[0].r), both(eqv(calls[0].a, u), Z((unsigned long)calls[0].n) == Z((unsigned long)n)));
}
#endif
