// value semantics: copy, move, assignment, swap, lifetime of the limb storage; the array classes underneath
#include "efx_common.h"
#include <e_float/e_float_functions.h>
#include <utility/util_dynamic_array.h>
#include <utility>
static EF anyv(const char* nm, const char* cn, const char* nn, const char* en)
{ int c = (int)kase(cn, ZERO, NAN_); bool neg = kase(nn, 0, 1); EF x; put(x, nm, c, neg, c == FIN ? anyexp(en) : 0); return x; }
VF_HARNESS(h_copy)
{
  int cu = (int)kase("u.cls", ZERO, NAN_), cv = (int)kase("v.cls", ZERO, NAN_);
  bool un = kase("u.neg", 0, 1), vn = kase("v.neg", 0, 1);
  EF u, v; put(u, "u", cu, un, cu == FIN ? anyexp("u.exp/8") : 0); put(v, "v", cv, vn, cv == FIN ? anyexp("v.exp/8") : 0);
  u.my_prec_elem = (int)kase("u.prec", 3, 5) * 4 - 4; v.my_prec_elem = (int)kase("v.prec", 3, 5) * 4 - 4; // 8, 12, 16: the precision is part of the value
  Ghost gu = view(u), gv = view(v);
  { EF w(u); check(same_rep(view(w), gu), "copy construction"); w.negate(); w.my_data.data()[3] = 5; w.my_exp = 8; }
  check(same_rep(view(u), gu), "a copy shares no state");
  { EF w; w = u; check(same_rep(view(w), gu), "copy assignment"); EF& r = (w = w); check(&r == &w, "assignment returns *this"); check(same_rep(view(w), gu), "self assignment"); w.my_data.data()[3] = 5; w.my_exp = 8; w.negate(); }
  check(same_rep(view(u), gu), "an assigned copy shares no state");
  { EF w(u), t(static_cast<EF&&>(w)); check(same_rep(view(t), gu), "move construction"); EF s; s = static_cast<EF&&>(t); check(same_rep(view(s), gu), "move assignment");
    w = v; check(same_rep(view(w), gv), "a moved-from value can be assigned"); t = v; check(same_rep(view(t), gv), "a moved-from value can be assigned"); }
  { EF w(u); EF& q = w; w = static_cast<EF&&>(q); check(same_rep(view(w), gu), "self move assignment"); }
  u.swap(v); check(same_rep(view(u), gv), "swap"); check(same_rep(view(v), gu), "swap");
  u.swap(u); check(same_rep(view(u), gv), "swap with itself");
  u.swap(v); check(same_rep(view(u), gu), "swap twice"); check(same_rep(view(v), gv), "swap twice");
}

// storage: every live object owns exactly one block, and all of it is given back
VF_HARNESS(h_storage)
{
  EF u(anyv("u", "u.cls", "u.neg", "u.exp/8")), v(7);
  Ghost gu = view(u), gv = view(v);
  int op = (int)kase("operation", 0, 13);
  std::int64_t before = vf_heap_live();
  { EF a(u), b(v);
    std::int64_t two = vf_heap_live(); check(two == before + 2, "one block of storage for each object");
    switch (op) {
      case 0: a = b; check(same_rep(view(a), gv), "assignment"); break;
      case 1: a = static_cast<EF&&>(b); check(same_rep(view(a), gv), "move assignment"); break;
      case 2: { EF c(static_cast<EF&&>(a)); check(same_rep(view(c), gu), "move construction"); } break;
      case 3: { EF c(static_cast<EF&&>(a)); a = b; check(same_rep(view(a), gv), "assignment to a moved-from object"); check(same_rep(view(c), gu), "assignment to a moved-from object leaves the new owner alone"); } break;
      case 4: { EF c(static_cast<EF&&>(a)); a = static_cast<EF&&>(b); check(same_rep(view(a), gv), "move assignment to a moved-from object"); check(same_rep(view(c), gu), "move assignment to a moved-from object leaves the new owner alone"); } break;
      case 5: std::swap(a, b); check(same_rep(view(a), gv), "std::swap"); check(same_rep(view(b), gu), "std::swap"); break;
      case 6: a.swap(b); check(same_rep(view(a), gv), "swap"); check(same_rep(view(b), gu), "swap"); break;
      case 7: { EF& r = a; a = static_cast<EF&&>(r); check(same_rep(view(a), gu), "move assignment to itself"); } break;
      case 8: { EF& r = a; a = r; check(same_rep(view(a), gu), "assignment to itself"); } break;
      case 9: { EF c(-a); c.negate(); if (view(a).cls != NAN_) check(same(view(c), gu), "negated copy"); check(same_rep(view(a), gu), "negated copy leaves the operand alone"); } break;
      case 10: { EF c(a), d(c), e(d); c = b; d = b; check(same_rep(view(e), gu), "chain of copies"); check(same_rep(view(d), gv), "chain of copies"); e = d = c; check(same_rep(view(e), gv), "chained assignment"); } break;
      case 11: { EF* p = new EF(a); EF c(*p); delete p; check(same_rep(view(c), gu), "a copy outlives its source"); } break;
      case 12: { EF w[3]; w[0] = a; w[1] = b; w[2] = w[0]; w[0] = w[1]; check(same_rep(view(w[2]), gu), "array elements are independent"); check(same_rep(view(w[0]), gv), "array elements are independent"); } break;
      default: { std::pair<EF, EF> p(a, b), q(p); p.first = p.second; check(same_rep(view(q.first), gu), "copied pair is independent"); check(same_rep(view(p.first), gv), "pair assignment"); } break; }
    check(same_rep(view(u), gu), "the source of a copy is unchanged"); check(same_rep(view(v), gv), "the source of a copy is unchanged"); }
  check(vf_heap_live() == before, "all storage is given back");
}
// constructors start from zero, and a default constructed value is zero
VF_HARNESS(h_construct)
{
  EF z; Ghost g = view(z); inv(z, "default constructor: representation invariant"); check((g.cls == ZERO) & !g.neg & (g.exp == 0) & (g.prec == N), "a default constructed value is zero");
  Ghost o = view(ef::one()); check((o.cls == FIN) & !o.neg & (o.exp == 0), "one"); check(mant(o) == B(N - 1), "one");
  z = ef::one(); check(same_rep(view(z), o), "assigned constant"); z.negate(); check(same_rep(view(ef::one()), o), "constants are not affected by their copies");
}
typedef util::dynamic_array<std::uint32_t> DA; typedef DA::size_type S;
static void fill(DA& a, const char* nm) { for (unsigned i = 0; i < a.size(); ++i) a[i] = (std::uint32_t)u64(nm, i, 0, 0xffffffffu); }
// the dynamic array: copies are equal and independent, moves transfer, comparison is element-wise
VF_HARNESS(h_dynarray)
{
  unsigned n = (unsigned)kase("size", 0, 4); int op = (int)kase("operation", 0, 6);
  std::int64_t before = vf_heap_live();
  { DA a(S(n), 0u), b(S(4), 9u); fill(a, "a"); bool ok = true; std::uint32_t s[4] = {}; for (unsigned i = 0; i < n; ++i) s[i] = a[i];
    check((a.size() == n) & (b.size() == 4) & (a.empty() == (n == 0)) & (a.end() - a.begin() == (std::ptrdiff_t)n), "size"); check((b[0] == 9) & (b[3] == 9) & (b.front() == 9) & (b.back() == 9), "filled on construction");
    switch (op) {
      case 0: { DA c(a); check(c == a, "a copy is equal"); check(c.size() == n, "a copy has the same size"); if (n) { c[n - 1] = c[n - 1] + 1; check(c != a, "a copy is independent"); check(Z(a[n - 1]) == Z(s[n - 1]), "a copy is independent"); } } break;
      case 1: { DA c(static_cast<DA&&>(a)); check((c.size() == n) & a.empty(), "a move transfers the elements"); for (unsigned i = 0; i < n; ++i) check(Z(c[i]) == Z(s[i]), "a move transfers the elements"); a = c; check(a == c, "a moved-from array can be assigned"); } break;
      case 2: { b = static_cast<DA&&>(a); check((b.size() == n) & a.empty(), "move assignment transfers the elements"); for (unsigned i = 0; i < n; ++i) check(Z(b[i]) == Z(s[i]), "move assignment transfers the elements"); } break;
      case 3: { DA c(S(n), 1u); c = a; check(c == a, "assignment between arrays of one size"); c = static_cast<DA&>(c); check(c == a, "assignment to itself"); DA& r = c; c = static_cast<DA&&>(r); check(c == a, "move assignment to itself"); } break;
      case 4: { a.swap(b); check((b.size() == n) & (a.size() == 4), "swap"); for (unsigned i = 0; i < n; ++i) check(Z(b[i]) == Z(s[i]), "swap"); for (unsigned i = 0; i < 4; ++i) check(a[i] == 9, "swap"); a.fill(3u); for (unsigned i = 0; i < 4; ++i) check(a[i] == 3, "fill"); } break;
      case 5: { DA c(a.begin(), a.end()); check(c == a, "range construction"); check((c == a) != (c != a), "equality and inequality"); DA d(S(n), 0u); fill(d, "d"); bool eq = true; for (unsigned i = 0; i < n; ++i) eq = both(eq, Z(d[i]) == Z(s[i])); check((d == a) == eq, "equality is element-wise"); check(!(a == b) | (n == 4), "arrays of different size are different"); } break;
      default: { DA e(S(4), 0u); fill(e, "e"); if (n == 4) { int k = 4; for (int i = 3; i >= 0; --i) if (!(Z(e[i]) == Z(s[i]))) k = i; bool lt = k < 4 && Z(s[k & 3]) < Z(e[k & 3]); check((a < e) == lt, "order is lexicographical"); check((e > a) == lt, "order is lexicographical"); } else if (n == 0) { check(a < e, "an empty array is less"); check(!(a < a), "an empty array is not less than itself"); } DA c{1u, 2u, 3u}; check((c.size() == 3) & (c[0] == 1) & (c[2] == 3) & (c.at(1) == 2), "initialiser list"); } break; } }
  check(vf_heap_live() == before, "all storage is given back");
}
