"""Exact field arithmetic for the abstraction of e_float objects: values are quotients of integer polynomials (the
denominator is positive on every path), square roots are symbols with the rewrite rule s*s -> radicand, other functions
are uninterpreted symbols (the same symbol for equal arguments)."""
from math import gcd, isqrt
import terms
from terms import *
from vexec import *
import handlers

import os
DBG = os.environ.get('VF_FIELD_DEBUG')
def show(q): return ' / '.join(str(t) if type(t) is int else ' + '.join('%d*%s' % (c, '*'.join(SYMS[i].name for i in m)) for m, c in t.d.items()) for t in q)[:600]
H = {}; PRE = []
def h(n):
    def d(f): H[n] = f; return f
    return d
def tab(e):
    t = getattr(e, 'qt', None)
    if t is None: e.qt = t = []; e.qsq = {}; e.qfn = {}; e.qD = None; e.qcache = {}; e.qroot = {}; e.qexp = {}; e.qtri = {}; e.qfacts = {}
    return t
def put(e, n, d):
    t = tab(e); n, d = simp(n, d); t.append((n, d)); return len(t) - 1
def content(p):
    """integer gcd and common monomial of a term"""
    if type(p) is int: return abs(p), ()
    g = 0; common = None
    for m, c in p.d.items():
        g = gcd(g, c)
        if common is None: common = list(m)
        else:
            q = list(m); nc = []
            for x in common:
                if x in q: q.remove(x); nc.append(x)
            common = nc
    return g, tuple(common)
def divm(p, g, m):
    if type(p) is int: return p // g
    if not m: return mk({k: c // g for k, c in p.d.items()})
    out = {}
    for k, c in p.d.items():
        l = list(k)
        for x in m: l.remove(x)
        out[tuple(l)] = c // g
    return mk(out)
def inter(a, b):
    b = list(b); r = []
    for x in a:
        if x in b: b.remove(x); r.append(x)
    return tuple(r)
def simp(n, d):
    if type(n) is int and n == 0: return 0, 1
    g1, m1 = content(n); g2, m2 = content(d)
    g = gcd(g1, g2); m = inter(m1, m2)
    # denominators are positive; only symbols known to be positive are cancelled
    m = tuple(i for i in m if SYMS[i].lo is not None and SYMS[i].lo >= 1)
    if g > 1 or m: n, d = divm(n, g, m), divm(d, g, m)
    if n == d: return 1, 1
    if type(n) is not int and type(d) is not int and len(n.d) == len(d.d) > 1:      # a common factor of several terms
        g1, m1 = content(n); g2, m2 = content(d)
        if all(SYMS[i].lo is not None and SYMS[i].lo >= 1 for i in m2):
            p, q = divm(n, g1, m1), divm(d, g2, m2)
            if p == q or p == neg(q): return simp(mk({tuple(m1): g1 if p == q else -g1}), mk({tuple(m2): g2}))
    return n, d
def reduce(e, p):
    sq = getattr(e, 'qsq', {})
    if type(p) is int or not sq: return p
    while True:
        hit = None
        for m in p.d:
            for a, b in zip(m, m[1:]):
                if a == b and a in sq: hit = a if hit is None else max(hit, a)
        if hit is None: return p
        r = 0; keep = {}
        for m, c in p.d.items():
            k = m.count(hit)
            if k >= 2:
                l = list(m)
                for _ in range(k - k % 2): l.remove(hit)
                t = mk({tuple(l): c})
                for _ in range(k // 2): t = mul(t, sq[hit])
                r = add(r, t)
            else: keep[m] = c
        p = add(r, mk(keep))
        if type(p) is int: return p
def diff(e, st, a, b):
    (n1, d1), (n2, d2) = tab(e)[a], tab(e)[b]
    p = sub(n1, n2) if d1 == d2 else sub(mul(n1, d2), mul(n2, d1))
    return reduce(e, st.norm(reduce(e, p)))
def D(e):
    tab(e)
    if e.qD is None: e.qD = new_sym('D', 1, None, inp=True); e.qD.keep = True; __import__('vexec').State.renorm = True
    return psym(e.qD)
def nrm(e, st, n): return reduce(e, st.norm(reduce(e, n)))

@h('vf_qin_')
def qin(e, st, a, ins):
    nme = handlers.nm(e, st, a); d = D(e)
    s = e.nd.get(nme)
    if s is None: s = e.nd[nme] = new_sym(nme, inp=True)
    for x in ((nme, s.id), ('D', e.qD.id)):
        if all(y[0] != x[0] for y in st.inputs): st.inputs.append(x)
    return put(e, st.norm(psym(s)), d)
@h('vf_qhavoc')
def qhavoc(e, st, a, ins): return put(e, psym(new_sym('h%d' % len(SYMS))), D(e))
@h('vf_qrat')
def qrat(e, st, a, ins):
    n, d = e.zt[a[0]], e.zt[a[1]]
    if not (type(d) is int and d > 0): raise Failure('contract', 'denominator of a literal')
    return put(e, n, d)
@h('vf_qadd')
def qadd(e, st, a, ins):
    (n1, d1), (n2, d2) = tab(e)[a[0]], tab(e)[a[1]]
    if d1 == d2: return triple(e, st, put(e, nrm(e, st, add(n1, n2)), d1))
    return triple(e, st, put(e, nrm(e, st, add(mul(n1, d2), mul(n2, d1))), mul(d1, d2)))
@h('vf_qneg')
def qneg(e, st, a, ins):
    n, d = tab(e)[a[0]]; return put(e, neg(n), d)
@h('vf_qmul')
def qmul(e, st, a, ins):
    (n1, d1), (n2, d2) = o1, o2 = tab(e)[a[0]], tab(e)[a[1]]
    n1, d2 = simp(n1, d2); n2, d1 = simp(n2, d1)
    if DBG and type(d1) is not int and max(map(len, d1.d)) > 12: print('BIGD', show(o1)[:300], '##', show(o2)[:300], {SYMS[k].name: str(v)[:50] for k, v in st.sub.items()})
    r = fput(e, st, nrm(e, st, mul(n1, n2)), mul(d1, d2))
    if DBG and type(n1) is not int and len(n1.d)>3: print('BIGM', show(o1)[:200], {SYMS[k].name: str(v)[:50] for k, v in st.sub.items()})
    if o1 == o2: e.qroot[tab(e)[r]] = o1
    return triple(e, st, r)
def fput(e, st, n, d):
    """put, with exp(a)*exp(b) = exp(a+b)"""
    if len(e.qexp) < 2: return put(e, n, d)
    n, d = simp(n, d)
    if n == 0: return put(e, 0, 1)
    xs = [x for x in content(n)[1] if x in e.qexp]; ys = [x for x in content(d)[1] if x in e.qexp]
    if len(xs) + len(ys) < 2: return put(e, n, d)
    h = None; n1 = divm(n, 1, tuple(sorted(xs))); d1 = divm(d, 1, tuple(sorted(ys)))
    for x in xs: h = e.qexp[x] if h is None else qadd(e, st, [h, e.qexp[x]], None)
    for y in ys:
        t = qneg(e, st, [e.qexp[y]], None); h = t if h is None else qadd(e, st, [h, t], None)
    n2, d2 = tab(e)[qfun_(e, st, 'exp', [h])]
    n1, d1 = mul(n1, n2), mul(d1, d2)
    for _ in range(abs(len(xs) - len(ys))):
        if len(xs) > len(ys): n1 = mul(n1, D(e))
        else: d1 = mul(d1, D(e))
    return put(e, n1, d1)
def triple(e, st, r):
    """3 sin t - 4 sin^3 t = sin 3t, 4 cos^3 t - 3 cos t = cos 3t"""
    n, d = tab(e)[r]
    if type(n) is int or len(n.d) != 2: return r
    for x in set(content(n)[1]):
        if x not in e.qtri: continue
        f, a = e.qtri[x]; X, D_ = psym(SYMS[x]), D(e)
        t = sub(mul(3, mul(X, mul(D_, D_))), mul(4, mul(X, mul(X, X)))); D3 = mul(D_, mul(D_, D_))
        l, m = mul(n, D3), mul(t, d)
        if l == m or l == neg(m):
            a3 = qmul(e, st, [put(e, 3, 1), a], None)
            q = qfun_(e, st, f, [a3])
            return q if (l == m) == (f == 'sin') else qneg(e, st, [q], None)
    return r
def sign(e, st, q):
    n = nrm(e, st, tab(e)[q][0])
    if type(n) is int: return (n > 0) - (n < 0)
    return psign(e, st, n)
def psign(e, st, n):
    if type(n) is int: return (n > 0) - (n < 0)
    g, m = content(n)
    if m:                                              # factor by factor
        s = 1
        for i in set(m):
            t = psign1(e, st, st.norm(psym(SYMS[i])))
            if t == 0: return 0
            if m.count(i) & 1: s *= t
        r = st.norm(divm(n, g, m))
        return s * (psign(e, st, r) if type(r) is int or content(r)[1] else psign1(e, st, r))
    return psign1(e, st, n)
def psign1(e, st, n):
    if type(n) is int: return (n > 0) - (n < 0)
    for (kn, kd), (rn, rd) in e.qroot.items():         # a known square
        if type(kn) is not int and len(kn.d) == len(n.d) and len(n.d) > 1 and divm(kn, content(kn)[0], ()) == divm(n, content(n)[0], ()): return 1 if psign(e, st, st.norm(rn)) else 0
    dv = [SYMS[i] for i in n.syms() if SYMS[i].df is not None and SYMS[i].df[0] == 'div'] if e.qD is not None and e.qD.id not in n.syms() else ()
    if dv:
        m = nrm(e, st, mul(n, dv[0].df[2] if type(dv[0].df[2]) is not int else D(e))); p = [e.feasible(st, c) for c in (le(add(m, 1)), eq(m), le(sub(1, m)))]     # the denominator is positive
        if p.count(True) == 1: return p.index(True) - 1
        if not p[2]: return 0 if e.truth(st, eq(n)) else -1
        if not p[0]: return 0 if e.truth(st, eq(n)) else 1
    if DBG and len(n.d)>9 : print('BIG', [str(c)[:60] for c in st.pc if c[0]=='eq'], {SYMS[k].name: str(v)[:50] for k, v in st.sub.items()}, [SYMS[i].name for i in n.syms()], len(n.d), max(len(m) for m in n.d))
    if e.truth(st, eq(n)): return 0
    return 1 if e.truth(st, le(sub(1, n))) else -1
@h('vf_qsign')
def qsign(e, st, a, ins): return sign(e, st, a[0]) & 0xffffffff
@h('vf_qinv')
def qinv(e, st, a, ins):
    s = sign(e, st, a[0])
    if s == 0: raise Failure('contract', 'reciprocal of zero in a specification')
    n, d = tab(e)[a[0]]; n = nrm(e, st, n)
    return fput(e, st, d, n) if s > 0 else fput(e, st, neg(d), neg(n))
@h('vf_qsqrt')
def qsqrt(e, st, a, ins):
    s = sign(e, st, a[0])
    if s < 0: raise Failure('contract', 'square root of a negative value in a specification')
    if s == 0: return put(e, 0, 1)
    n, d = tab(e)[a[0]]; n = nrm(e, st, n)
    for k, (rn, rd) in list(e.qroot.items()):          # the value is the square of a known value
        if k == (n, d):
            rn = nrm(e, st, rn)
            return put(e, rn if e.truth(st, le(neg(rn))) else neg(rn), rd)
    p = reduce(e, mul(n, d))
    return put(e, sqrtterm(e, st, p), d)
def squarefree(g):
    """g = a*a*b"""
    a = 1; f = 2
    while f * f <= g and f < 1000:
        while g % (f * f) == 0: g //= f * f; a *= f
        f += 1
    r = isqrt(g)
    return (a * r, 1) if r * r == g else (a, g)
def sqrtterm(e, st, p):
    if type(p) is int:
        a, b = squarefree(p)
        return a if b == 1 else mul(a, sqsym(e, b))
    g, m = content(p); out = 1; odd = []
    for x in sorted(set(m)):
        c = m.count(x)
        for _ in range(c // 2):
            t = psym(SYMS[x])
            if not (SYMS[x].lo is not None and SYMS[x].lo >= 0) and not e.truth(st, le(neg(t))): t = neg(t)
            out = mul(out, t)
        if c % 2: odd.append(x)
    p0 = divm(p, g, m)
    for x in odd: p0 = mul(p0, psym(SYMS[x]))
    if type(p0) is not int and len(p0.d) > 1 and not odd:          # the square of a known value
        for (kn, kd), (rn, rd) in list(e.qroot.items()):
            if type(kn) is not int and len(kn.d) == len(p0.d) and divm(kn, *content(kn)) == p0:
                t = divm(rn, *content(rn))
                if not e.truth(st, le(neg(t))): t = neg(t)
                out = mul(out, t); p0 = 1; break
    a, b = squarefree(g)
    out = mul(out, a)
    if b != 1: out = mul(out, sqsym(e, b))
    return out if p0 == 1 else mul(out, sqsym(e, p0))
def sqsym(e, q):
    for s_, x in e.qsq.items():
        if x == q: return psym(SYMS[s_])
    x = new_sym('s%d' % len(SYMS), 1, None); e.qsq[x.id] = q
    return psym(x)
def bounds(e, f, a):
    """numeric bounds (times 10^9) of pi and of logarithms of constants"""
    from fractions import Fraction as Fr
    if f == 'pi': return 3141592653, 3141592654
    n, d = tab(e)[a]
    if f == 'log' and type(n) is int and type(d) is int and 0 < n < 10 ** 9 and d < 10 ** 9:
        import math
        v = math.log(n / d) * 1e9; return math.floor(v) - 2, math.ceil(v) + 2
def assume1(st, c):
    if c is not True and c not in st.facts: st.assume(c); st.facts.add(c)
def trigpos(e, st, r):
    """sin > 0 on (0, pi/2], cos > 0 on (-pi/2, pi/2)"""
    n, d = tab(e)[r]
    if type(n) is int or len(n.d) != 1 or not e.qfn.get('pi'): return
    x = next(iter(n.d))[0]
    if x not in e.qtri or st.decide(le(sub(1, n))) is not None: return
    if DBG: print('TRIG?', n)
    f, a = e.qtri[x]; pn, pd = tab(e)[e.qfn['pi'][0][1]]; an, ad = tab(e)[a]
    l, h = nrm(e, st, mul(2, mul(an, pd))), nrm(e, st, mul(pn, ad)); one = mul(ad, pd)
    up, dn = simp(sub(l, h), one)[0], simp(add(l, h), one)[0]          # sign of 2a - pi, 2a + pi
    if DBG: print('TRIG', up, dn)
    if e.feasible(st, le(sub(1, up)) if f == 'sin' else le(neg(up))): return
    if e.feasible(st, le(nrm(e, st, an)) if f == 'sin' else le(dn)): return
    st.assume(le(sub(1, n)))
def known(e, st, r):
    trigpos(e, st, r)
    for c in e.qfacts.get(r, ()):
        if c not in st.facts: st.assume(c); st.facts.add(c)
AT0 = {'sin': 0, 'cos': 1, 'exp': 1, 'atan': 0, 'asin': 0}
@h('vf_qfun')
def qfun(e, st, a, ins): return qfun_(e, st, handlers.cstr(e, st, a[0]), a[1:])
def qfun_(e, st, f, args):
    tab(e)
    if f in AT0 and diff(e, st, args[0], put(e, 0, 1)) == 0: return put(e, AT0[f], 1)
    if f == 'log' and diff(e, st, args[0], put(e, 1, 1)) == 0: return put(e, 0, 1)
    if f == 'powi' and diff(e, st, args[0], put(e, 0, 1)) == 0:
        n, d = tab(e)[args[1]]
        if type(n) is int and n > 0: return put(e, 0, 1)
    if f == 'log':
        for s, q in e.qexp.items():
            if diff(e, st, args[0], put(e, psym(SYMS[s]), D(e))) == 0: return q
    old = e.qfn.get(f, ())
    if f in ('sin', 'cos'):                            # a zero of the sine (cosine) at a: also at its (odd) multiples
        n, d = tab(e)[args[0]]
        for xs, r in old:
            if nrm(e, st, tab(e)[r][0]) == 0:
                m, k = tab(e)[xs[0]]; a, b = mul(n, k), mul(m, d)
                if type(a) is Poly and type(b) is Poly and a.d.keys() == b.d.keys():
                    i = next(iter(a.d)); q = a.d[i] // b.d[i]
                    if scale(b, q) == a and (f == 'sin' or q & 1): return put(e, 0, 1)
    eqs = [r for xs, r in old if all(diff(e, st, x, y) == 0 for x, y in zip(xs, args))]
    if eqs:                                            # congruence: arguments that became equal on this path
        r = eqs[0]
        for q in eqs[1:]: assume1(st, eq(diff(e, st, r, q)))
        if f == 'exp':
            m = qneg(e, st, [args[0]], None); (n1, d1) = tab(e)[r]
            for xs, q in old:
                if q != r and diff(e, st, xs[0], m) == 0: n2, d2 = tab(e)[q]; assume1(st, eq(nrm(e, st, sub(mul(n1, n2), mul(d1, d2)))))
        known(e, st, r); return r
    if f == 'powi':
        for xs, r in old:
            if all(e.prove(st, eq(diff(e, st, x, y)))[0] for x, y in zip(xs, args)): known(e, st, r); return r
    if f in AT0 and old:
        m = qneg(e, st, [args[0]], None)
        for xs, r in old:
            if diff(e, st, xs[0], m) == 0: return r if f == 'cos' else put(e, *tab(e)[r][::-1]) if f == 'exp' else qneg(e, st, [r], None)
    x = new_sym('%s%d' % (f, len(SYMS)), 1 if f in ('exp', 'pi') else None)
    r = put(e, psym(x), D(e)); X = psym(x)
    b = bounds(e, f, args[0])
    if b: e.qfacts[r] = [le(sub(mul(b[0], D(e)), mul(10 ** 9, X))), le(sub(mul(10 ** 9, X), mul(b[1], D(e))))]
    if f == 'powi': e.qfacts[r] = [ne(X)]     # only formed for bases other than zero
    known(e, st, r)
    if f == 'log':       # the sign of the logarithm of a constant
        n, d = tab(e)[args[0]]
        if type(n) is int and type(d) is int: x.lo, x.hi = (1, None) if n > d else (None, -1)
    if f == 'exp': e.qexp[x.id] = args[0]
    if f in ('sin', 'cos'): e.qtri[x.id] = (f, args[0]); trigpos(e, st, r)
    if DBG: print('NEW', x.name, [show(tab(e)[q]) for q in args], 'path', [str(c)[:90] for c in st.pc][-9:])
    e.qfn.setdefault(f, []).append((tuple(args), r))
    return r
@h('vf_qeq')
def qeq(e, st, a, ins):
    if DBG: print('PATH', [str(c)[:90] for c in st.pc][-40:])
    p = diff(e, st, a[0], a[1])
    if DBG and type(p) is not int: print('QEQ', [(SYMS[k].name, show(tab(e)[v])) for k, v in list(e.qexp.items()) + [(k, v[1]) for k, v in e.qtri.items()]], *[show(tab(e)[x]) for x in a], sep='\n   ')
    return eq(p)
@h('vf_qle')
def qle(e, st, a, ins): return le(diff(e, st, a[0], a[1]))
@h('vf_qfloor')
def qfloor(e, st, a, ins):
    """integer nearest below: fresh integer k with k <= q < k+1"""
    n, d = tab(e)[a[0]]; n, d = simp(nrm(e, st, n), d)
    if type(n) is int and type(d) is int: return put(e, n // d, 1)
    if d == 1 and all(SYMS[i].df is not None and SYMS[i].df[0] == 'div' for m in n.d for i in m): return put(e, n, 1)
    k = psym(divmod_syms(n, d)[0])
    for c in (le(nrm(e, st, sub(mul(d, k), n))), le(nrm(e, st, sub(n, sub(mul(d, add(k, 1)), 1))))):
        if c is not True and c not in st.facts: st.assume(c); st.facts.add(c)
    if DBG: print('FLOOR', k, '=', n, '/', d)
    return put(e, k, 1)
