"""Integer terms: polynomials with integer coefficients over named integer symbols, and conditions.

Symbols are mathematical integers.  Definitional symbols carry their definition:
  ('div', t, d, which)   quotient ('q') or remainder ('r') of floor division of t by d (d >= 1)
  ('bool', cond)         1 if cond else 0
All definitions are total, hence valid on every path."""
from math import gcd

class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'df', 'inp', 'exp', 'keep')
    def __init__(self, id, name, lo, hi, df, inp):
        self.id, self.name, self.lo, self.hi, self.df, self.inp = id, name, lo, hi, df, inp
        self.exp = None; self.keep = False      # keep: not to be eliminated by equations

SYMS = []
INF = None

def new_sym(name, lo=None, hi=None, df=None, inp=False):
    s = Sym(len(SYMS), name, lo, hi, df, inp); SYMS.append(s)
    return s

class Poly:
    __slots__ = ('d', '_h', '_k', '_s', '_ex')
    def __init__(self, d):
        self.d = d; self._h = None; self._k = None; self._s = None; self._ex = None
    def key(self):
        if self._k is None: self._k = frozenset(self.d.items())
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d
    def const(self): return self.d.get((), 0)
    def isconst(self): return not self.d or (len(self.d) == 1 and () in self.d)
    def syms(self):
        if self._s is None:
            s = set()
            for m in self.d: s.update(m)
            self._s = s
        return self._s
    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: (len(x[0]), x[0])):
            out.append('%d%s' % (c, ''.join('*' + SYMS[i].name for i in m)))
        return ' + '.join(out) if out else '0'

def psym(s): return Poly({(s.id,): 1})

def mk(d):
    """Poly or int"""
    if not d: return 0
    if len(d) == 1 and () in d: return d[()]
    return Poly(d)

def add(a, b):
    if type(a) is int:
        if type(b) is int: return a + b
        if a == 0: return b
        d = dict(b.d); c = d.get((), 0) + a
        if c: d[()] = c
        else: d.pop((), None)
        return mk(d)
    if type(b) is int:
        if b == 0: return a
        d = dict(a.d); c = d.get((), 0) + b
        if c: d[()] = c
        else: d.pop((), None)
        return mk(d)
    if len(a.d) < len(b.d): a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m, 0) + c
        if x: d[m] = x
        else: del d[m]
    return mk(d)

def scale(a, k):
    if type(a) is int: return a * k
    if k == 0: return 0
    if k == 1: return a
    return Poly({m: c * k for m, c in a.d.items()})

def neg(a): return scale(a, -1)
def sub(a, b): return add(a, scale(b, -1))

def mmul(m, n):
    if not m: return n
    if not n: return m
    if len(m) == 1 and len(n) == 1:
        r = (m[0], n[0]) if m[0] <= n[0] else (n[0], m[0])
    else: r = tuple(sorted(m + n))
    return r

def mul(a, b):
    if type(a) is int: return scale(b, a)
    if type(b) is int: return scale(a, b)
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            k = mmul(m, n)
            # idempotent boolean symbols
            if len(k) > 1:
                k = squash(k)
            x = d.get(k, 0) + c * e
            if x: d[k] = x
            else: d.pop(k, None)
    return mk(d)

def squash(k):
    out = []; prev = None
    for i in k:
        if i == prev:
            s = SYMS[i]
            if s.lo == 0 and s.hi == 1: continue
        out.append(i); prev = i
    return tuple(out)

def subst(a, sm):
    """substitute symbols (dict id -> term)"""
    if type(a) is int: return a
    if not (a.syms() & sm.keys()): return a
    r = 0; keep = {}
    for m, c in a.d.items():
        if any(i in sm for i in m):
            t = c
            for i in m:
                t = mul(t, sm[i] if i in sm else Poly({(i,): 1}))
            r = add(r, t)
        else: keep[m] = c
    return add(r, mk(keep))

def expand(a):
    """replace remainder symbols r by t - d*q, recursively"""
    if type(a) is int: return a
    if a._ex is not None: return a._ex
    sm = {}
    for i in a.syms():
        s = SYMS[i]
        if s.df and s.df[0] == 'div' and s.df[3] == 'r':
            if s.exp is None:
                _, t, dv, _, q = s.df
                s.exp = expand(sub(t, mul(dv, psym(q))))
            sm[i] = s.exp
        elif s.df and s.df[0] == 'rem':
            if s.exp is None: s.exp = expand(sub(s.df[1], mul(s.df[2], s.df[3])))
            sm[i] = s.exp
    r = subst(a, sm) if sm else a
    a._ex = r
    return r

# ---------------------------------------------------------------- conditions
# True/False | ('le', p) p<=0 | ('eq', p) | ('ne', p) | ('and', (..)) | ('or', (..))
def le(p):
    if type(p) is int: return p <= 0
    g = 0
    for m, c in p.d.items():
        if m: g = gcd(g, c)
    if g > 1:
        d = {m: c // g for m, c in p.d.items() if m}
        c0 = p.d.get((), 0)
        c0 = -((-c0) // g)
        if c0: d[()] = c0
        p = Poly(d)
    return ('le', p)

def _canon_eq(p):
    g = 0
    for m, c in p.d.items():
        if m: g = gcd(g, c)
    c0 = p.d.get((), 0)
    if c0 % g: return None
    k = min(m for m in p.d if m)
    if p.d[k] < 0: g = -g
    if g != 1: p = Poly({m: c // g for m, c in p.d.items()})
    return p

def eq(p):
    if type(p) is int: return p == 0
    q = _canon_eq(p)
    if q is None: return False
    return ('eq', q)

def ne(p):
    if type(p) is int: return p != 0
    q = _canon_eq(p)
    if q is None: return True
    return ('ne', q)

def cnot(c):
    if c is True: return False
    if c is False: return True
    k = c[0]
    if k == 'le': return le(sub(1, c[1]))
    if k == 'eq': return ('ne', c[1])
    if k == 'ne': return ('eq', c[1])
    if k == 'and': return cor([cnot(x) for x in c[1]])
    if k == 'or': return cand([cnot(x) for x in c[1]])
    raise Exception(c)

def cand(cs):
    out = []
    for c in cs:
        if c is True: continue
        if c is False: return False
        if c[0] == 'and': out.extend(x for x in c[1] if x not in out)
        elif c not in out: out.append(c)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))

def cor(cs):
    out = []
    for c in cs:
        if c is False: continue
        if c is True: return True
        if c[0] == 'or': out.extend(x for x in c[1] if x not in out)
        elif c not in out: out.append(c)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))

def cxor(a, b):
    if a is True: return cnot(b)
    if a is False: return b
    if b is True: return cnot(a)
    if b is False: return a
    return cor([cand([a, cnot(b)]), cand([cnot(a), b])])

def csyms(c, acc):
    if c is True or c is False: return acc
    if c[0] in ('and', 'or'):
        for x in c[1]: csyms(x, acc)
    else: acc |= c[1].syms()
    return acc

_bool_memo = {}
def bool_term(c):
    """0/1 term equal to condition c"""
    if c is True: return 1
    if c is False: return 0
    # a condition on a 0/1 symbol is the symbol itself
    if c[0] in ('eq', 'ne', 'le'):
        p = c[1]
        if len(p.d) <= 2:
            ms = [m for m in p.d if m]
            if len(ms) == 1 and len(ms[0]) == 1:
                s = SYMS[ms[0][0]]
                if s.lo == 0 and s.hi == 1:
                    a = p.d[ms[0]]; c0 = p.d.get((), 0)
                    v0 = c0; v1 = a + c0
                    t0 = {'eq': v0 == 0, 'ne': v0 != 0, 'le': v0 <= 0}[c[0]]
                    t1 = {'eq': v1 == 0, 'ne': v1 != 0, 'le': v1 <= 0}[c[0]]
                    if t0 and t1: return 1
                    if not t0 and not t1: return 0
                    return psym(s) if t1 else sub(1, psym(s))
    t = _bool_memo.get(c)
    if t is None:
        n = cnot(c)
        t = _bool_memo.get(n)
        if t is not None: return sub(1, t)
        s = new_sym('b%d' % len(SYMS), 0, 1, ('bool', c))
        t = _bool_memo[c] = psym(s)
    return t

_div_memo = {}
def divmod_syms(t, d):
    """q, r symbols of floor division (memoised)"""
    k = (t, d)
    x = _div_memo.get(k)
    if x is None:
        n = len(SYMS)
        q = new_sym('q%d' % n); r = new_sym('r%d' % n)
        q.df = ('div', t, d, 'q', q); r.df = ('div', t, d, 'r', q)
        r.lo = 0
        if type(d) is int: r.hi = d - 1
        lo, hi = ginterval(t)
        if type(d) is int:
            if lo is not None: q.lo = lo // d
            if hi is not None: q.hi = hi // d
        else:
            dl, dh = ginterval(d)
            if lo is not None and lo >= 0: q.lo = 0; q.hi = hi if not dl or hi is None else hi // dl
            if dh is not None: r.hi = dh - 1
        x = _div_memo[k] = (q, r)
    return x

_rem_memo = {}
def rem_sym(t, d, q):
    """symbol for t - d*q where q (a term) is known to be floor(t/d)"""
    k = (t, d); r = _rem_memo.get(k)
    if r is None:
        s = new_sym('r%d' % len(SYMS), 0, d - 1, ('rem', t, d, q))
        r = _rem_memo[k] = psym(s)
    return r

def ginterval(p, bounds=None):
    """interval of a term under global symbol bounds (and optional refinement)"""
    if type(p) is int: return (p, p)
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            if lo is not None: lo += c
            if hi is not None: hi += c
            continue
        a, b = mono_interval(m, bounds)
        if c < 0: a, b = b, a
        lo = None if (a is None or lo is None) else lo + c * a
        hi = None if (b is None or hi is None) else hi + c * b
        if lo is None and hi is None: return (None, None)
    return (lo, hi)

def mono_interval(m, bounds=None):
    a = b = None; first = True
    for i in m:
        s = SYMS[i]
        x, y = s.lo, s.hi
        if bounds is not None:
            z = bounds.get(i)
            if z is not None: x, y = z
        if first: a, b = x, y; first = False
        else:
            if a is None or x is None or b is None or y is None:
                # nonneg * nonneg keeps a lower bound
                if a is not None and x is not None and a >= 0 and x >= 0:
                    a, b = a * x, (None if b is None or y is None else b * y)
                else: return (None, None)
            else:
                v = (a * x, a * y, b * x, b * y)
                a, b = min(v), max(v)
    return (a, b)
