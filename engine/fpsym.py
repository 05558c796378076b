"""Floating point in the verifier.

 * concrete `double` values are Python floats (IEEE double arithmetic of the host);
 * `FD(num, e, p)` is the exact dyadic number num*2^e (num an integer term, e a concrete int) held in a format
   with p significand bits; an operation stays FD only if its exact result is provably representable
   (hence equal to the correctly rounded result);
 * anything else becomes `FO`, an unknown floating-point value (every comparison on it is nondeterministic)."""
import math, struct
from terms import *

class FD:
    __slots__ = ('num', 'e', 'p')
    def __init__(self, num, e, p): self.num, self.e, self.p = num, e, p
    def __eq__(self, o): return isinstance(o, FD) and self.num == o.num and self.e == o.e
    def __hash__(self): return hash((self.num, self.e))
    def __repr__(self): return 'FD(%r*2^%d)' % (self.num, self.e)
class FO:
    __slots__ = ('tag',)
    def __init__(self, tag=''): self.tag = tag
    def __repr__(self): return 'FO(%s)' % self.tag

class FX:
    """80-bit constant infinity / nan"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __eq__(self, o): return isinstance(o, FX) and o.k == self.k
    def __hash__(self): return hash(self.k)

def parse80(hexs):
    """20 hex digits (LLVM 0xK constants)"""
    v = int(hexs, 16)
    se, m = v >> 64, v & (2**64 - 1)
    s = se >> 15; e = se & 0x7fff
    if e == 0x7fff: return FX('nan' if m & (2**63 - 1) else ('-inf' if s else 'inf'))
    if m == 0: return FD(0, 0, 64)
    n, x = m, (e if e else 1) - 16383 - 63
    while n % 2 == 0: n //= 2; x += 1
    return FD(-n if s else n, x, 64)

def prec(t): return {'double': 53, 'x86_fp80': 64, 'float': 24}[t.k]

def toFD(v, p=None):
    if isinstance(v, FD): return v
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v): return None
        if v == 0: return FD(0, 0, p or 53)
        m, e = math.frexp(v); n = int(m * 2**53); x = e - 53
        while n % 2 == 0: n //= 2; x += 1
        return FD(n, x, p or 53)
    return None

def fits(st, num, p):
    lo, hi = st.interval(st.norm(num)) if type(num) is not int else (num, num)
    if lo is None or hi is None: return False
    if type(num) is int:
        n = abs(num)
        while n and n % 2 == 0: n //= 2
        return n < 2**p
    return lo >= -2**p and hi <= 2**p

def isnonfinite(v): return isinstance(v, FX) or (isinstance(v, float) and (math.isinf(v) or math.isnan(v)))
def kindof(v):
    if isinstance(v, FX): return v.k
    if math.isnan(v): return 'nan'
    return 'inf' if v > 0 else '-inf'

def nondet(eng, st, fr, ins, tag):
    """fresh boolean, stable under re-execution of the same instruction"""
    k = ('fp', len(st.frames), st.steps, tag)
    s = new_sym('fp%d' % len(SYMS), 0, 1)
    return eq(sub(psym(s), 1))

def op(eng, st, fr, ins):
    from vexec import UNDEF, Failure
    k = ins[0]
    if k == 'fneg':
        a = eng.op(st, fr, ins[3])
        if isinstance(a, float): return -a
        if isinstance(a, FD): return FD(neg(a.num), a.e, a.p)
        if isinstance(a, FX): return FX({'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[a.k])
        return a if a is UNDEF else FO('neg')
    if k == 'fbin':
        o, t = ins[2], ins[3]
        a = eng.op(st, fr, ins[4]); b = eng.op(st, fr, ins[5])
        return arith(eng, st, o, t, a, b)
    if k == 'fcmp':
        pr, t = ins[2], ins[3]
        a = eng.op(st, fr, ins[4]); b = eng.op(st, fr, ins[5])
        return compare(eng, st, fr, ins, pr, a, b)
    raise Failure('unmodelled', 'fp ' + k)

def arith(eng, st, o, t, a, b):
    from vexec import UNDEF, Failure
    if a is UNDEF or b is UNDEF: return UNDEF
    p = prec(t)
    if isinstance(a, float) and isinstance(b, float) and t.k == 'double':
        try:
            if o == 'fadd': return a + b
            if o == 'fsub': return a - b
            if o == 'fmul': return a * b
            if o == 'fdiv':
                if b == 0: return math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
            if o == 'frem': return math.fmod(a, b)
        except OverflowError: pass
        raise Failure('unmodelled', o)
    x = toFD(a, p); y = toFD(b, p)
    if x is None or y is None: return FO(o)
    if o in ('fadd', 'fsub'):
        e = min(x.e, y.e)
        n = scale(x.num, 1 << (x.e - e)); m = scale(y.num, 1 << (y.e - e))
        r = add(n, m) if o == 'fadd' else sub(n, m)
    elif o == 'fmul':
        e = x.e + y.e; r = mul(x.num, y.num)
    elif o == 'fdiv' and type(y.num) is int and abs(y.num) == 1:
        e = x.e - y.e; r = scale(x.num, y.num)
    else: return FO(o)
    if type(r) is int: 
        z = r
        while z and z % 2 == 0: z //= 2; e += 1
        r = z
    r2 = st.norm(r)
    if fits(st, r2, p) and -1000 < e < 900: return FD(r2, e, p)
    return FO(o)

def compare(eng, st, fr, ins, pr, a, b):
    from vexec import UNDEF, Failure
    if a is UNDEF or b is UNDEF: return UNDEF
    if pr == 'true': return True
    if pr == 'false': return False
    if isinstance(a, float) and isinstance(b, float):
        un = a != a or b != b
        if pr == 'ord': return not un
        if pr == 'uno': return un
        if un: return pr[0] == 'u'
        return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
    if isinstance(a, FO) or isinstance(b, FO):
        return nondet(eng, st, fr, ins, 'fcmp')
    if isnonfinite(a) or isnonfinite(b):
        ka = kindof(a) if isnonfinite(a) else 'fin'; kb = kindof(b) if isnonfinite(b) else 'fin'
        un = ka == 'nan' or kb == 'nan'
        if pr == 'ord': return not un
        if pr == 'uno': return un
        if un: return pr[0] == 'u'
        rank = {'-inf': -1, 'fin': 0, 'inf': 1}
        x, y = rank[ka], rank[kb]
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]]
    if pr == 'ord': return True
    if pr == 'uno': return False
    x = toFD(a); y = toFD(b)
    e = min(x.e, y.e)
    # guard against astronomically different exponents
    n = scale(x.num, 1 << (x.e - e)) if x.e - e < 20000 else None
    m = scale(y.num, 1 << (y.e - e)) if y.e - e < 20000 else None
    if n is None or m is None: raise Failure('unmodelled', 'fcmp scale')
    d = st.norm(sub(n, m)); c = pr[1:]
    if c == 'eq': return eq(d)
    if c == 'ne': return ne(d)
    if c == 'lt': return le(add(d, 1))
    if c == 'le': return le(d)
    if c == 'gt': return le(sub(1, d))
    return le(neg(d))

def cast(eng, st, opn, t, v, t2):
    from vexec import UNDEF, Failure
    if v is UNDEF: return UNDEF
    if opn in ('uitofp', 'sitofp'):
        v = eng.norm_u(st, v, t.w) if opn[0] == 'u' else eng.norm_s(st, v, t.w)
        p = prec(t2)
        if type(v) is int:
            if t2.k == 'double': return float(v)
            if fits(st, v, p): return FD(v, 0, p)
            return FO('itofp')
        if fits(st, v, p): return FD(v, 0, p)
        return FO('itofp')
    if opn == 'fpext':
        if isinstance(v, float) and not isnonfinite(v): return v if t2.k == 'double' else toFD(v, prec(t2))
        if isinstance(v, float): return FX(kindof(v)) if t2.k == 'x86_fp80' else v
        if isinstance(v, FD): return FD(v.num, v.e, prec(t2))
        return v
    if opn == 'fptrunc':
        if isinstance(v, FX): return {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[v.k]
        if isinstance(v, FD) and fits(st, v.num, prec(t2)):
            if type(v.num) is int and t2.k == 'double' and -1000 < v.e < 900:
                return math.ldexp(v.num, v.e)
            return FD(v.num, v.e, prec(t2))
        if isinstance(v, float): return v if t2.k == 'double' else FO('fptrunc')
        return FO('fptrunc')
    if opn in ('fptoui', 'fptosi'):
        w = t2.w
        if isinstance(v, float):
            if isnonfinite(v): raise Failure('float-to-int-range', 'conversion of non-finite value')
            r = int(v)
        else:
            x = toFD(v)
            if x is None:
                if isinstance(v, FO): raise Failure('unmodelled', 'conversion of an unknown floating-point value to an integer')
                raise Failure('float-to-int-range', 'conversion of non-finite value')
            if x.e >= 0: r = scale(x.num, 1 << x.e)
            else:
                d = 1 << (-x.e); n = st.norm(x.num)
                if type(n) is int: r = int(math.copysign(abs(n) // d, n)) if n else 0
                else:
                    if not eng.truth(st, le(neg(n))):
                        q, _ = eng.divmodc(st, neg(n), d); r = neg(q)
                    else: r, _ = eng.divmodc(st, n, d)
        lo, hi = (0, 2**w - 1) if opn == 'fptoui' else (-2**(w - 1), 2**(w - 1) - 1)
        eng.implicit(st, 'float-to-int-range', cand([le(sub(lo, r)), le(sub(r, hi))]), 'float to i%d conversion out of range' % w)
        return r
    raise Failure('unmodelled', 'cast ' + opn)
