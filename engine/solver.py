"""SMT back ends: z3 (python API) and cvc5, over integer terms of terms.py."""
import time
import z3
from terms import SYMS, ginterval, mono_interval, csyms, Poly

class Stats:
    def __init__(self): self.z3_time = 0.0; self.z3_calls = 0; self.cvc5_time = 0.0; self.cvc5_calls = 0; self.unknown = 0
STATS = Stats()

_sym = {}
def zsym(i):
    v = _sym.get(i)
    if v is None: v = _sym[i] = z3.Int('x%d' % i)
    return v

_mono = {}
def zmono(m, nl):
    if len(m) == 1: return zsym(m[0])
    k = (m, nl)
    v = _mono.get(k)
    if v is None:
        if nl:
            v = zsym(m[0])
            for i in m[1:]: v = v * zsym(i)
        else:
            v = z3.Int('m' + '_'.join(map(str, m)))
        _mono[k] = v
    return v

def zpoly(p, nl):
    if type(p) is int: return z3.IntVal(p)
    ts = []
    for m, c in p.d.items():
        if not m: ts.append(z3.IntVal(c))
        elif c == 1: ts.append(zmono(m, nl))
        else: ts.append(z3.IntVal(c) * zmono(m, nl))
    return z3.Sum(ts) if len(ts) > 1 else ts[0]

def zcond(c, nl):
    if c is True: return z3.BoolVal(True)
    if c is False: return z3.BoolVal(False)
    k = c[0]
    if k == 'le': return zpoly(c[1], nl) <= 0
    if k == 'eq': return zpoly(c[1], nl) == 0
    if k == 'ne': return zpoly(c[1], nl) != 0
    if k == 'and': return z3.And([zcond(x, nl) for x in c[1]])
    if k == 'or': return z3.Or([zcond(x, nl) for x in c[1]])
    raise Exception(k)

def monos_of(c, acc):
    if c is True or c is False: return
    if c[0] in ('and', 'or'):
        for x in c[1]: monos_of(x, acc)
    else:
        for m in c[1].d:
            if len(m) > 1: acc.add(m)

_clo = {}
def closure(i):
    """symbols reachable from symbol i through definitions"""
    r = _clo.get(i)
    if r is None:
        s = SYMS[i]; acc = {i}
        if s.df is not None:
            if s.df[0] == 'bool': ds = csyms(s.df[1], set())
            else: ds = set().union(*[t.syms() for t in s.df[1:4] if isinstance(t, Poly)])
            for j in ds: acc |= closure(j)
        r = _clo[i] = frozenset(acc)
    return r

def build(conds, seeds, bounds, nl, full=False):
    """relevant constraints (cone of influence of seeds) -> list of z3 exprs, symbol set"""
    from terms import sub, mul, psym, le, eq, cor, cand, cnot
    S = set(); work = list(seeds); out = []; monos = set()
    pend = [(c, csyms(c, set())) for c in conds]
    bysym = {}
    for idx, (c, ss) in enumerate(pend):
        al = set()
        for i in ss: al |= closure(i)
        for i in al: bysym.setdefault(i, []).append(idx)
    used = set(); defs = set()
    def addc(c):
        out.append(zcond(c, nl)); monos_of(c, monos)
    if full:
        for idx, (c, ss) in enumerate(pend):
            used.add(idx); addc(c); work.extend(ss)
    while work:
        i = work.pop()
        if i in S: continue
        S.add(i)
        s = SYMS[i]
        lo, hi = s.lo, s.hi
        if bounds is not None and i in bounds: lo, hi = bounds[i]
        v = zsym(i)
        if lo is not None: out.append(v >= lo)
        if hi is not None: out.append(v <= hi)
        if s.df is not None:
            d = s.df
            if d[0] == 'div':
                q = d[4]; key = ('d', q.id)
                if key not in defs:
                    defs.add(key)
                    from terms import divmod_syms
                    qq, rr = divmod_syms(d[1], d[2])
                    # t = d*q + r, 0 <= r < d
                    addc(eq(sub(sub(d[1], mul(d[2], psym(qq))), psym(rr))))
                    if type(d[2]) is not int: addc(le(add_(psym(rr), d[2])))
                    work.append(qq.id); work.append(rr.id)
                    if type(d[1]) is not int: work.extend(d[1].syms())
                    if type(d[2]) is not int: work.extend(d[2].syms())
            elif d[0] == 'rem':
                ex = sub(sub(d[1], mul(d[2], d[3])), psym(SYMS[i]))
                addc(eq(ex)); work.extend(ex.syms())
            elif d[0] == 'bool':
                cs = csyms(d[1], set()); work.extend(cs)
                out.append((v == 1) == zcond(d[1], nl)); monos_of(d[1], monos)
        for idx in bysym.get(i, ()):
            if idx not in used:
                used.add(idx)
                c, ss = pend[idx]
                addc(c); work.extend(ss)
    for m in monos: 
        for i in m:
            if i not in S: work.append(i)
    while work:
        i = work.pop()
        if i in S: continue
        S.add(i); s = SYMS[i]; v = zsym(i)
        lo, hi = s.lo, s.hi
        if bounds is not None and i in bounds: lo, hi = bounds[i]
        if lo is not None: out.append(v >= lo)
        if hi is not None: out.append(v <= hi)
    if not nl:
        for m in monos:
            a, b = mono_interval(m, bounds)
            v = zmono(m, False)
            if a is not None: out.append(v >= a)
            if b is not None: out.append(v <= b)
            if len(m) == 2:
                # McCormick envelopes
                (xa, xb), (ya, yb) = [bounds.get(i, (SYMS[i].lo, SYMS[i].hi)) if bounds else (SYMS[i].lo, SYMS[i].hi) for i in m]
                x, y = zsym(m[0]), zsym(m[1])
                if None not in (xa, xb, ya, yb):
                    out.append(v >= xa * y + ya * x - xa * ya)
                    out.append(v >= xb * y + yb * x - xb * yb)
                    out.append(v <= xb * y + ya * x - xb * ya)
                    out.append(v <= xa * y + yb * x - xa * yb)
                elif xa is not None and ya is not None:
                    out.append(v >= xa * y + ya * x - xa * ya)
    return out, S

def add_(r, d):
    from terms import sub
    return sub(sub(r, d), -1)

def check(conds, goal_neg, bounds, nl=False, timeout=3000, full=False, want_model=False, seeds=()):
    """satisfiability of conds and goal_neg.  returns ('unsat'|'sat'|'unknown', model or None)"""
    t0 = time.time()
    sd = csyms(goal_neg, set()) | set(seeds)
    cs, S = build(list(conds) + [goal_neg], sd, bounds, nl, full)
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(cs)
    s.add(zcond(goal_neg, nl))
    r = s.check()
    STATS.z3_calls += 1; STATS.z3_time += time.time() - t0
    if r == z3.unsat: return ('unsat', None)
    if r == z3.sat:
        mod = None
        if want_model:
            zm = s.model(); mod = {}
            for i in S:
                v = zm.eval(zsym(i), model_completion=True)
                try: mod[i] = v.as_long()
                except Exception: pass
        return ('sat', mod)
    STATS.unknown += 1
    return ('unknown', None)

def check_cvc5(conds, goal_neg, bounds, nl=True, timeout=20000, full=False):
    import cvc5
    t0 = time.time()
    sd = csyms(goal_neg, set())
    cs, S = build(list(conds) + [goal_neg], sd, bounds, nl, full)
    s = z3.Solver(); s.add(cs); s.add(zcond(goal_neg, nl))
    txt = s.to_smt2()
    tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
    slv = cvc5.Solver(tm) if tm else cvc5.Solver()
    slv.setOption('tlimit-per', str(timeout))
    slv.setLogic('QF_NIA' if nl else 'QF_LIA')
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'q')
    sm = p.getSymbolManager(); res = 'unknown'
    while True:
        c = p.nextCommand()
        if c.isNull(): break
        o = c.invoke(slv, sm)
        if str(o).strip() in ('sat', 'unsat', 'unknown'): res = str(o).strip()
    STATS.cvc5_calls += 1; STATS.cvc5_time += time.time() - t0
    return (res, None)
