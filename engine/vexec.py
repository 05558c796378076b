"""Symbolic execution / verification-condition generation over LLVM IR.

One `State` per path.  Integers are terms (terms.py) that represent the bit vector modulo 2^w; the
representative is normalised lazily (norm_u / norm_s), and every wrap-around that cannot be excluded is
made explicit.  A harness run yields obligations (explicit contract clauses and implicit ones: memory
safety, no division by zero, no signed overflow, no uninitialised value, no unmodelled external)."""
import sys, time, struct, math
import irparse
from irparse import Unsupported, Module, parse_body
from terms import *
import terms, solver

class Undef:
    def __repr__(self): return 'undef'
UNDEF = Undef()

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, x): return isinstance(x, Ptr) and self.o == x.o and self.off == x.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return 'ptr(%s+%s)' % (self.o, self.off)
NULL = Ptr(0, 0)

class FPtr:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f
    def __eq__(self, x): return isinstance(x, FPtr) and self.f == x.f
    def __hash__(self): return hash(self.f)
    def __repr__(self): return '&' + self.f

class Obj:
    __slots__ = ('id', 'size', 'cells', 'alive', 'kind', 'owner', 'name', 'ro', 'ghost')
    def __init__(self, id, size, kind, owner, name=''):
        self.id, self.size, self.kind, self.owner, self.name = id, size, kind, owner, name
        self.cells = {}; self.alive = True; self.ro = False; self.ghost = None
    def clone(self, owner):
        o = Obj(self.id, self.size, self.kind, owner, self.name)
        o.cells = dict(self.cells); o.alive = self.alive; o.ro = self.ro; o.ghost = self.ghost
        return o

class Frame:
    __slots__ = ('f', 'regs', 'blk', 'ip', 'prev', 'dest', 'allocas', 'onret')
    def __init__(self, f):
        self.f = f; self.regs = {}; self.blk = None; self.ip = 0; self.prev = None; self.dest = None; self.allocas = []; self.onret = None
    def copy(self):
        g = Frame(self.f); g.regs = dict(self.regs); g.blk = self.blk; g.ip = self.ip; g.prev = self.prev; g.dest = self.dest; g.allocas = list(self.allocas); g.onret = self.onret
        return g

class ForkOn(Exception):
    def __init__(self, conds): self.conds = conds
class MergePoint(Exception): pass
class NeedCase(Exception):
    def __init__(self, name, lo, hi): self.name, self.lo, self.hi = name, lo, hi
class Failure(Exception):
    """an implicit obligation failed on this path"""
    def __init__(self, kind, msg, cond=False): self.kind, self.msg, self.cond = kind, msg, cond
class PathEnd(Exception): pass
class PathAborted(Exception):
    def __init__(self, why): self.why = why

class State:
    def __init__(self):
        self.frames = []; self.objs = {}; self.pc = []; self.facts = set(); self.bounds = {}; self.sub = {}
        self.pb = {}; self.nd = {}; self.token = object(); self.ginit = {}; self.steps = 0; self.ghost = {}; self.trail = []
        self.covers = set(); self.inputs = []; self.returned = None; self.cases = {}; self.stop = None
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]; s.objs = dict(self.objs); s.pc = list(self.pc); s.facts = set(self.facts)
        s.bounds = dict(self.bounds); s.sub = dict(self.sub); s.pb = dict(self.pb); s.nd = dict(self.nd); s.token = object(); self.token = object()
        s.ginit = dict(self.ginit); s.steps = self.steps; s.ghost = dict(self.ghost); s.trail = list(self.trail); s.covers = set(self.covers)
        s.inputs = list(self.inputs); s.returned = None; s.cases = dict(self.cases); s.stop = self.stop
        return s
    def wobj(self, i):
        o = self.objs[i]
        if o.owner is not self.token:
            o = o.clone(self.token); self.objs[i] = o
        return o
    # ---- facts
    def norm(self, p):
        if type(p) is int or not self.sub: return p
        if not (p.syms() & self.sub.keys()): return p
        return subst(p, self.sub)
    def interval(self, p):
        if type(p) is int: return (p, p)
        lo, hi = ginterval(p, self.bounds)
        if self.pb and len(p.d) > 1:
            c = p.const()
            k = p if not c else sub(p, c)
            if type(k) is Poly:
                x = self.pb.get(k)
                if x is not None:
                    if x[0] is not None and (lo is None or x[0] + c > lo): lo = x[0] + c
                    if x[1] is not None and (hi is None or x[1] + c < hi): hi = x[1] + c
        return (lo, hi)
    def interval2(self, p, lo, hi, depth=2):
        """refine [lo,hi] of p by splitting on a defined 0/1 symbol and using its definition"""
        if type(p) is int: return (p, p)
        cand_ = [m[0] for m in p.d if len(m) == 1 and SYMS[m[0]].df is not None and SYMS[m[0]].df[0] == 'bool' and m[0] not in self.sub
                 and not any(m[0] in mm for mm in p.d if mm != m)]
        if not cand_: return (lo, hi)
        # prefer the symbol with the largest coefficient
        i = max(cand_, key=lambda j: abs(p.d[(j,)]))
        c = SYMS[i].df[1]; rl = rh = None; first = True
        a = p.d[(i,)]
        base = sub(p, Poly({(i,): a}))
        for v in (0, 1):
            q = add(base, a * v)
            x = c if v == 1 else cnot(c)
            l, h = self.interval(q) if type(q) is not int else (q, q)
            if type(q) is not int:
                for fc in ([x] if x[0] != 'and' else x[1]):
                    if fc[0] not in ('le', 'eq'): continue
                    cp = self.norm(fc[1])
                    if type(cp) is int: continue
                    for m, b in cp.d.items():
                        if not m: continue
                        e = q.d.get(m)
                        if e is None or e % b: continue
                        k = e // b       # q - k*cp eliminates m
                        r = sub(q, scale(cp, k))
                        l2, h2 = self.interval(r)
                        # cp <= 0 (or == 0): q = r + k*cp
                        if k >= 0 or fc[0] == 'eq':
                            if h2 is not None and (h is None or h2 < h): h = h2
                        if k <= 0 or fc[0] == 'eq':
                            if l2 is not None and (l is None or l2 > l): l = l2
                        break
                if depth > 1:
                    l, h = self.interval2(q, l, h, depth - 1)
            if l is not None and h is not None and l > h: continue    # infeasible case
            if first: rl, rh, first = l, h, False
            else:
                rl = None if rl is None or l is None else min(rl, l)
                rh = None if rh is None or h is None else max(rh, h)
        if first: return (lo, hi)
        if lo is not None and (rl is None or lo > rl): rl = lo
        if hi is not None and (rh is None or hi < rh): rh = hi
        if (rl, rh) != (lo, hi) and depth == 2:
            c0 = p.const(); k0 = sub(p, c0) if c0 else p
            x = self.pb.get(k0, (None, None))
            self.pb[k0] = (x[0] if rl is None else rl - c0, x[1] if rh is None else rh - c0)
        return (rl, rh)
    def decide(self, c):
        if c is True or c is False: return c
        k = c[0]
        if k == 'and':
            r = True
            for x in c[1]:
                y = self.decide(x)
                if y is False: return False
                if y is None: r = None
            return r
        if k == 'or':
            r = False
            for x in c[1]:
                y = self.decide(x)
                if y is True: return True
                if y is None: r = None
            return r
        if c in self.facts: return True
        if cnot(c) in self.facts: return False
        p = self.norm(c[1])
        if p is not c[1]:
            c2 = le(p) if k == 'le' else eq(p) if k == 'eq' else ne(p)
            if c2 is True or c2 is False: return c2
            if c2 in self.facts: return True
            if cnot(c2) in self.facts: return False
            p = c2[1]
        lo, hi = self.interval(p)
        r = self._dec(k, lo, hi)
        if r is None:
            lo, hi = self.interval2(p, lo, hi)
            r = self._dec(k, lo, hi)
        if r is None:
            e = expand(p)
            if e is not p and type(e) is not int:
                e = self.norm(e)
            if type(e) is int: return self._dec(k, e, e)
            if e is not p:
                lo, hi = self.interval(e)
                r = self._dec(k, lo, hi)
        return r
    @staticmethod
    def _dec(k, lo, hi):
        if k == 'le':
            if hi is not None and hi <= 0: return True
            if lo is not None and lo > 0: return False
        else:
            z = None
            if lo == 0 and hi == 0: z = True
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0): z = False
            if z is not None: return z if k == 'eq' else (not z)
        return None
    renorm = False                  # rewrite products in earlier facts when a symbol is eliminated
    def assume(self, c):
        """add a fact; returns False if it is syntactically contradictory"""
        n = len(self.sub); r = self._assume(c)
        while r and State.renorm and len(self.sub) > n:
            n = len(self.sub); new = []
            for f in self.pc:
                if f[0] in ('le', 'eq', 'ne') and any(len(m) > 1 and any(i in self.sub for i in m) for m in f[1].d): new.append(f)
            for f in new:
                p = self.norm(f[1]); r = r and self._assume(le(p) if f[0] == 'le' else eq(p) if f[0] == 'eq' else ne(p))
        return r
    def _assume(self, c):
        work = [c]
        while work:
            c = work.pop()
            if c is True: continue
            if c is False: return False
            if c in self.facts: continue
            k = c[0]
            if k == 'and':
                work.extend(c[1]); continue
            d = self.decide(c) if k != 'or' else None
            if d is False: return False
            self.facts.add(c); self.pc.append(c)
            if k == 'or': 
                self._boolfix(c, work); continue
            self._boolfix(c, work)
            p = self.norm(c[1])
            if p is not c[1]:
                c2 = le(p) if k == 'le' else eq(p) if k == 'eq' else ne(p)
                if c2 is False: return False
                if c2 is True: continue
                self.facts.add(c2); self._boolfix(c2, work)
                p = c2[1]
            if k == 'ne':
                # tighten when at an end point of a symbol's interval
                if len([m for m in p.d if m]) == 1:
                    lo, hi = self.interval(p)
                    if lo == 0: work.append(le(sub(1, p)))
                    elif hi == 0: work.append(le(add(p, 1)))
                continue
            if not self._bound(p, k, work): return False
        return True
    def _boolfix(self, c, work):
        t = terms._bool_memo.get(c)
        if t is not None: work.append(eq(sub(t, 1)))
        else:
            t = terms._bool_memo.get(cnot(c))
            if t is not None: work.append(eq(t))
    def _setb(self, i, lo, hi, work):
        s = SYMS[i]
        b = self.bounds.get(i, (s.lo, s.hi))
        nlo = b[0] if lo is None or (b[0] is not None and b[0] >= lo) else lo
        nhi = b[1] if hi is None or (b[1] is not None and b[1] <= hi) else hi
        if (nlo, nhi) == b: return True
        if nlo is not None and nhi is not None and nlo > nhi: return False
        self.bounds[i] = (nlo, nhi)
        if nlo == nhi and nlo is not None:
            self._addsub(i, nlo)
            if s.df is not None:
                if s.df[0] == 'bool':
                    work.append(s.df[1] if nlo == 1 else cnot(s.df[1]))
                elif s.df[0] == 'div' and s.df[3] == 'q':
                    _, t, d, _, q = s.df
                    qq, rr = divmod_syms(t, d)
                    self._addsub(rr.id, sub(t, mul(d, nlo)))
                    work.append(le(sub(mul(d, nlo), t)))
                    work.append(le(sub(t, add(mul(d, nlo), sub(d, 1)))))
        return True
    def _addsub(self, i, t):
        if i in self.sub: return
        t = self.norm(t)
        if type(t) is not int and i in t.syms(): return
        for k, v in list(self.sub.items()):
            if type(v) is not int and i in v.syms():
                self.sub[k] = subst(v, {i: t})
        self.sub[i] = t
    def _bound(self, p, k, work):
        # record interval for the constant-free part
        c = p.const(); q = sub(p, c)
        n = scale(q, -1)
        def rec(q, lo, hi):
            x = self.pb.get(q, (None, None))
            self.pb[q] = (lo if x[0] is None or (lo is not None and lo > x[0]) else x[0],
                          hi if x[1] is None or (hi is not None and hi < x[1]) else x[1])
        if k == 'le': rec(q, None, -c); rec(n, c, None)
        else: rec(q, -c, -c); rec(n, c, c)
        if len(p.d) <= 6:
            tot = [(m, a) for m, a in p.d.items() if m]
            for m, a in tot:
                if len(m) != 1: continue
                # a*x <= -(rest)
                rest = Poly({mm: aa for mm, aa in p.d.items() if mm != m}) if len(p.d) > 1 else 0
                if type(rest) is Poly and rest.isconst(): rest = rest.const()
                lo, hi = self.interval(rest)
                up = None if lo is None else -lo      # a*x <= up
                dn = None if (hi is None or k == 'le') else -hi
                if a > 0:
                    nl = None if dn is None else -((-dn) // a); nh = None if up is None else up // a
                else:
                    nl = None if up is None else -(up // (-a)); nh = None if dn is None else (-dn) // (-a)
                r = self._setb(m[0], nl, nh, work)
                if not r: return False
        if k == 'eq':
            cand_ = [m[0] for m, a in p.d.items() if len(m) == 1 and abs(a) == 1 and m[0] not in self.sub and not SYMS[m[0]].keep
                     and not any(m[0] in mm for mm in p.d if mm != m)]
            if cand_:
                i = max(cand_)   # youngest symbol is eliminated
                s = SYMS[i]; a = p.d[(i,)]
                rest = Poly({mm: aa for mm, aa in p.d.items() if mm != (i,)}) if len(p.d) > 1 else 0
                e = scale(rest, -a)
                if type(e) is Poly and e.isconst(): e = e.const()
                lo, hi = self.bounds.get(i, (s.lo, s.hi))
                self._addsub(i, e)
                if lo is not None: work.append(le(sub(lo, e)))
                if hi is not None: work.append(le(sub(e, hi)))
        return True

FREQ = 64

class Engine:
    def __init__(self, mod, handlers=None, opts=None):
        self.m = mod; self.h = handlers or {}; self.opts = opts or {}
        self.nobj = 1; self.big = []            # vf big-number handles
        self.obl = {}                           # name -> counters
        self.fails = []; self.paths = 0; self.pathends = {}; self.funcs = {}; self.steps = 0
        self.cover = {}; self.discharged = {'evaluation': 0, 'rewriting+interval': 0, 'z3': 0, 'cvc5': 0}
        self.nobl = 0; self.cases = {}; self.redirect = {}; self.deadline = None
        self.max_fail = self.opts.get('max_fail', 3)
        self.goal_timeout = self.opts.get('goal_timeout', 20000)
        self.feas_timeout = self.opts.get('feas_timeout', 1500)
        self.extern_used = {}; self.fnames = {}; self.addr = {}
        self.max_steps = self.opts.get('max_steps', 3000000)
        self.truncated = 0; self.bitmemo = {}; self.feas_unknown = 0
    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=''):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, st.token, name)
        st.objs[self.nobj] = o
        return Ptr(self.nobj, 0)
    def gptr(self, st, name):
        m = self.m
        if name in m.aliases: return self.const(st, m.aliases[name])
        if name in m.funcs: return FPtr(name)
        g = m.globals.get(name)
        if g is None: raise Failure('unmodelled', 'unknown global ' + name)
        p = st.ginit.get(name)
        if p is None:
            # global object ids are fixed per name
            oid = self.addr.get(name)
            sz = g.ty.size()
            if oid is None:
                self.nobj += 1; oid = self.addr[name] = self.nobj
            o = Obj(oid, sz, 'global', st.token, name)
            st.objs[oid] = o
            p = st.ginit[name] = Ptr(oid, 0)
            if g.ext and g.init is None:
                self.extern_global(st, o, name)
            elif g.init is not None:
                self.init_mem(st, o, 0, g.ty, g.init)
            o.ro = g.const
        return p
    def extern_global(self, st, o, name): pass
    def init_mem(self, st, o, off, ty, v):
        ty = ty.res(); k = v[0]
        if k == 'bad': raise Failure('unmodelled', 'initializer ' + v[1])
        if k == 'zero' : self.fill(o, off, ty.size(), 0); return
        if k == 'undef': return
        if k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, b if b < 128 else b - 256)
            return
        if k == 'agg':
            if ty.k == 'struct':
                offs = ty.offsets()
                for (t, x), d in zip(v[1], offs): self.init_mem(st, o, off + d, t, x)
            else:
                s = ty.el.size()
                for i, (t, x) in enumerate(v[1]): self.init_mem(st, o, off + i * s, t, x)
            return
        o.cells[off] = (ty.size(), self.const(st, v))
    def fill(self, o, off, n, byte):
        self.clear(o, off, n)
        e = off + n
        while off < e:
            s = 8 if off % 8 == 0 and e - off >= 8 and byte == 0 else 4 if off % 4 == 0 and e - off >= 4 else 1
            if s == 8: s = 4
            v = 0
            for _ in range(s): v = v * 256 + byte
            w = 8 * s
            if v >= 1 << (w - 1): v -= 1 << w
            o.cells[off] = (s, v); off += s
    def clear(self, o, off, n):
        """remove cells in [off, off+n), splitting those that straddle"""
        e = off + n; cells = o.cells
        if n <= 64:
            for a in range(off - 15, e):
                c = cells.get(a)
                if c is None: continue
                if a + c[0] <= off: continue
                if a >= off and a + c[0] <= e: del cells[a]
                else: self.split(o, a); self._clr(cells, off, e)
        else:
            for a in list(cells):
                c = cells[a]
                if a + c[0] <= off or a >= e: continue
                if a >= off and a + c[0] <= e: del cells[a]
                else: self.split(o, a)
            self._clr(cells, off, e)
    @staticmethod
    def _clr(cells, off, e):
        for a in range(off, e):
            if a in cells and a + cells[a][0] <= e: del cells[a]
    def split(self, o, a):
        """split cell into bytes"""
        s, v = o.cells.pop(a)
        if isinstance(v, (Ptr, FPtr)) or isinstance(v, float) or v is UNDEF:
            return   # becomes uninitialised
        for i in range(s):
            q, r = self.tdivmod(v, 256)
            o.cells[a + i] = (1, r); v = q
    def tdivmod(self, t, d):
        """floor div/mod of a term by a positive int constant"""
        if type(t) is int: return divmod(t, d)
        qd = {}; rd = {}
        for m, c in t.d.items():
            a, b = divmod(c, d)
            if m and b:
                # keep small negative coefficients symmetric
                if b > d // 2 and c < 0 and -c < d: a, b = 0, c
            if a: qd[m] = a
            if b: rd[m] = b
        qp = mk(qd); rest = mk(rd)
        if type(rest) is int:
            a, b = divmod(rest, d)
            return add(qp, a), b
        return qp, rest
    def divmodc(self, st, t, d):
        """floor divmod of term by int constant d>0 using intervals / definitional symbols"""
        t = st.norm(t)
        if type(t) is int: return divmod(t, d)
        lo, hi = st.interval(t)
        if lo is None or hi is None or lo // d != hi // d: lo, hi = st.interval2(t, lo, hi)
        if lo is not None and hi is not None and lo // d == hi // d:
            k = lo // d
            return k, sub(t, k * d)
        qp, rest = self.tdivmod(t, d)
        if type(rest) is int: return qp, rest
        lo, hi = st.interval(rest)
        if lo is None or hi is None or lo // d != hi // d: lo, hi = st.interval2(rest, lo, hi)
        if lo is not None and hi is not None:
            k = lo // d
            if k == hi // d: return add(qp, k), sub(rest, k * d)
            if k + 1 == hi // d:
                # two-valued quotient: one comparison
                c = le(sub(rest, (k + 1) * d - 1))
                x = st.decide(c)
                if x is not None:
                    k = k if x else k + 1
                    return add(qp, k), sub(rest, k * d)
                q = sub(k + 1, bool_term(c))
                return add(qp, st.norm(q)), st.norm(rem_sym(rest, d, q))
        q, r = divmod_syms(rest, d)
        return add(qp, st.norm(psym(q))), st.norm(psym(r))
    def obj_at(self, st, p, n, what):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Failure('uninitialised-value', what + ' through uninitialised pointer')
            raise Failure('memory-safety', what + ' through non-pointer %r' % (p,))
        if p.o == 0: raise Failure('memory-safety', what + ' through null pointer')
        o = st.objs.get(p.o)
        if o is None or not o.alive: raise Failure('memory-safety', what + ' of dead object')
        off = p.off
        if type(off) is not int:
            off = self.conc(st, off)
        self.nobl += 1
        if off < 0 or off + n > o.size:
            raise Failure('memory-safety', what + ' of %d bytes at offset %d of a %d-byte %s object %s' % (n, off, o.size, o.kind, o.name))
        self.discharged['evaluation'] += 1
        return o, off
    def load(self, st, p, ty):
        ty = ty.res(); n = ty.size()
        if ty.k in ('struct', 'arr', 'vec'):
            if ty.k == 'struct':
                return tuple(self.load(st, Ptr(p.o, add(p.off, d)), t) for t, d in zip(ty.els, ty.offsets()))
            s = ty.el.size()
            return tuple(self.load(st, Ptr(p.o, add(p.off, i * s)), ty.el) for i in range(ty.n))
        o, off = self.obj_at(st, p, n, 'load')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if ty.k == 'double' and type(v) is int: v = struct.unpack('<d', (v & (2**64-1)).to_bytes(8, 'little'))[0]
            elif ty.k == 'int' and type(v) is float: v = struct.unpack('<q', struct.pack('<d', v))[0]
            elif ty.k == 'ptr' and v == 0 and type(v) is int: v = NULL
            elif ty.k == 'int' and ty.w == 64 and isinstance(v, (Ptr, FPtr)): pass
            return v
        # assemble from smaller cells / extract from a larger one
        acc = 0; sh = 0; a = off; e = off + n
        while a < e:
            c = o.cells.get(a)
            if c is not None and a + c[0] <= e:
                v = c[1]
                if not isinstance(v, (int, Poly)): return UNDEF if v is UNDEF else self.bad('mixed load')
                v = self.norm_u(st, v, 8 * c[0])
                acc = add(acc, scale(v, 1 << sh)); sh += 8 * c[0]; a += c[0]; continue
            # covering cell starting before a
            for b in range(a, a - 16, -1):
                c = o.cells.get(b)
                if c is not None and b + c[0] > a: break
            else: return UNDEF
            v = c[1]
            if not isinstance(v, (int, Poly)): return UNDEF if v is UNDEF else self.bad('partial load of non-integer')
            v = self.norm_u(st, v, 8 * c[0])
            take = min(b + c[0], e) - a
            _, v = (0, v) if a == b else (0, self.divmodc(st, v, 1 << (8 * (a - b)))[0])
            v = self.divmodc(st, v, 1 << (8 * take))[1]
            acc = add(acc, scale(v, 1 << sh)); sh += 8 * take; a += take
        if ty.k == 'ptr': 
            if acc == 0: return NULL
            return UNDEF
        if ty.k == 'double':
            if type(acc) is int: return struct.unpack('<d', acc.to_bytes(8, 'little'))[0]
            return self.bad('double from symbolic bits')
        return acc
    def bad(self, m): raise Failure('unmodelled', m)
    def store(self, st, p, ty, v):
        ty = ty.res(); n = ty.size()
        if ty.k in ('struct', 'arr', 'vec') and isinstance(v, (tuple, list)):
            if ty.k == 'struct':
                for t, d, x in zip(ty.els, ty.offsets(), v): self.store(st, Ptr(p.o, add(p.off, d)), t, x)
            else:
                s = ty.el.size()
                for i in range(ty.n): self.store(st, Ptr(p.o, add(p.off, i * s)), ty.el, v[i])
            return
        o, off = self.obj_at(st, p, n, 'store')
        if o.ro: raise Failure('memory-safety', 'store to constant object ' + o.name)
        if o.owner is not st.token: o = st.wobj(o.id)
        c = o.cells.get(off)
        if c is None or c[0] != n: self.clear(o, off, n)
        if isinstance(v, (bool, tuple)) and ty.k == 'int': v = bool_term(v) if isinstance(v, tuple) else int(v)
        o.cells[off] = (n, v)
        if n > 4:
            cells = o.cells
        else: cells = None
        if cells is not None:
            for a in range(off + 1, off + n):
                if a in cells: del cells[a]
    def memcpy(self, st, d, s, n):
        n = self.conc(st, n)
        if n == 0: return
        so, soff = self.obj_at(st, s, n, 'memcpy read')
        do, doff = self.obj_at(st, d, n, 'memcpy write')
        if do.ro: raise Failure('memory-safety', 'memcpy to constant object')
        items = []
        for a in range(soff, soff + n):
            c = so.cells.get(a)
            if c is not None:
                if a + c[0] <= soff + n: items.append((a - soff, c))
        # straddling start/end: split in a scratch copy
        need = False
        for b in range(soff - 15, soff):
            c = so.cells.get(b)
            if c is not None and b + c[0] > soff: need = True
        for b in range(max(soff, soff + n - 15), soff + n):
            c = so.cells.get(b)
            if c is not None and b + c[0] > soff + n: need = True
        if need:
            t = so.clone(None)
            for b in range(soff - 15, soff + n):
                c = t.cells.get(b)
                if c is not None and ((b < soff < b + c[0]) or (b < soff + n < b + c[0])): self.split(t, b)
            items = [(a - soff, t.cells[a]) for a in range(soff, soff + n) if a in t.cells and a + t.cells[a][0] <= soff + n]
        if do.owner is not st.token: do = st.wobj(do.id)
        self.clear(do, doff, n)
        for a, c in items: do.cells[doff + a] = c
    # ------------------------------------------------------------ scalar helpers
    def norm_u(self, st, v, w):
        if type(v) is int: return v & ((1 << w) - 1)
        if v is UNDEF: raise Failure('uninitialised-value', 'use of uninitialised value')
        if isinstance(v, (Ptr, FPtr)): return v
        if isinstance(v, (bool, tuple)): v = bool_term(v)
        return self._norm(st, v, w, 0)
    def norm_s(self, st, v, w):
        if type(v) is int:
            v &= (1 << w) - 1
            return v - (1 << w) if v >> (w - 1) else v
        if v is UNDEF: raise Failure('uninitialised-value', 'use of uninitialised value')
        if isinstance(v, (Ptr, FPtr)): return v
        if isinstance(v, (bool, tuple)): v = bool_term(v)
        return self._norm(st, v, w, -(1 << (w - 1)))
    def _norm(self, st, v, w, base):
        M = 1 << w
        v = st.norm(v)
        if type(v) is int:
            return (v - base) % M + base
        lo, hi = st.interval(v)
        if lo is not None and hi is not None:
            a, b = (lo - base) // M, (hi - base) // M
            if a == b: return sub(v, a * M) if a else v
            lo, hi = st.interval2(v, lo, hi)
            a, b = (lo - base) // M, (hi - base) // M
            if a == b: return sub(v, a * M) if a else v
            e = expand(v)
            if e is not v:
                e = st.norm(e)
                lo2, hi2 = st.interval(e)
                if lo2 is not None and hi2 is not None:
                    a2, b2 = (lo2 - base) // M, (hi2 - base) // M
                    a, b = max(a, a2), min(b, b2)
                    if a == b: return sub(v, a * M) if a else v
            if b - a <= 3:
                cs = []
                for k in range(a, b + 1):
                    c = cand([le(sub(base + k * M, v)), le(sub(v, base + k * M + M - 1))])
                    d = st.decide(c)
                    if d is True: return sub(v, k * M)
                    if d is None and self.feasible(st, c): cs.append((k, c))
                if len(cs) == 1:
                    st.assume(cs[0][1]); return sub(v, cs[0][0] * M)
                if not cs: raise PathEnd()
                raise ForkOn([c for k, c in cs])
        # general wrap: v mod M
        v2 = self.symred(v, w)
        if v2 is not v and v2 != v: return self._norm(st, v2, w, base)
        t = sub(v, base)
        q, r = self.divmodc(st, t, M)
        return add(r, base)
    def conc(self, st, v, limit=80):
        """concretise a term: fork over its feasible values"""
        if type(v) is int: return v
        if v is UNDEF: raise Failure('uninitialised-value', 'use of uninitialised value')
        v = st.norm(v)
        if type(v) is int: return v
        e = st.norm(expand(v))
        if type(e) is int: return e
        lo, hi = st.interval(v)
        vals = []
        if lo is not None and hi is not None and hi - lo < limit:
            vals = [x for x in range(lo, hi + 1) if self.feasible(st, eq(sub(v, x)))]
        else:
            block = []
            while True:
                r, mod = solver.check(st.pc + block, True, st.bounds, timeout=self.feas_timeout * 4, want_model=True, seeds=v.syms())
                if r == 'unsat': break
                if r == 'unknown': raise PathAborted('cannot concretise a symbolic address/size')
                x = 0
                for m, c in v.d.items():
                    t = c
                    for i in m: t *= mod.get(i, 0)
                    x += t
                vals.append(x); block.append(ne(sub(v, x)))
                if len(vals) > limit: raise PathAborted('unbounded symbolic address/size')
        if not vals: raise PathEnd()
        if len(vals) == 1:
            st.assume(eq(sub(v, vals[0])))
            return vals[0]
        raise ForkOn([eq(sub(v, x)) for x in vals])
    def feasible(self, st, c):
        d = st.decide(c)
        if d is not None: return d
        if self.opts.get('nofeas') and c[0] in ('eq', 'ne') and len(c[1].d) <= 2:
            ms = [m for m in c[1].d if m]
            if len(ms) == 1 and len(ms[0]) == 1 and SYMS[ms[0][0]].lo == 0 and SYMS[ms[0][0]].hi == 1: return True      # a bit: keep both sides
        # feasibility checks only prune: give up quickly on contexts the solver finds hard
        u = self.feas_unknown
        r, _ = solver.check(st.pc, c, st.bounds, timeout=self.feas_timeout if u < 3 else self.feas_timeout // 6 if u < 8 else 60)
        if r == 'unknown': self.feas_unknown += 1
        elif u: self.feas_unknown -= 0.25
        return r != 'unsat'
    def truth(self, st, c):
        """decide a branch condition, forking if necessary"""
        if c is UNDEF: raise Failure('uninitialised-value', 'branch on uninitialised value')
        if type(c) is int: return bool(c & 1)
        if isinstance(c, Poly): c = ne(c)
        d = st.decide(c)
        if d is not None: return d
        n = cnot(c)
        f = self.feasible(st, c)
        if not f: 
            st.assume(n); st.facts.add(n); return False
        g = self.feasible(st, n)
        if not g:
            st.assume(c); st.facts.add(c); return True
        raise ForkOn([c, n])
    # ------------------------------------------------------------ operands
    def const(self, st, v):
        k = v[0]
        if k == 'i': return v[1]
        if k == 'null': return NULL
        if k == 'g': return self.gptr(st, v[1])
        if k == 'undef': return UNDEF
        if k == 'f': return v[1]
        if k == 'zero':
            t = v[1].res()
            if t.k == 'int': return 0
            if t.k == 'ptr': return NULL
            if t.k in ('double', 'float'): return 0.0
            if t.k == 'struct': return tuple(self.const(st, ('zero', e)) for e in t.els)
            if t.k in ('arr', 'vec'): return tuple(self.const(st, ('zero', t.el)) for _ in range(t.n))
        if k == 'gep':
            base = self.const(st, v[2][0][1])
            return self.gep(st, v[1], base, [(t, self.const(st, x)) for t, x in v[2][1:]])
        if k == 'cast':
            x = self.const(st, v[3])
            return self.cast(st, v[1], v[2], x, v[4])
        if k == 'f80':
            import fpsym
            return fpsym.parse80(v[1])
        if k == 'agg': return tuple(self.const(st, x) for t, x in v[1])
        if k == 'cbin':
            return self.binop(st, v[1], v[2].w, self.const(st, v[3]), self.const(st, v[4]), ())
        raise Failure('unmodelled', 'constant ' + k)
    def op(self, st, fr, v):
        k = v[0]
        if k == 'r':
            return fr.regs[v[1]]
        if k == 'i': return v[1]
        return self.const(st, v)
    def gep(self, st, bt, base, ops):
        if base is UNDEF: return UNDEF
        off = 0
        t = bt; first = True
        for ot, v in ops:
            if v is UNDEF: return UNDEF
            if not first:
                t = t.res()
                if t.k == 'struct':
                    off = add(off, t.offsets()[v]); t = t.els[v]; continue
                t = t.el
            if type(v) is not int: v = self.norm_s(st, v, ot.w)
            off = add(off, scale(v, t.size())) if type(v) is not int else add(off, v * t.size())
            first = False
        if isinstance(base, FPtr):
            if off == 0: return base
            return UNDEF
        if off == 0: return base
        if not isinstance(base, Ptr): raise Failure('memory-safety', 'pointer arithmetic on non-pointer')
        return Ptr(base.o, add(base.off, off))
    # ------------------------------------------------------------ arithmetic
    def binop(self, st, op, w, a, b, fl):
        if a is UNDEF or b is UNDEF: return UNDEF
        if w == 1:
            if type(a) is int: a = bool(a & 1)
            if type(b) is int: b = bool(b & 1)
            if isinstance(a, Poly): a = ne(a)
            if isinstance(b, Poly): b = ne(b)
            if op == 'and': return cand([a, b])
            if op == 'or': return cor([a, b])
            if op in ('xor', 'add', 'sub'): return cxor(a, b)
            raise Failure('unmodelled', 'i1 ' + op)
        if isinstance(a, (bool, tuple)): a = bool_term(a)
        if isinstance(b, (bool, tuple)): b = bool_term(b)
        ta, tb = type(a), type(b)
        if ta is Ptr or tb is Ptr or ta is FPtr or tb is FPtr:
            return self.ptrop(st, op, w, a, b)
        if op == 'add' or op == 'sub' or op == 'mul':
            if tb is int and b >> (w - 1) == 1 : b = self.norm_s(st, b, w)
            if ta is int and a >> (w - 1) == 1 : a = self.norm_s(st, a, w)
            if 'nsw' in fl:
                a = self.norm_s(st, a, w); b = self.norm_s(st, b, w)
                r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                self.implicit(st, 'no-signed-overflow', cand([le(sub(lo, r)), le(sub(r, hi))]), 'signed %s overflows i%d' % (op, w))
                return r
            if op == 'mul' and not (ta is int or tb is int):
                a = self.norm_u(st, a, w); b = self.norm_u(st, b, w)
            r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
            if type(r) is int: return self.norm_s(st, r, w)
            if op != 'mul' and type(r) is Poly:
                if type(b) is Poly: r = self.foldrem(r, b)
                if op == 'add' and type(r) is Poly and type(a) is Poly: r = self.foldrem(r, a)
            if type(r) is int: return self.norm_s(st, r, w)
            lo, hi = st.interval(r)
            if lo is None or hi is None or hi - lo >= 1 << (w + 24):
                r = self.norm_u(st, r, w)
            return r
        if op in ('udiv', 'urem'):
            a = self.norm_u(st, a, w); b = self.norm_u(st, b, w)
            return self.divop(st, a, b, op == 'udiv', w)
        if op in ('sdiv', 'srem'):
            a = self.norm_s(st, a, w); b = self.norm_s(st, b, w)
            if type(b) is not int: b = st.norm(b)
            if type(b) is not int:
                if not self.truth(st, le(sub(1, b))):
                    b = self.conc(st, b)
            if b == 0: raise Failure('division-by-zero', 'signed division by zero')
            if type(b) is int and b < 0:
                if b == -1:
                    self.implicit(st, 'no-signed-overflow', ne(sub(a, -(1 << (w - 1)))), 'INT_MIN / -1')
                r = self.binop(st, op, w, a, -b, fl)
                return neg(r) if op == 'sdiv' else r
            if type(a) is int and type(b) is int:
                q = abs(a) // b
                if a < 0: q = -q
                return q if op == 'sdiv' else a - q * b
            # exact multiples need no sign split
            q, r = self.tdivmod(a, b) if type(b) is int else (None, None)
            if type(b) is int and r == 0 and type(r) is int:
                return q if op == 'sdiv' else 0
            if self.truth(st, le(neg(a))):
                return self.divop(st, a, b, op == 'sdiv', w)
            r = self.divop(st, neg(a), b, op == 'sdiv', w)
            return neg(r)
        if op == 'shl':
            b = self.conc(st, b)
            if b >= w: return UNDEF
            r = scale(a, 1 << b)
            if 'nsw' in fl and type(r) is not int:
                r = scale(self.norm_s(st, a, w), 1 << b)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                self.implicit(st, 'no-signed-overflow', cand([le(sub(lo, r)), le(sub(r, hi))]), 'shl overflows i%d' % w)
                return r
            if type(r) is not int:
                lo, hi = st.interval(r)
                if lo is None or hi is None or hi - lo >= 1 << (w + 24): r = self.norm_u(st, r, w)
            else: r = self.norm_s(st, r, w)
            return r
        if op == 'lshr':
            b = self.conc(st, b)
            if b >= w: return UNDEF
            if b == w - 1: return self.signbit(st, a, w)
            return self.divmodc(st, self.norm_u(st, a, w), 1 << b)[0]
        if op == 'ashr':
            b = self.conc(st, b)
            if b >= w: return UNDEF
            if b == w - 1: return neg(self.signbit(st, a, w))
            return self.divmodc(st, self.norm_s(st, a, w), 1 << b)[0]
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, w, a, b)
        raise Failure('unmodelled', 'binop ' + op)
    def symred(self, v, w):
        """a representative of v modulo 2^w with small coefficients"""
        if type(v) is int: return v
        M = 1 << w; H = M >> 1; ch = False; d = {}
        for m, c in v.d.items():
            x = (c + H) % M - H
            if x != c and m: ch = True
            elif not m: x = c
            if x: d[m] = x
        if ch: v = mk(d)
        return self.foldrem(v, v) if type(v) is Poly else v
    def foldrem(self, r, b):
        """rewrite t - d*q to the remainder symbol"""
        for i in b.syms():
            df = SYMS[i].df
            if df is None or df[0] != 'div' or df[3] != 'q': continue
            t, d = df[1], df[2]
            dq = mul(d, psym(SYMS[i]))
            m, c = next(iter(dq.d.items()))
            x = r.d.get(m)
            if x is None or x % c: continue
            k = -(x // c)               # r contains -k*d*q
            _, rr = divmod_syms(t, d)
            n = add(sub(r, scale(sub(t, dq), k)), scale(psym(rr), k))
            if type(n) is int: return n
            if len(n.d) < len(r.d): r = n
        return r
    def signbit(self, st, a, w):
        a = self.norm_s(st, a, w)
        c = le(add(a, 1))
        d = st.decide(c)
        if d is not None: return 1 if d else 0
        return st.norm(bool_term(c))
    def divop(self, st, a, b, isdiv, w):
        """a, b >= 0"""
        a = st.norm(a); b = st.norm(b)
        if type(b) is int:
            if b == 0: raise Failure('division-by-zero', 'division by zero')
            if type(a) is int: return a // b if isdiv else a % b
            q, r = self.divmodc(st, a, b)
            return q if isdiv else r
        self.implicit(st, 'division-by-zero', ne(b), 'division by zero')
        q, r = divmod_syms(a, b)
        if q.id not in st.bounds:
            # bound the quotient: a <= b*C - 1  ==>  q <= C-1
            st.bounds[q.id] = (0, q.hi)
            for C in (100000000, 1 << 32, 1 << 64):
                g = le(sub(a, sub(scale(b, C), 1)))
                x = st.decide(g)
                if x is None:
                    x = solver.check(st.pc, cnot(g), st.bounds, timeout=3000)[0] == 'unsat'
                if x:
                    st.bounds[q.id] = (0, C - 1 if q.hi is None else min(q.hi, C - 1)); break
        lo, hi = st.interval(b)
        if hi is not None:
            x = st.bounds.get(r.id, (r.lo, r.hi)); st.bounds[r.id] = (0, hi - 1 if x[1] is None else min(x[1], hi - 1))
        return psym(q) if isdiv else psym(r)
    def bitop(self, st, op, w, a, b):
        if type(a) is int and type(b) is not int: a, b = b, a
        if type(a) is int:
            r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
            return self.norm_s(st, r, w)
        if type(b) is int:
            M = (1 << w) - 1; k = b & M
            if op == 'and':
                if k == 0: return 0
                if k == M: return a
                if k & (k + 1) == 0: return self.divmodc(st, a, k + 1)[1]
                n = (~k) & M
                if n & (n + 1) == 0: return sub(a, self.divmodc(st, a, n + 1)[1])
                # contiguous mask in the middle
                tz = (k & -k).bit_length() - 1
                kk = k >> tz
                if kk & (kk + 1) == 0:
                    q = self.divmodc(st, self.norm_u(st, a, w), 1 << tz)[0]
                    return scale(self.divmodc(st, q, kk + 1)[1], 1 << tz)
                raise Failure('unmodelled', 'and with mask %x' % k)
            if op == 'xor':
                if k == 0: return a
                if k == M: return sub(-1, a)
                lo, hi = st.interval(st.norm(a))
                if lo is not None and lo >= 0 and hi <= 1 and k == 1: return sub(1, a)
            if op == 'or':
                if k == 0: return a
                if k == M: return -1
            # bit-disjoint from low part?
            tz = (k & -k).bit_length() - 1
            lo, hi = st.interval(st.norm(a))
            if lo is not None and lo >= 0 and hi is not None and hi < (1 << tz): return add(a, b)
            q, r = self.tdivmod(a, 1 << k.bit_length())
            if r == 0 and type(r) is int: return add(a, b)
            # single low bit
            if k == 1:
                r = self.divmodc(st, a, 2)[1]
                return add(sub(a, r), 1) if op == 'or' else add(sub(a, scale(r, 2)), 1)
            raise Failure('unmodelled', '%s with constant' % op)
        a = st.norm(a); b = st.norm(b)
        if type(a) is int or type(b) is int: return self.bitop(st, op, w, a, b)
        la, ha = st.interval(a); lb, hb = st.interval(b)
        if la == 0 and lb == 0 and ha == 1 and hb == 1:
            ab = mul(a, b)
            if op == 'and': return ab
            if op == 'or': return sub(add(a, b), ab)
            return sub(add(a, b), scale(ab, 2))
        for x, y in ((a, b), (b, a)):
            lo, hi = st.interval(y)
            if lo is not None and lo >= 0 and hi is not None:
                q, r = self.tdivmod(x, 1 << hi.bit_length())
                if type(r) is int and r == 0: return add(a, b) if op != 'and' else 0
        # only the sign is tracked: the value is any value with that sign
        try: a = self.norm_s(st, a, w); b = self.norm_s(st, b, w)
        except ForkOn: raise
        sa = self.truth(st, le(add(a, 1))); sb = self.truth(st, le(add(b, 1)))
        sr = (sa and sb) if op == 'and' else (sa or sb) if op == 'or' else sa != sb
        k = (op, a, b) if True else None
        s = self.bitmemo.get(k)
        if s is None: s = self.bitmemo[k] = {}
        y = s.get(sr)
        if y is None:
            y = s[sr] = new_sym('x%d' % len(SYMS), -(1 << (w - 1)) if sr else 0, -1 if sr else (1 << (w - 1)) - 1)
        return psym(y)
    def ptrop(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o: return sub(a.off, b.off)
            raise Failure('memory-safety', 'difference of pointers into different objects')
        if op == 'add':
            if isinstance(a, Ptr) and isinstance(b, (int, Poly)): return Ptr(a.o, add(a.off, b))
            if isinstance(b, Ptr) and isinstance(a, (int, Poly)): return Ptr(b.o, add(b.off, a))
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, (int, Poly)): return Ptr(a.o, sub(a.off, b))
        if op == 'sub' and isinstance(a, FPtr) and isinstance(b, FPtr) and a == b: return 0
        if op == 'and' and isinstance(a, Ptr) and type(b) is int and 0 < b < 16 and type(a.off) is int:
            return a.off & b
        if op == 'and' and isinstance(a, FPtr) and b == 1: return 0
        raise Failure('unmodelled', 'pointer ' + op)
    def icmp(self, st, pr, ty, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if ty.k == 'ptr' or isinstance(a, (Ptr, FPtr)) or isinstance(b, (Ptr, FPtr)):
            return self.pcmp(st, pr, a, b)
        w = ty.w
        if w == 1:
            if type(a) is int: a = bool(a & 1)
            if type(b) is int: b = bool(b & 1)
            if isinstance(a, Poly): a = ne(a)
            if isinstance(b, Poly): b = ne(b)
            if pr == 'eq': return cnot(cxor(a, b))
            if pr == 'ne': return cxor(a, b)
            a = bool_term(a); b = bool_term(b)
            if pr[0] == 's': a, b = neg(a), neg(b)
            pr = 'u' + pr[1:]
        else:
            if isinstance(a, (bool, tuple)): a = bool_term(a)
            if isinstance(b, (bool, tuple)): b = bool_term(b)
            if pr in ('eq', 'ne'):
                d = st.norm(sub(a, b))
                lo, hi = st.interval(d) if type(d) is not int else (d, d)
                M = 1 << w
                if type(d) is int: z = (d % M == 0)
                elif lo is not None and hi is not None and lo > -M and hi < M: z = eq(d)
                else:
                    try:
                        a2 = self.norm_u(st, a, w); b2 = self.norm_u(st, b, w)
                    except ForkOn:
                        a2 = self.norm_s(st, a, w); b2 = self.norm_s(st, b, w)
                    z = eq(sub(a2, b2))
                return z if pr == 'eq' else cnot(z)
            if pr[0] == 'u': a = self.norm_u(st, a, w); b = self.norm_u(st, b, w)
            else: a = self.norm_s(st, a, w); b = self.norm_s(st, b, w)
        o = pr[1:]
        if o == 'lt': return le(add(sub(a, b), 1))
        if o == 'le': return le(sub(a, b))
        if o == 'gt': return le(add(sub(b, a), 1))
        return le(sub(b, a))
    def pcmp(self, st, pr, a, b):
        if type(a) is int: a = NULL if a == 0 else a
        if type(b) is int: b = NULL if b == 0 else b
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            z = (a == b)
            if pr == 'eq': return z
            if pr == 'ne': return not z
            raise Failure('unmodelled', 'function pointer order')
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Failure('unmodelled', 'pointer compare with integer')
        if a.o == b.o:
            d = sub(a.off, b.off)
            if pr == 'eq': return eq(d)
            if pr == 'ne': return ne(d)
            o = pr[1:]
            if o == 'lt': return le(add(d, 1))
            if o == 'le': return le(d)
            if o == 'gt': return le(sub(1, d))
            return le(neg(d))
        if pr == 'eq': return False
        if pr == 'ne': return True
        if a.o == 0 or b.o == 0 : return (a.o < b.o) if pr[1] == 'l' else (a.o > b.o)
        # unrelated objects: address order is arbitrary but fixed (allocation order)
        return (a.o < b.o) if pr[1] == 'l' else (a.o > b.o)
    def cast(self, st, op, t, v, t2):
        if v is UNDEF: return UNDEF
        if op == 'zext':
            if t.k != 'int': raise Failure('unmodelled', 'vector cast')
            if t.w == 1: return bool_term(v) if isinstance(v, (bool, tuple)) else (v & 1 if type(v) is int else v)
            return self.norm_u(st, v, t.w)
        if op == 'sext':
            if t.w == 1: return neg(bool_term(v)) if isinstance(v, (bool, tuple)) else (-(v & 1) if type(v) is int else neg(v))
            return self.norm_s(st, v, t.w)
        if op == 'trunc':
            if isinstance(v, (Ptr, FPtr)): raise Failure('unmodelled', 'trunc of pointer')
            if isinstance(v, (bool, tuple)): v = bool_term(v)
            if type(v) is int:
                if t2.w == 1: return bool(v & 1)
                return self.norm_s(st, v, t2.w)
            if t2.w == 1:
                r = self.divmodc(st, v, 2)[1]
                return eq(sub(r, 1))
            v = self.symred(st.norm(v), t2.w)
            if type(v) is int: return self.norm_s(st, v, t2.w)
            lo, hi = st.interval(v)
            if lo is None or hi is None or hi - lo >= (1 << (t2.w + 8)):
                return self.divmodc(st, v, 1 << t2.w)[1]
            return v
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            if op == 'inttoptr' and type(v) is int and v == 0: return NULL
            if op == 'ptrtoint' and v == NULL: return 0
            if op == 'bitcast' and t.k == 'double' and t2.k == 'int' and type(v) is float:
                return struct.unpack('<q', struct.pack('<d', v))[0]
            if op == 'bitcast' and t.k == 'int' and t2.k == 'double' and type(v) is int:
                return struct.unpack('<d', struct.pack('<Q', v & (2**64-1)))[0]
            if op == 'inttoptr' and type(v) is not Ptr: raise Failure('unmodelled', 'inttoptr')
            return v
        return self.fpcast(st, op, t, v, t2)
    # floating point: concrete evaluation; symbolic operands handled by subclass hooks
    def fpcast(self, st, op, t, v, t2):
        import fpsym
        return fpsym.cast(self, st, op, t, v, t2)
    # ------------------------------------------------------------ obligations
    def implicit(self, st, kind, c, msg):
        self.nobl += 1
        if st.decide(c) is True:
            self.discharged['rewriting+interval'] += 1; return
        ok, how, model = self.prove(st, c)
        if ok:
            self.discharged[how] += 1
            return
        raise Failure(kind, msg, c)
    def prove(self, st, c):
        """(True, backend, None) or (False, reason, model)"""
        if c is True: return True, 'evaluation', None
        if c is not False:
            d = st.decide(c)
            if d is True: return True, 'rewriting+interval', None
            if c[0] == 'or':
                l = [x for x in c[1] if st.decide(x) is not False]
                if len(l) < len(c[1]): return self.prove(st, cor(l)) if l else self.prove(st, False)
            if c[0] == 'and':
                how = 'rewriting+interval'
                for x in c[1]:
                    ok, h, m = self.prove(st, x)
                    if not ok: return False, h, m
                    if h not in ('rewriting+interval', 'evaluation'): how = h
                return True, how, None
            n = cnot(c)
            forms = [n]
            if c[0] in ('le', 'eq', 'ne'):
                e = st.norm(expand(st.norm(c[1])))
                c2 = le(e) if c[0] == 'le' else eq(e) if c[0] == 'eq' else ne(e)
                if c2 is True: return True, 'rewriting+interval', None
                if c2 is not False and c2 != c: forms.append(cnot(c2))
        else: forms = [True]
        reason = 'unknown'
        for f in forms:
            r, mod = solver.check(st.pc, f, st.bounds, timeout=self.goal_timeout // 2, full=(f is True))
            if r == 'unsat': return True, 'z3', None
            reason = r
        # nonlinear, full context
        for f in forms:
            nlneeded = True
            r, mod = solver.check(st.pc, f, st.bounds, nl=True, timeout=self.goal_timeout, full=True, want_model=True, seeds=self.seedsyms(st))
            if r == 'unsat': return True, 'z3', None
            if r == 'sat': return False, 'counterexample', mod
        if self.opts.get('cvc5', True):
            try:
                for f in forms[:1]:
                    r, _ = solver.check_cvc5(st.pc, f, st.bounds, nl=True, timeout=self.goal_timeout)
                    if r == 'unsat': return True, 'cvc5', None
            except Exception as e:
                pass
        # spurious or unknown: linear model as a hint
        r, mod = solver.check(st.pc, forms[0], st.bounds, timeout=self.goal_timeout, full=True, want_model=True, seeds=self.seedsyms(st))
        return False, 'solver: unknown' if r != 'sat' else 'solver: linear-model', mod
    def seedsyms(self, st):
        return [i for _, i in st.inputs]
    def goal(self, st, c, name):
        self.nobl += 1
        o = self.obl.setdefault(name, [0, 0, 0])
        o[0] += 1
        if isinstance(c, int) and not isinstance(c, bool): c = bool(c)
        if c is UNDEF: raise Failure('uninitialised-value', 'contract clause on uninitialised value: ' + name)
        if isinstance(c, Poly): c = ne(c)
        if c is True:
            self.discharged['evaluation'] += 1; o[1] += 1; return
        ok, how, mod = self.prove(st, c)
        if ok:
            self.discharged[how] += 1; o[1] += 1; return
        o[2] += 1
        self.fail(st, name, how, mod)
        # continue assuming it, so later clauses are still examined
        if c is False or not st.assume(c): raise PathEnd()
    def fail(self, st, name, reason, mod, detail=''):
        vals = {}
        for nm, i in st.inputs:
            v = None
            if mod is not None: v = mod.get(i)
            if v is None:
                s = SYMS[i]; lo, hi = st.bounds.get(i, (s.lo, s.hi)); v = lo if lo is not None else 0
            # respect recorded substitutions that are constant
            x = st.sub.get(i)
            if type(x) is int: v = x
            vals[nm] = v
        where = [f.f.name for f in st.frames]
        self.fails.append({'obligation': name, 'reason': reason, 'detail': detail, 'cases': dict(st.cases), 'inputs': vals, 'stack': where[-6:], 'trail': st.trail[-12:]})
    # ------------------------------------------------------------ run
    def start(self, fname, args=()):
        st = State()
        f = self.m.funcs.get(fname)
        if f is None or f.declared: raise Exception('no function ' + fname)
        self.push(st, f, list(args), None)
        return st
    def push(self, st, f, args, dest, onret=None):
        if f.blocks is None: parse_body(f, self.m)
        self.funcs[f.name] = self.funcs.get(f.name, 0) + 1
        fr = Frame(f); fr.blk = f.blocks[f.entry]; fr.prev = f.entry; fr.dest = dest; fr.onret = onret
        for (t, n), a in zip(f.args, args): fr.regs[n] = a
        if len(st.frames) > 120: raise PathAborted('recursion too deep')
        st.frames.append(fr)
    def explore(self, st): self.drain([st], None)
    def drain(self, work, collect):
        """run every state to its end (or, with collect, to the join point); False: stop exploring"""
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                self.truncated += 1 + len(work); self.fails.append({'obligation': 'exploration-complete', 'reason': 'time budget exhausted', 'detail': '', 'cases': dict(st.cases), 'inputs': {}, 'stack': [], 'trail': []}); return False
            try:
                self.run(st)
            except MergePoint:
                collect.append(st)
            except ForkOn as fk:
                if 'merge' in self.opts:
                    r = self.try_merge(st, fk)
                    if r == []: return False
                    if r is not None:
                        (collect if r[1] else work).extend(r[0]); continue
                n = 0
                for c in fk.conds:
                    s2 = st.fork()
                    if s2.assume(c):
                        if c not in s2.facts and c is not True and c[0] not in ('and',): s2.facts.add(c)
                        work.append(s2); n += 1
                if n == 0: self.paths += 1; self.end('infeasible')
            except PathEnd:
                self.end('pruned')
            except Failure as e:
                self.on_failure(st, e)
            except Unsupported as e:
                self.on_failure(st, Failure('unmodelled', str(e)))
            except PathAborted as e:
                self.on_failure(st, Failure('unmodelled', e.why))
            except RecursionError:
                self.on_failure(st, Failure('unmodelled', 'recursion'))
            if len(self.fails) >= self.max_fail:
                self.truncated += len(work); return False
        return True
    def end(self, why): self.pathends[why] = self.pathends.get(why, 0) + 1
    def on_failure(self, st, e):
        # is the path feasible at all?
        self.nobl += 1
        o = self.obl.setdefault('implicit:' + e.kind, [0, 0, 0]); o[0] += 1
        mod = None
        n = cnot(e.cond) if e.cond is not False else True
        r, mod = solver.check(st.pc, n, st.bounds, timeout=self.goal_timeout, full=True, want_model=True, seeds=self.seedsyms(st))
        if r == 'unsat':
            o[1] += 1; self.discharged['z3'] += 1; self.end('infeasible'); return
        r2, mod2 = solver.check(st.pc, n, st.bounds, nl=True, timeout=self.goal_timeout, full=True, want_model=True, seeds=self.seedsyms(st))
        if r2 == 'unsat':
            o[1] += 1; self.discharged['z3'] += 1; self.end('infeasible'); return
        if mod2: mod = mod2
        o[2] += 1
        self.end('failed')
        self.fail(st, 'implicit:' + e.kind, r2, mod, e.msg)
    def run(self, st):
        ops = self.ops
        while True:
            fr = st.frames[-1]
            ins = fr.blk[fr.ip]
            st.steps += 1; self.steps += 1
            if st.steps > self.max_steps: raise PathAborted('step limit')
            k = ins[0]
            if k == 'bin':
                a = ins[4]; b = ins[5]; regs = fr.regs
                a = regs[a[1]] if a[0] == 'r' else a[1] if a[0] == 'i' else self.const(st, a)
                b = regs[b[1]] if b[0] == 'r' else b[1] if b[0] == 'i' else self.const(st, b)
                regs[ins[1]] = self.binop(st, ins[2], ins[3], a, b, ins[6])
                fr.ip += 1
            elif k == 'load':
                fr.regs[ins[1]] = self.load(st, self.op(st, fr, ins[3]), ins[2]); fr.ip += 1
            elif k == 'gep':
                fr.regs[ins[1]] = self.gep(st, ins[2], self.op(st, fr, ins[3]), [(t, self.op(st, fr, v)) for t, v in ins[4]]); fr.ip += 1
            elif k == 'store':
                self.store(st, self.op(st, fr, ins[4]), ins[2], self.op(st, fr, ins[3])); fr.ip += 1
            elif k == 'icmp':
                fr.regs[ins[1]] = self.icmp(st, ins[2], ins[3], self.op(st, fr, ins[4]), self.op(st, fr, ins[5])); fr.ip += 1
            elif k == 'br':
                c = self.op(st, fr, ins[2])
                self.goto(st, fr, ins[3] if self.truth(st, c) else ins[4])
            elif k == 'jmp':
                self.goto(st, fr, ins[2])
            elif k == 'cast':
                fr.regs[ins[1]] = self.cast(st, ins[2], ins[3], self.op(st, fr, ins[4]), ins[5]); fr.ip += 1
            elif k == 'call':
                self.call(st, fr, ins)
            elif k == 'ret':
                v = self.op(st, fr, ins[2]) if ins[2] is not None else None
                self.ret(st, fr, v)
                if not st.frames:
                    self.paths += 1; self.end('returned'); st.returned = v
                    self.at_exit(st)
                    return
            elif k == 'select':
                c = self.op(st, fr, ins[3])
                a = self.op(st, fr, ins[4]); b = self.op(st, fr, ins[5])
                fr.regs[ins[1]] = self.select(st, c, a, b, ins[2]); fr.ip += 1
            elif k == 'alloca':
                n = self.op(st, fr, ins[3])
                p = self.alloc(st, ins[2].size() * self.conc(st, n), 'stack', fr.f.name + ins[1])
                fr.allocas.append(p.o)
                fr.regs[ins[1]] = p; fr.ip += 1
            elif k == 'switch':
                v = self.op(st, fr, ins[3]); w = ins[2]
                v = self.norm_u(st, v, w)
                tgt = None
                if type(v) is not int:
                    cs = []
                    for c, l in ins[5]:
                        z = eq(sub(v, c & ((1 << w) - 1)))
                        d = st.decide(z)
                        if d is True: tgt = l; break
                        if d is None: cs.append(z)
                    if tgt is None:
                        fe = [c for c in cs if self.feasible(st, c)]
                        if fe:
                            n = cand([cnot(c) for c in cs])
                            if self.feasible(st, n): fe.append(n)
                            if len(fe) > 1: raise ForkOn(fe)
                            if fe[0] is not n:
                                st.assume(fe[0]); continue
                            st.assume(n)
                        tgt = ins[4]
                else:
                    tgt = ins[4]
                    for c, l in ins[5]:
                        if (c & ((1 << w) - 1)) == v: tgt = l; break
                self.goto(st, fr, tgt)
            elif k == 'extractvalue':
                v = self.op(st, fr, ins[2])
                for i in ins[3]:
                    v = UNDEF if v is UNDEF else v[i]
                fr.regs[ins[1]] = v; fr.ip += 1
            elif k == 'insertvalue':
                v = self.op(st, fr, ins[3]); e = self.op(st, fr, ins[4])
                fr.regs[ins[1]] = self.insertv(v, e, ins[5], ins[2]); fr.ip += 1
            elif k == 'freeze':
                fr.regs[ins[1]] = self.op(st, fr, ins[2]); fr.ip += 1
            elif k == 'unreachable':
                raise Failure('unreachable-reached', 'control reaches an unreachable point (undefined behaviour or noreturn call)')
            elif k in ('fbin', 'fneg', 'fcmp'):
                import fpsym
                fr.regs[ins[1]] = fpsym.op(self, st, fr, ins); fr.ip += 1
            elif k == 'nop': fr.ip += 1
            elif k == 'unsupported': raise Failure('unmodelled', ins[2])
            else: raise Failure('unmodelled', k)
    ops = None
    def at_exit(self, st): pass
    def insertv(self, v, e, idx, ty):
        ty = ty.res()
        if v is UNDEF: v = (UNDEF,) * (len(ty.els) if ty.k == 'struct' else ty.n)
        l = list(v)
        if len(idx) == 1: l[idx[0]] = e
        else: l[idx[0]] = self.insertv(l[idx[0]], e, idx[1:], ty.els[idx[0]] if ty.k == 'struct' else ty.el)
        return tuple(l)
    def select(self, st, c, a, b, ty):
        if c is UNDEF: raise Failure('uninitialised-value', 'select on uninitialised value')
        if type(c) is int: return a if c & 1 else b
        if isinstance(c, Poly): c = ne(c)
        d = st.decide(c)
        if d is True: return a
        if d is False: return b
        if ty.k == 'int':
            if ty.w == 1:
                if a is not UNDEF and b is not UNDEF:
                    if type(a) is int: a = bool(a & 1)
                    if type(b) is int: b = bool(b & 1)
                    return cor([cand([c, a]), cand([cnot(c), b])])
            elif isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)):
                df = sub(a, b)
                if type(df) is int and df == 0: return a
                if type(df) is int and abs(df) < 1 << (ty.w - 1 if ty.w > 1 else 1) or (type(df) is int and not (type(a) is int and type(b) is int)):
                    return add(b, scale(bool_term(c), df))
        if a == b and type(a) is type(b): return a
        return a if self.truth(st, c) else b
    def goto(self, st, fr, lbl):
        blk = fr.f.blocks.get(lbl)
        if blk is None: raise Failure('unmodelled', 'label ' + lbl)
        prev = fr.cur if False else fr.prev
        i = 0; vals = []
        while i < len(blk) and blk[i][0] == 'phi':
            ph = blk[i]
            v = ph[3].get(prev)
            if v is None: raise Failure('unmodelled', 'phi without incoming edge')
            vals.append((ph[1], self.op(st, fr, v))); i += 1
        for n, v in vals: fr.regs[n] = v
        fr.prev = lbl; fr.blk = blk; fr.ip = i
        if st.stop is not None and st.stop == (len(st.frames), lbl): raise MergePoint()
    # -------------------------------------------------- joining the two sides of a branch
    def ipdom(self, f, lbl):
        """immediate postdominator of a block (None: no common one)"""
        t = getattr(f, '_ipd', None)
        if t is None:
            succ = {}
            for l, b in f.blocks.items():
                z = b[-1]; ss = []
                for i in b:
                    if i[0] == 'call' and i[5] is not None: ss.append(i[5])
                if z[0] == 'br': ss += [z[3], z[4]]
                elif z[0] == 'jmp': ss.append(z[2])
                elif z[0] == 'switch': ss += [z[4]] + [x[1] for x in z[5]]
                succ[l] = ss
            al = set(f.blocks); pd = {l: (al if succ[l] else {l}) for l in al}
            ch = True
            while ch:
                ch = False
                for l in al:
                    if not succ[l]: continue
                    n = {l} | set.intersection(*[pd[x] for x in succ[l]])
                    if n != pd[l]: pd[l] = n; ch = True
            t = {}
            for l in al:
                c = [x for x in pd[l] if x != l]
                t[l] = next((x for x in c if all(y in pd[x] for y in c)), None)
            # a branch that leaves a loop is not joined: the number of iterations stays a path property
            reach = {}
            for l in al:
                seen = set(); w = list(succ[l])
                while w:
                    x = w.pop()
                    if x not in seen: seen.add(x); w += succ[x]
                reach[l] = seen
            for l in al:
                if l in reach[l] and t[l] is not None and l not in reach[t[l]]: t[l] = None
            f._ipd = t
        return t[lbl]
    def try_merge(self, st, fk):
        """at a branch of a function listed for joining: run both sides up to the join point, combine the two states"""
        fr = st.frames[-1]
        if fr.blk[fr.ip][0] != 'br' or len(fk.conds) != 2 or not any(x in fr.f.name for x in self.opts['merge']): return None
        j = self.ipdom(fr.f, next(l for l, b in fr.f.blocks.items() if b is fr.blk))
        if j is None: return None
        outer = st.stop; here = (len(st.frames), j); sides = []
        for c in fk.conds:
            s2 = st.fork(); s2.stop = here
            if not s2.assume(c): continue
            got = []
            if not self.drain([s2], got): return []
            sides.append((c, got))
        flat = [x for _, g in sides for x in g]
        if len(sides) == 2 and all(len(g) == 1 for _, g in sides):
            a, b = self.align(sides[0][1][0], sides[1][1][0]); m = self.merged(st, sides[0][0], a, b)
            if m is not None: flat = [m]; self.merges = getattr(self, 'merges', 0) + 1
        for x in flat: x.stop = outer
        return flat, outer == here
    def swapped(self, st, p, q):
        """the same state with the names of two objects exchanged throughout"""
        r = st.fork(); w = {p: q, q: p}
        ren = lambda v: Ptr(w[v.o], v.off) if isinstance(v, Ptr) and v.o in w else v
        os = {}
        for i, o in st.objs.items():
            if i in w or any(isinstance(x[1], Ptr) and x[1].o in w for x in o.cells.values()):
                o = o.clone(r.token); o.id = w.get(i, i); o.cells = {k: (x[0], ren(x[1])) for k, x in o.cells.items()}
            os[w.get(i, i)] = o
        r.objs = os
        for f in r.frames: f.regs = {k: ren(v) for k, v in f.regs.items()}; f.allocas = [w.get(x, x) for x in f.allocas]
        return r
    def align(self, a, b):
        """heap objects that one side has allocated anew take the name of the object they replace"""
        for _ in range(8):
            hit = None
            for i, o in b.objs.items():
                q = a.objs.get(i)
                if q is None or q is o or not (q.alive and o.alive): continue
                for k, x in q.cells.items():
                    y = o.cells.get(k)
                    if y is None or x is y or not (isinstance(x[1], Ptr) and isinstance(y[1], Ptr)) or x[1].o == y[1].o or x[1].off != y[1].off: continue
                    n, m = x[1].o, y[1].o; live = lambda s, z: z in s.objs and s.objs[z].alive and s.objs[z].kind not in ('stack', 'global')
                    if not (live(a, n) and live(b, m)) or a.ghost != b.ghost: continue
                    if n not in b.objs and not live(a, m): hit = (0, n, m); break
                    if m not in a.objs and not live(b, n): hit = (1, n, m); break
                if hit: break
            if not hit: break
            if hit[0] == 0: a = self.swapped(a, hit[1], hit[2])
            else: b = self.swapped(b, hit[1], hit[2])
        return a, b
    def merged(self, st, c, a, b):
        if len(a.frames) != len(b.frames): return None
        def mix(x, y):
            if type(x) is type(y) and x == y: return x
            if isinstance(x, (int, Poly)) and isinstance(y, (int, Poly)) and type(x) is not bool and type(y) is not bool:
                return add(y, mul(bool_term(c), sub(x, y)))
            raise KeyError
        m = st.fork()
        try:
            m.objs = dict(a.objs)
            for i, o in b.objs.items():
                q = a.objs.get(i)
                if q is None: m.objs[i] = o; continue
                if q is o: continue
                if (q.alive, q.size, q.ghost, q.ro) != (o.alive, o.size, o.ghost, o.ro): return None
                n = q.clone(m.token); m.objs[i] = n
                if not q.alive: continue
                for k in set(q.cells) | set(o.cells):
                    x, y = q.cells.get(k), o.cells.get(k)
                    if x is y or x == y: continue
                    if x is None or y is None or x[0] != y[0]:
                        if any(z and isinstance(z[1], Ptr) and t.objs.get(z[1].o) and t.objs[z[1].o].alive and t.objs[z[1].o].kind not in ('stack', 'global') for z, t in ((x, a), (y, b))): return None     # owned on one side only
                        if q.kind == 'stack': n.cells.pop(k, None); continue     # becomes uninitialised
                        return None
                    n.cells[k] = (x[0], mix(x[1], y[1]))
            for f, g, h in zip(a.frames, b.frames, m.frames):
                if f.f is not g.f or f.blk is not g.blk or f.ip != g.ip or f.dest != g.dest: return None
                h.blk, h.ip, h.prev, h.dest, h.onret = f.blk, f.ip, f.prev, f.dest, f.onret
                h.allocas = list(dict.fromkeys(f.allocas + g.allocas)); h.regs = {}
                for k in f.regs:
                    if k in g.regs:
                        try: h.regs[k] = mix(f.regs[k], g.regs[k])
                        except KeyError: pass            # undefined: any later use is reported
        except KeyError: return None
        m.ginit = {**a.ginit, **b.ginit}; m.nd = {**a.nd, **b.nd}; m.covers = a.covers | b.covers
        m.steps = max(a.steps, b.steps); m.inputs = a.inputs + [x for x in b.inputs if x not in a.inputs]
        m.cases = {**a.cases, **b.cases}
        if a.ghost != b.ghost: return None
        return m
    def ret(self, st, fr, v):
        for o in fr.allocas:
            if o in st.objs: st.wobj(o).alive = False
        st.frames.pop()
        if fr.onret is not None:
            v = fr.onret(self, st, v)
        if st.frames:
            up = st.frames[-1]
            if fr.dest is not None: up.regs[fr.dest] = v
    def call(self, st, fr, ins):
        c = ins[3]
        if c[0] == 'g': name = c[1]
        else:
            p = fr.regs[c[1]]
            if isinstance(p, FPtr): name = p.f
            else: raise Failure('memory-safety', 'call through %r' % (p,))
        while name in self.m.aliases:
            a = self.m.aliases[name]
            if a[0] == 'g': name = a[1]
            else: break
        name = self.redirect_of(st, name)
        h = self.h.get(name)
        if h is None:
            h = self.find_handler(name)
        if h is not None:
            args = [self.op(st, fr, v) for t, v in ins[4]]
            nf = len(st.frames)
            r = h(self, st, args, ins)
            if len(st.frames) > nf:      # handler pushed a frame
                st.frames[-1].dest = ins[1]
                self.advance(fr, ins); return
            if ins[1] is not None: fr.regs[ins[1]] = r
            self.advance(fr, ins)
            return
        f = self.m.funcs.get(name)
        if f is None or f.declared: raise Failure('unmodelled', 'call of external function ' + name)
        args = [self.op(st, fr, v) for t, v in ins[4]]
        # byval arguments are not used by this code base
        self.advance(fr, ins)
        self.push(st, f, args, ins[1])
    def advance(self, fr, ins):
        if ins[5] is not None:
            # invoke: normal destination
            lbl = ins[5]
            fr.ip += 1
            self._goto_after(fr, lbl)
        else: fr.ip += 1
    def _goto_after(self, fr, lbl):
        blk = fr.f.blocks[lbl]
        if blk and blk[0][0] == 'phi': raise Failure('unmodelled', 'phi after invoke')
        fr.prev = lbl; fr.blk = blk; fr.ip = 0
    def redirect_of(self, st, name):
        fn = self.redirect.get(name)
        if fn is None: return name
        # a contract function may call the function it stands for (top frame only)
        if st.frames and any(f.f.name == fn for f in st.frames): return name
        return fn
    def find_handler(self, name):
        for pre, h in self.opts.get('prefix_handlers', ()):
            if name.startswith(pre):
                self.h[name] = h; return h
        return None
