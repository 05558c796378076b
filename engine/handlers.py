"""Models of LLVM intrinsics, the C/C++ runtime and the vf_* specification primitives."""
from terms import *
import terms
from vexec import *
import fpsym, solver

H = {}
def h(*names):
    def d(f):
        for n in names: H[n] = f
        return f
    return d
PRE = []
def pre(p):
    def d(f): PRE.append((p, f)); return f
    return d

# ---------------------------------------------------------------- intrinsics
@pre('llvm.lifetime.')
@pre('llvm.experimental.noalias')
@pre('llvm.dbg.')
@pre('llvm.invariant.')
def nop(e, st, a, ins): return UNDEF if ins[1] else None
@pre('llvm.memcpy.')
def memcpy(e, st, a, ins): e.memcpy(st, a[0], a[1], a[2])
@pre('llvm.memmove.')
def memmove(e, st, a, ins): e.memcpy(st, a[0], a[1], a[2])
@h('memcpy', 'memmove')
def memcpy_c(e, st, a, ins): e.memcpy(st, a[0], a[1], a[2]); return a[0]
@pre('llvm.memset.')
def memset(e, st, a, ins):
    n = e.conc(st, a[2])
    if n == 0: return
    o, off = e.obj_at(st, a[0], n, 'memset')
    v = e.conc(st, e.norm_u(st, a[1], 8))
    o = st.wobj(o.id)
    e.fill(o, off, n, v)
@h('memset')
def memset_c(e, st, a, ins): memset(e, st, a, ins); return a[0]
def mm(pick_first_if):
    def f(e, st, a, ins):
        w = ins[2].w
        x, y = a[0], a[1]
        if x is UNDEF or y is UNDEF: return UNDEF
        s = pick_first_if[0] == 's'
        x = e.norm_s(st, x, w) if s else e.norm_u(st, x, w)
        y = e.norm_s(st, y, w) if s else e.norm_u(st, y, w)
        c = le(sub(x, y))
        c = st.decide(c) if st.decide(c) is not None else c
        if pick_first_if[1:] == 'max':
            x, y = y, x
        if c is True: return x
        if c is False: return y
        t = e.truth(st, c)
        return x if t else y
    return f
PRE += [('llvm.umin.', mm('umin')), ('llvm.umax.', mm('umax')), ('llvm.smin.', mm('smin')), ('llvm.smax.', mm('smax'))]
@pre('llvm.abs.')
def iabs(e, st, a, ins):
    w = ins[2].w
    x = e.norm_s(st, a[0], w)
    if a[1] == 1 or a[1] is True:
        e.implicit(st, 'no-signed-overflow', ne(sub(x, -(1 << (w - 1)))), 'abs(INT_MIN)')
    return x if e.truth(st, le(neg(x))) else neg(x)
@h('llvm.assume')
def assume(e, st, a, ins):
    c = a[0]
    if c is UNDEF: return
    # an assumption of the compiler is an obligation of the code
    if type(c) is int: c = bool(c & 1)
    if isinstance(c, Poly): c = ne(c)
    d = st.decide(c)
    if d is True: return
    e.implicit(st, 'compiler-assumption', c, 'llvm.assume violated')
    st.assume(c)
@pre('llvm.expect')
def expect(e, st, a, ins): return a[0]
@pre('llvm.is.constant')
def isconst(e, st, a, ins): return 0
@pre('llvm.objectsize')
def objsize(e, st, a, ins): return -1
@pre('llvm.stacksave')
def ssave(e, st, a, ins): return NULL
@pre('llvm.stackrestore')
def srest(e, st, a, ins): return None
@pre('llvm.fshl')
def fshl(e, st, a, ins):
    w = ins[2].w; s = e.conc(st, a[2]) % w
    x = e.norm_u(st, a[0], w); y = e.norm_u(st, a[1], w)
    if s == 0: return x
    hi_ = e.divmodc(st, scale(x, 1 << s), 1 << w)[1]
    return add(hi_, e.divmodc(st, y, 1 << (w - s))[0])
def ovf(kind):
    def f(e, st, a, ins):
        w = ins[2].els[0].w
        s = kind[0] == 's'
        x = e.norm_s(st, a[0], w) if s else e.norm_u(st, a[0], w)
        y = e.norm_s(st, a[1], w) if s else e.norm_u(st, a[1], w)
        r = {'add': add, 'sub': sub, 'mul': mul}[kind[1:]](x, y)
        lo, hi_ = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        c = cand([le(sub(lo, r)), le(sub(r, hi_))])
        if e.truth(st, c): return (r, 0)
        return (e.norm_u(st, r, w), 1)
    return f
for k in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
    PRE.append(('llvm.%s.with.overflow' % k, ovf(k)))
@pre('llvm.usub.sat')
def usubsat(e, st, a, ins):
    w = ins[2].w; x = e.norm_u(st, a[0], w); y = e.norm_u(st, a[1], w)
    return sub(x, y) if e.truth(st, le(sub(y, x))) else 0
@pre('llvm.ctlz')
def ctlz(e, st, a, ins):
    w = ins[2].w; x = e.conc(st, e.norm_u(st, a[0], w))
    return w - x.bit_length()
@pre('llvm.cttz')
def cttz(e, st, a, ins):
    w = ins[2].w; x = e.conc(st, e.norm_u(st, a[0], w))
    return w if x == 0 else (x & -x).bit_length() - 1
@pre('llvm.fabs')
def ffabs(e, st, a, ins):
    v = a[0]
    if isinstance(v, float): return abs(v)
    if isinstance(v, fpsym.FD):
        n = st.norm(v.num)
        return v if e.truth(st, le(neg(n))) else fpsym.FD(neg(n), v.e, v.p)
    if isinstance(v, fpsym.FX): return fpsym.FX('nan' if v.k == 'nan' else 'inf')
    return fpsym.FO('fabs')
import math as _m
def _round(name, f):
    @pre('llvm.' + name)
    def g(e, st, a, ins):
        v = a[0]
        if isinstance(v, float): return float(f(v)) if _m.isfinite(v) else v
        return v if isinstance(v, fpsym.FX) else fpsym.FO(name)
for _n, _f in (('floor', _m.floor), ('ceil', _m.ceil), ('trunc', _m.trunc), ('rint', round), ('nearbyint', round)): _round(_n, _f)
@pre('llvm.eh.typeid')
def tid(e, st, a, ins): return 1
@h('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate')
def trap(e, st, a, ins): raise Failure('abort', 'abnormal termination')

# ---------------------------------------------------------------- C / C++ runtime
def alloc(e, st, n, kind):
    n = e.norm_u(st, n, 64)
    n = e.conc(st, n)
    if n > (1 << 40): raise PathAborted('huge allocation')
    p = e.alloc(st, n, kind)
    return p
@h('_Znwm')
def opnew(e, st, a, ins): return alloc(e, st, a[0], 'new')
@h('_Znam')
def opnewa(e, st, a, ins): return alloc(e, st, a[0], 'new[]')
@h('malloc')
def malloc(e, st, a, ins): return alloc(e, st, a[0], 'malloc')
def dealloc(e, st, p, kind):
    if p is UNDEF: raise Failure('memory-safety', 'deallocation of an uninitialised pointer')
    if p == NULL: return
    if not isinstance(p, Ptr): raise Failure('memory-safety', 'deallocation of a non-pointer')
    o = st.objs.get(p.o)
    e.nobl += 1
    if o is None or not o.alive: raise Failure('memory-safety', 'double free')
    if o.kind != kind: raise Failure('memory-safety', 'deallocation (%s) does not match allocation (%s)' % (kind, o.kind))
    if p.off != 0: raise Failure('memory-safety', 'deallocation of an interior pointer')
    e.discharged['evaluation'] += 1
    o = st.wobj(p.o); o.alive = False; o.cells = {}
@h('_ZdlPv', '_ZdlPvm')
def opdel(e, st, a, ins): dealloc(e, st, a[0], 'new')
@h('_ZdaPv', '_ZdaPvm')
def opdela(e, st, a, ins): dealloc(e, st, a[0], 'new[]')
@h('free')
def cfree(e, st, a, ins): dealloc(e, st, a[0], 'malloc')
@h('__cxa_atexit')
def atexit_(e, st, a, ins): return 0
@h('__cxa_guard_acquire')
def guard(e, st, a, ins):
    v = e.load(st, a[0], irparse.I8 if hasattr(irparse, 'I8') else e.m.ity(8))
    return 1 if v == 0 else 0
@h('__cxa_guard_release')
def guardr(e, st, a, ins): e.store(st, a[0], e.m.ity(8), 1)
@h('__cxa_guard_abort')
def guarda(e, st, a, ins): return None
@h('__cxa_pure_virtual')
def purev(e, st, a, ins): raise Failure('memory-safety', 'pure virtual call')
@h('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def iosinit(e, st, a, ins): return None

def rdbytes(e, st, p, n):
    return [e.load(st, Ptr(p.o, add(p.off, i)), e.m.ity(8)) for i in range(n)]
@h('strlen')
def strlen(e, st, a, ins):
    i = 0; p = a[0]
    while True:
        c = e.load(st, Ptr(p.o, add(p.off, i)), e.m.ity(8))
        if c is UNDEF: raise Failure('uninitialised-value', 'strlen over uninitialised memory')
        c = e.norm_u(st, c, 8)
        if not e.truth(st, ne(c)): return i
        i += 1
@h('bcmp', 'memcmp')
def bcmp(e, st, a, ins):
    n = e.conc(st, a[2])
    for i in range(n):
        x = e.norm_u(st, e.load(st, Ptr(a[0].o, add(a[0].off, i)), e.m.ity(8)), 8)
        y = e.norm_u(st, e.load(st, Ptr(a[1].o, add(a[1].off, i)), e.m.ity(8)), 8)
        d = sub(x, y)
        if e.truth(st, ne(d)):
            return 1 if e.truth(st, le(sub(1, d))) else -1
    return 0
@h('memchr')
def memchr(e, st, a, ins):
    n = e.conc(st, a[2]); c = e.norm_u(st, a[1], 8)
    for i in range(n):
        x = e.norm_u(st, e.load(st, Ptr(a[0].o, add(a[0].off, i)), e.m.ity(8)), 8)
        if e.truth(st, eq(sub(x, c))): return Ptr(a[0].o, add(a[0].off, i))
    return NULL

# ---------------------------------------------------------------- specification primitives
def cstr(e, st, p):
    o = st.objs[p.o]; b = bytearray(); i = p.off
    while True:
        c = o.cells[i][1] & 255
        if c == 0: return b.decode()
        b.append(c); i += 1

def nm(e, st, a):
    n = cstr(e, st, a[0]); i = a[1]
    if type(i) is not int: i = e.conc(st, i)
    return n if i < 0 else '%s[%d]' % (n, i)

@h('vf_case_')
def vf_case(e, st, a, ins):
    n = nm(e, st, a); lo = e.norm_s(st, a[2], 64); hi_ = e.norm_s(st, a[3], 64)
    if n in st.cases: return st.cases[n]
    if n in e.cases:
        v = e.cases[n]
        st.cases[n] = v
        if not lo <= v <= hi_: raise PathEnd()
        return v
    raise NeedCase(n, lo, hi_)

def nondet(e, st, n, lo, hi_):
    s = e.nd.get(n)
    if s is None:
        s = e.nd[n] = new_sym(n, lo, hi_, inp=True)
    if all(x[0] != n for x in st.inputs):
        st.inputs.append((n, s.id))
        if s.lo != lo or s.hi != hi_:
            st.bounds[s.id] = (lo, hi_)
    return st.norm(psym(s)) if lo != hi_ else lo
@h('vf_nondet_u64_')
def nd_u(e, st, a, ins):
    return nondet(e, st, nm(e, st, a), e.norm_u(st, a[2], 64), e.norm_u(st, a[3], 64))
@h('vf_nondet_i64_')
def nd_i(e, st, a, ins):
    return nondet(e, st, nm(e, st, a), e.norm_s(st, a[2], 64), e.norm_s(st, a[3], 64))
def cond(e, c):
    if c is UNDEF: raise Failure('uninitialised-value', 'contract clause over an uninitialised value')
    if type(c) is int: return bool(c & 1)
    if isinstance(c, Poly): return ne(c)
    return c
@h('vf_assume')
def vf_assume(e, st, a, ins):
    c = cond(e, a[0])
    if c is True: return
    if c is False or not st.assume(c): raise PathEnd()
    if not e.feasible(st, c): raise PathEnd()
@h('vf_assert_')
def vf_assert(e, st, a, ins):
    e.goal(st, cond(e, a[0]), cstr(e, st, a[1]))
@h('vf_reach')
def vf_reach(e, st, a, ins):
    n = cstr(e, st, a[0])
    if n not in e.cover:
        if e.cover_tries.get(n, 0) >= 2: return
        e.cover_tries[n] = e.cover_tries.get(n, 0) + 1
        r, _ = solver.check(st.pc, True, st.bounds, timeout=1500, full=True)
        if r == 'sat': e.cover[n] = 1
        else: e.cover_unknown.add(n)
@h('vf_havoc_u64')
def vf_havoc(e, st, a, ins):
    lo = e.norm_u(st, a[0], 64); hi_ = e.norm_u(st, a[1], 64)
    return psym(new_sym('h%d' % len(terms.SYMS), lo, hi_))
def z(e, i): return e.zt[i]
def zn(e, t):
    e.zt.append(t); return len(e.zt) - 1
@h('vf_zi')
def vf_zi(e, st, a, ins): return zn(e, e.norm_s(st, a[0], 64))
@h('vf_zu')
def vf_zu(e, st, a, ins): return zn(e, e.norm_u(st, a[0], 64))
@h('vf_zadd')
def vf_zadd(e, st, a, ins): return zn(e, st.norm(add(z(e, a[0]), z(e, a[1]))))
@h('vf_zsub')
def vf_zsub(e, st, a, ins): return zn(e, st.norm(sub(z(e, a[0]), z(e, a[1]))))
@h('vf_zmul')
def vf_zmul(e, st, a, ins): return zn(e, st.norm(mul(z(e, a[0]), z(e, a[1]))))
@h('vf_zpow')
def vf_zpow(e, st, a, ins):
    n = e.conc(st, e.norm_s(st, a[1], 64))
    if n < 0: raise Failure('contract', 'negative power in a specification')
    b = e.norm_s(st, a[0], 64)
    return zn(e, e.conc(st, b) ** n)
@h('vf_zle')
def vf_zle(e, st, a, ins): return le(st.norm(sub(z(e, a[0]), z(e, a[1]))))
@h('vf_zeq')
def vf_zeq(e, st, a, ins): return eq(st.norm(sub(z(e, a[0]), z(e, a[1]))))
@h('vf_and')
def vf_and(e, st, a, ins): return cand([cond(e, a[0]), cond(e, a[1])])
@h('vf_or')
def vf_or(e, st, a, ins): return cor([cond(e, a[0]), cond(e, a[1])])
@h('vf_heap_live')
def vf_heap(e, st, a, ins):
    return sum(1 for o in st.objs.values() if o.alive and o.kind in ('new', 'new[]', 'malloc'))
