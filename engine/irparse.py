"""Parser for the subset of textual LLVM IR (clang/opt 18, opaque pointers) the verifier consumes.

Every function, global and type of a module is parsed; anything the parser does not know makes
parsing of that *function* lazy-fail (the function is kept as text and an Unsupported error is raised
only if execution reaches it)."""
import re, struct

class Unsupported(Exception):
    pass

TOK = re.compile(r'''
   c"(?:[^"\\]|\\.)*" | [%@]"[^"]*" | "[^"]*" | [%@][-\w$.]+ | \#\d+ | ![\w.]+ | ![0-9]*
 | 0x[KMLHR]?[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+ | [A-Za-z_$][\w$.]* | \.\.\. | [()\[\]{}<>,=*:|]
''', re.X)

def tokenize(s):
    return TOK.findall(s)

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'name', 'packed', 'mod', '_lay')
    def __init__(self, k, **kw):
        self.k = k; self.w = self.n = self.el = self.els = self.name = self.mod = self._lay = None
        self.packed = False
        for a, b in kw.items(): setattr(self, a, b)
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.w
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct': return '{%s}' % ','.join(map(repr, self.els))
        if self.k == 'named': return self.name
        return self.k
    def res(self):
        t = self
        while t.k == 'named':
            t = t.mod.types[t.name]
        return t
    def size(self):
        return self.layout()[0]
    def align(self):
        return self.layout()[1]
    def layout(self):
        if self._lay is None:
            self._lay = self._layout()
        return self._lay
    def _layout(self):
        k = self.k
        if k == 'int':
            b = (self.w + 7) // 8
            s = 1
            while s < b: s *= 2
            return (s, min(s, 16), None)
        if k == 'ptr': return (8, 8, None)
        if k == 'double': return (8, 8, None)
        if k == 'float': return (4, 4, None)
        if k == 'x86_fp80': return (16, 16, None)
        if k == 'arr':
            s, a, _ = self.el.layout()
            return (s * self.n, a, None)
        if k == 'vec':
            s, a, _ = self.el.layout()
            t = s * self.n
            return (t, t, None)
        if k == 'struct':
            off = 0; al = 1; offs = []
            for e in self.els:
                s, a, _ = e.layout()
                if self.packed: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            return (off, al, offs)
        if k == 'named': return self.res().layout()
        if k in ('func', 'void', 'label', 'metadata', 'token', 'opaque'): return (1, 1, None)
        raise Unsupported('layout of ' + k)
    def offsets(self):
        return self.layout()[2]

I1 = Ty('int', w=1); PTR = Ty('ptr'); VOID = Ty('void')

class Parser:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1; return True
        return False
    def expect(self, x):
        if not self.accept(x):
            raise Unsupported('expected %s got %s in %s' % (x, self.t[self.i:self.i+5], ' '.join(self.t[:30])))
    def is_type(self):
        x = self.peek()
        if x is None: return False
        return bool(re.match(r'i\d+$', x)) or x in ('ptr','double','float','x86_fp80','void','label','metadata','token','[','{','<','opaque','half','fp128') or (x[0] == '%')
    def type(self):
        x = self.next(); mod = self.mod
        if re.match(r'i\d+$', x):
            t = mod.ity(int(x[1:]))
        elif x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif x in ('double', 'float', 'x86_fp80', 'void', 'label', 'metadata', 'token', 'opaque', 'half', 'fp128'):
            t = VOID if x == 'void' else Ty(x)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = Ty('arr', n=n, el=e)
        elif x == '<':
            if self.peek() == '{':
                self.next(); t = self._struct('}'); t.packed = True; self.expect('>')
            else:
                n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
                t = Ty('vec', n=n, el=e)
        elif x == '{':
            t = self._struct('}')
        elif x[0] == '%':
            t = Ty('named', name=x, mod=mod)
        else:
            raise Unsupported('type ' + x)
        # function type "ty (args...)"
        if self.peek() == '(' :
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
            t = Ty('func', el=t)
        return t
    def _struct(self, close):
        els = []
        if self.accept(close): return Ty('struct', els=els)
        while True:
            els.append(self.type())
            if self.accept(close): break
            self.expect(',')
        return Ty('struct', els=els)
    def skip_attrs(self):
        """parameter / return attributes"""
        while True:
            x = self.peek()
            if x is None: return
            if x in ('noundef','nonnull','signext','zeroext','nocapture','readonly','readnone','writeonly','noalias','returned','inreg','nest','immarg','swiftself','swifterror','nofree','dead_on_unwind','writable','inalloca','allocptr','allocalign','noext', 'nocallback'):
                self.next()
            elif x in ('align',):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else: self.next()
            elif x in ('dereferenceable','dereferenceable_or_null','sret','byval','byref','preallocated','elementtype','range','nofpclass','initializes','captures','memory','inalloca'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')': d -= 1
            elif x.startswith('"'):
                self.next()
                if self.accept('='): self.next()
            elif x.startswith('#'):
                self.next()
            else: return
    def value(self, ty):
        """constant or register operand -> tuple"""
        x = self.next()
        k = ty.k
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x[1:].strip('"'))
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero', ty)
        if x == 'true': return ('i', 1)
        if x == 'false': return ('i', 0)
        if x == 'none': return ('undef',)
        if re.match(r'-?\d+$', x) and k == 'int': return ('i', int(x))
        if k in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
            if x.startswith('0xK'):
                return ('f80', x[3:])
            if x.startswith('0x'):
                return ('f', struct.unpack('>d', bytes.fromhex(x[2:].zfill(16)))[0])
            return ('f', float(x))
        if x.startswith('c"'):
            return ('str', unescape(x[2:-1]))
        if x in ('[', '{', '<'):
            packed = False
            if x == '<' and self.peek() == '{':
                self.next(); packed = True; x = '{'
            close = {'[': ']', '{': '}', '<': '>'}[x]
            els = []
            if not self.accept(close):
                while True:
                    t = self.type(); els.append((t, self.value(t)))
                    if self.accept(close): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', els)
        if x in ('getelementptr',):
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            if self.peek() == 'inrange':
                self.next(); self._parens()
            self.expect('('); bt = self.type(); self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                    if self.peek() == '(': self._parens()
                t = self.type(); ops.append((t, self.value(t)))
                if self.accept(')'): break
                self.expect(',')
            return ('gep', bt, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('('); t = self.type(); v = self.value(t); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            while self.peek() in ('nuw', 'nsw', 'exact'): self.next()
            self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            p = self.next(); self.expect('('); t = self.type(); a = self.value(t); self.expect(','); t2 = self.type(); b = self.value(t2); self.expect(')')
            return ('cicmp', p, t, a, b)
        if x == 'dso_local_equivalent' or x == 'no_cfi': return self.value(ty)
        raise Unsupported('value %s of %r' % (x, ty))
    def _parens(self):
        d = 0
        while True:
            y = self.next()
            if y == '(': d += 1
            elif y == ')':
                d -= 1
                if d == 0: return

def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Func:
    def __init__(self, name): self.name = name; self.args = []; self.blocks = None; self.text = None; self.ret = None; self.declared = False; self.entry = None; self.vararg = False
    def __repr__(self): return '<func %s>' % self.name

class Glob:
    def __init__(self, name, ty, init, const, ext): self.name, self.ty, self.init, self.const, self.ext = name, ty, init, const, ext

class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.aliases = {}; self._ity = {}; self.md = {}
    def ity(self, w):
        t = self._ity.get(w)
        if t is None: t = self._ity[w] = Ty('int', w=w)
        return t

LINK = set('private internal available_externally linkonce weak common appending extern_weak linkonce_odr weak_odr external dso_local dso_preemptable default hidden protected dllimport dllexport unnamed_addr local_unnamed_addr thread_local externally_initialized'.split())

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith('define '):
            body = [l]; i += 1
            while not lines[i].startswith('}'):
                body.append(lines[i]); i += 1
            f = parse_header(l, m, True); f.text = body[1:]
            m.funcs[f.name] = f
        elif l.startswith('declare '):
            f = parse_header(l, m, False); f.declared = True
            m.funcs.setdefault(f.name, f)
        elif l.startswith('%') and ' = type ' in l:
            name, rest = l.split(' = type ', 1)
            p = Parser(tokenize(rest), m)
            m.types[name] = p.type() if rest.strip() != 'opaque' else Ty('opaque')
        elif l.startswith('@'):
            parse_global(l, m)
        i += 1
    return m

def parse_global(l, m):
    mm = re.match(r'@("[^"]*"|[-\w$.]+) = (.*)$', l)
    name = mm.group(1).strip('"'); rest = mm.group(2)
    p = Parser(tokenize(rest), m)
    ext = False
    while True:
        x = p.peek()
        if x in LINK:
            if x in ('external', 'extern_weak'): ext = True
            p.next()
            if x == 'thread_local' and p.peek() == '(': p._parens()
        elif x == 'addrspace': p.next(); p._parens()
        else: break
    x = p.next()
    if x in ('alias', 'ifunc'):
        t = p.type(); p.expect(','); t2 = p.type(); m.aliases[name] = p.value(t2); return
    const = (x == 'constant')
    t = p.type()
    init = None
    if not ext: 
        try: init = p.value(t)
        except Unsupported as e: init = ('bad', str(e))
    m.globals[name] = Glob(name, t, init, const, ext)

def parse_header(l, m, isdef):
    mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
    name = mm.group(1).strip('"')
    f = Func(name)
    head = l[:mm.start()]
    p = Parser(tokenize(head), m); p.next()
    while p.peek() is not None:
        x = p.peek()
        if p.is_type() : break
        if x in LINK or x in ('fastcc', 'ccc', 'coldcc'): p.next()
        else:
            j = p.i; p.skip_attrs()
            if p.i == j: p.next()
    f.ret = p.type() if p.peek() is not None else VOID
    # args
    s = l[mm.end():]
    p = Parser(tokenize(s), m)
    n = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                f.vararg = True; p.expect(')'); break
            t = p.type(); p.skip_attrs()
            x = p.peek()
            if x is not None and x[0] == '%': a = p.next()
            else: a = '%' + str(n)
            f.args.append((t, a)); n += 1
            if p.accept(')'): break
            p.expect(',')
    f.nargs = n
    return f

FASTF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())

def parse_body(f, m):
    """fill f.blocks: label -> list of decoded instructions"""
    blocks = {}
    nreg = len(f.args)
    label = '%' + str(nreg)   # implicit entry label
    cur = []; first = True
    lines = f.text
    i = 0
    entry = None
    while i < len(lines):
        l = lines[i]; i += 1
        if not l.strip(): continue
        mm = re.match(r'^("[^"]*"|[-\w$.]+):', l)
        if mm:
            if cur or entry is not None:
                pass
            label = '%' + mm.group(1); cur = []
            blocks[label] = cur
            if entry is None: entry = label
            continue
        if entry is None:
            entry = label; blocks[label] = cur
        s = l.strip()
        if s.startswith('switch ') or ' switch ' in s[:10]:
            while ']' not in s:
                s += ' ' + lines[i].strip(); i += 1
        if s.startswith('invoke ') or re.match(r'%\S+ = invoke ', s) :
            while ' unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
        if 'landingpad' in s:
            while i < len(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i]): i += 1
        s = s.split(', !')[0] if ', !' in s else s
        try:
            cur.append(decode(s, m))
        except Unsupported as e:
            cur.append(('unsupported', None, str(e) + ' :: ' + s))
    f.blocks = blocks; f.entry = entry

def decode(s, m):
    p = Parser(tokenize(s), m)
    dest = None
    if p.peek(1) == '=':
        dest = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor'):
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): fl.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        if t.k != 'int': raise Unsupported('vector arithmetic')
        return ('bin', dest, op, t.w, a, b, fl)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        while p.peek() in FASTF: p.next()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        if t.k == 'vec': raise Unsupported('vector fp')
        return ('fbin', dest, op, t, a, b)
    if op == 'fneg':
        while p.peek() in FASTF: p.next()
        t = p.type(); return ('fneg', dest, t, p.value(t))
    if op == 'icmp':
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('icmp', dest, pr, t, a, b)
    if op == 'fcmp':
        while p.peek() in FASTF: p.next()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return ('fcmp', dest, pr, t, a, b)
    if op == 'load':
        p.accept('volatile'); p.accept('atomic'); p.accept('volatile')
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return ('load', dest, t, a)
    if op == 'store':
        p.accept('volatile'); p.accept('atomic'); p.accept('volatile')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return ('store', None, t, v, a)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type(); n = ('i', 1)
        if p.accept(','):
            if p.is_type():
                t2 = p.type(); n = p.value(t2)
        return ('alloca', dest, t, n)
    if op == 'getelementptr':
        inb = False
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next(); inb = True
        bt = p.type(); p.expect(',')
        t = p.type(); base = p.value(t); ops = []
        while p.accept(','):
            t = p.type(); ops.append((t, p.value(t)))
        return ('gep', dest, bt, base, ops)
    if op == 'br':
        if p.peek() == 'label':
            p.next(); return ('jmp', None, p.next())
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return ('br', None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type(); c = p.value(t2); p.expect(','); p.expect('label'); cs.append((c[1], p.next()))
        return ('switch', None, t.w, v, d, cs)
    if op == 'ret':
        t = p.type()
        return ('ret', None, None if t.k == 'void' else p.value(t), t)
    if op == 'phi':
        while p.peek() in FASTF: p.next()
        t = p.type(); inc = {}
        while True:
            p.expect('['); v = p.value(t); p.expect(','); inc[p.next()] = v; p.expect(']')
            if not p.accept(','): break
        return ('phi', dest, t, inc)
    if op == 'select':
        while p.peek() in FASTF: p.next()
        t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        return ('select', dest, t1, c, a, b)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'addrspacecast'):
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); v = p.value(t); p.expect('to'); t2 = p.type()
        return ('cast', dest, op, t, v, t2)
    if op in ('call', 'invoke'):
        while True:
            x = p.peek()
            if x in FASTF or x in ('fastcc', 'ccc', 'coldcc'): p.next()
            else:
                j = p.i; p.skip_attrs()
                if p.i == j: break
        t = p.type()
        if t.k == 'func': t = t.el
        callee = p.next()
        if callee[0] == '@': c = ('g', callee[1:].strip('"'))
        elif callee[0] == '%': c = ('r', callee)
        else: raise Unsupported('callee ' + callee)
        p.expect('('); args = []
        if not p.accept(')'):
            while True:
                at = p.type()
                if at.k == 'metadata':
                    d = 0
                    while True:
                        y = p.peek()
                        if d == 0 and y in (',', ')'): break
                        if y == '(': d += 1
                        if y == ')': d -= 1
                        p.next()
                    args.append((at, ('undef',)))
                else:
                    p.skip_attrs(); args.append((at, p.value(at)))
                if p.accept(')'): break
                p.expect(',')
        norm = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); norm = p.next()
        return ('call', dest, t, c, args, norm)
    if op == 'unreachable': return ('unreachable', None)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('extractvalue', dest, v, idx)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); e = p.value(t2); idx = []
        while p.accept(','): idx.append(int(p.next()))
        return ('insertvalue', dest, t, v, e, idx)
    if op == 'freeze':
        t = p.type(); return ('freeze', dest, p.value(t))
    if op == 'fence': return ('nop', None)
    raise Unsupported('instr ' + op)
