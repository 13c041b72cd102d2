"""Short texts, byte by byte.  The lengths of the texts are given (a few bytes each), every byte is an arbitrary character (1..127).
With the lengths fixed every loop is followed exactly, the bytes stay abstract and are split by the comparisons and character classes
the code (or the expected result) makes.  On each return the resulting texts and the result are compared with those the documented
operation yields on the same abstract bytes."""
import math, re
from fractions import Fraction
import driver, spec, models, ir
from spec import VI, hdr_cell
from poly import *
from absint import *

I8 = ir.Ty('int', 8)

class Txt(tuple):
    """a longer text: each byte given or from a range"""
    def __add__(self, o): return Txt(tuple(self) + tuple(o))
    def __radd__(self, o): return Txt(tuple(o) + tuple(self))
    def __repr__(self):
        out = []; 
        for x in self:
            s = chr(x) if isinstance(x, int) else '[%s-%s]' % (chr(x[0]), chr(x[1]))
            if out and out[-1][0] == s: out[-1][1] += 1
            else: out.append([s, 1])
        s = ''.join(c if n == 1 else '%s{%d}' % (c, n) for c, n in out)
        return '"%s"' % s if len(s) < 60 else '"%s..."(%d)' % (s[:40], len(self))
def rng(lo, hi, n): return Txt(((lo, hi),) * n)
def many(b, n): return Txt(tuple(b) * n)
def longest(v): return max([len(v) if isinstance(v, (tuple, bytes)) else 0] + [longest(x) for x in v if isinstance(x, (tuple, bytes))]) if isinstance(v, (tuple, bytes)) else 0
LIMIT = 1200
class Split(Exception): pass
class D:
    """decides questions about bytes in one state; an open question splits the state"""
    def __init__(self, I, st): self.I = I; self.st = st; self.memo = {}
    def ask(self, c):
        if c.t[0] == 'c': return c.t[1]
        if c in self.memo: return self.memo[c]
        I = self.I; m = I.mute; I.mute += 1
        try: t = I.assume(self.st.fork(), c, True); f = I.assume(self.st.fork(), c, False)
        finally: I.mute = m
        if t and f: raise Split(t + f)
        if not t and not f: raise Split([])
        self.memo[c] = bool(t); return bool(t)
    def eq(self, a, b): return self.ask(self.I.cmp(self.st, 'eq', P(a), P(b)))
    def ne(self, a, b): return not self.eq(a, b)
    def inr(self, b, *rs):
        """b in one of the ranges"""
        b = P(b)
        if b.const() is not None: return any(lo <= b.const() <= hi for lo, hi in rs)
        for lo, hi in rs:
            if self.ask(self.I.cmp(self.st, 'sge', b, C(lo))) and self.ask(self.I.cmp(self.st, 'sle', b, C(hi))): return True
        return False
    def same(self, x, y): return len(x) == len(y) and all(self.eq(a, b) for a, b in zip(x, y))
    def order(self, x, y):
        """-1, 0, 1 as strcmp of two byte lists (without their terminators)"""
        for a, b in zip(list(x) + [ZERO], list(y) + [ZERO]):
            if not self.eq(a, b): return -1 if self.ask(self.I.cmp(self.st, 'slt', P(a), P(b))) else 1
        return 0
    # ---- text
    def find(self, h, n, at=0):
        return next((k for k in range(at, len(h) - len(n) + 1) if self.same(h[k:k + len(n)], n)), None)
    def all(self, h, n):
        out = []; k = self.find(h, n)
        while k is not None: out.append(k); k = self.find(h, n, k + len(n))
        return out
    def upper(self, b): return P(b) - 32 if self.inr(b, (97, 122)) else P(b)
    def lower(self, b): return P(b) + 32 if self.inr(b, (65, 90)) else P(b)
    def among(self, b, cs): return any(self.eq(b, c) for c in cs)
def P(x): return x if isinstance(x, Poly) else C(x if isinstance(x, int) else ord(x))
CLS = {'isspace': ((9, 13), (32, 32)), 'isdigit': ((48, 57),), 'ispunct': ((33, 47), (58, 64), (91, 96), (123, 126)), 'isalpha': ((65, 90), (97, 122)), 'isalnum': ((48, 57), (65, 90), (97, 122)),
       'isprint': ((32, 126),), 'isupper': ((65, 90),), 'islower': ((97, 122),), 'isxdigit': ((48, 57), (65, 70), (97, 102)), 'iscntrl': ((0, 31), (127, 127)), 'isblank': ((9, 9), (32, 32)), 'isgraph': ((33, 126),)}

def cases(I, st, f):
    """[(state, f's answer)] over the splits f needs"""
    out = []; todo = [st]
    while todo:
        s = todo.pop()
        try: out.append((s, f(D(I, s))))
        except Split as x: todo += x.args[0]
        if len(out) + len(todo) > 4000: raise Budget('too many cases')
    return out

def byte(I, st, rid, o):
    r = st.reg.get(rid)
    if r is None or r.size is None or not st.cs.entails(r.size - o - 1): return None
    v = I.load_raw(st, Ptr(rid, C(o), r.gen), I8, 1)
    return v if isinstance(v, Poly) else None
def text(I, st, p, limit=LIMIT):
    """bytes of the C string at p up to its terminator, or None when they are not known one by one"""
    p = I.resolve(st, p)
    if not isinstance(p, Ptr) or p.off.const() is None: return None
    r = st.reg.get(p.r)
    if r is None or not r.live or p.gen != r.gen: return None
    out = []; o = p.off.const()
    while len(out) < limit:
        b = byte(I, st, p.r, o + len(out))
        if b is None: return None
        c = b.const()
        if c == 0: return out
        if c is None and not st.cs.entails(b - 1) and not st.cs.entails(-b - 1):
            return None
        out.append(b)
    return None
def raw(I, st, p, n):
    p = I.resolve(st, p)
    if not isinstance(p, Ptr) or p.off.const() is None: return None
    out = [byte(I, st, p.r, p.off.const() + i) for i in range(n)]
    return None if any(b is None for b in out) else out

class SVI(VI):
    MAXD = 100000; KEEP = 100000; MAXKEPT = 10 ** 9; KEEPDEPTH = 99; peel = 14; longpeel = 70; endless = 3000; maxcur = 100000; MAXFACTS = 60
    def strlen_raw(self, st, p, what='strlen'):
        t = text(self, st, p)
        if t is not None: return C(len(t))
        return VI.strlen_raw(self, st, p, what)
    def try_strlen(self, st, p):
        t = text(self, st, p)
        if t is not None: return C(len(t))
        return VI.try_strlen(self, st, p)
    def joinable(self, a, b): return False
    def store_raw(self, st, p, v, n):
        if p.off.const() is None: st.ghost[('somewhere', p.r)] = True
        return VI.store_raw(self, st, p, v, n)
    def fresh_load(self, st, r, p, ty, n):
        # a place that is not known, or contents some of which were written at such a place
        if r.elem is None and (p.off.const() is None or ('somewhere', r.id) in st.ghost): st.imp = st.imp | {-2}
        return VI.fresh_load(self, st, r, p, ty, n)
    # floating point as real arithmetic (quotients of polynomials); rounding is left out
    def real(self, v):
        if isinstance(v, Rat): return v
        if isinstance(v, Poly): return Rat(v, C(1))
        if isinstance(v, Cond): return Rat(self.as_int(None, v), C(1))
        if not isinstance(v, Opq): return None
        if v.t[0] == 'fc':
            f = fconst(v.t[1])
            if f is not None: return Rat(C(f.numerator), C(f.denominator))
        k = ('real', v.t); x = self.terms.get(k)
        if x is None: x = self.terms[k] = fresh('fl')
        return Rat(x, C(1))
    def exec_simple(self, st, ins):
        op = ins.op; a = ins.a; ty = ins.ty
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            x, y = self.real(self.value(st, ty, a[0])), self.real(self.value(st, ty, a[1]))
            v = rat(op, x, y) if x and y else None
            if v is not None: st.env[ins.dst] = v; return None
        elif op == 'fneg':
            x = self.real(self.value(st, ty, a[0]))
            if x: st.env[ins.dst] = Rat(-x.p, x.q); return None
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp'):
            x = self.real(self.value(st, a[1], a[0]))
            if x: st.env[ins.dst] = nearest(x, ins.ty.name if ins.ty.k == 'fp' else None); return None
        elif op == 'fcmp':
            x, y = self.real(self.value(st, a[1], a[2])), self.real(self.value(st, a[1], a[3]))
            pr = {'lt': 'slt', 'gt': 'sgt', 'le': 'sle', 'ge': 'sge', 'eq': 'eq', 'ne': 'ne'}.get(a[0][1:])
            if x and y and pr and (x.q.const() or 0) > 0 and (y.q.const() or 0) > 0:
                st.env[ins.dst] = self.cmp(st, pr, x.p * y.q, y.p * x.q); return None
        elif op in ('fptosi', 'fptoui'):
            x = self.real(self.value(st, a[1], a[0])); q = x.q.const() if x else None
            if q == 1: st.env[ins.dst] = x.p; return None
            if q is not None and q > 0:
                st.ghost[('fl',)] = True
                out = []
                for s, c in ((st, x.p), (st.fork(), -x.p - 1)):
                    s.cs.add(c)
                    if s.cs.bad or not s.cs.feasible(): continue
                    s.env[ins.dst] = self.binop(s, 'sdiv', ir.IntTy(64), x.p, x.q); out.append(s)
                return out
        return VI.exec_simple(self, st, ins)
class Rat(Opq):
    __slots__ = ('p', 'q')
    def __init__(self, p, q):
        g = 0
        for c in list(p.d.values()) + list(q.d.values()): g = math.gcd(g, c)
        if q.const() is not None and q.const() < 0: g = -g
        if g not in (0, 1): p = Poly({m: c // g for m, c in p.d.items()}); q = Poly({m: c // g for m, c in q.d.items()})
        if not p.d: q = C(1)
        self.p = p; self.q = q; Opq.__init__(self, ('rat', p.key, q.key))
def nearest(x, ty):
    """a whole number too long for the mantissa becomes the nearest one that fits"""
    n = {'float': 24, 'double': 53, 'x86_fp80': 64}.get(ty); c = x.p.const()
    if n is None or c is None or x.q.const() != 1 or abs(c) < 1 << n: return x
    k = abs(c).bit_length() - n; m, r = divmod(abs(c), 1 << k)
    if 2 * r > 1 << k or 2 * r == 1 << k and m & 1: m += 1
    return Rat(C((m << k) * (1 if c > 0 else -1)), C(1))
def rat(op, x, y):
    if op == 'fdiv': return Rat(x.p * y.q, x.q * y.p) if y.p.d else None
    if op == 'fmul': return Rat(x.p * y.p, x.q * y.q)
    if x.q == y.q: return Rat(x.p + y.p if op == 'fadd' else x.p - y.p, x.q)
    return Rat(x.p * y.q + y.p * x.q if op == 'fadd' else x.p * y.q - y.p * x.q, x.q * y.q)
def fconst(t):
    try:
        if t.startswith('0x'):
            import struct
            if t[2] == 'K':
                h = int(t[3:].rjust(20, '0'), 16); e, m = (h >> 64) & 0x7fff, h & (1 << 64) - 1
                if e == 0x7fff: return None
                x = Fraction(m) * (Fraction(2) ** (e - 16383 - 63)); return -x if h >> 79 else x
            if t[2] in 'MLHR': return None
            return Fraction(struct.unpack('>d', bytes.fromhex(t[2:].rjust(16, '0')))[0])
        return Fraction(t)
    except Exception: return None

SM = {}
def smodel(*names):
    def d(f):
        for n in names: SM[n] = f
        return f
    return d
CONTENT = re.compile(r'(v?snprintf|v?sprintf|str\w+|mem(cmp|chr|rchr)|is[a-z]+|to(lower|upper)|ato\w+|__isoc\w+|sscanf|bcmp|f?abs[fl]?|fmaf?)$')
def old(name):
    """the general model: what depends on the bytes is then not known any more"""
    f = models.M[name]
    if not CONTENT.match(name): return f
    def g(I, st, ins, v, a, fv):
        out = f(I, st, ins, v, a, fv)
        if out is NotImplemented: return out
        for s, _ in out: s.imp = s.imp | {-2}
        return out
    return g
def cname(ins): return ins.a[0][1][1:]
def ptr(st, p, k): return Ptr(p.r, p.off + k, st.reg[p.r].gen)
@smodel('strstr')
def s_strstr(I, st, ins, v, a, fv):
    h, n = text(I, st, v[0]), text(I, st, v[1])
    if h is None or n is None: return old('strstr')(I, st, ins, v, a, fv)
    p = I.resolve(st, v[0])
    return [(s, NULL if k is None else ptr(s, p, k)) for s, k in cases(I, st, lambda d: d.find(h, n))]
@smodel('strchr', 'strrchr')
def s_strchr(I, st, ins, v, a, fv):
    h = text(I, st, v[0]); c = models.I64(I, st, v[1])
    if h is None: return old(cname(ins))(I, st, ins, v, a, fv)
    p = I.resolve(st, v[0]); hh = h + [ZERO]; order = range(len(hh)) if cname(ins) == 'strchr' else range(len(hh) - 1, -1, -1)
    return [(s, NULL if k is None else ptr(s, p, k)) for s, k in cases(I, st, lambda d: next((k for k in order if d.eq(hh[k], c)), None))]
@smodel('memchr')
def s_memchr(I, st, ins, v, a, fv):
    n = models.I64(I, st, v[2]).const(); h = raw(I, st, v[0], n) if n is not None else None
    if h is None: return NotImplemented if 'memchr' not in models.M else old('memchr')(I, st, ins, v, a, fv)
    p = I.resolve(st, v[0]); c = models.I64(I, st, v[1])
    return [(s, NULL if k is None else ptr(s, p, k)) for s, k in cases(I, st, lambda d: next((k for k in range(n) if d.eq(h[k], c)), None))]
@smodel('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp')
def s_strcmp(I, st, ins, v, a, fv):
    x, y = text(I, st, v[0]), text(I, st, v[1]); nm = cname(ins)
    n = models.I64(I, st, v[2]).const() if 'strn' in nm else 1 << 30
    if x is None or y is None or n is None: return old(nm)(I, st, ins, v, a, fv) if nm in models.M else NotImplemented
    def f(d):
        p, q = (x[:n], y[:n])
        if 'case' in nm: p, q = [d.lower(b) for b in p], [d.lower(b) for b in q]
        if n <= min(len(x), len(y)): return 0 if d.same(p, q) else d.order(p, q)
        return d.order(p, q)
    return [(s, C(k)) for s, k in cases(I, st, f)]
def whole(I, st, p, n):
    """the one number stored in the n bytes at p, or None"""
    p = I.resolve(st, p)
    w = st.reg[p.r].cells.get(p.off.const()) if isinstance(p, Ptr) and p.off.const() is not None else None
    if w is None or w[0] != n or not isinstance(w[1], (Poly, Opq)): return None
    r = I.real(w[1])
    return r.p if r is not None and r.q.const() == 1 else None
@smodel('memcmp', 'bcmp')
def s_memcmp(I, st, ins, v, a, fv):
    n = models.I64(I, st, v[2]).const()
    if n is not None and n > 1:
        w = [whole(I, st, q, n) for q in v[:2]]
        if None not in w: return [(s, C(0) if k else fresh('diff', 1, 1)) for s, k in cases(I, st, lambda d: d.eq(w[0], w[1]))]
    x, y = (raw(I, st, v[0], n), raw(I, st, v[1], n)) if n is not None else (None, None)
    if x is None or y is None: return old('memcmp')(I, st, ins, v, a, fv)
    return [(s, C(k)) for s, k in cases(I, st, lambda d: d.order(x, y))]
@smodel('strspn', 'strcspn', 'strpbrk')
def s_strspn(I, st, ins, v, a, fv):
    h, n = text(I, st, v[0]), text(I, st, v[1]); nm = cname(ins)
    if h is None or n is None: return old(nm)(I, st, ins, v, a, fv) if nm in models.M else NotImplemented
    def f(d):
        k = next((k for k in range(len(h)) if d.among(h[k], n) != (nm == 'strspn')), None)
        return k
    p = I.resolve(st, v[0])
    if nm == 'strpbrk': return [(s, NULL if k is None else ptr(s, p, k)) for s, k in cases(I, st, f)]
    return [(s, C(len(h) if k is None else k)) for s, k in cases(I, st, f)]
@smodel(*CLS)
def s_cls(I, st, ins, v, a, fv):
    c = models.I64(I, st, v[0])
    return [(s, C(int(k))) for s, k in cases(I, st, lambda d: d.inr(c, *CLS[cname(ins)]))]
@smodel('toupper', 'tolower')
def s_to(I, st, ins, v, a, fv):
    c = models.I64(I, st, v[0]); up = cname(ins) == 'toupper'
    return cases(I, st, lambda d: d.upper(c) if up else d.lower(c))

@smodel('llvm.fmuladd', 'fma', 'fmaf')
def s_fma(I, st, ins, v, a, fv):
    x = [I.real(y) for y in v[:3]]
    if None in x: return old('llvm.fmuladd')(I, st, ins, v, a, fv)
    return [(st, rat('fadd', rat('fmul', x[0], x[1]), x[2]))]
@smodel('llvm.fabs', 'fabs', 'fabsf', 'fabsl')
def s_fabs(I, st, ins, v, a, fv):
    x = I.real(v[0])
    if x is None or (x.q.const() or 0) <= 0: return old('fabs')(I, st, ins, v, a, fv)
    return cases(I, st, lambda d: x if d.ask(I.cmp(d.st, 'sge', x.p, ZERO)) else Rat(-x.p, x.q))
@smodel('llvm.va_start')
def s_vastart(I, st, ins, v, a, fv):
    """the argument list as the System V x86-64 calling convention lays it out (pointer and integer arguments)"""
    p = I.resolve(st, v[0]); f = I.mod.fns.get(I.stack[-1]); va = I.va_stack[-1] if I.va_stack else None
    out = old('llvm.va_start')(I, st, ins, v, a, fv)
    if not isinstance(p, Ptr) or p.off.const() != 0 or va is None or f is None or any('byval' in at for _, _, at in f.params): return out
    n = len(f.params)
    regs = I.new_region(st, 'stack', C(176), 'stack', 'register arguments'); over = I.new_region(st, 'stack', C(max(8, 8 * (n + len(va) - 6))), 'stack', 'stack arguments')
    for k, x in enumerate(va):
        if n + k < 6: regs.cells[8 * (n + k)] = (8, x)
        else: over.cells[8 * (k if n >= 6 else n + k - 6)] = (8, x)
    r = st.w(p.r); I.kill(st, r, C(0), C(24))
    r.cells[0] = (4, C(8 * min(n, 6))); r.cells[4] = (4, C(48)); r.cells[8] = (8, Ptr(over.id, ZERO, over.gen)); r.cells[16] = (8, Ptr(regs.id, ZERO, regs.gen))
    for x in (regs, over): x.frame = I.frame
    return out
# ------------------------------------------------------------------ entry states
def fill(I, st, r, name, n, chars=None):
    """n arbitrary characters and the terminator"""
    bs = []
    for i in range(n):
        b = fresh('ch.%s%d' % (name, i), 1, 127) if not chars else C(chars[i]) if isinstance(chars[i], int) else fresh('ch.%s%d' % (name, i), *chars[i])
        bs.append(b); r.cells[i] = (1, b)
        if b.const() is None: st.nz = st.nz | {b.single()}
        elif n < 40: I.add_fact(st, r, (C(i),), (C(i + 1),), ('const', b.const()))
    I.add_fact(st, r, (C(n),), (C(n + 1),), ('const', 0)); r.cells[n] = (1, C(0))
    return bs
def size_of(x): return len(x) if isinstance(x, (bytes, Txt)) else x
def chars_of(x): return x if isinstance(x, (bytes, Txt)) else None
def mk_text(I, st, name, x, ro=True, extra=0):
    n = size_of(x)
    r = I.new_region(st, 'text', C(n + 1 + extra), 'borrowed', 'string ' + name)
    bs = fill(I, st, r, name, n, chars_of(x)); r.ro = ro
    return r, bs
def mk_str(I, st, name, x, al, slack=2):
    c = spec.mk_cont(I, st, 'str', al, name=name)
    n = size_of(x); b = st.w(c.buf); h = st.w(c.hdr)
    b.kind = 'text'; b.facts = (); b.size = C(n + slack + 1)
    bs = fill(I, st, b, name, n, chars_of(x))
    c.len = c.Z = C(n); c.cap = C(n + slack)
    h.cells[spec.O_LEN] = (8, c.len); h.cells[spec.O_CAP] = (8, c.cap)
    c.bytes = bs
    return c
def mk_list(I, st, name, xs, al):
    c = spec.mk_cont(I, st, 'plist', al, name=name)
    n = len(xs); b = st.w(c.buf); h = st.w(c.hdr)
    b.kind = 'text'; b.facts = (); b.size = C(8 * (n + 1)); c.len = C(n); c.cap = C(n + 1); c.texts = []
    h.cells[spec.O_LEN] = (8, c.len); h.cells[spec.O_CAP] = (8, c.cap)
    for i, x in enumerate(xs):
        r, bs = mk_text(I, st, '%s[%d]' % (name, i), x); st.w(c.buf).cells[8 * i] = (8, Ptr(r.id, ZERO, 0)); c.texts.append(bs)
    return c
MAKERS = {}
def make(I, st, e, info, x, ct, ty):
    """the parameter named in the case, or None"""
    base = spec.strip_c(ct); tgt = base.rstrip('*').strip(); name = info['name']
    if name in MAKERS or tgt in MAKERS:
        v = MAKERS[name if name in MAKERS else tgt](I, st, e, info, x, ct, ty)
        if v is not None: return v
    if x is None: info['kind'] = 'null'; return NULL
    if tgt == 'vt_str_t': c = mk_str(I, st, name, x, e.al); info['kind'] = 'cont'; info['c'] = c; info['bytes'] = c.bytes; return Ptr(c.hdr, ZERO, 0)
    if tgt == 'vt_plist_t': c = mk_list(I, st, name, x, e.al); info['kind'] = 'cont'; info['c'] = c; return Ptr(c.hdr, ZERO, 0)
    if tgt == 'char' and base.endswith('*'):
        r, bs = mk_text(I, st, name, x, ct.startswith('const const'))
        info['kind'] = 'cstr'; info['rid'] = r.id; info['L'] = C(len(bs)); info['bytes'] = bs; return Ptr(r.id, ZERO, 0)
    if ty.k == 'int' and ty.n == 1 and isinstance(x, (bool, int)): v = TRUE if x else FALSE; info['kind'] = 'int'; info['v'] = v; return v
    if ty.k == 'int' and isinstance(x, tuple) and x[0] == 'times':      # a given multiple of one unknown number
        u = I.terms.setdefault('unit!', fresh('unit', 1, 10 ** 6)); v = u * x[1]; info['kind'] = 'int'; info['v'] = v; info['unit'] = u; return v
    if ty.k == 'int' and isinstance(x, tuple): v = fresh(name, *x); info['kind'] = 'int'; info['v'] = v; return v
    if ty.k == 'int': v = x if isinstance(x, Poly) else C(x) if isinstance(x, int) and x >= -1000 else None; info['kind'] = 'int'; info['v'] = v; return v
    return None
spec.SMALL = make

# ------------------------------------------------------------------ expected results
CASE = {}; REF = {}
def ref(names, *cs):
    def d(f):
        for n in names.split(): REF[n] = f; CASE[n] = list(cs)
        return f
    return d
class Out:
    """what a call must leave behind: texts of containers and buffers by parameter name, and the result"""
    def __init__(self, ret=None, check=None, **texts): self.ret = ret; self.texts = texts; self.check = check
# results: ('bool', b) ('int', n) ('null',) ('str', bytes) ('same', param) ('at', param, k) ('list', [bytes...]) None: not compared
def grid(**kw):
    out = [{}]
    for k, vs in kw.items(): out = [dict(o, **{k: v}) for o in out for v in vs]
    return out
S = lambda p, n='s': list(p[n]['bytes'])

class SmallHook(driver.Hook):
    exited = None
    def setup(self, I, f, cfg):
        I.__class__ = SVI; I.undef = I.lit = I.splitdiv = True
        I.rec_limit = lambda name: 3
        I.models = dict(I.models); I.models.update(SM)
        self.case = dict(cfg['small'])
        k = max([longest(v) for v in self.case.values()] + [0])
        if k > 30: I.longpeel = max(I.longpeel, k + 40); I.MAXFACTS = 3 * k + 60
    def entry(self, I, e):
        if '@home' in self.case:
            I.home = (None, None)
            if self.case['@home'] is not None:
                r, bs = mk_text(I, e.st, 'HOME', self.case['@home']); I.home = (r.id, bs); e.entry_regs.add(r.id); e.st0.reg[r.id] = r
        I.sys = self.case.get('@sys', False); I.oom = '@oom' in self.case; I.report = '@report' in self.case; I.freshglobals = '@fresh' in self.case
        va = self.case.get('...')
        if va is not None:
            e.va = []
            for i, x in enumerate(va):
                r, bs = mk_text(I, e.st, 'arg%d' % i, x); e.va.append(bs); e.vals.append(Ptr(r.id, ZERO, 0)); e.entry_regs.add(r.id); e.st0.reg[r.id] = r
        e.pre = []
        for fn, args in self.case.get('@before', ()):       # calls made earlier
            vals = []
            for i, x in enumerate(args):
                if isinstance(x, (bytes, tuple)):
                    r, bs = mk_text(I, e.st, 'earlier%d' % len(e.pre), x if isinstance(x, bytes) else x[0]); e.pre.append(bs); vals.append(Ptr(r.id, ZERO, 0)); e.entry_regs.add(r.id)
                    for s2 in getattr(e, 'more', ()): s2.reg[r.id] = r
                elif x is None: vals.append(NULL)
                else: vals.append((TRUE if x else FALSE) if isinstance(x, bool) and I.mod.fns[fn].params[i][1].n == 1 else C(int(x)))
            out = [s for st in [e.st] + list(getattr(e, 'more', ())) for s, _ in I.call(I.mod.fns[fn], vals, None, st)]
            if not out: raise ir.Broken('an earlier call never returns')
            e.st = out[0]; e.more = out[1:]
    def end(self, I, e, rets, R):
        f = REF[e.fn.name]
        p = {i['name']: i for i in e.params}
        if not getattr(I, 'report', False):
            if '@refuse' in self.case or '@oom' in self.case: return
            for kind, fn, loc, st, stack in I.trap_log:
                if st.imp or st.weak or st.cs.bad: continue
                for s, want in cases(I, st, lambda d: f(d, p, Run(I, e, d.st, self.case))):
                    if want is None or want.ret and want.ret[0] == 'wrong' or not s.cs.feasible(): continue
                    a = Alarm(); a.kind = 'refused'; a.fn = fn; a.file, a.line = loc; a.stack = stack; a.cfg = I.cfg; a.extra = None; a.imp = False
                    a.msg = 'a valid call of %s ends in this %s' % (e.fn.name, kind); I.alarms.setdefault(('refused', fn, a.line, stack[0], I.cfg), a)
            return
        for kind, fn, loc, st, stack in I.trap_log:
            if st.imp or st.weak or st.cs.bad: I.obl += 1; continue
            def go(d):
                x = Run(I, e, d.st, self.case); x.exited = kind; return f(d, p, x)
            for s, want in cases(I, st, go):
                if want is not None: self.exited = kind; self.compare(I, e, s, None, p, Out(None, check=want.check))
    def ret(self, I, e, s, rv):
        if s.imp or s.weak or s.cs.bad: I.obl += 1; return
        p = {i['name']: i for i in e.params}
        f = REF[e.fn.name]
        for st, want in cases(I, s, lambda d: f(d, p, Run(I, e, d.st, self.case))):
            if want is not None: self.compare(I, e, st, rv, p, want)
    def fail(self, I, st, msg): I.alarm('post', msg, st)
    def show(self, st, bs):
        out = ''
        for b in bs or []:
            c = b.const()
            out += chr(c) if c is not None and 32 <= c < 127 else '<%d>' % c if c is not None else '{%s}' % Syms.name[b.single()].split('_')[0].replace('ch.', '') if b.single() is not None else '{%r}' % b
        return '"%s"' % out if len(out) < 200 else '"%s..." (%d characters)' % (out[:80], len(bs))
    def equal(self, I, st, what, got, want):
        I.obl += 1
        if got is None: return          # not known byte by byte
        if len(got) != len(want): self.fail(I, st, '%s is %s, expected %s' % (what, self.show(st, got), self.show(st, want))); return
        for a, b in zip(got, want):
            if st.cs.entails_eq(a - b): continue
            if I.with_neq(st.fork(), a - b): self.fail(I, st, '%s is %s, expected %s' % (what, self.show(st, got), self.show(st, want))); return
        I.proved += 1
    def strtext(self, I, st, rid):
        """(recorded length, text) of a string container"""
        L = hdr_cell(st, rid, spec.O_LEN); b = I.resolve(st, hdr_cell(st, rid, spec.O_PTR))
        if L is None and I.covers(st, st.reg[rid], C(spec.O_LEN), C(spec.O_LEN + 8), ('const', 0)): L = ZERO
        if not isinstance(L, Poly) or not isinstance(b, Ptr): return None, None
        n = L.const()
        return n, (raw(I, st, b, n) if n is not None and 0 <= n <= LIMIT else None)
    def compare(self, I, e, st, rv, p, want):
        for nm, info in p.items():
            if info['kind'] == 'cont' and info['c'].kind == 'str':
                exp = want.texts.get(nm, info.get('bytes'))
                if exp is None or not st.reg[info['c'].hdr].live: continue
                n, t = self.strtext(I, st, info['c'].hdr)
                if n is not None and n != len(exp): I.obl += 1; self.fail(I, st, 'the length of %s is %d, expected %d (%s)' % (nm, n, len(exp), self.show(st, exp))); continue
                self.equal(I, st, nm, t, exp)
            elif info['kind'] == 'cstr':
                exp = want.texts.get(nm, info.get('bytes'))
                if exp is not None: self.equal(I, st, nm, text(I, st, Ptr(info['rid'], ZERO, st.reg[info['rid']].gen)), exp)
        if want.check is not None:
            x = Run(I, e, st, self.case); x.exited = self.exited
            I.obl += 1; msg = want.check(x, rv)
            if msg: self.fail(I, st, msg)
            else: I.proved += 1
        r = want.ret
        if r is None: return
        I.obl += 1
        v = I.resolve(st, rv) if rv is not None else None
        k = r[0]
        if k in ('bool', 'int'): v = rv
        if k == 'bool':
            c = v if isinstance(v, Cond) else I.cmp(st, 'ne', v, ZERO) if isinstance(v, Poly) else None
            if c is None: return
            if I.assume(st.fork(), c, not r[1]): self.fail(I, st, 'returns %s, expected %s' % ('false' if r[1] else 'true', 'true' if r[1] else 'false'))
            else: I.proved += 1
        elif k == 'int':
            if not isinstance(v, Poly): return
            w = P(r[1]); u = v.single()
            if u is not None and not st.cs.entails_eq(v - w) and Syms.prov[u] and Syms.prov[u][0] == 'tr':     # equal up to the width of the result
                x = Syms.prov[u][1]; top = 1 << Syms.prov[u][2]
                if not st.cs.entails_eq(x - w) and not (st.cs.entails(x - w + top - 1) and st.cs.entails(w - x + top - 1)): return
                v = x
            if v.const() is not None and w.const() is not None and (v.const() - w.const()) % (1 << (e.fn.rty.n if e.fn.rty.k == 'int' else 64)) == 0: I.proved += 1
            elif st.cs.entails_eq(v - w): I.proved += 1
            elif any(Syms.imp[q] for q in v.syms()): return
            else: self.fail(I, st, 'returns %r, expected %r' % (v, P(r[1])))
        elif k == 'null':
            if v is NULL: I.proved += 1
            elif isinstance(v, Ptr): self.fail(I, st, 'returns an object, expected none')
        elif k == 'same':
            w = I.resolve(st, p[r[1]]['val'])
            if v is NULL and w is NULL or isinstance(v, Ptr) and isinstance(w, Ptr) and v.r == w.r: I.proved += 1
            elif isinstance(v, Ptr) or v is NULL: self.fail(I, st, 'does not return %s' % r[1])
        elif k == 'at':
            rid = p[r[1]]['c'].buf if 'c' in p[r[1]] else p[r[1]]['rid']
            if isinstance(v, Ptr) and v.r == rid and v.off.const() == r[2]: I.proved += 1
            elif v is NULL or isinstance(v, Ptr): self.fail(I, st, 'returns %s, expected position %d of %s' % ('nothing' if v is NULL else 'position %r' % v.off, r[2], r[1]))
        elif k == 'str':
            if v is NULL: self.fail(I, st, 'returns nothing, expected %s' % self.show(st, r[1])); return
            if not isinstance(v, Ptr): return
            I.proved += 1
            n, t = self.strtext(I, st, v.r)
            if n is not None and n != len(r[1]): self.fail(I, st, 'returns a string of length %d, expected %s' % (n, self.show(st, r[1]))); return
            self.equal(I, st, 'the returned string', t, r[1])
        elif k == 'list':
            if v is NULL: self.fail(I, st, 'returns nothing, expected %d parts' % len(r[1])); return
            if not isinstance(v, Ptr): return
            L = hdr_cell(st, v.r, spec.O_LEN); b = I.resolve(st, hdr_cell(st, v.r, spec.O_PTR))
            if not isinstance(L, Poly) or L.const() is None or not isinstance(b, Ptr): return
            if L.const() != len(r[1]): self.fail(I, st, 'returns %d parts, expected %d: %s' % (L.const(), len(r[1]), ' '.join(self.show(st, x) for x in r[1]))); return
            I.proved += 1
            for i, x in enumerate(r[1]):
                q = I.resolve(st, I.load_raw(st, Ptr(b.r, C(8 * i), b.gen), ir.PTR, 8))
                if not isinstance(q, Ptr) or q.r not in st.reg: I.obl += 1; continue
                n, t = self.strtext(I, st, q.r)
                self.equal(I, st, 'part %d' % i, t, x)
        elif k == 'real':
            x = I.real(rv) if rv is not None else None; y = r[1]
            if x is None or not isinstance(rv, (Rat, Poly, Opq)): return
            dlt = x.p * y.q - y.p * x.q
            if not dlt.d or st.cs.entails_eq(dlt): I.proved += 1
            else: self.fail(I, st, 'returns %r / %r, expected %r / %r' % (x.p, x.q, y.p, y.q))
        elif k == 'wrong': self.fail(I, st, r[1])
        elif k == 'cstr':
            if v is NULL: self.fail(I, st, 'returns nothing, expected %s' % self.show(st, r[1])); return
            I.proved += 1; t = text(I, st, v)
            self.equal(I, st, 'the returned text', t, r[1])
class Run:
    """what else a reference needs to know about the path"""
    def __init__(self, I, e, st, case): self.I = I; self.e = e; self.st = st; self.case = case; self.va = getattr(e, 'va', []); self.pre = getattr(e, 'pre', []); self.exited = None
    def home(self): return list(self.I.home[1] or [])
    def trail(self): return [self.st.ghost[k] for k in sorted(k for k in self.st.ghost if k[0] == 'sys')]
    def events(self): return [self.st.ghost[k] for k in sorted(k for k in self.st.ghost if k[0] == 'ev')]
driver.HOOKS['small'] = SmallHook
def freeze(c): return tuple(sorted(c.items(), key=lambda x: x[0]))
def jobs(m, names, al='none', hooks=('noleak',)):
    return [(n, {'al': al, 'small': freeze(c)}, (), ('small',) + hooks) for n in names if n in REF for c in CASE[n]]

# ------------------------------------------------------------------ strings
def ok(n=0): return ('int', n)
SUCC = lambda: ('int', spec.STATUS['VT_STATUS_OPERATION_SUCCESS'])
NF = lambda: ('int', spec.STATUS['VT_STATUS_ERROR_ELEMENT_NOT_FOUND'])

@ref('vt_str_to_uppercase', *grid(s=(0, 1, 3)))
def _(d, p, x): return Out(s=[d.upper(b) for b in S(p)])
@ref('vt_str_to_lowercase', *grid(s=(0, 1, 3)))
def _(d, p, x): return Out(s=[d.lower(b) for b in S(p)])
@ref('vt_str_replace_c', *grid(s=(0, 1, 3), c=(1, 2), r=(0, 1, 2)), *grid(s=(2,), c=(0, 3), r=(0, 2)))
def _(d, p, x):
    c, r = S(p, 'c'), S(p, 'r')
    if len(r) > len(c): return None
    if not c or not r: return Out()
    def m(b):
        j = next((j for j in range(len(c)) if d.eq(b, c[j])), None)
        return b if j is None else r[min(j, len(r) - 1)]
    return Out(s=[m(b) for b in S(p)])
@ref('vt_str_remove_c', *grid(s=(0, 1, 2, 3), c=(0, 1, 2)))
def _(d, p, x): return Out(s=[b for b in S(p) if not d.among(b, S(p, 'c'))])
def strip(d, t, inside):
    i, j = 0, len(t)
    while i < j and inside(t[i]): i += 1
    while j > i and inside(t[j - 1]): j -= 1
    return t[i:j]
@ref('vt_str_strip', *grid(s=(0, 1, 2, 3)))
def _(d, p, x): return Out(s=strip(d, S(p), lambda b: d.inr(b, *CLS['isspace'])))
@ref('vt_str_strip_punct', *grid(s=(0, 1, 2)))
def _(d, p, x): return Out(s=strip(d, S(p), lambda b: d.inr(b, *CLS['isspace']) or d.inr(b, *CLS['ispunct'])))
@ref('vt_str_strip_c', *grid(s=(0, 1, 2, 3), c=(0, 1, 2)))
def _(d, p, x): return Out(s=strip(d, S(p), lambda b: d.among(b, S(p, 'c'))))
def numeric(d, t): return all(d.inr(b, (46, 46), (48, 57)) for b in t)
@ref('vt_str_is_numeric', *grid(s=(1, 2, 3)))
def _(d, p, x): return Out(('bool', numeric(d, S(p))))
@ref('vt_str_is_numeric_z', *[dict(z=n, len=k) for n, k in ((1, 1), (2, 2), (3, 3), (3, 2), (2, 1))])
def _(d, p, x): return Out(('bool', numeric(d, S(p, 'z')[:x.case['len']])))
@ref('vt_str_index_of', *grid(s=(0, 1, 3), z=(120,)))
def _(d, p, x):
    k = next((k for k, b in enumerate(S(p)) if d.eq(b, 120)), None)
    return Out(ok(-1 if k is None else k))
@ref('vt_str_find', *grid(s=(1, 3), sub=(1,)), *grid(s=(3, 4), sub=(2, 3)))
def _(d, p, x):
    k = d.find(S(p), S(p, 'sub')); return Out(('null',) if k is None else ('at', 's', k))
@ref('vt_str_index_find', *grid(s=(1, 3), sub=(1,)), *grid(s=(3, 4), sub=(2, 3)))
def _(d, p, x):
    k = d.find(S(p), S(p, 'sub')); return Out(ok(-1 if k is None else k))
@ref('vt_str_can_find', *grid(s=(1, 3), sub=(0, 1)), *grid(s=(3, 4), sub=(2,)))
def _(d, p, x): return Out(ok(len(d.all(S(p), S(p, 'sub'))) if S(p, 'sub') else 0))
@ref('vt_str_remove_first', *grid(s=(0, 1, 3), z=(1,)), *grid(s=(3, 4), z=(2,)))
def _(d, p, x):
    s, z = S(p), S(p, 'z'); k = d.find(s, z)
    return Out(NF()) if k is None else Out(SUCC(), s=s[:k] + s[k + len(z):])
def lasts(d, s, z):
    """positions acceptable as the last occurrence (they differ only when occurrences overlap)"""
    l = d.all(s, z)
    if not l: return []
    t = next(k for k in range(len(s) - len(z), -1, -1) if d.same(s[k:k + len(z)], z))
    return [l[-1]] if t == l[-1] else None
@ref('vt_str_remove_last', *grid(s=(0, 1, 3), z=(1,)), *grid(s=(3, 4), z=(2,)))
def _(d, p, x):
    s, z = S(p), S(p, 'z'); l = lasts(d, s, z)
    if l is None: return None
    return Out(NF()) if not l else Out(SUCC(), s=s[:l[0]] + s[l[0] + len(z):])
@ref('vt_str_remove_all', *grid(s=(0, 1, 3), z=(1,)), *grid(s=(3, 4), z=(2,)))
def _(d, p, x):
    s, z = S(p), S(p, 'z'); a = s; l = d.all(s, z); w = list(s)
    for k in reversed(l): del w[k:k + len(z)]
    if d.find(w, z) is not None: return None     # removing made a new occurrence
    return Out(SUCC(), s=w)
def subst(s, at, n, r):
    w = list(s)
    for k in sorted(at, reverse=True): w[k:k + n] = r
    return w
@ref('vt_str_replace', *grid(s=(0, 1, 3), sub=(1,), rsub=(1, 2)), *grid(s=(2, 4), sub=(2,), rsub=(1, 2)), dict(s=2, sub=0, rsub=1), dict(s=2, sub=1, rsub=0))
def _(d, p, x):
    s, z, r = S(p), S(p, 'sub'), S(p, 'rsub')
    return Out() if not z or not r else Out(s=subst(s, d.all(s, z), len(z), r))
@ref('vt_str_replace_first', *grid(s=(1, 3), sub=(1,), rsub=(1, 2)), *grid(s=(2, 3), sub=(2,), rsub=(1, 2)))
def _(d, p, x):
    s, z, r = S(p), S(p, 'sub'), S(p, 'rsub'); k = d.find(s, z)
    return Out(s=subst(s, [] if k is None else [k], len(z), r))
@ref('vt_str_replace_last', *grid(s=(0, 1, 3), sub=(1,), rsub=(1, 2)), *grid(s=(2, 3), sub=(2,), rsub=(1, 2)))
def _(d, p, x):
    s, z, r = S(p), S(p, 'sub'), S(p, 'rsub'); l = lasts(d, s, z)
    return None if l is None else Out(s=subst(s, l, len(z), r))
@ref('vt_str_insert_before', *grid(s=(1, 3), sub=(1, 2), z=(1, 2)))
def _(d, p, x):
    s, z = S(p), S(p, 'z')
    if len(S(p, 'sub')) > len(s): return None
    k = d.find(s, S(p, 'sub'))
    return Out() if k is None else Out(s=s[:k] + z + s[k:])
@ref('vt_str_insert_after', *grid(s=(1, 3), sub=(1, 2), z=(1, 2)))
def _(d, p, x):
    s, z = S(p), S(p, 'z'); n = len(S(p, 'sub'))
    if n > len(s): return None
    k = d.find(s, S(p, 'sub'))
    return Out() if k is None else Out(s=s[:k + n] + z + s[k + n:])
def pieces(d, s, z):
    out = []; at = 0
    for k in d.all(s, z) + [len(s)]:
        if k > at: out.append(s[at:k])
        at = k + len(z)
    return out
@ref('vt_str_split', *grid(ps=(None,), s=(1, 2, 3, 4), sep=(1,)), *grid(ps=(None,), s=(2, 3, 4, 5), sep=(2,)), dict(ps=None, s=2, sep=0))
def _(d, p, x):
    s, z = S(p), S(p, 'sep')
    if not z or d.find(s, z) is None: return Out(('null',))
    return Out(('list', pieces(d, s, z)))
@ref('vt_str_split_between', *grid(s=(None,), z=(3, 4), zl=(1,), zr=(1,)), dict(s=None, z=5, zl=2, zr=1), dict(s=None, z=4, zl=1, zr=2), dict(s=1, z=3, zl=1, zr=1))
def _(d, p, x):
    z, l, r = S(p, 'z'), S(p, 'zl'), S(p, 'zr')
    i, j = d.find(z, l), d.find(z, r)
    if i is None: return Out(('null',))
    if j is None: return Out(('null',))
    if d.find(z, r, i + len(l)) != j: return None        # the right text also stands before the left one
    return Out(('str', z[i + len(l):j]), **({'s': z[i + len(l):j]} if x.case['s'] is not None else {}))
def joined(parts, sep):
    out = []
    for i, t in enumerate(parts): out += (list(sep) if i else []) + list(t)
    return out
@ref('vt_str_join', *grid(s=(None, 2), sep=(1, 2), p=((2,), (1, 2), (2, 1, 1))))
def _(d, p, x):
    t = ([] if x.case['s'] is None else S(p)) + joined(p['p']['c'].texts, S(p, 'sep'))
    return Out(('str', t), **({} if x.case['s'] is None else {'s': t}))
@ref('vt_str_join_n', *[dict(s=s, sep=z, n=len(v), **{'...': v}) for s in (None, 2) for z in (1, 2) for v in ((2,), (1, 2), (2, 1, 1))])
def _(d, p, x):
    t = ([] if x.case['s'] is None else S(p)) + joined(x.va, S(p, 'sep'))
    return Out(('str', t), **({} if x.case['s'] is None else {'s': t}))
@ref('vt_str_pop_get_first', *grid(sr=(None, 0, 3), s=(0, 2, 3), sep=(1,)), *grid(sr=(None,), s=(4,), sep=(2,)), dict(sr=1, s=2, sep=0))
def _(d, p, x):
    s, z = S(p), S(p, 'sep'); k = d.find(s, z) if z else None
    if not k: return Out(('same', 'sr'))
    t = s[:k]
    return Out(('str', t), s=s[k + len(z):], **({} if x.case['sr'] is None else {'sr': t}))
@ref('vt_str_pop_get_last', *grid(sr=(None, 0, 3), s=(0, 2, 3), sep=(1,)), *grid(sr=(None,), s=(4,), sep=(2,)), dict(sr=1, s=2, sep=0))
def _(d, p, x):
    s, z = S(p), S(p, 'sep')
    l = lasts(d, s, z) if z else []
    if l is None: return None
    if not l or l[0] + len(z) == len(s): return Out(('same', 'sr'))
    t = s[l[0] + len(z):]
    return Out(('str', t), s=s[:l[0]], **({} if x.case['sr'] is None else {'sr': t}))
@ref('vt_str_equals_z', *grid(z1=(0, 1, 2), z2=(0, 1, 2)))
def _(d, p, x): return Out(('bool', d.same(S(p, 'z1'), S(p, 'z2'))))
@ref('vt_str_equals_n', dict(z1=2, z2=2, n=2), dict(z1=2, z2=3, n=2), dict(z1=3, z2=2, n=1))
def _(d, p, x): n = x.case['n']; return Out(('bool', d.same(S(p, 'z1')[:n], S(p, 'z2')[:n])))
@ref('vt_str_equals', *grid(s1=(0, 1, 2), s2=(0, 1, 2)))
def _(d, p, x): return Out(('bool', d.same(S(p, 's1'), S(p, 's2'))))
@ref('vt_str_starts_with', *grid(s=(0, 1, 3), sub=(0, 1, 2)))
def _(d, p, x): s, z = S(p), S(p, 'sub'); return Out(('bool', d.same(s[:len(z)], z)))
@ref('vt_str_ends_with', *grid(s=(0, 1, 3), sub=(0, 1, 2)))
def _(d, p, x): s, z = S(p), S(p, 'sub'); return Out(('bool', len(z) <= len(s) and d.same(s[len(s) - len(z):], z)))

# ---- the rest of the string operations
@ref('vt_str_create', *grid(z=(1, 3)))
def _(d, p, x): return Out(('str', S(p, 'z')))
@ref('vt_str_dup', *grid(s=(1, 3)))
def _(d, p, x): return Out(('str', S(p)))
@ref('vt_str_clear', *grid(s=(0, 2)))
def _(d, p, x): return Out(s=[])
@ref('vt_str_validate_len', *grid(s=(0, 2)))
def _(d, p, x): return Out(ok(len(S(p))))
@ref('vt_str_append', *grid(s=(0, 2), z=(1, 2, 3)))
def _(d, p, x): return Out(s=S(p) + S(p, 'z'))
@ref('vt_str_append_n', *[dict(s=s, z=z, n=n) for s in (0, 2) for z, n in ((1, 1), (3, 2), (3, 3))])
def _(d, p, x): return Out(s=S(p) + S(p, 'z')[:x.case['n']])
@ref('vt_str_set', *grid(s=(0, 2), z=(1, 2, 3, 5)))
def _(d, p, x): return Out(s=S(p, 'z')) if len(S(p, 'z')) <= len(S(p)) else None
@ref('vt_str_set_n', *[dict(s=s, z=z, n=n) for s in (0, 2) for z, n in ((1, 1), (3, 2), (5, 5))])
def _(d, p, x): return Out(s=S(p, 'z')[:x.case['n']]) if x.case['n'] <= len(S(p)) else None
@ref('vt_str_insert', *[dict(s=s, z=z, at=at) for s in (1, 3) for z in (1, 3) for at in range(s)])
def _(d, p, x): s, k = S(p), x.case['at']; return Out(s=s[:k] + S(p, 'z') + s[k:])
@ref('vt_str_insert_n', *[dict(s=s, z=3, at=at, n=n) for s in (1, 3) for n in (1, 2, 3) for at in range(s)])
def _(d, p, x): s, k = S(p), x.case['at']; return Out(s=s[:k] + S(p, 'z')[:x.case['n']] + s[k:])
@ref('vt_str_remove', *[{'s': 3, 'from': f, 'n': n} for f in range(3) for n in range(1, 5)])
def _(d, p, x): s, f, n = S(p), x.case['from'], x.case['n']; return None if f + n > 3 else Out(s=s[:f] + s[f + n:])

# ------------------------------------------------------------------ paths
SEP = 47
@ref('vt_path_basename', *grid(s=(None, 0, 2), z=(1, 2, 3)), dict(s=None, z=4))
def _(d, p, x):
    z = S(p, 'z'); ks = [k for k, b in enumerate(z) if d.eq(b, SEP)]
    if not ks: return Out(('same', 's'))
    ks = [k for k in ks if k < len(z) - 1]
    t = z[ks[-1] + 1:] if ks else z
    return Out(('str', t), **({} if x.case['s'] is None else {'s': t}))
@ref('vt_path_pop', *grid(z=(0, 1, 2, 3, 4)))
def _(d, p, x):
    z = S(p, 'z'); k = next((k for k in range(len(z) - 1, -1, -1) if d.eq(z[k], SEP)), None)
    return Out(z=z if k is None else z[:k])
@ref('vt_path_validate', *grid(z=(0, 1, 2, 3)))
def _(d, p, x): return Out(z=[C(SEP) if d.eq(b, 92) else b for b in S(p, 'z')])
@ref('vt_path_build', *grid(s=(None, 2), p=((2,), (1, 2), (2, 1, 1))))
def _(d, p, x):
    t = ([] if x.case['s'] is None else S(p)) + joined(p['p']['c'].texts, [C(SEP)])
    return Out(('str', t), **({} if x.case['s'] is None else {'s': t}))
@ref('vt_path_build_n', *[dict(s=s, n=len(v), **{'...': v}) for s in (None, 2) for v in ((2,), (1, 2), (2, 1, 1))])
def _(d, p, x):
    t = ([] if x.case['s'] is None else S(p)) + joined(x.va, [C(SEP)])
    return Out(('str', t), **({} if x.case['s'] is None else {'s': t}))
@ref('vt_path_expand_tilda', *[{'z': n, '@home': h} for n in (1, 2, 3) for h in (None, 0, 1, 3)])
def _(d, p, x):
    z = S(p, 'z'); h = x.home()
    return Out(('str', h + z[1:] if h and d.eq(z[0], 126) else z))
@smodel('getenv')
def s_getenv(I, st, ins, v, a, fv):
    n = text(I, st, v[0]); home = getattr(I, 'home', None)
    if home is None or n is None or bytes(b.const() or 0 for b in n) != b'HOME': return old('getenv')(I, st, ins, v, a, fv)
    if home[0] is None: return [(st, NULL)]
    return [(st, Ptr(home[0], ZERO, st.reg[home[0]].gen))]
# the system as it answers for paths: each question and answer is kept
def sysask(I, st, what, p, fails):
    t = text(I, st, p); k = sum(1 for x in st.ghost if x[0] == 'sys')
    if I.sys == 'bare' and t is not None:       # nothing is there and everything can be made
        good = what != 'stat' or any(x == ('mkdir', tuple(t), True) for q, x in st.ghost.items() if q[0] == 'sys')
        st.ghost[('sys', k)] = (what, tuple(t), good); return [(st, C(0 if good else fails))]
    s2 = st.fork()
    if t is None: st.ghost[('sys', k)] = (what, None, True); s2.ghost[('sys', k)] = (what, None, False)
    else: st.ghost[('sys', k)] = (what, tuple(t), True); s2.ghost[('sys', k)] = (what, tuple(t), False)
    return [(st, C(0)), (s2, C(fails))]
@smodel('stat', 'lstat')
def s_stat(I, st, ins, v, a, fv):
    if not getattr(I, 'sys', False): return old(cname(ins))(I, st, ins, v, a, fv)
    return sysask(I, st, 'stat', v[0], -1)
@smodel('access')
def s_access(I, st, ins, v, a, fv):
    if not getattr(I, 'sys', False): return NotImplemented
    return sysask(I, st, 'stat', v[0], -1)
@smodel('mkdir')
def s_mkdir(I, st, ins, v, a, fv):
    if not getattr(I, 'sys', False): return old('mkdir')(I, st, ins, v, a, fv)
    return sysask(I, st, 'mkdir', v[0], -1)
@ref('vt_path_mkdir_parents', *[{'z': n, '@sys': 1} for n in (1, 2, 3, 4)])
def _(d, p, x):
    z = S(p, 'z'); tr = x.trail()
    if any(t is None for _, t, _ in tr): return None
    def norm(t):
        t = list(t)
        while len(t) > 1 and d.eq(t[-1], SEP): t = t[:-1]
        return t
    dirs = []; cur = [C(SEP)] if z and d.eq(z[0], SEP) else []
    for part in pieces(d, z, [C(SEP)]): cur = cur + ([C(SEP)] if cur and d.ne(cur[-1], SEP) else []) + part; dirs.append(cur)
    there = set(); made = -1; failed = None; whole = False
    for what, t, good in tr:
        k = next((k for k, q in enumerate(dirs) if d.same(norm(t), q)), None)
        if what == 'stat':
            if good and d.same(list(t), z): whole = True
            if good and k is not None: there |= {k}
        else:
            if k is None: return Out(('wrong', 'creates a directory that is neither the path nor one of its parents'))
            if any(j not in there for j in range(k)): return Out(('wrong', 'creates a directory before its parent'))
            if k in there: return Out(('wrong', 'creates a directory that exists'))
            if good: there |= {k}
            else: failed = k
    if whole or len(there) == len(dirs): return Out(('bool', True))
    return Out(('bool', False))
