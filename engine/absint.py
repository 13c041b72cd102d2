"""Abstract interpreter over the linked LLVM IR of the library.

Abstract state: registers and memory hold polynomials over symbols / pointers (region, byte offset, generation);
a polyhedral constraint store relates the symbols; regions carry a symbolic size, their origin (which allocator), liveness and
quantified content facts  "for all i in [lo,hi): byte i is <src>".  Calls are analysed by inlining, loops by a fixpoint with
inductive invariants (Houdini filtering of templates), merges by trace partitioning on the state's shape.
Nothing is executed; no path is handed to a solver.
"""
import ir
from poly import *

class NullT:
    def __repr__(self): return 'NULL'
NULL = NullT()

class Ptr:
    __slots__ = ('r', 'off', 'gen')
    def __init__(self, r, off, gen): self.r = r; self.off = off; self.gen = gen
    def __eq__(self, o): return isinstance(o, Ptr) and o.r == self.r and o.gen == self.gen and o.off == self.off
    def __hash__(self): return hash((self.r, self.off))
    def __repr__(self): return '&R%d[%r]g%d' % (self.r, self.off, self.gen)

class UnkPtr:
    """pointer to something the analysis has no region for (yet)"""
    __slots__ = ('id', 'kind')
    def __init__(self, i, kind=None): self.id = i; self.kind = kind
    def __eq__(self, o): return isinstance(o, UnkPtr) and o.id == self.id
    def __hash__(self): return hash(('u', self.id))
    def __repr__(self): return 'unk%s(%s)' % (self.id, self.kind)

class FnV:
    __slots__ = ('name', 'al')
    def __init__(self, name, al=None): self.name = name; self.al = al
    def __eq__(self, o): return isinstance(o, FnV) and o.name == self.name and o.al == self.al
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'fn:%s' % self.name

class Opq:
    """uninterpreted value (floats, unknown aggregates); term identity = value identity"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Opq) and o.t == self.t
    def __hash__(self): return hash(self.t)
    def __repr__(self): return 'Opq%r' % (self.t,)

class Blob:
    """raw bytes of several cells moved as one integer"""
    __slots__ = ('parts', 'n')
    def __init__(self, parts, n): self.parts = parts; self.n = n
    def __eq__(self, o): return isinstance(o, Blob) and o.parts == self.parts
    def __hash__(self): return hash(self.parts)
    def __repr__(self): return 'Blob%r' % (self.parts,)

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = tuple(v)
    def __eq__(self, o): return isinstance(o, Agg) and o.v == self.v
    def __hash__(self): return hash(self.v)
    def __repr__(self): return 'Agg%r' % (self.v,)

class Cond:
    """boolean: ('c',b) ('ge',p) ('eq',p) ('ult',a,b) ('isnull',v) ('not',c) ('and',a,b) ('or',a,b) ('o',id) ('peq',a,b)"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __eq__(self, o): return isinstance(o, Cond) and o.t == self.t
    def __hash__(self): return hash(self.t)
    def __repr__(self): return 'Cond%r' % (self.t,)
TRUE = Cond(('c', True)); FALSE = Cond(('c', False))
def NOT(c):
    if c.t[0] == 'c': return FALSE if c.t[1] else TRUE
    if c.t[0] == 'not': return c.t[1]
    return Cond(('not', c))

class Region:
    __slots__ = ('id', 'kind', 'size', 'origin', 'live', 'gen', 'cells', 'facts', 'name', 'ro', 'elem', 'escaped', 'frame', 'site', 'tag', 'ver')
    def __init__(self, id, kind, size, origin=None, name=''):
        self.id = id; self.kind = kind; self.size = size; self.origin = origin; self.live = True; self.gen = 0
        self.cells = {}; self.facts = (); self.name = name; self.ro = False; self.elem = None; self.escaped = False
        self.frame = None; self.site = None; self.tag = None; self.ver = 0
    def clone(self):
        r = Region.__new__(Region)
        r.id = self.id; r.kind = self.kind; r.size = self.size; r.origin = self.origin; r.live = self.live; r.gen = self.gen
        r.cells = dict(self.cells); r.facts = self.facts; r.name = self.name; r.ro = self.ro; r.elem = self.elem
        r.escaped = self.escaped; r.frame = self.frame; r.site = self.site; r.tag = self.tag; r.ver = self.ver
        return r
    def __repr__(self):
        return '<R%d %s %s size=%r %s %s cells=%r facts=%r>' % (self.id, self.name, self.kind, self.size, self.origin, 'live' if self.live else 'dead', self.cells, self.facts)

class Fact:
    """for all i with max(lows) <= i < min(highs): content[i] is src"""
    __slots__ = ('lo', 'hi', 'src')
    def __init__(self, lo, hi, src): self.lo = lo; self.hi = hi; self.src = src
    def __eq__(self, o): return isinstance(o, Fact) and o.src == self.src and o.lo == self.lo and o.hi == self.hi
    def __hash__(self): return hash((self.lo, self.hi))
    def __repr__(self): return '[%s..%s)=%s' % ('|'.join(map(repr, self.lo)), '|'.join(map(repr, self.hi)), self.src)

class State:
    __slots__ = ('env', 'reg', 'cs', 'ghost', 'owned', 'nz', 'unk', 'imp', 'log', 'weak')
    def __init__(self):
        self.env = {}; self.reg = {}; self.cs = CS(); self.ghost = {}; self.owned = set(); self.nz = frozenset(); self.unk = {}
        self.imp = frozenset(); self.log = (); self.weak = frozenset()
    def fork(self):
        n = State.__new__(State)
        n.env = dict(self.env); n.reg = dict(self.reg); n.cs = self.cs.fork(); n.ghost = dict(self.ghost)
        n.owned = set(); self.owned = set(); n.nz = self.nz; n.unk = dict(self.unk); n.imp = self.imp; n.log = self.log; n.weak = self.weak
        return n
    def w(self, rid):
        r = self.reg[rid]
        if rid not in self.owned:
            r = r.clone(); self.reg[rid] = r; self.owned.add(rid)
        return r

SIZE_HI = 1 << 60
class _IS(dict):
    def __missing__(self, n): return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
ISIZE = _IS({64: (None, None), 1: (0, 1)})

class Alarm:
    __slots__ = ('kind', 'msg', 'fn', 'file', 'line', 'stack', 'cfg', 'imp', 'extra')
    def key(self): return (self.kind, self.fn, self.line, self.msg)
    def __repr__(self): return '%s %s:%s %s: %s [%s] via %s%s' % (self.kind, self.file, self.line, self.fn, self.msg, self.cfg, '>'.join(self.stack), ' (imprecise)' if self.imp else '')

class Budget(Exception): pass

class Interp:
    MAXD = 40            # disjuncts kept at a merge point
    def __init__(self, mod, models=None):
        self.mod = mod; self.alarms = {}; self.mute = 0; self.nocut = False; self.stack = []; self.cfg = ''
        self.nreg = 0; self.nframe = 0; self.nunk = 0; self.terms = {}
        self.insts = 0; self.maxinsts = 3000000; self.obl = 0; self.proved = 0
        self.models = models or {}; self.on_event = None; self.calls_seen = {}
        self.globals_cache = {}; self.rowglobals = {}
        self.cond_stmts = 0
        self.checks = {}
        self.events = None
        self.inline_stop = {}
        self.cur = None
        self.visited = set()
        self.summaries = {}
        self.kinds = {}
        self.undef = False; self.ldprov = {}; self.oom = False; self.on_alloc = None; self.on_free = None
        self.trap_log = []; self.freshglobals = False
        self.va_stack = []
        self.unmodelled = set()
        self.strs = {}

    # ------------------------------------------------------------------ traps
    def on_trap(self, st, kind):
        if self.mute: return
        i = self.cur
        self.trap_log.append((kind, self.stack[-1] if self.stack else '?', self.mod.srcloc(i.loc), st, tuple(self.stack)))
    def trap_unless(self, st, c, kind):
        if c.t[0] == 'c':
            if c.t[1]: return [st]
            self.on_trap(st, kind); return []
        s2 = st.fork()
        out = self.assume(st, c, True)
        for s in self.assume(s2, c, False): self.on_trap(s, kind)
        return out
    def traps(self, st, p, kind):
        """the callee traps unless p >= 0"""
        if st.cs.entails(p): return
        s2 = st.fork()
        for s in self.with_ge(s2, -p - 1): self.on_trap(s, kind)
        st.cs.add(p)
    def moved(self, st, r): pass
    def static_str(self, st, key, b):
        rid = self.strs.get(key)
        if rid is None:
            self.nreg += 1; rid = self.nreg; self.strs[key] = rid
        if rid not in st.reg:
            r = Region(rid, 'global', C(len(b) + 1), 'static', key)
            r.ro = True; r.tag = ('bytes', b + b'\0')
            r.facts = (Fact((C(len(b)),), (C(len(b) + 1),), ('const', 0)), Fact((ZERO,), (C(len(b)),), ('nz',)))
            st.reg[rid] = r; st.owned.add(rid)
        return rid
    def try_strlen(self, st, p):
        """an upper bound is known for the string's terminator: its length, else None (no alarm)"""
        r = st.reg[p.r]; cs = st.cs
        if isinstance(r.tag, tuple) and r.tag[0] == 'bytes' and r.ro: return self.strlen_raw(st, p)
        if not cs.entails(p.off): return None
        for f in self.zeros(st, r):
            for l in f.lo:
                if len(f.lo) == 1 and cs.entails(l - p.off) and all(cs.entails(h - l - 1) for h in f.hi):
                    return self.strlen_raw(st, p)
            if all(cs.entails(p.off - l) for l in f.lo) and all(cs.entails(h - p.off - 1) for h in f.hi): return ZERO
        return None

    # ------------------------------------------------------------------ regions
    def new_region(self, st, kind, size, origin=None, name=''):
        self.nreg += 1
        r = Region(self.nreg, kind, size, origin, name)
        st.reg[r.id] = r; st.owned.add(r.id)
        return r
    def ptr(self, r, off=ZERO): return Ptr(r.id, off, r.gen)
    def new_unk(self, kind=None):
        self.nunk += 1
        return UnkPtr(self.nunk, kind)

    def alarm(self, kind, msg, st=None, syms=(), extra=None):
        if self.mute: return
        i = self.cur
        f, l = self.mod.srcloc(i.loc) if i is not None else (None, 0)
        a = Alarm(); a.kind = kind; a.msg = msg; a.fn = self.stack[-1] if self.stack else '?'
        a.file = f; a.line = l; a.stack = tuple(self.stack); a.cfg = self.cfg; a.extra = extra
        a.imp = bool(st is not None and st.imp) or any(Syms.imp[s] for s in syms)
        if not a.imp and st is not None and st.weak and syms and st.weak & st.cs._relevant(set(syms))[1]: a.imp = True
        k = (kind, a.fn, l, a.stack[0] if a.stack else '', self.cfg)
        if k not in self.alarms: self.alarms[k] = a
        elif self.alarms[k].imp and not a.imp: self.alarms[k] = a

    # ------------------------------------------------------------------ values
    def const_ptr(self, name):
        return ('g', name)
    def global_region(self, st, name):
        g = self.mod.globals.get(name)
        key = ('glob', name)
        rid = self.globals_cache.get(key)
        if rid is None:
            self.nreg += 1; rid = self.nreg; self.globals_cache[key] = rid
        if rid not in st.reg:
            size = C(self.mod.size(g.ty)) if g is not None else C(8)
            r = Region(rid, 'global', size, 'static', name)
            r.ro = bool(g is not None and g.const)
            st.reg[rid] = r; st.owned.add(rid)
            if name in ('@stderr', '@stdout', '@stdin'):
                r.ro = True
                sid = self.globals_cache.get(('std', name))
                if sid is None:
                    self.nreg += 1; sid = self.nreg; self.globals_cache[('std', name)] = sid
                x = Region(sid, 'foreign', None, 'static', 'standard stream'); x.ro = True
                st.reg[sid] = x; st.owned.add(sid)
                r.cells[0] = (8, Ptr(sid, ZERO, 0))
            if g is not None and g.init is not None and (g.const or not g.const):
                if g.const: self.init_cells(st, r, g.ty, g.init, 0)
                else:
                    r.tag = 'mutable-global'
                    t = g.ty
                    if self.freshglobals:       # as the program starts
                        if t.k == 'arr' or t.k == 'struct': r.kind = 'buf' if t.k == 'arr' else r.kind
                        self.init_cells(st, r, g.ty, g.init, 0)
                        return st.reg[rid]
                    if t.k == 'arr' and t.el.k == 'arr' and t.el.el.k == 'int' and t.el.el.n == 8 and g.init[0] == 'zero' and t.n <= 64:
                        # rows of text, zero-initialised: every row keeps its last byte NUL (checked again when an entry function returns)
                        r.kind = 'buf'; m = t.el.n
                        r.facts = tuple(Fact((C(m * k + m - 1),), (C(m * k + m),), ('const', 0)) for k in range(t.n))
                        self.rowglobals[rid] = (t.n, m)
        return st.reg[rid]
    def init_cells(self, st, r, ty, init, off):
        k = init[0]
        if k == 'str':
            b = init[1]
            z = b.find(0)
            r.tag = ('bytes', b)
            if z >= 0:
                r.facts = r.facts + (Fact((C(off + z),), (C(off + z + 1),), ('const', 0)),)
                if z > 0: r.facts = r.facts + (Fact((C(off),), (C(off + z),), ('nz',)),)
        elif k == 'zero' or k == 'null':
            n = self.mod.size(ty)
            if ty.k == 'ptr': r.cells[off] = (8, NULL)
            else: r.facts = r.facts + (Fact((C(off),), (C(off + n),), ('const', 0)),)
        elif k == 'agg':
            if ty.k == 'arr':
                es = self.mod.size(ty.el)
                for j, (t, v) in enumerate(init[1]): self.init_cells(st, r, t, v, off + j * es)
            else:
                for o, (t, v) in zip(self.mod.offsets(ty), init[1]): self.init_cells(st, r, t, v, off + o)
        elif k == 'c':
            r.cells[off] = (self.mod.size(ty), C(init[1]))
        elif k in ('g', 'ce'):
            r.cells[off] = (8, self.value(st, ty, init))
        elif k == 'f':
            r.cells[off] = (self.mod.size(ty), Opq(('fc', init[1])))

    def value(self, st, ty, v):
        k = v[0]
        if k == 'r':
            x = st.env.get(v[1])
            if x is None: raise ir.Broken('undefined register %s in %s' % (v[1], self.stack))
            return x
        if k == 'c':
            if ty.k == 'int' and ty.n == 1: return TRUE if v[1] else FALSE
            return C(v[1])
        if k == 'null': return NULL
        if k == 'g':
            n = v[1][1:]
            if n in self.mod.fns or n in self.mod.decls: return FnV(n)
            r = self.global_region(st, v[1])
            return Ptr(r.id, ZERO, r.gen)
        if k == 'undef':
            return self.fresh_of(st, ty, 'undef')
        if k == 'zero':
            if ty.k == 'struct': return Agg([self.value(st, f, ('zero',)) for f in ty.fields])
            if ty.k == 'ptr': return NULL
            if ty.k == 'fp': return Opq(('fc', '0'))
            return C(0)
        if k == 'f': return Opq(('fc', v[1]))
        if k == 'ce':
            if v[1] == 'gep': return self.gep(st, v[2], v[3])
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'): return self.value(st, v[2], v[3])
        if k == 'agg':
            return Agg([self.value(st, t, x) for t, x in v[1]])
        raise ir.Broken('value kind %r' % (v,))

    def fresh_of(self, st, ty, name, imp=False, unsigned=False):
        if ty.k == 'int':
            if ty.n == 1:
                self.nunk += 1; return Cond(('o', self.nunk))
            lo, hi = ISIZE[ty.n] if ty.n == 16 else ISIZE.get(ty.n, (None, None))
            if unsigned and ty.n < 64: lo, hi = 0, (1 << ty.n) - 1
            return fresh(name, lo, hi, imp)
        if ty.k == 'ptr': return self.new_unk()
        if ty.k == 'struct': return Agg([self.fresh_of(st, f, name, imp) for f in ty.fields])
        self.nunk += 1
        return Opq(('v', self.nunk))

    def term(self, op, *args):
        """hash-consed uninterpreted integer result"""
        k = (op,) + args
        s = self.terms.get(k)
        return s

    def as_int(self, st, v, n=64):
        """polynomial of an integer value"""
        if isinstance(v, Poly): return v
        if isinstance(v, Cond):
            if v.t[0] == 'c': return C(1 if v.t[1] else 0)
            k = ('b2i', v)
            s = self.terms.get(k)
            if s is None:
                s = fresh('b', 0, 1, prov=('bool', v)); self.terms[k] = s
            return s
        if v is NULL: return C(0)
        if isinstance(v, Ptr):
            k = ('addr', v.r, v.gen)
            s = self.terms.get(k)
            if s is None: s = fresh('addr%d' % v.r, 4096); self.terms[k] = s
            return s + v.off
        k = ('int', v, n)
        s = self.terms.get(k)
        if s is None:
            s = fresh('q', *ISIZE.get(n, (None, None))); self.terms[k] = s
        return s

    def gep(self, st, bt, ops):
        base = self.value(st, ops[0][0], ops[0][1])
        off = ZERO
        t = bt
        for j, (ty, v) in enumerate(ops[1:]):
            x = self.value(st, ty, v)
            if j == 0:
                off = off + self.as_int(st, x) * self.mod.size(bt)
            else:
                if t.k == 'struct':
                    c = self.as_int(st, x).const()
                    off = off + self.mod.offsets(t)[c]; t = t.fields[c]
                elif t.k == 'arr':
                    off = off + self.as_int(st, x) * self.mod.size(t.el); t = t.el
        return self.padd(st, base, off)

    def padd(self, st, base, off):
        if isinstance(base, Ptr): return Ptr(base.r, base.off + off, base.gen)
        if isinstance(base, UnkPtr):
            rid = st.unk.get(base.id)
            if rid in (None, 'null') :
                if off.const() == 0: return base
                if rid == 'null': return NULL
                p = self.materialize(st, base)
                if isinstance(p, Ptr): return Ptr(p.r, p.off + off, p.gen)
                return base
            r = st.reg[rid]
            return Ptr(rid, off, r.gen)
        if base is NULL:
            c = off.const()
            if c == 0: return NULL
            return ('nulloff', off) if False else NullOff(off)
        if isinstance(base, NullOff): return NullOff(base.off + off)
        if isinstance(base, Poly):
            # integer used as an address
            return self.new_unk()
        if isinstance(base, FnV): return base
        return self.new_unk()

    def materialize(self, st, u):
        """give an unknown pointer a region according to its contract kind; None if it has none"""
        rid = st.unk.get(u.id)
        if rid == 'null': return NULL
        if rid is not None:
            return Ptr(rid, ZERO, st.reg[rid].gen)
        mk = self.kinds.get(u.kind) if hasattr(self, 'kinds') else None
        if mk is None:
            # unknown object: unknown size, foreign
            r = self.new_region(st, 'foreign', None, 'foreign', 'unk%d' % u.id)
        else:
            r = mk(self, st, u)
        st.unk[u.id] = r.id
        return Ptr(r.id, ZERO, r.gen)

    # ------------------------------------------------------------------ conditions
    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr':
            if pred in ('eq', 'ne'):
                c = self.ptr_eq(st, a, b)
                return c if pred == 'eq' else NOT(c)
            pa, pb = self.resolve(st, a), self.resolve(st, b)
            if isinstance(pa, Ptr) and isinstance(pb, Ptr) and pa.r == pb.r:
                x, y = pa.off, pb.off
                return self.cmp(st, {'ult': 'slt', 'ugt': 'sgt', 'ule': 'sle', 'uge': 'sge'}.get(pred, pred), x, y)
            self.nunk += 1
            return Cond(('o', self.nunk))
        if isinstance(a, Cond) or isinstance(b, Cond):
            if isinstance(b, Cond) and not isinstance(a, Cond): a, b = b, a
            if isinstance(b, Poly): bc = b.const()
            elif b.t[0] == 'c': bc = 1 if b.t[1] else 0
            else: bc = None
            if bc == 0 and pred in ('eq', 'ne'): return a if pred == 'ne' else NOT(a)
            if bc == 1 and pred in ('eq', 'ne'): return a if pred == 'eq' else NOT(a)
            a = self.as_int(st, a); b = self.as_int(st, b)
        if not isinstance(a, Poly) or not isinstance(b, Poly):
            a2 = a if isinstance(a, Poly) else self.as_int(st, a, ty.n)
            b2 = b if isinstance(b, Poly) else self.as_int(st, b, ty.n)
            a, b = a2, b2
        return self.cmp(st, pred, a, b)
    def cmp(self, st, pred, a, b):
        if pred == 'eq':
            d = a - b; c = d.const()
            if c is not None: return TRUE if c == 0 else FALSE
            pr = self.boolprov(d)
            if pr is not None: return pr
            return Cond(('eq', d))
        if pred == 'ne': return NOT(self.cmp(st, 'eq', a, b))
        if pred == 'sgt': return self.cmp(st, 'slt', b, a)
        if pred == 'sge': return NOT(self.cmp(st, 'slt', a, b))
        if pred == 'sle': return NOT(self.cmp(st, 'slt', b, a))
        if pred == 'slt':
            d = b - a - 1; c = d.const()
            if c is not None: return TRUE if c >= 0 else FALSE
            return Cond(('ge', d))
        if pred == 'ugt': return self.cmp(st, 'ult', b, a)
        if pred == 'uge': return NOT(self.cmp(st, 'ult', a, b))
        if pred == 'ule': return NOT(self.cmp(st, 'ult', b, a))
        if pred == 'ult':
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None and ca >= 0 and cb >= 0: return TRUE if ca < cb else FALSE
            if st.cs.entails(a) and st.cs.entails(b): return self.cmp(st, 'slt', a, b)
            return Cond(('ult', a, b))
        raise ir.Broken('icmp ' + pred)
    def boolprov(self, d):
        """eq-test of a symbol that stands for a boolean"""
        lin = [(m, c) for m, c in d.d.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and abs(lin[0][1]) == 1:
            s = lin[0][0][0]; p = Syms.prov[s]
            if p and p[0] == 'bool':
                k = d.d.get((), 0) * (-lin[0][1])
                return p[1] if k == 1 else NOT(p[1]) if k == 0 else FALSE
        return None
    def resolve(self, st, p):
        if isinstance(p, UnkPtr):
            rid = st.unk.get(p.id)
            if rid == 'null': return NULL
            if rid is not None: return Ptr(rid, ZERO, st.reg[rid].gen)
        if isinstance(p, Poly):
            c = p.const()
            if c == 0: return NULL
        return p
    def ptr_eq(self, st, a, b):
        a = self.resolve(st, a); b = self.resolve(st, b)
        if a is NULL and b is NULL: return TRUE
        if a is NULL: a, b = b, a
        if b is NULL:
            if isinstance(a, Ptr) or isinstance(a, FnV): return FALSE
            if isinstance(a, NullOff): return self.cmp(st, 'eq', a.off, ZERO)
            return Cond(('isnull', a))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r: return self.cmp(st, 'eq', a.off, b.off)
            ra, rb = st.reg.get(a.r), st.reg.get(b.r)
            if ra is not None and rb is not None and all(x.size is not None or x.kind == 'handle' or x.name == 'standard stream' for x in (ra, rb)): return FALSE
        if isinstance(a, FnV) and isinstance(b, FnV): return TRUE if a == b else FALSE
        if a == b: return TRUE
        return Cond(('peq', a, b))

    def assume(self, st, c, val=True):
        """list of states in which condition c is val (st is consumed)"""
        t = c.t; k = t[0]
        if k == 'c': return [st] if t[1] == val else []
        if k == 'not': return self.assume(st, t[1], not val)
        if k == 'and':
            if val:
                out = []
                for s in self.assume(st, t[1], True): out += self.assume(s, t[2], True)
                return out
            s2 = st.fork()
            out = self.assume(st, t[1], False)
            for s in self.assume(s2, t[1], True): out += self.assume(s, t[2], False)
            return out
        if k == 'or':
            if not val:
                out = []
                for s in self.assume(st, t[1], False): out += self.assume(s, t[2], False)
                return out
            s2 = st.fork()
            out = self.assume(st, t[1], True)
            for s in self.assume(s2, t[1], False): out += self.assume(s, t[2], True)
            return out
        if k == 'ge':
            p = t[1] if val else -t[1] - 1
            return self.with_ge(st, p)
        if k == 'eq':
            if val: return self.with_eq(st, t[1])
            return self.with_neq(st, t[1])
        if k == 'ult':
            a, b = t[1], t[2]; out = []
            cs = st.cs
            an = not cs.entails(a); bn = not cs.entails(b)
            cases = []
            s = st
            # (sign a, sign b)
            for sa in ((True, False) if an else (True,)):
                for sb in ((True, False) if bn else (True,)):
                    s = st.fork()
                    if an: s.cs.add(a if sa else -a - 1)
                    if bn: s.cs.add(b if sb else -b - 1)
                    if s.cs.bad: continue
                    if (an or bn) and not s.cs.feasible((a if an else b)): continue
                    if sa == sb:
                        out += self.with_ge(s, (b - a - 1) if val else (a - b))
                    elif sa and not sb:      # a small, b huge: a < b
                        if val: out.append(s)
                    else:
                        if not val: out.append(s)
            return out
        if k == 'isnull':
            v = t[1]
            if isinstance(v, UnkPtr):
                known = st.unk.get(v.id)
                if known == 'null': return [st] if val else []
                if known is not None: return [] if val else [st]
                nn = ('nn', v.id) in st.ghost
                if nn: return [] if val else [st]
                if val: st.unk[v.id] = 'null'
                else: st.ghost[('nn', v.id)] = True
                return [st]
            return [st]
        if k == 'o' or k == 'peq' or k == 'fc':
            key = ('oc', t)
            kn = st.ghost.get(key)
            if kn is None:
                st.ghost[key] = val
                self.on_opaque(st, t, val)
                return [st]
            return [st] if kn == val else []
        raise ir.Broken('cond %r' % (t,))
    def on_opaque(self, st, t, val):
        if t[0] == 'peq' and val:
            # learn identity of an unknown pointer
            a, b = t[1], t[2]
            if isinstance(b, UnkPtr) and isinstance(a, Ptr): a, b = b, a
            if isinstance(a, UnkPtr) and isinstance(b, Ptr) and a.id not in st.unk and b.off.const() == 0:
                st.unk[a.id] = b.r
    def with_ge(self, st, p):
        if st.cs.entails(p): return [st]
        st.cs.add(p)
        if st.cs.bad or not st.cs.feasible(p): return []
        return [st]
    def with_eq(self, st, p):
        s = p.single()
        st.cs.add(p); st.cs.add(-p)
        if st.cs.bad or not st.cs.feasible(p): return []
        if not self.refine_eq(st, p): return []
        return [st]
    def refine_eq(self, st, p):
        """p == 0 was learned"""
        k = p.d.get((), 0)
        lin = [(m, c) for m, c in p.d.items() if m]
        if len(lin) == 1 and len(lin[0][0]) == 1 and abs(lin[0][1]) == 1:
            s = lin[0][0][0]; c = -k * lin[0][1]
            if c != 0: return self.nonzero(st, s)
            if s in st.nz: return False
            return self.iszero(st, s)
        if len(lin) == 2 and k == 0 and all(len(m) == 1 for m, _ in lin) and lin[0][1] == -lin[1][1]:
            a, b = lin[0][0][0], lin[1][0][0]
            if a in st.nz: return self.nonzero(st, b)
            if b in st.nz: return self.nonzero(st, a)
            for x, y in ((a, b), (b, a)):
                pr = Syms.prov[y]
                if pr and pr[0] == 'byte' and st.cs.entails_eq(S(x)): return self.iszero(st, y)
        return True
    def with_neq(self, st, p):
        st.cs.add_neq(p)
        if st.cs.bad or not st.cs.feasible(p): return []
        s = p.single() if len(p.d) == 1 else None
        if s is None and len(p.d) == 1 and (-p).single() is not None: s = (-p).single()
        if s is not None and not self.nonzero(st, s): return []
        return [st]
    def nonzero(self, st, s):
        if s in st.nz: return True
        st.nz = st.nz | {s}
        pr = Syms.prov[s]
        if pr and pr[0] == 'byte':
            for d in pr[1]:
                st.cs.add_neq(d)
                if st.cs.bad: return False
            if not st.cs.feasible(pr[1][0] if pr[1] else None): return False
        st.cs.add_neq(S(s))
        return not st.cs.bad
    def iszero(self, st, s):
        pr = Syms.prov[s]
        if pr and pr[0] == 'byte':
            rid, off = pr[2], pr[3]
            r = st.reg.get(rid)
            if r is not None:
                v = S(s)
                for f in r.facts:
                    if f.src[0] == 'val' and f.src[1] == v:
                        r = st.w(rid)
                        r.facts = r.facts + (Fact(f.lo, f.hi, ('const', 0)),)
                        # a zero byte lies in no stretch of nonzero bytes
                        for g in r.facts:
                            if g.src == ('nz',) and all(st.cs.entails(off - l) for l in g.lo):
                                hs = [h for h in g.hi if not st.cs.entails(h - off - 1)]
                                if not hs: return False
                                if len(hs) == 1: st.cs.add(off - hs[0])
                        if st.cs.bad or not st.cs.feasible(off): return False
                        break
        return True

    # ------------------------------------------------------------------ memory access
    def check(self, st, goal, kind, msg, extra=None):
        """prove goal >= 0; otherwise raise an alarm and assume it"""
        if not self.mute: self.obl += 1
        if st.cs.entails(goal):
            if not self.mute: self.proved += 1
            return True
        self.alarm(kind, msg + ' (cannot show %r >= 0)' % goal, st, goal.syms(), extra)
        st.cs.add(goal)
        return False
    def access(self, st, p, n, what, write=False):
        """validate an access of n bytes (Poly); returns Ptr or None (path ends)"""
        p = self.resolve(st, p)
        if isinstance(p, UnkPtr):
            p = self.materialize(st, p)
        if p is NULL or isinstance(p, NullOff):
            if not self.mute: self.obl += 1
            self.alarm('null', '%s through a null pointer' % what, st)
            return None
        if not isinstance(p, Ptr):
            return None
        r = st.reg.get(p.r)
        if r is None:
            self.alarm('uaf', '%s of an object whose lifetime has ended' % what, st); return None
        if not self.mute: self.obl += 1
        if not r.live:
            self.alarm('uaf', '%s of released memory %s' % (what, r.name), st)
            return None
        if p.gen != r.gen:
            self.alarm('uaf', '%s through a pointer into %s taken before it was reallocated' % (what, r.name), st)
            p = Ptr(p.r, p.off, r.gen)
        if not self.mute: self.proved += 1
        if r.size is not None:
            if n.const() == 0: return p
            # zero-length accesses need no storage
            if not st.cs.entails(n - 1):
                # n may be zero (or wrap): only require bounds when n > 0; treat n<0 as a wrapped huge count
                if not st.cs.entails(n):
                    self.check(st, n, 'oob', '%s with a byte count that can wrap below zero' % what)
                    if st.cs.bad: return None
            self.check_in(st, p, r, n, what)
            if st.cs.bad: return None
        if write and r.ro:
            self.alarm('const-write', '%s into read-only object %s' % (what, r.name), st)
        if write and r.kind == 'viewbuf':
            self.alarm('view-write', '%s into the storage of a view (%s)' % (what, r.name), st)
        if write: self.note_write(st, r, p, n)
        return p
    def note_write(self, st, r, p, n): pass
    def check_in(self, st, p, r, n, what):
        lo_ok = st.cs.entails(p.off)
        hi = r.size - p.off - n
        hi_ok = st.cs.entails(hi)
        if not self.mute: self.obl += 2; self.proved += int(lo_ok) + int(hi_ok)
        if lo_ok and hi_ok: return
        if n.const() is None and not st.cs.entails(n - 1):
            s2 = st.fork(); s2.cs.add(n - 1)
            if s2.cs.bad or not s2.cs.feasible(n): return
            lo_ok = lo_ok or s2.cs.entails(p.off); hi_ok = hi_ok or s2.cs.entails(hi)
            if lo_ok and hi_ok:
                if not self.mute: self.proved += 1
                return
        if not lo_ok:
            self.alarm('oob', '%s before the start of %s (offset %r)' % (what, r.name, p.off), st, p.off.syms())
            if not self.nocut: st.cs.add(p.off)
        if not hi_ok:
            self.alarm('oob', '%s past the end of %s (offset %r, %r bytes, object has %r)' % (what, r.name, p.off, n, r.size), st, hi.syms())
            if n.const() is not None and not self.nocut: st.cs.add(hi)

    # ---- content facts
    def f_simplify(self, st, lo, hi):
        """drop redundant bounds; None if provably empty"""
        cs = st.cs
        if len(lo) > 1:
            keep = []
            for i, a in enumerate(lo):
                red = False
                for j, b in enumerate(lo):
                    if i != j and (b in keep or j > i) and cs.entails(b - a) : red = True; break
                if not red: keep.append(a)
            lo = tuple(keep) if keep else lo[:1]
        if len(hi) > 1:
            keep = []
            for i, a in enumerate(hi):
                red = False
                for j, b in enumerate(hi):
                    if i != j and (b in keep or j > i) and cs.entails(a - b): red = True; break
                if not red: keep.append(a)
            hi = tuple(keep) if keep else hi[:1]
        for a in lo:
            for b in hi:
                if cs.entails(a - b): return None
        return lo, hi
    MAXFACTS = 14; COVDEPTH = 5
    def kill(self, st, r, a, b):
        """remove facts about bytes [a,b) of region r (r is writable copy)"""
        out = []
        cs = st.cs
        for f in r.facts:
            # untouched if f entirely below a or above b
            if any(cs.entails(a - h) for h in f.hi) or any(cs.entails(l - b) for l in f.lo):
                out.append(f); continue
            if f.src[0] == 'val':
                continue
            x = self.f_simplify(st, f.lo, tuple(dict.fromkeys(f.hi + (a,))))
            if x: out.append(Fact(x[0], x[1], f.src))
            x = self.f_simplify(st, tuple(dict.fromkeys(f.lo + (b,))), f.hi)
            if x: out.append(Fact(x[0], x[1], f.src))
        r.facts = tuple(dict.fromkeys(out))
        # constant-offset cells
        if r.cells:
            ac, bc = a.const(), b.const()
            for o in list(r.cells):
                n = r.cells[o][0]
                if ac is not None and o + n <= ac: continue
                if bc is not None and o >= bc: continue
                if ac is None or bc is None:
                    if cs.entails(a - (o + n)) or cs.entails(C(o) - b): continue
                del r.cells[o]
        r.ver += 1
    def add_fact(self, st, r, lo, hi, src):
        x = self.f_simplify(st, lo, hi)
        if x:
            f = Fact(x[0], x[1], src)
            if f not in r.facts:
                r.facts = r.facts + (f,)
                if len(r.facts) > self.MAXFACTS:
                    # forget oldest value facts first
                    vs = [g for g in r.facts if g.src[0] == 'val']
                    if len(vs) > 4:
                        r.facts = tuple(g for g in r.facts if g is not vs[0])
    def covers(self, st, r, lo, hi, src, depth=0):
        """is every byte of [lo,hi) known to be src?"""
        cs = st.cs
        if cs.entails(lo - hi): return True
        if depth > self.COVDEPTH: return False
        for f in r.facts:
            if not self.src_match(st, f.src, src): continue
            if not all(cs.entails(lo - l) for l in f.lo): continue
            un = [h for h in f.hi if not cs.entails(h - hi)]
            if not un: return True
            if len(un) == 1 and un[0] != lo and cs.entails(un[0] - lo - 1):
                if self.covers(st, r, un[0], hi, src, depth + 1): return True
            elif len(un) == 1 and not cs.entails(lo - un[0]) :
                # progress not provable: [lo,un) may be empty but the rest must still be covered
                if cs.entails(un[0] - lo) and depth < 3 and self.covers(st, r, un[0], hi, src, depth + 1): return True
        return False
    def src_match(self, st, have, want):
        if have == want: return True
        if want[0] == 'nz': return have[0] == 'nz' or (have[0] == 'const' and have[1] != 0)
        if have[0] == 'init' and want[0] == 'init' and have[1] == want[1]:
            return st.cs.entails_eq(have[2] - want[2])
        return False
    def zeros(self, st, r):
        """positions known to hold a zero byte: list of facts"""
        return [f for f in r.facts if f.src == ('const', 0)]

    def store(self, st, p, v, ty):
        n = self.mod.size(ty)
        p = self.access(st, p, C(n), 'write', True)
        if p is None: return False
        self.store_raw(st, p, v, n)
        return True
    def store_raw(self, st, p, v, n):
        r = st.w(p.r)
        if isinstance(v, Ptr):
            x = st.reg.get(v.r)
            if x is not None and r.kind != 'stack' and not x.escaped and x.kind == 'heap':
                if r.frame is None: pass
        c = p.off.const()
        self.kill(st, r, p.off, p.off + n)
        if isinstance(v, Agg):
            # flattened by caller types; treat as opaque parts
            off = 0
            for e in v.v:
                m = 8
                self.store_raw(st, Ptr(p.r, p.off + off, p.gen), e, m); off += m
            return
        if isinstance(v, Blob) and c is not None:
            for o, (m, e) in v.parts: r.cells[c + o] = (m, e)
            return
        if c is not None and r.kind not in ('buf', 'cstr', 'viewbuf'):
            r.cells[c] = (n, v)
            if isinstance(v, Poly) and v.const() is not None and n == 1:
                self.add_fact(st, r, (p.off,), (p.off + 1,), ('const', v.const() & 255))
        else:
            if isinstance(v, Poly) and v.const() is not None:
                k = v.const()
                if k == 0: self.add_fact(st, r, (p.off,), (p.off + n,), ('const', 0)); return
                if n == 1:
                    self.add_fact(st, r, (p.off,), (p.off + 1,), ('const', k & 255)); return
            if v is NULL:
                self.add_fact(st, r, (p.off,), (p.off + n,), ('const', 0)); return
            self.add_fact(st, r, (p.off,), (p.off + n,), ('val', v, n))
            if isinstance(v, Ptr): self.escape(st, v.r)
            elif self.undef:
                pv = self.ldprov.get(v)
                if pv is not None and pv[2] == n: self.add_fact(st, r, (p.off,), (p.off + n,), ('init', pv[0], p.off - pv[1]))
    def escape(self, st, rid):
        r = st.reg.get(rid)
        if r is not None and not r.escaped:
            r = st.w(rid); r.escaped = True
            for o, (n, v) in r.cells.items():
                if isinstance(v, Ptr): self.escape(st, v.r)
    def load(self, st, p, ty):
        n = self.mod.size(ty)
        p = self.access(st, p, C(n), 'read')
        if p is None: return None
        if n == 1 and self.undef: st.ghost[('looked', p.r)] = True
        return self.load_raw(st, p, ty, n)
    def load_raw(self, st, p, ty, n):
        r = st.reg[p.r]
        c = p.off.const()
        if c is not None:
            x = r.cells.get(c)
            if x is not None and x[0] == n:
                return self.retype(st, x[1], ty)
            if x is None or x[0] != n:
                parts = [(o - c, (m, v)) for o, (m, v) in sorted(r.cells.items()) if c <= o and o + m <= c + n]
                if parts and (len(parts) > 1 or parts[0][1][0] != n):
                    if ty.k == 'int' and n > 1: return Blob(tuple(parts), n)
                if x is None:
                    for o, (m, v) in r.cells.items():
                        if o <= c and c + n <= o + m and isinstance(v, Blob):
                            e = self.blob_get(v, c - o, n, st)
                            if e is not None: return self.retype(st, e, ty)
            if r.tag and isinstance(r.tag, tuple) and r.tag[0] == 'bytes' and r.ro and n == 1 and 0 <= c < len(r.tag[1]):
                b = r.tag[1][c]
                return C(b - 256 if b > 127 else b)
        for f in reversed(r.facts):
            if f.src[0] == 'val' and f.src[2] == n and f.lo[0] == p.off and len(f.lo) == 1:
                return self.retype(st, f.src[1], ty)
        for f in reversed(r.facts):
            if f.src[0] == 'val' and f.src[2] == n and len(f.lo) == 1 and st.cs.entails_eq(f.lo[0] - p.off):
                return self.retype(st, f.src[1], ty)
        if any(f.src == ('const', 0) for f in r.facts) and self.covers(st, r, p.off, p.off + n, ('const', 0)):
            if ty.k == 'ptr': return NULL
            if ty.k == 'int': return FALSE if ty.n == 1 else C(0)
        if n == 1:
            for f in r.facts:
                if f.src[0] == 'const' and f.src[1] != 0 and self.covers(st, r, p.off, p.off + 1, f.src):
                    k = f.src[1]
                    return C(k - 256 if k > 127 else k)
        v = self.fresh_load(st, r, p, ty, n)
        if self.undef:
            for f in r.facts:
                if f.src[0] == 'init' and all(st.cs.entails(p.off - l) for l in f.lo) and all(st.cs.entails(h - p.off - n) for h in f.hi):
                    self.ldprov[v] = (f.src[1], p.off - f.src[2], n); break
        r = st.w(p.r)
        if c is not None and r.kind not in ('buf', 'cstr', 'viewbuf'):
            r.cells[c] = (n, v)
        elif r.size is not None or True:
            self.add_fact(st, r, (p.off,), (p.off + n,), ('val', v, n))
        return v
    def fresh_load(self, st, r, p, ty, n):
        if r.elem is not None:
            v = r.elem(self, st, r, p, ty, n)
            if v is not None: return v
        if ty.k == 'int' and n == 1 and ty.n == 8:
            prov = ('byte', [p.off - f.lo[0] for f in self.zeros(st, r) if len(f.lo) == 1], r.id, p.off)
            v = fresh('by', -128, 127, prov=prov)
            if any(f.src[0] == 'nz' for f in r.facts) and self.covers(st, r, p.off, p.off + 1, ('nz',)):
                st.nz = st.nz | {v.single()}; st.cs.add_neq(v)
            return v
        if ty.k == 'int':
            return self.fresh_of(st, ty, 'ld')
        return self.fresh_of(st, ty, 'ld')
    def retype(self, st, v, ty):
        if ty.k == 'ptr':
            if isinstance(v, Poly):
                if v.const() == 0: return NULL
                return self.new_unk()
            return v
        if ty.k == 'int':
            if ty.n == 1 and isinstance(v, Poly):
                c = v.const()
                if c is not None: return TRUE if c & 1 else FALSE
                return self.cmp(st, 'ne', v, ZERO)
            if v is NULL: return C(0)
        return v

    # ---- block operations
    def memcpy(self, st, d, s, n, what='memcpy'):
        nc = n.const()
        if nc == 0: return True
        s2 = self.access(st, s, n, what + ' source read')
        if s2 is None: return False
        d2 = self.access(st, d, n, what + ' destination write', True)
        if d2 is None: return False
        self.copy_raw(st, d2, s2, n)
        return True
    lit = False     # copies of literals keep their characters
    splitdiv = False
    def copy_raw(self, st, d, s, n):
        rs = st.reg[s.r]
        delta = d.off - s.off
        nf = []
        for f in rs.facts:
            if f.src[0] == 'val':
                if len(f.lo) == 1 and len(f.hi) == 1 and st.cs.entails(f.lo[0] - s.off) and st.cs.entails(s.off + n - f.hi[0]):
                    nf.append(Fact((f.lo[0] + delta,), (f.hi[0] + delta,), f.src))
                continue
            lo = tuple(dict.fromkeys(tuple(l + delta for l in f.lo) + (d.off,)))
            hi = tuple(dict.fromkeys(tuple(h + delta for h in f.hi) + (d.off + n,)))
            src = f.src
            if src[0] == 'init': src = ('init', src[1], src[2] + delta)
            x = self.f_simplify(st, lo, hi)
            if x: nf.append(Fact(x[0], x[1], src))
        ncells = {}
        sc, dc, nc = s.off.const(), d.off.const(), n.const()
        cellfacts = []
        for o, (m, v) in rs.cells.items():
            inside = (sc is not None and nc is not None and sc <= o and o + m <= sc + nc) or \
                     ((sc is None or nc is None) and st.cs.entails(C(o) - s.off) and st.cs.entails(s.off + n - (o + m)))
            if inside:
                no = C(o) + delta
                if no.const() is not None and st.reg[d.r].kind not in ('buf', 'cstr', 'viewbuf'): ncells[no.const()] = (m, v)
                else: cellfacts.append(Fact((no,), (no + m,), ('val', v, m)))
        if self.lit and rs.ro and isinstance(rs.tag, tuple) and rs.tag[0] == 'bytes' and sc is not None and nc is not None and nc <= 24:
            b = rs.tag[1][sc:sc + nc]
            nf += [Fact((d.off + i,), (d.off + i + 1,), ('const', c)) for i, c in enumerate(b) if c]
        r = st.w(d.r)
        self.kill(st, r, d.off, d.off + n)
        for f in nf + cellfacts:
            if f not in r.facts: r.facts = r.facts + (f,)
        if len(r.facts) > max(60, self.MAXFACTS): r.facts = r.facts[-max(60, self.MAXFACTS):]; st.imp = st.imp | {'facts'}
        for o, x in ncells.items():
            r.cells[o] = x
        for f in nf + cellfacts:
            if f.src[0] == 'val' and isinstance(f.src[1], Ptr): self.escape(st, f.src[1].r)
        if r.kind not in ('stack',) and not (r.kind == 'heap' and not r.escaped):
            for o, (m, v) in ncells.items():
                if isinstance(v, Ptr): pass
    def memset(self, st, d, v, n):
        if n.const() == 0: return True
        d2 = self.access(st, d, n, 'memset', True)
        if d2 is None: return False
        r = st.w(d2.r)
        self.kill(st, r, d2.off, d2.off + n)
        c = v.const() if isinstance(v, Poly) else None
        if c is not None:
            self.add_fact(st, r, (d2.off,), (d2.off + n,), ('const', c & 255))
        return True

    # ---- strings
    def strlen(self, st, p, what='strlen'):
        """Poly length of the string at p, or None (path ends)"""
        p = self.access(st, p, C(0), what)
        if p is None: return None
        return self.strlen_raw(st, p, what)
    def strlen_raw(self, st, p, what='strlen'):
        r = st.reg[p.r]; cs = st.cs; o = p.off
        if isinstance(r.tag, tuple) and r.tag[0] == 'bytes' and r.ro and o.const() is not None:
            z = r.tag[1].find(0, o.const())
            if z >= 0: return C(z - o.const())
        if r.size is None:
            k = ('fstrlen', p.r, r.ver, o)
            L = self.terms.get(k)
            if L is None: L = fresh('L', 0, SIZE_HI); self.terms[k] = L
            return L
        if not self.mute: self.obl += 1
        ups = []
        if not cs.entails(o):
            self.check(st, o, 'oob', '%s of a string starting before %s' % (what, r.name))
            if cs.bad: return None
        for f in self.zeros(st, r):
            for l in f.lo:
                if len(f.lo) == 1 and cs.entails(l - o) and all(cs.entails(h - l - 1) for h in f.hi):
                    if self.covers(st, r, o, l, ('nz',)):
                        if not self.mute: self.proved += 1
                        return l - o
                    ups.append(l)
            if all(cs.entails(o - l) for l in f.lo) and all(cs.entails(h - o - 1) for h in f.hi):
                if not self.mute: self.proved += 1
                return ZERO
        if not ups:
            self.alarm('unterminated', '%s of %s at offset %r: no terminating NUL within the object' % (what, r.name, o), st, o.syms())
            L = fresh('L', 0, SIZE_HI, imp=True)
            cs.add(r.size - o - L - 1)
        else:
            if not self.mute: self.proved += 1
            L = fresh('L', 0, SIZE_HI)
            for u in ups: cs.add(u - o - L)
        r = st.w(p.r)
        self.add_fact(st, r, (o + L,), (o + L + 1,), ('const', 0))
        self.add_fact(st, r, (o,), (o + L,), ('nz',))
        return L

    # ------------------------------------------------------------------ instruction execution
    def exec_block(self, fn, b, states):
        """run the non-phi instructions; returns (list of (succ, state)), list of (state, ret)"""
        outs = []; rets = []
        blk = fn.blocks[b]
        work = [(s, 0) for s in reversed(states)]
        insts = blk.insts
        n0 = 0
        while n0 < len(insts) and insts[n0].op == 'phi': n0 += 1
        work = [(s, n0) for s in reversed(states)]
        while work:
            st, i = work.pop()
            while True:
                ins = insts[i]
                self.insts += 1
                if self.insts > self.maxinsts: raise Budget('instruction budget exhausted in %s' % self.stack)
                self.cur = ins
                op = ins.op
                if op == 'br':
                    if len(ins.a) == 1: outs.append((ins.a[0], st)); break
                    c = self.tocond(st, self.value(st, ir.IntTy(1), ins.a[0]))
                    if c.t[0] == 'c':
                        outs.append((ins.a[1] if c.t[1] else ins.a[2], st)); break
                    s2 = st.fork()
                    for s in self.assume(st, c, True): outs.append((ins.a[1], s))
                    for s in self.assume(s2, c, False): outs.append((ins.a[2], s))
                    break
                if op == 'switch':
                    v = self.as_int(st, self.value(st, ins.ty, ins.a[0]))
                    vc = v.const()
                    if vc is not None:
                        t = ins.a[1]
                        for k, l in ins.a[2]:
                            if k == vc: t = l
                        outs.append((t, st)); break
                    rest = [st]
                    for k, l in ins.a[2]:
                        nr = []
                        for s in rest:
                            s2 = s.fork()
                            for x in self.assume(s, self.cmp(s, 'eq', v, C(k)), True): outs.append((l, x))
                            nr += self.assume(s2, self.cmp(s2, 'eq', v, C(k)), False)
                        rest = nr
                    for s in rest: outs.append((ins.a[1], s))
                    break
                if op == 'ret':
                    rets.append((st, self.value(st, ins.ty, ins.a[0]) if ins.a else None)); break
                if op == 'unreachable': break
                if op == 'call':
                    res = self.exec_call(fn, st, ins)
                    if len(res) == 1:
                        st = res[0]; i += 1; continue
                    for s in reversed(res): work.append((s, i + 1))
                    break
                r = self.exec_simple(st, ins)
                if r is False: break
                if isinstance(r, list):
                    for s in reversed(r): work.append((s, i + 1))
                    break
                i += 1
        return outs, rets
    def tocond(self, st, v):
        if isinstance(v, Cond): return v
        return NOT(self.cmp(st, 'eq', self.as_int(st, v), ZERO))

    def exec_simple(self, st, ins):
        op = ins.op; a = ins.a; ty = ins.ty; env = st.env
        if op == 'load':
            p = self.value(st, ir.PTR, a[0])
            v = self.load(st, p, ty)
            if v is None: return False
            env[ins.dst] = v
        elif op == 'store':
            v = self.value(st, ty, a[0]); p = self.value(st, ir.PTR, a[1])
            if not self.store(st, p, v, ty): return False
            if st.cs.bad: return False
            if ty.k == 'fp' and ty.name == 'x86_fp80' and isinstance(p, Ptr): st.ghost[('pad', p.r, p.off)] = True
        elif op == 'gep':
            v = self.gep(st, a[0], a[1]); env[ins.dst] = v
        elif op == 'icmp':
            x = self.value(st, a[1], a[2]); y = self.value(st, a[1], a[3])
            env[ins.dst] = self.icmp(st, a[0], a[1], x, y)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
            x = self.value(st, ty, a[0]); y = self.value(st, ty, a[1])
            if self.splitdiv and op in ('sdiv', 'srem') and isinstance(x, Poly) and isinstance(y, Poly) and (y.const() or 0) > 0 and x.const() is None and not st.cs.entails(x) and not st.cs.entails(-x):
                out = []
                for s, p in ((st, x), (st.fork(), -x - 1)):
                    s.cs.add(p)
                    if s.cs.bad or not s.cs.feasible(): continue
                    s.env[ins.dst] = self.binop(s, op, ty, x, y); out.append(s)
                return out
            if op in ('add', 'sub', 'mul') and ty.n > 1 and (isinstance(x, Cond) and x.t[0] != 'c' or isinstance(y, Cond) and y.t[0] != 'c'):
                # arithmetic on a truth value: one path for each
                c = x if isinstance(x, Cond) and x.t[0] != 'c' else y
                s2 = st.fork(); out = []
                for s0, val in ((st, True), (s2, False)):
                    w = C(1 if val else 0)
                    for s in self.assume(s0, c, val): s.env[ins.dst] = self.binop(s, op, ty, w if c is x else x, w if c is y else y); out.append(s)
                return out
            env[ins.dst] = self.binop(st, op, ty, x, y)
        elif op in ('zext', 'sext', 'trunc'):
            x = self.value(st, a[1], a[0])
            env[ins.dst] = self.castint(st, op, a[1], ty, x)
        elif op == 'alloca':
            n = C(self.mod.size(ty))
            if a[0] is not None: n = n * self.as_int(st, self.value(st, ir.IntTy(64), a[0]))
            k = 'buf' if ty.k == 'arr' and ty.el.k == 'int' and ty.el.n == 8 else 'stack'
            r = self.new_region(st, k, n, 'stack', 'local ' + ins.dst)
            r.frame = self.frame
            env[ins.dst] = Ptr(r.id, ZERO, r.gen)
        elif op == 'select':
            c = self.tocond(st, self.value(st, ir.IntTy(1), a[0]))
            if c.t[0] == 'c':
                env[ins.dst] = self.value(st, ty, a[1] if c.t[1] else a[2]); return None
            s2 = st.fork(); out = []
            for s in self.assume(st, c, True): s.env[ins.dst] = self.value(s, ty, a[1]); out.append(s)
            for s in self.assume(s2, c, False): s.env[ins.dst] = self.value(s, ty, a[2]); out.append(s)
            return out
        elif op == 'ptrtoint':
            v = self.value(st, a[1], a[0]); v = self.resolve(st, v)
            env[ins.dst] = self.as_int(st, v)
        elif op == 'inttoptr':
            env[ins.dst] = self.retype(st, self.value(st, a[1], a[0]), ir.PTR)
        elif op == 'extractvalue':
            v = self.value(st, a[0], a[1]); t = a[0]
            for j in a[2]:
                if isinstance(v, Agg): v = v.v[j]
                else: v = self.fresh_of(st, t.fields[j] if t.k == 'struct' else t.el, 'ev')
                t = t.fields[j] if t.k == 'struct' else t.el
            env[ins.dst] = v
        elif op == 'insertvalue':
            v = self.value(st, ty, a[0]); e = self.value(st, a[1], a[2])
            if len(a[3]) == 1 and isinstance(v, Agg):
                l = list(v.v); l[a[3][0]] = e; v = Agg(l)
            env[ins.dst] = v
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x = self.value(st, ty, a[0]); y = self.value(st, ty, a[1])
            env[ins.dst] = Opq((op, self.opk(x), self.opk(y)))
        elif op == 'fneg':
            env[ins.dst] = Opq((op, self.opk(self.value(st, ty, a[0]))))
        elif op == 'fcmp':
            x = self.value(st, a[1], a[2]); y = self.value(st, a[1], a[3])
            env[ins.dst] = Cond(('fc', a[0], self.opk(x), self.opk(y)))
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp'):
            x = self.value(st, a[1], a[0])
            env[ins.dst] = Opq((op, repr(a[1]), repr(ty), self.opk(x)))
        elif op in ('fptosi', 'fptoui'):
            x = self.value(st, a[1], a[0])
            k = (op, ty.n, self.opk(x)); s = self.terms.get(k)
            if s is None: s = self.fresh_of(st, ty, 'fti'); self.terms[k] = s
            env[ins.dst] = s
        elif op in ('bitcast', 'freeze'):
            v = self.value(st, a[1] if op == 'bitcast' else ty, a[0])
            env[ins.dst] = v
        else:
            raise ir.Broken('instruction ' + op)
        return None
    def opk(self, v):
        if isinstance(v, Opq): return v.t
        if isinstance(v, Poly): return v.key
        return repr(v)
    def castint(self, st, op, t0, t1, x):
        if isinstance(x, Cond):
            if t1.n == 1: return x
            return x                    # booleans survive widening/narrowing
        if isinstance(x, (Blob, Opq, UnkPtr)):
            if isinstance(x, Blob):
                if op == 'trunc':
                    m = t1.n // 8; v = self.blob_get(x, 0, m, st)
                    if v is not None: return v
                    if t1.n % 8 == 0 and t1.n > 8:
                        ps = tuple((o, (k, v)) for o, (k, v) in x.parts if o + k <= m)
                        if ps: return Blob(ps, m)
                elif op == 'zext' and t1.n % 8 == 0 and t0.n % 8 == 0:
                    return Blob(x.parts + tuple((o, (1, ZERO)) for o in range(t0.n // 8, t1.n // 8)), t1.n // 8)
            x = self.as_int(st, x, t0.n)
        if isinstance(x, Ptr) or x is NULL: x = self.as_int(st, x)
        if not isinstance(x, Poly): x = self.as_int(st, x)
        if op == 'sext': return x
        if op == 'zext':
            if st.cs.entails(x): return x
            s = x.single()
            if s is not None and Syms.prov[s] and Syms.prov[s][0] == 'tr' and Syms.prov[s][2] == t0.n:
                y = Syms.prov[s][1]
                if st.cs.entails(y) and st.cs.entails(C((1 << t0.n) - 1) - y): return y
            c = x.const()
            if c is not None: return C(c & ((1 << t0.n) - 1))
            k = ('zext', t0.n, x); v = self.terms.get(k)
            if v is None:
                v = fresh('zx', 0, (1 << t0.n) - 1, prov=('zx', x)); self.terms[k] = v
            return v
        # trunc
        n = t1.n
        if n == 1:
            c = x.const()
            if c is not None: return TRUE if c & 1 else FALSE
            pr = self.boolprov(x)
            if pr is not None: return NOT(pr) if False else Cond(('not', pr)) if False else self.cmp(st, 'ne', x, ZERO)
            if st.cs.entails(x) and st.cs.entails(C(1) - x): return self.cmp(st, 'ne', x, ZERO)
            k = ('tr1', x); v = self.terms.get(k)
            if v is None: self.nunk += 1; v = Cond(('o', self.nunk)); self.terms[k] = v
            return v
        c = x.const()
        if c is not None:
            c &= (1 << n) - 1
            return C(c - (1 << n) if c >> (n - 1) else c)
        lo, hi = ISIZE[n]
        if (st.cs.entails(x - lo) and st.cs.entails(C(hi) - x)): return x
        if n == 32 and st.cs.entails(x) and st.cs.entails(C((1 << 32) - 1) - x): return x
        s = x.single()
        if s is not None and Syms.prov[s] and Syms.prov[s][0] == 'zx': 
            y = Syms.prov[s][1]
            if st.cs.entails(y - lo) and st.cs.entails(C(hi) - y): return y
        k = ('trunc', n, x); v = self.terms.get(k)
        if v is None: v = fresh('tr', lo, hi, imp=True, prov=('tr', x, n)); self.terms[k] = v
        return v
    # ---- integers carrying several fields (small structures passed and returned in registers)
    def blob_get(self, x, o, m, st=None):
        z = {q for q, (k, v) in x.parts if k == 1 and v == ZERO}
        for q, (k, v) in x.parts:
            if q == o and k == m: return v
            if q == o and k < m and q not in z and st is not None and isinstance(v, Poly) and all(q + i in z for i in range(k, m)) and st.cs.entails(v): return v
        if m > 1 and all(o + i in z for i in range(m)): return C(0)
        b = {q: v.const() & 255 for q, (k, v) in x.parts if k == 1 and isinstance(v, Poly) and v.const() is not None}
        if all(o + i in b for i in range(m)):
            c = sum(b[o + i] << 8 * i for i in range(m))
            return C(c - (1 << 8 * m) if c >> 8 * m - 1 else c)
        return None
    def to_blob(self, st, x, n, other=None):
        """the fields of an integer as byte pieces, or None"""
        if isinstance(x, Blob): return x
        if not isinstance(x, Poly): return None
        B = n // 8; c = x.const()
        if c == 0: return Blob(tuple((o, (1, ZERO)) for o in range(B)), B)
        if c is not None and not isinstance(other, Blob): return None
        if c is not None: return Blob(tuple((o, (1, C((c >> 8 * o) & 255))) for o in range(B)), B)
        k = 0
        while all(co % (1 << k + 8) == 0 for co in x.d.values()): k += 8
        y = x if k == 0 else Poly({m: co >> k for m, co in x.d.items()}); s = y.single()
        hi = next((m for m in (1, 2, 4) if st.cs.entails(C((1 << 8 * m) - 1) - y)), None)
        if hi is None or not st.cs.entails(y) or k // 8 + hi > B: return None
        v = y
        if s is not None and Syms.prov[s] and Syms.prov[s][0] == 'zx': v = Syms.prov[s][1]
        elif not st.cs.entails(C((1 << 8 * hi - 1) - 1) - y): return None
        o = k // 8
        return Blob(tuple((q, (1, ZERO)) for q in range(o)) + ((o, (hi, v)),) + tuple((q, (1, ZERO)) for q in range(o + hi, B)), B)
    def blob_op(self, st, op, n, x, y):
        B = n // 8
        if op in ('shl', 'lshr') and isinstance(x, Blob) and isinstance(y, Poly) and y.const() is not None and y.const() % 8 == 0:
            k = y.const() // 8
            if op == 'lshr': return Blob(tuple((o - k, p) for o, p in x.parts if o >= k) + tuple((o, (1, ZERO)) for o in range(B - k, B)), B)
            return Blob(tuple((o, (1, ZERO)) for o in range(k)) + tuple((o + k, p) for o, p in x.parts if o + k + p[0] <= B), B)
        if op == 'and' and isinstance(y, Poly) and y.const() is not None:
            bs = [(y.const() >> 8 * i) & 255 for i in range(B)]
            if all(b in (0, 255) for b in bs) and 0 in bs:
                ps = x.parts if isinstance(x, Blob) else None
                if ps is None:
                    t = self.to_blob(st, x, n); ps = t.parts if t else ()
                    u = x.single() if isinstance(x, Poly) else None
                    if t is None and (u is None or not Syms.name[u].startswith('undef')): return None
                return Blob(tuple((o, p) for o, p in ps if all(bs[o + i] for i in range(p[0]))) + tuple((o, (1, ZERO)) for o in range(B) if not bs[o]), B)
            return None
        if op in ('or', 'xor', 'add'):
            a = self.to_blob(st, x, n, y); b = self.to_blob(st, y, n, x)
            if a is None or b is None: return None
            za = {o for o, (k, v) in a.parts if k == 1 and v == ZERO}; zb = {o for o, (k, v) in b.parts if k == 1 and v == ZERO}
            ps = [(o, p) for o, p in a.parts if o not in za and all(o + i in zb for i in range(p[0]))] + [(o, p) for o, p in b.parts if o not in zb and all(o + i in za for i in range(p[0]))]
            return Blob(tuple(sorted(ps + [(o, (1, ZERO)) for o in za & zb], key=lambda q: q[0])), B)
        return None
    def binop(self, st, op, ty, x, y):
        n = ty.n
        if n >= 32 and n % 8 == 0 and (isinstance(x, Blob) or isinstance(y, Blob) or op in ('or', 'and') and isinstance(x, Poly) and isinstance(y, Poly) and x.const() is None):
            v = self.blob_op(st, op, n, x, y)
            if v is not None: return v
        if isinstance(x, Cond) or isinstance(y, Cond):
            if n == 1 or (isinstance(x, Cond) and isinstance(y, Cond)):
                xc = x if isinstance(x, Cond) else (TRUE if x.const() else FALSE)
                yc = y if isinstance(y, Cond) else (TRUE if y.const() else FALSE)
                if op == 'and': return self.land(xc, yc)
                if op == 'or': return NOT(self.land(NOT(xc), NOT(yc)))
                if op == 'xor':
                    if yc.t[0] == 'c': return NOT(xc) if yc.t[1] else xc
                    if xc.t[0] == 'c': return NOT(yc) if xc.t[1] else yc
                    return self.lxor(xc, yc)
            if isinstance(x, Cond) and isinstance(y, Poly):
                c = y.const()
                if op == 'and' and c is not None and c & 1 and n > 1: return x
                if op == 'xor' and c == 1: return NOT(x)
            x = self.as_int(st, x); y = self.as_int(st, y)
        x = x if isinstance(x, Poly) else self.as_int(st, x, n)
        y = y if isinstance(y, Poly) else self.as_int(st, y, n)
        cx, cy = x.const(), y.const()
        if op in ('add', 'sub', 'mul') and cx is not None and cy is not None:
            r = cx + cy if op == 'add' else cx - cy if op == 'sub' else cx * cy
            if n <= 32 and not -(1 << n - 1) <= r < 1 << n: r &= (1 << n) - 1; r -= (r >> n - 1) << n
            return C(r)
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul':
            if x.degree() + y.degree() <= 4: return x * y
        if op == 'shl' and cy is not None: return x * (1 << cy)
        if cx is not None and cy is not None:
            M = (1 << n) - 1
            try:
                if op == 'and': r = cx & cy
                elif op == 'or': r = cx | cy
                elif op == 'xor': r = cx ^ cy
                elif op == 'lshr': r = (cx & M) >> cy
                elif op == 'ashr': r = cx >> cy
                elif op in ('udiv',): r = (cx & M) // (cy & M)
                elif op in ('urem',): r = (cx & M) % (cy & M)
                elif op == 'sdiv': r = abs(cx) // abs(cy) * (1 if (cx < 0) == (cy < 0) else -1)
                elif op == 'srem': r = abs(cx) % abs(cy) * (1 if cx >= 0 else -1)
                else: r = None
            except ZeroDivisionError: r = None
            if r is not None:
                r &= M
                return C(r - (1 << n) if r >> (n - 1) else r)
        if op == 'xor' and cy == -1: return -x - 1
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.div_check(st, op, y)
        k = (op, n, x, y)
        v = self.terms.get(k)
        if v is not None: return v
        if self.splitdiv and op in ('udiv', 'sdiv') and cy is not None and cy > 1 and st.cs.entails(x):
            lo = Poly({m: c for m, c in x.d.items() if c % cy}); k0 = x.d.get((), 0)
            if k0 % cy: lo = lo - k0 + k0 % cy
            if st.cs.entails(lo) and st.cs.entails(C(cy - 1) - lo):
                return Poly({m: c // cy for m, c in (x - lo).d.items()})       # the rest is a digit: the quotient is exact
        if op in ('udiv', 'sdiv') and cy is not None and cy > 0 and st.cs.entails(x):
            kk = ('divc', x, cy); v = self.terms.get(kk)
            if v is None: v = self.terms[kk] = fresh('dv', 0)
            st.cs.add(x - v * cy); st.cs.add(v * cy + (cy - 1) - x)
            return v
        if op in ('sdiv', 'srem') and cy is not None and cy > 0 and st.cs.entails(-x):
            q = -self.binop(st, 'udiv', ty, -x, y)
            return q if op == 'sdiv' else x - q * cy
        if self.splitdiv and op == 'and' and cy is not None and cy > 0 and (cy & cy + 1) == 0 and st.cs.entails(x):
            return self.binop(st, 'urem', ty, x, y + 1)
        if self.splitdiv and op == 'lshr' and cy is not None and 0 < cy < 31 and st.cs.entails(x):
            return self.binop(st, 'udiv', ty, x, C(1 << cy))
        if op in ('urem', 'srem') and cy is not None and cy > 0 and st.cs.entails(x):
            q = self.binop(st, 'udiv', ty, x, y)
            return x - q * cy
        if op in ('udiv', 'urem', 'sdiv', 'srem') and cy is None and st.cs.entails(x) and st.cs.entails(y - 1):
            if self.splitdiv:
                for m0, c0 in y.d.items():
                    if m0 and m0 in x.d:
                        q = C(x.d[m0] // c0)
                        if st.cs.entails(x - q * y) and st.cs.entails(y - 1 - x + q * y): return q if op in ('udiv', 'sdiv') else x - q * y
            kk = ('udivq', n, x, y); q = self.terms.get(kk)
            if q is None:
                q = fresh('dv', 0); self.terms[kk] = q
            st.cs.add(x - q * y); st.cs.add(q * y + y - 1 - x)
            return q if op in ('udiv', 'sdiv') else x - q * y
        lo, hi = ISIZE.get(n, (None, None))
        if op == 'and' and cy is not None and cy >= 0: lo, hi = 0, cy
        if op in ('udiv', 'lshr', 'urem') and st.cs.entails(x):
            lo = 0
        v = fresh(op, lo, hi, imp=op in ('mul',)); self.terms[k] = v
        if op in ('lshr', 'udiv', 'urem', 'and') and lo == 0 and st.cs.entails(x): st.cs.add(x - v)
        return v
    def div_check(self, st, op, y):
        c = y.const()
        if c is not None and c != 0: return
        if not self.mute: self.obl += 1
        if st.cs.entails_neq(y):
            if not self.mute: self.proved += 1
            return
        self.alarm('divzero', '%s by a value that can be zero (%r)' % (op, y), st, y.syms())
        st.cs.add_neq(y)
    def land(self, a, b):
        if a.t == ('c', False) or b.t == ('c', False): return FALSE
        if a.t == ('c', True): return b
        if b.t == ('c', True): return a
        if a == b: return a
        return Cond(('and', a, b))
    def lxor(self, a, b):
        return NOT(self.land(NOT(self.land(a, NOT(b))), NOT(self.land(NOT(a), b))))

    # ------------------------------------------------------------------ calls
    frame = 0
    def exec_call(self, fn, st, ins):
        cal, args, nr = ins.a
        vals = []
        for t, v, at in args:
            x = self.value(st, t, v)
            vals.append(x)
        if cal[0] == 'g': name = cal[1][1:]; fv = None
        else:
            fv = self.value(st, ir.PTR, cal)
            fv = self.resolve(st, fv)
            if isinstance(fv, FnV): name = fv.name
            else:
                if fv is NULL:
                    self.alarm('null', 'call through a null function pointer', st); return []
                name = '$unknown'
        return self.do_call(st, ins, name, vals, args, fv)
    def do_call(self, st, ins, name, vals, args, fv=None):
        self.calls_seen[name] = self.calls_seen.get(name, 0) + 1
        m = self.models.get(name)
        if m is None and name.startswith('llvm.'):
            m = self.models.get('.'.join(name.split('.')[:2]))
        if m is not None:
            res = m(self, st, ins, vals, args, fv)
            if res is not NotImplemented:
                out = []
                for s, rv in res:
                    if s.cs.bad: continue
                    if self.trace is not None and name in self.trace:
                        rv = rv if rv is not None or ins.dst is None else self.fresh_of(s, ins.ty, name)
                        self.record(s, name, vals, rv)
                    if ins.dst is not None:
                        s.env[ins.dst] = rv if rv is not None else self.fresh_of(s, ins.ty, name)
                    out.append(s)
                return out
        f = self.mod.fns.get(name)
        if f is None:
            return self.external(st, ins, name, vals, args)
        if self.stack.count(name) >= self.rec_limit(name):
            return self.recursive(st, ins, f, vals)
        out = []
        for s, rv in self.call(f, vals, args, st):
            if ins.dst is not None: s.env[ins.dst] = rv if rv is not None else self.fresh_of(s, ins.ty, 'ret')
            self.cur = ins
            out.append(s)
        self.cur = ins
        return out
    trace = None    # names of the external calls whose order, arguments and results are recorded per path
    def record(self, st, name, vals, rv):
        st.ghost[('ev', sum(1 for k in st.ghost if k[0] == 'ev'))] = (name, tuple(vals), rv, self.mod.srcloc(self.cur.loc) if self.cur is not None else None)
        if self.on_event is not None: self.on_event(self, st, name, vals, rv)
    def rec_limit(self, name): return 1
    def recursive(self, st, ins, f, vals):
        # havoc everything reachable from the arguments (recursion summary)
        self.havoc_reach(st, vals)
        if ins.dst is not None: st.env[ins.dst] = self.fresh_of(st, ins.ty, 'rec')
        return [st]
    HARMLESS = {'sin', 'cos', 'tan', 'log', 'exp', 'log2', 'log10', 'sinf', 'cosf', 'logf', 'expf', 'sqrtf', 'sqrtl', 'rand', 'srand', 'usleep', 'sleep', 'nanosleep'}
    def external(self, st, ins, name, vals, args):
        self.unmodelled.add(name)
        self.havoc_reach(st, vals)
        if name not in self.HARMLESS: st.imp = st.imp | {-2}        # what follows is not known exactly
        if ins.dst is not None: st.env[ins.dst] = self.fresh_of(st, ins.ty, name)
        return [st]
    unmodelled = set()
    def havoc_reach(self, st, vals):
        for v in vals:
            v = self.resolve(st, v)
            if isinstance(v, Ptr):
                r = st.reg.get(v.r)
                if r is None or r.ro: continue
                if r.kind in ('buf', 'cstr'):
                    r = st.w(v.r); r.facts = (); r.cells = {}; r.ver += 1
    def call(self, f, vals, args, st):
        """inline analysis of f from state st; list of (state, return value)"""
        saved = st.env
        env = {}
        for (nm, t, at), v, a in zip(f.params, vals, args or [(None, None, {})] * len(vals)):
            if 'byval' in at and isinstance(v, Ptr):
                # private copy
                n = C(self.mod.size(at['byval']))
                r = self.new_region(st, 'stack', n, 'stack', 'byval ' + nm)
                self.copy_raw(st, Ptr(r.id, ZERO, 0), v, n)
                v = Ptr(r.id, ZERO, 0)
            env[nm] = v
        st.env = env
        sframe = self.frame
        self.nframe += 1; self.frame = self.nframe
        myframe = self.frame
        self.stack.append(f.name)
        self.visited.add(f.name)
        self.va_stack.append(vals[len(f.params):] if f.vararg else None)
        try:
            rets = self.run_fn(f, st)
        finally:
            self.stack.pop(); self.frame = sframe; self.va_stack.pop()
        out = []
        first = True
        for s, rv in rets:
            if isinstance(rv, Ptr):
                r = s.reg.get(rv.r)
                if r is not None and r.frame == myframe:
                    self.alarm('uaf', '%s returns the address of a local' % f.name, s)
            s.env = dict(saved)
            # the callee's locals die
            self.dying = f.name
            for rid in [k for k, r in s.reg.items() if r.frame == myframe]:
                self.on_local_death(s, rid)
                del s.reg[rid]
            out.append((s, rv))
        return self.merge_rets(out)
    va_stack = []
    def on_local_death(self, st, rid):
        r = st.reg[rid]
        if r.tag in ('va-open', 'va-used'):
            self.stack.append(self.dying or '?')
            self.alarm('va', 'argument list started with va_start is not ended on this path', st)
            self.stack.pop()
    dying = None
    def find_leaks(self, st, base, roots, when, gbase):
        """blocks and handles created since 'base' that nothing alive refers to any more"""
        new = [r for k, r in st.reg.items() if k not in base and r.live and r.kind in ('heap', 'handle')]
        fds = [k for k in st.ghost if k[0] == 'fd' and k not in gbase]
        if not new and not fds: return
        if not self.mute: self.obl += len(new) + len(fds)
        seen = set(); syms = set()
        work = list(roots)
        work += [Ptr(k, ZERO, 0) for k, r in st.reg.items() if (k in base or r.frame is not None or r.kind == 'global') and r.live]
        while work:
            v = work.pop()
            if isinstance(v, UnkPtr): v = self.resolve(st, v)
            if isinstance(v, Agg): work += list(v.v); continue
            if isinstance(v, Blob): work += [x for _, (m, x) in v.parts]; continue
            if isinstance(v, Poly): syms |= v.syms(); continue
            if not isinstance(v, Ptr) or v.r in seen: continue
            seen.add(v.r)
            r = st.reg.get(v.r)
            if r is None or not r.live: continue
            for n, x in r.cells.values(): work.append(x)
            for f in r.facts:
                if f.src[0] == 'val': work.append(f.src[1])
        for r in new:
            if r.id in seen or r.escaped: 
                if not self.mute: self.proved += 1
                continue
            kind = 'leak-handle' if r.kind == 'handle' else 'leak'
            self.alarm(kind, '%s obtained at %s:%s is neither released nor reachable %s' % (r.name, (r.site or ('?', 0))[0], (r.site or ('?', 0))[1], when), st, (), extra=r.site)
            st.w(r.id).live = False
        for k in fds:
            if k[1] in syms:
                if not self.mute: self.proved += 1
                continue
            self.alarm('leak-handle', 'descriptor obtained at %s:%s is neither closed nor reachable %s' % (st.ghost[k][0], st.ghost[k][1], when), st, (), extra=st.ghost[k])
            del st.ghost[k]
    def find_dropped(self, st, owned, roots, when):
        """storage that belonged to an argument, is still allocated and can no longer be reached"""
        owned = [k for k in owned if k in st.reg and st.reg[k].live]
        if not owned or st.imp: return
        seen = set(); work = list(roots) + [Ptr(k, ZERO, 0) for k, r in st.reg.items() if r.kind == 'global' and r.live]
        while work:
            v = work.pop()
            if isinstance(v, UnkPtr): return
            if isinstance(v, Agg): work += list(v.v); continue
            if isinstance(v, Blob): work += [x for _, (m, x) in v.parts]; continue
            if not isinstance(v, Ptr) or v.r in seen: continue
            seen.add(v.r); r = st.reg.get(v.r)
            if r is None or not r.live: continue
            for n, x in r.cells.values(): work.append(x)
            for f in r.facts:
                if f.src[0] == 'val': work.append(f.src[1])
        for k in owned:
            if not self.mute: self.obl += 1
            if k in seen or st.reg[k].escaped:
                if not self.mute: self.proved += 1
                continue
            self.alarm('leak', '%s, held by an argument, is neither released nor reachable %s' % (st.reg[k].name, when), st, ())
    def cb_size(self, st, p): return C(1)
    def merge_rets(self, outs):
        if len(outs) <= 1: return outs
        groups = []
        for s, rv in outs:
            for g in groups:
                if g[1] == rv and self.same_mem(g[0], s):
                    j = self.join_cs(g[0], s, len(groups) >= self.KEEP or self.kept > self.MAXKEPT or len(self.stack) > self.KEEPDEPTH)
                    if j is None: continue
                    g[0] = j; break
            else: groups.append([s, rv])
        return [(g[0], g[1]) for g in groups]
    def same_mem(self, a, b):
        if a.ghost != b.ghost or a.unk != b.unk or bool(a.imp) != bool(b.imp): return False
        if sum(not r.ro for r in a.reg.values()) != sum(not r.ro for r in b.reg.values()): return False
        for k, ra in a.reg.items():
            rb = b.reg.get(k)
            if rb is ra or ra.ro: continue
            if rb is None: return False
            if ra.live != rb.live or ra.gen != rb.gen or ra.size != rb.size or ra.escaped != rb.escaped: return False
            if ra.cells != rb.cells: return False
            if ra.facts != rb.facts and set(ra.facts) != set(rb.facts): return False
            if ra.origin != rb.origin or ra.tag != rb.tag: return False
        return True
    KEEP = 4; kept = 0; MAXKEPT = 24; KEEPDEPTH = 2
    def join_cs(self, a, b, force=True):
        """states equal up to constraints; None when the union is not exactly representable (unless forced)"""
        ca, cb = a.cs, b.cs
        if ca.c == cb.c and ca.neq == cb.neq:
            return a
        n = CS()
        for lin, k in ca.c.items():
            o = cb.c.get(lin)
            if o is not None and o <= k: n.c[lin] = k; continue
            if cb.entails(Poly(dict(lin)) + k): n.c[lin] = k; continue
            if o is not None: n.c[lin] = max(o, k)   # both bound it, take the weaker one
        for lin, k in cb.c.items():
            if lin in n.c: continue
            if ca.entails(Poly(dict(lin)) + k): n.c[lin] = k
        n.neq = tuple(p for p in ca.neq if cb.entails_neq(p)) + tuple(p for p in cb.neq if p not in ca.neq and ca.entails_neq(p))
        lost = set(); light = True
        if not a.imp:
            for lin, k in ca.c.items():
                if n.c.get(lin) != k and not self.implies_cs(n, -(Poly(dict(lin)) + k) - 1, cb): lost |= Poly(dict(lin)).syms()
            for p in ca.neq:
                if p not in n.neq and not self.implies_cs(n, p, cb, True): lost |= p.syms()
            light = all(Syms.name[x].split('_')[0] in ('by', 'cls', 'cmp', 'zx', 'cv') for x in lost)
            if lost and not light and not force: self.kept += 1; return None
        a.cs = n; a.nz = a.nz & b.nz; a.weak = a.weak | b.weak | lost
        return a
    def implies_cs(self, n, p, cb, eq=False):
        """do the constraints n with p >= 0 (p == 0) imply all of cb?"""
        t = n.fork(); t.add(p)
        if eq: t.add(-p)
        if t.bad or not t.feasible(p): return True
        for lin, k in cb.c.items():
            if t.c.get(lin, None) is not None and t.c[lin] <= k: continue
            if not t.entails(Poly(dict(lin)) + k): return False
        return all(q in t.neq or t.entails_neq(q) for q in cb.neq)

    # ------------------------------------------------------------------ function bodies
    def run_fn(self, f, st):
        info = ir.cfg_info(f)
        if info['irreducible']: raise ir.Broken('irreducible control flow in ' + f.name)
        exits, rets, backs = self.run_region(f, set(info['rpo']), f.entry.name, [st], None)
        return rets
    def phis(self, fn, b, pred, st):
        blk = fn.blocks[b]
        new = {}
        for i in blk.insts:
            if i.op != 'phi': break
            for v, pb in i.a:
                if pb == pred:
                    new[i.dst] = self.value(st, i.ty, v); break
            else:
                raise ir.Broken('phi without incoming')
        st.env.update(new)
    def run_region(self, fn, blocks, entry, states, header):
        """analyse the sub-CFG 'blocks' from states at 'entry' (phis done).
        returns exits [(from,to,state)], rets, backs [(from,state)] (edges to header, phis NOT evaluated)"""
        info = ir.cfg_info(fn)
        pend = {entry: list(states)}
        exits = []; rets = []; backs = []
        order = [b for b in info['rpo'] if b in blocks]
        skip = set()
        for b in order:
            if b in skip: continue
            ss = pend.pop(b, None)
            if not ss: continue
            if b != header and b in info['loops'] and b != (header or None):
                body = info['loops'][b]
                ex, rt = self.run_loop(fn, b, body, self.merge(fn, b, ss))
                rets += rt
                skip |= body
                for frm, to, s in ex:
                    self.edge(fn, frm, to, s, blocks, header, pend, exits, backs)
                continue
            ss = self.merge(fn, b, ss) if len(ss) > 1 else ss
            outs, rt = self.exec_block(fn, b, ss)
            rets += rt
            for to, s in outs:
                self.edge(fn, b, to, s, blocks, header, pend, exits, backs)
        return exits, rets, backs
    def edge(self, fn, frm, to, s, blocks, header, pend, exits, backs):
        if to == header:
            backs.append((frm, s)); return
        if to not in blocks:
            exits.append((frm, to, s)); return
        self.phis(fn, to, frm, s)
        pend.setdefault(to, []).append(s)
    def merge(self, fn, b, ss):
        live = ir.cfg_info(fn)['livein'][b]
        phid = [i.dst for i in fn.blocks[b].insts if i.op == 'phi']
        keep = set(live) | set(phid)
        for s in ss:
            if len(s.env) > len(keep): s.env = {k: v for k, v in s.env.items() if k in keep}
        if len(ss) <= 1: return ss
        groups = []
        for s in ss:
            for i, g in enumerate(groups):
                if g.env == s.env and self.same_mem(g, s):
                    j = self.join_cs(g, s, len(groups) >= self.KEEP or self.kept > self.MAXKEPT or len(self.stack) > self.KEEPDEPTH)
                    if j is None: continue
                    groups[i] = j; break
            else: groups.append(s)
        if len(groups) > self.MAXD:
            groups = self.force_join(fn, b, groups)
        return groups
    def force_join(self, fn, b, groups):
        out = []
        byshape = {}
        for s in groups:
            byshape.setdefault(self.shape(s, None), []).append(s)
        for k, l in byshape.items():
            if len(l) > max(1, self.MAXD // max(1, len(byshape)) // 2):
                out.append(self.join_many(l))
            else: out += l
        return out

    # ------------------------------------------------------------------ shapes and joins
    def vshape(self, st, v, mark=None):
        if isinstance(v, Ptr):
            r = st.reg.get(v.r)
            return ('p', v.r, r is not None and r.gen == v.gen)
        if v is NULL: return 'n'
        if isinstance(v, UnkPtr): return ('u', v.id if mark is None else 0, v.kind)
        if isinstance(v, FnV): return ('f', v.name)
        if isinstance(v, Cond):
            return ('c', v.t[1]) if v.t[0] == 'c' else 'c'
        if isinstance(v, Poly): return 'i'
        if isinstance(v, Agg): return ('a',) + tuple(self.vshape(st, x, mark) for x in v.v)
        return 'o'
    def shape(self, st, phis):
        e = st.env
        out = []
        for k in sorted(e if phis is None else phis): out.append((k, self.vshape(st, e[k])))
        for rid in sorted(st.reg):
            r = st.reg[rid]
            if r.ro: continue
            out.append((rid, r.live, r.escaped, tuple(sorted((o, self.vshape(st, v)) for o, (n, v) in r.cells.items() if not isinstance(v, Poly)))))
        out.append(tuple(sorted((repr(k), repr(v)) for k, v in st.ghost.items() if k[0] not in ('oc', 'nn', 'cmp', 'cb', 'ev'))))
        return tuple(out)
    def join_many(self, l):
        """weak join of same-shape states: differing integers get a fresh symbol with template bounds"""
        base = l[0].fork()
        mark = sym_mark()
        locs = []
        def addloc(key, vals, setter):
            if all(v == vals[0] for v in vals[1:]): return
            if all(isinstance(v, Poly) for v in vals): locs.append((key, list(vals), setter))
            elif all(isinstance(v, Ptr) for v in vals) and all(v.r == vals[0].r and v.off == vals[0].off for v in vals): pass
            elif all(isinstance(v, Ptr) for v in vals): locs.append((key, [v.off for v in vals], lambda x, s=setter, v0=vals[0]: s(Ptr(v0.r, x, v0.gen))))
            else: setter(None)
        for k in list(base.env):
            vals = [s.env.get(k) for s in l]
            def set_env(x, k=k):
                if x is None: base.env[k] = self.havoc_value(base, l[0].env[k])
                else: base.env[k] = x
            addloc(('e', k), vals, set_env)
        for s in l[1:]:
            for rid, r in s.reg.items():
                if r.ro and rid not in base.reg: base.reg[rid] = r
        for rid in list(base.reg):
            if base.reg[rid].ro: continue
            rs = [s.reg[rid] for s in l]
            if all(r is rs[0] for r in rs[1:]): continue
            R = base.w(rid)
            if any(r.size != R.size for r in rs):
                if all(r.size is not None for r in rs):
                    def set_size(x, R=R): R.size = x
                    locs.append((('s', rid), [r.size for r in rs], set_size))
                else: R.size = None
            g = max(r.gen for r in rs)
            for o in list(R.cells):
                cs_ = [r.cells.get(o) for r in rs]
                if any(c is None or c[0] != R.cells[o][0] for c in cs_): del R.cells[o]; continue
                def set_cell(x, R=R, o=o):
                    if x is None: del R.cells[o]
                    else: R.cells[o] = (R.cells[o][0], x)
                addloc(('c', rid, o), [c[1] for c in cs_], set_cell)
        self.solve_join(base, l, locs, mark)
        return base
    def solve_join(self, base, l, locs, mark):
        # group locations with identical differences
        newsyms = []   # (poly value in base, [values])
        for key, vals, setter in sorted(locs, key=lambda l: l[0][0] == 's'):
            done = False
            if all(v == vals[0] for v in vals): setter(vals[0]); continue
            for bp, bv in newsyms:
                for k in (C(1),) + ((C(8),) + tuple(getattr(self, 'scales', ())) if key[0] == 's' else ()):
                    d = vals[0] - bv[0] * k
                    if all(v - w * k == d for v, w in zip(vals, bv)):
                        setter(bp * k + d); done = True; break
                if done: break
            if done: continue
            lo = None
            if all(s.cs.entails(v) for s, v in zip(l, vals)): lo = 0
            x = fresh('j', lo, None, imp=True)
            newsyms.append((x, vals)); setter(x)
        n = CS()
        first = l[0].cs
        for lin, k in first.c.items():
            p = Poly(dict(lin)) + k
            if all(s.cs.entails(p) for s in l[1:]): n.c[lin] = k
        n.neq = tuple(p for p in first.neq if all(s.cs.entails_neq(p) for s in l[1:]))
        base.cs = n
        refs = [ZERO]
        for rid, r in base.reg.items():
            if r.size is not None and r.size.const() is None: refs.append(r.size)
            for o, (m, v) in r.cells.items():
                if isinstance(v, Poly) and v.const() is None and v not in refs: refs.append(v)
        for x, vals in newsyms:
            for q in refs[:30]:
                for sgn in (1, -1):
                    ok = True
                    for s, v in zip(l, vals):
                        qq = q
                        for y, w in newsyms:
                            sy = y.single()
                            qq = qq.subst({sy: w[l.index(s)]})
                        g = (v - qq) * sgn
                        if not s.cs.entails(g): ok = False; break
                    if ok: n.add((x - q) * sgn)
        # facts
        for rid, R in list(base.reg.items()):
            if R.ro: continue
            rs = [s.reg[rid] for s in l]
            if all(r.facts == rs[0].facts for r in rs): continue
            R = base.w(rid)
            R.facts = tuple(f for f in rs[0].facts if all(self.has_fact(s, s.reg[rid], f) for s in l[1:]))
        base.nz = frozenset.intersection(*[s.nz for s in l])
        base.imp = base.imp | {'join'}
    def has_fact(self, st, r, f):
        if f in r.facts: return True
        if f.src[0] == 'val': return False
        if len(f.lo) == 1 and len(f.hi) == 1: return self.covers(st, r, f.lo[0], f.hi[0], f.src)
        return False
    def havoc_value(self, st, v):
        if isinstance(v, Poly): return fresh('h', imp=True)
        if isinstance(v, Cond): self.nunk += 1; return Cond(('o', self.nunk))
        if isinstance(v, Opq): self.nunk += 1; return Opq(('v', self.nunk))
        return self.new_unk()

class NullOff:
    """null pointer plus an offset"""
    __slots__ = ('off',)
    def __init__(self, off): self.off = off
    def __eq__(self, o): return isinstance(o, NullOff) and o.off == self.off
    def __hash__(self): return hash(('no', self.off))
    def __repr__(self): return 'NULL+%r' % self.off
