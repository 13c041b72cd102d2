"""What each container operation does to the sequence it works on: length, capacity, and where every element of the result comes from.

A postcondition is a list of segments of the resulting storage, each with the origin of its bytes (a stretch of the container's
old contents, of an argument, or a constant).  The interpreter's content facts decide them: a segment is proved when facts of that
origin cover it, and it is a violation when a fact of a different origin can lie inside it on an exact path."""
import re
import spec, driver
from spec import hdr_cell
from poly import *
from absint import *

POST = {}
def post(*names):
    def d(f):
        for n in names: POST[n] = f
        return f
    return d

TY = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'd', 'r')

class Px:
    """one return state of one function"""
    def __init__(self, I, e, s, rv):
        self.I = I; self.e = e; self.s = s; self.rv = rv; self.fn = e.fn.name; self.bad = False
        self.p = {i['name']: i for i in e.params}
    # ---- arguments
    def c(self, n): return self.p[n]['c'] if n in self.p and 'c' in self.p[n] else None
    def n(self, n): return self.p[n]['v']
    def L(self, n): return self.p[n].get('L') if 'L' in self.p[n] else self.p[n].get('n')
    def rid(self, n): return self.p[n].get('rid')
    # ---- result
    def h(self, rid, off):
        v = hdr_cell(self.s, rid, off)
        if v is None and self.I.covers(self.s, self.s.reg[rid], C(off), C(off + 8), ('const', 0)): v = ZERO
        return v
    def len(self, rid): return self.h(rid, spec.O_LEN)
    def cap(self, rid): return self.h(rid, spec.O_CAP)
    def buf(self, rid):
        p = self.I.resolve(self.s, hdr_cell(self.s, rid, spec.O_PTR))
        return p if isinstance(p, Ptr) and p.r in self.s.reg and self.s.reg[p.r].live else None
    def res(self):
        r = self.I.resolve(self.s, self.rv) if self.rv is not None else None
        return r
    def isnull(self): return self.res() is NULL
    # ---- obligations
    def fail(self, msg, p=None):
        self.I.alarm('post', msg, self.s, p.syms() if isinstance(p, Poly) else ())
    def ok(self, b, msg, p=None):
        self.I.obl += 1
        if b: self.I.proved += 1
        else: self.fail(msg, p)
        return b
    def eq(self, what, got, want):
        if not isinstance(got, Poly) or not isinstance(want, Poly):
            self.I.obl += 1; return None
        return self.ok(self.s.cs.bad or self.s.cs.entails_eq(got - want), '%s is %r, expected %r' % (what, got, want), got - want)
    def ge(self, what, p):
        return self.ok(self.s.cs.bad or self.s.cs.entails(p), what, p)
    def can(self, p):
        """p >= 0 possible here"""
        return not self.s.cs.entails(-p - 1)
    def same(self, a, b):
        I, s = self.I, self.s
        if isinstance(a, UnkPtr): a = I.resolve(s, a)
        if isinstance(b, UnkPtr): b = I.resolve(s, b)
        if a == b: return True
        if isinstance(a, Poly) and isinstance(b, Poly): return s.cs.entails_eq(a - b)
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r == b.r and s.cs.entails_eq(a.off - b.off)
        return False
    def header(self, c, ln=None, cap=None, els=True, slider=True):
        n = c.name
        if ln is not None: self.eq('length of ' + n, self.len(c.hdr), ln)
        if cap is not None: self.eq('capacity of ' + n, self.cap(c.hdr), cap)
        if els: self.eq('element size of ' + n, self.h(c.hdr, spec.O_ELS), c.els)
    def seg(self, what, buf, lo, hi, src):
        """every byte of [lo,hi) of the storage comes from src"""
        I, s = self.I, self.s
        if buf is None or s.cs.bad: return
        r = s.reg[buf.r]
        I.obl += 1
        if I.covers(s, r, lo, hi, src): I.proved += 1; return
        if r.cells and src[0] in ('val', 'const'):
            lc = lo.const()
            x = r.cells.get(lc) if lc is not None else None
            if x is not None:
                if self.same(x[1], src[1]) if src[0] == 'val' else (isinstance(x[1], Poly) and x[1].const() == src[1] or src[1] == 0 and x[1] is NULL): I.proved += 1; return
                if isinstance(x[1], Poly) and isinstance(src[1], Poly) or isinstance(x[1], Ptr) and isinstance(src[1], Ptr): self.fail('%s: holds %r instead of %r' % (what, x[1], src[1]), x[1] if isinstance(x[1], Poly) else None); return
        for f in r.facts:
            if f.src[0] == 'nz' or I.src_match(s, f.src, src): continue
            if f.src[0] == 'val':
                if src[0] != 'val' or self.same(f.src[1], src[1]): continue
                if not (len(f.lo) == 1 and s.cs.entails_eq(f.lo[0] - lo)): continue
            # uncovered by a proper fact, and this one can be there
            t = s.fork()
            x = I.f_simplify(t, tuple(dict.fromkeys(f.lo + (lo,))), tuple(dict.fromkeys(f.hi + (hi,))))
            if x is None: continue
            for a in x[0]:
                for b in x[1]: t.cs.add(b - a - 1)
            if t.cs.bad or not t.cs.feasible(): continue
            # the proper source must not be there as well
            if src[0] == 'init' and any(g is not f and I.src_match(s, g.src, src) and all(t.cs.entails(x[0][0] - l) for l in g.lo) and all(t.cs.entails(h - x[1][0]) for h in g.hi) for g in r.facts): continue
            syms = set()
            for q in x[0] + x[1] + (lo, hi): syms |= q.syms()
            I.alarm('post', '%s: bytes [%s, %s) %s' % (what, '|'.join(map(repr, x[0])), '|'.join(map(repr, x[1])), self.says(f.src, src)), s, syms)
            return
        # contents not known well enough
        I.alarm('post-unknown', '%s: contents not tracked' % what, s)
    def name(self, src):
        if src[0] == 'init':
            r = self.e.st0.reg.get(src[1])
            return 'what stood %r bytes earlier in %s' % (src[2], r.name if r else '?') if src[2].const() != 0 else 'the old contents of %s in place' % (r.name if r else '?')
        if src[0] == 'const': return 'the byte %d' % src[1]
        if src[0] == 'undef': return 'uninitialised memory'
        return repr(src[1]) if len(src) > 1 else src[0]
    def says(self, have, want): return 'hold %s instead of %s' % (self.name(have), self.name(want))
    def old(self, c, d=ZERO): return ('init', c.buf, d)
    def keep(self, c, ln=None):
        """contents unchanged"""
        self.seg('elements of ' + c.name, self.buf(c.hdr), ZERO, (c.len if ln is None else ln) * c.els, self.old(c))
    def unchanged(self, c):
        self.header(c, c.len, c.cap); self.keep(c)
        b = self.buf(c.hdr)
        self.ok(b is not None and b.r == c.buf, 'storage of %s replaced' % c.name)
    def val(self, name):
        """(src builder) the element handed in: bytes of a region, or a value stored by a typed wrapper"""
        i = self.p[name]
        if i.get('rid') is not None and i['kind'] == 'elem': return lambda at: ('init', i['rid'], at)
        k = next(j for j, x in enumerate(self.e.params) if x is i)
        v = self.e.vals[k]
        return lambda at: ('val', v, None)
    def elem(self, what, buf, at, n, name):
        """element [at, at+n) holds the argument"""
        i = self.p[name]
        if i['kind'] == 'elem': return self.seg(what, buf, at, at + n, ('init', i['rid'], at))
        k = next(j for j, x in enumerate(self.e.params) if x is i)
        self.value_at(what, buf, at, n, self.e.vals[k])
    def value_at(self, what, buf, at, n, v):
        I, s = self.I, self.s
        if buf is None or s.cs.bad: return
        r = s.reg[buf.r]
        I.obl += 1
        k = n.const() if isinstance(n, Poly) else n
        if v is NULL: return self.seg(what, buf, at, at + n, ('const', 0))
        c = at.const()
        if c is not None and c in r.cells:
            x = r.cells[c]
            if x[0] == k and self.same(x[1], v): I.proved += 1
            else: self.fail('%s holds another value' % what)
            return
        for f in reversed(r.facts):
            if f.src[0] == 'val' and len(f.lo) == 1 and s.cs.entails_eq(f.lo[0] - at):
                if f.src[2] == k and self.same(f.src[1], v): I.proved += 1
                else: self.fail('%s holds another value (%r, %d bytes, instead of %r, %s bytes)' % (what, f.src[1], f.src[2], v, k))
                return
        self.seg(what, buf, at, at + n, ('val', v, k))

class PostHook(driver.Hook):
    def setup(self, I, f, cfg): I.undef = True; I.MAXKEPT = 40; I.KEEPDEPTH = 9
    def ret(self, I, e, s, rv):
        f = POST.get(e.fn.name)
        if f is None or s.cs.bad: return
        px = Px(I, e, s, rv)
        f(px)
    def end(self, I, e, rets, R): R.extra['post'] = e.fn.name in POST
driver.HOOKS['post'] = PostHook

def conts(px, n='v'):
    return px.c(n)
FAM = {'vec': 'v', 'plist': 'p'}

# ------------------------------------------------------------------ creation
def created(px, kind, ln, cap, els, al=True):
    r = px.res()
    if not isinstance(r, Ptr): px.ok(r is not NULL, 'no container returned'); return None
    h = r.r
    px.eq('length of the new container', px.len(h), ln); px.eq('capacity of the new container', px.cap(h), cap)
    px.eq('element size of the new container', px.h(h, spec.O_ELS), els)
    a = px.I.resolve(px.s, hdr_cell(px.s, h, spec.O_AL)) if hdr_cell(px.s, h, spec.O_AL) is not None else NULL
    want = NULL if px.e.al is None else Ptr(px.e.al.id, ZERO, 0)
    px.ok(a == want, 'the new container does not record the allocator it was created with')
    v = hdr_cell(px.s, h, spec.O_VIEW)
    px.ok(v is None or isinstance(v, Poly) and v.const() == 0 or v == FALSE, 'the new container is marked as a view')
    sl = px.h(h, spec.O_SLI)
    px.eq('slider of the new container', sl, ZERO)
    b = px.buf(h)
    px.ok(b is not None and all(b.r != q['c'].buf for q in px.e.params if q.get('c')), 'the new container shares its storage with an argument')
    return h
@post('vt_vec_create')
def _(px): created(px, 'vec', ZERO, px.n('n'), px.n('elsize'))
@post('vt_plist_create')
def _(px): created(px, 'plist', ZERO, px.n('n'), C(8))
@post('vt_vec_dup', 'vt_plist_dup')
def _(px):
    c = px.c('v') or px.c('p')
    h = created(px, c.kind, c.len, c.len, c.els)
    if h is not None: px.seg('elements of the copy', px.buf(h), ZERO, c.len * c.els, px.old(c))
    px.unchanged(c)

# ------------------------------------------------------------------ size management
for k, nm in FAM.items():
    @post('vt_%s_len' % k)
    def _(px, nm=nm): c = px.c(nm); px.eq('result', px.rv, c.len); px.unchanged(c)
    @post('vt_%s_capacity' % k)
    def _(px, nm=nm): c = px.c(nm); px.eq('result', px.rv, c.cap); px.unchanged(c)
    @post('vt_%s_has_space' % k)
    def _(px, nm=nm): c = px.c(nm); px.eq('result', px.rv, c.cap - c.len); px.unchanged(c)
    @post('vt_%s_is_empty' % k)
    def _(px, nm=nm): c = px.c(nm); truth(px, px.rv, -c.len); px.unchanged(c)
    @post('vt_%s_clear' % k)
    def _(px, nm=nm): c = px.c(nm); px.header(c, ZERO, c.cap)
    @post('vt_%s_shrink' % k)
    def _(px, nm=nm): c = px.c(nm); px.header(c, c.len, c.len); px.keep(c)
    @post('vt_%s_reserve' % k)
    def _(px, nm=nm): c = px.c(nm); px.header(c, c.len, c.cap + px.n('n')); px.keep(c)
    @post('vt_%s_resize' % k)
    def _(px, nm=nm):
        c = px.c(nm); n = px.n('n'); px.header(c, n, n)
        if px.can(c.len - n):
            t = px.s.fork(); t.cs.add(c.len - n)
            Px(px.I, px.e, t, px.rv).keep(c, n)
        if px.can(n - c.len):
            t = px.s.fork(); t.cs.add(n - c.len)
            Px(px.I, px.e, t, px.rv).keep(c, c.len)
    # -------------------------------------------------------------- elements
    @post('vt_%s_push_back' % k, *(['vt_vec_push_back' + t for t in TY] if k == 'vec' else []))
    def _(px, nm=nm):
        c = px.c(nm); px.header(c, c.len + 1); px.keep(c)
        px.ge('capacity of %s shrank' % nm, px.cap(c.hdr) - c.cap)
        put(px, c, c.len)
    @post('vt_%s_push_front' % k, *(['vt_vec_push_front' + t for t in TY] if k == 'vec' else []))
    def _(px, nm=nm): inserted(px, px.c(nm), ZERO)
    @post('vt_%s_insert' % k, *(['vt_vec_insert' + t for t in TY] if k == 'vec' else []))
    def _(px, nm=nm):
        at = px.n('at')
        px.ge('accepts an index past the end of %s' % nm, px.c(nm).len - at - 1)
        inserted(px, px.c(nm), at)
    @post('vt_%s_set' % k, *(['vt_vec_set' + t for t in TY] if k == 'vec' else []))
    def _(px, nm=nm):
        c = px.c(nm); at = px.n('at'); px.header(c, c.len, c.cap)
        px.ge('accepts an index past the end of %s' % nm, c.len - at - 1)
        b = px.buf(c.hdr)
        px.seg('elements before the one set', b, ZERO, at * c.els, px.old(c))
        px.seg('elements behind the one set', b, (at + 1) * c.els, c.len * c.els, px.old(c))
        put(px, c, at)
    @post('vt_%s_get' % k)
    def _(px, nm=nm):
        c = px.c(nm); at = px.n('at')
        px.ge('accepts an index past the end of %s' % nm, c.len - at - 1)
        got(px, c, at); px.unchanged(c)
    @post('vt_%s_pop' % k)
    def _(px, nm=nm):
        c = px.c(nm); popped(px, c)
    @post('vt_%s_pop_get' % k, *(['vt_vec_pop_get' + t for t in TY] if k == 'vec' else []))
    def _(px, nm=nm):
        c = px.c(nm); popped(px, c)
        if not px.can(-c.len): got(px, c, c.len - 1)
        elif not px.can(c.len - 1) and px.fn in ('vt_vec_pop_get', 'vt_plist_pop_get'): px.ok(px.isnull(), 'an empty container yields an element')
    @post('vt_%s_remove' % k)
    def _(px, nm=nm): removed(px, px.c(nm), px.n('at'))
    @post('vt_%s_slide_front' % k)
    def _(px, nm=nm): slide(px, px.c(nm), True)
    @post('vt_%s_slide_back' % k)
    def _(px, nm=nm): slide(px, px.c(nm), False)
    @post('vt_%s_slide_reset' % k)
    def _(px, nm=nm): px.eq('slider', px.h(px.c(nm).hdr, spec.O_SLI), ZERO); px.unchanged(px.c(nm))
for t in TY:
    @post('vt_vec_get' + t)
    def _(px):
        c = px.c('v'); at = px.n('at')
        px.ge('accepts an index past the end of v', c.len - at - 1)
        got(px, c, at); px.unchanged(c)
def truth(px, v, p):
    """v is the truth value of p >= 0"""
    I, s = px.I, px.s
    if isinstance(v, Cond) and v.t[0] == 'c':
        b = v.t[1]
        (px.ge if b else lambda w, q: px.ge(w, -q - 1))('wrong truth value returned', p)
        return
    for val in (True, False):
        t = s.fork()
        cnd = v if isinstance(v, Cond) else I.cmp(t, 'ne', v, ZERO) if isinstance(v, Poly) else None
        if cnd is None: I.alarm('post-unknown', 'truth value not tracked', s); return
        for u in I.assume(t, cnd, val):
            if u.cs.bad: continue
            q = p if val else -p - 1
            I.obl += 1
            if u.cs.entails(q): I.proved += 1
            else: I.alarm('post', 'wrong truth value returned', u, q.syms())
def put(px, c, at):
    b = px.buf(c.hdr)
    nm = 'val' if 'val' in px.p else 'ptr'
    i = px.p[nm]
    if c.kind == 'plist':
        k = next(j for j, x in enumerate(px.e.params) if x is i)
        px.value_at('the stored pointer', b, at * 8, C(8), px.e.vals[k])
    else: px.elem('the stored element', b, at * c.els, c.els, nm)
def inserted(px, c, at):
    px.header(c, c.len + 1)
    px.ge('capacity shrank', px.cap(c.hdr) - c.cap)
    b = px.buf(c.hdr)
    px.seg('elements before the inserted one', b, ZERO, at * c.els, px.old(c))
    put(px, c, at)
    px.seg('elements behind the inserted one', b, (at + 1) * c.els, (c.len + 1) * c.els, px.old(c, c.els))
def popped(px, c):
    q = case(px, c.len - 1)
    if q: q.header(c, c.len - 1, c.cap); q.keep(c, c.len - 1)
    q = case(px, -c.len)
    if q: q.header(c, ZERO, c.cap)
def got(px, c, at):
    """the result is the element at index at (its address, its value, or for pointer lists the pointer)"""
    I, s = px.I, px.s
    r = px.rv
    if px.fn in ('vt_vec_get', 'vt_vec_pop_get', 'vt_array_get', 'vt_span_get', 'vt_array_slide_front', 'vt_array_slide_back', 'vt_vec_slide_front', 'vt_vec_slide_back', 'vt_str_slide_front', 'vt_str_slide_back'):
        r = px.res()
        px.ok(isinstance(r, Ptr) and r.r == c.buf and s.cs.entails_eq(r.off - at * c.els), 'the result does not point to element %r' % at, at)
        return
    n = c.els.const()
    reg = s.reg[c.buf]
    I.obl += 1
    v = None
    for f in reg.facts:
        if f.src[0] == 'val' and f.src[2] == n and len(f.lo) == 1 and s.cs.entails_eq(f.lo[0] - at * c.els): v = f.src[1]
    if v is None or not px.same(I.retype(s, v, px.e.fn.ret) if hasattr(px.e.fn, 'ret') else v, r):
        if isinstance(r, Cond) or isinstance(v, Cond): I.alarm('post-unknown', 'result not tracked', s); return
        px.fail('the result is not the element at index %r' % at, at)
    else: I.proved += 1
def removed(px, c, at):
    px.ge('accepts an index past the end', c.len - at - 1)
    px.header(c, c.len - 1, c.cap)
    b = px.buf(c.hdr); e = c.els
    rs = px.n('rs')
    st = spec.STABLE
    if px.can(-(rs - st)) and px.can(rs - st):
        t = px.s.fork(); t.cs.add(rs - st); t.cs.add(st - rs)
        if not t.cs.bad and t.cs.feasible():
            q = Px(px.I, px.e, t, px.rv)
            q.seg('elements before the removed one', b, ZERO, at * e, q.old(c))
            q.seg('elements behind the removed one', b, at * e, (c.len - 1) * e, q.old(c, -e))
    for sg in (1, -1):
        if not px.can((rs - st) * sg - 1): continue
        t = px.s.fork(); t.cs.add((rs - st) * sg - 1)
        if t.cs.bad: continue
        q = Px(px.I, px.e, t, px.rv)
        q.seg('elements before the removed one', b, ZERO, at * e, q.old(c))
        q.seg('elements behind the removed one', b, (at + 1) * e, (c.len - 1) * e, q.old(c))
        t2 = t.fork(); t2.cs.add(c.len - 2 - at)
        if not t2.cs.bad and t2.cs.feasible():
            q2 = Px(px.I, px.e, t2, px.rv)
            if c.kind == 'plist':
                v = None
                for f in px.e.st0.reg[c.buf].facts: pass
            q2.seg('the slot of the removed element', b, at * e, at * e + e, ('init', c.buf, (at - c.len + 1) * e))
def slide(px, c, front):
    i0 = c.sli
    for lt in (True, False):
        t = px.s.fork()
        t.cs.add(c.len - i0 - 1 if lt else i0 - c.len)
        if t.cs.bad or not t.cs.feasible(): continue
        q = Px(px.I, px.e, t, px.rv)
        if lt:
            q.eq('slider', q.h(c.hdr, spec.O_SLI), i0 + 1)
            got(q, c, i0 if front else c.len - i0 - 1)
        else:
            q.eq('slider', q.h(c.hdr, spec.O_SLI), ZERO)
            q.ok(q.isnull(), 'sliding past the end yields an element')
        q.header(c, c.len, c.cap); q.keep(c)

# ================================================================== strings
class _S: pass
def S(px, n='s'): return px.c(n)
def buf_of(px, c): return px.buf(c.hdr)
def own(px, rid):
    """does this path also look at the characters itself? what it concludes from them is then not known here"""
    g = px.s.ghost
    return ('looked', rid) in g or any(k[0] == 'cmp' and rid in (k[2], k[5]) for k in g)
def occ(px, rid, needle, off=ZERO, fn='strstr'):
    """where the text searched for stands in the entry contents of region rid: 'none', a Poly, or None when this path never asked"""
    v0 = px.e.st0.reg[rid].ver
    if own(px, rid): return None
    for k, x in px.s.ghost.items():
        if k[0] == 'oc' and k[1] == fn and k[2] == rid and k[3] == v0 and k[4] == off:
            if fn == 'strstr':
                if isinstance(k[5], tuple) and k[5][0] == needle and k[5][2] == ZERO: return x
            elif k[5] == needle: return x
    return None
def occs(px, rid, needle):
    """all answers about the entry contents: [(start of the search, answer)]"""
    v0 = px.e.st0.reg[rid].ver
    if own(px, rid): return []
    return [(k[4], x) for k, x in px.s.ghost.items() if k[0] == 'oc' and k[1] == 'strstr' and k[2] == rid and k[3] == v0 and isinstance(k[5], tuple) and k[5][0] == needle and k[5][2] == ZERO]
def str_len(px, c, ln): px.header(c, ln)
def text(px, what, buf, lo, n, rid, d): px.seg(what, buf, lo, lo + n, ('init', rid, d))
def nocap(px, c): px.ge('capacity of %s shrank' % c.name, px.cap(c.hdr) - c.cap)
def dropped(px, c, at, n):
    """characters [at, at+n) removed, everything else kept in order"""
    b = buf_of(px, c)
    px.header(c, c.len - n)
    px.seg('characters before the removed ones', b, ZERO, at, px.old(c))
    px.seg('characters behind the removed ones', b, at, c.len - n, px.old(c, -n))
def spliced(px, c, at, rid, n, cut=ZERO):
    """n characters of rid stand at 'at' in place of 'cut' old ones, everything else kept in order"""
    b = buf_of(px, c)
    px.header(c, c.len + n - cut)
    px.seg('characters before the new ones', b, ZERO, at, px.old(c))
    px.seg('the new characters', b, at, at + n, ('init', rid, at))
    px.seg('characters behind the new ones', b, at + n, c.len + n - cut, px.old(c, n - cut))

@post('vt_str_create')
def _(px):
    L = px.L('z'); h = created(px, 'str', L, L, C(1))
    if h is not None: text(px, 'text of the new string', px.buf(h), ZERO, L, px.rid('z'), ZERO)
@post('vt_str_create_len')
def _(px):
    n = px.n('n'); h = created(px, 'str', n, n, C(1))
@post('vt_str_create_capacity')
def _(px): created(px, 'str', ZERO, px.n('n'), C(1))
@post('vt_str_create_static')
def _(px):
    h = px.e.params[0]['rid']
    px.eq('length', px.len(h), px.L('z')); px.eq('element size', px.h(h, spec.O_ELS), C(1))
    b = px.buf(h); px.ok(b is not None and b.r == px.rid('z') and b.off.const() == 0, 'the view does not show the text it was made for')
    v = hdr_cell(px.s, h, spec.O_VIEW)
    px.ok(isinstance(v, Poly) and v.const() == 1 or v == TRUE, 'the view is not marked as a view')
@post('vt_str_dup')
def _(px):
    c = S(px); h = created(px, 'str', c.len, c.len, C(1))
    if h is not None: px.seg('text of the copy', px.buf(h), ZERO, c.len, px.old(c))
    px.unchanged(c)
@post('vt_str_take_ownership')
def _(px):
    r = px.res()
    if not isinstance(r, Ptr): return
    px.eq('length', px.len(r.r), px.L('z')); px.eq('capacity', px.cap(r.r), px.L('z'))
    b = px.buf(r.r); px.ok(b is not None and b.r == px.rid('z') and b.off.const() == 0, 'the string does not take the block it was given')
@post('vt_str_z')
def _(px): r = px.res(); c = S(px); px.ok(isinstance(r, Ptr) and r.r == c.buf and r.off.const() == 0, 'not the text of the string'); px.unchanged(c)
@post('vt_str_len')
def _(px): px.eq('result', px.rv, S(px).len); px.unchanged(S(px))
@post('vt_str_capacity')
def _(px): px.eq('result', px.rv, S(px).cap); px.unchanged(S(px))
@post('vt_str_has_space')
def _(px): px.eq('result', px.rv, S(px).cap - S(px).len); px.unchanged(S(px))
@post('vt_str_is_empty')
def _(px): truth(px, px.rv, -S(px).len); px.unchanged(S(px))
@post('vt_str_validate_len')
def _(px):
    c = S(px); px.eq('result', px.rv, c.Z); px.header(c, c.Z, c.cap); px.seg('text', buf_of(px, c), ZERO, c.Z, px.old(c))
@post('vt_str_shrink')
def _(px): c = S(px); px.header(c, c.len, c.len); px.keep(c)
@post('vt_str_clear')
def _(px): c = S(px); px.header(c, ZERO, c.cap)
@post('vt_str_reserve')
def _(px): c = S(px); px.header(c, c.len, c.cap + px.n('n')); px.keep(c)
@post('vt_str_resize')
def _(px):
    c = S(px); n = px.n('n')
    for p, ln in ((c.len - n, n), (n - c.len - 1, c.len)):
        t = px.s.fork(); t.cs.add(p)
        if t.cs.bad or not t.cs.feasible(): continue
        q = Px(px.I, px.e, t, px.rv); q.header(c, ln, n); q.keep(c, ln)
def set_to(px, n):
    c = S(px); px.header(c, n, c.cap); px.seg('the new text', buf_of(px, c), ZERO, n, ('init', px.rid('z'), ZERO))
@post('vt_str_set')
def _(px): set_to(px, px.L('z'))
@post('vt_str_set_n')
def _(px): set_to(px, px.n('n'))
@post('vt_str_set_at')
def _(px):
    c = S(px); at = px.n('at'); L = px.L('z'); b = buf_of(px, c)
    px.ge('accepts a position past the end', c.len - at - 1); px.ge('accepts a text that does not fit', c.len - at - L)
    px.seg('characters before the new ones', b, ZERO, at, px.old(c)); px.seg('the new characters', b, at, at + L, ('init', px.rid('z'), at))
@post('vt_str_set_c')
def _(px):
    c = S(px); at = px.n('at'); b = buf_of(px, c)
    px.ge('accepts a position past the end', c.len - at - 1)
    px.header(c, c.len, c.cap)
    px.seg('characters before', b, ZERO, at, px.old(c)); px.seg('characters behind', b, at + 1, c.len, px.old(c))
    px.value_at('the character set', b, at, C(1), px.n('c'))
@post('vt_str_append')
def _(px): c = S(px); spliced(px, c, c.len, px.rid('z'), px.L('z')); nocap(px, c)
@post('vt_str_append_n')
def _(px): c = S(px); spliced(px, c, c.len, px.rid('z'), px.n('n')); nocap(px, c)
@post('vt_str_insert')
def _(px): c = S(px); px.ge('accepts a position past the end', c.len - px.n('at') - 1); spliced(px, c, px.n('at'), px.rid('z'), px.L('z')); nocap(px, c)
@post('vt_str_insert_n')
def _(px): c = S(px); px.ge('accepts a position past the end', c.len - px.n('at')); spliced(px, c, px.n('at'), px.rid('z'), px.n('n')); nocap(px, c)
def appended(px):
    """formatted text behind or inside the old one"""
    c = S(px); f = px.I.resolve(px.s, px.p['fmt']['val'])
    L = px.I.terms.get(('fmtlen', (f.r, f.off), (px.I.opk('va'),))) if isinstance(f, Ptr) else None
    if L is None: return
    ok = px.rv if isinstance(px.rv, Poly) else None; good = C(spec.STATUS['VT_STATUS_OPERATION_SUCCESS'])
    q = case(px, -L - 1)
    if q:
        q.unchanged(c)
        if ok is not None: q.ok(not q.s.cs.entails_eq(ok - good), 'reports success although the text could not be formatted')
    q = case(px, L)
    if q and 'at' in px.p: q = case(q, c.len - px.n('at'))
    if q and ok is not None and q.eq('status', ok, good): spliced(q, c, px.n('at') if 'at' in px.p else c.len, -1000 - L.single(), L)
post('vt_str_appendf')(appended); post('vt_str_insertf')(appended)
@post('vt_str_remove')
def _(px):
    c = S(px); f = px.n('from'); n = px.n('n')
    px.ge('accepts a position past the end', c.len - f - 1)
    for p, m in ((c.len - f - n, n), (n - (c.len - f) - 1, c.len - f)):
        t = px.s.fork(); t.cs.add(p)
        if t.cs.bad or not t.cs.feasible(): continue
        dropped(Px(px.I, px.e, t, px.rv), c, f, m)
def case(px, p):
    t = px.s.fork(); t.cs.add(p)
    return None if t.cs.bad or not t.cs.feasible() else Px(px.I, px.e, t, px.rv)
def at_first(px, needle, f):
    c = S(px); k = occ(px, c.buf, px.rid(needle))
    if k == 'none': px.header(c, c.len); px.keep(c)
    elif k is not None: f(c, k)
    return k
@post('vt_str_remove_first')
def _(px):
    k = at_first(px, 'z', lambda c, k: dropped(px, c, k, px.L('z')))
    success(px, k)
def success(px, k):
    if k is None or not isinstance(px.rv, Poly): return
    ok = spec.STATUS['VT_STATUS_OPERATION_SUCCESS']
    if k == 'none': px.ok(not px.s.cs.entails_eq(px.rv - ok), 'reports success although the text does not occur')
    else: px.eq('status', px.rv, C(ok))
def last(px, rid, needle, L):
    """position of the last occurrence, when this path established it; 'none'; or None"""
    a = occs(px, rid, needle)
    if any(o == ZERO and x == 'none' for o, x in a): return 'none'
    for o, x in a:
        if x == 'none' and o != ZERO: return o - L
    return None
def only(px, rid, needle):
    a = occs(px, rid, needle); k = occ(px, rid, needle)
    return k
@post('vt_str_remove_last')
def _(px): at_last(px, 'z', lambda c, k: dropped(px, c, k, px.L('z')), lambda c: (px.h(c.hdr, spec.O_LEN), c.len))
def at_last(px, needle, f, changed):
    c = S(px); L = px.L(needle)
    q = case(px, L - 1)
    if q is None: return
    k = last(px, c.buf, px.rid(needle), L)
    if k == 'none': px.header(c, c.len); px.keep(c)
    elif k is not None: f(c, k)
    else: unsettled(px, c, needle)
def unsettled(px, c, needle):
    """the text was changed at a place found by a search, and no later search came back empty"""
    found = [(o, x) for o, x in occs(px, c.buf, px.rid(needle)) if isinstance(x, Poly)]
    b = buf_of(px, c)
    if not found or b is None: return
    r = px.s.reg[b.r]
    for f in r.facts:
        if f.src[0] == 'init' and f.src[1] == c.buf and f.src[2].const() == 0 and len(f.lo) == 1 and f.lo[0] == ZERO and len(f.hi) == 1:
            for o, x in found:
                if px.s.cs.entails_eq(f.hi[0] - o - x):
                    px.fail('the text is changed at an occurrence without establishing that it is the last one'); return
def once(px, c, needle):
    """entry contents hold exactly one occurrence: found once, and no second find on this path"""
    hits = [k for k, x in px.s.ghost.items() if k[0] == 'oc' and k[1] == 'strstr' and k[2] == c.buf and isinstance(x, Poly)]
    return len(hits) == 1
@post('vt_str_remove_all')
def _(px):
    c = S(px); k = occ(px, c.buf, px.rid('z'))
    if k == 'none': px.header(c, c.len); px.keep(c)
    elif k is not None and once(px, c, 'z'): dropped(px, c, k, px.L('z'))
    ends_empty(px, c, 'z')
def ends_empty(px, c, needle):
    """all occurrences: the last search on the path came back empty"""
    a = [(k, x) for k, x in px.s.ghost.items() if k[0] == 'oc' and k[1] == 'strstr' and k[2] == c.buf]
    if a and not own(px, c.buf) and all(isinstance(x, Poly) for k, x in a):
        ln = px.len(c.hdr); L = px.L(needle)
        add = px.L('rsub') if 'rsub' in px.p else ZERO
        # only where another occurrence would still fit behind every one found
        q = px.s.fork()
        for k, x in a: q.cs.add(ln - (k[4] + x + add) - L); q.cs.add(c.len - (k[4] + x + L) - L)
        q.cs.add(L - 1)
        if not q.cs.bad and q.cs.feasible(): px.fail('stops although the last search still found an occurrence')
@post('vt_str_replace_first')
def _(px):
    if case(px, px.L('sub') - 1) is None or case(px, px.L('rsub') - 1) is None: px.unchanged(S(px)); return
    at_first(px, 'sub', lambda c, k: spliced(px, c, k, px.rid('rsub'), px.L('rsub'), px.L('sub')))
@post('vt_str_replace_last')
def _(px):
    if case(px, px.L('sub') - 1) is None or case(px, px.L('rsub') - 1) is None: px.unchanged(S(px)); return
    at_last(px, 'sub', lambda c, k: spliced(px, c, k, px.rid('rsub'), px.L('rsub'), px.L('sub')), None)
@post('vt_str_replace')
def _(px):
    c = S(px)
    if case(px, px.L('sub') - 1) is None or case(px, px.L('rsub') - 1) is None: px.unchanged(c); return
    k = occ(px, c.buf, px.rid('sub'))
    if k == 'none': px.header(c, c.len); px.keep(c)
    elif k is not None and once(px, c, 'sub'):
        spliced(px, c, k, px.rid('rsub'), px.L('rsub'), px.L('sub'))
        # the search goes on right behind the replacement
        v0 = px.e.st0.reg[c.buf].ver
        for kk, x in px.s.ghost.items():
            if kk[0] == 'oc' and kk[1] == 'strstr' and kk[2] == c.buf and x == 'none': px.eq('start of the next search', kk[4], k + px.L('sub' if kk[3] == v0 else 'rsub'))
    ends_empty(px, c, 'sub')
@post('vt_str_insert_before')
def _(px): at_first(px, 'sub', lambda c, k: spliced(px, c, k, px.rid('z'), px.L('z')))
@post('vt_str_insert_after')
def _(px): at_first(px, 'sub', lambda c, k: spliced(px, c, k + px.L('sub'), px.rid('z'), px.L('z')))
@post('vt_str_strip', 'vt_str_strip_punct', 'vt_str_strip_c')
def _(px):
    """what remains is one contiguous stretch of the old text"""
    c = S(px); ln = px.len(c.hdr); b = buf_of(px, c)
    if b is None or not isinstance(ln, Poly): return
    px.ge('the string became longer', c.len - ln)
    q = case(px, ln - 1)
    if q is None: return
    r = q.s.reg[b.r]
    for f in r.facts:
        if f.src[0] == 'init' and f.src[1] == c.buf and all(q.s.cs.entails(-l) for l in f.lo) and not any(q.s.cs.entails(-h) for h in f.hi):
            q.seg('the remaining text', b, ZERO, ln, f.src)
            q.ge('stretches past the old end', c.len - ln + f.src[2])
            return
    px.I.alarm('post-unknown', 'text not tracked', px.s)
@post('vt_str_find', 'vt_str_index_find')
def _(px):
    c = S(px); k = occ(px, c.buf, px.rid('sub')); px.unchanged(c)
    found(px, c, k)
@post('vt_str_index_of')
def _(px):
    c = S(px); k = occ(px, c.buf, px.n('z'), fn='strchr'); px.unchanged(c)
    found(px, c, k)
def found(px, c, k):
    idx = px.fn != 'vt_str_find'
    if k is None:
        if idx and isinstance(px.rv, Poly): px.ge('index out of range', px.rv + 1); px.ge('index out of range', c.len - px.rv)
        return
    if k == 'none':
        if idx: px.eq('result', px.rv, C(-1))
        else: px.ok(px.isnull(), 'reports an occurrence where there is none')
    elif idx: px.eq('result', px.rv, k)
    else:
        r = px.res(); px.ok(isinstance(r, Ptr) and r.r == c.buf and px.s.cs.entails_eq(r.off - k), 'the result does not point to the occurrence')
@post('vt_str_can_find')
def _(px):
    c = S(px); px.unchanged(c)
    if not isinstance(px.rv, Poly): return
    a = occs(px, c.buf, px.rid('sub'))
    if not a: return
    n = sum(1 for o, x in a if isinstance(x, Poly))
    if px.s.imp: return
    if any(x == 'none' for o, x in a): px.eq('number of occurrences', px.rv, C(n))
    else:
        q = px.s.fork()
        for o, x in a: q.cs.add(c.len - o - x - px.L('sub') * 2)
        q.cs.add(px.L('sub') - 1)
        if not q.cs.bad and q.cs.feasible(): px.fail('stops counting although the last search still found an occurrence')
    for o, x in a:
        if o != ZERO and isinstance(o, Poly):
            # each search resumes right behind an occurrence
            px.ok(any(isinstance(y, Poly) and px.s.cs.entails_eq(o - p - y - px.L('sub')) for p, y in a), 'a search does not resume right behind the previous occurrence')
def compared(px, a, aoff, b, boff, n):
    """(truth of equality is decided by) the comparison of n bytes at a+aoff and b+boff on this path: Poly (0 = equal) or None"""
    for k, v in px.s.ghost.items():
        if k[0] != 'cmp' or k[1] == 'strcasecmp': continue
        for x in ((k[2], k[3], k[4], k[5], k[6], k[7]), (k[5], k[6], k[7], k[2], k[3], k[4])):
            if x[0] != a or x[3] != b: continue
            yield k, v, px.s.cs.entails_eq(x[2] - aoff) and px.s.cs.entails_eq(x[5] - boff), (k[8] is None or px.s.cs.entails_eq(k[8] - n))
def istrue(px):
    v = px.rv
    if isinstance(v, Cond):
        if v.t[0] == 'c': return [(bool(v.t[1]), px)]
        out = []
        for val in (True, False):
            for u in px.I.assume(px.s.fork(), v, val):
                if not u.cs.bad and u.cs.feasible(): out.append((val, Px(px.I, px.e, u, px.rv)))
        return out
    if isinstance(v, Poly):
        if v.const() is not None: return [(bool(v.const()), px)]
        out = []
        for u in px.I.with_eq(px.s.fork(), v): out.append((False, Px(px.I, px.e, u, px.rv)))
        for u in px.I.with_neq(px.s.fork(), v): out.append((True, Px(px.I, px.e, u, px.rv)))
        return out
    return []
def equality(px, a, aoff, b, boff, n, lens):
    """result is: lens (a Poly >= 0, or pair for equality) and the n bytes agree"""
    for val, q in istrue(px):
        cs = list(compared(q, a, aoff, b, boff, n))
        for k, v, place, size in cs:
            if k[8] is None and q.s.cs.entails_eq(v):        # whole texts agree: so do their lengths
                t = [q.I.try_strlen(q.s, Ptr(k[i], k[i + 2], q.s.reg[k[i]].gen)) for i in (2, 5)]
                if None not in t: q.s.cs.add(t[0] - t[1]); q.s.cs.add(t[1] - t[0])
        if val:
            for p in lens: q.ge('reports a match for texts of the wrong length', p)
            if q.s.cs.entails(-n): continue
            if not cs:
                if not any(f.src[0] == 'val' for f in q.s.reg[a].facts): q.fail('reports a match without comparing the texts')
                continue
            good = [v for k, v, place, size in cs if place and size]
            if good: q.ok(any(q.s.cs.entails_eq(v) for v in good), 'reports a match although the comparison says otherwise')
            else: q.fail('compares the wrong stretch of text')
        else:
            if any(not q.can(p) for p in lens) or len(lens) == 2 and q.s.cs.entails_neq(lens[0]): q.I.obl += 1; q.I.proved += 1; continue
            if not cs: 
                if not any(f.src[0] == 'val' for f in q.s.reg[a].facts): q.fail('reports a mismatch without comparing the texts')
                continue
            good = [v for k, v, place, size in cs if place and size]
            if good: q.ok(any(q.s.cs.entails_neq(v) or not q.can(-v) or not q.can(v) for v in good), 'reports a mismatch although the comparison says otherwise')
            elif not q.s.cs.entails(-n): q.fail('compares the wrong stretch of text')
@post('vt_str_equals')
def _(px):
    a, b = px.c('s1'), px.c('s2'); equality(px, a.buf, ZERO, b.buf, ZERO, a.len, (a.len - b.len, b.len - a.len)); px.unchanged(a); px.unchanged(b)
@post('vt_str_equals_z')
def _(px):
    A, B = px.L('z1'), px.L('z2'); equality(px, px.rid('z1'), ZERO, px.rid('z2'), ZERO, A, (A - B, B - A))
@post('vt_str_equals_n')
def _(px): equality(px, px.rid('z1'), ZERO, px.rid('z2'), ZERO, px.n('n'), ())
@post('vt_str_starts_with')
def _(px): c = S(px); L = px.L('sub'); equality(px, c.buf, ZERO, px.rid('sub'), ZERO, L, (c.len - L,)); px.unchanged(c)
@post('vt_str_ends_with')
def _(px): c = S(px); L = px.L('sub'); equality(px, c.buf, c.len - L, px.rid('sub'), ZERO, L, (c.len - L,)); px.unchanged(c)
@post('vt_str_slide_front')
def _(px): slide(px, S(px), True)
@post('vt_str_slide_back')
def _(px): slide(px, S(px), False)
@post('vt_str_slide_reset')
def _(px): px.eq('slider', px.h(S(px).hdr, spec.O_SLI), ZERO); px.unchanged(S(px))
@post('vt_str_to_uppercase', 'vt_str_to_lowercase')
def _(px): c = S(px); px.header(c, c.len, c.cap)
@post('vt_str_replace_c')
def _(px): c = S(px); px.header(c, c.len, c.cap)
@post('vt_str_remove_c')
def _(px): c = S(px); px.ge('the string became longer', c.len - px.len(c.hdr))
@post('vt_str_split_between')
def _(px):
    zr, L = px.rid('z'), px.L('z')
    kl, kr = occ(px, zr, px.rid('zl')), occ(px, zr, px.rid('zr'))
    if kl is None: return
    if kl == 'none' or kr == 'none': px.ok(px.isnull(), 'returns text although a delimiter is missing'); return
    if kr is None: return
    lo = kl + px.L('zl')
    q = case(px, kr - lo)
    if q is not None:
        r = q.res()
        if not isinstance(r, Ptr): q.ok(r is not NULL, 'returns nothing although both delimiters are there'); return
        q.eq('length of the result', q.len(r.r), kr - lo)
        q.seg('text of the result', q.buf(r.r), ZERO, kr - lo, ('init', zr, -lo))
    q = case(px, lo - kr - 1)
    if q is not None: q.ok(q.isnull(), 'returns text although the right delimiter does not lie behind the left one')
@post('vt_str_pop_get_first')
def _(px):
    c = S(px); L = px.L('sep'); k = occ(px, c.buf, px.rid('sep'))
    q = case(px, -L)
    if q is not None: q.unchanged(c)
    if k == 'none': px.unchanged(c); return
    if k is None: return
    q = case(px, -k)
    if q is not None: q.unchanged(c)
    q = case(px, k - 1)
    if q is not None:
        dropped(q, c, ZERO, k + L); taken(q, c, ZERO, k)
def taken(q, c, at, n):
    r = q.res()
    if not isinstance(r, Ptr): q.ok(r is not NULL, 'no text returned'); return
    q.eq('length of the popped text', q.len(r.r), n)
    q.seg('the popped text', q.buf(r.r), ZERO, n, ('init', c.buf, -at))
@post('vt_str_pop_get_last')
def _(px):
    c = S(px); L = px.L('sep')
    if case(px, L - 1) is None: px.unchanged(c); return
    k = last(px, c.buf, px.rid('sep'), L)
    if k == 'none': px.unchanged(c); return
    if k is None: unsettled(px, c, 'sep'); return
    q = case(px, k + L - c.len)
    if q is not None: q.unchanged(c)
    q = case(px, c.len - k - L - 1)
    if q is not None:
        dropped(q, c, k, c.len - k); taken(q, c, k + L, c.len - k - L)
@post('vt_str_join', 'vt_str_join_n', 'vt_path_build', 'vt_path_build_n')
def _(px):
    c = S(px)
    if c is None: return
    r = px.res(); px.ok(isinstance(r, Ptr) and r.r == c.hdr, 'does not return the string it was given')
    if 'path' in px.fn: return
    px.ge('the string became shorter', px.len(c.hdr) - c.len)
    px.seg('the old text', buf_of(px, c), ZERO, c.len, px.old(c))
@post('vt_str_split')
def _(px):
    c = S(px); px.unchanged(c)
    k = occ(px, c.buf, px.rid('sep'))
    if k == 'none': px.ok(px.isnull(), 'returns pieces although the separator does not occur')

# ================================================================== searching elements, callbacks
def looked(px, c, at):
    """was the element at index 'at' inspected on this path: list of comparison results (Poly), or True when it was loaded"""
    I, s = px.I, px.s; off = at * c.els; out = []
    for k, v in s.ghost.items():
        if k[0] == 'cmp' and c.buf in (k[2], k[5]):
            o = k[4] if k[2] == c.buf else k[7]
            if s.cs.entails_eq(o - off):
                if k[8] is not None and not s.cs.entails_eq(k[8] - c.els): px.fail('compares %r bytes of an element of %r bytes' % (k[8], c.els)); return True
                out.append(v)
    if out: return out
    if any(f.src[0] == 'val' and len(f.lo) == 1 and s.cs.entails_eq(f.lo[0] - off) for f in s.reg[c.buf].facts): return True
    return None
def searched(px, c):
    s = px.s; r = px.rv
    if s.imp or not isinstance(r, Poly) or r.const() is None: 
        if isinstance(r, Poly): px.ge('index out of range', r + 1); px.ge('index out of range', c.len - 1 - r)
        return
    n = r.const()
    if n < -1: px.fail('negative index %d' % n); return
    end = n if n >= 0 else 4
    for k in range(end):
        if n < 0 and not px.can(c.len - k - 1): break
        v = looked(px, c, C(k))
        if v is None:
            if n < 0: px.fail('reports the element as missing without looking at index %d' % k)
            else: px.fail('skips the element at index %d' % k)
            return
        if v is not True: px.ok(any(s.cs.entails_neq(x) or not px.can(-x) or not px.can(x) for x in v), 'passes over an equal element at index %d' % k)
        else: px.I.obl += 1; px.I.proved += 1
    if n >= 0:
        px.ge('index out of range', c.len - 1 - n)
        v = looked(px, c, C(n))
        if v is None: px.fail('returns index %d without looking at the element' % n)
        elif v is not True: px.ok(any(s.cs.entails_eq(x) for x in v), 'returns the index of an element that differs')
@post('vt_vec_can_find', *['vt_vec_can_find' + t for t in TY])
def _(px): c = px.c('v'); px.unchanged(c); searched(px, c)
def matches(px):
    """pointer comparisons made on this path: (different ones, equal ones); None when loops were summarised"""
    if px.s.imp or px.s.weak: return None
    g = [v for k, v in px.s.ghost.items() if k[0] == 'oc' and k[1][0] == 'peq']
    return g.count(False), g.count(True)
@post('vt_plist_can_find')
def _(px):
    c = px.c('p'); px.unchanged(c); searched(px, c); m = matches(px)
    if m is None or not isinstance(px.rv, Poly): return
    px.eq('index of the pointer', px.rv, C(m[0]) if m[1] else C(-1))
@post('vt_plist_remove_element')
def _(px):
    c = px.c('p'); ln = px.len(c.hdr)
    px.header(c, cap=c.cap)
    if isinstance(ln, Poly): px.ok(px.s.cs.entails_eq(ln - c.len) or px.s.cs.entails_eq(ln - c.len + 1), 'the length does not drop by at most one', ln)
    if isinstance(ln, Poly) and px.s.cs.entails_eq(ln - c.len): px.keep(c)
    m = matches(px)
    if m is None: return
    if m[1]: removed(px, c, C(m[0]))
    else:
        px.header(c, c.len)
        px.ok(not px.can(c.len - m[0] - 1), 'element %d is not looked at' % m[0])
@post('vt_vec_apply', 'vt_plist_apply', 'vt_str_apply')
def _(px):
    c = px.c('v') or px.c('p') or px.c('s'); s = px.s
    px.header(c, c.len, c.cap)
    if s.imp: return
    calls = sorted((k[1], v) for k, v in s.ghost.items() if k[0] == 'cb')
    n = len(calls)
    px.ok(not px.can(c.len - n - 1), 'elements behind index %d are not visited' % (n - 1)); px.ge('visits elements past the end', c.len - n)
    for k, a in calls:
        if len(a) != 2: continue
        px.eq('index passed on call %d' % k, a[1], C(k))
        x = px.I.resolve(s, a[0])
        if c.kind == 'plist':
            vs = [f.src[1] for f in s.reg[c.buf].facts if f.src[0] == 'val' and len(f.lo) == 1 and s.cs.entails_eq(f.lo[0] - 8 * k)]
            if vs: px.ok(any(px.same(v, a[0]) for v in vs), 'call %d is not handed element %d' % (k, k))
        else: px.ok(isinstance(x, Ptr) and x.r == c.buf and s.cs.entails_eq(x.off - c.els * k), 'call %d is not handed element %d' % (k, k))

# ================================================================== the common base and spans
@post('vt_array_len', 'vt_span_len')
def _(px): c = px.c('vbat') or px.c('span'); px.eq('result', px.rv, c.len); base_same(px, c)
def base_same(px, c):
    if px.fn.startswith('vt_array'): px.unchanged(c)
    else: px.seg('elements', Ptr(c.buf, ZERO, 0), ZERO, c.len * c.els, px.old(c))
@post('vt_array_capacity')
def _(px): c = px.c('vbat'); px.eq('result', px.rv, c.cap); px.unchanged(c)
@post('vt_array_elsize')
def _(px): c = px.c('vbat'); px.eq('result', px.rv, c.els); px.unchanged(c)
@post('vt_array_has_space')
def _(px): c = px.c('vbat'); px.eq('result', px.rv, c.cap - c.len); px.unchanged(c)
@post('vt_array_head')
def _(px): c = px.c('vbat'); r = px.res(); px.ok(isinstance(r, Ptr) and r.r == c.buf and r.off.const() == 0, 'not the start of the storage'); px.unchanged(c)
@post('vt_array_has_alloctr')
def _(px): c = px.c('vbat'); truth(px, px.rv, C(0 if c.al is not None else -1)); px.unchanged(c)
@post('vt_array_get', 'vt_span_get', *['vt_span_get' + t for t in TY])
def _(px):
    c = px.c('vbat') or px.c('span'); at = px.n('at')
    px.ge('accepts an index past the end', c.len - at - 1)
    got(px, c, at); base_same(px, c)
@post('vt_array_set', 'vt_span_set', *['vt_span_set' + t for t in TY])
def _(px):
    c = px.c('vbat') or px.c('span'); at = px.n('at'); b = Ptr(c.buf, ZERO, 0)
    px.ge('accepts an index past the end', c.len - at - 1)
    px.seg('elements before the one set', b, ZERO, at * c.els, px.old(c))
    px.seg('elements behind the one set', b, (at + 1) * c.els, c.len * c.els, px.old(c))
    px.elem('the stored element', b, at * c.els, c.els, 'val')
@post('vt_array_slide_front')
def _(px): slide(px, px.c('vbat'), True)
@post('vt_array_slide_back')
def _(px): slide(px, px.c('vbat'), False)
@post('vt_array_slide_reset')
def _(px): px.eq('slider', px.h(px.c('vbat').hdr, spec.O_SLI), ZERO); px.unchanged(px.c('vbat'))
@post('vt_array_new')
def _(px):
    r = px.res()
    if not isinstance(r, Ptr): px.ok(r is not NULL, 'nothing returned'); return
    a = hdr_cell(px.s, r.r, spec.O_AL); a = px.I.resolve(px.s, a) if a is not None else NULL
    px.ok(a == (NULL if px.e.al is None else Ptr(px.e.al.id, ZERO, 0)), 'the new base does not record its allocator')
@post('vt_span_from', 'vt_span_from_to')
def _(px):
    h = px.e.params[0]['rid']; els = px.n('elsize')
    a, n = (ZERO, px.n('length')) if 'length' in px.p else (px.n('from_idx'), px.n('to_idx') - px.n('from_idx'))
    px.eq('length of the span', px.len(h), n); px.eq('element size of the span', px.h(h, spec.O_ELS), els)
    b = hdr_cell(px.s, h, spec.O_PTR); b = px.I.resolve(px.s, b) if b is not None else None
    px.ok(isinstance(b, Ptr) and b.r == px.rid('ptr') and px.s.cs.entails_eq(b.off - a * els), 'the span does not start at the element asked for')
@post('vt_index_2d_to_1d')
def _(px): px.eq('index', px.rv, px.n('row') * px.n('ncols') + px.n('col'))
@post('vt_index_3d_to_1d')
def _(px): px.eq('index', px.rv, px.n('depth') * px.n('nrows') * px.n('ncols') + px.n('row') * px.n('ncols') + px.n('col'))
def outv(px, n):
    x = px.s.reg[px.rid(n)].cells.get(0)
    return x[1] if x else None
@post('vt_index_1d_to_2d')
def _(px):
    r, c = outv(px, 'row'), outv(px, 'col')
    if not isinstance(r, Poly) or not isinstance(c, Poly): return
    px.eq('row*ncols + col', r * px.n('ncols') + c, px.n('idx')); px.ge('column out of range', px.n('ncols') - 1 - c); px.ge('column out of range', c)
@post('vt_index_1d_to_3d')
def _(px):
    r, c, d = outv(px, 'row'), outv(px, 'col'), outv(px, 'depth'); nr, nc = px.n('nrows'), px.n('ncols')
    if not all(isinstance(x, Poly) for x in (r, c, d)): return
    px.eq('depth*nrows*ncols + row*ncols + col', d * nr * nc + r * nc + c, px.n('idx')); px.ge('column out of range', nc - 1 - c); px.ge('column out of range', c)
    px.ge('offset inside the plane out of range', nr * nc - 1 - (px.n('idx') - d * nr * nc))

# ---- memory primitives, any size
def region(px, n): return Ptr(px.rid(n), ZERO, 0) if px.rid(n) is not None else None
@post('vt_gswap')
def _(px):
    n = px.n('elsize')
    px.seg('a after the swap', region(px, 'a'), ZERO, n, ('init', px.rid('b'), ZERO)); px.seg('b after the swap', region(px, 'b'), ZERO, n, ('init', px.rid('a'), ZERO))
def copied(px):
    n = px.n('bytes')
    px.seg('the destination', region(px, 'dest'), ZERO, n, ('init', px.rid('src'), ZERO))
    if px.res() is not NULL: px.ok(px.same(px.res(), px.p['dest']['val']), 'does not return the destination')
post('vt_memcopy')(copied); post('vt_memmove')(copied)
