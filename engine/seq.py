"""Short sequences: vectors and pointer lists with a given few elements, every operation compared with the same operation on a plain list."""
import spec, ir, small
from poly import *
from absint import *
from small import ref, Out, P, hdr_cell, byte

RS = lambda: (0, 1)
# ------------------------------------------------------------------ entry states
def store(I, st, e, info, kind, els, n, slack):
    c = spec.mk_cont(I, st, kind, e.al, name=info['name'])
    b = st.w(c.buf); h = st.w(c.hdr)
    b.kind = 'text'; b.facts = (); b.cells = {}; b.size = C(els * (n + slack)); c.len = C(n); c.cap = C(n + slack); c.els = C(els)
    h.cells[spec.O_LEN] = (8, c.len); h.cells[spec.O_CAP] = (8, c.cap); h.cells[spec.O_ELS] = (8, c.els)
    info['kind'] = 'cont'; info['c'] = c
    return c
def mk_vec(I, st, e, info, x, ct, ty):
    if not isinstance(x, tuple): return None
    if x[0] == 'typed':
        es, n, slack = spec.TSIZE[x[1]], x[2], x[3]
        c = store(I, st, e, info, 'vec', es, n, slack); c.seq = []
        for i in range(n): v = fresh('v%d' % i, 0, 100); c.seq.append((v,)); st.w(c.buf).cells[es * i] = (es, small.Rat(v, C(1)) if x[1] in 'fdr' else v)
        return Ptr(c.hdr, ZERO, 0)
    if x[0] == 'counted':                # element k holds the number k
        _, es, n, slack = x
        c = store(I, st, e, info, 'vec', es, n, slack); c.seq = []
        for i in range(n):
            v = [(i >> 8 * k & 255) for k in range(es)]; c.seq.append(tuple(C(b - 256 if b > 127 else b) for b in v))
            for k, b in enumerate(c.seq[-1]): st.w(c.buf).cells[es * i + k] = (1, b)
        return Ptr(c.hdr, ZERO, 0)
    es, n, slack = x[:3]
    c = store(I, st, e, info, 'vec', es, n, slack); c.seq = []
    for i in range(n):
        el = []
        for k in range(es):
            b = fresh('ch.v%d.%d' % (i, k) if es > 1 else 'ch.v%d' % i, -128, 127); el.append(b); st.w(c.buf).cells[es * i + k] = (1, b)
        c.seq.append(tuple(el))
    if len(x) > 3: st.w(c.hdr).cells[spec.O_SLI] = (8, C(x[3]))
    return Ptr(c.hdr, ZERO, 0)
small.MAKERS['vt_vec_t'] = mk_vec
def obj(I, st, e, k):
    """the k-th of the objects pointed to"""
    e.objs = getattr(e, 'objs', {})
    if k not in e.objs: e.objs[k] = mkobj(I, st, k)
    return e.objs[k]
def mkobj(I, st, k): return I.new_region(st, 'text', C(4), 'borrowed', 'object %d' % k).id
def mk_plist(I, st, e, info, x, ct, ty):
    if not (isinstance(x, tuple) and x and x[0] == 'objs'): return None
    _, ks, slack = x[:3]
    c = store(I, st, e, info, 'plist', 8, len(ks), slack); c.seq = []
    for i, k in enumerate(ks): r = obj(I, st, e, k); st.w(c.buf).cells[8 * i] = (8, Ptr(r, ZERO, 0)); c.seq.append(r)
    if len(x) > 3: st.w(c.hdr).cells[spec.O_SLI] = (8, C(x[3]))
    return Ptr(c.hdr, ZERO, 0)
small.MAKERS['vt_plist_t'] = mk_plist
_ptr = small.MAKERS['ptr']
def mk_ptr(I, st, e, info, x, ct, ty):
    if isinstance(x, tuple) and x[0] == 'obj': info['kind'] = 'obj'; info['obj'] = obj(I, st, e, x[1]); return Ptr(info['obj'], ZERO, 0)
    return _ptr(I, st, e, info, x, ct, ty)
small.MAKERS['ptr'] = mk_ptr
_val = small.MAKERS.get('val')
def mk_val(I, st, e, info, x, ct, ty):
    if ty.k == 'fp' and x == 'typed': info['kind'] = 'fp'; info['v'] = fresh('value', 0, 100); info['el'] = (info['v'],); return small.Rat(info['v'], C(1))
    if ty.k == 'int' and x == 'typed': info['kind'] = 'int'; info['v'] = fresh('value', 0, 100); info['el'] = (info['v'],); return info['v']
    if ty.k != 'ptr' and _val: return _val(I, st, e, info, x, ct, ty)
    if ty.k == 'ptr' and isinstance(x, tuple):
        r = I.new_region(st, 'text', C(len(x)), 'borrowed', 'value'); info.update(kind='value', rid=r.id, el=tuple(C(b) for b in x))
        for k, b in enumerate(x): r.cells[k] = (1, C(b))
        return Ptr(r.id, ZERO, 0)
    if ty.k != 'ptr' or not isinstance(x, int): return None
    r = I.new_region(st, 'text', C(x), 'borrowed', 'value'); bs = [fresh('ch.val%d' % k, -128, 127) for k in range(x)]
    for k, b in enumerate(bs): r.cells[k] = (1, b)
    info['kind'] = 'value'; info['rid'] = r.id; info['el'] = tuple(bs)
    return Ptr(r.id, ZERO, 0)
small.MAKERS['val'] = mk_val

# ------------------------------------------------------------------ what a container holds
def held(x, hdr, kind, els, typed=False):
    """(length, capacity, elements), None where not known"""
    I, st = x.I, x.st
    L, cap = hdr_cell(st, hdr, spec.O_LEN), hdr_cell(st, hdr, spec.O_CAP); b = I.resolve(st, hdr_cell(st, hdr, spec.O_PTR))
    z = lambda v, o: ZERO if v is None and I.covers(st, st.reg[hdr], C(o), C(o + 8), ('const', 0)) else v
    L, cap = z(L, spec.O_LEN), z(cap, spec.O_CAP)
    n = L.const() if isinstance(L, Poly) else None
    if n is None or not isinstance(b, Ptr) or b.off.const() != 0 or not st.reg[b.r].live or n > 400: return n, cap, None
    out = []
    for i in range(n):
        if kind == 'plist':
            v = I.resolve(st, I.load_raw(st, Ptr(b.r, C(8 * i), b.gen), ir.PTR, 8))
            out.append(v.r if isinstance(v, Ptr) and v.off.const() == 0 else 'NULL' if v is NULL else None)
        else:
            w = st.reg[b.r].cells.get(els * i)
            if w is not None and w[0] == els and els > 1: w = I.real(w[1]); out.append((w.p,) if w is not None and w.q.const() == 1 else None); continue
            if typed: out.append(None); continue
            el = [byte(I, st, b.r, els * i + k) for k in range(els)]
            out.append(None if any(q is None for q in el) else tuple(el))
    return n, cap, out
def name(el, x): return x.st.reg[el].name if isinstance(el, int) and el in x.st.reg else repr(el)
def same(x, c, kind, want, cap, hdr=None):
    """None or what differs; want may contain None for elements that are not specified"""
    els = c.els.const(); n, gc, got = held(x, hdr if hdr is not None else c.hdr, kind, els, isinstance(x.case.get('v'), tuple) and x.case['v'][0] == 'typed')
    if n is None: return None
    if n != len(want): return 'the length is %d, expected %d' % (n, len(want))
    if cap is not None and isinstance(gc, Poly) and gc.const() is not None and gc.const() != cap: return 'the capacity is %d, expected %d' % (gc.const(), cap)
    if got is None: return None
    for i, (g, w) in enumerate(zip(got, want)):
        if g is None or w is None: continue
        if kind == 'plist':
            if g != w: return 'element %d is %s, expected %s' % (i, name(g, x), name(w, x))
        elif any(not x.st.cs.entails_eq(a - b) and x.I.with_neq(x.st.fork(), a - b) for a, b in zip(g, w)): return 'element %d is %r, expected %r' % (i, g, w)
    return None
def grown(c, extra=1): return c.cap.const() if c.len.const() < c.cap.const() else None   # room left: capacity as it was; otherwise growth is checked elsewhere

def op(names, cs, f):
    """f(d, p, x, c, seq) -> (new sequence, capacity or None, result or None)"""
    for nm in names.split():
        kind = 'vec' if nm.startswith('vt_vec') else 'plist'; pn = 'v' if kind == 'vec' else 'p'
        def g(d, p, x, kind=kind, pn=pn):
            c = p[pn]['c']; r = f(d, p, x, c, list(c.seq))
            if r is None: return None
            seq, cap, ret = r
            def check(x, rv):
                m = same(x, c, kind, seq, cap)
                if m: return m
                v = x.I.resolve(x.st, rv) if rv is not None and not isinstance(rv, Cond) else rv
                if ret is None: return None
                if ret[0] == 'slot':                  # address of an element inside the storage
                    b = x.I.resolve(x.st, hdr_cell(x.st, c.hdr, spec.O_PTR))
                    if v is NULL or isinstance(v, Ptr) and isinstance(b, Ptr) and (v.r != b.r or not x.st.cs.entails_eq(v.off - ret[1] * c.els.const())): return 'does not return the address of element %d' % ret[1]
                elif ret[0] == 'none':
                    if isinstance(v, Ptr): return 'returns something although there is nothing'
                elif ret[0] == 'obj':
                    if v is NULL or isinstance(v, Ptr) and (v.r != ret[1] or v.off.const() != 0): return 'returns %s, expected %s' % (x.st.reg[v.r].name if isinstance(v, Ptr) else 'nothing', x.st.reg[ret[1]].name)
                elif ret[0] == 'slider':
                    s = hdr_cell(x.st, c.hdr, spec.O_SLI)
                    if isinstance(s, Poly) and s.const() is not None and s.const() != ret[1]: return 'the slider is at %d, expected %d' % (s.const(), ret[1])
                    if len(ret) > 2:
                        q = ret[2]
                        if q is None:
                            if isinstance(v, Ptr): return 'slides past the end'
                        elif kind == 'plist':
                            if v is NULL or isinstance(v, Ptr) and v.r != seq[q]: return 'does not slide to element %d' % q
                        else:
                            b = x.I.resolve(x.st, hdr_cell(x.st, c.hdr, spec.O_PTR))
                            if v is NULL or isinstance(v, Ptr) and isinstance(b, Ptr) and (v.r != b.r or not x.st.cs.entails_eq(v.off - q * c.els.const())): return 'does not slide to element %d' % q
                return None
            return Out(ret if ret and ret[0] in ('int', 'bool', 'real') else None, check=check)
        ref(nm, *cs(kind, pn))(g)
VEC = [(1, 0, 1), (1, 1, 0), (1, 1, 1), (2, 2, 0), (3, 2, 1), (1, 3, 0), (2, 3, 1)]
LISTS = [('objs', (), 1), ('objs', (0,), 0), ('objs', (0,), 1), ('objs', (0, 1), 0), ('objs', (0, 0), 1), ('objs', (0, 1, 2), 0), ('objs', (1, 0, 1), 1), ('objs', (0, 1, 1, 2), 1)]
def conts(kind): return VEC if kind == 'vec' else LISTS
def size(x): return x[1] if isinstance(x[0], int) else len(x[1])
def given(kind, x, **kw): return dict(val=x[0], **kw) if kind == 'vec' else dict(ptr=('obj', 9), **kw)
def el(p): return p['val']['el'] if 'val' in p else p['ptr']['obj']
def plain(kind, pn): return [{pn: x} for x in conts(kind)]
def adding(kind, pn): return [dict(given(kind, x), **{pn: x}) for x in conts(kind)]
def placing(kind, pn): return [dict(given(kind, x, at=k), **{pn: x}) for x in conts(kind) for k in range(size(x))]
def at(kind, pn): return [{pn: x, 'at': k} for x in conts(kind) for k in range(size(x))]
def removing(kind, pn): return [{pn: x, 'at': k, 'rs': r} for x in conts(kind) for k in range(size(x)) for r in (0, 1)]
def K(x): return x.case['at']
def CAP(c): return c.cap.const()
def drop(s, k, rs):
    if rs == spec.STABLE.const(): return s[:k] + s[k + 1:]
    s[k] = s[-1]; return s[:-1]

op('vt_vec_push_back vt_plist_push_back', adding, lambda d, p, x, c, s: (s + [el(p)], grown(c), None))
op('vt_vec_push_front vt_plist_push_front', adding, lambda d, p, x, c, s: ([el(p)] + s, grown(c), None))
op('vt_vec_insert vt_plist_insert', placing, lambda d, p, x, c, s: (s[:K(x)] + [el(p)] + s[K(x):], grown(c), None))
op('vt_vec_set vt_plist_set', placing, lambda d, p, x, c, s: (s[:K(x)] + [el(p)] + s[K(x) + 1:], CAP(c), None))
op('vt_vec_get', at, lambda d, p, x, c, s: (s, CAP(c), ('slot', K(x))))
op('vt_plist_get', at, lambda d, p, x, c, s: (s, CAP(c), ('obj', s[K(x)])))
op('vt_vec_remove vt_plist_remove', removing, lambda d, p, x, c, s: (drop(s, K(x), x.case['rs']), CAP(c), None))
op('vt_vec_pop vt_plist_pop', plain, lambda d, p, x, c, s: (s[:-1], CAP(c), None))
op('vt_vec_pop_get', plain, lambda d, p, x, c, s: (s[:-1], CAP(c), ('slot', len(s) - 1) if s else ('none',)))
op('vt_plist_pop_get', plain, lambda d, p, x, c, s: (s[:-1], CAP(c), ('obj', s[-1]) if s else ('none',)))
op('vt_vec_clear vt_plist_clear', plain, lambda d, p, x, c, s: ([], CAP(c), None))
op('vt_vec_shrink vt_plist_shrink', lambda k, pn: [{pn: x} for x in conts(k) if size(x)], lambda d, p, x, c, s: (s, len(s), None))
op('vt_vec_reserve vt_plist_reserve', lambda k, pn: [{pn: x, 'n': n} for x in conts(k) for n in (1, 3)], lambda d, p, x, c, s: (s, CAP(c) + x.case['n'], None))
op('vt_vec_resize vt_plist_resize', lambda k, pn: [{pn: x, 'n': n} for x in conts(k) for n in (1, 2, 3, 5)], lambda d, p, x, c, s: ((s + [None] * x.case['n'])[:x.case['n']], x.case['n'], None))
op('vt_vec_is_empty vt_plist_is_empty', plain, lambda d, p, x, c, s: (s, CAP(c), ('bool', not s)))
op('vt_vec_len vt_plist_len', plain, lambda d, p, x, c, s: (s, CAP(c), ('int', len(s))))
op('vt_vec_capacity vt_plist_capacity', plain, lambda d, p, x, c, s: (s, CAP(c), ('int', CAP(c))))
op('vt_vec_has_space vt_plist_has_space', plain, lambda d, p, x, c, s: (s, CAP(c), ('int', CAP(c) - len(s))))
op('vt_plist_can_find', lambda k, pn: [{pn: x, 'ptr': ('obj', q)} for x in LISTS for q in (0, 1, 2, 9)], lambda d, p, x, c, s: (s, CAP(c), ('int', s.index(el(p)) if el(p) in s else -1)))
op('vt_plist_remove_element', lambda k, pn: [{pn: x, 'ptr': ('obj', q), 'rs': r} for x in LISTS for q in (0, 1, 2, 9) for r in (0, 1)],
   lambda d, p, x, c, s: (drop(s, s.index(el(p)), x.case['rs']) if el(p) in s else s, CAP(c), None))
op('vt_vec_can_find', adding, lambda d, p, x, c, s: (s, CAP(c), ('int', next((k for k, q in enumerate(s) if d.same(q, el(p))), -1))))
def sliders(k, pn): return [{pn: x + (i,)} for x in conts(k) if size(x) for i in range(size(x) + 1)]
def slide(back):
    def f(d, p, x, c, s):
        i = x.case['v' if 'v' in x.case else 'p'][3]
        return (s, CAP(c), ('slider', i + 1, len(s) - 1 - i if back else i) if i < len(s) else ('slider', 0, None))
    return f
op('vt_vec_slide_front vt_plist_slide_front', sliders, slide(False))
op('vt_vec_slide_back vt_plist_slide_back', sliders, slide(True))
op('vt_vec_slide_reset vt_plist_slide_reset', sliders, lambda d, p, x, c, s: (s, CAP(c), ('slider', 0)))
def copied(names):
    for nm in names.split():
        kind = 'vec' if 'vec' in nm else 'plist'; pn = 'v' if kind == 'vec' else 'p'
        def g(d, p, x, kind=kind, pn=pn):
            c = p[pn]['c']
            def check(x, rv):
                v = x.I.resolve(x.st, rv)
                if v is NULL: return 'returns no copy'
                m = same(x, c, kind, c.seq, CAP(c))
                if m: return 'the original changes: ' + m
                if not isinstance(v, Ptr): return None
                if v.r in x.e.entry_regs: return 'returns an object that already existed'
                b = x.I.resolve(x.st, hdr_cell(x.st, v.r, spec.O_PTR))
                if isinstance(b, Ptr) and b.r in x.e.entry_regs: return 'the copy shares its storage'
                es = hdr_cell(x.st, v.r, spec.O_ELS)
                if isinstance(es, Poly) and es.const() is not None and es.const() != c.els.const(): return 'the copy has elements of %d bytes' % es.const()
                return same(x, c, kind, c.seq, None, hdr=v.r)
            return Out(check=check)
        ref(nm, *[{pn: x} for x in conts(kind) if size(x)])(g)
copied('vt_vec_dup vt_plist_dup')
for t in (t for t in spec.TSIZE if t != 'p'):
    TS = [('typed', t, n, sl) for n, sl in ((0, 1), (1, 0), (2, 1), (3, 0))]
    num = lambda v, t=t: ('real', small.Rat(v, C(1))) if t in 'fdr' else ('int', v)
    def adds(k, pn, TS=TS): return [dict(v=x, val='typed') for x in TS]
    def puts(k, pn, TS=TS): return [dict(v=x, val='typed', at=i) for x in TS for i in range(x[2])]
    def ats(k, pn, TS=TS): return [dict(v=x, at=i) for x in TS for i in range(x[2])]
    op('vt_vec_push_back' + t, adds, lambda d, p, x, c, s: (s + [el(p)], grown(c), None))
    op('vt_vec_push_front' + t, adds, lambda d, p, x, c, s: ([el(p)] + s, grown(c), None))
    op('vt_vec_insert' + t, puts, lambda d, p, x, c, s: (s[:K(x)] + [el(p)] + s[K(x):], grown(c), None))
    op('vt_vec_set' + t, puts, lambda d, p, x, c, s: (s[:K(x)] + [el(p)] + s[K(x) + 1:], CAP(c), None))
    op('vt_vec_get' + t, ats, lambda d, p, x, c, s, num=num: (s, CAP(c), num(s[K(x)][0])))
    op('vt_vec_pop_get' + t, lambda k, pn, TS=TS: [dict(v=x) for x in TS], lambda d, p, x, c, s, num=num: (s[:-1], CAP(c), num(s[-1][0] if s else ZERO)))
    op('vt_vec_can_find' + t, adds, lambda d, p, x, c, s: (s, CAP(c), ('int', next((k for k, q in enumerate(s) if d.same(q, el(p))), -1))))
def visited(names):
    for nm in names.split():
        kind = nm.split('_')[1]; pn = {'vec': 'v', 'plist': 'p', 'str': 's'}[kind]
        def g(d, p, x, kind=kind, pn=pn):
            c = p[pn]['c']; n = c.len.const()
            def check(x, rv):
                calls = sorted((k[1], v) for k, v in x.st.ghost.items() if k[0] == 'cb')
                if len(calls) != n: return '%d elements are visited, expected %d' % (len(calls), n)
                for k, a in calls:
                    if len(a) != 2: return None
                    q = x.I.resolve(x.st, a[0])
                    if isinstance(a[1], Poly) and not x.st.cs.entails_eq(a[1] - k): return 'index %r is passed on call %d' % (a[1], k)
                    if q is NULL or isinstance(q, Ptr) and (q.r != c.seq[k] if kind == 'plist' else q.r != c.buf or not x.st.cs.entails_eq(q.off - c.els.const() * k)): return 'call %d is not handed element %d' % (k, k)
            return Out(check=check, **({'s': None} if kind == 'str' else {}))
        ref(nm, *([{pn: x} for x in conts(kind)] if kind != 'str' else [dict(s=n) for n in (0, 1, 3)]))(g)
visited('vt_vec_apply vt_plist_apply vt_str_apply')
NAMES = [n for n in small.REF if n.startswith(('vt_vec', 'vt_plist'))]
