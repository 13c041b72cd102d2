"""The tracking allocator's books, the allocation wrappers and the memory primitives: states before and after one call, with a given number of tracked blocks of unknown sizes."""
import spec, models, ir, small
from poly import *
from absint import *
from small import ref, Out, S, P, grid, fill, mk_text, hdr_cell

# ------------------------------------------------------------------ entry states
def block(I, st, name):
    n = fresh(name + '.bytes', 1, 10 ** 6)
    r = I.new_region(st, 'buf', n, 'libc', name); r.facts = (Fact((ZERO,), (n,), ('init', r.id, ZERO)),)
    return r.id, n
def mk_alloctr(I, st, e, info, x, ct, ty):
    n, slack = x
    e.blocks = [block(I, st, 'block%d' % i) for i in range(n)]
    b = I.new_region(st, 'text', C(16 * (n + slack)), 'libc', 'object list')
    for i, (rid, sz) in enumerate(e.blocks): b.cells[16 * i] = (8, Ptr(rid, ZERO, 0)); b.cells[16 * i + 8] = (8, sz)
    r = I.new_region(st, 'hdr', C(spec.ALH), 'libc', 'mallocator')
    r.cells = {spec.A_LIST: (8, Ptr(b.id, ZERO, 0)), spec.A_LLEN: (8, C(n)), spec.A_LCAP: (8, C(n + slack)), spec.A_ALLOC: (8, FnV('vt_mallocator_alloc')), spec.A_REALLOC: (8, FnV('vt_mallocator_realloc')), spec.A_FREE: (8, FnV('vt_mallocator_free'))}
    e.stats = {}
    for nm, o in spec.A_ST.items(): v = fresh('stats.' + nm, 10 ** 7, 10 ** 9); r.cells[o] = (8, v); e.stats[nm] = v
    e.list0 = b.id; info['kind'] = 'mallocator'; info['rid'] = r.id
    return Ptr(r.id, ZERO, 0)
small.MAKERS['alloctr'] = mk_alloctr
def mk_ptr(I, st, e, info, x, ct, ty):
    if x is None: info['kind'] = 'null'; return NULL
    if isinstance(x, tuple) and x[0] == 'text': return mk_room(I, st, e, info, x[1], ct, ty)
    if x < 0: e.stray = block(I, st, 'stray block'); rid = e.stray[0]
    else: rid = e.blocks[x][0]
    info['kind'] = 'block'; info['rid'] = rid; return Ptr(rid, ZERO, 0)
small.MAKERS['ptr'] = mk_ptr
def mk_room(I, st, e, info, x, ct, ty):
    """n bytes of storage; (n, k): n bytes and a pointer to byte k; ('in', other, k): byte k of another argument's storage"""
    if isinstance(x, tuple) and x[0] == 'in':
        o = next(q for q in e.params if q['name'] == x[1]); info.update(kind='cstr', rid=o['rid'], all=o['all'], at=x[2], L=o['L'], bytes=o['all']); return Ptr(o['rid'], C(x[2]), 0)
    n, k = x if isinstance(x, tuple) else (x, 0)
    r, bs = mk_text(I, st, info['name'], n, ct.startswith('const const'))
    info.update(kind='cstr', rid=r.id, L=C(len(bs)), bytes=bs, all=bs, at=k); return Ptr(r.id, C(k), 0)
for nm in ('dest', 'src', 'lhs', 'rhs'): small.MAKERS[nm] = mk_room

# ------------------------------------------------------------------ books
def books(I, st, rid):
    """({counter: value}, [(block, bytes)]) of an allocator; None where not known"""
    stats = {nm: hdr_cell(st, rid, o) for nm, o in spec.A_ST.items()}
    for nm, o in spec.A_ST.items():
        if stats[nm] is None and I.covers(st, st.reg[rid], C(o), C(o + 8), ('const', 0)): stats[nm] = ZERO
    n = hdr_cell(st, rid, spec.A_LLEN); b = I.resolve(st, hdr_cell(st, rid, spec.A_LIST))
    if n is None and I.covers(st, st.reg[rid], C(spec.A_LLEN), C(spec.A_LLEN + 8), ('const', 0)): n = ZERO
    if not isinstance(n, Poly) or n.const() is None or not isinstance(b, Ptr): return stats, None
    out = []
    for i in range(n.const()):
        q = I.resolve(st, I.load_raw(st, Ptr(b.r, C(16 * i), b.gen), ir.PTR, 8)); z = I.load_raw(st, Ptr(b.r, C(16 * i + 8), b.gen), ir.Ty('int', 64), 8)
        out.append((q, z))
    return stats, out
def balance(x, p, want, add):
    """compare the books: want is the list of (region, bytes) tracked, add the change of each counter"""
    I, e, st = x.I, x.e, x.st; rid = p['alloctr']['rid']
    if not st.reg[rid].live: return 'the allocator is gone'
    stats, lst = books(I, st, rid)
    for nm, v0 in e.stats.items():
        v = stats[nm]
        if not isinstance(v, Poly): continue
        w = v0 + add.get(nm, ZERO)
        if not st.cs.entails_eq(v - w): return 'the counter %s is %r, expected %r' % (nm, v, w)
    cap = hdr_cell(st, rid, spec.A_LCAP); b = I.resolve(st, hdr_cell(st, rid, spec.A_LIST))
    if isinstance(b, Ptr) and isinstance(cap, Poly):
        if not st.reg[b.r].live: return 'the object list is released storage'
        if not st.cs.entails(st.reg[b.r].size - cap * 16): return 'the object list has room for less than its capacity %r' % cap
        if lst is not None and not st.cs.entails(cap - len(lst)): return 'the object list has length %d and capacity %r' % (len(lst), cap)
    if lst is None: return None
    left = list(want)
    for q, z in lst:
        if not isinstance(q, Ptr) or not isinstance(z, Poly): return None
        k = next((k for k, (r, n) in enumerate(left) if r == q.r), None)
        if k is None: return 'the object list names %s, which is not (or already once) tracked' % (st.reg[q.r].name if q.r in st.reg else q)
        if q.gen != st.reg[q.r].gen or q.off.const() != 0: return 'the object list names a stale address of %s' % st.reg[q.r].name
        if not st.cs.entails_eq(z - left[k][1]): return '%s is listed with %r bytes, expected %r' % (st.reg[q.r].name, z, left[k][1])
        left.pop(k)
    if left: return '%s is no longer tracked' % st.reg[left[0][0]].name
    for r, n in want:
        if not st.reg[r].live: return '%s is tracked but released' % st.reg[r].name
        if not st.cs.entails_eq(st.reg[r].size - n): return '%s has %r bytes, expected %r' % (st.reg[r].name, st.reg[r].size, n)
    return None
SIZES = [(0, 1), (0, 2), (1, 0), (1, 1), (2, 0), (2, 1), (3, 0), (3, 1)]; BY = (1, 10 ** 6)
@ref('vt_mallocator_alloc', *[dict(alloctr=s, bytes=BY) for s in SIZES])
def _(d, p, x):
    n = p['bytes']['v']
    def check(x, rv):
        v = x.I.resolve(x.st, rv)
        if v is NULL: return 'returns no block'
        if not isinstance(v, Ptr): return None
        if v.r in x.e.entry_regs: return 'returns a block that already existed'
        if not x.I.covers(x.st, x.st.reg[v.r], ZERO, n, ('const', 0)): return 'the new block is not zeroed'
        return balance(x, p, x.e.blocks + [(v.r, n)], dict(count_allocs=C(1), count_bytes_allocated=n))
    return Out(check=check)
@ref('vt_mallocator_realloc', *[dict(alloctr=s, ptr=k, bytes=BY) for s in SIZES for k in range(s[0])])
def _(d, p, x):
    n = p['bytes']['v']; k = x.case['ptr']; r, o = x.e.blocks[k]
    less = d.ask(d.I.cmp(d.st, 'slt', n, o))
    def check(x, rv):
        v = x.I.resolve(x.st, rv)
        if v is NULL: return 'returns no block'
        if not isinstance(v, Ptr): return None
        if not x.I.covers(x.st, x.st.reg[v.r], ZERO, n if less else o, ('init', r, ZERO)): return 'the contents are not kept'
        return balance(x, p, [b for b in x.e.blocks if b[0] != r] + [(v.r, n)], dict(count_reallocs=C(1), count_bytes_allocated=n - o, count_bytes_freed=o - n if less else ZERO))
    return Out(check=check)
@ref('vt_mallocator_free', *[dict(alloctr=s, ptr=k) for s in SIZES for k in range(-1, s[0])])
def _(d, p, x):
    k = x.case['ptr']
    def check(x, rv):
        r, o = x.e.stray if k < 0 else x.e.blocks[k]
        if x.st.reg[r].live: return 'the block is not released'
        return balance(x, p, [b for b in x.e.blocks if b[0] != r], {} if k < 0 else dict(count_frees=C(1), count_bytes_allocated=-o, count_bytes_freed=o))
    return Out(check=check)
@ref('vt_mallocator_destroy', *[dict(alloctr=s) for s in SIZES])
def _(d, p, x):
    def check(x, rv):
        for r in [b[0] for b in x.e.blocks] + [x.e.list0, p['alloctr']['rid']]:
            if x.st.reg[r].live: return '%s is not released' % x.st.reg[r].name
    return Out(check=check)
@ref('vt_mallocator_create', dict(_=0))
def _(d, p, x):
    def check(x, rv):
        I, st = x.I, x.st; v = I.resolve(st, rv)
        if v is NULL: return 'returns no allocator'
        if not isinstance(v, Ptr): return None
        stats, lst = books(I, st, v.r)
        if any(isinstance(s, Poly) and s.const() != 0 for s in stats.values()): return 'a counter of the new allocator is not zero'
        if any(s is None for s in stats.values()): return 'a counter of the new allocator is not set'
        if lst != []: return 'the new allocator tracks blocks'
        cap = hdr_cell(st, v.r, spec.A_LCAP); b = I.resolve(st, hdr_cell(st, v.r, spec.A_LIST))
        if isinstance(cap, Poly) and isinstance(b, Ptr) and not (st.cs.entails(cap - 1) and st.cs.entails(st.reg[b.r].size - cap * 16)): return 'the object list has no room or less than its capacity'
        for o, nm in ((spec.A_ALLOC, 'vt_mallocator_alloc'), (spec.A_REALLOC, 'vt_mallocator_realloc'), (spec.A_FREE, 'vt_mallocator_free')):
            f = hdr_cell(st, v.r, o)
            if f is None or I.resolve(st, f) is NULL: return 'an operation of the allocator is missing'
            if isinstance(f, FnV) and f.name != nm and f.name in ('vt_mallocator_alloc', 'vt_mallocator_realloc', 'vt_mallocator_free'): return 'the operation that should be %s is %s' % (nm, f.name)
    return Out(check=check)

# ------------------------------------------------------------------ wrappers
def wrapper(zero, keep):
    def f(d, p, x):
        n = p['bytes']['v']; old = x.e.stray if keep and x.case['ptr'] is not None else None
        less = old is not None and d.ask(d.I.cmp(d.st, 'slt', n, old[1]))
        def check(x, rv):
            v = x.I.resolve(x.st, rv)
            if v is NULL: return 'returns no block when the system has none left instead of stopping'
            if not isinstance(v, Ptr): return None
            r = x.st.reg[v.r]
            if not r.live or not x.st.cs.entails_eq(r.size - n): return 'the block has %r bytes, expected %r' % (r.size, n)
            if zero and not x.I.covers(x.st, r, ZERO, n, ('const', 0)): return 'the new block is not zeroed'
            if old and not x.I.covers(x.st, r, ZERO, n if less else old[1], ('init', old[0], ZERO)): return 'the contents are not kept'
        return Out(check=check)
    return f
ref('vt_malloc', dict(bytes=BY), {'bytes': BY, '@oom': 1})(wrapper(False, False))
ref('vt_calloc', dict(bytes=BY), {'bytes': BY, '@oom': 1})(wrapper(True, False))
ref('vt_realloc', dict(ptr=-1, bytes=BY), {'ptr': -1, 'bytes': BY, '@oom': 1}, dict(ptr=None, bytes=BY))(wrapper(False, True))
@ref('vt_free', dict(ptr=None), dict(ptr=-1))
def _(d, p, x):
    def check(x, rv):
        if x.case['ptr'] is not None and x.st.reg[x.e.stray[0]].live: return 'the block is not released'
    return Out(check=check)

# ------------------------------------------------------------------ memory primitives
def put(p, n, new):
    a = list(p['all']); a[p['at']:p['at'] + n] = new; return a
def moved(d, p, x):
    n = p['bytes']['v'].const(); D, Sx = p['dest'], p['src']
    new = put(D, n, Sx['all'][Sx['at']:Sx['at'] + n])
    return Out(('same', 'dest'), dest=new, **({'src': new} if Sx['rid'] == D['rid'] else {}))
SEP = [dict(dest=5, src=4, bytes=n) for n in range(5)] + [dict(dest=(5, 1), src=(4, 1), bytes=2)]
OVER = [dict(dest=(5, a), src=('in', 'dest', b), bytes=n) for a, b, n in ((0, 1, 4), (1, 0, 4), (2, 0, 3), (0, 2, 3), (1, 1, 3), (0, 4, 1))]
ref('vt_memmove', *SEP, *OVER)(moved)
ref('vt_memcopy', *SEP)(moved)
@ref('vt_memset', *[dict(ptr=('text', (5, k)), value=(1, 127), bytes=n) for k, n in ((0, 0), (0, 1), (0, 3), (0, 5), (1, 3))])
def _(d, p, x): return Out(('same', 'ptr'), ptr=put(p['ptr'], p['bytes']['v'].const(), [p['value']['v']] * p['bytes']['v'].const()))
@ref('vt_memcmp', *[dict(lhs=(4, k), rhs=(4, j), bytes=n) for k, j, n in ((0, 0, 0), (0, 0, 1), (0, 0, 3), (1, 0, 3), (0, 0, 4))])
def _(d, p, x):
    n = x.case['bytes']; a, b = (p[k]['all'][p[k]['at']:p[k]['at'] + n] for k in ('lhs', 'rhs'))
    return Out(('bool', n > 0 and d.same(a, b)))
def two(I, st, e, info, x, ct, ty):
    if not isinstance(x, tuple) or x[0] not in ('room', 'cell'): return None
    if x[0] == 'room': return mk_room(I, st, e, info, x[1], ct, ty)
    t, _ = mk_text(I, st, info['name'] + '.target', 1); r = I.new_region(st, 'text', C(8), 'borrowed', info['name']); r.cells[0] = (8, Ptr(t.id, ZERO, 0))
    info.update(kind='out', rid=r.id, target=t.id); return Ptr(r.id, ZERO, 0)
for nm in 'ab': small.MAKERS[nm] = two
@ref('vt_gswap', *[dict(a=('room', 3), b=('room', 3), elsize=n) for n in (1, 2, 3)], dict(a=('room', (3, 1)), b=('room', 3), elsize=2))
def _(d, p, x):
    n = x.case['elsize']; A, B = p['a'], p['b']
    return Out(a=put(A, n, B['all'][B['at']:B['at'] + n]), b=put(B, n, A['all'][A['at']:A['at'] + n]))
@ref('vt_pswap', dict(a=('cell',), b=('cell',)))
def _(d, p, x):
    def check(x, rv):
        for me, other in (('a', 'b'), ('b', 'a')):
            q = x.I.resolve(x.st, x.I.load_raw(x.st, Ptr(p[me]['rid'], ZERO, 0), ir.PTR, 8))
            if isinstance(q, Ptr) and q.r != p[other]['target']: return '%s does not point where %s did' % (me, other)
    return Out(check=check)
STATUS = 'ERROR_IS_NULL ERROR_ALLOCATION ERROR_INVALID_ARGUMENTS ERROR_OUT_OF_MEMORY ERROR_OUT_OF_BOUNDS_ACCESS ERROR_INCOMPATIBLE_DATATYPE ERROR_CONVERSION ERROR_ELEMENT_NOT_FOUND ERROR_IS_VIEW OPERATION_FAILURE OPERATION_SUCCESS'.split()
@ref('vt_status_to_str', *[dict(e=k) for k in range(len(STATUS))], dict(e=(100, 10 ** 6)))
def _(d, p, x):
    k = x.case['e']
    if isinstance(k, tuple): return Out(('null',))
    nm = next((n for n, v in spec.STATUS.items() if v == k), None)
    return Out(('cstr', [C(c) for c in nm.encode()])) if nm else None

# ------------------------------------------------------------------ the report
import out
def mk_stats(I, st, e, info, x, ct, ty):
    r = I.new_region(st, 'text', C(40), 'stack', 'stats'); e.stats = {}
    base = min(spec.A_ST.values())
    for nm, o in spec.A_ST.items(): v = fresh('stats.' + nm, 0, 10 ** 9); r.cells[o - base] = (8, v); e.stats[nm] = v
    info.update(kind='byval', rid=r.id); return Ptr(r.id, ZERO, 0)
small.MAKERS['stats'] = mk_stats
@ref('vt_mallocator_print_stats', {'stats': 1, '@report': 1})
def _(d, p, x):
    q = x.e.stats
    want = [('N   ALLOCS', q['count_allocs']), ('N REALLOCS', q['count_reallocs']), ('N    FREES', q['count_frees']), ('T.ALLOCD', q['count_bytes_allocated'] + q['count_bytes_freed']), ('C.ALLOCD', q['count_bytes_allocated']), ('B    FREED', q['count_bytes_freed'])]
    def check(x, rv):
        said, _, _ = out.told(x)
        t = said.get('stdout', [])
        if t is None or None in said: return None
        if x.exited: return 'ends the program'
        line = ''; got = {}
        for i in t:
            if isinstance(i, tuple): got[line] = i[1]
            elif i.const() == 10: line = ''
            else: line += chr(i.const()) if i.const() is not None else '?'
        for name, v in want:
            k = next((k for k in got if ' '.join(name.split()) in ' '.join(k.split())), None)
            if k is None: return 'the report does not name %s' % name
            if not x.st.cs.entails_eq(got[k] - v): return 'the report gives %r for %s, expected %r' % (got[k], name, v)
    return Out(check=check)
NAMES = 'vt_mallocator_alloc vt_mallocator_realloc vt_mallocator_free vt_mallocator_destroy vt_mallocator_create vt_malloc vt_calloc vt_realloc vt_free vt_memmove vt_memcopy vt_memset vt_memcmp vt_gswap vt_pswap vt_status_to_str vt_mallocator_print_stats'.split()
