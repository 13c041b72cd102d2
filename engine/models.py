"""Models of libc / runtime functions for the abstract interpreter. Each model: (I, st, ins, vals, args, fv) -> [(state, ret)]"""
import ir
from poly import *
from absint import *

M = {}
def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d

def I64(I, st, v): return v if isinstance(v, Poly) else I.as_int(st, v)

# ------------------------------------------------------------------ allocation
def do_alloc(I, st, n, origin, zero, name='block'):
    r = I.new_region(st, 'heap', n, origin, name)
    r.site = I.mod.srcloc(I.cur.loc); r.tag = None
    r.frame = None
    if zero: I.add_fact(st, r, (ZERO,), (n,), ('const', 0))
    elif I.undef: I.add_fact(st, r, (ZERO,), (n,), ('undef',))
    if I.on_alloc: I.on_alloc(st, r, n)
    return Ptr(r.id, ZERO, r.gen)
def nonzero_size(I, st, n, what):
    """allocation sizes: wrapped (negative) sizes are defects"""
    if st.cs.entails(n): return
    I.check(st, n, 'oob', '%s with a byte count that can wrap below zero' % what)

@model('malloc')
def m_malloc(I, st, ins, v, a, fv):
    n = I64(I, st, v[0]); nonzero_size(I, st, n, 'malloc')
    if st.cs.bad: return []
    return [(st, do_alloc(I, st, n, 'libc', False))] + ([(f, NULL)] if (f := null_branch(I, st)) else [])
def null_branch(I, st):
    if not I.oom: return None
    return st.fork()
@model('calloc')
def m_calloc(I, st, ins, v, a, fv):
    n = I64(I, st, v[0]) * I64(I, st, v[1]); nonzero_size(I, st, n, 'calloc')
    if st.cs.bad: return []
    f = null_branch(I, st)
    return [(st, do_alloc(I, st, n, 'libc', True))] + ([(f, NULL)] if f else [])
def do_realloc(I, st, p, n, origin, what):
    p = I.resolve(st, p)
    if p is NULL: return do_alloc(I, st, n, origin, False)
    if isinstance(p, UnkPtr): p = I.materialize(st, p)
    if isinstance(p, NullOff):
        I.alarm('badfree', '%s of an invalid pointer' % what, st); return None
    if not isinstance(p, Ptr): return I.new_unk()
    r = st.reg.get(p.r)
    if r is None or not r.live:
        I.alarm('uaf', '%s of released memory' % what, st); return None
    if r.kind == 'foreign' and r.size is None:
        r = st.w(p.r); r.gen += 1; r.size = n; r.ver += 1
        return Ptr(p.r, ZERO, r.gen)
    if not release_ok(I, st, p, r, origin, what): return None
    r = st.w(p.r)
    old = r.size
    if old is not None and not st.cs.entails(n - old):
        # may shrink
        out = []
        for f in r.facts:
            x = I.f_simplify(st, f.lo, tuple(dict.fromkeys(f.hi + (n,))))
            if x: out.append(Fact(x[0], x[1], f.src) if f.src[0] != 'val' else f)
        r.facts = tuple(out)
        nc = n.const()
        for o in list(r.cells):
            if not (nc is not None and o + r.cells[o][0] <= nc): del r.cells[o]
    r.gen += 1; r.size = n; r.ver += 1; r.site = I.mod.srcloc(I.cur.loc)
    if I.undef and old is not None: I.add_fact(st, r, (old,), (n,), ('undef',))
    I.moved(st, r)
    return Ptr(p.r, ZERO, r.gen)
def release_ok(I, st, p, r, origin, what):
    if not I.mute: I.obl += 1
    if r.kind in ('stack', 'global') or r.origin in ('stack', 'static'):
        I.alarm('badfree', '%s of storage that was never allocated (%s)' % (what, r.name), st); return False
    if p.off.const() != 0 and not st.cs.entails_eq(p.off):
        I.alarm('badfree', '%s of a pointer into the middle of %s' % (what, r.name), st); return False
    if r.kind == 'viewbuf' or r.origin == 'borrowed':
        I.alarm('view-release', '%s of storage the object only borrows (%s)' % (what, r.name), st); return False
    if r.origin is not None and r.origin != 'foreign' and r.origin != origin:
        I.alarm('affinity', '%s through %s of a block obtained from %s (%s)' % (what, oname(origin), oname(r.origin), r.name), st); return False
    if not I.mute: I.proved += 1
    return True
def oname(o): return 'the object\'s allocator' if isinstance(o, tuple) else 'the C heap' if o == 'libc' else str(o)
def do_free(I, st, p, origin, what):
    p = I.resolve(st, p)
    if p is NULL: return True
    if isinstance(p, UnkPtr):
        p = I.materialize(st, p)
    if isinstance(p, NullOff):
        I.alarm('badfree', '%s of an invalid pointer' % what, st); return False
    if not isinstance(p, Ptr): return True
    r = st.reg.get(p.r)
    if r is None or not r.live:
        I.alarm('uaf', '%s of already released memory' % what, st); return False
    if r.kind == 'foreign' and r.size is None:
        st.w(p.r).live = False; return True
    if not release_ok(I, st, p, r, origin, what): return False
    r = st.w(p.r); r.live = False; r.site = I.mod.srcloc(I.cur.loc)
    if I.on_free: I.on_free(st, r)
    return True
@model('realloc')
def m_realloc(I, st, ins, v, a, fv):
    n = I64(I, st, v[1]); nonzero_size(I, st, n, 'realloc')
    if st.cs.bad: return []
    f = null_branch(I, st)
    p = do_realloc(I, st, v[0], n, 'libc', 'realloc')
    out = [(st, p)] if p is not None else []
    if f: out.append((f, NULL))
    return out
@model('free')
def m_free(I, st, ins, v, a, fv):
    return [(st, None)] if do_free(I, st, v[0], 'libc', 'free') else []
def self_ok(I, st, fv, v, what):
    p = I.resolve(st, v)
    if isinstance(p, Ptr) and p.r == fv.al: return True
    I.alarm('affinity', '%s: allocator function called with a different allocator as context' % what, st)
    return False
@model('$alloc')
def m_aalloc(I, st, ins, v, a, fv):
    if not self_ok(I, st, fv, v[0], 'alloc'): return []
    n = I64(I, st, v[1]); nonzero_size(I, st, n, 'allocation')
    if st.cs.bad: return []
    I.traps(st, n - 1, 'zero-size allocation')
    return [(st, do_alloc(I, st, n, ('A', fv.al), True))]
@model('$realloc')
def m_arealloc(I, st, ins, v, a, fv):
    if not self_ok(I, st, fv, v[0], 'realloc'): return []
    n = I64(I, st, v[2]); nonzero_size(I, st, n, 'reallocation')
    if st.cs.bad: return []
    I.traps(st, n - 1, 'zero-size allocation')
    p = do_realloc(I, st, v[1], n, ('A', fv.al), 'realloc')
    return [(st, p)] if p is not None else []
@model('$free')
def m_afree(I, st, ins, v, a, fv):
    if not self_ok(I, st, fv, v[0], 'free'): return []
    p = I.resolve(st, v[1])
    if p is NULL: return []
    return [(st, None)] if do_free(I, st, v[1], ('A', fv.al), 'free') else []

# ------------------------------------------------------------------ traps
@model('vt_debug_assert')
def m_assert(I, st, ins, v, a, fv):
    c = I.tocond(st, v[0]); q = I.tocond(st, v[3])
    if q.t[0] == 'c' and q.t[1]:
        return [(s, None) for s in I.trap_unless(st, c, 'assertion')]
    if q.t[0] == 'c': return [(st, None)]
    out = []
    s2 = st.fork()
    out += [(s, None) for s in I.assume(st, c, True)]
    for s in I.assume(s2, c, False): out += [(x, None) for x in I.trap_unless(s, NOT(q), 'assertion')]
    return out
@model('__assert_fail', 'abort')
def m_afail(I, st, ins, v, a, fv):
    I.on_trap(st, 'assert'); return []
@model('exit', '_exit')
def m_exit(I, st, ins, v, a, fv):
    I.on_trap(st, 'exit'); return []
@model('vt_debug_printf')
def m_dprintf(I, st, ins, v, a, fv): return [(st, None)]
@model('vt_status_to_str')
def m_status(I, st, ins, v, a, fv):
    c = v[0].const() if isinstance(v[0], Poly) else None
    if c is not None and 0 <= c <= 10:
        r = I.static_str(st, 'status%d' % c, b'STATUS_%d' % c)
        return [(st, Ptr(r, ZERO, 0))]
    return NotImplemented

# ------------------------------------------------------------------ memory
@model('llvm.memcpy', 'memcpy')
def m_memcpy(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    d, s = I.resolve(st, v[0]), I.resolve(st, v[1])
    if isinstance(d, Ptr) and isinstance(s, Ptr) and d.r == s.r and n.const() is None:
        df = d.off - s.off
        if not I.mute: I.obl += 1
        ok = st.cs.entails(df - n) or st.cs.entails(-df - n) or st.cs.entails(-n) or st.cs.entails_eq(df)
        if not ok:
            x = st.fork(); x.cs.add_neq(df)          # copying a block onto itself is harmless
            ok = x.cs.bad or x.cs.entails(df - n) or x.cs.entails(-df - n)
        if ok:
            if not I.mute: I.proved += 1
        else:
            I.alarm('overlap', 'memcpy between overlapping ranges of %s (distance %r, %r bytes)' % (st.reg[d.r].name if d.r in st.reg else '?', df, n), st, df.syms() | n.syms())
    ok = I.memcpy(st, v[0], v[1], n)
    return [(st, v[0])] if ok else []
@model('llvm.memmove', 'memmove')
def m_memmove(I, st, ins, v, a, fv):
    ok = I.memcpy(st, v[0], v[1], I64(I, st, v[2]), 'memmove')
    return [(st, v[0])] if ok else []
@model('llvm.memset', 'memset')
def m_memset(I, st, ins, v, a, fv):
    x = v[1] if isinstance(v[1], Poly) else I.as_int(st, v[1])
    ok = I.memset(st, v[0], x, I64(I, st, v[2]))
    return [(st, v[0])] if ok else []
def cmp_result(I, st, fn, p, q, n):
    """comparison result; a function of the contents compared"""
    p, q = I.resolve(st, p), I.resolve(st, q)
    if not I.undef or not isinstance(p, Ptr) or not isinstance(q, Ptr): return fresh('cmp', -255, 255)
    key = ('cmp', fn, p.r, st.reg[p.r].ver, p.off, q.r, st.reg[q.r].ver, q.off, n)
    v = st.ghost.get(key)
    if v is None: v = fresh('cmp', -255, 255); st.ghost[key] = v
    return v
@model('memcmp')
def m_memcmp(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    for k in (0, 1):
        if n.const() != 0 and I.access(st, v[k], n, 'memcmp') is None: return []
        p = I.resolve(st, v[k])
        if isinstance(p, Ptr) and ('pad', p.r, p.off) in st.ghost:
            I.obl += 1
            if st.cs.entails(C(10) - n): I.proved += 1
            else: I.alarm('post', 'compares the padding bytes of a long double, which differ between equal numbers', st)
    return [(st, cmp_result(I, st, 'memcmp', v[0], v[1], n))]
@model('llvm.lifetime', 'llvm.dbg', 'llvm.va_end_', 'llvm.assume', 'llvm.stacksave', 'llvm.stackrestore')
def m_nop(I, st, ins, v, a, fv):
    return [(st, None)]
@model('llvm.va_start')
def m_vastart(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0])
    if isinstance(p, Ptr): st.w(p.r).tag = 'va-open'
    return [(st, None)]
@model('llvm.va_copy')
def m_vacopy(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0]); q = I.resolve(st, v[1])
    if isinstance(p, Ptr): st.w(p.r).tag = 'va-used' if isinstance(q, Ptr) and q.r in st.reg and st.reg[q.r].tag == 'va-used' else 'va-open'
    return [(st, None)]
@model('llvm.va_end')
def m_vaend(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0])
    if isinstance(p, Ptr) and p.r in st.reg: st.w(p.r).tag = 'va-ended'
    return [(st, None)]
@model('llvm.fabs', 'llvm.floor', 'llvm.ceil', 'llvm.fmuladd', 'pow', 'powl', 'fabs', 'fabsl', 'sqrt', 'llvm.pow')
def m_math(I, st, ins, v, a, fv):
    return [(st, Opq((ins.a[0],) + tuple(I.opk(x) for x in v)))]
@model('llvm.umul', 'llvm.uadd')
def m_ovf(I, st, ins, v, a, fv): return NotImplemented

@model('$callback')
def m_callback(I, st, ins, v, a, fv):
    """client function applied to elements: may change the element it is given, nothing else"""
    if I.undef: st.ghost[('cb', sum(1 for k in st.ghost if k[0] == 'cb'))] = tuple(v)
    for x in v:
        p = I.resolve(st, x)
        if isinstance(p, Ptr) and p.r in st.reg and not st.reg[p.r].ro:
            n = I.cb_size(st, p)
            q = I.access(st, p, n, 'element handed to the callback')
            if q is None: return []
            r = st.w(p.r); I.kill(st, r, p.off, p.off + n)
            if getattr(I, 'cb_nz', False): I.add_fact(st, r, (p.off,), (p.off + 1,), ('nz',))
    return [(st, I.fresh_of(st, ins.ty, 'cb') if ins.dst is not None else None)]

# ------------------------------------------------------------------ strings
def cbytes(I, st, p):
    """constant C string behind p, or None"""
    p = I.resolve(st, p)
    if isinstance(p, Ptr):
        r = st.reg.get(p.r)
        if r is not None and r.ro and isinstance(r.tag, tuple) and r.tag[0] == 'bytes' and p.off.const() is not None:
            b = r.tag[1][p.off.const():]
            z = b.find(0)
            return b[:z] if z >= 0 else b
    return None
@model('strlen')
def m_strlen(I, st, ins, v, a, fv):
    L = I.strlen(st, v[0])
    return [(st, L)] if L is not None and not st.cs.bad else []
@model('strnlen')
def m_strnlen(I, st, ins, v, a, fv):
    n = I64(I, st, v[1])
    p = I.access(st, v[0], C(0), 'strnlen')
    if p is None: return []
    r = st.reg[p.r]
    L = fresh('Ln', 0, SIZE_HI)
    st.cs.add(n - L)
    if r.size is not None:
        lt = I.try_strlen(st, p)
        if lt is not None:
            # exact minimum
            s2 = st.fork(); out = []
            for s in I.with_ge(st, n - lt): out.append((s, lt))
            for s in I.with_ge(s2, lt - n - 1): out.append((s, n))
            return out
        if I.access(st, p, n, 'strnlen') is None: return []
    return [(st, L)]
@model('strstr')
def m_strstr(I, st, ins, v, a, fv):
    hl = I.strlen(st, v[0], 'strstr')
    if hl is None or st.cs.bad: return []
    nl = I.strlen(st, v[1], 'strstr')
    if nl is None or st.cs.bad: return []
    p = I.resolve(st, v[0])
    h, n = cbytes(I, st, v[0]), cbytes(I, st, v[1])
    if h is not None and n is not None:
        k = h.find(n)
        return [(st, NULL if k < 0 else Ptr(p.r, p.off + k, p.gen))]
    if isinstance(p, UnkPtr): p = I.materialize(st, p)
    if not isinstance(p, Ptr): return [(st, NULL), (st.fork(), I.new_unk())]
    q = I.resolve(st, v[1])
    key = ('oc', 'strstr', p.r, st.reg[p.r].ver, p.off, (q.r, st.reg[q.r].ver, q.off) if isinstance(q, Ptr) else repr(q))
    kn = st.ghost.get(key)                     # the search is a function of the contents: same text, same answer
    if kn is not None:
        return [(st, NULL if kn == 'none' else Ptr(p.r, p.off + kn, st.reg[p.r].gen))]
    out = []
    s2 = st.fork()
    # not found: possible unless the needle is empty
    for s in I.with_ge(st, nl - 1):
        s.ghost[key] = 'none'; out.append((s, NULL))
    k = fresh('pos', 0, SIZE_HI)
    for s in I.with_ge(s2, hl - nl - k):
        s.ghost[key] = k
        out.append((s, Ptr(p.r, p.off + k, s.reg[p.r].gen)))
    return out
def chr_search(I, st, v, last):
    L = I.strlen(st, v[0], 'strchr')
    if L is None or st.cs.bad: return []
    p = I.resolve(st, v[0])
    if isinstance(p, UnkPtr): p = I.materialize(st, p)
    c = I64(I, st, v[1]).const()
    h = cbytes(I, st, v[0])
    if h is not None and c is not None:
        k = (h.rfind(bytes([c & 255])) if last else h.find(bytes([c & 255]))) if c else len(h)
        return [(st, NULL if k < 0 else Ptr(p.r, p.off + k, p.gen))]
    if c == 0: return [(st, Ptr(p.r, p.off + L, p.gen))]
    s2 = st.fork()
    k = fresh('pos', 0, SIZE_HI)
    ch = I64(I, st, v[1]).single()
    lim = L - k - (1 if (c is not None or ch in st.nz) else 0)
    key = ('oc', 'strrchr' if last else 'strchr', p.r, st.reg[p.r].ver, p.off, I64(I, st, v[1]))
    if I.undef:
        kn = st.ghost.get(key)
        if kn is not None: return [(st, NULL if kn == 'none' else Ptr(p.r, p.off + kn, st.reg[p.r].gen))]
        st.ghost[key] = 'none'; s2.ghost[key] = k
    out = [(st, NULL)]
    for s in I.with_ge(s2, lim): out.append((s, Ptr(p.r, p.off + k, s.reg[p.r].gen)))
    return out
@model('strchr')
def m_strchr(I, st, ins, v, a, fv): return chr_search(I, st, v, False)
@model('strrchr')
def m_strrchr(I, st, ins, v, a, fv): return chr_search(I, st, v, True)
@model('strspn', 'strcspn')
def m_strspn(I, st, ins, v, a, fv):
    L = I.strlen(st, v[0]); 
    if L is None or I.strlen(st, v[1]) is None: return []
    k = fresh('spn', 0, SIZE_HI); st.cs.add(L - k)
    return [(st, k)]
def rd_n(I, st, p, n, what):
    """reads a string up to n bytes"""
    q = I.access(st, p, C(0), what)
    if q is None: return None
    r = st.reg[q.r]
    if r.size is None: return q
    if I.try_strlen(st, q) is not None: return q
    return I.access(st, q, n, what)
@model('strncmp')
def m_strncmp(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    x, y = cbytes(I, st, v[0]), cbytes(I, st, v[1])
    if x is not None and y is not None and n.const() is not None:
        k = n.const(); return [(st, C((x[:k] > y[:k]) - (x[:k] < y[:k])))]
    for k in (0, 1):
        if rd_n(I, st, v[k], n, 'strncmp') is None: return []
    return [(st, cmp_result(I, st, 'strncmp', v[0], v[1], n))]
@model('strcmp', 'strcasecmp')
def m_strcmp(I, st, ins, v, a, fv):
    for k in (0, 1):
        if I.strlen(st, v[k], 'strcmp') is None: return []
    x, y = cbytes(I, st, v[0]), cbytes(I, st, v[1])
    if x is not None and y is not None: return [(st, C((x > y) - (x < y)))]
    return [(st, cmp_result(I, st, 'strcmp' if 'case' not in str(ins.a[0]) else 'strcasecmp', v[0], v[1], None))]
def copy_str(I, st, d, s, n, pad):
    """strncpy(pad=True) semantics; list of states"""
    q = I.access(st, s, C(0), 'strncpy source')
    if q is None: return []
    out = []
    L = None
    r = st.reg[q.r]
    if r.size is None or I.try_strlen(st, q) is not None: L = I.strlen_raw(st, q)
    if L is None:
        if not I.memcpy(st, d, q, n, 'strncpy'): return []
        return [st]
    s2 = st.fork()
    for x in I.with_ge(st, L - n):
        if I.memcpy(x, d, q, n, 'strncpy'): out.append(x)
    for x in I.with_ge(s2, n - L - 1):
        if I.access(x, d, n, 'strncpy destination write', True) is None: continue
        dd = I.resolve(x, d)
        if not I.memcpy(x, d, q, L + 1, 'strncpy'): continue
        if not I.memset(x, I.padd(x, dd, L + 1), C(0), n - L - 1): continue
        out.append(x)
    return out
@model('strncpy')
def m_strncpy(I, st, ins, v, a, fv):
    return [(s, v[0]) for s in copy_str(I, st, v[0], v[1], I64(I, st, v[2]), True)]
@model('strcpy')
def m_strcpy(I, st, ins, v, a, fv):
    L = I.strlen(st, v[1], 'strcpy')
    if L is None: return []
    return [(st, v[0])] if I.memcpy(st, v[0], v[1], L + 1, 'strcpy') else []
@model('strcat')
def m_strcat(I, st, ins, v, a, fv):
    D = I.strlen(st, v[0], 'strcat')
    if D is None: return []
    L = I.strlen(st, v[1], 'strcat')
    if L is None: return []
    return [(st, v[0])] if I.memcpy(st, I.padd(st, I.resolve(st, v[0]), D), v[1], L + 1, 'strcat') else []
@model('strncat')
def m_strncat(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    D = I.strlen(st, v[0], 'strncat')
    if D is None or st.cs.bad: return []
    q = I.access(st, v[1], C(0), 'strncat source')
    if q is None: return []
    r = st.reg[q.r]
    cases = []
    if r.size is None or I.try_strlen(st, q) is not None:
        L = I.strlen_raw(st, q)
        s2 = st.fork()
        cases += [(x, n) for x in I.with_ge(st, L - n)]
        cases += [(x, L) for x in I.with_ge(s2, n - L - 1)]
    else: cases = [(st, n)]
    out = []
    for x, m in cases:
        d = I.padd(x, I.resolve(x, v[0]), D)
        if not I.memcpy(x, d, q, m, 'strncat'): continue
        if x.cs.bad: continue
        if not I.memset(x, I.padd(x, I.resolve(x, v[0]), D + m), C(0), C(1)): continue
        out.append((x, v[0]))
    return out
@model('isspace', 'isdigit', 'ispunct', 'isalpha', 'isalnum', 'isprint', 'isupper', 'islower')
def m_isx(I, st, ins, v, a, fv):
    c = I64(I, st, v[0])
    k = ('ctype', str(ins.a[0]), c)
    t = I.terms.get(k)
    if t is None: t = fresh('cls', 0, 65535); I.terms[k] = t
    s2 = st.fork(); out = []
    kc = c.const()
    if kc is not None:
        f = {'isspace': b' \t\n\v\f\r', 'isdigit': b'0123456789'}.get(ins.a[0][1][1:])
        if f is not None: return [(st, C(1 if 0 <= kc < 256 and kc in f else 0))]
    for s in I.with_eq(st, t): out.append((s, C(0)))
    if kc != 0:
        for s in I.with_ge(s2, t - 1):
            ok = [s]
            if kc is None:
                ok = I.with_neq(s, c)
                sy = c.single()
                ok = [x for x in ok if sy is None or I.nonzero(x, sy)]
                zx = Syms.prov[sy] if sy is not None else None
                if zx and zx[0] == 'zx':
                    ok = [y for x in ok for y in I.with_neq(x, zx[1])]
            out += [(x, t) for x in ok]
    return out
@model('toupper', 'tolower')
def m_tox(I, st, ins, v, a, fv):
    c = I64(I, st, v[0])
    k = (str(ins.a[0]), c); t = I.terms.get(k)
    if c.const() is not None:
        b = c.const()
        if 0 <= b < 128: return [(st, C(ord(chr(b).upper() if 'upper' in str(ins.a[0]) else chr(b).lower())))]
    if t is None: t = fresh('cv', -128, 127); I.terms[k] = t
    s = c.single()
    if s in st.nz or st.cs.entails_neq(c):
        st.nz = st.nz | {t.single()}; st.cs.add_neq(t)
    return [(st, t)]
@model('strtol', 'strtoll', 'strtoul', 'strtoull', 'strtoimax', 'strtoumax', '__isoc23_strtol', '__isoc23_strtoll', '__isoc23_strtoul', '__isoc23_strtoull', '__isoc23_strtoimax', '__isoc23_strtoumax', 'atoi', 'atol', 'atoll')
def m_strtol(I, st, ins, v, a, fv):
    L = I.strlen(st, v[0], 'number conversion')
    if L is None: return []
    rv = I.fresh_of(st, ins.ty, 'num')
    if len(v) > 1 and I.resolve(st, v[1]) is not NULL:
        p = I.resolve(st, v[0])
        k = fresh('endp', 0, SIZE_HI); st.cs.add(L - k)
        if not I.store(st, v[1], Ptr(p.r, p.off + k, p.gen), ir.PTR): return []
    return [(st, rv)]
@model('strtod', 'strtof', 'strtold', 'atof')
def m_strtod(I, st, ins, v, a, fv):
    L = I.strlen(st, v[0], 'number conversion')
    if L is None: return []
    I.nunk += 1
    if len(v) > 1 and I.resolve(st, v[1]) is not NULL:
        p = I.resolve(st, v[0])
        k = fresh('endp', 0, SIZE_HI); st.cs.add(L - k)
        if not I.store(st, v[1], Ptr(p.r, p.off + k, p.gen), ir.PTR): return []
    return [(st, Opq(('strtod', I.nunk)))]

# ------------------------------------------------------------------ formatted output
def fmt_text(I, st, r, off, L):
    """remember where the formatted text stands (postconditions only)"""
    if I.undef and L.single() is not None: r.facts = r.facts + (Fact((off,), (off + L,), ('init', -1000 - L.single(), off)),)
def va_use(I, st, x):
    """the formatting routine consumes the argument list"""
    p = I.resolve(st, x)
    if isinstance(p, Ptr) and p.r in st.reg:
        t = st.reg[p.r].tag
        if t == 'va-used': I.alarm('va', 'argument list used again after it was consumed', st)
        elif t == 'va-open': st.w(p.r).tag = 'va-used'
        elif t == 'va-ended': I.alarm('va', 'argument list used after va_end', st)
def put_fmt(I, st, buf, n, L):
    """vsnprintf(buf, n): L characters produced"""
    out = []
    if n is None:
        d = I.access(st, buf, L + 1, 'vsprintf', True)
        if d is None: return []
        r = st.w(d.r); I.kill(st, r, d.off, d.off + L + 1)
        I.add_fact(st, r, (d.off + L,), (d.off + L + 1,), ('const', 0)); I.add_fact(st, r, (d.off,), (d.off + L,), ('nz',)); fmt_text(I, st, r, d.off, L)
        return [st]
    if n.const() == 0: return [st]
    s0 = st.fork(); s2 = st.fork()
    for s in I.with_ge(st, n - L - 1):       # fits
        d = I.access(s, buf, L + 1, 'snprintf', True)
        if d is None: continue
        # the declared size must be backed by storage
        if I.access(s, buf, n, 'snprintf with a size larger than the buffer') is None: continue
        r = s.w(d.r); I.kill(s, r, d.off, d.off + L + 1)
        I.add_fact(s, r, (d.off + L,), (d.off + L + 1,), ('const', 0)); I.add_fact(s, r, (d.off,), (d.off + L,), ('nz',)); fmt_text(I, s, r, d.off, L)
        out.append(s)
    for s in I.with_ge(s2, L - n):           # truncated
        for s in I.with_ge(s, n - 1):
            d = I.access(s, buf, n, 'snprintf', True)
            if d is None: continue
            r = s.w(d.r); I.kill(s, r, d.off, d.off + n)
            I.add_fact(s, r, (d.off + n - 1,), (d.off + n,), ('const', 0)); I.add_fact(s, r, (d.off,), (d.off + n - 1,), ('nz',))
            out.append(s)
    if not s0.cs.entails(n - 1): out += I.with_eq(s0, n)
    return out
def fmt_len(I, st, fmt, vals):
    k = ('fmtlen', I.opk(fmt) if not isinstance(fmt, Ptr) else (fmt.r, fmt.off), tuple(I.opk(v) if not isinstance(v, Ptr) else (v.r, v.off, st.reg[v.r].ver if v.r in st.reg else 0) for v in vals))
    L = I.terms.get(k)
    if L is None: L = fresh('fl', -1, 2**31 - 1); I.terms[k] = L
    return L
def fmt_go(I, st, buf, n, fmt, vals, may_fail=True):
    if I.strlen(st, fmt, 'format string') is None: return []
    L = fmt_len(I, st, I.resolve(st, fmt), vals)
    out = []
    s2 = st.fork()
    if n is not None:
        for s in I.with_ge(s2, -L - 1): out.append((s, L))
    for s in I.with_ge(st, L):
        for x in put_fmt(I, s, buf, n, L): out.append((x, L))
    return out
@model('snprintf')
def m_snprintf(I, st, ins, v, a, fv): return fmt_go(I, st, v[0], I64(I, st, v[1]), v[2], tuple(v[3:]))
@model('vsnprintf')
def m_vsnprintf(I, st, ins, v, a, fv):
    va_use(I, st, v[3])
    return fmt_go(I, st, v[0], I64(I, st, v[1]), v[2], ('va',))
@model('vsprintf')
def m_vsprintf(I, st, ins, v, a, fv):
    va_use(I, st, v[2])
    return fmt_go(I, st, v[0], None, v[1], ('va',))
@model('sprintf')
def m_sprintf(I, st, ins, v, a, fv): return fmt_go(I, st, v[0], None, v[1], tuple(v[2:]))
@model('printf', 'fprintf', 'vprintf', 'vfprintf', 'puts', 'fputs', 'putchar', 'fputc', 'fflush', 'perror')
def m_out(I, st, ins, v, a, fv):
    nm = ins.a[0][1][1:]
    if nm in ('vfprintf', 'vprintf'): va_use(I, st, v[-1])
    if nm in ('fprintf', 'vfprintf', 'fputs', 'fputc'):
        f = I.resolve(st, v[0] if nm in ('fprintf', 'vfprintf') else v[1])
        if f is NULL: I.alarm('null', '%s to a null stream' % nm, st); return []
        if isinstance(f, Ptr) and f.r in st.reg and not st.reg[f.r].live:
            I.alarm('uaf', '%s to a closed stream' % nm, st); return []
    return [(st, fresh('wr', -2**31, 2**31 - 1) if ins.ty is not None and ins.ty.k == 'int' else None)]
@model('__isoc99_sscanf', 'sscanf', '__isoc23_sscanf')
def m_sscanf(I, st, ins, v, a, fv):
    if I.strlen(st, v[0], 'sscanf') is None or I.strlen(st, v[1], 'sscanf') is None: return []
    for x in v[2:]:
        p = I.resolve(st, x)
        if isinstance(p, Ptr):
            r = st.reg.get(p.r)
            if r is not None and r.size is not None: 
                r = st.w(p.r); c = p.off.const()
                I.kill(st, r, p.off, p.off + 8)
    return [(st, fresh('scn', -1, len(v) - 2))]

# ------------------------------------------------------------------ files
def handle(I, st, kind, origin):
    r = I.new_region(st, 'handle', None, origin, kind)
    r.site = I.mod.srcloc(I.cur.loc); r.tag = ('handle', kind)
    return Ptr(r.id, ZERO, r.gen)
@model('fopen', 'fopen64', 'opendir', 'popen', 'fdopen', 'freopen')
def m_fopen(I, st, ins, v, a, fv):
    nm = ins.a[0][1][1:]
    if I.strlen(st, v[0], nm) is None or st.cs.bad: return []
    s2 = st.fork()
    k = {'opendir': 'DIR', 'popen': 'PIPE'}.get(nm, 'FILE')
    return [(st, handle(I, st, k, nm)), (s2, NULL)]
@model('fclose', 'closedir', 'pclose')
def m_fclose(I, st, ins, v, a, fv):
    nm = ins.a[0][1][1:]
    p = I.resolve(st, v[0])
    if p is NULL:
        I.alarm('null', '%s of a null handle' % nm, st); return []
    if isinstance(p, Ptr):
        r = st.reg.get(p.r)
        if r is not None:
            if not r.live:
                I.alarm('twice', '%s of a handle that is already closed' % nm, st); return []
            if r.kind == 'handle': st.w(p.r).live = False
            elif r.kind == 'foreign' and r.name == 'standard stream':
                I.alarm('badfree', '%s of a standard stream' % nm, st)
    return [(st, fresh('clo', -1, 0))]
@model('fread')
def m_fread(I, st, ins, v, a, fv):
    n = I64(I, st, v[1]) * I64(I, st, v[2])
    if I.access(st, v[0], n, 'fread', True) is None: return []
    p = I.resolve(st, v[0])
    if isinstance(p, Ptr):
        r = st.w(p.r); I.kill(st, r, p.off, p.off + n)
    k = fresh('rd', 0, SIZE_HI); st.cs.add(I64(I, st, v[2]) - k)
    return [(st, k)]
@model('fwrite')
def m_fwrite(I, st, ins, v, a, fv):
    n = I64(I, st, v[1]) * I64(I, st, v[2])
    if I.access(st, v[0], n, 'fwrite') is None: return []
    k = fresh('wr', 0, SIZE_HI); st.cs.add(I64(I, st, v[2]) - k)
    return [(st, k)]
@model('fgets')
def m_fgets(I, st, ins, v, a, fv):
    n = I64(I, st, v[1])
    p = I.access(st, v[0], n, 'fgets', True)
    if p is None: return []
    s2 = st.fork()
    r = st.w(p.r); I.kill(st, r, p.off, p.off + n)
    L = fresh('gl', 0, SIZE_HI); st.cs.add(n - 1 - L)
    I.add_fact(st, r, (p.off + L,), (p.off + L + 1,), ('const', 0))
    return [(st, v[0]), (s2, NULL)]
@model('fseek', 'ftell', 'feof', 'ferror', 'fgetc', 'getc')
def m_fint(I, st, ins, v, a, fv):
    f = I.resolve(st, v[0])
    if f is NULL: I.alarm('null', 'stream operation on a null handle', st); return []
    return [(st, I.fresh_of(st, ins.ty, 'f'))]
@model('remove', 'rename', 'mkdir', 'rmdir', 'unlink', 'access', 'chdir', 'system')
def m_fs(I, st, ins, v, a, fv):
    nm = ins.a[0][1][1:]
    for k, (t, x, at) in enumerate(a):
        if t.k == 'ptr' and I.strlen(st, v[k], nm) is None: return []
    return [(st, fresh('rc', -1, 0))]
@model('stat', 'lstat')
def m_stat(I, st, ins, v, a, fv):
    L = I.strlen(st, v[0], 'stat')
    if L is None: return []
    p = I.access(st, v[1], C(144), 'stat', True)
    if p is None: return []
    r = st.w(p.r); I.kill(st, r, p.off, p.off + 144)
    st2 = st.fork(); st.cs.add(L - 1)      # no file has an empty name
    r2 = st.w(p.r); sz = fresh('fsz', 0, SIZE_HI); r2.cells[48] = (8, sz)
    return [(st, C(0)), (st2, C(-1))]
@model('readdir')
def m_readdir(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0])
    if p is NULL: I.alarm('null', 'readdir of a null handle', st); return []
    if isinstance(p, Ptr) and p.r in st.reg and not st.reg[p.r].live:
        I.alarm('uaf', 'readdir of a closed handle', st); return []
    s2 = st.fork()
    r = I.new_region(st, 'foreign', C(280), 'foreign', 'dirent')
    L = fresh('dn', 1, 255)
    I.add_fact(st, r, (C(19) + L,), (C(20) + L,), ('const', 0)); I.add_fact(st, r, (C(19),), (C(19) + L,), ('nz',))
    return [(st, Ptr(r.id, ZERO, r.gen)), (s2, NULL)]
@model('getcwd')
def m_getcwd(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0]); n = I64(I, st, v[1])
    s2 = st.fork()
    if p is NULL:
        L = fresh('cwd', 1, SIZE_HI)
        q = do_alloc(I, st, L + 1, 'libc', False, 'cwd')
        r = st.w(q.r); I.add_fact(st, r, (L,), (L + 1,), ('const', 0)); I.add_fact(st, r, (ZERO,), (L,), ('nz',))
        return [(st, q), (s2, NULL)]
    d = I.access(st, p, n, 'getcwd', True)
    if d is None: return []
    r = st.w(d.r); I.kill(st, r, d.off, d.off + n)
    L = fresh('cwd', 1, SIZE_HI); st.cs.add(n - L - 1)
    I.add_fact(st, r, (d.off + L,), (d.off + L + 1,), ('const', 0)); I.add_fact(st, r, (d.off,), (d.off + L,), ('nz',))
    return [(st, p), (s2, NULL)]
@model('readlink')
def m_readlink(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    d = I.access(st, v[1], n, 'readlink', True)
    if d is None: return []
    s2 = st.fork()
    k = fresh('rl', 0, SIZE_HI); st.cs.add(n - k)
    r = st.w(d.r); I.kill(st, r, d.off, d.off + k)
    I.add_fact(st, r, (d.off,), (d.off + k,), ('nz',))
    return [(st, k), (s2, C(-1))]
@model('getenv')
def m_getenv(I, st, ins, v, a, fv):
    s2 = st.fork()
    L = fresh('env', 0, SIZE_HI)
    r = I.new_region(st, 'cstr', L + 1, 'borrowed', 'environment string')
    I.add_fact(st, r, (L,), (L + 1,), ('const', 0)); I.add_fact(st, r, (ZERO,), (L,), ('nz',))
    return [(st, Ptr(r.id, ZERO, 0)), (s2, NULL)]
@model('getpwuid', 'getuid')
def m_unk(I, st, ins, v, a, fv): return NotImplemented

# ------------------------------------------------------------------ time
@model('time')
def m_time(I, st, ins, v, a, fv):
    t = fresh('now', 0, 1 << 40)
    p = I.resolve(st, v[0])
    if p is not NULL:
        if not I.store(st, v[0], t, ir.IntTy(64)): return []
    return [(st, t)]
@model('localtime', 'gmtime')
def m_localtime(I, st, ins, v, a, fv):
    if I.access(st, v[0], C(8), 'localtime') is None: return []
    r = I.new_region(st, 'stack', C(56), 'static', 'struct tm')
    r.frame = None
    for o, lo, hi in ((0, 0, 60), (4, 0, 59), (8, 0, 23), (12, 1, 31), (16, 0, 11), (20, -1900, 2**31 - 1901), (24, 0, 6), (28, 0, 365)):
        r.cells[o] = (4, fresh('tm%d' % o, lo, hi))
    return [(st, Ptr(r.id, ZERO, 0))]
@model('mktime')
def m_mktime(I, st, ins, v, a, fv):
    p = I.access(st, v[0], C(56), 'mktime', True)
    if p is None: return []
    r = st.w(p.r); I.kill(st, r, p.off, p.off + 56)
    return [(st, fresh('mkt', -1, 1 << 60))]
@model('strftime')
def m_strftime(I, st, ins, v, a, fv):
    n = I64(I, st, v[1])
    p = I.access(st, v[0], n, 'strftime', True)
    if p is None: return []
    if I.strlen(st, v[2], 'strftime') is None: return []
    r = st.w(p.r); I.kill(st, r, p.off, p.off + n)
    L = fresh('ft', 0, SIZE_HI); st.cs.add(n - L - 1)
    if st.cs.bad: return [(st, C(0))]
    I.add_fact(st, r, (p.off + L,), (p.off + L + 1,), ('const', 0)); I.add_fact(st, r, (p.off,), (p.off + L,), ('nz',))
    return [(st, L)]
@model('asctime_r')
def m_asctime(I, st, ins, v, a, fv):
    if I.access(st, v[0], C(56), 'asctime_r') is None: return []
    p = I.access(st, v[1], C(26), 'asctime_r', True)
    if p is None: return []
    r = st.w(p.r); I.kill(st, r, p.off, p.off + 26)
    L = fresh('asc', 24, 25)
    I.add_fact(st, r, (p.off + L,), (p.off + L + 1,), ('const', 0)); I.add_fact(st, r, (p.off,), (p.off + L,), ('nz',))
    return [(st, v[1])]
@model('difftime', 'clock')
def m_dt(I, st, ins, v, a, fv): return [(st, I.fresh_of(st, ins.ty, 'dt'))]

# ------------------------------------------------------------------ sockets
def peer(I, st, p):
    """the system fills in the address of the peer"""
    p = I.resolve(st, p)
    if not isinstance(p, Ptr): return
    p = I.access(st, p, C(16), 'the address of the peer', True)
    if p is None or p.off.const() is None: return
    r = st.w(p.r); I.kill(st, r, p.off, p.off + 16); o = p.off.const()
    for k, n, x in ((0, 2, C(2)), (2, 2, fresh('pport', -32768, 32767)), (4, 4, fresh('paddr', -2**31, 2**31 - 1))): r.cells[o + k] = (n, x)
    st.ghost[('peer',)] = (r.cells[o + 2][1], r.cells[o + 4][1])
@model('socket', 'accept')
def m_socket(I, st, ins, v, a, fv):
    s2 = st.fork()
    if len(v) > 1: peer(I, st, v[1])
    fd = fresh('fd', 0, 1 << 20)
    st.ghost[('fd', fd.single())] = I.mod.srcloc(I.cur.loc)
    return [(st, fd), (s2, C(-1))]
@model('close')
def m_close(I, st, ins, v, a, fv):
    x = v[0] if isinstance(v[0], Poly) else None
    if x is not None and x.single() is not None:
        if st.ghost.get(('fdclosed', x.single())): I.alarm('twice', 'a descriptor opened by this call is closed again', st); return []
        if st.ghost.pop(('fd', x.single()), None): st.ghost[('fdclosed', x.single())] = 1
    return [(st, fresh('rc', -1, 0))]
@model('bind', 'listen', 'connect', 'setsockopt', 'shutdown', 'getsockname')
def m_sockop(I, st, ins, v, a, fv): return [(st, fresh('rc', -1, 0))]
@model('poll')
def m_poll(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0]); n = I64(I, st, v[1])
    bad = st.fork(); none = st.fork(); out = [(bad, C(-1)), (none, C(0))]
    if isinstance(p, Ptr) and p.off.const() is not None and n.const() == 1:
        for rc, rev in ((0, 0), (1, 1), (1, 17), (1, 8), (1, 16)):
            t = none if rc == 0 else st.fork()
            q = I.access(t, p, C(8), 'poll', True)
            if q is None: return []
            t.w(q.r).cells[q.off.const() + 6] = (2, C(rev)); t.ghost[('revents',)] = rev
            if rc: out.append((t, C(1)))
        return out
    if isinstance(p, Ptr):
        if I.access(st, p, n * 8, 'poll', True) is None: return []
        for t in (none, st): I.kill(t, t.w(p.r), p.off, p.off + n * 8)
    k = fresh('poll', 1, 2**31 - 1); st.cs.add(n - k)
    return out + ([(st, k)] if st.cs.feasible() else [])
@model('send', 'sendto')
def m_send(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    if I.resolve(st, v[1]) is NULL: return [(st, C(-1))]        # the kernel refuses it (EFAULT)
    if I.access(st, v[1], n, 'send') is None: return []
    k = fresh('snt', -1, SIZE_HI); st.cs.add(n - k)
    return [(st, k)]
@model('recv', 'recvfrom')
def m_recv(I, st, ins, v, a, fv):
    n = I64(I, st, v[2])
    if I.resolve(st, v[1]) is NULL: return [(st, C(-1))]
    p = I.access(st, v[1], n, 'recv', True)
    if p is None: return []
    r = st.w(p.r); I.kill(st, r, p.off, p.off + n)
    if len(v) > 4: peer(I, st, v[4])
    k = fresh('rcv', -1, SIZE_HI); st.cs.add(n - k)
    return [(st, k)]
@model('htons', 'ntohs', 'llvm.bswap.i16')
def m_swap16(I, st, ins, v, a, fv):
    x = v[0]
    if isinstance(x, Poly):
        s = x.single()
        while s is not None and Syms.prov[s] and (Syms.prov[s][0] == 'tr' and Syms.prov[s][2] >= 16 or Syms.prov[s][0] == 'zx' and (Syms.hi[s] or 0) >= 65535) and isinstance(Syms.prov[s][1], Poly): x = Syms.prov[s][1]; s = x.single()
        c = x.const()
        if c is not None: c &= 65535; c = (c & 255) << 8 | c >> 8; return [(st, C(c - 65536 if c > 32767 else c))]
        if s is not None and Syms.prov[s] and Syms.prov[s][0] == 'swap16': return [(st, Syms.prov[s][1])]
        k = ('swap16', x); r = I.terms.get(k)
        if r is None: r = fresh('net', -32768, 32767, prov=k); I.terms[k] = r
        return [(st, r)]
    return [(st, I.fresh_of(st, ins.ty, 'p'))]
@model('htonl', 'ntohl', 'llvm.bswap.i32')
def m_swap32(I, st, ins, v, a, fv):
    x = v[0]
    if not isinstance(x, Poly): return [(st, I.fresh_of(st, ins.ty, 'p'))]
    c = x.const(); s = x.single()
    if c is not None: c = int.from_bytes((c & 0xffffffff).to_bytes(4, 'little'), 'big'); return [(st, C(c - (1 << 32) if c >> 31 else c))]
    if s is not None and Syms.prov[s] and Syms.prov[s][0] == 'swap32': return [(st, Syms.prov[s][1])]
    k = ('swap32', x); r = I.terms.get(k)
    if r is None: r = fresh('net', -2**31, 2**31 - 1, prov=k); I.terms[k] = r
    return [(st, r)]
@model('inet_addr')
def m_inet(I, st, ins, v, a, fv):
    p = I.resolve(st, v[0])
    if not isinstance(p, Ptr): return [(st, I.fresh_of(st, ins.ty, 'p'))]
    if I.access(st, p, C(1), 'inet_addr') is None: return []
    k = ('inet', p.r, p.off); r = I.terms.get(k)
    if r is None: r = fresh('inet', -2**31, 2**31 - 1, prov=k); I.terms[k] = r
    return [(st, r)]
@model('inet_ntoa', 'inet_pton', '__errno_location', 'strerror')
def m_pure(I, st, ins, v, a, fv): return [(st, I.fresh_of(st, ins.ty, 'p'))]
