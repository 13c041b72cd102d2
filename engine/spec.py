"""Entry configurations (contracts) for the public functions and the post-state invariants of the containers."""
import re, os, json
import ir
from poly import *
from absint import *
from loops import LoopMixin
import models

class VI(LoopMixin, Interp):
    cb_els = C(1); cb_nz = False
    def cb_size(self, st, p): return self.cb_els

A_STATS = 0; A_LIST = 40; A_LLEN = 48; A_LCAP = 56; A_ALLOC = 64; A_REALLOC = 72; A_FREE = 80
O_LEN = 0; O_CAP = 8; O_ELS = 16; O_SLI = 24; O_VIEW = 32; O_PTR = 40; O_AL = 48

def set_layout(mod):
    """field offsets of the container and allocator structures, from the debug information of the current tree"""
    def members(name):
        for k, t in mod.md.items():
            if 'DICompositeType' in t and 'name: "%s"' % name in t and 'elements:' in t:
                out = {}
                def walk(ref, base):
                    for x in mod.mdf(mod.mdf(ref)['elements'])['items']:
                        d = mod.mdf(x); o = base + int(d.get('offset', 0)) // 8
                        if d.get('name'): out.setdefault(d['name'], o)
                        b = mod.mdf(d.get('baseType'))
                        if b and b.get('_k') == 'DICompositeType' and not b.get('name') and 'elements' in b: walk(d['baseType'], o)
                walk(k, 0)
                return out, int(mod.mdf(k)['size']) // 8
        raise ir.Broken('structure %s is gone' % name)
    g = globals()
    a, g['HDR'] = members('VitaBaseArrayType'); b, g['ALH'] = members('VitaBaseAllocatorType')
    try:
        for k, f in (('O_LEN', 'len'), ('O_CAP', 'capacity'), ('O_ELS', 'elsize'), ('O_SLI', 'slider_idx'), ('O_VIEW', 'is_view'), ('O_PTR', 'ptr'), ('O_AL', 'alloctr')): g[k] = a[f]
        for k, f in (('A_LIST', 'obj_list'), ('A_LLEN', 'obj_list_len'), ('A_LCAP', 'obj_list_capacity'), ('A_ALLOC', 'alloc'), ('A_REALLOC', 'realloc'), ('A_FREE', 'free')): g[k] = b[f]
        g['A_ST'] = {k: b['stats'] + o for k, o in members('VitaAllocatorStats')[0].items()}
    except KeyError as x: raise ir.Broken('field %s is gone' % x)
    g['OPT'] = members('VitaArgOpt'); g['DT'] = members('VitaDateTime')[0]
    g['LOGLV'] = enum_values(mod, 'VitaLogLevel')
    g['STABLE'] = C(enum_values(mod, 'VitaRemoveStrategy')['VT_REMOVE_STRATEGY_STABLE'])
    g['STATUS'] = enum_values(mod, 'VitaStatus')
    g['TYPES'] = {k.replace('VT_TYPE_', ''): v for k, v in enum_values(mod, 'VitaTypeInfo').items()}
HDR = 56; ALH = 88
def enum_values(mod, name):
    for k, t in mod.md.items():
        if 'DICompositeType' in t and 'name: "%s"' % name in t and 'enumeration_type' in t:
            out = {}
            for x in mod.mdf(mod.mdf(k)['elements'])['items']:
                d = mod.mdf(x); out[d['name']] = int(d['value'])
            return out
    raise ir.Broken('enumeration %s is gone' % name)

API = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.json')))

def strip_c(t):
    return re.sub(r'\bconst\s+', '', t).strip()

class Cont:
    """a container handed to the function under analysis"""
    def __init__(self, kind, hdr, buf, ln, cap, els, al, view, sli, Z=None, name=''):
        self.kind = kind; self.hdr = hdr; self.buf = buf; self.len = ln; self.cap = cap; self.els = els; self.al = al
        self.view = view; self.sli = sli; self.Z = Z; self.name = name

def mk_alloc(I, st, name='allocator'):
    r = I.new_region(st, 'stack', C(ALH), 'borrowed', name)
    r.cells = {A_ALLOC: (8, FnV('$alloc', r.id)), A_REALLOC: (8, FnV('$realloc', r.id)), A_FREE: (8, FnV('$free', r.id))}
    return r

def mk_cont(I, st, kind, al=None, view=False, els=None, nullbuf=False, hdr_kind='stack', name='c', const=False, onstack=False, exact=False):
    ln = fresh(name + '.len', 0, SIZE_HI)
    origin = ('A', al.id) if al is not None else 'libc'
    if els is None:
        els = C(1) if kind == 'str' else C(8) if kind == 'plist' else fresh('elsize', 1, 1 << 20)
    if view:
        cap = C(0)
        size = ln * els + (els if kind == 'str' else 0)
        buf = I.new_region(st, 'buf' if onstack else 'viewbuf', size, 'borrowed', name + ' viewed storage')
    else:
        cap = fresh(name + '.cap', 0, SIZE_HI)
        st.cs.add(cap - ln)
        size = cap * els + (C(1) if kind == 'str' else ZERO)
        buf = I.new_region(st, 'buf', size, origin, name + ' storage')
    Z = None
    if kind == 'str':
        Z = fresh(name + '.zlen', 0, SIZE_HI)
        st.cs.add(ln - Z)
        I.add_fact(st, buf, (ln,), (ln + 1,), ('const', 0))
        I.add_fact(st, buf, (Z,), (Z + 1,), ('const', 0))
        I.add_fact(st, buf, (ZERO,), (Z,), ('nz',))
        if exact: st.cs.add(Z - ln)
    st.w(buf.id).facts = st.reg[buf.id].facts + (Fact((ZERO,), (ln * els,), ('init', buf.id, ZERO)),)
    h = I.new_region(st, 'stack', C(HDR), origin if not (view or onstack) else 'borrowed', name)
    if hdr_kind == 'heap': h.kind = 'heap'
    h.kind = 'hdr'
    sli = fresh(name + '.slider', 0, SIZE_HI)
    h.cells = {O_LEN: (8, ln), O_CAP: (8, cap), O_ELS: (8, els), O_SLI: (8, sli), O_VIEW: (1, C(1) if view else C(0)),
               O_PTR: (8, NULL if nullbuf else Ptr(buf.id, ZERO, 0)), O_AL: (8, Ptr(al.id, ZERO, 0) if al is not None else NULL)}
    if nullbuf: pass
    return Cont(kind, h.id, buf.id, ln, cap, els, al.id if al is not None else None, view, sli, Z, name)

def mk_cstr(I, st, name, const=True):
    L = fresh(name + '.strlen', 0, SIZE_HI)
    r = I.new_region(st, 'cstr', L + 1, 'borrowed', 'string ' + name)
    I.add_fact(st, r, (L,), (L + 1,), ('const', 0)); I.add_fact(st, r, (ZERO,), (L,), ('nz',))
    r.facts = r.facts + (Fact((ZERO,), (L + 1,), ('init', r.id, ZERO)),)
    r.ro = const
    return r, L

CT = {'vt_str_t': 'str', 'vt_vec_t': 'vec', 'vt_plist_t': 'plist', 'vt_span_t': 'span', 'struct VitaBaseArrayType': 'vec'}
TSIZE = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f': 4, 'd': 8, 'r': 16, 'p': 8}

SMALL = None     # set by small.py: parameters with given short texts

class Entry:
    def __init__(self, I, fn): self.I = I; self.fn = fn; self.st = State(); self.vals = []; self.params = []; self.al = None; self.shared = {}

def typed_els(fname):
    m = re.match(r'vt_(vec|span)_(?:get|set|push_back|push_front|pop_get|insert|can_find|has|remove_element)(i8|u8|i16|u16|i32|u32|i64|u64|f|d|r)$', fname)
    if m: return TSIZE[m.group(2)]
    return None

_sizes = {}
def struct_size(mod, name):
    """bytes of a structure (tag or typedef), from the debug information"""
    if (id(mod), name) not in _sizes:
        v = None
        for k, t in mod.md.items():
            if 'name: "%s"' % name not in t: continue
            if 'DICompositeType' in t and 'size:' in t: v = int(mod.mdf(k)['size']) // 8; break
            if 'DW_TAG_typedef' in t:
                d = mod.mdf(mod.mdf(k).get('baseType'))
                if d and d.get('_k') == 'DICompositeType' and d.get('size'): v = int(d['size']) // 8; break
        _sizes[(id(mod), name)] = v
    return _sizes[(id(mod), name)]
def params_of(mod, fn):
    """[(ir name, ir type, attrs, C type)] including a hidden result pointer"""
    ret, cts = mod.param_types(fn)
    ps = list(fn.params)
    out = []
    if ps and 'sret' in ps[0][2]:
        out.append((ps[0][0], ps[0][1], ps[0][2], 'sret'))
        ps = ps[1:]
        cts = list(cts)
    # a small structure travels in one register per eight bytes
    full = []
    for ct in cts:
        k = 1
        if '*' not in ct and strip_c(ct).startswith('struct ') and len(full) < len(ps) and ps[len(full)][1].k == 'int':
            k = ((struct_size(mod, strip_c(ct)[7:]) or 8) + 7) // 8
        full += [ct] * max(1, k)
    cts = full
    for (nm, ty, at), ct in zip(ps, list(cts) + [''] * (len(ps) - len(cts))):
        out.append((nm, ty, at, ct))
    return out

def make_entry(I, fn, cfg, table):
    """cfg: dict with keys al ('none'|'A'), null (param index or None), nullbuf (param index), view (param index), alnull"""
    e = Entry(I, fn); st = e.st; mod = I.mod
    al = mk_alloc(I, st) if cfg.get('al') == 'A' else None
    al2 = mk_alloc(I, st, 'second allocator') if cfg.get('al2') else None
    e.al = al
    scales = []
    te = typed_els(fn.name)
    ps = params_of(mod, fn)
    first_vec = None
    small = dict(cfg.get('small', ()))
    for i, (nm, ty, at, ct) in enumerate(ps):
        base = strip_c(ct); isconst = ct.startswith('const const') or (ct.startswith('const ') and ct.count('*') and not ct.startswith('const const') and False)
        star = base.endswith('*'); tgt = base[:-1].strip() if star else base
        name = nm.lstrip('%')
        api = API.get(fn.name)
        if api and len(api['params']) == len(ps): name = api['params'][i]
        rule = table.get((fn.name, name)) or table.get(('*', name, tgt))
        info = {'name': name, 'ct': ct, 'kind': None}
        v = None
        if ct == 'sret':
            r = I.new_region(st, 'stack', C(mod.size(at['sret'])), 'stack', 'result'); info['kind'] = 'sret'; info['rid'] = r.id
            v = Ptr(r.id, ZERO, 0)
        elif cfg.get('null') == i and ty.k == 'ptr' and 'byval' not in at:
            v = NULL; info['kind'] = 'null'
        elif cfg.get('huge') == i and ty.k == 'int' and ty.n == 64:
            v = C(-1); info['kind'] = 'int'; info['v'] = v      # SIZE_MAX
        elif name.split('.coerce')[0] in small and (v := SMALL(I, st, e, info, small[name.split('.coerce')[0]], ct, ty)) is not None: pass
        elif rule is not None:
            v = rule(I, st, e, info, cfg)
        elif 'byval' in at or (star and tgt in CT):
            k = CT.get(tgt if star else base)
            if k is None:
                r = I.new_region(st, 'stack', C(mod.size(at['byval'])), 'stack', name); v = Ptr(r.id, ZERO, 0); info['kind'] = 'byval'
            else:
                els = None
                if te is not None and k in ('vec', 'span'): els = C(te)
                if first_vec is not None and k == 'vec' and cfg.get('same_els', True): els = first_vec.els
                view = cfg.get('view') == i or k == 'span'
                kk = 'vec' if k == 'span' else k
                cal = al if not cfg.get('mixed') or (cfg['mixed'] == 'first') == (not any(x['kind'] == 'cont' for x in e.params)) else None
                c = mk_cont(I, st, kk, cal, view, els, cfg.get('nullbuf') == i, name=name, onstack=(k == 'span'), exact=bool(cfg.get('exact')))
                if kk == 'vec':
                    if first_vec is None: first_vec = c
                    if c.els.const() is None: scales.append(c.els)
                info['kind'] = 'cont'; info['c'] = c
                v = Ptr(c.hdr, ZERO, 0)
        elif star and tgt == 'struct VitaBaseAllocatorType' or tgt == 'vt_mallocator_t' and star:
            v = Ptr(al.id, ZERO, 0) if al is not None else NULL
            info['kind'] = 'alloctr'
        elif star and tgt == 'char':
            r, L = mk_cstr(I, st, name, 'const' in ct.replace('const char* const', '')); info['kind'] = 'cstr'; info['rid'] = r.id; info['L'] = L
            v = Ptr(r.id, ZERO, 0)
        elif star and tgt == 'void' or tgt == 'uint8_t' and star:
            # one element
            n = first_vec.els if first_vec is not None else None
            r = I.new_region(st, 'cstr' if n is not None else 'foreign', n, 'borrowed', name)
            if n is not None: r.facts = (Fact((ZERO,), (n,), ('init', r.id, ZERO)),)
            v = Ptr(r.id, ZERO, 0); info['kind'] = 'elem'; info['rid'] = r.id
        elif base == 'fn*' or 'fn*' in base:
            v = FnV('$callback'); info['kind'] = 'fn'
            c0 = next((x['c'] for x in e.params if x['kind'] == 'cont'), None)
            if c0 is not None: I.cb_els = c0.els; I.cb_nz = c0.kind == 'str'
            if c0 is not None and c0.kind == 'plist': I.cb_els = C(0)
        elif ty.k == 'ptr':
            n = None
            if tgt in ('size_t', 'int64_t', 'uint64_t', 'double', 'void*', 'char*', 'time_t'): n = C(8)
            elif tgt in ('int32_t', 'uint32_t', 'float', 'int'): n = C(4)
            elif tgt == 'real': n = C(16)
            elif tgt == 'struct __va_list_tag': n = C(24)
            else:
                k = struct_size(mod, tgt.replace('struct ', ''))
                if k: n = C(k)
            r = I.new_region(st, 'stack' if n is not None else 'foreign', n, 'borrowed', name)
            v = Ptr(r.id, ZERO, 0); info['kind'] = 'out'; info['rid'] = r.id
        elif ty.k == 'int':
            if ty.n == 64:
                v = fresh(name, 0, SIZE_HI) if 'size_t' in base or 'uint64' in base else fresh(name, -(1 << 60), 1 << 60)
            elif ty.n == 1: v = I.fresh_of(st, ty, name)
            else:
                un = base.startswith('uint') or base.startswith('enum')
                v = fresh(name, 0 if un else -(1 << (ty.n - 1)), ((1 << ty.n) - 1) if un else (1 << (ty.n - 1)) - 1)
                if base.startswith('enum'): v = fresh(name, 0, 255)
            info['kind'] = 'int'; info['v'] = v
        else:
            v = I.fresh_of(st, ty, name); info['kind'] = 'opaque'
        info['val'] = v
        e.vals.append(v); e.params.append(info)
    I.scales = tuple(scales)
    e.entry_regs = set(st.reg)
    return e

# ------------------------------------------------------------------ invariants
def hdr_cell(st, rid, off):
    c = st.reg[rid].cells.get(off)
    return c[1] if c is not None else None

def check_cont(I, st, rid, kind, where, expect=None):
    """container invariant on the header region rid in state st; raises alarms (kinds inv-*)"""
    r = st.reg.get(rid)
    if r is None or not r.live: return None
    def bad(k, msg, p=None): I.alarm(k, '%s: %s' % (where, msg), st, p.syms() if p is not None else ())
    ln, cap, els, ptr, al = (hdr_cell(st, rid, o) for o in (O_LEN, O_CAP, O_ELS, O_PTR, O_AL))
    view = hdr_cell(st, rid, O_VIEW)
    if not isinstance(ln, Poly): ln = ZERO if st.reg[rid].facts and I.covers(st, st.reg[rid], C(O_LEN), C(O_LEN + 8), ('const', 0)) else None
    if not isinstance(cap, Poly): cap = ZERO if I.covers(st, st.reg[rid], C(O_CAP), C(O_CAP + 8), ('const', 0)) else None
    if not isinstance(els, Poly): els = None
    if al is None and I.covers(st, st.reg[rid], C(O_AL), C(O_AL + 8), ('const', 0)): al = NULL
    if ln is None or cap is None or els is None:
        bad('inv-fields', 'length, capacity or element size of the container is not set'); return None
    p = I.resolve(st, ptr) if ptr is not None else None
    if not isinstance(p, Ptr):
        bad('inv-storage', 'the container has no storage'); return None
    I.obl += 1
    if p.off.const() != 0:
        bad('inv-storage', 'storage pointer is not the start of the block (offset %r)' % p.off, p.off); return None
    b = st.reg.get(p.r)
    if b is None or not b.live: bad('inv-storage', 'the container\'s storage has been released'); return None
    if p.gen != b.gen: bad('inv-storage', 'the container still points to the storage it had before reallocation'); return None
    I.proved += 1
    isview = isinstance(view, Poly) and view.const() == 1 or view == TRUE
    I.obl += 1
    if not st.cs.entails(ln): bad('inv-len', 'length can wrap below zero (%r)' % ln, ln)
    else: I.proved += 1
    if not isview:
        I.obl += 2
        if not st.cs.entails(cap - ln): bad('inv-len', 'length %r can exceed capacity %r' % (ln, cap), cap - ln)
        else: I.proved += 1
        need = cap * els + (els if kind == 'str' else 0)
        if b.size is None: pass
        elif not st.cs.entails(b.size - need): bad('inv-cap', 'storage of %r bytes is smaller than the recorded capacity needs (%r)' % (b.size, need), b.size - need)
        else: I.proved += 1
        # affinity
        a = I.resolve(st, al) if al is not None else NULL
        want = 'libc' if a is NULL else ('A', a.r) if isinstance(a, Ptr) else None
        I.obl += 1
        if want is not None and b.origin not in (want, 'foreign', None): bad('affinity', 'storage was obtained from %s but the container records %s' % (models.oname(b.origin), models.oname(want)))
        elif want is not None and st.reg[rid].origin not in (want, 'foreign', None, 'borrowed', 'stack'): bad('affinity', 'container object was obtained from %s but records %s' % (models.oname(st.reg[rid].origin), models.oname(want)))
        else: I.proved += 1
    if kind == 'str':
        I.obl += 1
        if not st.cs.bad and not I.covers(st, b, ln, ln + 1, ('const', 0)): bad('inv-nul', 'no terminating NUL at the recorded length %r' % ln, ln)
        else: I.proved += 1
    return ln, cap, els, b
