"""Command line options: parsing and the help text on given option tables, argument texts of abstract bytes."""
import spec, models, ir, small, num, out, contracts
from poly import *
from absint import *
from small import ref, Out, P, fill, mk_text, hdr_cell, text
from out import B, told, match, show
ARGT = contracts.ARGT
LL = {'INT8': 'i8', 'INT16': 'i16', 'INT32': 'i32', 'INT64': 'i64', 'UINT8': 'u8', 'UINT16': 'u16', 'UINT32': 'u32', 'UINT64': 'u64', 'FLOAT': 'f', 'DOUBLE': 'd', 'REAL': 'r'}

# ------------------------------------------------------------------ entry states
def mk_parts(I, st, name, parts):
    """a text given by pieces: bytes, or a number of arbitrary characters"""
    n = sum(len(x) if isinstance(x, bytes) else x for x in parts); r = I.new_region(st, 'text', C(n + 1), 'borrowed', 'string ' + name); bs = []
    for x in parts:
        if isinstance(x, bytes): bs += [C(c) for c in x]
        else: bs += [fresh('ch.%s%d' % (name, len(bs) + i), 1, 127) for i in range(x)]
    for i, b in enumerate(bs):
        r.cells[i] = (1, b)
        if b.const() is None: st.nz = st.nz | {b.single()}
        else: I.add_fact(st, r, (C(i),), (C(i + 1),), ('const', b.const()))
    I.add_fact(st, r, (C(n),), (C(n + 1),), ('const', 0)); r.cells[n] = (1, C(0)); r.ro = True
    return r.id, bs
def mk_argv(I, st, e, info, x, ct, ty):
    r = I.new_region(st, 'text', C(8 * (len(x) + 1)), 'borrowed', 'argv'); e.args = []
    t, _ = mk_text(I, st, 'program', 1); st.w(r.id).cells[0] = (8, Ptr(t.id, ZERO, 0))
    for k, parts in enumerate(x):
        rid, bs = mk_parts(I, st, 'argv%d.' % (k + 1), parts); st.w(r.id).cells[8 * (k + 1)] = (8, Ptr(rid, ZERO, 0)); e.args.append(bs)
    info.update(kind='argv', rid=r.id); return Ptr(r.id, ZERO, 0)
def mk_optv(I, st, e, info, x, ct, ty):
    off, size = spec.OPT
    r = I.new_region(st, 'text', C(size * len(x)), 'borrowed', 'optv'); e.opts = []
    for k, (lng, sht, desc, t, was) in enumerate(x):
        o = dict(type=t, long=[C(c) for c in lng] if lng is not None else None, short=[C(c) for c in sht] if sht is not None else None, desc=None, was=was)
        v = I.new_region(st, 'text', C(ARGT.get(t, 16)), 'borrowed', 'option value'); o['rid'] = v.id
        if t in ('STR', 'CSTR'):
            if was is None: v.cells = {0: (8, NULL)}
            elif t == 'STR': c = small.mk_str(I, st, 'old%d' % k, was, e.al, 0); st.w(v.id).cells = {0: (8, Ptr(c.hdr, ZERO, 0))}; o['old'] = c.hdr; o['oldtext'] = c.bytes; e.owned = getattr(e, 'owned', []) + [c.hdr, c.buf]
            else:
                b = I.new_region(st, 'text', C(was + 1), ('A', e.al.id) if e.al is not None else 'libc', 'old value'); o['oldtext'] = fill(I, st, b, 'old%d' % k, was); st.w(v.id).cells = {0: (8, Ptr(b.id, ZERO, 0))}; o['old'] = b.id; e.owned = getattr(e, 'owned', []) + [b.id]
        elif t in LL and t not in ('FLOAT', 'DOUBLE', 'REAL') or t == 'CHAR': o['init'] = fresh('old%d' % k, 1, 100); v.cells = {0: (ARGT[t], o['init'])}
        elif t == 'BOOL': o['init'] = C(was or 0); v.cells = {0: (1, o['init'])}
        for f, z in (('optionLong', lng), ('optionShort', sht), ('optionDesc', desc)):
            if z is None: st.w(r.id).cells[size * k + off[f]] = (8, NULL); continue
            rid, bs = mk_parts(I, st, f, z if isinstance(z, tuple) else (z,)); st.w(r.id).cells[size * k + off[f]] = (8, Ptr(rid, ZERO, 0))
            o[{'optionLong': 'long', 'optionShort': 'short', 'optionDesc': 'desc'}[f]] = bs
        st.w(r.id).cells[size * k + off['optionValue']] = (8, Ptr(v.id, ZERO, 0) if t != 'NOVALUE' else NULL)
        st.w(r.id).cells[size * k + off['optionType']] = (4, C(spec.TYPES.get(t, 0) if not t.startswith('BADTYPE') else 99 if t == 'BADTYPE' else spec.TYPES['COUNT']))
        e.opts.append(o)
    info.update(kind='optv', rid=r.id); return Ptr(r.id, ZERO, 0)
small.MAKERS['argv'] = mk_argv; small.MAKERS['optv'] = mk_optv

# ------------------------------------------------------------------ what is expected
def parse(d, args, opts):
    """(result, {option index: value text}, unrecognised argument or None); None: left open"""
    for o in opts:
        if o['long'] is None or o['short'] is None or o['type'] in ('NOVALUE', 'BADTYPE', 'BADTYPE0') or len(o['short']) > 3: return -1, {}, None
    if len(args) == 1 and args[0] and (d.eq(args[0][0], 63) or d.same(args[0], B('-h')) or d.same(args[0], B('--help'))): return 1, {}, None
    got = {}; i = 0
    while i < len(args):
        a = args[i]
        if not a: return None
        k = next((k for k in range(len(a)) if d.eq(a[k], 61)), None)
        if k == 0: return None
        name = a if k is None else a[:k]
        j = next((j for j, o in enumerate(opts) if d.same(name, o['long']) or d.same(name, o['short'])), None)
        if j is None: return -1, got, a
        if k is not None: v = a[k + 1:]
        elif i + 1 < len(args) and (not args[i + 1] or not d.eq(args[i + 1][0], 45)): i += 1; v = args[i]
        else: v = B('1')
        if not v: return None
        got[j] = v; i += 1
    return 0, got, None
def vague(x, why):
    x.I.vague = getattr(x.I, 'vague', 0) + 1
    import os
    if os.environ.get('VITA_VAGUE'): print('VAGUE', why, x.case)
    return None
def value_is(x, o, z):
    """message when option o does not hold the value text z (None: untouched)"""
    I, st = x.I, x.st; t = o['type']; where = Ptr(o['rid'], ZERO, st.reg[o['rid']].gen)
    if t in ('STR', 'CSTR'):
        q = I.resolve(st, I.load_raw(st, where, ir.PTR, 8))
        if z is None:
            if o['was'] is None: return None if q is NULL else 'an option that was not given has a value now'
            z = o['oldtext']
        if q is NULL: return 'the value of a given option is missing'
        if not isinstance(q, Ptr) or q.r not in st.reg: return vague(x, 'ptr')
        if t == 'STR':
            n = hdr_cell(st, q.r, spec.O_LEN); b = I.resolve(st, hdr_cell(st, q.r, spec.O_PTR))
            if not isinstance(n, Poly) or n.const() is None or not isinstance(b, Ptr): return vague(x, 'hdr')
            if n.const() != len(z): return 'the value has length %d, expected %s' % (n.const(), show(z))
            g = small.raw(I, st, b, n.const())
        else: g = text(I, st, q)
        if g is None: return vague(x, 'text')
        if len(g) != len(z) or not all(st.cs.entails_eq(a - b) for a, b in zip(g, z)): return 'the value is %s, expected %s' % (show(g), show(z))
        return None
    if t in ('FLOAT', 'DOUBLE', 'REAL'):
        if z is None: return None
        v = I.real(I.load_raw(st, where, ir._fl[{'FLOAT': 'float', 'DOUBLE': 'double', 'REAL': 'x86_fp80'}[t]], ARGT[t]))
        r = z
        if v is None or r is None: return vague(x, 'real')
        dl = v.p * r.q - r.p * v.q
        return None if not dl.d or st.cs.entails_eq(dl) else 'the value is %r / %r, expected %r / %r' % (v.p, v.q, r.p, r.q)
    v = I.load_raw(st, where, ir.Ty('int', 8 * ARGT[t]), ARGT[t])
    if isinstance(v, Cond): v = C(1) if v.t == ('c', True) else C(0) if v.t == ('c', False) else None
    if not isinstance(v, Poly): return vague(x, 'int %r' % (v,))
    w = o['init'] if z is None else z
    if st.cs.entails_eq(v - w): return None
    u = v.single()
    if u is not None and Syms.prov[u] and Syms.prov[u][0] == 'tr':
        if st.cs.entails_eq(Syms.prov[u][1] - w): return None
        top = 1 << Syms.prov[u][2]
        if not (st.cs.entails(Syms.prov[u][1] - w + top - 1) and st.cs.entails(w - Syms.prov[u][1] + top - 1)): return vague(x, 'trunc')
    n = 8 * ARGT[t]
    if st.cs.entails(w - (1 << n - 1)) and st.cs.entails_eq(v - w + (1 << n)): return None         # the same bits
    if any(Syms.imp[q] for q in v.syms()): return vague(x, 'imp')
    return 'the value is %r, expected %r' % (v, w)
def meant(d, o, z):
    """the value a text stands for, or None: left open"""
    t = o['type']
    if t in LL:
        r = num.spelled(d, z, LL[t])
        if r is None: return None
        if r[0] == 'zero': return C(0) if LL[t] in num.ITY else small.Rat(C(0), C(1))
        return r[1]
    if t == 'BOOL': return C(1) if d.eq(z[0], 49) or d.same(z, B('true')) else C(0)
    if t == 'CHAR': return z[0]
    return z
A = (b'--aa', b'-a', b'', 'INT32', None); S_ = (b'--ss', b'-s', b'', 'STR', None)
def o(t, was=None, l=b'--aa', s=b'-a'): return (l, s, b'', t, was)
def case(args, *opts): return {'argc': len(args) + 1, 'argv': tuple(args), 'optc': len(opts), 'optv': tuple(opts), '@report': 1}
CASES = []
for t in ('INT8', 'INT16', 'INT32', 'INT64', 'UINT8', 'UINT16', 'UINT32', 'UINT64', 'FLOAT', 'DOUBLE', 'REAL', 'BOOL', 'CHAR'):
    CASES += [case([(b'--aa=', 2)], o(t)), case([(b'-a',), (2,)], o(t, 1)), case([(b'-a',)], o(t)), case([(b'-a=', 3)], o(t))]
for t, v in (('INT16', 30000), ('UINT16', 65535), ('INT32', 2147483647), ('UINT32', 4294967295), ('INT64', (1 << 63) - 1), ('UINT64', (1 << 64) - 1), ('FLOAT', (1 << 24) - 1), ('DOUBLE', (1 << 53) - 1), ('REAL', (1 << 63) - 1)): CASES.append(case([(b'-a=%d' % v,)], o(t)))
CASES += [case([(b'-a=true', 1)], o('BOOL')), case([(b'-a=tru', 1)], o('BOOL', 1)), case([(b'-a',), (4,)], o('BOOL', 1)), case([(b'-a=', 4)], o('BOOL', 0)), case([], o('INT32')), case([], o('BOOL', 1))]
for t in ('STR', 'CSTR'):
    for was in (None, 0, 1, 3):
        if t == 'STR' and was == 0: continue
        CASES += [case([(b'--aa=', 2)], o(t, was)), case([(b'-a',), (2,)], o(t, was)), case([(b'-a',)], o(t, was)), case([(b'-b',)], o(t, was)), case([(b'-a=', 3)], o(t, was))]
TWO = (o('INT32'), o('STR', None, b'--ss', b'-s'))
CASES += [case([(1,)], o('INT32')), case([(2,)], o('INT32')), case([(3,)], o('INT32')), case([(4,)], o('CHAR')), case([(b'-', 2)], *TWO), case([(b'-', 1), (2,)], *TWO), case([(b'-', 1), (b'-', 1)], *TWO), case([(b'--', 2, b'=', 1)], *TWO),
          case([(b'-a=', 1), (b'--ss=', 1)], *TWO), case([(b'--ss',), (1,), (b'-a',), (1,)], *TWO), case([(b'-s',), (b'-a',), (1,)], *TWO), case([(b'-a=', 1), (b'-x',)], *TWO), case([(b'-x',), (b'-a=', 1)], *TWO), case([(b'-h',), (b'-a',)], *TWO),
          case([(b'-a=', 1), (b'-h',)], *TWO), case([(b'-a=1=', 1)], o('STR')), case([(b'--a=1',)], o('INT32')), case([(b'--aaa=1',)], o('INT32')), case([(6,)], o('BOOL')),
          case([(b'-a=1',), (b'-a=', 1)], o('STR')), case([(b'-a=', 1)], o('INT32', None, b'--xx', b'-x'), o('INT32')), case([(b'-a=', 1)], o('INT32'), o('INT32', None, b'--xx', b'-x')),
          case([(b'-a=1',)], o('INT32', None, None)), case([(b'-a=1',)], o('INT32', None, b'--aa', None)), case([(b'-a=1',)], o('INT32', None, b'--aa', b'-aaa')), case([(b'-aa=', 1)], o('INT32', None, b'--aa', b'-aa')), case([(b'-a=1',)], o('NOVALUE')), case([(b'-a=1',)], o('BADTYPE')), case([(b'-a=1',)], o('BADTYPE0')),
          case([(b'-h',)], o('INT32', None, b'--aa', b'-aaa')), case([(b'-h',)], o('INT32', None, b'--hh', b'-h'))]
@ref('vt_argopt_parse', *CASES)
def _(d, p, x):
    e = x.e; r = parse(d, e.args, e.opts)
    if r is None: return None
    res, got, bad = r; want = {}
    for j, ov in enumerate(e.opts):
        if j in got:
            want[j] = meant(d, ov, got[j])
            if want[j] is None: want[j] = 'open'; vague(x, 'open')
        else: want[j] = None
    def check(x, rv):
        if x.exited: return 'ends the program'
        for j, ov in enumerate(e.opts):
            if ov['type'] not in ARGT or isinstance(want[j], str): continue
            m = value_is(x, ov, want[j])
            if m: return 'option %d: %s' % (j, m)
        said, _, _ = told(x)
        if res >= 0 and any(said.get(k) for k in said): return 'prints although there is nothing to report'
        if bad is not None:
            if 'stdout' not in said and 'stderr' not in said and None not in said: return 'does not report the unrecognised option'
            t = said.get('stdout', said.get('stderr'))
            if t is not None and not any(len(t) >= k + len(bad) and all(not isinstance(a, tuple) and x.st.cs.entails_eq(a - b) for a, b in zip(t[k:], bad)) for k in range(len(t))): return 'the report %s does not name the unrecognised option %s' % (show(t), show(bad))
    return Out(('int', C(res)), check=check)
HELP = []
for h in (None, 2):
    for f in (None, 1): HELP.append({'header': h, 'footer': f, 'optc': 2, 'optv': ((b'--aa', b'-a', (3,), 'INT32', None), (b'--longer', b'-bb', (1,), 'STR', None)), '@report': 1})
HELP.append({'header': None, 'footer': None, 'optc': 1, 'optv': (((3,), (1,), (2,), 'INT32', None),), '@report': 1})
HELP.append({'header': None, 'footer': None, 'optc': 1, 'optv': (((7,), (3,), (2,), 'INT32', None),), '@report': 1})
@ref('vt_argopt_print_help', *HELP)
def _(d, p, x):
    rows = [(q['short'], q['long'], q['desc']) for q in x.e.opts] + [(B('-h'), B('--help'), B('This help information.'))]
    ws, wl = max(len(r[0]) for r in rows), max(len(r[1]) for r in rows); z = []
    for nm in ('header', 'footer'):
        if nm == 'footer':
            for s, l, t in rows: z += [C(32)] * (ws - len(s)) + s + [C(32)] * (wl - len(l) + 1) + l + [C(32)] + t + [C(10)]
        if x.case[nm] is not None: z += small.S(p, nm) + [C(10)]
    def check(x, rv):
        if x.exited: return 'ends the program'
        said, opened, _ = told(x)
        return match(x.st, said.get('stdout', []), z)
    return Out(check=check)
