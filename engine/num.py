"""Numbers: comparison helpers, small arithmetic, conversions between numbers and text (texts of given short lengths, digits abstract)."""
import spec, models, ir, small
from poly import *
from absint import *
from small import smodel, old, cname, text, raw, byte, cases, ref, Out, S, D, P, grid, fill, Rat

# ------------------------------------------------------------------ min, max, clamp
INT = ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'); FLT = ('f', 'd', 'r')
def less(d, t, a, b):
    """a < b"""
    I = d.I
    if t in INT: return d.ask(I.cmp(d.st, 'slt', a, b))
    x, y = I.real(a), I.real(b)
    return d.ask(I.cmp(d.st, 'slt', x.p * y.q, y.p * x.q))
def num(t, v, I): return ('int', v) if t in INT else ('real', I.real(v))
def val(p, n): return p[n]['v'] if 'v' in p[n] else p[n]['val']
for t in INT + FLT:
    def mn(d, p, x, t=t): a, b = val(p, 'x'), val(p, 'y'); return Out(num(t, a if less(d, t, a, b) else b, d.I))
    def mx(d, p, x, t=t): a, b = val(p, 'x'), val(p, 'y'); return Out(num(t, b if less(d, t, a, b) else a, d.I))
    def cl(d, p, x, t=t):
        v, l, h = (val(p, k) for k in 'xlh')
        if less(d, t, h, l): return None
        return Out(num(t, l if less(d, t, v, l) else h if less(d, t, h, v) else v, d.I))
    ref('vt_cmp_min' + t, dict(_=0))(mn); ref('vt_cmp_max' + t, dict(_=0))(mx); ref('vt_cmp_clamp' + t, dict(_=0))(cl)

# ------------------------------------------------------------------ arithmetic
@ref('vt_math_map_to', dict(_=0))
def _(d, p, x):
    v = [d.I.real(p[k]['val']) for k in ('x', 'xMin', 'xMax', 'outMin', 'outMax')]
    if any(y is None or y.q.const() != 1 for y in v): return None
    a, lo, hi, ol, oh = (y.p for y in v)
    if d.eq(hi - lo, 0): return None
    return Out(('real', Rat((a - lo) * (oh - ol) + ol * (hi - lo), hi - lo)))
@ref('vt_math_is_close', dict(_=0))
def _(d, p, x):
    a, b, t = (d.I.real(p[k]['val']).p for k in ('lhs', 'rhs', 'rtol'))
    neg = d.ask(d.I.cmp(d.st, 'slt', t, C(0)))
    df = a - b if d.ask(d.I.cmp(d.st, 'sge', a - b, C(0))) else b - a
    return Out(('bool', d.eq(df, 0) if neg else d.ask(d.I.cmp(d.st, 'slt', df, t))))        # whole numbers: closer than the machine epsilon means equal
def mk_num(I, st, e, info, x, ct, ty):
    """a number given by its decimal digits"""
    info['kind'] = 'int'
    if x == 0: info['digits'] = [ZERO]; info['v'] = ZERO; return ZERO
    ds = [fresh('digit', 1 if i == 0 else 0, 9) for i in range(x)]; v = C(0)
    for q in ds: v = v * 10 + q
    info['digits'] = ds; info['v'] = v; return v
small.MAKERS['num'] = mk_num
@ref('vt_math_is_palindrome', *[dict(num=n) for n in range(13)])
def _(d, p, x): z = p['num']['digits']; n = len(z); return Out(('bool', all(d.eq(z[i], z[n - 1 - i]) for i in range(n // 2))))

GCD = [(0, 1), (1, 0), (1, 1), (1, 9), (2, 3), (3, 2), (7, 13), (13, 7), (8, 5), (21, 34), (1, 1000), (89, 55), (100, 7), (2 ** 33 + 1, 2), (3, 2 ** 34), (1, 2 ** 40)]      # pairs without a common factor
@ref('vt_math_gcd', *[dict(a=('times', a), b=('times', b)) for a, b in GCD])
def _(d, p, x): return Out(('int', p['a']['unit']))
@ref('vt_math_lcm', *[dict(a=('times', a), b=('times', b)) for a, b in GCD])
def _(d, p, x): return Out(('int', p['a']['unit'] * (x.case['a'][1] * x.case['b'][1])))

# ------------------------------------------------------------------ text to number
def span(d, t, at=0):
    """how many digits stand at that position"""
    k = at
    while k < len(t) and d.inr(t[k], (48, 57)): k += 1
    return k - at
def number(bs):
    v = C(0)
    for b in bs: v = v * 10 + (b - 48)
    return v
def lead(d, t):
    """number of blanks and the sign the C library skips"""
    k = 0
    while k < len(t) and d.inr(t[k], (9, 13), (32, 32)): k += 1
    if k < len(t) and d.eq(t[k], 45): return k + 1, -1
    if k < len(t) and d.eq(t[k], 43): return k + 1, 1
    return k, 1
@smodel('strtol', 'strtoul', 'strtoll', 'strtoull', '__isoc23_strtol', '__isoc23_strtoul', '__isoc23_strtoll', '__isoc23_strtoull', 'atoi', 'atol', 'atoll')
def s_strtol(I, st, ins, v, a, fv):
    nm = cname(ins); t = text(I, st, v[0]); at = nm.startswith('ato')
    if t is None or not at and (I.resolve(st, v[1]) is not NULL or models.I64(I, st, v[2]).const() != 10): return old(nm)(I, st, ins, v, a, fv)
    def f(d):
        k, sg = lead(d, t); n = span(d, t, k)
        r = number(t[k:k + n]) * sg
        if n == 0: return C(0)
        c = r.const()
        if c is not None:       # the nearest number of the result's type
            lo, hi = (0, (1 << 64) - 1) if 'ul' in nm else (-(1 << 63), (1 << 63) - 1)
            if 'ul' in nm and -hi <= c < 0: c += 1 << 64
            c = max(lo, min(hi, c)); r = C(c if c < 1 << 63 else c - (1 << 64))
            if nm == 'atoi': r = C((c + (1 << 31)) % (1 << 32) - (1 << 31))
        return r
    return cases(I, st, f)
@smodel('strtof', 'strtod', 'strtold', 'atof')
def s_strtod(I, st, ins, v, a, fv):
    nm = cname(ins); t = text(I, st, v[0])
    if t is None or nm != 'atof' and I.resolve(st, v[1]) is not NULL: return old(nm)(I, st, ins, v, a, fv)
    def f(d):
        k, sg = lead(d, t); n = span(d, t, k); m = 0
        if k + n < len(t) and d.eq(t[k + n], 46): m = span(d, t, k + n + 1)
        q = k + n + (1 + m if m else 0)
        if q < len(t) and n + m and d.inr(t[q], (69, 69), (101, 101)): return None      # exponents, hexadecimal and names are left out
        if n + m == 0 and k < len(t) and d.inr(t[k], (65, 90), (97, 122)): return None
        if n == 1 and q < len(t) and d.inr(t[q], (88, 88), (120, 120)): return None
        return small.nearest(Rat(number(t[k:k + n] + t[k + n + 1:k + n + 1 + m]) * sg, C(10 ** m)), {'strtof': 'float', 'strtold': 'x86_fp80'}.get(nm, 'double'))
    out = []
    for s, r in cases(I, st, f):
        if r is None: out += old(nm)(I, s, ins, v, a, fv)
        else: out.append((s, r))
    return out
ITY = {'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0)}
def fits(d, t, v):
    n, s = ITY[t]
    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
    return d.ask(d.I.cmp(d.st, 'sge', v, C(lo))) and d.ask(d.I.cmp(d.st, 'sle', v, C(hi)))
def spelled(d, z, t):
    """the number a text stands for: ('int', v) or ('real', r); None: not decided"""
    if not all(d.inr(b, (48, 57), (46, 46)) for b in z): return ('zero',)
    n = span(d, z)
    if t in ITY:
        v = number(z[:n]) if n else C(0)
        return ('int', v) if fits(d, t, v) else None
    m = span(d, z, n + 1) if n < len(z) else 0
    return ('real', Rat(number(z[:n] + z[n + 1:n + 1 + m]), C(10 ** m)))
for t in INT + FLT:
    def conv(d, p, x, t=t):
        r = spelled(d, S(p, 'z'), t)
        if r is None: return None
        if r[0] == 'zero': r = ('int', C(0)) if t in ITY else ('real', Rat(C(0), C(1)))
        return Out(r)
    ref('vt_conv_str_to_' + t, *grid(z=(0, 1, 2, 3)), *([dict(z=4)] if t in ('i16', 'u64', 'd') else []), *[dict(z=b'%d' % v) for v in ([(1 << ITY[t][0] - ITY[t][1]) - 1, (1 << ITY[t][0] - 1) - 1, 10 ** (len(str(1 << ITY[t][0] - 1)) - 1)] if t in ITY else {'d': [(1 << 53) - 1], 'r': [(1 << 63) - 1]}.get(t, []))])(conv)

# ------------------------------------------------------------------ number to text
def digits(I, st, v, n):
    """n digit characters that spell v exactly"""
    k = ('digits!', v, n); ds = I.terms.get(k)
    if ds is None: ds = I.terms[k] = [fresh('dg', 49 if i == 0 and n > 1 else 48, 57) for i in range(n)]
    st.cs.add_eq(sum(((d - 48) * 10 ** (n - 1 - i) for i, d in enumerate(ds)), C(0)) - v)
    for d in ds: st.nz = st.nz | {d.single()}
    return list(ds)
def decimal(d, v):
    """the decimal spelling of v"""
    neg = d.ask(d.I.cmp(d.st, 'slt', v, C(0))); a = -v if neg else v; n = 1
    while n < 20 and d.ask(d.I.cmp(d.st, 'sge', a, C(10 ** n))): n += 1
    return ([C(45)] if neg else []) + digits(d.I, d.st, a, n)
import re
CONV = re.compile(r'^%(hh|h|l|ll|j|z|t|L|)([diuf])$')
@smodel('snprintf', 'sprintf')
def s_snprintf(I, st, ins, v, a, fv):
    nm = cname(ins); k = 2 if nm == 'snprintf' else 1; fm = text(I, st, v[k], 60)
    if fm is None or any(b.const() is None for b in fm): return old(nm)(I, st, ins, v, a, fv)
    z = ''.join(chr(b.const()) for b in fm); m = CONV.match(z)
    if not m or len(v) != k + 2: return old(nm)(I, st, ins, v, a, fv)
    x = v[k + 1]; frac = []
    if m.group(2) == 'f':
        x = I.real(x)
        if x is None or x.q.const() != 1: return old(nm)(I, st, ins, v, a, fv)
        x = x.p; frac = [C(ord(c)) for c in '.000000']
    elif not isinstance(x, Poly) or m.group(1) == 'L': return old(nm)(I, st, ins, v, a, fv)
    w = {'hh': 8, 'h': 16, '': 32}.get(m.group(1), 64) if not frac else 64; sg = m.group(2) != 'u'
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
    if x.const() is not None and not lo <= x.const() <= hi: x = C((x.const() - lo) % (1 << w) + lo)
    if not (st.cs.entails(x - lo) and st.cs.entails(C(hi) - x)): return old(nm)(I, st, ins, v, a, fv)
    out = []
    for s, t in cases(I, st, lambda d: decimal(d, x) + frac):
        p = I.resolve(s, v[0])
        if k == 2:
            n = models.I64(I, s, v[1])
            if n.const() == 0: out.append((s, C(len(t)))); continue
            if n.const() is None or not isinstance(p, Ptr): out += old(nm)(I, s, ins, v, a, fv); continue
            room = n.const()
        else: room = 1 << 30
        put = (t + [ZERO])[:room]
        if len(put) == room and room <= len(t): put[-1] = ZERO
        q = I.access(s, v[0], C(len(put)), nm, True)
        if q is None: continue
        if q.off.const() is None: out += old(nm)(I, s, ins, v, a, fv); continue
        r = s.w(q.r); I.kill(s, r, q.off, q.off + len(put))
        for i, b in enumerate(put): I.store_raw(s, Ptr(q.r, q.off + i, q.gen), b, 1)
        out.append((s, C(len(t))))
    return out
for t in INT:
    lim = {'i8': 4, 'u8': 3, 'i16': 6, 'u16': 5, 'i32': 11, 'u32': 10}.get(t, 20)
    def tos(d, p, x, t=t):
        z = decimal(d, p['val']['v'])
        return Out(buf=z) if len(z) < x.case['buf_len'] else Out(('wrong', 'accepts a buffer too small for the number'))
    cs = [dict(buf=lim, buf_len=lim + 1)] if '64' not in t else [dict(buf=lim, buf_len=lim + 1, val=r) for r in ((0 if t == 'u64' else -10 ** 12, 10 ** 12), C((1 << 60) + 7), C(-1 << 60) if t == 'i64' else C(10 ** 18))] + ([dict(buf=lim, buf_len=lim + 1, val=C((1 << 64) - 1))] if t == 'u64' else [])
    cs.append(dict(buf=2, buf_len=3, val=(0, 120)))
    ref('vt_conv_%s_to_str' % t, *cs)(tos)
def mk_val(I, st, e, info, x, ct, ty):
    if ty.k != 'fp' or not isinstance(x, tuple): return None
    info['kind'] = 'fp'; info['v'] = fresh('whole', *x); return Rat(info['v'], C(1))
small.MAKERS['val'] = mk_val
for t in FLT:
    ref('vt_conv_%s_to_str' % t, dict(buf=12, buf_len=13, val=(0, 9999)), dict(buf=12, buf_len=13, val=(-9999, -1)))(lambda d, p, x: Out(buf=decimal(d, p['val']['v']) + [C(ord(c)) for c in '.000000']))
NAMES = [n for n in small.REF if re.match('vt_(cmp|math|conv)_', n)]
