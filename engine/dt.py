"""Dates: the text forms and the calendar functions on dates whose fields are arbitrary numbers (in given ranges), texts whose bytes are arbitrary."""
import spec, models, ir, small
from poly import *
from absint import *
from small import smodel, old, cname, text, raw, byte, cases, ref, Out, S, D, P, grid, fill

FIELDS = ('year', 'month', 'month_day', 'hour', 'minute', 'second', 'week_day', 'year_day')
TM = {'second': 0, 'minute': 4, 'hour': 8, 'month_day': 12, 'month': 16, 'year': 20, 'week_day': 24, 'year_day': 28, 'isdst': 32}
TMR = {'second': (0, 60), 'minute': (0, 59), 'hour': (0, 23), 'month_day': (1, 31), 'month': (0, 11), 'year': (-1900, 30800), 'week_day': (0, 6), 'year_day': (0, 365)}
ANY = {f: (-32768, 32767) for f in FIELDS}
GOOD = dict(year=(1000, 9999), month=(1, 12), month_day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 60), week_day=(1, 7), year_day=(1, 366))
RANGES = {'any': ANY, 'good': GOOD, 'bad': dict(GOOD, year=(-32768, 0)), 'delta': {f: (-10000, 10000) for f in FIELDS}}

def mk_date(I, st, e, info, x, ct, ty):
    nm, k = info['name'].split('.coerce') if '.coerce' in info['name'] else (info['name'], None)
    if ty.k != 'int' or k is None: return None
    e.dates = getattr(e, 'dates', {}); f = e.dates.setdefault(nm, {})
    if not f: f.update({n: fresh('%s.%s' % (nm, n), *RANGES[x][n]) for n in FIELDS})
    info['kind'] = 'date'
    return Blob(tuple((spec.DT[n] - 8 * int(k), (2, f[n])) for n in sorted(FIELDS, key=lambda n: spec.DT[n]) if 8 * int(k) <= spec.DT[n] < 8 * int(k) + 8), 8)
small.MAKERS['struct VitaDateTime'] = mk_date

def tm_fields(I, st, p):
    p = I.resolve(st, p)
    if not isinstance(p, Ptr) or p.off.const() is None: return None
    out = {}
    for n, o in TM.items():
        v = I.load_raw(st, Ptr(p.r, p.off + o, p.gen), ir.IntTy(32), 4)
        out[n] = v if isinstance(v, Poly) else None
    return out
def put_tm(I, st, r, o=0):
    f = {n: fresh('tm.' + n, *((-900, 8099) if n == 'year' and getattr(I, 'report', False) else TMR[n])) for n in TMR}
    for n in TMR: r.cells[o + TM[n]] = (4, f[n])
    return f
def note(st, what, *a): st.ghost[('sys', sum(1 for x in st.ghost if x[0] == 'sys'))] = (what,) + tuple(a)
def fz(d): return tuple(sorted(d.items()))
@smodel('localtime', 'gmtime')
def s_localtime(I, st, ins, v, a, fv):
    p = I.access(st, v[0], C(8), 'localtime')
    if p is None: return []
    t = I.load_raw(st, p, ir.IntTy(64), 8)
    r = I.new_region(st, 'stack', C(56), 'static', 'struct tm'); r.frame = None
    f = put_tm(I, st, r); note(st, cname(ins), t, fz(f))
    s2 = st.fork(); note(s2, cname(ins), t, None)
    return [(st, Ptr(r.id, ZERO, 0))]
@smodel('localtime_r', 'gmtime_r')
def s_localtime_r(I, st, ins, v, a, fv):
    p = I.access(st, v[0], C(8), 'localtime'); q = I.access(st, v[1], C(56), 'localtime_r', True)
    if p is None or q is None or q.off.const() is None: return []
    t = I.load_raw(st, p, ir.IntTy(64), 8); r = st.w(q.r); I.kill(st, r, q.off, q.off + 56)
    f = put_tm(I, st, r, q.off.const()); note(st, cname(ins)[:-2], t, fz(f))
    return [(st, v[1])]
@smodel('mktime', 'timegm')
def s_mktime(I, st, ins, v, a, fv):
    p = I.access(st, v[0], C(56), 'mktime', True)
    if p is None: return []
    f = tm_fields(I, st, p)
    if f is None: return old('mktime')(I, st, ins, v, a, fv)
    s2 = st.fork()
    r = st.w(p.r); I.kill(st, r, p.off, p.off + 36)
    k = ('mktime', fz({n: x for n, x in f.items() if n not in ('week_day', 'year_day')})); t = I.terms.get(k)
    if t is None: t = I.terms[k] = fresh('secs', -(1 << 40), 1 << 40)
    st.cs.add_neq(t + 1)
    g = put_tm(I, st, r, p.off.const())
    note(st, cname(ins), fz(f), t, fz(g)); note(s2, cname(ins), fz(f), C(-1), None)
    return [(st, t), (s2, C(-1))]
@smodel('time')
def s_time(I, st, ins, v, a, fv):
    t = fresh('now', 0, 1 << 40); p = I.resolve(st, v[0]); note(st, 'time', t)
    if p is not NULL and not I.store(st, v[0], t, ir.IntTy(64)): return []
    return [(st, t)]
def digits(I, st, v, n):
    """n digit characters that spell v, or None when v may not fit"""
    if not (st.cs.entails(v) and st.cs.entails(C(10 ** n - 1) - v)): return None
    k = ('digits', v, n); ds = I.terms.get(k)
    if ds is None: ds = I.terms[k] = [fresh('dg', 48, 57) for _ in range(n)]
    st.cs.add_eq(sum(((d - 48) * 10 ** (n - 1 - i) for i, d in enumerate(ds)), C(0)) - v)
    return list(ds)
SPEC = {'Y': ('year', 4, 1900), 'm': ('month', 2, 1), 'd': ('month_day', 2, 0), 'H': ('hour', 2, 0), 'M': ('minute', 2, 0), 'S': ('second', 2, 0)}
EXP = {'F': '%Y-%m-%d', 'T': '%H:%M:%S', 'R': '%H:%M', 'n': '\n', 't': '\t'}
def put_text(I, st, p, bs):
    r = st.w(p.r); o = p.off.const()
    I.kill(st, r, p.off, p.off + len(bs) + 1)
    for i, b in enumerate(bs + [ZERO]): I.store_raw(st, Ptr(p.r, C(o + i), p.gen), b, 1)
@smodel('strftime')
def s_strftime(I, st, ins, v, a, fv):
    n = models.I64(I, st, v[1]); fm = text(I, st, v[2], 200)
    p = I.access(st, v[0], n, 'strftime', True)
    if p is None: return []
    f = tm_fields(I, st, v[3])
    if f is None or fm is None or any(b.const() is None for b in fm) or n.const() is None or p.off.const() is None: return old('strftime')(I, st, ins, v, a, fv)
    z = ''.join(chr(b.const()) for b in fm)
    for k, x in EXP.items(): z = z.replace('%' + k, x)
    out = []; i = 0
    while i < len(z):
        if z[i] != '%': out.append(C(ord(z[i]))); i += 1; continue
        c = z[i + 1] if i + 1 < len(z) else ''; i += 2
        if c == '%': out.append(C(37)); continue
        if c not in SPEC or f[SPEC[c][0]] is None: return old('strftime')(I, st, ins, v, a, fv)
        nm, w, add = SPEC[c]; ds = digits(I, st, f[nm] + add, w)
        if ds is None: return old('strftime')(I, st, ins, v, a, fv)
        out += ds
    note(st, 'strftime', fz({k: x for k, x in f.items() if x is not None}), z)
    if len(out) + 1 > n.const(): return [(st, C(0))]
    put_text(I, st, p, out)
    return [(st, C(len(out)))]
@smodel('asctime_r')
def s_asctime(I, st, ins, v, a, fv):
    f = tm_fields(I, st, v[0]); p = I.access(st, v[1], C(26), 'asctime_r', True)
    if p is None: return []
    if f is None or any(f[k] is None for k in TMR) or p.off.const() is None: return old('asctime_r')(I, st, ins, v, a, fv)
    def go(d):
        m = f['month_day']
        if d.ask(I.cmp(d.st, 'sge', m, C(10))): dd = digits(I, d.st, m, 2)
        else: dd = [C(32), m + 48]
        return dd
    out = []
    for s, dd in cases(I, st, go):
        nm = I.terms.get(('names', f['week_day'], f['month']))
        if nm is None: nm = I.terms[('names', f['week_day'], f['month'])] = [fresh('nm', 65, 122) for _ in range(6)]
        t = [digits(I, s, f[k], 2) for k in ('hour', 'minute', 'second')]; y = digits(I, s, f['year'] + 1900, 4)
        if dd is None or any(x is None for x in t) or y is None: out += old('asctime_r')(I, s, ins, v, a, fv); continue
        bs = nm[:3] + [C(32)] + nm[3:] + [C(32)] + dd + [C(32)] + t[0] + [C(58)] + t[1] + [C(58)] + t[2] + [C(32)] + y + [C(10)]
        note(s, 'asctime', fz(f), tuple(bs)); put_text(I, s, p, bs); out.append((s, v[1]))
    return out
@smodel('sscanf', '__isoc99_sscanf', '__isoc23_sscanf')
def s_sscanf(I, st, ins, v, a, fv):
    t, fm = text(I, st, v[0]), text(I, st, v[1], 200); nm = cname(ins)
    if t is None or fm is None or any(b.const() is None for b in fm): return old(nm)(I, st, ins, v, a, fv)
    z = ''.join(chr(b.const()) for b in fm); i = k = n = 0; arg = 2; puts = []
    isd = lambda b: st.cs.entails(b - 48) and st.cs.entails(C(57) - b)
    while i < len(z):
        if z[i] != '%':
            if k >= len(t): break
            if not st.cs.entails_eq(t[k] - ord(z[i])): return old(nm)(I, st, ins, v, a, fv)
            i += 1; k += 1; continue
        j = i + 1
        while j < len(z) and z[j].isdigit(): j += 1
        w = int(z[i + 1:j] or 99); sz = 4
        if z[j:j + 2] == 'hd': j += 1; sz = 2
        if j >= len(z) or z[j] not in 'du': return old(nm)(I, st, ins, v, a, fv)
        val = C(0); q = 0
        while q < w and k < len(t) and isd(t[k]): val = val * 10 + (t[k] - 48); k += 1; q += 1
        if q == 0 or q < w and k < len(t) and not (st.cs.entails(C(47) - t[k]) or st.cs.entails(t[k] - 58)): return old(nm)(I, st, ins, v, a, fv)
        puts.append((v[arg], val, sz)); arg += 1; n += 1; i = j + 1
    for p, val, sz in puts:
        if not I.store(st, p, val, ir.IntTy(8 * sz)): return []
    return [(st, C(n))]

# ------------------------------------------------------------------ what is expected
def result(I, rv, st=None):
    """fields of a returned date, or None"""
    if not isinstance(rv, Agg) or len(rv.v) != 2: return None
    out = {}
    for n in FIELDS:
        o = spec.DT[n]; x = rv.v[o // 8]
        v = I.blob_get(x, o % 8, 2, st) if isinstance(x, Blob) else None
        s = v.single() if isinstance(v, Poly) else None
        if s is not None and st is not None and Syms.prov[s] and Syms.prov[s][0] == 'tr':
            y = Syms.prov[s][1]
            if st.cs.entails(y + 32768) and st.cs.entails(C(32767) - y): v = y
        out[n] = v if isinstance(v, Poly) else None
    return out
def same(x, got, want, what='the result'):
    """first field that differs"""
    for n in want:
        if got.get(n) is None: continue
        w = want[n]
        if not x.st.cs.entails_eq(got[n] - w):
            if any(Syms.imp[s] for s in got[n].syms()): continue
            return '%s: %s is %r, expected %r' % (what, n, got[n], w)
    return None
def to_tm(d, f):
    """the calendar fields handed to the C library for a date"""
    pos = d.ask(d.I.cmp(d.st, 'sgt', f['year'], C(0)))
    return {'year': f['year'] - 1900 if pos else C(0), 'month': f['month'] - 1, 'month_day': f['month_day'], 'hour': f['hour'], 'minute': f['minute'], 'second': f['second'], 'isdst': C(0)}
def from_tm(d, g):
    g = dict(g)
    return {'year': g['year'] + 1900, 'month': g['month'] + 1, 'month_day': g['month_day'], 'hour': g['hour'], 'minute': g['minute'], 'second': g['second'],
            'week_day': C(7) if d.eq(g['week_day'], 0) else g['week_day'], 'year_day': g['year_day'] + 1}
def calls(x, *names): return [t for t in x.trail() if t[0] in names]
TPL = {'': 'YYYY-MM-DD HH:MM:SS', '_iso': 'YYYYMMDDTHHMMSS', '_iso_ext': 'YYYY-MM-DDTHH:MM:SS'}
def fits(d, z, tpl):
    """the text is spelled as the template: digits in place of letters"""
    for i, c in enumerate(tpl):
        if i >= len(z): return False
        if c in 'YMDHS':
            if not d.inr(z[i], (48, 57)): return False
        elif not d.eq(z[i], ord(c)): return False
    return len(z) == len(tpl)
def number(bs):
    v = C(0)
    for b in bs: v = v * 10 + (b - 48)
    return v
GROUPS = ('year', 'month', 'month_day', 'hour', 'minute', 'second')
def groups(z, tpl):
    out = []; cur = []
    for b, c in zip(z, tpl):
        if c not in 'YMDHS': continue
        cur.append(b)
        if len(cur) == (4 if not out else 2): out.append(cur); cur = []
    return out
for sfx, tpl in TPL.items():
    n = len(tpl)
    def valid(d, p, x, tpl=tpl): return Out(('bool', fits(d, S(p, 'timebuf'), tpl)))
    ref('vt_datetime_is_valid_text' + sfx, *grid(timebuf=(0, 1, 5, n - 1, n, n + 1)))(valid)
    def read(d, p, x, tpl=tpl):
        z = S(p, 'timebuf')
        if not fits(d, z, tpl): return Out(('wrong', 'accepts a text that is not spelled %s' % tpl))
        want = dict(zip(GROUPS, (number(g) for g in groups(z, tpl))))
        return Out(check=lambda x, rv: (lambda r: same(x, r, want) if r else None)(result(x.I, rv, x.st)))
    ref('vt_datetime_from_text' + sfx, *grid(timebuf=(n,)), *[dict(timebuf=k, **{'@refuse': 1}) for k in (0, n - 1, n + 1)])(read)
    def spelled(x, rid, tpl, f):
        z = text(x.I, x.st, Ptr(rid, ZERO, x.st.reg[rid].gen))
        if z is None: return None
        if len(z) != len(tpl): return 'the text has %d characters, expected %d' % (len(z), len(tpl))
        for i, c in enumerate(tpl):
            if c not in 'YMDHS' and not x.st.cs.entails_eq(z[i] - ord(c)): return 'character %d of the text is not %r' % (i, c)
        got = dict(zip(GROUPS, (number(g) for g in groups(z, tpl))))
        return same(x, got, f, 'the text')
    def write(d, p, x, tpl=tpl):
        f = x.e.dates['vdt']; want = {k: f[k] for k in GROUPS}
        if not d.ask(d.I.cmp(d.st, 'sgt', f['year'], C(0))): want['year'] = C(1900)
        return Out(check=lambda x, rv: spelled(x, p['timebuf']['rid'], tpl, want), timebuf=None)
    ref('vt_datetime_to_text' + sfx, *[dict(vdt=r, timebuf=25, len=26) for r in ('good', 'bad')])(write)
@ref('vt_datetime_get_now_as_text', dict(timebuf=25, len=26))
def _(d, p, x):
    c = calls(x, 'localtime'); now = calls(x, 'time')
    if len(c) != 1 or len(now) != 1: return Out(('wrong', 'does not ask for the local time once'))
    if not d.st.cs.entails_eq(c[0][1] - now[0][1]): return Out(('wrong', 'does not use the current time'))
    if not d.ask(d.I.cmp(d.st, 'sge', dict(c[0][2])['year'], C(0))) or not d.ask(d.I.cmp(d.st, 'sle', dict(c[0][2])['year'], C(8000))): return None
    f = from_tm(d, c[0][2])
    return Out(check=lambda x, rv: spelled(x, p['timebuf']['rid'], TPL[''], {k: f[k] for k in GROUPS}), timebuf=None)
def pretty(d, p, x):
    c = calls(x, 'asctime')
    if len(c) != 1: return None, None
    t = list(c[0][2])[:24]
    if d.eq(t[8], 48): t[8] = C(32)
    return dict(c[0][1]), t
@ref('vt_datetime_to_text_pretty', dict(vdt='good', timebuf=25, len=26), dict(vdt='good', timebuf=29, len=30))
def _(d, p, x):
    f, t = pretty(d, p, x)
    if f is None: return None
    want = to_tm(d, x.e.dates['vdt']); want.pop('isdst')
    want['week_day'] = C(0) if d.eq(x.e.dates['vdt']['week_day'], 7) else x.e.dates['vdt']['week_day']
    return Out(check=lambda x, rv: same(x, f, want, 'the printed date'), timebuf=t)
@ref('vt_datetime_get_now_as_text_pretty', dict(timebuf=25, len=26))
def _(d, p, x):
    f, t = pretty(d, p, x); c = calls(x, 'localtime'); now = calls(x, 'time')
    if f is None or len(c) != 1: return None
    if not now or not d.st.cs.entails_eq(c[0][1] - now[0][1]): return Out(('wrong', 'does not use the current time'))
    want = {k: v for k, v in dict(c[0][2]).items()}
    if not d.ask(d.I.cmp(d.st, 'sgt', want['year'], C(-1900))): return None
    return Out(check=lambda x, rv: same(x, f, want, 'the printed date'), timebuf=t)
@ref('vt_datetime_get_now', dict(_=0))
def _(d, p, x):
    c = calls(x, 'localtime'); now = calls(x, 'time')
    if len(c) != 1 or len(now) != 1: return Out(('wrong', 'does not ask for the local time once'))
    if not d.st.cs.entails_eq(c[0][1] - now[0][1]): return Out(('wrong', 'does not use the current time'))
    w = from_tm(d, c[0][2])
    return Out(check=lambda x, rv: same(x, result(x.I, rv, x.st) or {}, w))
@ref('vt_datetime_from_secs', dict(_=0))
def _(d, p, x):
    c = calls(x, 'localtime')
    if len(c) != 1: return Out(('wrong', 'does not ask for the local time once'))
    if not d.st.cs.entails_eq(c[0][1] - p['secs']['v']): return Out(('wrong', 'does not convert the given seconds'))
    w = from_tm(d, c[0][2])
    return Out(check=lambda x, rv: same(x, result(x.I, rv, x.st) or {}, w))
def asked(d, x, c, f):
    """the C library is asked about that date"""
    return same(x, dict(c[1]), to_tm(d, f), 'the date handed to ' + c[0])
@ref('vt_datetime_to_secs', dict(vdt='any'))
def _(d, p, x):
    c = calls(x, 'mktime')
    if len(c) != 1: return Out(('wrong', 'does not convert the date once'))
    m = asked(d, x, c[0], x.e.dates['vdt'])
    return Out(('wrong', m)) if m else Out(('int', c[0][2]))
def found(field):
    def f(d, p, x):
        c = calls(x, 'mktime')
        if len(c) != 1: return Out(('wrong', 'does not look the date up once'))
        m = asked(d, x, c[0], x.e.dates['vdt'])
        if m: return Out(('wrong', m))
        return Out(('int', C(-1) if c[0][3] is None else from_tm(d, c[0][3])[field]))
    return f
ref('vt_datetime_find_year_day', dict(vdt='good'), dict(vdt='any'))(found('year_day'))
ref('vt_datetime_find_week_day', dict(vdt='good'), dict(vdt='any'))(found('week_day'))
def leap(d, y):
    """Gregorian rule; a year below zero stands for 1900.  None: no such year"""
    if d.ask(d.I.cmp(d.st, 'slt', y, C(0))): return False
    I = d.I; r = lambda k: I.binop(d.st, 'srem', ir.IntTy(32), y, C(k))
    a, b, c = r(4), r(100), r(400)
    if d.eq(c, 0): imply = [a, b]
    elif d.eq(b, 0): imply = [a]
    else: imply = []
    for v in imply: d.st.cs.add_eq(v)
    if d.st.cs.bad or not d.st.cs.feasible(): return None
    return d.eq(a, 0) and (not d.eq(b, 0) or d.eq(c, 0))
@ref('vt_datetime_is_leap_year', dict(vdt='any'))
def _(d, p, x):
    l = leap(d, x.e.dates['vdt']['year']); return None if l is None else Out(('bool', l))
@ref('vt_datetime_find_days_in_year', dict(vdt='any'))
def _(d, p, x):
    l = leap(d, x.e.dates['vdt']['year']); return None if l is None else Out(('int', 366 if l else 365))
def clamp(d, v, lo, hi):
    if d.ask(d.I.cmp(d.st, 'slt', v, C(lo))): return C(lo)
    return C(hi) if d.ask(d.I.cmp(d.st, 'sgt', v, C(hi))) else v
def monthlen(d, y, m):
    m = clamp(d, m, 1, 12)
    if any(d.eq(m, k) for k in (1, 3, 5, 7, 8, 10, 12)): return 31
    if any(d.eq(m, k) for k in (4, 6, 9, 11)): return 30
    if d.ask(d.I.cmp(d.st, 'sle', y, C(0))): return 28
    l = leap(d, y)
    return None if l is None else 29 if l else 28
@ref('vt_datetime_find_days_in_month', dict(vdt='any'))
def _(d, p, x):
    f = x.e.dates['vdt']; n = monthlen(d, f['year'], f['month']); return None if n is None else Out(('int', n))
@ref('vt_datetime_create', *[dict(GOOD, **{f: ANY[f]}) for f in FIELDS], dict(GOOD, month_day=(32, 100), month=ANY['month']), dict(GOOD, month_day=(32, 100), year=ANY['year'], month=(2, 2)), dict(GOOD, week_day=ANY['week_day'], year_day=ANY['year_day']))
def _(d, p, x):
    v = {n: p[n]['v'] for n in FIELDS}; sl = lambda a, b: d.ask(d.I.cmp(d.st, 'slt', a, C(b)))
    w = {'year': C(1900) if sl(v['year'], 0) else v['year'], 'month': clamp(d, v['month'], 1, 12), 'hour': clamp(d, v['hour'], 0, 23), 'minute': clamp(d, v['minute'], 0, 59), 'second': clamp(d, v['second'], 0, 60)}
    if sl(v['month_day'], 1): w['month_day'] = C(1)
    elif sl(v['month_day'], 32): w['month_day'] = v['month_day']
    else:
        n = monthlen(d, v['year'], v['month'])
        if n is None: return None
        w['month_day'] = C(n)
    c = calls(x, 'mktime')
    for k, hi in (('week_day', 7), ('year_day', 366)):
        if not sl(v[k], 1) and sl(v[k], hi + 1): w[k] = v[k]
        elif c:
            hit = [y for y in c if not asked(d, x, y, w)]
            if not hit: return Out(('wrong', asked(d, x, c[0], w)))
            cand = [C(-1) if y[3] is None else from_tm(d, y[3])[k] for y in hit]
            w[k] = cand
    def chk(x, rv):
        r = result(x.I, rv, x.st)
        if r is None: return None
        for n in w:
            if isinstance(w[n], list):
                if r[n] is not None and not any(x.st.cs.entails_eq(r[n] - q) for q in w[n]): return '%s is %r, not that of the date' % (n, r[n])
            else:
                m = same(x, r, {n: w[n]})
                if m: return m
    return Out(check=chk)
@ref('vt_datetime_op', dict(vdt='good', delta='delta'))
def _(d, p, x):
    f, g = x.e.dates['vdt'], x.e.dates['delta']; c = calls(x, 'mktime')
    if len(c) != 1: return Out(('wrong', 'does not normalise the date once'))
    t = to_tm(d, f); t.pop('isdst'); want = {k: v + g[k] for k, v in t.items()}
    m = same(x, dict(c[0][1]), want, 'the date handed to mktime')
    if m: return Out(('wrong', m))
    if c[0][3] is None: return None
    w = from_tm(d, c[0][3])
    return Out(check=lambda x, rv: same(x, result(x.I, rv, x.st) or {}, w))
def between(d, p, x):
    """seconds between the dates, or a message"""
    c = calls(x, 'mktime')
    if len(c) != 2: return None, 'does not convert both dates'
    a = [y for y in c if not asked(d, x, y, x.e.dates['vdt1'])]; b = [y for y in c if not asked(d, x, y, x.e.dates['vdt2'])]
    if not a or not b: return None, asked(d, x, c[0], x.e.dates['vdt1']) or asked(d, x, c[1], x.e.dates['vdt2'])
    return a[0][2] - b[-1][2], None
@ref('vt_datetime_diff_secs', dict(vdt1='good', vdt2='good'))
def _(d, p, x):
    t, m = between(d, p, x); return Out(('wrong', m)) if m else Out(('int', t))
def whole(k):
    def f(d, p, x):
        t, m = between(d, p, x)
        if m: return Out(('wrong', m))
        pos = d.ask(d.I.cmp(d.st, 'sge', t, C(0)))
        def chk(x, rv):
            if not isinstance(rv, Poly): return None
            r = t - rv * k; e = x.st.cs.entails
            return None if (e(r) and e(C(k - 1) - r) if pos else e(-r) and e(C(k - 1) + r)) else 'the result is not the seconds between the dates divided by %d' % k
        return Out(check=chk)
    return f
for u, k in (('minutes', 60), ('hours', 3600), ('days', 86400)): ref('vt_datetime_diff_' + u, dict(vdt1='good', vdt2='good'))(whole(k))
@ref('vt_datetime_diff', dict(vdt1='good', vdt2='good'))
def _(d, p, x):
    t, m = between(d, p, x)
    if m: return Out(('wrong', m))
    pos = d.ask(d.I.cmp(d.st, 'sge', t, C(0))); lim = 30000 * 86400
    if d.ask(d.I.cmp(d.st, 'sgt' if pos else 'slt', t, C(lim if pos else -lim))): return None      # more days than the field holds
    def chk(x, rv):
        if x.st.ghost.get(('fl',)): x.I.alarm('rounding', 'the parts of the difference are computed in floating point and rounded: they do not add up to the seconds between the dates', x.st)
        r = result(x.I, rv, x.st); e = x.st.cs.entails; sg = 1 if pos else -1
        if r is None or any(r[k] is None for k in ('second', 'minute', 'hour', 'month_day')): return None
        if not x.st.cs.entails_eq(r['month_day'] * 86400 + r['hour'] * 3600 + r['minute'] * 60 + r['second'] - t): return 'days, hours, minutes and seconds do not add up to the seconds between the dates'
        for k, n in (('second', 60), ('minute', 60), ('hour', 24)):
            if not (e(r[k] * sg) and e(C(n - 1) - r[k] * sg)): return '%s is not below %d' % (k, n)
    return Out(check=chk)
NAMES = [n for n in small.REF if n.startswith('vt_datetime')]
