"""What is printed: formatted output is followed piece by piece, per stream, so that a whole report can be compared with the documented one; log and debug output; the allocator's report."""
import re, spec, models, ir, small, dt
from poly import *
from absint import *
from small import smodel, old, cname, text, byte, cases, ref, Out, S, P, grid, mk_text
from dt import note, fz

# ------------------------------------------------------------------ rendering
def va_args(I, st, x):
    """reader of the integer and pointer arguments of a va_list as s_vastart lays it out"""
    p = I.resolve(st, x)
    if not isinstance(p, Ptr) or p.off.const() is None or p.r not in st.reg: return None
    o = p.off.const(); r = st.reg[p.r]
    g, ov, rs = (r.cells.get(o + k) for k in (0, 8, 16))
    if not g or not ov or not rs or not isinstance(g[1], Poly) or g[1].const() is None: return None
    state = [g[1].const(), 0]; ov, rs = I.resolve(st, ov[1]), I.resolve(st, rs[1])
    if not isinstance(ov, Ptr) or not isinstance(rs, Ptr) or ov.off.const() is None: return None
    def nxt():
        if state[0] < 48: c = st.reg[rs.r].cells.get(state[0]); state[0] += 8
        else: c = st.reg[ov.r].cells.get(ov.off.const() + state[1]); state[1] += 8
        return c[1] if c else None
    return nxt
CONV = re.compile(r"%([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z%])")
def render(I, st, fm, nxt):
    """the pieces a format produces: bytes, ('n', value, width, conversion) for a number; None: not known"""
    if fm is None or any(b.const() is None for b in fm): return None
    z = ''.join(chr(b.const()) for b in fm); out = []; i = 0
    while i < len(z):
        if z[i] != '%': out.append(C(ord(z[i]))); i += 1; continue
        m = CONV.match(z, i)
        if not m: return None
        i = m.end(); fl, w, pr, sz, c = m.groups()
        if c == '%': out.append(C(37)); continue
        if w == '*':
            w = nxt(); w = w.const() if isinstance(w, Poly) else None
            if w is None: return None
        if pr == '*':
            pr = nxt(); pr = pr.const() if isinstance(pr, Poly) else None
            if pr is None: return None
        w = int(w or 0); x = nxt()
        if x is None: return None
        if w < 0: fl += '-'; w = -w
        if c == 's':
            t = text(I, st, x) if I.resolve(st, x) is not NULL else [C(ord(k)) for k in '(null)']
            if t is None: return None
            if pr not in (None, ''): t = t[:int(pr)]
            elif pr == '': t = []
            pad = [C(32)] * max(0, w - len(t)); out += t + pad if '-' in fl else pad + t
        elif c == 'c':
            if not isinstance(x, Poly) or w > 1: return None
            out.append(x)
        elif c in 'diu' and isinstance(x, Poly) and not pr:
            if x.const() is not None:
                t = [C(ord(k)) for k in str(x.const())]; pad = [C(48 if '0' in fl and '-' not in fl else 32)] * max(0, w - len(t)); out += t + pad if '-' in fl else pad + t
            else: out.append(('n', x, w, ''.join(sorted(set(fl) & set('-0+ ')))))
        else: return None
    return out
def stream(I, st, x):
    p = I.resolve(st, x)
    if p is NULL: I.alarm('null', 'output to a null stream', st); return 0
    if not isinstance(p, Ptr) or p.r not in st.reg: return None
    if not st.reg[p.r].live: I.alarm('uaf', 'output to a closed stream', st); return 0
    for k in ('@stderr', '@stdout'):
        if I.globals_cache.get(('std', k)) == p.r: return k[1:]
    return p.r
def emit(I, st, ins, f, items):
    note(st, 'put', f, None if items is None else tuple(items))
    return [(st, fresh('wr', 0, 2**31 - 1) if ins.ty is not None and ins.ty.k == 'int' else None)]
def seq(xs):
    it = iter(xs); return lambda: next(it, None)
@smodel('printf', 'fprintf', 'vprintf', 'vfprintf')
def s_printf(I, st, ins, v, a, fv):
    nm = cname(ins)
    if not getattr(I, 'report', False): return old(nm)(I, st, ins, v, a, fv)
    f = 'stdout'; v = list(v)
    if nm in ('fprintf', 'vfprintf'):
        f = stream(I, st, v.pop(0))
        if f == 0: return []
    if nm[0] == 'v': models.va_use(I, st, v[1]); nxt = va_args(I, st, v[1])
    else: nxt = seq(v[1:])
    return emit(I, st, ins, f, None if nxt is None else render(I, st, text(I, st, v[0], 2000), nxt))
@smodel('puts', 'fputs', 'fputc', 'putc', 'putchar', 'fwrite')
def s_puts(I, st, ins, v, a, fv):
    nm = cname(ins)
    if not getattr(I, 'report', False): return old(nm)(I, st, ins, v, a, fv) if nm != 'putc' else NotImplemented
    f = stream(I, st, v[-1]) if nm in ('fputs', 'fputc', 'putc', 'fwrite') else 'stdout'
    if f == 0: return []
    if nm in ('fputc', 'putc', 'putchar'): return emit(I, st, ins, f, [v[0]] if isinstance(v[0], Poly) else None)
    if nm == 'fwrite':
        n = models.I64(I, st, v[1]) * models.I64(I, st, v[2]); t = small.raw(I, st, v[0], n.const()) if n.const() is not None and n.const() < 500 else None
        note(st, 'put', f, None if t is None else tuple(t)); return [(st, v[2])]
    t = text(I, st, v[0], 2000)
    return emit(I, st, ins, f, None if t is None else t + ([C(10)] if nm == 'puts' else []))
@smodel('fopen', 'fopen64')
def s_fopen(I, st, ins, v, a, fv):
    if not getattr(I, 'report', False): return old(cname(ins))(I, st, ins, v, a, fv)
    t, md = text(I, st, v[0]), text(I, st, v[1])
    s2 = st.fork(); h = models.handle(I, st, 'FILE', 'fopen')
    k = tuple(t) if t is not None else None, tuple(md) if md is not None else None
    note(st, 'fopen', k[0], k[1], h.r); note(s2, 'fopen', k[0], k[1], None)
    return [(st, h), (s2, NULL)]
@smodel('exit', '_exit', '_Exit')
def s_exit(I, st, ins, v, a, fv):
    if getattr(I, 'report', False): note(st, 'exit', models.I64(I, st, v[0]))
    I.on_trap(st, 'exit'); return []
@smodel('memset', 'llvm.memset')
def s_memset(I, st, ins, v, a, fv):
    x = v[1] if isinstance(v[1], Poly) else I.as_int(st, v[1]); n = models.I64(I, st, v[2])
    if x.const() is not None or n.const() is None or not 0 < n.const() <= 64: return old('memset')(I, st, ins, v, a, fv)
    u = x.single()
    if u is not None and Syms.prov[u] and Syms.prov[u][0] == 'tr' and st.cs.entails(Syms.prov[u][1] + 128) and st.cs.entails(C(127) - Syms.prov[u][1]): x = Syms.prov[u][1]
    if not (st.cs.entails(x + 128) and st.cs.entails(C(127) - x)): return old('memset')(I, st, ins, v, a, fv)
    q = I.access(st, v[0], n, 'memset', True)
    if q is None: return []
    if q.off.const() is None: return old('memset')(I, st, ins, v, a, fv)
    I.kill(st, st.w(q.r), q.off, q.off + n)
    for i in range(n.const()): I.store_raw(st, Ptr(q.r, q.off + i, q.gen), x, 1)
    return [(st, v[0])]

# ------------------------------------------------------------------ comparing
def B(z): return [C(c) for c in z.encode()]
def told(x):
    """({stream: pieces}, [(path, mode, stream or None)], exit status or None); pieces None where not known"""
    said = {}; opened = []; code = None
    for t in x.trail():
        if t[0] == 'put':
            if t[2] is None or said.get(t[1], ()) is None or t[1] is None: said[t[1]] = None
            else: said.setdefault(t[1], []).extend(t[2])
        elif t[0] == 'fopen': opened.append(t[1:])
        elif t[0] == 'exit': code = t[1]
    return said, opened, code
def show(items):
    return '"%s"' % ''.join(i[0] if isinstance(i, str) else '<%r>' % i[1] if isinstance(i, tuple) else chr(i.const()) if i.const() is not None and 32 <= i.const() < 127 else '\\n' if i.const() == 10 else '{%r}' % i for i in items)
def match(st, got, want):
    """message when the pieces differ"""
    if got is None: return None
    for k in range(max(len(got), len(want))):
        a, b = got[k] if k < len(got) else None, want[k] if k < len(want) else None
        if a is None or b is None: break
        if isinstance(a, tuple) != isinstance(b, tuple): break
        if isinstance(a, tuple):
            if a[2] != b[2] or not st.cs.entails_eq(a[1] - b[1]): break
        elif not st.cs.entails_eq(a - b): break
    else: return None
    return 'prints %s, expected %s' % (show(got), show(want))
def when(x):
    """the time text of the local time that was asked for"""
    f = next((dict(t[2]) for t in reversed(x.trail()) if t[0] in ('localtime', 'gmtime') and t[2] is not None), None)
    if f is None: return None
    out = []
    for n, w, add, sep in (('year', 4, 1900, '-'), ('month', 2, 1, '-'), ('month_day', 2, 0, ' '), ('hour', 2, 0, ':'), ('minute', 2, 0, ':'), ('second', 2, 0, '')):
        ds = dt.digits(x.I, x.st, f[n] + add, w)
        if ds is None: return None
        out += ds + B(sep)
    return out
def report(dest, want, quits):
    """a check: everything goes to one place, is what is wanted, and the program ends exactly when it should"""
    def check(x, rv):
        said, opened, code = told(x)
        if bool(x.exited) != quits: return 'ends the program' if x.exited else 'does not end the program'
        if x.exited and code is not None and code.const() == 0: return 'ends the program with the status of success'
        if want is None:
            if said: return 'prints although nothing is to be reported'
            return 'opens a file although nothing is to be reported' if opened else None
        to = 'stderr'
        if dest is not None:
            if not opened: return 'does not open the file'
            for path, mode, h in opened:
                if path is None or mode is None: return None
                if len(path) != len(dest) or not all(x.st.cs.entails_eq(a - b) for a, b in zip(path, dest)): return 'opens %s, expected %s' % (show(path), show(dest))
                if show(mode)[:2] != '"a': return 'opens the file with mode %s: earlier lines are lost' % show(mode)
            to = opened[-1][2] or 'stderr'
        elif opened: return 'opens a file although the output goes to the terminal'
        for k in said:
            if k != to and k is not None: return 'prints to the wrong place (%s)' % k
        return match(x.st, said.get(to, []), want)
    return check
MSG = [(b'm', ()), (b'%s', (2,)), (b'%s-%s', (1, 1)), (b'', ())]
def message(x, z):
    out = []; i = 0; va = list(x.va)
    while i < len(z):
        if z[i:i + 2] == b'%s': out += va.pop(0); i += 2
        else: out.append(C(z[i])); i += 1
    return out
def logs():
    out = []; n = max(spec.LOGLV.values()) if getattr(spec, 'LOGLV', None) else 6
    for lv in range(6):
        for fn in (None, 2):
            for ze in (None, 2):
                for z, va in MSG[:2] if lv else MSG:
                    out.append({'log_level': lv, 'zfilename': fn, 'expr': 0, 'zexpr': ze, 'file': 2, 'zfmt': z, '...': va, '@report': 1, '@fresh': 1})
        out.append({'log_level': lv, 'zfilename': None, 'expr': 1, 'zexpr': 2, 'file': 2, 'zfmt': b'm', '...': (), '@report': 1, '@fresh': 1})
        out.append({'log_level': lv, 'zfilename': 2, 'expr': 1, 'zexpr': None, 'file': 2, 'zfmt': b'm', '...': (), '@report': 1, '@fresh': 1})
    base = {'zfilename': None, 'expr': 0, 'zexpr': None, 'file': 2, 'zfmt': b'm', '...': (), '@report': 1, '@fresh': 1}
    L, A = 'vt_log_redirect_level_output', 'vt_log_redirect_all_output'; T = (2,); U = (1,)
    for lv in range(6):
        o = (lv + 1) % 6
        for pre in (((L, (lv, T)),), ((L, (o, T)),), ((A, (T,)),), ((L, (lv, T)), (L, (lv, None))), ((A, (T,)), (A, (None,))), ((A, (T,)), (L, (lv, U))), ((L, (lv, T)), (A, (U,))), ((A, (T,)), (L, (lv, None))), ((A, (T,)), (L, (o, None)))):
            out.append(dict(base, **{'log_level': lv, '@before': pre}))
    out.append(dict(base, **{'log_level': 0, 'zfilename': 1, '@before': ((A, (T,)),)}))
    return out
LEVELS = ('INFO', 'WARN', 'DEBUG', 'ERROR', 'FATAL', 'ASSERT FAILURE')
def target(x, lv):
    """where the level's lines go after the earlier calls"""
    to = {k: None for k in range(6)}; pre = list(x.pre)
    for fn, args in x.case.get('@before', ()):
        z = pre.pop(0) if args[-1] is not None else None
        for k in range(6):
            if fn.endswith('all_output') or args[0] == k: to[k] = z
    return to[lv]
@ref('vt_log', *logs())
def _(d, p, x):
    lv = x.case['log_level']; quits = lv >= 4
    if x.case['expr']: return Out(check=report(None, None, False))
    t = when(x)
    if t is None: return None
    name = LEVELS[lv]; z = t + B(' ' + ' ' * max(0, 5 - len(name)) + name + ' ')
    if x.case['zexpr'] is not None: z += B('[') + S(p, 'zexpr') + B('] ')
    z += S(p, 'file') + B(':') + [('n', p['line']['v'], 0, '')] + B(': ') + message(x, x.case['zfmt']) + B('\n')
    return Out(check=report(S(p, 'zfilename') if x.case['zfilename'] is not None else target(x, lv), z, quits))
@ref('vt_log_get_level_str', *[dict(log_level=k) for k in range(6)])
def _(d, p, x): return Out(('cstr', B(LEVELS[x.case['log_level']])))
R, O = 'vt_debug_redirect_output', 'vt_debug_disable_output'; T = (2,); U = (1,)
PRE = [(), ((R, (T,)),), ((R, (T,)), (R, (None,))), ((R, (T,)), (R, (U,))), ((O, (True,)),), ((O, (True,)), (O, (False,))), ((R, (T,)), (O, (True,))), ((O, (False,)),)]
def debug_state(x):
    to = None; on = True; pre = list(x.pre)
    for fn, args in x.case.get('@before', ()):
        if fn == R: to = pre.pop(0) if args[0] is not None else None
        else: on = not args[0]
    return to, on
@ref('vt_debug_assert', *[{'expr': ex, 'zexpr': 2, 'subject': 2, 'quit_on_failure': q, 'file': 1, 'func': 2, 'zfmt': z, '...': va, '@before': pre, '@report': 1, '@fresh': 1}
                          for ex in (0, 1) for q in (0, 1) for pre in PRE for z, va in (MSG[1:2] if pre else MSG)])
def _(d, p, x):
    if x.case['expr']: return Out(check=report(None, None, False))
    to, on = debug_state(x); q = bool(x.case['quit_on_failure'])
    if not on: return Out(check=report(None, None, q))
    t = when(x)
    if t is None: return None
    return Out(check=report(to, t + B(' ') + S(p, 'subject') + B(' [') + S(p, 'zexpr') + B('] ') + S(p, 'file') + B(':') + S(p, 'func') + B(':') + [('n', p['line']['v'], 0, '')] + B(': ') + message(x, x.case['zfmt']) + B('\n'), q))
@ref('vt_debug_printf', *[{'subject': 2, 'zfmt': z, '...': va, '@before': pre, '@report': 1, '@fresh': 1} for pre in PRE for z, va in (MSG[1:2] if pre else MSG)])
def _(d, p, x):
    to, on = debug_state(x)
    if not on: return Out(check=report(None, None, False))
    t = when(x)
    if t is None: return None
    return Out(check=report(to, t + B(' ') + S(p, 'subject') + B(' ') + message(x, x.case['zfmt']), False))
