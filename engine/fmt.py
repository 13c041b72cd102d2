"""Formats and their arguments, at every call site of the library (printf and scanf families and the library's own formatting functions)."""
import re, os, subprocess, tempfile, concurrent.futures
import ir

# name -> (format operand, first variable operand or None for va_list versions)
BASE = {'printf': (0, 1), 'fprintf': (1, 2), 'sprintf': (1, 2), 'snprintf': (2, 3), 'dprintf': (1, 2), 'asprintf': (1, 2), 'syslog': (1, 2), 'vprintf': (0, None), 'vfprintf': (1, None), 'vsprintf': (1, None), 'vsnprintf': (2, None), 'vasprintf': (1, None)}
SCAN = {'scanf': (0, 1), 'fscanf': (1, 2), 'sscanf': (1, 2), '__isoc99_sscanf': (1, 2), '__isoc99_fscanf': (1, 2), '__isoc99_scanf': (0, 1), '__isoc23_sscanf': (1, 2), '__isoc23_fscanf': (1, 2)}
CONV = re.compile(rb"%(?:(%)|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z]))")
def callee(i):
    c = i.a[0]
    return c[1].lstrip('@') if isinstance(c, tuple) and c[0] == 'g' else None
def text(m, name):
    g = m.globals.get(name)
    if g is None: return None
    b = ir_bytes(g)
    if b is None: return None
    z = b.find(0)
    return b[:z] if z >= 0 else b
def ir_bytes(g):
    for k in ('init', 'val', 'bytes'):
        v = getattr(g, k, None)
        if isinstance(v, (bytes, bytearray)): return bytes(v)
        if isinstance(v, tuple) and v and v[0] == 'str' and isinstance(v[1], (bytes, bytearray)): return bytes(v[1])
    return None
def wants(fmt, scan=False):
    """expected operand classes, or an error text"""
    out = []; pos = 0
    for mm in re.finditer(rb'%', fmt):
        if mm.start() < pos: continue
        if scan:
            x = re.match(rb'%(?:(%)|(\*)?(\d+)?(hh|h|ll|l|q|j|z|t|L)?([a-zA-Z]|\[\^?\]?[^\]]*\]))', fmt[mm.start():])
            if not x: return 'incomplete conversion in "%s"' % fmt.decode('latin-1')
            pos = mm.start() + x.end()
            if not x.group(1) and not x.group(2): out.append('ptr')
            continue
        x = CONV.match(fmt, mm.start())
        if not x: return 'incomplete conversion in "%s"' % fmt.decode('latin-1')
        pos = x.end()
        if x.group(1): continue
        if x.group(3) == b'*': out.append('i32')
        if x.group(4) == b'*': out.append('i32')
        ln, c = x.group(5), x.group(6)
        if c in b'diouxXc': out.append('i64' if ln in (b'l', b'll', b'q', b'j', b'z', b't') else 'i32')
        elif c in b'eEfFgGaA': out.append('fp80' if ln == b'L' else 'fp')
        elif c in b'sp': out.append('ptr' if c == b'p' else 'str')
        elif c == b'n': return '%n in a format'
        elif c == b'm': pass
        else: return 'unknown conversion %%%s' % c.decode('latin-1')
    return out
def cls(ty):
    if ty.k == 'ptr': return 'ptr'
    if ty.k == 'int': return 'i64' if ty.n == 64 else 'i32' if ty.n <= 32 else 'i%d' % ty.n
    if ty.k == 'fp': return 'fp80' if ty.name == 'x86_fp80' else 'fp'
    return ty.k
def sources(f, v, seen=None):
    """the values that can reach an operand through phi, select and casts"""
    seen = seen if seen is not None else set()
    if v[0] != 'r': return [v]
    if v[1] in seen: return []
    seen.add(v[1])
    if any(p[0] == v[1] for p in f.params): return [('param', [p[0] for p in f.params].index(v[1]))]
    d = DEFS(f).get(v[1])
    if d is None: return [v]
    if d.op == 'phi': return [y for x in phi_ops(d) for y in sources(f, x, seen)]
    if d.op == 'select': return [y for x in (d.a[1], d.a[2]) for y in sources(f, x, seen)]
    return [('load' if d.op == 'load' else 'def', d)]
_defs = {}
def DEFS(f):
    if id(f) not in _defs: _defs[id(f)] = {i.dst: i for b in f.blocks.values() for i in b.insts if i.dst}
    return _defs[id(f)]
def phi_ops(d):
    out = []
    def walk(x):
        if isinstance(x, tuple) and x and x[0] in ('r', 'g', 'c', 'null') and len(x) <= 2: out.append(x)
        elif isinstance(x, (tuple, list)):
            for y in x: walk(y)
    walk(d.a)
    return out
def formatters(m):
    """the library's own formatting functions: a parameter is forwarded as the format of another one"""
    F = dict(BASE); ch = True
    while ch:
        ch = False
        for f in m.fns.values():
            if f.name in F: continue
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op != 'call' or callee(i) not in F: continue
                    k, va = F[callee(i)]
                    if k >= len(i.a[1]) or va is not None and len(i.a[1]) > va: continue
                    for s in sources(f, i.a[1][k][1]):
                        if s[0] == 'param' and f.name not in F and (va is None):
                            F[f.name] = (s[1], len(f.params) if f.vararg else None); ch = True
    return F
def check(m, rep):
    F = formatters(m); own = {k: v for k, v in F.items() if k not in BASE}
    sites = args = 0
    for f in m.fns.values():
        for b in f.blocks.values():
            for i in b.insts:
                if i.op != 'call': continue
                n = callee(i); scan = n in SCAN
                if not scan and n not in F: continue
                k, va = SCAN[n] if scan else F[n]
                ops = i.a[1]
                if k >= len(ops): continue
                sites += 1
                loc = m.srcloc(i.loc) or ('?', 0)
                def bad(msg): rep.violate('format', loc[0], loc[1], f.name, msg, entry=f.name)
                for s in sources(f, ops[k][1]):
                    if s[0] == 'param':
                        if F.get(f.name, (None,))[0] != s[1] and not scan: bad('the parameter "%s" of %s is used as a format without its arguments' % (f.params[s[1]][0].lstrip('%'), f.name))
                        continue
                    if s[0] == 'null': continue
                    fm = text(m, s[1]) if s[0] == 'g' else None
                    if fm is None:
                        bad('%s is given a format that is computed at run time' % n); continue
                    if va is None: continue
                    w = wants(fm, scan)
                    if isinstance(w, str): bad('%s: %s' % (n, w)); continue
                    have = ops[va:]
                    args += len(have)
                    t = fm.decode('latin-1').replace('\n', '\\n')
                    if len(have) < len(w): bad('"%s" needs %d arguments, %s is given %d' % (t, len(w), n, len(have))); continue
                    if len(have) > len(w): bad('"%s" uses %d arguments, %s is given %d' % (t, len(w), n, len(have))); continue
                    for j, (x, o) in enumerate(zip(w, have)):
                        c = cls(o[0])
                        if x == 'str' and c == 'ptr':
                            if o[1][0] == 'null': bad('"%s": argument %d is NULL' % (t, j + 1))
                            continue
                        if x != c: bad('"%s": conversion %d takes %s, the argument is %s' % (t, j + 1, NAME.get(x, x), NAME.get(c, c)))
    return own, sites, args
NAME = {'i32': 'an int', 'i64': 'a 64-bit integer', 'fp': 'a double', 'fp80': 'a long double', 'ptr': 'a pointer', 'str': 'a string'}

def typed(m, own, rep):
    """pointee types, on the type-checked source: a %s argument that does not point to characters, a scanf target of another type"""
    tmp = tempfile.mkdtemp(prefix='vita_fmt_')
    try:
        h = os.path.join(tmp, 'attr.h')
        with open(h, 'w') as o:
            o.write('#include "vita/vita.h"\n')
            for n, (k, va) in sorted(own.items()):
                if m.fns[n].linkage_internal if hasattr(m.fns[n], 'linkage_internal') else False: continue
                if n in HDR(): o.write('__typeof__(%s) %s __attribute__((format(printf, %d, %d)));\n' % (n, n, k + 1, (va + 1) if va is not None else 0))
        srcs = ir.sources()
        def one(s):
            r = subprocess.run(['clang', '-std=gnu11', '-I' + os.path.join(ir.REPO, 'inc'), '-fsyntax-only', '-w', '-Wformat', '-fno-caret-diagnostics', '-fno-diagnostics-fixit-info', '-include', h, s], capture_output=True, text=True)
            return s, r
        with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(one, srcs))
        n = 0; broken = []
        for s, r in res:
            n += 1
            if r.returncode: broken.append(s + ': ' + r.stderr[:200]); continue
            for l in r.stderr.splitlines():
                x = re.match(r"^(.*?):(\d+):\d+: warning: format specifies type '([^']*)'(?: \(aka '[^']*'\))? but the argument has (?:underlying )?type '([^']*)'", l)
                if not x: continue
                a, b = x.group(3), x.group(4)
                if '*' in a and not ('void' in a and '*' in b) and not (a.replace('const ', '') in ('char *',) and re.sub(r'const |unsigned |signed ', '', b) in ('char *', 'uint8_t *', 'int8_t *')):
                    rep.violate('format', os.path.relpath(x.group(1), ir.REPO), int(x.group(2)), '', 'the format takes %s, the argument is %s' % (a, b), entry='')
        return n, broken
    finally:
        import shutil; shutil.rmtree(tmp, ignore_errors=True)
_h = []
def HDR():
    if not _h:
        t = ''
        for d, _, fs in os.walk(os.path.join(ir.REPO, 'inc')):
            for x in fs:
                if x.endswith('.h'): t += open(os.path.join(d, x), errors='replace').read()
        _h.append(set(re.findall(r'\b(\w+)\s*\(', t)))
    return _h[0]
