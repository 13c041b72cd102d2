"""Build the resolved program (LLVM IR with debug info) from /repo's current sources and parse it.

Only the compiler front end is used: nothing of the program is ever executed.
"""
import os, re, subprocess, hashlib, tempfile, shutil, sys, concurrent.futures

REPO = os.environ.get('VITA_REPO', '/repo')

class Broken(Exception):
    """The analysis cannot say anything (anchor vanished, front end failed...)."""

# ----------------------------------------------------------------------------- building
def sources():
    out = []
    for base, _, files in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(files):
            if f.endswith('.c'):
                out.append(os.path.join(base, f))
    if not out:
        raise Broken('no C sources below %s/src' % REPO)
    return sorted(out)

CFLAGS = ['-std=gnu11', '-I' + os.path.join(REPO, 'inc'), '-O0', '-Xclang', '-disable-O0-optnone', '-g',
          '-fno-discard-value-names', '-D__NO_CTYPE', '-w', '-fno-builtin-printf', '-fno-builtin-fprintf']

def build_ir(extra=(), cflags=CFLAGS):
    """compile every library source to bitcode, link, promote allocas; returns textual IR"""
    tmp = tempfile.mkdtemp(prefix='vita_ir_')
    try:
        srcs = sources()
        def one(i_s):
            i, s = i_s
            o = os.path.join(tmp, '%03d_%s.bc' % (i, os.path.basename(s)[:-2]))
            r = subprocess.run(['clang'] + list(cflags) + list(extra) + ['-emit-llvm', '-c', s, '-o', o],
                               capture_output=True, text=True)
            if r.returncode:
                raise Broken('clang cannot compile %s:\n%s' % (s, r.stderr[:2000]))
            return o
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        allbc = os.path.join(tmp, 'all.bc')
        r = subprocess.run(['llvm-link-18'] + objs + ['-o', allbc], capture_output=True, text=True)
        if r.returncode:
            raise Broken('llvm-link: ' + r.stderr[:2000])
        ll = os.path.join(tmp, 'all.ll')
        r = subprocess.run(['opt-18', '-passes=' + os.environ.get('VITA_PASSES', 'sroa'), '-S', allbc, '-o', ll], capture_output=True, text=True)
        if r.returncode:
            raise Broken('opt: ' + r.stderr[:2000])
        return open(ll).read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'fields', 'packed', 'name', '_size', '_align')
    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k = k; self.n = n; self.el = el; self.fields = fields; self.packed = packed; self.name = name
        self._size = None; self._align = None
    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.el)
        if self.k == 'struct': return self.name or ('{%s}' % ', '.join(map(repr, self.fields)))
        return self.k

PTR = Ty('ptr'); VOID = Ty('void'); LABEL = Ty('label'); META = Ty('metadata')
_ints = {}
def IntTy(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('int', n)
    return t
FLOATS = {'float': 4, 'double': 8, 'x86_fp80': 16, 'half': 2, 'fp128': 16}
_fl = {k: Ty('fp', v, name=k) for k, v in FLOATS.items()}

class Parser:
    """tiny recursive parser over one line of IR"""
    def __init__(self, s, mod):
        self.s = s; self.i = 0; self.mod = mod
    def ws(self):
        s = self.s; n = len(s)
        while self.i < n and s[self.i] in ' \t':
            self.i += 1
    def peek(self, t):
        self.ws(); return self.s.startswith(t, self.i)
    def eat(self, t):
        self.ws()
        if self.s.startswith(t, self.i):
            self.i += len(t); return True
        return False
    def need(self, t):
        if not self.eat(t):
            raise Broken('IR parse: expected %r at %r' % (t, self.s[self.i:self.i + 60]))
    W = re.compile(r'[A-Za-z_][A-Za-z0-9_.]*')
    def word(self):
        self.ws(); m = self.W.match(self.s, self.i)
        if not m: return None
        self.i = m.end(); return m.group()
    def type(self):
        self.ws(); s = self.s; c = s[self.i]
        if c == '[':
            self.i += 1; n = self.num(); self.need('x'); el = self.type(); self.need(']')
            t = Ty('arr', n, el)
        elif c == '{' or s.startswith('<{', self.i):
            packed = c == '<'
            self.i += 2 if packed else 1
            f = []
            if not self.peek('}'):
                while True:
                    f.append(self.type())
                    if not self.eat(','): break
            self.need('}>' if packed else '}')
            t = Ty('struct', fields=f, packed=packed)
        elif c == '<':
            self.i += 1; n = self.num(); self.need('x'); el = self.type(); self.need('>')
            t = Ty('vec', n, el)
        elif c == '%':
            nm = self.name()
            t = self.mod.types.get(nm)
            if t is None:
                t = self.mod.types[nm] = Ty('struct', name=nm)
        else:
            w = self.word()
            if w == 'ptr': t = PTR
            elif w == 'void': t = VOID
            elif w == 'label': t = LABEL
            elif w == 'metadata': t = META
            elif w == 'opaque': t = Ty('struct', fields=[])
            elif w in _fl: t = _fl[w]
            elif w and w[0] == 'i' and w[1:].isdigit(): t = IntTy(int(w[1:]))
            else: raise Broken('IR parse: type at %r' % s[self.i - 5:self.i + 40])
        # function type suffix
        if self.peek('(') and t is not None:
            save = self.i
            try:
                self.need('('); args = []; va = False
                if not self.peek(')'):
                    while True:
                        if self.eat('...'): va = True
                        else: args.append(self.type())
                        if not self.eat(','): break
                self.need(')')
                t = Ty('fn', n=va, el=t, fields=args)
            except Broken:
                self.i = save
        return t
    def num(self):
        self.ws(); m = re.compile(r'-?\d+').match(self.s, self.i); self.i = m.end(); return int(m.group())
    NM = re.compile(r'[%@](?:"[^"]*"|[-A-Za-z$._0-9]+)')
    def name(self):
        self.ws(); m = self.NM.match(self.s, self.i)
        if not m: raise Broken('IR parse: name at %r' % self.s[self.i:self.i + 40])
        self.i = m.end(); return m.group()
    ATTR = re.compile(r'(dead_on_unwind|writable|noundef|signext|zeroext|nonnull|noalias|nocapture|readonly|readnone|writeonly|immarg|returned|inreg|nofree|allocptr|allocalign|noreturn|nest|mustprogress|dso_local|local_unnamed_addr|captures\([^)]*\)|align\s+\d+|dereferenceable\(\d+\)|dereferenceable_or_null\(\d+\)|range\([^)]*\)|memory\([^)]*\))(?![A-Za-z0-9_])')
    def attrs(self):
        out = {}
        while True:
            self.ws()
            m = self.ATTR.match(self.s, self.i)
            if m:
                self.i = m.end(); out[m.group(1).split('(')[0].split()[0]] = True; continue
            m = re.compile(r'(byval|sret|elementtype)\(').match(self.s, self.i)
            if m:
                self.i = m.end(); out[m.group(1)] = self.type(); self.need(')'); continue
            return out
    def value(self, ty):
        """returns an operand: ('r',name) ('g',name) ('c',int) ('null',) ('undef',) ('f',txt) ('ce',op,...) ('agg',[...]) ('str',bytes)"""
        self.ws(); s = self.s; c = s[self.i]
        if c == '%': return ('r', self.name())
        if c == '@': return ('g', self.name())
        if c == 'c' and s.startswith('c"', self.i):
            j = s.index('"', self.i + 2); raw = s[self.i + 2:j]; self.i = j + 1
            return ('str', unesc(raw))
        if c in '-0123456789':
            m = re.compile(r'-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMH]?[0-9A-Fa-f]+|-?\d+').match(s, self.i)
            self.i = m.end(); t = m.group()
            if ty is not None and ty.k == 'fp': return ('f', t)
            if t.startswith('0x') or '.' in t: return ('f', t)
            return ('c', int(t))
        if c == '[' or c == '{' or c == '<':
            close = {'[': ']', '{': '}', '<': '>'}[c]
            self.i += 1
            if c == '<' and s[self.i] == '{': self.i += 1; close = '}>'
            vals = []
            if not self.peek(close):
                while True:
                    t = self.type(); vals.append((t, self.value(t)))
                    if not self.eat(','): break
            self.need(close)
            return ('agg', vals)
        w = self.word()
        if w == 'null': return ('null',)
        if w == 'true': return ('c', 1)
        if w == 'false': return ('c', 0)
        if w in ('undef', 'poison'): return ('undef',)
        if w == 'zeroinitializer': return ('zero',)
        if w == 'getelementptr':
            while True:
                self.ws()
                if self.eat('inbounds'): continue
                break
            self.need('(')
            bt = self.type(); self.need(',')
            ops = []
            while True:
                t = self.type(); ops.append((t, self.value(t)))
                if not self.eat(','): break
            self.need(')')
            return ('ce', 'gep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('ce', w, t, v, t2)
        if w in ('add', 'sub', 'mul'):
            while self.word_if(('nsw', 'nuw')): pass
            self.need('('); t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('ce', w, t, a, b)
        raise Broken('IR parse: value at %r' % s[max(0, self.i - 10):self.i + 50])
    def word_if(self, ws):
        save = self.i
        w = self.word()
        if w in ws: return w
        self.i = save
        return None

def unesc(raw):
    out = bytearray(); i = 0
    while i < len(raw):
        if raw[i] == '\\':
            out.append(int(raw[i + 1:i + 3], 16)); i += 3
        else:
            out += raw[i].encode('utf-8'); i += 1
    return bytes(out)

class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'loc', 'blk', 'idx', 'text')
    def __init__(self, op, dst, ty, a, loc, text):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.loc = loc; self.text = text

class Block:
    __slots__ = ('name', 'insts', 'succ', 'pred', 'i')
    def __init__(self, name):
        self.name = name; self.insts = []; self.succ = []; self.pred = []

class Fn:
    __slots__ = ('name', 'rty', 'params', 'vararg', 'blocks', 'order', 'internal', 'dbg', 'mod', 'entry', 'loops', 'noreturn', 'rattr', '_info')

class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'internal')

class Module:
    def __init__(self, text):
        self.types = {}; self.globals = {}; self.fns = {}; self.decls = {}; self.md = {}; self.attrs = {}
        self._mdp = {}
        self.parse(text)
    # ---------------------------------------------------------- layout
    def align(self, t):
        if t.k == 'int': return min(8 if t.n <= 64 else 16, max(1, 1 << max(0, ((t.n + 7) // 8 - 1)).bit_length()))
        if t.k == 'ptr': return 8
        if t.k == 'fp': return {'x86_fp80': 16}.get(t.name, t.n)
        if t.k == 'arr': return self.align(t.el)
        if t.k == 'struct':
            if t.packed or not t.fields: return 1
            return max(self.align(f) for f in t.fields)
        return 8
    def size(self, t):
        if t.k == 'int': return max(1, 1 << max(0, ((t.n + 7) // 8 - 1)).bit_length()) if t.n <= 64 else (t.n + 7) // 8
        if t.k == 'ptr': return 8
        if t.k == 'fp': return t.n
        if t.k == 'arr': return t.n * self.size(t.el)
        if t.k == 'struct':
            if t._size is None:
                self.offsets(t)
            return t._size
        return 8
    def offsets(self, t):
        off = 0; out = []
        for f in t.fields or []:
            a = 1 if t.packed else self.align(f)
            off = (off + a - 1) // a * a
            out.append(off); off += self.size(f)
        a = self.align(t)
        t._size = (off + a - 1) // a * a
        return out
    # ---------------------------------------------------------- parsing
    def parse(self, text):
        lines = text.split('\n')
        # types first
        for l in lines:
            if l.startswith('%') and ' = type ' in l:
                nm, rest = l.split(' = type ', 1)
                t = self.types.get(nm)
                if t is None: t = self.types[nm] = Ty('struct', name=nm)
                if rest.strip() == 'opaque': t.fields = []; continue
                p = Parser(rest, self); u = p.type()
                t.k = u.k; t.fields = u.fields; t.packed = u.packed; t.n = u.n; t.el = u.el
        i = 0; n = len(lines)
        for l in lines:
            if l.startswith('!') and ' = ' in l:
                k, v = l.split(' = ', 1); self.md[k] = v
            elif l.startswith('attributes #'):
                m = re.match(r'attributes (#\d+) = \{(.*)\}', l)
                self.attrs[m.group(1)] = m.group(2)
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare '):
                self.parse_decl(l)
            elif l.startswith('define '):
                j = i + 1
                while lines[j] != '}': j += 1
                self.parse_fn(l, lines[i + 1:j]); i = j
            i += 1
    def parse_global(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-A-Za-z$._0-9]+)) = (.*)$', l)
        g = Global(); g.name = m.group(1); rest = m.group(2)
        toks = re.match(r'((?:private|internal|external|dso_local|unnamed_addr|local_unnamed_addr|common|weak|hidden|thread_local|appending)\s+)*', rest)
        pre = toks.group(0); rest = rest[toks.end():]
        m2 = re.match(r'(global|constant)\s+', rest)
        if not m2: return
        g.const = m2.group(1) == 'constant'; g.internal = 'private' in pre or 'internal' in pre
        p = Parser(rest[m2.end():], self); g.ty = p.type(); g.init = None
        if 'external' not in pre:
            g.init = p.value(g.ty)
        self.globals[g.name] = g
    def parse_decl(self, l):
        m = re.search(r'(@(?:"[^"]*"|[-A-Za-z$._0-9]+))\(', l)
        if m:
            self.decls[m.group(1)[1:]] = l
    def parse_fn(self, head, body):
        f = Fn(); f.mod = self; f._info = None
        f.internal = bool(re.match(r'define (internal|private)', head))
        m = re.match(r'define\s+((?:internal|private|dso_local|hidden|linkonce_odr|weak)\s+)*', head)
        p = Parser(head, self); p.i = m.end()
        f.rattr = p.attrs(); f.rty = p.type() if not re.match(r'\s*(void|ptr|i\d+)\s*@', head[p.i:]) else self._simple(p)
        f.name = p.name()[1:]; p.need('(')
        f.params = []; f.vararg = False
        if not p.peek(')'):
            while True:
                if p.eat('...'): f.vararg = True
                else:
                    t = p.type(); at = p.attrs(); nm = p.name()
                    f.params.append((nm, t, at))
                if not p.eat(','): break
        p.need(')')
        m = re.search(r'!dbg (!\d+)', head); f.dbg = m.group(1) if m else None
        m = re.search(r'\) (#\d+)|(#\d+) !dbg|(#\d+) \{', head)
        f.noreturn = False
        f.blocks = {}; f.order = []
        cur = None; k = 0
        while k < len(body):
            l = body[k]; k += 1
            if not l.strip(): continue
            if l[0] not in ' \t':
                m = re.match(r'("[^"]*"|[-A-Za-z$._0-9]+):', l)
                if not m: continue
                cur = Block('%' + m.group(1)); f.blocks[cur.name] = cur; f.order.append(cur); continue
            if cur is None:
                cur = Block('%0'); f.blocks[cur.name] = cur; f.order.append(cur)
            if 'switch ' in l and l.rstrip().endswith('['):
                while body[k].strip() and not body[k].strip().startswith(']'):
                    l += ' ' + body[k].strip(); k += 1
                l += ' ' + body[k].strip(); k += 1
            ins = self.parse_inst(l.strip())
            if ins is not None:
                ins.blk = cur; ins.idx = len(cur.insts); cur.insts.append(ins)
        f.entry = f.order[0]
        for b in f.order:
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            else: b.succ = []
            u = []
            for s in b.succ:
                if s not in u: u.append(s)
            for s in u: f.blocks[s].pred.append(b.name)
        for i, b in enumerate(f.order): b.i = i
        self.fns[f.name] = f
    def _simple(self, p):
        return p.type()
    def parse_inst(self, l):
        if 'llvm.dbg.' in l or 'llvm.lifetime' in l: return None
        loc = None
        m = re.search(r', !dbg (!\d+)', l)
        if m:
            loc = m.group(1); l = l[:m.start()]
        l = re.sub(r', !(srcloc|tbaa|llvm\.loop|prof|nosanitize|range|noundef) !\d+', '', l)
        dst = None
        m = re.match(r'(%(?:"[^"]*"|[-A-Za-z$._0-9]+)) = ', l)
        if m:
            dst = m.group(1); l = l[m.end():]
        p = Parser(l, self)
        for pre in ('tail ', 'musttail ', 'notail '):
            if l.startswith(pre): p.i = len(pre)
        op = p.word()
        A = lambda op, ty, a: Inst(op, dst, ty, a, loc, l)
        if op == 'br':
            if p.eat('label'): return A('br', VOID, [p.name()])
            t = p.type(); c = p.value(t); p.need(','); p.need('label'); x = p.name(); p.need(','); p.need('label'); y = p.name()
            return A('br', VOID, [c, x, y])
        if op == 'switch':
            t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.name(); p.need('['); cs = []
            while not p.peek(']'):
                tt = p.type(); c = p.value(tt); p.need(','); p.need('label'); cs.append((c[1], p.name()))
            return A('switch', t, [v, d, cs])
        if op == 'ret':
            t = p.type()
            return A('ret', t, [] if t.k == 'void' else [p.value(t)])
        if op == 'unreachable': return A('unreachable', VOID, [])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = []
            while True:
                w = p.word_if(('nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'contract', 'disjoint'))
                if not w: break
                flags.append(w)
            t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return A(op, t, [a, b, flags])
        if op == 'fneg':
            t = p.type(); return A(op, t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            pred = p.word(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
            return A(op, IntTy(1), [pred, t, a, b])
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
            p.word_if(('nneg',))
            t = p.type(); v = p.value(t); p.need('to'); t2 = p.type()
            return A(op, t2, [v, t])
        if op == 'getelementptr':
            while p.word_if(('inbounds', 'nuw', 'nusw')): pass
            bt = p.type(); ops = []
            p.need(',')
            while True:
                t = p.type(); ops.append((t, p.value(t)))
                if not p.eat(','): break
            return A('gep', PTR, [bt, ops])
        if op == 'load':
            p.word_if(('volatile',))
            t = p.type(); p.need(','); t2 = p.type(); v = p.value(t2)
            return A('load', t, [v])
        if op == 'store':
            p.word_if(('volatile',))
            t = p.type(); v = p.value(t); p.need(','); t2 = p.type(); q = p.value(t2)
            return A('store', t, [v, q])
        if op == 'alloca':
            t = p.type(); cnt = None
            if p.eat(','):
                if not p.peek('align'):
                    ct = p.type(); cnt = p.value(ct)
            return A('alloca', t, [cnt])
        if op == 'phi':
            t = p.type(); inc = []
            while True:
                p.need('['); v = p.value(t); p.need(','); b = p.name(); p.need(']'); inc.append((v, b))
                if not p.eat(','): break
            return A('phi', t, inc)
        if op == 'select':
            t0 = p.type(); c = p.value(t0); p.need(','); t = p.type(); a = p.value(t); p.need(','); t2 = p.type(); b = p.value(t2)
            return A('select', t, [c, a, b])
        if op == 'call':
            p.attrs()
            t = p.type(); callee_ty = t
            if t.k == 'fn': rt = t.el
            else: rt = t
            p.ws()
            cal = ('asm',) if p.peek('asm') else p.value(PTR)
            if cal == ('asm',): raise Broken('inline assembly: ' + l)
            p.need('('); args = []
            if not p.peek(')'):
                while True:
                    at = p.type()
                    if at.k == 'metadata': return None
                    aa = p.attrs(); args.append((at, p.value(at), aa))
                    if not p.eat(','): break
            p.need(')')
            rest = l[p.i:]
            m = re.search(r'#\d+', rest)
            nr = bool(m and 'noreturn' in self.attrs.get(m.group(), ''))
            return A('call', rt, [cal, args, nr])
        if op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.eat(','): idx.append(p.num())
            return A(op, None, [t, v, idx])
        if op == 'insertvalue':
            t = p.type(); v = p.value(t); p.need(','); t2 = p.type(); e = p.value(t2); idx = []
            while p.eat(','): idx.append(p.num())
            return A(op, t, [v, t2, e, idx])
        if op == 'freeze':
            t = p.type(); return A('freeze', t, [p.value(t)])
        raise Broken('IR parse: unknown instruction: ' + l)
    # ---------------------------------------------------------- debug info
    def mdf(self, ref):
        """parse a specialised metadata node into a dict"""
        if ref is None: return None
        d = self._mdp.get(ref)
        if d is not None: return d
        txt = self.md.get(ref, '')
        m = re.match(r'(?:distinct )?!(DI\w+)\((.*)\)\s*$', txt)
        if m:
            d = {'_k': m.group(1)}
            for mm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                v = mm.group(2).strip()
                d[mm.group(1)] = v[1:-1] if v.startswith('"') else v
        else:
            m = re.match(r'(?:distinct )?!\{(.*)\}', txt)
            d = {'_k': 'list', 'items': [x.strip() for x in m.group(1).split(',')] if m and m.group(1).strip() else []}
        self._mdp[ref] = d
        return d
    def srcloc(self, ref):
        """(file, line) of a DILocation"""
        d = self.mdf(ref)
        if not d or d.get('_k') != 'DILocation': return (None, 0)
        sc = self.mdf(d.get('scope')); 
        while sc is not None and 'file' not in sc and 'scope' in sc: sc = self.mdf(sc['scope'])
        fd = self.mdf(sc.get('file')) if sc else None
        fn = None
        if fd:
            fn = fd.get('filename', '')
            if not fn.startswith('/') and fd.get('directory'): fn = os.path.join(fd['directory'], fn)
            if fn.startswith(REPO + '/'): fn = fn[len(REPO) + 1:]
        return (fn, int(d.get('line', 0)))
    def param_types(self, f):
        """declared C types of the function: (ret, [params]) as readable strings"""
        sp = self.mdf(f.dbg)
        if not sp: return (None, [])
        st = self.mdf(sp.get('type')); lst = self.mdf(st.get('types')) if st else None
        if not lst: return (None, [])
        return (self.tyname(lst['items'][0]), [self.tyname(x) for x in lst['items'][1:]])
    def tyname(self, ref, depth=0):
        if ref is None or ref == 'null': return 'void'
        d = self.mdf(ref)
        if d is None: return '?'
        k = d.get('_k'); tag = d.get('tag', '')
        if k == 'DIBasicType': return d.get('name', '?')
        if k == 'DIDerivedType':
            if tag == 'DW_TAG_pointer_type': return self.tyname(d.get('baseType')) + '*'
            if tag == 'DW_TAG_const_type': return 'const ' + self.tyname(d.get('baseType'))
            if tag == 'DW_TAG_typedef': return d.get('name')
            if tag == 'DW_TAG_restrict_type': return self.tyname(d.get('baseType'))
            return self.tyname(d.get('baseType'))
        if k == 'DICompositeType':
            if tag == 'DW_TAG_structure_type': return 'struct ' + d.get('name', '?')
            if tag == 'DW_TAG_enumeration_type': return 'enum ' + d.get('name', '?')
            if tag == 'DW_TAG_array_type': return self.tyname(d.get('baseType')) + '[]'
            return tag + ' ' + d.get('name', '?')
        if k == 'DISubroutineType': return 'fn'
        if k == 'list': return 'void'
        return '?'
    def fn_file(self, f):
        sp = self.mdf(f.dbg)
        if not sp: return None
        fd = self.mdf(sp.get('file'))
        if not fd: return None
        fn = fd.get('filename', '')
        if not fn.startswith('/') and fd.get('directory'): fn = os.path.join(fd['directory'], fn)
        if fn.startswith(REPO + '/'): fn = fn[len(REPO) + 1:]
        return fn

_mod_cache = {}
def load_module(extra=()):
    key = tuple(extra)
    if key not in _mod_cache:
        _mod_cache[key] = Module(build_ir(extra))
    return _mod_cache[key]

# ----------------------------------------------------------------------------- CFG utilities
def cfg_info(f):
    """reverse post order, dominators, natural loops (header -> set of blocks)"""
    if f._info is not None: return f._info
    order = []; seen = set()
    def dfs(b):
        stack = [(b, iter(f.blocks[b].succ))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(f.blocks[s].succ))); break
            else:
                order.append(x); stack.pop()
    dfs(f.entry.name)
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    idom = {rpo[0]: rpo[0]}
    changed = True
    def inter(a, b):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in f.blocks[b].pred if p in idom]
            n = ps[0]
            for p in ps[1:]: n = inter(n, p)
            if idom.get(b) != n: idom[b] = n; changed = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == rpo[0]: return False
            b = idom[b]
    loops = {}
    irreducible = False
    for b in rpo:
        for s in f.blocks[b].succ:
            if num[s] <= num[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += [p for p in f.blocks[x].pred if p in num]
                else: irreducible = True
    # liveness of registers
    use = {}; deff = {}
    for b in rpo:
        u = set(); d = set()
        for i in f.blocks[b].insts:
            if i.op != 'phi':
                for o in operands(i):
                    if o not in d: u.add(o)
            if i.dst: d.add(i.dst)
        use[b] = u; deff[b] = d
    livein = {b: set() for b in rpo}; liveout = {b: set() for b in rpo}
    ch = True
    while ch:
        ch = False
        for b in reversed(rpo):
            lo = set()
            for s in f.blocks[b].succ:
                phid = set()
                for i in f.blocks[s].insts:
                    if i.op != 'phi': break
                    phid.add(i.dst)
                    for v, pb in i.a:
                        if pb == b and v[0] == 'r': lo.add(v[1])
                lo |= livein[s] - phid
            li = use[b] | (lo - deff[b])
            if lo != liveout[b] or li != livein[b]:
                liveout[b] = lo; livein[b] = li; ch = True
    f._info = dict(rpo=rpo, num=num, idom=idom, loops=loops, irreducible=irreducible, livein=livein, liveout=liveout, dom=dom)
    return f._info

def _ops(v, out):
    if v[0] == 'r': out.append(v[1])
    elif v[0] == 'agg':
        for t, x in v[1]: _ops(x, out)

def operands(i):
    out = []
    op = i.op; a = i.a
    if op == 'br':
        if len(a) == 3: _ops(a[0], out)
    elif op == 'switch': _ops(a[0], out)
    elif op == 'ret':
        if a: _ops(a[0], out)
    elif op in ('icmp', 'fcmp'): _ops(a[2], out); _ops(a[3], out)
    elif op == 'gep':
        for t, v in a[1]: _ops(v, out)
    elif op == 'call':
        _ops(a[0], out)
        for t, v, at in a[1]: _ops(v, out)
    elif op == 'phi':
        for v, b in a: _ops(v, out)
    elif op == 'extractvalue': _ops(a[1], out)
    elif op == 'insertvalue': _ops(a[0], out); _ops(a[2], out)
    elif op == 'alloca':
        if a[0]: _ops(a[0], out)
    elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
        _ops(a[0], out)
    else:
        for v in a:
            if isinstance(v, tuple): _ops(v, out)
    return out
