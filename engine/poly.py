"""Integer polynomials over symbols and the constraint store (conjunctions of p >= 0 and p != 0).

Entailment is decided by exact linear programming over the monomials (see lp.c): the store is a polyhedral
abstract value. Rational infeasibility of the negated goal is a sound entailment proof; anything else is 'not proved'.
"""
import ctypes, os, subprocess, hashlib, tempfile
from math import gcd

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None
def lib():
    global _lib
    if _lib is None:
        src = os.path.join(HERE, 'lp.c')
        h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
        bd = os.path.join(os.path.dirname(HERE), '.build'); os.makedirs(bd, exist_ok=True)
        so = os.path.join(bd, 'lp_%s.so' % h)
        if not os.path.exists(so):
            fd, tmp = tempfile.mkstemp(dir=bd, suffix='.so'); os.close(fd)
            subprocess.run(['gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src], check=True)
            os.replace(tmp, so)
        _lib = ctypes.CDLL(so)
    return _lib

# ------------------------------------------------------------------ symbols
class Syms:
    lo = []; hi = []; name = []; imp = []; prov = []
def new_sym(name, lo=None, hi=None, imp=False, prov=None):
    s = len(Syms.lo)
    Syms.lo.append(lo); Syms.hi.append(hi); Syms.name.append(name); Syms.imp.append(imp); Syms.prov.append(prov)
    return s
def reset_syms():
    Syms.lo.clear(); Syms.hi.clear(); Syms.name.clear(); Syms.imp.clear(); Syms.prov.clear()
def sym_mark(): return len(Syms.lo)

# ------------------------------------------------------------------ polynomials
class Poly:
    __slots__ = ('d', '_h', '_k')
    def __init__(self, d):
        self.d = d; self._h = None; self._k = None
    @property
    def key(self):
        if self._k is None: self._k = tuple(sorted(self.d.items()))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(self.key)
        return self._h
    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.d == o.d)
    def __ne__(self, o): return not self == o
    def __add__(self, o):
        if isinstance(o, int):
            if o == 0: return self
            d = dict(self.d); c = d.get((), 0) + o
            if c: d[()] = c
            else: d.pop((), None)
            return Poly(d)
        if not o.d: return self
        if not self.d: return o
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) + c
            if x: d[m] = x
            else: del d[m]
        return Poly(d)
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o):
        if isinstance(o, int): return self + (-o)
        if not o.d: return self
        d = dict(self.d)
        for m, c in o.d.items():
            x = d.get(m, 0) - c
            if x: d[m] = x
            else: del d[m]
        return Poly(d)
    def __mul__(self, o):
        if isinstance(o, int):
            return Poly({m: c * o for m, c in self.d.items()}) if o else ZERO
        d = {}
        for m, c in self.d.items():
            for m2, c2 in o.d.items():
                mm = tuple(sorted(m + m2)) if m and m2 else (m or m2)
                x = d.get(mm, 0) + c * c2
                if x: d[mm] = x
                else: d.pop(mm, None)
        return Poly(d)
    def const(self):
        """integer value if constant, else None"""
        if not self.d: return 0
        if len(self.d) == 1: return self.d.get(())
        return None
    def single(self):
        """symbol id if the polynomial is exactly one symbol"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1: return m[0]
        return None
    def syms(self):
        s = set()
        for m in self.d: s.update(m)
        return s
    def degree(self):
        return max((len(m) for m in self.d), default=0)
    def subst(self, mp):
        """replace symbols by polynomials"""
        if not any(x in mp for m in self.d for x in m): return self
        r = ZERO
        for m, c in self.d.items():
            t = Poly({(): c})
            rest = []
            for x in m:
                if x in mp: t = t * mp[x]
                else: rest.append(x)
            if rest: t = t * Poly({tuple(rest): 1})
            r = r + t
        return r
    def divides(self, s):
        """quotient by symbol s if every monomial contains it"""
        d = {}
        for m, c in self.d.items():
            if s not in m: return None
            l = list(m); l.remove(s); d[tuple(l)] = c
        return Poly(d)
    def __repr__(self):
        if not self.d: return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: (-len(x[0]), x)):
            t = '*'.join(Syms.name[x] + '_%d' % x for x in m)
            if not m: out.append('%+d' % c)
            elif c == 1: out.append('+' + t)
            elif c == -1: out.append('-' + t)
            else: out.append('%+d*%s' % (c, t))
        s = ' '.join(out)
        return s[1:] if s.startswith('+') else s

ZERO = Poly({})
_cc = {}
def C(n):
    p = _cc.get(n)
    if p is None:
        p = Poly({(): n} if n else {})
        if -70000 < n < 70000: _cc[n] = p
    return p
def S(sym): return Poly({(sym,): 1})
def fresh(name, lo=None, hi=None, imp=False, prov=None): return S(new_sym(name, lo, hi, imp, prov))

def interval(p):
    """(lo, hi) from intrinsic symbol bounds; None = unbounded"""
    lo = hi = 0
    for m, c in p.d.items():
        if not m:
            if lo is not None: lo += c
            if hi is not None: hi += c
            continue
        l, h = 1, 1
        for s in m:
            a, b = Syms.lo[s], Syms.hi[s]
            if a is None or a < 0:
                if len(m) == 1: l, h = a, b
                else: l = h = None
                break
            l = l * a if l is not None else None
            h = (h * b) if (h is not None and b is not None) else None
        if c > 0: a, b = (None if l is None else c * l), (None if h is None else c * h)
        else: a, b = (None if h is None else c * h), (None if l is None else c * l)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
    return lo, hi

class Stats:
    lp = 0; ent = 0; hit = 0

BIG = 1 << 61

class CS:
    """conjunction of p >= 0 and p != 0"""
    __slots__ = ('c', 'neq', 'bad', 'memo')
    def __init__(self):
        self.c = {}; self.neq = (); self.bad = False; self.memo = {}
    def fork(self):
        n = CS(); n.c = dict(self.c); n.neq = self.neq; n.bad = self.bad; n.memo = dict(self.memo) if len(self.memo) < 200 else {}
        return n
    # -------------------------------------------------- adding
    @staticmethod
    def norm(p):
        """(linear part key, constant) with gcd tightening"""
        d = p.d; k = d.get((), 0); g = 0
        for m, c in d.items():
            if m: g = gcd(g, c)
        if g == 0: return None, k
        if g > 1:
            lin = tuple(sorted((m, c // g) for m, c in d.items() if m)); k = k // g
        else:
            lin = tuple(sorted((m, c) for m, c in d.items() if m))
        return lin, k
    def _put(self, lin, k):
        old = self.c.get(lin)
        if old is not None and old <= k: return False
        self.c[lin] = k
        neg = tuple((m, -c) for m, c in lin)
        o = self.c.get(neg)
        if o is not None and o + k < 0: self.bad = True
        return True
    def add(self, p):
        """assume p >= 0"""
        if self.bad: return
        lin, k = self.norm(p)
        if lin is None:
            if k < 0: self.bad = True
            return
        lo, hi = interval(p)
        if lo is not None and lo >= 0: return
        if hi is not None and hi < 0: self.bad = True; return
        ch = self._put(lin, k)
        if ch:
            self.memo = {}
            # common positive factor
            if any(len(m) > 1 for m, _ in lin):
                L = Poly(dict(lin))
                for s in set(lin[0][0]):
                    if (Syms.lo[s] or 0) >= 1:
                        q = L.divides(s)
                        if q is not None:
                            self.add(q if k == 0 else q - 1 if k < 0 else q + k)
            if self.neq: self._recheck()
    def add_eq(self, p):
        self.add(p); self.add(-p)
    def _recheck(self):
        n = self.neq; self.neq = ()
        for p in n:
            if self.bad: return
            self.add_neq(p)
    def add_neq(self, p):
        c = p.const()
        if c is not None:
            if c == 0: self.bad = True
            return
        for m in list(p.d)[:1]:
            for s in set(m):
                if (Syms.lo[s] or 0) >= 1 and len(p.d) >= 1:
                    q = p.divides(s)
                    if q is not None: return self.add_neq(q)
        g = 0
        for m, c in p.d.items():
            if m: g = gcd(g, c)
        k = p.d.get((), 0)
        if g > 1:
            if k % g: return
            p = Poly({m: c // g for m, c in p.d.items()})
        if self.entails(p):
            self.add(p - 1)
        elif self.entails(-p):
            self.add(-p - 1)
        else:
            if p not in self.neq and -p not in self.neq:
                self.neq = self.neq + (p,)
    # -------------------------------------------------- queries
    def entails(self, p):
        """is p >= 0 implied?"""
        if self.bad: return True
        Stats.ent += 1
        lin, k = self.norm(p)
        if lin is None: return k >= 0
        lo, hi = interval(p)
        if lo is not None and lo >= 0: return True
        o = self.c.get(lin)
        if o is not None and o <= k: return True
        mk = (lin, k)
        r = self.memo.get(mk)
        if r is not None: Stats.hit += 1; return r
        r = self._lp(p)
        if not r and any(len(m) > 1 for m, _ in lin):
            L = Poly(dict(lin))
            for s in set(lin[0][0]):
                if (Syms.lo[s] or -1) >= 0:
                    q = L.divides(s)
                    if q is not None and k >= 0 and self.entails(q): r = True; break
        self.memo[mk] = r
        return r
    def entails_eq(self, p):
        c = p.const()
        if c is not None: return c == 0
        return self.entails(p) and self.entails(-p)
    def entails_neq(self, p):
        c = p.const()
        if c is not None: return c != 0
        if p in self.neq or -p in self.neq: return True
        return self.entails(p - 1) or self.entails(-p - 1)
    def feasible(self, p=None):
        """could the constraints (connected to p) hold? (False = definitely not)"""
        if self.bad: return False
        if p is not None:
            k = p.const()
            if k is not None: return True
        if self._lp(None, seed=p.syms() if p is not None else None): self.bad = True; return False
        return True
    def _relevant(self, seeds, cap=70):
        seen = set(seeds); out = []; rest = list(self.c.items())
        # avoid following enormous fan-out: BFS by layers
        while True:
            layer = []; nr = []
            for it in rest:
                lin = it[0]
                hit = False
                for m, _ in lin:
                    for s in m:
                        if s in seen: hit = True; break
                    if hit: break
                if hit: layer.append(it)
                else: nr.append(it)
            if not layer: break
            out += layer; rest = nr
            for lin, _ in layer:
                for m, _ in lin: seen.update(m)
            if len(out) > cap: break
        return out, seen
    def _lp(self, goal, seed=None):
        """is {constraints, goal <= -1} infeasible?"""
        if goal is not None: seeds = goal.syms()
        elif seed is not None: seeds = seed
        else: seeds = set(s for lin in self.c for m, _ in lin for s in m)
        rel, seen = self._relevant(seeds)
        rows = [Poly(dict(lin)) + k for lin, k in rel]
        if goal is not None: rows.append(-goal - 1)
        # products: multiply linear constraints by scale symbols
        quad = set()
        for r in rows:
            for m in r.d:
                if len(m) > 1: quad.add(m)
        if quad:
            scale = {}
            for m in quad:
                for i, s in enumerate(m):
                    if Syms.lo[s] is not None and Syms.lo[s] >= 0:
                        o = m[:i] + m[i + 1:]
                        scale.setdefault(s, set()).update(o)
            extra = []
            done = set()
            for s, others in scale.items():
                f = S(s) - Syms.lo[s]
                f0 = S(s)
                for r in rows[:60]:
                    if r.degree() != 1: continue
                    if not (r.syms() & others) or s in r.syms(): continue
                    extra.append(r * f0)
                    if Syms.lo[s]: extra.append(r * f)
                for o in others:
                    if o == s: continue
                    if Syms.lo[o] is not None:
                        extra.append((S(o) - Syms.lo[o]) * f)
                        if Syms.lo[s]: extra.append((S(o) - Syms.lo[o]) * f0)
                    if Syms.hi[o] is not None: extra.append((Syms_hi(o) - S(o)) * f)
            rows += extra[:160]
        Stats.lp += 1
        idx = {}
        for r in rows:
            for m in r.d:
                if m and m not in idx: idx[m] = len(idx)
        nv = len(idx); nr = len(rows)
        A = (ctypes.c_int64 * (nv * nr))(); b = (ctypes.c_int64 * nr)()
        for i, r in enumerate(rows):
            base = i * nv
            for m, c in r.d.items():
                if abs(c) > BIG: c = BIG if c > 0 else -BIG
                if m: A[base + idx[m]] = c
                else: b[i] = c
        hl = (ctypes.c_int8 * nv)(); hh = (ctypes.c_int8 * nv)(); lo = (ctypes.c_int64 * nv)(); hi = (ctypes.c_int64 * nv)()
        for m, j in idx.items():
            if len(m) == 1:
                l, h = Syms.lo[m[0]], Syms.hi[m[0]]
            else:
                l, h = 1, 1
                for s in m:
                    a, c = Syms.lo[s], Syms.hi[s]
                    if a is None or a < 0: l = h = None; break
                    l *= a; h = h * c if h is not None and c is not None else None
            if l is not None and abs(l) < BIG: hl[j] = 1; lo[j] = l
            if h is not None and abs(h) < BIG: hh[j] = 1; hi[j] = h
        return lib().lp_check(nv, nr, A, b, hl, lo, hh, hi) == 1
    def items(self):
        return [Poly(dict(lin)) + k for lin, k in self.c.items()]

def Syms_hi(o): return C(Syms.hi[o])
