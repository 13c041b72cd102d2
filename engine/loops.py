"""Loop fixpoint for the abstract interpreter: inductive invariants by Houdini filtering of template candidates."""
import ir
from poly import *
from absint import *

PEEL = 2
MAXNODES = 24
MAXROUNDS = 30

class Node:
    __slots__ = ('base', 'shape', 'incoming', 'changed', 'cands', 'fcands', 'H', 'vals', 'isE', 'drop_cells', 'prepared', 'genchg', 'kap', 'rep', 'dirty', 'fadded', 'ghost', 'verchg')
    def __init__(self, base, shape, isE):
        self.base = base; self.shape = shape; self.incoming = []; self.changed = set(); self.cands = None; self.fcands = None
        self.H = None; self.vals = {}; self.isE = isE; self.drop_cells = set(); self.prepared = False; self.genchg = set(); self.kap = None
        self.rep = {}; self.dirty = True; self.fadded = False; self.ghost = None; self.verchg = set()

class LoopMixin:
    maxcur = 12
    peel = PEEL     # iterations analysed exactly before the loop state is widened
    endless = 0     # rounds of a single exact state after which a loop is reported as endless (0: never)
    longpeel = 0    # ... and as long as only few states go round
    def run_loop(self, fn, h, body, states):
        exits = []; rets = []
        for E in states: self.one_loop(fn, h, body, E, exits, rets)
        return exits, rets

    def trim(self, fn, h, s):
        info = ir.cfg_info(fn)
        keep = set(info['livein'][h]) | {i.dst for i in fn.blocks[h].insts if i.op == 'phi'}
        if len(s.env) > len(keep): s.env = {k: v for k, v in s.env.items() if k in keep}
        return s

    def one_loop(self, fn, h, body, E, exits, rets):
        self.trim(fn, h, E)
        npeel = self.peel if not self.mute else 0
        cur = [E.fork()]
        pex = []; prt = []
        done = False; trunc = False
        ct = not self.mute and self.const_trip(fn, h, body, E)
        far = max(npeel, self.longpeel) if npeel else 0; seen = {}
        for k in range(max(far, self.endless) if npeel else 0):
            if k >= npeel and len(cur) > 3: break
            if k >= far:            # a loop that goes round and round
                if len(cur) > 1 or cur[0].imp or cur[0].weak: break
                fp = self.fingerprint(fn, h, cur[0])
                if seen.setdefault(fp, k) != k or k == self.endless - 1:
                    self.alarm('endless', 'the loop never ends: %s' % ('the state after %d rounds is the state after %d rounds again' % (k, seen[fp]) if seen[fp] != k else 'it goes on after %d rounds' % k), cur[0]); exits += pex; rets += prt; return
            ex, rt, bk = self.run_region(fn, body, h, cur, h)
            pex += ex; prt += rt
            cur = []
            for frm, s in bk:
                self.phis(fn, h, frm, s); self.trim(fn, h, s)
                if not self.mute: self.leak_check(E, s)
                cur.append(s)
            cur = self.merge(fn, h, cur) if cur else []
            if not cur: done = True; break
            if len(cur) > (max(48, self.maxcur) if ct else self.maxcur): cur = cur[:12]; trunc = True
        if done:
            exits += pex; rets += prt; return
        # constant trip counts: keep unrolling when cheap
        if not trunc and self.const_trip(fn, h, body, E):
            k = 0
            while cur and k < 80:
                ex, rt, bk = self.run_region(fn, body, h, cur, h)
                pex += ex; prt += rt; cur = []
                for frm, s in bk:
                    self.phis(fn, h, frm, s); self.trim(fn, h, s); cur.append(s)
                cur = self.merge(fn, h, cur) if cur else []
                k += 1
                if len(cur) > max(48, self.maxcur): break
            if not cur:
                exits += pex; rets += prt; return
        if not self.mute:
            exits += pex; rets += prt
        self.mute += 1
        try:
            nodes = self.loop_fix(fn, h, body, E)
        finally:
            self.mute -= 1
        for nd in nodes:
            H = nd.H.fork()
            H.imp = H.imp | {'loop'}
            ex, rt, bk = self.run_region(fn, body, h, [H], h)
            exits += ex; rets += rt
            if not self.mute:
                for frm, s in bk:
                    self.phis(fn, h, frm, s); self.trim(fn, h, s); self.leak_check(E, s)

    def fingerprint(self, fn, h, s):
        """the whole state, as far as the loop can see it"""
        env = tuple(sorted((k, repr(v)) for k, v in s.env.items()))
        mem = tuple((k, r.live, r.gen, repr(r.size), repr(sorted(r.cells.items(), key=lambda x: repr(x[0]))), repr(r.facts)) for k, r in sorted(s.reg.items(), key=lambda x: repr(x[0])))
        return hash((env, mem, repr(sorted(s.ghost.items(), key=repr))))
    def const_trip(self, fn, h, body, E):
        """header compares a phi that is constant on entry with a constant"""
        if self.mute and len(body) > 6: return False
        info = ir.cfg_info(fn)
        phis = {i.dst: i for i in fn.blocks[h].insts if i.op == 'phi'}
        for b in body:
            for i in fn.blocks[b].insts:
                if i.op == 'icmp':
                    x, y = i.a[2], i.a[3]
                    for p, q in ((x, y), (y, x)):
                        if q[0] == 'c': qc = q[1]
                        elif q[0] == 'r' and isinstance(E.env.get(q[1]), Poly): qc = E.env[q[1]].const()
                        else: qc = None
                        if p[0] == 'r' and p[1] in phis and qc is not None and abs(qc) <= 64:
                            v = E.env.get(p[1])
                            if isinstance(v, Poly) and v.const() is not None: return True
        return False

    def leak_check(self, E, s):
        self.find_leaks(s, set(E.reg), list(s.env.values()), 'at the end of a loop iteration', set(E.ghost))

    # ------------------------------------------------------------------ canonical back states
    def canon(self, E, s):
        """forget regions born inside the loop: pointers to them become unknown"""
        new = [k for k in s.reg if k not in E.reg]
        if new:
            ns = {k for k in new if not (s.reg[k].ro or s.reg[k].kind == 'global')}
            if ns:
                cache = {}
                def fix(v):
                    if isinstance(v, Ptr) and v.r in ns:
                        u = cache.get((v.r,))
                        if u is None:
                            t = s.reg[v.r].tag
                            u = self.new_unk(t[1] if isinstance(t, tuple) and t[0] == 'kind' else 'loopobj')
                            s.ghost[('nn', u.id)] = True
                            cache[(v.r,)] = u
                        return u
                    if isinstance(v, Agg): return Agg([fix(x) for x in v.v])
                    return v
                for k, v in list(s.env.items()):
                    w = fix(v)
                    if w is not v: s.env[k] = w
                for rid, r in list(s.reg.items()):
                    if rid in ns: continue
                    for o, (n, v) in list(r.cells.items()):
                        w = fix(v)
                        if w is not v: s.w(rid).cells[o] = (n, w)
                    if any(f.src[0] == 'val' and isinstance(f.src[1], Ptr) and f.src[1].r in ns for f in r.facts) or any(f.src[0] == 'init' and f.src[1] in ns for f in r.facts):
                        r = s.w(rid)
                        r.facts = tuple(f for f in r.facts if not (f.src[0] == 'val' and isinstance(f.src[1], Ptr) and f.src[1].r in ns) and not (f.src[0] == 'init' and f.src[1] in ns))
                for k in ns: del s.reg[k]
                for u, rid in list(s.unk.items()):
                    if rid in ns: del s.unk[u]
        for u in list(s.unk):
            if u not in E.unk and s.unk[u] == 'null' and u > self.loop_unk_mark: del s.unk[u]
        return s

    # ------------------------------------------------------------------ fixpoint
    def lshape(self, E, st):
        out = []
        e = st.env
        for k in sorted(e): out.append((k, self.lv(st, e[k])))
        for rid in sorted(st.reg):
            r = st.reg[rid]
            if r.ro: continue
            out.append((rid, r.live, tuple(sorted((o, self.lv(st, v)) for o, (n, v) in r.cells.items() if isinstance(v, (Ptr, FnV)) or v is NULL))))
        out.append(tuple(sorted((repr(k), repr(v)) for k, v in st.ghost.items() if k[0] not in ('oc', 'nn', 'ev', 'cmp', 'cb'))))
        return tuple(out)
    def lv(self, st, v):
        if isinstance(v, Ptr):
            r = st.reg.get(v.r)
            return ('p', v.r, r is not None and r.gen == v.gen)
        if v is NULL: return 'n'
        if isinstance(v, UnkPtr):
            k = st.unk.get(v.id)
            return ('u', 'null' if k == 'null' else None)
        if isinstance(v, FnV): return ('f', v.name)
        if isinstance(v, Cond): return ('c', v.t[1]) if v.t[0] == 'c' else 'c'
        if isinstance(v, Poly): return 'i'
        return 'o'

    def locs(self, st):
        d = {}
        for k, v in st.env.items():
            d[('e', k)] = v
        for rid, r in st.reg.items():
            if r.ro: continue
            if r.size is not None: d[('s', rid)] = r.size
            for o, (n, v) in r.cells.items(): d[('c', rid, o, n)] = v
        return d

    def loop_fix(self, fn, h, body, E):
        nodes = {}
        em = self._emark
        self._emark = sym_mark()
        try: return self._loop_fix(fn, h, body, E, nodes)
        finally: self._emark = em
    def _loop_fix(self, fn, h, body, E, nodes):
        mark_old = getattr(self, 'loop_unk_mark', 0)
        self.loop_unk_mark = self.nunk
        sh = self.lshape(E, E)
        nodes[sh] = Node(E, sh, True)
        # --- phase 1: discover what changes (everything changed becomes a fresh symbol, no invariants)
        stable = False
        rounds = 0
        while not stable:
            stable = True
            rounds += 1
            if rounds > MAXROUNDS: raise Budget('loop discovery does not settle in %s' % fn.name)
            allin = {}
            for k in list(nodes):
                nd = nodes[k]
                self.build(nd, E, weak=True)
                for s in self.backs_of(fn, h, body, E, nd):
                    k2 = self.lshape(E, s)
                    if k2 not in nodes:
                        if len(nodes) >= MAXNODES: raise Budget('too many loop shapes in %s' % fn.name)
                        nodes[k2] = Node(s, k2, False); stable = False
                    n2 = nodes[k2]
                    if self.discover(n2, s): stable = False
        # --- phase 2: relations and candidates
        first = True
        while True:
            rounds += 1
            if rounds > MAXROUNDS * 3: raise Budget('loop invariant does not settle in %s' % fn.name)
            for nd in nodes.values(): nd.incoming = []
            nodes[sh].incoming.append(('E', E))
            again = False
            for k in list(nodes):
                nd = nodes[k]
                if nd.H is None: self.build(nd, E, weak=first)
                for s in self.backs_of(fn, h, body, E, nd):
                    k2 = self.lshape(E, s)
                    if k2 not in nodes: raise Budget('loop shape changed in %s' % fn.name)
                    if self.discover(nodes[k2], s): again = True
                    nodes[k2].incoming.append((k, s))
            if first:
                for nd in nodes.values(): self.relate(nd, E)
                for nd in nodes.values(): self.candidates(nd, E, nodes)
                for nd in nodes.values(): self.build(nd, E)
                first = False
                continue
            if again:
                for nd in nodes.values():
                    nd.rep = {}; self.build(nd, E, weak=True)
                first = True; continue
            dropped = False
            for nd in nodes.values():
                if self.houdini(nd, E): dropped = True
            if not dropped: break
            for nd in nodes.values(): self.build(nd, E)
        self.loop_unk_mark = mark_old
        return list(nodes.values())

    def backs_of(self, fn, h, body, E, nd):
        ex, rt, bk = self.run_region(fn, body, h, [nd.H.fork()], h)
        out = []
        for frm, s in bk:
            self.phis(fn, h, frm, s); self.trim(fn, h, s); self.canon(E, s)
            if s.cs.bad or not s.cs.feasible(): continue
            out.append(s)
        return out

    def samev(self, a_st, a, b_st, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r == b.r and a.off == b.off
        if isinstance(a, UnkPtr) and isinstance(b, UnkPtr): return a.id == b.id
        return a == b

    def discover(self, nd, s):
        """record locations whose value in s differs from the node's H"""
        H = nd.H if nd.H is not None else nd.base
        ch = False
        hl = self.locs(H); sl = self.locs(s)
        for k, v in hl.items():
            if k in nd.changed: continue
            w = sl.get(k)
            if w is None:
                nd.changed.add(k); ch = True; continue
            if not self.samev(H, v, s, w): nd.changed.add(k); ch = True
        for rid, r in H.reg.items():
            b = s.reg.get(rid)
            if b is None:
                if r.kind == 'global': continue
                raise Budget('region vanished in loop: %s' % r.name)
            if b is r: continue
            if b.gen != r.gen and rid not in nd.genchg: nd.genchg.add(rid); ch = True
            if b.facts != r.facts and ('f', rid) not in nd.changed: nd.changed.add(('f', rid)); ch = True
            if b.ver != r.ver and rid not in nd.verchg: nd.verchg.add(rid); ch = True
        return ch

    def build(self, nd, E, weak=False):
        """abstract header state of the node"""
        B = nd.base
        H = B.fork()
        if weak: nd.vals = {}
        mp = {}
        sizes = []
        H.ghost = dict(B.ghost)
        if not nd.isE:
            for k in list(H.ghost):
                if k[0] in ('oc', 'nn', 'cmp', 'cb', 'ev') and k not in E.ghost and not (k[0] == 'nn'): del H.ghost[k]
            if weak:
                # only what the loop entry already guaranteed is sure to hold for every state reaching this node
                n = CS(); n.c = dict(E.cs.c); n.neq = E.cs.neq
                H.cs = n; H.nz = E.nz
            else:
                n = CS(); n.c = dict(E.cs.c); n.neq = E.cs.neq
                H.cs = n; H.nz = E.nz
        for k in sorted(nd.changed, key=repr):
            if k[0] == 'f':
                r = H.w(k[1])
                if nd.fcands is None or weak: r.facts = ()
                else: r.facts = tuple(f for f in nd.fcands.get(k[1], ()))
                continue
            if k[0] == 'e': v = B.env[k[1]]
            elif k[0] == 's': v = B.reg[k[1]].size
            else:
                c = B.reg[k[1]].cells.get(k[2])
                if c is None: continue
                v = c[1]
            nv = self.newval(nd, H, k, v, weak)
            if k[0] == 'e': H.env[k[1]] = nv
            elif k[0] == 's': H.w(k[1]).size = nv
            else:
                r = H.w(k[1])
                if nv is None: r.cells.pop(k[2], None)
                else: r.cells[k[2]] = (k[3], nv)
        for rid in nd.verchg:
            self.nver = getattr(self, 'nver', 1000000) + 1
            H.w(rid).ver = self.nver
        for rid in nd.genchg:
            r = H.w(rid); old = r.gen
            self.ngen = getattr(self, 'ngen', 1000) + 1
            r.gen = self.ngen
            def fixg(v):
                if isinstance(v, Ptr) and v.r == rid and v.gen == old: return Ptr(rid, v.off, r.gen)
                return v
            for k, v in H.env.items(): H.env[k] = fixg(v)
            for q in list(H.reg):
                for o, (n, v) in list(H.reg[q].cells.items()):
                    w = fixg(v)
                    if w is not v: H.w(q).cells[o] = (n, w)
        if not weak and nd.cands is not None:
            for p in nd.cands: H.cs.add(p)
            if H.cs.bad: H.cs.bad = True
        nd.H = H
    def newval(self, nd, H, k, v, weak):
        if not weak and k in nd.rep: return self.wrap(v, nd.rep[k])
        if isinstance(v, Poly) or isinstance(v, Ptr):
            x = nd.vals.get(k)
            if x is None:
                x = fresh('x%s' % (k[1] if k[0] == 'e' else k[0]), None, None, imp=True); nd.vals[k] = x
            return self.wrap(v, x)
        x = nd.vals.get(k)
        if x is None:
            if k[0] == 'c' and isinstance(v, UnkPtr): x = self.new_unk(v.kind)
            elif k[0] == 'c': x = None if not isinstance(v, (Cond, Opq)) else self.havoc_value(H, v)
            elif v is NULL: x = NULL
            elif isinstance(v, UnkPtr): x = self.new_unk(v.kind)
            else: x = self.havoc_value(H, v)
            nd.vals[k] = x
        if isinstance(x, UnkPtr) and isinstance(v, UnkPtr):
            if nd.base.unk.get(v.id) == 'null': H.unk[x.id] = 'null'
            elif ('nn', v.id) in nd.base.ghost and k not in nd.drop_cells: H.ghost[('nn', x.id)] = True
        if isinstance(x, Cond) and isinstance(v, Cond) and v.t[0] == 'c': return v
        return x
    def wrap(self, v, x):
        return Ptr(v.r, x, v.gen) if isinstance(v, Ptr) else x
    def ival(self, v):
        if isinstance(v, Ptr): return v.off
        return v if isinstance(v, Poly) else None
    def getloc(self, st, k):
        if k[0] == 'e': return self.ival(st.env.get(k[1]))
        if k[0] == 's': return st.reg[k[1]].size
        if k[0] == 'c':
            c = st.reg[k[1]].cells.get(k[2])
            return self.ival(c[1]) if c is not None and c[0] == k[3] else None
        return None

    # ------------------------------------------------------------------ relations between changed locations
    def relate(self, nd, E):
        """find linear relations that hold exactly in all incoming states and re-express locations through fewer symbols"""
        keys = [k for k in nd.vals if isinstance(nd.vals[k], Poly)]
        # nullness of unknown pointers must hold in every incoming state
        for k in list(nd.vals):
            if isinstance(nd.vals[k], UnkPtr):
                for src, s in nd.incoming:
                    v = s.env.get(k[1]) if k[0] == 'e' else (s.reg[k[1]].cells.get(k[2]) or (0, None))[1]
                    if isinstance(v, UnkPtr) and ('nn', v.id) not in s.ghost: nd.drop_cells.add(k)
                    elif not isinstance(v, UnkPtr): nd.drop_cells.add(k)
        nd.rep = {}
        inc = nd.incoming
        vals = {}
        for k in keys:
            l = [self.getloc(s, k) for _, s in inc]
            if all(v is not None for v in l): vals[k] = l
        # uniform step (single source node besides the entry)
        if nd.isE and all(src in ('E', nd.shape) for src, _ in inc) and sum(1 for src, _ in inc if src == 'E') == 1:
            e0 = {k: l[0] for k, l in vals.items()}
            kap = None
            for k, l in vals.items():
                x = nd.vals[k]
                ds = {v - x for (src, _), v in zip(inc[1:], l[1:])}
                if len(ds) == 1:
                    d = ds.pop()
                    bad = {S(s).single() for kk in nd.vals if isinstance(nd.vals[kk], Poly) for s in nd.vals[kk].syms()}
                    if d.const() is not None or not (d.syms() & bad) and all(self.known_in(E, y) for y in d.syms()):
                        if d.const() == 0: continue
                        if kap is None: kap = fresh('k', 0, None, imp=True)
                        nd.rep[k] = e0[k] + d * kap
            nd.kap = kap
        # equal differences:  v(k) - c*v(k0) identical in all incoming states
        reps = [k for k in vals if k not in nd.rep]
        lead = []
        for k in sorted(reps, key=lambda k: (k[0] != 'e', k[0] == 's', repr(k))):
            done = False
            for k0 in lead:
                for m in self.mults(nd, E, k):
                    d = vals[k][0] - vals[k0][0] * m
                    if all(v - w * m == d or s.cs.entails_eq(v - w * m - d) for (_, s), v, w in zip(inc, vals[k], vals[k0])) and all(self.known_in(E, y) for y in d.syms()):
                        nd.rep[k] = nd.vals[k0] * m + d; done = True; break
                if done: break
            if done: continue
            for k0 in nd.rep:
                if k0 not in vals: continue
                for m in self.mults(nd, E, k):
                    d = vals[k][0] - vals[k0][0] * m
                    if all(v - w * m == d or s.cs.entails_eq(v - w * m - d) for (_, s), v, w in zip(inc, vals[k], vals[k0])) and all(self.known_in(E, y) for y in d.syms()):
                        nd.rep[k] = nd.rep[k0] * m + d; done = True; break
                if done: break
            if not done: lead.append(k)
    def mults(self, nd, E, k):
        out = [C(1), C(-1)]
        if k[0] == 's' or (k[0] in 'ec'):
            if k[0] == 's': out.append(C(8))
            for y in self.scales: out.append(y)
        return out
    scales = ()
    def known_in(self, E, y):
        return y < self._emark
    _emark = 0

    def valmap(self, nd, s):
        """substitution: header symbols -> their value in the incoming state s"""
        mp = {}
        for k, x in nd.vals.items():
            if not isinstance(x, Poly) or k in nd.rep: continue
            v = self.getloc(s, k)
            if v is None: return None
            y = x.single()
            mp[y] = v
        return mp
    def candidates(self, nd, E, nodes):
        cands = {}
        def add(p):
            c = p.const()
            if c is not None: return
            lin, k = CS.norm(p)
            if lin is None: return
            lo, hi = interval(p)
            if lo is not None and lo >= 0: return
            cands.setdefault((lin, k), p)
        hv = {}
        for k, x in nd.vals.items():
            if isinstance(x, Poly): hv[k] = nd.rep.get(k, x)
        B = nd.base
        refs = {ZERO: 1, C(1): 1}
        for k, v in B.env.items():
            p = self.ival(v)
            if p is not None: refs[p] = 1
        for rid, r in B.reg.items():
            if r.ro: continue
            if r.size is not None: refs[r.size] = 1
            for o, (n, v) in r.cells.items():
                p = self.ival(v)
                if p is not None: refs[p] = 1
            for f in r.facts:
                if f.src[0] in ('const', 'nz', 'init'):
                    for q in f.lo + f.hi: refs[q] = 1
        refs = [r for r in refs if len(r.d) <= 4][:40]
        xs = list(dict.fromkeys(hv.values()))
        if nd.kap is not None: xs.append(nd.kap)
        for x in xs:
            for q in refs:
                for c in (0, -1):
                    add(x - q + c); add(q - x + c)
            for y in xs:
                if y is not x:
                    for c in (0, -1): add(x - y + c)
        for i, x in enumerate(xs):          # converging pairs
            for y in xs[i + 1:]:
                for q in refs[:12]:
                    add(q - x - y)
        # constraints of incoming states, rewritten over the header symbols
        for src, s in nd.incoming:
            rv = {}
            for k in hv:
                v = self.getloc(s, k)
                if v is None: continue
                y = v.single()
                if y is not None and not self.known_in(E, y): rv[y] = hv[k]
                elif v.d and len(v.d) <= 2:
                    # x+c form
                    for m, c in v.d.items():
                        if len(m) == 1 and c == 1 and not self.known_in(E, m[0]) and len(v.d) == 2 and () in v.d:
                            rv.setdefault(m[0], hv[k] - v.d[()])
            items = list(s.cs.items())
            hs = {y for z in xs for y in z.syms()}
            for k in hv:
                v = self.getloc(s, k)
                if v is None or len(v.d) > 6: continue
                for m, c in v.d.items():
                    if len(m) == 1 and abs(c) == 1 and (src == 'E' or not self.known_in(E, m[0])) and m[0] not in hs and not any(m[0] in mm for mm in v.d if len(mm) > 1):
                        y = m[0]; sub = {y: (hv[k] - (v - S(y) * c)) * c}
                        for p in items:
                            if y in p.syms():
                                q = p.subst(sub)
                                if all(self.known_in(E, z) or z in hs for z in q.syms()): add(q)
            for p in items:
                q = p.subst(rv)
                if q is not p and all(self.known_in(E, y) or any(y in z.syms() for z in xs) for y in q.syms()): add(q)
        if not nd.isE:
            for p in nd.base.cs.items(): add(p)
        nd.cands = list(cands.values())
        # facts
        nd.fcands = {}
        for k in nd.changed:
            if k[0] != 'f': continue
            rid = k[1]; out = {}
            e0 = {}
            for kk, x in hv.items():
                b = self.getloc(B, kk)
                if b is not None: e0.setdefault(b, []).append(x)
            for f in B.reg[rid].facts:
                out[f] = 1
                if f.src[0] == 'val' and len(f.lo) == 1 and len(f.hi) == 1 and False: pass
                for vs in self.variants(f.lo, e0):
                    for ws in self.variants(f.hi, e0):
                        out[Fact(vs, ws, f.src)] = 1
            for src, s in nd.incoming:
                r = s.reg[rid]
                rv = {}
                for kk in hv:
                    v = self.getloc(s, kk)
                    if v is not None: rv.setdefault(v, []).append(hv[kk])
                for f in r.facts:
                    if f.src[0] == 'val': continue
                    if f.src[0] == 'init': srcs = [f.src]
                    else: srcs = [f.src]
                    for vs in self.variants(f.lo, rv):
                        for ws in self.variants(f.hi, rv):
                            for sr in srcs:
                                out[Fact(vs, ws, sr)] = 1
                                # grow from the entry value
                                for b, xl in e0.items():
                                    for x in xl:
                                        if ws == (x,): out[Fact((b,), (x,), sr)] = 1
                                        if vs == (x,): out[Fact((x,), (b,), sr)] = 1
            fl = [f for f in out if all(self.known_in(E, y) or any(y in z.syms() for z in xs) for p in f.lo + f.hi for y in p.syms())]
            nd.fcands[rid] = fl[:60]
    def variants(self, tup, mp):
        outs = [()]
        for p in tup:
            alts = [p]
            for b, xs in mp.items():
                d = (p - b).const()
                if d is not None and abs(d) <= 2:
                    for x in xs: alts.append(x + d)
            outs = [o + (a,) for o in outs for a in alts][:12]
        return outs
    def houdini(self, nd, E):
        dropped = False
        inc = []
        for src, s in nd.incoming:
            mp = self.valmap(nd, s)
            if mp is None: mp = {}
            if nd.kap is not None:
                y = nd.kap.single()
                if src == 'E': mp[y] = ZERO
                else: mp[y] = nd.kap + 1
            inc.append((s, mp))
        # exactness of the re-expressions
        for k in list(nd.rep):
            for s, mp in inc:
                v = self.getloc(s, k)
                if v is None or not s.cs.entails_eq(v - nd.rep[k].subst(mp)):
                    del nd.rep[k]; dropped = True; break
        if dropped:
            # symbols changed meaning: restart candidates conservatively
            live = set()
            for k, x in nd.vals.items():
                if isinstance(x, Poly): live |= (nd.rep.get(k, x)).syms()
            nd.cands = [p for p in nd.cands if all(self.known_in(E, y) or y in live for y in p.syms())]
            return True
        keep = []
        for p in nd.cands:
            ok = True
            for s, mp in inc:
                q = p.subst(mp)
                if not s.cs.entails(q): ok = False; break
            if ok: keep.append(p)
        if len(keep) != len(nd.cands): dropped = True
        nd.cands = keep
        for rid, fl in list(nd.fcands.items()):
            kf = []
            for f in fl:
                ok = True
                for s, mp in inc:
                    r = s.reg[rid]
                    lo = tuple(p.subst(mp) for p in f.lo); hi = tuple(p.subst(mp) for p in f.hi)
                    src = f.src
                    if src[0] == 'init': src = ('init', src[1], src[2].subst(mp))
                    if src[0] == 'val':
                        if Fact(lo, hi, src) not in r.facts: ok = False; break
                        continue
                    if len(lo) == 1 and len(hi) == 1:
                        if not self.covers(s, r, lo[0], hi[0], src): ok = False; break
                    elif Fact(lo, hi, src) not in r.facts: ok = False; break
                if ok: kf.append(f)
            if len(kf) != len(fl): dropped = True
            nd.fcands[rid] = kf
        return dropped
