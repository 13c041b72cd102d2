"""Directory trees: listing and recursive removal, analysed over directories whose entries are given (name and kind) under an arbitrary path z."""
import spec, driver
from poly import *
from absint import *
import models, ir
from models import handle
from post import Px
from osx import flagcases

PT = ir.PTR
DIR, REG, LNK = 0o040000, 0o100000, 0o120000
# entries of z in the order readdir gives them: (name, what lstat says, what stat says, entries below)
dot, dotdot = (b'.', DIR, DIR, ()), (b'..', DIR, DIR, ())
fa, fq, sub = (b'a', REG, REG, ()), (b'q', REG, REG, ()), (b'bc', DIR, DIR, ((b'f', REG, REG, ()),))
ldir, lfile, hid, hdir = (b'd', LNK, DIR, ()), (b'e', LNK, REG, ()), (b'.g', REG, REG, ()), (b'.k', DIR, DIR, ((b'f', REG, REG, ()),))
CASES = {'empty': (), 'dot': (dot,), 'dotdot': (dotdot,), 'file': (fa,), 'dir': (sub,), 'dir in dir': ((b'bc', DIR, DIR, (dot, (b'f', DIR, DIR, ()))),), 'link to dir': (ldir,), 'link to file': (lfile,), 'dot file': (hid,), 'dot dir': (hdir,),
         '... and ..h': ((b'...', REG, REG, ()), (b'..h', REG, REG, ())), '. then file': (dot, fa), '.. then file': (dotdot, fa), 'file then ..': (fa, dotdot), 'two files': (fa, fq), 'dir then file': (sub, fa), 'file then dir': (fa, sub),
         'link then file': (ldir, fa), 'dot file then file': (hid, fa), 'file then dot file': (fa, hid), 'empty dir then file': ((b'bc', DIR, DIR, ()), fa), 'file two below': ((b'bc', DIR, DIR, ((b'f', DIR, DIR, (fa,)),)),), 'dot file two below': ((b'bc', DIR, DIR, ((b'f', DIR, DIR, (hid,)),)),), 'link two below': ((b'bc', DIR, DIR, ((b'f', DIR, DIR, (ldir,)),)),), 'dot file below': ((b'bc', DIR, DIR, (hid,)),),
         'link below': ((b'bc', DIR, DIR, (ldir,)),), 'dots below': ((b'bc', DIR, DIR, (dot, dotdot)),), 'longer name first': ((b'abc', REG, REG, ()), fa)}
MANY = 70
CASES['many files'] = tuple((b'f%02d' % k, REG, REG, ()) for k in range(MANY))
CASES['many files below'] = ((b'bc', DIR, DIR, CASES['many files']), fa)
CASES['many dirs'] = tuple((b'd%02d' % k, DIR, DIR, ()) for k in range(MANY))
def chain(n): return ((b'c%d' % (n % 10), DIR, DIR, chain(n - 1) + (fa,)),) if n else ()
CASES['many levels'] = chain(4)
CASES['long name'] = ((b'n' * 255, REG, REG, ()), fa)
NAMES = ('vt_path_dir_list', 'vt_path_dir_list_recurse', 'vt_path_rmdir_recurse')
DEL = ('remove', 'rmdir', 'unlink')

def nodes(ents, at=b''):
    """relative path -> (entry, path of its directory)"""
    out = {}
    for e in ents:
        out[at + b'/' + e[0]] = (e, at); out.update(nodes(e[3], at + b'/' + e[0]))
    return out
def shown(ents, deep, skip, at=b''):
    out = []
    for e in ents:
        if e[0] in (b'.', b'..') or skip and e[0][:1] == b'.': continue
        if deep: out += shown(e[3], deep, skip, at + b'/' + e[0])
        out.append(at + b'/' + e[0])
    return out
def name(lv): return 'z' + lv.decode() if isinstance(lv, bytes) else '?'

class TreeHook(driver.Hook):
    def setup(self, I, f, cfg):
        I.undef = I.lit = True; I.MAXKEPT = 400; I.KEEPDEPTH = 20; I.MAXFACTS = 40; I.COVDEPTH = 16; I.peel = 4; I.rec_limit = lambda name: (5 if not cfg['tree'].startswith('many') else 16) if name in NAMES else 1
        self.calm = cfg['tree'].startswith('many')          # the system does not fail: one path
        if self.calm: I.longpeel = MANY + 10; I.MAXFACTS = 400; I.COVDEPTH = 60; I.KEEPDEPTH = 60
        self.ents = CASES[cfg['tree']]; self.nodes = nodes(self.ents); self.regs = {}
        M = I.models = dict(I.models)
        for n in ('opendir', 'readdir', 'stat', 'lstat'): M[n] = getattr(self, n)
        for n in DEL: M[n] = self.delete
        self.I = I
    def entry(self, I, e):
        self.z = next(i for i in e.params if i['name'] == 'z'); self.e = e
        if self.calm:
            for k, i in enumerate(e.params):
                if i['name'] == 'p': i.clear(); i.update(name='p', kind='null'); e.vals[k] = NULL
                if i['name'] == 'ignoreDotFiles': i['v'] = e.vals[k] = FALSE
            e.st.cs.add_eq(self.z['L'] - 10) if hasattr(e.st.cs, 'add_eq') else (e.st.cs.add(self.z['L'] - 10), e.st.cs.add(C(10) - self.z['L']))
        for rel, (ent, at) in self.nodes.items():
            b = bytes(18) + bytes([{DIR: 4, REG: 8, LNK: 10}[ent[1]]]) + ent[0] + b'\0'; n = 19 + len(ent[0])
            r = I.new_region(e.st, 'foreign', C(280), 'foreign', 'dirent'); r.ro = True; r.tag = ('bytes', b + bytes(280 - len(b)))
            r.facts = (Fact((ZERO,), (C(280),), ('init', r.id, ZERO)), Fact((C(19),), (C(n),), ('nz',)), Fact((C(n),), (C(280),), ('const', 0)))
            self.regs[rel] = r.id
    def level(self, st, p):
        """the node a path names, relative to z: b'' the directory itself; None: something else"""
        I = self.I; p = I.resolve(st, p); z = self.z
        if not isinstance(p, Ptr) or p.r not in st.reg: return None
        L = z['L']
        if p.r == z['rid']: return b'' if p.off.const() == 0 else None
        r = st.reg[p.r]; o = p.off
        T = I.try_strlen(st, p)
        if T is None or not I.covers(st, r, o, o + L, ('init', z['rid'], o)): return None
        if st.cs.entails_eq(T - L): return b''
        for rel in self.nodes:
            if st.cs.entails_eq(T - L - len(rel)) and self.spells(st, r, o + L, rel): return rel
        return None
    def spells(self, st, r, at, rel):
        I = self.I
        if all(I.covers(st, r, at + i, at + i + 1, ('const', c)) for i, c in enumerate(rel)): return True
        k = 0; here = b''
        for part in rel.split(b'/')[1:]:
            here += b'/' + part
            if not I.covers(st, r, at + k, at + k + 1, ('const', 47)): return False
            k += 1
            if not I.covers(st, r, at + k, at + k + len(part), ('init', self.regs[here], at + k - 19)) and not all(I.covers(st, r, at + k + i, at + k + i + 1, ('const', c)) for i, c in enumerate(part)): return False
            k += len(part)
        return True
    def note(self, st, what, lv):
        k = sum(1 for k in st.ghost if k[0] == 'tree')
        if k < 400: st.ghost[('tree', k)] = (what, lv)
    def trail(self, st): return [st.ghost[k] for k in sorted(k for k in st.ghost if k[0] == 'tree')]
    # ---- the system, as the given tree
    def opendir(self, I, st, ins, v, a, fv):
        lv = self.level(st, v[0])
        self.outside(st, 'opendir', lv)
        if I.strlen(st, v[0], 'opendir') is None: return []
        s2 = st.fork(); self.note(s2, 'noopen', lv)
        if lv is None: return [(s2, NULL)]
        h = handle(I, st, 'DIR', 'opendir'); st.ghost[('dirlv', h.r)] = lv
        self.note(st, 'opendir', lv)
        return [(st, h)] if self.calm else [(st, h), (s2, NULL)]
    def readdir(self, I, st, ins, v, a, fv):
        p = I.resolve(st, v[0])
        lv = st.ghost.get(('dirlv', p.r)) if isinstance(p, Ptr) else None
        if lv is None: return models.m_readdir(I, st, ins, v, a, fv)
        if not st.reg[p.r].live: I.alarm('uaf', 'readdir of a closed handle', st); return []
        k = st.ghost.get(('dirpos', p.r), 0)
        ents = [rel for rel, (e, at) in self.nodes.items() if at == lv]
        st.ghost[('dirpos', p.r)] = min(k + 1, len(ents))
        if k >= len(ents): return [(st, NULL)]
        r = self.regs[ents[k]]
        return [(st, Ptr(r, ZERO, st.reg[r].gen))]
    def statlike(self, I, st, ins, v, follow):
        lv = self.level(st, v[0])
        L = I.strlen(st, v[0], 'stat')
        if L is None: return []
        p = I.access(st, v[1], C(144), 'stat', True)
        if p is None: return []
        r = st.w(p.r); I.kill(st, r, p.off, p.off + 144)
        r.cells[48] = (8, fresh('fsz', 0, SIZE_HI))
        s2 = st.fork(); st.cs.add(L - 1)
        if lv is None: return [(st, C(0)), (s2, C(-1))]
        md = DIR if not lv else self.nodes[lv][0][2 if follow else 1]
        if p.off.const() == 0: r.cells[24] = (4, C(md | 0o755))
        if lv: return [(st, C(0))]
        self.note(s2, 'nostat', lv)
        return [(st, C(0))] if self.calm else [(st, C(0)), (s2, C(-1))]
    def stat(self, I, st, ins, v, a, fv): return self.statlike(I, st, ins, v, True)
    def lstat(self, I, st, ins, v, a, fv): return self.statlike(I, st, ins, v, False)
    def outside(self, st, what, lv):
        I = self.I; I.obl += 1
        if lv is not None: I.proved += 1
        elif not st.imp: I.alarm('outside', '%s of a path that is not shown to be the given directory or an entry of it' % what, st)
    def delete(self, I, st, ins, v, a, fv):
        nm = ins.a[0][1][1:]
        lv = self.level(st, v[0])
        self.outside(st, nm, lv)
        if I.strlen(st, v[0], nm) is None: return []
        self.note(st, nm, lv)
        s2 = st.fork(); self.note(s2, 'nodelete', lv)
        return [(st, C(0))] if self.calm else [(st, C(0)), (s2, C(-1))]
    # ---- results
    def ret(self, I, e, s, rv):
        if s.imp or s.weak or s.cs.bad: return
        px = Px(I, e, s, rv); fn = e.fn.name; tr = self.trail(s)
        if any(lv is None for w, lv in tr): return
        for w, lv in tr:
            if w not in ('opendir', 'noopen') or not lv: continue
            ent = self.nodes[lv][0]
            px.ok(fn != 'vt_path_dir_list', 'descends although only the directory itself is listed')
            px.ok(ent[0] not in (b'.', b'..'), 'descends into the entry "%s"' % ent[0].decode())
            px.ok(ent[1] != LNK, 'follows a symbolic link out of the directory')
            px.ok(ent[1] != REG, 'tries to list a file')
        dels = [(w, lv) for w, lv in tr if w in DEL]
        faults = [w for w, lv in tr if w in ('noopen', 'nostat', 'nodelete')]
        if fn != 'vt_path_rmdir_recurse':
            px.ok(not dels, 'listing removes an entry')
            for st, fl in flagcases(px, ['ignoreDotFiles']): self.listed(Px(I, e, st, rv), fn, fl[0], faults)
            return
        got = [lv for w, lv in dels]; want = set(shown(self.ents, True, False)) | {b''}
        for i, lv in enumerate(got):
            if lv: px.ok(lv in want, 'removes the entry "%s"' % self.nodes[lv][0][0].decode())
            px.ok(lv not in got[:i], 'removes %s twice' % name(lv))
            px.ok(not any(x != lv and x.startswith(lv + b'/') for x in got[i:]), 'removes %s before what is in it' % name(lv))
        for w, lv in dels:
            d = not lv or self.nodes[lv][0][1] == DIR
            if w == 'rmdir': px.ok(d, 'rmdir of %s, which is no directory' % name(lv))
            if w == 'unlink': px.ok(not d, 'unlink of the directory %s' % name(lv))
        t = rv.t[1] if isinstance(rv, Cond) and rv.t[0] == 'c' else (rv.const() != 0 if isinstance(rv, Poly) and rv.const() is not None else None)
        if t is True:
            px.ok('nodelete' not in faults, 'reports success although a removal failed')
            px.ok(b'' in got, 'reports success although the directory was not removed')
            if not faults: px.ok(set(got) == want, 'reports success although %s is left' % ', '.join(map(name, sorted(want - set(got)))))
        if t is False: px.ok(bool(faults), 'reports failure although every call succeeded')
    def listed(self, px, fn, skip, faults):
        I, s = px.I, px.s; r = px.res()
        if s.cs.bad: return
        if r is NULL: px.ok(bool(faults), 'returns nothing although every call succeeded'); return
        if not isinstance(r, Ptr) or faults: return
        want = shown(self.ents, fn == 'vt_path_dir_list_recurse', skip)
        p = px.c('p')
        base = ZERO if p is None or fn == 'vt_path_dir_list' else p.len
        if p is not None: px.ok(r.r == p.hdr, 'does not return the list it was given')
        if px.eq('number of listed entries', px.len(r.r), base + len(want)) is False: return
        b = px.buf(r.r)
        if b is None: return
        got = []; ptrs = []
        for k in range(len(want)):
            v = I.resolve(s, I.load_raw(s, Ptr(b.r, (base + k) * 8, b.gen), PT, 8))
            t = px.buf(v.r) if isinstance(v, Ptr) and v.r in s.reg else None
            if t is None: I.obl += 1; return
            ptrs.append(v.r)
            if fn == 'vt_path_dir_list':
                L = px.len(v.r)
                got.append(next((w for w in want if s.cs.entails_eq(L - (len(w) - 1)) and I.covers(s, s.reg[t.r], ZERO, C(len(w) - 1), ('init', self.regs[w], C(-19)))), None))
            else:
                lv = self.level(s, Ptr(t.r, ZERO, t.gen)); got.append(lv)
                if lv is not None: px.eq('recorded length of a listed path', px.len(v.r), self.z['L'] + len(lv))
        px.ok(len(set(ptrs)) == len(ptrs), 'two entries of the list are the same string')
        if None in got: px.ok(False, 'a listed name is not %s' % ('an entry\'s name' if fn == 'vt_path_dir_list' else 'the directory followed by the separator and an entry\'s name')); return
        px.ok(sorted(got) == sorted(want), 'lists %s instead of %s' % (', '.join(map(name, got)), ', '.join(map(name, want))))
driver.HOOKS['tree'] = TreeHook
