"""Questions about one path and one-step changes: exists, is a directory, is a file, size, create, delete, rename, current directory, own executable.
The path is arbitrary; what it names is given (nothing, a file, a directory, something else, or a link to one of these)."""
import driver
from poly import *
from absint import *
import models, spec
from post import Px
from tree import DIR, REG, LNK

FIFO = 0o010000
# what lstat says, what stat says (None: no such file)
KINDS = {'nothing': (None, None), 'a file': (REG, REG), 'a directory': (DIR, DIR), 'a pipe': (FIFO, FIFO), 'a link to nothing': (LNK, None), 'a link to a file': (LNK, REG), 'a link to a directory': (LNK, DIR)}
NAMES = ('vt_path_exists', 'vt_path_is_dir', 'vt_path_is_file', 'vt_path_get_file_size', 'vt_path_mkdir', 'vt_path_rmdir', 'vt_path_remove', 'vt_path_rename', 'vt_path_get_cwd', 'vt_path_get_this_exe_location')
STEP = ('mkdir', 'rmdir', 'remove', 'unlink', 'rename')
# other ways to ask the system: what they answer is not tied to the given kind
OTHER = ('fopen', 'fopen64', 'opendir', 'open', 'open64', 'openat', 'fstat', 'fstatat', 'chdir', 'system', 'getenv', 'realpath', 'ftell', 'statx', 'faccessat', 'unlinkat', 'mkdirat', 'renameat')

class FsHook(driver.Hook):
    def setup(self, I, f, cfg):
        I.undef = True; I.MAXKEPT = 80; I.KEEPDEPTH = 9
        self.kind = KINDS[cfg['fs']]; self.I = I; self.text = {}
        M = I.models = dict(I.models)
        M['stat'] = lambda *a: self.statlike(True, *a)
        M['lstat'] = lambda *a: self.statlike(False, *a)
        M['access'] = self.access
        for n in STEP: M[n] = self.step
        for n in OTHER:
            if n in M: M[n] = self.other(M[n])
        M['getcwd'] = self.getcwd; M['readlink'] = self.readlink
        self.size = {True: fresh('size of the file', 0, SIZE_HI), False: fresh('size of the link', 0, 4096)}
    def entry(self, I, e):
        self.e = e; self.paths = [i for i in e.params if i['name'] in ('z', 'z1', 'z2')]
    def other(self, m):
        def g(I, st, ins, v, a, fv): st.ghost[('fsq', 'other')] = 1; return m(I, st, ins, v, a, fv)
        return g
    def which(self, st, p):
        """the argument a path is"""
        I = self.I; p = I.resolve(st, p)
        if not isinstance(p, Ptr) or p.r not in st.reg: return None
        for i in self.paths:
            if i.get('rid') is None: continue
            if p.r == i['rid']:
                return i['name'] if p.off.const() == 0 else None
            T = I.try_strlen(st, p)
            if T is not None and st.cs.entails_eq(T - i['L']) and I.covers(st, st.reg[p.r], p.off, p.off + T, ('init', i['rid'], p.off)): return i['name']
        return None
    def unsure(self, st): st.ghost[('fsq', 'other')] = 1
    def statlike(self, follow, I, st, ins, v, a, fv):
        L = I.strlen(st, v[0], 'stat')
        if L is None: return []
        w = self.which(st, v[0]); p = I.access(st, v[1], C(144), 'stat', True)
        if p is None: return []
        r = st.w(p.r); I.kill(st, r, p.off, p.off + 144)
        if w is None or p.off.const() is None: self.unsure(st); return models.m_stat(I, st, ins, v, a, fv)
        # only the first path is of the given kind, the second is arbitrary
        if w == 'z2':
            st2 = st.fork(); return [(st, C(0)), (st2, C(-1))]
        k = self.kind[1 if follow else 0]
        if k is None: return [(st, C(-1))]
        st.cs.add(L - 1)
        o = p.off.const(); r.cells[o + 48] = (8, self.size[True if follow or self.kind[0] != LNK else False]); r.cells[o + 24] = (4, C(k | 0o644))
        return [(st, C(0))]
    def access(self, I, st, ins, v, a, fv):
        L = I.strlen(st, v[0], 'access')
        if L is None: return []
        w = self.which(st, v[0]); m = v[1].const() if isinstance(v[1], Poly) else None
        if w is None or w == 'z2' or m is None: self.unsure(st); return models.m_fs(I, st, ins, v, a, fv)
        if self.kind[1] is None: return [(st, C(-1))]
        st.cs.add(L - 1)
        if m != 0: self.unsure(st)
        return [(st, C(0))] + ([(st.fork(), C(-1))] if m != 0 else [])
    def step(self, I, st, ins, v, a, fv):
        nm = ins.a[0][1][1:]; at = []
        for k, (t, x, b) in enumerate(a):
            if t.k == 'ptr':
                if I.strlen(st, v[k], nm) is None: return []
                at.append(self.which(st, v[k]))
        n = sum(1 for k in st.ghost if k[0] == 'fsq' and k[1] != 'other'); l = self.kind[0]
        can = True if at[0] == 'z2' or at[0] is None else l is None if nm == 'mkdir' else l == DIR if nm == 'rmdir' else l not in (None, DIR) if nm == 'unlink' else l is not None
        out = []
        for ok in (True, False):
            if ok and not can: continue
            s = st.fork(); s.ghost[('fsq', n)] = (nm, tuple(at), ok); out.append((s, C(0 if ok else -1)))
        return out
    def getcwd(self, I, st, ins, v, a, fv):
        p = I.resolve(st, v[0]); s2 = st.fork(); s2.ghost[('fsq', 0)] = ('getcwd', (), False)
        L = self.src(I, st, 'cwd'); rid = self.text['cwd'][0]
        if p is NULL:
            q = models.do_alloc(I, st, L + 1, 'libc', False, 'cwd'); d = q
        else:
            n = models.I64(I, st, v[1]); d = I.access(st, p, n, 'getcwd', True)
            if d is None: return []
            st.cs.add(n - L - 1); q = p
            I.kill(st, st.w(d.r), d.off, d.off + n)
        st.ghost[('fsq', 0)] = ('getcwd', (), True)
        r = st.w(d.r)
        I.add_fact(st, r, (d.off + L,), (d.off + L + 1,), ('const', 0)); I.add_fact(st, r, (d.off,), (d.off + L,), ('nz',)); I.add_fact(st, r, (d.off,), (d.off + L,), ('init', rid, d.off))
        return [(x, y) for x, y in ((st, q), (s2, NULL)) if not x.cs.bad]
    def src(self, I, st, what):
        if what not in self.text:
            L = fresh(what, 1, 4000); r = I.new_region(st, 'foreign', L, 'foreign', 'what the system reports'); r.ro = True
            r.facts = (Fact((ZERO,), (L,), ('init', r.id, ZERO)),)
            self.text[what] = (r.id, L)
        return self.text[what][1]
    def readlink(self, I, st, ins, v, a, fv):
        n = models.I64(I, st, v[2]); d = I.access(st, v[1], n, 'readlink', True)
        if d is None: return []
        z = I.resolve(st, v[0])
        s2 = st.fork(); s2.ghost[('fsq', 0)] = ('readlink', (), False)
        L = self.src(I, st, 'link'); rid = self.text['link'][0]
        if not st.cs.entails(n - L): self.unsure(st); st.cs.add(n - L)
        st.ghost[('fsq', 0)] = ('readlink', (), True)
        r = st.w(d.r); I.kill(st, r, d.off, d.off + L)
        I.add_fact(st, r, (d.off,), (d.off + L,), ('nz',)); I.add_fact(st, r, (d.off,), (d.off + L,), ('init', rid, d.off))
        return [(x, y) for x, y in ((st, L), (s2, C(-1))) if not x.cs.bad]
    # ---- results
    def ret(self, I, e, s, rv):
        if s.imp or s.weak or s.cs.bad or ('fsq', 'other') in s.ghost: return
        px = Px(I, e, s, rv); fn = e.fn.name
        ev = [s.ghost[k] for k in sorted(k for k in s.ghost if k[0] == 'fsq')]
        if any(None in at for w, at, ok in ev): return
        t = rv.t[1] if isinstance(rv, Cond) and rv.t[0] == 'c' else (rv.const() != 0 if isinstance(rv, Poly) and rv.const() is not None else None)
        l, k = self.kind; what = next(n for n, x in KINDS.items() if x == self.kind)
        done = [(w, at) for w, at, ok in ev if ok and w in STEP]; tried = [(w, at) for w, at, ok in ev if w in STEP]
        if fn in ('vt_path_exists', 'vt_path_is_dir', 'vt_path_is_file'):
            px.ok(not tried, 'a question changes the file system')
            want = k is not None if fn == 'vt_path_exists' else k == (DIR if fn == 'vt_path_is_dir' else REG)
            if t is not None: px.ok(t == want, 'answers %s for %s' % ('yes' if t else 'no', what))
        elif fn == 'vt_path_get_file_size':
            px.ok(not tried, 'a question changes the file system')
            if isinstance(rv, Poly):
                if k is None: px.eq('size reported for ' + what, rv, C(-1))
                elif k == REG: px.eq('size reported for ' + what, rv, self.size[True])
        elif fn == 'vt_path_mkdir':
            px.ok(all(w == 'mkdir' for w, at in tried), 'creating a directory also calls %s' % ', '.join(w for w, at in tried if w != 'mkdir'))
            if t is True: px.ok(bool(done) or k is not None, 'reports success although there is no directory')
            if t is False: px.ok(not done and k != DIR, 'reports failure although the directory exists')
        elif fn in ('vt_path_rmdir', 'vt_path_remove'):
            if fn == 'vt_path_rmdir':
                px.ok(l == DIR or not done, 'deletes %s, which is no directory' % what)
            if t is True: px.ok(bool(done), 'reports success although nothing was deleted (%s)' % what)
            if t is False: px.ok(not done, 'reports failure although it was deleted')
            if t is False and l == (DIR if fn == 'vt_path_rmdir' else REG): px.ok(bool(tried), 'does not try to delete %s' % what)
            px.ok(all(w in ('rmdir', 'remove', 'unlink') for w, at in tried), 'deleting calls %s' % ', '.join(w for w, at in tried))
        elif fn == 'vt_path_rename':
            for w, at in tried:
                px.ok(w == 'rename', 'renaming calls %s' % w)
                if w == 'rename': px.ok(at == ('z1', 'z2'), 'renames %s to %s' % at)
            if t is True: px.ok(bool(done), 'reports success although nothing was renamed (%s)' % what)
            if t is False: px.ok(not done, 'reports failure although it was renamed')
            if t is False and k is not None: px.ok(bool(tried), 'does not try to rename %s' % what)
        else:
            r = px.res(); got = [ok for w, at, ok in ev if w in ('getcwd', 'readlink')]
            if not got: return
            if r is NULL: px.ok(not all(got), 'returns nothing although the system answered'); return
            if not isinstance(r, Ptr): return
            px.ok(got[-1], 'returns a text although the system reported an error')
            if not got[-1]: return
            rid, L = self.text['cwd' if fn.endswith('cwd') else 'link']
            px.eq('length of the result', px.len(r.r), L)
            b = px.buf(r.r)
            if b is not None: px.seg('the text of the result', b, ZERO, L, ('init', rid, ZERO)); px.seg('the end of the result', b, L, L + 1, ('const', 0))
driver.HOOKS['fsq'] = FsHook
