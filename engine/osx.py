"""What the library reports about the system calls it makes: every failing call is reported, success is reported otherwise, and the calls get the caller's arguments."""
import itertools
import spec, driver
from poly import *
from absint import *
from models import cbytes
from post import Px, case, truth

EVENTS = {'fopen', 'fopen64', 'opendir', 'fclose', 'closedir', 'fread', 'fwrite', 'fprintf', 'vfprintf', 'fputs', 'fputc', 'fflush', 'remove', 'rename', 'mkdir', 'rmdir', 'unlink', 'stat', 'lstat', 'getcwd', 'readlink',
          'readdir', 'socket', 'accept', 'bind', 'listen', 'connect', 'setsockopt', 'poll', 'send', 'sendto', 'recv', 'recvfrom', 'close', 'getenv', 'fseek', 'ftell'}
WRITES = ('fwrite', 'fprintf', 'vfprintf', 'fputs', 'fputc')

def failed(px, ev):
    """Poly p with 'the call failed' <=> p >= 0, or a plain bool"""
    nm, a, rv = ev[:3]
    if nm in ('fopen', 'fopen64', 'opendir', 'getcwd'): return px.I.resolve(px.s, rv) is NULL
    if not isinstance(rv, Poly): return None
    if nm in ('fread', 'fwrite'): return a[2] - rv - 1 if isinstance(a[2], Poly) else None
    return -rv - 1
def events(px): return [px.s.ghost[k] for k in sorted((k for k in px.s.ghost if k[0] == 'ev'), key=lambda k: k[1])]

def isfail(px, st, want):
    """the result is the failure value (want) or a success value (not want) in state st; None when unknown"""
    q = Px(px.I, px.e, st, px.rv); rv = px.rv
    ct = (px.I.mod.param_types(px.e.fn)[0] or '').strip()
    if isinstance(rv, Cond):
        if rv.t[0] == 'c': return rv.t[1] != want
        l = px.I.assume(st.fork(), rv, want)     # a state with the wrong truth value
        return not [u for u in l if not u.cs.bad and u.cs.feasible()]
    r = q.res()
    if r is NULL and not isinstance(rv, Poly): return want
    if isinstance(r, Ptr): return not want
    if isinstance(rv, Poly):
        if 'bool' in ct.lower(): return st.cs.entails_eq(rv) if want else (st.cs.entails(rv - 1) or st.cs.entails(-rv - 1))
        return st.cs.entails(-rv - 1) if want else st.cs.entails(rv)
    return None

# which calls decide the outcome of which function; others only steer it
MUST = {'vt_path_exists': 'stat', 'vt_path_is_dir': 'stat', 'vt_path_is_file': 'stat', 'vt_path_get_file_size': 'stat', 'vt_path_mkdir': 'mkdir', 'vt_path_mkdir_parents': 'mkdir', 'vt_path_rmdir': 'stat rmdir',
        'vt_path_rmdir_recurse': 'rmdir remove unlink', 'vt_path_remove': 'stat remove unlink', 'vt_path_rename': 'stat rename', 'vt_path_get_cwd': 'getcwd', 'vt_path_get_this_exe_location': 'readlink',
        'vt_path_dir_list': 'stat opendir', 'vt_path_dir_list_recurse': 'opendir', 'vt_file_read': 'fopen stat fread fseek', 'vt_file_readb': 'fopen stat fread fseek', 'vt_file_read_to_buffer': 'fopen stat fread fseek',
        'vt_socket_startup_server': 'socket setsockopt bind listen', 'vt_socket_startup_client': 'socket connect', 'vt_socket_accept_client': 'accept', 'vt_socket_close': 'close', 'vt_socket_send': 'send', 'vt_socket_send_to': 'sendto',
        'vt_socket_receive': 'recv', 'vt_socket_receive_from': 'recvfrom', 'vt_socket_poll': 'poll', 'vt_socket_receive_timed': 'poll recv', 'vt_socket_receive_timed_from': 'poll recvfrom'}
WR = ['vt_file_write', 'vt_file_writeln', 'vt_file_writeb', 'vt_file_writebln', 'vt_file_append', 'vt_file_appendln', 'vt_file_appendb', 'vt_file_appendbln', 'vt_file_writef', 'vt_file_writefln', 'vt_file_writefc']
for w in WR: MUST[w] = 'fopen fopen64 fwrite fprintf vfprintf fputs fputc fclose fflush'
NOSUCC = ('vt_path_is_dir', 'vt_path_is_file', 'vt_path_mkdir_parents', 'vt_path_rmdir_recurse')   # success also depends on what the file is
MAYREFUSE = ('vt_path_dir_list_recurse',)   # may fail for a reason other than a call that failed

def bound(px, what, got, name):
    """the call got the caller's argument"""
    i = px.p.get(name)
    if i is None: return
    k = next(j for j, x in enumerate(px.e.params) if x is i); v = px.e.vals[k]
    g = px.I.resolve(px.s, got)
    if isinstance(v, Ptr): px.ok(isinstance(g, Ptr) and g.r == v.r and px.s.cs.entails_eq(g.off - v.off), '%s is not given the argument %s' % (what, name))
    elif isinstance(v, Poly) and isinstance(g, Poly): px.eq('argument %s of %s' % (name, what), g, v)

ARGS = {'vt_path_exists': {'stat': ['z']}, 'vt_path_is_dir': {'stat': ['z']}, 'vt_path_is_file': {'stat': ['z']}, 'vt_path_get_file_size': {'stat': ['z']}, 'vt_path_mkdir': {'stat': ['z'], 'mkdir': ['z']},
        'vt_path_rmdir': {'stat': ['z'], 'rmdir': ['z'], 'remove': ['z']}, 'vt_path_remove': {'stat': ['z'], 'remove': ['z'], 'unlink': ['z']}, 'vt_path_rename': {'rename': ['z1', 'z2']},
        'vt_path_dir_list': {'opendir': ['z']}, 'vt_socket_send': {'send': ['sock_fd', 'data_buf', 'data_len']}, 'vt_socket_send_to': {'sendto': ['sock_fd', 'data_buf', 'data_len']},
        'vt_socket_receive': {'recv': ['sock_fd', 'data_buf', 'data_len']}, 'vt_socket_receive_from': {'recvfrom': ['sock_fd', 'data_buf', 'data_len']}, 'vt_socket_receive_timed': {'recv': ['sock_fd', 'data_buf', 'data_len']},
        'vt_socket_receive_timed_from': {'recvfrom': ['sock_fd', 'data_buf', 'data_len']}, 'vt_socket_accept_client': {'accept': ['sock_fd']}, 'vt_socket_close': {'close': ['sock_fd']}, 'vt_socket_poll': {'poll': ['pfd', 'pfd_size', 'timeout']}}
for w in WR + ['vt_file_read', 'vt_file_readb', 'vt_file_read_to_buffer']: ARGS[w] = {'fopen': ['filename']}

def flagcases(px, names):
    """(state, values) for the feasible truth values of the flag arguments"""
    out = [(px.s.fork(), ())]
    for n in names:
        k = next(j for j, x in enumerate(px.e.params) if x['name'] == n); v = px.e.vals[k]; nx = []
        for st, vs in out:
            for b in (True, False):
                c = v if isinstance(v, Cond) else px.I.cmp(st, 'ne', v, ZERO)
                for u in px.I.assume(st.fork(), c, b):
                    if not u.cs.bad and u.cs.feasible(): nx.append((u, vs + (b,)))
        out = nx
    return out

def mode_of(binary, append): return ('a' if append else 'w') + ('b' if binary else '')
def written(px, evs):
    """what a writer does to its file: mode, contents, newline"""
    fn = px.fn; op = [e for e in evs if e[0] in ('fopen', 'fopen64')]
    px.ok(len(op) == 1, 'opens %d files' % len(op))
    if len(op) != 1: return
    md = cbytes(px.I, px.s, op[0][1][1])
    if fn == 'vt_file_writefc': fl = flagcases(px, ['use_binary_mode', 'use_append_mode', 'add_ln'])
    elif fn in ('vt_file_writef', 'vt_file_writefln'): fl = [(px.s, (None, False, fn.endswith('ln')))]
    else: fl = [(px.s, ('b' in fn[len('vt_file_'):].replace('write', '').replace('append', ''), 'append' in fn, fn.endswith('ln')))]
    ws = [e for e in evs if e[0] in WRITES]
    for st, (b, a, ln) in fl:
        q = Px(px.I, px.e, st, px.rv)
        if md is not None:
            m = md.decode('latin-1')
            q.ok(('a' in m) == bool(a) and 'r' not in m and '+' not in m and 'x' not in m and (b is None or ('b' in m) == b), 'opens the file with mode "%s" instead of "%s"' % (m, mode_of(b, a)))
        if q.I.resolve(st, op[0][2]) is NULL: q.ok(not ws, 'writes although the file could not be opened'); continue
        h = q.I.resolve(st, op[0][2])
        for e in ws:
            f = q.I.resolve(st, e[1][0] if e[0] in ('fprintf', 'vfprintf') else e[1][-1])
            q.ok(f == h, 'writes to another stream')
        cl = [e for e in evs if e[0] == 'fclose']
        q.ok(len(cl) == 1, 'the file is closed %d times' % len(cl))
        # newline
        def nl(e):
            if e[0] in ('fprintf',): t = cbytes(q.I, st, e[1][1]); return t == b'\n' or (t == b'%s' and cbytes(q.I, st, e[1][2]) == b'\n') or (t == b'%c' and isinstance(e[1][2], Poly) and e[1][2].const() == 10)
            if e[0] == 'fputs': return cbytes(q.I, st, e[1][0]) == b'\n'
            if e[0] == 'fputc': return isinstance(e[1][0], Poly) and e[1][0].const() == 10
            if e[0] == 'fwrite': return cbytes(q.I, st, e[1][0]) == b'\n'
            return False
        n = sum(1 for e in ws if nl(e)); body = [e for e in ws if not nl(e)]
        q.ok(n == (1 if ln else 0), 'writes %d line ends instead of %d' % (n, 1 if ln else 0))
        q.ok(len(body) >= 1, 'does not write the text')
        if n and body: q.ok(nl(ws[-1]), 'the line end does not stand behind the text')
        if not body: continue
        e = body[0]
        def rid(x): x = q.I.resolve(st, x); return x.r if isinstance(x, Ptr) else None
        if 'fmt' in px.p:
            if e[0] == 'vfprintf': q.ok(rid(e[1][1]) == px.p['fmt'].get('rid') or px.p['fmt'].get('rid') is None, 'does not use the caller\'s format')
        elif 'buffer' in px.p:
            B = px.p['buffer'].get('rid')
            q.ok(len(body) == 1, 'writes the text %d times' % len(body))
            if e[0] in ('fprintf', 'vfprintf'):
                q.ok(rid(e[1][1]) != B, 'uses the text as a format')
                va = e[1][2:] if e[0] == 'fprintf' else e[4] if len(e) > 4 and e[4] is not None else None
                t = cbytes(q.I, st, e[1][1])
                if t is not None: q.ok(t == b'%s', 'writes the text with format "%s"' % t.decode('latin-1'))
                if va: q.ok(rid(va[0]) == B, 'does not write the caller\'s text')
            elif e[0] in ('fputs', 'fwrite'): q.ok(rid(e[1][0]) == B, 'does not write the caller\'s text')

def readin(px, evs):
    fn = px.fn; r = px.res()
    op = [e for e in evs if e[0] in ('fopen', 'fopen64')]
    for e in op:
        md = cbytes(px.I, px.s, e[1][1])
        if md is not None: px.ok(md in (b'r', b'rb'), 'opens the file with mode "%s"' % md.decode('latin-1'))
    if not isinstance(r, Ptr): return
    rd = [e for e in evs if e[0] == 'fread']
    if len(rd) != 1 or not isinstance(rd[0][2], Poly): return
    d = px.I.resolve(px.s, rd[0][1][0]); n = rd[0][1][1] * rd[0][1][2]
    sz = [px.s.reg[k].cells.get(48) for k in px.s.reg]
    if fn == 'vt_file_read_to_buffer':
        px.ok(isinstance(d, Ptr) and d.r == px.rid('buffer') and d.off.const() == 0, 'does not read to the start of the buffer')
        px.ok(r.r == px.rid('buffer') and r.off.const() == 0, 'does not return the buffer')
    else:
        b = px.buf(r.r)
        px.ok(b is not None and isinstance(d, Ptr) and d.r == b.r and d.off.const() == 0, 'does not read to the start of the text')
        px.eq('length of the text', px.len(r.r), n)

class OsHook(driver.Hook):
    def setup(self, I, f, cfg):
        I.trace = EVENTS; I.undef = True; I.MAXKEPT = 40; I.KEEPDEPTH = 9
        rec = I.record
        def record(st, name, vals, rv):
            k = ('ev', sum(1 for k in st.ghost if k[0] == 'ev'))
            rec(st, name, vals, rv)
            if name in ('vfprintf', 'vprintf') and I.va_stack: st.ghost[k] = st.ghost[k] + (tuple(I.va_stack[-1]) if I.va_stack[-1] is not None else None,)
        I.record = record
    def entry(self, I, e):
        for i in e.params:
            if i['name'] == 'sock_fd' and isinstance(i.get('v'), Poly): e.st.cs.add(C(2**31 - 1) - i['v']); e.st.cs.add(i['v'] + 2**31)
            if i['name'] in ('data_len', 'pfd_size') and isinstance(i.get('v'), Poly): e.st.cs.add(C(2**31 - 1) - i['v'])
    def ret(self, I, e, s, rv):
        fn = e.fn.name
        if fn not in MUST or s.cs.bad: return
        px = Px(I, e, s, rv); evs = events(px)
        if s.imp or s.weak: return
        names = MUST[fn].split(); good = s.fork()
        for ev in evs:
            if ev[0] in ARGS.get(fn, {}):
                for a, n in zip(ev[1], ARGS[fn][ev[0]]): bound(px, ev[0], a, n)
            if ev[0] not in names: continue
            p = failed(px, ev)
            if p is None: good = None; continue
            I.obl += 1
            if p is True: t = s
            elif p is False: I.proved += 1; continue
            else:
                q = case(px, p)
                if good is not None: good.cs.add(-p - 1)
                t = q.s if q else None
            if p is True: good = None
            if t is None: I.proved += 1; continue
            ok = isfail(px, t, True)
            if ok is None: continue
            if ok: I.proved += 1
            else: I.alarm('report', '%s fails (%s:%s) but the caller is told it succeeded' % ((ev[0],) + tuple(ev[3] or ('?', 0))), t)
        if good is not None and not good.cs.bad and good.cs.feasible() and fn not in NOSUCC and any(ev[0] in names for ev in evs):
            I.obl += 1
            ok = isfail(px, good, False)
            if ok or ok is None: I.proved += 1
            elif fn == 'vt_path_get_this_exe_location' : I.proved += 1
            else: I.alarm('report', 'every call succeeds but the caller is told it failed', good)
        if fn not in NOSUCC and not any(ev[0] in names for ev in evs) and fn not in MAYREFUSE:
            I.obl += 1
            if isfail(px, s, True): I.alarm('report', 'the caller is told it failed although no call failed (none of %s was made)' % ', '.join(names), s)
            else: I.proved += 1
        if fn in WR: written(px, evs)
        if fn.startswith('vt_file_read'): readin(px, evs)
driver.HOOKS['os'] = OsHook
