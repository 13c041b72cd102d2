"""What the network operations ask of the system: the endpoint, kind of socket, data and waiting time are exactly the caller's, and what the system answers is what the caller gets."""
import driver, spec, models
from poly import *
from absint import *
from post import Px, case
from osx import events, bound, failed

NAMES = ['vt_socket_make_address', 'vt_socket_startup_server', 'vt_socket_startup_client', 'vt_socket_accept_client', 'vt_socket_close', 'vt_socket_send', 'vt_socket_send_to', 'vt_socket_receive', 'vt_socket_receive_from',
         'vt_socket_poll', 'vt_socket_receive_timed', 'vt_socket_receive_timed_from']
EVENTS = {'socket', 'accept', 'bind', 'listen', 'connect', 'setsockopt', 'poll', 'send', 'sendto', 'recv', 'recvfrom', 'close', 'shutdown', 'read', 'write'}
AF_INET, STREAM, SOL_SOCKET, REUSE, POLLIN = 2, 1, 1, 2, 1
STATUS = {'socket': -1, 'setsockopt': -1, 'bind': -2, 'listen': -3, 'connect': -4, 'accept': -1, 'send': -5, 'sendto': -5, 'recv': -6, 'recvfrom': -6, 'poll': -7}
CALLS = {'vt_socket_startup_server': 'socket setsockopt bind listen', 'vt_socket_startup_client': 'socket connect', 'vt_socket_accept_client': 'accept', 'vt_socket_send': 'send', 'vt_socket_send_to': 'sendto',
         'vt_socket_receive': 'recv', 'vt_socket_receive_from': 'recvfrom', 'vt_socket_poll': 'poll', 'vt_socket_receive_timed': 'poll recv', 'vt_socket_receive_timed_from': 'poll recvfrom'}
PORTS = (None, 0, 80, 32767, 32768, 40001, 65535)

class T:
    def __init__(s, n): s.k = 'int'; s.n = n
def cell(I, st, p, off, n):
    p = I.resolve(st, p)
    if not isinstance(p, Ptr): return None
    t = st.fork()
    return I.load_raw(t, Ptr(p.r, p.off + off, p.gen), T(8 * n), n)

class NetHook(driver.Hook):
    def setup(self, I, f, cfg):
        I.trace = EVENTS; I.undef = True; I.MAXKEPT = 60; I.KEEPDEPTH = 9; self.cfg = cfg
        rec = I.record
        def record(st, name, vals, rv):
            k = ('ev', sum(1 for k in st.ghost if k[0] == 'ev'))
            rec(st, name, vals, rv)
            snap = None
            if name in ('bind', 'connect') and len(vals) > 1: snap = [cell(I, st, vals[1], o, n) for o, n in ((0, 2), (2, 2), (4, 4))]
            elif name == 'sendto' and len(vals) > 4: snap = [cell(I, st, vals[4], o, n) for o, n in ((0, 2), (2, 2), (4, 4))]
            elif name == 'setsockopt': snap = [cell(I, st, vals[3], 0, 4)]
            elif name == 'poll': snap = [cell(I, st, vals[0], 0, 4), cell(I, st, vals[0], 4, 2), st.ghost.get(('revents',))]
            elif name in ('recvfrom', 'accept'): snap = st.ghost.get(('peer',))
            st.ghost[k] = st.ghost[k][:4] + (snap,)
        I.record = record
    def entry(self, I, e):
        self.ep = None
        for j, i in enumerate(e.params):
            v = i.get('v')
            if i['name'] == 'sock_fd' and isinstance(v, Poly): e.st.cs.add(C(2**31 - 1) - v); e.st.cs.add(v + 2**31)
            if i['name'] in ('data_len', 'pfd_size') and isinstance(v, Poly): e.st.cs.add(C(2**31 - 1) - v)
            if i['name'].startswith('address') and 'SocketAddress' in i['ct'] and '*' not in i['ct']:
                self.ep = (fresh('port', -32768, 32767), fresh('addr', -2**31, 2**31 - 1))
                e.vals[j] = Blob(((0, (2, self.ep[0])), (4, (4, self.ep[1]))), 8)
            if i['name'] == 'port':
                c = self.cfg.get('port')
                if c is not None: e.vals[j] = C(c - 65536 if c > 32767 and e.fn.name == 'vt_socket_make_address' else c)
                elif isinstance(e.vals[j], Poly): e.st.cs.add(e.vals[j]); e.st.cs.add(C(32767) - e.vals[j])
                self.port = e.vals[j]
            if i['name'] == 'type': self.type = e.vals[j]; e.st.cs.add(e.vals[j] - 1); e.st.cs.add(C(2) - e.vals[j])
    def ret(self, I, e, s, rv):
        fn = e.fn.name
        if fn not in NAMES or s.cs.bad or s.imp or s.weak: return
        out = [s]                        # one state per combination of outcomes
        for ev in events(Px(I, e, s, rv)):
            if ev[0] not in CALLS.get(fn, '').split(): continue
            nx = []
            for t in out:
                p = failed(Px(I, e, t, rv), ev)
                nx += [t] if not isinstance(p, Poly) else [q.s for q in (case(Px(I, e, t, rv), p), case(Px(I, e, t, rv), -p - 1)) if q]
            out = nx
        for t in out:
            if isinstance(rv, Cond) and e.fn.rty.n > 8:      # a truth value handed out as a number
                for b in (True, False):
                    for u in I.assume(t.fork(), rv, b):
                        if not u.cs.bad and u.cs.feasible(): self.one(I, e, u, C(int(b)))
            else: self.one(I, e, t, rv)
    def one(self, I, e, s, rv):
        fn = e.fn.name
        px = Px(I, e, s, rv); evs = events(px); ok = px.ok
        def arg(n): return next(e.vals[j] for j, i in enumerate(e.params) if i['name'] == n)
        def net(x): return models.M['htons'](I, s, None, [x], None, None)[0][1]
        if fn == 'vt_socket_make_address':
            if isinstance(rv, Blob):
                q, a = I.blob_get(rv, 0, 2, s), I.blob_get(rv, 4, 4, s); p = I.resolve(s, arg('address'))
                if q is not None: px.eq('port of the address (in network order)', q, net(self.port))
                if a is not None and isinstance(p, Ptr): px.eq('host of the address', a, I.terms.get(('inet', p.r, p.off), NOWHERE))
                ok(q is not None and a is not None, 'port or host of the address is not set')
            else: I.alarm('vague', 'address not tracked', s)
            return
        fd = arg('sock_fd') if any(i['name'] == 'sock_fd' for i in e.params) else None
        own = [ev for ev in evs if ev[0] == 'socket']
        if own: fd = own[0][2]
        def samefd(ev, x):
            if isinstance(x, Poly) and isinstance(fd, Poly): px.eq('socket given to ' + ev[0], x, fd)
        def endpoint(ev, p, sn, port, addr):
            if sn is None: return
            for what, g, w in (('family', sn[0], C(AF_INET)), ('port', sn[1], port), ('host', sn[2], addr)): px.eq('%s of the address given to %s' % (what, ev[0]), g, w)
        for ev in evs:
            nm, a = ev[:2]; sn = ev[4] if len(ev) > 4 else None
            if nm in ('shutdown', 'read', 'write'): continue
            if nm == 'socket':
                px.eq('address family', a[0], C(AF_INET)); px.eq('kind of socket', a[1], self.type)
                continue
            if nm == 'poll' and fn != 'vt_socket_poll':
                if sn and isinstance(sn[0], Poly): px.eq('socket that is waited for', sn[0], fd)
                if sn and isinstance(sn[1], Poly) and sn[1].const() is not None: ok(sn[1].const() & POLLIN, 'does not wait for incoming data')
                px.eq('number of sockets waited for', a[1], C(1)); bound(px, 'poll', a[2], 'timeout')
                continue
            if nm == 'poll': continue
            samefd(ev, a[0])
            if nm == 'bind': endpoint(ev, a[1], sn, net(self.port), ZERO); px.eq('size of the address', a[2], C(16))
            if nm == 'connect' and self.ep: endpoint(ev, a[1], sn, *self.ep); px.eq('size of the address', a[2], C(16))
            if nm == 'sendto' and self.ep: endpoint(ev, a[4], sn, *self.ep); px.eq('size of the address', a[5], C(16))
            if nm == 'listen': bound(px, nm, a[1], 'backlog')
            if nm in ('send', 'sendto', 'recv', 'recvfrom'): bound(px, nm, a[1], 'data_buf'); bound(px, nm, a[2], 'data_len'); fl = a[3]; ok(not isinstance(fl, Poly) or fl.const() in (0, 0x4000, None), 'asks for special treatment (flags %r)' % (fl,))
        names = CALLS.get(fn, '').split(); done = [ev for ev in evs if ev[0] in names]
        bad = None
        for ev in done:
            p = failed(px, ev)
            if isinstance(p, Poly) and s.cs.entails(p): bad = ev
            elif p is True: bad = ev
            elif not isinstance(p, Poly): return
        if bad: 
            if isinstance(rv, Poly): px.eq('status returned when %s fails' % bad[0], rv, C(STATUS[bad[0]]))
            return
        count = {n: sum(1 for ev in done if ev[0] == n) for n in names}
        if fn == 'vt_socket_startup_server':
            tcp = case(px, C(STREAM) - self.type); udp = case(px, self.type - STREAM - 1)
            if tcp: ok(count['listen'] == 1, 'a TCP server listens %d times' % count['listen'])
            if udp: ok(count['listen'] == 0, 'a UDP server listens for connections')
            ok(count['bind'] == 1, 'binds %d times' % count['bind'])
            b = next((i for i, ev in enumerate(done) if ev[0] == 'bind'), None); l = next((i for i, ev in enumerate(done) if ev[0] == 'listen'), None)
            ok(b is None or l is None or b < l, 'listens before it binds')
            ok(any(ev[0] == 'setsockopt' and [x.const() if isinstance(x, Poly) else None for x in ev[1][1:3]] == [SOL_SOCKET, REUSE] and (not ev[4] or not isinstance(ev[4][0], Poly) or ev[4][0].const() != 0) for ev in done[:b or 0]), 'binds without allowing the address to be used again')
        if fn == 'vt_socket_startup_client': ok(count['connect'] == 1, 'connects %d times' % count['connect'])
        if own:
            px.eq('socket returned', rv, fd)
            for ev in evs: ok(ev[0] != 'close', 'closes the socket it returns')
        last = {'vt_socket_accept_client': 'accept', 'vt_socket_send': 'send', 'vt_socket_send_to': 'sendto', 'vt_socket_receive': 'recv', 'vt_socket_receive_from': 'recvfrom', 'vt_socket_poll': 'poll'}.get(fn)
        if 'timed' in fn:
            po = [ev for ev in done if ev[0] == 'poll']; rc = [ev for ev in done if ev[0] != 'poll']
            ok(len(po) == 1, 'waits %d times' % len(po))
            if len(po) == 1 and isinstance(po[0][2], Poly):
                n = po[0][2].const(); rev = s.ghost.get(('revents',))
                if n == 0: ok(not rc, 'receives although nothing arrived in time'); px.eq('result when nothing arrived in time', rv, ZERO)
                elif rev is not None and rev & POLLIN: ok(len(rc) == 1, 'receives %d times although data arrived' % len(rc))
                elif rev is not None: ok(not rc, 'receives although no data arrived')
                if not rc and n: px.eq('result when there is nothing to receive', rv, ZERO)
            if rc: ok(len(rc) == 1, 'receives %d times' % len(rc)); last = rc[0][0]
        if last:
            l = [ev for ev in done if ev[0] == last]
            ok(len(l) == 1, 'calls %s %d times' % (last, len(l)))
            if len(l) == 1 and isinstance(l[0][2], Poly): px.eq('result of ' + last, rv, l[0][2])
            if last == 'recvfrom' and l and l[0][4]:
                p = arg('address')
                for what, o, n, w in (('port', 0, 2, l[0][4][0]), ('host', 4, 4, l[0][4][1])):
                    g = cell(I, s, p, o, n)
                    if isinstance(g, Poly): px.eq('%s of the sender' % what, g, w)
NOWHERE = C(1 << 40)
driver.HOOKS['net'] = NetHook
