"""Entry states restricted to calls that keep their documented preconditions: none of them may end in an assertion or an exit."""
import re
import spec, driver
from poly import *
from absint import *

NONEMPTY = {  # texts that must not be empty (the operation copies or searches them)
    'vt_str_create': 'z', 'vt_str_append': 'z', 'vt_str_set': 'z', 'vt_str_set_at': 'z', 'vt_str_insert': 'z', 'vt_str_insert_before': 'z sub', 'vt_str_insert_after': 'z sub',
    'vt_path_mkdir_parents': 'z', 'vt_path_expand_tilda': 'z', 'vt_path_basename': 'z', 'vt_str_join': 'sep', 'vt_str_join_n': 'sep', 'vt_str_split': 'sep', 'vt_str_replace_c': 'c r',
}
SKIP = {  # cannot be decided this way: the abort is the function's job, or the permitted refusal depends on a value computed at run time
    'vt_debug_assert': 'aborts by contract', 'vt_log': 'fatal level exits by contract', 'vt_datetime_from_text': 'refuses malformed text', 'vt_datetime_from_text_iso': 'refuses malformed text',
    'vt_datetime_from_text_iso_ext': 'refuses malformed text', 'vt_path_dir_free': 'list elements are the caller\'s',
    'vt_path_build': 'variable arguments', 'vt_path_build_n': 'variable arguments', 'vt_str_join': 'list elements are the caller\'s', 'vt_str_join_n': 'variable arguments', 'vt_path_basename': 'see DESIGN.md', 'vt_argopt_parse': 'option values come from the command line',
}
for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'd', 'r'): SKIP['vt_conv_%s_to_str' % t] = 'refuses a buffer too small for the printed value'

def pre(e):
    """(tag, p): p >= 0 in a call inside the documented domain"""
    fn = e.fn.name; P = {i['name']: i for i in e.params}; out = []
    add = lambda t, *ps: out.extend((t, p) for p in ps)
    cs = [i['c'] for i in e.params if i.get('c') is not None and i['kind'] == 'cont']
    c = cs[0] if cs else None
    for i in e.params:
        if i['kind'] == 'cont' and i.get('c') is not None and not i['c'].view: add('storage', i['c'].cap - 1)
        if i['kind'] in ('int',) and i['name'] in ('n', 'elsize', 'bytes', 'length', 'ncols', 'nrows', 'buffer_len', 'count', 'optc', 'to_idx', 'from_idx') and isinstance(i.get('v'), Poly): add('count ' + i['name'], i['v'] - 1)
        if i['kind'] == 'cstr' and i['name'] in NONEMPTY.get(fn, '').split(): add('text ' + i['name'], i['L'] - 1)
        if i['name'] == 'rs' and isinstance(i.get('v'), Poly): add('strategy', i['v'], C(1) - i['v'])
    v = lambda n: P[n]['v']
    if 'at' in P and c is not None and isinstance(P['at'].get('v'), Poly): add('position', c.len - v('at') - (0 if fn == 'vt_str_insert_n' else 1))
    if fn == 'vt_str_remove': add('position', c.len - v('from') - 1)
    if fn in ('vt_vec_dup', 'vt_plist_dup', 'vt_str_dup', 'vt_vec_shrink', 'vt_plist_shrink'): add('nonempty', c.len - 1)
    if fn in ('vt_str_find', 'vt_str_can_find', 'vt_str_index_find', 'vt_str_insert_before', 'vt_str_insert_after', 'vt_str_replace_first'): add('longer', c.len - P['sub']['L'])
    if fn == 'vt_str_split': add('longer', P['s']['c'].len - P['sep']['L'])
    if fn == 'vt_str_set': add('fits', c.len - P['z']['L'])
    if fn == 'vt_str_set_n': add('fits', c.len - v('n'))
    if fn == 'vt_str_set_at': add('fits', c.len - v('at') - P['z']['L'])
    if fn == 'vt_str_equals_n': add('longer', P['z1']['L'] - v('n'), P['z2']['L'] - v('n'))
    if fn == 'vt_str_is_numeric_z': add('count len', v('len') - 1)
    if fn == 'vt_str_replace_c': add('longer', P['c']['L'] - P['r']['L'])
    if fn == 'vt_span_from_to': add('position', v('to_idx') - v('from_idx') - 1)
    if fn.startswith('vt_datetime') and 'len' in P: add('room', v('len') - 26)
    return out

TOLERATED = {  # outside the usual domain, yet answered with a harmless result
    ('count bytes', 'vt_memcmp'), ('count bytes', 'vt_memcopy'), ('count bytes', 'vt_memmove'), ('count bytes', 'vt_memset'), ('longer', 'vt_str_replace_first'), ('position', 'vt_span_from_to'),
    ('position', 'vt_str_insertf'), ('text r', 'vt_str_replace_c'), ('text sep', 'vt_str_split'), ('text sub', 'vt_str_insert_after'), ('text sub', 'vt_str_insert_before'),
    ('text z', 'vt_path_mkdir_parents'), ('text z', 'vt_str_insert'), ('text z', 'vt_str_insert_after'), ('text z', 'vt_str_insert_before'),
}
def report(I, fn, st, kind, msg):
    if st.weak and not st.imp: st = st.fork(); st.imp = frozenset((-1,))
    I.alarm(kind, msg, st)

class InvalidHook(driver.Hook):
    """one precondition broken, the others kept: the call must not return"""
    def setup(self, I, f, cfg): self.cfg = cfg
    def entry(self, I, e):
        ps = pre(e); k = self.cfg['neg']; self.tag = None
        if k >= len(ps): e.st.cs.bad = True; return
        self.tag = ps[k][0]
        for j, (t, p) in enumerate(ps): e.st.cs.add(p if j != k else C(-1) - p)
        self.on = self.tag != 'storage' and (self.tag, e.fn.name) not in TOLERATED
    def end(self, I, e, rets, R):
        R.extra['tag'] = self.tag
        if self.tag is None: return
        live = [s for s, rv in rets if not s.cs.bad and s.cs.feasible()]
        R.rets = len(live)
        if not self.on: return
        I.obl += 1
        if not live: I.proved += 1; return
        exact = [s for s in live if not (s.imp or s.weak)]
        report(I, e.fn, exact[0] if exact else live[0], 'accepted', '%s returns although its argument is outside its domain (%s)' % (e.fn.name, self.tag))
driver.HOOKS['invalid'] = InvalidHook

class ValidHook(driver.Hook):
    def entry(self, I, e):
        for t, p in pre(e): e.st.cs.add(p)
    def end(self, I, e, rets, R):
        if not e.st0.cs.bad and not rets and not any(a.imp for a in I.alarms.values()): pass
        I.obl += 1; bad = False
        for k, fn, loc, st, stack in I.trap_log:
            if st.cs.bad or not st.cs.feasible(): continue
            a = Alarm(); a.kind = 'refused'; a.fn = fn; a.file, a.line = loc; a.stack = stack; a.cfg = I.cfg; a.extra = None
            a.msg = 'a valid call of %s ends in this %s' % (e.fn.name, k); a.imp = bool(st.imp) or bool(st.weak)
            key = ('refused', fn, a.line, stack[0], I.cfg)
            if key not in I.alarms or I.alarms[key].imp and not a.imp: I.alarms[key] = a
            bad = True
        if not bad: I.proved += 1
        if not rets and not bad and not I.alarms:
            pass
driver.HOOKS['valid'] = ValidHook

GROWS = ('vt_str_reserve', 'vt_str_resize', 'vt_str_append', 'vt_str_append_n', 'vt_str_insert_n', 'vt_str_shrink')
READS = ('vt_str_len', 'vt_str_capacity', 'vt_str_has_space', 'vt_str_is_empty', 'vt_str_z', 'vt_str_find', 'vt_str_can_find', 'vt_str_index_find', 'vt_str_index_of', 'vt_str_starts_with', 'vt_str_ends_with',
         'vt_str_equals', 'vt_str_is_numeric', 'vt_str_dup', 'vt_str_split', 'vt_str_slide_front', 'vt_str_slide_back', 'vt_str_slide_reset', 'vt_str_destroy')
class ViewHook(driver.Hook):
    """the viewed storage is neither grown, exchanged nor released; queries do not write through the view"""
    def ret(self, I, e, s, rv):
        fn = e.fn.name
        for i in e.params:
            if i['kind'] != 'cont' or not i['c'].view: continue
            c = i['c']; I.obl += 1
            b = s.reg.get(c.buf)
            if b is None or not b.live: report(I, e.fn, s, 'view', '%s releases the storage its view looks at' % fn); continue
            h = s.reg.get(c.hdr)
            if h is not None and h.live:
                p = I.resolve(s, spec.hdr_cell(s, c.hdr, spec.O_PTR)); cap = spec.hdr_cell(s, c.hdr, spec.O_CAP)
                if not (isinstance(p, Ptr) and p.r == c.buf): report(I, e.fn, s, 'view', '%s makes a view look at other storage' % fn); continue
                if not (isinstance(cap, Poly) and s.cs.entails(c.cap - cap)): report(I, e.fn, s, 'view', '%s raises the capacity of a view' % fn); continue
                if spec.hdr_cell(s, c.hdr, spec.O_VIEW) not in (TRUE, C(1)): report(I, e.fn, s, 'view', '%s turns a view into an owner' % fn); continue
            if fn in GROWS: report(I, e.fn, s, 'view', '%s returns although its string is a view' % fn); continue
            I.proved += 1
driver.HOOKS['view'] = ViewHook

DESTROY = {'vt_str_destroy': 'hb', 'vt_vec_destroy': 'hb', 'vt_plist_destroy': 'hb', 'vt_path_dir_free': 'hb', 'vt_array_free': 'h'}
class DestroyHook(driver.Hook):
    """destroying a container releases its storage and its object; an object never goes without its storage"""
    def ret(self, I, e, s, rv):
        fn = e.fn.name
        for i in e.params:
            if i['kind'] != 'cont' or i['c'].view: continue
            c = i['c']; h = s.reg.get(c.hdr); b = s.reg.get(c.buf); I.obl += 1
            hl = h is not None and h.live; bl = b is not None and b.live
            if not hl and bl and fn not in ('vt_array_free',): report(I, e.fn, s, 'leak', '%s releases the container but not its storage' % fn)
            elif hl and 'h' in DESTROY.get(fn, ''): report(I, e.fn, s, 'leak', '%s does not release the container object' % fn)
            else: I.proved += 1
driver.HOOKS['destroy'] = DestroyHook
