"""What a caller has to provide: the documented preconditions of the public functions, as entry-state builders."""
from poly import *
from absint import *

TABLE = {}

def sized_buf(fn, buf, ln, ro, nul=False, minlen=0):
    """buf points to exactly ln bytes (not necessarily terminated)"""
    def rb(I, st, e, info, cfg):
        n = e.shared.get((fn, ln))
        if n is None:
            n = fresh(ln, minlen, SIZE_HI); e.shared[(fn, ln)] = n
        r = I.new_region(st, 'cstr' if ro else 'buf', n, 'borrowed', 'caller buffer ' + buf)
        if ro or fn in ('vt_gswap', 'vt_memset', 'vt_memcopy', 'vt_memmove'):
            r.facts = (Fact((ZERO,), (n,), ('init', r.id, ZERO)),)
            if nul == 'nz': r.facts = r.facts + (Fact((ZERO,), (n,), ('nz',)),)
        r.ro = ro
        info['kind'] = 'sized'; info['rid'] = r.id; info['n'] = n
        return Ptr(r.id, ZERO, 0)
    def rl(I, st, e, info, cfg):
        n = e.shared.get((fn, ln))
        if n is None:
            n = fresh(ln, minlen, SIZE_HI); e.shared[(fn, ln)] = n
        info['kind'] = 'int'; info['v'] = n
        return n
    TABLE[(fn, buf)] = rb; TABLE[(fn, ln)] = rl

for f in ('vt_str_append_n', 'vt_str_set_n', 'vt_str_insert_n'): sized_buf(f, 'z', 'n', True, 'nz')
sized_buf('vt_str_is_numeric_z', 'z', 'len', True)
sized_buf('vt_socket_send', 'data_buf', 'data_len', True)
sized_buf('vt_socket_send_to', 'data_buf', 'data_len', True)
for f in ('vt_socket_receive', 'vt_socket_receive_from', 'vt_socket_receive_timed', 'vt_socket_receive_timed_from'): sized_buf(f, 'data_buf', 'data_len', False)
sized_buf('vt_file_read_to_buffer', 'buffer', 'buffer_len', False)
for f in ('vt_datetime_get_now_as_text', 'vt_datetime_get_now_as_text_pretty', 'vt_datetime_to_text', 'vt_datetime_to_text_iso', 'vt_datetime_to_text_iso_ext', 'vt_datetime_to_text_pretty'):
    sized_buf(f, 'timebuf', 'len', False)
for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f', 'd', 'r', 'b'):
    sized_buf('vt_conv_%s_to_str' % t, 'buf', 'buf_len', False)
for f, ps in (('vt_memcopy', ('dest', 'src')), ('vt_memmove', ('dest', 'src')), ('vt_memset', ('ptr',)), ('vt_memcmp', ('lhs', 'rhs'))):
    for p in ps: sized_buf(f, p, 'bytes', p in ('src', 'lhs', 'rhs'))
for p in ('a', 'b'): sized_buf('vt_gswap', p, 'elsize', False)

def positive(fn, name):
    def r(I, st, e, info, cfg):
        v = fresh(name, 1, SIZE_HI); info['kind'] = 'int'; info['v'] = v; return v
    TABLE[(fn, name)] = r
for f in ('vt_index_2d_to_1d', 'vt_index_1d_to_2d', 'vt_index_3d_to_1d', 'vt_index_1d_to_3d'):
    for p in ('ncols', 'nrows'): positive(f, p)

# ---- mutable C strings
def mut_cstr(fn, name):
    def r(I, st, e, info, cfg):
        L = fresh(name + '.strlen', 0, SIZE_HI)
        b = I.new_region(st, 'buf', L + 1, 'borrowed', 'string ' + name)
        I.add_fact(st, b, (L,), (L + 1,), ('const', 0)); I.add_fact(st, b, (ZERO,), (L,), ('nz',))
        info['kind'] = 'mcstr'; info['rid'] = b.id; info['L'] = L
        return Ptr(b.id, ZERO, 0)
    TABLE[(fn, name)] = r
mut_cstr('vt_path_pop', 'z'); mut_cstr('vt_path_validate', 'z')

# ---- argument vectors: argc pointers to strings, optc option descriptors
def counted(fn, arr, cnt, stride, elem=None, ro=False):
    def n_of(e):
        n = e.shared.get((fn, cnt))
        if n is None: n = fresh(cnt, 0, SIZE_HI); e.shared[(fn, cnt)] = n
        return n
    def ra(I, st, e, info, cfg):
        n = n_of(e)
        r = I.new_region(st, 'buf', n * stride, 'borrowed', arr)
        r.elem = elem; r.ro = ro
        info['kind'] = 'counted'; info['rid'] = r.id; info['n'] = n
        return Ptr(r.id, ZERO, 0)
    def rn(I, st, e, info, cfg):
        info['kind'] = 'int'; info['v'] = n_of(e)
        return n_of(e)
    TABLE[(fn, arr)] = ra; TABLE[(fn, cnt)] = rn

def elem_str(I, st, r, p, ty, n):
    if ty.k != 'ptr': return None
    L = fresh('arg.strlen', 0, SIZE_HI)
    s = I.new_region(st, 'cstr', L + 1, 'borrowed', 'argument string')
    I.add_fact(st, s, (L,), (L + 1,), ('const', 0)); I.add_fact(st, s, (ZERO,), (L,), ('nz',))
    s.ro = True
    return Ptr(s.id, ZERO, 0)
counted('vt_socket_poll', 'pfd', 'pfd_size', 8)
counted('vt_argopt_print_help', 'optv', 'optc', 40)

# ---- option tables: a fixed number of arguments and options, every string and every stored value arbitrary
def arg_region(I, st, name):
    L = fresh(name + '.strlen', 0, SIZE_HI)
    s = I.new_region(st, 'cstr', L + 1, 'borrowed', name)
    I.add_fact(st, s, (L,), (L + 1,), ('const', 0)); I.add_fact(st, s, (ZERO,), (L,), ('nz',))
    s.facts = s.facts + (Fact((ZERO,), (L + 1,), ('init', s.id, ZERO)),)
    s.ro = True
    return Ptr(s.id, ZERO, 0)
def argc_of(cfg): return cfg.get('argc', 3)
def r_argc(I, st, e, info, cfg):
    info['kind'] = 'int'; info['v'] = C(argc_of(cfg)); return info['v']
def r_argv(I, st, e, info, cfg):
    n = argc_of(cfg)
    r = I.new_region(st, 'stack', C(8 * n), 'borrowed', 'argv'); r.ro = False
    r.cells = {8 * k: (8, arg_region(I, st, 'argv[%d]' % k)) for k in range(n)}
    info['kind'] = 'argv'; info['rid'] = r.id
    return Ptr(r.id, ZERO, 0)
def r_optc(I, st, e, info, cfg):
    info['kind'] = 'int'; info['v'] = C(cfg.get('optc', 1)); return info['v']
ARGT = {'INT8': 1, 'UINT8': 1, 'INT16': 2, 'UINT16': 2, 'INT32': 4, 'UINT32': 4, 'INT64': 8, 'UINT64': 8, 'FLOAT': 4, 'DOUBLE': 8, 'REAL': 16, 'BOOL': 1, 'CHAR': 1, 'CSTR': 8, 'STR': 8}
def r_optv(I, st, e, info, cfg):
    import spec
    n = cfg.get('optc', 1)
    off, size = spec.OPT; tv = spec.TYPES
    r = I.new_region(st, 'stack', C(size * n), 'borrowed', 'optv'); r.ro = True
    info['kind'] = 'optv'; info['rid'] = r.id; info['val_regs'] = []
    for k in range(n):
        ty = cfg.get('opttype', 'INT32')
        v = I.new_region(st, 'stack', C(ARGT[ty]), 'borrowed', 'option value')
        if ty in ('STR', 'CSTR'):
            if cfg.get('fresh', True): v.cells = {0: (8, NULL)}
            elif ty == 'STR':
                c = spec.mk_cont(I, st, 'str', e.al, name='old value'); v = st.w(v.id); v.cells = {0: (8, Ptr(c.hdr, ZERO, 0))}; info['c'] = c
            else:
                L = fresh('old.strlen', 0, SIZE_HI)
                b = I.new_region(st, 'buf', L + 1, ('A', e.al.id) if e.al is not None else 'libc', 'old value')
                I.add_fact(st, b, (L,), (L + 1,), ('const', 0)); I.add_fact(st, b, (ZERO,), (L,), ('nz',))
                v.cells = {0: (8, Ptr(b.id, ZERO, 0))}
        info['val_regs'].append(v.id)
        for f, val, m in (('optionLong', arg_region(I, st, 'optionLong'), 8), ('optionShort', arg_region(I, st, 'optionShort'), 8), ('optionDesc', arg_region(I, st, 'optionDesc'), 8),
                       ('optionValue', Ptr(v.id, ZERO, 0), 8), ('optionType', C(tv[ty]), 4)):
            r.cells[size * k + off[f]] = (m, val)
    return Ptr(r.id, ZERO, 0)
TABLE[('vt_argopt_parse', 'argc')] = r_argc; TABLE[('vt_argopt_parse', 'argv')] = r_argv
TABLE[('vt_argopt_parse', 'optc')] = r_optc; TABLE[('vt_argopt_parse', 'optv')] = r_optv

# ---- the tracking allocator
def mk_mallocator(I, st, e):
    import spec
    cap = fresh('list.cap', 1, SIZE_HI); ln = fresh('list.len', 0, SIZE_HI)
    st.cs.add(cap - ln)
    b = I.new_region(st, 'buf', cap * 16, 'libc', 'object list')
    b.facts = (Fact((ZERO,), (ln * 16,), ('init', b.id, ZERO)),)
    r = I.new_region(st, 'hdr', C(spec.ALH), 'libc', 'mallocator')
    r.cells = {spec.A_LIST: (8, Ptr(b.id, ZERO, 0)), spec.A_LLEN: (8, ln), spec.A_LCAP: (8, cap), spec.A_ALLOC: (8, FnV('vt_mallocator_alloc')), spec.A_REALLOC: (8, FnV('vt_mallocator_realloc')), spec.A_FREE: (8, FnV('vt_mallocator_free'))}
    st0 = {}
    for nm, o in spec.A_ST.items():
        v = fresh('stats.' + nm, 0, SIZE_HI); r.cells[o] = (8, v); st0[nm] = v
    # elements of the list: blocks from the C heap, and their sizes
    def elem(I, s, reg, p, ty, n):
        if ty.k == 'int' and n == 8: return fresh('listed.bytes', 1, SIZE_HI)
        if ty.k == 'ptr':
            u = I.new_unk('listed'); s.ghost[('nn', u.id)] = True
            return u
        return None
    b.elem = elem
    e.mal = dict(rid=r.id, buf=b.id, len=ln, cap=cap, st0=st0)
    return r
def r_mal(I, st, e, info, cfg):
    r = mk_mallocator(I, st, e); info['kind'] = 'mallocator'; info['rid'] = r.id
    return Ptr(r.id, ZERO, 0)
def r_block(I, st, e, info, cfg):
    n = fresh('block.bytes', 1, SIZE_HI)
    r = I.new_region(st, 'buf', n, 'libc', 'block'); r.facts = (Fact((ZERO,), (n,), ('init', r.id, ZERO)),)
    info['kind'] = 'block'; info['rid'] = r.id; info['n'] = n
    return Ptr(r.id, ZERO, 0)
for f in ('vt_mallocator_alloc', 'vt_mallocator_realloc', 'vt_mallocator_free', 'vt_mallocator_destroy'): TABLE[(f, 'alloctr')] = r_mal
for f in ('vt_mallocator_realloc', 'vt_mallocator_free'): TABLE[(f, 'ptr')] = r_block
def k_listed(I, st, u):
    n = fresh('listed.bytes', 1, SIZE_HI)
    return I.new_region(st, 'buf', n, 'libc', 'listed block')
KINDS = {'listed': k_listed}

# ---- blocks handed over
def owned_cstr(fn, name):
    def r(I, st, e, info, cfg):
        L = fresh(name + '.strlen', 0, SIZE_HI)
        b = I.new_region(st, 'buf', L + 1, ('A', e.al.id) if e.al is not None else 'libc', 'string ' + name)
        I.add_fact(st, b, (L,), (L + 1,), ('const', 0)); I.add_fact(st, b, (ZERO,), (L,), ('nz',))
        b.facts = b.facts + (Fact((ZERO,), (L + 1,), ('init', b.id, ZERO)),)
        info['kind'] = 'owned'; info['rid'] = b.id; info['L'] = L
        return Ptr(b.id, ZERO, 0)
    TABLE[(fn, name)] = r
owned_cstr('vt_str_take_ownership', 'z'); owned_cstr('vt_str_take_ownership', 'str')
def libc_block(fn, name):
    TABLE[(fn, name)] = r_block
libc_block('vt_realloc', 'ptr'); libc_block('vt_free', 'ptr')

def r_level(I, st, e, info, cfg):
    v = C(cfg['lvl']) if 'lvl' in cfg else fresh('log_level', 0, 255)
    info['kind'] = 'int'; info['v'] = v
    return v
for f in ('vt_log', 'vt_log_redirect_level_output', 'vt_log_get_level_str'): TABLE[(f, 'log_level')] = r_level
