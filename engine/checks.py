"""The properties' decision procedures: which entry functions and configurations are analysed, and which findings decide the property."""
import re, time
import driver, spec, ir, post, valid, osx, tree, fsq, fmt, small, dt, num, mal, out, opt, net, seq, long
from driver import expand, run_jobs, API

REG = {}
def check(pid):
    def d(f): REG[pid] = f; return f
    return d

class Report:
    def __init__(self):
        self.violations = []; self.cov = {}; self.assume = []; self.explain = ''; self.undecided = []; self.samples = []
    def violate(self, kind, file, line, fn, msg, **kw):
        d = dict(kind=kind, file=file, line=line, fn=fn, msg=msg); d.update(kw)
        self.violations.append(d)

CONT = r'src/vita/(container|algorithm)/'
MEM = ('oob', 'uaf', 'null', 'overlap', 'unterminated', 'divzero', 'badfree', 'const-write', 'twice')
A_COMMON = ['entry states are the documented preconditions: well-formed containers (length <= capacity, storage backing the capacity), NUL-terminated C strings, buffers of the stated size',
            'sizes and lengths are below 2^60 (no wrap-around of size arithmetic); arguments do not alias each other unless they share storage by construction',
            'the C library behaves as modelled in engine/models.py; allocation does not fail unless stated (the library traps on failure)',
            'a finding is reported when it lies on an exact abstract path (at most two iterations of each loop); findings that depend on a widened loop state only are counted as undecided']

ONLY = None  # development aid: restrict the entry functions
def anchor(n, least, what):
    """the check has lost its subject when fewer than this many instances are left"""
    if n < least and ONLY is None: raise ir.Broken('only %d %s' % (n, what))
def public(m, pat=None, rx=None):
    return [n for n in sorted(API) if n in m.fns and (ONLY is None or n in ONLY) and (pat is None or re.search(pat, API[n]['file'])) and (rx is None or re.search(rx, n))]

def is_cont(ct, byval_ok=False): return spec.strip_c(ct).rstrip('*') in spec.CT and spec.strip_c(ct).endswith('*')
def jobs_for(m, names, modes, hooks=(), variant=(), extra=None):
    out = []
    for n in names:
        ps = spec.params_of(m, m.fns[n])
        has_al = any('VitaBaseAllocatorType' in p[3] or is_cont(p[3]) for p in ps)
        for md in modes:
            if md == 'std':
                out += expand(n, {'al': 'A'}, variant, hooks)
                if has_al: out += expand(n, {'al': 'none'}, variant, hooks)
            if md == 'libc':
                out += expand(n, {'al': 'none'}, variant, hooks)
            for i, p in enumerate(ps):
                if md == 'huge' and p[1].k == 'int' and p[1].n == 64 and ('size_t' in p[3] or 'uint64' in p[3]): out += expand(n, {'al': 'A', 'huge': i}, variant, hooks)
                if md == 'mixed' and i == 0 and is_cont(p[3]) and sum(is_cont(q[3]) for q in ps) > 1:
                    for w in ('first', 'rest'): out += expand(n, {'al': 'A', 'mixed': w}, variant, hooks)
                if p[3] == 'sret' or 'byval' in p[2] or p[1].k != 'ptr': continue
                if md == 'null' and 'VitaBaseAllocatorType' not in p[3] and 'mallocator' not in p[3] and 'fn*' not in p[3]: out += expand(n, {'al': 'A', 'null': i}, variant, hooks)
                if md == 'null' and 'vt_mallocator_t' in p[3]: out += expand(n, {'al': 'A', 'null': i}, variant, hooks)
                if md == 'nullbuf' and is_cont(p[3]): out += expand(n, {'al': 'A', 'nullbuf': i}, variant, hooks)
                if md == 'view' and spec.strip_c(p[3]) == 'vt_str_t*': out += expand(n, {'al': 'A', 'view': i}, variant, hooks)
    if extra: out = [(j[0], dict(j[1], **extra)) + tuple(j[2:]) for j in out]
    return out

def sweep(rep, jobs, kinds, limit=110, rule=None, accept=None):
    """run the jobs; alarms of the given kinds on exact paths are violations"""
    R = run_jobs(jobs, limit)
    seen = set(); und = {}
    obl = prv = insts = rets = 0
    funcs = set(); entries = set()
    for r in R:
        obl += r.obl; prv += r.proved; insts += r.insts; rets += r.rets; funcs |= set(r.visited); entries.add(r.fn)
        if r.status == 'gone': und.setdefault(r.fn, 'no longer part of the library'); continue
        if r.status != 'ok': und.setdefault(r.fn, r.note[:160])
        for a in r.alarms:
            if kinds is not None and a['kind'] not in kinds: continue
            if accept and not accept(r, a): continue
            if a['imp']:
                und.setdefault(r.fn, 'widened loop state: %s at %s:%s' % (a['kind'], a['file'], a['line'])); continue
            k = (a['kind'], a['fn'], a['line'], a['msg'][:60])
            if k in seen: continue
            seen.add(k)
            rep.violate(a['kind'], a['file'], a['line'], a['fn'], a['msg'], entry=r.fn, config=a['cfg'], call_path=a['stack'])
    c = rep.cov
    c['entry_functions'] = c.get('entry_functions', 0) + len(entries)
    c['entry_configurations'] = c.get('entry_configurations', 0) + len(jobs)
    c['functions_analysed'] = max(c.get('functions_analysed', 0), len(funcs))
    c['obligations'] = c.get('obligations', 0) + obl; c['discharged'] = c.get('discharged', 0) + prv
    c['instructions_interpreted'] = c.get('instructions_interpreted', 0) + insts; c['return_states'] = c.get('return_states', 0) + rets
    for k, v in und.items(): rep.undecided.append('%s: %s' % (k, v))
    unm = sorted(set(x for r in R for x in r.unmodelled))
    if unm: c['externals_havocked'] = sorted(set(c.get('externals_havocked', [])) | set(unm))
    rep.samples += ['%s [%s]: %d obligations, %d return states' % (r.fn, driver.cfgname(r.cfg, r.variant), r.obl, r.rets) for r in R[:3]]
    return R

ASKED = r'_(create|create_len|create_capacity|reserve|resize|append_n|insert_n|is_numeric_z)$'     # the size is what the caller asks to be stored or says it has
def largest(m, pat, hooks=()):
    """positions and counts of SIZE_MAX ('to the end'): sums with them wrap around"""
    return jobs_for(m, [n for n in public(m, pat) if not re.search(ASKED, n)], ['huge'], ('noleak',) + hooks)

def trees(m, hooks=()):
    """the directory functions over given small trees (exact paths through several entries and levels)"""
    names = [n for n in public(m) if n in tree.NAMES]
    return [j for c in tree.CASES for j in jobs_for(m, names, ['std'], ('tree',) + hooks, extra={'exact': 1, 'tree': c})]

@check('P01')
def p01(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m, CONT), ['std', 'view']) + largest(m, CONT) + shorts(m, 'vt_str_', tier)[1], MEM)
    rep.explain = 'every load, store, block operation, string scan and release reachable from the container and algorithm functions is an obligation (in bounds of its object, object live, pointer not null, copies not overlapping, divisor not zero)'
    rep.assume = A_COMMON

@check('P02')
def p02(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m, CONT + '|system/path'), ['std'], ('nocut',)) + largest(m, CONT) + trees(m) + shorts(m, '', tier)[1], ('inv-len', 'inv-cap', 'inv-storage', 'inv-fields'))
    rep.explain = 'on every return the containers handed in and the container returned satisfy length <= capacity and storage >= capacity elements (plus one byte for strings)'
    rep.assume = A_COMMON

@check('P03')
def p03(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m, CONT + '|system/path|system/fileio|time/'), ['std', 'view']) + largest(m, CONT) + trees(m) + shorts(m, '', tier)[1], ('inv-nul', 'unterminated', 'inv-row'))
    rep.explain = 'on every return each string container has a NUL byte at its recorded length, inside its storage; every C string handed to a string scan is terminated inside its object'
    rep.assume = A_COMMON

@check('P05')
def p05(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m), ['std', 'mixed']) + trees(m), ('affinity',))
    rep.explain = 'every release and reallocation names the allocator the block came from; every container records the allocator of its storage and of its own object'
    rep.assume = A_COMMON

@check('P07')
def p07(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m), ['std'], ('destroy',)) + trees(m) + shorts(m, '', tier)[1], ('leak', 'uaf', 'badfree'))
    rep.explain = 'every block obtained during a call is, on return, released or reachable from the result, the arguments or global state; none is released twice'
    rep.assume = A_COMMON

@check('P08')
def p08(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m), ['std']) + trees(m), ('leak-handle', 'va', 'twice'))
    rep.explain = 'every stream, directory handle, socket descriptor and argument list opened by a call is closed on every path, or handed to the caller'
    rep.assume = A_COMMON

@check('P10')
def p10(tier, rep):
    m = driver.prepare()
    sweep(rep, jobs_for(m, public(m), ['null', 'nullbuf']), MEM)
    rep.explain = 'with any one pointer argument null, or a container without storage, no path dereferences it'
    rep.assume = A_COMMON

@check('P22')
def p22(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if not re.search(CONT, API[n]['file'])]
    sweep(rep, jobs_for(m, names, ['std']) + trees(m) + shorts(m, 'vt_(?!str_)', tier)[1], MEM)
    rep.explain = 'as P01 for paths, files, options, timestamps, logging, sockets, maths, conversions and the allocator'
    rep.assume = A_COMMON

def post_check(rep, rx, anchors):
    m = driver.prepare()
    names = [n for n in public(m) if n in post.POST and re.search(rx, n)]
    anchor(len(names), anchors, 'of the specified operations are left in the library')
    sweep(rep, jobs_for(m, names, ['std'], ('post',), extra={'exact': 1}), ('post',))
    rep.cov['operations_specified'] = len(names)
    rep.explain = 'on every return path the resulting length, capacity, element positions and result value are compared with the operation\'s documented effect as a function of the entry state, for symbolic lengths, positions and contents'
    rep.assume = A_COMMON

def shorts(m, rx, tier, hooks=()):
    """short texts, byte by byte"""
    names = [n for n in public(m) if n in small.REF and re.search(rx, n)]
    return names, [j for al in (('none',) if tier == 'quick' else ('none', 'A')) for j in small.jobs(m, names, al, hooks)]

def short_check(rep, rx, anchors, tier, kinds=('post', 'refused', 'endless')):
    m = driver.prepare()
    names, js = shorts(m, rx, tier, ('noleak',))
    anchor(len(names), anchors, 'of the operations specified byte by byte are left in the library')
    R = sweep(rep, js, kinds)
    rep.cov['operations_specified_bytewise'] = len(names)
    rep.cov['length_combinations'] = len(js)
    return R
SHORTS = 'for the byte-by-byte part: texts of up to four bytes per argument, every byte an arbitrary character 1..127, and texts of some hundred bytes whose bytes come from one class of characters'

@check('P04')
def p04(tier, rep):
    post_check(rep, r'^vt_(vec|plist|span|array)', 40)
    short_check(rep, r'^vt_(vec|plist)_', 20, tier)
    rep.explain += '; vectors and pointer lists with up to four given elements (arbitrary bytes, repeated pointers) are also compared element by element with the same operation on a plain list'
    rep.assume = A_COMMON + ['for the element-by-element part: up to four elements of up to three bytes, 300 elements of one byte, 40 of 48 bytes, 300 pointers']

@check('P14')
def p14(tier, rep):
    post_check(rep, r'^vt_(str|path)', 40)
    short_check(rep, r'^vt_str_', 40, tier)
    rep.explain += '; for operations whose effect depends on what the bytes are (case, classes, searching, splitting, joining, stripping) the resulting text is compared byte by byte with the documented one for short texts of abstract bytes'
    rep.assume = A_COMMON + [SHORTS]

@check('P20')
def p20(tier, rep):
    short_check(rep, r'^vt_path_', 6, tier)
    rep.explain = 'the path functions are analysed on short paths of abstract bytes (separator, tilde, backslash and other characters told apart only where the code or the specification asks); the resulting text, result and, for directory creation, the sequence of paths asked for and created is compared with the documented one'
    rep.assume = A_COMMON + [SHORTS, 'HOME absent, empty or of up to three bytes']

@check('P15')
def p15(tier, rep):
    short_check(rep, r'^vt_datetime_', 24, tier, ('post', 'rounding', 'refused'))
    rep.explain = 'the date functions are analysed on dates whose fields are arbitrary numbers and on texts of abstract bytes; the fields or text produced, the broken-down time handed to mktime and the way its answer is used are compared with the documented ones; days per month and year with the Gregorian rule (leap years decided on residues of an arbitrary year)'
    rep.assume = A_COMMON + ['texts of the template length and one byte shorter or longer; field ranges as listed in engine/dt.py', 'mktime, localtime, time, strftime, asctime and sscanf behave as the C standard says (engine/dt.py); floating-point arithmetic is treated as exact, its rounding is a finding of its own']

@check('P16')
def p16(tier, rep):
    post_check(rep, r'^vt_index_', 4)
    short_check(rep, r'^vt_(cmp|math|conv)_', 55, tier)
    rep.explain = 'index conversions as formulas over arbitrary rows, columns and extents; comparison helpers on arbitrary numbers; interpolation and closeness as formulas over their arguments; palindromes on numbers given by arbitrary decimal digits, divisors on unknown multiples of coprime pairs; text to number on texts of abstract bytes, number to text on arbitrary numbers: the result is compared with the documented one'
    rep.assume = A_COMMON + ['texts of up to four bytes, bytes 1..127', 'floating-point arguments range over whole numbers and arithmetic is exact', 'strtol, strtod and snprintf behave as the C standard says']

@check('P17')
def p17(tier, rep):
    short_check(rep, r'^vt_(log|debug_assert|debug_printf)', 4, tier)
    rep.explain = 'every call of the log and debug functions, alone and after calls that redirect or silence the output, is followed to its return or to exit; what was printed (piece by piece, per stream), which files were opened and how, and whether the program ends is compared with the documented line'
    rep.assume = A_COMMON + ['texts of up to two arbitrary bytes, message formats with plain text and %s; line numbers and times arbitrary', 'fopen succeeds or fails; printf-like functions print what the C standard says']
@check('P23')
def p23(tier, rep):
    short_check(rep, '^(%s)$' % '|'.join(mal.NAMES), 17, tier)
    post_check(rep, '^vt_(gswap|memcopy|memmove)$', 3)
    rep.explain = 'each operation of the tracking allocator is analysed on an allocator with zero to three tracked blocks of unknown sizes and unknown counters (the list full or not, every position): afterwards the list of blocks and every counter must be exactly those of the documented effect, so that by induction over calls the books agree with the blocks; the allocation wrappers also with a failing system allocator; memory primitives byte by byte'
    rep.assume = A_COMMON + ['at most three tracked blocks; the search loop treats longer lists alike', 'a block handed to realloc is tracked']

@check('P18')
def p18(tier, rep):
    short_check(rep, r'^vt_argopt_', 2, tier)
    rep.explain = 'option parsing is analysed on option tables of one or two options of every type, with and without earlier values, and argument lists whose texts consist of arbitrary bytes (also around fixed option names); result, every option value and what is printed are compared with a reference parse that branches on the same bytes; the help text is compared byte by byte'
    rep.assume = A_COMMON + ['up to four arguments of up to six bytes; option names fixed in each case', 'empty arguments, empty values and arguments starting with "=" are left open', 'strtol and strtod behave as the C standard says; numbers that do not fit the option\'s type are left open']

@check('P06')
def p06(tier, rep):
    m = driver.prepare()
    js = jobs_for(m, public(m, r'container/|system/path'), ['view'], ('view',), extra={'exact': 1})
    anchor(len(js), 30, 'operations take a string that can be a view')
    sweep(rep, js, MEM + ('view', 'view-write', 'affinity'), accept=lambda r, a: a['kind'] != 'view-write' or r.fn in valid.READS)
    rep.explain = 'every operation on a string is analysed with the string being a view of foreign storage: the storage is never released, exchanged or grown, growing operations are refused, queries do not write'
    rep.assume = A_COMMON

@check('P11')
def p11(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if n not in valid.SKIP]
    anchor(len(names), 200, 'public functions left')
    top = max(spec.LOGLV.values())
    sweep(rep, [j for j in jobs_for(m, names, ['std'], ('valid', 'noleak'), extra={'exact': 1}) if j[1].get('lvl') != top] + trees(m, ('valid', 'noleak')) + shorts(m, '', tier, ('noleak',))[1], ('refused', 'post'), accept=lambda r, a: a['kind'] == 'refused' or a['msg'] == 'ends the program')
    rep.explain = 'from entry states inside the documented domain no path reaches an assertion, abort or exit; the same for short texts of abstract bytes wherever the documented result is defined'
    rep.assume = A_COMMON + [SHORTS]
    rep.cov['functions_excluded'] = len(valid.SKIP)

@check('P12')
def p12(tier, rep):
    m = driver.prepare(); n0 = 0
    names = [n for n in public(m) if n not in valid.SKIP]
    js = [j for k in range(7) for j in jobs_for(m, names, ['std'], ('invalid', 'noleak'), extra={'exact': 1, 'neg': k}) if j[1].get('lvl') is None]
    R = sweep(rep, js, ('accepted',) + MEM)
    rep.cov['preconditions_checked'] = len(set((r.fn, r.extra.get('tag')) for r in R if r.extra.get('tag')))
    anchor(rep.cov['preconditions_checked'], 100, 'preconditions found')
    rep.explain = 'with exactly one precondition broken (position outside, zero count or size, text empty or too long, buffer too short, unknown strategy) no path returns to the caller'
    rep.assume = A_COMMON

@check('P09')
def p09(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if n in osx.MUST]
    anchor(len(names), 34, 'functions that make system calls left')
    sweep(rep, jobs_for(m, names, ['std'], ('os', 'noleak'), extra={'exact': 1}), ('report', 'post'))
    rep.cov['operations_specified'] = len(names)
    rep.explain = 'for every combination of outcomes of the system calls on a path the reported result is compared with them; the arguments of each call are compared with the caller\'s, and the writers\' open mode, text and line end with the documented ones'
    rep.assume = A_COMMON

def nets(m, names):
    out = []
    for j in jobs_for(m, names, ['std'], ('net', 'noleak'), extra={'exact': 1}):
        out += [(j[0], dict(j[1], port=p)) + tuple(j[2:]) for p in net.PORTS] if j[0] in ('vt_socket_make_address', 'vt_socket_startup_server') else [j]
    return out

@check('P21')
def p21(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if n in net.NAMES]
    anchor(len(names), 10, 'network operations left')
    sweep(rep, nets(m, names), ('post',))
    rep.cov['operations_specified'] = len(names)
    rep.explain = 'on every path through a network operation, for every combination of outcomes of the system calls, the arguments of each call (descriptor, family, kind, port, host, length, backlog, waiting time, awaited event, contents of the address structures) are compared with the caller\'s, and the value and the sender\'s address handed back with what the system answered'
    rep.assume = A_COMMON + ['htons and inet_addr are uninterpreted functions (htons is evaluated on the constant ports tried besides the arbitrary one)']

@check('P19')
def p19(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if n in tree.NAMES]
    anchor(len(names), 3, 'directory tree functions left')
    sweep(rep, trees(m, ('noleak',)), ('outside', 'post'))
    rep.cov['trees'] = len(tree.CASES)
    rep.explain = 'the functions are analysed on an arbitrary path under which the system shows a given small tree (kinds and names of entries); every path handed to opendir, remove, rmdir and unlink must be the given path or the given path, separator and an entry of the tree, and the listed or removed nodes must be exactly those of the tree, contents before directories'
    rep.assume = A_COMMON + ['trees of up to two entries per directory and two levels; longer directories repeat the same loop iteration']

@check('P24')
def p24(tier, rep):
    m = driver.prepare()
    names = [n for n in public(m) if n in fsq.NAMES]
    anchor(len(names), 10, 'functions about a single path left')
    js = [j for c in fsq.KINDS for j in jobs_for(m, names, ['std'], ('fsq', 'noleak'), extra={'exact': 1, 'fs': c})]
    sweep(rep, js, ('post',))
    rep.cov['kinds_of_file'] = len(fsq.KINDS)
    rep.explain = 'the functions are analysed on an arbitrary path that names nothing, a file, a directory, a pipe or a link to one of these, every system call succeeding or failing where it can: the answer, the calls that change something and their operands, and the reported success are compared with what is there'
    rep.assume = A_COMMON + ['the file system does not change between two calls of one function', 'answers obtained other than through stat, lstat and access are left open']

@check('P13')
def p13(tier, rep):
    if ONLY is not None and len(ONLY) != 1: return
    c = rep.cov; c['call_sites'] = c['arguments'] = 0; fns = set()
    for v in ((), ('-DNDEBUG',)):
        driver.prepare((v,)); m = driver._mods[v]
        own, sites, args = fmt.check(m, rep)
        anchor(sites, 300 if not v else 60, 'formatting call sites found')
        anchor(len(own), 8, 'formatting functions of the library found')
        c['call_sites'] += sites; c['arguments'] += args; fns |= set(own)
        if not v:
            n, broken = fmt.typed(m, own, rep); c['files_type_checked'] = n
            rep.undecided += broken
    c['formatting_functions'] = sorted(fns)
    seen = set(); rep.violations = [x for x in rep.violations if not ((x['file'], x['line'], x['msg']) in seen or seen.add((x['file'], x['line'], x['msg'])))]
    rep.explain = 'at every call of a printf- or scanf-like function (the C library\'s, and those of this library that forward a parameter as a format) the format is a constant or the forwarding function\'s own format parameter, and the number and types of its conversions are those of the arguments; in the default and the release build'
    rep.assume = ['signedness of an integer argument is not compared', 'x86-64 argument classes']
