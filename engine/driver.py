"""Runs the abstract interpreter on entry functions x entry configurations, in parallel worker processes."""
import os, sys, time, signal, traceback, multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import ir, poly, models, spec, contracts
from absint import Budget, NULL, Ptr, C
from spec import VI, make_entry, check_cont, API

NPROC = min(8, os.cpu_count() or 1)
_mods = {}
DEADLINE = time.time() + 660  # of the whole check

class Result:
    """what one analysis job found (picklable)"""
    def __init__(self, fn, cfg, variant):
        self.fn = fn; self.cfg = cfg; self.variant = variant; self.alarms = []; self.obl = self.proved = self.rets = self.insts = 0
        self.status = 'ok'; self.note = ''; self.wall = 0.0; self.traps = []; self.unmodelled = []; self.visited = []; self.extra = {}

def prepare(variants=((),)):
    for v in variants:
        if v not in _mods: _mods[v] = ir.load_module(v)
    spec.set_layout(_mods[variants[0]])
    m = _mods[variants[0]]
    missing = [n for n in API if n not in m.fns]
    if len(missing) > len(API) // 20: raise ir.Broken('%d of %d public functions are gone' % (len(missing), len(API)))
    return m

class _T(Exception): pass
def _onalrm(*a): raise Budget('time limit')

def job(args):
    """(function, cfg, variant, hooks, limit seconds): first with disjunctions kept apart, then, where that takes too long, joined"""
    t0 = time.time(); limit = min(args[4], DEADLINE - t0)
    if limit < 1:
        R = Result(args[0], args[1], args[2]); R.status = 'undecided'; R.note = 'deadline of the whole check'; return R
    R = _job(args[:4] + (min(limit, 10),), None)
    if R.status == 'undecided' and R.note == 'time limit':
        R = _job(args[:4] + (limit,), -1)
    R.wall = time.time() - t0
    return R
def _job(args, keep):
    fname, cfg, variant, hooks, limit = args
    m = _mods[variant]; R = Result(fname, cfg, variant); t0 = time.time()
    f = m.fns.get(fname)
    if f is None: R.status = 'gone'; return R
    poly.reset_syms()
    signal.signal(signal.SIGALRM, _onalrm); signal.setitimer(signal.ITIMER_REAL, limit)
    I = None
    try:
        I = VI(m, dict(models.M)); I.kinds = dict(contracts.KINDS); I.cfg = cfgname(cfg, variant)
        hk = [h() for h in (HOOKS[x] for x in hooks)]
        for h in hk: h.setup(I, f, cfg)
        if keep is not None: I.MAXKEPT = keep
        e = make_entry(I, f, cfg, contracts.TABLE)
        e.ghost0 = set(e.st.ghost); e.st0 = e.st.fork()
        for h in hk: h.entry(I, e)
        rets = [x for st in [e.st] + list(getattr(e, 'more', ())) for x in I.call(f, e.vals, None, st)]
        R.rets = len(rets)
        I.stack = [fname]
        if 'noleak' not in hooks:
            own = set(getattr(e, 'owned', ())); held = [(i['c'].hdr, i['c'].buf) for i in e.params if i['kind'] == 'cont' and not i['c'].view and cfg.get('nullbuf') is None]
            for s, rv in rets:
                I.find_leaks(s, e.entry_regs, [rv] + list(e.vals), 'on return', e.ghost0)
                I.find_dropped(s, own | {b for h, b in held if h in s.reg and s.reg[h].live}, [rv] + list(e.vals), 'on return')
        carries = cfg.get('al') == 'A' and any(p['kind'] in ('cont', 'alloctr') and p.get('val') is not NULL for p in e.params)
        for s, rv in rets:
            if carries:
                for k, r0 in s.reg.items():
                    if k in e.entry_regs or r0.kind != 'heap' or not r0.live: continue
                    I.obl += 1
                    if cfg.get('mixed') == 'rest':
                        if r0.origin != 'libc': I.alarm('affinity', '%s obtained at %s:%s outlives the call and comes from the allocator of another argument than the one the operation works on' % ((r0.name,) + tuple(r0.site or ('?', 0))), s)
                        else: I.proved += 1
                    elif r0.origin == 'libc': I.alarm('affinity', '%s obtained at %s:%s outlives the call and comes from the C heap although every argument carries an allocator' % ((r0.name,) + tuple(r0.site or ('?', 0))), s)
                    else: I.proved += 1
            for p in e.params:
                if p['kind'] == 'cont' and not cfg.get('nullbuf'): check_cont(I, s, p['c'].hdr, p['c'].kind, 'on return, ' + p['name'])
            r = I.resolve(s, rv) if rv is not None else None
            ck = RETC.get(spec.strip_c(m.param_types(f)[0] or ''))
            if ck and isinstance(r, Ptr) and r.off.const() == 0 and not cfg.get('nullbuf'): check_cont(I, s, r.r, ck, 'returned container')
            if ck is None and f.params and 'sret' in f.params[0][2]:
                ck2 = RETC.get(spec.strip_c(m.param_types(f)[0] or '') + '*')
                if ck2 and e.params[0].get('rid') in s.reg: check_cont(I, s, e.params[0]['rid'], ck2, 'returned container')
            for rid, (rows, m2) in I.rowglobals.items():
                if rid in s.reg:
                    for k in range(rows):
                        I.obl += 1
                        if I.covers(s, s.reg[rid], C(m2 * k + m2 - 1), C(m2 * k + m2), ('const', 0)): I.proved += 1
                        else: I.alarm('inv-row', 'row %d of %s may lose its terminating NUL' % (k, s.reg[rid].name), s)
            for h in hk: h.ret(I, e, s, rv)
        for h in hk: h.end(I, e, rets, R)
    except Budget as x: R.status = 'undecided'; R.note = str(x)
    except ir.Broken as x: R.status = 'undecided'; R.note = str(x)
    except (RecursionError, KeyError, TypeError, AttributeError, AssertionError, ValueError, IndexError) as x:
        R.status = 'undecided'; R.note = 'engine: %s %s' % (type(x).__name__, traceback.format_exc(limit=-3)[-400:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    if I is not None:
        R.obl = I.obl; R.proved = I.proved; R.insts = I.insts; R.visited = sorted(I.visited); R.unmodelled = sorted(I.unmodelled)
        for a in I.alarms.values():
            R.alarms.append(dict(kind=a.kind, fn=a.fn, file=a.file, line=a.line, msg=a.msg, stack=list(a.stack), cfg=a.cfg, imp=a.imp, entry=fname, extra=a.extra if isinstance(a.extra, (tuple, str, int, list)) else None))
        R.traps = [(k, fn, loc) for k, fn, loc, st, stack in I.trap_log]
    return R

RETC = {'vt_str_t*': 'str', 'vt_vec_t*': 'vec', 'vt_plist_t*': 'plist', 'struct VitaBaseArrayType*': None}
HOOKS = {}
class Hook:
    def setup(self, I, f, cfg): pass
    def entry(self, I, e): pass
    def ret(self, I, e, s, rv): pass
    def end(self, I, e, rets, R): pass
HOOKS['noleak'] = Hook
class NoCut(Hook):
    """an access outside its object is not assumed away: what the call leaves behind is still judged"""
    def setup(self, I, f, cfg): I.nocut = True
HOOKS['nocut'] = NoCut

def expand(fn, cfg, variant=(), hooks=()):
    """the entry configurations of one function: some parameters are enumerated"""
    if fn == 'vt_argopt_parse':
        out = []
        for ty in contracts.ARGT:
            for fr in ((True, False) if ty in ('STR', 'CSTR') else (True,)):
                for argc in ((2, 3) if ty in ('INT32', 'BOOL', 'STR', 'CSTR') else (2,)):
                    c = dict(cfg); c.update(opttype=ty, fresh=fr, argc=argc); out.append((fn, c, variant, hooks))
        return out
    if fn in ('vt_log', 'vt_log_redirect_level_output', 'vt_log_get_level_str'):
        n = max(v for k, v in spec.LOGLV.items())
        return [(fn, dict(cfg, lvl=k), variant, hooks) for k in range(n + 1)]
    return [(fn, cfg, variant, hooks)]

def cfgname(cfg, variant):
    s = {'none': 'libc heap', 'A': 'custom allocator'}.get(cfg.get('al'), str(cfg.get('al')))
    for k in cfg:
        if k != 'al': s += ', %s=%s' % (k, cfg[k])
    if variant: s += ', ' + ' '.join(variant)
    return s

def run_jobs(jobs, limit=120):
    jobs = [(j + ((),) * (4 - len(j)))[:4] + (limit,) for j in jobs]
    # longest first
    slow = {'vt_path_mkdir_parents': 9, 'vt_str_strip_c': 8, 'vt_path_rmdir_recurse': 8, 'vt_path_dir_list_recurse': 7, 'vt_str_replace': 6, 'vt_str_split': 6, 'vt_path_build_n': 5, 'vt_path_build': 5}
    jobs.sort(key=lambda j: -slow.get(j[0], 0))
    if NPROC == 1 or len(jobs) < 3: return [job(j) for j in jobs]
    ctx = mp.get_context('fork')
    with ctx.Pool(NPROC) as p:
        return p.map(job, jobs, chunksize=1)
