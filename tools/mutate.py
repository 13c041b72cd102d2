#!/usr/bin/env python3
"""mutate.py FILE [FUNCTION-REGEX] [-n MAX] [-j JOBS]: development aid.  Makes small source mutants of one library file in scratch copies,
asks the engine about the mutated function only, and lists the mutants that no check reports although the test suite passes with them."""
import sys, os, re, subprocess, json, shutil, random, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
def mutants(path, rx):
    t = open(path).read(); L = t.split('\n'); out = []
    fn = None; depth = 0
    for i, l in enumerate(L):
        m = re.match(r'^[a-zA-Z_][\w \*]*?\*?\b(\w+)\(.*\{\s*$', l)
        if m: fn = m.group(1); continue
        if l.startswith('}'): fn = None
        if not fn or (rx and not re.search(rx, fn)): continue
        s = l.strip()
        if not s or s.startswith(('//', '/*', '*', '#')) or 'VT_DEBUG_PRINTF' in s or s.startswith('"'): continue
        ind = l[:len(l) - len(l.lstrip())]
        code = l.split('//')[0]
        def add(new, kind):
            if new != l: out.append((fn, i, l, new, kind))
        ops = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\+\+', '--'), (r'->len\b', '->capacity'), (r'->capacity\b', '->len'), (r' \* \w+->elsize', ''), (r' \+= ', ' = '), (r' -= ', ' = '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\+ 1\b', '+ 2'), (r'= 0;', '= 1;'), (r'\balloctr\b(?=[,)])', 'NULL'), (r"'\\0'", "' '")]
        for a, b in ops:
            for mm in re.finditer(a, code): add(l[:mm.start()] + b + l[mm.end():], '%s->%s' % (a, b))
        if re.match(r'^[\w\->\[\]\*\(\)\. ,&+"\'\\]+(=|\().*;$', s) and not re.match(r'^(return|const|size_t|int|char|vt_|bool|u?int|struct|void|enum|FILE|for|if|while)\b.*[\w\*]+ \*?\w+ =', s) and not s.startswith(('return', 'for', 'if', 'while', 'VT_DEBUG_ASSERT')) and not re.match(r'^(const |size_t |int\w* |char |bool |u?int\d|struct |FILE |vt_\w+_t )', s):
            add(ind + ';', 'delete')
        if s.startswith('VT_DEBUG_ASSERT') or s.startswith('VT_ENFORCE'):
            if s.endswith(');'): add(ind + ';', 'delete-assert')
        m = re.match(r'^return (.*);$', s)
        if m and m.group(1) not in ('NULL', 'true', 'false', '0'):
            add(ind + 'return 0;', 'return 0')
        if re.match(r'^(if|while) \((.*)\) \{$', s):
            mm = re.match(r'^(if|while) \((.*)\) \{$', s); 
            if mm.group(1) == 'if': add(ind + 'if (0 && (%s)) {' % mm.group(2), 'never'); add(ind + 'if (1 || (%s)) {' % mm.group(2), 'always')
        m = re.match(r'^(.*\b(?:mem\w+|vt_mem\w+|strn?cpy|strn?cmp)\()([^,]+), ([^,]+), (.+)\);', s)
        if m: add(ind + '%s%s, %s, (%s) - 1);' % m.groups(), 'one byte less')
    return out
WORK = r'''
import sys, json, time; sys.path.insert(0, %r)
import driver, checks, post, ir, re
driver.NPROC = 1
import os
fn = sys.argv[1]
m = driver.prepare()
names = [fn] if fn in driver.API else []
if not names:
    call = {}
    for n, f in m.fns.items():
        s = set()
        for b in f.blocks.values():
            for i in b.insts:
                if i.op == 'call': 
                    for x in re.findall(r"'g', '@?([\w.]+)'", repr(i.a[0])): s.add(x)
        call[n] = s
    def reach(n, seen):
        for x in call.get(n, ()):
            if x not in seen: seen.add(x); reach(x, seen)
        return seen
    names = [n for n in sorted(driver.API) if n in m.fns and fn in reach(n, set())][:8]
checks.ONLY = set(names)
hit = []; und = []
for p in checks.REG:
    rep = checks.Report(); driver.DEADLINE = time.time() + 120
    checks.REG[p]('quick', rep)
    hit += [(p, v['kind'], v['msg'][:80]) for v in rep.violations]; und += [x for x in rep.undecided if 'widened' not in x]
    if hit: break
print(json.dumps(dict(hit=hit[:2], und=und[:2])))
''' % (W + '/engine')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def one(a):
    k, rel, (fn, i, old, new, kind) = a
    d = '%s/m%05d' % (W, k)
    sh('mkdir -p %s && cp -a /repo/src /repo/inc /repo/CMakeLists.txt /repo/tests %s/' % (d, d))
    try:
        p = d + '/' + rel; L = open(p).read().split('\n'); L[i] = new; open(p, 'w').write('\n'.join(L))
        r = sh('gcc -std=gnu11 -w -fsyntax-only -I%s/inc %s' % (d, p))
        if r.returncode: return None
        r = sh('timeout 300 python3 %s/w.py %s' % (W, fn), env=dict(os.environ, VITA_REPO=d))
        try: x = json.loads(r.stdout.strip().split('\n')[-1])
        except Exception: x = dict(hit=[], und=[('engine', r.stderr[-200:])], n=0)
        if x['hit']: return (fn, i, old, new, kind, 'caught', x)
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/repo', d).replace('/opt/vp/build.sh', d + '/build.sh'); open(d + '/' + s, 'w').write(t)
        sh('timeout 300 bash %s/test.sh %s/o.json' % (d, d))
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('passing') or json.load(open('/opt/vp/BASELINE.json')).get('stable') or [])
        rep = open(d + '/_build/results.txt').read() if os.path.exists(d + '/_build/results.txt') else ''
        ok = set(re.findall(r'PASS (\S+)', rep))
        if not STABLE <= ok: return (fn, i, old, new, kind, 'tests fail', x)
        return (fn, i, old, new, kind, 'SURVIVES', x)
    finally:
        shutil.rmtree(d, ignore_errors=True)
STABLE = set(x.split('::')[-1] for x in re.findall(r'test_\w+', open('/opt/vp/BASELINE.json').read()))
def main():
    a = sys.argv[1:]; n = 10**9; j = 8
    if '-n' in a: q = a.index('-n'); n = int(a[q + 1]); del a[q:q + 2]
    if '-j' in a: q = a.index('-j'); j = int(a[q + 1]); del a[q:q + 2]
    rel = a[0]; rx = a[1] if len(a) > 1 else None
    os.makedirs(W, exist_ok=True); shutil.rmtree(W + '/engine', ignore_errors=True); shutil.copytree(V + '/engine', W + '/engine'); open(W + '/w.py', 'w').write(WORK)
    M = mutants('/repo/' + rel, rx); random.Random(7).shuffle(M); M = M[:n]
    print(len(M), 'mutants', flush=True)
    cnt = {}
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, [(k, rel, m) for k, m in enumerate(M)]):
            if r is None: cnt['does not compile'] = cnt.get('does not compile', 0) + 1; continue
            cnt[r[5]] = cnt.get(r[5], 0) + 1
            if r[5] == 'SURVIVES': print('%s:%d %s [%s]\n   - %s\n   + %s   %s' % (rel, r[1] + 1, r[0], r[4], r[2].strip(), r[3].strip(), r[6]['und'] or ''), flush=True)
    print(cnt)
main()
