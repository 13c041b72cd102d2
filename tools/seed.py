#!/usr/bin/env python3
"""seed.py FILE.py: plants the bugs described there (list BUGS), validates each in /repo (build, stable tests, demo) and keeps the valid ones in seeded/."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/vdemo.XXXXXX); trap 'rm -rf "$T"' EXIT
gcc -std=gnu11 -g -w %s -Iinc $(find src -name '*.c') "$here/demo.c" -lm -o "$T/demo" || exit 3
cd "$T"; %stimeout 60 ./demo </dev/null
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    only = set(sys.argv[2:])
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        assert not sh('git -C /repo status --porcelain').stdout.strip()
        d = '/tmp/seeds/' + b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/demo.c', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write(b.get('sh') or DEMO % (b.get('san', '-fsanitize=address,undefined -fno-sanitize-recover=undefined'), b.get('env', 'ASAN_OPTIONS=detect_leaks=%d ' % (1 if b.get('leak') else 0))))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = True; msg = ''
        if r0.returncode: ok = False; msg = 'demo fails on clean tree: ' + (r0.stdout + r0.stderr)[-800:]
        try:
            if ok:
                for f, old, new in b['edits']:
                    p = '/repo/' + f; t = open(p).read()
                    if t.count(old) != 1: ok = False; msg = '%s: %d matches of %r' % (f, t.count(old), old); break
                    open(p, 'w').write(t.replace(old, new))
            if ok:
                open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
                if sh('bash /opt/vp/build.sh').returncode: ok = False; msg = 'build fails: ' + sh('bash /opt/vp/build.sh').stdout[-800:]
            if ok:
                sh('bash /opt/vp/test.sh /tmp/seeds/r.json'); rs = open('/repo/_build/results.txt').read().split('\n')
                bad = [t for t in base if 'PASS ' + t not in rs]
                if bad: ok = False; msg = 'tests fail: %s' % bad
            if ok:
                r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
                if r1.returncode == 0: ok = False; msg = 'demo passes with the bug'
                elif r1.returncode == 3: ok = False; msg = 'demo does not compile ' + r1.stderr[-500:]
                else: msg = 'rc=%d %s' % (r1.returncode, (r1.stderr + r1.stdout).replace('\n', ' ')[:160])
        finally:
            sh('git -C /repo checkout -- .')
        print(b['id'], 'OK' if ok else 'REJECTED', msg, flush=True)
        if ok:
            t = os.path.join(V, 'seeded', b['id']); shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    sh('bash /opt/vp/build.sh')
main()
