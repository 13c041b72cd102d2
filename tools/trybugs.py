#!/usr/bin/env python3
"""trybugs.py [ids...]: applies each planted bug to /repo in turn, runs its property's check (or the ones named with -p P01,P02), undoes it."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]; props = None
if '-p' in a: i = a.index('-p'); props = a[i + 1].split(','); del a[i:i + 2]
for b in sorted(os.listdir(V + '/seeded')):
    if a and b not in a: continue
    d = V + '/seeded/' + b
    mp = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
    try:
        r = subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        if r.returncode: print(b, 'DOES NOT APPLY'); continue
        for p in props or [mp]:
            t = time.time(); r = subprocess.run(['python3', 'check.py', p, 'quick'], cwd=V, capture_output=True, text=True)
            L = [l for l in r.stdout.split('\n') if l.strip()]
            print(b, p, 'CAUGHT' if r.returncode == 1 and ('VIOLATION property=%s ' % p) in r.stdout else 'missed rc=%d' % r.returncode, '%.0fs' % (time.time() - t), L[0][:170] if L else r.stderr[-200:], flush=True)
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True, capture_output=True)
