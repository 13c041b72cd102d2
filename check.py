#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current tree."""
import sys, os, json, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VITA_EVIDENCE', os.path.join(HERE, 'evidence'))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.setrecursionlimit(10000)

def known(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                out.append(l.split('key=', 1)[1])
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    import ir, checks
    rep = checks.Report()
    try:
        checks.REG[pid](tier, rep)
    except ir.Broken as e:
        print('ANALYSIS-BROKEN property=%s: %s' % (pid, e)); return 2
    kn = known(pid); viol = []; shown = set()
    for v in rep.violations:
        key = '%s|%s|%s' % (v['kind'], v.get('entry', ''), v['fn'])
        v['key'] = key
        hit = [k for k in kn if k.split(' :: ')[0].strip() == key]
        if hit:
            if key not in shown: print('KNOWN-FINDING: property=%s %s: %s' % (pid, key, hit[0])); shown.add(key)
        else: viol.append(v)
    for f in os.listdir(os.path.join(EVID, 'replay')):
        if f.startswith(pid + '-'): os.unlink(os.path.join(EVID, 'replay', f))
    cov = dict(rep.cov)
    cov['explanation'] = rep.explain
    cov['undecided'] = rep.undecided[:60]
    cov['samples'] = rep.samples[:8]
    cov['known_findings'] = sorted(shown)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov, assumptions=rep.assume, wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(EVID, pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    n = 0
    for v in viol[:20]:
        n += 1
        rp = os.path.join(EVID, 'replay', '%s-%d.txt' % (pid, n))
        with open(rp, 'w') as f:
            f.write('property %s\nrule     %s\nwhere    %s:%s in %s\nentry    %s\nconfig   %s\npath     %s\nwhat     %s\nreplay   python3 check.py %s %s\n' % (pid, v['kind'], v['file'], v['line'], v['fn'], v.get('entry', ''), v.get('config', ''), ' > '.join(v.get('call_path', [])), v['msg'], pid, tier))
        print('%s:%s: %s: [%s] %s (entry %s; %s)' % (v['file'], v['line'], v['fn'], v['kind'], v['msg'], v.get('entry', ''), v.get('config', '')))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    print('%s %s: %s; %s; %.1fs' % (pid, tier, 'VIOLATED' if viol else 'held', ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int)), time.time() - t0))
    return 1 if viol else 0

if __name__ == '__main__':
    try: sys.exit(main())
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); sys.exit(2)
