#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import PROPS, NA

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NA:
            q = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['for']),
                     why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p.get('obs', []), hook_needed=None))
            assert len(q['title']) <= 80, q['title']
            assert q['statement'].count('. ') <= 2, q['id']
            f.write(json.dumps(q) + '\n')
    man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[], not_applicable=[])
    for p in PROPS:
        man['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'], thorough_cmd='python3 check.py %s thorough' % p['id'],
                                  technique=p['tech'], level='other', level_note=p['note']))
    for p in NA: man['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
    man['notes'] = 'One engine (engine/): clang compiles the current tree to LLVM IR (no code of the repository is ever run); an abstract interpreter (polyhedral numeric domain, region memory model with ownership and content facts, bounded trace partitioning, inductive loop summaries) and IR queries decide the properties. See DESIGN.md.'
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(man, f, indent=1); f.write('\n')
main()
