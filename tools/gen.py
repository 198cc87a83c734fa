#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from pvc/props.py and the registered contracts."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
from pvc import props, run   # noqa: E402

run.load_contracts('C01')
TECH = 'contracts on the extracted code, verified by symbolic execution (exact normal forms, z3, cvc5)'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in props.P:
    i = p['id']
    cs = run.REGISTRY.get(i)
    if not cs:
        na.append(dict(property=i, reason=props.NA_REASON.get(i, 'no contract yet')))
        continue
    m = props.META[i]
    b = [c.bounded for c in cs if c.bounded]
    note = m['note'] or (
        'Every postcondition is discharged for all inputs satisfying the preconditions, on the code '
        'extracted from /repo at each run; real arithmetic instead of floating point; the engine, '
        'z3 and cvc5 are trusted.')
    if b:
        note += ' Bounded parts: ' + '; '.join(sorted(set(b))) + '.'
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i,
                       thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH, level=m['level'],
                       level_note=note))
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
           notes='See DESIGN.md. No hooks: the checks read the sources of /repo as they are.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', len(na), 'not applicable')
