#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/plan.py."""
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from plan import MODELS, PLAN  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl')) if x.strip()]
checks = []
for p in props:
    pl = PLAN[p['id']]
    ms = pl['models']['quick']
    checks.append(dict(
        property=p['id'],
        quick_cmd=f"python3 check.py {p['id']} quick",
        thorough_cmd=f"python3 check.py {p['id']} thorough",
        technique='TLA+ specification, model checked with TLC; trace validation of recorded executions of the real '
                  'code against it (TLC)',
        level=pl['level'],
        level_note=pl.get('note') or (
            'Exhaustive within small bounds on the specification side (' + ', '.join(MODELS[m]['module'] for m in ms) +
            '); on the implementation side every recorded execution is checked by TLC, which is exploration: '
            'assurance is as good as the histories generated.  Trusts TLC, its Java operator overrides and the '
            'recorder (harness/).')))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
           notes='No hooks in /repo. Specification in TLA+, under spec/; see DESIGN.md.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
