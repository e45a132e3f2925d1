#!/usr/bin/env python3
"""Writes MANIFEST.json from the plans."""
import json
import sys
from pathlib import Path
R = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R))
from vlib.plans import PLANS  # noqa: E402
from vlib.notapplicable import REASONS  # noqa: E402

props = [json.loads(x) for x in (R / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLANS:
        pl = PLANS[i]('quick')
        kinds = sorted({j.kind for j in pl.jobs})
        tech = {('cxx',): 'symbolic execution of the C++ sources on solver-backed types, each assertion decided by z3',
                ('py',): 'symbolic execution of the Python sources on solver-backed values, each assertion decided by z3',
                ('cxx', 'py'): 'symbolic execution of the C++ and Python sources on solver-backed values, each assertion decided by z3'}[tuple(kinds)]
        note = ('Holds for all values within the stated bounds on every path followed; bounds: '
                + '; '.join(f'{k}: {v}' for k, v in pl.bounds.items()) + '. Assumes: ' + '; '.join(pl.assumptions)
                + '. Trusts z3, the compiler or interpreter, and the solver-backed types; counterexamples are replayed on ordinary values.')
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} quick', thorough_cmd=f'python3 check.py {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=tech, level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=REASONS.get(i, 'No check has been built yet.')))
m = dict(version=1, setup_cmd='python3 check.py --selfcheck', checks=checks, not_applicable=na)
(R / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
