#!/usr/bin/env python3
"""writes MANIFEST.json (run by hand when a check is added)"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import checks
ROOT = os.path.dirname(HERE)
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
TECH = ('explicit-state model checking: exhaustive exploration of all byte-arrival histories of a bounded input language, '
        'for every program of an exhaustively enumerated family of declarations, in product with a reference model; '
        'every state is validated against the real derived parser')
NOTE = ('Exhaustive within the bounds in DESIGN.md (enumerated declarations, input languages, knob values). Trusts the '
        'reference interpreter engine/src/model.rs (written from the documentation), rustc and nom.')
SPECIAL = {}
try:
    from notes import SPECIAL
except ImportError:
    pass
m = dict(version=1, setup_cmd='python3 run.py setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        t, n = SPECIAL.get(i, (TECH, NOTE))
        m['checks'].append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                                technique=t, level='model_checking', level_note=n))
    else:
        m['not_applicable'].append(dict(property=i, reason='check not built yet'))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
