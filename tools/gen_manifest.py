#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from registry import PROPS, CUSTOM, NOTES
TECH = 'stateless bounded-exhaustive model checking of the real code against an executable reference model'
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i in PROPS or i in CUSTOM:
        tech, note = NOTES.get(i, (TECH, ''))
        checks.append({
            'property': i,
            'quick_cmd': 'python3 bin/check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': tech or TECH, 'level': 'model_checking',
            'level_note': note or 'Exhaustive within the bounds of DESIGN.md; trusts the reference implementation in mc/core and the Rust toolchain.',
        })
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the checks only use public interfaces, and replace the system clock and entropy at the libc boundary of their own binaries.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
