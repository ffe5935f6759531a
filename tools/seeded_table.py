#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Bugs that the checks of their time missed, and what was done.
MISSED = {
    'c19-trim': 'missed at first; `wide-texts` added',
    'c09-reseed': 'missed at first; `no-repetition` added',
    'c16-double-ignored': 'missed at first; `failing-signers` added',
    'c13-slot-by-field': 'missed at first; more definitions added',
    'c14-option-suffix': 'missed at first; more definitions added',
    'c20-poison': 'missed at first; `every-failure`, `long-history`, `all-inside` added',
}
MARK = '<!-- table -->\n'
rows = ['| id | needs | breaks | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = f.split('/')[-2]
    note = m['property'] + (' (' + MISSED[i] + ')' if i in MISSED else '')
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'], m['what_it_breaks'], note))
p = ROOT + '/DESIGN.md'
s = open(p).read().split(MARK)[0]
open(p, 'w').write(s + MARK + '\n'.join(rows) + '\n')
