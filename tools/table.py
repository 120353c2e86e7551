#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
found = collections.defaultdict(list)
for path in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    with open(path) as f:
        found[json.load(f)['property']].append(os.path.basename(os.path.dirname(path)))
path = os.path.join(ROOT, 'DESIGN.md')
with open(path, encoding='utf-8') as f:
    head = f.read().split('<!-- seeded -->')[0]
with open(path, 'w', encoding='utf-8') as f:
    f.write(head + '<!-- seeded -->\n| property | planted bugs |\n|---|---|\n')
    for prop in sorted(found):
        f.write('| %s | %s |\n' % (prop, ', '.join(b.split('-', 1)[1] if b.upper().startswith(prop) else b for b in found[prop])))
