#!/usr/bin/env python3
"""Observed / required counters of the last runs"""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for path in sorted(glob.glob(ROOT + '/checks/c[0-9]*.py')):
    req = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id == 'REQUIRE' if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) else False:
            req = ast.literal_eval(node.value)
    pid = os.path.basename(path)[:3].upper()
    cov = json.load(open('%s/evidence/%s.json' % (ROOT, pid)))['coverage']
    have = dict(cov['observed'], distinct_nontrivial=cov['distinct_nontrivial'], **cov['distinct'])
    rows = sorted((have.get(k, 0) / v, k, have.get(k, 0), v) for k, v in req.items())
    print(pid, ' '.join('%s %d/%d' % r[1:] for r in rows[:3]), '<<<' if rows and rows[0][0] < 1.4 else '')
