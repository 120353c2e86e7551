#!/usr/bin/env python3
"""Writes seeded/<id>/ from the bugs below, confirms each in /repo's working tree, and records what the checks say.

make.py [id ...]        generate, confirm (tests pass, demo 0 -> nonzero), run the property's check
make.py --all-checks id run every check against it
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = '/repo'
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
    """edits: list of (file under scrappybara/, old, new)"""
    BUGS.append(dict(id=bid, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def reset():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --porcelain').stdout.strip()


def generate(b):
    folder = os.path.join(VERIF, 'seeded', b['id'])
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    reset()
    for fn, old, new in b['edits']:
        path = os.path.join(REPO, 'scrappybara', fn)
        text = open(path, encoding='utf-8').read()
        assert text.count(old) == 1, (b['id'], fn, text.count(old), old)
        open(path, 'w', encoding='utf-8').write(text.replace(old, new))
    diff = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True).stdout
    reset()
    with open(os.path.join(folder, 'patch.diff'), 'wb') as f:
        f.write(diff)
    with open(os.path.join(folder, 'meta.json'), 'w') as f:
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, f, indent=1)
        f.write('\n')
    shutil.copy(os.path.join(HERE, 'common.py'), folder)
    with open(os.path.join(folder, 'demo.py'), 'w', encoding='utf-8') as f:
        f.write('from common import *\n\n' + b['demo'].strip('\n') + '\n')
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
    return folder


def confirm(b, checks):
    folder = generate(b)
    row = {}
    r = sh('bash %s/demo.sh' % folder, cwd=REPO)
    if r.returncode:
        return {'bad': 'demo fails on the clean tree: ' + (r.stdout + r.stderr)[-1500:]}
    try:
        r = sh('git -C /repo apply %s/patch.diff' % folder)
        assert r.returncode == 0, r.stderr
        sh('bash /opt/vp/test.sh /tmp/bugtest.json')
        passed = json.load(open('/tmp/bugtest.json'))
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        names = passed.get('passed', passed)
        missing = [s for s in stable if s not in names]
        if missing:
            return {'bad': 'tests fail: %s' % missing[:5]}
        r = sh('bash %s/demo.sh' % folder, cwd=REPO)
        row['demo'] = r.returncode
        if r.returncode == 0:
            return {'bad': 'demo passes with the bug'}
        row['demo_out'] = (r.stdout + r.stderr)[-300:]
        for c in checks:
            r = sh('/opt/venv/bin/python %s/run.py %s' % (VERIF, c), cwd=VERIF)
            row[c] = r.returncode
            if r.returncode == 1 and 'VIOLATION property=%s ' % c not in r.stdout:
                row[c] = 'exit 1 without line'
            if r.returncode == 2:
                row[c + '_out'] = r.stdout[-800:]
    finally:
        reset()
    return row


def main():
    import glob
    for fn in sorted(glob.glob(os.path.join(HERE, 'b_*.py'))):
        exec(compile(open(fn, encoding='utf-8').read(), fn, 'exec'), {'bug': bug})
    args = sys.argv[1:]
    allc = '--all-checks' in args
    ids = [a for a in args if not a.startswith('--')]
    for b in BUGS:
        if ids and b['id'] not in ids and b['property'] not in ids:
            continue
        if '--generate' in args:
            generate(b)
            continue
        checks = ['C%02d' % i for i in range(1, 36)] if allc else [b['property']]
        row = confirm(b, checks)
        print(b['id'], b['property'], json.dumps(row) if 'bad' in row or allc else
              '%s' % {k: v for k, v in row.items() if k != 'demo_out'}, flush=True)


if __name__ == '__main__':
    main()
