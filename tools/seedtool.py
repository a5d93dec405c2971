#!/usr/bin/env python3
"""Development aid: confirm planted bugs in a scratch copy of the repository (never used by a check).

usage: seedtool.py SCRATCH ID...      SCRATCH is a `cp -a` of /repo outside /repo and /verif
prints, per bug: build / tests / demo on the unchanged and the changed tree / verdict of the property's check
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
mr = sys.argv[1]
base = json.load(open('/opt/vp/BASELINE.json'))


def sh(c, cwd=mr, **e):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, **e))
    return p.returncode, p.stdout


for i in sys.argv[2:]:
    d = os.path.join(HERE, 'seeded', i)
    sh('git checkout -q -- . && git clean -fdq src')
    m = json.load(open(d + '/meta.json'))
    c0, o0 = sh('bash %s/demo.sh' % d) if '--nodemo' not in sys.argv else (0, '')
    c, o = sh('git apply %s/patch.diff' % d)
    if c:
        print(i, 'PATCH DOES NOT APPLY', o[-300:])
        continue
    c, o = sh('. /opt/vp/env.sh; export CARGO_TARGET_DIR=$PWD/target; cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seedtool.log 2>&1; python3 /opt/vp/results.py /tmp/seedtool.json cargo:/tmp/seedtool.log')
    r = json.load(open('/tmp/seedtool.json'))
    lost = [x for x in base['stable'] if x not in r['passed']]
    c1, o1 = sh('bash %s/demo.sh' % d)
    c2, o2 = sh('python3 check.py ' + m['property'], cwd=HERE, KSERD_REPO=mr)
    print('%s %s: tests %s; demo clean %d patched %d; check exit %d %s' % (
        i, m['property'], 'pass' if not lost else 'LOSE %d %s' % (len(lost), lost[:3]), c0, c1, c2, 'CAUGHT' if c2 == 1 else 'missed'), flush=True)
    if c0 or not c1:
        print('   demo clean:', o0[-400:], '\n   demo patched:', o1[-400:])
    if len(lost) > 20:
        print(open('/tmp/seedtool.log').read()[-1500:])
    if '-v' in sys.argv or c2 not in (0, 1):
        print('\n'.join(x[:300] for x in o2.splitlines()[:8]))
sh('git checkout -q -- .')
