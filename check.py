#!/usr/bin/env python3
"""Decide one property of /repo's current source.

usage: check.py ID            (tier and seed from VERIF_TIER / VERIF_SEED)
       check.py --setup       build the driver and the dependency cache

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check has no answer.
"""
import importlib
import json
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'kcheck'))
from build import BUILD, REPO, BuildError, dump  # noqa: E402
sys.setrecursionlimit(20000)


def known():
    r = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#') and not line.startswith('fixed:'):
                r.append(json.loads(line))
    return r


def main():
    if sys.argv[1] == '--setup':
        p = dump()
        os.remove(p)
        print('setup done')
        return 0
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    import registry
    import core
    spec = registry.RULES[prop]
    from prog import Program
    import interp
    noans = []
    r = None
    try:
        path = dump()
        try:
            p = Program(path)
        finally:
            os.remove(path)
        interp._ADTS.update(p.adts)
        r = core.Rule(p, prop)
        r.tier = tier
        r.repo = REPO
        r.build = BUILD
        for ref in spec['rules']:
            m, f = ref.split('.')
            r.rule = f
            try:
                getattr(importlib.import_module(m), f)(r)
            except core.NoAnswer as e:
                noans.append(str(e))
            except (interp.Unknown, RecursionError, MemoryError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
                noans.append('%s: %s' % (type(e).__name__, e))
                if os.environ.get('KCHECK_TRACE'):
                    traceback.print_exc()
        noans += r.noans
        floor = spec.get('floor', {})
        for k, n in floor.items():
            have = {'fns': len(r.fns), 'obligations': r.obligs, 'paths': r.paths}[k]
            if have < n and not r.bad and not noans:
                noans.append('only %d %s analysed, expected at least %d' % (have, k, n))
    except BuildError as e:
        print(e)
        return 2
    kn = [k for k in known() if k['property'] == prop]
    hits, new = [], []
    for key, what, detail, span in r.bad:
        m = [k for k in kn if k['function'] == key and k['what'] == what]
        (hits if m else new).append((key, what, detail, span))
    viol = [{'function': k, 'what': w, 'detail': d, 'at': s} for k, w, d, s in new]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'functions_analysed': len(r.fns),
            'guarded_paths_compared': r.paths,
            'obligations': r.obligs,
            'obligations_failed': len(r.bad),
            'situations': getattr(r, 'situations', 0),
            'rules': spec['rules'],
            'functions': sorted(core.norm_path(x) for x in r.fns)[:400],
            'sample': r.samples,
            'external_functions_left_uninterpreted': sorted(r.unmodelled),
            'extra': r.extra,
        },
        'assumptions': spec.get('assume', []) + ASSUME,
        'violations': viol,
        'known_findings_reproduced': ['%s: %s' % (k, w) for k, w, d, s in hits],
        'no_answer': noans,
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k, w, d, s in hits:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, w))
    print('%s: %d functions, %d guarded paths, %d obligations, %d failed, %.1fs' % (prop, len(r.fns), r.paths, r.obligs, len(r.bad), time.time() - t0))
    if new:
        rp = os.path.join('evidence', prop + '-violation.json')
        with open(os.path.join(HERE, rp), 'w') as f:
            json.dump(viol, f, indent=1)
        for k, w, d, s in new[:10]:
            print('  %s (%s): %s\n      %s' % (k, s, w, core.clip(d, 600)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if noans:
        for n in noans[:10]:
            print('NO-ANSWER %s: %s' % (prop, n))
        return 2
    return 0


ASSUME = [
    'rustc MIR (opt-level 0) and trait resolution are faithful to the source',
    'models of the standard library, serde, nom, lexical, fast_float and base91 in kcheck/models.py state their documented behaviour',
    'integer additions and multiplications on lengths do not overflow; recursion depth and memory are not bounded',
]

if __name__ == '__main__':
    sys.exit(main())
