#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'kcheck'))
import registry  # noqa: E402

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=na, state=state))


exec(open(os.path.join(HERE, 'tools', 'proptable.py')).read())

TECH = ('static analysis: path-partitioned interprocedural value-flow dataflow over the type-checked MIR of the current source, '
        'compared path by path with a declarative rule table')
NOTE = ('Decides the listed functions for all inputs by comparing guarded value-flow summaries with a specification; nothing is executed and no inputs or '
        'paths are handed to a solver. Library functions are modelled from their documentation; allocation failure, stack depth and Add/Mul overflow are outside.')

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe'], 'hook_needed': False}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')

checks, na = [], []
for p in P:
    if p['na']:
        assert p['id'] not in registry.RULES
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    r = registry.RULES[p['id']]
    checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': r.get('technique', TECH), 'level': 'other',
                   'level_note': r['explain'] + ' ' + r.get('note', NOTE)})
ids = {p['id'] for p in P}
assert set(registry.RULES) <= ids, set(registry.RULES) - ids
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are compiled into the repository. Every check rebuilds the MIR dump from /repo\'s current working tree; build output lives in .build (ignored by git).'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
