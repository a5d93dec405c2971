"""What the types promise every program: no unsafe code, safe sharing between threads, no view outliving or overlapping a change of what it views."""
import glob
import os
import build
from core import NoAnswer

AT = os.path.join(build.HERE, 'witness')


def witnesses(r):
    if not build.dump_file(os.path.join(AT, 'effects.rs'))['unsafe']:
        raise NoAnswer('the unsafe block of the example is not seen')
    for f in r.p.j['fns']:
        r.fns.add(f['path'])
        r.ok()
    for u in r.p.j['unsafe']:
        r.fail(u['in'], 'unsafe code', u['span'])
    for i in r.p.j['impls']:
        r.expect_true(not i.get('unsafe') or i['derived'], str(i['self'].get('p')), 'an unsafe implementation of %s' % i.get('trait'))
    hold, fail = (sorted(glob.glob(os.path.join(AT, d, '*.rs'))) for d in ('hold', 'fail'))
    if len(hold) < 10 or len(fail) < 8:
        raise NoAnswer('only %d and %d witness programs' % (len(hold), len(fail)))
    res = build.programs(hold + fail)
    for f in hold:
        name = os.path.basename(f)
        good, codes, text = res[f]
        r.paths += 1
        if good:
            r.ok()
        elif codes and codes <= wanted(f):
            r.fail('program ' + name, 'a program that must be accepted is refused', text)
        else:
            r.noans.append('witness %s does not fit the crate: %s' % (name, text[:300]))
    for f in fail:
        name = os.path.basename(f)
        good, codes, text = res[f]
        r.paths += 1
        if good:
            r.fail('program ' + name, 'a program that must be refused is accepted')
        elif codes & wanted(f):
            r.ok()
        else:
            r.noans.append('witness %s is refused for another reason: %s' % (name, text[:300]))
    r.extra.update(accepted=[os.path.basename(f) for f in hold], refused={os.path.basename(f): sorted(wanted(f)) for f in fail}, unsafe_blocks=len(r.p.j['unsafe']))


def wanted(f):
    with open(f) as h:
        line = h.readline()
    # a twin that must be accepted is broken by any of the ownership errors
    return set(line[len('// error:'):].strip().replace(' ', '').split(',')) if line.startswith('// error:') else {'E0597', 'E0505', 'E0506', 'E0499', 'E0502', 'E0515', 'E0521', 'E0716', 'lifetime'}
