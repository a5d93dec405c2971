"""Effects: results depend on the arguments alone and nothing outside of them is read, changed or remembered."""
import importlib
import os
import build
from core import NoAnswer, Rule, norm_path

OUTSIDE = ('std::time', 'std::env', 'std::fs', 'std::io', 'std::net', 'std::process', 'std::thread', 'std::os', 'std::random', 'std::panic', 'std::sync', 'std::sys',
           'std::backtrace', 'std::alloc', 'core::sync', 'core::arch', 'core::random', 'std::hash::random::RandomState', 'std::panicking', 'core::io', 'alloc::io')
INTERIOR = ('core::cell', 'core::sync', 'std::sync')
HASHED = ('std::collections::hash', 'hashbrown')
# uses of a hash table whose answer does not depend on the order it keeps
ORDERLESS = {'new', 'with_capacity', 'with_hasher', 'default', 'entry', 'or_insert', 'or_insert_with', 'or_default', 'or_insert_with_key', 'and_modify', 'insert', 'get', 'get_mut',
             'get_or_insert_with', 'contains_key', 'contains', 'remove', 'take', 'replace', 'len', 'is_empty', 'capacity', 'reserve', 'shrink_to_fit', 'clear', 'index', 'eq', 'ne',
             'is_subset', 'is_superset', 'is_disjoint', 'borrow', 'drop', 'from_iter', 'collect', 'get_key_value', 'remove_entry', 'key', 'into_mut', 'deref', 'deref_mut', 'insert_entry'}
ADDRESS = ('core::fmt::rt::Argument::new_pointer', 'core::fmt::Pointer::fmt', 'core::ptr::addr', 'core::ptr::hash')
DECIDED = {'hash order': 'rules_nav.links', 'address as a number': 'rules_perr.inspection'}
TRUSTED = {'core', 'alloc', 'std', 'serde_core', 'serde', 'nom', 'base91', 'fast_float', 'lexical_core', 'lexical_parse_integer', 'lexical_parse_float', 'lexical_util', 'bitflags', 'memchr'}


def purity(r):
    selfcheck()
    calls = 0
    met = set()
    for kind, fn, what in effects(r.p.j):
        if kind in DECIDED:
            met.add((kind, fn['path'], what))
        elif kind == 'crate':
            r.noans.append('%s uses %s, of which nothing is known' % (norm_path(fn['path']), what))
        else:
            r.fail(fn, '%s: %s' % (kind, what))
    for f in r.p.j['fns']:
        r.fns.add(f['path'])
        n = sum(1 for _ in mentioned(f))
        calls += n
        r.ok(n)
        r.paths += 1
    # the order of a hash table, or the number of an address, may be met only where the outcome is decided against a specification free of it
    for kind in sorted({k for k, _, _ in met}):
        fns = decided(r, kind)
        for k, path, what in sorted(met):
            if k == kind:
                f = next(f for f in r.p.j['fns'] if f['path'] == path)
                r.expect_true(path in fns or path.split('::{closure')[0] in fns, f, '%s: %s' % (kind, what))
    for t in r.p.j['types']:
        r.expect_true(t['freeze'] or only_by_parameter(r, t['path']), t['path'], 'shared access to this type can change it')
    r.extra.update(functions_mentioned=calls, statics=len(r.p.j['statics']), decided_by_outcome=sorted({'%s: %s' % (k, norm_path(p)) for k, p, _ in met}))


def only_by_parameter(r, path):
    """a generic type is as changeable as what it is applied to when no field of its own is"""
    tys = [x for v in r.p.adts[path]['v'] for f in v['f'] for x in walk(f['ty'])]
    return any(x.get('k') == 'param' for x in tys) and not any(under(str(x.get('p')), INTERIOR) for x in tys)


def decided(r, kind):
    """functions whose outcome another rule compares with a specification in which the order or the address does not occur"""
    m, f = DECIDED[kind].split('.')
    sub = Rule(r.p, r.prop)
    sub.tier, sub.repo, sub.build = (getattr(r, x, '') for x in ('tier', 'repo', 'build'))
    getattr(importlib.import_module(m), f)(sub)
    r.obligs += sub.obligs
    r.paths += sub.paths
    r.bad += sub.bad
    r.noans += sub.noans
    return sub.fns


def mentioned(f):
    for b in [f['body']] + (f.get('promoted') or []):
        for x in walk(b):
            if isinstance(x.get('fn'), dict) and 'p' in x['fn']:
                yield x['fn']


def walk(x):
    if isinstance(x, dict):
        yield x
        for v in x.values():
            yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def under(p, heads):
    return any(p == h or p.startswith(h + '::') for h in heads)


def effects(j):
    """-> (kind, function or item, what)"""
    own = {f['id'] for f in j['fns']}
    roots = {f['path'].split('::')[0].lstrip('<') for f in j['fns']}
    for s in j['statics']:
        if s['mut'] or not s['freeze']:
            yield 'remembers between calls', {'path': s['path'], 'span': s['span']}, 'the static %s can change' % s['path']
    for f in j['fns']:
        for i in mentioned(f):
            p = norm_path(i['p'])
            q = norm_path((i.get('res') or {}).get('p') or i['p'])
            open_ = i.get('tr') and i.get('res') is None and i.get('self') is not None and i['self']['k'] in ('param', 'alias')
            if under(p, OUTSIDE) or under(q.lstrip('<'), OUTSIDE):
                # a writer the caller hands in is the caller's; one that is a buffer stays inside
                if not open_ and not (i.get('tr') and (i.get('self') or {}).get('p') in ('alloc::vec::Vec', 'core::io::cursor::Cursor', 'std::io::cursor::Cursor')):
                    yield 'reaches outside', f, p
            elif under(p, INTERIOR):
                yield 'changes what is shared', f, p
            elif p in ADDRESS or i.get('name') == 'new_pointer':
                yield 'depends on an address', f, p
            if i.get('id') not in own and not (i.get('res') or {}).get('id') in own:
                c = p.lstrip('<&').split('::')[0]
                if '::' in p and c not in TRUSTED and c not in roots and not p.startswith('<'):
                    yield 'crate', f, c
        for b in [f['body']] + (f.get('promoted') or []):
            if not b:
                continue
            for blk in b['blocks']:
                t = blk['t']
                if t['t'] == 'call' and any(is_hashed(a) for a in t['argty']):
                    c = t['f'].get('c', {}).get('fn') if t['f']['o'] == 'const' else None
                    name = c['p'].split('::')[-1] if c else 'a function value'
                    if (c is None or c.get('id') not in own) and name not in ORDERLESS:
                        yield 'hash order', f, '%s of a hash table' % name
            yield from addresses(f, b)


def is_hashed(t):
    while t['k'] == 'ref':
        t = t['t']
    return t['k'] == 'adt' and under(t['p'], HASHED) and not t['p'].endswith(('::RandomState', '::DefaultHasher'))


def addresses(f, b):
    """an address turned into a number may only be subtracted from another one"""
    exposed = {}
    for blk in b['blocks']:
        for s in blk['s']:
            if s['s'] != 'assign' or s['p']['p']:
                continue
            rv = s['r']
            if rv.get('r') == 'cast' and rv.get('k') == 'PointerExposeProvenance':
                exposed[s['p']['l']] = s
    if not exposed:
        return
    grow = True
    while grow:
        grow = False
        for blk in b['blocks']:
            for s in blk['s']:
                if s['s'] == 'assign' and not s['p']['p'] and s['r'].get('r') == 'use' and plain(s['r']['x']) in exposed and s['p']['l'] not in exposed:
                    exposed[s['p']['l']] = s
                    grow = True
    for blk in b['blocks']:
        for s in blk['s']:
            if s['s'] != 'assign' or s['p']['l'] in exposed and not s['p']['p']:
                continue
            ops = [plain(x) for x in operands(s['r'])]
            if any(o in exposed for o in ops):
                rv = s['r']
                if not (rv.get('r') in ('bin',) and str(rv.get('op', '')).startswith('Sub') and all(o in exposed for o in ops)):
                    yield 'address as a number', f, 'the number of an address is used other than for a distance'
        t = blk['t']
        for x in (t.get('args') or []) + [t[k] for k in ('d', 'c') if isinstance(t.get(k), dict) and 'o' in t[k]]:
            if plain(x) in exposed:
                yield 'address as a number', f, 'the number of an address is used other than for a distance'
    if 0 in exposed:
        yield 'address as a number', f, 'the number of an address is used other than for a distance'


def plain(x):
    return x['p']['l'] if isinstance(x, dict) and x.get('o') in ('copy', 'move') and not x['p']['p'] else None


def operands(rv):
    for x in walk(rv):
        if x.get('o') in ('copy', 'move', 'const'):
            yield x


def selfcheck():
    """the rule must see one example of every effect, and nothing in the harmless twins"""
    j = build.dump_file(os.path.join(build.HERE, 'witness', 'effects.rs'))
    hit = {}
    for kind, f, what in effects(j):
        hit.setdefault(f['path'].split('::{closure')[0], set()).add(kind)
    for f in j['fns']:
        p = f['path']
        if p.startswith('has_') and '::' not in p and p != 'has_global' and p not in hit:
            raise NoAnswer('the effect of the example %s is not seen' % p)
        if p.startswith('fine_') and p in hit:
            raise NoAnswer('the example %s is reported: %s' % (p, sorted(hit[p])))
    if {'COUNT', 'LAST'} - set(hit) or 'TABLE' in hit:
        raise NoAnswer('changeable statics of the example are not told from constant ones')
