"""The crate in every configuration: optional parts only add, and checks made in debug builds change no outcome."""
import importlib
import json
import os
import build
import interp
from core import Rule, NoAnswer, norm_path
from prog import Program

PARTS = ('encode', 'format', 'parse')
PLAIN = '-Zub-checks=no'        # without rustc's own pointer checks, which only debug builds contain
NOISE = ('span', 'sp', 'parent', 'id', 'file', 'line')
# which rules decide the functions of a module
DECIDED_BY = {'ds': ('rules_ds.copies', 'rules_ds.accessors', 'rules_ds.getters', 'rules_ds.construction', 'rules_ds.equality',
                     'rules_num.order', 'rules_num.conversions', 'rules_num.number_text'),
              'encode': ('rules_enc.encoder', 'rules_dec.decoder'), 'to_kserd': ('rules_tok.to_kserd',),
              'nav': ('rules_nav.links', 'rules_nav.node_api'),
              'fmt': ('rules_fmt.grammar', 'rules_fmt.primitives', 'rules_fmt.representation', 'rules_fmt.configuration', 'rules_fmt.layout'),
              'parse': ('rules_parse.total', 'rules_parse.whole_text', 'rules_parse.primitives', 'rules_parse.delimited_forms', 'rules_parse.line_forms', 'rules_perr.inspection')}


def load(features, flags):
    p = build.dump(features, flags)
    try:
        with open(p) as f:
            j = json.load(f)
        prog = Program(p)
    finally:
        os.remove(p)
    return j, prog


def strip(x, names={}):
    """without places in the source and with paths instead of compiler numbers"""
    if isinstance(x, dict):
        return {k: strip(v, names) for k, v in x.items() if k not in NOISE}
    if isinstance(x, list):
        return [strip(v, names) for v in x]
    return names.get(x, x) if isinstance(x, str) else x


def bodies(j):
    out = {}
    names = {f['id']: f['path'] for f in j['fns']}
    for f in j['fns']:
        out.setdefault(f['path'], []).append(json.dumps(strip(f, names), sort_keys=True))
    return out


def traits(j):
    return {json.dumps([i.get('trait'), i['self'], i.get('args')], sort_keys=True) for i in j['impls'] if i.get('trait')}


def configurations(r):
    full, _ = load(['--all-features'], [PLAIN])
    fb = bodies(full)
    info = {f['path']: f for f in full['fns']}
    r.fns |= set(fb)
    for n in range(7):
        on = [x for i, x in enumerate(PARTS) if n >> i & 1]
        name = 'with %s only' % ' and '.join(on) if on else 'without any optional part'
        try:
            part, _ = load(['--no-default-features', '--features', ','.join(on)], [PLAIN])
        except build.BuildError as e:
            r.fail('crate', 'does not build %s' % name, str(e))
            continue
        pb = bodies(part)
        at = {f['path']: f for f in part['fns']}
        r.extra[name] = len(pb)
        for k, v in pb.items():
            r.paths += 1
            if k not in fb:
                # helpers without a counterpart show in their callers
                r.expect_true(not at[k]['pub'], at[k], 'exists %s but not in the whole crate' % name)
            else:
                r.expect_true(sorted(v) == sorted(fb[k]), info[k], 'differs %s from the whole crate' % name)
        for k, a in part['adts'].items():
            if a['local']:
                r.expect_true(strip(full['adts'].get(k)) == strip(a), k, 'the type differs %s from the whole crate' % name)
        gone = traits(part) - traits(full)
        r.expect_true(not gone, 'crate', 'an implementation exists %s but not in the whole crate' % name, str(sorted(gone))[:300])
    release(r, full, fb)


def release(r, full, fb):
    """debug assertions off: whatever differs must still be what its rules say"""
    rel, prog = load(['--all-features'], [PLAIN, '-Cdebug-assertions=off', '-Coverflow-checks=on'])
    if rel['debug_assertions'] or not full['debug_assertions']:
        raise NoAnswer('the two builds do not differ in debug assertions')
    rb = bodies(rel)
    diff = [f for f in rel['fns'] if sorted(rb[f['path']]) != sorted(fb.get(f['path'], []))]
    r.ok(len(rb) - len(diff))
    r.paths += len(rb)
    for k in set(fb) - set(rb):
        f = next(f for f in full['fns'] if f['path'] == k)
        r.expect_true(not f['pub'] or '{closure' in k, f, 'exists only when debug assertions are on')
    live = reachable(rel)
    todo = [f for f in diff if f['path'] in live]
    r.extra['release'] = {'functions': len(rb), 'differing': [norm_path(f['path']) for f in diff], 'differing_and_reachable': [norm_path(f['path']) for f in todo]}
    for mod in sorted({module(f) for f in todo}):
        covered = set()
        for ref in DECIDED_BY.get(mod, ()):
            m, fn = ref.split('.')
            saved = dict(interp._ADTS)
            interp._ADTS.update(prog.adts)
            sub = Rule(prog, r.prop)
            sub.tier, sub.repo, sub.build = r.tier, r.repo, r.build
            try:
                getattr(importlib.import_module(m), fn)(sub)
            except NoAnswer as e:
                sub.noans.append(str(e))
            interp._ADTS.clear()
            interp._ADTS.update(saved)
            covered |= sub.fns
            r.obligs += sub.obligs
            r.paths += sub.paths
            r.noans += sub.noans
            r.bad += [(a, 'without debug assertions: ' + b, c, d) for a, b, c, d in sub.bad]
            for f in todo:
                if module(f) == mod and f['path'] in sub.fns:
                    r.samples.append('%s differs without debug assertions; decided by %s on that build' % (norm_path(f['path']), ref))
        for f in todo:
            if module(f) == mod and f['path'] not in covered:
                r.noans.append('%s differs without debug assertions and no rule decides it' % norm_path(f['path']))


def module(f):
    return os.path.relpath(f['span'].split(':')[0], 'src').split('/')[0].replace('.rs', '')


def reachable(j):
    """functions called from outside: everything except what only code behind a constant false reaches"""
    fns = {}
    for f in j['fns']:
        fns.setdefault(f['id'], f)
    calls = {i: set(refs(f)) & set(fns) for i, f in fns.items()}
    named = set().union(*(set(all_refs(f['body'])) - {i} for i, f in fns.items()))
    seen, todo = set(), [i for i, f in fns.items() if f['pub'] or f.get('impltrait') or i not in named]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        todo += calls[i]
    return {fns[i]['path'] for i in seen}


def refs(f):
    """functions mentioned in the blocks that constants do not cut off"""
    for b in [f['body']] + f['promoted']:
        if not b:
            continue
        seen, todo = set(), [0]
        while todo:
            n = todo.pop()
            if n in seen or n is None:
                continue
            seen.add(n)
            blk = b['blocks'][n]
            yield from all_refs(blk)
            todo += follow(b, blk)


def all_refs(x):
    if isinstance(x, dict):
        if isinstance(x.get('id'), str):
            yield x['id']
        for v in x.values():
            yield from all_refs(v)
    elif isinstance(x, list):
        for v in x:
            yield from all_refs(v)


def follow(b, blk):
    t = blk['t']
    if t['t'] == 'switch':
        c = const_of(b, t)
        if c is not None:
            for v, to in t['v']:
                if int(v) == c:
                    return [to]
            return [t['else']]
    return [x for x in targets(t)]


def const_of(b, t):
    x = t['d']
    if x['o'] == 'const':
        return int(x['c']['bool']) if 'bool' in x['c'] else None
    if x['p']['p']:
        return None
    l = x['p']['l']
    sets = [s for k in b['blocks'] for s in k['s'] if s['s'] == 'assign' and s['p'] == {'l': l, 'p': []}]
    if len(sets) == 1 and sets[0]['r'].get('r') == 'use' and sets[0]['r']['x']['o'] == 'const' and 'bool' in sets[0]['r']['x']['c']:
        return int(sets[0]['r']['x']['c']['bool'])
    return None


def targets(t):
    for k in ('to', 'else'):
        if isinstance(t.get(k), int):
            yield t[k]
    for v in t.get('v', ()):
        yield v[1]
