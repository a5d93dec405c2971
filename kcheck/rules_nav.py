"""Rules for the navigator: construction of the flattened tree, the node interface, the traversals."""
from core import *
from interp import eqs

KIDS = {'Tuple': 'list', 'Seq': 'list', 'Cntr': 'fields', 'Map': 'entries'}


def setup(r):
    r.V, r.K, r.N, r.NI, r.NAV = (r.p.ty(x) for x in ('Value', 'Kserd', 'Node', 'NodeInner', 'Navigator'))
    need = {'kserd', 'idx', 'parent', 'value_idx_in_parent', 'key_idx_in_parent', 'value_children', 'key_children'}
    have = {f['n'] for f in r.p.adts[r.NI]['v'][0]['f']}
    if not need <= have:
        raise NoAnswer('anchor NodeInner: fields %s' % sorted(need - have))


def nf(ip, r, x, name):
    """field of the stored node record"""
    for j, f in enumerate(r.p.adts[r.NI]['v'][0]['f']):
        if f['n'] == name:
            return ip.fld(x, 'NodeInner', j, name)
    raise NoAnswer('anchor NodeInner.%s' % name)


def gf(ip, r, x, ty, name):
    t = r.p.ty(ty)
    for j, f in enumerate(r.p.adts[t]['v'][0]['f']):
        if f['n'] == name:
            return ip.fld(x, ty, j, name)
    raise NoAnswer('anchor %s.%s' % (ty, name))


def node(ip, r, nav, inner):
    vals = {'nav': nav, 'node': inner}
    return mk('adt', r.N, 'Node', *[vals[f['n']] for f in r.p.adts[r.N]['v'][0]['f']])


def record(ip, r, nav, i):
    return ip.idx(gf(ip, r, nav, 'Navigator', 'inner'), i)


def strip_own(t):
    while t.op in ('own', 'mref') and t.op == 'own':
        t = t.a[0]
    return t


# ---------------------------------------------------------------------------------------- C12
def opaque_validate(r):
    """the debug-only self check has no influence on the result"""
    h = lambda ip, st, fr, args, info, t: [('ret', st, mk('app', 'selfcheck'))]
    return {f['path']: h for f in r.p.j['fns'] if f['kind'] == 'Fn' and f['path'].split('::')[-1] == 'validate' and 'nav' in f['path']}


def cut_off(r, fn, t):
    """a walk that ends after a fixed number of items cannot reach them all"""
    for x in walk(t):
        if x.op == 'app' and x.a[0] in ('it_take', 'it_step_by') and isconst(x.a[-1], 'int') and (x.a[0] == 'it_take' or cval(x.a[-1]) > 1) or \
                x.op == 'app' and x.a[0] == 'it_skip' and isconst(x.a[-1], 'int') and cval(x.a[-1]) > 0:
            r.fail(fn, 'only some of the nested values are visited: %s' % clip(show(x), 160))
            return


def walks_back(src, L, ip):
    """does src visit the elements of L (with their numbers) from the last to the first; returns position and element for the generic step"""
    e = mk('elem', src)
    if src.op != 'rev':
        return None
    s = src.a[0]
    if s.op == 'range' and s.a[0] is I(0) and s.a[1] is mk('len', L):
        return e, mk('idx', L, e), None
    if s.op == 'iter' and s.a[0] is L:
        st = s.a[1]
        if st == (('enum',),):
            return ip.fld(e, '', 0, ''), ip.fld(e, '', 1, ''), None
        if st == (('proj', 1), ('enum',)):
            return ip.fld(e, '', 0, ''), ip.fld(e, '', 1, ''), 'values'
        if st == (('proj', 0), ('enum',)):
            return ip.fld(e, '', 0, ''), ip.fld(e, '', 1, ''), 'keys'
    if s is L:
        return None, e, None
    return None


def links(r):
    setup(r)
    fn = r.method('Navigator', 'new')
    ip, outs = r.outcomes(fn, opaque=opaque_validate(r))
    arg = sym('arg0')
    rets = [(s, v) for k, s, v in outs if k == 'ret']
    if not rets:
        raise NoAnswer('%s: no result' % fn['path'])
    wl_used = None
    for st, v in rets:
        r.paths += 1
        inner = gf(ip, r, v, 'Navigator', 'inner')
        base, steps = inner, None
        if inner.op == 'fold':
            base, steps = inner.a[1], inner
        if base.op == 'list' and not base.a:
            r.fail(fn, 'the navigator holds no node')
            continue
        if not (base.op == 'list' and len(base.a) == 1 and base.a[0].op == 'each' and base.a[0].a[0].op == 'wl'):
            raise NoAnswer('%s: nodes are not collected from one work list: %s' % (fn['path'], clip(show(base))))
        wl = wl_used = base.a[0].a[0]
        cases = base.a[0].a[1]
        if len(cases) != 1 or cases[0][0] or len(cases[0][1]) != 1:
            r.fail(fn, 'not every visited value becomes exactly one node', clip(show(base)))
            continue
        rec = cases[0][1][0].a[0]
        el, pos = mk('elem', wl), mk('pos', wl)
        kind, init, steps_w = ip.worklists[wl]
        r.expect_true(same(ip, st, nf(ip, r, rec, 'idx'), pos), fn, 'a node\'s index is not its position', show(rec))
        for c in ('value_children', 'key_children'):
            x = nf(ip, r, rec, c)
            r.expect_true(x.op == 'list' and not x.a, fn, 'children are present before linking')

        def rec_of(item):
            return subst(rec, {el: item})
        # the first node
        iss = segs(init)
        if len(iss) != 1 or iss[0].op != 'one':
            raise NoAnswer('%s: work list starts with %s' % (fn['path'], clip(show(init))))
        r0 = rec_of(iss[0].a[0])
        r.expect_true(same(ip, st, nf(ip, r, r0, 'kserd'), arg), fn, 'the first node is not the root', show(r0))
        for f in ('parent', 'value_idx_in_parent', 'key_idx_in_parent'):
            r.expect_true(same(ip, st, nf(ip, r, r0, f), NONE), fn, 'the root has a %s' % f, show(r0))
        if kind != 'stack':
            r.fail(fn, 'the values are not visited depth first')
            continue
        # what each visited value adds
        k = nf(ip, r, rec, 'kserd')
        val = gf(ip, r, k, 'Kserd', 'val')
        seen = set()
        for s0, var in ip.fork_var(st.fork(), val, r.V):
            for g, pushes in steps_w:
                s1 = under(ip, s0, g)
                if s1 is None:
                    continue
                seen.add(var)
                r.paths += 1
                L = ip.fld(val, var, 0, '0') if var in KIDS else None
                check_push(r, ip, s1, fn, var, L, pushes, rec_of, pos)
        r.expect_true(len(seen) == 9, fn, 'some kinds of value are not visited', sorted(seen))
        # linking children to parents
        if steps is None:
            r.fail(fn, 'children are never linked to their parents')
            continue
        link_children(r, ip, st, fn, steps, base, rec, wl)
    for kind, st, v in outs:
        if kind != 'panic':
            continue
        r.paths += 1
        atoms = [a for a, pol in st.path]
        if any(mentions_app(a, 'selfcheck') for a in atoms[-2:]):
            continue
        # looking up the parent recorded for a child: parents are positions of earlier nodes (checked above)
        last, pol = st.path[-1]
        if v[0] in ('unwrap', 'index', 'expect') and last.op == 'le0' and pol is False and parent_lookup(ip, r, last.a[0], wl_used):
            r.ok()
            continue
        r.fail(fn, 'can panic (%s)' % v[0], 'in %s when %s' % (norm_path(v[1][0]), clip(show_path(st))))


def mentions_app(t, name):
    return any(x.op == 'app' and x.a[0] == name for x in walk(t))


def parent_lookup(ip, r, l, wl):
    """l is `parent number + 1 - number of nodes` for a parent number read from the grouping of the nodes by parent"""
    k, d = lin(l)
    if k != 1 or len(d) != 2:
        return False
    pos = [a for a, c in d.items() if c == 1]
    neg = [a for a, c in d.items() if c == -1]
    if len(pos) != 1 or len(neg) != 1 or neg[0].op != 'len':
        return False
    p, nodes = pos[0], neg[0].a[0]
    if nodes.op == 'lv':
        nodes = ip.lvinit[nodes]
    return (p.op == 'fld' and p.a[0].op in ('elem', 'nth') and p.a[0].a[0].op == 'group' and p.a[2] == '0'
            and any(x is wl for x in walk(nodes)))


def check_push(r, ip, st, fn, var, L, pushes, rec_of, pos):
    want = {'list': 1, 'fields': 1, 'entries': 2}.get(KIDS.get(var), 0)
    if want == 0:
        r.expect_true(not pushes, fn, 'a %s is given children' % var, [show(p) for p in pushes])
        return
    pushes = [p for p in pushes if not empty_seg(ip, st, p)]
    if len(pushes) != 1 or pushes[0].op != 'each':
        if not pushes:
            r.fail(fn, 'the children of a %s are not visited' % var)
            return
        raise NoAnswer('%s: children of a %s are added as %s' % (fn['path'], var, clip([show(p) for p in pushes])))
    src, cases = pushes[0].a
    vis = walks_back(src, L, ip)
    if vis is None:
        if src is L or src.op == 'iter' and src.a[0] is L or src.op == 'range' and any(x is L for x in walk(src)):
            r.fail(fn, 'the children of a %s are visited in the wrong order' % var, show(src))
            return
        if src.op == 'rev' and any(x is L for x in walk(src)):
            r.fail(fn, 'not all children of a %s are visited' % var, show(src))
            return
        cut_off(r, fn, src)
        raise NoAnswer('%s: children of a %s come from %s' % (fn['path'], var, clip(show(src))))
    i, child, view = vis
    live = [(g, ps) for g, ps in cases if under(ip, st, g) is not None]
    if len(live) != 1 or not implied(ip, st, live[0][0]):
        r.fail(fn, 'not every child of a %s is visited' % var, clip(show(pushes[0])))
        return
    items = [p.a[0] for p in live[0][1] if p.op == 'one']
    if len(items) != want or len(items) != len(live[0][1]):
        r.fail(fn, '%d instead of %d nodes per child of a %s' % (len(live[0][1]), want, var), clip(show(pushes[0])))
        return
    if KIDS[var] == 'list':
        exp = [(child, 'value_idx_in_parent')]
    elif KIDS[var] == 'fields':
        exp = [(child if view == 'values' else ip.fld(child, '', 1, ''), 'value_idx_in_parent')]
    else:
        # taken from the end: the key of an entry comes right before its value
        exp = [(ip.fld(child, '', 1, ''), 'value_idx_in_parent'), (ip.fld(child, '', 0, ''), 'key_idx_in_parent')]
    for item, (c, fld) in zip(items, exp):
        rc = rec_of(item)
        other = 'key_idx_in_parent' if fld[0] == 'v' else 'value_idx_in_parent'
        what = 'key' if fld[0] == 'k' else 'child'
        r.expect_true(same(ip, st, nf(ip, r, rc, 'kserd'), c), fn, 'a %s of a %s is not the stored one' % (what, var), clip(show(item)))
        r.expect_true(same(ip, st, nf(ip, r, rc, 'parent'), some(pos)), fn, 'a %s of a %s has another parent' % (what, var), clip(show(item)))
        if i is None:
            raise NoAnswer('%s: the number of a child of a %s is not known' % (fn['path'], var))
        r.expect_true(same(ip, st, nf(ip, r, rc, fld), some(i)), fn, 'the number of a %s in a %s is wrong' % (what, var), clip(show(item)))
        r.expect_true(same(ip, st, nf(ip, r, rc, other), NONE), fn, 'a %s of a %s is numbered both as key and value' % (what, var), clip(show(item)))


def implied(ip, st, guard):
    return all(ip.decide(st, g) is pol for g, pol in guard)


def link_children(r, ip, st, fn, fold, base, rec, wl):
    """every node is entered, in order, under its parent's value children or key children"""
    grp = fold.a[0]
    if grp.op != 'group':
        cut_off(r, fn, grp)
        raise NoAnswer('%s: children are linked through %s' % (fn['path'], clip(show(grp))))
    gsrc, gcases = grp.a
    if gsrc is not base:
        cut_off(r, fn, gsrc)
        raise NoAnswer('%s: children are grouped from %s' % (fn['path'], clip(show(gsrc))))
    el = mk('elem', base)
    m = {el: rec}
    parent = nf(ip, r, rec, 'parent')
    if len(gcases) != 1:
        raise NoAnswer('%s: %d ways of grouping children' % (fn['path'], len(gcases)))
    g, key, pieces = gcases[0]
    s1 = ip.assume(st.fork(), ip.is_(parent, 'Some', OPTION), True)
    if s1 is None or not implied(ip, s1, [(ip_sub(ip, a, m), p) for a, p in g]):
        r.fail(fn, 'not every node with a parent is grouped under it', clip(str([(show(a), p) for a, p in g])))
        return
    r.expect_true(same(ip, s1, ip_sub(ip, key, m), ip.fld(parent, 'Some', 0, '0')), fn, 'nodes are not grouped by their parent', show(key))
    if len(pieces) != 1 or pieces[0].op != 'one':
        raise NoAnswer('%s: grouped pieces %s' % (fn['path'], clip(str([show(p) for p in pieces]))))
    piece = ip_sub(ip, pieces[0].a[0], m)
    steps = fold.a[2]
    acc, ge = sym('acc'), mk('elem', grp)
    gkey, glist = ip.fld(ge, '', 0, ''), ip.fld(ge, '', 1, '')
    old = mk('idx', acc, gkey)
    for g, v in steps:
        if v.op != 'updidx' or v.a[0] is not acc:
            raise NoAnswer('%s: linking step %s' % (fn['path'], clip(show(v))))
        r.expect_true(v.a[1] is gkey, fn, 'children are linked to another node than their parent', show(v.a[1]))
        new = v.a[2]
        for f in r.p.adts[r.NI]['v'][0]['f']:
            o, n = nf(ip, r, old, f['n']), nf(ip, r, new, f['n'])
            if f['n'] in ('value_children', 'key_children'):
                child_list(r, ip, s1, fn, f['n'], o, n, glist, piece, rec)
            else:
                r.expect_true(n is o, fn, 'linking changes the %s of a node' % f['n'], clip(show(n)))


OPTION = 'core::option::Option'


def ip_sub(ip, t, m):
    t2 = subst(t, m)
    return resolve(ip, t2)


def resolve(ip, t):
    """push projections of known records through after a substitution"""
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is not None:
            return r
        na = tuple(go(y) for y in x.a)
        if x.op == 'fld' and isinstance(na[0], T):
            v = na[0]
            if v.op == 'adt':
                d = ip.p.adts.get(v.a[0])
                r = None
                if d:
                    for vv in d['v']:
                        if vv['n'] == v.a[1]:
                            for j, f in enumerate(vv['f']):
                                if f['n'] == x.a[2] or str(j) == x.a[2]:
                                    r = v.a[2 + j]
                if r is None:
                    r = mk('fld', *na)
            elif v.op == 'tup' and str(x.a[2]).isdigit() and int(x.a[2]) < len(v.a):
                r = v.a[int(x.a[2])]
            else:
                r = mk('fld', *na)
        else:
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def child_list(r, ip, st, fn, name, old, new, glist, piece, rec):
    idxf = 'value_idx_in_parent' if name[0] == 'v' else 'key_idx_in_parent'
    ss = segs(new)
    if new is old:
        r.fail(fn, 'the %s are never linked' % name.replace('_', ' '))
        return
    if len(ss) == 2 and ss[0].op == 'all' and ss[0].a[0] is old:
        ss = ss[1:]
    if len(ss) != 1:
        raise NoAnswer('%s: %s become %s' % (fn['path'], name, clip(show(new))))
    # contribution of one grouped item: follow the collections it passes through
    contrib = flow(ip, r, ss[0], glist, piece)
    if contrib is None:
        cut_off(r, fn, ss[0])
        raise NoAnswer('%s: %s are taken from %s' % (fn['path'], name, clip(show(ss[0]))))
    guards, item, sorted_by = contrib
    num = nf(ip, r, rec, idxf)
    is_some = ip.is_(num, 'Some', OPTION)
    a = ip.assume(st.fork(), is_some, True)
    b = ip.assume(st.fork(), is_some, False)
    r.expect_true(a is not None and implied(ip, a, guards), fn, 'some of the %s are not linked' % name.replace('_', ' '), str([(show(x), p) for x, p in guards]))
    r.expect_true(b is None or under(ip, b, guards) is None, fn, 'other nodes are linked as %s' % name.replace('_', ' '), str([(show(x), p) for x, p in guards]))
    if a is None:
        return
    r.expect_true(same(ip, a, item, nf(ip, r, rec, 'idx')), fn, 'linked %s are not the nodes\' positions' % name.replace('_', ' '), clip(show(item)))
    for key in sorted_by:
        # nodes of one parent are visited in the order of their numbers, so ordering by that number or by position changes nothing
        r.expect_true(same(ip, a, key, ip.fld(num, 'Some', 0, '0')) or same(ip, a, key, num) or same(ip, a, key, nf(ip, r, rec, 'idx')), fn,
                      'the %s are ordered by something else than their number' % name.replace('_', ' '), clip(show(key)))


def flow(ip, r, seg, glist, piece):
    """(guards, item, sort keys) of what one item of glist contributes to a segment"""
    if seg.op == 'all':
        src, cases = seg.a[0], (((), (one(mk('elem', seg.a[0])),)),)
    elif seg.op == 'each':
        src, cases = seg.a
    else:
        return None
    sort = ()
    s = src
    if s.op == 'app' and s.a[0] in ('sort_by_key', 'sort_by'):
        sort, s = ((s.a[0], s.a[2]),), s.a[1]
    elif s.op == 'app' and s.a[0] in ('vec_sort', 'sort', 'vec_sort_unstable'):
        s = s.a[1]
    if s is glist:
        base = ((), piece, ())
    elif s.op == 'list' and len(s.a) == 1:
        base = flow(ip, r, s.a[0], glist, piece)
    else:
        return None
    if base is None or len(cases) != 1 or len(cases[0][1]) != 1 or cases[0][1][0].op != 'one':
        return None
    g0, it, so = base
    e = mk('elem', src)
    keys = so
    for how, c in sort:
        k = apply1(ip, c, it) if how == 'sort_by_key' else compared(ip, c, it)
        if k is None:
            return None
        keys += (k,)
    m = {e: it, mk('elem', s): it}
    g = tuple((ip_sub(ip, a, m), p) for a, p in cases[0][0])
    return g0 + g, ip_sub(ip, cases[0][1][0].a[0], m), keys


def compared(ip, clo, x):
    """what a two-sided comparison orders x by"""
    a, b = sym('<left>'), sym('<right>')
    try:
        outs = ip.call_value(St(), None, clo, [a, b], None)
    except Unknown:
        return None
    outs = [v for k, s, v in outs if k == 'ret']
    if len(outs) != 1 or outs[0].op != 'cmp' or subst(outs[0].a[1], {b: a}) is not outs[0].a[0]:
        return None
    return ip_sub(ip, outs[0].a[0], {a: x})


def apply1(ip, clo, x):
    try:
        outs = ip.call_value(St(), None, clo, [x], None)
    except Unknown:
        return None
    outs = [v for k, s, v in outs if k == 'ret']
    return outs[0] if len(outs) == 1 else None


# ---------------------------------------------------------------------------------------- C13
def node_api(r):
    setup(r)
    a0, a1 = sym('arg0'), sym('arg1')

    def inrange(ip, st, nav, i):
        """child numbers stored in a navigator are positions of its nodes (rule for its construction)"""
        return ip.assume(st, le0(ladd(lsub(i, ip.length(gf(ip, r, nav, 'Navigator', 'inner'))), I(1))), True) if st is not None else None

    def N(ip, name, x=a0):
        return nf(ip, r, gf(ip, r, x, 'Node', 'node'), name)

    def navof(ip, x=a0):
        return gf(ip, r, x, 'Node', 'nav')

    # navigator
    inner = lambda ip: gf(ip, r, a0, 'Navigator', 'inner')
    r.check(r.method('Navigator', 'root'), lambda ip, st: [(st, node(ip, r, a0, ip.idx(inner(ip), I(0))))],
            panics=lambda ip, st, v: ip.decide(st, eq0(mk('len', inner(ip)))) is True)

    def get(ip, st):
        for s, b in ip.branch(st, le0(ladd(lsub(a1, ip.length(inner(ip))), I(1)))):
            yield s, some(node(ip, r, a0, ip.idx(inner(ip), a1))) if b else NONE
    r.check(r.method('Navigator', 'get'), get)
    r.check(r.method('Navigator', 'len'), lambda ip, st: [(st, ip.length(inner(ip)))])
    r.check(r.method('Navigator', 'is_empty'), lambda ip, st: [(s, B(b)) for s, b in ip.branch(st, eq0(ip.length(inner(ip))))])
    # nodes in order: the iterator starts over all of them and yields them one by one
    yields(r, r.method('Navigator', 'nodes'), lambda ip, st: [(st, inner(ip), a0)], 'NodeIter', 'direct')
    # node
    r.check(r.method('Node', 'nav'), lambda ip, st: [(st, navof(ip))])
    r.check(r.method('Node', 'index'), lambda ip, st: [(st, N(ip, 'idx'))])
    r.check(r.method('Node', 'kserd'), lambda ip, st: [(st, N(ip, 'kserd'))])

    def parent(ip, st):
        p = N(ip, 'parent')
        for s, var in ip.fork_var(st, p, OPTION):
            if var == 'None':
                yield s, NONE
            else:
                i = ip.fld(p, 'Some', 0, '0')
                s = inrange(ip, s, navof(ip), i)
                yield s, some(node(ip, r, navof(ip), record(ip, r, navof(ip), i)))
    r.check(r.method('Node', 'parent'), parent)
    r.check(r.method('Node', 'is_key'), lambda ip, st: [(s, B(v == 'Some')) for s, v in ip.fork_var(st, N(ip, 'key_idx_in_parent'), OPTION)])

    def idx_in_parent(ip, st):
        for s, v in ip.fork_var(st, N(ip, 'key_idx_in_parent'), OPTION):
            for s2, w in ip.fork_var(s, N(ip, 'value_idx_in_parent'), OPTION):
                if v == 'Some' and w == 'Some':
                    yield None, None        # numbered as one or the other (rule for the construction)
                elif v == 'Some':
                    yield s2, ip.fld(N(ip, 'key_idx_in_parent'), 'Some', 0, '0')
                elif w == 'Some':
                    yield s2, ip.fld(N(ip, 'value_idx_in_parent'), 'Some', 0, '0')
                else:
                    yield s2, I(0)
    r.check(r.method('Node', 'idx_in_parent'), idx_in_parent)

    def eq(ip, st):
        p = lambda n: mk('ptreq', *sorted((gf(ip, r, a0, 'Node', n), gf(ip, r, a1, 'Node', n)), key=lambda z: z.n))

        def good(ip, st, got):
            """same node of the same navigator"""
            x, y = ip.decide(st, p('node')), ip.decide(st, p('nav'))
            if got is TRUE or got is FALSE:
                v = None if x is None and y is None else (False if x is False or y is False else True if x and y else None)
                return v is (got is TRUE)
            return x is True and got is p('nav') or y is True and got is p('node')
        return [(st, good)]
    r.check(r.impl('PartialEq', 'Node', 'eq'), eq)
    # children
    vc, kc = (lambda ip: N(ip, 'value_children')), (lambda ip: N(ip, 'key_children'))
    yields(r, r.method('Node', 'value_children'), lambda ip, st: [(st, vc(ip), navof(ip))], 'SeqIter', 'seq')
    yields(r, r.method('Node', 'key_children'), lambda ip, st: [(st, kc(ip), navof(ip))], 'SeqIter', 'seq')

    def value(ip, st):
        val = gf(ip, r, N(ip, 'kserd'), 'Kserd', 'val')
        for s, var in ip.fork_var(st, val, r.V):
            def good(ip, st, got, var=var):
                x = got
                if x.op != 'adt':
                    return False
                if var in ('Tuple', 'Seq'):
                    return x.a[1] == var and carries(ip, r, x.a[2], 'SeqIter', {'seq': vc(ip)}, navof(ip))
                if var == 'Cntr':
                    L = ip.fld(val, 'Cntr', 0, '0')
                    return x.a[1] == var and carries(ip, r, x.a[2], 'NamedIter', {'names': ('keys', L), 'values': vc(ip)}, navof(ip))
                if var == 'Map':
                    return x.a[1] == var and carries(ip, r, x.a[2], 'KeyedIter', {'keys': kc(ip), 'values': vc(ip)}, navof(ip))
                return x.a[1] == 'Primitive'
            good.__doc__ = 'the view of a %s' % var
            yield s, good
    r.check(r.method('Node', 'value'), value)
    # iterators
    for ty, fields in (('NodeIter', ('iter',)), ('SeqIter', ('seq',)), ('NamedIter', ('names', 'values')), ('KeyedIter', ('keys', 'values'))):
        nxt = r.impl('Iterator', ty, 'next')
        me = sym('*arg0')

        def spec(ip, st, ty=ty, fields=fields):
            nav = gf(ip, r, me, ty, 'nav')
            its = [gf(ip, r, me, ty, f) for f in fields]
            # the parallel lists have the same length (rule for the construction)
            s = st
            for x in its[1:]:
                s = s and ip.assume(s, eq0(lsub(mk('len', its[0]), mk('len', x))), True)
            if s is None:
                yield None, None
                return
            for s2, empty in ip.branch(s, eq0(mk('len', its[0]))):
                if empty:
                    yield s2, NONE
                    continue
                got = []
                for f, x in zip(fields, its):
                    i = mk('nth', x, 0)
                    if f == 'names':
                        got.append(i)
                    elif ty == 'NodeIter':
                        got.append(node(ip, r, nav, i))
                    else:
                        s2 = inrange(ip, s2, nav, i)
                        got.append(node(ip, r, nav, record(ip, r, nav, i)))
                if s2 is None:
                    yield None, None
                    continue
                ret = some(got[0] if len(got) == 1 else mk('tup', *got))

                def moved(ip, st, cell, its=its, fields=fields, nav=nav):
                    """every list advanced by one"""
                    return all(advanced(gf(ip, r, cell, ty, f), x) for f, x in zip(fields, its)) and gf(ip, r, cell, ty, 'nav') is nav
                yield s2, {'ret': ret, '*arg0': moved}
        r.check(nxt, spec)
        lens = r.method(ty, 'len', must=False)
        if lens is not None:
            f = fields[-1]
            r.check(lens, lambda ip, st, ty=ty, fields=fields: [(st, one_len(ip, r, ty, fields))])
            r.check(r.method(ty, 'is_empty'), lambda ip, st, ty=ty, fields=fields: [(st, one_empty(ip, r, ty, fields))])
    # traversals
    descend(r, r.method('Node', 'descendants_depth'), 'stack')
    descend(r, r.method('Node', 'descendants_breadth'), 'queue')


def one_len(ip, r, ty, fields):
    def good(ip, st, got):
        """the number of remaining children"""
        return any(got is mk('len', gf(ip, r, sym('arg0'), ty, f)) for f in fields)
    return good


def one_empty(ip, r, ty, fields):
    def good(ip, st, got):
        """whether no child remains"""
        for f in fields:
            e = eq0(mk('len', gf(ip, r, sym('arg0'), ty, f)))
            if got is e:
                return True
            d = ip.decide(st, e)
            if d is not None and got in (TRUE, FALSE) and d == (got is TRUE):
                return True
        return False
    return good


def advanced(now, before):
    if now.op == 'iter' and not now.a[1]:
        now = now.a[0]
    return now is mk('skip', before, I(1)) or now.op in ('skip', 'tail') and now.a[0] is before and (len(now.a) < 2 or now.a[1] in (1, I(1)))


def carries(ip, r, x, ty, fields, nav):
    if x.op != 'adt' or x.a[0] != r.p.ty(ty):
        return False
    if gf(ip, r, x, ty, 'nav') is not nav:
        return False
    for f, want in fields.items():
        it = gf(ip, r, x, ty, f)
        if isinstance(want, tuple):
            if it is not mk('iter', want[1], (('proj', 0),)):
                return False
        elif it is not mk('iter', want, ()) and it is not want:
            return False
    return True


def yields(r, fn, spec, ty, field):
    def s(ip, st):
        for s2, L, nav in spec(ip, st):
            f = 'iter' if ty == 'NodeIter' else field
            yield s2, lambda ip, st, got, L=L, nav=nav: carries(ip, r, got, ty, {f: L}, nav)
    r.check(fn, s)


def descend(r, fn, kind):
    """every descendant once: children of the start, then of each visited node, key before value"""
    try:
        ip, outs = r.outcomes(fn)
    except NoAnswer as e:
        r.noans.append(str(e))
        return
    a0 = sym('arg0')
    nav, start = gf(ip, r, a0, 'Node', 'nav'), gf(ip, r, a0, 'Node', 'node')
    inner = gf(ip, r, nav, 'Navigator', 'inner')
    for k, st, v in outs:
        r.paths += 1
        if k == 'panic':
            last, pol = st.path[-1]
            # stored child numbers are positions of nodes (rule for the construction)
            if v[0] in ('unwrap', 'index', 'expect') and last.op == 'le0' and not pol and in_nodes(last.a[0], inner):
                r.ok()
                continue
            r.fail(fn, 'can panic (%s)' % v[0], clip(show_path(st)))
            continue
        if not (v.op == 'list' and len(v.a) == 1 and v.a[0].op == 'each' and v.a[0].a[0].op == 'wl'):
            r.noans.append('%s: nodes are not collected from one work list: %s' % (norm_path(fn['path']), clip(show(v))))
            return
        wl = v.a[0].a[0]
        el = mk('elem', wl)
        rec = ip.idx(inner, el)
        for g, ps in v.a[0].a[1]:
            s1 = ip.assume(st.fork(), le0(ladd(lsub(el, mk('len', inner)), I(1))), True)
            if not implied(ip, s1, g) or len(ps) != 1 or not same(ip, s1, ps[0].a[0], node(ip, r, nav, rec)):
                r.fail(fn, 'a visited node is not listed exactly once', clip(show(v)))
            else:
                r.ok()
        wk, init, steps = ip.worklists[wl]
        if wk != kind:
            r.fail(fn, 'descendants are listed %s first' % ('depth' if wk == 'stack' else 'breadth'))
            continue
        order_ok(r, ip, st, fn, segs(init), start, kind, 'the start')
        for g, ps in steps:
            s1 = under(ip, st.fork(), g)
            if s1 is not None:
                order_ok(r, ip, s1, fn, ps, rec, kind, 'a visited node')


def in_nodes(l, inner):
    k, d = lin(l)
    return k == 1 and d.get(mk('len', inner)) == -1 and len(d) == 2


def order_ok(r, ip, st, fn, pushes, rec, kind, who):
    vc, kc = nf(ip, r, rec, 'value_children'), nf(ip, r, rec, 'key_children')
    lv, lk = mk('len', vc), mk('len', kc)
    for what, facts in (('no keys', [(eq0(lk), True)]), ('keys and values', [(eq0(lsub(lk, lv)), True), (eq0(lk), False)])):
        s = st
        for a, p in facts:
            s = s and ip.assume(s.fork(), a, p)
        if s is None:
            continue
        live = [p for p in pushes if not (p.op == 'all' and ip.decide(s, eq0(mk('len', p.a[0]))) is True)]
        r.paths += 1
        if kind == 'queue':
            want = [vc] if what == 'no keys' else [kc, vc]
            if not all(p.op == 'all' for p in live):
                r.noans.append('%s: children are added as %s' % (norm_path(fn['path']), clip(str([show(p) for p in live]))))
                continue
            r.expect_true([p.a[0] for p in live] == want, fn, 'children of %s (%s) are not appended keys then values' % (who, what), clip(str([show(p) for p in live])))
            continue
        seqs = backward(ip, s, live, vc, kc)
        if not live and ip.decide(s, eq0(lv)) is not True:
            r.fail(fn, 'children of %s (%s) are left out' % (who, what), show_path(s))
            continue
        if seqs is None:
            r.noans.append('%s: children are added as %s' % (norm_path(fn['path']), clip(str([show(p) for p in live]))))
            continue
        want = ['v'] if what == 'no keys' else ['v', 'k']
        r.expect_true(seqs == want, fn, 'children of %s (%s) are not taken in order, each key right before its value' % (who, what), clip(str([show(p) for p in live])))


def backward(ip, st, live, vc, kc):
    """['v','k']: from the last to the first, the value child then the key child is put on the stack"""
    if len(live) != 1 or live[0].op not in ('each', 'all'):
        return None
    if live[0].op == 'all':
        s = live[0].a[0]
        if s.op == 'rev' and s.a[0] is vc:
            return ['v']
        if s is vc:
            return ['forward']
        return None
    src, cases = live[0].a
    e = mk('elem', src)
    if src.op != 'rev':
        return ['forward'] if any(x in (vc, kc) for x in walk(src)) else None
    s = src.a[0]
    if s.op == 'range' and s.a[0] is I(0) and s.a[1].op == 'len' and s.a[1].a[0] in (vc, kc):
        if ip.decide(st, eq0(lsub(s.a[1], mk('len', vc)))) is not True:
            return ['other range']
        names = {mk('idx', vc, e): 'v', mk('idx', kc, e): 'k'}
    elif s is vc or s.op == 'iter' and s.a[0] is vc and not s.a[1]:
        names = {e: 'v'}
    else:
        return ['partial'] if any(x in (vc, kc) for x in walk(src)) else None
    st = st.fork()
    out = []
    for g, ps in cases:
        s1 = under(ip, st.fork(), g)
        if s1 is None:
            continue
        if not implied(ip, st, g):
            return ['sometimes']
        for p in ps:
            n = names.get(p.a[0]) if p.op == 'one' else None
            out.append(n or '?')
    return out
