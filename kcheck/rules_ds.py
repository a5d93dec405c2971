"""Rules for the data structures: copies, accessors, construction, equality and order."""
from core import *

VARIANTS = ('Unit', 'Bool', 'Num', 'Str', 'Barr', 'Tuple', 'Cntr', 'Seq', 'Map')


def run(ip, st, fn, args):
    """outcomes of one of the program's own functions on given terms (used to state a rule relative to it)"""
    return ip.call_fn(st.fork(), fn, list(args), {}, None)


def setup(r):
    r.V, r.K, r.KS, r.BA, r.NU = (r.p.ty(x) for x in ('Value', 'Kserd', 'Kstr', 'Barr', 'Number'))


def inner(ip, r, x, ty):
    return ip.fld(x, ty.split('::')[-1], 0, 'inner')


# ---------------------------------------------------------------------------------------- C01
def copies(r):
    setup(r)
    fam = [r.method('Value', 'into_owned'), r.method('Kserd', 'into_owned'), r.method('Value', 'mk_brw'), r.method('Kserd', 'mk_brw'),
           r.impl('Clone', 'Value', 'clone'), r.impl('Clone', 'Kserd', 'clone')]
    flat = [r.method('Kstr', 'into_owned'), r.method('Barr', 'into_owned'), r.impl('Clone', 'Kstr', 'clone'), r.impl('Clone', 'Barr', 'clone')]

    def hyp(root):
        # a nested member of the family is a faithful copy: each member is checked on its own below
        def h(ip, st, fr, args, info, t):
            return [('ret', st, ip.snap(st, args[0]))]
        return {f['path']: h for f in fam if f is not root}
    for f in fam:
        ops = hyp(f)
        # a direct self call is covered by the same hypothesis
        ops = dict(ops)
        first = [True]

        def selfh(ip, st, fr, args, info, t):
            return [('ret', st, ip.snap(st, args[0]))]
        ops[f['path']] = selfh

        def spec(ip, st, f=f):
            if f['implself']['p'] == r.V:
                return [(s, sym('arg0')) for s, _ in ip.fork_var(st, sym('arg0'), r.V)]
            return [(st, sym('arg0'))]
        r.check(f, spec, opaque=ops, what='copy: ')
    for f in flat:
        r.check(f, lambda ip, st: [(st, sym('arg0'))], what='copy: ')
    # views and constructors of the text and byte payloads keep the payload
    for ty in ('Kstr', 'Barr'):
        T_ = r.p.ty(ty)
        for f, e in ((r.method(ty, 'brwed'), 'wrap'), (r.method(ty, 'owned'), 'wrap'), (r.method(ty, 'as_str' if ty == 'Kstr' else 'as_bytes'), 'unwrap'),
                     (r.impl('Deref', ty, 'deref'), 'unwrap'), (r.impl('AsRef', ty, 'as_ref'), 'unwrap')):
            if e == 'wrap':
                r.check(f, lambda ip, st: [(st, mk('adt', T_, ty, mk('adt', COW, 'Owned', sym('arg0'))))])
            else:
                r.check(f, lambda ip, st: [(st, inner(ip, r, sym('arg0'), T_))])
        for f in r.impls('From', 'from'):
            if f['implself'].get('p') == T_:
                r.check(f, lambda ip, st: [(st, mk('adt', T_, ty, mk('adt', COW, 'Owned', sym('arg0'))))])
        f = r.method(ty, 'to_mut')
        r.check(f, lambda ip, st: [(st, {'ret': payload_place(r, '*arg0', (), inner(ip, r, sym('*arg0'), T_)), '*arg0': sym('*arg0')})])
    f = r.impl('Borrow', 'Kstr', 'borrow')
    r.check(f, lambda ip, st: [(st, inner(ip, r, sym('arg0'), r.KS))])


def payload_place(r, cell, prefix, value):
    """a mutable reference into the argument that currently reads as the stored payload"""
    def chk(ip, st, got):
        if got.op != 'mref':
            return False
        c, path = got.a
        if c != ip.argcells[cell] or pkey(path)[:len(prefix)] != prefix:
            return False
        return same(ip, st, ip.snap(st, got), value)
    chk.__doc__ = 'a reference to the stored payload (%s)' % show(value)
    return chk


def opt_place(r, cell, prefix, value):
    def chk(ip, st, got):
        if got.op != 'adt' or got.a[1] != 'Some':
            return False
        x = got.a[2]
        if x.op == 'adt' and x.a[0].endswith('Accessor'):
            x = x.a[2]
        return payload_place(r, cell, prefix, value)(ip, st, x)
    chk.__doc__ = 'Some(reference to %s)' % show(value)
    return chk


# ---------------------------------------------------------------------------------------- C02
def acc_table(r):
    """accessor -> {variant: (ip, st, value) -> [(state, term)]}; other variants give the negative answer"""
    def pay(v):
        return lambda ip, st, x: [(st, some(ip.fld(x, v, 0, '0')))]

    def txt(v, T_):
        return lambda ip, st, x: [(st, some(inner(ip, r, ip.fld(x, v, 0, '0'), T_)))]

    def num(name, res):
        f = r.method('Number', name)

        def g(ip, st, x):
            out = []
            for k, s, v in run(ip, st, f, [ip.fld(x, 'Num', 0, '0')]):
                if not res:
                    out.append((s, some(v)))
                    continue
                for s2, var in ip.fork_var(s, v, RESULT):
                    out.append((s2, some(ip.fld(v, 'Ok', 0, '0')) if var == 'Ok' else NONE))
            return out
        return g

    def ch(ip, st, x):
        s = inner(ip, r, ip.fld(x, 'Str', 0, '0'), r.KS)
        cs = mk('chars', s)
        return [(s2, some(mk('nth', cs, 0)) if v else NONE) for s2, v in ip.branch(st, eq0(lsub(mk('len', cs), I(1))))]
    acc = r.p.ty('Accessor')
    return {
        'unit': {'Unit': lambda ip, st, x: [(st, TRUE)]},
        'bool': {'Bool': pay('Bool')},
        'ch': {'Str': ch},
        'uint': {'Num': num('as_u128', True)},
        'int': {'Num': num('as_i128', True)},
        'float': {'Num': num('as_f64', False)},
        'str': {'Str': txt('Str', r.KS)},
        'barr': {'Barr': txt('Barr', r.BA)},
        'tuple': {'Tuple': pay('Tuple')},
        'cntr': {'Cntr': lambda ip, st, x: [(st, some(mk('adt', acc, 'Accessor', ip.fld(x, 'Cntr', 0, '0'))))]},
        'seq': {'Seq': pay('Seq')},
        'tuple_or_seq': {'Tuple': pay('Tuple'), 'Seq': pay('Seq')},
        'map': {'Map': pay('Map')},
    }


MUTS = {'bool_mut': ('Bool',), 'num_mut': ('Num',), 'str_mut': ('Str',), 'barr_mut': ('Barr',), 'tuple_mut': ('Tuple',), 'cntr_mut': ('Cntr',),
        'seq_mut': ('Seq',), 'tuple_or_seq_mut': ('Tuple', 'Seq'), 'map_mut': ('Map',)}


def acc_spec(r, tab, x, none=NONE):
    def spec(ip, st):
        for s, v in ip.fork_var(st, x, r.V):
            if v in tab:
                for o in tab[v](ip, s, x):
                    yield o
            else:
                yield s, none
    return spec


def mut_spec(r, vs, cell, x, prefix):
    def spec(ip, st):
        for s, v in ip.fork_var(st, x, r.V):
            if v in vs:
                pv = ip.fld(x, v, 0, '0')
                if v in ('Str', 'Barr'):
                    pv = inner(ip, r, pv, r.KS if v == 'Str' else r.BA)
                yield s, {'ret': opt_place(r, cell, prefix + (('f', v, 0),), pv), cell: sym(cell)}
            else:
                yield s, {'ret': NONE, cell: sym(cell)}
    return spec


def accessors(r):
    setup(r)
    tab = acc_table(r)
    for name, t in tab.items():
        r.check(r.method('Value', name), acc_spec(r, t, sym('arg0'), FALSE if name == 'unit' else NONE))
    for name, vs in MUTS.items():
        r.check(r.method('Value', name), mut_spec(r, vs, '*arg0', sym('*arg0'), ()))
    # access through the node: its identity and its value
    kval = lambda ip, x: ip.fld(x, 'Kserd', 1, 'val')
    r.check(r.impl('Deref', 'Kserd', 'deref'), lambda ip, st: [(st, kval(ip, sym('arg0')))])
    r.check(r.impl('DerefMut', 'Kserd', 'deref_mut'),
            lambda ip, st: [(st, {'ret': payload_place(r, '*arg0', (('f', 'Kserd', 1),), kval(ip, sym('*arg0'))), '*arg0': sym('*arg0')})])

    def idspec(ip, st):
        i = ip.fld(sym('arg0'), 'Kserd', 0, 'id')
        for s, v in ip.fork_var(st, i, OPTION):
            yield s, some(inner(ip, r, ip.fld(i, 'Some', 0, '0'), r.KS)) if v == 'Some' else NONE
    r.check(r.method('Kserd', 'id'), idspec)


# ---------------------------------------------------------------------------------------- C03
def getters(r):
    setup(r)
    tab = acc_table(r)
    acc = r.p.ty('Accessor')

    def num(ip, st, x):
        return [(st, some(ip.fld(x, 'Num', 0, '0')))]

    def unit(ip, st, x):
        return [(st, some(UNIT))]
    names = {'get_' + k: tab[k] for k in ('bool', 'str', 'barr', 'tuple', 'seq', 'tuple_or_seq', 'cntr', 'map')}
    names['get_num'] = {'Num': num}
    names['get_unit'] = {'Unit': unit}
    for name, t in names.items():
        def spec(ip, st, t=t):
            m = ip.fld(sym('arg0'), 'Accessor', 0, '0')
            for s, has in ip.branch(st, mk('has', m, sym('arg1'))):
                if not has:
                    yield s, NONE
                    continue
                x = ip.fld(mk('entryval', m, sym('arg1')), 'Kserd', 1, 'val')
                for o in acc_spec(r, t, x)(ip, s):
                    yield o
        r.check(r.method('Accessor', name), spec)
    for name, vs in MUTS.items():
        def spec(ip, st, vs=vs):
            m = ip.fld(sym('*arg0'), 'Accessor', 0, '0')
            for s, has in ip.branch(st, mk('has', m, sym('arg1'))):
                if not has:
                    yield s, {'ret': NONE, '*arg0': sym('*arg0')}
                    continue
                x = ip.fld(mk('entryval', m, sym('arg1')), 'Kserd', 1, 'val')
                pre = (('f', 'Accessor', 0), ('entry', sym('arg1')), ('f', 'Kserd', 1))
                for o in mut_spec(r, vs, '*arg0', x, pre)(ip, s):
                    yield o
        r.check(r.method('Accessor', 'get_' + name), spec)
    r.check(r.impl('Deref', 'Accessor', 'deref'), lambda ip, st: [(st, ip.fld(sym('arg0'), 'Accessor', 0, '0'))])


# ---------------------------------------------------------------------------------------- C04
ID_BAD = cs_of('(){}[]<> ,./\\=')
NAME_BAD = cs_of(' /\\"\t\'')


def kserd(r, i, v):
    return mk('adt', r.K, 'Kserd', i, v)


def kstr(r, s):
    return mk('adt', r.KS, 'Kstr', mk('adt', COW, 'Owned', s))


def is_err(ip, st, got):
    """an error"""
    return ip.decide(st, ip.is_(got, 'Err', RESULT)) is True


def construction(r):
    setup(r)
    f = r.method('Kserd', 'with_id')
    idt = app('into', sym('arg0'), S('Kstr'))

    def spec(ip, st):
        i = idt
        txt = inner(ip, r, i, r.KS)
        for s, bad in ip.branch(st, mk('anych', mk('chars', txt), ID_BAD)):
            if bad:
                yield s, is_err
            else:
                yield s, ok(kserd(r, some(i), sym('arg1')))
    r.check(f, spec)
    r.check(r.method('Kserd', 'new'), lambda ip, st: [(st, kserd(r, NONE, sym('arg0')))])
    # simple constructors: identity that the validator accepts, payload unchanged
    V = lambda v, x: mk('adt', r.V, v, x)
    bar = lambda s: mk('adt', r.BA, 'Barr', mk('adt', COW, 'Owned', s))
    a0 = sym('arg0')
    simple = {'new_unit': (None, mk('adt', r.V, 'Unit')), 'new_bool': ('bool', V('Bool', a0)), 'new_string': ('String', V('Str', kstr(r, a0))),
              'new_str': ('str', V('Str', kstr(r, a0))), 'new_barr': ('barr', V('Barr', bar(a0))), 'new_barrv': ('ByteVec', V('Barr', bar(a0)))}
    for name, (i, v) in simple.items():
        r.check(r.method('Kserd', name), lambda ip, st: [(st, kserd(r, some(kstr(r, S(i))) if i else NONE, v))])
    for name in ('new_string', 'new_str', 'new_barr', 'new_barrv'):
        r.check(r.method('Value', name), lambda ip, st: [(st, simple[name][1])])
    # field names
    entries = mk('bmap', mk('each', a0, (((), (one(mk('tup', app('into', ip_fld(mk('elem', a0), 0), S('Kstr')), ip_fld(mk('elem', a0), 1))),)),)))
    for ty, wrap in (('Value', lambda v: v), ('Kserd', lambda v: kserd(r, NONE, v))):
        fn = r.method(ty, 'new_cntr')

        def spec(ip, st, fn=fn):
            return [(st, 0)]
        ip, outs = r.outcomes(fn)
        nok = nerr = 0
        for k, st, v in outs:
            r.paths += 1
            if k == 'panic':
                r.fail(fn, 'can panic', show_path(st))
                continue
            for s, var in ip.fork_var(st, v, RESULT):
                if var == 'Ok':
                    nok += 1
                    r.expect_true(same(ip, s, v, ok(wrap(V('Cntr', entries)))), fn, 'accepted container does not hold exactly the given fields', clip(show(v)))
                    r.expect_true(all_valid(ip, s, r, a0, entries), fn, 'a field name is not fully validated before the container is accepted', show_path(s))
                else:
                    nerr += 1
                    r.expect_true(some_invalid(ip, s, r, a0, entries), fn, 'rejects although no field name is shown to be invalid', show_path(s))
        r.expect_true(nok and nerr, fn, 'must be able to accept and to reject')
        r.check(r.method(ty, 'new_map'), lambda ip, st, wrap=wrap: [(st, wrap(V('Map', a0)))])


def keys_of(ip, r, a0, entries):
    return ((entries, inner(ip, r, ip_fld(mk('elem', entries), 0), r.KS)), (a0, inner(ip, r, app('into', ip_fld(mk('elem', a0), 0), S('Kstr')), r.KS)))


def name_states(ip, st, key):
    """-> [(state, valid?)] : a field name is valid when not empty, not led by a digit, and free of reserved characters"""
    cs = mk('chars', key)
    for s, empty in ip.branch(st, eq0(mk('len', key))):
        if empty:
            yield s, False
            continue
        for s2, dig in ip.branch(s, inset(mk('nth', cs, 0), CS_DIGIT)):
            if dig:
                yield s2, False
                continue
            for s3, bad in ip.branch(s2, mk('anych', cs, NAME_BAD)):
                yield s3, not bad


def generic_elem(ip, st, src):
    """states of an arbitrary element of src that agree with every `no element such that` decision on the path"""
    out = [st]
    for g, pol in list(st.facts.b.items()):
        if pol is False and g.op == 'any' and g.a[0] is src:
            nxt = []
            for s in out:
                pre = s
                for a, p in g.a[1]:
                    if pre is None:
                        break
                    n = ip.assume(pre, a, not p)
                    if n is not None:
                        nxt.append(n)
                    pre = ip.assume(pre, a, p)
            out = nxt
    return out


def all_valid(ip, st, r, a0, entries):
    for src, key in keys_of(ip, r, a0, entries):
        if all(v for s in generic_elem(ip, st, src) for _, v in name_states(ip, s, key)):
            return True
    return False


def some_invalid(ip, st, r, a0, entries):
    for src, key in keys_of(ip, r, a0, entries):
        if any(g.op == 'any' and g.a[0] is src and v is True for g, v in st.facts.b.items()):
            if all(not v for _, v in name_states(ip, st, key)):
                return True
    return False


def ip_fld(x, i):
    return mk('fld', x, '', str(i))


# ---------------------------------------------------------------------------------------- C05
def pay_cmp(r, ip, v, x, y):
    """terms of the payloads that carry the order of a variant"""
    if v == 'Unit':
        return None
    a, b = ip.fld(x, v, 0, '0'), ip.fld(y, v, 0, '0')
    if v in ('Str', 'Barr'):
        t = r.KS if v == 'Str' else r.BA
        return inner(ip, r, a, t), inner(ip, r, b, t)
    return a, b


def ord_is(want):
    def chk(ip, st, got):
        return ord_val(ip, st, got) == want
    chk.__doc__ = want
    return chk


def ord_val(ip, st, t):
    """Less/Equal/Greater when the facts on the path settle the term"""
    if t.op == 'adt' and t.a[0] == OPTION and t.a[1] == 'Some':
        t = t.a[2]
    if t.op == 'adt' and t.a[0] == ORD:
        return t.a[1]
    x, y = cmp_args(t)
    if x is not None:
        for v in ('Less', 'Equal', 'Greater'):
            if ip.decide(st, ip.is_(t, v, ORD)) is True:
                return v
        try:
            d = lsub(x, y)
        except Exception:
            return None
        if ip.decide(st, eq0(d)) is True:
            return 'Equal'
        if ip.decide(st, le0(ladd(d, I(1)))) is True:
            return 'Less'
        if ip.decide(st, le0(ladd(lscale(d, -1), I(1)))) is True:
            return 'Greater'
    return None


def cmp_args(t):
    if t.op == 'cmp':
        return t.a
    if t.op == 'app' and t.a[0] in ('cmp', 'ncmp', 'kcmp', 'vcmp'):
        return t.a[1:]
    return None, None


def rev_name(o):
    return {'Less': 'Greater', 'Greater': 'Less'}.get(o, o)


def pair_ord(r, ip, a, b):
    """the result is the order of two payloads by their own comparison"""
    def chk(ip, st, got):
        if got.op == 'adt' and got.a[0] == OPTION:
            if got.a[1] != 'Some':
                return False
            got = got.a[2]
        if got.op == 'adt' and got.a[0] == ORD:
            # already split on the comparison of the same payloads
            for f in ('cmp', 'ncmp', 'kcmp', 'vcmp'):
                for t, w in ((app(f, a, b), got.a[1]), (app(f, b, a), rev_name(got.a[1])), (mk('cmp', a, b), got.a[1]), (mk('cmp', b, a), rev_name(got.a[1]))):
                    if ip.decide(st, ip.is_(t, w, ORD)) is True:
                        return True
            p, q = ip.decide(st, a), ip.decide(st, b)
            if p is not None and q is not None:
                return got.a[1] == ('Equal' if p == q else 'Less' if q else 'Greater')
            return got.a[1] == 'Equal' and a is b
        flip = False
        if got.op == 'rev_ord':
            flip, got = True, got.a[0]
        x, y = cmp_args(got)
        if x is None:
            return False
        return (x is a and y is b) if not flip else (x is b and y is a)
    chk.__doc__ = 'the order of %s and %s' % (show(a), show(b))
    return chk


def pair_eq(r, ip, a, b):
    def chk(ip, st, got):
        c = eq_term(a, b)
        if got in (TRUE, FALSE):
            w = got is TRUE
            if any(ip.decide(st, x) is w for x in c):
                return True
            for f in ('cmp', 'ncmp', 'kcmp', 'vcmp'):
                for p, q in ((a, b), (b, a)):
                    if ip.decide(st, ip.is_(app(f, p, q), 'Equal', ORD)) is w:
                        return True
            return False
        if got.op == 'is' and got.a[1] == 'Equal' and got.a[2] == ORD:
            x, y = cmp_args(got.a[0])
            return x is not None and {x, y} == {a, b}
        if got.op == 'app' and got.a[0] in ('neq', 'veq', 'keq'):
            return set(got.a[1:]) == {a, b}
        return got in c
    chk.__doc__ = '%s equals %s' % (show(a), show(b))
    return chk


def eq_term(a, b):
    return (interp.eqs(a, b), interp.eqs(b, a), app('neq', a, b), app('neq', b, a), app('veq', a, b), app('veq', b, a), eq0(lsub(a, b)))


def opaque2(name):
    def h(ip, st, fr, args, info, t):
        return [('ret', st, app(name, *[ip.snap(st, ip.deref(st, x)) for x in args]))]
    return h


def opaque_some(name):
    def h(ip, st, fr, args, info, t):
        return [('ret', st, some(app(name, *[ip.snap(st, ip.deref(st, x)) for x in args])))]
    return h


def equality(r):
    setup(r)
    a, b = sym('arg0'), sym('arg1')
    vcmp, veq, vpc = r.impl('Ord', 'Value', 'cmp'), r.impl('PartialEq', 'Value', 'eq'), r.impl('PartialOrd', 'Value', 'partial_cmp')
    kcmp, keq, kpc = r.impl('Ord', 'Kserd', 'cmp'), r.impl('PartialEq', 'Kserd', 'eq'), r.impl('PartialOrd', 'Kserd', 'partial_cmp')
    ncmp, neq, npc = r.impl('Ord', 'Number', 'cmp'), r.impl('PartialEq', 'Number', 'eq', arg=r.NU), r.impl('PartialOrd', 'Number', 'partial_cmp', arg=r.NU)
    hyp = {ncmp['path']: opaque2('ncmp'), neq['path']: opaque2('neq'), npc['path']: opaque_some('ncmp'), kpc['path']: opaque_some('kcmp'), kcmp['path']: opaque2('kcmp'), keq['path']: opaque2('keq')}
    rank = {v: i for i, v in enumerate(VARIANTS)}

    def kinds(ip, st):
        for s, v in ip.fork_var(st, a, r.V):
            for s2, w in ip.fork_var(s, b, r.V):
                yield s2, v, w

    def empties(ip, st, x, v, y, w):
        """a container and a tuple compare as what is inside the tuple against nothing, when the container is empty"""
        c, t = (ip.fld(x, v, 0, '0'), ip.fld(y, w, 0, '0')) if v == 'Cntr' else (ip.fld(y, w, 0, '0'), ip.fld(x, v, 0, '0'))
        for s, e in ip.branch(st, eq0(ip.length(c))):
            for s2, e2 in ip.branch(s, eq0(ip.length(t))):
                yield s2, e, e2

    def cspec(ip, st):
        for s, v, w in kinds(ip, st):
            if v == w:
                p = pay_cmp(r, ip, v, a, b)
                yield s, pair_ord(r, ip, *p) if p else ord_is('Equal')
            elif {v, w} == {'Cntr', 'Tuple'}:
                for s2, ce, te in empties(ip, s, a, v, b, w):
                    o = 'Greater' if not ce else 'Equal' if te else 'Less'
                    yield s2, ord_is(o if v == 'Cntr' else rev_name(o))
            else:
                yield s, ord_is('Less' if rank[v] < rank[w] else 'Greater')

    def espec(ip, st):
        for s, v, w in kinds(ip, st):
            if v == w:
                p = pay_cmp(r, ip, v, a, b)
                yield s, pair_eq(r, ip, *p) if p else TRUE
            elif {v, w} == {'Cntr', 'Tuple'}:
                for s2, ce, te in empties(ip, s, a, v, b, w):
                    yield s2, B(ce and te)
            else:
                yield s, FALSE
    r.check(vcmp, cspec, opaque=hyp, what='order: ')
    r.check(vpc, cspec, opaque=hyp, what='partial order: ')
    r.check(veq, espec, opaque=hyp, what='equality: ')
    # a node compares as its value, whatever its identity
    hyp2 = {vcmp['path']: opaque2('vcmp'), veq['path']: opaque2('veq'), vpc['path']: opaque_some('vcmp')}

    def val(ip, x):
        return ip.fld(x, 'Kserd', 1, 'val')
    r.check(kcmp, lambda ip, st: [(st, pair_ord(r, ip, val(ip, a), val(ip, b)))], opaque=hyp2, what='node order: ')
    r.check(kpc, lambda ip, st: [(st, pair_ord(r, ip, val(ip, a), val(ip, b)))], opaque={**hyp2, kcmp['path']: lambda ip, st, fr, args, info, t: opaque2('vcmp')(
        ip, st, fr, [val(ip, ip.deref(st, x)) for x in args], info, t)}, what='node order: ')
    r.check(keq, lambda ip, st: [(st, pair_eq(r, ip, val(ip, a), val(ip, b)))], opaque=hyp2, what='node equality: ')
    # text and bytes compare by content, borrowed or owned
    for ty, T_ in (('Kstr', r.KS), ('Barr', r.BA)):
        for tr, name in (('PartialEq', 'eq'), ('PartialOrd', 'partial_cmp'), ('Ord', 'cmp')):
            for f in r.impls(tr, name):
                s = f['implself']
                while s['k'] == 'ref':
                    s = s['t']
                if s.get('p') != T_:
                    continue
                o = f['implargs'][1] if len(f['implargs']) > 1 else s
                while o['k'] == 'ref':
                    o = o['t']

                def spec(ip, st, o=o, name=name):
                    x = inner(ip, r, a, T_)
                    y = inner(ip, r, b, T_) if o.get('p') == T_ else b
                    return [(st, pair_eq(r, ip, x, y) if name == 'eq' else pair_ord(r, ip, x, y))]
                r.check(f, spec, what='content comparison: ')
        h = r.impl('Hash', ty, 'hash')

        def spec(ip, st):
            def chk(ip, st, got):
                "a hasher fed with the plain content"
                x = inner(ip, r, a, T_)
                return got.op == 'eff' and got.a[0].endswith('Hash::hash<%s>' % ('str' if ty == 'Kstr' else '[]')) and got.a[1:] == (1, x, sym('*arg1'))
            return [(st, {'*arg1': chk})]
        r.check(h, spec)
