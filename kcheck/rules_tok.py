"""Rules for the consuming conversions of standard types into values."""
from core import *
from prog import ty_str
from rules_ds import setup, kserd, kstr
from rules_num import wide

NUMS = {'usize': 'Uint', 'u8': 'Uint', 'u16': 'Uint', 'u32': 'Uint', 'u64': 'Uint', 'u128': 'Uint',
        'isize': 'Int', 'i8': 'Int', 'i16': 'Int', 'i32': 'Int', 'i64': 'Int', 'i128': 'Int', 'f64': 'Float'}
NEST = 'ToKserd::into_kserd'


def nested(st, got, x):
    """the conversion of x met on this path"""
    for g in [got] + [a for a, _ in st.path]:
        for t in walk(g):
            if t.op == 'app' and t.a[0].endswith(NEST) and t.a[1] is x:
                return t
    return None


def to_kserd(r):
    setup(r)
    a = sym('arg0')
    V = lambda v, *x: mk('adt', r.V, v, *x)
    named = lambda n: some(kstr(r, S(n)))
    node = lambda n, v: kserd(r, named(n) if n else NONE, v)
    txt = lambda s: V('Str', kstr(r, s))
    # every conversion the crate offers, by the type it converts
    fns = {}
    for f in r.impls('ToKserd', 'into_kserd'):
        fns.setdefault(ty_str(f['implself']), []).append(f)
    flat = {'()': node(None, V('Unit')), 'bool': node('bool', V('Bool', a)), 'char': node('char', txt(mk('str', mk('chr', a)))),
            '&str': node('str', txt(a)), 'alloc::string::String': node('String', txt(a))}
    for n, k in NUMS.items():
        flat[n] = node(n, V('Num', mk('adt', r.NU, k, a)))

    def take(name):
        fs = fns.pop(name, [])
        return r.pick('ToKserd for ' + name, fs)
    for n, want in flat.items():
        r.check(take(n), lambda ip, st: [(st, ok(want))])

    def bad_text(ip, st, v):
        return any(g.op == 'is' and g.a[0] is wide(a) and (g.a[1] == 'Err') == p for g, p in st.path)
    r.check(take('f32'), lambda ip, st: [(st, ok(node('f32', V('Num', mk('adt', r.NU, 'Float', ip.fld(wide(a), 'Ok', 0, '0'))))))], panics=bad_text)
    rest = dict(fns)
    tuples = arrays = 0
    for name, fs in sorted(rest.items()):
        f = r.pick('ToKserd for ' + name, fs)
        s = f['implself']
        if s['k'] == 'tuple':
            tuples += 1
            many(r, f, [('', i) for i in range(len(s['a']))], lambda items: node(None, V('Tuple', mk('list', *[one(i) for i in items]))))
        elif s['k'] == 'array':
            arrays += 1
            each_of(r, f, lambda xs: node('array', V('Seq', xs)))
        elif s.get('p') == 'alloc::vec::Vec':
            each_of(r, f, lambda xs: node('Vec', V('Seq', xs)))
        elif s.get('p') == 'alloc::boxed::Box':
            r.check(f, lambda ip, st: [(st, inside)])
        elif s.get('p') == r.K:
            r.check(f, lambda ip, st: [(st, ok(a))])
        elif s.get('p') == OPTION:
            def spec(ip, st):
                for s2, v in ip.fork_var(st, a, OPTION):
                    yield s2, ok(node('None', V('Tuple', mk('list')))) if v == 'None' else conv_of(ip.fld(a, 'Some', 0, '0'))
            r.check(f, spec)
        elif s.get('p') == RESULT:
            def spec(ip, st):
                for s2, v in ip.fork_var(st, a, RESULT):
                    t = nested(s2, UNIT, ip.fld(a, v, 0, '0'))
                    if t is None:
                        yield s2, inside
                        continue
                    for s3, w in ip.fork_var(s2, t, RESULT):
                        q = ip.fld(t, w, 0, '0')
                        yield s3, err(q) if w == 'Err' else ok(node(v, V('Tuple', mk('list', one(q)))))
            r.check(f, spec)
        else:
            continue
        del fns[name]
    for what, n, floor in (('tuples', tuples, 12), ('arrays', arrays, 32)):
        if n < floor:
            raise NoAnswer('conversions of %s: %d found, %d expected' % (what, n, floor))
    for must in ('alloc::vec::Vec', 'alloc::boxed::Box', r.K, OPTION, RESULT):
        if not any(f['implself'].get('p') == must for fs in rest.values() for f in fs):
            raise NoAnswer('conversion of %s is missing' % must)
    for x in fns:
        r.notes.append('conversion of %s is not covered by the table' % x)
    # errors keep what was wrong
    E = r.p.ty('ToKserdErr')
    for f in r.impls('From', 'from'):
        if f['implself'].get('p') == E:
            src = f['inputs'][0]['p'].split('::')[-1]
            r.check(f, lambda ip, st: [(st, mk('adt', E, src, a))])


def inside(ip, st, got):
    """the conversion of the value inside"""
    a = sym('arg0')
    return got.op == 'app' and got.a[0].endswith(NEST) and got.a[1].op == 'fld' and got.a[1].a[0] is a and got.a[1].a[1] == 'Box'


def conv_of(x):
    def chk(ip, st, got):
        t = nested(st, got, x)
        return t is not None and same(ip, st, got, t)
    chk.__doc__ = 'the conversion of %s' % show(x)
    return chk


def many(r, f, fields, node):
    """fixed fields: all of them in order, or the error of one that failed"""
    def spec(ip, st):
        xs = [ip.fld(sym('arg0'), v, i, '') for v, i in fields]
        ts = [nested(st, UNIT, x) for x in xs]
        bad = [t for t in ts if t is not None and ip.decide(st, ip.is_(t, 'Err', RESULT)) is True]
        if bad:
            yield st, failing(bad)
        elif None in ts:
            yield st, every
        else:
            for t in ts:
                st = ip.assume(st, ip.is_(t, 'Ok', RESULT), True) if st is not None else None
            yield st, ok(node([ip.fld(t, 'Ok', 0, '0') for t in ts]))
    r.check(f, spec)


def each_of(r, f, node):
    """a run of elements: each converted in order, or the error of one that failed"""
    def spec(ip, st):
        a = sym('arg0')
        # the conversion of the generic element
        t = None
        for g, _ in st.path:
            for u in walk(g):
                if u.op == 'app' and u.a[0].endswith(NEST) and u.a[1] is mk('elem', a):
                    t = u
        if t is None:
            for s, b in ip.branch(st, eq0(ip.length(a))):
                yield s, ok(node(mk('list'))) if b else every
            return
        isn = ip.is_(t, 'Err', RESULT)
        for s, b in ip.branch(st, mk('any', a, ((isn, True),))):
            if b:
                yield s, err(ip.fld(t, 'Err', 0, '0'))
            else:
                yield s, ok(node(mk('list', mk('each', a, (((), (one(ip.fld(t, 'Ok', 0, '0')),)),)))))
    r.check(f, spec)


def every(ip, st, got):
    """every element converted"""
    return False


def failing(bad):
    def chk(ip, st, got):
        return any(same(ip, st, got, err(ip.fld(t, 'Err', 0, '0'))) for t in bad)
    chk.__doc__ = 'the error of the failing element'
    return chk
