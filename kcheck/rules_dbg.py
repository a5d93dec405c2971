"""What a debug text shows: the identity, the kind and the whole content of a value, in stored order."""
from terms import *
from core import NoAnswer, same, cases_total
from rules_ds import setup, inner
import rules_nav

KINDS = ('Unit', 'Bool', 'Num', 'Str', 'Barr', 'Tuple', 'Cntr', 'Seq', 'Map')


def shown(r):
    setup(r)
    values(r)
    nodes(r)
    held(r, 'Kstr')
    held(r, 'Barr')
    numbers(r)
    located(r)


def pieces(x):
    return list(x.a) if x.op == 'str' else [x]


def read(ip, x):
    """-> (what is shown, in order; the constant text around it)"""
    if x.op == 'c':
        return [], [str(x.a[1])]
    if x.op == 'str':
        return join(read(ip, p) for p in x.a)
    if x.op in ('dbg', 'disp', 'chr'):
        return read(ip, x.a[-1]) if x.a[-1].op == 'str' else ([x.a[-1]], [])
    if x.op == 'fmtopt':
        # a precision cuts the text off
        return ([], ['cut']) if 'prec' in x.a[1] or 'dyn' in x.a[1] else read(ip, x.a[0])
    if x.op == 'dbgout':
        c, k = join(read(ip, y) for y in segs(x.a[2]))
        return c, ['%s %s' % (x.a[0], show(x.a[1]))] + (k if x.a[0].startswith('struct') else [])
    if x.op == 'one':
        return read(ip, x.a[0])
    if x.op == 'tup':
        return join(read(ip, y) for y in x.a)
    if x.op == 'all':
        return [('walk', x.a[0], None)], []
    if x.op == 'each':
        ways = [join(read(ip, p) for p in ps)[0] for _, ps in cases_total(ip, x.a[1])]
        if not ways or any(w != ways[0] for w in ways):
            return [('some of', x.a[0])], []
        return [('walk', x.a[0], tuple(ways[0]))], []
    return [x], []


def join(xs):
    c, k = [], []
    for a, b in xs:
        c += a
        k += b
    return c, k


def forms(ip, r, x):
    """a text or byte array and what it wraps"""
    out = [x]
    for ty in (r.KS, r.BA):
        i = inner(ip, r, x, ty)
        out += [i] + [ip.fld(i, v, 0, '0') for v in ('Borrowed', 'Owned')]
    return out


def is_(ip, st, r, got, want):
    return isinstance(got, T) and any(same(ip, st, got, w) is True for w in forms(ip, r, want))


def walks(ip, st, r, got, src, n):
    """every element of src, or every key and its value"""
    if isinstance(got, T) or got[0] != 'walk' or same(ip, st, got[1], src) is not True:
        return False
    if got[2] is None:
        return True
    el = mk('elem', got[1])
    want = [el] if n == 1 else [ip.fld(el, '', 0, '0'), ip.fld(el, '', 1, '1')]
    return len(got[2]) == n and all(is_(ip, st, r, g, w) for g, w in zip(got[2], want))


def values(r):
    fn = r.impl('Debug', 'Value', 'fmt')
    a = sym('arg0')
    kinds = {}

    def spec(ip, st):
        for s, v in ip.fork_var(st, a, r.V):
            x = ip.fld(a, v, 0, '0')

            def chk(ip, st, got, v=v, x=x):
                """a text with the whole content"""
                c, k = read(ip, got)
                if v == 'Bool' and not c:
                    b = ip.decide(st, x)
                    ok_ = b is not None and any(str(b).lower() in t.lower() for t in k)
                    k = [t.replace('true', '').replace('false', '') for t in k]
                elif v == 'Unit':
                    ok_ = not c and bool(k)
                elif v in ('Tuple', 'Seq', 'Cntr', 'Map'):
                    ok_ = len(c) == 1 and walks(ip, st, r, c[0], x, 1 if v in ('Tuple', 'Seq') else 2) or not c and ip.decide(st, eq0(ip.length(x))) is True
                else:
                    ok_ = len(c) == 1 and is_(ip, st, r, c[0], x)
                if not c or ok_:
                    kinds.setdefault(tuple(k), set()).add(v)
                return ok_
            yield s, {'ret': ok(UNIT), '*arg1': chk}
    r.check(fn, spec, what='debug text: ')
    for k, vs in kinds.items():
        r.expect_true(len(vs) == 1, fn, 'debug text: %s read the same' % ' and '.join(sorted(vs)))
    r.expect_true({v for vs in kinds.values() for v in vs} == set(KINDS) or bool(r.bad), fn, 'debug text: a kind is never shown')


def nodes(r):
    fn = r.impl('Debug', 'Kserd', 'fmt')
    a = sym('arg0')

    def spec(ip, st):
        f = {n['n']: ip.fld(a, 'Kserd', j, n['n']) for j, n in enumerate(r.p.adts[r.K]['v'][0]['f'])}
        for s, v in ip.fork_var(st, f['id'], 'core::option::Option'):
            def chk(ip, st, got, v=v):
                """identity, then content"""
                c, k = read(ip, got)
                if not c or not same(ip, st, c[-1], f['val']) is True:
                    return False
                return names(ip, st, r, c[:-1], f['id'], v)
            yield s, {'ret': ok(UNIT), '*arg1': chk}
    r.check(fn, spec, what='debug text: ')


def names(ip, st, r, c, id_, v):
    """the identity, or that there is none"""
    if v == 'None':
        return not c or len(c) == 1 and same(ip, st, c[0], id_) is True
    if len(c) != 1 or not isinstance(c[0], T):
        return False
    x = ip.fld(id_, 'Some', 0, '0')
    g = c[0]
    if g.op == 'adt' and g.a[1] == 'Some':
        g = g.a[2]
    return same(ip, st, g, id_) is True or is_(ip, st, r, g, x)


def held(r, ty):
    """text and bytes show alike, whether borrowed or owned"""
    fn = r.impl('Debug', ty, 'fmt')
    a = sym('arg0')
    around = set()

    def spec(ip, st):
        def chk(ip, st, got):
            """the whole text or bytes"""
            c, k = read(ip, got)
            around.add(tuple(k))
            return len(c) == 1 and c[0] is not a and is_(ip, st, r, c[0], a)
        yield st, {'ret': ok(UNIT), '*arg1': chk}
    r.check(fn, spec, what='debug text: ')
    r.expect_true(len(around) == 1, fn, 'debug text: borrowed and owned read differently')


def numbers(r):
    n = r.p.ty('Number')
    fn = r.impl('Debug', 'Number', 'fmt')
    a = sym('arg0')

    def spec(ip, st):
        for s, v in ip.fork_var(st, a, n):
            def chk(ip, st, got, v=v):
                """the stored number"""
                c, k = read(ip, got)
                return len(c) == 1 and same(ip, st, c[0], ip.fld(a, v, 0, '0')) is True
            yield s, {'ret': ok(UNIT), '*arg1': chk}
    r.check(fn, spec, what='debug text: ')


def located(r):
    """a node of a navigator shows what the queries answer"""
    rules_nav.setup(r)
    fn = r.impl('Debug', 'Node', 'fmt')
    a = sym('arg0')
    q = {n: r.method('Node', n) for n in ('index', 'parent', 'is_key', 'idx_in_parent', 'kserd')}
    kinds = {}

    def up(ip):
        return rules_nav.nf(ip, r, rules_nav.gf(ip, r, a, 'Node', 'node'), 'parent')

    def ask(ip, st, n, x=a):
        """the answers on this path"""
        return [(s, v) for k, s, v in ip.call_fn(st.fork(), q[n], [x], {}, None) if k == 'ret']

    def spec(ip, st):
        def chk(ip, st, got):
            """identity, kind, position, parent, whether a key, and place in the parent"""
            outs = [p for p in pieces(got) if p.op == 'dbgout' and p.a[0] == 'struct']
            if len(outs) != 1:
                raise NoAnswer('debug text of a node is not a list of named parts')
            f = {}
            for x in segs(outs[0].a[2]):
                if x.op != 'one' or x.a[0].op != 'tup' or x.a[0].a[0].op != 'c':
                    raise NoAnswer('debug text of a node is not a list of named parts')
                f[x.a[0].a[0].a[1]] = x.a[0].a[1]
            for s, k in ask(ip, st, 'kserd'):
                kf = {n['n']: ip.fld(k, 'Kserd', j, n['n']) for j, n in enumerate(r.p.adts[r.K]['v'][0]['f'])}
                for s2, v in ip.fork_var(s, kf['id'], 'core::option::Option'):
                    if 'id' not in f or not names(ip, s2, r, [f['id']] if f['id'] is not NONE or v == 'Some' else [], kf['id'], v):
                        return False
                for s2, v in ip.fork_var(s, kf['val'], r.V):
                    prim = v in ('Unit', 'Bool', 'Num', 'Str', 'Barr')
                    if prim and ('value' not in f or same(ip, s2, f['value'], kf['val']) is not True):
                        return False
                    if 'value-type' not in f:
                        return False
                    kinds.setdefault(show(f['value-type']), set()).add('Primitive' if prim else v)
            for label, n in (('index', 'index'), ('is_key', 'is_key'), ('idx_in_parent', 'idx_in_parent')):
                if label not in f or not all(same(ip, s, f[label], v) is True for s, v in ask(ip, st, n)):
                    return False
            for s, v in ask(ip, st, 'parent'):
                for s2, w in ip.fork_var(s, v, 'core::option::Option'):
                    if 'parent' not in f:
                        return False
                    want = [NONE] if w == 'None' else [some(y) for _, y in ask(ip, s2, 'index', ip.fld(v, 'Some', 0, '0'))]
                    # the recorded parent is the index of the parent
                    if same(ip, s2, f['parent'], up(ip)) is not True and not all(same(ip, s2, f['parent'], y) is True for y in want):
                        return False
            return True
        yield st, {'ret': ok(UNIT), '*arg1': chk}
    r.check(fn, spec, what='debug text: ')
    for k, vs in kinds.items():
        r.expect_true(len(vs) == 1, fn, 'debug text: %s read the same' % ' and '.join(sorted(vs)))
