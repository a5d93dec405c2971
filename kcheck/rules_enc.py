"""Rules for encoding through serde: the mapping of the serde data model and of containers built step by step."""
from core import *
from rules_ds import setup, kserd, kstr, inner, ID_BAD, is_err, run

PRIMS = {'i8': 'Int', 'i16': 'Int', 'i32': 'Int', 'i64': 'Int', 'i128': 'Int', 'u8': 'Uint', 'u16': 'Uint', 'u32': 'Uint', 'u64': 'Uint', 'u128': 'Uint', 'f64': 'Float'}


def cell_arg(term, name='*arg0'):
    """a mutable reference argument whose target currently is the given value"""
    def a(ip, st):
        c = ('h', ip.fresh())
        st.cells[c] = term
        ip.argcells[name] = c
        return mk('mref', c, ())
    return a


def nested(ip, st, x):
    """the call that encodes x on this path: its result term, or None when x was not encoded"""
    for g, pol in list(st.path):
        for t in walk(g):
            if t.op == 'app' and t.a[0].endswith('Serialize::serialize') and t.a[1] is x:
                return t
    return None


def okv(ip, t):
    return ip.fld(t, 'Ok', 0, '0')


def errv(ip, t):
    return ip.fld(t, 'Err', 0, '0')


class Enc:
    def __init__(self, r):
        setup(r)
        self.r = r

    def fn(self, name, must=True):
        return self.r.impl('Serializer', 'Encoder', name, must=must)

    def V(self, v, *x):
        return mk('adt', self.r.V, v, *x)

    def name_cases(self, ip, st, n):
        """the path split on whether n is acceptable as an identity"""
        return ip.branch(st, mk('anych', mk('chars', n), ID_BAD))


def named(r, i):
    return some(kstr(r, i if isinstance(i, T) else S(i)))


def fp(ip, st, v):
    """the shortest text of an f32 always reads back"""
    from rules_num import wide
    return any(g.op == 'is' and g.a[1] == 'Ok' and not p or g.op == 'is' and g.a[1] == 'Err' and p for g, p in st.path if g.op == 'is' and g.a[0] is wide(sym('arg1')))


def encoder(r):
    e = Enc(r)
    a1, a2, a3, a4 = (sym('arg%d' % i) for i in (1, 2, 3, 4))
    V = e.V
    num = lambda k, x: V('Num', mk('adt', r.NU, k, x))
    txt = lambda s: V('Str', kstr(r, s))
    bar = lambda s: V('Barr', mk('adt', r.BA, 'Barr', mk('adt', COW, 'Owned', s)))
    empty = V('Tuple', mk('list'))
    # scalars
    for p, k in PRIMS.items():
        r.check(e.fn('serialize_' + p), lambda ip, st: [(st, ok(kserd(r, named(r, p), num(k, a1))))])
    from rules_num import wide
    r.check(e.fn('serialize_f32'), lambda ip, st: [(st, ok(kserd(r, named(r, 'f32'), num('Float', okv(ip, wide(a1))))))], panics=fp)
    one_ = {
        'bool': ('bool', V('Bool', a1)),
        'char': ('char', txt(mk('str', mk('chr', a1)))),
        'str': ('str', txt(a1)),
        'bytes': ('barr', bar(a1)),
        'none': ('None', empty),
        'unit': (None, V('Unit')),
    }
    for n, (i, v) in one_.items():
        r.check(e.fn('serialize_' + n), lambda ip, st: [(st, ok(kserd(r, named(r, i) if i else NONE, v)))])
    f = e.fn('collect_str', must=False)
    if f is not None:
        r.check(f, lambda ip, st: [(st, ok(kserd(r, named(r, 'str'), txt(mkstr([mk('disp', 'T', a1)])))))])
    # named empties
    for n, x in (('unit_struct', a1), ('unit_variant', a3)):
        def spec(ip, st, x=x):
            for s, bad in e.name_cases(ip, st, x):
                yield s, is_err if bad else ok(kserd(r, named(r, x), empty))
        r.check(e.fn('serialize_' + n), spec)
    # wrappers around one nested value
    for n, x, y in (('some', None, a1), ('newtype_struct', a1, a2), ('newtype_variant', a3, a4)):
        def spec(ip, st, x=x, y=y):
            t = nested(ip, st, y)
            if t is None:
                # only a bad name may be decided before the value is encoded
                for s, bad in e.name_cases(ip, st, x) if x is not None else [(st, False)]:
                    yield s, is_err if bad else lost
                return
            for s, v in ip.fork_var(st, t, RESULT):
                if v == 'Err':
                    yield s, propagate(t)
                    continue
                want = ok(kserd(r, named(r, 'Some' if x is None else x), V('Tuple', mk('list', one(okv(ip, t))))))
                if x is None:
                    yield s, want
                    continue
                for s2, bad in e.name_cases(ip, s, x):
                    yield s2, is_err if bad else want
        r.check(e.fn('serialize_' + n), spec)
    builders(r, e)
    # entry point
    r.check(r.method('Kserd', 'enc'), lambda ip, st: [(st, enc_result(sym('arg0')))])


def enc_result(x):
    def chk(ip, st, got):
        "the encoding of the argument"
        if got.op == 'app' and got.a[0].endswith('Serialize::serialize'):
            return got.a[1] is x
        t = nested(ip, st, x)
        return t is not None and same(ip, st, got, t)
    return chk


def lost(ip, st, got):
    """the nested value"""
    return False


def propagate(t):
    def chk(ip, st, got):
        return same(ip, st, got, err(ip.fld(t, 'Err', 0, '0')))
    chk.__doc__ = 'the error of the nested value'
    return chk


# ---------------------------------------------------------------------------------------- builders
def start(r, e, name, args_name=None):
    """-> (builder term with its collection replaced by a symbol, symbol, header states) of a successful start"""
    f = e.fn(name)
    ip, outs = r.outcomes(f)
    return f, ip, outs


def abstracted(b, op, s):
    """the builder with its empty collection replaced by an arbitrary one"""
    hole = mk(op)
    n = sum(1 for t in walk(b) if t is hole)
    if n != 1:
        raise NoAnswer('builder %s does not hold one empty collection' % clip(show(b)))
    return subst(b, {hole: s})


def step_fn(r, trait, b, name, must=True):
    if b.op != 'adt':
        raise NoAnswer('builder is not a struct')
    return r.impl(trait, b.a[0], name, must=must)


def builders(r, e, ends=True):
    a1, a3 = sym('arg1'), sym('arg3')
    table = [
        ('serialize_seq', None, 'Seq', 'list', 'SerializeSeq', 'serialize_element'),
        ('serialize_tuple', None, 'Tuple', 'list', 'SerializeTuple', 'serialize_element'),
        ('serialize_tuple_struct', a1, 'Tuple', 'list', 'SerializeTupleStruct', 'serialize_field'),
        ('serialize_tuple_variant', a3, 'Tuple', 'list', 'SerializeTupleVariant', 'serialize_field'),
        ('serialize_struct', a1, 'Cntr', 'bmap', 'SerializeStruct', 'serialize_field'),
        ('serialize_struct_variant', a3, 'Cntr', 'bmap', 'SerializeStructVariant', 'serialize_field'),
        ('serialize_map', None, 'Map', 'bmap', 'SerializeMap', None),
    ]
    L = sym('SOFAR')
    for name, idt, var, op, trait, step in table:
        f, ip, outs = start(r, e, name)
        seen = set()
        for k, st, v in outs:
            r.paths += 1
            if k == 'panic':
                r.fail(f, 'can panic', show_path(st))
                continue
            for s, bad in (e.name_cases(ip, st, idt) if idt is not None else [(st, False)]):
                if bad:
                    r.expect_true(is_err(ip, s, v) is True, f, 'accepts a name that is not an identity', show_path(s))
                    continue
                if ip.decide(s, ip.is_(v, 'Ok', RESULT)) is not True:
                    r.fail(f, 'rejects %s' % ('an acceptable name' if idt is not None else 'without a reason'), show_path(s))
                    continue
                b0 = ip.snap(s, ip.fld(v, 'Ok', 0, '0'))
                r.ok()
                if b0 in seen:
                    continue
                seen.add(b0)
                b = abstracted(b0, op, L)
                node = kserd(r, named(r, idt) if idt is not None else NONE, e.V(var, L))
                if ends:
                    r.check(step_fn(r, trait, b0, 'end'), lambda ip, st: [(st, ok(node))], args=[b], what='end of %s: ' % name)
                if step is not None:
                    fld = var == 'Cntr'
                    fn = step_fn(r, trait, b0, step)
                    x = sym('arg2') if fld else a1

                    def spec(ip, st):
                        t = nested(ip, st, x)
                        if t is None:
                            yield st, lost
                            return
                        for s, w in ip.fork_var(st, t, RESULT):
                            if w == 'Err':
                                yield s, propagate(t)
                            else:
                                item = mk('tup', kstr(r, a1), okv(ip, t)) if fld else okv(ip, t)
                                nb = mklist([allof(L), one(item)], op)
                                yield s, {'ret': ok(UNIT), '*arg0': subst(b, {L: nb})}
                    r.check(fn, spec, args=[cell_arg(b)], what='item of %s: ' % name)
                    sk = step_fn(r, trait, b0, 'skip_field', must=False) if fld else None
                    if sk is not None:
                        r.check(sk, lambda ip, st: [(st, {'ret': ok(UNIT), '*arg0': b})], args=[cell_arg(b)])
                else:
                    map_steps(r, e, trait, b0, b, L, op)
        if not seen:
            raise NoAnswer('%s never succeeds' % name)


def map_steps(r, e, trait, b0, b, L, op):
    a1, a2 = sym('arg1'), sym('arg2')
    key, val = step_fn(r, trait, b0, 'serialize_key'), step_fn(r, trait, b0, 'serialize_value')
    ent = step_fn(r, trait, b0, 'serialize_entry', must=False)
    # key first, then its value: exactly that pair is added
    ip, outs = r.outcomes(key, args=[cell_arg(b), sym('KEY')])
    n = 0
    for k, st, v in outs:
        r.paths += 1
        if k == 'panic':
            r.fail(key, 'can panic', show_path(st))
            continue
        t = nested(ip, st, sym('KEY'))
        if t is None:
            r.fail(key, 'the key is not encoded', show_path(st))
            continue
        for s, w in ip.fork_var(st, t, RESULT):
            if w == 'Err':
                r.expect_true(propagate(t)(ip, s, v), key, 'the error of a key is lost', show_path(s))
                continue
            n += 1
            r.expect_true(same(ip, s, v, ok(UNIT)), key, 'encoding a key fails although the key was encoded', clip(show(v)))
            mid = ip.cell_of(s, '*arg0')

            def spec(ip2, st2):
                t2 = nested(ip2, st2, a1)
                if t2 is None:
                    yield st2, lost
                    return
                for s2, w2 in ip2.fork_var(st2, t2, RESULT):
                    if w2 == 'Err':
                        yield s2, propagate(t2)
                    else:
                        nb = mklist([allof(L), one(mk('tup', okv(ip2, t), okv(ip2, t2)))], op)
                        yield s2, {'ret': ok(UNIT), '*arg0': subst(b, {L: nb})}
            r.check(val, spec, args=[cell_arg(mid)], what='value after its key: ')
    if not n:
        raise NoAnswer('a key is never accepted')
    # a value without a key is an error and adds nothing
    r.check(val, lambda ip, st: [(st, {'ret': is_err, '*arg0': b})], args=[cell_arg(b)], what='value without a key: ')
    if ent is not None:
        def spec(ip, st):
            t1, t2 = nested(ip, st, a1), nested(ip, st, a2)
            bad = [t for t in (t1, t2) if t is not None and ip.decide(st, ip.is_(t, 'Err', RESULT)) is True]
            if bad:
                yield st, one_of([propagate(t) for t in bad])
                return
            if t1 is None or t2 is None:
                yield st, lost
                return
            nb = mklist([allof(L), one(mk('tup', okv(ip, t1), okv(ip, t2)))], op)
            yield st, {'ret': ok(UNIT), '*arg0': subst(b, {L: nb})}
        r.check(ent, spec, args=[cell_arg(b)], what='entry: ')


def one_of(cs):
    def chk(ip, st, got):
        return any(c(ip, st, got) for c in cs)
    chk.__doc__ = 'the error of the nested value'
    return chk
