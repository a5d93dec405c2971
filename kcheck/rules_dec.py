"""Rules for decoding through serde: which value reaches the target type, and which requests fail."""
from core import *
from interp import eqs
from rules_ds import setup, inner, is_err, run, VARIANTS

UNSIGNED = ('u8', 'u16', 'u32', 'u64', 'u128')
SIGNED = ('i8', 'i16', 'i32', 'i64', 'i128')
FORWARD = ('bool', 'str', 'string', 'bytes', 'byte_buf', 'option', 'unit', 'seq', 'tuple', 'map', 'struct', 'identifier', 'ignored_any')


def rng(t):
    n = int(t[1:])
    return (0, 2 ** n - 1) if t[0] == 'u' else (-2 ** (n - 1), 2 ** (n - 1) - 1)


def visit(name, *args):
    """the visitor is called with exactly this, and its answer is the answer"""
    def chk(ip, st, got):
        for t in calls(ip, st, got):
            if t.a[0].split('::')[-1] == name and len(t.a) == 1 + len(args) and all(same(ip, st, a, b) for a, b in zip(t.a[1:], args)):
                if same(ip, st, got, t):
                    return True
        return False
    chk.__doc__ = '%s(%s)' % (name, ', '.join(show(a) for a in args[1:]))
    return chk


def calls(ip, st, got):
    """calls into the caller's code met on this path"""
    seen = []
    for g in [got] + [a for a, _ in st.path]:
        for t in walk(g):
            if t.op == 'app' and ('Visitor::' in t.a[0] or 'DeserializeSeed::' in t.a[0] or 'Deserialize::' in t.a[0]) and t not in seen:
                seen.append(t)
    return seen


def fits(ip, st, x, t):
    """split on whether x lies in the range of the integer type"""
    lo, hi = rng(t)
    if t.endswith('128'):
        yield st, True      # the conversion's own result type
        return
    for s, a in ip.branch(st, le(I(lo), x)):
        if not a:
            yield s, False
            continue
        for s2, b in ip.branch(s, le(x, I(hi))):
            yield s2, b


def seq_of(x):
    return app('seq_access', mk('list', allof(x)))


def decoder(r):
    setup(r)
    D = r.p.ty('Decoder')
    x = sym('arg0')
    dec = lambda k: mk('adt', D, 'Decoder', k)

    def de(name, trait='Deserializer'):
        return r.impl(trait, 'Decoder', name)

    def parts(ip):
        k = ip.fld(x, 'Decoder', 0, '0')
        return k, ip.fld(k, 'Kserd', 0, 'id'), ip.fld(k, 'Kserd', 1, 'val')

    def pay(ip, val, v):
        return ip.fld(val, v, 0, '0')

    def strmap(ip, m):
        e = mk('elem', m)
        return app('map_access', mk('list', mk('each', m, (((), (one(mk('tup', inner(ip, r, ip.fld(e, '', 0, ''), r.KS), ip.fld(e, '', 1, ''))),)),))))

    def any_(vis):
        def spec(ip, st):
            k, i, val = parts(ip)
            for s, v in ip.fork_var(st, val, r.V):
                p = pay(ip, val, v) if v != 'Unit' else None
                if v == 'Unit':
                    yield s, visit('visit_unit', vis)
                elif v == 'Bool':
                    yield s, visit('visit_bool', vis, p)
                elif v == 'Num':
                    for s2, n in ip.fork_var(s, p, r.NU):
                        q = pay(ip, p, n)
                        if n == 'Float':
                            yield s2, visit('visit_f64', vis, q)
                            continue
                        w = 'u' if n == 'Uint' else 'i'
                        for s3, f in fits(ip, s2, q, w + '64'):
                            yield s3, visit('visit_%s%s' % (w, '64' if f else '128'), vis, q)
                elif v in ('Str', 'Barr'):
                    c = inner(ip, r, p, r.KS if v == 'Str' else r.BA)
                    for s2, o in ip.fork_var(s, c, COW):
                        n = {('Str', 'Borrowed'): 'visit_borrowed_str', ('Str', 'Owned'): 'visit_string',
                             ('Barr', 'Borrowed'): 'visit_borrowed_bytes', ('Barr', 'Owned'): 'visit_byte_buf'}[v, o]
                        yield s2, visit(n, vis, c)
                elif v == 'Tuple':
                    for s2, none in ip.branch(s, eq0(ip.length(p))):
                        for s3, single in ip.branch(s2, eq0(ladd(ip.length(p), I(-1)))):
                            for s4, o in ip.fork_var(s3, i, OPTION):
                                name = inner(ip, r, ip.fld(i, 'Some', 0, '0'), r.KS) if o == 'Some' else None
                                if none and name is not None:
                                    for s5, b in ip.branch(s4, eqs(name, S('None'))):
                                        yield s5, visit('visit_none', vis) if b else visit('visit_seq', vis, seq_of(p))
                                elif single and name is not None:
                                    for s5, b in ip.branch(s4, eqs(name, S('Some'))):
                                        yield s5, first('visit_some' if b else 'visit_newtype_struct', vis, D, p)
                                else:
                                    yield s4, visit('visit_seq', vis, seq_of(p))
                elif v == 'Cntr':
                    yield s, visit('visit_map', vis, strmap(ip, p))
                elif v == 'Seq':
                    yield s, visit('visit_seq', vis, seq_of(p))
                else:
                    yield s, visit('visit_map', vis, app('map_access', mk('list', allof(p))))
        return spec

    r.check(de('deserialize_any'), any_(sym('arg1')))
    for n in FORWARD:
        f = de('deserialize_' + n)
        vis = sym('arg%d' % (f['body']['argc'] - 1))
        r.check(f, any_(vis))

    # a structure's own name never makes it an option
    def newtype(ip, st):
        k, i, val = parts(ip)
        p = pay(ip, val, 'Tuple')
        for s, v in ip.fork_var(st, val, r.V):
            if v == 'Tuple':
                for s2, single in ip.branch(s, eq0(ladd(ip.length(p), I(-1)))):
                    for s3, o in ip.fork_var(s2, i, OPTION):
                        if single and o == 'Some':
                            yield s3, first('visit_newtype_struct', sym('arg2'), D, p)
                        else:
                            yield from any_(sym('arg2'))(ip, s3)
            else:
                yield from any_(sym('arg2'))(ip, s)
    r.check(de('deserialize_newtype_struct'), newtype)

    def tuple_struct(ip, st):
        k, i, val = parts(ip)
        for s, v in ip.fork_var(st, val, r.V):
            if v == 'Tuple':
                yield s, visit('visit_seq', sym('arg3'), seq_of(pay(ip, val, v)))
            else:
                yield from any_(sym('arg3'))(ip, s)
    r.check(de('deserialize_tuple_struct'), tuple_struct)
    # integers: the number's exact integer value, when the type can hold it
    for t in UNSIGNED + SIGNED:
        conv = r.method('Number', 'as_u128' if t[0] == 'u' else 'as_i128')

        def spec(ip, st, t=t, conv=conv):
            k, i, val = parts(ip)
            for s, v in ip.fork_var(st, val, r.V):
                if v != 'Num':
                    yield s, is_err
                    continue
                for kd, s2, res in run(ip, s, conv, [pay(ip, val, v)]):
                    if kd == 'panic':
                        continue
                    for s3, w in ip.fork_var(s2, res, RESULT):
                        if w == 'Err':
                            yield s3, is_err
                            continue
                        n = ip.fld(res, 'Ok', 0, '0')
                        for s4, f in fits(ip, s3, n, t):
                            yield s4, visit('visit_' + t, sym('arg1'), n) if f else is_err
        r.check(de('deserialize_' + t), spec)
    for t in ('f32', 'f64'):
        def spec(ip, st, t=t):
            k, i, val = parts(ip)
            for s, v in ip.fork_var(st, val, r.V):
                if v != 'Num':
                    yield s, is_err
                    continue
                for kd, s2, res in run(ip, s, r.method('Number', 'as_f64'), [pay(ip, val, v)]):
                    yield s2, visit('visit_' + t, sym('arg1'), mk('cast', res, 'f64', 'f32') if t == 'f32' else res)
        r.check(de('deserialize_' + t), spec)

    def char_(ip, st):
        k, i, val = parts(ip)
        for s, v in ip.fork_var(st, val, r.V):
            if v != 'Str':
                yield s, is_err
                continue
            cs = mk('chars', inner(ip, r, pay(ip, val, v), r.KS))
            for s2, b in ip.branch(s, eq0(ladd(ip.length(cs), I(-1)))):
                yield s2, first('visit_char', sym('arg1'), None, cs) if b else is_err
    r.check(de('deserialize_char'), char_)

    def only_tuple(n, good, others=()):
        """a tuple of exactly n items is accepted"""
        def spec(ip, st):
            k, i, val = parts(ip)
            for s, v in ip.fork_var(st, val, r.V):
                if v in others:
                    yield s, good(ip, None)
                    continue
                if v != 'Tuple':
                    yield s, is_err
                    continue
                p = pay(ip, val, v)
                for s2, b in ip.branch(s, eq0(lsub(ip.length(p), n))):
                    yield s2, good(ip, p) if b else is_err
        return spec
    r.check(de('deserialize_unit_struct'), only_tuple(I(0), lambda ip, p: visit('visit_unit', sym('arg2'))))
    r.check(de('deserialize_enum'), lambda ip, st: [(st, visit('visit_enum', sym('arg3'), x))])
    # enum variants
    V = 'VariantAccess'
    r.check(de('unit_variant', V), only_tuple(I(0), lambda ip, p: ok(UNIT), ('Unit',)))
    r.check(de('newtype_variant_seed', V), only_tuple(I(1), lambda ip, p: first('deserialize', sym('arg1'), D, p)))
    r.check(de('tuple_variant', V), only_tuple(sym('arg1'), lambda ip, p: visit('visit_seq', sym('arg2'), seq_of(p))))

    def struct_(ip, st):
        k, i, val = parts(ip)
        for s, v in ip.fork_var(st, val, r.V):
            yield s, visit('visit_map', sym('arg2'), strmap(ip, pay(ip, val, v))) if v == 'Cntr' else is_err
    r.check(de('struct_variant', V), struct_)

    def variant(ip, st):
        k, i, val = parts(ip)
        for s, o in ip.fork_var(st, i, OPTION):
            if o == 'None':
                yield s, is_err
                continue
            name = inner(ip, r, ip.fld(i, 'Some', 0, '0'), r.KS)
            cs = [t for t in calls(ip, s, UNIT) if t.a[0].endswith('DeserializeSeed::deserialize') and t.a[1] is sym('arg1')
                  and t.a[2].op == 'app' and t.a[2].a[0].endswith('into_deserializer') and same(ip, s, t.a[2].a[1], name)]
            if len(cs) != 1:
                yield s, named_variant
                continue
            for s2, w in ip.fork_var(s, cs[0], RESULT):
                if w == 'Err':
                    yield s2, err(ip.fld(cs[0], 'Err', 0, '0'))
                else:
                    yield s2, ok(mk('tup', ip.fld(cs[0], 'Ok', 0, '0'), dec(k)))
    r.check(de('variant_seed', 'EnumAccess'), variant)
    # nested values decode in turn; the entry point starts with the whole value
    r.check(r.impl('IntoDeserializer', 'Kserd', 'into_deserializer'), lambda ip, st: [(st, dec(x))])
    r.check(r.method('Kserd', 'decode'), lambda ip, st: [(st, visit('deserialize', dec(x)))])


def named_variant(ip, st, got):
    """the variant named by the identity"""
    return False


def first(name, vis, D, p):
    """the call gets the single item of p, wrapped as D"""
    def chk(ip, st, got):
        for t in calls(ip, st, got):
            if t.a[0].split('::')[-1] == name and len(t.a) == 3 and same(ip, st, t.a[1], vis) and same(ip, st, got, t):
                d = t.a[2]
                if D is None and single_item(ip, st, d, p) or d.op == 'adt' and d.a[0] == D and single_item(ip, st, d.a[2], p):
                    return True
        return False
    chk.__doc__ = '%s(the single item)' % name
    return chk


def single_item(ip, st, t, p):
    """t reads an item of the one-element collection p"""
    t = ip.snap(st, t)
    if t.op in ('last', 'elem') and t.a[0] is p or t.op in ('idx', 'nth', 'first') and t.a[0] is p:
        return True
    return t.op == 'app' and t.a[0] in ('last', 'first') and t.a[1] is p
