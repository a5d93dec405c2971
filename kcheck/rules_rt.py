"""Round trip through serde: what the encoder makes of each kind of data is fed into the decoder, path by path."""
from core import *
from rules_ds import setup, inner, run
from rules_enc import Enc, nested, okv, abstracted, step_fn, builders
from rules_dec import visit, calls, rng, seq_of, UNSIGNED, SIGNED
from rules_num import wide
from interp import eqs, Unknown

VIS = sym('VISITOR')
X, NAME, LEN = sym('arg1'), sym('NAME'), sym('LEN')
ENUMS = ('unit_variant', 'newtype_variant', 'tuple_variant', 'struct_variant')


def round_trip(r):
    e = Enc(r)
    rt = Trip(r, e)
    rt.scalars()
    rt.wrappers()
    rt.collections()
    builders(r, e, ends=False)      # each step adds exactly the encoding of its item
    rt.variants()
    rt.nested()
    rt.keys()


class Trip:
    def __init__(self, r, e):
        self.r, self.e = r, e
        self.D = r.p.ty('Decoder')

    def dec(self, k):
        return mk('adt', self.D, 'Decoder', k)

    def de(self, name, trait='Deserializer'):
        return self.r.impl(trait, 'Decoder', name)

    def encoded(self, name, args, good):
        """(interp, state, node) of every successful encoding; good(ip, st) narrows to arguments of the type"""
        r, f = self.r, self.e.fn('serialize_' + name)
        ip, outs = r.outcomes(f, args=args)
        n = 0
        for k, st, v in outs:
            if k == 'panic':
                continue
            for s, b in ip.branch(st, ip.is_(v, 'Ok', RESULT)):
                if not b:
                    continue
                for s2 in good(ip, s):
                    n += 1
                    yield ip, s2, ip.snap(s2, okv(ip, v))
        if not n:
            raise NoAnswer('serialize_%s never succeeds' % name)

    def decoded(self, ip, st, fn, args, want, what):
        """every outcome of the decoding function is the wanted one"""
        r = self.r
        r.fns.add(fn['path'])
        n = 0
        try:
            outs = list(run(ip, st, fn, args))
        except Unknown as x:
            r.noans.append('%s: %s' % (norm_path(fn['path']), x))
            return
        for c in ip.entered:
            r.fns.add(c)
        for k, s, v in outs:
            n += 1
            r.paths += 1
            if k == 'panic':
                r.fail(fn, '%s: can panic' % what, show_path(s))
            elif want(ip, s, v) is True:
                r.ok()
            else:
                r.fail(fn, '%s: decoding gives %s, expected %s' % (what, clip(show(ip.snap(s, v))), want.__doc__), 'when %s' % show_path(s))
        r.expect_true(n > 0, fn, '%s: no outcome' % what)

    def to(self, kind, node_args, want, extra=(), good=lambda ip, s: [s], what=None):
        what = what or kind
        f = self.de('deserialize_' + kind)
        for ip, s, node in self.encoded(what, node_args, good):
            w = want(ip, s)
            self.decoded(ip, s, f, [self.dec(node)] + list(extra) + [VIS], w, 'a value encoded as %s' % what)

    # ------------------------------------------------------------------------------------ one value
    def scalars(self):
        for t in UNSIGNED + SIGNED:
            def good(ip, s, t=t):
                lo, hi = rng(t)
                for s1, a in ip.branch(s, le(I(lo), X)):
                    for s2, b in ip.branch(s1, le(X, I(hi))) if a else ():
                        if b:
                            yield s2
            self.to(t, None, lambda ip, s, t=t: visit('visit_' + t, VIS, X), good=good)
        self.to('f64', None, lambda ip, s: visit('visit_f64', VIS, X))

        # narrowing the reading of the shortest text of a 32-bit float gives that float back
        def f32(ip, s):
            ways = [visit('visit_f32', VIS, mk('cast', x, 'f64', 'f32')) for x in (okv(ip, wide(X)), mk('cast', X, 'f32', 'f64'))]

            def chk(ip, st, got):
                """visit_f32(arg1)"""
                return any(w(ip, st, got) for w in ways)
            return chk
        self.to('f32', None, f32)
        self.to('bool', None, lambda ip, s: visit('visit_bool', VIS, X))
        self.to('unit', None, lambda ip, s: visit('visit_unit', VIS))
        self.to('char', None, lambda ip, s: visit('visit_char', VIS, X))
        for k, n in (('str', 'string'), ('string', 'string'), ('bytes', 'byte_buf'), ('byte_buf', 'byte_buf')):
            self.to(k, None, lambda ip, s, n=n: visit('visit_' + n, VIS, X), what={'string': 'str', 'byte_buf': 'bytes'}.get(k, k))
        self.to('unit_struct', [sym('arg0'), NAME], lambda ip, s: visit('visit_unit', VIS), extra=[NAME])

    def item(self, ip, s):
        t = nested(ip, s, X)
        return okv(ip, t) if t is not None else sym('NOT-ENCODED')

    def wrappers(self):
        self.to('option', None, lambda ip, s: visit('visit_some', VIS, self.dec(self.item(ip, s))), what='some')
        self.to('option', [sym('arg0')], lambda ip, s: visit('visit_none', VIS), what='none')
        self.to('newtype_struct', [sym('arg0'), NAME, X], lambda ip, s: visit('visit_newtype_struct', VIS, self.dec(self.item(ip, s))), extra=[NAME])

    # ------------------------------------------------------------------------------------ collections
    def finished(self, name, args, op, trait):
        """(interp, state, node) where node is what a builder gives at its end, its collection being arbitrary"""
        r, e, L = self.r, self.e, sym('ITEMS')
        ip, outs = r.outcomes(e.fn('serialize_' + name), args=args)
        n = 0
        for k, st, v in outs:
            if k == 'panic':
                continue
            for s, b in ip.branch(st, ip.is_(v, 'Ok', RESULT)):
                if not b:
                    continue
                b0 = ip.snap(s, okv(ip, v))
                for k2, s2, v2 in run(ip, s, step_fn(r, trait, b0, 'end'), [abstracted(b0, op, L)]):
                    for s3, b2 in ip.branch(s2, ip.is_(v2, 'Ok', RESULT)) if k2 == 'ret' else ():
                        if b2:
                            n += 1
                            yield ip, s3, ip.snap(s3, okv(ip, v2)), L
        if not n:
            raise NoAnswer('serialize_%s never ends' % name)

    def fields(self, ip, L):
        e = mk('elem', L)
        return app('map_access', mk('list', mk('each', L, (((), (one(mk('tup', inner(ip, self.r, ip.fld(e, '', 0, ''), self.r.KS), ip.fld(e, '', 1, ''))),)),))))

    def collections(self):
        a0, size = sym('arg0'), sym('SIZE')
        FS = sym('FIELDS')
        table = [
            ('seq', [a0, size], 'list', 'SerializeSeq', 'seq', []),
            ('tuple', [a0, size], 'list', 'SerializeTuple', 'tuple', [size]),
            ('tuple_struct', [a0, NAME, size], 'list', 'SerializeTupleStruct', 'tuple_struct', [NAME, size]),
            ('map', [a0, size], 'bmap', 'SerializeMap', 'map', []),
            ('struct', [a0, NAME, size], 'bmap', 'SerializeStruct', 'struct', [NAME, FS]),
        ]
        for name, args, op, trait, kind, extra in table:
            for ip, s, node, L in self.finished(name, args, op, trait):
                want = visit('visit_seq', VIS, seq_of(L)) if op == 'list' else visit('visit_map', VIS, app('map_access', mk('list', allof(L)))) if name == 'map' \
                    else visit('visit_map', VIS, self.fields(ip, L))
                self.decoded(ip, s, self.de('deserialize_' + kind), [self.dec(node)] + extra + [VIS], want, 'a value encoded as %s' % name)

    # ------------------------------------------------------------------------------------ enums
    def nodes(self, name, pick=NAME, x=X):
        """what each form of a variant is encoded to"""
        a0, ty, ix, size = sym('arg0'), sym('TYPE'), sym('INDEX'), sym('SIZE')
        if name == 'unit_variant':
            for ip, s, n in self.encoded(name, [a0, ty, ix, pick], lambda ip, s: [s]):
                yield ip, s, n, None
        elif name == 'newtype_variant':
            for ip, s, n in self.encoded(name, [a0, ty, ix, pick, x], lambda ip, s: [s]):
                yield ip, s, n, None
        else:
            op, tr = ('list', 'SerializeTupleVariant') if name == 'tuple_variant' else ('bmap', 'SerializeStructVariant')
            yield from self.finished(name, [a0, ty, ix, pick, size], op, tr)

    def variants(self):
        seed = sym('SEED')
        for name in ENUMS:
            for ip, s, node, L in self.nodes(name):
                what = 'a value encoded as %s' % name
                self.decoded(ip, s, self.de('deserialize_enum'), [self.dec(node), sym('TYPE'), sym('VARIANTS'), VIS], visit('visit_enum', VIS, self.dec(node)), what)
                f = self.de('variant_seed', 'EnumAccess')
                self.r.fns.add(f['path'])
                n = 0
                for k, s2, v in run(ip, s, f, [self.dec(node), seed]):
                    self.r.paths += 1
                    cs = [t for t in calls(ip, s2, v) if t.a[0].endswith('DeserializeSeed::deserialize') and t.a[1] is seed and t.a[2].op == 'app'
                          and t.a[2].a[0].endswith('into_deserializer') and same(ip, s2, t.a[2].a[1], NAME)]
                    if k == 'panic' or not cs:
                        self.r.fail(f, '%s: its variant is not asked for by name' % what, show_path(s2))
                        continue
                    for s3, b in ip.branch(s2, ip.is_(cs[0], 'Ok', RESULT)):
                        if not b:
                            continue
                        n += 1
                        got = okv(ip, v)
                        rest = ip.snap(s3, ip.fld(got, '', 1, ''))
                        self.r.expect_true(ip.decide(s3, ip.is_(v, 'Ok', RESULT)) is True and same(ip, s3, ip.fld(got, '', 0, ''), okv(ip, cs[0])) is True, f,
                                           '%s: its variant is lost' % what, show_path(s3))
                        self.payload(ip, s3, name, rest, L, what)
                self.r.expect_true(n > 0, f, '%s: no outcome' % what)

    def payload(self, ip, s, name, rest, L, what):
        V = 'VariantAccess'
        if name == 'unit_variant':
            def unit(ip, st, got):
                """success"""
                return same(ip, st, got, ok(UNIT))
            self.decoded(ip, s, self.de('unit_variant', V), [rest], unit, what)
        elif name == 'newtype_variant':
            seed = sym('SEED2')
            self.decoded(ip, s, self.de('newtype_variant_seed', V), [rest, seed], visit('deserialize', seed, self.dec(self.item(ip, s))), what)
        elif name == 'tuple_variant':
            self.decoded(ip, s, self.de('tuple_variant', V), [rest, ip.length(L), VIS], visit('visit_seq', VIS, seq_of(L)), what)
        else:
            self.decoded(ip, s, self.de('struct_variant', V), [rest, sym('FIELDS'), VIS], visit('visit_map', VIS, self.fields(ip, L)), what)

    # ------------------------------------------------------------------------------------ items and entry points
    def nested(self):
        r = self.r
        x = sym('arg0')
        r.check(r.impl('IntoDeserializer', 'Kserd', 'into_deserializer'), lambda ip, st: [(st, self.dec(x))])
        r.check(r.method('Kserd', 'decode'), lambda ip, st: [(st, visit('deserialize', self.dec(x)))])

    # ------------------------------------------------------------------------------------ keys
    def keys(self):
        """variants of one enum with different names stay different keys of a map"""
        r = self.r
        cmp_ = r.impl('Ord', 'Kserd', 'cmp')
        other = sym('OTHER')
        for name in ENUMS:
            for ip, s, node, L in self.nodes(name):
                node2 = subst(node, {NAME: other})
                f = self.e.fn('serialize_' + name)
                for s2, same_name in ip.branch(s, eqs(NAME, other)):
                    if same_name:
                        continue
                    for k, s3, v in run(ip, s2, cmp_, [node, node2]):
                        r.paths += 1
                        r.expect_true(k == 'ret' and ip.decide(s3, ip.is_(v, 'Equal', 'core::cmp::Ordering')) is False, f, 'two variants with the same content become the same key of a map')
