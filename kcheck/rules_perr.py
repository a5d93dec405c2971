"""What a parse error tells: every entry of the trace is about the line and column of its place, and asking never panics."""
from terms import *
from core import NoAnswer, same, clip, norm_path
from interp import Frame

ERROR, TRACE = 'parse::Error', 'parse::Trace'


def addr(x):
    """x when the term is the address of x as a number"""
    if x.op == 'cast' and x.a[0].op == 'app' and x.a[0].a[0] == 'core::str::as_ptr':
        return x.a[0].a[1]
    return None


SRC, RAISED = sym('arg0'), sym('arg1')


def off(x, src):
    return ladd(mk('cast', app('core::str::as_ptr', x), 'ptr', 'usize'), mk('cast', app('core::str::as_ptr', src), 'ptr', 'usize'), -1)


def inspection(r):
    made(r)
    asked(r)
    listing(r)
    shown(r)


def made(r):
    fn = r.method(ERROR, 'new')

    def spec(ip, st):
        errs = ip.fld(RAISED, 'VerboseError', 0, 'errors')

        def chk(ip, st, got):
            """every place with what was expected there, and every line under the offset where it starts with its number"""
            if got.op != 'adt' or got.a[0] != fn['implself']['p']:
                return False
            f = {x: got.a[2 + j] for j, x in enumerate(y['n'] for y in r.p.adts[got.a[0]]['v'][0]['f'])}
            el = mk('elem', errs)
            if not each_is(ip, f['errs'], 'list', errs, mk('tup', off(ip.fld(el, '', 0, '0'), SRC), ip.fld(el, '', 1, '1'))):
                return False
            ls = mk('lines', SRC)
            if not any(each_is(ip, f['lines'], 'bmap', s, mk('tup', off(mk('elem', s), SRC), mk('tup', ladd(mk('pos', s), I(1)), mk('elem', s)))) for s in (ls,)):
                return False
            return same(ip, st, f['empty_input'], eq0(ip.length(SRC)))
        yield st, chk

    def fits(ip, st, v):
        """subtracting the start of the text from the start of a part of it"""
        errs = ip.fld(RAISED, 'VerboseError', 0, 'errors')
        ok_ = (ip.fld(mk('elem', errs), '', 0, '0'), mk('elem', mk('lines', SRC)))
        for p in ok_:
            if (le0(ladd(off(p, SRC), I(1))), True) in st.path:
                return v[0] == 'assert:overflow'
        return False
    r.check(fn, spec, panics=fits)


def each_is(ip, t, shape, src, want):
    """a collection of one thing for each element; decisions that only rule out impossible addresses do not matter"""
    if t.op != shape or len(t.a) != 1 or t.a[0].op != 'each' or t.a[0].a[0] is not src:
        return False
    for g, ps in t.a[0].a[1]:
        if any(a.op != 'le0' or pol or not any(addr(x) is not None for x in walk(a)) for a, pol in g):
            return False
        if len(ps) != 1 or ps[0].op != 'one' or ps[0].a[0] is not want:
            return False
    return len(t.a[0].a[1]) == 1


def entry_of(ip, self_, i):
    f = ip.fld(self_, 'Error', 0, 'errs')
    e = mk('idx', f, i)
    return f, ip.fld(e, '', 0, '0'), ip.fld(e, '', 1, '1')


def line_at(ip, self_, o):
    return app('btree_last', app('btree_range', ip.fld(self_, 'Error', 1, 'lines'), mk('adt', 'core::ops::range::RangeToInclusive', 'RangeToInclusive', o)))


def asked(r):
    fn = r.method(ERROR, 'get')
    me, i = sym('arg0'), sym('arg1')

    def lines_there(t, st, ip):
        # a text that is not empty has a first line, kept under 0 (decided for the constructor)
        if t.op == 'is' and t.a[0].op == 'app' and t.a[0].a[0] == 'btree_last':
            m = t.a[0].a[1]
            if m.op == 'app' and m.a[0] == 'btree_range' and m.a[1] is ip.fld(me, 'Error', 1, 'lines') and ip.decide(st, ip.fld(me, 'Error', 2, 'empty_input')) is False:
                return t.a[1] == 'Some'
        if t.op == 'le0':
            # the line found below a bound starts at or before it
            o = entry_of(ip, me, i)[1]
            ln = ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 0, '0')
            for x, holds in ((ladd(ln, o, -1), True), (ladd(ladd(o, ln, -1), I(1)), False)):
                if t.a[0] is x:
                    return holds
        if t.op == 'boundary':
            # places and starts of lines are between characters
            o = entry_of(ip, me, i)[1]
            ln = ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 0, '0')
            text = ip.fld(ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 1, '1'), '', 1, '1')
            if t.a[0] is text and t.a[1] is ladd(o, ln, -1):
                return True
        return None
    lines_there.stateful = True

    def spec(ip, st):
        errs, o, kind = entry_of(ip, me, i)
        for s, b in ip.branch(st, le0(ladd(ladd(i, I(1)), ip.length(errs), -1))):
            if not b:
                yield s, NONE
                continue
            for s2, e in ip.branch(s, ip.fld(me, 'Error', 2, 'empty_input')):
                yield s2, (blank(kind) if e else placed(ip, s2, o, kind))

    def trace(ip, got):
        if got.op != 'adt' or got.a[1] != 'Some' or got.a[2].op != 'adt' or norm_path(got.a[2].a[0]) != TRACE:
            return None
        t = got.a[2]
        return {y['n']: t.a[2 + j] for j, y in enumerate(r.p.adts[t.a[0]]['v'][0]['f'])}

    def blank(kind):
        def f(ip, st, got):
            """line and column 0 with an empty line"""
            t = trace(ip, got)
            return t is not None and same(ip, st, t['line'], I(0)) and same(ip, st, t['col'], I(0)) and same(ip, st, t['linestr'], S('')) and tells(ip, st, t['msg'], kind, None)
        return f

    def placed(ip, st, o, kind):
        ln = ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 0, '0')
        rest = ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 1, '1')
        number, text = ip.fld(rest, '', 0, '0'), ip.fld(rest, '', 1, '1')
        at = ladd(o, ln, -1)

        def f(ip, st, got):
            """the number and text of the line the place is in, and its distance from the start of the line plus one"""
            t = trace(ip, got)
            if t is None:
                return False
            if ip.decide(st, le0(at)) is True:
                # a line does not start behind the place, so here they are the same
                st = ip.assume(st, eq0(at), True) or st
            col = ladd(at, I(1))
            here = same(ip, st, t['col'], col) or (ip.decide(st, le0(at)) is True and same(ip, st, t['col'], I(1)))
            return here and same(ip, st, t['line'], number) and same(ip, st, t['linestr'], text) and tells(ip, st, t['msg'], kind, (text, at))
        return f

    def tells(ip, st, msg, kind, where):
        """the message names what was expected, and what is there instead"""
        ps = msg.a if msg.op == 'str' else ()
        for s, v in ip.fork_var(st, kind, 'nom::error::VerboseErrorKind'):
            x = ip.fld(kind, v, 0, '0')
            named = any(whole(p) is x for p in ps)
            if not named:
                return False
            for p in ps:
                # a character of the line must be the one at the place
                if p.op == 'chr' and p.a[0] is not x:
                    if where is None:
                        return False
                    text, at = where
                    ways = [mk('nth', mk('chars', y), I(0)) for y in (mk('slice', text, at, ip.length(text)),)] + [mk('nth', mk('chars', mk('slice', text, at, ip.length(text))), 0)]
                    if ip.decide(s, le0(at)) is True:
                        ways += [mk('nth', mk('chars', text), 0), mk('nth', mk('chars', text), I(0))]
                    if p.a[0] not in ways or ip.decide(s, le0(ladd(ip.length(text), at, -1))) is True:
                        return False
        return True

    def boundary(ip, st, v):
        """places and starts of lines are between characters"""
        if v[0] != 'char boundary' or len(v) < 4:
            return False
        errs, o, kind = entry_of(ip, me, i)
        ln = ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 0, '0')
        text = ip.fld(ip.fld(ip.fld(line_at(ip, me, o), 'Some', 0, '0'), '', 1, '1'), '', 1, '1')
        return v[3].a[0] is text and v[3].a[1] is ladd(o, ln, -1) and v[3].a[2] is ip.length(text)
    r.check(fn, spec, panics=boundary, axiom=lines_there)


def opaque_get(r):
    return {r.method(ERROR, 'get')['path']: lambda ip, st, fr, args, info, t: [('ret', st, app('entry', ip.snap(st, args[0]), ip.snap(st, args[1])))]}


def entry_there(t):
    """every index below the count has an entry"""
    if t.op == 'is' and t.a[0].op == 'app' and t.a[0].a[0] == 'entry':
        i = t.a[0].a[2]
        if i.op == 'pos' and i.a[0].op == 'fld' and i.a[0].a[2] == 'errs':
            return t.a[1] == 'Some'
    return None


def listing(r):
    """the number of entries, and all of them in order"""
    me = sym('arg0')

    def n(ip):
        return ip.length(ip.fld(me, 'Error', 0, 'errs'))
    r.check(r.method(ERROR, 'len'), lambda ip, st: [(st, n(ip))])
    r.check(r.method(ERROR, 'is_empty'), lambda ip, st: [(st, eq0(n(ip)))])
    fn = r.method(ERROR, 'iter')

    def walked(ip, f, outs):
        import models
        fr = Frame()
        fr.fn, fr.id, fr.env, fr.body, fr.loops, fr.site = f, -1, {}, None, {}, None
        res = []
        for k, s, v in outs:
            if k != 'ret':
                res.append((k, s, v))
            else:
                ip.stack, ip.frames = [], [fr]
                res.extend(models.collect_into(ip, s, fr, v, {'k': 'adt', 'p': 'alloc::vec::Vec', 'a': []}, None))
        return res

    def spec(ip, st):
        def chk(ip, st, got):
            """every entry once, from the first to the last"""
            errs, rng = ip.fld(me, 'Error', 0, 'errs'), mk('range', I(0), n(ip))
            if got.op != 'list' or len(got.a) != 1 or got.a[0].op != 'each' or got.a[0].a[0] not in (errs, rng):
                return False
            e = app('entry', me, mk('pos', errs) if got.a[0].a[0] is errs else mk('elem', rng))
            for g, ps in got.a[0].a[1]:
                there = not g or any(a.op == 'is' and a.a[0] is e and (a.a[1] == 'Some') == pol for a, pol in g)
                if there != (len(ps) == 1) or there and ps[0].a[0] is not ip.fld(e, 'Some', 0, '0'):
                    return False
            return any(ps for _, ps in got.a[0].a[1])
        yield st, chk
    r.check(fn, spec, opaque=opaque_get(r), then=walked, axiom=entry_there)


def whole(p):
    """what a piece of text shows completely (a width only pads, a precision may cut)"""
    while p.op == 'fmtopt' and "'prec'" not in p.a[1] or p.op in ('disp', 'dbg', 'chr') or p.op == 'str' and len(p.a) == 1:
        p = p.a[0] if p.op in ('fmtopt', 'chr', 'str') else p.a[-1]
    return p


PASSING = ('enumerate', 'filter_map', 'map', 'inspect', 'cloned', 'copied', 'count', 'peekable', 'fuse')


def all_entries(ip, t):
    """a walk over every entry from the first to the last"""
    errs = ip.fld(sym('arg0'), 'Error', 0, 'errs')
    while True:
        if t is errs or t is mk('range', I(0), ip.length(errs)):
            return True
        if t.op == 'iter' and all(g[0] in PASSING for g in t.a[1]):
            t = t.a[0]
        elif t.op in PASSING:
            t = t.a[0]
        elif t.op == 'app' and t.a[0].split('::')[-1] in PASSING and len(t.a) == 2:
            t = t.a[1]
        elif t.op == 'list' and len(t.a) == 1 and t.a[0].op == 'each':
            t = t.a[0].a[0]
        else:
            return False


def shown(r):
    """display of one entry and of all of them"""
    fn = r.impl('Display', 'parse::Trace', 'fmt')
    me = sym('arg0')

    def spec(ip, st):
        line, col, text, msg = (ip.fld(me, 'Trace', j, x) for j, x in enumerate(('line', 'col', 'linestr', 'msg')))
        base = [S('at '), mk('disp', 'usize', line), S(':'), mk('disp', 'usize', col), S(' :: '), msg, S('\n'), text, S('\n')]
        for s, b in ip.branch(st, le0(ladd(I(1), col, -1))):
            if not b:
                yield s, written(ip, base)
                continue
            for s2, z in ip.branch(s, le0(ladd(col, I(1), -1))):
                yield s2, written(ip, base + ([] if z else [mk('each', mk('range', I(0), ladd(col, I(1), -1)), (((), (S(' '),)),))]) + [S('^')])

    def written(ip, ps):
        return {'ret': ok(UNIT), '*arg1': mkstr(ps)}
    r.check(fn, spec)
    every = r.method(ERROR, 'backtrace')

    def bspec(ip, st):
        def chk(ip, st, got):
            """every entry's line, column, message and line text, in order"""
            if got.op != 'str':
                return False
            eachs = [p for p in got.a if p.op in ('each', 'join')]
            if len(eachs) != 1:
                return False
            if not all_entries(ip, eachs[0].a[0]):
                return False
            for g, ps in eachs[0].a[1]:
                fields = [x.a[2] for p in ps for x in walk(p) if x.op == 'fld' and x.a[1] == 'Trace']
                if not {'line', 'col', 'msg', 'linestr'} <= set(fields):
                    return False
            return True
        yield st, chk
    r.check(every, bspec, opaque=opaque_get(r), axiom=entry_there)
    r.check(r.impl('Debug', 'parse::Error', 'fmt'), lambda ip, st: [(st, lambda ip, st, got: True)], opaque=opaque_get(r), axiom=entry_there)
