"""The reader: what every grammar function does with any text.

Each rule gives a reference description of one part of the grammar, built from the same small set of text operations
(literal, run of characters, sequence, alternative, repetition).  The functions of the reader are analysed on an
unconstrained text; on every path the outcome (accepted with rest and value, soft failure, hard failure, panic) must be
the one of the reference description under the decisions of that path.
"""
from terms import *
from core import NoAnswer, same, show_path, clip, norm_path
from interp import Frame
import interp
import nomdl
from nomdl import outcome, pack, rule, fail, OK, head, drop, head_in, starts

KSERD, VALUE, KSTR = 'ds::kserd::Kserd', 'ds::val::Value', 'ds::kstr::Kstr'
IN = sym('i')
ALPHA, DIGIT = nomdl.ALPHA, nomdl.DIGIT
NAME = ALPHA | DIGIT | cs_of('-_')
START = ALPHA | cs_of('_')
INLINE, MULTI = cs_of(' \t'), cs_of(' \t\r\n')
NUMBER = DIGIT | cs_of('-.einfNa')


def N(kind, *a):
    return mk('nom', kind, *a)


def lit(s):
    return N('tag', S(s))


def run(cs, least=0):
    return N('run', cs, least)


ws, wsm = run(INLINE), run(MULTI)
nl = N('alt', mk('tup', lit('\n'), lit('\r\n')))


def before(a, b):
    return N('preceded', a, b)


def after(a, b):
    return N('terminated', a, b)


def alt(*ps):
    return N('alt', mk('tup', *ps))


def sk(p):
    return before(ws, p)


def cut(p):
    return N('cut', p)


def opt(p):
    return N('opt', p)


def then(p, f):
    return N('then', p, f)


def out(p, f):
    """map the value"""
    return N('then', p, lambda ip, s, rest, v: [(s, 'Ok', rest, f(v))])


def always(f):
    """a parser given by a function of the position"""
    return N('then', N('success', UNIT), lambda ip, s, i, v: f(ip, s, i))


def items(p, sep=None):
    return N('many0', p) if sep is None else N('separated_list0', sep, p)


def kstr(x):
    return mk('adt', KSTR, 'Kstr', mk('adt', COW, 'Borrowed', x))


def value(variant, *x):
    return mk('adt', VALUE, variant, *x)


def kserd(ident, v):
    return mk('adt', KSERD, 'Kserd', ident, v)


# ---------------------------------------------------------------- reference grammar
def name_(ip, s, i):
    return [(s2, 'Ok', mk('past', i, NAME), kstr(mk('span', i, NAME))) if b else (s2, 'Error', None, None)
            for s2, b in head_in(ip, s, i, lambda h: inset(h, START))]


name = always(name_)
bracketed = before(lit('<'), cut(after(name, lit('>'))))
fieldname = out(run(NAME), kstr)


def val(force):
    return rule('value', B(force))


def concise_ahead(ip, s, i):
    """is a line end the next thing after blanks"""
    at, _ = nomdl.run(ip, s, i, cs_of(' \t\r'))
    return head_in(ip, s, at, lambda h: inset(h, cs_of('\n')))


ASSIGN_NAME = (ALPHA | DIGIT) | ~cs_of('<>(){}[],=\'"\r\n')
NO_DELIM = NAME | cs_of('= \t')


def assign_ahead(ip, s, i):
    """a name and an equals sign are next; a delimited string is not a name"""
    res = []
    for s2, b in starts(ip, s, i, S('str')):
        for s3, d in head_in(ip, s2, drop(i, 3), lambda h: inset(h, ~NO_DELIM)) if b else [(s2, False)]:
            if d:
                res.append((s3, False))
                continue
            at, _ = nomdl.run(ip, s3, i, ASSIGN_NAME)
            res.extend(head_in(ip, s3, at, lambda h: inset(h, cs_of('='))))
    return res


inline_list = items(sk(val(True)), sk(lit(',')))
concise_list = before(wsm, cut(after(items(val(False), wsm), wsm)))


def keyed(k, colon, v):
    return N('separated_pair', k, sk(lit(colon)), sk(v))


def map_pair(force):
    return keyed(alt(val(False), val(True)), ':', val(force))


def cntr_pair(force):
    return keyed(fieldname, '=', cut(val(force)))


inline_map = items(sk(map_pair(True)), sk(lit(',')))
concise_map = before(wsm, after(items(map_pair(False), wsm), wsm))
inline_cntr = items(sk(cntr_pair(True)), sk(lit(',')))
concise_cntr = before(wsm, cut(after(items(cntr_pair(False), wsm), wsm)))


def delimited(force, op, cl, variant, inline, concise, hard, build):
    """[name] open items close, on one line or over several"""
    def inside(ip, s, i, v):
        ident = v
        res = []
        for s2, c in concise_ahead(ip, s, i):
            for s3, f in ip.branch(s2, force):
                p = after(concise if c and not f else inline, sk(lit(cl)))
                if hard:
                    p = cut(p)
                res.extend((s4, k, a, kserd(ident, value(variant, build(b))) if k == 'Ok' else b) for s4, k, a, b in outcome(ip, s3, None, p, i, None))
        return res
    return then(after(opt(name), sk(lit(op))), inside)


def to_map(l):
    return mk('bmap', *l.a)


def unit_(ip, s, i):
    return outcome(ip, s, None, before(lit('('), cut(after(ws, lit(')')))), i, None)


unit = out(always(unit_), lambda v: UNIT)
boolean = alt(out(lit('true'), lambda v: TRUE), out(lit('false'), lambda v: FALSE))


def number_(ip, s, i):
    rest, txt = nomdl.run(ip, s, i, NUMBER)
    res = app('rule.number', txt)
    return [(s2, 'Ok', rest, ip.fld(res, 'Ok', 0, '0')) if n == 'Ok' else (s2, 'Error', None, None) for s2, n in ip.fork_var(s, res, RESULT)]


number = always(number_)


def quoted(ip, s, i, d):
    """d text d, where the text is everything up to the next d"""
    P = ~cs_of(cval(d)) if isconst(d, 'char') else neg(ip.char_eq(nomdl.AC, d))
    inner = before(N('char', d), cut(after(out(N('run', P, 0), kstr), N('char', d))))
    return outcome(ip, s, None, inner, i, None)


def string_(ip, s, i):
    res = []
    for s2, b in starts(ip, s, i, S('str')):
        if not b:
            res.extend(quoted(ip, s2, i, CH('"')))
            continue
        j = drop(i, 3)
        for s3, e in ip.branch(s2, eq0(ip.length(j))):
            res.extend([(s3, 'Error', None, None)] if e else quoted(ip, s3, j, head(j)))
    return res


string = always(string_)
BARR = 'ds::barr::Barr'
barr = before(lit("b91'"), cut(after(out(run(~cs_of("'")), lambda x: mk('adt', BARR, 'Barr', mk('adt', COW, 'Owned', app('base91::slice_decode', x)))), lit("'"))))


def wrap(variant):
    return lambda v: value(variant, v)


# the five forms are told apart by how they start, so they are followed to their first characters
PRIMS = ('parse::prims::unit_value', 'parse::prims::boolean', 'parse::prims::num', 'parse::prims::string', 'parse::prims::barr')
prim_value = alt(out(unit, lambda v: value('Unit')), out(boolean, wrap('Bool')), out(number, wrap('Num')),
                 out(string, wrap('Str')), out(barr, wrap('Barr')))
prim = out(N('separated_pair', opt(bracketed), ws, rule('prim_value')), lambda v: kserd(v.a[0], v.a[1]))


def dispatch(force):
    """which form a value has is settled by its first characters"""
    def f(ip, s, i):
        res = []

        def to(st, nm):
            res.extend(outcome(ip, st, None, rule(nm) if nm == 'prim' else rule(nm, force), i, None))
        for s1, b in any_start(ip, s, i, ('true', 'false')):
            if b:
                to(s1, 'prim')
                continue
            for s2, k, j, v in outcome(ip, s1, None, opt(bracketed), i, None):
                if k != 'Ok':
                    res.append((s2, k, None, None))
                    continue
                for s3, n in ip.fork_var(s2, v, OPTION):
                    if n == 'Some':
                        to(s3, 'prim')
                        continue
                    for s4, k4, j4, v4 in outcome(ip, s3, None, opt(name), i, None):
                        named = v4 is not NONE
                        at, _ = nomdl.run(ip, s4, j4, INLINE)
                        for s5, c in first_of(ip, s4, at, '[{('):
                            if c is None:
                                to(s5, 'prim')
                            elif c in '[{':
                                to(s5, 'seq' if c == '[' else 'map')
                            else:
                                if not named:
                                    s6s = [(s6, k6 == 'Ok') for s6, k6, _, _ in outcome(ip, s5, None, rule('unit'), at, None)]
                                else:
                                    s6s = [(s5, False)]
                                for s6, u in s6s:
                                    if u:
                                        to(s6, 'prim')
                                        continue
                                    at2, _ = nomdl.run(ip, s6, drop(at, 1), MULTI)
                                    for s7, a in assign_ahead(ip, s6, at2):
                                        to(s7, 'cntr' if a else 'tuple')
        return res
    return always(f)


def any_start(ip, s, i, words):
    live, res = [s], []
    for w in words:
        nxt = []
        for x in live:
            for s2, b in starts(ip, x, i, S(w)):
                res.append((s2, True)) if b else nxt.append(s2)
        live = nxt
    return res + [(x, False) for x in live]


def first_of(ip, s, i, chars):
    live, res = [s], []
    for c in chars:
        nxt = []
        for x in live:
            for s2, b in head_in(ip, x, i, lambda h: inset(h, cs_of(c))):
                res.append((s2, c)) if b else nxt.append(s2)
        live = nxt
    return res + [(x, None) for x in live]


# ---------------------------------------------------------------- running the reader's functions
def opaque_for(r, keep=()):
    """grammar rules analysed on their own are kept as rules inside the others"""
    def ctor(nm, n):
        return lambda ip, st, fr, args, info, t: [('ret', st, rule(nm, *args[:n]))]

    def direct(nm):
        def f(ip, st, fr, args, info, t):
            i = ip.deref(st, args[-1])
            nomdl.note(ip, i)
            return nomdl.finish(outcome(ip, st, fr, rule(nm), i, t))
        return f
    tab = {
        'parse::kserd_delimited': ctor('value', 1),
        'parse::list::tuple': ctor('tuple', 1), 'parse::list::seq_delimited': ctor('seq', 1),
        'parse::map::delimited': ctor('map', 1), 'parse::cntr::delimited': ctor('cntr', 1),
        'parse::prims::prim': direct('prim'), 'parse::prims::prim_value': direct('prim_value'), 'parse::prims::unit_value': direct('unit'),
        'parse::prims::boolean': direct('boolean'), 'parse::prims::num': direct('num'), 'parse::prims::string': direct('string'), 'parse::prims::barr': direct('barr'),
        'parse::kserd_nested': ctor('nested', 1), 'parse::cntr::verbose': ctor('verbose', 1), 'parse::cntr::verbose_cntr_field': ctor('vfield', 1),
        'parse::cntr::expect_indents': ctor('indents', 1),
        'parse::kserd_root': direct('root'),
    }
    for p in tab:
        if p not in r.p.by_path:
            raise NoAnswer('grammar function %s is gone' % p)
    tab[r.impl('FromStr', 'Number', 'from_str')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, app('rule.number', ip.snap(st, args[0])))]
    for k in keep:
        tab.pop(k, None)
    return tab


def applied(ip, fn, outs):
    """a function returning a parser, applied to an unconstrained text"""
    res = []
    fr = Frame()
    fr.fn, fr.id, fr.env, fr.body, fr.loops, fr.site = fn, -1, {}, None, {}, None
    for k, s, v in outs:
        if k != 'ret':
            res.append((k, s, v))
        else:
            ip.stack, ip.frames = [], [fr]
            res.extend(ip.call_value(s, fr, v, [IN], None))
    return res


def split_result(ip, fn, outs):
    """decide the outcome kinds of a symbolic result"""
    res = []
    for k, s, v in outs:
        if k != 'ret':
            res.append((k, s, v))
        else:
            res.extend(('ret', s2, pack(kk, a, b)) for s2, kk, a, b in nomdl.split(ip, s, v))
    return res


def check(r, path, ref, args=None, ctor=None, mode='value', what=''):
    fns = r.p.by_path.get(path)
    if not fns:
        raise NoAnswer('grammar function %s is gone' % path)
    fn = fns[0]
    makes = ctor if ctor is not None else False
    opaque = opaque_for(r, (path,) + (PRIMS if path == 'parse::prims::prim_value' else ()))

    def after_(ip, f, outs):
        if makes:
            outs = applied(ip, f, outs)
        return split_result(ip, f, outs)

    def spec(ip, st):
        if mode == 'panic':
            yield st, anything
            return
        for s, k, a, b in outcome(ip, st, None, ref, IN, None):
            yield s, pack(k, a, b)
    a = list(args or [])
    if not makes:
        a.append(IN)
    return r.check(fn, spec, args=a, opaque=opaque, then=after_, panics=None if mode == 'panic' else (lambda ip, st, v: True), what=what, maxtraces=20000)


def anything(ip, st, got):
    return True



# ---------------------------------------------------------------- line-oriented containers
FIELD = 'parse::cntr::ContainerField'
blank_line = sk(nl)
indent = alt(lit('    '), lit('\t'))


def uncut(p):
    return always(lambda ip, s, i: [(s2, 'Error' if k == 'Failure' else k, a, b) for s2, k, a, b in outcome(ip, s, None, p, i, None)])


def heading_(ip, s, i):
    """name [: identity]"""
    res = []
    for s2, k, j, nm in outcome(ip, s, None, sk(fieldname), i, None):
        for s3, k3, j3, _ in outcome(ip, s2, None, sk(lit(':')), j, None):
            if k3 == 'Ok':
                res.extend((s4, k4, a, mk('tup', nm, some(b)) if k4 == 'Ok' else b) for s4, k4, a, b in outcome(ip, s3, None, sk(name), j3, None))
            else:
                res.append((s3, 'Ok', j, mk('tup', nm, NONE)))
    return res


heading = always(heading_)


def entry(ip, n):
    deeper = rule('nested', ladd(n, I(1)))

    def field(variant, *a):
        return mk('adt', FIELD, variant, *a)

    def body(ip, s, i):
        res = []
        for s1, e in ip.branch(s, eq0(ip.length(i))):
            if e:
                res.append((s1, 'Error', None, None))
                continue
            for s2, k, _, _ in outcome(ip, s1, None, blank_line, i, None):
                if k == 'Ok':
                    res.append((s2, 'Error', None, None))
                else:
                    res.extend(full(ip, s2, i))
        return res

    def full(ip, s, i):
        res = []
        for s1, c in first_of(ip, s, i, ':['):
            if c == ':':
                res.extend(outcome(ip, s1, None, out(before(lit(':'), sk(name)), lambda v: field('Id', v)), i, None))
            elif c == '[':
                for s2, b in starts(ip, s1, i, S('[[')):
                    if b:
                        head_ = after(cut(before(lit('[['), after(heading, sk(lit(']]'))))), sk(nl))
                        for s3, k, j, h in outcome(ip, s2, None, head_, i, None):
                            res.extend(listed(ip, s3, j, h) if k == 'Ok' else [(s3, k, j, h)])
                    else:
                        head_ = after(before(lit('['), after(heading, sk(lit(']')))), sk(nl))
                        for s3, k, j, h in outcome(ip, s2, None, head_, i, None):
                            if k != 'Ok':
                                res.append((s3, k, j, h))
                                continue
                            for s4, k4, j4, v in outcome(ip, s3, None, deeper, j, None):
                                res.extend(owned(ip, s4, j4, h, v) if k4 == 'Ok' else [(s4, k4, j4, v)])
            else:
                res.extend(outcome(ip, s1, None, out(cut(cntr_pair(False)), lambda v: field('Direct', v.a[0], v.a[1])), i, None))
        return res

    def listed(ip, s, i, h):
        res = []
        for s2, k, j, key in outcome(ip, s, None, opt(after(sk(uncut(val(False))), sk(lit(':')))), i, None):
            if k != 'Ok':
                res.append((s2, k, j, key))
            elif key is NONE:
                res.extend(outcome(ip, s2, None, out(deeper, lambda v: field('SeqEntry', h.a[1], h.a[0], v)), j, None))
            else:
                kv = key.a[2]
                res.extend(outcome(ip, s2, None, out(alt(sk(val(False)), before(sk(nl), deeper)), lambda v: field('MapEntry', h.a[1], h.a[0], kv, v)), j, None))
        return res

    def owned(ip, s, j, h, v):
        """an identity given as a line of its own goes before the one in the heading"""
        own = ip.fld(v, 'Kserd', 0, 'id')
        val_ = ip.fld(v, 'Kserd', 1, 'val')
        return [(s2, 'Ok', j, field('NestedVerbose', h.a[0], kserd(own if m == 'Some' else h.a[1], val_))) for s2, m in ip.fork_var(s, own, OPTION)]
    return before(before(rule('indents', n), ws), always(body))


def encased_(ip, s, i):
    return [(s2, k == 'Ok') for s2, k, _, _ in outcome(ip, s, None, before(lit('['), after(sk(name), before(opt(before(sk(lit(':')), sk(name))), sk(lit(']'))))), i, None)]


def nested(n):
    """a container written over lines is known by its first line"""
    def f(ip, s, i):
        at, _ = nomdl.run(ip, s, i, MULTI)
        res = []

        def no(s, tests):
            if not tests:
                return [(s, False)]
            r = []
            for s2, b in tests[0](s):
                r.extend([(s2, True)] if b else no(s2, tests[1:]))
            return r
        for s2, yes in no(s, [lambda s: starts(ip, s, at, S(':')), lambda s: starts(ip, s, at, S('[[')), lambda s: assign_ahead(ip, s, at), lambda s: encased_(ip, s, at)]):
            res.extend(outcome(ip, s2, None, rule('verbose', n) if yes else sk(val(False)), i, None))
        return res
    return always(f)


def root_(ip, s, i):
    res = []
    for s2, e in ip.branch(s, eq0(ip.length(i))):
        if e:
            res.append((s2, 'Error', None, None))
            continue
        for s3, k, j, v in outcome(ip, s2, None, N('all_consuming', after(rule('nested', I(0)), wsm)), i, None):
            if k == 'Ok':
                res.append((s3, k, j, v))
                continue
            # a sequence may look like a heading: second reading as a plain value, reporting the first failure
            for s4, k4, j4, v4 in outcome(ip, s3, None, N('all_consuming', after(sk(val(False)), wsm)), i, None):
                res.append((s4, k4, j4, v4) if k4 == 'Ok' else (s4, k, j, v))
    return res


root = always(root_)


def table_of(ip, st, p):
    """what a parser does at a generic place, as a table"""
    tab, _, bad = nomdl.item_table(ip, st, None, p, None)
    return nomdl.table_key(tab)


def position_table(cases, lv):
    """table of a loop that moves a position: [(guards, next position)] over the loop's own position"""
    m = {lv: nomdl.AT, sym('acc'): nomdl.AT}
    return tuple((tuple((subst(a, m), pol) for a, pol in g), (subst(x, m),)) for g, x in cases)


def ok_rows(tab):
    return tuple((g, (p[1],)) for g, p in tab if p[0] is S('Ok'))


def lv_of(t):
    c = sorted({x for x in walk(t) if x.op == 'lv'}, key=lambda x: x.n)
    return c[0] if len(c) == 1 else None


def walk_guards(gs):
    for g in gs:
        for a, _ in g:
            yield a


def same_rows(ip, st, a, b):
    return same(ip, st, mk('items', a, ()), mk('items', b, ()))


def skip_lines(r, fn, ip, st):
    """the place after all leading blank lines, as the code computes it"""
    seen = set()
    for a, _ in st.path:
        for x in walk(a):
            if x.op in ('partial', 'pastreps') and contains(x, IN):
                seen.add(x)
    tops = [x for x in seen if x.op == 'partial' and x.a[0].op == 'loopval' and x.a[0].a[0] is IN
            or x.op == 'pastreps' and x.a[0].a[1] is IN]
    if len(tops) != 1:
        raise NoAnswer('%s: leading blank lines are not skipped by one recognisable loop' % norm_path(fn['path']))
    x = tops[0]
    want = table_of(ip, interp.St(), blank_line)
    if x.op == 'pastreps':
        good = same_rows(ip, interp.St(), ok_rows(x.a[0].a[0].a[0]), ok_rows(want))
        return x, good
    gs, vals = x.a[0].a[1].a[0], x.a[0].a[2]
    lvs = {y for a in walk_guards(gs) for y in walk(a) if y.op == 'lv'}
    if len(lvs) != 1:
        raise NoAnswer('%s: loop over blank lines' % norm_path(fn['path']))
    rows = position_table(list(zip(gs, vals)), list(lvs)[0])
    good = same_rows(ip, interp.St(), rows, ok_rows(want))
    # the loop is left only where no blank line follows
    good = good and all(k != 'Ok' for _, k, _, _ in outcome(ip, st, None, blank_line, x, None))
    return x, good


def check_entry(r, mode):
    path = 'parse::cntr::verbose_cntr_field'
    fn = r.p.by_path[path][0]
    n = sym('n')

    def spec(ip, st):
        if mode == 'panic':
            yield st, anything
            return
        at, good = skip_lines(r, fn, ip, st)
        if not good:
            def early(ip, st, got):
                """the first line that is not blank, whichever blank lines come before it"""
                return False
            yield st, early
            return
        for s, k, a, b in outcome(ip, st, None, entry(ip, n), at, None):
            yield s, pack(k, a, b)
    run_check(r, fn, spec, [n], True, mode, path)


def check_indents(r, mode):
    path = 'parse::cntr::expect_indents'
    fn = r.p.by_path[path][0]
    n = sym('n')
    over = mk('range', I(0), n)

    def spec(ip, st):
        if mode == 'panic':
            yield st, anything
            return
        want = table_of(ip, interp.St(), indent)

        def judge(ip, s, got):
            """the text after exactly n indents (four blanks or a tab each), or a soft failure when there are fewer"""
            if got.a[1] == 'Ok':
                f = got.a[2].a[0]
                if f.op != 'fold' or f.a[0] is not over or f.a[1] is not IN:
                    return False
                lv = lv_of(mk('x', *[a for g, _ in f.a[2] for a, _ in g]))
                rows = position_table(f.a[2], lv)
                return same_rows(ip, interp.St(), rows, ok_rows(want))
            if got.a[2].a[1] != 'Error':
                return False
            for a, pol in s.path:
                if pol and a.op == 'any' and a.a[0] is over:
                    lv = lv_of(mk('x', *[x for x, _ in a.a[1]]))
                    m = {lv: nomdl.AT}
                    g = tuple((subst(x, m), q) for x, q in a.a[1])
                    if all(under_(ip, g + gw) is None for gw, p in want if p[0] is S('Ok')):
                        return True
            return False
        yield st, judge
    run_check(r, fn, spec, [n], True, mode, path)


def under_(ip, g):
    st = interp.St()
    for a, pol in g:
        if ip.decide(st, a) is (not pol):
            return None
        st = ip.assume(st, a, pol)
        if st is None:
            return None
    return st


def last_write(x, acc, key):
    """value stored under key by a chain of updates of acc; None when something else is touched"""
    if x is acc:
        return mk('entryval', acc, key)
    if x.op == 'bmap' and len(x.a) == 2 and x.a[0] is allof(acc) and x.a[1].op == 'one' and x.a[1].a[0].op == 'tup' and x.a[1].a[0].a[0] is key:
        return x.a[1].a[0].a[1]
    if x.op == 'updentry' and x.a[1] is key:
        below = last_write(x.a[0], acc, key)
        if below is None:
            return None
        m = {mk('entryval', y, key): last_write(y, acc, key) for y in chain(x.a[0], acc)}
        return subst(x.a[2], {k: v for k, v in m.items() if v is not None})
    return None


def chain(x, acc):
    out_ = [x]
    while x.op == 'updentry':
        x = x.a[0]
        out_.append(x)
    return out_


def check_collation(r, mode):
    path = 'parse::cntr::verbose'
    fn = r.p.by_path[path][0]
    n = sym('n')
    ref = items(rule('vfield', n))

    def spec(ip, st):
        if mode == 'panic':
            yield st, anything
            return
        for s, k, a, b in outcome(ip, st, None, ref, IN, None):
            yield s, (judge(a, b) if k == 'Ok' else pack(k, a, b))

    def judge(rest, lst):
        def f(ip, s, got):
            """a container with every field once: direct and nested ones as they are, repeated headings collected in order into one sequence or map, the last identity"""
            if got.a[1] != 'Ok' or not same(ip, s, got.a[2].a[0], rest):
                return False
            k = got.a[2].a[1]
            if k.op != 'adt' or k.a[3].op != 'adt' or k.a[3].a[1] != 'Cntr':
                return False
            why = identity(ip, s, k.a[2], lst) or collected(ip, s, k.a[3].a[2], lst)
            if why:
                f.__doc__ = why
            return not why
        return f

    def variants(ip, el):
        return ip.fork_var(interp.St(), el, FIELD)

    def identity(ip, s, x, lst):
        if x.op != 'fold' or not same(ip, s, x.a[0], lst) or x.a[1] is not NONE:
            return 'the identity is not taken from the lines'
        el = mk('elem', x.a[0])
        for s2, v in variants(ip, el):
            for g, y in x.a[2]:
                s3 = under2(ip, s2, g)
                if s3 is None:
                    continue
                want = some(ip.fld(el, v, 0, '0')) if v == 'Id' else sym('acc')
                if not same(ip, s3, y, want):
                    return 'the identity comes from a line of the form %s as %s' % (v, clip(show(y), 80))
        return None

    def collected(ip, s, m, lst):
        if m.op != 'bmap':
            return 'the fields are not collected'
        found = set()
        for seg in m.a:
            if seg.op != 'each':
                return 'a field that is not written in the text'
            src, cases = seg.a
            if same(ip, s, src, lst):
                w = plain(ip, src, cases)
                found |= {'Direct', 'NestedVerbose'}
            elif src.op == 'fold' and same(ip, s, src.a[0], lst) and src.a[1].op == 'bmap' and not src.a[1].a:
                kind = group_kind(ip, src)
                if kind is None:
                    return 'entries are collected from no or from several kinds of lines'
                w = grouped(ip, src, kind) or placed(ip, src, cases, kind)
                found.add(kind)
            else:
                return 'fields are collected from something else'
            if w:
                return w
        if found != {'Direct', 'NestedVerbose', 'SeqEntry', 'MapEntry'}:
            return 'some kind of line is dropped: %s' % sorted({'Direct', 'NestedVerbose', 'SeqEntry', 'MapEntry'} - found)
        return None

    def plain(ip, src, cases):
        el = mk('elem', src)
        for s2, v in variants(ip, el):
            hit = False
            for g, ps in cases:
                s3 = under2(ip, s2, g)
                if s3 is None:
                    continue
                hit = True
                if v not in ('Direct', 'NestedVerbose'):
                    return 'a line of the form %s is also stored directly' % v
                if len(ps) != 1 or not same(ip, s3, ps[0].a[0], mk('tup', ip.fld(el, v, 0, '0'), ip.fld(el, v, 1, '1'))):
                    return 'a line of the form %s is not stored under its own name with its own value' % v
            if not hit and v in ('Direct', 'NestedVerbose'):
                return 'a line of the form %s is dropped' % v
        return None

    def group_kind(ip, fold):
        el = mk('elem', fold.a[0])
        kinds = set()
        for s2, v in variants(ip, el):
            for g, y in fold.a[2]:
                if y is not sym('acc') and under2(ip, s2, g) is not None:
                    kinds.add(v)
        return kinds.pop() if len(kinds) == 1 and kinds <= {'SeqEntry', 'MapEntry'} else None

    def grouped(ip, fold, kind):
        el = mk('elem', fold.a[0])
        acc = sym('acc')
        fs = [f['n'] for v in r.p.adts[FIELD]['v'] if v['n'] == kind for f in v['f']]
        fld = {f: ip.fld(el, kind, j, f) for j, f in enumerate(fs)}
        key = fld['field_name']
        for s2, v in variants(ip, el):
            for g, y in fold.a[2]:
                s3 = under2(ip, s2, g)
                if s3 is None or v != kind:
                    continue
                has = None
                for a, pol in g:
                    if a.op == 'has' and a.a[1] is key:
                        has = pol
                if has is None:
                    return 'entries of %s are stored without looking for earlier ones of the name' % kind
                z = last_write(y, acc, key)
                if z is None:
                    return 'an entry of %s is not stored under its own name' % kind
                old = mk('entryval', acc, key)
                oid, oval = (ip.fld(old, '', 0, '0'), ip.fld(old, '', 1, '1')) if has else (NONE, None)
                shape = 'list' if kind == 'SeqEntry' else 'bmap'
                new = fld['value'] if kind == 'SeqEntry' else mk('tup', fld['key'], fld['value'])
                want = mk(shape, allof(oval), one(new)) if has else mk(shape, one(new))
                for s4, m in ip.fork_var(s3, fld['id'], OPTION):
                    wid = fld['id'] if m == 'Some' else oid
                    if not same(ip, s4, ip.fld(z, '', 0, '0'), wid):
                        return 'the identity of a collected %s is %s' % (kind, clip(show(ip.fld(z, '', 0, '0')), 80))
                    if not same(ip, s4, ip.fld(z, '', 1, '1'), want):
                        return 'a collected %s becomes %s' % (kind, clip(show(ip.fld(z, '', 1, '1')), 80))
        return None

    def placed(ip, src, cases, kind):
        el = mk('elem', src)
        k, e = ip.fld(el, '', 0, '0'), ip.fld(el, '', 1, '1')
        v = value('Seq' if kind == 'SeqEntry' else 'Map', ip.fld(e, '', 1, '1'))
        want = mk('tup', k, kserd(ip.fld(e, '', 0, '0'), v))
        for g, ps in cases:
            if g or len(ps) != 1 or not same(ip, interp.St(), ps[0].a[0], want):
                return 'a collected %s is not stored under its name as such' % kind
        return None if cases else 'collected %s are dropped' % kind
    run_check(r, fn, spec, [n], True, mode, path)


def under2(ip, st, g):
    for a, pol in g:
        d = ip.decide(st, a)
        if d is (not pol):
            return None
        st = ip.assume(st, a, pol)
        if st is None:
            return None
    return st


def run_check(r, fn, spec, args, makes, mode, path):
    def after_(ip, f, outs):
        if makes:
            outs = applied(ip, f, outs)
        return split_result(ip, f, outs)
    a = list(args) + ([] if makes else [IN])
    try:
        r.check(fn, spec, args=a, opaque=opaque_for(r, (path,)), then=after_, panics=None if mode == 'panic' else (lambda ip, st, v: True), maxtraces=20000)
    except interp.Unknown as e:
        r.noans.append('%s: %s' % (norm_path(path), e))


FORCE = sym('force')
N_ = sym('n')
TUPLE = delimited(FORCE, '(', ')', 'Tuple', inline_list, concise_list, True, lambda x: x)
SEQ = delimited(FORCE, '[', ']', 'Seq', inline_list, concise_list, True, lambda x: x)
MAP = delimited(FORCE, '{', '}', 'Map', inline_map, concise_map, False, to_map)
CNTR = delimited(FORCE, '(', ')', 'Cntr', inline_cntr, concise_cntr, False, to_map)

# function -> (reference, arguments, does it return a parser)
GRAMMAR = {
    'parse::names::valid_name': (name, (), False),
    'parse::names::field_name': (fieldname, (), False),
    'parse::wsp::inline_whitespace': (ws, (), False),
    'parse::wsp::multiline_whitespace': (wsm, (), False),
    'parse::prims::unit_value': (unit, (), False),
    'parse::prims::boolean': (boolean, (), False),
    'parse::prims::num': (number, (), False),
    'parse::prims::string': (string, (), False),
    'parse::prims::barr': (barr, (), False),
    'parse::prims::prim_value': (prim_value, (), False),
    'parse::prims::prim': (prim, (), False),
    'parse::list::tuple': (TUPLE, (FORCE,), True),
    'parse::list::seq_delimited': (SEQ, (FORCE,), True),
    'parse::map::delimited': (MAP, (FORCE,), True),
    'parse::cntr::delimited': (CNTR, (FORCE,), True),
    'parse::kserd_delimited': (dispatch(FORCE), (FORCE,), True),
    'parse::kserd_nested': (nested(N_), (N_,), True),
    'parse::kserd_root': (root, (), False),
}


def agrees(r, *paths):
    for p in paths:
        ref, args, makes = GRAMMAR[p]
        check(r, p, ref, args, makes)


def primitives(r):
    agrees(r, 'parse::names::valid_name', 'parse::prims::unit_value', 'parse::prims::boolean', 'parse::prims::num', 'parse::prims::string',
           'parse::prims::barr', 'parse::prims::prim_value', 'parse::prims::prim')
    check(r, 'parse::names::ident', bracketed, [TRUE], True)
    check(r, 'parse::names::ident', name, [FALSE], True)


def delimited_forms(r):
    agrees(r, 'parse::names::field_name', 'parse::wsp::inline_whitespace', 'parse::wsp::multiline_whitespace', 'parse::list::tuple', 'parse::list::seq_delimited',
           'parse::map::delimited', 'parse::cntr::delimited', 'parse::kserd_delimited')


def line_forms(r):
    check_indents(r, 'value')
    check_entry(r, 'value')
    check_collation(r, 'value')
    agrees(r, 'parse::kserd_nested')


def whole_text(r):
    agrees(r, 'parse::kserd_root')
    check_parse(r)


def check_parse(r):
    """the value of the whole text, or an error made from the text and the place"""
    fn = r.free('parse::parse')
    new = r.method('parse::Error', 'new')
    op = opaque_for(r, ())
    op[new['path']] = lambda ip, st, fr, args, info, t: [('ret', st, app('perror', ip.snap(st, args[0]), ip.snap(st, args[1])))]

    def spec(ip, st):
        for s, k, a, b in outcome(ip, st, None, rule('root'), IN, None):
            if k == 'Ok':
                yield s, ok(b)
            else:
                def e(ip, s, got):
                    """an error about this text"""
                    return got.op == 'adt' and got.a[1] == 'Err' and got.a[2].op == 'app' and got.a[2].a[0] == 'perror' and got.a[2].a[1] is IN
                yield s, e
    r.check(fn, spec, args=[IN], opaque=op)


def total(r):
    """no text makes any grammar function panic; errors are reported inside the text"""
    for p, (ref, args, makes) in GRAMMAR.items():
        safe(r, p, args, makes)
    safe(r, 'parse::names::ident', (FORCE,), True)
    for p in ('parse::cntr::verbose', 'parse::cntr::verbose_cntr_field', 'parse::cntr::expect_indents'):
        safe(r, p, (N_,), True)
    check_parse(r)


def safe(r, path, args, makes):
    fns = r.p.by_path.get(path)
    if not fns:
        raise NoAnswer('grammar function %s is gone' % path)
    fn = fns[0]
    seen = {}

    def after_(ip, f, outs):
        if makes:
            outs = applied(ip, f, outs)
        seen['places'] = ip.places
        res = []
        for k, s, v in outs:
            if k != 'ret':
                res.append((k, s, v))
                continue
            for s2, kk, a, b in nomdl.split(ip, s, v):
                res.append(('ret', s2, mk('tup', S(kk), a if a is not None else UNIT)))
        return res

    def spec(ip, st):
        def good(ip, st, got):
            """a place inside the text and a complete outcome"""
            k, a = got.a[0].a[1], got.a[1]
            if k == 'Incomplete':
                return False
            return inside(ip.snap(st, a)) if k == 'Ok' else raised(a)
        yield st, good
    r.check(fn, spec, args=list(args) + ([] if makes else [IN]), opaque=opaque_for(r, (path,)), then=after_, maxtraces=20000)
    out_ = [x for x in seen.get('places', ()) if not inside(x)]
    for x in out_:
        r.fail(fn, 'an error can be reported at %s, not a place in the text' % clip(show(x), 120))
    for _ in range(len(seen.get('places', ())) - len(out_)):
        r.ok()


def raised(x):
    """an error of the library made at a noted place, or one of another rule"""
    while x.op == 'fld':
        x = x.a[0]
    return x.op == 'app' and (x.a[0] == 'nomerr' or str(x.a[0]).startswith('rule.')) or x.op == 'repsfail'


def inside(x):
    """is this place a tail or run of the text being read"""
    while True:
        if x is IN or x is nomdl.AT:
            return True
        if x.op in ('drop', 'past', 'span'):
            x = x.a[0]
        elif x.op == 'fld':
            y = x
            while y.op == 'fld':
                y = y.a[0]
            if y.op == 'app' and str(y.a[0]).startswith('rule.') and y.a[0] != 'rule.number':
                x = y.a[-1]
            else:
                return False
        elif x.op == 'pastreps':
            x = x.a[0].a[1]
        elif x.op in ('repsstuck', 'repsfail'):
            x = x.a[0].a[1]
        elif x.op == 'partial':
            x = x.a[0]
        elif x.op == 'loopval':
            return inside(x.a[0]) and all(inside(subst(v, {sym('acc'): IN})) for v in x.a[2])
        elif x.op == 'fold':
            return inside(x.a[1]) and all(inside(subst(v, {sym('acc'): IN})) for _, v in x.a[2])
        elif x.op == 'lv':
            return True
        else:
            return False
