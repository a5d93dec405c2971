"""Transfer functions of the parser-combinator library and of text positions.

A position inside the input is a term: `drop(i, n)` is what is left after n characters, `past(i, P)` what is left
after the longest run of characters satisfying P, `span(i, P)` that run.  A combinator is a `nom` term holding its
sub-parsers; applying it partitions the paths by what the sub-parsers do.  Repetition is closed over one generic item:
`reps(key, i)` is the sequence of places where an item was read, with `key` the table of what one item does.
"""
from terms import *
from interp import Unknown, merge_cases, gkey, mk_each
from models import MODELS, model, R, panic, callf, fork_enum, tysub, strip_ref, pat_test, chars_of

NERR = 'nom::internal::Err'
AT = sym('@at')
AC = sym('@c')

ALPHA = cs_range('a', 'z') | cs_range('A', 'Z')
DIGIT = cs_range('0', '9')
SETS = {'alpha': ALPHA, 'digit': DIGIT, 'alphanumeric': ALPHA | DIGIT, 'space': cs_of(' \t'), 'multispace': cs_of(' \t\r\n'),
        'hex_digit': DIGIT | cs_range('a', 'f') | cs_range('A', 'F'), 'oct_digit': cs_range('0', '7')}


# ---------------------------------------------------------------- text positions
def drop(i, n):
    if n == 0:
        return i
    if isconst(i, 'str'):
        return S(cval(i)[n:])
    if i.op == 'drop':
        return mk('drop', i.a[0], i.a[1] + n)
    return mk('drop', i, n)


def settle(ip, st, x):
    """a run known to be empty on this path"""
    while x.op in ('past', 'span') and run_stops(ip, st, x.a[0], x.a[1]):
        x = x.a[0] if x.op == 'past' else S('')
    return x


def head(i):
    if isconst(i, 'str') and cval(i):
        return CH(cval(i)[0])
    return mk('nth', chars_of(i), 0)


def ptest(P, c):
    """the run predicate on a character"""
    if isinstance(P, CS):
        return inset(c, P)
    return subst(P, {AC: c})


def past_known(i):
    """what is known of the first character of a position: list of false tests"""
    return [i.a[1]] if i.op == 'past' else []


def decide_head(ip, st, i, test):
    """test: term over head(i)"""
    r = ip.decide(st, test)
    if r is not None:
        return r
    h = head(i)
    for P in past_known(i):
        q = ptest(P, h)
        if q is test:
            return False
        if neg(q) is test:
            return True
    return None


def branch_head(ip, st, i, test):
    r = decide_head(ip, st, i, test)
    if r is not None:
        return [(st, r)]
    return ip.branch(st, test)


def empty_test(ip, i):
    return eq0(ip.length(i))


def head_in(ip, st, i, mktest):
    """-> [(st, bool)]: is there a first character, and does it pass"""
    if isconst(i, 'str') and not cval(i):
        return [(st, False)]
    out = []
    for s, e in ip.branch(st, empty_test(ip, i)):
        if e:
            out.append((s, False))
            continue
        h = head(i)
        out.extend(branch_head(ip, s, i, mktest(h)))
    return out


def starts(ip, st, i, p):
    """does the text start with p (text or single character term) -> [(st, bool)]"""
    if isconst(p, 'str'):
        x = cval(p)
        if isconst(i, 'str'):
            return [(st, cval(i).startswith(x))]
        if not x:
            return [(st, True)]
        out = []
        for s, b in head_in(ip, st, i, lambda h: inset(h, cs_of(x[0]))):
            if not b or len(x) == 1:
                out.append((s, b))
            else:
                out.extend(ip.branch(s, mk('starts', i, p)))
        return out
    if isconst(p, 'char'):
        return starts(ip, st, i, S(cval(p)))
    return head_in(ip, st, i, lambda h: ip.char_eq(h, p))


def run_stops(ip, st, i, P):
    """is the run of P at i known to be empty"""
    if always_stops(i, P):
        return True
    if ip.decide(st, empty_test(ip, i)) is True:
        return True
    return decide_head(ip, st, i, ptest(P, head(i))) is False


def always_stops(i, P):
    if isconst(i, 'str') and not cval(i):
        return True
    if i.op == 'past' and isinstance(P, CS) and isinstance(i.a[1], CS) and P <= i.a[1]:
        return True
    return i.op == 'past' and P is i.a[1]


def run(ip, st, i, P):
    """-> (rest, span)"""
    if always_stops(i, P):
        return i, S('')
    if isinstance(P, CS) and isconst(i, 'str'):
        x = cval(i)
        n = 0
        while n < len(x) and x[n] in P:
            n += 1
        return S(x[n:]), S(x[:n])
    return mk('past', i, P), mk('span', i, P)


def pred_of(ip, st, fr, f, t, negate=False):
    """run predicate of a character test: a character set, or a term over @c"""
    outs = pat_test(ip, st.fork(), fr, f, AC, t)
    if outs is None:
        raise Unknown('character test')
    acc = CS(())
    n0 = len(st.path)
    ok_ = True
    vals = []
    for s, v in outs:
        cs = CS_ALL
        for a, pol in s.path[n0:]:
            if a.op == 'inset' and a.a[0] is AC:
                cs = cs & (a.a[1] if pol else ~a.a[1])
            else:
                ok_ = False
        c2 = cs_term(v)
        if c2 is None:
            ok_ = False
        elif ok_:
            acc = acc | (cs & c2)
        vals.append((s.path[n0:], v))
    if ok_:
        return ~acc if negate else acc
    if len(vals) == 1 and not vals[0][0]:
        v = vals[0][1]
    else:
        v = None
        for g, x in vals:
            c = x
            for a, pol in g:
                c = band(a if pol else neg(a), c)
            v = c if v is None else bor(v, c)
    return neg(v) if negate else v


def cs_term(v):
    if v is TRUE:
        return CS_ALL
    if v is FALSE:
        return CS(())
    if v.op == 'inset' and v.a[0] is AC:
        return v.a[1]
    if v.op == 'not':
        c = cs_term(v.a[0])
        return None if c is None else ~c
    if v.op == 'and':
        a, b = cs_term(v.a[0]), cs_term(v.a[1])
        return None if a is None or b is None else a & b
    return None


# ---------------------------------------------------------------- results of a parser
def OK(rest, out):
    return ok(mk('tup', rest, out))


def fail(kind='Error'):
    return err(mk('adt', NERR, kind, app('nomerr')))


def outcome(ip, st, fr, P, i, t):
    """apply a parser -> [(st, kind, rest, out)], kind in Ok Error Failure Incomplete panic"""
    res = []
    for k, s, v in ip.call_value(st, fr, P, [i], t):
        if k != 'ret':
            res.append((s, 'panic', v, None))
            continue
        res.extend(split(ip, s, v))
    return res


def split(ip, s, v):
    v = ip.deref(s, v)
    out = []
    for s2, n, p in fork_enum(ip, s, v, 'core::result::Result'):
        if n == 'Ok':
            if p.op == 'tup':
                out.append((s2, 'Ok', p.a[0], p.a[1]))
            else:
                out.append((s2, 'Ok', ip.fld(p, '', 0, '0'), ip.fld(p, '', 1, '1')))
        else:
            for s3, m, q in fork_enum(ip, s2, p, NERR):
                out.append((s3, m, q, None))
    return out


def pack(kind, a, b):
    return OK(a, b) if kind == 'Ok' else fail(kind)


def finish(res):
    return [('panic', s, a) if k == 'panic' else ('ret', s, pack(k, a, b)) for s, k, a, b in res]


def note(ip, i):
    """places the library may report an error at"""
    ip.places.add(i)


# ---------------------------------------------------------------- combinators
CTORS = {}
LEAVES = {}


def leaf(name):
    def d(f):
        LEAVES[name] = f
        return f
    return d


def comb(name):
    def d(f):
        CTORS[name] = f
        return f
    return d


def apply(ip, st, fr, v, i, t):
    kind = v.a[0]
    note(ip, i)
    return finish(CTORS[kind](ip, st, fr, v.a[1:], i, t))


def go(ip, fr, t):
    return lambda s, P, i: outcome(ip, s, fr, P, i, t)


def seq(ip, st, fr, ps, i, t, keep):
    """parsers one after the other; keep(outs) -> output"""
    live, done = [(st, i, ())], []
    for P in ps:
        nxt = []
        for s, j, outs in live:
            for s2, k, a, b in outcome(ip, s, fr, P, j, t):
                if k == 'Ok':
                    nxt.append((s2, a, outs + (b,)))
                else:
                    done.append((s2, k, a, b))
        live = nxt
    return done + [(s, 'Ok', j, keep(outs)) for s, j, outs in live]


@comb('preceded')
def _(ip, st, fr, a, i, t):
    return seq(ip, st, fr, a, i, t, lambda o: o[1])


@comb('terminated')
def _(ip, st, fr, a, i, t):
    return seq(ip, st, fr, a, i, t, lambda o: o[0])


@comb('delimited')
def _(ip, st, fr, a, i, t):
    return seq(ip, st, fr, a, i, t, lambda o: o[1])


@comb('pair')
def _(ip, st, fr, a, i, t):
    return seq(ip, st, fr, a, i, t, lambda o: mk('tup', *o))


@comb('separated_pair')
def _(ip, st, fr, a, i, t):
    return seq(ip, st, fr, a, i, t, lambda o: mk('tup', o[0], o[2]))


@comb('tuple')
def _(ip, st, fr, a, i, t):
    if a[0].op != 'tup':
        raise Unknown('tuple of parsers')
    return seq(ip, st, fr, a[0].a, i, t, lambda o: mk('tup', *o))


@comb('alt')
def _(ip, st, fr, a, i, t):
    if a[0].op not in ('tup',):
        raise Unknown('alternatives')
    live, done = [st], []
    for P in a[0].a:
        nxt = []
        for s in live:
            for s2, k, x, y in outcome(ip, s, fr, P, i, t):
                if k == 'Error':
                    nxt.append(s2)
                else:
                    done.append((s2, k, x, y))
        live = nxt
    return done + [(s, 'Error', None, None) for s in live]


@comb('cut')
def _(ip, st, fr, a, i, t):
    return [(s, 'Failure' if k == 'Error' else k, x, y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('opt')
def _(ip, st, fr, a, i, t):
    return [(s, 'Ok', i, NONE) if k == 'Error' else (s, k, x, some(y) if k == 'Ok' else y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('context')
def _(ip, st, fr, a, i, t):
    return outcome(ip, st, fr, a[1], i, t)


@comb('complete')
def _(ip, st, fr, a, i, t):
    return [(s, 'Error' if k == 'Incomplete' else k, x, y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('into')
def _(ip, st, fr, a, i, t):
    raise Unknown('conversion of parser output')


@comb('map')
def _(ip, st, fr, a, i, t):
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        if k != 'Ok':
            res.append((s, k, x, y))
            continue
        for k2, s2, v in callf(ip, s, fr, a[1], [y], t):
            res.append((s2, 'Ok', x, ip.snap(s2, v)) if k2 == 'ret' else (s2, 'panic', v, None))
    return res


def via(adt, good):
    def f(ip, st, fr, a, i, t):
        res = []
        for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
            if k != 'Ok':
                res.append((s, k, x, y))
                continue
            for k2, s2, v in callf(ip, s, fr, a[1], [y], t):
                if k2 != 'ret':
                    res.append((s2, 'panic', v, None))
                    continue
                for s3, n, p in fork_enum(ip, s2, v, adt):
                    res.append((s3, 'Ok', x, p) if n == good else (s3, 'Error', None, None))
        return res
    return f


CTORS['map_res'] = via('core::result::Result', 'Ok')
CTORS['map_opt'] = via('core::option::Option', 'Some')


@comb('map_parser')
def _(ip, st, fr, a, i, t):
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        if k != 'Ok':
            res.append((s, k, x, y))
            continue
        res.extend((s2, k2, x if k2 == 'Ok' else x2, y2) for s2, k2, x2, y2 in outcome(ip, s, fr, a[1], y, t))
    return [(s, k, x, y) for s, k, x, y in res]


@comb('flat_map')
def _(ip, st, fr, a, i, t):
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        if k != 'Ok':
            res.append((s, k, x, y))
            continue
        for k2, s2, P in callf(ip, s, fr, a[1], [y], t):
            res.extend(outcome(ip, s2, fr, P, x, t) if k2 == 'ret' else [(s2, 'panic', P, None)])
    return res


@comb('and_then')
def _(ip, st, fr, a, i, t):
    return CTORS['map_parser'](ip, st, fr, a, i, t)


@comb('verify')
def _(ip, st, fr, a, i, t):
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        if k != 'Ok':
            res.append((s, k, x, y))
            continue
        for k2, s2, v in callf(ip, s, fr, a[1], [y], t):
            if k2 != 'ret':
                res.append((s2, 'panic', v, None))
                continue
            res.extend((s3, 'Ok', x, y) if b else (s3, 'Error', None, None) for s3, b in ip.branch(s2, v))
    return res


@comb('value')
def _(ip, st, fr, a, i, t):
    return [(s, k, x, a[0] if k == 'Ok' else y) for s, k, x, y in outcome(ip, st, fr, a[1], i, t)]


@comb('success')
def _(ip, st, fr, a, i, t):
    return [(st, 'Ok', i, a[0])]


@comb('cond')
def _(ip, st, fr, a, i, t):
    res = []
    for s, b in ip.branch(st, a[0]):
        if b:
            res.extend((s2, k, x, some(y) if k == 'Ok' else y) for s2, k, x, y in outcome(ip, s, fr, a[1], i, t))
        else:
            res.append((s, 'Ok', i, NONE))
    return res


@comb('peek')
def _(ip, st, fr, a, i, t):
    return [(s, k, i if k == 'Ok' else x, y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('not')
def _(ip, st, fr, a, i, t):
    return [(s, 'Error', None, None) if k == 'Ok' else (s, 'Ok', i, UNIT) if k == 'Error' else (s, k, x, y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('recognize')
def _(ip, st, fr, a, i, t):
    return [(s, k, x, between(i, x) if k == 'Ok' else y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


@comb('consumed')
def _(ip, st, fr, a, i, t):
    return [(s, k, x, mk('tup', between(i, x), y) if k == 'Ok' else y) for s, k, x, y in outcome(ip, st, fr, a[0], i, t)]


def between(i, x):
    if x is i:
        return S('')
    if x.op == 'past' and x.a[0] is i:
        return mk('span', i, x.a[1])
    return mk('between', i, x)


@comb('all_consuming')
def _(ip, st, fr, a, i, t):
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        if k != 'Ok':
            res.append((s, k, x, y))
            continue
        note(ip, x)
        for s2, e in ip.branch(s, empty_test(ip, x)):
            res.append((s2, 'Ok', x, y) if e else (s2, 'Error', None, None))
    return res


# leaves
@comb('tag')
def _(ip, st, fr, a, i, t):
    p = ip.deref(st, a[0])
    if not isconst(p, 'str'):
        return [(s, 'Ok', mk('stripped', i, p), p) if b else (s, 'Error', None, None) for s, b in ip.branch(st, mk('starts', i, p))]
    return [(s, 'Ok', drop(i, len(cval(p))), p) if b else (s, 'Error', None, None) for s, b in starts(ip, st, i, p)]


@comb('char')
def _(ip, st, fr, a, i, t):
    c = a[0]
    return [(s, 'Ok', drop(i, 1), c) if b else (s, 'Error', None, None) for s, b in starts(ip, st, i, c)]


def char_by(ip, st, i, P):
    return [(s, 'Ok', drop(i, 1), head(i)) if b else (s, 'Error', None, None) for s, b in head_in(ip, st, i, lambda h: ptest(P, h))]


@comb('one_of')
def _(ip, st, fr, a, i, t):
    return char_by(ip, st, i, chars_set(ip, st, a[0]))


@comb('none_of')
def _(ip, st, fr, a, i, t):
    return char_by(ip, st, i, ~chars_set(ip, st, a[0]))


@comb('satisfy')
def _(ip, st, fr, a, i, t):
    return char_by(ip, st, i, pred_of(ip, st, fr, a[0], t))


def chars_set(ip, st, x):
    x = ip.deref(st, x)
    if isconst(x, 'str'):
        return cs_of(cval(x))
    if x.op in ('arr', 'list') and all(s.op == 'one' and isconst(s.a[0], 'char') for s in segs(x)):
        return cs_of(''.join(cval(s.a[0]) for s in segs(x)))
    raise Unknown('character list')


def take_by(ip, st, i, P, least):
    if not least:
        r, sp = run(ip, st, i, P)
        return [(st, 'Ok', r, sp)]
    out = []
    for s, b in head_in(ip, st, i, lambda h: ptest(P, h)):
        if b:
            r, sp = run(ip, s, i, P)
            out.append((s, 'Ok', r, sp))
        else:
            out.append((s, 'Error', None, None))
    return out


for _n, _neg, _least in (('take_while', False, 0), ('take_while1', False, 1), ('take_till', True, 0), ('take_till1', True, 1)):
    def _f(ip, st, fr, a, i, t, _neg=_neg, _least=_least):
        return take_by(ip, st, i, pred_of(ip, st, fr, a[0], t, _neg), _least)
    CTORS[_n] = _f

for _n, _neg in (('is_a', False), ('is_not', True)):
    def _f(ip, st, fr, a, i, t, _neg=_neg):
        cs = chars_set(ip, st, a[0])
        return take_by(ip, st, i, ~cs if _neg else cs, 1)
    CTORS[_n] = _f


@comb('rest')
def _(ip, st, fr, a, i, t):
    return [(st, 'Ok', S(''), i)]


# repetition
def item_table(ip, st, fr, P, t, sep=None):
    """what one item does at a generic place: (table, ok cases, panics)"""
    s0 = st.fork()
    n0 = len(s0.path)
    tab, good, bad = [], [], []
    for s, k, a, b in outcome(ip, s0, fr, P, AT, t):
        g = tuple(s.path[n0:])
        if k == 'panic':
            bad.append((s, a))
        elif k == 'Ok':
            b = ip.snap(s, b)
            tab.append((g, (S('Ok'), a, b)))
            good.append((g, a, b))
        elif k in ('Failure', 'Error'):
            tab.append((g, (S(k),)))
        elif k == 'Incomplete':
            raise Unknown('incomplete item')
    return tab, good, bad


def table_key(tab):
    cs = merge_cases([(g, p) for g, p in tab])
    return tuple(sorted(((gkey(g), p) for g, p in cs), key=lambda c: (tuple((a.n, b) for a, b in c[0]), tuple(x.n for x in c[1]))))


def takes(x):
    """does getting to this place from @at always take something"""
    while x.op in ('drop', 'past'):
        if x.op == 'drop':
            return True
        x = x.a[0]
    return False


def reps(ip, st, fr, P, i, t, sep=None, least=0, keep=True):
    tab, good, bad = item_table(ip, st, fr, P, t)
    key = table_key(tab)
    if sep is not None:
        t2, g2, b2 = item_table(ip, st, fr, sep, t)
        # what a separator yields is dropped
        key2 = table_key([(g, p[:2]) for g, p in t2])
        bad = bad + b2
    else:
        key2 = ()
    src = mk('reps', mk('items', key, key2), i)
    el = mk('elem', src)
    # decisions that hold at every item that was read are not decisions
    common = None
    for g, a, b in good:
        common = set(g) if common is None else common & set(g)
    cases = [(tuple((subst(x, {AT: el}), pol) for x, pol in g if (x, pol) not in (common or ())), (one(subst(b, {AT: el})),)) for g, a, b in good]
    res = [(s, 'panic', a, None) for s, a in bad]
    lst = mk('list', mk_each(ip, src, cases, 'list')) if good else mk('list')
    rest = mk('pastreps', src)
    hard = any(p[0] is S('Failure') for _, p in tab)
    live = [st]
    if hard:
        nxt = []
        for s in live:
            for s2, b in ip.branch(s, mk('repsfail', src)):
                res.append((s2, 'Failure', None, None)) if b else nxt.append(s2)
        live = nxt
    nxt = []
    for s in live:
        # an item (or separator) that takes nothing ends in an error
        if all(takes(a) for _, a, _ in (good if sep is None else g2)):
            nxt.append(s)
            continue
        for s2, b in ip.branch(s, mk('repsstuck', src)):
            res.append((s2, 'Error', None, None)) if b else nxt.append(s2)
    live = nxt
    if least:
        nxt = []
        for s in live:
            for s2, b in ip.branch(s, eq0(mk('len', src))):
                res.append((s2, 'Error', None, None)) if b else nxt.append(s2)
        live = nxt
    return res + [(s, 'Ok', rest, lst if keep else UNIT) for s in live]


@comb('many0')
def _(ip, st, fr, a, i, t):
    return reps(ip, st, fr, a[0], i, t)


@comb('many1')
def _(ip, st, fr, a, i, t):
    return reps(ip, st, fr, a[0], i, t, least=1)


@comb('separated_list0')
def _(ip, st, fr, a, i, t):
    return reps(ip, st, fr, a[1], i, t, sep=a[0])


@comb('separated_list1')
def _(ip, st, fr, a, i, t):
    return reps(ip, st, fr, a[1], i, t, sep=a[0], least=1)


@comb('run')
def _(ip, st, fr, a, i, t):
    return take_by(ip, st, i, a[0], a[1])


@comb('then')
def _(ip, st, fr, a, i, t):
    """specification side: continue with what a Python function says"""
    res = []
    for s, k, x, y in outcome(ip, st, fr, a[0], i, t):
        res.extend(a[1](ip, s, x, y) if k == 'Ok' else [(s, k, x, y)])
    return res


@comb('rule')
def _(ip, st, fr, a, i, t):
    """a grammar rule that is analysed on its own"""
    # no rule asks for more input: part of what is checked of each of them
    return [o for o in split(ip, st, app('rule.' + a[0], *(a[1:] + (i,)))) if o[1] != 'Incomplete']


def rule(name, *a):
    return mk('nom', 'rule', name, *a)


# direct parsers
def take_leaf(name, cs, least):
    def f(ip, st, fr, args, info, t):
        i = ip.deref(st, args[0])
        note(ip, i)
        return finish(take_by(ip, st, i, cs, least))
    return f


def register():
    for nm in CTORS:
        if nm in ('rule', 'run', 'then'):
            continue

        def build(ip, st, fr, args, info, t, nm=nm):
            return R(st, mk('nom', nm, *[ip.snap(st, x) if x.op == 'mref' else x for x in args]))
        for mod in ('branch', 'bytes::complete', 'character::complete', 'combinator', 'multi', 'sequence', 'error'):
            MODELS['nom::%s::%s' % (mod, nm)] = build
    for nm, cs in SETS.items():
        for least in (0, 1):
            MODELS['nom::character::complete::%s%d' % (nm, least)] = take_leaf(nm, cs, least)

    @model('nom::character::complete::line_ending')
    def _line_ending(ip, st, fr, args, info, t):
        i = ip.deref(st, args[0])
        note(ip, i)
        res = []
        for s, b in starts(ip, st, i, S('\n')):
            if b:
                res.append((s, 'Ok', drop(i, 1), S('\n')))
                continue
            for s2, b2 in starts(ip, s, i, S('\r\n')):
                res.append((s2, 'Ok', drop(i, 2), S('\r\n')) if b2 else (s2, 'Error', None, None))
        return finish(res)

    for nm, ch in (('newline', '\n'), ('tab', '\t')):
        @model('nom::character::complete::' + nm)
        def _one(ip, st, fr, args, info, t, ch=ch):
            i = ip.deref(st, args[0])
            note(ip, i)
            return finish([(s, 'Ok', drop(i, 1), CH(ch)) if b else (s, 'Error', None, None) for s, b in starts(ip, st, i, CH(ch))])

    @model('nom::character::complete::anychar')
    def _anychar(ip, st, fr, args, info, t):
        i = ip.deref(st, args[0])
        note(ip, i)
        return finish(char_by(ip, st, i, CS_ALL))

    @model('nom::combinator::rest')
    def _rest(ip, st, fr, args, info, t):
        i = ip.deref(st, args[0])
        return finish([(st, 'Ok', S(''), i)])

    @model('nom::combinator::eof')
    def _eof(ip, st, fr, args, info, t):
        i = ip.deref(st, args[0])
        note(ip, i)
        return finish([(s, 'Ok', i, i) if e else (s, 'Error', None, None) for s, e in ip.branch(st, empty_test(ip, i))])

    @model('nom::error::make_error', 'nom::error::ParseError::from_error_kind', 'nom::error::ParseError::from_char')
    def _mkerr(ip, st, fr, args, info, t):
        note(ip, ip.snap(st, args[0]))
        return R(st, app('nomerr'))

    @model('nom::error::ParseError::append', 'nom::error::ContextError::add_context', 'nom::error::append_error')
    def _app(ip, st, fr, args, info, t):
        note(ip, ip.snap(st, args[0]))
        return R(st, app('nomerr'))

    @model('nom::internal::Err::map', 'nom::internal::Err::convert')
    def _emap(ip, st, fr, args, info, t):
        return NotImplemented

    @model('nom::internal::Finish::finish')
    def _finish(ip, st, fr, args, info, t):
        v = ip.deref(st, args[0])
        out = []
        for s, n in ip.fork_var(st, v, RESULT):
            if n == 'Ok':
                out.append(('ret', s, ok(ip.fld(v, 'Ok', 0, '0'))))
                continue
            e = ip.fld(v, 'Err', 0, '0')
            for s2, k in ip.fork_var(s, e, NERR):
                if k == 'Incomplete':
                    out.extend(panic(ip, s2, fr, 'incomplete', t))
                else:
                    out.append(('ret', s2, err(ip.fld(e, k, 0, '0'))))
        return out

    @model('nom::internal::Parser::parse')
    def _pparse(ip, st, fr, args, info, t):
        return ip.call_value(st, fr, args[0], [args[1]], t)

    for nm in ('map', 'and', 'or', 'and_then', 'flat_map'):
        def meth(ip, st, fr, args, info, t, nm=nm):
            xs = [ip.snap(st, x) for x in args]
            if nm == 'and':
                return R(st, mk('nom', 'pair', *xs))
            if nm == 'or':
                return R(st, mk('nom', 'alt', mk('tup', *xs)))
            return R(st, mk('nom', nm, *xs))
        MODELS['nom::internal::Parser::' + nm] = meth


register()
