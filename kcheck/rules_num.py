"""Rules for numbers: comparison by exact value, conversions, text."""
from core import *
from interp import RANGE
import numdom
from numdom import Ev, Unsupported, Q

KINDS = {'Uint': 'u128', 'Int': 'i128', 'Float': 'f64'}
ORDN = {-1: 'Less', 0: 'Equal', 1: 'Greater'}


def payload(ip, x, v):
    return ip.fld(x, v, 0, '0')


def pair_cases(x, kx, y, ky, terms):
    """situations of two numbers; case.order is the exact order of x relative to y"""
    fx, fy = kx in ('f64', 'f32'), ky in ('f64', 'f32')
    if fx and fy:
        for c in numdom.cases_ff(x, y, terms):
            yield c, c.order
    elif fx:
        for c in numdom.cases_fi(x, y, RANGE[ky], terms):
            yield c, c.order
    elif fy:
        for c in numdom.cases_fi(y, x, RANGE[kx], terms):
            yield c, -c.order
    else:
        for c in numdom.cases_ii(x, RANGE[kx], y, RANGE[ky], terms):
            yield c, c.order


def wide(x):
    """text route used to widen an f32: parse of its shortest decimal"""
    return app('parse_f64', mk('str', mk('disp', 'f32', x)))


def widened(ip, x, sel):
    """an f32 stands for the f64 it is converted to; the text of an f32 always reads back as a float"""
    w = wide(x)
    v, isok = ip.fld(w, 'Ok', 0, '0'), ip.is_(w, 'Ok', RESULT)
    used = any(contains(a, w) for _, _, _, p in sel for a, _ in p)
    if not used:
        return mk('cast', x, 'f32', 'f64'), sel
    out = []
    for k, st, val, path in sel:
        s2 = ip.assume(st.fork(), isok, True)
        if s2 is not None:
            out.append((k, s2, val, [(a, p) for a, p in path if not (a.op == 'is' and a.a[0] is w)]))
    return v, out


def split_path(st, arg):
    """atoms on the path other than the variant tests of the arguments"""
    return [(a, p) for a, p in st.path if not (a.op == 'is' and a.a[0] in arg)]


def judge(r, fn, outs, x, kx, y, ky, want, what):
    """in every situation each outcome that may occur must answer want(order)"""
    bad = 0
    paths = []
    for k, st, v, path in outs:
        paths.append((k, st, v, path))
    terms = [a for _, _, _, p in paths for a, _ in p] + [v for k, _, v, _ in paths if k != 'panic']
    n = 0
    try:
        for c, order in pair_cases(x, kx, y, ky, terms):
            n += 1
            ev = Ev(c)
            hit = 0
            for k, st, v, path in paths:
                if not ev.feasible(path):
                    continue
                hit += 1
                if k == 'panic':
                    r.fail(fn, '%s can panic (%s)' % (what, v[0]), 'situation %s' % c.text)
                    bad += 1
                elif not want(ev, v, order):
                    r.fail(fn, '%s answers %s where the exact order is %s' % (what, clip(show(v), 120), ORDN[order]), 'situation %s' % c.text)
                    bad += 1
                else:
                    r.ok()
            if not hit:
                r.fail(fn, '%s has no answer' % what, c.text)
            if bad > 3:
                break
    except Unsupported as e:
        raise NoAnswer('%s: number operation outside the order domain: %s' % (norm_path(fn['path']), e))
    r.situations = getattr(r, 'situations', 0) + n


def want_ord(ev, v, order):
    if v.op == 'adt' and v.a[0] == OPTION and v.a[1] == 'Some':
        v = v.a[2]
    if v.op == 'app' and v.a[0] == 'fpcmp':
        return False
    return ev.ords(v) == {ORDN[order]}


def want_eq(ev, v, order):
    return ev.truth(v) == {order == 0}


def want_rel(op):
    f = {'lt': lambda o: o < 0, 'le': lambda o: o <= 0, 'gt': lambda o: o > 0, 'ge': lambda o: o >= 0, 'ne': lambda o: o != 0}[op]
    return lambda ev, v, order: ev.truth(v) == {f(order)}


def order(r):
    N = r.p.ty('Number')
    a, b = sym('arg0'), sym('arg1')
    tab = [(r.impl('Ord', 'Number', 'cmp'), want_ord), ]
    for f in r.p.j['fns']:
        tr = (f.get('impltrait') or '').split('::')[-1]
        if f['kind'] != 'AssocFn' or tr not in ('PartialEq', 'PartialOrd', 'Ord'):
            continue
        s = f['implself']
        o = f['implargs'][1] if len(f['implargs']) > 1 else s
        if s.get('p') != N and o.get('p') != N:
            continue
        if f['name'] in ('max', 'min', 'clamp'):
            raise NoAnswer('%s overridden' % f['path'])
        want = {'cmp': want_ord, 'partial_cmp': want_ord, 'eq': want_eq}.get(f['name']) or want_rel(f['name'])

        def kind(t):
            while t['k'] == 'ref':
                t = t['t']
            return None if t.get('p') == N else t['n']
        ks, ko = kind(s), kind(o)
        ip, outs = r.outcomes(f)
        r.paths += len(outs)
        for vx, kx in (KINDS.items() if ks is None else ((None, ks),)):
            for vy, ky in (KINDS.items() if ko is None else ((None, ko),)):
                sel = []
                for k, st, v in outs:
                    s2 = st.fork()
                    if vx is not None:
                        s2 = ip.assume(s2, ip.is_(a, vx, N), True)
                    if s2 is not None and vy is not None:
                        s2 = ip.assume(s2, ip.is_(b, vy, N), True)
                    if s2 is None:
                        continue
                    sel.append((k, s2, v, split_path(st, (a, b))))
                x = a if vx is None else payload(ip, a, vx)
                y = b if vy is None else payload(ip, b, vy)
                if kx == 'f32':
                    x, sel = widened(ip, x, sel)
                if ky == 'f32':
                    y, sel = widened(ip, y, sel)
                judge(r, f, sel, x, kx, y, ky, want, '%s of %s and %s' % (f['name'], vx or kx, vy or ky))
    n = len([f for f in r.fns])
    # equal numbers hash alike
    hash_rule(r, N)


def hash_rule(r, N):
    fn = r.impl('Hash', 'Number', 'hash')
    ip, outs = r.outcomes(fn)
    a = sym('arg0')
    try:
        for v, kd in KINDS.items():
            x = payload(ip, a, v)
            for k, st, val in outs:
                s2 = ip.assume(st.fork(), ip.is_(a, v, N), True)
                if s2 is None:
                    continue
                r.paths += 1
                if k == 'panic':
                    r.fail(fn, 'can panic', show_path(st))
                    continue
                h = ip.cell_of(s2, '*arg1')
                sh = shape(h, x, kd)
                path = split_path(st, (a,))
                terms = [p for p, _ in path]
                cs = numdom.cases_float(x, terms) if kd == 'f64' else int_cases(x, kd, terms)
                for c in cs:
                    ev = Ev(c)
                    if not ev.feasible(path):
                        continue
                    z = is_zero(c, x)
                    key = 'nan' if c.val[x] == 'nan' else 'zero' if z else 'other'
                    got = r.__dict__.setdefault('hashes', {}).setdefault(key, {})
                    got.setdefault(sh, (v, c.text))
        for key, d in r.hashes.items():
            if len(d) == 1 and (key == 'other' or '<x>' not in list(d)[0]):
                r.ok()
            elif len(d) == 1:
                r.fail(fn, 'numbers that compare equal (%s) feed the hasher their own bits' % key, str(d))
            else:
                r.fail(fn, 'numbers that compare equal (%s) are hashed differently: %s' % (key, ' | '.join('%s for %s (%s)' % (s, k, t) for s, (k, t) in d.items())))
    except Unsupported as e:
        raise NoAnswer('%s: %s' % (norm_path(fn['path']), e))


def is_zero(c, x):
    v = c.val[x]
    return isinstance(v, tuple) and c.iv(v[1], v[2]).signs() == {0}


def int_cases(x, kd, terms):
    _, ks = numdom.thresholds(terms)
    B = numdom.BIG
    for iv in numdom.ispots(ks | {0, B, -B}, *RANGE[kd]):
        c = numdom.Case('integer in [%s,%s]' % (numdom.num_text(iv.lo), numdom.num_text(iv.hi)))
        c.bounds['x'] = iv
        c.val[x] = ('lin', Q(0), {'x': 1})
        yield c


def shape(h, x, kd):
    """what is fed to the hasher, with the number written as the nearest float to its value"""
    h = subst(h, {mk('cast', x, kd, 'f64'): sym('<x>')}) if kd != 'f64' else subst(h, {x: sym('<x>')})
    h = show(h)
    return h


# ---------------------------------------------------------------------------------------- C07
def conversions(r):
    N = r.p.ty('Number')
    a = sym('arg0')
    for name, to in (('as_u128', 'u128'), ('as_i128', 'i128')):
        fn = r.method('Number', name)
        ip, outs = r.outcomes(fn)
        lo, hi = RANGE[to]
        for v, kd in KINDS.items():
            x = payload(ip, a, v)
            sel = []
            for k, st, val in outs:
                s2 = ip.assume(st.fork(), ip.is_(a, v, N), True)
                if s2 is not None:
                    sel.append((k, s2, val, split_path(st, (a,))))
            terms = [p for _, _, _, pp in sel for p, _ in pp]
            cs = numdom.cases_float(x, terms, near=(True, False), extra=(lo, hi + 1)) if kd == 'f64' else int_cases_r(x, kd, terms, (lo, hi))
            try:
                for c in cs:
                    ev = Ev(c)
                    for k, st, val, path in sel:
                        if not ev.feasible(path):
                            continue
                        r.paths += 1
                        if k == 'panic':
                            r.fail(fn, '%s of %s can panic' % (name, v), c.text)
                            continue
                        conv_ok(r, ip, fn, ev, c, st, x, v, val, (lo, hi), '%s of %s' % (name, v))
            except Unsupported as e:
                raise NoAnswer('%s: number operation outside the order domain: %s' % (norm_path(fn['path']), e))
    fn = r.method('Number', 'as_f64')

    def spec(ip, st):
        for s, v in ip.fork_var(st, a, N):
            x = payload(ip, a, v)
            yield s, x if v == 'Float' else mk('cast', x, KINDS[v], 'f64')
    r.check(fn, spec)
    # widening from the primitive number types
    n = 0
    for f in r.impls('From', 'from'):
        if f['implself'].get('p') != N:
            continue
        t = f['implargs'][1]
        if t['k'] not in ('int', 'uint', 'float'):
            continue
        n += 1
        k = t['n']
        if t['k'] == 'float':
            w = wide(a)
            if k == 'f32':
                # the f64 with the same decimal text; that text always reads back
                r.check(f, lambda ip, st: [(st, mk('adt', N, 'Float', ip.fld(w, 'Ok', 0, '0')))],
                        panics=lambda ip, st, v: ip.decide(st, ip.is_(w, 'Err', RESULT)) is True)
                continue
            want = mk('adt', N, 'Float', a)
        else:
            want = mk('adt', N, 'Uint' if t['k'] == 'uint' else 'Int', a)
        r.check(f, lambda ip, st: [(st, want)])
    if n < 14:
        raise NoAnswer('only %d conversions from primitive numbers found' % n)
    # the name a number node carries is that of the primitive it was built from
    for f in r.impls('NumberType', 'identity'):
        t = f['implself']
        if t['k'] in ('int', 'uint', 'float'):
            r.check(f, lambda ip, st: [(st, S(t['n']))])


def int_cases_r(x, kd, terms, rng):
    _, ks = numdom.thresholds(terms)
    B = numdom.BIG
    for iv in numdom.ispots(ks | {0, B, -B, rng[0], rng[1], rng[0] - 1, rng[1] + 1}, *RANGE[kd]):
        c = numdom.Case('integer in [%s,%s]' % (numdom.num_text(iv.lo), numdom.num_text(iv.hi)))
        c.bounds['x'] = iv
        c.val[x] = ('lin', Q(0), {'x': 1})
        c.fv, c.whole = iv, True
        yield c


def conv_ok(r, ip, fn, ev, c, st, x, v, val, rng, what):
    """the converted integer is exactly the number; it exists when the number is a whole number in range"""
    lo, hi = rng
    xv = c.val[x]
    if isinstance(xv, str):
        inr = False
    else:
        iv = c.iv(xv[1], xv[2])
        inr = True if iv.lo >= lo and iv.hi <= hi else False if iv.lo > hi or iv.hi < lo else None
        if inr is None and c.whole and v == 'Float':
            inr = None
    err_ = ip.decide(st, ip.is_(val, 'Err', RESULT))
    if err_ is None:
        raise NoAnswer('%s: undecided result %s' % (norm_path(fn['path']), clip(show(val))))
    if err_:
        if inr and c.whole:
            r.fail(fn, '%s fails on a whole number in range' % what, c.text)
        else:
            r.ok()
        return
    got = ev.num(ip.fld(val, 'Ok', 0, '0'))
    if c.whole:
        if inr is False or inr is None:
            r.fail(fn, '%s succeeds outside the range' % what, c.text)
            return
        if got is None or got[0] != 'lin' or ev.signs(got, xv) != {0}:
            r.fail(fn, '%s is not the number itself' % what, '%s: %s' % (c.text, clip(show(val))))
            return
    else:
        if isinstance(xv, str):
            r.fail(fn, '%s succeeds on %s' % (what, xv), c.text)
            return
        if not c.near:
            r.fail(fn, '%s succeeds on a fractional number beyond the tolerance' % what, c.text)
            return
        want = ev.rnd('round', xv, x)
        if got != want:
            r.fail(fn, '%s is not the nearest whole number' % what, '%s: %s' % (c.text, clip(show(val))))
            return
    r.ok()


# ---------------------------------------------------------------------------------------- C08
DIGITS_ = CS_DIGIT | cs_of('_')


def parse_of(t):
    """(kind, text) of a term that reads a number from text"""
    if t.op != 'app':
        return None
    n = t.a[0].split('::')[-1] if '::' in t.a[0] else t.a[0]
    full = t.a[0]
    if full.startswith('fast_float::parse') and full.endswith('<f64>') or n == 'parse_f64':
        return 'float', t.a[1]
    # read at a narrower type, a whole number would not always fit
    for kind, ty in (('uint', 'u128'), ('int', 'i128')):
        if full.startswith('lexical_core::parse') and full.endswith('<%s>' % ty) or n == 'parse_' + ty:
            return kind, t.a[1]
    return None


def number_text(r):
    N = r.p.ty('Number')
    a = sym('arg0')

    def disp(ip, st):
        for s, v in ip.fork_var(st, a, N):
            yield s, {'ret': ok(UNIT), '*arg1': mkstr([mk('disp', KINDS[v], payload(ip, a, v))])}
    r.check(r.impl('Display', 'Number', 'fmt'), disp)
    fn = r.impl('FromStr', 'Number', 'from_str')
    ip, outs = r.outcomes(fn)
    for k, st, v in outs:
        r.paths += 1
        if k == 'panic':
            r.fail(fn, 'reading a number can panic (%s)' % v[0], show_path(st))
            continue
        reads = {}
        for g, pol in st.path:
            if g.op == 'is' and g.a[2] == RESULT:
                p = parse_of(g.a[0])
                if p:
                    reads[p] = (g.a[1] == 'Ok') == pol
        e = ip.decide(st, ip.is_(v, 'Err', RESULT))
        empty = ip.decide(st, eq0(mk('len', a))) is True
        plain, other = is_plain(ip, st, a), not_plain(ip, st, a)
        whole = {True: ('int',), False: ('uint',)}.get(minus(ip, st, a), ('uint', 'int'))
        if e:
            # only when every reading that applies failed
            need = ('float',) + (() if other else whole)
            r.expect_true(empty or all(any(q[0] == n and not okk for q, okk in reads.items()) for n in need), fn,
                          'rejects text although a reading of it was not tried or succeeded', show_path(st))
            continue
        if e is None:
            raise NoAnswer('undecided result of number reading')
        x = ip.fld(v, 'Ok', 0, '0')
        if x.op != 'adt':
            raise NoAnswer('result of number reading %s' % clip(show(x)))
        src = x.a[2]
        p = parse_of(src.a[0]) if src.op == 'fld' and src.a[1] == 'Ok' else None
        if p is None:
            r.fail(fn, 'number %s is not read from the text' % clip(show(x)), show_path(st))
            continue
        kind, text = p
        if x.a[1] == 'Float':
            good = kind == 'float' and text is a and (other or all(any(q[0] == n and not okk for q, okk in reads.items()) for n in whole))
            r.expect_true(good, fn, 'a float is produced where the text is a whole number in range, or from other text', '%s when %s' % (clip(show(x)), show_path(st)))
        else:
            neg_ = minus(ip, st, a)
            good = kind == x.a[1].lower() and is_stripped(text, a) and plain and neg_ is not None and neg_ == (x.a[1] == 'Int')
            r.expect_true(good, fn, 'a whole number is produced from text that is not one, or with the wrong sign kind', '%s when %s' % (clip(show(x)), show_path(st)))


def is_stripped(t, a):
    """text without its digit separators"""
    if t.op == 'app' and t.a[0] == 'str.replace':
        return t.a[1] is a and t.a[2] in (S('_'), CH('_')) and t.a[3] is S('')
    if t.op == 'str' and len(t.a) == 1 and t.a[0].op == 'each':
        src, cases = t.a[0].a
        el = mk('elem', src)
        if src is not mk('chars', a):
            return False
        kept = CS(())
        for g, ps in cases:
            cs = CS_ALL
            for x, pol in g:
                if x.op != 'inset' or x.a[0] is not el:
                    return False
                cs = cs & (x.a[1] if pol else ~x.a[1])
            if ps == (mk('chr', el),):
                kept = kept | cs
            elif ps:
                return False
        return kept == ~cs_of('_')
    return False


def minus(ip, st, a):
    """does the text start with a minus sign"""
    m = ip.decide(st, eq0(lsub(mk('nth', a, 0), I(45))))
    return m if m is not None else ip.decide(st, inset(mk('nth', mk('chars', a), 0), cs_of('-')))


def members(at, e):
    """characters (bytes) e for which the atom holds, or None"""
    if at.op == 'inset' and at.a[0] is e:
        return at.a[1]
    if at.op in ('eq0', 'le0'):
        k, d = lin(at.a[0])
        if set(d) == {e} and abs(d[e]) == 1:
            if at.op == 'eq0':
                n = -k * d[e]
                return CS(((n, n + 1),)) if n >= 0 else CS(())
            # k + e <= 0, or k - e <= 0
            return CS(((0, -k + 1),)) & CS_ALL if d[e] == 1 and k <= 0 else CS(()) if d[e] == 1 else CS(((k, 0x110000),)) if k > 0 else CS_ALL
    return None


def is_plain(ip, st, a):
    """on this path: every character after an optional minus sign is a digit or separator"""
    ruled = {}
    for rest, cs, held in char_facts(ip, st, a):
        # no element passes all these guards
        if held is False:
            ruled[rest] = ruled.get(rest, CS(())) | cs
    return any((~DIGITS_) & CS(((0, 256),)) <= c for c in ruled.values())


def not_plain(ip, st, a):
    """on this path: there is a character that is neither digit nor separator nor the leading minus sign"""
    lead = CS(()) if minus(ip, st, a) is False else cs_of('-')
    for rest, cs, held in char_facts(ip, st, a):
        if held is True and cs is not None and not cs & (DIGITS_ if rest else DIGITS_ | lead):
            return True
    return False


def char_facts(ip, st, a):
    """(only after the minus sign, characters, is there one) for what the path knows of the text's characters"""
    neg_ = minus(ip, st, a)
    whole = (a, mk('chars', a))
    for g, pol in st.facts.b.items():
        if g.op not in ('any', 'anych'):
            continue
        src = g.a[0]
        if src.op == 'chars' and src.a[0].op in ('drop', 'slice'):
            src = src.a[0]
        rest = neg_ is True and (src.op in ('skip', 'drop') and src.a[0] in whole and src.a[1] in (1, I(1)) or
                                 src.op == 'slice' and src.a[0] is a and src.a[1] is I(1) and src.a[2] is ip.length(a))
        if src not in whole and not rest:
            continue
        cs = g.a[1] if g.op == 'anych' else CS_ALL
        for at, p in g.a[1] if g.op == 'any' else ():
            c = members(at, mk('elem', g.a[0]))
            if c is None:
                if not pol:
                    cs = CS(())
                    break
                # a further condition: fewer characters
                continue
            cs = cs & (c if p else ~c)
        yield rest, cs, pol
