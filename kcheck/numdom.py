"""Order domain for numbers.

The comparison and conversion code touches its numbers only through comparisons, rounding to a
neighbouring integer and casts.  What such code can do depends on finitely many situations: where a
float lies between the constants involved, whether it is a whole number, and how an integer lies
relative to it (well below, equal to its floor, to its ceiling, well above).  `cases` enumerates the
situations; `Ev` evaluates a guard in one of them as a set of possible truth values.
"""
import struct
from fractions import Fraction as Q
from terms import *
from interp import RANGE

INF = float('inf')
BIG = 1 << 53


def fconst(t):
    """value of a float constant: Fraction, 'nan', 'inf', '-inf'"""
    b = int(t.a[1], 16) if isinstance(t.a[1], str) else t.a[1]
    f = struct.unpack('>d', struct.pack('>Q', b))[0]
    if f != f:
        return 'nan'
    if f in (INF, -INF):
        return 'inf' if f > 0 else '-inf'
    return Q(f)


class Iv:
    """interval with open or closed ends"""
    __slots__ = ('lo', 'lop', 'hi', 'hop')

    def __init__(self, lo, hi, lop=False, hop=False):
        self.lo, self.hi, self.lop, self.hop = lo, hi, lop, hop

    def scale(self, k):
        if k == 0:
            return Iv(0, 0)
        if k > 0:
            return Iv(self.lo * k, self.hi * k, self.lop, self.hop)
        return Iv(self.hi * k, self.lo * k, self.hop, self.lop)

    def add(self, o):
        return Iv(self.lo + o.lo, self.hi + o.hi, self.lop or o.lop, self.hop or o.hop)

    def meet(self, o):
        if self.lo > o.lo or (self.lo == o.lo and self.lop):
            lo, lop = self.lo, self.lop
        else:
            lo, lop = o.lo, o.lop
        if self.hi < o.hi or (self.hi == o.hi and self.hop):
            hi, hop = self.hi, self.hop
        else:
            hi, hop = o.hi, o.hop
        return Iv(lo, hi, lop, hop)

    def empty(self):
        return self.lo > self.hi or (self.lo == self.hi and (self.lop or self.hop))

    def signs(self):
        s = set()
        if self.lo < 0:
            s.add(-1)
        if self.hi > 0:
            s.add(1)
        if (self.lo < 0 or (self.lo == 0 and not self.lop)) and (self.hi > 0 or (self.hi == 0 and not self.hop)):
            s.add(0)
        return s

    def __repr__(self):
        return '%s%s,%s%s' % ('(' if self.lop else '[', self.lo, self.hi, ')' if self.hop else ']')


class Case:
    """one situation: bounds of basis quantities plus linear rewritings between them"""

    def __init__(self, text):
        self.text = text
        self.val = {}       # variable term -> abstract value
        self.bounds = {}    # basis name -> Iv
        self.elim = []      # (basis, {basis: coef}) alternative rewritings: basis = sum
        self.flr = {}       # float variable -> ('n' basis value, integral?)
        self.near = None
        self.order = None

    def iv(self, k, d):
        """bounds of k + sum d[b]*b, intersecting every rewriting"""
        best = None
        forms = [d]
        for b, rep in self.elim:
            if b in d:
                e = dict(d)
                c = e.pop(b)
                for x, y in rep.items():
                    e[x] = e.get(x, 0) + c * y
                forms.append({x: y for x, y in e.items() if y})
        for f in forms:
            r = Iv(Q(k), Q(k))
            for x, c in f.items():
                if c:
                    r = r.add(self.bounds[x].scale(c))
            best = r if best is None else best.meet(r)
        return best


class Unsupported(Exception):
    pass


def L(k, **d):
    return ('lin', Q(k), {x: c for x, c in d.items() if c})


def ladd_(a, b, s=1):
    d = dict(a[2])
    for x, c in b[2].items():
        d[x] = d.get(x, 0) + s * c
    return ('lin', a[1] + s * b[1], {x: c for x, c in d.items() if c})


class Ev:
    def __init__(self, case):
        self.c = case

    # ---- values: 'nan', 'inf', '-inf', ('lin', k, {basis: coef}), ('rnd', lin), None = any value
    def num(self, t):
        c = self.c
        if t in c.val:
            return c.val[t]
        if t.op == 'c':
            if t.a[0] == 'int':
                return L(t.a[1])
            if t.a[0] == 'float':
                v = fconst(t)
                return v if isinstance(v, str) else ('lin', v, {})
        if t.op == 'lin':
            r = L(t.a[0])
            for x, k in t.a[1]:
                v = self.num(x)
                if not isinstance(v, tuple) or v[0] != 'lin':
                    return None
                r = ladd_(r, v, k)
            return r
        if t.op == 'cast':
            return self.cast(self.num(t.a[0]), t.a[0], t.a[1], t.a[2])
        if t.op == 'app':
            n = t.a[0]
            if n in ('f64.floor', 'f64.ceil', 'f64.round', 'f64.trunc'):
                return self.rnd(n[4:], self.num(t.a[1]), t.a[1])
            if n in ('Sub', 'fSub', 'Add', 'fAdd'):
                a, b = self.num(t.a[1]), self.num(t.a[2])
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'lin':
                    r = ladd_(a, b, -1 if n.endswith('Sub') else 1)
                    if not r[2] and r[1] == 0:
                        return r
                    # the difference between a float and the whole number next to it is exact
                    i = c.iv(r[1], r[2])
                    if i.lo >= -1 and i.hi <= 1:
                        return r
                    return ('rnd', r)
                return None
            if n == 'f64.abs':
                a = self.num(t.a[1])
                if a in ('inf', '-inf'):
                    return 'inf'
                if isinstance(a, tuple) and a[0] == 'lin':
                    s = c.iv(a[1], a[2]).signs()
                    if s <= {0, 1}:
                        return a
                    if s <= {0, -1}:
                        return ('lin', -a[1], {x: -k for x, k in a[2].items()})
                    return None
                return a if a == 'nan' else None
            if n == 'f64.fract':
                a = self.num(t.a[1])
                b = self.rnd('trunc', a, t.a[1])
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'lin':
                    return ladd_(a, b, -1)
                return None
            if n in ('fNeg', 'Neg', 'f64.neg'):
                a = self.num(t.a[1])
                if isinstance(a, tuple) and a[0] == 'lin':
                    return ('lin', -a[1], {x: -k for x, k in a[2].items()})
                return {'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}.get(a) if isinstance(a, str) else None
        raise Unsupported(show(t))

    def rnd(self, how, v, t):
        c = self.c
        if isinstance(v, str) or v is None:
            return v
        if v[0] == 'rnd':
            return v  # only used for magnitudes where every float is whole
        if not v[2]:
            import math
            k = v[1]
            if how == 'floor':
                return L(math.floor(k))
            if how == 'ceil':
                return L(math.ceil(k))
            if how == 'trunc':
                return L(math.trunc(k))
            fl = math.floor(k + Q(1, 2)) if k >= 0 else math.ceil(k - Q(1, 2))
            return L(fl)
        if t in c.flr:
            n, whole = c.flr[t]
            if whole:
                return v
            up = ('lin', n[1] + 1, dict(n[2]))
            if how == 'floor':
                return n
            if how == 'ceil':
                return up
            if how == 'trunc':
                s = c.iv(v[1], v[2]).signs()
                return n if s == {1} else up if s == {-1} else None
            return ladd_(n, ('lin', Q(0), {'h': 1}))
        if t.op == 'cast' and t.a[1] in RANGE:
            return v
        if t.op == 'app' and t.a[0] in ('f64.floor', 'f64.ceil', 'f64.round', 'f64.trunc'):
            return v
        raise Unsupported(show(t))

    def cast(self, v, t, f, to):
        c = self.c
        if f == to or (f in RANGE and to in RANGE and RANGE[to][0] <= RANGE[f][0] and RANGE[f][1] <= RANGE[to][1]):
            return v
        if f in ('f32', 'f64') and to == 'f64':
            return v
        if f in RANGE and to == 'f64':
            if v is None:
                return None
            i = c.iv(v[1], v[2])
            if -BIG <= i.lo and i.hi <= BIG:
                return v
            if not v[2]:
                return ('lin', Q(float(v[1])), {})
            return ('rnd', v)
        if to in RANGE and f in ('f64', 'f32'):
            lo, hi = RANGE[to]
            if v == 'nan':
                return L(0)
            if v == 'inf':
                return L(hi)
            if v == '-inf':
                return L(lo)
            if v is None or v[0] == 'rnd':
                return None
            if t in c.flr and not c.flr[t][1]:
                v = self.rnd('trunc', v, t)
                if v is None:
                    return None
            i = c.iv(v[1], v[2])
            if i.lo >= lo and i.hi <= hi:
                return v
            if i.lo >= hi:
                return L(hi)
            if i.hi <= lo:
                return L(lo)
            return None
        if f in RANGE and to in RANGE:
            if v is None:
                return None
            lo, hi = RANGE[to]
            i = c.iv(v[1], v[2])
            if i.lo >= lo and i.hi <= hi:
                return v
            m = hi - lo + 1
            for k in (-1, 1):
                if i.lo + k * m >= lo and i.hi + k * m <= hi:
                    return ('lin', v[1] + k * m, v[2])
            return None
        raise Unsupported('cast %s to %s' % (f, to))

    def signs(self, a, b):
        """possible signs of a - b; None when one is not a number; raises nothing"""
        if a == 'nan' or b == 'nan':
            return None
        if a is None or b is None:
            return {-1, 0, 1}
        if isinstance(a, str) or isinstance(b, str):
            o = {'-inf': -1, 'inf': 1}
            x, y = o.get(a, 0) if isinstance(a, str) else 0, o.get(b, 0) if isinstance(b, str) else 0
            return {(x > y) - (x < y)}
        d = ladd_(('lin', a[1][1], a[1][2]) if a[0] == 'rnd' else a, ('lin', b[1][1], b[1][2]) if b[0] == 'rnd' else b, -1)
        s = self.c.iv(d[1], d[2]).signs()
        if a[0] == 'rnd' or b[0] == 'rnd':
            # rounding is monotone: a strict difference may collapse
            if s != {0} and len(s):
                s = s | {0}
            s = s & self.span(a).add(self.span(b).scale(-1)).signs()
        return s

    def span(self, v):
        if v[0] == 'lin':
            return self.c.iv(v[1], v[2])
        i = self.c.iv(v[1][1], v[1][2])

        def fl(x):
            return x if x in (INF, -INF) else Q(float(x))
        return Iv(fl(i.lo), fl(i.hi), i.lo == -INF, i.hi == INF)

    def sub_signs(self, x, y):
        return self.signs(self.num(x), self.num(y))

    # ---- truth: set of possible booleans
    def truth(self, t):
        c = self.c
        if t is TRUE:
            return {True}
        if t is FALSE:
            return {False}
        if t.op == 'not':
            return {not b for b in self.truth(t.a[0])}
        if t.op == 'and':
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            return {x and y for x in a for y in b}
        if t.op == 'eqs':
            # booleans
            a, b = self.truth(t.a[0]), self.truth(t.a[1])
            return {x == y for x in a for y in b}
        if t.op in ('le0', 'eq0'):
            v = self.num(t.a[0])
            if v is None:
                return {True, False}
            s = c.iv(v[1], v[2]).signs()
            return {x <= 0 if t.op == 'le0' else x == 0 for x in s}
        if t.op in ('flt', 'fle', 'feq'):
            near = self.nearness(t)
            if near is not None:
                return near
            s = self.sub_signs(*t.a)
            if s is None:
                return {False}
            f = {'flt': lambda x: x < 0, 'fle': lambda x: x <= 0, 'feq': lambda x: x == 0}[t.op]
            return {f(x) for x in s}
        if t.op == 'is':
            x, v = t.a[0], t.a[1]
            if t.a[2] == OPTION:
                if x.op == 'app' and x.a[0] == 'fpcmp':
                    return {(self.sub_signs(x.a[1], x.a[2]) is None) == (v == 'None')}
            if t.a[2] == ORD:
                return {o == v for o in self.ords(x)}
        if t.op == 'app' and t.a[0] in ('f64.is_nan', 'f64.is_finite', 'f64.is_infinite'):
            v = self.num(t.a[1])
            if v is None:
                return {True, False}
            return {{'f64.is_nan': v == 'nan', 'f64.is_finite': not isinstance(v, str), 'f64.is_infinite': v in ('inf', '-inf')}[t.a[0]]}
        if t.op == 'app' and t.a[0] in ('f64.is_sign_negative', 'f64.is_sign_positive'):
            v = self.num(t.a[1])
            if v == 'nan' or v is None:
                return {True, False}
            s = self.signs(v, L(0))
            pos = t.a[0].endswith('positive')
            return set().union(*[{True, False} if x == 0 else {(x > 0) == pos} for x in s])
        raise Unsupported(show(t))

    def nearness(self, t):
        """comparison of a distance to the nearest whole number with the tolerance"""
        c = self.c
        if t.op != 'flt' or c.near is None:
            return None
        a, b = t.a
        if not (isconst(b, 'float') and a.op == 'app' and a.a[0] == 'f64.abs' and a.a[1].op == 'app' and a.a[1].a[0] in ('Sub', 'fSub')):
            return None
        x, y = a.a[1].a[1:]
        for p, q in ((x, y), (y, x)):
            if p.op == 'app' and p.a[0] == 'f64.round' and p.a[1] is q and q in c.flr and not c.flr[q][1]:
                if fconst(b) == Q(1e-10):
                    return {c.near}
        return None

    def ords(self, t):
        """possible orderings of an Ordering-valued term"""
        O = {-1: 'Less', 0: 'Equal', 1: 'Greater'}
        if t.op == 'adt' and t.a[0] == ORD:
            return {t.a[1]}
        if t.op == 'cmp' or (t.op == 'app' and t.a[0] in ('cmp', 'fpcmp')):
            s = self.sub_signs(*(t.a if t.op == 'cmp' else t.a[1:]))
            return {O[x] for x in s or ()}
        if t.op == 'fld' and t.a[1] == 'Some':
            return self.ords(t.a[0])
        if t.op == 'rev_ord':
            return {{'Less': 'Greater', 'Greater': 'Less'}.get(o, o) for o in self.ords(t.a[0])}
        raise Unsupported(show(t))

    def feasible(self, path):
        """may every (atom, polarity) hold together in this situation"""
        return all(pol in self.truth(a) for a, pol in path)


def thresholds(terms):
    fs, is_ = set(), set()
    for t in terms:
        for x in walk(t):
            if isconst(x, 'float'):
                v = fconst(x)
                if not isinstance(v, str):
                    fs.add(v)
            elif isconst(x, 'int'):
                is_.add(x.a[1])
            elif x.op == 'lin':
                is_.add(x.a[0])
                is_.add(-x.a[0])
    return fs, is_


def spots(points):
    """points and the gaps between them"""
    ps = sorted(set(points))
    out = [Iv(-INF, ps[0], True, True)]
    for i, p in enumerate(ps):
        out.append(Iv(p, p))
        out.append(Iv(p, ps[i + 1] if i + 1 < len(ps) else INF, True, True))
    return out


def ispots(points, lo, hi):
    """integer ranges cut at the points, inside [lo, hi]"""
    ps = sorted(p for p in set(points) if lo <= p <= hi)
    out, cur = [], lo
    for p in ps:
        if cur <= p - 1:
            out.append(Iv(cur, p - 1))
        out.append(Iv(p, p))
        cur = p + 1
    if cur <= hi:
        out.append(Iv(cur, hi))
    return out


def whole_range(iv):
    import math
    lo = -INF if iv.lo == -INF else math.floor(iv.lo) + (1 if iv.lop or iv.lo != math.floor(iv.lo) else 0)
    hi = INF if iv.hi == INF else math.ceil(iv.hi) - (1 if iv.hop or iv.hi != math.ceil(iv.hi) else 0)
    return lo, hi


def float_cases(pts):
    """(text, value or Iv, whole?)"""
    yield 'nan', 'nan', None
    yield '-inf', '-inf', None
    yield 'inf', 'inf', None
    for iv in spots(pts):
        if iv.lo == iv.hi:
            yield 'f=%s' % num_text(iv.lo), iv, iv.lo.denominator == 1
            continue
        for whole in (True, False):
            lo, hi = whole_range(iv)
            if whole and lo > hi:
                continue
            if not whole and (iv.lo >= 1 << 52 or iv.hi <= -(1 << 52)):
                continue
            yield '%s float in (%s,%s)' % ('whole' if whole else 'fractional', num_text(iv.lo), num_text(iv.hi)), iv, whole


def num_text(x):
    if x in (INF, -INF):
        return str(x)
    x = Q(x)
    n = x.numerator
    if x.denominator == 1 and abs(n) > 1 << 40:
        s = '-' if n < 0 else ''
        for k in (0, -1, 1):
            m = abs(n) - k
            if m & (m - 1) == 0:
                return '%s2^%d%s' % (s, m.bit_length() - 1, '%+d' % k if k else '')
    return str(float(x)) if x.denominator != 1 else str(n)


def set_float(c, t, v, whole, n='n'):
    """install a float variable; n is the basis of its floor"""
    import math
    if isinstance(v, str):
        c.val[t] = v
        return
    if v.lo == v.hi:
        k = v.lo
        c.val[t] = ('lin', k, {})
        fl = L(math.floor(k))
        c.flr[t] = (fl, k.denominator == 1)
        c.bounds[n] = Iv(math.floor(k), math.floor(k))
        c.bounds['r'] = Iv(k - math.floor(k), k - math.floor(k))
        c.bounds['h'] = Iv(0, 1)
        return
    if whole:
        lo, hi = whole_range(v)
        c.bounds[n] = Iv(lo, hi, lo == -INF, hi == INF)
        c.val[t] = ('lin', Q(0), {n: 1})
        c.flr[t] = (('lin', Q(0), {n: 1}), True)
        c.bounds['h'] = Iv(0, 0)
        c.bounds['r'] = Iv(0, 0)
        return
    lo = -INF if v.lo == -INF else math.floor(v.lo)
    hi = INF if v.hi == INF else math.ceil(v.hi) - 1
    # fractional floats are below 2^52 in magnitude
    lo, hi = max(lo, -(1 << 52)), min(hi, (1 << 52) - 1)
    c.bounds[n] = Iv(lo, hi)
    c.bounds['r'] = Iv(0, 1, True, True)
    c.bounds['h'] = Iv(0, 1)
    c.val[t] = ('lin', Q(0), {n: 1, 'r': 1})
    c.flr[t] = (('lin', Q(0), {n: 1}), False)


def cases_float(f, terms, near=(None,), extra=()):
    """situations of one float variable"""
    fs, _ = thresholds(terms)
    for txt, v, whole in float_cases(fs | {Q(0), Q(BIG), Q(-BIG)} | {Q(x) for x in extra}):
        for nr in (near if whole is False else (None,)):
            c = Case(txt + ('' if nr is None else ', within tolerance' if nr else ', not within tolerance'))
            c.near = nr
            set_float(c, f, v, whole)
            c.fv, c.whole = v, whole
            yield c


def cases_ff(f, g, terms):
    fs, _ = thresholds(terms)
    pts = fs | {Q(0)}
    for tx, v, w in float_cases(pts):
        for ty, u, w2 in float_cases(pts):
            if w is False or w2 is False:
                if not (isinstance(v, Iv) and v.lo == v.hi) and w is False:
                    continue
                if not (isinstance(u, Iv) and u.lo == u.hi) and w2 is False:
                    continue
            base = '%s ; %s' % (tx, ty.replace('f=', 'g='))
            if isinstance(v, str) or isinstance(u, str):
                c = Case(base)
                for t, x, n in ((f, v, 'x'), (g, u, 'y')):
                    if isinstance(x, str):
                        c.val[t] = x
                    else:
                        c.bounds[n] = x
                        c.val[t] = ('lin', x.lo, {}) if x.lo == x.hi else ('lin', Q(0), {n: 1})
                r = {'-inf': -1, 'inf': 1, 'nan': 2}
                a, b = r.get(v, 0) if isinstance(v, str) else 0, r.get(u, 0) if isinstance(u, str) else 0
                c.order = (a > b) - (a < b)
                yield c
                continue
            for rel, d in ((-1, Iv(-INF, 0, True, True)), (0, Iv(0, 0)), (1, Iv(0, INF, True, True))):
                if v.add(u.scale(-1)).meet(d).empty():
                    continue
                c = Case(base + ' ; f %s g' % '<=>'[rel + 1])
                c.order = rel
                c.bounds = {'x': v, 'y': u, 'd': d}
                c.elim = [('x', {'y': 1, 'd': 1}), ('y', {'x': 1, 'd': -1})]
                if v.lo == v.hi:
                    c.val[f] = ('lin', v.lo, {})
                else:
                    c.val[f] = ('lin', Q(0), {'x': 1})
                if u.lo == u.hi:
                    c.val[g] = ('lin', u.lo, {})
                else:
                    c.val[g] = ('lin', Q(0), {'y': 1})
                yield c


def cases_ii(x, rx, y, ry, terms):
    """two integers with their ranges"""
    _, ks = thresholds(terms)
    pts = ks | {0, rx[0], rx[1], ry[0], ry[1], -1, 1} | {k + 1 for k in (rx[1], ry[1])}
    for a in ispots(pts, *rx):
        for b in ispots(pts, *ry):
            for rel, d in ((-1, Iv(-INF, -1, True)), (0, Iv(0, 0)), (1, Iv(1, INF, False, True))):
                if a.add(b.scale(-1)).meet(d).empty():
                    continue
                c = Case('x in [%s,%s] ; y in [%s,%s] ; x %s y' % (num_text(a.lo), num_text(a.hi), num_text(b.lo), num_text(b.hi), '<=>'[rel + 1]))
                c.order = rel
                c.bounds = {'x': a, 'y': b, 'd': d}
                c.elim = [('x', {'y': 1, 'd': 1}), ('y', {'x': 1, 'd': -1})]
                c.val = {x: ('lin', Q(0), {'x': 1}), y: ('lin', Q(0), {'y': 1})}
                yield c


def cases_fi(f, i, ri, terms):
    """a float and an integer with its range; order is that of f relative to i"""
    fs, ks = thresholds(terms)
    pts = fs | {Q(0), Q(BIG), Q(-BIG), Q(ri[0]), Q(ri[1] + 1), Q(1 << 127), Q(-(1 << 127)), Q(1 << 128)}
    ipts = {0, ri[0], ri[1], BIG, -BIG} | {k for k in ks}
    for txt, v, whole in float_cases(pts):
        if isinstance(v, str):
            c = Case(txt)
            c.val[f] = v
            c.bounds['i'] = Iv(*ri)
            c.val[i] = ('lin', Q(0), {'i': 1})
            c.order = {'nan': 1, 'inf': 1, '-inf': -1}[v]
            yield c
            continue
        for b in ispots(ipts, *ri):
            ds = ((-INF, -1), (0, 0), (1, INF)) if whole else ((-INF, -1), (0, 0), (1, 1), (2, INF))
            for lo, hi in ds:
                c = Case('%s ; i in [%s,%s] ; i - floor(f) in [%s,%s]' % (txt, num_text(b.lo), num_text(b.hi), lo, hi))
                set_float(c, f, v, whole)
                d = Iv(lo, hi, lo == -INF, hi == INF)
                if b.add(c.bounds['n'].scale(-1)).meet(d).empty():
                    continue
                c.bounds['i'], c.bounds['d'] = b, d
                c.elim = [('i', {'n': 1, 'd': 1}), ('n', {'i': 1, 'd': -1})]
                c.val[i] = ('lin', Q(0), {'i': 1})
                if v.lo == v.hi:
                    # keep the link between the constant floor and the integer
                    fl = c.flr[f][0][1]
                    c.bounds['i'] = b.meet(Iv(fl + lo if lo != -INF else -INF, fl + hi if hi != INF else INF))
                    if c.bounds['i'].empty():
                        continue
                if whole:
                    c.order = 1 if hi < 0 else 0 if lo == hi == 0 else -1
                else:
                    c.order = 1 if hi <= 0 else -1
                yield c
