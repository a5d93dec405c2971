"""Shared services for the rules: anchors, obligations, comparison of outcomes with a specification."""
import re
import interp
from interp import Interp, Unknown, St
from terms import *

class NoAnswer(Exception):
    """an anchor is missing or the program left the analysed fragment: the rule cannot decide"""


def norm_path(p):
    """function path without lifetimes and generic lists"""
    p = re.sub(r"'\w+(, )?", '', p)
    prev = None
    while prev != p:
        prev = p
        p = re.sub(r'::<[^<>]*>', '', p)
        p = re.sub(r'<>', '', p)
    return p.replace('<impl ', '<impl ')


class Rule:
    def __init__(self, prog, prop):
        self.p = prog
        self.prop = prop
        self.fns = set()        # functions analysed
        self.paths = 0          # guarded outcomes compared
        self.obligs = 0
        self.bad = []           # (key, site, text)
        self.notes = []
        self.samples = []
        self.unmodelled = {}
        self.trusted = set()
        self.noans = []         # functions that left the analysed fragment
        self.extra = {}

    # ---------------------------------------------------------------- anchors
    def pick(self, what, c, must=True):
        if len(c) == 1:
            return c[0]
        if not c and not must:
            return None
        raise NoAnswer('anchor %s: %d candidates' % (what, len(c)))

    def method(self, ty, name, must=True, argc=None):
        """inherent method of a type of this crate, wherever its impl block lives"""
        t = self.p.ty(ty)
        return self.pick('%s::%s' % (ty, name), [
            f for f in self.p.j['fns'] if f.get('name') == name and f['kind'] == 'AssocFn' and not f.get('impltrait')
            and f.get('implself') and f['implself'].get('p') == t], must)

    def methods(self, ty, pub=True):
        t = self.p.ty(ty)
        return [f for f in self.p.j['fns'] if f['kind'] == 'AssocFn' and not f.get('impltrait') and (f['pub'] or not pub)
                and f.get('implself') and f['implself'].get('p') == t]

    def impl(self, trait, selfty, name, arg=None, must=True, ref=None):
        """method `name` of the impl of `trait` for a type given by its crate-local name or rendering"""
        from prog import ty_str
        try:
            selfty = self.p.ty(selfty)
        except NoAnswer:
            pass
        r = []
        for f in self.p.j['fns']:
            if f.get('name') != name or f['kind'] != 'AssocFn' or (f.get('impltrait') or '').split('::')[-1] != trait:
                continue
            s = f['implself']
            if not (s.get('p') == selfty or ty_str(s) == selfty):
                continue
            if arg is not None and not any(ty_str(a) == arg or a.get('p') == arg for a in f['implargs'][1:]):
                continue
            r.append(f)
        return self.pick('<%s as %s>::%s' % (selfty, trait, name), r, must)

    def impls(self, trait, name):
        return [f for f in self.p.j['fns'] if f.get('name') == name and f['kind'] == 'AssocFn' and (f.get('impltrait') or '').split('::')[-1] == trait]

    def free(self, path, must=True):
        """free function by module path suffix"""
        return self.pick(path, [f for f in self.p.j['fns'] if f['kind'] == 'Fn' and (f['path'] == path or f['path'].endswith('::' + path))], must)

    # ---------------------------------------------------------------- obligations
    def ok(self, n=1):
        self.obligs += n

    def fail(self, fn, what, detail=''):
        self.obligs += 1
        path = fn if isinstance(fn, str) else fn['path']
        span = '' if isinstance(fn, str) else fn['span']
        self.bad.append((norm_path(path), what, detail, span))

    def expect_true(self, cond, fn, what, detail=''):
        if cond:
            self.obligs += 1
            return True
        self.fail(fn, what, detail)
        return False

    def interp(self, opaque=None, budget=60000, maxtraces=6000, axiom=None, faults=None):
        ip = Interp(self.p, opaque, budget)
        ip.faults = faults
        ip.maxtraces = maxtraces
        ip.axiom = axiom
        return ip

    def outcomes(self, fn, args=None, opaque=None, env=None, then=None, **kw):
        ip = self.interp(opaque, **kw)
        self.fns.add(fn['path'])
        try:
            outs = ip.analyze(fn, args, env)
            if then is not None:
                outs = then(ip, fn, outs)
        except Unknown as e:
            raise NoAnswer('%s: %s' % (norm_path(fn['path']), e))
        for k, v in ip.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        for c in ip.entered:
            self.fns.add(c)
        return ip, outs

    def check(self, fn, spec, args=None, opaque=None, panics=None, what='', env=None, then=None, **kw):
        """every outcome of fn must be what spec says; spec(ip, st) -> iterable of (state, expected)

        expected is a term (returned value) or a dict with 'ret' and cell expectations {'*arg0': term}."""
        try:
            ip, outs = self.outcomes(fn, args, opaque, env, then=then, **kw)
        except NoAnswer as e:
            self.noans.append(str(e))
            return []
        n = 0
        for kind, st, v in outs:
            if kind == 'panic':
                if panics is not None and panics(ip, st, v):
                    continue
                self.paths += 1
                self.fail(fn, '%scan panic (%s)' % (what, v[0]), 'in %s when %s' % (norm_path(v[1][0]), show_path(st)))
                continue
            for s2, exp in spec(ip, st):
                if s2 is None:
                    continue
                n += 1
                self.paths += 1
                e = exp if isinstance(exp, dict) else {'ret': exp}
                for key, want in e.items():
                    got = v if key == 'ret' else ip.cell_of(s2, key)
                    if callable(want):
                        r = want(ip, s2, got)
                    else:
                        r = same(ip, s2, got, want)
                    if r is True:
                        self.ok()
                    else:
                        self.fail(fn, '%s%s is %s, expected %s' % (what, 'result' if key == 'ret' else key, clip(show(ip.snap(s2, got)) if isinstance(got, T) else got),
                                                                     clip(show(want) if isinstance(want, T) else getattr(want, '__doc__', None) or 'other')),
                                  'when %s' % show_path(s2))
                if len(self.samples) < 6 and n == 1:
                    self.samples.append('%s: [%s] => %s' % (norm_path(fn['path']), clip(show_path(s2), 160), clip(show(v), 160)))
        if n == 0 and not any(k == 'panic' for k, _, _ in outs):
            self.fail(fn, '%sno outcome' % what)
        return outs


def clip(s, n=300):
    s = str(s)
    return s if len(s) <= n else s[:n] + '...'


def show_path(st):
    return ' & '.join(('' if b else '!') + show(a) for a, b in st.path) or 'always'


def ty_head(t):
    while t['k'] == 'ref':
        t = t['t']
    if t['k'] == 'adt':
        return t['p']
    if t['k'] in ('int', 'uint', 'float'):
        return t['n']
    if t['k'] == 'param':
        return t['n']
    return t['k']


# -------------------------------------------------------------------- equality of terms under facts
def same(ip, st, a, b, depth=0):
    """do both terms denote the same value on this path"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T) or depth > 60:
        return False
    if a.op == 'mref' and b.op == 'mref':
        return a.a[0] == b.a[0] and pkey(a.a[1]) == pkey(b.a[1])
    if a.op == 'mref':
        a = ip.snap(st, a)
    if b.op == 'mref':
        b = ip.snap(st, b)
    if a is b:
        return True
    if a.op in ('past', 'span') or b.op in ('past', 'span'):
        a, b = ip.nom.settle(ip, st, a), ip.nom.settle(ip, st, b)
        if a is b:
            return True
    if a.op == 'items' and b.op == 'items':
        return same_items(ip, st, a, b, depth)
    # booleans
    for x, y in ((a, b), (b, a)):
        if x is TRUE or x is FALSE:
            d = ip.decide(st, y)
            return d is not None and d == (x is TRUE)
    # constructor against a value known to be of that variant
    for x, y in ((a, b), (b, a)):
        if x.op == 'adt' and y.op != 'adt':
            d = ip.p.adts.get(x.a[0])
            if d is None:
                return False
            if x.a[0] == COW:
                return same(ip, st, x.a[2], y, depth + 1)
            if d['enum']:
                if ip.decide(st, ip.is_(y, x.a[1], x.a[0])) is not True:
                    return False
            for i, v in enumerate(d['v']):
                if v['n'] == x.a[1]:
                    return all(same(ip, st, x.a[2 + j], ip.fld(y, x.a[1], j, f['n']), depth + 1) for j, f in enumerate(v['f']))
            return False
        if x.op == 'tup' and y.op not in ('tup', 'c') and len(x.a):
            return all(same(ip, st, x.a[j], ip.fld(y, '', j, ''), depth + 1) for j in range(len(x.a)))
    # the payload of a clone-on-write pointer, in either state, is its content
    for x, y in ((a, b), (b, a)):
        if x.op == 'fld' and x.a[1] in ('Owned', 'Borrowed') and y.op != 'adt':
            return same(ip, st, x.a[0], y, depth + 1)
    if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] == COW:
        return same(ip, st, a.a[2], b.a[2], depth + 1)
    if a.op == b.op and a.op in ('lin', 'c'):
        d = lsub(a, b) if a.op == 'lin' or isconst(a, 'int') else None
        return d is not None and ip.decide(st, eq0(d)) is True
    for x, y in ((a, b), (b, a)):
        if isconst(x, 'int') or x.op == 'lin':
            return ip.decide(st, eq0(lsub(x, y))) is True
    for x, y in ((a, b), (b, a)):
        if x.op == 'updentry' and same(ip, st, x.a[0], y, depth + 1):
            return same(ip, st, x.a[2], mk('entryval', x.a[0], x.a[1]), depth + 1)
    if a.op == 'str' or b.op == 'str':
        return same_text(ip, st, pieces(a), pieces(b), depth)
    if a.op in ('list', 'bmap', 'arr') or b.op in ('list', 'bmap', 'arr'):
        return same_seq(ip, st, segs(a), segs(b), depth)
    if a.op == b.op and len(a.a) == len(b.a):
        return all(same_arg(ip, st, x, y, depth + 1) for x, y in zip(a.a, b.a))
    # collections: every element in order
    return False


def same_items(ip, st, a, b, depth):
    """two descriptions of one repeated item: in every situation both fail, or both read the same"""
    for x, y in zip(a.a, b.a):
        for gx, px in cases_total(ip, x):
            s1 = under(ip, st, gx)
            if s1 is None:
                continue
            for gy, py in cases_total(ip, y):
                s2 = under(ip, s1, gy)
                if s2 is not None and not (len(px) == len(py) and all(same(ip, s2, p, q, depth + 1) for p, q in zip(px, py))):
                    return False
    return True


def seg_cases(s):
    """(source, [(guard, pieces)]) of a segment that walks a collection"""
    if s.op == 'all':
        return s.a[0], (((), (one(mk('elem', s.a[0])),)),)
    if s.op == 'each':
        return s.a[0], s.a[1]
    return None


def under(ip, st, guard):
    for g, pol in guard:
        if st is None:
            return None
        st = ip.assume(st, g, pol)
    return st


def same_seq(ip, st, xs, ys, depth):
    """segment by segment: same elements in the same order"""
    xs = [x for x in xs if not empty_seg(ip, st, x)]
    ys = [y for y in ys if not empty_seg(ip, st, y)]
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if x.op == 'one' and y.op == 'one':
            if not same(ip, st, x.a[0], y.a[0], depth + 1):
                return False
            continue
        cx, cy = seg_cases(x), seg_cases(y)
        if cx is None or cy is None or not same(ip, st, cx[0], cy[0], depth + 1):
            return False
        cyc = cy[1] if cx[0] is cy[0] else tuple(subst_case(c, cy[0], cx[0]) for c in cy[1])
        for gx, px in cases_total(ip, cx[1]):
            s1 = under(ip, st, gx)
            if s1 is None or excluded(ip, s1, cx[0]):
                continue
            for gy, py in cases_total(ip, cyc):
                s2 = under(ip, s1, gy)
                if s2 is not None and not excluded(ip, s2, cx[0]) and not same_seq(ip, s2, px, py, depth + 1):
                    return False
    return True


def chop(ip, st, ps):
    """text pieces with constants cut into characters and empty walks dropped"""
    out = []
    for p in ps:
        for q in pieces(p):
            if isconst(q, 'str'):
                out.extend(S(c) for c in cval(q))
            elif q.op == 'disp' and isconst(q.a[-1], 'str'):
                out.extend(S(c) for c in cval(q.a[-1]))
            elif q.op == 'disp' and q.a[0] == 'bool' and ip.decide(st, q.a[1]) is not None:
                out.extend(S(c) for c in ('true' if ip.decide(st, q.a[1]) else 'false'))
            elif q.op in ('each', 'join') and (ip.decide(st, eq0(ip.length(q.a[0]))) is True or q.a[0].op == 'range' and ip.decide(st, le(q.a[0].a[1], q.a[0].a[0])) is True):
                continue
            else:
                out.append(q)
    return out


def same_text(ip, st, xs, ys, depth):
    xs, ys = chop(ip, st, xs), chop(ip, st, ys)
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if x is y:
            continue
        if x.op not in ('each', 'join') or x.op != y.op:
            if not same(ip, st, x, y, depth + 1):
                return False
            continue
        if not same(ip, st, x.a[0], y.a[0], depth + 1):
            return False
        if x.op == 'join' and not same(ip, st, x.a[2], y.a[2], depth + 1):
            return False
        cyc = y.a[1] if x.a[0] is y.a[0] else tuple(subst_case(c, y.a[0], x.a[0]) for c in y.a[1])
        for gx, px in cases_total(ip, x.a[1]):
            s1 = under(ip, st, gx)
            if s1 is None or excluded(ip, s1, x.a[0]):
                continue
            for gy, py in cases_total(ip, cyc):
                s2 = under(ip, s1, gy)
                if s2 is not None and not excluded(ip, s2, x.a[0]) and not same_text(ip, s2, px, py, depth + 1):
                    return False
    return True


def excluded(ip, st, src):
    """no element of src can be like this: the path says that none is"""
    for o, v in st.facts.b.items():
        if v is False and o.op == 'any' and o.a[0] is src and all(ip.decide(st, g) is p for g, p in o.a[1]):
            return True
    return False


def subst_case(c, old, new):
    m = {mk('elem', old): mk('elem', new), mk('pos', old): mk('pos', new)}
    return tuple((subst(g, m), pol) for g, pol in c[0]), tuple(subst(p, m) for p in c[1])


def cases_total(ip, cases):
    """the listed cases plus `contributes nothing` when they do not cover everything"""
    if not interp.exhaustive(ip, [g for g, _ in cases]):
        rest = complement([g for g, _ in cases])
        return list(cases) + [(g, ()) for g in rest]
    return list(cases)


def complement(gs):
    """disjoint guards covering what gs leave out"""
    out = [()]
    for g in gs:
        nxt = []
        for o in out:
            pre = ()
            for a, pol in g:
                nxt.append(o + pre + ((a, not pol),))
                pre += ((a, pol),)
        out = nxt
        if len(out) > 200:
            break
    return out


def empty_seg(ip, st, s):
    src = s.a[0] if s.op in ('all', 'each') else None
    if src is None:
        return False
    return ip.decide(st, eq0(ip.length(src))) is True


def same_arg(ip, st, x, y, d):
    if isinstance(x, T) and isinstance(y, T):
        return same(ip, st, x, y, d)
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same_arg(ip, st, p, q, d) for p, q in zip(x, y))
    return x == y


def pkey(path):
    out = []
    for e in path:
        if e[0] == 'f':
            out.append(('f', e[1], e[2]))
        else:
            out.append(e)
    return tuple(out)
