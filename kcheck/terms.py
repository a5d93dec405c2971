"""Abstract values: hash-consed provenance terms, character sets and linear integer forms.

A term says where a value comes from (an argument, a field of it, an element of a collection that is
being traversed, a constant, a constructor over other terms, an uninterpreted call).  Two expressions
of the program that build the same value from the same inputs get the same term, however they are
spelled.
"""


class T:
    __slots__ = ('op', 'a', 'n', '_s')

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op,) + tuple([x.n if isinstance(x, T) else ('', x.__class__, x) for x in a])
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.n, t._s = op, a, len(_tab) + 1, None
        _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
def I(n):
    return mk('c', 'int', n)


def B(b):
    return TRUE if b else FALSE


def S(s):
    return mk('c', 'str', s)


def CH(c):
    return mk('c', 'char', c)


TRUE = mk('c', 'bool', True)
FALSE = mk('c', 'bool', False)
UNIT = mk('tup')
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'
ORD = 'core::cmp::Ordering'
COW = 'alloc::borrow::Cow'
NONE = mk('adt', OPTION, 'None')


def some(x):
    return mk('adt', OPTION, 'Some', x)


def ok(x):
    return mk('adt', RESULT, 'Ok', x)


def err(x):
    return mk('adt', RESULT, 'Err', x)


def ordering(v):
    return mk('adt', ORD, v)


def sym(n):
    return mk('sym', n)


def top(why):
    return mk('top', why)


def app(f, *a):
    return mk('app', f, *a)


def isconst(t, kind=None):
    return t.op == 'c' and (kind is None or t.a[0] == kind)


def cval(t):
    return t.a[1]


# ---------------------------------------------------------------- character sets
MAXCH = 0x110000


class CS:
    """Set of code points as sorted disjoint half-open ranges."""
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = tuple(r)

    def __eq__(self, o):
        return isinstance(o, CS) and self.r == o.r

    def __hash__(self):
        return hash(self.r)

    def __bool__(self):
        return bool(self.r)

    def __contains__(self, ch):
        x = ord(ch)
        return any(l <= x < h for l, h in self.r)

    def size(self):
        return sum(h - l for l, h in self.r)

    def __or__(self, o):
        xs = sorted(self.r + o.r)
        out = []
        for l, h in xs:
            if out and l <= out[-1][1]:
                out[-1][1] = max(out[-1][1], h)
            else:
                out.append([l, h])
        return CS((l, h) for l, h in out)

    def __invert__(self):
        out = []
        p = 0
        for l, h in self.r:
            if p < l:
                out.append((p, l))
            p = h
        if p < MAXCH:
            out.append((p, MAXCH))
        return CS(out)

    def __and__(self, o):
        return ~(~self | ~o)

    def __sub__(self, o):
        return self & ~o

    def __le__(self, o):
        return not (self - o)

    def chars(self, limit=64):
        out = []
        for l, h in self.r:
            for x in range(l, h):
                out.append(chr(x))
                if len(out) >= limit:
                    return out
        return out

    def __repr__(self):
        if self.size() <= 40:
            return 'cs(%s)' % ''.join(self.chars()).__repr__()
        return 'cs[%s]' % ','.join('%s-%s' % (_sc(l), _sc(h - 1)) for l, h in self.r)


def _sc(x):
    return repr(chr(x))[1:-1] if 32 <= x < 127 else '%x' % x


def cs_of(s):
    r = CS(())
    for c in s:
        r = r | CS(((ord(c), ord(c) + 1),))
    return r


def cs_range(a, b):
    return CS(((ord(a), ord(b) + 1),))


CS_ALL = CS(((0, MAXCH),))
CS_DIGIT = cs_range('0', '9')
CS_UPPER = cs_range('A', 'Z')
CS_LOWER = cs_range('a', 'z')
CS_ALPHA = CS_UPPER | CS_LOWER
CS_ALNUM = CS_ALPHA | CS_DIGIT


def inset(c, cs):
    if isconst(c, 'char'):
        return B(cval(c) in cs)
    if isconst(c, 'int'):
        return B(0 <= cval(c) < MAXCH and chr(cval(c)) in cs)
    if not cs:
        return FALSE
    if cs == CS_ALL:
        return TRUE
    return mk('inset', c, cs)


# ---------------------------------------------------------------- linear integer forms
def lin(t):
    """-> (const, {atom: coeff})"""
    if isconst(t, 'int'):
        return cval(t), {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def unlin(k, d):
    d = {a: c for a, c in d.items() if c}
    if not d:
        return I(k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return mk('lin', k, tuple(sorted(d.items(), key=lambda x: x[0].n)))


def ladd(a, b, sb=1):
    ka, da = lin(a)
    kb, db = lin(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + sb * c
    return unlin(ka + sb * kb, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    ka, da = lin(a)
    return unlin(ka * k, {x: c * k for x, c in da.items()})


def le0(l):
    """atom: l <= 0"""
    if isconst(l, 'int'):
        return B(cval(l) <= 0)
    return mk('le0', l)


def lt(a, b):
    return le0(ladd(lsub(a, b), I(1)))


def le(a, b):
    return le0(lsub(a, b))


def eq0(l):
    if isconst(l, 'int'):
        return B(cval(l) == 0)
    k, d = lin(l)
    # canonical sign: smallest-numbered atom positive
    a0 = min(d, key=lambda x: x.n)
    if d[a0] < 0:
        l = lscale(l, -1)
    return mk('eq0', l)


def neg(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == 'not':
        return t.a[0]
    if t.op == 'le0':
        return le0(ladd(I(1), t.a[0], -1))
    return mk('not', t)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if b.n < a.n:
        a, b = b, a
    return mk('and', a, b)


def bor(a, b):
    return neg(band(neg(a), neg(b)))


# ---------------------------------------------------------------- sequences and text
def one(x):
    return mk('one', x)


def allof(x):
    return mk('all', x)


def segs(t):
    """segments of a sequence-like term"""
    if t.op in ('list', 'bmap'):
        return t.a
    if t.op == 'arr':
        return tuple(one(x) for x in t.a)
    return (allof(t),)


def mklist(ss, op='list'):
    out = []
    for s in ss:
        if s.op == 'all' and s.a[0].op in ('list', 'arr'):
            out.extend(segs(s.a[0]))
        elif s.op == 'all' and s.a[0].op == op:
            out.extend(segs(s.a[0]))
        else:
            out.append(s)
    if len(out) == 1 and out[0].op == 'all':
        return out[0].a[0]
    return mk(op, *out)


def pieces(t):
    if isconst(t, 'str'):
        return (t,) if cval(t) else ()
    if isconst(t, 'char'):
        return (S(cval(t)),)
    if t.op == 'str':
        return t.a
    return (t,)


def mkstr(ps):
    out = []
    for p in ps:
        for q in pieces(p):
            if isconst(q, 'str') and out and isconst(out[-1], 'str'):
                out[-1] = S(cval(out[-1]) + cval(q))
            else:
                out.append(q)
    if not out:
        return S('')
    if len(out) == 1 and out[0].op not in ('each', 'disp', 'dbg', 'chr', 'join'):
        return out[0]
    return mk('str', *out)


# ---------------------------------------------------------------- generic walks
def subst(t, m, memo=None):
    """replace subterms according to m (T -> T), rebuilding canonical forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        r = m[t]
    elif not any(isinstance(x, T) or isinstance(x, tuple) for x in t.a):
        r = t
    else:
        na = tuple(_sub_arg(x, m, memo) for x in t.a)
        r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
    memo[t] = r
    return r


def _sub_arg(x, m, memo):
    if isinstance(x, T):
        return _subst(x, m, memo)
    if isinstance(x, tuple):
        y = tuple(_sub_arg(z, m, memo) for z in x)
        return x if all(a is b for a, b in zip(x, y)) else y
    return x


REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    return f(a) if f else mk(op, *a)


def _rb_lin(a):
    k, d = a[0], {}
    r = I(k)
    for x, c in a[1]:
        r = ladd(r, x, c)
    return r


REBUILD['lin'] = _rb_lin
REBUILD['le0'] = lambda a: le0(a[0])
REBUILD['eq0'] = lambda a: eq0(a[0])
REBUILD['not'] = lambda a: neg(a[0])
REBUILD['and'] = lambda a: band(*a)
REBUILD['list'] = lambda a: mklist(a)
REBUILD['bmap'] = lambda a: mklist(a, 'bmap')
REBUILD['str'] = lambda a: mkstr(a)
REBUILD['inset'] = lambda a: inset(*a)


def walk(t, seen=None):
    """all subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


_ment = {}


def mentions(t, pred_op):
    """does t contain a subterm with this op (memoised)"""
    k = (t, pred_op)
    r = _ment.get(k)
    if r is None:
        r = t.op == pred_op or any(_arg_m(x, pred_op) for x in t.a)
        _ment[k] = r
    return r


def _arg_m(x, p):
    if isinstance(x, T):
        return mentions(x, p)
    if isinstance(x, tuple):
        return any(_arg_m(y, p) for y in x)
    return False


def contains(t, sub):
    return any(x is sub for x in walk(t))


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(%s)' % ', '.join(show(x, d) for x in t)
        return repr(t) if not isinstance(t, str) else t
    if t._s is None:
        t._s = _show(t)
    return t._s


def _show(t):
    o, a = t.op, t.a
    if o == 'c':
        return repr(a[1]) if a[0] in ('str', 'char', 'bytes') else str(a[1])
    if o == 'sym':
        return a[0]
    if o == 'adt':
        n = a[0].split('::')[-1]
        nm = a[1] if a[1] == n else n + '::' + a[1]
        return nm + ('(%s)' % ', '.join(map(show, a[2:])) if len(a) > 2 else '')
    if o == 'tup':
        return '(%s)' % ', '.join(map(show, a))
    if o in ('list', 'arr', 'bmap', 'str'):
        return '%s[%s]' % ('' if o == 'list' else o, ' ++ '.join(map(show, a)))
    if o == 'one':
        return show(a[0])
    if o == 'all':
        return '*' + show(a[0])
    if o == 'fld':
        return '%s.%s%s' % (show(a[0]), (a[1] + '.') if a[1] else '', a[2])
    if o == 'app':
        return '%s(%s)' % (a[0].split('::')[-1] if a[0].count('::') else a[0], ', '.join(map(show, a[1:])))
    if o == 'lin':
        return '(%s)' % ' + '.join(([str(a[0])] if a[0] else []) + ['%s%s' % ('' if c == 1 else '%d*' % c, show(x)) for x, c in a[1]])
    if o == 'not':
        return '!' + show(a[0])
    if o == 'is':
        return '%s is %s' % (show(a[0]), a[1])
    if o == 'fn':
        return 'fn:' + a[0].split('|')[1].split('::')[-1]
    if o == 'clo':
        return 'clo:%s{%s}' % (a[0], ', '.join(map(show, a[2:])))
    return '%s(%s)' % (o, ', '.join(map(show, a)))
