"""Interprocedural, path-partitioned provenance analysis over MIR.

Every function body is abstracted into a set of guarded outcomes: the decisions that lead to the
outcome, the provenance term that is returned (or the reason control panics there), and the provenance
of everything written through mutable references.  Callees are summarised in place, loops are closed by
a fixpoint over one generic iteration, and library calls have transfer functions (models.py).  No input
is ever chosen and nothing is executed; decisions that the domain cannot settle are kept on both sides.
"""
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


class Unknown(Exception):
    """the analysis met something outside its domain"""


class Facts:
    __slots__ = ('var', 'b', 'cs', 'le')

    def __init__(self):
        self.var, self.b, self.cs, self.le = {}, {}, {}, ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.var, f.b, f.cs, f.le = dict(self.var), dict(self.b), dict(self.cs), self.le
        return f


class St:
    __slots__ = ('cells', 'facts', 'path')

    def __init__(self):
        self.cells, self.facts, self.path = {}, Facts(), ()

    def fork(self):
        s = St.__new__(St)
        s.cells, s.facts, s.path = dict(self.cells), self.facts.copy(), self.path
        return s


class Frame:
    __slots__ = ('fn', 'id', 'env', 'body', 'loops', 'site')


class Loop:
    __slots__ = ('header', 'blocks')


def succs(t):
    k = t['t']
    if k == 'goto' or k == 'drop' or k == 'assert':
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['v']] + [t['else']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


def find_loops(body):
    n = len(body['blocks'])
    succ = [[] if b['cleanup'] else succs(b['t']) for b in body['blocks']]
    # dominators (iterative)
    order, seen = [], set()

    def dfs(r):
        st = [(r, iter(succ[r]))]
        seen.add(r)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            pred[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a, c = p, new
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succ[b]:
            if dom(s, b):
                L = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L:
                        L.add(x)
                        st.extend(pred[x])
    out = {}
    for h, bl in loops.items():
        l = Loop()
        l.header, l.blocks = h, frozenset(bl)
        out[h] = l
    return out


def strip_drop_flags(body):
    """conditional drops do not influence values: skip the branches that only decide them"""
    blocks = body['blocks']

    def skip(b, depth=0):
        blk = blocks[b]
        if depth > 20:
            return b
        for s in blk['s']:
            if s['s'] in ('dead', 'live'):
                continue
            if s['s'] == 'assign' and not s['p']['p'] and s['r']['r'] == 'use' and s['r']['x']['o'] == 'const' and 'bool' in s['r']['x']['c'] \
                    and body['locals'][s['p']['l']]['n'] is None and s['p']['l'] in flags:
                continue
            return b
        if blk['t']['t'] in ('goto', 'drop'):
            return skip(blk['t']['to'], depth + 1)
        return b
    # a drop flag is an unnamed bool local that is only ever assigned constants and only read by switches
    cand = {i for i, l in enumerate(body['locals']) if l['ty']['k'] == 'bool' and l['n'] is None and i > body['argc']}
    used = set()

    def use_place(p):
        used.add(p['l'])
        for e in p['p']:
            if e['e'] == 'index':
                used.add(e['l'])

    def use_op(o):
        if o['o'] in ('copy', 'move'):
            use_place(o['p'])
    for blk in blocks:
        for s in blk['s']:
            if s['s'] != 'assign':
                continue
            r = s['r']
            if s['p']['p']:
                use_place(s['p'])
            elif not (r['r'] == 'use' and r['x']['o'] == 'const'):
                used.add(s['p']['l'])
            for k in ('x', 'y'):
                v = r.get(k)
                if isinstance(v, dict) and 'o' in v:
                    use_op(v)
                elif isinstance(v, list):
                    for z in v:
                        use_op(z)
            if 'p' in r and isinstance(r['p'], dict):
                use_place(r['p'])
        t = blk['t']
        if t['t'] == 'call':
            use_op(t['f'])
            for a in t['args']:
                use_op(a)
            use_place(t['d'])
        elif t['t'] == 'assert':
            use_op(t['c'])
        elif t['t'] == 'drop':
            pass
    flags = cand - used
    body['flags'] = flags
    for blk in blocks:
        t = blk['t']
        if t['t'] == 'switch' and t['d']['o'] in ('copy', 'move') and not t['d']['p']['p'] and t['d']['p']['l'] in flags:
            tg = [x[1] for x in t['v']] + [t['else']]
            fin = {skip(b) for b in tg}
            if len(fin) == 1:
                blk['t'] = {'t': 'goto', 'to': tg[0]}
            # a conditional drop of an enum's remaining fields dispatches on the discriminant first
            else:
                def deep(b, seen):
                    """blocks reached from b through drop-only control flow"""
                    b = skip(b)
                    if b in seen:
                        return set()
                    seen.add(b)
                    blk2 = blocks[b]
                    if blk2['t']['t'] == 'switch' and all(
                            s['s'] in ('dead', 'live') or (s['s'] == 'assign' and s['r']['r'] == 'discr') for s in blk2['s']):
                        r = set()
                        for x in succs(blk2['t']):
                            r |= deep(x, seen)
                        return r
                    return {b}
                f2 = [deep(b, set()) for b in tg]
                if all(len(x) == 1 for x in f2) and len(set.union(*f2)) == 1:
                    blk['t'] = {'t': 'goto', 'to': next(iter(f2[0]))}


def split_bool_casts(body):
    """a bool turned into an integer is a branch that assigns 1 or 0"""
    blocks = body['blocks']
    for blk in list(blocks):
        while True:
            i = next((i for i, s in enumerate(blk['s']) if s['s'] == 'assign' and s['r']['r'] == 'cast' and s['r']['from']['k'] == 'bool'
                      and s['r']['t']['k'] in ('int', 'uint')), None)
            if i is None:
                break
            s = blk['s'][i]
            rest = dict(blk, s=blk['s'][i + 1:])
            n = len(blocks)
            blocks.append(rest)
            for v in ('0', '1'):
                blocks.append(dict(blk, s=[dict(s, r={'r': 'use', 'x': {'o': 'const', 'c': {'ty': s['r']['t'], 'int': v}}})], t={'t': 'goto', 'to': n}))
            blk['s'] = blk['s'][:i]
            blk['t'] = {'t': 'switch', 'd': s['r']['x'], 'ty': s['r']['from'], 'v': [['0', n + 1]], 'else': n + 2}
            blk = rest


def base(name):
    """path without generic arguments and without `<impl ...>` segments"""
    out, d, i = [], 0, 0
    # keep a leading `<T as Trait>` form by reducing it to Trait
    m = re.match(r'^<.* as (.*)>::([^:<>]+)$', name)
    if m:
        return base(m.group(1)) + '::' + m.group(2)
    while i < len(name):
        c = name[i]
        if c == '<':
            d += 1
        elif c == '>' and name[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


FNTAB = {}


def unwritten(x):
    while x.op == 'updidx':
        x = x.a[0]
    return x


class Interp:
    def __init__(self, prog, opaque=None, budget=60000):
        self.faults = None      # cell telling whether a write was refused, when refusals are considered
        self.p = prog
        self.opaque = opaque or {}
        self.ctr = 0
        self.stack = []
        self.lvinit = {}
        self.nonneg = set()
        self.loops = []
        self.worklists = {}
        self.steps = 0
        self.budget = budget
        self.maxtraces = 6000
        self.unmodelled = {}
        self.entered = set()     # functions summarised in place
        self.argcells = {}
        self.axiom = None        # facts established elsewhere: atom -> True / False / None
        self.cenv = {}
        import models
        import nomdl
        self.models = models.MODELS
        self.nom = nomdl
        self.places = set()
        self.mod = models
        self.frames = []

    # ------------------------------------------------------------ misc
    def fresh(self):
        self.ctr += 1
        return self.ctr

    def newcell(self, st, v):
        c = ('h', self.fresh())
        st.cells[c] = v
        return c

    def variants(self, adt):
        a = self.p.adts.get(adt)
        if a is None:
            raise Unknown('adt %s' % adt)
        return [v['n'] for v in a['v']]

    # ------------------------------------------------------------ decisions
    def decide(self, st, t):
        f = st.facts
        if t.op == 'c':
            return t.a[1]
        if t.op == 'not':
            r = self.decide(st, t.a[0])
            return None if r is None else not r
        if t.op == 'and':
            a, b = self.decide(st, t.a[0]), self.decide(st, t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t in f.b:
            return f.b[t]
        if self.axiom is not None:
            r = self.axiom(t) if not getattr(self.axiom, 'stateful', False) else self.axiom(t, st, self)
            if r is not None:
                return r
        if t.op == 'is':
            x, v = t.a[0], t.a[1]
            if x.op == 'adt':
                return x.a[1] == v
            vs = f.var.get(x)
            if vs is not None:
                if v not in vs:
                    return False
                if len(vs) == 1:
                    return True
            return None
        if t.op == 'inset':
            cur = f.cs.get(t.a[0])
            if t.a[0].op in ('elem', 'nth'):
                src = t.a[0].a[0]
                if src.op == 'chrange':
                    cur = src.a[0] if cur is None else cur & src.a[0]
                if src.op == 'chars' and src.a[0].op in ('span', 'past') and isinstance(src.a[0].a[1], CS):
                    # every character of a run passes its test; the first one after it does not
                    if src.a[0].op == 'span':
                        cur = src.a[0].a[1] if cur is None else cur & src.a[0].a[1]
                    elif t.a[0].op == 'nth' and t.a[0].a[1] == 0:
                        cur = (CS_ALL if cur is None else cur) - src.a[0].a[1]
                no = self.absent(f, t.a[0].a[0])
                if no:
                    cur = (cur or CS_ALL) - no
            if cur is not None:
                if cur <= t.a[1]:
                    return True
                if not (cur & t.a[1]):
                    return False
            return None
        if t.op == 'anych':
            src, cs = t.a
            no = self.absent(f, src)
            if src.op == 'chars' and src.a[0].op == 'span' and isinstance(src.a[0].a[1], CS):
                no = no | ~src.a[0].a[1]
            if cs <= no:
                return False
            if src.op == 'chars' and self.decide(st, eq0(mk('len', src.a[0]))) is True:
                return False
            for o, v in f.b.items():
                if v is True and o.op == 'anych' and o.a[0] is src and (o.a[1] - no) <= cs:
                    return True
            for x, cur in f.cs.items():
                if x.op in ('elem', 'nth') and x.a[0] is src and cur <= cs:
                    return True
            return None
        if t.op == 'le0':
            if self.entails(f, t.a[0]):
                return True
            if self.entails(f, ladd(I(1), t.a[0], -1)):
                return False
            return None
        if t.op == 'eq0':
            l = t.a[0]
            if self.entails(f, l) and self.entails(f, lscale(l, -1)):
                return True
            if self.entails(f, ladd(l, I(1))) or self.entails(f, ladd(I(1), l, -1)):
                return False
            if l.op == 'len' and any(v is True and o.op == 'anych' and o.a[0].op == 'chars' and o.a[0].a[0] is l.a[0] for o, v in f.b.items()):
                return False
            q = self.run_to_end(l)
            if q is not None:
                r = self.decide(st, q)
                return None if r is None else not r
            return None
        if t.op == 'eqs':
            x, k = t.a
            for (o, v) in f.b.items():
                if v is True and o.op == 'eqs' and o.a[0] is x and isconst(o.a[1]) and isconst(k):
                    return o.a[1] is k
            return None
        return None

    def run_to_end(self, l):
        """l = length of what follows a run of P: it is zero unless a character outside P occurs"""
        if l.op == 'len' and l.a[0].op == 'past' and isinstance(l.a[0].a[1], CS):
            return mk('anych', mk('chars', l.a[0].a[0]), ~l.a[0].a[1])
        return None

    def absent(self, f, src):
        """characters known not to occur in src"""
        no = CS(())
        for o, v in f.b.items():
            if v is False and o.op == 'anych' and o.a[0] is src:
                no = no | o.a[1]
        return no

    def lin_ok(self, l):
        if isconst(l, 'int'):
            return cval(l) <= 0
        k, d = lin(l)
        if k > 0:
            return False
        return all(c <= 0 and (a in self.nonneg or a.op in ('len', 'pos', 'count')) for a, c in d.items())

    def bounds_of(self, l, f=None):
        """what the positions and range members in l satisfy by construction"""
        r = ()
        for a in lin(l)[1]:
            if a.op == 'pos':
                r += (ladd(lsub(a, mk('len', a.a[0])), I(1)),)
            elif a.op == 'len' and a.a[0].op in ('past', 'drop'):
                # what is left is no longer than the whole
                r += (lsub(a, self.length(a.a[0].a[0])),)
            elif a.op == 'len' and a.a[0].op == 'each' and f is not None:
                # a non-empty walk contributes at least its constant text
                w = a.a[0]
                least = min([sum(len(cval(p).encode()) for p in ps if isconst(p, 'str')) for _, ps in w.a[1]] or [0])
                if least and exhaustive(self, [g for g, _ in w.a[1]]) and f.b.get(eq0(mk('len', w.a[0]))) is False:
                    r += (lsub(I(least), a),)
            elif a.op == 'app' and a.a[0] == 'width' or a.op in ('nth', 'idx') and a.a[0].op == 'app' and a.a[0].a[0] == 'widths':
                r += (lsub(a, I(2 ** 64 - 1)),)
            elif a.op == 'elem':
                s = a.a[0]
                if s.op == 'rev':
                    s = s.a[0]
                if s.op == 'range' and not isconst(s.a[0], 'char') and not isconst(s.a[1], 'char'):
                    r += (ladd(lsub(a, s.a[1]), I(1)), lsub(s.a[0], a))
        return r

    def entails(self, f, l):
        if self.lin_ok(l):
            return True
        les = f.le + self.bounds_of(l, f)
        for g in les:
            r = lsub(l, g)
            if self.lin_ok(r):
                return True
        if len(les) <= 40:
            for i, g in enumerate(les):
                for h in les[i:]:
                    if self.lin_ok(lsub(lsub(l, g), h)):
                        return True
        return False

    def assume(self, st, t, pol):
        """state with the decision recorded, or None when it contradicts known facts"""
        if t.op == 'not':
            return self.assume(st, t.a[0], not pol)
        d = self.decide(st, t)
        if d is not None:
            return st if d == pol else None
        s = st.fork()
        if t.op == 'and':
            if pol:
                s = self.assume(s, t.a[0], True)
                return s and self.assume(s, t.a[1], True)
            s.facts.b[t] = False
            s.path = s.path + ((t, False),)
            if self.decide(st, t.a[0]) is True:
                return self.assume(st, t.a[1], False)
            if self.decide(st, t.a[1]) is True:
                return self.assume(st, t.a[0], False)
            return s
        f = s.facts
        s.path = s.path + ((t, pol),)
        f.b[t] = pol
        if t.op in ('le0', 'eq0'):
            for a in lin(t.a[0])[1]:
                if a.op == 'len' and a.a[0].op == 'chars':
                    # a text has between len/4 and len characters
                    x = mk('len', a.a[0].a[0])
                    g = (lsub(a, x), lsub(x, lscale(a, 4)))
                    if self.entails(f, lsub(I(1), x)):
                        g += (lsub(I(1), a),)
                    f.le += tuple(y for y in g if y not in f.le)
        if t.op == 'is':
            x, v, adt = t.a
            vs = f.var.get(x) or frozenset(self.variants(adt))
            vs = frozenset([v]) & vs if pol else vs - {v}
            if not vs:
                return None
            f.var[x] = vs
            if x.op == 'cmp' and len(vs) <= 2:
                a, b = x.a
                d = lsub(a, b)
                if vs == {'Less'}:
                    f.le += (ladd(d, I(1)),)
                elif vs == {'Equal'}:
                    f.le += (d, lscale(d, -1))
                elif vs == {'Greater'}:
                    f.le += (ladd(lscale(d, -1), I(1)),)
                elif vs == {'Less', 'Equal'}:
                    f.le += (d,)
                elif vs == {'Greater', 'Equal'}:
                    f.le += (lscale(d, -1),)
        elif t.op == 'inset':
            cur = f.cs.get(t.a[0], CS_ALL)
            cur = cur & t.a[1] if pol else cur - t.a[1]
            if not cur:
                return None
            f.cs[t.a[0]] = cur
        elif t.op == 'le0':
            f.le += (t.a[0] if pol else ladd(I(1), t.a[0], -1),)
            if self.contradiction(f):
                return None
        elif t.op == 'eq0':
            if pol:
                f.le += (t.a[0], lscale(t.a[0], -1))
                if self.contradiction(f):
                    return None
            else:
                l = t.a[0]
                # x != 0 with x >= 0 known gives x >= 1
                if self.entails(f, lscale(l, -1)):
                    f.le += (ladd(I(1), l, -1),)
                elif self.entails(f, l):
                    f.le += (ladd(l, I(1)),)
            q = self.run_to_end(t.a[0])
            if q is not None:
                f.b.setdefault(q, not pol)
        return s

    def contradiction(self, f):
        n = f.le[-1]
        if self.entails(f_without_last(f), ladd(I(1), n, -1)):
            return True
        return False

    def branch(self, st, t):
        """-> [(state, bool)]"""
        if t.op == 'not':
            return [(s, not v) for s, v in self.branch(st, t.a[0])]
        if t is TRUE or t is FALSE:
            return [(st, t is TRUE)]
        if t.op == 'and':
            out = []
            for s, v in self.branch(st, t.a[0]):
                if v:
                    out.extend(self.branch(s, t.a[1]))
                else:
                    out.append((s, False))
            return out
        if t.op == 'samevar':
            out = []
            x, y, adt = t.a
            for s, v in self.fork_var(st, x, adt):
                for s2, r in self.branch(s, self.is_(y, v, adt)):
                    out.append((s2, r))
            return out
        if t.op == 'ite':
            out = []
            for s, v in self.branch(st, t.a[0]):
                out.extend(self.branch(s, t.a[1] if v else t.a[2]))
            return out
        n = none_counted(t)
        if n is not None:
            return self.branch(st, n)
        out = []
        for pol in (True, False):
            s = self.assume(st, t, pol)
            if s is not None:
                out.append((s, pol))
        return out

    def is_(self, x, v, adt):
        if x.op == 'adt':
            return B(x.a[1] == v)
        if x.op == 'cmp':
            d = lsub(*x.a)
            if v == 'Equal':
                return eq0(d)
            if v == 'Less':
                return le0(ladd(d, I(1)))
            return le0(ladd(I(1), d, -1))
        if x.op == 'rev_ord':
            return self.is_(x.a[0], {'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v], adt)
        return mk('is', x, v, adt)

    def fork_var(self, st, x, adt):
        """-> [(state, variant)]"""
        if x.op == 'adt':
            return [(st, x.a[1])]
        out = []
        cur = st
        names = self.variants(adt)
        known = st.facts.var.get(x)
        cand = [v for v in names if known is None or v in known]
        for i, v in enumerate(cand):
            s = self.assume(st, self.is_(x, v, adt), True) if x.op in ('cmp', 'rev_ord') else self.set_var(st, x, v, adt)
            if s is not None:
                out.append((s, v))
        return out

    def set_var(self, st, x, v, adt):
        a = mk('is', x, v, adt)
        d = self.decide(st, a)
        if d is True:
            return st
        if d is False:
            return None
        s = st.fork()
        s.facts.var[x] = frozenset([v])
        s.facts.b[a] = True
        s.path = s.path + ((a, True),)
        return s

    # ------------------------------------------------------------ places
    def fld(self, v, variant, i, name):
        if v.op == 'adt':
            if variant and v.a[1] != variant:
                return top('field of other variant')
            if 2 + i < len(v.a):
                return v.a[2 + i]
            return top('no field')
        if v.op in ('tup', 'arr'):
            return v.a[i] if i < len(v.a) else top('no field')
        if v.op == 'clo':
            return v.a[2 + i]
        if v.op == 'updf':
            b, var2, i2, nv = v.a[0], v.a[1], v.a[2], v.a[3]
            if i2 == i and var2 == variant:
                return nv
            return self.fld(b, variant, i, name)
        if v.op == 'top':
            return v
        return mk('fld', v, variant, name if name else str(i))

    def proj_get(self, st, v, e):
        k = e[0]
        if k == 'f':
            _, variant, i, name, adt, ar = e
            return self.fld(v, variant, i, name)
        if k == 'i':
            return self.idx(v, e[1])
        if k == 'entry':
            while v.op == 'updentry':
                if v.a[1] is e[1]:
                    return v.a[2]
                break
            return mk('entryval', v, e[1])
        if k == 'some':
            return self.fld(v, 'Some', 0, '0')
        if k == 'ci':
            return self.cidx(v, e[1], e[2])
        if k == 'sub':
            return mk('subslice', v, e[1], e[2], e[3])
        if k == 'elem':
            return mk('elem', e[1])
        raise Unknown('proj %r' % (e,))

    def cidx(self, v, o, end):
        ss = segs(v)
        if all(s.op == 'one' for s in ss):
            j = len(ss) - o if end else o
            if 0 <= j < len(ss):
                return ss[j].a[0]
        return mk('nth', v, -o if end else o)

    def idx(self, v, i):
        if isconst(i, 'int'):
            ss = segs(v)
            if all(s.op == 'one' for s in ss[:cval(i) + 1]) and cval(i) < len(ss):
                return ss[cval(i)].a[0]
            return mk('nth', v, cval(i))
        if i.op == 'pos' and i.a[0] is v:
            return mk('elem', v)
        if v.op == 'updidx' and v.a[1] is i:
            return v.a[2]
        return mk('idx', v, i)

    def proj_set(self, st, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == 'f':
            _, variant, i, name, adt, ar = e
            old = self.fld(v, variant, i, name)
            nv = self.proj_set(st, old, path[1:], new)
            if v.op == 'adt' and (not variant or v.a[1] == variant):
                a = list(v.a)
                while len(a) <= 2 + i:
                    a.append(top('uninit'))
                a[2 + i] = nv
                return mk('adt', *a)
            if v.op == 'tup' and v.a and v is not UNIT:
                a = list(v.a)
                a[i] = nv
                return mk('tup', *a)
            if v.op == 'clo':
                a = list(v.a)
                a[2 + i] = nv
                return mk('clo', *a)
            if adt:
                d = self.p.adts.get(adt)
                vs = [x for x in d['v'] if x['n'] == variant or not variant] if d else []
                if vs:
                    fs = [self.fld(v, variant if d['enum'] else variant, j, f['n']) for j, f in enumerate(vs[0]['f'])]
                    fs[i] = nv
                    return mk('adt', adt, vs[0]['n'], *fs)
            if ar > 0:
                fs = [self.fld(v, '', j, '') for j in range(ar)]
                fs[i] = nv
                return mk('tup', *fs)
            return mk('updf', v, variant, i, nv)
        if e[0] == 'some':
            return some(self.proj_set(st, self.fld(v, 'Some', 0, '0'), path[1:], new))
        old = self.proj_get(st, v, e)
        nv = self.proj_set(st, old, path[1:], new)
        if e[0] == 'i' and isconst(e[1], 'int'):
            ss = list(segs(v))
            if all(s.op == 'one' for s in ss) and cval(e[1]) < len(ss):
                ss[cval(e[1])] = one(nv)
                return mklist(ss)
        if e[0] == 'ci' and not e[2]:
            ss = list(segs(v))
            if all(s.op == 'one' for s in ss) and e[1] < len(ss):
                ss[e[1]] = one(nv)
                return mklist(ss)
        if e[0] == 'entry':
            if v.op == 'updentry' and v.a[1] is e[1]:
                v = v.a[0]
            return mk('updentry', v, e[1], nv)
        if e[0] == 'i':
            if v.op == 'updidx' and v.a[1] is e[1]:
                v = v.a[0]
            return mk('updidx', v, e[1], nv)
        return mk('upd', v, repr(e), nv)

    def elem_of(self, pe, st, fr, variant):
        """MIR projection element -> path element"""
        k = pe['e']
        if k == 'field':
            adt = pe['adt']
            vn = pe['vn']
            var = variant if variant is not None else (vn if adt else '')
            return ('f', var, pe['i'], pe['n'], adt, pe['ar'])
        if k == 'index':
            return ('i', self.read_local(st, fr, pe['l']))
        if k == 'cindex':
            return ('ci', pe['o'], pe['end'])
        if k == 'subslice':
            return ('sub', pe['from'], pe['to'], pe['end'])
        raise Unknown('projection %s' % k)

    def read_local(self, st, fr, l):
        v = st.cells.get(('l', fr.id, l))
        return v if v is not None else mk('uninit', l)

    def loc(self, st, fr, p):
        """place -> (cell, path) following mutable references"""
        cell, path = ('l', fr.id, p['l']), ()
        variant = None
        for pe in p['p']:
            k = pe['e']
            if k == 'deref':
                v = self.get(st, cell, path)
                if v.op == 'mref':
                    cell, path = v.a
                elif pe.get('box'):
                    pass
                else:
                    if v.op in ('own', ):
                        v = v.a[0]
                    c2 = ('s', v)
                    if c2 not in st.cells:
                        # transparent shared reference or symbolic pointer
                        st.cells[c2] = v
                    cell, path = c2, ()
                variant = None
            elif k == 'downcast':
                variant = pe['n']
            else:
                e = self.elem_of(pe, st, fr, variant)
                v = self.get(st, cell, path)
                if e[0] == 'f' and v.op == 'mref' and e[4] in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::BoxRaw'):
                    pass
                else:
                    path = path + (e,)
                variant = None
        return cell, path

    def get(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            if cell[0] == 's':
                v = cell[1]
            else:
                v = mk('uninit', cell[2] if cell[0] == 'l' else 0)
        for e in path:
            if v.op == 'mref':
                v = self.deref(st, v)
            v = self.proj_get(st, v, e)
        return v

    def deref(self, st, v):
        """value behind a reference-like term"""
        n = 0
        while v.op == 'mref' and n < 10:
            v = self.get(st, v.a[0], v.a[1])
            n += 1
        return v

    def snap(self, st, v):
        """term with every mutable reference replaced by what it currently refers to"""
        if not mentions(v, 'mref'):
            return v
        m = {}
        for x in walk(v):
            if x.op == 'mref':
                m[x] = self.snap(st, self.deref(st, x))
        return subst(v, m)

    def put(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        v = st.cells.get(cell)
        if v is None:
            v = cell[1] if cell[0] == 's' else mk('uninit', 0)
        # writing through a nested reference
        cur = v
        for i, e in enumerate(path):
            if cur.op == 'mref':
                return self.put(st, cur.a[0], cur.a[1] + path[i:], val)
            cur = self.proj_get(st, cur, e)
        st.cells[cell] = self.proj_set(st, v, path, val)

    def read(self, st, fr, p):
        v = self.read_local(st, fr, p['l'])
        variant = None
        for pe in p['p']:
            k = pe['e']
            if k == 'deref':
                if v.op == 'mref':
                    v = self.get(st, v.a[0], v.a[1])
                else:
                    c2 = ('s', v)
                    if c2 in st.cells:
                        v = st.cells[c2]
                variant = None
            elif k == 'downcast':
                variant = pe['n']
            else:
                e = self.elem_of(pe, st, fr, variant)
                if v.op == 'mref':
                    if e[0] == 'f' and e[4] in ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull', 'alloc::boxed::BoxRaw'):
                        continue
                    v = self.deref(st, v)
                v = self.proj_get(st, v, e)
                variant = None
        return v

    def write(self, st, fr, p, val):
        if not p['p']:
            st.cells[('l', fr.id, p['l'])] = val
            return
        cell, path = self.loc(st, fr, p)
        self.put(st, cell, path, val)

    # ------------------------------------------------------------ operands
    def const(self, st, fr, c):
        if 'fn' in c:
            return self.fnterm(c['fn'])
        if 'str' in c:
            return S(c['str'])
        if 'char' in c:
            return CH(c['char'])
        if 'bool' in c:
            return B(c['bool'])
        if 'int' in c:
            return I(int(c['int']))
        if 'float' in c:
            return mk('c', 'float', c['fbits'])
        if 'bytes' in c:
            return mk('c', 'bytes', bytes(c['bytes']))
        ty = c['ty']
        if 'variant' in c:
            return mk('adt', ty['p'], c['variant'])
        if 'promoted' in c:
            return self.promoted(st, fr, c)
        if 'nid' in c and c['nid'] in self.p.fns:
            return self.const_body(self.p.fns[c['nid']])
        if 'zst' in c:
            if ty['k'] == 'tuple':
                return UNIT
            if ty['k'] == 'adt':
                a = self.p.adts.get(ty['p'])
                return mk('adt', ty['p'], a['v'][0]['n'] if a and a['v'] else ty['p'])
            if ty['k'] == 'closure':
                return mk('clo', ty['id'], fr.id if False else '')
        if 'bits' in c:
            if ty['k'] == 'adt':
                a = self.p.adts.get(ty['p'])
                if a and not a['enum'] and len(a['v'][0]['f']) == 1:
                    return mk('adt', ty['p'], a['v'][0]['n'], I(int(c['bits'])))
            return mk('c', 'bits', c['bits'])
        if 'named' in c:
            return mk('named', c['named'])
        if 'tyconst' in c:
            return mk('named', c['tyconst'])
        return mk('named', 'const:' + str(sorted(k for k in c if k != 'ty')))

    def fnterm(self, f):
        res = f['res']
        key = '%s|%s|%s|%s' % (f['id'], f['p'], res['id'] if res else '', repr(f['a']) + repr(f['self']) + (repr(res['a']) if res else ''))
        FNTAB[key] = f
        return mk('fn', key)

    def promoted(self, st, fr, c):
        owner = self.p.fns.get(c['pdef'])
        if owner is None:
            return mk('named', 'promoted')
        key = ('prom', c['pdef'], c['promoted'])
        if key in self.cenv:
            return self.cenv[key]
        v = self.eval_pure(owner, owner['promoted'][c['promoted']])
        self.cenv[key] = v
        return v

    def const_body(self, f):
        key = ('const', f['id'])
        if key in self.cenv:
            return self.cenv[key]
        self.cenv[key] = mk('named', f['path'])
        v = self.eval_pure(f, f['body'])
        self.cenv[key] = v
        return v

    def eval_pure(self, fn, body):
        st = St()
        fr = Frame()
        fr.fn, fr.id, fr.env, fr.body, fr.site = fn, self.fresh(), {}, self.prep(body), None
        fr.loops = body.get('loops')
        outs = [o for o in self.run(st, fr, 0, None) if o[0] == 'ret']
        if len(outs) == 1:
            return self.snap(outs[0][1], self.read_local(outs[0][1], fr, 0))
        return mk('named', 'promoted')

    def operand(self, st, fr, o):
        if o['o'] in ('copy', 'move'):
            return self.read(st, fr, o['p'])
        if o['o'] == 'const':
            return self.const(st, fr, o['c'])
        if o['o'] == 'rtcheck':
            return FALSE
        raise Unknown('operand')

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r['r']
        if k == 'use':
            return self.operand(st, fr, r['x'])
        if k in ('ref', 'rawptr'):
            m = r['m'] if k == 'ref' else True
            if k == 'rawptr':
                m = r['m'] == 'Mut'
            if not m:
                v = self.read(st, fr, r['p'])
                return v
            cell, path = self.loc(st, fr, r['p'])
            v = self.get(st, cell, path)
            if v.op == 'mref' and r['p']['p'] and r['p']['p'][-1]['e'] == 'deref' and False:
                return v
            return mk('mref', cell, path)
        if k == 'bin':
            return self.binop(st, r['op'], self.operand(st, fr, r['x']), self.operand(st, fr, r['y']), r['ty'])
        if k == 'un':
            x = self.operand(st, fr, r['x'])
            if r['op'] == 'Not':
                if r['ty']['k'] == 'bool':
                    return neg(x)
                if isconst(x, 'int') and r['ty']['n'] in BITS:
                    return I(cval(x) ^ ((1 << BITS[r['ty']['n']]) - 1)) if r['ty']['k'] == 'uint' else I(~cval(x))
                return app('bitnot', x)
            if r['op'] == 'Neg':
                if r['ty']['k'] == 'float':
                    return app('fneg', x)
                return lscale(x, -1)
            if r['op'] == 'PtrMetadata':
                return self.length(x)
            return app(r['op'], x)
        if k == 'cast':
            return self.cast(st, self.operand(st, fr, r['x']), r['from'], r['t'], r['kd'])
        if k == 'discr':
            v = self.deref(st, self.read(st, fr, r['p']))
            adt = r['ty'].get('p')
            return mk('discr', v, adt or '')
        if k == 'agg':
            xs = [self.operand(st, fr, x) for x in r['x']]
            kk = r['k']
            if kk == 'tuple':
                return mk('tup', *xs)
            if kk == 'array':
                return mk('arr', *xs)
            if kk == 'adt':
                if r.get('active') is not None:
                    return mk('adt', r['p'], r['vn'], *xs)
                return mk('adt', r['p'], r['vn'], *xs)
            if kk == 'closure':
                ek = self.envkey(fr.env)
                return mk('clo', r['id'], ek, *xs)
            return mk('agg', kk, *xs)
        if k == 'repeat':
            x = self.operand(st, fr, r['x'])
            if r['n'] is not None and 0 <= r['n'] <= 64:
                return mk('arr', *([x] * r['n']))
            return app('repeat', x)
        return top('rvalue %s' % k)

    def envkey(self, env):
        k = repr(sorted((a, repr(b)) for a, b in env.items()))
        self.cenv[('env', k)] = env
        return k

    def length(self, x):
        if isconst(x, 'str'):
            return I(len(cval(x).encode()))
        if isconst(x, 'bytes'):
            return I(len(cval(x)))
        if x.op == 'str':
            r = I(0)
            for p in x.a:
                r = ladd(r, self.length(p) if p.op not in ('each', 'disp', 'dbg', 'chr', 'join') else mk('len', p))
            return r
        if x.op in ('list', 'arr'):
            r = I(0)
            for s in segs(x):
                if s.op == 'each' and s.a[0].op in ('app', 'sym', 'fld') and all(len(p) == 1 and p[0].op == 'one' for _, p in s.a[1]) \
                        and exhaustive(self, [g for g, _ in s.a[1]]):
                    # one item for each element walked
                    r = ladd(r, mk('len', s.a[0]))
                    continue
                r = ladd(r, I(1) if s.op == 'one' else mk('len', s.a[0]) if s.op == 'all' else mk('len', s))
            return r
        if x.op in ('own', 'updidx'):
            return self.length(x.a[0])
        if x.op == 'chrange':
            return I(x.a[0].size())
        if x.op == 'slice':
            return ladd(x.a[2], x.a[1], -1)
        if x.op == 'fold' and all(unwritten(c[1]) is sym('acc') for c in x.a[2]):
            return self.length(x.a[1])
        return mk('len', x)

    def binop(self, st, op, x, y, ty):
        k = ty['k']
        if op.endswith('WithOverflow'):
            v = self.binop(st, op[:3], x, y, ty)
            o = op[:3]
            flag = FALSE
            if o == 'Sub' and k == 'uint':
                self.note_uint(ty, x, y)
                flag = lt(x, y)
            elif isconst(v, 'int') and k in ('int', 'uint'):
                flag = B(not in_range(cval(v), ty['n']))
            return mk('tup', v, flag)
        if k in ('int', 'uint'):
            if k == 'uint':
                self.note_uint(ty, x, y)
            if op in ('Add', 'AddUnchecked'):
                return ladd(x, y)
            if op in ('Sub', 'SubUnchecked'):
                return lsub(x, y)
            if op == 'Mul':
                if isconst(x, 'int'):
                    return lscale(y, cval(x))
                if isconst(y, 'int'):
                    return lscale(x, cval(y))
            if op in ('Eq', 'Ne'):
                for a, b in ((x, y), (y, x)):
                    if a.op == 'discr' and isconst(b, 'int'):
                        v = self.var_of_discr(a.a[1], cval(b))
                        r = self.is_(a.a[0], v, a.a[1]) if v else FALSE
                        return r if op == 'Eq' else neg(r)
                if x.op == 'discr' and y.op == 'discr':
                    if x.a[0].op == 'adt' and y.a[0].op == 'adt':
                        r = B(x.a[0].a[1] == y.a[0].a[1])
                    elif y.a[0].op == 'adt':
                        r = self.is_(x.a[0], y.a[0].a[1], x.a[1])
                    elif x.a[0].op == 'adt':
                        r = self.is_(y.a[0], x.a[0].a[1], x.a[1])
                    else:
                        r = mk('samevar', x.a[0], y.a[0], x.a[1])
                    return r if op == 'Eq' else neg(r)
                for a, b in ((x, y), (y, x)):
                    if a.op == 'ite' and isconst(b, 'int') and isconst(a.a[1], 'int') and isconst(a.a[2], 'int'):
                        u, v = a.a[1] is b, a.a[2] is b
                        r = B(u) if u == v else a.a[0] if u else neg(a.a[0])
                        return r if op == 'Eq' else neg(r)
                r = eq0(lsub(x, y))
                return r if op == 'Eq' else neg(r)
            if op == 'Lt':
                return lt(x, y)
            if op == 'Le':
                return le(x, y)
            if op == 'Gt':
                return lt(y, x)
            if op == 'Ge':
                return le(y, x)
            if op == 'Cmp':
                return mk('cmp', x, y)
            if isconst(x, 'int') and isconst(y, 'int'):
                a, b = cval(x), cval(y)
                f = {'BitAnd': lambda: a & b, 'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b,
                     'Shl': lambda: a << b, 'Shr': lambda: a >> b, 'Div': lambda: a // b if b else 0, 'Rem': lambda: a % b if b else 0}.get(op)
                if f:
                    return I(f())
            if op in ('BitOr', 'BitAnd', 'BitXor'):
                return self.bits(op, x, y)
            return app(op, x, y)
        if k == 'bool':
            if op in ('Eq', 'Ne'):
                r = beq(x, y)
                return r if op == 'Eq' else neg(r)
            if op == 'BitAnd':
                return band(x, y)
            if op == 'BitOr':
                return bor(x, y)
            if op == 'BitXor':
                return neg(beq(x, y))
        if k == 'char':
            if op in ('Eq', 'Ne'):
                r = self.char_eq(x, y)
                return r if op == 'Eq' else neg(r)
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                for a, b, o in ((x, y, op), (y, x, {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}[op])):
                    if isconst(b, 'char'):
                        n = ord(cval(b))
                        return inset(a, {'Lt': CS(((0, n),)), 'Le': CS(((0, n + 1),)), 'Gt': CS(((n + 1, MAXCH),)), 'Ge': CS(((n, MAXCH),))}[o])
        if k == 'float':
            return fcmp(op, x, y)
        if op in ('Eq', 'Ne'):
            r = eqs(x, y)
            return r if op == 'Eq' else neg(r)
        return app(op, x, y)

    def flag_set(self, x, y):
        """one bit of a flag word collected over a walk: set exactly if some member sets it"""
        m = cval(x)
        if y.op != 'fold' or m <= 0 or m & (m - 1) or not isconst(y.a[1], 'int'):
            return None
        if cval(y.a[1]) & m:
            return I(m)
        acc = sym('acc')
        some = FALSE
        for g, v in y.a[2]:
            if v is acc:
                continue
            if v.op != 'BitOr' or acc not in v.a or not all(z is acc or isconst(z, 'int') for z in v.a):
                return None
            if any(isconst(z, 'int') and cval(z) & m for z in v.a):
                some = bor(some, any_atom(y.a[0], g))
        return mk('ite', some, I(m), I(0)) if some is not FALSE else I(0)

    def bits(self, op, x, y):
        if op == 'BitAnd':
            for a, b in ((x, y), (y, x)):
                if isconst(a, 'int'):
                    r = self.flag_set(a, b)
                    if r is not None:
                        return r
        # order-insensitive union / intersection of flag words
        xs = set(x.a) if x.op == op else {x}
        ys = set(y.a) if y.op == op else {y}
        al = xs | ys
        cs = [z for z in al if isconst(z, 'int')]
        rest = sorted((z for z in al if not isconst(z, 'int')), key=lambda z: z.n)
        if cs and op != 'BitXor':
            k = cval(cs[0])
            for c in cs[1:]:
                k = k | cval(c) if op == 'BitOr' else k & cval(c)
            if op == 'BitOr' and k == 0:
                cs = []
            elif op == 'BitAnd' and k == 0:
                return I(0)
            else:
                cs = [I(k)]
        al = cs + rest
        if len(al) == 1:
            return al[0]
        return mk(op, *al)

    def note_uint(self, ty, *xs):
        for x in xs:
            if x.op not in ('c', 'lin'):
                self.nonneg.add(x)

    def char_eq(self, x, y):
        for a, b in ((x, y), (y, x)):
            if isconst(b, 'char'):
                return inset(a, cs_of(cval(b)))
        return eqs(x, y)

    def var_of_discr(self, adt, n):
        a = self.p.adts.get(adt)
        if not a:
            return None
        for i, v in enumerate(a['v']):
            d = v['d']
            d = i if d is None else int(d)
            if d == n or (n < 0 and (d - n) % 256 == 0) or (d & 0xff) == (n & 0xff) and max(d, n) > 127 and len(a['v']) < 100:
                return v['n']
        return None

    def cast(self, st, x, f, t, kd):
        if kd.startswith('PointerCoercion') or kd in ('PtrToPtr', 'BoxDerefTransmute', 'Transmute', 'Subtype') or kd.startswith('FnPtrToPtr'):
            return x
        fk, tk = f['k'], t['k']
        if fk in ('int', 'uint') and tk in ('int', 'uint'):
            if isconst(x, 'int'):
                v = cval(x)
                if in_range(v, t['n']):
                    return x
                b = BITS[t['n']]
                v &= (1 << b) - 1
                if tk == 'int' and v >> (b - 1):
                    v -= 1 << b
                return I(v)
            lo, hi = RANGE[f['n']]
            tl, th = RANGE[t['n']]
            if tl <= lo and hi <= th:
                if fk == 'uint':
                    self.note_uint(f, x)
                return x
            if (lo >= tl or self.decide(st, le(I(tl), x))) and (hi <= th or self.decide(st, le(x, I(th)))):
                # a value known to fit keeps its value
                return x
            return mk('cast', x, f['n'], t['n'])
        if fk == 'float' and tk == 'float':
            if f['n'] == 'f32' and t['n'] == 'f64' or f['n'] == t['n']:
                return mk('cast', x, f['n'], t['n']) if f['n'] != t['n'] else x
            return mk('cast', x, f['n'], t['n'])
        if fk in ('int', 'uint') and tk == 'float':
            if isconst(x, 'int'):
                import struct
                try:
                    return mk('c', 'float', '%x' % struct.unpack('>Q', struct.pack('>d', float(cval(x))))[0])
                except OverflowError:
                    pass
            return mk('cast', x, f['n'], t['n'])
        if fk == 'bool' and tk in ('int', 'uint'):
            if isconst(x):
                return I(1 if cval(x) else 0)
        if fk == 'char' and tk in ('uint', 'int'):
            if isconst(x):
                return I(ord(cval(x)))
            return mk('cast', x, 'char', t['n'])
        if fk == 'uint' and f['n'] == 'u8' and tk == 'char':
            if isconst(x):
                return CH(chr(cval(x)))
            return x if x.op != 'lin' else mk('cast', x, 'u8', 'char')
        return mk('cast', x, f.get('n', fk), t.get('n', tk))

    # ------------------------------------------------------------ running a body
    def prep(self, body):
        if 'loops' not in body:
            split_bool_casts(body)
            strip_drop_flags(body)
            body['loops'] = find_loops(body)
        return body

    def analyze(self, fn, args=None, env=None):
        """outcomes of a function for unconstrained arguments: [(kind, state, value)]"""
        st = St()
        body = fn['body']
        vals = []
        for i in range(body['argc']):
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                vals.append(a(self, st) if callable(a) else a)
                continue
            vals.append(self.argterm(st, body['locals'][i + 1]['ty'], 'arg%d' % i))
        if self.faults is not None:
            st.cells[self.faults] = FALSE
        self.stack, self.frames = [], []
        outs = self.call_fn(st, fn, vals, env or {}, None)
        return outs

    def argterm(self, st, ty, name):
        if ty['k'] == 'ref' and ty['m']:
            t = ty['t']
            c = ('h', self.fresh())
            if t['k'] == 'adt' and t['p'] == 'core::fmt::Formatter':
                st.cells[c] = S('')
            else:
                st.cells[c] = sym('*' + name)
            self.argcells['*' + name] = c
            return mk('mref', c, ())
        return sym(name)

    def cell_of(self, st, name):
        """what a mutable argument refers to at the end"""
        return self.snap(st, st.cells[self.argcells[name]])

    def call_fn(self, st, fn, args, env, site):
        fr = Frame()
        body = self.prep(fn['body'])
        fr.fn, fr.id, fr.env, fr.body, fr.loops, fr.site = fn, self.fresh(), env, body, body['loops'], site
        for i, a in enumerate(args):
            st.cells[('l', fr.id, i + 1)] = a
        self.entered.add(fn['path'])
        self.stack.append(fn['id'])
        self.frames.append(fr)
        try:
            outs = self.run(st, fr, 0, None)
        finally:
            self.stack.pop()
            self.frames.pop()
        res = []
        for k, s, v in outs:
            if k == 'ret':
                val = self.read_local(s, fr, 0)
                s = self.drop_frame(s, fr)
                res.append(('ret', s, val))
            elif k == 'panic':
                res.append((k, s, v))
            else:
                raise Unknown('stray outcome %s' % k)
        if len(res) > self.maxtraces:
            raise Unknown('too many paths in %s' % fn['path'])
        return self.merge(res)

    def merge(self, outs):
        """drop exact duplicates"""
        if len(outs) < 2:
            return outs
        seen, res = set(), []
        for o in outs:
            k = (o[0], o[2] if not isinstance(o[2], T) else o[2].n, o[1].path, tuple(sorted(((c, v.n) for c, v in o[1].cells.items()), key=repr)) if len(outs) < 200 else None)
            if k in seen and len(outs) < 200:
                continue
            seen.add(k)
            res.append(o)
        return res

    def drop_frame(self, st, fr):
        i = fr.id
        for c in [c for c in st.cells if c[0] == 'l' and c[1] == i]:
            del st.cells[c]
        return st

    def site(self, fr, t):
        return (fr.fn['path'], t.get('sp') if t else None)

    def run(self, st, fr, bb, loop):
        outs = []
        work = [(st, bb, True)]
        blocks = fr.body['blocks']
        while work:
            st, bb, first = work.pop()
            if not first:
                if loop is not None:
                    if bb == loop.header:
                        outs.append(('back', st, None))
                        continue
                    if bb not in loop.blocks:
                        outs.append(('exit', st, bb))
                        continue
            if bb in fr.loops and not (first and loop is not None and bb == loop.header):
                for k, s, v in self.do_loop(st, fr, fr.loops[bb]):
                    if k == 'exit':
                        work.append((s, v, False))
                    else:
                        outs.append((k, s, v))
                continue
            self.steps += 1
            if self.steps > self.budget * 20 or len(outs) > self.maxtraces:
                raise Unknown('analysis budget exceeded in %s' % fr.fn['path'])
            blk = blocks[bb]
            for s in blk['s']:
                k = s['s']
                if k == 'assign':
                    v = self.rvalue(st, fr, s['r'])
                    self.write(st, fr, s['p'], v)
                elif k == 'setdiscr':
                    pass
            t = blk['t']
            k = t['t']
            if k == 'goto' or k == 'drop':
                work.append((st, t['to'], False))
            elif k == 'return':
                outs.append(('ret', st, None))
            elif k == 'unreachable':
                pass
            elif k == 'switch':
                for s, b in self.switch(st, fr, t):
                    work.append((s, b, False))
            elif k == 'assert':
                c = self.operand(st, fr, t['c'])
                if t['k'] in ('other',):
                    work.append((st, t['to'], False))
                    continue
                if t['k'] == 'overflow' and isinstance(t['ops'][0], str) and not t['ops'][0].startswith(('Sub', 'Shl', 'Shr')) and not isconst(c):
                    work.append((st, t['to'], False))
                    continue
                for s, v in self.branch(st, c):
                    if v == t['exp']:
                        work.append((s, t['to'], False))
                    else:
                        outs.append(('panic', s, ('assert:' + t['k'], self.site(fr, t), tuple(f.fn['path'] for f in self.frames))))
            elif k == 'call':
                for kind, s, v in self.call_term(st, fr, t):
                    if kind == 'ret':
                        if t['to'] is None:
                            continue
                        self.write(s, fr, t['d'], v)
                        work.append((s, t['to'], False))
                    else:
                        outs.append((kind, s, v))
            elif k in ('resume', 'abort'):
                pass
            else:
                raise Unknown('terminator %s' % k)
        return outs

    def switch(self, st, fr, t):
        d = self.operand(st, fr, t['d'])
        ty = t['ty']
        vals = [(int(v), b) for v, b in t['v']]
        if d.op == 'discr':
            x, adt = d.a
            if not adt:
                raise Unknown('discriminant')
            out = []
            m = {}
            for v, b in vals:
                n = self.var_of_discr(adt, v)
                if n is None:
                    continue
                m[n] = b
            groups = {}
            for s, v in self.fork_var(st, x, adt):
                out.append((s, m.get(v, t['else'])))
            return out
        if ty['k'] == 'bool':
            out = []
            for s, v in self.branch(st, d):
                tgt = t['else']
                for val, b in vals:
                    if val == int(v):
                        tgt = b
                out.append((s, tgt))
            return out
        if isconst(d):
            c = cval(d)
            if isinstance(c, str):
                c = ord(c)
            for v, b in vals:
                if v == int(c) or (int(c) < 0 and ty.get('n') in BITS and v == int(c) + (1 << BITS[ty['n']])):
                    return [(st, b)]
            return [(st, t['else'])]
        out = []
        cur = st
        for v, b in vals:
            if ty['k'] == 'char':
                a = inset(d, cs_of(chr(v)))
            elif ty['k'] in ('int', 'uint'):
                if ty['k'] == 'int' and v >> (BITS[ty['n']] - 1):
                    v -= 1 << BITS[ty['n']]
                if ty['k'] == 'uint':
                    self.note_uint(ty, d)
                a = eq0(lsub(d, I(v)))
            else:
                raise Unknown('switch on %s' % ty['k'])
            nxt = None
            for s, r in self.branch(cur, a):
                if r:
                    out.append((s, b))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None:
            out.append((cur, t['else']))
        return out

    # ------------------------------------------------------------ calls
    def subst_ty(self, ty, env):
        if ty is None or not env:
            return ty
        if ty['k'] == 'param':
            return env.get(ty['n'], ty)
        if ty['k'] in ('ref', 'slice', 'array', 'ptr'):
            d = dict(ty)
            d['t'] = self.subst_ty(ty['t'], env)
            return d
        if ty['k'] in ('adt', 'tuple', 'fndef'):
            d = dict(ty)
            d['a'] = [self.subst_ty(x, env) for x in ty['a']]
            return d
        return ty

    def call_term(self, st, fr, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['args']]
        if f['o'] == 'const' and 'fn' in f['c']:
            return self.call(st, fr, f['c']['fn'], args, t)
        fv = self.operand(st, fr, f)
        return self.call_value(st, fr, fv, args, t)

    def env_for(self, fn, types, env):
        g = [x for x in fn['generics'] if x]
        ts = [self.subst_ty(x, env) for x in types]
        return dict(zip(g, ts))

    def call(self, st, fr, info, args, t):
        """-> [(kind, st, value)]"""
        res = info['res']
        name = base(info['p'])
        env = fr.env if fr else {}
        h = self.opaque.get(info['p']) or self.opaque.get(name)
        if h is None and res is not None:
            h = self.opaque.get(res['p'])
        if h is not None:
            r = h(self, st, fr, args, info, t)
            if r is not NotImplemented:
                return r
        # comparisons on references: go to the compared type
        via = info.get('via')
        if res is None and info['tr']:
            sty = self.subst_ty(info['self'], env)
            r2 = self.resolve(info['tr'], info['name'], sty, [self.subst_ty(x, env) for x in info['a'][1:]])
            if r2 is not None:
                return self.enter(st, fr, r2, args, {}, t)
        if via is not None and info['p'].startswith('core::cmp::') and via['id'] in self.p.fns:
            return self.enter(st, fr, self.p.fns[via['id']], [self.deref(st, a) for a in args], self.env_for(self.p.fns[via['id']], via['a'], env), t)
        if res is not None and res['id'] in self.p.fns and res['kind'] in ('item', 'ClosureOnceShim', 'FnPtrShim', 'ReifyShim'):
            fn = self.p.fns[res['id']]
            if info['p'].startswith('core::ops::function::'):
                return self.call_value(st, fr, args[0], self.untuple(args[1]), t)
            return self.enter(st, fr, fn, args, self.env_for(fn, res['a'], env), t)
        if info['p'].startswith('core::ops::function::'):
            return self.call_value(st, fr, args[0], self.untuple(args[1]), t)
        return self.model(st, fr, info, name, args, t)

    def untuple(self, t):
        if t.op == 'tup':
            return list(t.a)
        return [t]

    def resolve(self, tr, name, sty, targs):
        """local trait impl for a concrete self type"""
        if sty is None or sty['k'] == 'param':
            return None
        while sty['k'] == 'ref':
            sty = sty['t']
        for imp in self.p.j['impls']:
            if imp.get('trait') == tr and same_head(imp['self'], sty):
                if targs and len(imp['args']) > 1 and not all(same_head(a, b) for a, b in zip(imp['args'][1:], targs)):
                    continue
                for i in imp['items']:
                    f = self.p.fns.get(i)
                    if f is not None and f.get('name') == name:
                        return f
        return None

    def enter(self, st, fr, fn, args, env, t):
        h = self.opaque.get(fn['path'])
        if h is not None:
            r = h(self, st, fr, args, {'p': fn['path'], 'res': None, 'a': [], 'self': None, 'tr': None, 'name': fn.get('name', '')}, t)
            if r is not NotImplemented:
                return r
        if fn['id'] in self.stack or len(self.stack) > 40:
            # a comparison that hands over to itself with both kinds known is followed once
            again = fn.get('name') in ('cmp', 'partial_cmp', 'eq') and self.stack.count(fn['id']) == 1 and \
                all(self.snap(st, self.deref(st, a)).op == 'adt' for a in args)
            if not again:
                return self.uninterpreted(st, fn['path'], args)
        return self.call_fn(st, fn, list(args), env, t)

    def call_value(self, st, fr, fv, args, t):
        v = self.deref(st, fv)
        if v.op == 'fn':
            info = FNTAB[v.a[0]]
            return self.call(st, fr, info, list(args), t)
        if v.op == 'clo':
            fn = self.p.fns.get(v.a[0])
            if fn is None:
                return self.uninterpreted(st, 'closure', [v] + list(args))
            env = self.cenv.get(('env', v.a[1]), {})
            # a closure environment is reached by value, or through a reference for FnMut state
            selfty = fn['body']['locals'][1]['ty']
            if fv.op == 'mref':
                me = fv
            elif selfty['k'] == 'ref' and selfty['m']:
                me = mk('mref', self.newcell(st, v), ())
            else:
                me = v
            if fn['id'] in self.stack and self.stack.count(fn['id']) > 1:
                return self.uninterpreted(st, fn['path'], [v] + list(args))
            return self.call_fn(st, fn, [me] + list(args), env, t)
        if v.op == 'adt' and v.a[0].startswith(tuple(self.p.local_prefix)):
            # tuple-struct / variant constructor used as a function is a 'fn' term; anything else is opaque
            pass
        if v.op == 'nom':
            return self.nom.apply(self, st, fr, v, self.deref(st, args[0]), t)
        if v.op == 'parser' or v.op == 'app':
            return [('ret', st, app('parse', self.snap(st, v), *[self.snap(st, a) for a in args]))]
        return self.uninterpreted(st, 'call', [v] + list(args))

    def uninterpreted(self, st, name, args):
        """unknown callee: result and everything it may write become functions of its inputs"""
        snaps = [self.snap(st, a) for a in args]
        for i, a in enumerate(args):
            for x in walk(a):
                if x.op == 'mref':
                    self.put(st, x.a[0], x.a[1], mk('eff', name, i, *snaps))
        return [('ret', st, app(name, *snaps))]

    def ctor(self, info):
        """enum/struct constructor used as a function"""
        p = info['p']
        segs_ = p.split('::')
        if len(segs_) >= 2:
            adt = '::'.join(segs_[:-1])
            a = self.p.adts.get(adt)
            if a:
                for v in a['v']:
                    if v['n'] == segs_[-1]:
                        return adt, v['n']
            a = self.p.adts.get(p)
            if a and not a['enum']:
                return p, a['v'][0]['n']
        return None

    def model(self, st, fr, info, name, args, t):
        c = self.ctor_of(info)
        if c:
            return [('ret', st, mk('adt', c[0], c[1], *args))]
        m = self.models.get(name)
        if m is not None:
            r = m(self, st, fr, args, info, t)
            if r is not NotImplemented:
                return r
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        # the same function at another number type is another function
        nums = [x['n'] for x in (self.subst_ty(y, fr.env) for y in info.get('a') or ()) if x and x.get('k') in ('int', 'uint', 'float')]
        return self.uninterpreted(st, name + ('<%s>' % ','.join(nums) if nums else ''), args)

    def ctor_of(self, info):
        p = re.sub(r"::<[^<>]*(?:<[^<>]*>)*[^<>]*>", '', info['p'])
        segs_ = p.split('::')
        if len(segs_) >= 2 and segs_[-1][:1].isupper():
            adt = '::'.join(segs_[:-1])
            a = self.p.adts.get(adt)
            if a:
                for v in a['v']:
                    if v['n'] == segs_[-1]:
                        return adt, v['n']
            a = self.p.adts.get(p)
            if a and not a['enum']:
                return p, a['v'][0]['n']
        return None

    # ------------------------------------------------------------ loops
    def do_loop(self, st, fr, L):
        n = self.concrete_driver(st, fr, L)
        if n is not None:
            outs, cur = [], [st.fork()]
            for _ in range(n + 2):
                nxt = []
                for s in cur:
                    for k, s2, v in self.run(s, fr, L.header, L):
                        if k in ('back', 'skip'):
                            nxt.append(s2)
                        else:
                            outs.append((k, s2, v))
                cur = nxt
                if not cur:
                    return outs
                if len(cur) > 300:
                    break
            else:
                raise Unknown('unrolled loop does not finish')
        return self.loop_engine(st, lambda s: self.run(s, fr, L.header, L), fr.fn['path'])

    def concrete_driver(self, st, fr, L):
        """number of iterations when the loop walks a literal collection"""
        blk = fr.body['blocks'][L.header]
        s = st.fork()
        n = 0
        while True:
            for x in blk['s']:
                if x['s'] == 'assign':
                    self.write(s, fr, x['p'], self.rvalue(s, fr, x['r']))
            t = blk['t']
            if t['t'] == 'goto' and n < 4:
                blk = fr.body['blocks'][t['to']]
                n += 1
                continue
            break
        if t['t'] != 'call' or t['f']['o'] != 'const' or 'fn' not in t['f']['c']:
            return None
        if t['f']['c']['fn']['p'] != 'core::iter::traits::iterator::Iterator::next':
            return None
        a = self.operand(s, fr, t['args'][0])
        v = self.deref(s, a)
        it = self.mod.as_iter(self, v)
        if it is None:
            return None
        k = self.mod.concrete_len(self, it)
        return k if k is not None and k <= 64 else None

    def diff(self, old, new, path, out, own=()):
        if old is new:
            return
        if old.op == new.op and old.op in ('adt', 'tup', 'clo') and len(old.a) == len(new.a) and (old.op != 'adt' or old.a[:2] == new.a[:2]) \
                and (old.op != 'clo' or old.a[:2] == new.a[:2]) and old is not UNIT:
            off = 0 if old.op == 'tup' else 2
            for i in range(off, len(old.a)):
                if old.op == 'adt':
                    d = self.p.adts.get(old.a[0])
                    enum = d and d['enum']
                    e = ('f', old.a[1], i - 2, '', old.a[0], -1)
                else:
                    e = ('f', '', i - off, '', '', len(old.a) - off)
                self.diff(old.a[i], new.a[i], path + (e,), out, own)
            return
        if old in own:
            return
        # a struct that was symbolic before and is partially written now
        if new.op == 'adt' and old.op in ('sym', 'fld', 'app', 'elem', 'nth') and new.a[0] in self.p.adts and not self.p.adts[new.a[0]]['enum']:
            d = self.p.adts[new.a[0]]['v'][0]
            for i, f in enumerate(d['f']):
                o = self.fld(old, new.a[1], i, f['n'])
                e = ('f', new.a[1], i, f['n'], new.a[0], -1)
                self.diff(o, new.a[2 + i], path + (e,), out, own)
            return
        out.append(path)

    def loop_engine(self, st0, iterate, where):
        lid = self.fresh()
        mods = {}
        n0 = len(st0.path)
        for rnd in range(14):
            sh = st0.fork()
            for (cell, path), lv in mods.items():
                self.put(sh, cell, path, lv)
            outs = [self.skipped(o, mods, where) if o[0] == 'skip' else o for o in iterate(sh.fork())]
            backs = [o for o in outs if o[0] == 'back']
            new = set()
            for _, s, _ in backs:
                for c, v in sh.cells.items():
                    nv = s.cells.get(c)
                    if nv is None or nv is v:
                        continue
                    ps = []
                    self.diff(v, nv, (), ps, set(mods.values()))
                    for p in ps:
                        if (c, p) not in mods:
                            new.add((c, p))
                # symbolic cells first touched inside the loop
                for c, v in s.cells.items():
                    if c not in sh.cells and c[0] == 's' and v is not c[1]:
                        ps = []
                        self.diff(c[1], v, (), ps, set(mods.values()))
                        for p in ps:
                            if (c, p) not in mods:
                                new.add((c, p))
            if not new:
                break
            for (c, p) in sorted(new, key=repr):
                for (c2, p2) in list(mods):
                    if c2 == c and p2[:len(p)] == p:
                        del mods[(c2, p2)]
                if any(c2 == c and p[:len(p2)] == p2 for (c2, p2) in mods):
                    continue
                lv = mk('lv', lid, len(self.lvinit))
                self.lvinit[lv] = self.get(st0, c, p)
                mods[(c, p)] = lv
        else:
            raise Unknown('loop fixpoint in %s' % where)
        return self.close(st0, n0, mods, outs, where, lid)

    def skipped(self, o, mods, where):
        """the item this step was about is left out: the next step"""
        for (c, p), lv in mods.items():
            if (c, p) != o[2].a and self.get(o[1], c, p).op == 'adv':
                raise Unknown('two walks in one loop in %s' % where)
        return 'back', o[1], None

    def close(self, st0, n0, mods, outs, where, lid):
        backs = [o for o in outs if o[0] == 'back']
        rest = [o for o in outs if o[0] != 'back']
        lvs = {lv: (c, p) for (c, p), lv in mods.items()}
        if not backs:
            # no iteration returns to the head: not a loop on any feasible path
            return rest
        bv = {lv: [self.get(s, c, p) for _, s, _ in backs] for lv, (c, p) in lvs.items()}
        deltas = [s.path[n0:] for _, s, _ in backs]
        # ---- driver
        driver = src = None
        pre = {}
        for lv in lvs:
            if all(v.op == 'adv' and v.a[0] is lv for v in bv[lv]) and any(
                    (mk('exh', lv), True) in s.path[n0:] for _, s, _ in rest):
                it = self.mod.as_iter(self, self.lvinit[lv])
                if it is not None:
                    driver, src = lv, self.mod.iter_src(self, it)
                    break
        counter = None
        if driver is None:
            for lv in lvs:
                if not all(v is ladd(lv, I(1)) for v in bv[lv]):
                    continue
                for _, s, _ in rest:
                    for a, pol in s.path[n0:]:
                        if a.op == 'le0' and pol is False or a.op == 'le0' and pol is True:
                            l = a.a[0] if pol is False else None
                            if l is None:
                                continue
                            k, d = lin(l)
                            if d.get(lv) == 1:
                                bound = lscale(ladd(l, lsub(I(0), ladd(lv, I(1)))), -1)
                                # i - bound + 1 <= 0  is the loop condition
                                if not mentions(bound, 'lv') or True:
                                    if any(x.op == 'lv' and x in lvs for x in walk(bound)):
                                        continue
                                    if all(any(a2 is a and p2 is True for a2, p2 in dl) for dl in deltas):
                                        counter = (lv, bound, a)
                        elif a.op == 'eq0' and pol is True:
                            k, d = lin(a.a[0])
                            c = d.get(lv)
                            if c in (1, -1):
                                bound = lsub(lv, lscale(a.a[0], c))
                                if any(x.op == 'lv' and x in lvs for x in walk(bound)):
                                    continue
                                if all(any(a2 is a and p2 is False for a2, p2 in dl) for dl in deltas):
                                    counter = (lv, bound, a)
                if counter:
                    break
        down = False
        if driver is None and counter is None:
            # counting down to a bound
            for lv in lvs:
                if counter is None and all(v is ladd(lv, I(-1)) for v in bv[lv]) and bv[lv]:
                    for _, s, _ in rest:
                        for a, pol in s.path[n0:]:
                            if (a is eq0(lv) and pol is True or a is le0(ladd(I(1), lv, -1)) and pol is False) and \
                                    all(any(a2 is a and p2 is not pol for a2, p2 in dl) for dl in deltas):
                                counter, down = (lv, I(0), a), True
        m = {}          # in-loop meaning of loop-carried values
        drop = set()
        work = None
        if driver is None and counter is None:
            work = self.worklist(lvs, bv, deltas, rest, n0)
            if work is not None:
                work, wkind, wtop = work
        if driver is not None:
            drop.add(mk('exh', driver))
        elif counter is not None:
            lv, bound, atom = counter
            init = self.lvinit[lv]
            if down:
                src = mk('rev', mk('range', I(0), init))
                m[lv] = ladd(mk('elem', src), I(1))
            elif isconst(init, 'int') and cval(init) == 0 and bound.op == 'len':
                src = bound.a[0]
                m[lv] = mk('pos', src)
            else:
                src = mk('range', init, bound)
                m[lv] = mk('elem', src)
            drop.add(atom)
        elif work is not None:
            src = mk('wl', lid)
            drop.add(eq0(mk('len', work)))
            m[wtop] = mk('elem', src)
            for lv in lvs:
                if lv is not work and all(v.op == 'list' and len(v.a) == 2 and v.a[0].op == 'all' and v.a[0].a[0] is lv and v.a[1].op == 'one' for v in bv[lv]) \
                        and self.lvinit[lv].op == 'list' and not self.lvinit[lv].a:
                    m[mk('len', lv)] = mk('pos', src)
        closed = {}
        if src is not None:
            for lv in lvs:
                if lv is driver:
                    closed[lv] = mk('exhausted', src)
                elif counter and lv is counter[0]:
                    closed[lv] = counter[1]
                elif lv is work:
                    closed[lv] = mklist((), 'list')
                elif all(v is ladd(lv, I(1)) for v in bv[lv]):
                    m[lv] = ladd(mk('pos', src), self.lvinit[lv])
                    closed[lv] = ladd(mk('len', src), self.lvinit[lv])
                elif self.lvinit[lv] in (TRUE, FALSE) and all(v is neg(self.lvinit[lv]) for v in bv[lv]):
                    first = eq0(mk('pos', src))
                    m[lv] = first if self.lvinit[lv] is TRUE else neg(first)
                    ne = eq0(mk('len', src))
                    closed[lv] = ne if self.lvinit[lv] is TRUE else neg(ne)
        memo = {}

        def sb(x):
            return subst(x, m, memo) if m else x

        def guard(path):
            g = []
            for a, pol in path:
                if a in drop:
                    continue
                a2 = sb(a)
                if a2.op == 'not':
                    a2, pol = a2.a[0], not pol
                if a2.op == 'c':
                    continue
                g.append((a2, pol))
            return tuple(g)
        guards = [guard(d) for d in deltas]
        info = {'where': where, 'src': src, 'lvs': {}, 'guards': guards, 'lid': lid, 'n0': n0}
        if work is not None:
            # what remains to be visited: the rest of the list, then what this step adds
            self.worklists[src] = (wkind, self.lvinit[work], [(g, segs(sb(v))[1:] if v.op == 'list' else ()) for g, v in zip(guards, bv[work])])
        if src is not None:
            for lv in lvs:
                if lv in closed:
                    continue
                closed[lv] = self.close_acc(lv, self.lvinit[lv], [sb(v) for v in bv[lv]], guards, src)
        else:
            for i, lv in enumerate(sorted(lvs, key=lambda x: x.n)):
                closed[lv] = mk('loopval', self.lvinit[lv], mk('grd', tuple(guards)), tuple(subst(v, {lv: sym('acc')}) for v in bv[lv]))
        for lv in lvs:
            info['lvs'][lv] = (lvs[lv], self.lvinit[lv], bv[lv], closed[lv])
        # ---- exits
        early = []
        res = []
        for k, s, v in rest:
            d = s.path[n0:]
            normal = src is not None and (
                (driver is not None and (mk('exh', driver), True) in d) or
                (work is not None and (eq0(mk('len', work)), True) in d) or
                (counter is not None and any(a is counter[2] and pol == (counter[2].op == 'eq0') for a, pol in d)))
            g = guard(d)
            if counter is not None and not normal and any(self.decide(st0, a) is (not pol) for a, pol in g):
                # cannot happen for any member of the range counted over
                continue
            early.append((normal, g, k, s, v))
        any_atoms = []
        if src is not None:
            for normal, g, k, s, v in early:
                if not normal:
                    any_atoms.append(any_atom(src, g))
        # leaving a walk over the characters at the first one outside the set walked over
        stay = None
        if src is not None and src.op == 'chars' and all(len(g) > 0 and all(a.op == 'inset' and a.a[0] is mk('elem', src) for a, _ in g) for g in guards):
            stay = CS(())
            for g in guards:
                cs = CS_ALL
                for a, pol in g:
                    cs = cs & (a.a[1] if pol else ~a.a[1])
                stay = stay | cs
        for normal, g, k, s, v in early:
            s2 = s.fork()
            mm = dict(m)
            for lv in lvs:
                if normal:
                    mm[lv] = closed[lv]
                elif lv not in mm:
                    mm[lv] = mk('partial', closed[lv])
            if normal:
                # the in-loop meaning of counters does not survive the loop
                for lv in lvs:
                    mm[lv] = closed[lv]
            memo2 = {}
            for c in list(s2.cells):
                s2.cells[c] = subst(s2.cells[c], mm, memo2)
            base_path = st0.path
            if normal:
                s2.path = base_path
                bad = False
                for a, pol in g:
                    a2 = subst(a, mm, memo2)
                    if a2.op == 'not':
                        a2, pol = a2.a[0], not pol
                    if a2.op == 'c':
                        if cval(a2) != pol:
                            bad = True
                        continue
                    s2.path += ((a2, pol),)
                if bad:
                    continue
                for a in any_atoms:
                    if a is TRUE:
                        bad = True
                        continue
                    dd = self.decide(st0, a)
                    if dd is True:
                        bad = True
                    s2.facts.b[a] = False
                    s2.path += ((a, False),)
                if bad:
                    continue
            elif src is not None:
                a = any_atom(src, g)
                dd = self.decide(st0, a)
                if dd is False:
                    continue
                s2.path = base_path + ((a, True),) + g
                s2.facts.b[a] = True
                if stay is not None and all(contains(x, mk('elem', src)) for x, _ in g):
                    at, _ = self.nom.run(self, st0, src.a[0], stay)
                    here = {mk('elem', src): self.nom.head(at)}
                    s2 = st0.fork()
                    s2.cells = {c: subst(x, {**mm, **here}, own_elem(src, x)) for c, x in s.cells.items()}
                    s2 = self.assume(s2, mk('anych', src, ~stay), True)
                    for x, pol in g:
                        s2 = s2 and self.assume(s2, subst(x, here), pol)
                    if s2 is None:
                        continue
                    mm.update(here)
                    memo2 = own_elem(src, v) if isinstance(v, T) else {}
                # an element exists
                s2.facts.le += (ladd(I(1), mk('len', src), -1),)
            else:
                s2.path = base_path
                for a, pol in g:
                    s2 = s2 and self.assume(s2, subst(a, mm, memo2), pol)
                if s2 is None:
                    continue
            if k == 'panic':
                res.append((k, s2, v))
            else:
                res.append((k, s2, v if not isinstance(v, T) else subst(v, mm, memo2)))
        self.loops.append(info)
        return res

    def worklist(self, lvs, bv, deltas, rest, n0):
        """the list a loop takes its next item from, until it is empty"""
        for lv in lvs:
            e = eq0(mk('len', lv))
            if not all((e, False) in d for d in deltas):
                continue
            if not any((e, True) in s.path[n0:] for _, s, _ in rest):
                continue
            for kind, rest_, top_ in (('stack', mk('init', lv), mk('last', lv)), ('queue', mk('tail', lv), mk('nth', lv, 0))):
                if all(v is rest_ or v.op == 'list' and v.a[0].op == 'all' and v.a[0].a[0] is rest_ for v in bv[lv]):
                    return lv, kind, top_
        return None

    def close_acc(self, lv, init, vals, guards, src):
        def clean(xs):
            # values carried by an enclosing loop are fixed while this one runs
            return not any(y.op == 'lv' and y.a[0] == lv.a[0] for x in xs for y in walk(x))
        if all(v is lv for v in vals):
            return init
        # text
        if all(v is lv or (v.op == 'str' and v.a[0] is lv) for v in vals):
            cases = []
            ok_ = True
            for g, v in zip(guards, vals):
                ps = () if v is lv else v.a[1:]
                if not clean(ps):
                    ok_ = False
                if ps:
                    cases.append((g, ps))
            if ok_:
                if len(cases) == len(vals) > 1 and all(ps == cases[0][1] for _, ps in cases):
                    cases = [((), cases[0][1])]
                return mkstr((init, self.mk_each(src, cases, 'str')))
        for op in ('list', 'bmap'):
            if all(v is lv or (v.op == op and v.a[0].op == 'all' and v.a[0].a[0] is lv) for v in vals):
                cases, ok_ = [], True
                for g, v in zip(guards, vals):
                    ps = () if v is lv else v.a[1:]
                    if not clean(ps):
                        ok_ = False
                    if ps:
                        cases.append((g, ps))
                if ok_:
                    if len(cases) == len(vals) > 1 and all(ps == cases[0][1] for _, ps in cases):
                        cases = [((), cases[0][1])]     # whatever way the step goes, it adds this
                    return mklist(segs(init) + (self.mk_each(src, cases, op),), op)
        r = self.close_group(lv, init, vals, guards, src) or self.close_at(lv, init, vals, guards, src)
        if r is not None:
            return r
        r = self.close_flag(lv, init, vals, guards, src)
        if r is not None:
            return r
        acc = sym('acc')
        src = counted(src, list(vals) + [a for g in guards for a, _ in g])
        return mk('fold', src, init, tuple(sorted(((g, subst(v, {lv: acc})) for g, v in zip(guards, vals)), key=repr)))

    def close_group(self, lv, init, vals, guards, src):
        """items of src distributed over the lists of a map, by key"""
        if init.op != 'bmap' or init.a:
            return None
        cases = set()
        for g, v in zip(guards, vals):
            if v is lv:
                continue
            if v.op != 'updentry':
                return None
            m, k, nv = v.a
            if any(y.op == 'lv' and y.a[0] == lv.a[0] for y in walk(k)):
                return None
            fresh = m.op == 'bmap' and m.a[0].op == 'all' and m.a[0].a[0] is lv and len(m.a) == 2 \
                and m.a[1] is one(mk('tup', k, mklist((), 'list')))
            if not (m is lv or fresh):
                return None
            if nv.op != 'list' or nv.a[0].op != 'all':
                return None
            ev = nv.a[0].a[0]
            if not (ev.op == 'entryval' and ev.a[1] is k and ev.a[0] in (lv, m)):
                return None
            ps = nv.a[1:]
            if any(y.op == 'lv' and y.a[0] == lv.a[0] for x in ps for y in walk(x)):
                return None
            has = mk('has', lv, k)
            cases.add((tuple(x for x in g if x[0] is not has), k, ps))
        return mk('group', src, tuple(sorted(cases, key=repr)))

    def close_flag(self, lv, init, vals, guards, src):
        """a flag that some of the items turn over, never to be turned back"""
        if init not in (TRUE, FALSE):
            return None
        out = TRUE
        for g, v in [(g + l, B(x)) for g, v in zip(guards, vals) if v is not lv for l, x in literals(v)]:
            if v is init and (lv, init is TRUE) in g:
                continue
            if v is not neg(init):
                return None
            if (lv, init is FALSE) in g:
                continue
            g = tuple(x for x in g if x[0] is not lv)
            if any(y.op == 'lv' for a, _ in g for y in walk(a)):
                return None
            out = band(out, neg(any_atom(src, g)))
        return out if init is TRUE else neg(out)

    def close_at(self, lv, init, vals, guards, src):
        """every step extends lists held at one place of the collection"""
        if not all(v.op == 'updidx' and v.a[0] is lv and v.a[1] is vals[0].a[1] and v.a[2].op == 'adt' for v in vals):
            return None
        k = vals[0].a[1]
        el = mk('elem', src)
        if contains(k, el) or any(y.op == 'lv' and y.a[0] == lv.a[0] for y in walk(k)):
            return None
        d = self.p.adts.get(vals[0].a[2].a[0])
        if d is None or d['enum']:
            return None
        old, new = mk('idx', lv, k), self.idx(init, k)
        out = []
        for j, f in enumerate(d['v'][0]['f']):
            o = self.fld(old, vals[0].a[2].a[1], j, f['n'])
            n = self.fld(new, vals[0].a[2].a[1], j, f['n'])
            cases = []
            for g, v in zip(guards, vals):
                x = v.a[2].a[2 + j]
                if x is o:
                    continue
                if x.op != 'list' or x.a[0].op != 'all' or x.a[0].a[0] is not o:
                    return None
                if any(y.op == 'lv' and y.a[0] == lv.a[0] for p in x.a[1:] for y in walk(p)):
                    return None
                cases.append((g, x.a[1:]))
            out.append(mklist(segs(n) + (self.mk_each(src, cases, 'list'),), 'list') if cases else n)
        nv = mk('adt', vals[0].a[2].a[0], vals[0].a[2].a[1], *out)
        return self.proj_set(None, init, (('i', k),), nv)

    def mk_each(self, src, cases, kind):
        return mk_each(self, src, cases, kind)


def literals(t):
    """the ways a condition comes out: (what was decided, result)"""
    if t is TRUE or t is FALSE:
        return [((), t is TRUE)]
    if t.op == 'not':
        return [(l, not x) for l, x in literals(t.a[0])]
    if t.op == 'and':
        return [(l + m, y) for l, x in literals(t.a[0]) for m, y in (literals(t.a[1]) if x else [((), False)])]
    return [(((t, True),), True), (((t, False),), False)]


def none_counted(t):
    """asking whether a count of items is zero asks whether there is none"""
    if t.op not in ('eq0', 'le0'):
        return None
    k, d = lin(t.a[0])
    if len(d) != 1:
        return None
    (f, c), = d.items()
    zero = t.op == 'eq0' and k == 0 or t.op == 'le0' and c == 1 and k == 0
    if not zero and not (t.op == 'le0' and c == -1 and k == 1) or f.op != 'fold' or f.a[1] is not I(0):
        return None
    acc = sym('acc')
    if any(v is not acc and v is not ladd(acc, I(1)) or any(contains(a, acc) for a, _ in g) for g, v in f.a[2]):
        return None
    out = TRUE
    for g, v in f.a[2]:
        if v is not acc:
            out = band(out, neg(any_atom(f.a[0], g)))
    return out if zero else neg(out)


def own_elem(src, t):
    """finished walks over src inside t: the element they speak of is their own"""
    return {x: x for x in walk(t) if x.op in ('fold', 'each', 'any', 'anych') and x.a[0] is src}


def counted(src, ts):
    """a walk that only counts goes either way"""
    if src.op == 'rev' and src.a[0].op == 'range' and not any(contains(t, mk('elem', src)) for t in ts):
        return src.a[0]
    return src


def any_atom(src, g):
    src = counted(src, [a for a, _ in g])
    el = mk('elem', src)
    cs = CS_ALL
    # what is said about the witness of an inner `some element` decision follows from that decision
    wit = [mk('elem', a.a[0]) for a, pol in g if pol and a.op in ('any', 'anych')]
    if wit:
        g = tuple((a, pol) for a, pol in g if a.op in ('any', 'anych') or not any(contains(a, w) for w in wit))
    for a, pol in g:
        if a.op == 'inset' and a.a[0] is el:
            cs = cs & (a.a[1] if pol else ~a.a[1])
        elif a.op == 'any' and False:
            pass
        else:
            return mk('any', src, tuple(sorted(g, key=lambda x: (x[0].n, x[1]))))
    if cs == CS_ALL and not g:
        return neg(eq0(mk('len', src)))
    return mk('anych', src, cs)


def merge_cases(cases):
    """drop decisions that do not matter: g+a / g+!a with the same contribution"""
    cases = [(frozenset(g), p) for g, p in cases]
    ch = True
    while ch:
        ch = False
        for i in range(len(cases)):
            for j in range(i + 1, len(cases)):
                gi, pi = cases[i]
                gj, pj = cases[j]
                if pi == pj:
                    if gi <= gj or gj <= gi:
                        cases[i] = (gi & gj, pi)
                        del cases[j]
                        ch = True
                        break
                    d = gi ^ gj
                    if len(d) == 2:
                        (a, x), (b, y) = d
                        if a is b and x != y:
                            cases[i] = (gi & gj, pi)
                            del cases[j]
                            ch = True
                            break
                        if a.op == 'is' and b.op == 'is' and False:
                            pass
            if ch:
                break
    return cases


def gkey(g):
    return tuple(sorted(g, key=lambda x: (x[0].n, x[1])))


def mk_each(ip, src, cases, kind):
    cases = merge_cases([(tuple(g), tuple(p)) for g, p in cases])
    el = mk('elem', src)
    if kind == 'str' and src.op == 'rev' and len(cases) == 1 and not cases[0][0] and all(isconst(p, 'str') for p in cases[0][1]):
        # the same text each time: the direction does not matter
        src = src.a[0]
    if kind == 'str' and src.op == 'range' and src.a[0] is not I(0) and isconst(src.a[0], 'int') and len(cases) == 1 and not cases[0][0] and all(isconst(p, 'str') for p in cases[0][1]):
        src = mk('range', I(0), lsub(src.a[1], src.a[0]))
    # identity traversal
    if kind in ('list', 'bmap') and len(cases) == 1 and not cases[0][0]:
        p = cases[0][1]
        if len(p) == 1 and p[0].op == 'one' and p[0].a[0] is el:
            return allof(src)
        if len(p) == 1 and p[0].op == 'one' and p[0].a[0] is mk('tup', mk('fld', el, '', '0'), mk('fld', el, '', '1')):
            return allof(src)
    # variant-by-variant identity
    if kind in ('list', 'bmap') and cases and all(len(p) == 1 and p[0] is one(el) for _, p in cases) and exhaustive(ip, [g for g, _ in cases]):
        return allof(src)
    if kind == 'str' and len(cases) == 2:
        j = as_join(src, cases)
        if j is not None:
            return j
    cs = tuple(sorted(((gkey(g), p) for g, p in cases), key=lambda c: (tuple((a.n, b) for a, b in c[0]), tuple(x.n for x in c[1]))))
    return mk('each', src, cs)


def exhaustive(ip, gs):
    """do the guards cover everything (by repeated case merging on booleans and on enum variants)"""
    gs = [frozenset(g) for g in gs]

    def cover(gs, depth=0):
        if any(not g for g in gs):
            return True
        if not gs or depth > 12:
            return False
        # pick an atom
        a = next(iter(min(gs, key=len)))[0]
        if a.op == 'is':
            x, _, adt = a.a
            for v in ip.variants(adt):
                sub = []
                for g in gs:
                    ng = set()
                    okk = True
                    for b, pol in g:
                        if b.op == 'is' and b.a[0] is x:
                            if (b.a[1] == v) != pol:
                                okk = False
                                break
                        else:
                            ng.add((b, pol))
                    if okk:
                        sub.append(frozenset(ng))
                if not cover(sub, depth + 1):
                    return False
            return True
        for val in (True, False):
            sub = []
            for g in gs:
                if (a, not val) in g:
                    continue
                sub.append(frozenset(x for x in g if x[0] is not a))
            if not cover(sub, depth + 1):
                return False
        return True
    return cover(gs)


def as_join(src, cases):
    """separator-between-elements idioms -> join(src, element pieces, separator)"""
    (g1, p1), (g2, p2) = cases
    d = g1 ^ g2
    if len(d) != 2:
        return None
    (a, x), (b, y) = d
    common = gkey(g1 & g2)
    pos, ln = mk('pos', src), mk('len', src)
    if a is b and x != y:
        first_atoms = {eq0(pos): True, le0(pos): True, le0(lsub(I(1), pos)): False}
        if a in first_atoms:
            first, others = (p1, p2) if (a, first_atoms[a]) in g1 else (p2, p1)
            sp = strip_prefix(others, first)
            if sp is not None:
                return mk('join', src, ((common, first),), sp)
        last_atoms = {eq0(lsub(ladd(pos, I(1)), ln)): True, le0(lsub(ladd(pos, I(2)), ln)): False,
                      le0(lsub(ln, ladd(pos, I(1)))): True}
        if a in last_atoms:
            lastpol = last_atoms[a]
            last, others = (p1, p2) if (a, lastpol) in g1 else (p2, p1)
            sp = strip_suffix(others, last)
            if sp is not None:
                return mk('join', src, ((common, last),), sp)
    return None


def strip_prefix(long, short):
    if not long or not isconst(long[0], 'str'):
        return None
    s = cval(long[0])
    for k in range(1, len(s) + 1):
        if mkstr((S(s[k:]),) + long[1:]) is mkstr(short):
            return S(s[:k])
    return None


def strip_suffix(long, short):
    if not long or not isconst(long[-1], 'str'):
        return None
    s = cval(long[-1])
    for k in range(1, len(s) + 1):
        if mkstr(long[:-1] + (S(s[:-k]),)) is mkstr(short):
            return S(s[-k:])
    return None


def f_without_last(f):
    g = Facts.__new__(Facts)
    g.var, g.b, g.cs, g.le = f.var, f.b, f.cs, f.le[:-1]
    return g


BITS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
RANGE = {k: ((0, (1 << b) - 1) if k[0] == 'u' else (-(1 << (b - 1)), (1 << (b - 1)) - 1)) for k, b in BITS.items()}


def in_range(v, n):
    lo, hi = RANGE[n]
    return lo <= v <= hi


def beq(x, y):
    if x is y:
        return TRUE
    if isconst(x):
        return y if cval(x) else neg(y)
    if isconst(y):
        return x if cval(y) else neg(x)
    return eqs(x, y)


def eqs(x, y):
    """equality of opaque values"""
    if x is y:
        return TRUE
    if isconst(x) and isconst(y):
        return B(x.a == y.a)
    if isconst(x) or (not isconst(y) and y.n < x.n):
        x, y = y, x
    return mk('eqs', x, y)


def fcmp(op, x, y):
    if op == 'Gt':
        return mk('flt', y, x)
    if op == 'Ge':
        return mk('fle', y, x)
    if op == 'Lt':
        return mk('flt', x, y)
    if op == 'Le':
        return mk('fle', x, y)
    if op == 'Eq':
        return mk('feq', x, y)
    if op == 'Ne':
        return neg(mk('feq', x, y))
    return app('f' + op, x, y)


def same_head(a, b):
    while a['k'] == 'ref':
        a = a['t']
    while b['k'] == 'ref':
        b = b['t']
    if a['k'] != b['k']:
        return False
    if a['k'] == 'adt':
        return a['p'] == b['p']
    if a['k'] in ('int', 'uint', 'float'):
        return a['n'] == b['n']
    if a['k'] == 'slice':
        return same_head(a['t'], b['t'])
    return True


def _rb_fld(a):
    v, variant, name = a
    if v.op == 'tup' and name.isdigit() and int(name) < len(v.a):
        return v.a[int(name)]
    if v.op == 'adt':
        d = _ADTS.get(v.a[0])
        if d:
            for vv in d['v']:
                if vv['n'] == v.a[1] and (not variant or variant == v.a[1]):
                    for i, f in enumerate(vv['f']):
                        if f['n'] == name:
                            return v.a[2 + i]
    return mk('fld', *a)


def _rb_is(a):
    x, v, adt = a
    if x.op == 'adt':
        return B(x.a[1] == v)
    return mk('is', *a)


def _rb_idx(a):
    v, i = a
    if i.op == 'pos' and i.a[0] is v:
        return mk('elem', v)
    return mk('idx', v, i)


_ADTS = {}
REBUILD['fld'] = _rb_fld
REBUILD['is'] = _rb_is
REBUILD['idx'] = _rb_idx
