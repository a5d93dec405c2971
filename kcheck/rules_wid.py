"""fitting a value to a width limit: what is put on one line fits the limit"""
from core import *
from rules_fmt import *
import models
import terms

OPT = OPTION
VAL_FLAG = {'Tuple': 'id_on_tuples', 'Cntr': 'id_on_containers', 'Seq': 'id_on_seqs', 'Map': 'id_on_maps'}


# ---------------------------------------------------------------- the functions that measure

def is_ref(t, m=None):
    return t['k'] == 'ref' and (m is None or bool(t.get('m')) == m)


def memo_ty(t):
    """&mut of a list of optional numbers"""
    if not is_ref(t, True):
        return False
    t = t['t']
    a = t.get('a') or ([t['t']] if t['k'] == 'slice' else [])
    return bool(a) and a[0].get('p', '').endswith('Option') and a[0]['a'][0].get('k') == 'uint'


class Measures:
    def __init__(self, r, nv):
        self.r, self.nv = r, nv
        self.rec, self.plain, self.lists = {}, {}, {}
        for f in r.p.j['fns']:
            if f['path'].split('::')[0] != 'fmt' or f['kind'] not in ('Fn', 'AssocFn'):
                continue
            out, ins = f.get('output') or {}, f.get('inputs') or []
            heads = [ty_head(t).split('::')[-1] for t in ins]
            name = f['path'].split('::')[-1]
            if out.get('k') == 'uint' and any(memo_ty(t) for t in ins) and 'Node' in heads:
                self.rec[f['path']] = (f, heads.index('Node'), [i for i, t in enumerate(ins) if memo_ty(t)][0])
            elif out.get('k') == 'uint' and heads[:1] == ['Kserd'] and not any(is_ref(t, True) for t in ins):
                self.plain[f['path']] = f
            elif out.get('p', '').split('::')[-1] == 'Vec' and [a.get('k') for a in out.get('a', [])][:1] == ['uint']:
                self.lists[name] = f

    def used_by(self, f):
        """the measuring functions that f calls itself"""
        out = set()
        for b in f['body']['blocks']:
            t = b['t']
            if t['t'] == 'call' and t['f']['o'] == 'const' and 'fn' in t['f']['c'] and t['f']['c']['fn']['p'] in self.rec:
                out.add(t['f']['c']['fn']['p'])
        return out or set(self.rec)

    def rec_ops(self, only):
        o = {}
        for p, (f, ni, mi) in self.rec.items():
            if p not in only:
                continue

            def h(ip, st, fr, args, info, t, p=p, ni=ni, mi=mi):
                x = flat(ip.snap(st, args[ni]))
                models.upd(ip, st, args[mi], lambda v: mk('app', 'memo', v, S(p), x))
                return [('ret', st, mk('app', 'W', S(p), x))]
            o[p] = h
        return o

    def plain_ops(self, but=None):
        o = {}
        for p in self.plain:
            if p != but:
                o[p] = lambda ip, st, fr, args, info, t, p=p: [('ret', st, mk('app', 'P', S(p), ip.snap(st, args[0])))]
        return o


def memo_read(x):
    """node n and list when x is what the list holds for node n"""
    if x.op == 'fld' and x.a[1] == 'Some' and x.a[0].op in ('idx', 'nth'):
        i = flat(x.a[0].a[1])
        if i.op == 'app' and i.a[0] == 'index':
            return i.a[1]
    return None


def remembered(x, p):
    """the widths read back from the list are those measured for their node"""
    m = {}
    for y in terms.walk(x):
        n = memo_read(y)
        if n is not None:
            m[y] = mk('app', 'W', S(p), n)
    return flat(subst(x, m)) if m else flat(x)


def only_measured(x, p):
    """every number stored in the list is the one measured for its node by p"""
    if x.op in ('sym', 'lv'):
        return True
    if x.op == 'app' and x.a[0] == 'memo':
        return x.a[2] is S(p) and only_measured(x.a[1], p)
    if x.op == 'fold':
        return only_measured(x.a[1], p) and all(only_measured(c[1], p) for c in x.a[2])
    if x.op == 'updidx':
        i, v = flat(x.a[1]), x.a[2]
        if v.op != 'adt' or v.a[1] != 'Some':
            return v.op == 'adt' and v.a[1] == 'None' and only_measured(x.a[0], p)
        w = remembered(v.a[2], p)
        n = i.a[1] if i.op == 'app' and i.a[0] == 'index' else None
        return n is not None and w is mk('app', 'W', S(p), n) and only_measured(x.a[0], p)
    return empty_list(x)


def empty_list(x):
    return x.op == 'app' and x.a[0] == 'from_elem' and x.a[1].op == 'adt' and x.a[1].a[1] == 'None' or x.op == 'list' and not any(True for _ in segs(x))


# ---------------------------------------------------------------- lower bounds

def least(a, b):
    return {k: min(a.get(k, 0), b.get(k, 0)) for k in set(a) | set(b)}


def bound(x, fix=lambda x: x):
    """-> {atom: coefficient} (1 for the constant) no greater than x, sums over a collection as ('sum', source, atom); None: no bound"""
    k, d = lin(fix(x))
    out = {1: k}

    def add(q, c):
        for a, v in q.items():
            out[a] = out.get(a, 0) + c * v
    for a, c in d.items():
        if a.op != 'fold':
            add({a: 1}, c)
            continue
        src, init, cases = a.a
        b0 = bound(init, fix)
        step = None
        for g, o in cases:
            ko, do = lin(fix(o))
            if do.get(ACC) != 1:
                if c < 0:
                    return None
                b0, step = {}, {}
                break
            q = bound(mkoff(ko, {y: v for y, v in do.items() if y is not ACC}), fix)
            if q is None or any(ACC in terms.walk(y) for y in q if isinstance(y, T)):
                return None
            if step is not None and q != step and c < 0:
                return None
            step = q if step is None else least(step, q)
        if b0 is None or step is None:
            return None
        add(b0, c)
        src = flat_src(src)
        for y, v in step.items():
            add({mk('len', src) if y == 1 else ('sum', src, y): v}, c)
    return {a: c for a, c in out.items() if c or a == 1}


def mkoff(k, d):
    t = I(k)
    for a, c in d.items():
        for _ in range(abs(c)):
            t = ladd(t, a) if c > 0 else lsub(t, a)
    return t


def covers(ip, st, got, want, at_least=()):
    """got >= want for every non-negative value of the atoms; at_least: (atom, number) known of some of them"""
    d = dict(got)
    for a, c in want.items():
        d[a] = d.get(a, 0) - c
    for a, n in at_least:
        if d.get(a, 0) > 0:
            d[1] = d.get(1, 0) + n * d[a]
            d[a] = 0
        elif d.get(a, 0) < 0:
            return False
    return d.get(1, 0) >= 0 and all(c >= 0 for a, c in d.items() if a != 1)


def sized(ip, st, n):
    """the ways a number can be 0, 1 or more: (state, {n: exactly} or at least)"""
    for s, b in ip.branch(st, le(n, I(0))):
        if b:
            yield s, 0, True
        else:
            for s2, b2 in ip.branch(s, le(n, I(1))):
                yield (s2, 1, True) if b2 else (s2, 2, False)


def at(q, n, k):
    q = dict(q)
    c = q.pop(n, 0)
    q[1] = q.get(1, 0) + c * k
    return q


# ---------------------------------------------------------------- the text of one value on one line

def text_len(x):
    return mk('len', mk('chars', x))


def own_text(r, ip, st, k, cfg):
    """(state, least number of characters of the value's text on one line leaving out its children, facts, count)"""
    val = ip.fld(k, 'Kserd', *FI(r, 'Kserd', 'val'))
    ident = ip.fld(k, 'Kserd', *FI(r, 'Kserd', 'id'))
    for s, nm in ip.fork_var(st, val, r.p.ty('Value')):
        for s2, i in ip.fork_var(s, ident, OPT):
            name = None
            if i == 'Some':
                name = text_len(ktext(ip, r, ip.fld(ident, 'Some', 0, '0')))
                s2 = ip.assume(s2, le(I(1), name), True)
                if s2 is None:
                    continue
            p = ip.fld(val, nm, 0, '0')

            def flagged(flag):
                if name is None:
                    yield s2, {}, 0
                    return
                for s3, b in ip.branch(s2, ip.fld(cfg, 'FormattingConfig', *FI(r, 'FormattingConfig', flag))):
                    yield s3, ({name: 1} if b else {}), b
            if nm == 'Unit':
                yield s2, {1: 2, name: 1} if name is not None else {1: 2}, (), None
                continue
            if nm in VAL_FLAG:
                for s3, q, b in flagged(VAL_FLAG[nm]):
                    n = ip.length(p)
                    for s4, c, exact in sized(ip, s3, n):
                        w = dict(q)
                        w[1] = w.get(1, 0) + (1 if b and nm != 'Tuple' else 0) + 2
                        if c:
                            w[n] = w.get(n, 0) + 2
                            w[1] -= 2
                        if nm == 'Map':
                            w[n] = w.get(n, 0) + 2
                            w[1] += 2 if c else 0
                        if nm == 'Cntr':
                            w[n] = w.get(n, 0) + 3
                            w[('sum', p, text_len(ktext(ip, r, ip.fld(mk('elem', p), '', 0, '0'))))] = 1
                        yield s4, at(w, n, c) if exact else w, (() if exact else ((n, 2),)), (n, c if exact else None)
                continue
            for s3, q, b in flagged('id_on_primitives'):
                q = dict(q)
                q[1] = q.get(1, 0) + (3 if b else 0)
                if nm == 'Bool':
                    for s4, tv in ip.branch(s3, p):
                        w = dict(q)
                        w[1] += 4 if tv else 5
                        yield s4, w, (), None
                elif nm == 'Num':
                    for s4, v in ip.fork_var(s3, p, r.p.ty('Number')):
                        w = dict(q)
                        w[text_len(number_text(ip, p, v))] = 1
                        yield s4, w, (), None
                elif nm == 'Str':
                    t = ktext(ip, r, p)
                    for s4, qt in ip.branch(s3, mk('anych', mk('chars', t), cs_of('"'))):
                        w = dict(q)
                        w[text_len(t)] = w.get(text_len(t), 0) + 1
                        w[1] += 5 if qt else 2
                        yield s4, w, (), None
                else:
                    w = dict(q)
                    n = ip.length(ip.fld(p, 'Barr', *FI(r, 'Barr', 'inner')))
                    for s4, c, exact in sized(ip, s3, n):
                        w2 = dict(w)
                        w2[1] += 5
                        w2[n] = 2
                        yield s4, at(w2, n, c) if exact else w2, (() if exact else ((n, 2),)), (n, c if exact else None)


def FI(r, ty, field):
    for j, f in enumerate(r.p.adts[r.p.ty(ty)]['v'][0]['f']):
        if f['n'] == field:
            return j, field
    raise NoAnswer('anchor %s.%s' % (ty, field))


def ktext(ip, r, k):
    return ip.fld(k, 'Kstr', *FI(r, 'Kstr', 'inner'))


NUM_TY = {'Uint': 'u128', 'Int': 'i128', 'Float': 'f64'}


def number_text(ip, p, v):
    return mkstr([mk('disp', NUM_TY[v], ip.fld(p, v, 0, '0'))])


def written(x):
    """the escaped form of a text has at least as many characters"""
    m = {y: mk('len', mk('chars', y.a[0].a[1])) for y in terms.walk(x) if y.op == 'len' and y.a[0].op == 'app' and y.a[0].a[0] == 'escaped'}
    return subst(x, m) if m else x


def plain_fits(r, f, what):
    """what f measures of a value itself is at least its text"""
    ip, outs = r.outcomes(f)
    r.fns.add(f['path'])
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        v = ip.snap(st, v)
        text_fits(r, ip, st, v, sym('arg0'), sym('arg1'), f, what)


def text_fits(r, ip, st, v, k, cfg, f, what):
    r.paths += 1
    got = bound(v, written)
    for s, want, known, n in own_text(r, ip, st, k, cfg):
        r.obligs += 1
        if got is None:
            raise NoAnswer('%s: measured width is not a sum: %s' % (f['path'], clip(show(v), 200)))
        g = at(got, n[0], n[1]) if n and n[1] is not None else got
        if not covers(ip, s, g, want, known):
            r.fail(f, what, 'measures %s for a value written with at least %s characters | %s' % (clip(show(v), 200), qshow(want), clip(show_path(s), 300)))


def qshow(q):
    return ' + '.join('%s%s' % ('' if c == 1 and a != 1 else c, '' if a == 1 else ('' if c == 1 else '*') + (show(a) if isinstance(a, T) else 'sum of %s' % show(a[2]))) for a, c in q.items() if c)


# ---------------------------------------------------------------- a value with everything in it

def total_fits(r, ms, p, what):
    """what p measures of a node is at least its own text and the measures of all its children"""
    f, ni, mi = ms.rec[p]
    nv = ms.nv
    node, memo = sym('arg%d' % ni), '*arg%d' % mi
    ip, outs = r.outcomes(f, opaque=dict(nv.ops, **dict(ms.plain_ops(), **ms.rec_ops({p}))), axiom=nv.axiom)
    own = set()
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        r.paths += 1
        if not only_measured(ip.cell_of(st, memo), p):
            r.fail(f, what, 'stores a width that is not the one measured for its node: %s' % clip(show(ip.cell_of(st, memo)), 300))
            continue
        q = bound(remembered(ip.snap(st, v), p))
        if q is None:
            raise NoAnswer('%s: not a sum: %s' % (p, clip(show(v), 300)))
        if q.get(mk('app', 'W', S(p), node), 0) >= 1:
            # already measured
            r.expect_true(all(c >= 0 for c in q.values()), f, what, 'measure is reduced: %s' % clip(show(v), 300))
            continue
        for s, nm in ip.fork_var(st, ip.fld(nv.kserd(node), 'Kserd', *FI(r, 'Kserd', 'val')), r.p.ty('Value')):
            for part, got in children(ip, nv, node, nm, q, p):
                r.expect_true(got, f, what, 'a %s is measured without its %s: %s' % (nm, part, clip(show(v), 300)))
        plain = [a for a in q if isinstance(a, T) and a.op == 'app' and a.a[0] == 'P' and a.a[2] is nv.kserd(node) and q[a] >= 1]
        r.expect_true(len(plain) > 0, f, what, 'a value is measured without its own text: %s' % clip(show(v), 300))
        r.expect_true(all(c >= 0 for c in q.values()), f, what, 'measure is reduced: %s' % clip(show(v), 300))
        own |= {cval(a.a[1]) for a in plain}
    return own


def children(ip, nv, node, nm, q, p):
    """(what, is it in the sum) for the children of a node of this kind"""
    def has(*ways):
        return any(q.get(('sum', src, mk('app', 'W', S(p), flat(e))), 0) >= 1 for src, e in ways)
    if nm not in VAL_FLAG:
        return
    v, vk, kk = nv.kids(node, nm), mk('app', 'vkids', node), mk('app', 'kkids', node)
    pair = nm in ('Cntr', 'Map')
    el = mk('elem', v)
    yield 'values', has((vk, mk('elem', vk)), (v, ip.fld(el, '', 1, '1') if pair else el))
    if nm == 'Map':
        yield 'keys', has((kk, mk('elem', kk)), (v, ip.fld(el, '', 0, '0')))


# ---------------------------------------------------------------- measures are never zero

def positive(ip, st, x, one):
    """x is at least 1 in st"""
    if ip.decide(st, le(I(1), x)) is True:
        return True
    k, d = lin(x)
    if any(c < 0 for c in d.values()) or k < 0:
        return False
    return k >= 1 or any(one(a) for a in d)


def rec_positive(r, ms, p, what):
    f, ni, mi = ms.rec[p]
    nv = ms.nv
    ip, outs = r.outcomes(f, opaque=dict(nv.ops, **dict(ms.plain_ops(), **ms.rec_ops({p}))), axiom=nv.axiom)
    own = set()

    def one(a):
        if a.op == 'fold':
            return ok(a.a[1]) and all(c[1] is ACC or ok(c[1]) or lin(c[1])[1].get(ACC, 0) >= 1 and all(v >= 0 for v in lin(c[1])[1].values()) and lin(c[1])[0] >= 0 for c in a.a[2])
        if a.op == 'app' and a.a[0] == 'P':
            own.add(cval(a.a[1]))
            return True
        return a.op == 'app' and a.a[0] == 'W' and a.a[1] is S(p)
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        r.paths += 1

        def ok(x, st=st):
            return positive(ip, st, remembered(x, p), one)
        if not only_measured(ip.cell_of(st, '*arg%d' % mi), p):
            r.fail(f, what, 'stores a width that is not the one measured for its node')
        r.expect_true(ok(ip.snap(st, v)), f, what, 'may measure nothing at all: %s' % clip(show(ip.snap(st, v)), 300))
    return own


def plain_positive(r, ms, p, what, seen):
    if p in seen:
        return
    seen.add(p)
    f = ms.plain[p]
    ip, outs = r.outcomes(f, opaque=ms.plain_ops(but=p))
    more = set()

    def one(a):
        if a.op == 'app' and a.a[0] == 'P':
            more.add(cval(a.a[1]))
            return True
        # the text of a number is never empty
        return a.op == 'len' and a.a[0].op == 'chars' and any(x.op == 'disp' for x in terms.walk(a.a[0].a[0]))
    for kind, st, v in outs:
        if kind == 'ret':
            r.paths += 1
            r.expect_true(positive(ip, st, ip.snap(st, v), one), f, what, 'may measure nothing at all: %s | %s' % (clip(show(ip.snap(st, v)), 200), clip(show_path(st), 200)))
    for q in more:
        plain_positive(r, ms, q, what, seen)


# ---------------------------------------------------------------- one measure for every node

def all_filled(src):
    """whatever is missing at the number of a node is put there, for every node"""
    if src.op != 'fold' or src.a[0].op != 'app' or src.a[0].a[0] != 'nodes':
        return False
    for g, v in src.a[2]:
        if v.op == 'updidx' and v.a[2].op == 'adt' and v.a[2].a[1] == 'Some':
            lone = len(g) == 1 and g[0][0].op == 'is' and g[0][0].a[0].op == 'idx' and g[0][0].a[0].a[1] is v.a[1] and (g[0][0].a[1] == 'None') == g[0][1]
            if (lone or not g) and mk('elem', src.a[0]) in set(terms.walk(v.a[1])):
                return True
    return False


def list_measure(r, ms, name, what):
    """-> the function whose measure of node i is item i of the list"""
    f = ms.lists.get(name)
    if f is None:
        raise NoAnswer('anchor %s' % name)
    nv = ms.nv
    ip, outs = r.outcomes(f, opaque=dict(nv.ops, **ms.rec_ops(ms.used_by(f))), axiom=nv.axiom)
    found = set()
    for kind, st, v in outs:
        if kind != 'ret':
            continue
        r.paths += 1
        v = ip.snap(st, v)
        ss = segs(v) if v.op == 'list' else []
        if len(ss) != 1 or ss[0].op != 'each':
            raise NoAnswer('%s: %s' % (name, clip(show(v), 300)))
        src = ss[0].a[0]
        for g, items in ss[0].a[1]:
            if any(x.op == 'is' and x.a[0] is mk('elem', src) and (x.a[1] == 'None') == pol for x, pol in g) and all_filled(src):
                continue
            if len(items) != 1 or items[0].op != 'one' or items[0].a[0] is not ip.fld(mk('elem', src), 'Some', 0, '0'):
                raise NoAnswer('%s: %s' % (name, clip(show(v), 300)))
        ps = {x.a[1] for x in terms.walk(src) if x.op == 'app' and x.a[0] == 'W'}
        if len(ps) != 1:
            raise NoAnswer('%s: %d measures' % (name, len(ps)))
        p = cval(ps.pop())
        r.expect_true(only_measured(src, p), f, what, 'lists a width that is not the one measured for its node: %s' % clip(show(src), 400))
        found.add(p)
    if len(found) != 1:
        raise NoAnswer('%s: %d measures' % (name, len(found)))
    return found.pop()


# ---------------------------------------------------------------- choosing

def bounds(facts):
    """what the facts say is at most zero"""
    for a, b in facts:
        if a.op == 'le0':
            k, d = lin(flat(a.a[0]))
            yield (k, d) if b else (1 - k, {x: -c for x, c in d.items()})


def measured(nv, x):
    """(list, node number) of a measured width"""
    if x.op in ('idx', 'nth') and x.a[0].op == 'app' and x.a[0].a[0] == 'widths':
        return cval(x.a[0].a[1]), flat(x.a[1]) if isinstance(x.a[1], T) else I(x.a[1])
    return None


def within(nv, facts, node, limit):
    """the lists whose width of the node the facts say is within the limit"""
    out = set()
    for k, d in bounds(facts):
        if k < 0 or d.get(limit, 0) < -1 or any(c < 0 for x, c in d.items() if x is not limit):
            continue
        for x, c in d.items():
            m = measured(nv, x)
            if c >= 1 and m and m[1] is node:
                out.add(m[0])
    return out


def fitting(r):
    what = 'a value is put on one line only if its text fits the width limit'
    nv = FNav(r)
    ms = Measures(r, nv)
    f = r.method('Formatter', 'apply_config')
    ip, outs = r.outcomes(f, opaque=dict(nv.ops, **dict(nv.request_op(), **width_ops(r))), axiom=nv.axiom)
    limit_opt = ip.fld(sym('arg1'), 'FormattingConfig', *FI(r, 'FormattingConfig', 'width_limit'))
    limit = ip.fld(limit_opt, 'Some', 0, '0')
    root = I(0)
    whole, some_list, asked = set(), set(), 0

    def ask(st_facts, node, q, where):
        nonlocal asked
        asked += 1
        r.obligs += 1
        if q.op != 'adt':
            raise NoAnswer('representation asked for: %s' % show(q))
        if q.a[1] == 'Verbose':
            return
        ls = within(nv, st_facts, node, limit)
        if not ls:
            r.fail(f, what, '%s is asked to be %s without its width being within the limit' % (where, q.a[1]))
        (whole if q.a[1] == 'Inline' else some_list).add(frozenset(ls))

    for kind, st, v in outs:
        if kind != 'ret':
            continue
        r.paths += 1
        some_limit = ip.decide(st, mk('is', limit_opt, 'Some'))
        if some_limit is not True:
            continue
        got = ip.cell_of(st, '*arg0')
        for l in layers(ip, nv.fmts_of(ip, sym('*arg0')), nv.fmts_of(ip, got)) or ():
            if l[0] == 'ask':
                ask(st.path, l[1], l[2], 'the whole value' if l[1] is root else 'a node')
            elif l[0] == 'walk':
                for g, o in l[2]:
                    if o.op == 'app' and o.a[0] == 'requested':
                        ask(list(g) + list(st.path), flat(o.a[2]), o.a[3], 'a nested value')
    if asked < 10:
        raise NoAnswer('representation requests: %d' % asked)
    if r.bad:
        return
    # a list that tells whether the text fits; the others have to rule out a limit of zero
    texts, seen = set(), set()
    for ls in sorted(whole, key=sorted):
        good = why = None
        for name in sorted(ls):
            p = list_measure(r, ms, name, what)
            sub = type(r)(r.p, 'X')
            try:
                own = total_fits(sub, ms, p, what)
                for q in sorted(own):
                    plain_fits(sub, ms.plain[q], what)
            except NoAnswer as e:
                why = e
                continue
            if good is None or len(sub.bad) < len(good.bad):
                good = sub
        if good is None:
            raise why
        r.fns |= good.fns
        r.paths += good.paths
        r.obligs += good.obligs
        r.bad += good.bad
    for ls in sorted(whole | some_list, key=sorted):
        for name in sorted(ls):
            p = list_measure(r, ms, name, what)
            if p in seen:
                continue
            seen.add(p)
            done = set()
            for q in sorted(rec_positive(r, ms, p, what)):
                plain_positive(r, ms, q, what, done)
    r.extra['width measures'] = len(seen)
    r.extra['representation requests under a limit'] = asked
