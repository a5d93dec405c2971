"""Rules for the formatter: the text of every representation, string delimiters, representation limits, configuration."""
from core import *
import models
import terms
import rules_parse

OPTION, RESULT = 'core::option::Option', 'core::result::Result'


def adt_inputs(f):
    r = []
    for t in f['inputs']:
        while t['k'] == 'ref':
            t = t['t']
        r.append(t['p'].split('::')[-1] if t['k'] == 'adt' else t['k'])
    return r


class Nav:
    """the navigator seen from outside: nodes, their position, value, children; its construction has its own rules"""

    def __init__(self, r):
        self.r = r
        self.NV = r.p.ty('NodeValue')
        self.V = r.p.ty('Value')
        o = self.ops = {}

        def pure(name):
            def h(ip, st, fr, args, info, t):
                return [('ret', st, mk('app', name, *[ip.snap(st, a) for a in args]))]
            return h
        for n in ('index', 'kserd', 'is_key', 'idx_in_parent', 'parent', 'nav', 'descendants_depth', 'descendants_breadth'):
            o[r.method('Node', n)['path']] = pure(n)

        def value(ip, st, fr, args, info, t):
            n = ip.snap(st, args[0])
            v = self.val(ip, n)
            return [('ret', s, self.view(n, var)) for s, var in ip.fork_var(st, v, self.V)]
        o[r.method('Node', 'value')['path']] = value
        o[r.method('Node', 'value_children')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, mk('iter', mk('app', 'vkids', ip.snap(st, args[0])), ()))]
        o[r.method('Node', 'key_children')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, mk('iter', mk('app', 'kkids', ip.snap(st, args[0])), ()))]

        def nxt(ip, st, fr, args, info, t):
            return models.next_outcomes(ip, st, fr, args[0], t)

        def length(ip, st, fr, args, info, t):
            v = ip.deref(st, args[0])
            return [('ret', st, ip.length(v.a[0] if v.op == 'iter' else v))]

        def empty(ip, st, fr, args, info, t):
            v = ip.deref(st, args[0])
            return [('ret', st, eq0(ip.length(v.a[0] if v.op == 'iter' else v)))]
        for ty in ('NodeIter', 'SeqIter', 'NamedIter', 'KeyedIter'):
            o[r.impl('Iterator', ty, 'next')['path']] = nxt
            if ty != 'NodeIter':
                o[r.method(ty, 'len')['path']] = length
                o[r.method(ty, 'is_empty')['path']] = empty
        for n in ('root', 'get', 'len', 'is_empty'):
            pass

    def kserd(self, n):
        return mk('app', 'kserd', n)

    def val(self, ip, n):
        return ip.fld(self.kserd(n), 'Kserd', *self.fidx('Kserd', 'val'))

    def ident(self, ip, n):
        return ip.fld(self.kserd(n), 'Kserd', *self.fidx('Kserd', 'id'))

    def fidx(self, ty, name):
        for j, f in enumerate(self.r.p.adts[self.r.p.ty(ty)]['v'][0]['f']):
            if f['n'] == name:
                return j, name
        raise NoAnswer('anchor %s.%s' % (ty, name))

    def kids(self, n, var):
        return mk('app', {'Tuple': 'vkids', 'Seq': 'vkids', 'Cntr': 'fields', 'Map': 'entries'}[var], n)

    def view(self, n, var):
        if var in ('Tuple', 'Seq', 'Cntr', 'Map'):
            return mk('adt', self.NV, var, mk('iter', self.kids(n, var), ()))
        return mk('adt', self.NV, 'Primitive')


def find_writers(r):
    """the writers, recognised by what they take"""
    W = {}
    fns = [f for f in r.p.j['fns'] if f['kind'] == 'Fn' and f['path'].split('::')[0] == 'fmt']
    for f in fns:
        a = adt_inputs(f)
        if a[:1] != ['String'] or f['output'].get('p', '').split('::')[-1] != 'String':
            continue
        if 'NamedIter' in a:
            k = 'cntr'
        elif 'KeyedIter' in a:
            k = 'map'
        elif 'SeqIter' in a:
            k = 'seq' if 'Option' in a else 'tuple'
        elif 'Node' in a:
            k = 'node'
        elif 'Kserd' in a:
            k = 'prim'
        else:
            continue
        W.setdefault(k, []).append(f)
    for k, names in (('cntr', 'write'), ('map', 'write'), ('seq', 'write'), ('tuple', 'write'), ('node', 'write_node'), ('prim', 'write')):
        c = W.get(k, [])
        if len(c) > 1:
            c = [f for f in c if f['path'].split('::')[-1] == names]
        if len(c) != 1:
            raise NoAnswer('anchor writer of %s: %d candidates' % (k, len(c)))
        W[k] = c[0]
    return W


def writer_ops(r, W, skip=None):
    """a nested value appends its own text; each writer is checked on its own"""
    def op(kind, fn):
        names = [adt_inputs(fn)]

        def h(ip, st, fr, args, info, t):
            a = [ip.snap(st, x) for x in args]
            return [('ret', st, mkstr((a[0], mk('app', 'W' + kind, *a[1:]))))]
        return h
    return {W[k]['path']: op(k, W[k]) for k in W if k != skip}


def in_range(t):
    """every node has a format: the list of formats is as long as the navigator (checked with the formatter)"""
    if t.op == 'le0':
        k, d = lin(t.a[0])
        if len(d) == 2 and k <= 1:
            pos = [a for a, c in d.items() if c == 1]
            neg = [a for a, c in d.items() if c == -1]
            if pos and neg and pos[0].op == 'app' and pos[0].a[0] == 'index' and neg[0] is mk('len', sym('arg2')):
                return True
    return None


INDENT = 4


def text(*ps):
    return mkstr(tuple(S(p) if isinstance(p, str) else p for p in ps))


def walk(src, *ps, cases=None):
    return mk('each', src, cases or (((), tuple(S(p) if isinstance(p, str) else p for p in ps)),))


ONELINE = S('within one line')


def joined(src, sep, *ps):
    return mk('join', src, (((), tuple(S(p) if isinstance(p, str) else p for p in ps)),), S(sep))


def spaces(n):
    return mk('each', mk('range', I(0), n), (((), (S(' '),)),))


class Texts:
    """the text of every representation, as documented"""

    def __init__(self, r):
        self.r, self.nav = r, Nav(r)
        self.W = find_writers(r)
        self.REPR, self.FMT = r.p.ty('Repr'), r.p.ty('Fmt')
        self.ops = dict(self.nav.ops)
        for k, f in self.W.items():
            self.ops[f['path']] = self.op(k)
        self.where = {k: self.places(f) for k, f in self.W.items()}

    def places(self, f):
        """which parameter plays which role"""
        d = {}
        for i, (a, t) in enumerate(zip(adt_inputs(f), f['inputs'])):
            k = {'String': 'buf', 'Node': 'node', 'Kserd': 'kserd', 'slice': 'fmts', 'SeqIter': 'kids', 'NamedIter': 'kids', 'KeyedIter': 'kids', 'Option': 'name', 'bool': 'flag',
                 'uint': 'col', 'Vec': 'fmts'}.get(a)
            if k is None or k in d:
                raise NoAnswer('anchor parameters of %s' % f['path'])
            d[k] = i
        return d

    def op(self, kind):
        def h(ip, st, fr, args, info, t):
            a = {k: ip.snap(st, args[i]) for k, i in self.where[kind].items()}
            if 'fmts' in a and a['fmts'] is not sym('arg2'):
                raise Unknown('nested value written with other formats')
            if 'node' in a and ip.decide(st, self.is_line(ip, sym('n'), 'Inline')) is True and self.W[kind] is not self.W['cntr']:
                a['col'] = ONELINE    # below an inline value everything is inline: no column is used
            w = self.nested(kind, a)
            # one block per item, the last one ending its line like the others
            tail = (S('\n'),) if kind == 'seq' and a['name'].op == 'adt' and a['name'].a[1] == 'Some' else ()
            return [('ret', st, mkstr((a['buf'], w) + tail))]
        return h

    def nested(self, kind, a):
        if 'kids' in a and a['kids'] is not mk('iter', self.nav.kids(a['node'], {'tuple': 'Tuple', 'seq': 'Seq', 'map': 'Map', 'cntr': 'Cntr'}[kind]), ()):
            raise Unknown('nested value written with other children')
        return mk('app', 'text of ' + kind, *[a[k] for k in ('node', 'kserd', 'col', 'name', 'flag') if k in a])

    def node(self, n, col):
        return self.nested('node', {'node': n, 'col': col})

    def fmt(self, ip, n):
        return mk('idx', sym('arg2'), mk('app', 'index', n))

    def line(self, ip, n):
        return ip.fld(self.fmt(ip, n), 'Fmt', *self.nav.fidx('Fmt', 'line'))

    def flag(self, ip, n):
        return ip.fld(self.fmt(ip, n), 'Fmt', *self.nav.fidx('Fmt', 'id'))

    def is_line(self, ip, n, v):
        return ip.is_(self.line(ip, n), v, self.REPR)

    def idents(self, ip, st, n):
        """-> (state, text of the identity or None when it is not shown)"""
        for s, v in ip.branch(st, self.flag(ip, n)):
            for s2, var in ip.fork_var(s, self.nav.ident(ip, n), OPTION):
                yield s2, self.idtext(ip, n) if v and var == 'Some' else None

    def idtext(self, ip, n):
        k = ip.fld(self.nav.ident(ip, n), 'Some', 0, '0')
        return ip.fld(k, 'Kstr', *self.nav.fidx('Kstr', 'inner'))

    def args(self, kind, n):
        w = self.where[kind]
        out = []
        for i in range(len(self.W[kind]['inputs'])):
            a = sym('arg%d' % i)
            if i == w.get('node'):
                a = n
            if i == w.get('kids'):
                a = mk('iter', self.nav.kids(n, {'tuple': 'Tuple', 'seq': 'Seq', 'map': 'Map', 'cntr': 'Cntr'}[kind]), ())
            if i == w.get('fmts'):
                a = sym('arg2')
            out.append(a)
        return out


def grammar(r):
    """the text of every kind of value in every representation"""
    T_ = Texts(r)
    nav = T_.nav
    n = sym('n')

    def run_(kind, body, axiom=in_range):
        w = T_.where[kind]
        get = {k: sym('arg%d' % i) for k, i in w.items()}

        def spec(ip, st):
            for s, txt in body(ip, st, get):
                yield s, None if s is None else text(get['buf'], *txt)
        r.check(T_.W[kind], spec, args=T_.args(kind, n), opaque=T_.ops, axiom=axiom, what='%s text: ' % kind)

    # -------- tuples and sequences: brackets around the children
    def listed(kind, op, cl, gap, verbose):
        def body(ip, st, a):
            kids = nav.kids(n, 'Tuple' if kind == 'tuple' else 'Seq')
            e = mk('elem', kids)
            col, inner = a['col'], ladd(a['col'], I(INDENT))
            for s, line in ip.fork_var(st, T_.line(ip, n), T_.REPR):
                named = [(s, 'None')]
                if verbose and line == 'Verbose':
                    named = ip.fork_var(s, a['name'], OPTION)
                for s1, nm in named:
                    if line == 'Verbose' and nm == 'Some':
                        name = ip.fld(a['name'], 'Some', 0, '0')
                        hd = (spaces(col), S('[['), name, S(']]\n'))
                        v = T_.is_line(ip, e, 'Verbose')
                        yield s1, (walk(kids, cases=((((v, True),), hd + (T_.node(e, inner), S('\n'))),
                                                     (((v, False),), hd + (spaces(col), T_.node(e, col), S('\n\n'))))),)
                        continue
                    for s2, idt in T_.idents(ip, s1, n):
                        pre = (idt, gap) if idt is not None else ()
                        if line == 'Inline':
                            yield s2, pre + (op, joined(kids, ', ', T_.node(e, ONELINE)), cl)
                        else:
                            yield s2, pre + (op + '\n', walk(kids, spaces(inner), T_.node(e, inner), '\n'), spaces(col), cl)
        return body

    def never_verbose(t):
        """a tuple is never given the verbose representation (checked with the formatter)"""
        if t.op == 'is' and t.a[1] == 'Verbose' and t.a[0].op == 'fld' and t.a[0].a[0] is mk('idx', sym('arg2'), mk('app', 'index', n)):
            return False
        return in_range(t)
    run_('tuple', listed('tuple', '(', ')', '', False), axiom=never_verbose)
    run_('seq', listed('seq', '[', ']', ' ', True))

    # -------- maps: key: value
    def mapped(ip, st, a):
        kids = nav.kids(n, 'Map')
        e = mk('elem', kids)
        k, v = ip.fld(e, '', 0, ''), ip.fld(e, '', 1, '')
        col, inner = a['col'], ladd(a['col'], I(INDENT))
        ki = T_.is_line(ip, k, 'Inline')

        def entry(at):
            head = (T_.node(k, at), S(': '))
            w = mk('len', mk('chars', mkstr(head)))
            return [(((ki, True),), head + (T_.node(v, ladd(at, w)), S('\n'))), (((ki, False),), head + (T_.node(v, ladd(at, I(3))), S('\n')))]
        for s, line in ip.fork_var(st, T_.line(ip, n), T_.REPR):
            for s1, nm in ip.fork_var(s, a['name'], OPTION) if line == 'Verbose' else [(s, 'None')]:
                if line == 'Verbose' and nm == 'Some':
                    hd = (spaces(col), S('[['), ip.fld(a['name'], 'Some', 0, '0'), S(']]\n'), spaces(col))
                    vv = T_.is_line(ip, v, 'Verbose')
                    cases = [(((vv, True),), hd + (T_.node(k, col), S(':\n'), T_.node(v, inner), S('\n')))]
                    cases += [(((vv, False),) + g, hd + ps) for g, ps in entry(col)]
                    yield s1, (walk(kids, cases=tuple(cases)),)
                    continue
                for s2, idt in T_.idents(ip, s1, n):
                    pre = (idt, ' ') if idt is not None else ()
                    if line == 'Inline':
                        for s3, none in ip.branch(s2, eq0(ip.length(kids))):
                            yield s3, pre + (('{}',) if none else ('{ ', joined(kids, ', ', T_.node(k, ONELINE), ': ', T_.node(v, ONELINE)), ' }'))
                    else:
                        yield s2, pre + ('{\n', walk(kids, cases=tuple((g, (spaces(inner),) + ps) for g, ps in entry(inner))), spaces(col), '}')
    run_('map', mapped)

    # -------- containers: name = value
    def fields(ip, st, a):
        kids = nav.kids(n, 'Cntr')
        e = mk('elem', kids)
        name, v = ip.fld(ip.fld(e, '', 0, ''), 'Kstr', *nav.fidx('Kstr', 'inner')), ip.fld(e, '', 1, '')
        col, inner = a['col'], ladd(a['col'], I(INDENT))

        def entry(at):
            return (name, S(' = '), T_.node(v, ladd(at, mk('len', mk('chars', mkstr((name, S(' = '))))))))
        for s, line in ip.fork_var(st, T_.line(ip, n), T_.REPR):
            for s2, idt in T_.idents(ip, s, n):
                pre = (idt, ' ') if idt is not None else ()
                if line == 'Inline':
                    yield s2, pre + ('(', joined(kids, ', ', name, ' = ', T_.node(v, ONELINE)), ')')
                elif line == 'Concise':
                    yield s2, pre + ('(\n', walk(kids, spaces(inner), *entry(inner), '\n'), spaces(col), ')')
                else:
                    for s3, shown in ip.branch(s2, a['flag']):
                        head = (spaces(col), ':', idt, '\n') if shown and idt is not None else ()
                        vv = T_.is_line(ip, v, 'Verbose')
                        val, V = nav.val(ip, v), nav.V
                        fid = T_.flag(ip, v)
                        some = ip.is_(nav.ident(ip, v), 'Some', OPTION)
                        sub = T_.nested('cntr', {'node': v, 'col': inner, 'flag': FALSE, 'kids': mk('iter', nav.kids(v, 'Cntr'), ())})
                        nm = mk('adt', OPTION, 'Some', name)
                        cs = []
                        plain = (spaces(col),) + entry(col) + (S('\n'),)
                        cs.append((((vv, False),), plain))
                        for var in ('Unit', 'Bool', 'Num', 'Str', 'Barr', 'Tuple'):
                            cs.append((((vv, True), (ip.is_(val, var, V), True)), plain))
                        c = ((vv, True), (ip.is_(val, 'Cntr', V), True))
                        op = (S('\n'), spaces(col), S('['), name)
                        cs.append((c + ((fid, True), (some, True)), op + (S(':'), T_.idtext(ip, v), S(']\n'), sub)))
                        cs.append((c + ((fid, True), (some, False)), op + (S(']\n'), sub)))
                        cs.append((c + ((fid, False),), op + (S(']\n'), sub)))
                        cs.append((((vv, True), (ip.is_(val, 'Seq', V), True)), (S('\n'), T_.nested('seq', {'node': v, 'col': col, 'name': nm}))))
                        cs.append((((vv, True), (ip.is_(val, 'Map', V), True)), (S('\n'), T_.nested('map', {'node': v, 'col': col, 'name': nm}))))
                        yield s3, head + (walk(kids, cases=tuple(cs)),)
    run_('cntr', fields)

    # -------- any value: by its kind
    def anyv(ip, st, a):
        for s, var in ip.fork_var(st, nav.val(ip, n), nav.V):
            kids = mk('iter', nav.kids(n, var), ()) if var in ('Tuple', 'Seq', 'Map', 'Cntr') else None
            none = mk('adt', OPTION, 'None')
            x = {'node': n, 'col': a['col'], 'kids': kids}
            if var == 'Tuple':
                yield s, (T_.nested('tuple', x),)
            elif var == 'Seq':
                yield s, (T_.nested('seq', dict(x, name=none)),)
            elif var == 'Map':
                yield s, (T_.nested('map', dict(x, name=none)),)
            elif var == 'Cntr':
                yield s, (T_.nested('cntr', dict(x, flag=TRUE)),)
            else:
                yield s, (T_.nested('prim', {'kserd': nav.kserd(n), 'flag': T_.flag(ip, n)}),)
    run_('node', anyv)

    # -------- whole values
    FR = r.p.ty('Formatter')
    wstr = r.method('Formatter', 'write_string')
    rootf = r.method('Navigator', 'root')
    ops = dict(T_.ops)

    def root(ip, st, fr, args, info, t):
        return [('ret', st, mk('app', 'root', ip.snap(st, args[0])))]
    ops[rootf['path']] = root

    def first(ip, st, fr, args, info, t):
        # a navigator always has its root, at 0
        if args[1] is I(0):
            return [('ret', st, some(mk('app', 'root', ip.snap(st, args[0]))))]
        return NotImplemented
    ops[r.method('Navigator', 'get')['path']] = first

    def top(ip, st, fr, args, info, t):
        a = {k: ip.snap(st, args[i]) for k, i in T_.where['node'].items()}
        return [('ret', st, text(a['buf'], mk('app', 'text of the node', a['node'], a['fmts'], a['col'])))]
    ops[T_.W['node']['path']] = top

    def whole(ip, st, fm, buf):
        g = lambda nm: ip.fld(fm, 'Formatter', *nav.fidx('Formatter', nm))
        return text(buf, mk('app', 'text of the node', mk('app', 'root', g('nav')), g('fmts'), I(0)))

    def spec_ws(ip, st):
        yield st, whole(ip, st, sym('arg0'), sym('arg1'))
    r.check(wstr, spec_ws, opaque=ops, what='write: ')

    ops2 = {}

    def pure(name):
        def h(ip, st, fr, args, info, t):
            return [('ret', st, mk('app', name, *[ip.snap(st, a) for a in args]))]
        return h
    ops2[r.method('Formatter', 'new')['path']] = pure('formatter of')

    def configured(ip, st, fr, args, info, t):
        v = ip.deref(st, args[0])
        st = st.fork()
        ip.put(st, args[0].a[0], args[0].a[1], mk('app', 'configured', v, ip.snap(st, args[1])))
        return [('ret', st, args[0])]
    ops2[r.method('Formatter', 'apply_config')['path']] = configured

    def ws(ip, st, fr, args, info, t):
        return [('ret', st, text(ip.snap(st, args[1]), mk('app', 'text of', ip.snap(st, args[0]))))]
    ops2[wstr['path']] = ws

    def conf(k, c):
        return mk('app', 'text of', mk('app', 'configured', mk('app', 'formatter of', k), c))
    r.check(r.method('Kserd', 'as_str_with_config'), lambda ip, st: [(st, conf(sym('arg0'), sym('arg1')))], opaque=ops2, what='with a configuration: ')
    dflt = r.impl('Default', 'FormattingConfig', 'default')
    ops3 = dict(ops2)
    ops3[dflt['path']] = lambda ip, st, fr, args, info, t: [('ret', st, mk('app', 'default configuration'))]
    want = conf(sym('arg0'), mk('app', 'default configuration'))
    r.check(r.method('Kserd', 'as_str'), lambda ip, st: [(st, want)], opaque=ops3, what='default text: ')
    disp = r.impl('Display', 'Kserd', 'fmt')
    r.check(disp, lambda ip, st: [(st, {'ret': mk('adt', RESULT, 'Ok', UNIT), '*arg1': want})], opaque=ops3, what='display: ')


def primitives(r):
    """the text of primitive values; the delimiter of a string never occurs in it"""
    T_ = Texts(r)
    nav = T_.nav
    f = T_.W['prim']
    w = T_.where['prim']
    buf, k, flag = (sym('arg%d' % w[x]) for x in ('buf', 'kserd', 'flag'))
    V, NUM = nav.V, r.p.ty('Number')

    def prim_axiom(t):
        # only primitive values get here (the dispatch is checked with the grammar)
        if t.op == 'is' and t.a[1] in ('Tuple', 'Cntr', 'Seq', 'Map') and t.a[2] == V:
            return False
        return None

    def spec(ip, st):
        val = ip.fld(k, 'Kserd', *nav.fidx('Kserd', 'val'))
        ident = ip.fld(k, 'Kserd', *nav.fidx('Kserd', 'id'))
        for s, var in ip.fork_var(st, val, V):
            if var not in ('Unit', 'Bool', 'Num', 'Str', 'Barr'):
                continue
            for s1, i in ip.fork_var(s, ident, OPTION):
                idt = ip.fld(ip.fld(ident, 'Some', 0, '0'), 'Kstr', *nav.fidx('Kstr', 'inner'))
                p = ip.fld(val, var, 0, '0')
                if var == 'Unit':
                    yield s1, text(buf, idt, '()') if i == 'Some' and ip.decide(s1, eq0(ip.length(idt))) is not True else text(buf, '()')
                    continue
                for s2, on in ip.branch(s1, flag):
                    pre = (buf, '<', idt, '> ') if on and i == 'Some' else (buf,)
                    if var == 'Bool':
                        yield s2, text(*pre, mk('disp', 'bool', p))
                    elif var == 'Num':
                        for s3, n in ip.fork_var(s2, p, NUM):
                            yield s3, text(*pre, mk('disp', {'Uint': 'u128', 'Int': 'i128', 'Float': 'f64'}[n], ip.fld(p, n, 0, '0')))
                    elif var == 'Barr':
                        b = mk('app', 'base91', ip.fld(p, 'Barr', *nav.fidx('Barr', 'inner')))
                        yield s2, text(*pre, "b91'", walk(b, mk('chr', mk('elem', b))), "'")
                    else:
                        yield s2, quoted(pre, ip.fld(p, 'Kstr', *nav.fidx('Kstr', 'inner')))

    def no_delimiter(ip, st, v):
        """only a text using up every delimiter has no form"""
        return any(b is False and a.op == 'any' and a.a[0].op == 'chrange' and a.a[0].a[0].size() > 100000 for a, b in st.path)
    r.check(f, spec, opaque={}, axiom=prim_axiom, panics=no_delimiter, what='primitive text: ')


def quoted(pre, val):
    def ok(ip, st, got):
        ps = chop(ip, st, (got,))
        hd = chop(ip, st, (text(*pre),))
        if len(ps) < len(hd) + 3 or not all(same(ip, st, a, b) for a, b in zip(ps, hd)):
            return False
        ps = ps[len(hd):]
        if ps[:3] == [S('s'), S('t'), S('r')] and len(ps) == 6:
            ps = ps[3:]
            if not distinct(ip, st, ps[0]):
                return False
        elif ps[0] is not S('"'):
            return False
        if len(ps) != 3 or not same(ip, st, ps[0], ps[2]) or not same(ip, st, ps[1], val):
            return False
        return absent(ip, st, val, ps[0])
    ok.__doc__ = 'the text between two delimiters that do not occur in it and cannot be taken for part of a name, an assignment or an opening'
    return ok


CONFUSED = rules_parse.NAME | rules_parse.MULTI | cs_of('=([{')


def distinct(ip, st, d):
    """after str, the delimiter reads as nothing else"""
    if isconst(d, 'str'):
        return cval(d) not in CONFUSED
    return d.op == 'chr' and ip.decide(st, inset(d.a[0], CONFUSED)) is False


def absent(ip, st, val, d):
    """on this path the delimiter does not occur in the text"""
    cs = mk('chars', val)
    if isconst(d, 'str'):
        return ip.decide(st, mk('anych', cs, cs_of(cval(d)))) is False
    if d.op != 'chr':
        return False
    for a, b in st.path:
        if b is False and a.op == 'any' and a.a[0] is cs and len(a.a[1]) == 1:
            g, pol = a.a[1][0]
            if pol and g.op == 'eqs' and set(g.a[:2]) == {mk('elem', cs), d.a[0]}:
                return True
    return False


REPRS = ('Inline', 'Concise', 'Verbose')


def low(a, b):
    return REPRS[min(REPRS.index(a), REPRS.index(b))]


def flat(t):
    """an element of a list that holds one thing per element of another collection is that thing"""
    if not isinstance(t, T):
        return t
    m = {}
    for x in terms.walk(t):
        if x.op == 'elem' and x.a[0].op == 'list':
            ss = segs(x.a[0])
            if len(ss) == 1 and ss[0].op == 'each' and len(ss[0].a[1]) == 1 and ss[0].a[1][0][0] == () and len(ss[0].a[1][0][1]) == 1:
                it = ss[0].a[1][0][1][0]
                if it.op == 'one':
                    m[x] = flat(it.a[0])
        if x.op == 'app' and x.a[0] == 'node':
            if x.a[2] is mk('pos', mk('app', 'nodes', x.a[1])):
                m[x] = mk('elem', x.a[2].a[0])
            elif x.a[2].op == 'app' and x.a[2].a[0] == 'index':
                m[x] = flat(x.a[2].a[1])
    return flat(subst(t, m)) if m else t


class FNav(Nav):
    """the navigator as the formatter sees it: node i of the list, its parent and descendants"""

    def __init__(self, r):
        Nav.__init__(self, r)
        self.F, self.FMT, self.REPR = r.p.ty('Formatter'), r.p.ty('Fmt'), r.p.ty('Repr')
        self.ERR, self.CFG = r.p.ty('FmtError'), r.p.ty('FormattingConfig')
        self.nav_at, self.fmts_at = self.fidx('Formatter', 'nav'), self.fidx('Formatter', 'fmts')
        self.id_at, self.line_at = self.fidx('Fmt', 'id'), self.fidx('Fmt', 'line')
        o = self.ops

        def get(ip, st, fr, args, info, t):
            nv, i = ip.snap(st, args[0]), ip.snap(st, args[1])
            out = []
            for s, b in ip.branch(st, lt(i, self.count(nv))):
                if b and nv.op == 'fld' and nv.a[2] == self.nav_at[1]:
                    s = ip.assume(s, lt(i, mk('len', ip.fld(nv.a[0], 'Formatter', *self.fmts_at))), True)
                if s is not None:
                    out.append(('ret', s, some(self.at(nv, i)) if b else mk('adt', OPTION, 'None')))
            return out
        o[r.method('Navigator', 'get')['path']] = get
        o[r.method('Navigator', 'new')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, mk('app', 'navigator', ip.snap(st, args[0])))]
        o[r.method('Navigator', 'root')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, self.at(ip.snap(st, args[0]), I(0)))]
        o[r.method('Navigator', 'len')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, self.count(ip.snap(st, args[0])))]
        o[r.method('Navigator', 'nodes')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, mk('iter', self.nodes(ip.snap(st, args[0])), ()))]
        o[r.method('Node', 'index')['path']] = lambda ip, st, fr, args, info, t: [('ret', st, self.index(ip.snap(st, args[0])))]

    def nodes(self, nv):
        return mk('app', 'nodes', nv)

    def at(self, nv, i):
        i = flat(i)
        if i.op == 'app' and i.a[0] == 'index':
            return i.a[1]
        if i is mk('pos', self.nodes(nv)):
            return mk('elem', self.nodes(nv))
        return mk('app', 'node', nv, i)

    def count(self, nv):
        return mk('len', self.nodes(nv))

    def index(self, n):
        n = flat(n)
        if n.op == 'app' and n.a[0] == 'node':
            return n.a[2]
        return mk('app', 'index', n)

    def number(self, i):
        """i is the number of some node"""
        i = flat(i)
        return i.op == 'app' and i.a[0] == 'index' or i.op == 'pos' and i.a[0].op == 'app' and i.a[0].a[0] == 'nodes'

    def axiom(self, t):
        """node numbers are below the length of every list with one item per node; a descendant has a parent"""
        if t.op == 'le0':
            k, d = lin(t.a[0])
            pos = [a for a, c in d.items() if c == 1]
            neg = [a for a, c in d.items() if c == -1]
            if len(d) == 2 and k <= 1 and pos and neg and neg[0].op == 'len' and self.number(pos[0]):
                return True
            if len(d) == 1 and k <= 1 and neg and neg[0].op == 'len' and self.pernode(neg[0].a[0]):
                return True
        if t.op == 'is' and t.a[0].op == 'app' and t.a[0].a[0] == 'parent':
            n = flat(t.a[0].a[1])
            if n.op == 'elem' and n.a[0].op == 'app' and n.a[0].a[0].startswith('descendants'):
                return t.a[1] == 'Some'
        return None

    def pernode(self, l):
        """a list with one item per node, of which there is at least the root"""
        if l.op == 'fld':
            return l.a[2] == self.fmts_at[1]
        if l.op == 'app':
            return l.a[0] in ('requested', 'nodes', 'widths')
        return l.op in ('fold', 'updidx') and self.pernode(l.a[1] if l.op == 'fold' else l.a[0])

    # ---- formats
    def repr(self, v):
        return mk('adt', self.REPR, v)

    def fmt(self, i, l):
        a = [None, None]
        a[self.id_at[0]], a[self.line_at[0]] = i, l
        return mk('adt', self.FMT, 'Fmt', *a)

    def fmtr(self, nav, fmts):
        a = [None, None]
        a[self.nav_at[0]], a[self.fmts_at[0]] = nav, fmts
        return mk('adt', self.F, 'Formatter', *a)

    def nav_of(self, ip, f):
        return ip.fld(f, 'Formatter', *self.nav_at)

    def fmts_of(self, ip, f):
        return ip.fld(f, 'Formatter', *self.fmts_at)

    def id_of(self, ip, l, i):
        return ip.fld(ip.idx(l, i), 'Fmt', *self.id_at)

    def line_of(self, ip, l, i):
        return ip.fld(ip.idx(l, i), 'Fmt', *self.line_at)

    def error(self, v, *a):
        return err(mk('adt', self.ERR, v, *a))

    def limit(self, ip, st, n):
        """(state, kind, most spread-out representation of the node by itself)"""
        for s, var in ip.fork_var(st, self.val(ip, n), self.V):
            if var not in ('Tuple', 'Cntr', 'Seq', 'Map'):
                yield s, var, 'Inline'
                continue
            for s2, empty in ip.branch(s, eq0(ip.length(self.kids(n, var)))):
                if empty:
                    yield s2, var, 'Inline'
                    continue
                top = 'Concise' if var == 'Tuple' else 'Verbose'
                for s3, key in ip.branch(s2, mk('app', 'is_key', n)):
                    yield s3, var, low(top, 'Concise') if key else top

    def request_op(self):
        def h(ip, st, fr, args, info, t):
            f, i, q = (ip.snap(st, a) for a in args)
            new = self.fmtr(self.nav_of(ip, f), mk('app', 'requested', self.fmts_of(ip, f), flat(i), q))
            ip.put(st, args[0].a[0], args[0].a[1], new)
            return [('ret', st, mk('app', 'answer', f, flat(i), q))]
        return {self.r.method('Formatter', 'request_repr_alteration')['path']: h}


def over_acc(ip, case, init):
    """a case of a loop in terms of the list before its step"""
    m = {x: sym('acc') for g, _ in case[0] for x in terms.walk(g) if x.op == 'lv' and ip.lvinit.get(x) is init}
    return [(flat(subst(g, m)), pol) for g, pol in case[0]], flat(subst(case[1], m))


def layers(ip, base, x):
    """the writes that turn the list base into x, in order"""
    if x is base:
        return []
    if x.op == 'updidx':
        l = layers(ip, base, x.a[0])
        return None if l is None else l + [('set', flat(x.a[1]), x.a[2], x.a[0])]
    if x.op == 'fold':
        l = layers(ip, base, x.a[1])
        return None if l is None else l + [('walk',) + by_case(flat_src(x.a[0]), [over_acc(ip, c, x.a[1]) for c in x.a[2]])]
    if x.op == 'app' and x.a[0] == 'requested':
        l = layers(ip, base, x.a[1])
        return None if l is None else l + [('ask', flat(x.a[2]), x.a[3])]
    return None


def by_case(src, cases):
    """a walk over a list that holds one thing per element of another collection is a walk over that collection"""
    ss = segs(src) if src.op == 'list' else ()
    if len(ss) != 1 or ss[0].op != 'each' or any(len(o) != 1 or o[0].op != 'one' for _, o in ss[0].a[1]):
        return src, cases
    base, out = ss[0].a[0], []
    for g, o in ss[0].a[1]:
        m = {mk('elem', src): o[0].a[0], mk('pos', src): mk('pos', base)}
        for guard, v in cases:
            out.append((list(g) + [(subst(a, m), p) for a, p in guard], subst(v, m)))
    return base, out


def flat_src(src):
    e = flat(mk('elem', src))
    if e.op == 'elem':
        return e.a[0]
    if e.op == 'app' and e.a[0] == 'index' and e.a[1].op == 'elem':
        return e.a[1].a[0]
    return src


ACC = sym('acc')


def lines_after(nv, ip, st, i, q, case):
    """(state, representation before, after) of node i through one step that only writes that node's line; None: it does something else"""
    for cur in REPRS:
        s = ip.set_var(st, nv.line_of(ip, ACC, i), cur, nv.REPR)
        s = s and under(ip, s, case[0])
        if s is None:
            continue
        out = case[1]
        if out is ACC:
            yield cur, cur
        elif out.op == 'updidx' and out.a[0] is ACC and flat(out.a[1]) is i:
            l = ip.fld(out.a[2], 'Fmt', *nv.line_at)
            if not same(ip, s, ip.fld(out.a[2], 'Fmt', *nv.id_at), nv.id_of(ip, ACC, i)):
                yield cur, None
            elif l.op == 'adt':
                yield cur, l.a[1]
            else:
                got = [v for v in REPRS if ip.set_var(s, l, v, nv.REPR) is not None]
                yield cur, got[0] if len(got) == 1 else None
        else:
            yield cur, None


def lowered(nv, base, i, n, q):
    def f(ip, st, got):
        """the node at the requested representation, every descendant no higher, nothing else changed"""
        if not same(ip, st, nv.nav_of(ip, got), nv.nav_of(ip, base)):
            return False
        fm = nv.fmts_of(ip, base)
        ls = layers(ip, fm, nv.fmts_of(ip, got))
        if ls is None:
            return False
        sets = [l for l in ls if l[0] == 'set']
        walks = [l for l in ls if l[0] == 'walk']
        if len(sets) + len(walks) != len(ls) or len(sets) != 1 or sets[0][1] is not i:
            return False
        v = sets[0][2]
        ids = {nv.id_of(ip, fm, i), nv.id_of(ip, sets[0][3], i)}
        if ip.fld(v, 'Fmt', *nv.id_at) not in ids or not same(ip, st, ip.fld(v, 'Fmt', *nv.line_at), nv.repr(q)):
            return False
        done = q == 'Verbose'
        for _, src, cases in walks:
            if src not in (mk('app', 'descendants_depth', n), mk('app', 'descendants_breadth', n)):
                return False
            j = nv.index(mk('elem', src))
            seen = set()
            for c in cases:
                for cur, new in lines_after(nv, ip, st, j, q, c):
                    if new != low(cur, q):
                        return False
                    seen.add(cur)
            if seen != set(REPRS):
                return False
            done = True
        return done
    return f


def request_spec(nv):
    def spec(ip, st):
        f, i, q = sym('*arg0'), sym('arg1'), sym('arg2')
        nav, fm = nv.nav_of(ip, f), nv.fmts_of(ip, f)
        n = nv.at(nav, i)
        keep = {'*arg0': f}
        for s, inside in ip.branch(st, lt(i, nv.count(nav))):
            if not inside:
                yield s, dict(keep, ret=nv.error('IdxOutOfBounds'))
                continue
            s = ip.assume(s, lt(i, mk('len', fm)), True)
            if s is None:
                continue
            for s, want in ip.fork_var(s, q, nv.REPR):
                for s1, cur in ip.fork_var(s, nv.line_of(ip, fm, i), nv.REPR):
                    if want == cur:
                        yield s1, dict(keep, ret=ok(mk('tup')))
                        continue
                    for s2, kind, top in nv.limit(ip, s1, n):
                        for s3, root in ip.branch(s2, eq0(i)):
                            if root and want == 'Verbose' and kind in ('Seq', 'Map'):
                                yield s3, dict(keep, ret=nv.error('SeqMapAtRoot'))
                            elif REPRS.index(want) > REPRS.index(top):
                                yield s3, dict(keep, ret=nv.error('RequestTooHigh', S(top.lower()), S(want.lower())))
                            else:
                                for s4, p in ip.fork_var(s3, mk('app', 'parent', n), OPTION):
                                    if p == 'None':
                                        yield s4, {'ret': ok(mk('tup')), '*arg0': lowered(nv, f, i, n, want)}
                                        continue
                                    pl = nv.line_of(ip, fm, nv.index(ip.fld(mk('app', 'parent', n), 'Some', 0, '0')))
                                    for s5, pr in ip.fork_var(s4, pl, nv.REPR):
                                        if REPRS.index(want) > REPRS.index(pr):
                                            yield s5, dict(keep, ret=nv.error('ParentIs' + pr))
                                        else:
                                            yield s5, {'ret': ok(mk('tup')), '*arg0': lowered(nv, f, i, n, want)}
    return spec


def starts(nv):
    def f(ip, st, got):
        """every node at its own limit, identities shown, then lowered to its parent's representation in order"""
        nav = mk('app', 'navigator', sym('arg0'))
        if not same(ip, st, nv.nav_of(ip, got), nav):
            return False
        fm = nv.fmts_of(ip, got)
        base = fm
        while base.op in ('fold', 'app'):
            base = base.a[1]
        ls = layers(ip, base, fm)
        nodes = nv.nodes(nav)
        el = mk('elem', nodes)
        ss = segs(base) if base.op == 'list' else []
        if ls is None or len(ss) != 1 or seg_cases(ss[0]) is None or flat_src(seg_cases(ss[0])[0]) is not nodes:
            return False
        for guard, items in seg_cases(ss[0])[1]:
            s = under(ip, st, [(flat(g), p) for g, p in guard])
            if s is None:
                continue
            for s2, kind, top in nv.limit(ip, s, el):
                if len(items) != 1 or items[0].op != 'one' or not same(ip, s2, flat(items[0].a[0]), nv.fmt(B(True), nv.repr(top))):
                    return False
        root = nv.at(nav, I(0))
        asked = [l for l in ls if l[0] == 'ask']
        for s, kind in ip.fork_var(st, nv.val(ip, root), nv.V):
            if [(l[1], l[2]) for l in asked] != ([(I(0), nv.repr('Concise'))] if kind in ('Seq', 'Map') else []):
                return False
        walks = [l for l in ls if l[0] == 'walk']
        if len(walks) != 1 or len(walks) + len(asked) != len(ls) or ls[-1][0] != 'walk' or walks[0][1] is not nodes:
            return False
        par = mk('app', 'parent', el)
        seen = set()
        for guard, out in walks[0][2]:
            for s, p in ip.fork_var(st, par, OPTION):
                if p == 'None':
                    if under(ip, s, guard) is not None:
                        seen.add(None)
                        if out is not ACC:
                            return False
                    continue
                mine = {nv.line_of(ip, ACC, i): i for i in (nv.index(el), mk('pos', nodes))}
                pl = nv.line_of(ip, ACC, nv.index(ip.fld(par, 'Some', 0, '0')))
                for cur in REPRS:
                    for up in REPRS:
                        s2 = s
                        for m in list(mine) + [pl]:
                            s2 = s2 and ip.set_var(s2, m, up if m is pl else cur, nv.REPR)
                        s2 = s2 and under(ip, s2, guard)
                        if s2 is None:
                            continue
                        seen.add((cur, up))
                        if out is ACC:
                            new = cur
                        elif out.op == 'app' and out.a[0] == 'requested' and out.a[1] is ACC and flat(out.a[2]) in mine.values():
                            l = out.a[3]
                            new = l.a[1] if l.op == 'adt' else up if l is pl else cur if l in mine else None
                        elif out.op == 'updidx' and out.a[0] is ACC and flat(out.a[1]) in mine.values():
                            l = ip.fld(out.a[2], 'Fmt', *nv.line_at)
                            new = l.a[1] if l.op == 'adt' else up if l is pl else cur if l in mine else None
                            if not same(ip, s2, ip.fld(out.a[2], 'Fmt', *nv.id_at), nv.id_of(ip, ACC, flat(out.a[1]))):
                                new = None
                        else:
                            new = None
                        if new != low(cur, up):
                            return False
        return len(seen) == 10
    return f


def representation(r):
    nv = FNav(r)
    ax = nv.axiom
    req = r.method('Formatter', 'request_repr_alteration')
    r.check(req, request_spec(nv), opaque=nv.ops, axiom=ax)
    ops = dict(nv.ops, **nv.request_op())
    f = sym('*arg0')
    for name in REPRS:
        def spec(ip, st, name=name):
            q = nv.repr(name)
            yield st, {'ret': mk('app', 'answer', f, sym('arg1'), q), '*arg0': nv.fmtr(nv.nav_of(ip, f), mk('app', 'requested', nv.fmts_of(ip, f), sym('arg1'), q))}
        r.check(r.method('Formatter', name.lower()), spec, opaque=ops, axiom=ax)
    r.check(r.method('Formatter', 'new'), lambda ip, st: [(st, starts(nv))], opaque=ops, axiom=ax)
    r.check(r.method('Formatter', 'fmts'), lambda ip, st: [(st, nv.fmts_of(ip, sym('arg0')))], opaque=ops)
    for tr, m in (('AsRef', 'as_ref'), ('Deref', 'deref')):
        r.check(r.impl(tr, 'Formatter', m), lambda ip, st: [(st, nv.nav_of(ip, sym('arg0')))], opaque=ops)
    # nothing else changes a formatter: whatever takes one mutably was analysed above or only goes through it
    r.outcomes(r.method('Formatter', 'id'), opaque=ops)
    r.outcomes(r.method('Formatter', 'apply_config'), opaque=dict(ops, **width_ops(r)), axiom=ax)
    for g in r.p.j['fns']:
        if any(t['k'] == 'ref' and t.get('m') and t['t'].get('p') == nv.F for t in g.get('inputs', ())):
            r.expect_true(g['path'] in r.fns, g, 'changes a formatter outside the checked functions')
    for v in r.p.adts[nv.F]['v']:
        for x in v['f']:
            r.expect_true(not x.get('pub', False), req, 'the formatter field %s is not private' % x['n'])


FLAG = {'Tuple': 'id_on_tuples', 'Cntr': 'id_on_containers', 'Seq': 'id_on_seqs', 'Map': 'id_on_maps'}


def width_ops(r):
    """measured widths: any numbers, one per node; they decide layout only"""
    o = {}
    for f in r.p.j['fns']:
        out = f.get('output') or {}
        vec = out.get('p', '').split('::')[-1] == 'Vec' and [a.get('k') for a in out.get('a', [])][:1] == ['uint']
        if f['path'].split('::')[0] != 'fmt' or f['kind'] != 'Fn' or not (vec or out.get('k') == 'uint') or any(t['k'] == 'ref' and t.get('m') for t in f.get('inputs', ())):
            continue

        def h(ip, st, fr, args, info, t, vec=vec, name=f['path'].split('::')[-1]):
            return [('ret', st, mk('app', 'widths' if vec else 'width', S(name), *[ip.snap(st, a) for a in args]))]
        o[f['path']] = h
    return o


def configured(nv):
    def f(ip, st, got):
        """the identity flag of every node is that of its kind; afterwards only representation requests, the first for the root"""
        base, cfg = sym('*arg0'), sym('arg1')
        if not same(ip, st, nv.nav_of(ip, got), nv.nav_of(ip, base)):
            return False
        fm = nv.fmts_of(ip, base)
        ls = layers(ip, fm, nv.fmts_of(ip, got))
        if not ls:
            return False
        nodes = nv.nodes(nv.nav_of(ip, base))
        el = mk('elem', nodes)
        mine = (mk('pos', nodes), nv.index(el))
        flags, asked, root_first = 0, [], None
        for l in ls:
            if l[0] == 'set':
                return False
            if l[0] == 'ask':
                asked.append((l[1], l[2]))
                continue
            asks = [o for _, o in l[2] if o.op == 'app' and o.a[0] == 'requested']
            if asks:
                for _, o in l[2]:
                    if o is ACC:
                        continue
                    if o.op != 'app' or o.a[0] != 'requested' or o.a[1] is not ACC:
                        return False
                    asked.append((flat(o.a[2]), o.a[3]))
                continue
            if l[1] is not nodes:
                return False
            flags += 1
            seen = set()
            for guard, o in l[2]:
                s = under(ip, st, guard)
                if s is None:
                    continue
                if o.op != 'updidx' or o.a[0] is not ACC or flat(o.a[1]) not in mine:
                    return False
                i = o.a[1]
                if not same(ip, s, ip.fld(o.a[2], 'Fmt', *nv.line_at), nv.line_of(ip, ACC, i)):
                    return False
                for s2, kind in ip.fork_var(s, nv.val(ip, el), nv.V):
                    seen.add(kind)
                    want = ip.fld(cfg, 'FormattingConfig', *nv.fidx('FormattingConfig', FLAG.get(kind, 'id_on_primitives')))
                    if not same(ip, s2, ip.fld(o.a[2], 'Fmt', *nv.id_at), want):
                        return False
            if len(seen) != 9:
                return False
        if flags != 1:
            return False
        for s, lim in ip.fork_var(st, ip.fld(cfg, 'FormattingConfig', *nv.fidx('FormattingConfig', 'width_limit')), OPTION):
            if lim == 'None':
                if not asked or asked[0][0] is not I(0) or not same(ip, s, asked[0][1], nv.repr('Inline')):
                    return False
                if any(not (i.op == 'app' and i.a[0] == 'index' and i.a[1].op == 'elem' and i.a[1].a[0].op == 'app' and i.a[1].a[0].a[0].startswith('descendants')) for i, _ in asked[1:]):
                    return False
        return True
    return f


def configuration(r):
    nv = FNav(r)
    f = sym('*arg0')
    ops = dict(nv.ops, **nv.request_op())

    def flag(ip, st):
        fm, i = nv.fmts_of(ip, f), sym('arg1')
        for s, b in ip.branch(st, lt(i, ip.length(fm))):
            if b:
                yield s, {'ret': ok(mk('tup')), '*arg0': nv.fmtr(nv.nav_of(ip, f), mk('updidx', fm, i, nv.fmt(sym('arg2'), nv.line_of(ip, fm, i))))}
            else:
                yield s, {'ret': nv.error('IdxOutOfBounds'), '*arg0': f}
    r.check(r.method('Formatter', 'id'), flag, opaque=ops)

    def back(ip, st, got):
        """the formatter itself"""
        return same(ip, st, ip.snap(st, got), ip.cell_of(st, '*arg0'))
    r.check(r.method('Formatter', 'apply_config'), lambda ip, st: [(st, {'ret': back, '*arg0': configured(nv)})],
            opaque=dict(ops, **width_ops(r)), axiom=nv.axiom)

    def default(ip, st):
        a = []
        for x in r.p.adts[nv.CFG]['v'][0]['f']:
            a.append({'id_on_primitives': B(False), 'id_on_tuples': B(True), 'id_on_containers': B(True), 'id_on_seqs': B(False), 'id_on_maps': B(False),
                      'width_limit': some(I(60))}[x['n']])
        yield st, mk('adt', nv.CFG, 'FormattingConfig', *a)
    r.check(r.impl('Default', 'FormattingConfig', 'default'), default)


def filled(nv, ip, lst):
    """every slot of the list holds a value: it starts empty and the walk over all nodes fills each node's slot, writing nothing but values"""
    base = lst
    while base.op in ('fold', 'updidx'):
        base = base.a[1] if base.op == 'fold' else base.a[0]
    ls = layers(ip, base, lst)
    if ls is None or not any(l[0] == 'walk' for l in ls):
        return False

    def writes(x, last=None):
        """only values are written on the way from the list before the step"""
        if x is ACC:
            return True
        if x.op == 'updidx':
            return x.a[2].op == 'adt' and x.a[2].a[1] == 'Some' and writes(x.a[0])
        if x.op == 'eff':
            return writes(x.a[x.a[1] + 2])
        if x.op == 'fold':
            return writes(x.a[1]) and all(writes(c[1]) for c in x.a[2])
        return False
    for l in ls:
        if l[0] != 'walk':
            return False
        src = l[1]
        if not (src.op == 'app' and src.a[0] == 'nodes'):
            return False
        mine = (nv.index(mk('elem', src)), mk('pos', src))
        for guard, out in l[2]:
            if not writes(out):
                return False
            if out.op == 'updidx' and flat(out.a[1]) in mine:
                continue
            if any(pol and g.op == 'is' and g.a[1] == 'Some' and g.a[0].op == 'idx' and g.a[0].a[0] is ACC and flat(g.a[0].a[1]) in mine for g, pol in guard):
                continue
            return False
    return True


def layout(r):
    """measuring never panics, given the limits every formatter state respects"""
    nv = FNav(r)
    PRIM = ('Unit', 'Bool', 'Num', 'Str', 'Barr')

    def ax(t, st, ip):
        b = nv.axiom(t)
        if b is not None:
            return b
        if t.op == 'is':
            x = t.a[0]
            if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'kserd':
                n = flat(x.a[0].a[1])
                if n.op == 'fld' and n.a[0].op == 'app' and n.a[0].a[0] == 'parent' and t.a[1] in PRIM:
                    return False        # what contains a node is a collection
            if x.op == 'fld' and x.a[1] == 'Fmt' and x.a[2] == nv.line_at[1] and t.a[1] == 'Verbose' and x.a[0].op == 'idx':
                i = flat(x.a[0].a[1])
                if i.op == 'app' and i.a[0] == 'index':
                    n = i.a[1]
                    if n.op == 'fld' and n.a[0].op in ('idx', 'elem') and n.a[0].a[0].op == 'app' and n.a[0].a[0].a[0] == 'entries' and n.a[2] == '0':
                        return False    # keys are never verbose
                    if ip.decide(st, ip.is_(nv.val(ip, n), 'Tuple', nv.V)):
                        return False    # tuples are never verbose
            if x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'kserd' and t.a[1] == 'Tuple':
                n = flat(x.a[0].a[1])
                for a, pol in st.path:
                    if pol and a.op == 'is' and a.a[1] == 'Verbose' and a.a[0].op == 'fld' and a.a[0].a[0].op == 'idx' and flat(a.a[0].a[0].a[1]) is nv.index(n):
                        return False
        if t.op == 'eq0':
            k, d = lin(t.a[0])
            for a in d:
                if len(d) == 1 and k == 0 and a.op == 'len' and a.a[0].op == 'app' and a.a[0].a[0] in ('vkids', 'fields', 'entries'):
                    n = a.a[0].a[1]
                    if n.op == 'fld' and n.a[0].op == 'app' and n.a[0].a[0] == 'parent':
                        return False    # what contains a node is not empty
        if t.op == 'le0':
            k, d = lin(t.a[0])
            pos = [a for a, c in d.items() if c == 1]
            neg = [a for a, c in d.items() if c == -1]
            if len(d) == 2 and k <= 1 and pos and neg and pos[0].op == 'app' and pos[0].a[0] == 'idx_in_parent' and neg[0].op == 'len':
                kids = neg[0].a[0]
                if kids.op == 'app' and kids.a[0] in ('vkids', 'fields', 'entries') and ip.fld(mk('app', 'parent', pos[0].a[1]), 'Some', 0, '0') is kids.a[1]:
                    return True
        return None
    ax.stateful = True

    def panics(ip, st, v):
        for a, pol in st.path[-1:]:
            if pol and a.op == 'is' and a.a[1] == 'None' and a.a[0].op == 'elem':
                return filled(nv, ip, a.a[0].a[0])
        return False
    ops = dict(nv.ops, **nv.request_op())
    w = width_ops(r)
    used = set()

    def noting(p):
        def h(*a):
            used.add(p)
            return w[p](*a)
        return h
    note = {p: noting(p) for p in w}

    def quiet(g, o):
        r.check(g, lambda ip, st: [(st, lambda ip, st, got: True)], opaque=dict(ops, **{p: h for p, h in o.items() if p != g['path']}), axiom=ax, panics=panics)
    # the entry point names the measuring functions it needs; those are entered in turn, the ones that see only a value on their own
    quiet(r.method('Formatter', 'apply_config'), note)
    roots = set(used)
    plain = {p for p in w if not set(adt_inputs(r.p.by_path[p][0])) & {'Node', 'NodeValue', 'NamedIter', 'KeyedIter', 'SeqIter', 'NodeIter', 'Fmt'}}
    for p in sorted(roots | plain):
        quiet(r.p.by_path[p][0], {q: note[q] for q in roots | plain})
