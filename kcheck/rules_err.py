"""What an error tells: its text contains everything it was made with, and making one keeps the cause."""
from terms import *
from core import NoAnswer, same
from rules_ds import setup, inner
from rules_dec import UNSIGNED, SIGNED, fits

ERR = 'core::error::Error'
NUMBERS = UNSIGNED + SIGNED + ('f32', 'f64')


def told(r):
    kinds = [i['self']['p'] for i in r.p.j['impls'] if i.get('trait') == ERR and i['self']['k'] == 'adt' and i['self']['p'] in r.p.adts]
    for k in kinds:
        display(r, k)
    made(r, kinds)
    refused(r)
    found(r)
    r.extra['error_types'] = len(kinds)


def leaves(ip, r, x, ty):
    """the displayed pieces of a payload: the text itself, or those of a wrapped error of this crate"""
    while ty['k'] == 'ref':
        ty = ty['t']
    if ty['k'] == 'adt' and ty['p'] in r.p.adts and r.p.adts[ty['p']]['local'] and len(r.p.adts[ty['p']]['v']) == 1:
        v = r.p.adts[ty['p']]['v'][0]
        return [y for j, f in enumerate(v['f']) for y in leaves(ip, r, ip.fld(x, v['n'], j, f['n']), f['ty'])]
    return [x]


def pieces(x):
    return list(x.a) if x.op == 'str' else [x] if x.op != 'c' or x.a[1] else []


def display(r, k):
    fn = r.impl('Display', k, 'fmt')
    a = r.p.adts[k]

    def spec(ip, st):
        me = sym('arg0')
        for s, v in ip.fork_var(st, me, k) if a['enum'] else [(st, a['v'][0]['n'])]:
            fs = next(x for x in a['v'] if x['n'] == v)['f']
            want = [y for j, f in enumerate(fs) for y in leaves(ip, r, ip.fld(me, v, j, f['n']), f['ty'])]

            def chk(ip, st, got, want=want, v=v):
                """a text with all of the content in it"""
                ps = pieces(got)
                texts.setdefault(show(got), set()).add(v)
                if v == 'RequestTooHigh' and not roles(ip, st, ps, want):
                    return False
                return bool(ps) and all(any(same(ip, st, p, w) is True or p.op in ('disp', 'dbg') and same(ip, st, p.a[-1], w) is True for p in ps) for w in want)
            yield s, {'ret': ok(UNIT), '*arg1': chk}
    texts = {}
    r.check(fn, spec, what='display: ')
    for t, vs in texts.items():
        r.expect_true(len(vs) == 1, fn, 'display: %s read the same' % ' and '.join(sorted(vs)))


def roles(ip, st, ps, want):
    """neither representation is announced as the other one"""
    before = ''
    for p in ps:
        if p.op == 'c':
            before = str(p.a[1]).lower()
            continue
        x = p.a[-1] if p.op in ('disp', 'dbg') else p
        req, top = 'request' in before, any(w in before for w in ('allow', 'permit', 'max', 'limit'))
        if req != top and same(ip, st, x, want[0 if req else 1]) is True:
            return False
        before = ''
    return True


def made(r, kinds):
    # errors made from another error, or from the message of the caller's type
    n = 0
    for f in r.impls('From', 'from'):
        if f['implself'].get('p') not in kinds:
            continue
        k = f['implself']['p']
        src = f['implargs'][1]
        v = [x['n'] for x in r.p.adts[k]['v'] if len(x['f']) == 1 and x['f'][0]['ty'].get('p') == src.get('p')]
        if len(v) != 1:
            raise NoAnswer('%s: no single variant holds the source' % f['path'])
        n += 1
        r.check(f, lambda ip, st, k=k, v=v: [(st, mk('adt', k, v[0], sym('arg0')))], what='made from a cause: ')
    for f in (x for x in r.p.j['fns'] if x.get('name') == 'custom' and (x.get('impltrait') or '').endswith('::Error') and x['implself'].get('p') in kinds):
        n += 1

        def chk(ip, st, got):
            """an error holding the whole message"""
            return got.op == 'adt' and len(got.a) == 3 and got.a[2].op == 'str' and len(got.a[2].a) == 1 and got.a[2].a[0].op == 'disp' and \
                same(ip, st, got.a[2].a[0].a[-1], sym('arg0')) is True
        r.check(f, lambda ip, st: [(st, chk)], what='made from a message: ')
    r.expect_true(n >= 4, 'errors', 'at least four ways to make an error from a cause')


def refused(r):
    """the error about an identity or name quotes it"""
    setup(r)
    fn = r.method('Kserd', 'with_id')

    def spec(ip, st):
        def chk(ip, st, got):
            """a value, or an error holding the refused identity"""
            if got.op != 'adt' or got.a[1] not in ('Ok', 'Err'):
                return False
            if got.a[1] == 'Ok':
                return True
            e = got.a[2]
            return e.op == 'adt' and len(e.a) == 3 and same(ip, st, e.a[2], inner(ip, r, app('into', sym('arg0'), S('Kstr')), r.KS)) is True
        yield st, chk
    r.check(fn, spec, what='refused identity: ')


def found(r):
    """a decoding mismatch names what was found: its kind, with its content where there is a form for that"""
    D = r.p.ty('Decoder')
    n = 0
    for fn in r.p.j['fns']:
        if fn['kind'] != 'AssocFn' or (fn.get('implself') or {}).get('p') != D or not (fn.get('impltrait') or '').startswith('serde'):
            continue

        def spec(ip, st, fn=fn):
            nonlocal n
            val = ip.fld(ip.fld(sym('arg0'), 'Decoder', 0, '0'), 'Kserd', 1, 'val')

            def chk(ip, st, got, v, num):
                """an error about what was found"""
                nonlocal n
                if got.op != 'adt' or got.a[1] != 'Err' or got.a[2].op != 'app':
                    return True
                e = got.a[2]
                p = ip.fld(val, v, 0, '0')
                if e.a[0].endswith('Error::invalid_length'):
                    n += 1
                    return v in ('Tuple', 'Seq', 'Cntr', 'Map') and same(ip, st, e.a[1], ip.length(p)) is True
                if not e.a[0].endswith('Error::invalid_type') and not e.a[0].endswith('Error::invalid_value'):
                    return True
                n += 1
                w = fn['name'].split('_')[-1]
                if w in NUMBERS and not any(t.op == 'c' and t.a[0] == 'str' and w in t.a[1] for t in walk(e.a[2])):
                    return False    # the type asked for is not named
                u = e.a[1]
                if u.op != 'adt':
                    return False
                if v == 'Num':
                    q = ip.fld(p, num, 0, '0')
                    if u.a[1] == 'Other':   # serde has no form for what does not fit 64 bits
                        return num != 'Float' and bool(pieces(u.a[2])) and all(not f for _, f in fits(ip, st, q, 'u64' if num == 'Uint' else 'i64'))
                    return u.a[1] == {'Uint': 'Unsigned', 'Int': 'Signed', 'Float': 'Float'}[num] and same(ip, st, u.a[2], q) is True
                if v in ('Tuple', 'Cntr'):
                    return u.a[1] == 'Other' and bool(pieces(u.a[2]))
                if v in ('Unit', 'Seq', 'Map'):
                    return u.a[1] == v
                if v == 'Bool':
                    return u.a[1] == v and same(ip, st, u.a[2], p) is True
                c = inner(ip, r, p, r.KS if v == 'Str' else r.BA)
                return u.a[1] == {'Str': 'Str', 'Barr': 'Bytes'}[v] and same(ip, st, u.a[2], c) is True
            for s, v in ip.fork_var(st, val, r.V):
                for s2, num in ip.fork_var(s, ip.fld(val, 'Num', 0, '0'), r.NU) if v == 'Num' else [(s, None)]:
                    f = lambda ip, st, got, v=v, num=num: chk(ip, st, got, v, num)
                    f.__doc__ = 'an error about the %s found' % v
                    yield s2, f
        r.check(fn, spec, what='mismatch: ', panics=lambda ip, st, v: True)
    r.expect_true(n >= 60, 'Decoder', 'mismatch errors were seen')
