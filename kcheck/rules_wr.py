"""A refused write: whatever displays must answer with the failure."""
from terms import *


def reported(r):
    n = 0
    for f in r.p.j['fns']:
        if f.get('impltrait') in ('core::fmt::Display', 'core::fmt::Debug') and f['name'] == 'fmt' and not f['derived'] and shown(f):
            displays(r, f)
            n += 1
    r.extra['implementations'] = n


def shown(f):
    """what a user can format: a public type, or a helper inside the implementation for one"""
    return f['pub'] or '::fmt::' in f['path'].split(' as ')[0]


def text(ip, st, fr, args, info, t):
    """formatting a whole value into a string of its own: nothing is refused there"""
    return [('ret', st, mk('call', 'text of', ip.snap(st, ip.deref(st, args[0]))))]


def displays(r, fn):
    cell = ('h', 'refused')
    ops = {r.method('Kserd', m)['path']: text for m in ('as_str', 'as_str_with_config')}

    def spec(ip, st):
        def chk(ip, st, got):
            """a failure exactly when a write was refused"""
            no = st.cells.get(cell)
            k = [v for _, v in ip.fork_var(st, got, 'core::result::Result')]
            return no in (TRUE, FALSE) and k == ['Err' if no is TRUE else 'Ok']
        yield st, {'ret': chk}
    r.check(fn, spec, opaque=ops, what='refused write: ', faults=cell)
