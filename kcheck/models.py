"""Transfer functions of library calls on provenance terms."""
import re
from terms import *
from interp import (Unknown, base, BITS, RANGE, in_range, eqs, beq, fcmp, FNTAB, any_atom, mk_each, same_head)
import interp as _interp

MODELS = {}
MREFT = 'mref'


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def R(st, v):
    return [('ret', st, v)]


def simple(*names):
    """pure function of dereferenced arguments"""
    def d(f):
        def g(ip, st, fr, args, info, t):
            return R(st, f(ip, st, *[ip.deref(st, a) for a in args]))
        for n in names:
            MODELS[n] = g
        return f
    return d


def panic(ip, st, fr, why, t):
    return [('panic', st, (why, ip.site(fr, t), tuple(f.fn['path'] for f in ip.frames)))]


def tysub(ip, fr, ty):
    return ip.subst_ty(ty, fr.env if fr else {})


def strip_ref(ty):
    while ty is not None and ty['k'] == 'ref':
        ty = ty['t']
    return ty


STRISH = ('alloc::string::String', 'alloc::borrow::Cow')


def is_strish(ty):
    ty = strip_ref(ty)
    if ty is None:
        return False
    if ty['k'] == 'str':
        return True
    if ty['k'] == 'adt' and ty['p'] == 'alloc::string::String':
        return True
    if ty['k'] == 'adt' and ty['p'] in ('alloc::borrow::Cow', 'alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc'):
        return any(is_strish(x) for x in ty['a'] if x)
    return False


# ------------------------------------------------------------------ identities
def ident(ip, st, fr, args, info, t):
    return R(st, args[0])


def ident_deref(ip, st, fr, args, info, t):
    return R(st, ip.snap(st, ip.deref(st, args[0])))


for n in ('core::hint::must_use', 'alloc::boxed::Box::new', 'alloc::slice::into_vec', 'core::iter::traits::collect::IntoIterator::into_iter',
          'alloc::vec::Vec::into_boxed_slice', 'core::convert::identity', 'alloc::boxed::Box::pin',
          'core::pin::Pin::new', 'alloc::vec::Vec::as_mut_slice', 'core::borrow::BorrowMut::borrow_mut',
          'core::convert::AsMut::as_mut'):
    MODELS[n] = ident
for n in ('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::slice::to_vec', 'alloc::str::to_string',
          'alloc::vec::Vec::as_slice', 'alloc::string::String::as_str', 'core::str::as_bytes', 'alloc::string::String::into_boxed_str',
          'alloc::string::String::into_bytes', 'alloc::string::String::as_bytes', 'core::borrow::Borrow::borrow', 'core::option::Option::as_ref',
          'core::option::Option::cloned', 'core::option::Option::copied', 'core::result::Result::as_ref',
          'alloc::str::to_owned', 'alloc::str::into_string', 'core::slice::as_ref', 'alloc::string::String::as_ref', 'core::str::to_string',
          'alloc::borrow::Cow::into_owned', 'core::iter::traits::iterator::Iterator::by_ref', 'alloc::vec::Vec::leak',
          'alloc::slice::into_boxed_slice', 'core::clone::Clone::clone_from', 'alloc::boxed::Box::into_inner'):
    MODELS[n] = ident_deref
MODELS['core::iter::traits::iterator::Iterator::by_ref'] = ident


@model('core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref')
def _deref(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    if info['name'] == 'as_ref' and info['self'] is not None:
        ty = tysub(ip, fr, info['self'])
        if ty['k'] == 'ref':
            f = ip.resolve('core::convert::AsRef', 'as_ref', strip_ref(ty), [tysub(ip, fr, x) for x in info['a'][1:]])
            if f is not None:
                return ip.enter(st, fr, f, [v], {}, t)
    if v.op == 'adt' and v.a[0] == COW:
        return R(st, v.a[2])
    return R(st, v)


@model('core::option::Option::as_deref')
def _as_deref(ip, st, fr, args, info, t):
    v = ip.snap(st, ip.deref(st, args[0]))
    ty = tysub(ip, fr, info['a'][0])
    f = ip.resolve('core::ops::deref::Deref', 'deref', ty, [])
    if f is None:
        return R(st, v)
    out = []
    for s, n, x in fork_enum(ip, st, v, OPTION):
        if n == 'None':
            out.append(('ret', s, NONE))
        else:
            out.extend((k, s2, some(y) if k == 'ret' else y) for k, s2, y in ip.enter(s, fr, f, [x], {}, t))
    return out


@model('core::option::Option::as_deref_mut')
def _as_deref_mut(ip, st, fr, args, info, t):
    if ip.resolve('core::ops::deref::DerefMut', 'deref_mut', tysub(ip, fr, info['a'][0]), []) is not None:
        return NotImplemented
    return R(st, args[0])


@model('core::ops::deref::DerefMut::deref_mut')
def _deref_mut(ip, st, fr, args, info, t):
    v = args[0]
    if v.op == 'mref':
        inner = ip.get(st, v.a[0], v.a[1])
        if inner.op == 'mref':
            return R(st, inner)
    return R(st, v)


@model('alloc::borrow::Cow::to_mut')
def _to_mut(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    c = ip.deref(st, r)
    pay = c.a[2] if c.op == 'adt' and c.a[0] == COW else c
    ip.put(st, r.a[0], r.a[1], mk('adt', COW, 'Owned', pay))
    return R(st, mk('mref', r.a[0], r.a[1] + (('f', 'Owned', 0, '0', COW, 1),)))


@model('alloc::borrow::Cow::into_owned')
def _into_owned(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    if v.op == 'adt' and v.a[0] == COW:
        return R(st, v.a[2])
    return R(st, v)


@model('core::ops::drop::Drop::drop', 'core::mem::drop', 'core::mem::forget')
def _drop(ip, st, fr, args, info, t):
    return R(st, UNIT)


# ------------------------------------------------------------------ vec! lowering
@model('alloc::boxed::Box::new_uninit')
def _new_uninit(ip, st, fr, args, info, t):
    c = ip.newcell(st, mk('uninit', 0))
    return R(st, mk('mref', c, ()))


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def _assume_vec(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    return R(st, unwrap_uninit(v))


def unwrap_uninit(v):
    n = 0
    while v.op in ('adt', 'updf') and n < 6:
        if v.op == 'adt' and v.a[0].startswith('core::mem::') and len(v.a) >= 3:
            v = v.a[-1]
        elif v.op == 'updf':
            v = v.a[3]
        else:
            break
        n += 1
    if v.op == 'arr':
        return mklist(segs(v)) if v.a else mk('list')
    return v


# ------------------------------------------------------------------ panics
def _mk_panic(why):
    def f(ip, st, fr, args, info, t):
        return panic(ip, st, fr, why, t)
    return f


for n, w in (('core::panicking::panic', 'panic'), ('core::panicking::panic_fmt', 'panic'), ('core::panicking::assert_failed', 'assert_eq'),
             ('core::panicking::unreachable_default_msg', 'unreachable'), ('core::panicking::panic_display', 'panic'),
             ('core::panicking::panic_explicit', 'panic'), ('std::rt::begin_panic', 'panic'), ('core::option::unwrap_failed', 'unwrap'),
             ('core::panicking::panic_nounwind', 'panic'), ('std::process::exit', 'exit'), ('std::process::abort', 'abort'),
             ('core::panicking::unreachable_display', 'unreachable'), ('core::panicking::panic_str_2015', 'panic'),
             ('core::hint::unreachable_unchecked', 'unreachable_unchecked')):
    MODELS[n] = _mk_panic(w)


# ------------------------------------------------------------------ Option / Result
def fork_enum(ip, st, v, adt):
    """-> [(st, variant, payload or None)]"""
    v = ip.deref(st, v)
    out = []
    for s, name in ip.fork_var(st, v, adt):
        if name == 'None':
            out.append((s, name, None))
        else:
            out.append((s, name, ip.fld(v, name, 0, '0')))
    return out


def each_opt(f):
    def g(ip, st, fr, args, info, t):
        out = []
        for s, n, p in fork_enum(ip, st, args[0], OPTION):
            out.extend(f(ip, s, fr, n == 'Some', p, args[1:], info, t))
        return out
    return g


def each_res(f):
    def g(ip, st, fr, args, info, t):
        out = []
        for s, n, p in fork_enum(ip, st, args[0], RESULT):
            out.extend(f(ip, s, fr, n == 'Ok', p, args[1:], info, t))
        return out
    return g


def opt(name):
    return lambda f: MODELS.__setitem__('core::option::Option::' + name, each_opt(f))


def res(name):
    return lambda f: MODELS.__setitem__('core::result::Result::' + name, each_res(f))


def then(outs, f):
    """map over normal returns"""
    r = []
    for k, s, v in outs:
        if k == 'ret':
            r.extend(f(s, v))
        else:
            r.append((k, s, v))
    return r


def callf(ip, s, fr, f, xs, t):
    return ip.call_value(s, fr, f, list(xs), t)


@opt('map')
def _(ip, s, fr, is_, p, a, info, t):
    return then(callf(ip, s, fr, a[0], [p], t), lambda s2, v: R(s2, some(v))) if is_ else R(s, NONE)


@opt('and_then')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if is_ else R(s, NONE)


@opt('filter')
def _(ip, s, fr, is_, p, a, info, t):
    if not is_:
        return R(s, NONE)
    return then(callf(ip, s, fr, a[0], [p], t), lambda s2, v: [('ret', s3, some(p) if b else NONE) for s3, b in ip.branch(s2, v)])


@opt('is_some_and')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if is_ else R(s, FALSE)


@opt('is_none_or')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if is_ else R(s, TRUE)


@opt('map_or')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[1], [p], t) if is_ else R(s, a[0])


@opt('map_or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[1], [p], t) if is_ else callf(ip, s, fr, a[0], [], t)


@opt('inspect')
def _(ip, s, fr, is_, p, a, info, t):
    return then(callf(ip, s, fr, a[0], [p], t), lambda s2, v: R(s2, some(p))) if is_ else R(s, NONE)


@opt('unwrap')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else panic(ip, s, fr, 'unwrap', t)


@opt('expect')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else panic(ip, s, fr, 'expect', t)


@opt('unwrap_or')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p if is_ else a[0])


@opt('unwrap_or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else callf(ip, s, fr, a[0], [], t)


@opt('unwrap_or_default')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else default_of(ip, s, fr, tysub(ip, fr, info['a'][0]), t)


@opt('is_some')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, B(is_))


@opt('is_none')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, B(not is_))


@opt('ok_or')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, ok(p) if is_ else err(a[0]))


@opt('ok_or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, ok(p)) if is_ else then(callf(ip, s, fr, a[0], [], t), lambda s2, v: R(s2, err(v)))


@opt('or')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, some(p) if is_ else a[0])


@opt('or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, some(p)) if is_ else callf(ip, s, fr, a[0], [], t)


@opt('and')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, a[0] if is_ else NONE)


@opt('flatten')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p if is_ else NONE)


@opt('zip')
def _(ip, s, fr, is_, p, a, info, t):
    if not is_:
        return R(s, NONE)
    return [('ret', s2, some(mk('tup', p, q)) if n == 'Some' else NONE) for s2, n, q in fork_enum(ip, s, a[0], OPTION)]


@opt('transpose')
def _(ip, s, fr, is_, p, a, info, t):
    if not is_:
        return R(s, ok(NONE))
    return [('ret', s2, ok(some(q)) if n == 'Ok' else err(q)) for s2, n, q in fork_enum(ip, s, p, RESULT)]


@model('core::option::Option::take')
def _take(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    ip.put(st, r.a[0], r.a[1], NONE)
    return R(st, v)


@model('core::option::Option::as_mut')
def _as_mut(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    out = []
    v = ip.deref(st, r)
    for s, n in ip.fork_var(st, v, OPTION):
        out.append(('ret', s, NONE if n == 'None' else some(mk('mref', r.a[0], r.a[1] + (('some',),)))))
    return out


@model('core::option::Option::insert', 'core::option::Option::replace')
def _opt_insert(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    ip.put(st, r.a[0], r.a[1], some(args[1]))
    if info['name'] == 'replace':
        return R(st, v)
    return R(st, mk('mref', r.a[0], r.a[1] + (('some',),)))


@model('core::option::Option::get_or_insert_with', 'core::option::Option::get_or_insert')
def _goiw(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    out = []
    m = mk('mref', r.a[0], r.a[1] + (('some',),))
    for s, n in ip.fork_var(st, ip.deref(st, r), OPTION):
        if n == 'Some':
            out.append(('ret', s, m))
        elif info['name'] == 'get_or_insert':
            ip.put(s, r.a[0], r.a[1], some(args[1]))
            out.append(('ret', s, m))
        else:
            def k(s2, v):
                ip.put(s2, r.a[0], r.a[1], some(v))
                return R(s2, m)
            out.extend(then(callf(ip, s, fr, args[1], [], t), k))
    return out


@model('core::bool::then')
def _bthen(ip, st, fr, args, info, t):
    out = []
    for s, b in ip.branch(st, args[0]):
        out.extend(then(callf(ip, s, fr, args[1], [], t), lambda s2, v: R(s2, some(v))) if b else R(s, NONE))
    return out


@model('core::bool::then_some')
def _bthens(ip, st, fr, args, info, t):
    return [('ret', s, some(args[1]) if b else NONE) for s, b in ip.branch(st, args[0])]


@res('map')
def _(ip, s, fr, is_, p, a, info, t):
    return then(callf(ip, s, fr, a[0], [p], t), lambda s2, v: R(s2, ok(v))) if is_ else R(s, err(p))


@res('map_err')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, ok(p)) if is_ else then(callf(ip, s, fr, a[0], [p], t), lambda s2, v: R(s2, err(v)))


@res('and_then')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if is_ else R(s, err(p))


@res('or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, ok(p)) if is_ else callf(ip, s, fr, a[0], [p], t)


@res('or')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, ok(p) if is_ else a[0])


@res('and')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, a[0] if is_ else err(p))


@res('ok')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, some(p) if is_ else NONE)


@res('err')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, NONE if is_ else some(p))


@res('is_ok')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, B(is_))


@res('is_err')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, B(not is_))


@res('unwrap')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else panic(ip, s, fr, 'unwrap', t)


@res('expect')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else panic(ip, s, fr, 'expect', t)


@res('unwrap_err')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if not is_ else panic(ip, s, fr, 'unwrap_err', t)


@res('unwrap_or')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p if is_ else a[0])


@res('unwrap_or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else callf(ip, s, fr, a[0], [p], t)


@res('unwrap_or_default')
def _(ip, s, fr, is_, p, a, info, t):
    return R(s, p) if is_ else default_of(ip, s, fr, tysub(ip, fr, info['a'][0]), t)


@res('map_or')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[1], [p], t) if is_ else R(s, a[0])


@res('map_or_else')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[1], [p], t) if is_ else callf(ip, s, fr, a[0], [p], t)


@res('is_ok_and')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if is_ else R(s, FALSE)


@res('is_err_and')
def _(ip, s, fr, is_, p, a, info, t):
    return callf(ip, s, fr, a[0], [p], t) if not is_ else R(s, FALSE)


@model('core::ops::try_trait::Try::branch')
def _branch(ip, st, fr, args, info, t):
    ty = tysub(ip, fr, info['self'])
    adt = ty.get('p') if ty else None
    v = ip.deref(st, args[0])
    if v.op == 'adt':
        adt = v.a[0]
    out = []
    if adt == OPTION:
        for s, n, p in fork_enum(ip, st, v, OPTION):
            out.append(('ret', s, mk('adt', CF, 'Continue', p) if n == 'Some' else mk('adt', CF, 'Break', NONE)))
        return out
    if adt == RESULT:
        for s, n, p in fork_enum(ip, st, v, RESULT):
            out.append(('ret', s, mk('adt', CF, 'Continue', p) if n == 'Ok' else mk('adt', CF, 'Break', err(p))))
        return out
    return NotImplemented


@model('core::ops::try_trait::Try::from_output')
def _from_output(ip, st, fr, args, info, t):
    ty = tysub(ip, fr, info['self'])
    return R(st, some(args[0]) if ty['p'] == OPTION else ok(args[0]))


def same_ty(a, b):
    if a is None or b is None:
        return a is b
    if a['k'] != b['k']:
        return False
    if a['k'] == 'adt':
        return a['p'] == b['p'] and len(a['a']) == len(b['a']) and all(same_ty(x, y) for x, y in zip(a['a'], b['a']))
    if a['k'] in ('ref', 'slice', 'array', 'ptr'):
        return same_ty(a['t'], b['t'])
    if a['k'] == 'tuple':
        return len(a['a']) == len(b['a']) and all(same_ty(x, y) for x, y in zip(a['a'], b['a']))
    return a.get('n') == b.get('n') and a.get('s') == b.get('s')


@model('core::ops::try_trait::FromResidual::from_residual')
def _from_residual(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    if v.op == 'adt' and v.a[0] == OPTION:
        return R(st, NONE)
    if v.op == 'adt' and v.a[0] == RESULT and v.a[1] == 'Err':
        e = v.a[2]
        a = [tysub(ip, fr, x) for x in info['a']]
        try:
            ft = a[0]['a'][1]
            et = a[1]['a'][1]
        except Exception:
            return R(st, v)
        if same_ty(ft, et):
            return R(st, err(e))
        f = ip.resolve('core::convert::From', 'from', ft, [et])
        if f is not None:
            return then(ip.enter(st, fr, f, [e], {}, t), lambda s, x: R(s, err(x)))
        return R(st, err(app('from', e)))
    return NotImplemented


# ------------------------------------------------------------------ conversions
def default_of(ip, st, fr, ty, t):
    if ty is None:
        return R(st, app('default'))
    k = ty['k']
    if k in ('int', 'uint'):
        return R(st, I(0))
    if k == 'bool':
        return R(st, FALSE)
    if k == 'tuple':
        res = [('ret', st, ())]
        for x in ty['a']:
            res = then(res, lambda s, vs, x=x: then(default_of(ip, s, fr, x, t), lambda s2, v: [('ret', s2, vs + (v,))]))
        return then(res, lambda s, vs: R(s, mk('tup', *vs) if vs else UNIT))
    if k == 'str' or is_strish(ty):
        return R(st, S(''))
    if k == 'adt':
        p = ty['p']
        if p == OPTION:
            return R(st, NONE)
        if p in LISTY:
            return R(st, mk('list'))
        if p in MAPPY:
            return R(st, mk('bmap'))
        f = ip.resolve('core::default::Default', 'default', ty, [])
        if f is not None:
            return ip.enter(st, fr, f, [], {}, t)
    return R(st, app('default', S(repr(ty.get('p') or ty.get('n') or k))))


LISTY = ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'alloc::collections::linked_list::LinkedList')
MAPPY = ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap', 'alloc::collections::btree::set::BTreeSet',
         'std::collections::hash::set::HashSet')


@model('core::default::Default::default')
def _default(ip, st, fr, args, info, t):
    return default_of(ip, st, fr, tysub(ip, fr, info['self']), t)


def tykey(ty):
    ty = strip_ref(ty)
    if ty is None:
        return '?'
    k = ty['k']
    if k in ('int', 'uint', 'float', 'param'):
        return ty['n']
    if k == 'adt':
        return ty['p'].split('::')[-1] + ('<%s>' % ','.join(tykey(x) for x in ty['a']) if ty['a'] else '')
    if k == 'tuple':
        return '(%s)' % ','.join(tykey(x) for x in ty['a'])
    if k in ('slice', 'array'):
        return '[%s]' % tykey(ty['t'])
    return k


def convert(ip, st, fr, x, src, dst, t):
    """From/Into between two types"""
    v = ip.deref(st, x)
    if src is None or dst is None:
        return R(st, app('into', v))
    if same_ty(src, dst) or (strip_ref(src)['k'] == 'str' and is_strish(dst)) or (is_strish(src) and is_strish(dst)):
        if strip_ref(dst)['k'] == 'adt' and strip_ref(dst)['p'] == COW and not (strip_ref(src)['k'] == 'adt' and strip_ref(src)['p'] == COW):
            return R(st, mk('adt', COW, 'Borrowed' if src['k'] == 'ref' and strip_ref(src)['k'] == 'str' else 'Owned', v))
        return R(st, v)
    sk, dk = src['k'], dst['k']
    if sk in ('int', 'uint') and dk in ('int', 'uint'):
        return R(st, v)
    if sk == 'float' and dk == 'float':
        return R(st, v if src['n'] == dst['n'] else mk('cast', v, src['n'], dst['n']))
    if sk in ('int', 'uint') and dk == 'float':
        return R(st, mk('cast', v, src['n'], dst['n']))
    if dk == 'char' and sk == 'uint':
        return R(st, v if not isconst(v, 'int') else CH(chr(cval(v))))
    if dk == 'adt' and dst['p'] == OPTION and same_ty(dst['a'][0], src):
        return R(st, some(x))
    f = ip.resolve('core::convert::From', 'from', dst, [src])
    if f is not None:
        return ip.enter(st, fr, f, [x], {}, t)
    if dk == 'adt' and dst['p'] in LISTY + ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc'):
        return R(st, v)
    return R(st, app('into', v, S(tykey(dst))))


@model('core::convert::Into::into')
def _into(ip, st, fr, args, info, t):
    via = info.get('via')
    if via is not None and via['id'] in ip.p.fns:
        fn = ip.p.fns[via['id']]
        return ip.enter(st, fr, fn, args, ip.env_for(fn, via['a'], fr.env), t)
    a = [tysub(ip, fr, x) for x in info['a']]
    return convert(ip, st, fr, args[0], a[0], a[1] if len(a) > 1 else None, t)


@model('core::convert::From::from')
def _from(ip, st, fr, args, info, t):
    a = [tysub(ip, fr, x) for x in info['a']]
    return convert(ip, st, fr, args[0], a[1] if len(a) > 1 else None, a[0], t)


def try_int(ip, st, v, src, dst):
    lo, hi = RANGE[dst]
    slo, shi = RANGE[src]
    if src[0] == 'u':
        ip.nonneg.add(v) if v.op not in ('c', 'lin') else None
    outs = []
    cur = [st]
    bad = []
    if slo < lo:
        nxt = []
        for s in cur:
            for s2, b in ip.branch(s, le(I(lo), v)):
                (nxt if b else bad).append(s2)
        cur = nxt
    if shi > hi:
        nxt = []
        for s in cur:
            for s2, b in ip.branch(s, le(v, I(hi))):
                (nxt if b else bad).append(s2)
        cur = nxt
    for s in cur:
        outs.append(('ret', s, ok(v)))
    for s in bad:
        outs.append(('ret', s, err(app('TryFromIntError'))))
    return outs


@model('core::convert::TryFrom::try_from')
def _try_from(ip, st, fr, args, info, t):
    a = [tysub(ip, fr, x) for x in info['a']]
    v = ip.deref(st, args[0])
    if len(a) > 1 and a[0]['k'] in ('int', 'uint') and a[1]['k'] in ('int', 'uint'):
        return try_int(ip, st, v, a[1]['n'], a[0]['n'])
    return NotImplemented


@model('core::convert::TryInto::try_into')
def _try_into(ip, st, fr, args, info, t):
    via = info.get('via')
    if via is not None and via['id'] in ip.p.fns:
        fn = ip.p.fns[via['id']]
        return ip.enter(st, fr, fn, args, ip.env_for(fn, via['a'], fr.env), t)
    a = [tysub(ip, fr, x) for x in info['a']]
    v = ip.deref(st, args[0])
    if len(a) > 1 and a[0]['k'] in ('int', 'uint') and a[1]['k'] in ('int', 'uint'):
        return try_int(ip, st, v, a[0]['n'], a[1]['n'])
    return NotImplemented


def implty(info):
    m = re.search(r'<impl ([^>]*)>', info['p'])
    return m.group(1) if m else None


@model('core::num::max_value', 'core::num::min_value')
def _minmax(ip, st, fr, args, info, t):
    ty = implty(info)
    if ty not in RANGE:
        return NotImplemented
    return R(st, I(RANGE[ty][1 if info['name'] == 'max_value' else 0]))


# ------------------------------------------------------------------ integers
@model('core::num::saturating_sub')
def _satsub(ip, st, fr, args, info, t):
    ty = implty(info)
    if ty and ty[0] == 'u':
        x, y = [ip.deref(st, a) for a in args]
        ip.note_uint(None, x, y)
        return [('ret', s, I(0) if b else lsub(x, y)) for s, b in ip.branch(st, le(x, y))]
    return NotImplemented


@model('core::num::saturating_add', 'core::num::wrapping_add')
def _satadd(ip, st, fr, args, info, t):
    x, y = [ip.deref(st, a) for a in args]
    return R(st, ladd(x, y))


@model('core::num::checked_sub')
def _chksub(ip, st, fr, args, info, t):
    ty = implty(info)
    if ty and ty[0] == 'u':
        x, y = [ip.deref(st, a) for a in args]
        ip.note_uint(None, x, y)
        return [('ret', s, some(lsub(x, y)) if b else NONE) for s, b in ip.branch(st, le(y, x))]
    return NotImplemented


def arith(op):
    def f(ip, st, fr, args, info, t):
        ty = strip_ref(tysub(ip, fr, info['self']))
        x, y = [ip.deref(st, a) for a in args[:2]]
        if ty['k'] in ('int', 'uint'):
            v = ip.binop(st, op, x, y, ty)
            outs = []
            if op == 'Sub' and ty['k'] == 'uint':
                ip.note_uint(ty, x, y)
                for s, b in ip.branch(st, lt(x, y)):
                    outs.extend(panic(ip, s, fr, 'assert:overflow', t) if b else R(s, v))
                return outs
            return R(st, v)
        if ty['k'] == 'float':
            return R(st, app(op, x, y))
        if op == 'Add' and ty['k'] == 'adt' and ty['p'] == 'alloc::string::String':
            return R(st, mkstr(pieces(x) + pieces(y)))
        return NotImplemented
    return f


def arith_assign(op):
    g = arith(op)

    def f(ip, st, fr, args, info, t):
        r = args[0]
        if r.op != 'mref':
            return NotImplemented
        o = g(ip, st, fr, [ip.deref(st, r), args[1]], info, t)
        if o is NotImplemented:
            return o

        def k(s, v):
            ip.put(s, r.a[0], r.a[1], v)
            return R(s, UNIT)
        return then(o, k)
    return f


for nm, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div'), ('rem', 'Rem')):
    c = nm.capitalize()
    MODELS['core::ops::arith::%s::%s' % (c, nm)] = arith(op)
    MODELS['core::ops::arith::%sAssign::%s_assign' % (c, nm)] = arith_assign(op)


@model('core::num::pow')
def _pow(ip, st, fr, args, info, t):
    x, y = args
    if isconst(x, 'int') and isconst(y, 'int'):
        return R(st, I(cval(x) ** cval(y)))
    return NotImplemented


# ------------------------------------------------------------------ floats
for n in ('abs', 'is_finite', 'is_nan', 'is_infinite', 'to_bits', 'is_sign_negative', 'is_sign_positive', 'from_bits', 'signum'):
    MODELS['core::f64::' + n] = (lambda nm: lambda ip, st, fr, args, info, t: R(st, app('f64.' + nm, *[ip.deref(st, a) for a in args])))(n)
for n in ('ceil', 'floor', 'round', 'trunc', 'fract', 'abs', 'powi', 'sqrt'):
    MODELS['std::f64::' + n] = (lambda nm: lambda ip, st, fr, args, info, t: R(st, app('f64.' + nm, *[ip.deref(st, a) for a in args])))(n)


# ------------------------------------------------------------------ chars
CLS = {'is_ascii_digit': CS_DIGIT, 'is_ascii_alphanumeric': CS_ALNUM, 'is_ascii_alphabetic': CS_ALPHA, 'is_ascii_uppercase': CS_UPPER,
       'is_ascii_lowercase': CS_LOWER, 'is_ascii': CS(((0, 128),)), 'is_ascii_whitespace': cs_of('\t\n\x0c\r '),
       'is_ascii_punctuation': CS(((33, 48), (58, 65), (91, 97), (123, 127))), 'is_ascii_control': CS(((0, 32), (127, 128))),
       'is_ascii_hexdigit': CS_DIGIT | cs_range('a', 'f') | cs_range('A', 'F'), 'is_ascii_graphic': CS(((33, 127),)),
       'is_whitespace': cs_of('\t\n\x0b\x0c\r \x85\xa0     　') | CS(((0x2000, 0x200b),)),
       'is_control': CS(((0, 32), (127, 160)))}
for n, cs in CLS.items():
    def _f(cs):
        return lambda ip, st, fr, args, info, t: R(st, inset(ip.deref(st, args[0]), cs))
    MODELS['core::char::methods::' + n] = _f(cs)
    MODELS['core::num::' + n] = _f(cs)


@model('core::char::methods::is_digit')
def _isdigit(ip, st, fr, args, info, t):
    if isconst(args[1], 'int') and cval(args[1]) == 10:
        return R(st, inset(ip.deref(st, args[0]), CS_DIGIT))
    return NotImplemented


@model('core::char::methods::len_utf8')
def _lenutf8(ip, st, fr, args, info, t):
    c = ip.deref(st, args[0])
    if isconst(c, 'char'):
        return R(st, I(len(cval(c).encode())))
    return R(st, mk('len', mk('chr', c)))


# ------------------------------------------------------------------ comparisons
def cmp_outcomes(ip, st, fr, x, y, ty, t):
    """-> [(st, 'Less'|'Equal'|'Greater' or None, term)] total comparison, forked"""
    ty = strip_ref(ty)
    x, y = ip.deref(st, x), ip.deref(st, y)
    if ty is not None and ty['k'] in ('int', 'uint'):
        if x.op == 'discr' or y.op == 'discr':
            outs = []
            for s, a in discr_values(ip, st, x):
                for s2, b in discr_values(ip, s, y):
                    outs.append((s2, 'Less' if a < b else 'Equal' if a == b else 'Greater'))
            return outs
        c = mk('cmp', x, y)
        if ty['k'] == 'uint':
            ip.note_uint(ty, x, y)
        if isconst(x) and isconst(y):
            a, b = cval(x), cval(y)
            return [(st, 'Less' if a < b else 'Equal' if a == b else 'Greater')]
        return ip.fork_var(st, c, ORD)
    return None


def discr_values(ip, st, x):
    if isconst(x, 'int'):
        return [(st, cval(x))]
    if x.op == 'discr':
        out = []
        for s, v in ip.fork_var(st, x.a[0], x.a[1]):
            out.append((s, discr_num(ip, x.a[1], v)))
        return out
    raise Unknown('discriminant')


def discr_num(ip, adt, v):
    for i, vv in enumerate(ip.p.adts[adt]['v']):
        if vv['n'] == v:
            d = vv['d']
            d = i if d is None else int(d)
            if adt == ORD and d > 127:
                d -= 256
            return d
    raise Unknown('variant')


@model('core::intrinsics::discriminant_value')
def _dv(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['a'][0]))
    return R(st, mk('discr', ip.deref(st, args[0]), ty.get('p', '')))


@model('core::mem::discriminant')
def _md(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['a'][0]))
    return R(st, mk('discr', ip.deref(st, args[0]), ty.get('p', '')))


def local_cmp(ip, st, fr, x, y, ty, t, tr='core::cmp::Ord', name='cmp'):
    f = ip.resolve(tr, name, strip_ref(ty), [])
    if f is None:
        return None
    return ip.enter(st, fr, f, [ip.deref(st, x), ip.deref(st, y)], {}, t)


@model('core::cmp::Ord::cmp')
def _cmp(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['self']))
    x, y = [ip.snap(st, ip.deref(st, a)) for a in args]
    if ty['k'] in ('int', 'uint') and (x.op == 'discr' or y.op == 'discr' or (isconst(x) and isconst(y))):
        return [('ret', s, ordering(v)) for s, v in cmp_outcomes(ip, st, fr, x, y, ty, t)]
    if ty['k'] in ('int', 'uint'):
        ip.note_uint(ty, x, y) if ty['k'] == 'uint' else None
        return R(st, mk('cmp', x, y))
    if ty['k'] == 'bool':
        out = []
        for s, p in ip.branch(st, x):
            for s2, q in ip.branch(s, y):
                out.append(('ret', s2, ordering('Equal' if p == q else 'Less' if q else 'Greater')))
        return out
    if ty['k'] == 'tuple' and not ty['a']:
        return R(st, ordering('Equal'))
    if x is y and x.op not in ('top',) and ty['k'] != 'float':
        return R(st, ordering('Equal'))
    return R(st, app('cmp', x, y))


@model('core::cmp::PartialOrd::partial_cmp')
def _pcmp(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['self']))
    x, y = [ip.snap(st, ip.deref(st, a)) for a in args]
    if ty['k'] == 'float':
        return R(st, app('fpcmp', x, y))
    if ty['k'] in ('int', 'uint', 'bool') or ty['k'] == 'tuple' and not ty['a']:
        return then(_cmp(ip, st, fr, args, info, t), lambda s, v: R(s, some(v)))
    return R(st, some(app('cmp', x, y)))


def ord_test(op, v):
    return {'lt': v == 'Less', 'le': v != 'Greater', 'gt': v == 'Greater', 'ge': v != 'Less'}[op]


def ordop(op):
    def f(ip, st, fr, args, info, t):
        ty = strip_ref(tysub(ip, fr, info['self']))
        x, y = [ip.deref(st, a) for a in args]
        if ty['k'] == 'float':
            return R(st, fcmp(op.capitalize(), x, y))
        if ty['k'] == 'char':
            return R(st, ip.binop(st, op.capitalize(), x, y, ty))
        if ty['k'] in ('int', 'uint') and x.op != 'discr' and y.op != 'discr':
            return R(st, ip.binop(st, op.capitalize(), x, y, ty))
        o = local_cmp(ip, st, fr, x, y, ty, t, 'core::cmp::PartialOrd', 'partial_cmp')
        if o is None:
            return R(st, app(op, ip.snap(st, x), ip.snap(st, y)))

        def k(s, v):
            out = []
            for s2, n, p in fork_enum(ip, s, v, OPTION):
                if n == 'None':
                    out.append(('ret', s2, FALSE))
                else:
                    for s3, w in ip.fork_var(s2, p, ORD):
                        out.append(('ret', s3, B(ord_test(op, w))))
            return out
        return then(o, k)
    return f


for op in ('lt', 'le', 'gt', 'ge'):
    MODELS['core::cmp::PartialOrd::' + op] = ordop(op)


@model('core::hash::Hash::hash')
def _hash(ip, st, fr, args, info, t):
    # what a hasher is fed depends on the type: text, bytes and the widths of numbers are fed differently
    ty = strip_ref(tysub(ip, fr, info['self']))
    while ty['k'] == 'adt' and ty['p'] in ('alloc::borrow::Cow', 'alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc') and ty['a']:
        ty = strip_ref(ty['a'][0])
    if ty['k'] == 'adt' and ty['p'] == 'alloc::string::String':
        n = 'str'
    elif ty['k'] == 'slice' or ty['k'] == 'adt' and ty['p'] == 'alloc::vec::Vec':
        n = '[]'
    else:
        n = ty.get('n') or ty.get('p') or ty['k']
    return ip.uninterpreted(st, 'core::hash::Hash::hash<%s>' % n, args)


@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _eq(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['self']))
    x, y = [ip.snap(st, ip.deref(st, a)) for a in args]
    if ty['k'] in ('int', 'uint', 'bool', 'char', 'float'):
        r = ip.binop(st, 'Eq', x, y, ty)
    elif ty['k'] == 'adt' and ty['p'] == OPTION and len(ty['a']) == 1:
        # structural
        out = []
        for s, n, p in fork_enum(ip, st, x, OPTION):
            for s2, m, q in fork_enum(ip, s, y, OPTION):
                if n != m:
                    out.append(('ret', s2, FALSE))
                elif n == 'None':
                    out.append(('ret', s2, TRUE))
                else:
                    it = strip_ref(ty['a'][0])
                    f = ip.resolve('core::cmp::PartialEq', 'eq', it, [])
                    if f is not None:
                        out.extend(ip.enter(s2, fr, f, [p, q], {}, t))
                    elif it['k'] in ('int', 'uint', 'bool', 'char', 'float'):
                        out.append(('ret', s2, ip.binop(s2, 'Eq', p, q, it)))
                    else:
                        out.append(('ret', s2, eqs(p, q)))
        if info['name'] == 'ne':
            out = [(k, s, neg(v) if k == 'ret' else v) for k, s, v in out]
        return out
    elif ty['k'] == 'adt' and ty['p'] == ORD:
        out = []
        for s, n in ip.fork_var(st, x, ORD):
            out.append(('ret', s, ip.is_(y, n, ORD)))
        if info['name'] == 'ne':
            out = [(k, s, neg(v) if k == 'ret' else v) for k, s, v in out]
        return out
    elif ty['k'] == 'tuple' and not ty['a']:
        r = TRUE
    else:
        f = ip.resolve('core::cmp::PartialEq', 'eq', ty, []) if ty['k'] == 'adt' else None
        if f is not None:
            o = ip.enter(st, fr, f, [x, y], {}, t)
            if info['name'] == 'ne':
                o = [(k, s, neg(v) if k == 'ret' else v) for k, s, v in o]
            return o
        r = eqs(x, y)
    if info['name'] == 'ne':
        r = neg(r)
    return R(st, r)


@model('core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def _maxmin(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['a'][0] if info['a'] else info['self']))
    x, y = args
    want = info['name']
    out = []
    if ty['k'] in ('int', 'uint'):
        if ty['k'] == 'uint':
            ip.note_uint(ty, x, y)
        for s, b in ip.branch(st, le(x, y)):
            out.append(('ret', s, (y if b else x) if want == 'max' else (x if b else y)))
        return out
    o = local_cmp(ip, st, fr, x, y, ty, t)
    if o is None:
        return NotImplemented

    def k(s, v):
        r = []
        for s2, w in ip.fork_var(s, v, ORD):
            # max returns the second on equality, min the first
            if want == 'max':
                r.append(('ret', s2, x if w == 'Greater' else y))
            else:
                r.append(('ret', s2, y if w == 'Greater' else x))
        return r
    return then(o, k)


@model('core::cmp::Ordering::reverse')
def _rev(ip, st, fr, args, info, t):
    v = args[0]
    if v.op == 'adt':
        return R(st, ordering({'Less': 'Greater', 'Greater': 'Less', 'Equal': 'Equal'}[v.a[1]]))
    if v.op == 'cmp':
        return R(st, mk('cmp', v.a[1], v.a[0]))
    return R(st, mk('rev_ord', v))


@model('core::cmp::Ordering::then_with', 'core::cmp::Ordering::then')
def _thenw(ip, st, fr, args, info, t):
    out = []
    for s, w in ip.fork_var(st, args[0], ORD):
        if w != 'Equal':
            out.append(('ret', s, ordering(w)))
        elif info['name'] == 'then':
            out.append(('ret', s, args[1]))
        else:
            out.extend(callf(ip, s, fr, args[1], [], t))
    return out


for nm, f in (('is_eq', lambda w: w == 'Equal'), ('is_ne', lambda w: w != 'Equal'), ('is_lt', lambda w: w == 'Less'), ('is_gt', lambda w: w == 'Greater'),
              ('is_le', lambda w: w != 'Greater'), ('is_ge', lambda w: w != 'Less')):
    MODELS['core::cmp::Ordering::' + nm] = (lambda g: lambda ip, st, fr, args, info, t: [('ret', s, B(g(w))) for s, w in ip.fork_var(st, ip.deref(st, args[0]), ORD)])(f)


@simple('core::ptr::eq', 'core::ptr::addr_eq')
def _ptreq(ip, st, x, y):
    return mk('ptreq', *sorted((x, y), key=lambda z: z.n)) if x is not y else TRUE


# ------------------------------------------------------------------ mem
@model('core::mem::replace')
def _mreplace(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    ip.put(st, r.a[0], r.a[1], args[1])
    return R(st, v)


@model('core::mem::take')
def _mtake(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)

    def k(s, d):
        ip.put(s, r.a[0], r.a[1], d)
        return R(s, v)
    return then(default_of(ip, st, fr, tysub(ip, fr, info['a'][0]), t), k)


@model('core::mem::swap')
def _mswap(ip, st, fr, args, info, t):
    a, b = args
    if a.op != 'mref' or b.op != 'mref':
        return NotImplemented
    x, y = ip.deref(st, a), ip.deref(st, b)
    ip.put(st, a.a[0], a.a[1], y)
    ip.put(st, b.a[0], b.a[1], x)
    return R(st, UNIT)


# ------------------------------------------------------------------ Vec / VecDeque / slices
for p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque'):
    for n in ('new', 'with_capacity'):
        MODELS['%s::%s' % (p, n)] = lambda ip, st, fr, args, info, t: R(st, mk('list'))
for p in ('alloc::collections::btree::map::BTreeMap', 'std::collections::hash::map::HashMap', 'alloc::collections::btree::set::BTreeSet'):
    for n in ('new', 'with_capacity'):
        MODELS['%s::%s' % (p, n)] = lambda ip, st, fr, args, info, t: R(st, mk('bmap'))
for n in ('new', 'with_capacity'):
    MODELS['alloc::string::String::' + n] = lambda ip, st, fr, args, info, t: R(st, S(''))


def upd(ip, st, r, f):
    v = ip.deref(st, r)
    ip.put(st, r.a[0], r.a[1], f(v))


def mut_unit(f):
    def g(ip, st, fr, args, info, t):
        if args[0].op != 'mref':
            return NotImplemented
        upd(ip, st, args[0], lambda v: f(ip, st, v, *args[1:]))
        return R(st, UNIT)
    return g


_noop = mut_unit(lambda ip, st, v, *a: v)
for p in ('alloc::vec::Vec', 'alloc::collections::vec_deque::VecDeque', 'alloc::string::String', 'std::collections::hash::map::HashMap'):
    for n in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        MODELS['%s::%s' % (p, n)] = _noop
MODELS['alloc::vec::Vec::push'] = mut_unit(lambda ip, st, v, x: mklist(segs(v) + (one(ip.snap(st, x)),)))
MODELS['alloc::collections::vec_deque::VecDeque::push_back'] = MODELS['alloc::vec::Vec::push']
MODELS['alloc::collections::vec_deque::VecDeque::push_front'] = mut_unit(lambda ip, st, v, x: mklist((one(ip.snap(st, x)),) + segs(v)))
MODELS['alloc::vec::Vec::clear'] = mut_unit(lambda ip, st, v: mk('list'))
MODELS['alloc::string::String::clear'] = mut_unit(lambda ip, st, v: S(''))
MODELS['alloc::slice::sort_by_key'] = mut_unit(lambda ip, st, v, f: app('sort_by_key', v, f))
MODELS['alloc::slice::sort_by'] = mut_unit(lambda ip, st, v, f: app('sort_by', v, f))
MODELS['core::slice::sort_unstable_by'] = mut_unit(lambda ip, st, v, f: app('sort_by', v, f))
MODELS['core::slice::sort_unstable_by_key'] = mut_unit(lambda ip, st, v, f: app('sort_by_key', v, f))
MODELS['core::slice::reverse'] = mut_unit(lambda ip, st, v: mk('rev', v))


@model('alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append')
def _efs(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    x = ip.snap(st, ip.deref(st, args[1]))
    upd(ip, st, r, lambda v: mklist(segs(v) + segs(x)))
    if info['name'] == 'append' and args[1].op == 'mref':
        ip.put(st, args[1].a[0], args[1].a[1], mk('list'))
    return R(st, UNIT)


@simple('alloc::vec::Vec::len', 'core::slice::len', 'alloc::collections::btree::map::BTreeMap::len', 'core::str::len', 'alloc::string::String::len',
        'alloc::collections::vec_deque::VecDeque::len', 'std::collections::hash::map::HashMap::len', 'alloc::collections::btree::set::BTreeSet::len')
def _len(ip, st, v):
    return ip.length(v)


@simple('alloc::vec::Vec::is_empty', 'core::slice::is_empty', 'alloc::collections::btree::map::BTreeMap::is_empty', 'core::str::is_empty',
        'alloc::string::String::is_empty', 'alloc::collections::vec_deque::VecDeque::is_empty', 'std::collections::hash::map::HashMap::is_empty')
def _is_empty(ip, st, v):
    l = ip.length(v)
    # a sum of lengths is zero iff its constant part is and every part is
    k, d = lin(l)
    if k > 0:
        return FALSE
    return eq0(l)


@model('core::iter::traits::exact_size::ExactSizeIterator::len')
def _exlen(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    it = as_iter(ip, v)
    if it is not None and all(s[0] in ('proj', 'enum', 'map') for s in it.a[1]):
        return R(st, ip.length(it.a[0]))
    return R(st, ip.length(v))


def get_path(ip, st, fr, args, info, t, mut):
    r, i = args[0], ip.deref(st, args[1])
    v = ip.deref(st, r)
    ity = tysub(ip, fr, info['a'][-1]) if info['a'] else None
    if ity is not None and strip_ref(ity)['k'] not in ('uint', 'param'):
        return None
    return v, i


@model('core::slice::get', 'core::slice::get_mut')
def _get(ip, st, fr, args, info, t):
    g = get_path(ip, st, fr, args, info, t, False)
    if g is None:
        return R(st, app('slice_get', *[ip.snap(st, ip.deref(st, a)) for a in args])) if info['name'] == 'get' else NotImplemented
    v, i = g
    out = []
    ip.note_uint(None, i)
    for s, b in ip.branch(st, lt(i, ip.length(v))):
        if not b:
            out.append(('ret', s, NONE))
        elif args[0].op == 'mref' and info['name'] == 'get_mut':
            out.append(('ret', s, some(mk('mref', args[0].a[0], args[0].a[1] + (('i', i),)))))
        else:
            out.append(('ret', s, some(ip.idx(v, i))))
    return out


@model('core::slice::first', 'core::slice::last')
def _first(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    out = []
    n = ip.length(v)
    for s, b in ip.branch(st, eq0(n)):
        if b:
            out.append(('ret', s, NONE))
        elif info['name'] == 'first':
            out.append(('ret', s, some(ip.idx(v, I(0)))))
        else:
            ss = segs(v)
            out.append(('ret', s, some(ss[-1].a[0] if ss and ss[-1].op == 'one' else mk('last', v))))
    return out


@model('core::slice::get_unchecked')
def _getu(ip, st, fr, args, info, t):
    return R(st, ip.idx(ip.deref(st, args[0]), args[1]))


@model('alloc::vec::Vec::pop', 'alloc::collections::vec_deque::VecDeque::pop_back')
def _pop(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    ss = segs(v)
    if ss and ss[-1].op == 'one':
        ip.put(st, r.a[0], r.a[1], mklist(ss[:-1]))
        return R(st, some(ss[-1].a[0]))
    out = []
    for s, b in ip.branch(st, eq0(ip.length(v))):
        if b:
            out.append(('ret', s, NONE))
        else:
            ip.put(s, r.a[0], r.a[1], mk('init', v))
            out.append(('ret', s, some(mk('last', v))))
    return out


@model('alloc::collections::vec_deque::VecDeque::pop_front')
def _popf(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    ss = segs(v)
    if ss and ss[0].op == 'one':
        ip.put(st, r.a[0], r.a[1], mklist(ss[1:]))
        return R(st, some(ss[0].a[0]))
    out = []
    for s, b in ip.branch(st, eq0(ip.length(v))):
        if b:
            out.append(('ret', s, NONE))
        else:
            ip.put(s, r.a[0], r.a[1], mk('tail', v))
            out.append(('ret', s, some(mk('nth', v, 0))))
    return out


@model('alloc::vec::Vec::insert', 'alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove', 'alloc::vec::Vec::truncate', 'alloc::vec::Vec::retain',
       'alloc::vec::Vec::dedup', 'alloc::vec::Vec::split_off', 'alloc::vec::Vec::drain', 'alloc::slice::sort', 'core::slice::sort_unstable', 'core::slice::swap')
def _vecmut(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    if info['name'] in ('remove', 'swap_remove') and isconst(args[1], 'int'):
        k, v = cval(args[1]), ip.deref(st, r)
        ss = segs(v)
        if info['name'] == 'remove' and len(ss) > k and all(s.op == 'one' for s in ss[:k + 1]):
            ip.put(st, r.a[0], r.a[1], mklist(ss[:k] + ss[k + 1:]))
            return R(st, ss[k].a[0])
        if k == 0 and (info['name'] == 'remove' or ip.decide(st, eq0(ladd(ip.length(v), I(-1))))):
            out = []
            for s, b in ip.branch(st, eq0(ip.length(v))):
                if b:
                    out.extend(panic(ip, s, fr, 'index', t))
                else:
                    ip.put(s, r.a[0], r.a[1], mk('tail', v))
                    out.append(('ret', s, mk('nth', v, 0)))
            return out
    xs = [ip.snap(st, a) for a in args]
    upd(ip, st, r, lambda v: app('vec_' + info['name'], *xs))
    return R(st, app('vec_' + info['name'] + '_ret', *xs))


@model('alloc::vec::from_elem')
def _from_elem(ip, st, fr, args, info, t):
    x, n = args
    if isconst(n, 'int') and cval(n) <= 16:
        return R(st, mklist([one(x)] * cval(n)))
    return R(st, app('from_elem', x, n))


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def _index(ip, st, fr, args, info, t):
    sty = strip_ref(tysub(ip, fr, info['self']))
    ity = strip_ref(tysub(ip, fr, info['a'][1])) if len(info['a']) > 1 else None
    v, i = ip.deref(st, args[0]), ip.deref(st, args[1])
    mut = info['name'] == 'index_mut'
    if sty['k'] == 'adt' and sty['p'] in MAPPY:
        out = []
        for s, b in ip.branch(st, mk('has', v, ip.snap(st, i))):
            out.extend(R(s, mk('entryval', v, ip.snap(st, i))) if b else panic(ip, s, fr, 'index', t))
        return out
    if ity is not None and ity['k'] == 'uint':
        out = []
        ip.note_uint(ity, i)
        for s, b in ip.branch(st, lt(i, ip.length(v))):
            if not b:
                out.extend(panic(ip, s, fr, 'index', t))
            elif mut and args[0].op == 'mref':
                out.append(('ret', s, mk('mref', args[0].a[0], args[0].a[1] + (('i', i),))))
            else:
                out.append(('ret', s, ip.idx(v, i)))
        return out
    if ity is not None and ity['k'] == 'adt' and ity['p'].startswith('core::ops::range::Range'):
        lo, hi = range_bounds(ip, i, ity, v)
        if ity['p'] == 'core::ops::range::RangeFull':
            return R(st, args[0])
        stringy = is_strish(sty)
        if stringy and hi is ip.length(v):
            part = text_cut(ip, st, v, lo)
            if part is not None:
                return R(st, part[1])
        if stringy and lo is I(0):
            part = text_cut(ip, st, v, hi)
            if part is not None and part[0] is not None:
                return R(st, part[0])
        out, good = [], [st]
        nxt = []
        for s in good:
            for s2, b in ip.branch(s, le(lo, hi)):
                nxt.append(s2) if b else out.extend(panic(ip, s2, fr, 'index', t))
        good, nxt = nxt, []
        for s in good:
            for s2, b in ip.branch(s, le(hi, ip.length(v))):
                nxt.append(s2) if b else out.extend(panic(ip, s2, fr, 'index', t))
        for s in nxt:
            sl = slice_str(ip, v, lo, hi) if stringy else None
            if sl is not None:
                out.append(('ret', s, sl))
                continue
            if stringy:
                out.extend((k, s2, w + (mk('slice', v, lo, hi),)) for k, s2, w in panic(ip, s.fork(), fr, 'char boundary', t))
            if args[0].op == 'mref' and mut:
                return NotImplemented
            out.append(('ret', s, v if lo is I(0) and hi is ip.length(v) and not stringy else mk('slice', v, lo, hi)))
        return out
    return NotImplemented


def range_bounds(ip, r, ity, v):
    lo, hi = I(0), ip.length(v)
    n = ity['p'].split('::')[-1]
    if n == 'Range':
        lo, hi = ip.fld(r, '', 0, 'start'), ip.fld(r, '', 1, 'end')
    elif n == 'RangeFrom':
        lo = ip.fld(r, '', 0, 'start')
    elif n == 'RangeTo':
        hi = ip.fld(r, '', 0, 'end')
    elif n == 'RangeToInclusive':
        hi = ladd(ip.fld(r, '', 0, 'end'), I(1))
    elif n == 'RangeInclusive':
        lo, hi = ip.fld(r, '', 0, 'start'), ladd(ip.fld(r, '', 1, 'end'), I(1))
    return lo, hi


ASCII = cs_range('\0', '\x7f')


def text_cut(ip, st, v, n):
    """a text cut at a place known to lie between two characters -> (before or None, after)"""
    if n.op == 'len' and n.a[0].op == 'span' and n.a[0].a[0] is v:
        return n.a[0], mk('past', v, n.a[0].a[1])
    if v.op in ('str', 'c'):
        pass
    elif n is ip.length(v):
        # at the end: the place after a run known to take everything
        for a, pol in reversed(st.path):
            if pol and a.op == 'eq0' and a.a[0].op == 'len' and a.a[0].a[0].op == 'past' and a.a[0].a[0].a[0] is v:
                return mk('span', v, a.a[0].a[0].a[1]), a.a[0].a[0]
        if ip.decide(st, eq0(n)) is True:
            return S(''), v
    else:
        d = lin(lsub(ip.length(v), n))
        if d[0] == 0 and len(d[1]) == 1:
            (x, k), = d[1].items()
            if k == 1 and x.op == 'len' and x.a[0].op == 'past' and x.a[0].a[0] is v:
                return mk('span', v, x.a[0].a[1]), x.a[0]
    if isconst(n, 'int') and 0 < cval(n) <= 8:
        at = v
        for _ in range(cval(n)):
            # characters known to take one byte
            if ip.decide(st, eq0(ip.length(at))) is not False or not ip.decide(st, inset(ip.nom.head(at), ASCII)):
                break
            at = ip.nom.drop(at, 1)
        else:
            return None, at
        for a, pol in st.path:
            if pol and a.op == 'starts' and a.a[0] is v and isconst(a.a[1], 'str') and len(cval(a.a[1])) >= cval(n) and cval(a.a[1])[:cval(n)].isascii():
                return S(cval(a.a[1])[:cval(n)]), ip.nom.drop(v, cval(n))
    return None


def slice_str(ip, v, lo, hi):
    """slice of a text at piece boundaries"""
    ps = list(pieces(v))
    acc, start, end = I(0), None, None
    for j in range(len(ps) + 1):
        if acc is lo and start is None:
            start = j
        if acc is hi:
            end = j
        if j < len(ps):
            acc = ladd(acc, piece_len(ip, ps[j]))
    if start is not None and end is not None and start <= end:
        return mkstr(ps[start:end])
    if lo is I(0) and hi is ip.length(v):
        return v
    # constant leading text
    if isconst(lo, 'int') and ps and isconst(ps[0], 'str') and end is not None:
        s = cval(ps[0])
        k = cval(lo)
        if len(s.encode()) == len(s) and k <= len(s):
            return mkstr([S(s[k:])] + ps[1:end])
    return None


def piece_len(ip, p):
    return ip.length(p) if isconst(p) else mk('len', p)


# ------------------------------------------------------------------ maps
@model('alloc::collections::btree::map::BTreeMap::insert', 'std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::set::BTreeSet::insert')
def _minsert(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    k = ip.snap(st, args[1])
    x = ip.snap(st, args[2]) if len(args) > 2 else UNIT
    v = ip.deref(st, r)
    ip.put(st, r.a[0], r.a[1], mklist(segs(v) + (one(mk('tup', k, x)),), 'bmap'))
    return R(st, app('prev', v, k))


@model('alloc::collections::btree::map::BTreeMap::get', 'std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get_mut',
       'std::collections::hash::map::HashMap::get_mut')
def _mget(ip, st, fr, args, info, t):
    v, k = ip.deref(st, args[0]), ip.snap(st, ip.deref(st, args[1]))
    out = []
    for s, b in ip.branch(st, has(v, k)):
        if not b:
            out.append(('ret', s, NONE))
        elif info['name'] == 'get_mut' and args[0].op == 'mref':
            out.append(('ret', s, some(mk('mref', args[0].a[0], args[0].a[1] + (('entry', k),)))))
        else:
            out.append(('ret', s, some(entryval(v, k))))
    return out


def has(v, k):
    if v.op == 'bmap' and not v.a:
        return FALSE
    if v.op == 'bmap' and v.a[-1].op == 'one' and v.a[-1].a[0].a[0] is k:
        return TRUE
    return mk('has', v, k)


def entryval(v, k):
    if v.op == 'bmap' and v.a and v.a[-1].op == 'one' and v.a[-1].a[0].a[0] is k:
        return v.a[-1].a[0].a[1]
    if v.op == 'updentry' and v.a[1] is k:
        return v.a[2]
    return mk('entryval', v, k)


@model('alloc::collections::btree::map::BTreeMap::contains_key', 'std::collections::hash::map::HashMap::contains_key')
def _mck(ip, st, fr, args, info, t):
    return R(st, has(ip.deref(st, args[0]), ip.snap(st, ip.deref(st, args[1]))))


@model('alloc::collections::btree::map::BTreeMap::entry', 'std::collections::hash::map::HashMap::entry')
def _mentry(ip, st, fr, args, info, t):
    if args[0].op != 'mref':
        return NotImplemented
    return R(st, mk('entry', args[0], ip.snap(st, args[1])))


@model('alloc::collections::btree::map::entry::Entry::or_insert_with', 'std::collections::hash::map::Entry::or_insert_with',
       'alloc::collections::btree::map::entry::Entry::or_insert', 'std::collections::hash::map::Entry::or_insert',
       'alloc::collections::btree::map::entry::Entry::or_default', 'std::collections::hash::map::Entry::or_default')
def _moiw(ip, st, fr, args, info, t):
    e = args[0]
    if e.op != 'entry':
        return NotImplemented
    r, k = e.a
    v = ip.deref(st, r)
    ref = mk('mref', r.a[0], r.a[1] + (('entry', k),))
    out = []
    for s, b in ip.branch(st, has(v, k)):
        if b:
            out.append(('ret', s, ref))
            continue

        def fin(s2, x):
            ip.put(s2, r.a[0], r.a[1], mklist(segs(v) + (one(mk('tup', k, ip.snap(s2, x))),), 'bmap'))
            return R(s2, ref)
        if info['name'] == 'or_insert':
            out.extend(fin(s, args[1]))
        elif info['name'] == 'or_default':
            ty = tysub(ip, fr, info['a'][1])
            out.extend(then(default_of(ip, s, fr, ty, t), fin))
        else:
            out.extend(then(callf(ip, s, fr, args[1], [], t), fin))
    return out


# ------------------------------------------------------------------ text
@model('alloc::string::String::push')
def _spush(ip, st, fr, args, info, t):
    if args[0].op != 'mref':
        return NotImplemented
    c = args[1]
    p = S(cval(c)) if isconst(c, 'char') else mk('chr', c)
    upd(ip, st, args[0], lambda v: mkstr(pieces(v) + (p,)))
    return R(st, UNIT)


@model('alloc::string::String::push_str')
def _spushs(ip, st, fr, args, info, t):
    if args[0].op != 'mref':
        return NotImplemented
    x = ip.deref(st, args[1])
    upd(ip, st, args[0], lambda v: mkstr(pieces(v) + pieces(x)))
    return R(st, UNIT)


def has_trail(v):
    return v.op == 'each' and all(ps and isconst(ps[-1], 'str') for _, ps in v.a[1])


def chop(p, n):
    """drop n trailing characters from a tuple of pieces that ends in constant text"""
    s = cval(p[-1])
    return tuple(pieces(mkstr(p[:-1] + (S(s[:-n]),)))) if len(s) >= n else None


def spop(ip, st, v):
    """-> [(st, popped option, rest)]"""
    ps = list(pieces(v))
    if not ps:
        return [(st, NONE, v)]
    last = ps[-1]
    if isconst(last, 'str'):
        s = cval(last)
        return [(st, some(CH(s[-1])), mkstr(ps[:-1] + [S(s[:-1])]))]
    if last.op == 'chr':
        return [(st, some(last.a[0]), mkstr(ps[:-1]))]
    if last.op in ('each', 'trim') and ps:
        src = last.a[0]
        k = last.a[2] if last.op == 'trim' else 0
        cases = last.a[1]
        ne = ip.decide(st, eq0(ip.length(src)))
        if ne is False and all(c[1] and isconst(c[1][-1], 'str') and len(cval(c[1][-1])) > k for c in cases) and uniform(ip, cases):
            nt = trim(src, cases, k + 1)
            return [(st, some(top('popped')), mkstr(ps[:-1] + [nt]))]
    return [(st, mk('popopt', v), mk('popped', v))]


def uniform(ip, cases):
    return _interp.exhaustive(ip, [g for g, _ in cases])


def trim(src, cases, k):
    """text of a non-empty traversal with its last k characters removed"""
    suf = None
    for g, ps in cases:
        s = cval(ps[-1])
        suf = s if suf is None else common_suffix(suf, s)
    if len(suf) == k:
        sep = S(suf)
        return mk('join', src, tuple((g, chop(ps, k)) for g, ps in cases), sep)
    return mk('trim', src, cases, k)


def common_suffix(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[-1 - n] == b[-1 - n]:
        n += 1
    return a[len(a) - n:]


def fix_trim(src, cases, k):
    return trim(src, cases, k)


@model('alloc::string::String::pop')
def _strpop(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    out = []
    for s, o, rest in spop(ip, st, ip.deref(st, r)):
        ip.put(s, r.a[0], r.a[1], rest)
        out.append(('ret', s, o))
    return out


@model('alloc::string::String::truncate')
def _strtrunc(ip, st, fr, args, info, t):
    r, n = args
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    sl = slice_str(ip, v, I(0), n)
    if sl is not None:
        ip.put(st, r.a[0], r.a[1], sl)
        return R(st, UNIT)
    # removing a constant number of trailing characters
    d = lsub(ip.length(v), n)
    if isconst(d, 'int') and cval(d) >= 0:
        cur = [(st, v)]
        for _ in range(cval(d)):
            nx = []
            for s, x in cur:
                nx.extend((s2, rest) for s2, o, rest in spop(ip, s, x))
            cur = nx
        if all(not mentions(x, 'popped') for _, x in cur):
            for s, x in cur:
                ip.put(s, r.a[0], r.a[1], x)
            return [('ret', s, UNIT) for s, x in cur]
    ip.put(st, r.a[0], r.a[1], mk('truncated', v, n))
    return R(st, UNIT)


@model('alloc::string::String::insert', 'alloc::string::String::insert_str', 'alloc::string::String::remove', 'alloc::string::String::retain',
       'alloc::string::String::replace_range', 'alloc::string::String::drain')
def _strmut(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    xs = [ip.snap(st, a) for a in args]
    upd(ip, st, r, lambda v: app('str_' + info['name'], *xs))
    return R(st, app('str_' + info['name'] + '_ret', *xs))


@simple('core::str::chars')
def _chars(ip, st, s):
    return mk('iter', chars_of(s), ())


@simple('core::str::escape_default', 'core::str::escape_debug', 'core::str::escape_unicode')
def _escape(ip, st, s):
    return mk('iter', mk('app', 'escaped', s), ())


def chars_of(s):
    if isconst(s, 'str'):
        return mk('list', *[one(CH(c)) for c in cval(s)])
    if s.op == 'str' and all(p.op == 'chr' for p in s.a):
        return mk('list', *[one(p.a[0]) for p in s.a])
    return mk('chars', s)


@simple('core::str::bytes')
def _bytes(ip, st, s):
    if isconst(s, 'str'):
        return mk('iter', mk('list', *[one(I(b)) for b in cval(s).encode()]), ())
    return mk('iter', mk('chars', s), ())


@simple('core::str::char_indices')
def _chari(ip, st, s):
    return mk('iter', mk('char_indices', s), ())


@simple('core::str::lines')
def _lines(ip, st, s):
    return mk('iter', mk('lines', s), ())


@model('core::str::trim', 'core::str::trim_start', 'core::str::trim_end', 'core::str::to_lowercase', 'core::str::to_uppercase', 'alloc::str::to_lowercase', 'alloc::str::to_uppercase',
       'alloc::str::replace')
def _trimmed(ip, st, fr, args, info, t):
    return R(st, mk('app', 'str.' + info['name'], *[ip.snap(st, a) for a in args]))


@model('alloc::str::repeat')
def _repeat(ip, st, fr, args, info, t):
    s, n = ip.deref(st, args[0]), ip.deref(st, args[1])
    if isconst(n, 'int') and isconst(s, 'str') and cval(n) * len(cval(s)) < 4096:
        return R(st, S(cval(s) * cval(n)))
    return R(st, mkstr((mk('each', mk('range', I(0), n), (((), pieces(s)),)),)))


@model('core::iter::sources::repeat::repeat', 'core::iter::sources::repeat_n::repeat_n')
def _itrepeat(ip, st, fr, args, info, t):
    x = ip.snap(st, args[0])
    if len(args) == 2:
        return R(st, mk('iter', mk('range', I(0), args[1]), (('const', x),)))
    return R(st, mk('app', 'forever', x))


def pat_test(ip, st, fr, pat, c, t):
    """does the character satisfy the pattern -> [(st, term)] or None"""
    p = ip.deref(st, pat)
    if isconst(p, 'char'):
        return [(st, inset(c, cs_of(cval(p))))]
    if isconst(p, 'str') and len(cval(p)) == 1:
        return [(st, inset(c, cs_of(cval(p))))]
    if p.op in ('arr', 'list') and all(isconst(s.a[0], 'char') for s in segs(p) if s.op == 'one'):
        return [(st, inset(c, cs_of(''.join(cval(s.a[0]) for s in segs(p)))))]
    if p.op in ('clo', 'fn'):
        outs = ip.call_value(st, fr, pat, [c], t)
        if all(k == 'ret' for k, _, _ in outs):
            return [(s, v) for _, s, v in outs]
    return None


@model('core::str::contains')
def _contains(ip, st, fr, args, info, t):
    s = ip.deref(st, args[0])
    p = ip.deref(st, args[1])
    if isconst(p, 'char') or (isconst(p, 'str') and len(cval(p)) == 1) or p.op in ('clo', 'fn') or (p.op in ('arr', 'list') and p.a):
        it = mk('iter', chars_of(s), ())

        def test(s0, x):
            r = pat_test(ip, s0, fr, args[1], x, t)
            if r is None:
                raise Unknown('pattern')
            return r
        return any_loop(ip, st, fr, it, test, t)
    pty = strip_ref(tysub(ip, fr, info['a'][-1])) if info['a'] else None
    if pty is not None and pty['k'] == 'char':
        if isconst(s, 'str'):
            return R(st, inset(p, cs_of(cval(s))))
        return any_loop(ip, st, fr, mk('iter', chars_of(s), ()), lambda s0, x: [(s0, ip.char_eq(x, p))], t)
    return R(st, mk('contains', s, p))


@model('core::slice::contains')
def _slcontains(ip, st, fr, args, info, t):
    v, c = ip.deref(st, args[0]), ip.deref(st, args[1])
    if v.op in ('arr', 'list') and v.a and all(x.op == 'one' and isconst(x.a[0], 'char') for x in segs(v)):
        return R(st, inset(c, cs_of(''.join(cval(x.a[0]) for x in segs(v)))))
    return NotImplemented


@model('core::str::get')
def _strget(ip, st, fr, args, info, t):
    ity = strip_ref(tysub(ip, fr, info['a'][-1])) if info['a'] else None
    if ity is None:
        return NotImplemented
    v = ip.deref(st, args[0])
    i = ip.deref(st, args[1])
    lo, hi = range_bounds(ip, i, ity, v)
    if hi is not ip.length(v):
        return NotImplemented
    part = text_cut(ip, st, v, lo)
    if part is not None:
        return R(st, some(part[1]))
    if lo is I(0):
        return R(st, some(v))
    out = []
    for s, b in ip.branch(st, le(lo, hi)):
        if not b:
            out.append(('ret', s, NONE))
            continue
        for s2, c in ip.branch(s, mk('boundary', v, lo)):
            out.append(('ret', s2, some(mk('slice', v, lo, hi)) if c else NONE))
    return out


@model('core::str::starts_with')
def _starts(ip, st, fr, args, info, t):
    s = ip.deref(st, args[0])
    p = ip.deref(st, args[1])
    if isconst(s, 'str') and isconst(p):
        return R(st, B(cval(s).startswith(cval(p))))
    if isconst(p, 'char') or p.op in ('clo', 'fn') or (p.op in ('arr', 'list') and p.a):
        out = []
        ch = chars_of(s)
        for s2, e in ip.branch(st, eq0(ip.length(s))):
            if e:
                out.append(('ret', s2, FALSE))
            else:
                r = pat_test(ip, s2, fr, args[1], mk('nth', ch, 0), t)
                if r is None:
                    return NotImplemented
                out.extend(('ret', s3, v) for s3, v in r)
        return out
    if isconst(p, 'str'):
        return [('ret', s2, B(b)) for s2, b in ip.nom.starts(ip, st, s, p)]
    return R(st, mk('starts', s, p))


def one_char(p):
    return isconst(p, 'char') or (isconst(p, 'str') and len(cval(p)) == 1) or p.op in ('clo', 'fn') or (p.op in ('arr', 'list') and p.a)


@model('core::str::trim_start_matches')
def _trimsm(ip, st, fr, args, info, t):
    s = ip.deref(st, args[0])
    if not one_char(ip.deref(st, args[1])):
        return NotImplemented
    return R(st, ip.nom.run(ip, st, s, ip.nom.pred_of(ip, st, fr, args[1], t))[0])


def goes_to_unwrap_or(fr, t):
    """the result of this call is handed straight to unwrap_or"""
    d = t.get('d') if isinstance(t, dict) else None
    if not d or d['p'] or t.get('to') is None:
        return False
    b = t['to']
    for _ in range(6):
        n = fr.body['blocks'][b]['t']
        if n['t'] == 'call':
            f = n['f'].get('c', {}).get('fn') or {}
            a = n['args'] and n['args'][0].get('p')
            if a and a['l'] == d['l'] and not a['p']:
                return f.get('name') in ('unwrap_or', 'unwrap_or_else')
        elif n['t'] != 'goto':
            return False
        b = n.get('to')
        if b is None:
            return False
    return False


def found_or(ip, st, v, other):
    """a search that gives the text's length when nothing is found is the length of the run before the match"""
    s, rest, n = v.a
    if other == ip.length(s):
        return R(st, n)
    out = []
    for s2, e in ip.branch(st, eq0(ip.length(rest))):
        if e:
            s2.path += ((eq0(mk('len', rest)), True),)
        out.append(('ret', s2, other if e else n))
    return out


_unwrap_or, _unwrap_or_else = MODELS['core::option::Option::unwrap_or'], MODELS['core::option::Option::unwrap_or_else']


@model('core::option::Option::unwrap_or')
def _(ip, st, fr, args, info, t):
    if args[0].op == 'found':
        return found_or(ip, st, args[0], ip.deref(st, args[1]))
    return _unwrap_or(ip, st, fr, args, info, t)


@model('core::option::Option::unwrap_or_else')
def _(ip, st, fr, args, info, t):
    if args[0].op == 'found':
        return then(callf(ip, st, fr, args[1], [], t), lambda s2, v: found_or(ip, s2, args[0], v))
    return _unwrap_or_else(ip, st, fr, args, info, t)


@model('core::str::find')
def _sfind(ip, st, fr, args, info, t):
    s = ip.deref(st, args[0])
    if not one_char(ip.deref(st, args[1])) or isconst(s, 'str'):
        return NotImplemented
    rest, span = ip.nom.run(ip, st, s, ip.nom.pred_of(ip, st, fr, args[1], t, negate=True))
    if rest.op == 'past' and goes_to_unwrap_or(fr, t):
        return R(st, mk('found', s, rest, ip.length(span)))
    out = []
    for s2, e in ip.branch(st, eq0(ip.length(rest))):
        if e and rest.op == 'past':
            # which run it was that took everything
            s2.path += ((eq0(mk('len', rest)), True),)
        out.append(('ret', s2, NONE if e else some(ip.length(span))))
    return out


@model('core::str::split_at')
def _splitat(ip, st, fr, args, info, t):
    s, n = ip.deref(st, args[0]), ip.deref(st, args[1])
    part = text_cut(ip, st, s, n)
    if part is None or part[0] is None:
        return NotImplemented
    return R(st, mk('tup', *part))


@model('core::str::ends_with')
def _ends(ip, st, fr, args, info, t):
    s = ip.deref(st, args[0])
    p = ip.deref(st, args[1])
    return R(st, mk('ends', s, p))


@model('core::str::strip_prefix')
def _stripp(ip, st, fr, args, info, t):
    s, p = ip.deref(st, args[0]), ip.deref(st, args[1])
    if isconst(p, 'char'):
        p = S(cval(p))
    if isconst(p, 'str'):
        return [('ret', s2, some(ip.nom.drop(s, len(cval(p)))) if b else NONE) for s2, b in ip.nom.starts(ip, st, s, p)]
    out = []
    for s2, b in ip.branch(st, mk('starts', s, p)):
        out.append(('ret', s2, some(mk('stripped', s, p)) if b else NONE))
    return out


@model('core::str::parse')
def _sparse(ip, st, fr, args, info, t):
    via = info.get('via')
    if via is not None and via['id'] in ip.p.fns:
        fn = ip.p.fns[via['id']]
        return ip.enter(st, fr, fn, args, ip.env_for(fn, via['a'], fr.env), t)
    ty = tysub(ip, fr, info['a'][0]) if info['a'] else None
    if ty is not None:
        f = ip.resolve('core::str::traits::FromStr', 'from_str', ty, [])
        if f is not None:
            return ip.enter(st, fr, f, args, {}, t)
        return R(st, app('parse_' + tykey(ty), ip.deref(st, args[0])))
    return NotImplemented


# ------------------------------------------------------------------ formatting
def run_display(ip, st, fr, fn, x, t, env=None):
    """text produced by a local Display implementation -> [(kind, st, text)]"""
    c = ip.newcell(st, S(''))
    outs = []
    # a refused write inside is a refusal of the text as a whole
    faults, ip.faults = ip.faults, None
    try:
        entered = ip.enter(st, fr, fn, [x, mk('mref', c, ())], env or {}, t)
    finally:
        ip.faults = faults
    for k, s, v in entered:
        if k == 'ret':
            txt = s.cells.pop(c)
            outs.append((k, s, txt))
        else:
            outs.append((k, s, v))
    return outs


def display_text(ip, st, fr, x, ty, t):
    v = ip.snap(st, ip.deref(st, x))
    ty = strip_ref(ty)
    while ty is not None and ty['k'] == 'adt' and ty['p'] in ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc', 'alloc::borrow::Cow') and ty['a']:
        if is_strish(ty):
            break
        ty = strip_ref(ty['a'][0])
    if is_strish(ty):
        if v.op == 'adt' and v.a[0] == COW:
            v = v.a[2]
        return R(st, v)
    if ty is not None and ty['k'] == 'char':
        return R(st, S(cval(v)) if isconst(v, 'char') else mk('str', mk('chr', v)))
    if ty is not None and ty['k'] in ('int', 'uint') and isconst(v, 'int'):
        return R(st, S(str(cval(v))))
    if ty is not None and ty['k'] == 'adt':
        f = ip.resolve('core::fmt::Display', 'fmt', ty, [])
        if f is not None:
            return run_display(ip, st, fr, f, v, t)
    return R(st, mkstr((mk('disp', tykey(ty), v),)))


@model('core::fmt::rt::Argument::new_display')
def _argd(ip, st, fr, args, info, t):
    ty = tysub(ip, fr, info['a'][-1]) if info['a'] else None
    return display_text(ip, st, fr, args[0], ty, t)


@model('core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex',
       'core::fmt::rt::Argument::new_octal', 'core::fmt::rt::Argument::new_binary', 'core::fmt::rt::Argument::new_lower_exp', 'core::fmt::rt::Argument::new_upper_exp',
       'core::fmt::rt::Argument::from_usize')
def _argdbg(ip, st, fr, args, info, t):
    return R(st, mk('str', mk('dbg', info['name'], ip.snap(st, ip.deref(st, args[0])))))


# debug text of these is a matter of their own rules
OWN_DEBUG = ('Kserd', 'Value', 'Kstr', 'Barr', 'Number', 'Node')


def debug_item(ip, st, fr, x, t):
    """what a debug text shows of x: x itself, or the text a helper type of this crate writes"""
    v = ip.snap(st, ip.deref(st, x))
    while v.op in ('ref', 'mref'):
        v = ip.snap(st, ip.deref(st, v))
    if v.op == 'adt' and v.a[0] in ip.p.adts and ip.p.adts[v.a[0]]['local'] and v.a[0].split('::')[-1] not in OWN_DEBUG:
        f = ip.resolve('core::fmt::Debug', 'fmt', {'k': 'adt', 'p': v.a[0], 'a': []}, [])
        if f is not None:
            return run_display(ip, st, fr, f, v, t)
    return R(st, v)


def as_debug(v):
    return pieces(v) if v.op == 'str' and any(p.op in ('c', 'dbg', 'dbgout') for p in v.a) else (mk('dbg', 'new_debug', v),)


@model('core::fmt::rt::Argument::new_debug')
def _argdebug(ip, st, fr, args, info, t):
    return then(debug_item(ip, st, fr, args[0], t), lambda s, v: R(s, mkstr(as_debug(v))))


@model('core::fmt::Debug::fmt')
def _debugfmt(ip, st, fr, args, info, t):
    r = args[1]
    if r.op != 'mref':
        return NotImplemented

    def k(s, v):
        upd(ip, s, r, lambda x: mkstr(pieces(x) + tuple(as_debug(v))))
        return written(ip, s, r)
    return then(debug_item(ip, st, fr, args[0], t), k)


def dbg_ref(ip, st, r):
    n = 0
    while r.op == 'mref' and ip.get(st, r.a[0], r.a[1]).op == 'mref' and n < 5:
        r = ip.get(st, r.a[0], r.a[1])
        n += 1
    return r if r.op == 'mref' else None


def _dbgnew(ip, st, fr, args, info, t):
    r = dbg_ref(ip, st, args[0])
    if r is None:
        return NotImplemented
    name = ip.deref(st, args[1]) if len(args) > 1 else S('')
    return R(st, mklist((one(mk('dbghead', info['name'][6:], name, r.a[0], r.a[1])),)))


def _dbgfield(ip, st, fr, args, info, t):
    r = dbg_ref(ip, st, args[0])
    if r is None:
        return NotImplemented

    def more(acc, x):
        return then(acc, lambda s, vs: then(debug_item(ip, s, fr, x, t), lambda s2, v: R(s2, vs + (v,))))
    acc = R(st, ())
    for x in args[1:]:
        acc = more(acc, x)

    def k(s, vs):
        upd(ip, s, r, lambda v: mklist(segs(v) + (one(mk('tup', *vs) if len(vs) > 1 else vs[0]),)))
        return R(s, args[0])
    return then(acc, k)


def _dbgentries(ip, st, fr, args, info, t):
    r = dbg_ref(ip, st, args[0])
    if r is None:
        return NotImplemented
    it = it_arg(ip, st, args[1])
    if it is None:
        it = mk('iter', ip.snap(st, ip.deref(st, args[1])), ())

    def body(s, x):
        upd(ip, s, r, lambda v: mklist(segs(v) + (one(ip.snap(s, x)),)))
        return [('cont', s, None)]
    return [('ret', s, args[0]) if k == 'done' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


def _dbgfinish(ip, st, fr, args, info, t):
    r = dbg_ref(ip, st, args[0])
    if r is None:
        return NotImplemented
    v = ip.get(st, r.a[0], r.a[1])
    ss = segs(v)
    if not ss or ss[0].op != 'one' or ss[0].a[0].op != 'dbghead':
        return NotImplemented
    kind, name, c, path = ss[0].a[0].a
    kind = kind if info['name'] == 'finish' else kind + '..'
    to = mk('mref', c, path)
    upd(ip, st, to, lambda x: mkstr(pieces(x) + (mk('dbgout', kind, name, mklist(ss[1:])),)))
    return written(ip, st, to)


for k, add in (('Struct', 'field'), ('Tuple', 'field'), ('List', 'entry'), ('Set', 'entry'), ('Map', 'entry')):
    MODELS['core::fmt::Formatter::debug_' + k.lower()] = _dbgnew
    MODELS['core::fmt::builders::Debug%s::%s' % (k, add)] = _dbgfield
    MODELS['core::fmt::builders::Debug%s::entries' % k] = _dbgentries
    MODELS['core::fmt::builders::Debug%s::finish' % k] = _dbgfinish
    MODELS['core::fmt::builders::Debug%s::finish_non_exhaustive' % k] = _dbgfinish


def _dbgderive(ip, st, fr, args, info, t):
    """what a derived implementation calls"""
    r = dbg_ref(ip, st, args[0])
    if r is None:
        return NotImplemented
    rest = [ip.snap(st, ip.deref(st, x)) for x in args[2:]]
    if 'struct' in info['name']:
        rest = [mk('tup', a, b) for a, b in zip(rest[::2], rest[1::2])]
    upd(ip, st, r, lambda x: mkstr(pieces(x) + (mk('dbgout', info['name'].split('_')[1], ip.deref(st, args[1]), mklist([one(y) for y in rest])),)))
    return written(ip, st, r)


for n in range(1, 6):
    MODELS['core::fmt::Formatter::debug_tuple_field%d_finish' % n] = _dbgderive
    MODELS['core::fmt::Formatter::debug_struct_field%d_finish' % n] = _dbgderive


def decode_template(b):
    out, i, n = [], 0, 0
    while i < len(b):
        c = b[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(('lit', b[i + 1:i + 1 + c].decode()))
            i += 1 + c
        elif c == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            out.append(('lit', b[i + 3:i + 3 + ln].decode()))
            i += 3 + ln
        elif c >= 0xC0:
            fl = c & 0x3f
            i += 1
            opts = []
            if fl & 1:
                opts.append(('flags', bytes(b[i:i + 4])))
                i += 4
            if fl & 2:
                opts.append(('width', bytes(b[i:i + 2])))
                i += 2
            if fl & 4:
                opts.append(('prec', bytes(b[i:i + 2])))
                i += 2
            idx = n
            if fl & 8:
                idx = b[i] | b[i + 1] << 8
                i += 2
            if fl & 48:
                opts.append(('dyn', fl & 48))
            n = idx + 1
            out.append(('arg', idx, tuple(opts)))
        else:
            raise Unknown('fmt template byte %x' % c)
    return out


@model('core::fmt::Arguments::new')
def _args_new(ip, st, fr, args, info, t):
    tm, av = ip.deref(st, args[0]), ip.deref(st, args[1])
    if isconst(tm, 'bytes'):
        b = cval(tm)
    elif tm.op == 'arr':
        b = bytes(cval(x) for x in tm.a)
    else:
        return NotImplemented
    ss = [s.a[0] for s in segs(av)]
    ps = []
    for e in decode_template(b):
        if e[0] == 'lit':
            ps.append(S(e[1]))
        elif e[2]:
            ps.append(mk('fmtopt', ss[e[1]], repr(e[2])))
        else:
            ps.append(ss[e[1]])
    return R(st, mkstr(ps))


for n in ('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'alloc::fmt::format'):
    MODELS[n] = ident_deref


def written(ip, st, r):
    """what a write to r answers: success, and where faults are considered also a refusal"""
    c = ip.faults
    if c is None or r.a[0] != ip.argcells.get('*arg1'):
        return R(st, ok(UNIT))
    out = []
    for s, b in ip.branch(st, mk('refuses', ip.fresh())):
        if b:
            s.cells[c] = TRUE
        out.append(('ret', s, err(sym('refused')) if b else ok(UNIT)))
    return out


def _write(ip, st, fr, args, info, t):
    r = args[0]
    n = 0
    while r.op == 'mref' and ip.get(st, r.a[0], r.a[1]).op == 'mref' and n < 5:
        r = ip.get(st, r.a[0], r.a[1])
        n += 1
    if r.op != 'mref':
        return NotImplemented
    x = ip.deref(st, args[1])
    if isconst(x, 'char'):
        x = S(cval(x))
    elif info['name'] == 'write_char':
        x = mk('chr', x)
    upd(ip, st, r, lambda v: mkstr(pieces(v) + pieces(x)))
    return written(ip, st, r)


for n in ('core::fmt::Formatter::write_fmt', 'core::fmt::Formatter::write_str', 'core::fmt::Write::write_fmt', 'core::fmt::Write::write_str', 'core::fmt::Write::write_char',
          'core::io::write::Write::write_fmt', 'std::io::Write::write_fmt', 'core::fmt::Formatter::write_char'):
    MODELS[n] = _write


@model('core::fmt::Display::fmt')
def _dfmt(ip, st, fr, args, info, t):
    ty = tysub(ip, fr, info['self'])

    def k(s, txt):
        r = args[1]
        if r.op == 'mref':
            upd(ip, s, r, lambda v: mkstr(pieces(v) + pieces(txt)))
            return written(ip, s, r)
        return R(s, ok(UNIT))
    return then(display_text(ip, st, fr, args[0], ty, t), k)


@model('core::fmt::Formatter::pad')
def _pad(ip, st, fr, args, info, t):
    return _write(ip, st, fr, args, {'name': 'write_str'}, t)


@model('alloc::string::ToString::to_string')
def _to_string(ip, st, fr, args, info, t):
    ty = tysub(ip, fr, info['self'])
    return display_text(ip, st, fr, args[0], ty, t)


# ------------------------------------------------------------------ iterators
ITERS = 'core::iter::traits::iterator::Iterator::'


def as_iter(ip, v):
    """iterator term of a value, or None"""
    if v.op == 'iter':
        return v
    if v.op == 'adv':
        return None
    if v.op == 'lv':
        i = ip.lvinit.get(v)
        return as_iter(ip, i) if i is not None else None
    if v.op == 'adt' and v.a[0] == 'core::ops::range::Range':
        return mk('iter', span(v.a[2], v.a[3]), ())
    if v.op == 'adt' and v.a[0] == 'core::ops::range::RangeInclusive':
        return mk('iter', span(v.a[2], v.a[3], 1), ())
    if v.op in ('list', 'arr', 'bmap'):
        return mk('iter', v, ())
    if v.op == 'adt' and v.a[0] == OPTION:
        return mk('iter', mk('list', one(v.a[2])) if v.a[1] == 'Some' else mk('list'), ())
    if v.op in ('sym', 'fld', 'app', 'nth', 'elem', 'idx', 'entryval', 'all', 'keys', 'eff', 'updidx', 'rev', 'tail', 'init', 'fold', 'loopval'):
        return mk('iter', v, ())
    return None


def span(lo, hi, more=0):
    """the members of a range in ascending order"""
    if isconst(lo, 'char') and isconst(hi, 'char'):
        return mk('chrange', CS(((ord(cval(lo)), ord(cval(hi)) + more),)))
    if isconst(lo, 'char') or isconst(hi, 'char'):
        raise Unknown('range of characters')
    return mk('range', lo, ladd(hi, I(more)))


def iter_src(ip, it):
    s = it.a[0]
    return norm_src(s)


def norm_src(s):
    if s.op == 'range' and s.a[0] is I(0) and s.a[1].op == 'len':
        return s.a[1].a[0]
    return s


def elem_term(s):
    """generic element of a source"""
    if s.op == 'range' and s.a[0] is I(0) and s.a[1].op == 'len':
        return mk('pos', s.a[1].a[0])
    return mk('elem', s)


def concrete_items(ip, s):
    if s.op in ('list', 'arr', 'bmap') and all(x.op == 'one' for x in segs(s)):
        return [x.a[0] for x in segs(s)]
    if s.op == 'range' and isconst(s.a[0], 'int') and isconst(s.a[1], 'int') and cval(s.a[1]) - cval(s.a[0]) <= 64:
        return [I(i) for i in range(cval(s.a[0]), cval(s.a[1]))]
    if isconst(s, 'bytes'):
        return [I(b) for b in cval(s)]
    if s.op == 'enumd':
        x = concrete_items(ip, s.a[0])
        return None if x is None else [mk('tup', I(i), v) for i, v in enumerate(x)]
    return None


def concrete_len(ip, it):
    x = concrete_items(ip, it.a[0])
    return None if x is None else len(x)


def apply_stages(ip, st, fr, x, stages, src, t):
    """-> [(kind, st, value|None)]; value None = skipped by a filter"""
    cur = [('ret', st, x)]
    for sg in stages:
        nxt = []
        for k, s, v in cur:
            if k != 'ret' or v is None:
                nxt.append((k, s, v))
                continue
            n = sg[0]
            if n == 'proj':
                nxt.append((k, s, ip.fld(v, '', sg[1], str(sg[1]))))
            elif n == 'const':
                nxt.append((k, s, sg[1]))
            elif n == 'enum':
                nxt.append((k, s, mk('tup', mk('pos', norm_src(src)), v)))
            elif n == 'count':
                at = ladd(mk('pos', norm_src(src)), I(sg[1]))
                nxt.append((k, s, mk('tup', at, v) if sg[2] else mk('tup', v, at)))
            elif n == 'map':
                nxt.extend(callf(ip, s, fr, sg[1], [v], t))
            elif n == 'filter':
                for k2, s2, b in callf(ip, s, fr, sg[1], [v], t):
                    if k2 != 'ret':
                        nxt.append((k2, s2, b))
                        continue
                    for s3, bv in ip.branch(s2, b):
                        nxt.append(('ret', s3, v if bv else None))
            elif n == 'filter_map':
                for k2, s2, o in callf(ip, s, fr, sg[1], [v], t):
                    if k2 != 'ret':
                        nxt.append((k2, s2, o))
                        continue
                    for s3, nm, p in fork_enum(ip, s2, o, OPTION):
                        nxt.append(('ret', s3, p if nm == 'Some' else None))
            elif n == 'inspect':
                for k2, s2, o in callf(ip, s, fr, sg[1], [v], t):
                    nxt.append((k2, s2, v if k2 == 'ret' else o))
            else:
                raise Unknown('iterator stage %s' % n)
        cur = nxt
    return cur


def pair_up(src, el):
    """elements of a map are (key, value) pairs"""
    return el


def next_outcomes(ip, st, fr, ref, t):
    """advance the iterator behind ref -> [(kind, st, Option term | None if skipped)]"""
    v = ip.deref(st, ref)
    cell, path = ref.a
    if v.op == 'exhausted':
        return [('ret', st, NONE)]
    it = as_iter(ip, v)
    if it is None:
        return None
    src, stages = it.a
    out = []
    if v.op == 'lv':
        for s, b in ip.branch(st, mk('exh', v)):
            if b:
                out.append(('ret', s, NONE))
            else:
                ip.put(s, cell, path, mk('adv', v))
                for k, s2, x in apply_stages(ip, s, fr, elem_term(src), stages, src, t):
                    out.append((k, s2, x if k != 'ret' else None if x is None else some(x)))
        return out
    items = concrete_items(ip, src)
    if items is not None:
        if not items:
            return [('ret', st, NONE)]
        rest = mk('list', *[one(i) for i in items[1:]])
        if any(sg[0] in ('enum', 'count') for sg in stages):
            # positions are attached before the first element is taken
            raise Unknown('enumerate over literal')
        ip.put(st, cell, path, mk('iter', rest, stages))
        for k, s2, x in apply_stages(ip, st, fr, items[0], stages, src, t):
            out.append((k, s2, x if k != 'ret' else None if x is None else some(x)))
        return out
    if src.op in ('range',):
        emp = le(src.a[1], src.a[0])
    elif src.op == 'chars':
        emp = eq0(ip.length(src.a[0]))
    elif src.op == 'skip' and isinstance(src.a[1], int):
        emp = le(ip.length(src.a[0]), I(src.a[1]))
    else:
        emp = eq0(ip.length(src))
    for s, b in ip.branch(st, emp):
        if b:
            out.append(('ret', s, NONE))
        else:
            if src.op == 'range':
                first, rest = src.a[0], mk('range', ladd(src.a[0], I(1)), src.a[1])
            else:
                first, rest = first_of(ip, src), rest_of(src)
            ip.put(s, cell, path, mk('iter', rest, stages))
            for k, s2, x in apply_stages(ip, s, fr, first, stages, src, t):
                out.append((k, s2, x if k != 'ret' else None if x is None else some(x)))
    return out


def first_of(ip, src):
    if src.op == 'skip':
        return mk('nth', src.a[0], src.a[1]) if isinstance(src.a[1], int) else mk('nth', src, 0)
    ss = segs(src)
    if ss and ss[0].op == 'one':
        return ss[0].a[0]
    return mk('nth', src, 0)


def rest_of(src):
    if src.op == 'skip' and isinstance(src.a[1], int):
        return mk('skip', src.a[0], src.a[1] + 1)
    ss = segs(src)
    if ss and ss[0].op == 'one':
        return mklist(ss[1:])
    return mk('skip', src, 1)


@model(ITERS + 'next')
def _next(ip, st, fr, args, info, t):
    r = args[0]
    n = 0
    while r.op == 'mref' and ip.get(st, r.a[0], r.a[1]).op == 'mref' and n < 4:
        r = ip.get(st, r.a[0], r.a[1])
        n += 1
    if r.op != 'mref':
        return NotImplemented
    o = next_outcomes(ip, st, fr, r, t)
    if o is None:
        return NotImplemented
    out = []
    for k, s, v in o:
        if k == 'ret' and v is None:
            # skipped element: this step of the loop ends here
            out.append(('skip', s, r))
            continue
        out.append((k, s, v))
    return out


def stage(name):
    def f(ip, st, fr, args, info, t):
        v = ip.deref(st, args[0])
        it = as_iter(ip, v)
        if it is None:
            return NotImplemented
        return R(st, mk('iter', it.a[0], it.a[1] + ((name,) + tuple(ip_arg(ip, st, a) for a in args[1:]),)))
    return f


def ip_arg(ip, st, a):
    return a


for n in ('map', 'filter', 'filter_map', 'inspect'):
    MODELS[ITERS + n] = stage(n)


@model(ITERS + 'enumerate')
def _enumerate(ip, st, fr, args, info, t):
    it = as_iter(ip, ip.deref(st, args[0]))
    if it is None:
        return NotImplemented
    items = concrete_items(ip, it.a[0])
    if items is not None and not it.a[1]:
        return R(st, mk('iter', mk('list', *[one(mk('tup', I(i), x)) for i, x in enumerate(items)]), ()))
    if any(s[0] in ('filter', 'filter_map') for s in it.a[1]):
        return NotImplemented
    return R(st, mk('iter', it.a[0], it.a[1] + (('enum',),)))


for n in ('cloned', 'copied', 'fuse', 'peekable'):
    MODELS[ITERS + n] = lambda ip, st, fr, args, info, t: R(st, as_iter(ip, ip.deref(st, args[0]))) if as_iter(ip, ip.deref(st, args[0])) is not None else NotImplemented


@model(ITERS + 'rev')
def _revi(ip, st, fr, args, info, t):
    it = as_iter(ip, ip.deref(st, args[0]))
    if it is None:
        return NotImplemented
    items = concrete_items(ip, it.a[0])
    if items is not None:
        return R(st, mk('iter', mk('list', *[one(x) for x in items[::-1]]), it.a[1]))
    if it.a[0].op == 'rev':
        return R(st, mk('iter', it.a[0].a[0], it.a[1]))
    if any(s[0] in ('filter', 'filter_map') for s in it.a[1]) and any(s[0] == 'enum' for s in it.a[1]):
        return NotImplemented
    if any(s[0] == 'enum' for s in it.a[1]):
        # positions are those of the forward walk
        return R(st, mk('iter', mk('rev', it), ()))
    return R(st, mk('iter', mk('rev', it.a[0]), it.a[1]))


@model(ITERS + 'skip')
def _skip(ip, st, fr, args, info, t):
    it = as_iter(ip, ip.deref(st, args[0]))
    if it is None or any(s[0] in ('filter', 'filter_map', 'enum', 'count') for s in it.a[1]):
        return NotImplemented
    items = concrete_items(ip, it.a[0])
    if isconst(args[1], 'int'):
        k = cval(args[1])
        if k == 0:
            return R(st, it)
        if items is not None:
            return R(st, mk('iter', mk('list', *[one(x) for x in items[k:]]), it.a[1]))
        if it.a[0].op == 'skip' and isinstance(it.a[0].a[1], int):
            return R(st, mk('iter', mk('skip', it.a[0].a[0], it.a[0].a[1] + k), it.a[1]))
        return R(st, mk('iter', mk('skip', it.a[0], k), it.a[1]))
    return R(st, mk('iter', mk('skip', it.a[0], args[1]), it.a[1]))


def closure_ret(ip, st, f):
    """what a local closure returns"""
    v = ip.deref(st, f)
    fn = ip.p.fns.get(v.a[0]) if v.op == 'clo' else None
    return fn['body']['locals'][0]['ty'] if fn is not None else None


@model('alloc::slice::join')
def _sljoin(ip, st, fr, args, info, t):
    v, sep = ip.deref(st, args[0]), ip.deref(st, args[1])
    ss = segs(v) if v.op in ('list', 'arr') else ()
    if isconst(sep, 'str') and len(ss) == 1 and ss[0].op == 'each' and all(len(p) == 1 and p[0].op == 'one' for _, p in ss[0].a[1]) \
            and _interp.exhaustive(ip, [g for g, _ in ss[0].a[1]]):
        cases = tuple((g, tuple(pieces(p[0].a[0]))) for g, p in ss[0].a[1])
        return R(st, mkstr((mk('join', ss[0].a[0], cases, sep),)))
    return NotImplemented


@model(ITERS + 'take', ITERS + 'step_by', ITERS + 'take_while', ITERS + 'skip_while', ITERS + 'zip', ITERS + 'flat_map', ITERS + 'flatten', ITERS + 'scan', ITERS + 'map_while')
def _opaque_stage(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    if info['name'] == 'take' and v.op == 'app' and v.a[0] == 'forever':
        return R(st, mk('iter', mk('range', I(0), args[1]), (('const', v.a[1]),)))
    it = as_iter(ip, ip.deref(st, args[0]))
    if info['name'] in ('skip_while', 'take_while') and it is not None and it.a[0].op == 'chars' and not it.a[1]:
        rest, span = ip.nom.run(ip, st, it.a[0].a[0], ip.nom.pred_of(ip, st, fr, args[1], t))
        return R(st, mk('iter', chars_of(rest if info['name'] == 'skip_while' else span), ()))
    if info['name'] == 'flat_map' and it is not None:
        ret = closure_ret(ip, st, args[1])
        if ret is not None and ret['k'] == 'adt' and ret['p'] == OPTION:
            return R(st, mk('iter', it.a[0], it.a[1] + (('filter_map', ip.snap(st, args[1])),)))
    if info['name'] == 'zip':
        for me, other, first in ((v, ip.deref(st, args[1]), True), (ip.deref(st, args[1]), v, False)):
            if me.op == 'adt' and me.a[0] == 'core::ops::range::RangeFrom' and isconst(me.a[2], 'int'):
                o = as_iter(ip, other)
                if o is not None and not any(sg[0] in ('filter', 'filter_map') for sg in o.a[1]):
                    return R(st, mk('iter', o.a[0], o.a[1] + (('count', cval(me.a[2]), first),)))
    return R(st, mk('iter', app('it_' + info['name'], it if it is not None else args[0], *[ip.snap(st, a) for a in args[1:]]), ()))


@model(ITERS + 'chain')
def _chain(ip, st, fr, args, info, t):
    a, b = as_iter(ip, ip.deref(st, args[0])), as_iter(ip, ip.deref(st, args[1]))
    if a is None or b is None or a.a[1] or b.a[1]:
        return NotImplemented
    return R(st, mk('iter', mklist(segs(a.a[0]) + segs(b.a[0])), ()))


@model('core::slice::iter', 'alloc::collections::btree::map::BTreeMap::iter', 'alloc::vec::Vec::iter', 'core::option::Option::iter', 'std::collections::hash::map::HashMap::iter',
       'alloc::collections::vec_deque::VecDeque::iter')
def _iter(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    it = as_iter(ip, v)
    return R(st, it if it is not None else mk('iter', v, ()))


@model('core::iter::traits::collect::IntoIterator::into_iter')
def _into_iter(ip, st, fr, args, info, t):
    v = args[0]
    if v.op == 'mref':
        # iterating by mutable reference: keep advancing the same iterator, or walk a collection in place
        d = ip.deref(st, v)
        if d.op in ('iter', 'lv', 'exhausted', 'adv'):
            return R(st, v)
        ty = tysub(ip, fr, info['self'])
        if ty is not None and ty['k'] == 'ref' and ty['m']:
            return R(st, mk('iter', mk('inplace', v), ()))
        return R(st, v)
    if v.op == 'adt' and v.a[0] == 'core::ops::range::Range':
        return R(st, as_iter(ip, v))
    it = None
    ty = strip_ref(tysub(ip, fr, info['self']))
    if ty is not None and ty['k'] == 'adt' and ty['p'] in ip.p.adts and ty['p'].split('::')[0] not in ('core', 'alloc', 'std'):
        return R(st, v)   # a local type that is its own iterator
    if v.op in ('iter', 'lv', 'exhausted'):
        return R(st, v)
    it = as_iter(ip, v)
    return R(st, it if it is not None else mk('iter', v, ()))


@model('alloc::collections::btree::map::BTreeMap::keys', 'alloc::collections::btree::map::BTreeMap::values', 'alloc::collections::btree::map::BTreeMap::into_keys',
       'alloc::collections::btree::map::BTreeMap::into_values', 'std::collections::hash::map::HashMap::keys', 'std::collections::hash::map::HashMap::values',
       'std::collections::hash::map::HashMap::into_values')
def _keys(ip, st, fr, args, info, t):
    v = ip.deref(st, args[0])
    return R(st, mk('iter', v, (('proj', 0 if 'keys' in info['name'] else 1),)))


class _Stop(Exception):
    pass


def consume(ip, st, fr, it, body, t):
    """run body(st, element) for every element of it.
    body -> [(kind, st, v)] with kind 'cont' (next element), 'stop' (leave the loop with value v) or 'panic'.
    Result: [(kind, st, v)] with kind 'done' (exhausted), 'stop', 'panic'."""
    st = st.fork()
    cell = ('h', ip.fresh())
    if it.op == 'mref':
        ref = it
        it0 = ip.deref(st, ref)
    else:
        st.cells[cell] = it
        ref = mk('mref', cell, ())

    def iterate(s):
        outs = []
        o = next_outcomes(ip, s, fr, ref, t)
        if o is None:
            raise Unknown('iterator %s' % show(ip.deref(s, ref)))
        for k, s2, x in o:
            if k != 'ret':
                outs.append((k, s2, x))
            elif x is None:
                outs.append(('back', s2, None))
            elif x is NONE:
                outs.append(('exit', s2, 'done'))
            else:
                for k2, s3, v in body(s2, x.a[2]):
                    if k2 == 'cont':
                        outs.append(('back', s3, None))
                    elif k2 == 'stop':
                        outs.append(('stopped', s3, v))
                    else:
                        outs.append((k2, s3, v))
        return outs
    cur = ip.deref(st, ref)
    ci = as_iter(ip, cur)
    n = concrete_len(ip, ci) if ci is not None else None
    if n is not None and n <= 64:
        outs, live = [], [st]
        for _ in range(n + 2):
            nl = []
            for s in live:
                for k, s2, v in iterate(s):
                    (nl.append(s2) if k == 'back' else outs.append((k, s2, v)))
            live = nl
            if not live:
                break
            if len(live) > 400:
                raise Unknown('unrolled traversal forks')
    else:
        outs = ip.loop_engine(st, iterate, ip.frames[-1].fn['path'] if ip.frames else '')
    res_ = []
    for k, s, v in outs:
        if k == 'exit':
            res_.append(('done', s, None))
        elif k == 'stopped':
            res_.append(('stop', s, v))
        else:
            res_.append((k, s, v))
        s.cells.pop(cell, None)
    return res_


def any_loop(ip, st, fr, it, test, t):
    def body(s, x):
        out = []
        for s2, v in test(s, x):
            for s3, b in ip.branch(s2, v):
                out.append(('stop' if b else 'cont', s3, TRUE))
        return out
    out = []
    for k, s, v in consume(ip, st, fr, it, body, t):
        out.append(('ret', s, FALSE) if k == 'done' else ('ret', s, TRUE) if k == 'stop' else (k, s, v))
    return out


def it_arg(ip, st, a):
    """iterator argument: by value or by mutable reference"""
    if a.op == 'mref':
        n = 0
        while ip.get(st, a.a[0], a.a[1]).op == 'mref' and n < 4:
            a = ip.get(st, a.a[0], a.a[1])
            n += 1
        v = ip.deref(st, a)
        if as_iter(ip, v) is None:
            return None
        return a
    return as_iter(ip, a)


def closure_test(ip, fr, f, t, fails):
    def test(s, x):
        r = []
        for k, s2, v in callf(ip, s, fr, f, [x], t):
            if k == 'ret':
                r.append((s2, v))
            else:
                fails.append((k, s2, v))
        return r
    return test


@model(ITERS + 'any')
def _any(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    fails = []
    return any_loop(ip, st, fr, it, closure_test(ip, fr, args[1], t, fails), t) + fails


@model(ITERS + 'all')
def _all(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    fails = []
    ct = closure_test(ip, fr, args[1], t, fails)
    o = any_loop(ip, st, fr, it, lambda s, x: [(s2, neg(v)) for s2, v in ct(s, x)], t)
    return [(k, s, neg(v) if k == 'ret' else v) for k, s, v in o] + fails


@model(ITERS + 'find', ITERS + 'find_map', ITERS + 'position')
def _find(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    v0 = ip.deref(st, it) if it.op == 'mref' else it
    src = as_iter(ip, v0).a[0]
    nm = info['name']
    if nm == 'find' and src.op == 'chars' and not as_iter(ip, v0).a[1]:
        # the first character after the run of those that fail the test
        P = ip.nom.pred_of(ip, st, fr, args[1], t, True)
        at, _ = ip.nom.run(ip, st, src.a[0], P)
        if it.op == 'mref':
            ip.put(st, it.a[0], it.a[1], mk('iter', chars_of(ip.nom.drop(at, 1)), ()))
        test = eq0(ip.length(at))
        q = ip.run_to_end(test.a[0]) if test.op == 'eq0' else None
        return [('ret', s, NONE if e else some(ip.nom.head(at))) for s, e in ip.branch(st, test if q is None else neg(q))]

    def body(s, x):
        out = []
        for k, s2, v in callf(ip, s, fr, args[1], [x], t):
            if k != 'ret':
                out.append((k, s2, v))
            elif nm == 'find_map':
                for s3, n, p in fork_enum(ip, s2, v, OPTION):
                    out.append(('stop', s3, some(p)) if n == 'Some' else ('cont', s3, None))
            else:
                for s3, b in ip.branch(s2, v):
                    out.append(('stop', s3, some(x if nm == 'find' else mk('pos', norm_src(src)))) if b else ('cont', s3, None))
        return out
    return [('ret', s, NONE) if k == 'done' else ('ret', s, v) if k == 'stop' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


@model(ITERS + 'for_each')
def _for_each(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    f = args[1]
    c = None
    s0 = st
    if f.op == 'clo':
        c = ip.newcell(s0, f)
        f = mk('mref', c, ())

    def body(s, x):
        return [('cont', s2, None) if k == 'ret' else (k, s2, v) for k, s2, v in callf(ip, s, fr, f, [x], t)]
    return [('ret', s, UNIT) if k == 'done' else (k, s, v) for k, s, v in consume(ip, s0, fr, it, body, t)]


@model(ITERS + 'try_for_each')
def _try_for_each(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    f = args[1]
    if f.op == 'clo':
        f = mk('mref', ip.newcell(st, f), ())

    def body(s, x):
        out = []
        for k, s2, v in callf(ip, s, fr, f, [x], t):
            if k != 'ret':
                out.append((k, s2, v))
                continue
            for s3, n, p in fork_enum(ip, s2, v, RESULT):
                out.append(('cont', s3, None) if n == 'Ok' else ('stop', s3, err(p)))
        return out
    return [('ret', s, ok(UNIT)) if k == 'done' else ('ret', s, v) if k == 'stop' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


@model(ITERS + 'fold', ITERS + 'try_fold')
def _fold(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    tr = info['name'] == 'try_fold'
    c = ip.newcell(st, args[1])
    f = args[2]
    if f.op == 'clo':
        f = mk('mref', ip.newcell(st, f), ())

    def body(s, x):
        out = []
        for k, s2, v in callf(ip, s, fr, f, [s.cells[c], x], t):
            if k != 'ret':
                out.append((k, s2, v))
            elif tr:
                for s3, n, p in fork_enum(ip, s2, v, v.a[0] if v.op == 'adt' else RESULT):
                    if n in ('Ok', 'Some'):
                        s3.cells[c] = p
                        out.append(('cont', s3, None))
                    else:
                        out.append(('stop', s3, err(p) if n == 'Err' else NONE))
            else:
                s2.cells[c] = v
                out.append(('cont', s2, None))
        return out
    out = []
    for k, s, v in consume(ip, st, fr, it, body, t):
        if k == 'done':
            r = s.cells.pop(c)
            out.append(('ret', s, ok(r) if tr else r))
        else:
            out.append(('ret', s, v) if k == 'stop' else (k, s, v))
    return out


@model(ITERS + 'count')
def _count(ip, st, fr, args, info, t):
    it = as_iter(ip, ip.deref(st, args[0]))
    if it is None:
        return NotImplemented
    n = concrete_len(ip, it)
    if n is not None and not any(s[0] in ('filter', 'filter_map') for s in it.a[1]):
        return R(st, I(n))
    if all(s[0] in ('proj', 'enum') for s in it.a[1]):
        return R(st, ip.length(it.a[0]))
    if any(s[0] in ('filter', 'filter_map') for s in it.a[1]):
        c = ip.newcell(st, I(0))

        def body(s, x):
            s.cells[c] = ladd(s.cells[c], I(1))
            return [('cont', s, None)]
        out = []
        for k, s, v in consume(ip, st, fr, it, body, t):
            n = s.cells.pop(c, None)
            out.append(('ret', s, n) if k == 'done' else (k, s, v))
        return out
    return R(st, mk('count', it))


@model(ITERS + 'sum')
def _sum(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    ty = info['a'][-1] if info.get('a') else {}
    if it is None or ty.get('k') not in ('uint', 'int'):
        return _agg(ip, st, fr, args, info, t)
    c = ip.newcell(st, I(0))

    def body(s, x):
        s.cells[c] = ladd(s.cells[c], ip.snap(s, x))
        return [('cont', s, None)]
    return [('ret', s, s.cells.pop(c)) if k == 'done' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


@model(ITERS + 'max', ITERS + 'min', ITERS + 'product', ITERS + 'last', ITERS + 'min_by_key', ITERS + 'max_by_key')
def _agg(ip, st, fr, args, info, t):
    it = as_iter(ip, ip.deref(st, args[0]))
    return R(st, app('it_' + info['name'], it if it is not None else ip.snap(st, args[0]), *[ip.snap(st, a) for a in args[1:]]))


@model(ITERS + 'nth')
def _nth(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    v = ip.deref(st, r)
    it = as_iter(ip, v)
    if it is None or v.op == 'lv' or it.a[1]:
        return NotImplemented
    src, n = it.a[0], args[1]
    if isconst(n, 'int'):
        items = concrete_items(ip, src)
        if items is not None:
            ip.put(st, r.a[0], r.a[1], mk('iter', mk('list', *[one(x) for x in items[cval(n) + 1:]]), ()))
            return R(st, some(items[cval(n)]) if cval(n) < len(items) else NONE)
    out = []
    ln = ip.length(src)
    ip.note_uint(None, n)
    for s, b in ip.branch(st, lt(n, ln)):
        if b:
            ip.put(s, r.a[0], r.a[1], mk('iter', mk('skip', src, ladd(n, I(1))), ()))
            out.append(('ret', s, some(ip.idx(src, n))))
        else:
            ip.put(s, r.a[0], r.a[1], mk('exhausted', src))
            out.append(('ret', s, NONE))
    return out


@model('alloc::collections::btree::map::BTreeMap::range')
def _btree_range(ip, st, fr, args, info, t):
    return R(st, app('btree_range', ip.snap(st, args[0]), ip.snap(st, args[1])))


@model(ITERS + 'last')
def _last(ip, st, fr, args, info, t):
    v = ip.snap(st, args[0])
    return R(st, app('btree_last', v)) if v.op == 'app' and v.a[0] == 'btree_range' else NotImplemented


@model('core::iter::traits::double_ended::DoubleEndedIterator::next_back')
def _range_back(ip, st, fr, args, info, t):
    # taking from the back of the entries below a bound is taking the last of them
    v = ip.deref(st, args[0])
    if args[0].op == 'mref' and v.op == 'app' and v.a[0] == 'btree_range':
        ip.put(st, args[0].a[0], args[0].a[1], app('front', v))
        return R(st, app('btree_last', v))
    return NotImplemented


@model('alloc::string::String::from_utf8', 'core::str::converts::from_utf8')
def _from_utf8(ip, st, fr, args, info, t):
    v = ip.snap(st, args[0])
    # bytes that were written as text
    return R(st, ok(v)) if v.op == 'str' or isconst(v, 'str') else NotImplemented


@model(ITERS + 'size_hint')
def _sh(ip, st, fr, args, info, t):
    return R(st, mk('tup', app('size_hint'), NONE))


def collect_into(ip, st, fr, it, ty, t):
    """-> [(kind, st, collection)]"""
    ty = strip_ref(ty)
    p = ty.get('p') if ty else None
    if p in ('alloc::boxed::Box', 'alloc::borrow::Cow') and ty['a']:
        if is_strish(ty):
            p = 'alloc::string::String'
        else:
            p = 'alloc::vec::Vec'
    if p in (RESULT, OPTION):
        inner = ty['a'][0]
        c = ip.newcell(st, empty_for(inner))

        def body(s, x):
            out = []
            for s2, n, q in fork_enum(ip, s, x, p):
                if n in ('Ok', 'Some'):
                    s2.cells[c] = add_to(ip, s2, s2.cells[c], q, inner)
                    out.append(('cont', s2, None))
                else:
                    out.append(('stop', s2, err(q) if n == 'Err' else NONE))
            return out
        out = []
        for k, s, v in consume(ip, st, fr, it, body, t):
            if k == 'done':
                r = s.cells.pop(c)
                out.append(('ret', s, ok(r) if p == RESULT else some(r)))
            elif k == 'stop':
                s.cells.pop(c, None)
                out.append(('ret', s, v))
            else:
                out.append((k, s, v))
        return out
    if p is None and ty is not None and ty['k'] != 'adt':
        return R(st, app('collect', it))
    c = ip.newcell(st, empty_for(ty))

    def body2(s, x):
        s.cells[c] = add_to(ip, s, s.cells[c], x, ty)
        return [('cont', s, None)]
    out = []
    for k, s, v in consume(ip, st, fr, it, body2, t):
        if k == 'done':
            out.append(('ret', s, s.cells.pop(c)))
        else:
            out.append((k, s, v))
    return out


def empty_for(ty):
    ty = strip_ref(ty)
    p = ty.get('p')
    if is_strish(ty):
        return S('')
    if p in MAPPY:
        return mk('bmap')
    return mk('list')


def add_to(ip, s, cur, x, ty):
    ty = strip_ref(ty)
    x = ip.snap(s, x)
    if is_strish(ty):
        p = S(cval(x)) if isconst(x, 'char') else x if (x.op in ('str',) or isconst(x, 'str')) else mk('chr', x)
        return mkstr(pieces(cur) + pieces(p))
    if ty.get('p') in MAPPY:
        return mklist(segs(cur) + (one(x),), 'bmap')
    return mklist(segs(cur) + (one(x),))


@model(ITERS + 'collect')
def _collect(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    return collect_into(ip, st, fr, it, tysub(ip, fr, info['a'][-1]), t)


@model('core::iter::traits::collect::FromIterator::from_iter')
def _from_iter(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    return collect_into(ip, st, fr, it, tysub(ip, fr, info['self']), t)


@model('core::iter::traits::collect::Extend::extend')
def _extend(ip, st, fr, args, info, t):
    r = args[0]
    if r.op != 'mref':
        return NotImplemented
    ty = tysub(ip, fr, info['self'])
    it = it_arg(ip, st, args[1])
    if it is None:
        it = mk('iter', ip.snap(st, args[1]), ())

    def body(s, x):
        upd(ip, s, r, lambda v: add_to(ip, s, v, x, ty))
        return [('cont', s, None)]
    return [('ret', s, UNIT) if k == 'done' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


# text accumulators built by `trim` need their canonical form after substitution
REBUILD['trim'] = lambda a: mk('trim', *a)


@model('core::ops::range::RangeInclusive::new')
def _rinew(ip, st, fr, args, info, t):
    return R(st, mk('iter', span(args[0], args[1], 1), ()))


@model('core::ops::range::Range::contains', 'core::ops::range::RangeInclusive::contains')
def _rcontains(ip, st, fr, args, info, t):
    r, x = ip.deref(st, args[0]), ip.deref(st, args[1])
    inc = 'Inclusive' in info['p']
    if r.op == 'adt':
        lo, hi = r.a[2], r.a[3]
    elif r.op == 'iter' and r.a[0].op == 'range':
        lo, hi = r.a[0].a
        inc = False
    elif r.op == 'iter' and r.a[0].op == 'chrange':
        return R(st, inset(x, r.a[0].a[0]))
    else:
        return NotImplemented
    if isconst(lo, 'char'):
        return R(st, inset(x, CS(((ord(cval(lo)), ord(cval(hi)) + (1 if inc else 0)),))))
    ty = tysub(ip, fr, info['a'][0]) if info['a'] else None
    if ty is not None and ty['k'] == 'float':
        return R(st, band(mk('fle', lo, x), mk('fle' if inc else 'flt', x, hi)))
    return R(st, band(le(lo, x), le(x, hi) if inc else lt(x, hi)))


# ------------------------------------------------------------------ serde's access adaptors over collections
@model('serde_core::de::value::SeqDeserializer::new', 'serde_core::de::value::MapDeserializer::new')
def _access(ip, st, fr, args, info, t):
    it = it_arg(ip, st, args[0])
    if it is None:
        return NotImplemented
    c = ip.newcell(st, mk('list'))

    def body(s, x):
        s.cells[c] = mklist(segs(s.cells[c]) + (one(ip.snap(s, x)),))
        return [('cont', s, None)]
    name = 'seq_access' if 'SeqDeserializer' in info['p'] else 'map_access'
    return [('ret', s, app(name, s.cells.pop(c))) if k == 'done' else (k, s, v) for k, s, v in consume(ip, st, fr, it, body, t)]


@model('serde_core::de::IntoDeserializer::into_deserializer')
def _into_access(ip, st, fr, args, info, t):
    ty = strip_ref(tysub(ip, fr, info['self']))
    p = ty.get('p') if ty else None
    if p in MAPPY:
        return R(st, app('map_access', mk('list', allof(ip.snap(st, args[0])))))
    if p == 'alloc::vec::Vec':
        return R(st, app('seq_access', mk('list', allof(ip.snap(st, args[0])))))
    return NotImplemented


@model('base91::iter_encode')
def _b91enc(ip, st, fr, args, info, t):
    """calls back with every byte of the encoded text, in order"""
    it = it_arg(ip, st, args[0])
    v = ip.deref(st, it) if it is not None and it.op == 'mref' else it
    v = as_iter(ip, v) if v is not None else None
    if v is None or v.a[1]:
        return NotImplemented
    f = args[1]
    st = st.fork()
    if f.op == 'clo':
        f = mk('mref', ip.newcell(st, f), ())

    def body(s, x):
        return [('cont', s2, None) if k == 'ret' else (k, s2, r) for k, s2, r in callf(ip, s, fr, f, [x], t)]
    return [('ret', s, UNIT) if k == 'done' else (k, s, r) for k, s, r in consume(ip, st, fr, mk('iter', mk('app', 'base91', v.a[0]), ()), body, t)]
