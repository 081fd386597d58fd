"""What the analysis assumes about std, tokio, httparse and serde_json functions.

Each model is (E, st, args, call) -> value | Outs | raises Enter/Split/Panic. A model decides (Split) before it writes."""
import functools
from .core import *
from .engine import Enter, Outs, strip_generics

MODELS = {}
TMODELS = {}
DROPS = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def t(trait, *methods):
    def d(f):
        for me in methods:
            TMODELS[(trait, me)] = f
        return f
    return d


def names(prefixes, methods):
    return [p + '::' + x for p in prefixes for x in methods]


def either(st, *vals):
    return Outs([(st.copy(), v) for v in vals])


def _neg_after(E, st, r):
    return neg(st, r)


def ident(E, st, a, c):
    return a[0]


def unit(E, st, a, c):
    return UNIT


def dv(E, st, v):
    """value with outer pointers removed"""
    return E.deref(st, v)


def content(E, st, v):
    """comparable content: all pointer levels of strings removed"""
    return E.deref(st, v)


USZ = 'usize'

# ---------------------------------------------------------------- formatting, printing, panics
for nm in ('hint::must_use', 'std::hint::must_use', 'core::hint::must_use', 'std::convert::identity', 'std::hint::black_box'):
    MODELS[nm] = ident


@m('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_lower_hex')
def _arg(E, st, a, c):
    return ('t', 'disp' if 'display' in c.path else 'dbg', E.deref(st, a[0]))


@m('std::fmt::Arguments::new')
def _args_new(E, st, a, c):
    tmpl = E.deref(st, a[0])
    vec = E.vec_of(st, a[1])
    vs = tuple(x[1] for x in vec[3]) if vec else ()
    return ('t', 'fmt', tmpl) + vs


@m('std::fmt::Arguments::from_str', 'std::fmt::Arguments::from_str_nonconst')
def _args_str(E, st, a, c):
    return E.deref(st, a[0])


@m('std::fmt::format', 'alloc::fmt::format')
def _format(E, st, a, c):
    return a[0]


@m('std::io::_print', 'std::io::_eprint', 'std::io::stdio::_print')
def _print(E, st, a, c):
    return UNIT


@m('std::fmt::Formatter::write_fmt', 'std::fmt::Formatter::write_str')
def _fwf(E, st, a, c):
    r = E.event(st, 'fmt_write', (a[1],), c)
    if r is not None:
        return r
    return either(st, ok(UNIT), err(('t', 'fmterr')))


@m('std::rt::panic_fmt', 'core::panicking::panic_fmt', 'core::panicking::panic', 'std::rt::begin_panic', 'core::panicking::panic_display',
   'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'std::process::exit', 'std::process::abort',
   'core::panicking::panic_explicit', 'core::panicking::panic_str_2015', 'std::rt::panic_display')
def _panic(E, st, a, c):
    raise Panic('panic' if 'process' not in c.path else 'process exit')


@t('std::string::ToString', 'to_string')
def _to_string(E, st, a, c):
    v = E.deref(st, a[0])
    return to_str(E, st, v)


def to_str(E, st, v):
    if v[0] in ('str', 'bytes'):
        return v
    if v[0] == 'sym' and (v[2].k == 'str' or v[2].path == 'std::string::String'):
        return v
    if v[0] == 't':
        return v if v[1] != 'json' else ('t', 'text', v)
    if v[0] == 'int':
        return ('str', str(v[1]))
    if v[0] == 'char':
        return ('str', v[1])
    return ('t', 'text', v)


# ---------------------------------------------------------------- Clone / Copy / comparison / Default / Hash
@t('std::clone::Clone', 'clone')
def _clone(E, st, a, c):
    v = st.norm(a[0])
    if v[0] == 'ref':
        v = E.read(st, v[1], v[2])
        return unbox_copy(E, st, v)
    return v


def unbox_copy(E, st, v):
    return v


@t('std::clone::Clone', 'clone_from')
def _clone_from(E, st, a, c):
    c0, p = E.loc(st, a[0])
    E.write(st, c0, p, E.deref1(st, a[1]))
    return UNIT


def _eqv(E, st, a, pol):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    # handwritten PartialEq inside a derived or generic comparison
    if x == y and x[0] in ('str', 'int', 'char', 'bool', 'sym'):
        return ('bool', pol)
    return ('p', ('eq', x, y), pol)


@t('std::cmp::PartialEq', 'eq')
def _eq(E, st, a, c):
    return _eqv(E, st, a, True)


@t('std::cmp::PartialEq', 'ne')
def _ne(E, st, a, c):
    kind, v = E.self_kind(st, a[0])
    ims = E.prog.impls.get(('std::cmp::PartialEq', kind))
    if ims and not ims[0][2]:
        fn = E.prog.fns.get(ims[0][1].get('eq'))
        if fn is not None:
            raise Enter(fn, E.adapt_self(st, fn, a), _neg_after)
    return _eqv(E, st, a, False)


def neg(st, r):
    r = st.norm(r)
    if r[0] == 'bool':
        return ('bool', not r[1])
    if r[0] == 'p':
        return ('p', r[1], not r[2])
    return r


@t('std::cmp::PartialOrd', 'lt')
def _lt(E, st, a, c):
    return cmpv(E, st, a[0], a[1], True)


@t('std::cmp::PartialOrd', 'gt')
def _gt(E, st, a, c):
    return cmpv(E, st, a[1], a[0], True)


@t('std::cmp::PartialOrd', 'le')
def _le(E, st, a, c):
    return cmpv(E, st, a[1], a[0], False)


@t('std::cmp::PartialOrd', 'ge')
def _ge(E, st, a, c):
    return cmpv(E, st, a[0], a[1], False)


def cmpv(E, st, a, b, pol):
    x, y = E.deref(st, a), E.deref(st, b)
    return E.mklt(x, y, pol)


def ordering(n):
    return ('adt', 'std::cmp::Ordering', n, ())


@t('std::cmp::Ord', 'cmp')
def _cmp(E, st, a, c):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    if E.lt(st, x, y):
        return ordering(0)
    if E.eq(st, x, y):
        return ordering(1)
    return ordering(2)


@t('std::cmp::PartialOrd', 'partial_cmp')
def _pcmp(E, st, a, c):
    return some(_cmp(E, st, a, c))


@t('std::cmp::Ord', 'min')
def _min(E, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return x if E.lt(st, x, y) else y


@t('std::cmp::Ord', 'max')
def _max(E, st, a, c):
    x, y = st.norm(a[0]), st.norm(a[1])
    return y if E.lt(st, x, y) else x


MODELS['std::cmp::min'] = _min
MODELS['std::cmp::max'] = _max


def default_of(E, st, ty):
    if ty.k == 'int':
        return ('int', 0)
    if ty.k == 'bool':
        return FALSE
    if ty.k == 'str':
        return ('str', '')
    if ty.k == 'adt':
        if ty.path == 'std::string::String':
            return ('str', '')
        if ty.path == 'std::option::Option':
            return NONE
        if ty.path == 'std::vec::Vec' or ty.path == 'std::collections::VecDeque':
            return ('vec', None, ('int', 0), (), ty.args[0])
        if ty.path == 'std::collections::HashMap':
            return ('map', None, ('int', 0), (), ty.args[0], ty.args[1])
    if ty.k == 'tuple':
        return ('tup', tuple(default_of(E, st, x) for x in ty.args))
    return st.fresh(ty)


@t('std::default::Default', 'default')
def _default(E, st, a, c):
    return default_of(E, st, c.dty)


@t('std::hash::Hash', 'hash')
def _hash(E, st, a, c):
    return UNIT


# ---------------------------------------------------------------- conversions
@t('std::convert::From', 'from')
def _from(E, st, a, c):
    return conv(E, st, a[0], c.dty, c)


@t('std::convert::Into', 'into')
def _into(E, st, a, c):
    k = c.dty
    ims = E.prog.impls.get(('std::convert::From', k.path if k.k == 'adt' else k.s))
    if ims:
        fn = E.prog.fns.get(ims[0][1].get('from'))
        if fn is not None and len(ims) == 1:
            raise Enter(fn, a)
    return conv(E, st, a[0], c.dty, c)


def forget(E, st, what):
    """the rest of this path rests on something unmodelled"""
    E.unmodelled[what] = E.unmodelled.get(what, 0) + 1
    if what not in st.taint:
        st.taint = st.taint + (what,)


def conv(E, st, v, ty, c):
    v = st.norm(v)
    if ty.k == 'adt':
        if ty.path == 'std::string::String':
            return to_str(E, st, E.deref(st, v))
        if ty.path == 'std::boxed::Box':
            return v if v[0] == 'box' else ('box', v)
        if ty.path == 'std::collections::HashMap':
            vec = E.vec_of(st, v)
            if vec is not None and vec[1] is None:
                m_ = ('map', None, ('int', 0), (), ty.args[0], ty.args[1])
                if all(x[1][0] == 'tup' and x[1][1][0][0] in ('str', 'int') for x in vec[3]):
                    ents = {}
                    for _, x in vec[3]:
                        ents[x[1][0]] = x[1][1]
                    return m_[:2] + (('int', len(ents)), tuple(ents.items())) + m_[4:]
                for _, x in vec[3]:
                    m_, _o = E.map_insert(st, m_, x[1][0], x[1][1])
                return m_
        if ty.path in ('std::vec::Vec', 'std::collections::VecDeque'):
            r = E.vec_of(st, v)
            if r is not None:
                return r
        if ty.path in ('std::sync::Arc', 'std::rc::Rc'):
            return ('arc', st.new_cell(v))
        if ty.path == 'std::option::Option':
            return some(v)
        if ty.path == 'std::sync::Mutex':
            return ('obj', 'mutex', v)
    if ty.k == 'int' and v[0] in ('int', 'lin'):
        return E.cast(st, 'IntToInt', v, ty, ty)
    if ty.k == 'int' and v[0] == 'char':
        return ('int', ord(v[1]))
    if ty.k == 'int' and v[0] == 'bool':
        return ('int', int(v[1]))
    if v[0] == 'sym' and v[2] is ty:
        return v
    if ty.k not in ('int', 'float', 'bool', 'char'):
        forget(E, st, 'conversion into ' + ty.s)
    return mk(('op', 'from', v, ty.s), ty)


@t('std::convert::TryInto', 'try_into')
@t('std::convert::TryFrom', 'try_from')
def _try_into(E, st, a, c):
    v = st.norm(a[0])
    ty = c.dty.args[0] if c.dty.k == 'adt' and c.dty.args else None
    if ty is not None and ty.k == 'int' and v[0] in ('int', 'lin'):
        lo, hi = INT[ty.s]
        if v[0] == 'int':
            return ok(v) if lo <= v[1] <= hi else err(('t', 'tryfromint'))
        if E.lt(st, v, ('int', lo)) or E.lt(st, ('int', hi), v):
            return err(('t', 'tryfromint'))
        return ok(('lin', v[1], v[2], ty.s))
    return st.fresh(c.dty)


@t('std::convert::AsRef', 'as_ref')
@t('std::convert::AsMut', 'as_mut')
@t('std::borrow::Borrow', 'borrow')
@t('std::borrow::BorrowMut', 'borrow_mut')
def _as_ref(E, st, a, c):
    return _deref(E, st, a, c)


@t('std::borrow::ToOwned', 'to_owned')
def _to_owned(E, st, a, c):
    v = E.deref1(st, a[0])
    if v[0] == 'obj' and v[1] == 'slice':
        return slice_to_vec(E, st, v)
    return v


@t('std::ops::Deref', 'deref')
@t('std::ops::DerefMut', 'deref_mut')
def _deref(E, st, a, c):
    v = st.norm(a[0])
    if v[0] != 'ref':
        return v
    x = E.read(st, v[1], v[2])
    if x[0] == 'obj' and x[1] == 'guard':
        return x[2]
    if x[0] == 'ref':
        return x
    if x[0] == 'arc':
        return ('ref', x[1], ())
    if x[0] == 'box':
        return ('ref', v[1], v[2] + (('b',),))
    if x[0] in ('str', 't', 'bytes'):
        return x
    if x[0] == 'sym' and x[2].k == 'adt' and x[2].path == 'std::string::String':
        return x
    if x[0] == 'sym' and x[2].k == 'adt' and x[2].path.endswith('MutexGuard'):
        return ('ref', ('dc', ('a', x[1]), x[2].args[-1]), ())
    if x[0] == 'sym' and x[2].k == 'adt' and x[2].path == 'std::borrow::Cow':
        return x
    if x[0] == 'sym' and x[2].k == 'adt' and x[2].path.endswith('Lazy'):
        return x
    return v


@t('std::ops::Not', 'not')
def _not(E, st, a, c):
    return neg(st, E.deref(st, a[0]))


def _arith(op):
    def f(E, st, a, c):
        x, y = E.deref(st, a[0]), E.deref(st, a[1])
        if op in ('Add', 'Sub') and (x[0] == 'lin' and x[3] == 'time' or is_time(E, st, x)):
            return time_arith(E, st, op, x, y, c)
        if is_dur(x) or is_dur(y):
            return ('t', 'dur_' + op.lower(), x, y)
        if op == 'Add' and c.dty.k == 'adt' and c.dty.path == 'std::string::String':
            return concat(x, y)
        if c.dty.k == 'int':
            r = E.binop(st, op + 'WithOverflow', x, y, c.dty) if op in ('Add', 'Sub', 'Mul') else E.binop(st, op, x, y, c.dty)
            if r[0] == 'tup':
                if E.truth(st, r[1][1]):
                    raise Panic('overflow')
                return r[1][0]
            return r
        return mk(('op', op, x, y), c.dty)
    return f


for _o, _mn in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem'), ('BitAnd', 'bitand'), ('BitOr', 'bitor')):
    TMODELS[('std::ops::' + _o, _mn)] = _arith(_o)


def _arith_assign(op):
    f = _arith(op)

    def g(E, st, a, c):
        c0, p = E.loc(st, a[0])
        x = E.read(st, c0, p)

        class C2:
            pass
        c2 = C2()
        c2.dty = c.atys[0].to if c.atys[0].k == 'ref' else c.dty
        v = f(E, st, [x, a[1]], c2)
        E.write(st, c0, p, v)
        return UNIT
    return g


for _o, _mn in (('Add', 'add_assign'), ('Sub', 'sub_assign'), ('Mul', 'mul_assign')):
    TMODELS[('std::ops::' + _o + 'Assign', _mn)] = _arith_assign(_o)


def nesting(i, n=0):
    m = n
    for x in i:
        if isinstance(x, tuple) and m < 12:
            m = max(m, nesting(x, n + 1))
    return m


def _ck(op, mode):
    def f(E, st, a, c):
        ty = c.atys[0]
        if ty.k != 'int':
            return NotImplemented
        r = E.binop(st, op + 'WithOverflow', st.norm(a[0]), st.norm(a[1]), ty)
        if r[0] != 'tup':
            return st.fresh(c.dty)
        ov = E.truth(st, r[1][1])
        if mode == 'checked':
            return NONE if ov else some(r[1][0])
        if mode == 'overflowing':
            return ('tup', (r[1][0], ('bool', ov)))
        if mode == 'saturating':
            if not ov:
                return r[1][0]
            lo, hi = INT[ty.s]
            return ('int', lo if op == 'Sub' and lo == 0 else hi)
        if not ov:
            return r[1][0]
        b = st.norm(a[1])
        lo, hi = INT[ty.s]
        if op == 'Add' and lo == 0 and b[0] == 'int':
            # what is left after wrapping round is less than what was added
            if b[1] == 1:
                return ('int', 0)
            v = mk(st.fresh_id(), ty)
            st.assume_le(v, ('int', b[1] - 1))
            return v
        i = ('op', 'wrap', op, st.norm(a[0]), b)
        return mk(i if nesting(i) < 8 else st.fresh_id(), ty)
    return f


for _ty in INT:
    for _o in ('Add', 'Sub', 'Mul'):
        for _md in ('checked', 'saturating', 'wrapping', 'overflowing'):
            for _pre in ('core::num::', 'std::num::', ''):
                MODELS['%s%s::%s_%s' % (_pre, _ty, _md, _o.lower())] = _ck(_o, _md)
for _o in ('Add', 'Sub', 'Mul'):
    for _md in ('checked', 'saturating', 'wrapping', 'overflowing'):
        MODELS['core::num::%s_%s' % (_md, _o.lower())] = _ck(_o, _md)
        MODELS['std::num::%s_%s' % (_md, _o.lower())] = _ck(_o, _md)


@m('core::num::abs', 'core::num::unsigned_abs', 'core::num::pow')
def _num1(E, st, a, c):
    return mk(('op', c.path, tuple(st.norm(x) for x in a)), c.dty)


# ---------------------------------------------------------------- time
def is_time(E, st, v):
    return v[0] == 't' and v[1] in ('time_add', 'time_sub', 'now')


def is_dur(v):
    return v[0] == 't' and v[1].startswith('dur') or v[0] == 'sym' and v[2].k == 'adt' and v[2].path == 'std::time::Duration'


@m('std::time::Duration::from_secs', 'std::time::Duration::from_millis', 'std::time::Duration::from_micros', 'std::time::Duration::from_nanos',
   'std::time::Duration::from_mins', 'std::time::Duration::from_hours', 'std::time::Duration::from_secs_f64', 'std::time::Duration::from_secs_f32')
def _dur(E, st, a, c):
    return ('t', 'dur_' + c.path.split('::')[-1], st.norm(a[0]))


@m('std::time::Duration::new')
def _durnew(E, st, a, c):
    if a[1] == ('int', 0):
        return ('t', 'dur_from_secs', st.norm(a[0]))
    return ('t', 'dur_new', a[0], a[1])


@m('std::time::Duration::as_secs')
def _as_secs(E, st, a, c):
    d = E.deref(st, a[0])
    if d[0] == 't' and d[1] == 'dur_from_secs':
        return d[2]
    return ('lin', ('op', 'as_secs', d), 0, 'u64')


@m('std::time::Duration::as_millis', 'std::time::Duration::as_secs_f64', 'std::time::Duration::as_micros', 'std::time::Duration::as_nanos',
   'std::time::Duration::subsec_nanos', 'std::time::Duration::subsec_millis', 'std::time::Duration::as_secs_f32', 'std::time::Duration::subsec_micros')
def _as_x(E, st, a, c):
    d = E.deref(st, a[0])
    return mk(('op', c.path.split('::')[-1], d), c.dty)


@m('std::time::SystemTime::now', 'std::time::Instant::now')
def _now(E, st, a, c):
    return E.now(st, c)


def tnorm(E, st, v):
    return v if v[0] == 'lin' else v


def time_arith(E, st, op, x, y, c):
    """instant + duration: panics when it is not representable"""
    if E.time_overflow(st, x, y):
        raise Panic('time overflow')
    return E.time_sum(st, op, x, y)


@m('std::time::SystemTime::checked_add', 'std::time::Instant::checked_add', 'std::time::SystemTime::checked_sub', 'std::time::Instant::checked_sub')
def _cadd(E, st, a, c):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    op = 'Add' if 'add' in c.path.split('::')[-1] else 'Sub'
    if E.time_overflow(st, x, y):
        return NONE
    return some(E.time_sum(st, op, x, y))


@m('std::time::SystemTime::duration_since')
def _dsince(E, st, a, c):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    if E.lt(st, x, y):
        return err(('t', 'systemtimeerror', ('t', 'dur_between', x, y)))
    return ok(('t', 'dur_between', y, x))


@m('std::time::Instant::duration_since', 'std::time::Instant::saturating_duration_since')
def _idsince(E, st, a, c):
    return ('t', 'dur_between', E.deref(st, a[1]), E.deref(st, a[0]))


@m('std::time::SystemTime::elapsed')
def _elapsed(E, st, a, c):
    x = E.deref(st, a[0])
    y = E.now(st, c)
    if E.lt(st, y, x):
        return err(('t', 'systemtimeerror', ('t', 'dur_between', y, x)))
    return ok(('t', 'dur_between', x, y))


@m('std::time::Instant::elapsed')
def _ielapsed(E, st, a, c):
    return ('t', 'dur_between', E.deref(st, a[0]), E.now(st, c))


@m('std::time::SystemTimeError::duration')
def _sted(E, st, a, c):
    v = E.deref(st, a[0])
    return v[2] if v[0] == 't' and len(v) > 2 else st.fresh(c.dty)


@m('std::thread::sleep', 'std::thread::yield_now', 'std::hint::spin_loop', 'std::thread::park_timeout')
def _sleep(E, st, a, c):
    E.event(st, 'sleep', tuple(a), c)
    return UNIT


# ---------------------------------------------------------------- char
def _cls(name):
    def f(E, st, a, c):
        x = E.deref(st, a[0])
        if x[0] == 'char':
            return ('bool', char_is(x[1], name))
        return ('p', ('cls', name, x), True)
    return f


def char_is(ch, name):
    if name == 'is_whitespace':
        return ch in '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
    if name == 'is_alphabetic':
        return ch.isalpha()
    if name == 'is_numeric':
        return ch.isnumeric()
    if name == 'is_alphanumeric':
        return ch.isalpha() or ch.isnumeric()
    if name == 'is_uppercase':
        return ch.isupper()
    if name == 'is_lowercase':
        return ch.islower()
    if name == 'is_control':
        return ord(ch) < 32 or 127 <= ord(ch) < 160
    a = ord(ch) < 128
    if name == 'is_ascii':
        return a
    if name == 'is_ascii_digit':
        return a and ch.isdigit()
    if name == 'is_ascii_alphabetic':
        return a and ch.isalpha()
    if name == 'is_ascii_alphanumeric':
        return a and ch.isalnum()
    if name == 'is_ascii_whitespace':
        return ch in '\t\n\x0c\r '
    if name == 'is_ascii_uppercase':
        return a and ch.isupper()
    if name == 'is_ascii_lowercase':
        return a and ch.islower()
    if name == 'is_ascii_punctuation':
        return a and 33 <= ord(ch) < 127 and not ch.isalnum()
    if name == 'is_ascii_hexdigit':
        return a and ch in '0123456789abcdefABCDEF'
    return False


CLASSES = ['is_whitespace', 'is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_uppercase', 'is_lowercase', 'is_control', 'is_ascii', 'is_ascii_digit',
           'is_ascii_alphabetic', 'is_ascii_alphanumeric', 'is_ascii_whitespace', 'is_ascii_uppercase', 'is_ascii_lowercase', 'is_ascii_punctuation',
           'is_ascii_hexdigit']
for _n in CLASSES:
    for _p in ('std::char::methods::', 'core::char::methods::', 'std::char::', 'char::'):
        MODELS[_p + _n] = _cls(_n)

IMPLIES = {'is_alphabetic': ['is_alphanumeric'], 'is_numeric': ['is_alphanumeric'], 'is_ascii_digit': ['is_numeric', 'is_ascii', 'is_alphanumeric', 'is_ascii_alphanumeric'],
           'is_ascii_alphabetic': ['is_alphabetic', 'is_ascii', 'is_alphanumeric', 'is_ascii_alphanumeric'], 'is_ascii_whitespace': ['is_whitespace', 'is_ascii'],
           'is_ascii_alphanumeric': ['is_alphanumeric', 'is_ascii']}
EXCL = [('is_whitespace', 'is_alphanumeric'), ('is_alphabetic', 'is_numeric')]


def closure_pos(n):
    out = {n}
    w = [n]
    while w:
        for y in IMPLIES.get(w.pop(), ()):
            if y not in out:
                out.add(y)
                w.append(y)
    return out


POS = {n: closure_pos(n) for n in CLASSES}


def char_class(E, st, a):
    """consistency of character classes of one unknown character; returns a decision or None"""
    _, name, x = a
    known_t = set()
    known_f = set()
    for k, v in st.f.items():
        if k[0] == 'pred' and isinstance(k[1], tuple) and k[1][0] == 'cls' and k[1][2] == x:
            (known_t if v else known_f).add(k[1][1])
    pos = set()
    for n in known_t:
        pos |= POS[n]
    if name in pos:
        return True
    for u, v in EXCL:
        for n in pos:
            if n == u and v in POS[name] or n == v and u in POS[name]:
                return False
    for n in POS[name]:
        if n in known_f:
            return False
    # alphanumeric = alphabetic or numeric
    if name == 'is_alphabetic' and 'is_alphanumeric' in pos and 'is_numeric' in known_f:
        return True
    if name == 'is_numeric' and 'is_alphanumeric' in pos and 'is_alphabetic' in known_f:
        return True
    if name == 'is_alphanumeric' and 'is_numeric' in known_f and 'is_alphabetic' in known_f:
        return False
    return None


for _p in ('std::char::methods::', 'core::char::methods::'):
    for _n in ('to_ascii_lowercase', 'to_ascii_uppercase', 'to_lowercase', 'to_uppercase', 'len_utf8', 'to_digit', 'eq_ignore_ascii_case', 'is_digit'):
        def _f(E, st, a, c, n=_n):
            x = E.deref(st, a[0])
            if x[0] == 'char' and n == 'to_ascii_lowercase':
                return ('char', x[1].lower() if ord(x[1]) < 128 else x[1])
            if x[0] == 'char' and n == 'to_ascii_uppercase':
                return ('char', x[1].upper() if ord(x[1]) < 128 else x[1])
            if n in ('to_lowercase', 'to_uppercase'):
                return ('obj', 'vit', ('vec', ('op', 'chars', ('t', 'case_' + n, x)), ('lin', ('len', ('op', 'chars', ('t', 'case_' + n, x))), 0, USZ), (), E.prog.types['char']),
                        ('int', 0), ('lin', ('len', ('op', 'chars', ('t', 'case_' + n, x))), 0, USZ))
            return mk(('op', n) + tuple(E.deref(st, y) for y in a), c.dty)
        MODELS[_p + _n] = _f


# ---------------------------------------------------------------- strings
def concat(x, y):
    if x == ('str', ''):
        return y
    if x[0] == 'str' and y[0] == 'str':
        return ('str', x[1] + y[1])
    return ('t', 'concat', x, y)


for _n in ('std::string::String::as_str', 'std::string::String::as_mut_str', 'std::string::String::into_boxed_str', 'core::str::as_ref'):
    def _f(E, st, a, c):
        return E.deref(st, a[0])
    MODELS[_n] = _f


@m('std::string::String::new', 'std::string::String::with_capacity')
def _snew(E, st, a, c):
    return ('str', '')


@m('std::string::String::push_str')
def _spush(E, st, a, c):
    c0, p = E.loc(st, a[0])
    E.write(st, c0, p, concat(E.read(st, c0, p), E.deref(st, a[1])))
    return UNIT


def chars_of_string(v):
    """vector of characters a string value was built from, or None"""
    if v[0] == 't' and v[1] == 'string':
        return v[2]
    return None


@m('std::string::String::push')
def _spushc(E, st, a, c):
    c0, p = E.loc(st, a[0])
    v = E.read(st, c0, p)
    ch = st.norm(a[1])
    if v == ('str', ''):
        v = ('t', 'string', ('vec', None, ('int', 0), (), E.prog.types['char']))
    if v[0] == 't' and v[1] == 'string':
        nv = ('t', 'string', E.vec_push(st, v[2], ch))
    else:
        nv = concat(v, ('str', ch[1]) if ch[0] == 'char' else ('t', 'string', E.vec_push(st, ('vec', None, ('int', 0), (), E.prog.types['char']), ch)))
    E.write(st, c0, p, nv)
    return UNIT


@m('std::string::String::clear')
def _sclear(E, st, a, c):
    c0, p = E.loc(st, a[0])
    E.write(st, c0, p, ('str', ''))
    return UNIT


@m('core::str::len', 'std::string::String::len', 'std::str::len')
def _slen(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'str':
        return ('int', len(v[1].encode()))
    return ('lin', ('op', 'strlen', v), 0, USZ)


@m('core::str::is_empty', 'std::string::String::is_empty')
def _sempty(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'str':
        return ('bool', v[1] == '')
    return ('p', ('eq', ('str', ''), v), True)


@m('core::str::chars', 'std::str::chars')
def _chars(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'str':
        vec = ('vec', None, ('int', len(v[1])), tuple((('int', i), ('char', x)) for i, x in enumerate(v[1])), E.prog.types['char'])
    elif v[0] == 't' and v[1] == 'string':
        vec = v[2]
    else:
        b = ('op', 'chars', v)
        vec = ('vec', b, ('lin', ('len', b), 0, USZ), (), E.prog.types['char'])
    return ('obj', 'vit', vec, ('int', 0), vec[2])


@m('core::str::char_indices', 'core::str::bytes', 'core::str::lines', 'core::str::split_whitespace', 'core::str::split')
def _char_indices(E, st, a, c):
    v = E.deref(st, a[0])
    et = E.prog.types['char']
    b = ('op', c.path.split('::')[-1], v)
    vec = ('vec', b, ('lin', ('len', b), 0, USZ), (), et)
    if c.path.endswith('char_indices'):
        it = _chars(E, st, a, c)
        st.fresh_id()
        return ('adt', 'vpmodels::Enumerate', 0, (it, ('int', 0)))     # char positions: byte offsets abstracted by counts
    return ('obj', 'vit', vec, ('int', 0), vec[2])


@m('core::str::as_bytes', 'std::string::String::as_bytes', 'std::string::String::into_bytes', 'core::str::as_bytes_mut')
def _as_bytes(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'str':
        return ('bytes', tuple(v[1].encode())) if c.dty.k != 'adt' else E.vec_of(st, ('bytes', tuple(v[1].encode())))
    b = ('op', 'bytes', v)
    vec = ('vec', b, ('lin', ('op', 'strlen', v), 0, USZ), (), E.prog.types['u8'])
    if c.dty.k == 'adt':
        return vec
    return st.ref_to(vec)


def vec_text(v):
    """text a byte vector was made from"""
    if v[0] == 'bytes':
        return ('str', bytes(v[1]).decode('utf8', 'replace'))
    if v[0] == 'vec' and isinstance(v[1], tuple) and v[1][0] == 'op' and v[1][1] == 'bytes' and not v[3]:
        return v[1][2]
    return None


@m('core::str::contains', 'core::str::starts_with', 'core::str::ends_with')
def _contains(E, st, a, c):
    s, x = E.deref(st, a[0]), E.deref(st, a[1])
    op = c.path.split('::')[-1]
    if s[0] == 'str' and x[0] in ('char', 'str'):
        return ('bool', x[1] in s[1] if op == 'contains' else s[1].startswith(x[1]) if op == 'starts_with' else s[1].endswith(x[1]))
    if s[0] == 'str' and op == 'contains' and (x[0] == 'sym' and x[2].k == 'char'):
        for ch in s[1]:
            if E.eq(st, x, ('char', ch)):
                return TRUE
        return FALSE
    return ('p', (op, s, x), True)


@m('core::str::parse', 'std::str::parse')
def _parse(E, st, a, c):
    s = E.deref(st, a[0])
    ty = c.dty.args[0] if c.dty.k == 'adt' and c.dty.args else None
    g = c.garg(0)
    if g is not None:
        ty = g
    key = ('parses', s, ty.s)
    if E.truth(st, ('p', key, True)):
        return ok(mk(('op', 'parse', s, ty.s), ty))
    return err(('t', 'parseerr', s))


@t('std::str::FromStr', 'from_str')
def _fromstr(E, st, a, c):
    s = E.deref(st, a[0])
    ty = c.dty.args[0]
    if E.truth(st, ('p', ('parses', s, ty.s), True)):
        return ok(mk(('op', 'parse', s, ty.s), ty))
    return err(('t', 'parseerr', s))


for _n in ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_end', 'trim_start', 'replace', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'replacen', 'repeat'):
    def _f(E, st, a, c, n=_n):
        vs = tuple(E.deref(st, x) for x in a)
        if vs[0][0] == 'str' and n in ('to_lowercase', 'to_ascii_lowercase'):
            return ('str', vs[0][1].lower())
        if vs[0][0] == 'str' and n in ('to_uppercase', 'to_ascii_uppercase'):
            return ('str', vs[0][1].upper())
        if vs[0][0] == 'str' and n == 'trim':
            return ('str', vs[0][1].strip())
        return ('t', n) + vs
    for _p in ('core::str::', 'std::str::', 'alloc::str::', 'std::string::String::'):
        MODELS[_p + _n] = _f


# numbers changed by a pure function: another number (of the same kind) as far as anyone can tell
for _n in ('round', 'floor', 'ceil', 'trunc', 'abs', 'sqrt', 'recip', 'fract', 'signum', 'to_degrees', 'to_radians'):
    def _f(E, st, a, c, n=_n):
        return mk(('op', n, E.deref(st, a[0])), c.dty)
    for _p in ('f32', 'f64'):
        for _q in ('std::', 'core::'):
            MODELS[_q + _p + '::' + _n] = _f


@m('core::str::eq_ignore_ascii_case', 'core::slice::ascii::eq_ignore_ascii_case', 'core::slice::eq_ignore_ascii_case')
def _eqic(E, st, a, c):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    if x[0] == 'str' and y[0] == 'str':
        return ('bool', x[1].lower() == y[1].lower())
    if x[0] == 'str':
        x, y = y, x
    if y[0] == 'str':
        # a string equal to some literal was already decided
        return ('p', ('eqi', x, ('str', y[1].lower())), True)
    return ('p', ('eqi',) + tuple(sorted((x, y), key=repr)), True)


@m('std::string::String::from_utf8', 'core::str::from_utf8', 'std::str::from_utf8')
def _from_utf8(E, st, a, c):
    v = E.deref(st, a[0])
    tx = vec_text(v)
    if tx is not None:
        return ok(tx)
    if E.truth(st, ('p', ('utf8', v), True)):
        return ok(('t', 'utf8', v))
    return err(('t', 'utf8err'))


@m('std::string::String::from_utf8_lossy')
def _lossy(E, st, a, c):
    v = E.deref(st, a[0])
    tx = vec_text(v)
    return tx if tx is not None else ('t', 'lossy', v)


@m('std::borrow::Cow::into_owned', 'std::borrow::Cow::to_mut')
def _cow(E, st, a, c):
    return E.deref(st, a[0])


@t('std::iter::FromIterator', 'from_iter')
def _from_iter(E, st, a, c):
    return collect(E, st, a[0], c.dty, c)


# ---------------------------------------------------------------- boxes, Arc, cells, Option basics
@m('std::boxed::Box::new', 'std::boxed::Box::pin')
def _box(E, st, a, c):
    return ('box', a[0])


@m('std::boxed::Box::new_uninit')
def _boxun(E, st, a, c):
    return ('box', MOVED)


@m('std::boxed::Box::into_inner', 'std::boxed::Box::into_pin', 'std::boxed::Box::leak')
def _boxinto(E, st, a, c):
    v = st.norm(a[0])
    return v[1] if v[0] == 'box' and 'inner' in c.path else v


@m('std::boxed::box_assume_init_into_vec_unsafe')
def _bx(E, st, a, c):
    v = st.norm(a[0])
    while v[0] == 'box' or v[0] == 'tup' and len(v[1]) or v[0] == 'adt':
        v = st.norm(v[1] if v[0] == 'box' else v[1][-1] if v[0] == 'tup' else v[3][-1])
    if v[0] == 'vec':
        return v
    raise Undecided('vec literal %r' % (v[:2],))


@m('std::slice::to_vec', 'std::slice::into_vec', 'core::slice::to_vec', 'alloc::slice::to_vec', 'alloc::slice::into_vec', 'std::slice::hack::into_vec')
def _to_vec(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'bytes':
        return E.vec_of(st, v)
    if v[0] == 'obj' and v[1] == 'slice':
        return slice_to_vec(E, st, v)
    if v[0] == 'sym' and v[2].k in ('slice', 'array'):
        return mk(v[1], v[2])
    return v


def slice_to_vec(E, st, v):
    _, _, vec, lo, ln = v
    if vec[0] == 'bytes':
        vec = E.vec_of(st, vec)
    if lo == ('int', 0) and ln == vec[2]:
        return vec
    base = ('op', 'sub', vec, lo, ln)
    return ('vec', base, ln, (), vec[4] if vec[0] == 'vec' else E.prog.types['u8'])


@m('std::sync::Arc::new', 'std::rc::Rc::new')
def _arc(E, st, a, c):
    return ('arc', st.new_cell(a[0]))


@m('std::sync::Arc::clone', 'std::rc::Rc::clone')
def _arcc(E, st, a, c):
    return E.deref1(st, a[0])


@m('std::sync::Arc::strong_count', 'std::rc::Rc::strong_count')
def _arcsc(E, st, a, c):
    return st.fresh(c.dty)


@m('std::sync::Mutex::new', 'tokio::sync::Mutex::new', 'std::sync::RwLock::new', 'tokio::sync::RwLock::new', 'std::cell::RefCell::new', 'std::cell::Cell::new')
def _mutex(E, st, a, c):
    return ('obj', 'mutex', a[0])


@m('std::sync::atomic::Atomic::new', 'std::sync::atomic::AtomicBool::new', 'std::sync::atomic::AtomicUsize::new')
def _atomic(E, st, a, c):
    return ('obj', 'atomic', a[0])


def mutex_slot(E, st, self_, dty=None):
    """(cell, path) of the protected value"""
    cell, p = E.loc(st, self_)
    v = E.read(st, cell, p)
    if v[0] == 'sym':
        inner = v[2].args[0]
        nv = ('obj', 'mutex', mk(('op', 'locked', v[1]), inner))
        E.write(st, cell, p, nv)
    elif not (v[0] == 'obj' and v[1] == 'mutex'):
        raise Undecided('lock of %r' % (v[:2],))
    return cell, p + (('o', 2),)


@m('std::sync::Mutex::lock', 'std::sync::Mutex::try_lock', 'std::sync::RwLock::write', 'std::sync::RwLock::read', 'std::sync::RwLock::try_write', 'std::sync::RwLock::try_read',
   'std::cell::RefCell::borrow_mut', 'std::cell::RefCell::borrow', 'std::cell::RefCell::try_borrow_mut')
def _lock(E, st, a, c):
    cell, p = mutex_slot(E, st, a[0])
    blocking = 'try' not in c.path.split('::')[-1]
    return E.lock(st, ('ref', cell, p), blocking, c)


@m('tokio::sync::Mutex::lock', 'tokio::sync::RwLock::write', 'tokio::sync::RwLock::read')
def _alock(E, st, a, c):
    return ('obj', 'fut', 'lock', tuple(a))


@m('tokio::sync::Mutex::try_lock')
def _atrylock(E, st, a, c):
    cell, p = mutex_slot(E, st, a[0])
    return E.lock(st, ('ref', cell, p), False, c)


def _guard_drop(E, st, v):
    E.event(st, 'unlock', (v[2],), None)


DROPS['guard'] = _guard_drop


@m('std::mem::drop', 'core::mem::drop')
def _drop(E, st, a, c):
    E.drop_value(st, st.norm(a[0]))
    return UNIT


@m('std::mem::replace', 'core::mem::replace')
def _replace(E, st, a, c):
    cell, p = E.loc(st, a[0]) if False else ref_of(E, st, a[0])
    old = E.read(st, cell, p)
    E.write(st, cell, p, a[1])
    return old


def ref_of(E, st, v):
    v = st.norm(v)
    if v[0] != 'ref':
        raise Undecided('place behind %r' % (v[:2],))
    return v[1], v[2]


@m('std::mem::take', 'core::mem::take')
def _take(E, st, a, c):
    cell, p = ref_of(E, st, a[0])
    old = E.read(st, cell, p)
    E.write(st, cell, p, default_of(E, st, c.dty))
    return old


@m('std::mem::swap', 'core::mem::swap')
def _swap(E, st, a, c):
    c1, p1 = ref_of(E, st, a[0])
    c2, p2 = ref_of(E, st, a[1])
    x, y = E.read(st, c1, p1), E.read(st, c2, p2)
    E.write(st, c1, p1, y)
    E.write(st, c2, p2, x)
    return UNIT


@m('std::mem::forget', 'core::mem::forget')
def _forget(E, st, a, c):
    return UNIT


@m('std::mem::discriminant', 'std::intrinsics::discriminant_value')
def _disc(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'adt':
        return ('int', v[2])
    vs = st.variants(v[1], v[2])
    if len(vs) == 1:
        return ('int', min(vs))
    raise Split([(lambda s, x=x: s.assume_variants(v[1], frozenset([x]))) for x in sorted(vs)])


def variant(E, st, v):
    """decide the variant of an enum value"""
    v = st.norm(v)
    if v[0] == 'adt':
        return v[2]
    if v[0] == 'sym' and v[2].is_enum():
        vs = st.variants(v[1], v[2])
        if len(vs) == 1:
            return min(vs)
        raise Split([(lambda s, x=x: s.assume_variants(v[1], frozenset([x]))) for x in sorted(vs)])
    raise Undecided('variant of %r' % (v[:2],))


def payload(E, st, v, var, i=0):
    return E.get_field(st, v, i, var, None)


def _unwrap(good, what):
    def f(E, st, a, c):
        v = E.deref(st, a[0]) if st.norm(a[0])[0] in ('ref',) else st.norm(a[0])
        if variant(E, st, v) == good:
            return payload(E, st, v, good)
        raise Panic(what)
    return f


MODELS['std::option::Option::unwrap'] = MODELS['std::option::Option::expect'] = _unwrap(1, 'unwrap of None')
MODELS['std::result::Result::unwrap'] = MODELS['std::result::Result::expect'] = _unwrap(0, 'unwrap of Err')
MODELS['std::result::Result::unwrap_err'] = MODELS['std::result::Result::expect_err'] = _unwrap(1, 'unwrap_err of Ok')


@m('std::option::Option::unwrap_unchecked', 'std::result::Result::unwrap_unchecked')
def _uu(E, st, a, c):
    return payload(E, st, a[0], 1 if 'option' in c.path else 0)


@m('std::option::Option::as_deref', 'std::option::Option::as_deref_mut')
def _asderef(E, st, a, c):
    cell, p = E.loc(st, a[0])
    v = E.read(st, cell, p)
    if variant(E, st, v) == 0:
        return NONE
    x = payload(E, st, v, 1)
    if x[0] in ('str', 't') or x[0] == 'sym' and x[2].path == 'std::string::String':
        return some(x)
    q = p + (('f', 0, 1, None),)
    if x[0] == 'box':
        q = q + (('b',),)
    return some(('ref', cell, q))


# ---------------------------------------------------------------- ? operator
@t('std::ops::Try', 'branch')
def _branch(E, st, a, c):
    v = st.norm(a[0])
    n = variant(E, st, v)
    path = v[1] if v[0] == 'adt' else v[2].path
    if path == 'std::task::Poll':
        if n == 1:
            return ('adt', 'std::ops::ControlFlow', 0, (v,))
        return E.branch_poll(st, v)
    good = 0 if path == 'std::result::Result' else 1
    if n == good:
        return ('adt', 'std::ops::ControlFlow', 0, (payload(E, st, v, n),))
    if good == 1:
        return ('adt', 'std::ops::ControlFlow', 1, (NONE,))
    return ('adt', 'std::ops::ControlFlow', 1, (err(payload(E, st, v, n)),))


@t('std::ops::FromResidual', 'from_residual')
def _from_res(E, st, a, c):
    v = st.norm(a[0])
    n = variant(E, st, v)
    dt = c.dty
    if v[0] == 'adt' and v[1] == 'std::result::Result':
        e = payload(E, st, v, 1)
        if dt.k == 'adt' and dt.path == 'std::result::Result':
            et = dt.args[1]
            # user From conversions of the error
            src = value_type(E, st, e)
            if src is not None and et.k == 'adt' and src != et.path:
                ims = E.prog.impls.get(('std::convert::From', et.path)) or []
                for stt, ms, _d in ims:
                    fn = E.prog.fns.get(ms.get('from'))
                    if fn is not None and fn.locals[1].k == 'adt' and fn.locals[1].path == src:
                        raise Enter(fn, [e], wrap_err)
        return err(e)
    return NONE


def wrap_err(E, st, v):
    return err(v)


def value_type(E, st, v):
    v = st.norm(v)
    if v[0] == 'adt':
        return v[1]
    if v[0] == 'sym' and v[2].k == 'adt':
        return v[2].path
    return None


@t('std::ops::Try', 'from_output')
def _from_output(E, st, a, c):
    return ok(a[0]) if c.dty.k == 'adt' and c.dty.path == 'std::result::Result' else some(a[0])


# ---------------------------------------------------------------- closures
@t('std::ops::Fn', 'call')
@t('std::ops::FnMut', 'call_mut')
@t('std::ops::FnOnce', 'call_once')
def _call(E, st, a, c):
    args = st.norm(a[1])
    if args[0] == 'tup':
        xs = list(args[1])
    else:
        xs = [args]
    return E.call_value(st, a[0], xs, c)


# ---------------------------------------------------------------- vectors and slices
VEC = ('std::vec::Vec', 'std::collections::VecDeque')


def vloc(E, st, self_):
    cell, p = E.loc(st, self_)
    v = E.read(st, cell, p)
    if v[0] == 'sym' and v[2].k in ('slice', 'array'):
        v = mk(v[1], v[2])
        E.write(st, cell, p, v)
    if v[0] == 'bytes':
        v = E.vec_of(st, v)
    if v[0] == 'vec' or v[0] == 'obj' and v[1] == 'slice':
        return cell, p, v
    raise Undecided('vector operation on %r' % (v[:2],))


@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new', 'std::collections::VecDeque::with_capacity')
def _vnew(E, st, a, c):
    et = c.dty.args[0] if c.dty.k == 'adt' and c.dty.args else None
    return ('vec', None, ('int', 0), (), et)


@m('std::vec::from_elem', 'alloc::vec::from_elem')
def _from_elem(E, st, a, c):
    n = st.norm(a[1])
    v = st.norm(a[0])
    return ('vec', ('rep', v), n, (), c.dty.args[0])


@m('std::vec::Vec::len', 'core::slice::len', 'std::collections::VecDeque::len')
def _vlen(E, st, a, c):
    return E.length(st, a[0])


@m('std::vec::Vec::is_empty', 'core::slice::is_empty', 'std::collections::VecDeque::is_empty')
def _vempty(E, st, a, c):
    n = E.length(st, a[0])
    return ('bool', n[1] == 0) if n[0] == 'int' else ('p', ('eq', n, ('int', 0)), True)


@m('std::vec::Vec::capacity', 'std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::vec::Vec::reserve_exact', 'std::collections::HashMap::reserve',
   'std::collections::HashMap::shrink_to_fit', 'std::string::String::reserve')
def _vnop(E, st, a, c):
    return UNIT if c.dty.k == 'tuple' else st.fresh(c.dty)


@m('std::vec::Vec::push', 'std::collections::VecDeque::push_back')
def _vpush(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    E.on_vec_push(st, cell, p, v, a[1])
    E.write(st, cell, p, E.vec_push(st, v, a[1]))
    return UNIT


def nonempty(E, st, v):
    return E.lt(st, ('int', 0), v[2])


@m('std::vec::Vec::pop', 'std::collections::VecDeque::pop_back')
def _vpop(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    if not nonempty(E, st, v):
        return NONE
    last = E.int_add(st, v[2], ('int', -1))
    x = E.vec_read(st, v, last)
    nv = E.vec_drop_last(st, v)
    E.write(st, cell, p, nv)
    return some(x)


def vec_remove_at(E, st, v, i):
    """remove with shifting: exact for small concrete vectors, else a summary"""
    if v[1] is None and v[2][0] == 'int' and i[0] == 'lin':
        for k in range(v[2][1]):
            if E.eq(st, i, ('int', k)):
                i = ('int', k)
                break
    if v[1] is None and v[2][0] == 'int' and all(o[0][0] == 'int' for o in v[3]) and i[0] == 'int':
        d = {o[0][1]: o[1] for o in v[3]}
        n = v[2][1]
        out = []
        for k in range(n):
            if k != i[1]:
                out.append(d[k])
        return ('vec', None, ('int', n - 1), tuple((('int', k), x) for k, x in enumerate(out)), v[4])
    n = E.int_add(st, v[2], ('int', -1))
    if E.eq(st, i, n):
        return E.vec_drop_last(st, v)
    E.on_shift(st, v)
    return ('vec', ('op', 'removed', v, i), n, (), v[4])


@m('std::vec::Vec::swap_remove')
def _vswaprm(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    i = st.norm(a[1])
    if not E.lt(st, i, v[2]):
        raise Panic('swap_remove index')
    x = E.vec_read(st, v, i)
    last = E.int_add(st, v[2], ('int', -1))
    if E.eq(st, i, last):
        nv = E.vec_drop_last(st, v)
    else:
        y = E.vec_read(st, v, last)
        nv = E.vec_drop_last(st, E.vec_write(st, v, i, y))
    E.write(st, cell, p, nv)
    return x


@m('std::vec::Vec::remove')
def _vremove(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    i = st.norm(a[1])
    if not E.lt(st, i, v[2]):
        raise Panic('remove index')
    x = E.vec_read(st, v, i)
    nv = vec_remove_at(E, st, v, i)
    E.write(st, cell, p, nv)
    return x


@m('std::collections::VecDeque::pop_front')
def _vpopf(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    if not nonempty(E, st, v):
        return NONE
    x = E.vec_read(st, v, ('int', 0))
    nv = vec_remove_at(E, st, v, ('int', 0))
    E.write(st, cell, p, nv)
    return some(x)


@m('std::vec::Vec::insert')
def _vinsert(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    i = st.norm(a[1])
    if E.lt(st, v[2], i):
        raise Panic('insert index')
    if E.eq(st, i, v[2]):
        E.write(st, cell, p, E.vec_push(st, v, a[2]))
        return UNIT
    n = E.int_add(st, v[2], ('int', 1))
    E.write(st, cell, p, ('vec', ('op', 'inserted', v, i, a[2]), n, (), v[4]))
    return UNIT


@m('std::vec::Vec::clear', 'std::collections::VecDeque::clear')
def _vclear(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    E.write(st, cell, p, ('vec', None, ('int', 0), (), v[4]))
    return UNIT


@m('std::vec::Vec::truncate')
def _vtrunc(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    n = st.norm(a[1])
    if not E.lt(st, n, v[2]):
        return UNIT
    out = tuple((oi, ov) for oi, ov in v[3] if E.lt(st, oi, n))
    E.write(st, cell, p, ('vec', v[1], n, out, v[4]))
    return UNIT


@m('std::vec::Vec::append')
def _vappend(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    c2, p2, w = vloc(E, st, a[1])
    nv = vec_concat(E, st, v, w)
    E.write(st, cell, p, nv)
    E.write(st, c2, p2, ('vec', None, ('int', 0), (), w[4]))
    return UNIT


def bytes_text(v):
    """text of a byte vector whose whole content is known, as a term"""
    if v[1] is None and v[2][0] == 'int' and len(v[3]) == v[2][1] and all(k[0] == 'int' and x[0] == 'int' for k, x in v[3]):
        d = {k[1]: x[1] for k, x in v[3]}
        return ('str', bytes(d[i] for i in range(v[2][1])).decode('utf8', 'surrogateescape'))
    x = vec_text(v)
    return x if x is not None and v[2] == ('lin', ('op', 'strlen', x), 0, USZ) else None


def vec_concat(E, st, v, w):
    """v followed by w"""
    if w[0] == 'obj':
        w = slice_to_vec(E, st, w)
    r = E.on_concat(st, v, w)
    if r is not None:
        return r
    if w[2] == ('int', 0):
        return v
    if v[4] is not None and v[4].s == 'u8':
        x, y = bytes_text(v), bytes_text(w)
        if x is not None and y is not None and ('str', '') not in (x, y):
            z = concat(x, y)
            if z[0] == 'str':
                return E.vec_of(st, ('bytes', tuple(z[1].encode('utf8', 'surrogateescape'))))
            return ('vec', ('op', 'bytes', z), ('lin', ('op', 'strlen', z), 0, USZ), (), v[4])
    if w[1] is None and w[2][0] == 'int' and w[2][1] <= 8:
        for k in range(w[2][1]):
            v = E.vec_push(st, v, E.vec_read(st, w, ('int', k)))
        return v
    if v[2] == ('int', 0):
        return w
    # grown buffer
    b = ('op', 'grown', st.fresh_id())
    n = ('lin', ('len', b), 0, USZ)
    st.assume_le(v[2], n)
    st.assume_le(w[2], n)
    z = E.lt_known(st, ('int', 0), w[2])
    if z is True:
        st.assume_le(v[2], n, -1)
    elif z is False:
        st.assume_le(n, v[2])
    return ('vec', b, n, (), v[4])


@m('std::vec::Vec::extend_from_slice')
def _vexts(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    w = E.deref(st, a[1])
    if w[0] == 'bytes':
        w = E.vec_of(st, w)
    if w[0] == 'sym':
        w = mk(w[1], w[2])
    nv = vec_concat(E, st, v, w)
    E.write(st, cell, p, nv)
    return UNIT


@t('std::iter::Extend', 'extend')
def _extend(E, st, a, c):
    w = st.norm(a[1])
    d = E.deref(st, w)
    self_ = E.deref(st, a[0])
    if self_[0] == 'vec' and (d[0] in ('vec', 'bytes') or d[0] == 'obj' and d[1] == 'slice'):
        return _vexts(E, st, a, c)
    if self_[0] == 'map':
        raise Enter(E.prog.by_path['vpmodels::map_extend'], [a[0], into_iter(E, st, w, c)])
    if self_[0] == 'vec':
        it = into_iter(E, st, w, c)
        if it[0] == 'obj' and it[1] in ('vit', 'sit') and self_[2] != ('int', 0) and not (it[4][0] == 'int' and it[3][0] == 'int'):
            src = it_vec(E, st, it)
            if it[1] == 'vit' and it[3] == ('int', 0):
                cell, p, v = vloc(E, st, a[0])
                E.write(st, cell, p, vec_concat(E, st, v, src))
                return UNIT
        raise Enter(E.prog.by_path['vpmodels::vec_extend'], [a[0], it])
    return NotImplemented


def elem_ref(E, st, cell, p, v, i):
    if v[0] == 'obj' and v[1] == 'slice':
        # element of a slice copied out: reference through the slice value
        return ('ref', cell, p + (('x', i),))
    return ('ref', cell, p + (('x', i),))


@m('core::slice::get', 'core::slice::get_mut', 'std::collections::VecDeque::get', 'std::vec::Vec::get')
def _get(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    i = st.norm(a[1])
    if i[0] in ('int', 'lin'):
        if E.lt(st, i, E.length(st, v)):
            return some(elem_ref(E, st, cell, p, v, i))
        return NONE
    lo, hi = range_bounds(E, st, i, E.length(st, v))
    if E.lt(st, hi, lo) or E.lt(st, E.length(st, v), hi):
        return NONE
    return some(st.ref_to(E.subslice(st, v, lo, hi)))


@m('core::slice::first', 'core::slice::first_mut', 'std::collections::VecDeque::front')
def _first(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    if E.lt(st, ('int', 0), E.length(st, v)):
        return some(elem_ref(E, st, cell, p, v, ('int', 0)))
    return NONE


@m('core::slice::last', 'core::slice::last_mut', 'std::collections::VecDeque::back')
def _last(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    n = E.length(st, v)
    if E.lt(st, ('int', 0), n):
        return some(elem_ref(E, st, cell, p, v, E.int_add(st, n, ('int', -1))))
    return NONE


@m('core::slice::split_at', 'core::slice::split_at_mut')
def _split_at(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    n = E.length(st, v)
    i = st.norm(a[1])
    if E.lt(st, n, i):
        raise Panic('split_at index')
    return ('tup', (st.ref_to(E.subslice(st, v, ('int', 0), i)), st.ref_to(E.subslice(st, v, i, n))))


@m('core::slice::contains')
def _scontains(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    x = E.deref(st, a[1])
    if v[0] == 'vec' and v[1] is None and v[2][0] == 'int':
        for _, y in v[3]:
            if E.eq(st, x, E.deref(st, y)):
                return TRUE
        return FALSE
    return ('p', ('contains', v, x), True)


@m('core::slice::swap')
def _sswap(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    i, j = st.norm(a[1]), st.norm(a[2])
    n = E.length(st, v)
    if not (E.lt(st, i, n) and E.lt(st, j, n)):
        raise Panic('swap index')
    x, y = E.vec_read(st, v, i), E.vec_read(st, v, j)
    nv = E.vec_write(st, E.vec_write(st, v, i, y), j, x)
    E.write(st, cell, p, nv)
    return UNIT


@m('core::slice::reverse', 'core::slice::sort_unstable', 'core::slice::sort', 'core::slice::rotate_left', 'core::slice::rotate_right',
   'core::slice::sort_by', 'core::slice::sort_by_key', 'core::slice::sort_unstable_by', 'core::slice::sort_unstable_by_key', 'core::slice::fill', 'std::slice::sort', 'std::slice::sort_by', 'std::slice::sort_by_key')
def _rearranged(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    if v[2] in (('int', 0), ('int', 1)) and not c.path.endswith('fill'):
        return UNIT
    me = strip_generics(c.path).split('::')[-1]
    if v[1] is None and v[2][0] == 'int' and v[2][1] <= 8 and me == 'reverse':
        n = v[2][1]
        xs = [E.vec_read(st, v, ('int', k)) for k in range(n)]
        w = ('vec', None, ('int', 0), (), v[4])
        for x in reversed(xs):
            w = E.vec_push(st, w, x)
        E.write(st, cell, p, w)
        return UNIT
    # the same elements in another order
    E.write(st, cell, p, ('vec', ('op', 'rearranged', me, st.fresh_id()), v[2], (), v[4]))
    return UNIT


@m('std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'core::array::as_slice', 'std::vec::Vec::as_ref', 'std::vec::Vec::into_boxed_slice')
def _asslice(E, st, a, c):
    return a[0]


def range_bounds(E, st, r, n):
    r = st.norm(r)
    if r[0] == 'ref':
        r = E.deref(st, r)
    if r[0] == 'adt':
        nm = r[1].split('::')[-1]
        if nm == 'Range':
            return st.norm(r[3][0]), st.norm(r[3][1])
        if nm == 'RangeFrom':
            return st.norm(r[3][0]), n
        if nm == 'RangeTo':
            return ('int', 0), st.norm(r[3][0])
        if nm == 'RangeFull':
            return ('int', 0), n
        if nm == 'RangeInclusive':
            return st.norm(r[3][0]), E.int_add(st, st.norm(r[3][1]), ('int', 1))
        if nm == 'RangeToInclusive':
            return ('int', 0), E.int_add(st, st.norm(r[3][0]), ('int', 1))
    raise Undecided('range %r' % (r[:2],))


@t('std::ops::Index', 'index')
@t('std::ops::IndexMut', 'index_mut')
def _index(E, st, a, c):
    tgt = E.deref(st, a[0])
    if tgt[0] == 'map':
        cell, p = E.loc(st, a[0])
        k, v = E.map_lookup(st, tgt, E.deref(st, a[1]))
        if v == ABSENT:
            raise Panic('missing map key')
        return ('ref', cell, p + (('m', k),))
    if tgt[0] in ('str', 't') or tgt[0] == 'sym' and (tgt[2].k == 'str' or tgt[2].path == 'std::string::String'):
        r = E.deref(st, a[1])
        if r[0] == 'adt' and r[1].endswith('RangeFull'):
            return tgt
        n = ('lin', ('op', 'strlen', tgt), 0, USZ)
        lo, hi = range_bounds(E, st, r, n)
        if tgt[0] != 'str':
            if E.lt(st, hi, lo) or E.lt(st, n, hi):
                raise Panic('str slice')
            if not (lo == ('int', 0) and hi == n) and not E.truth(st, ('p', ('charboundary', tgt, lo, hi), True)):
                raise Panic('str slice boundary')
        return ('t', 'substr', tgt, lo, hi)
    if tgt[0] == 'sym' and tgt[2].k == 'adt' and tgt[2].path.startswith('serde_json'):
        return st.ref_to(mk(('op', 'jsonidx', tgt, E.deref(st, a[1])), tgt[2]))
    cell, p, v = vloc(E, st, a[0])
    i = E.deref(st, a[1])
    n = E.length(st, v)
    if i[0] in ('int', 'lin'):
        if E.lt(st, i, n):
            return elem_ref(E, st, cell, p, v, i)
        raise Panic('index out of bounds')
    lo, hi = range_bounds(E, st, i, n)
    if E.lt(st, hi, lo):
        raise Panic('slice start after end')
    if E.lt(st, n, hi):
        raise Panic('slice end out of bounds')
    if lo == ('int', 0) and hi == n:
        return ('ref', cell, p)
    return st.ref_to(E.subslice(st, v, lo, hi))


# ---------------------------------------------------------------- iteration
@m('core::slice::iter', 'core::slice::iter_mut', 'std::collections::VecDeque::iter', 'std::vec::Vec::iter')
def _iter(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    return ('obj', 'sit', ('ref', cell, p), ('int', 0), E.length(st, v))


@m('std::vec::Vec::drain')
def _drain(E, st, a, c):
    cell, p, v = vloc(E, st, a[0])
    lo, hi = range_bounds(E, st, a[1], v[2])
    if not (lo == ('int', 0) and hi == v[2]):
        raise Undecided('partial drain')
    E.write(st, cell, p, ('vec', None, ('int', 0), (), v[4]))
    return ('obj', 'vit', v, ('int', 0), v[2])


def is_iter(v):
    return v[0] == 'obj' and v[1] in ('sit', 'vit', 'mit', 'rng', 'rev', 'dit') or v[0] == 'adt' and (v[1].startswith('vpmodels::') or v[1] == 'std::ops::Range' or v[1] == 'std::ops::RangeInclusive'
                                                                                                        or v[1] == 'std::ops::RangeFrom')


def into_iter(E, st, v, c=None):
    v = st.norm(v)
    if is_iter(v):
        return v
    if v[0] == 'ref':
        tgt = E.deref(st, v)
        cell, p = E.loc(st, v)
        if tgt[0] == 'vec' or tgt[0] == 'obj' and tgt[1] == 'slice' or tgt[0] == 'sym' and tgt[2].k in ('slice', 'array'):
            cell, p, tgt = vloc(E, st, v)
            return ('obj', 'sit', ('ref', cell, p), ('int', 0), E.length(st, tgt))
        if tgt[0] == 'bytes':
            tgt = E.vec_of(st, tgt)
            return ('obj', 'sit', st.ref_to(tgt), ('int', 0), tgt[2])
        if tgt[0] == 'map':
            return ('obj', 'mit', ('ref', cell, p), 0, 'ref')
        if tgt[0] in ('adt', 'sym') and (tgt[1] if tgt[0] == 'adt' else tgt[2].path) == 'std::option::Option':
            if variant(E, st, tgt) == 0:
                return ('adt', 'vpmodels::Once', 0, (NONE,))
            return ('adt', 'vpmodels::Once', 0, (some(('ref', cell, p + (('f', 0, 1, None),))),))
        return v          # &mut I
    if v[0] == 'box':
        return v
    if v[0] == 'vec':
        return ('obj', 'vit', v, ('int', 0), v[2])
    if v[0] == 'map':
        return ('obj', 'mit', v, 0, 'val')
    if v[0] == 'adt' and v[1] == 'std::option::Option':
        return ('adt', 'vpmodels::Once', 0, (v,))
    if v[0] == 'sym' and v[2].k == 'adt' and v[2].path == 'std::option::Option':
        return ('adt', 'vpmodels::Once', 0, (v,))
    return v


@t('std::iter::IntoIterator', 'into_iter')
def _into_iter(E, st, a, c):
    return into_iter(E, st, a[0], c)


def it_vec(E, st, it):
    return it[2] if it[1] == 'vit' else E.deref(st, it[2])


@t('std::iter::Iterator', 'next')
def _next(E, st, a, c):
    cell, p = ref_of(E, st, a[0])
    v = E.read(st, cell, p)
    while v[0] in ('ref', 'box'):
        if v[0] == 'ref':
            cell, p = v[1], v[2]
        else:
            p = p + (('b',),)
        v = E.read(st, cell, p)
    # dispatch on the iterator found (user iterators behind &mut)
    kind, _ = E.self_kind(st, v)
    ims = E.prog.impls.get(('std::iter::Iterator', kind))
    if ims:
        fn = E.prog.fns.get(ims[0][1].get('next'))
        if fn is not None:
            raise Enter(fn, [('ref', cell, p)])
    return iter_next(E, st, cell, p, v, c)


def iter_next(E, st, cell, p, v, c, back=False):
    if v[0] == 'obj' and v[1] in ('sit', 'vit'):
        lo, hi = v[3], v[4]
        if not E.lt(st, lo, hi):
            return NONE
        i = E.int_add(st, hi, ('int', -1)) if back else lo
        if v[1] == 'sit':
            x = ('ref', v[2][1], v[2][2] + (('x', i),))
        else:
            x = E.vec_read(st, v[2], i)
        E.on_next(st, v, i)
        nv = v[:4] + (i,) if back else v[:3] + (E.int_add(st, lo, ('int', 1)), hi)
        E.write(st, cell, p, nv)
        return some(x)
    if v[0] == 'obj' and v[1] == 'rev':
        return iter_next(E, st, cell, p + (('o', 2),), v[2], c, not back)
    if v[0] == 'adt' and v[1] == 'std::ops::Range':
        lo, hi = st.norm(v[3][0]), st.norm(v[3][1])
        if not E.lt(st, lo, hi):
            return NONE
        i = E.int_add(st, hi, ('int', -1)) if back else lo
        nv = (lo, i) if back else (E.int_add(st, lo, ('int', 1)), hi)
        E.write(st, cell, p, ('adt', v[1], 0, nv))
        return some(i)
    if v[0] == 'adt' and v[1] == 'std::ops::RangeFrom':
        lo = st.norm(v[3][0])
        E.write(st, cell, p, ('adt', v[1], 0, (E.int_add(st, lo, ('int', 1)),)))
        return some(lo)
    if v[0] == 'adt' and v[1] == 'std::ops::RangeInclusive':
        lo, hi = st.norm(v[3][0]), st.norm(v[3][1])
        if len(v[3]) > 2 and v[3][2] != FALSE and E.truth(st, v[3][2]):
            return NONE
        if E.lt(st, hi, lo):
            return NONE
        i = hi if back else lo
        if E.eq(st, lo, hi):
            nv = (lo, hi, TRUE)
        else:
            nv = (lo, E.int_add(st, hi, ('int', -1)), FALSE) if back else (E.int_add(st, lo, ('int', 1)), hi, FALSE)
        E.write(st, cell, p, ('adt', v[1], 0, nv))
        return some(i)
    if v[0] == 'obj' and v[1] == 'mit':
        return map_iter_next(E, st, cell, p, v)
    if v[0] == 'adt' and v[1].startswith('vpmodels::') and back:
        raise Undecided('reverse of an adapter')
    if v[0] == 'sym' or v[0] == 't':
        forget(E, st, 'next of %s' % (v[2].s if v[0] == 'sym' else v[1],))
        return st.fresh(c.dty)
    raise Undecided('next of %r' % (v[:2],))


def map_iter_next(E, st, cell, p, v):
    """entries written by the program first, then any number of unknown others"""
    mp = E.deref(st, v[2]) if v[4] in ('ref', 'keys', 'values') else v[2]
    n = v[3]
    if v[4] == 'keys_v' or v[4] == 'values_v':
        mp = v[2]
    ents = [e for e in mp[3] if e[1] != ABSENT]
    by_ref = v[2][0] == 'ref'

    def item(k, x, rk, rx):
        mode = v[4]
        if mode in ('ref',):
            return ('tup', (rk, rx))
        if mode == 'val':
            return ('tup', (k, x))
        if mode == 'keys':
            return rk
        if mode == 'values':
            return rx
        if mode == 'keys_v':
            return k
        return x
    picked = E.map_pick(st, mp, n)
    if picked is not None:
        out = []
        for s, ent, n2 in picked:
            E.write(s, cell, p, v[:3] + (n2,) + v[4:])
            if ent is None:
                out.append((s, NONE))
                continue
            k, x = ent
            out.append((s, some(item(k, x, s.ref_to(k), ('ref', v[2][1], v[2][2] + (('m', k),)) if by_ref else x))))
        return Outs(out)
    if isinstance(n, int) and n < len(ents):
        k, x = ents[n]
        rk = st.ref_to(k)
        rx = ('ref', v[2][1], v[2][2] + (('m', k),)) if by_ref else x
        E.write(st, cell, p, v[:3] + (n + 1,) + v[4:])
        return some(item(k, x, rk, rx))
    if mp[1] is None:
        return NONE
    # unknown remainder
    out = []
    s1 = st.copy()
    out.append((s1, NONE))
    s2 = st.copy()
    k = s2.fresh(mp[4])
    x = s2.fresh(mp[5])
    if k[0] == 'sym':
        # an entry of the rest is none of those listed
        ne = frozenset(e[0] for e in mp[3] if e[0][0] in ('str', 'char'))
        if ne:
            s2.f[('ne', k[1])] = s2.f.get(('ne', k[1]), frozenset()) | ne
    s2.f[('bm', mp[1], k)] = x
    rk = s2.ref_to(k)
    rx = ('ref', v[2][1], v[2][2] + (('m', k),)) if by_ref else x
    E.write(s2, cell, p, v[:3] + ('more',) + v[4:])
    out.append((s2, some(item(k, x, rk, rx))))
    return Outs(out)


@t('std::iter::DoubleEndedIterator', 'next_back')
def _next_back(E, st, a, c):
    cell, p = ref_of(E, st, a[0])
    v = E.read(st, cell, p)
    while v[0] == 'ref':
        cell, p = v[1], v[2]
        v = E.read(st, cell, p)
    return iter_next(E, st, cell, p, v, c, True)


@t('std::iter::Iterator', 'rev')
def _rev(E, st, a, c):
    return ('obj', 'rev', into_iter(E, st, a[0], c))


@t('std::iter::ExactSizeIterator', 'len')
def _ilen(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'obj' and v[1] in ('sit', 'vit'):
        return E.int_sub(st, v[4], v[3])
    return st.fresh(c.dty)


@t('std::iter::Iterator', 'size_hint')
def _sh(E, st, a, c):
    return st.fresh(c.dty)


IT1 = {'map': 'it_map', 'filter': 'it_filter', 'filter_map': 'it_filter_map', 'enumerate': 'it_enumerate', 'zip': 'it_zip', 'chain': 'it_chain',
       'take_while': 'it_take_while', 'skip_while': 'it_skip_while', 'take': 'it_take', 'skip': 'it_skip', 'cloned': 'it_cloned', 'copied': 'it_cloned',
       'peekable': 'it_peekable', 'inspect': 'it_inspect', 'flat_map': 'it_flat_map', 'any': 'it_any', 'all': 'it_all', 'find': 'it_find',
       'find_map': 'it_find_map', 'position': 'it_position', 'for_each': 'it_for_each', 'try_for_each': 'it_try_for_each', 'fold': 'it_fold',
       'try_fold': 'it_try_fold', 'count': 'it_count', 'last': 'it_last', 'nth': 'it_nth'}


def _itmodel(name):
    def f(E, st, a, c):
        args = list(a)
        v = st.norm(args[0])
        if v[0] == 'obj' and v[1] in ('sit', 'vit') and name in ('it_skip', 'it_take') and st.norm(args[1])[0] in ('int', 'lin'):
            n = st.norm(args[1])
            ln = E.int_sub(st, v[4], v[3])
            if E.lt(st, n, ln):
                if name == 'it_skip':
                    return v[:3] + (E.int_add(st, v[3], n), v[4])
                return v[:4] + (E.int_add(st, v[3], n),)
            return v[:3] + (v[4], v[4]) if name == 'it_skip' else v
        if name == 'it_cloned' and v[0] == 'obj' and v[1] == 'sit':
            src = E.deref(st, v[2])
            if src[0] == 'vec':
                return ('obj', 'vit', src, v[3], v[4])
        if name == 'it_count' and v[0] == 'obj' and v[1] in ('sit', 'vit'):
            return E.int_sub(st, v[4], v[3])
        if name in ('it_zip', 'it_chain'):
            args[1] = into_iter(E, st, args[1], c)
            return ('adt', 'vpmodels::' + ('Zip' if name == 'it_zip' else 'Chain'), 0, (args[0], args[1]) if name == 'it_zip' else (args[0], args[1], TRUE))
        fn = E.prog.by_path['vpmodels::' + name]
        raise Enter(fn, args)
    return f


for _k, _v in IT1.items():
    TMODELS[('std::iter::Iterator', _k)] = _itmodel(_v)


@t('std::iter::Iterator', 'by_ref')
def _by_ref(E, st, a, c):
    return a[0]


@t('std::iter::Iterator', 'collect')
def _collect(E, st, a, c):
    return collect(E, st, a[0], c.dty, c)


def collect(E, st, it, ty, c):
    it = into_iter(E, st, it, c)
    if ty.k == 'adt' and ty.path == 'std::string::String':
        if it[0] == 'obj' and it[1] in ('vit', 'sit'):
            vec = it_vec(E, st, it)
            if vec[0] == 'obj' and vec[1] == 'slice':
                base, lo = vec[2], vec[3]
                return ('t', 'chars', base, E.int_add(st, lo, it[3]), E.int_add(st, lo, it[4]))
            if it[3] == ('int', 0) and it[4] == vec[2]:
                if vec[1] is None and vec[2] == ('int', 0):
                    return ('str', '')
                return ('t', 'string', vec)
            return ('t', 'chars', vec, it[3], it[4])
        raise Enter(E.prog.by_path['vpmodels::collect_string_chars'], [it])
    if ty.k == 'adt' and ty.path in VEC:
        if it[0] == 'obj' and it[1] == 'vit' and it[3] == ('int', 0) and it[4] == it[2][2]:
            return it[2]
        if it[0] == 'obj' and it[1] == 'vit':
            return slice_to_vec(E, st, ('obj', 'slice', it[2], it[3], E.int_sub(st, it[4], it[3])))
        raise Enter(E.prog.by_path['vpmodels::collect_vec'], [it, ('vec', None, ('int', 0), (), ty.args[0])], retype_vec(ty.args[0]))
    if ty.k == 'adt' and ty.path == 'std::collections::HashMap':
        raise Enter(E.prog.by_path['vpmodels::collect_map'], [it])
    if ty.k == 'adt' and ty.path in ('std::result::Result', 'std::option::Option'):
        x = ty.args[0]
        res = ty.path == 'std::result::Result'
        if x.k == 'adt' and x.path == 'std::vec::Vec':
            raise Enter(E.prog.by_path['vpmodels::collect_res_vec' if res else 'vpmodels::collect_opt_vec'], [it, ('vec', None, ('int', 0), (), x.args[0])])
        if x.k == 'tuple' and not x.args and res:
            raise Enter(E.prog.by_path['vpmodels::collect_res_unit'], [it])
    forget(E, st, 'collect ' + ty.s)
    st.taint = st.taint + ('collect ' + ty.s,)
    return st.fresh(ty)


_RT = {}


@functools.lru_cache(maxsize=None)
def retype_vec(et):
    f = _RT.get(et.s)
    if f is None:
        def f(E, st, v):
            return v[:4] + (et,) if v[0] == 'vec' else v
        _RT[et.s] = f
    return f


@m('core::array::iter', 'core::array::into_iter')
def _aiter(E, st, a, c):
    return into_iter(E, st, a[0], c)


# ---------------------------------------------------------------- maps
MAP = ('std::collections::HashMap', 'std::collections::BTreeMap')


def mloc(E, st, self_):
    cell, p = E.loc(st, self_)
    v = E.read(st, cell, p)
    if v[0] != 'map':
        raise Undecided('map operation on %r' % (v[:2],))
    return cell, p, v


@m(*names(MAP, ['new', 'with_capacity']))
def _mnew(E, st, a, c):
    ty = c.dty
    return ('map', None, ('int', 0), (), ty.args[0], ty.args[1])


@m(*names(MAP, ['get', 'get_mut', 'get_key_value']))
def _mget(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.on_map_key(st, v, a[1])
    k, x = E.map_lookup(st, v, E.deref(st, a[1]))
    if x == ABSENT:
        return NONE
    r = ('ref', cell, p + (('m', k),))
    if c.path.endswith('get_key_value'):
        return some(('tup', (st.ref_to(k), r)))
    return some(r)


@m(*names(MAP, ['contains_key']))
def _mhas(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.on_map_key(st, v, a[1])
    k, x = E.map_lookup(st, v, E.deref(st, a[1]))
    return ('bool', x != ABSENT)


@m(*names(MAP, ['insert']))
def _minsert(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.on_map_key(st, v, a[1])
    nv, old = E.map_insert(st, v, E.deref(st, a[1]), a[2])
    E.on_map_insert(st, cell, p, v, a[1], a[2])
    E.write(st, cell, p, nv)
    return NONE if old == ABSENT else some(old)


@m(*names(MAP, ['remove', 'remove_entry']))
def _mremove(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.on_map_key(st, v, a[1])
    k = E.deref(st, a[1])
    nv, old = E.map_remove(st, v, k)
    if old == ABSENT:
        return NONE
    E.write(st, cell, p, nv)
    return some(('tup', (k, old))) if c.path.endswith('entry') else some(old)


@m(*names(MAP, ['len']))
def _mlen(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    return v[2]


@m(*names(MAP, ['is_empty']))
def _mempty(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    n = v[2]
    return ('bool', n[1] == 0) if n[0] == 'int' else ('p', ('eq', n, ('int', 0)), True)


@m(*names(MAP, ['clear']))
def _mclear(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.write(st, cell, p, ('map', None, ('int', 0), ()) + v[4:])
    return UNIT


@m(*names(MAP, ['retain']))
def _map_retain(E, st, a, c):
    mp = E.deref(st, a[0])
    if mp[0] == 'map' and (mp[1] is None or E.map_pick(st, mp, None) is not None):
        raise Enter(E.prog.by_path['vpmodels::map_retain'], a)
    return NotImplemented


@m(*names(MAP, ['iter', 'iter_mut', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain']))
def _miter(E, st, a, c):
    n = c.path.split('::')[-1]
    if n.startswith('into'):
        return ('obj', 'mit', st.norm(a[0]), 0, n[5:] + '_v')
    cell, p, v = mloc(E, st, a[0])
    return ('obj', 'mit', ('ref', cell, p), 0, {'iter': 'ref', 'iter_mut': 'ref', 'keys': 'keys', 'values': 'values', 'values_mut': 'values', 'drain': 'ref'}[n])


ENTRY = 'std::collections::hash_map::Entry'


@m(*names(MAP, ['entry']))
def _entry(E, st, a, c):
    cell, p, v = mloc(E, st, a[0])
    E.on_map_key(st, v, a[1])
    key = E.deref(st, a[1])
    k, x = E.map_lookup(st, v, key)
    ty = c.dty
    path = ty.path if ty.k == 'adt' else ENTRY
    return ('adt', path, 0 if x != ABSENT else 1, (('obj', 'entry', ('ref', cell, p), k, a[1]),))


def _ent(E, st, v):
    v = E.deref(st, v)
    if v[0] == 'adt':
        v = v[3][0]
    return v


def _entry_fn(names_, f):
    for base in ('std::collections::hash_map::Entry', 'std::collections::hash_map::OccupiedEntry', 'std::collections::hash_map::VacantEntry', 'std::collections::hash::map::Entry'):
        for n in names_:
            MODELS[base + '::' + n] = f


def _e_or_insert(E, st, a, c):
    e = _ent(E, st, a[0])
    _, _, r, k, key = e
    cell, p = r[1], r[2]
    mp = E.read(st, cell, p)
    kk, x = E.map_lookup(st, mp, k)
    if x == ABSENT:
        val = a[1] if len(a) > 1 else default_of(E, st, c.dty.to if c.dty.k == 'ref' else c.dty)
        nv, _o = E.map_insert(st, mp, k, val)
        E.on_map_insert(st, cell, p, mp, k, val)
        E.write(st, cell, p, nv)
    return ('ref', cell, p + (('m', kk),))


_entry_fn(['or_insert', 'or_default'], _e_or_insert)


def _e_get(E, st, a, c):
    e = _ent(E, st, a[0])
    r = e[2]
    return ('ref', r[1], r[2] + (('m', e[3]),))


_entry_fn(['get', 'get_mut', 'into_mut'], _e_get)


def _e_insert(E, st, a, c):
    e = _ent(E, st, a[0])
    r = e[2]
    mp = E.read(st, r[1], r[2])
    nv, old = E.map_insert(st, mp, e[3], a[1])
    E.on_map_insert(st, r[1], r[2], mp, e[3], a[1])
    E.write(st, r[1], r[2], nv)
    if old != ABSENT and 'Vacant' not in c.path:
        return old
    return ('ref', r[1], r[2] + (('m', e[3]),))


_entry_fn(['insert'], _e_insert)


def _e_remove(E, st, a, c):
    e = _ent(E, st, a[0])
    r = e[2]
    mp = E.read(st, r[1], r[2])
    nv, old = E.map_remove(st, mp, e[3])
    E.write(st, r[1], r[2], nv)
    return ('tup', (e[3], old)) if c.path.endswith('remove_entry') else old


_entry_fn(['remove', 'remove_entry'], _e_remove)


def _e_key(E, st, a, c):
    return st.ref_to(_ent(E, st, a[0])[3])


_entry_fn(['key'], _e_key)

# ---------------------------------------------------------------- atomics, threads, channels: events for the client
ATOM = ('std::sync::atomic::Atomic', 'std::sync::atomic::AtomicBool', 'std::sync::atomic::AtomicUsize', 'std::sync::atomic::AtomicU64')


@m(*names(ATOM, ['load']))
def _aload(E, st, a, c):
    return E.atomic_load(st, a[0], c)


@m(*names(ATOM, ['store', 'swap', 'fetch_or', 'fetch_and', 'compare_exchange', 'fetch_add', 'fetch_sub', 'fetch_xor', 'fetch_not', 'compare_exchange_weak', 'fetch_update']))
def _astore(E, st, a, c):
    op = strip_generics(c.path).split('::')[-1]
    E.event(st, 'atomic_' + op, tuple(a), c)
    return UNIT if op == 'store' else st.fresh(c.dty)


def _ev(name, result=None):
    def f(E, st, a, c):
        r = E.event(st, name, tuple(a), c)
        if r is not None:
            return r
        if result is not None:
            return result(E, st, a, c)
        return st.fresh(c.dty)
    return f


for _n in ('std::sync::mpsc::Sender::send', 'std::sync::mpsc::SyncSender::send', 'std::sync::mpsc::SyncSender::try_send', 'tokio::sync::mpsc::Sender::try_send', 'tokio::sync::mpsc::Sender::blocking_send',
           'tokio::sync::mpsc::UnboundedSender::send', 'tokio::sync::oneshot::Sender::send'):
    MODELS[_n] = _ev('chan_send')
for _n in ('std::sync::mpsc::Receiver::recv', 'std::sync::mpsc::Receiver::recv_timeout', 'std::sync::mpsc::Receiver::try_recv', 'tokio::sync::mpsc::Receiver::try_recv',
           'tokio::sync::mpsc::Receiver::blocking_recv'):
    MODELS[_n] = _ev('chan_recv')
ASYNC = {'tokio::sync::mpsc::Sender::send': 'chan_send', 'tokio::sync::mpsc::Receiver::recv': 'chan_recv', 'tokio::time::sleep': 'sleep',
         'tokio::net::TcpListener::accept': 'accept', 'tokio::net::TcpListener::bind': 'bind', 'tokio::task::yield_now': 'sleep', 'tokio::sync::mpsc::Sender::send_timeout': 'chan_send',
         'tokio::time::timeout': 'timeout', 'tokio::sync::oneshot::Receiver::poll': 'chan_recv'}


def _mkfut(name):
    def f(E, st, a, c):
        return ('obj', 'fut', name, tuple(a))
    return f


for _n, _e in ASYNC.items():
    MODELS[_n] = _mkfut(_e)
for _n in ('read', 'read_to_end', 'read_exact', 'read_buf', 'read_to_string'):
    TMODELS[('tokio::io::AsyncReadExt', _n)] = _mkfut('io_' + _n)
    TMODELS[('std::io::Read', _n)] = _ev('io_' + _n)
for _n in ('write', 'write_all', 'flush', 'shutdown', 'write_fmt', 'write_buf', 'write_all_buf'):
    TMODELS[('tokio::io::AsyncWriteExt', _n)] = _mkfut('io_' + _n)
    TMODELS[('std::io::Write', _n)] = _ev('io_' + _n)
MODELS['std::net::TcpListener::accept'] = _ev('accept')
MODELS['std::net::TcpListener::bind'] = _ev('bind')
MODELS['std::net::TcpStream::shutdown'] = _ev('sock_shutdown')
for _n in ('set_read_timeout', 'set_write_timeout', 'set_nodelay', 'set_nonblocking', 'peer_addr', 'local_addr'):
    MODELS['std::net::TcpStream::' + _n] = _ev('sock_opt')
    MODELS['std::net::TcpListener::' + _n] = _ev('sock_opt')


@m('std::sync::mpsc::channel', 'tokio::sync::mpsc::channel', 'std::sync::mpsc::sync_channel', 'tokio::sync::mpsc::unbounded_channel', 'tokio::sync::oneshot::channel')
def _channel(E, st, a, c):
    if not (len(a) > 0 and a[0] == ('int', 0) and 'tokio' in c.path):
        i = st.fresh_id()
        ty = c.dty.args
        E.event(st, 'channel', (('chan', i),), c)
        return ('tup', (('obj', 'tx', ('chan', i), tag_ty(ty[0])), ('obj', 'rx', ('chan', i), tag_ty(ty[1]))))
    raise Panic('zero capacity channel')


def tag_ty(ty):
    return ty.args[0]


@m('std::thread::spawn', 'tokio::spawn', 'tokio::task::spawn', 'std::thread::Builder::spawn', 'tokio::task::spawn_blocking', 'tokio::task::spawn_local')
def _spawn(E, st, a, c):
    r = E.event(st, 'spawn', tuple(a), c)
    return r if r is not None else st.fresh(c.dty)


@m('std::thread::JoinHandle::join')
def _join(E, st, a, c):
    r = E.event(st, 'join', tuple(a), c)
    return r if r is not None else st.fresh(c.dty)


@m('std::thread::JoinHandle::is_finished')
def _isfin(E, st, a, c):
    return mk(st.fresh_id(), c.dty)


@m('std::net::Ipv4Addr::new', 'std::net::Ipv6Addr::new', 'std::net::IpAddr::to_string')
def _ip(E, st, a, c):
    return st.fresh(c.dty)


# ---------------------------------------------------------------- futures
@t('std::future::IntoFuture', 'into_future')
def _intofut(E, st, a, c):
    return a[0]


@m('std::future::get_context', 'core::future::get_context')
def _getctx(E, st, a, c):
    if a[0] == UNIT:
        st.mem.setdefault('context', UNIT)
        return ('ref', 'context', ())
    return a[0]


@m('std::pin::Pin::new_unchecked', 'std::pin::Pin::new', 'std::pin::Pin::get_mut', 'std::pin::Pin::get_unchecked_mut', 'std::pin::Pin::into_inner', 'std::pin::Pin::into_inner_unchecked')
def _pinnew(E, st, a, c):
    return a[0]


@m('std::pin::Pin::as_mut', 'std::pin::Pin::as_ref')
def _pinasmut(E, st, a, c):
    return E.deref1(st, a[0]) if E.deref1(st, a[0])[0] == 'ref' else a[0]


def ready(v):
    return ('adt', 'std::task::Poll', 0, (v,))


def wrap_ready(E, st, v):
    return ready(v)


@t('std::future::Future', 'poll')
def _poll(E, st, a, c):
    cell, p = ref_of(E, st, a[0])
    v = E.read(st, cell, p)
    while v[0] in ('ref', 'box'):
        if v[0] == 'ref':
            cell, p = v[1], v[2]
        else:
            p = p + (('b',),)
        v = E.read(st, cell, p)
    if v[0] == 'cor':
        fn = E.prog.fns.get(v[1])
        if fn is None:
            raise Undecided('coroutine body ' + v[1])
        arg = ('ref', cell, p)
        if fn.locals[1].k != 'ref' and not (fn.locals[1].k == 'adt' and fn.locals[1].path == 'std::pin::Pin'):
            arg = v
        raise Enter(fn, [arg, UNIT][:max(fn.argc, 1)], wrap_ready)
    if v[0] == 'obj' and v[1] == 'fut':
        c2 = c
        r = E.await_(st, v[2], v[3], c)
        if isinstance(r, Outs):
            return Outs([(s, ready(x)) for s, x in r.items])
        return ready(r)
    if v[0] == 'clo':
        # poll_fn
        raise Enter(E.prog.fns[v[1]], [('ref', cell, p), a[1]])
    return E.poll_unknown(st, v, c)


@m('std::future::poll_fn', 'std::future::ready')
def _pollfn(E, st, a, c):
    if c.path.endswith('ready'):
        return ('obj', 'fut', 'ready', tuple(a))
    return a[0]


@m('std::option::Option::unwrap_or_default', 'std::result::Result::unwrap_or_default')
def _unwrap_or_default(E, st, a, c):
    v = st.norm(a[0])
    good = 1 if c.atys[0].path == 'std::option::Option' else 0
    if variant(E, st, v) == good:
        return payload(E, st, v, good)
    return default_of(E, st, c.dty)


@m('std::task::Poll::is_pending')
def _isp(E, st, a, c):
    return ('bool', variant(E, st, E.deref(st, a[0])) == 1)


@m('std::task::Poll::is_ready')
def _isr(E, st, a, c):
    return ('bool', variant(E, st, E.deref(st, a[0])) == 0)


# ---------------------------------------------------------------- Result/Option helpers written in Rust
RUST_MODELS = {}
for _n in ('map map_or map_or_else and_then and or or_else xor filter is_some is_none is_some_and is_none_or unwrap_or unwrap_or_else '
           'ok_or ok_or_else as_ref as_mut cloned flatten zip transpose inspect take take_if replace insert get_or_insert get_or_insert_with').split():
    RUST_MODELS['std::option::Option::' + _n] = 'vpmodels::opt_' + _n
RUST_MODELS['std::option::Option::copied'] = 'vpmodels::opt_cloned'
RUST_MODELS['std::option::Option::iter'] = 'vpmodels::opt_iter_ref'
for _n in ('map map_err map_or map_or_else and_then and or_else or is_ok is_err is_ok_and is_err_and ok err as_ref as_mut unwrap_or unwrap_or_else '
           'cloned transpose inspect_err inspect flatten').split():
    RUST_MODELS['std::result::Result::' + _n] = 'vpmodels::res_' + _n
RUST_MODELS['std::result::Result::copied'] = 'vpmodels::res_cloned'
RUST_MODELS['std::bool::then'] = RUST_MODELS['core::bool::then'] = 'vpmodels::bool_then'
RUST_MODELS['std::bool::then_some'] = RUST_MODELS['core::bool::then_some'] = 'vpmodels::bool_then_some'
RUST_MODELS['std::iter::from_fn'] = 'vpmodels::it_from_fn'
RUST_MODELS['std::iter::once'] = 'vpmodels::it_once'
RUST_MODELS['std::iter::zip'] = 'vpmodels::it_zip'
RUST_MODELS['std::iter::Peekable::peek'] = 'vpmodels::peek'
RUST_MODELS['std::iter::Peekable::next_if'] = 'vpmodels::peek_next_if'
RUST_MODELS['std::vec::Vec::retain'] = 'vpmodels::vec_retain'
for _b in ('std::collections::hash_map::Entry',):
    RUST_MODELS[_b + '::or_insert_with'] = 'vpmodels::entry_or_insert_with'
    RUST_MODELS[_b + '::and_modify'] = 'vpmodels::entry_and_modify'


# ---------------------------------------------------------------- external crates
@m('rand::thread_rng', 'rand::rng')
def _rng(E, st, a, c):
    return ('obj', 'rng_src')


@t('rand::RngCore', 'next_u64', 'next_u32')
@t('rand::Rng', 'gen', 'gen_range', 'random_range', 'random')
def _rnd(E, st, a, c):
    me = c.rec['method'] if 'method' in c.rec else ''
    ty = c.dty
    v = mk(st.fresh_id(), ty)
    if 'range' in me and v[0] == 'lin':
        lo, hi = range_bounds(E, st, a[1], ('int', 2**63))
        if not E.lt(st, lo, hi):
            raise Panic('empty range')
        st.assume_le(lo, v)
        st.assume_le(v, hi, -1)
    E.event(st, 'random', (v,) + tuple(a[1:]), c)
    return v


@m('httparse::Request::new')
def _hreq(E, st, a, c):
    return ('obj', 'hreq', a[0], FALSE)


for _n in ('parse',):
    MODELS['httparse::Request::parse'] = _ev('http_parse')


@m('serde_json::from_str', 'serde_json::from_slice')
def _jfrom(E, st, a, c):
    s = E.deref(st, a[0])
    if s[0] == 'vec':
        s = ('t', 'utf8', s)
    g = c.dty.args[0]
    if E.truth(st, ('p', ('jsonok', s), True)):
        return ok(mk(('op', 'json', s), g))
    return err(('t', 'jsonerr'))


@m('serde_json::Map::get', 'serde_json::Map::get_mut')
def _jget(E, st, a, c):
    mp = E.deref(st, a[0])
    k = E.deref(st, a[1])
    ty = c.dty.args[0].to
    if E.truth(st, ('p', ('jsonhas', mp, k), True)):
        return some(st.ref_to(mk(('op', 'jsonmember', mp, k), ty)))
    return NONE


@m('serde_json::Map::remove')
def _jrm(E, st, a, c):
    mp = E.deref(st, a[0])
    k = E.deref(st, a[1])
    if E.truth(st, ('p', ('jsonhas', mp, k), True)):
        return some(mk(('op', 'jsonmember', mp, k), c.dty.args[0]))
    return NONE


@m('serde_json::Value::get', 'serde_json::value::Value::get')
def _jvget(E, st, a, c):
    v = E.deref(st, a[0])
    if v[0] == 'sym' and v[2].is_enum():
        names_ = [x[0] for x in v[2].variants]
        n = variant(E, st, v)
        if names_[n] != 'Object':
            return NONE
        mp = payload(E, st, v, n)
        k = E.deref(st, a[1])
        if E.truth(st, ('p', ('jsonhas', mp, k), True)):
            return some(st.ref_to(mk(('op', 'jsonmember', mp, k), v[2])))
        return NONE
    return st.fresh(c.dty)


@m('serde_json::Value::as_str', 'serde_json::value::Value::as_str', 'serde_json::Value::as_object', 'serde_json::value::Value::as_object')
def _jasstr(E, st, a, c):
    v = E.deref(st, a[0])
    want = 'String' if c.path.endswith('as_str') else 'Object'
    if v[0] == 'sym' and v[2].is_enum():
        names_ = [x[0] for x in v[2].variants]
        n = variant(E, st, v)
        if names_[n] == want:
            x = payload(E, st, v, n)
            return some(x if want == 'String' else st.ref_to(x))
        return NONE
    return st.fresh(c.dty)


@m('serde_json::Value::is_object', 'serde_json::value::Value::is_object', 'serde_json::Value::is_string', 'serde_json::value::Value::is_string')
def _jis(E, st, a, c):
    v = E.deref(st, a[0])
    want = 'String' if c.path.endswith('is_string') else 'Object'
    return ('bool', [x[0] for x in v[2].variants][variant(E, st, v)] == want)


@m('serde_json::to_value')
def _jto(E, st, a, c):
    v = E.deref(st, a[0])
    return E.json_encode(st, v, c)


@m('serde_json::to_string', 'serde_json::to_string_pretty', 'serde_json::to_vec')
def _jtos(E, st, a, c):
    v = E.deref(st, a[0])
    return E.json_encode(st, v, c, True)
