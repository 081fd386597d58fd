"""Abstract states: finite heap of cells, lazily refined symbolic values, variant/constant facts,
and a small zone (difference-bound) domain for integers and instants.

Values (immutable tuples):
  ('tup', fs) ('int', n) ('lin', id, k, ty) ('bool', b) ('p', atom, polarity) ('char', c) ('str', s)
  ('bytes', bs) ('fl', hex) ('sym', id, Type) ('adt', path, variant, fields) ('clo', uid, caps)
  ('cor', uid, caps) ('fn', n) ('ref', cell, path) ('arc', cell) ('box', v)
  ('vec', base, len, overrides, elemType) ('map', base, len, entries, keyType, valType)
  ('obj', kind, ...) ('t', op, args...) ('moved',)
ids: ('#', n) fresh | 'name' pinned | ('.', id, i) | ('@', id, v, i) | ('*', id) | ('b', id) | ('len', base)
     | ('el', base, idx) | ('mv', base, key) | ('op', name, args...)
cells: ('$', n) fresh | ('dc', id, Type) lazily created target of a symbolic reference | 'name'
"""
UNIT = ('tup', ())
TRUE = ('bool', True)
FALSE = ('bool', False)
MOVED = ('moved',)
ABSENT = ('absent',)
CL = 3          # clamp for small difference bounds kept across loop iterations
BIG = 1000


class Infeasible(Exception):
    pass


class Split(Exception):
    def __init__(self, alts):
        self.alts = alts


class Panic(Exception):
    def __init__(self, kind):
        self.kind = kind


class Stop(Exception):
    """abandon this path silently (client decision)"""


class Undecided(Exception):
    pass


INT = {'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1),
       'u128': (0, 2**128 - 1), 'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1),
       'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1)}
SIZE_MAX = 2**63 - 1


def some(v):
    return ('adt', 'std::option::Option', 1, (v,))


NONE = ('adt', 'std::option::Option', 0, ())


def ok(v):
    return ('adt', 'std::result::Result', 0, (v,))


def err(v):
    return ('adt', 'std::result::Result', 1, (v,))


def mk(i, t):
    """the symbolic value named i of type t"""
    k = t.k
    if k == 'bool':
        return ('p', ('b', i), True)
    if k == 'int':
        return ('lin', i, 0, t.s)
    if k == 'tuple':
        return ('tup', tuple(mk(('.', i, n), x) for n, x in enumerate(t.args)))
    if k == 'ref' or k == 'ptr':
        to = t.to
        if to.k == 'str':
            return ('sym', i, to)
        return ('ref', ('dc', i, to), ())
    if k == 'slice':
        return ('vec', i, ('lin', ('len', i), 0, 'usize'), (), to_of(t))
    if k == 'array':
        return ('vec', i, ('int', t.n) if t.n is not None else ('lin', ('len', i), 0, 'usize'), (), to_of(t))
    if k == 'adt':
        p = t.path
        if p == 'std::boxed::Box':
            return ('box', mk(('b', i), t.args[0]))
        if p in ('std::vec::Vec', 'std::collections::VecDeque'):
            return ('vec', i, ('lin', ('len', i), 0, 'usize'), (), t.args[0])
        if p in ('std::collections::HashMap', 'std::collections::BTreeMap'):
            a = t.args
            return ('map', i, ('lin', ('len', i), 0, 'usize'), (), a[0], a[1])
        if p in ('std::time::SystemTime', 'std::time::Instant'):
            return ('lin', i, 0, 'time')
        if p == 'std::pin::Pin':
            return mk(i, t.args[0])
        if p in ('std::sync::Arc', 'std::rc::Rc'):
            return ('arc', ('dc', ('a', i), t.args[0]))
    return ('sym', i, t)


def to_of(t):
    return t.to


UNS = _uns = frozenset(['u8', 'u16', 'u32', 'u64', 'usize', 'u128'])


def min_len(v):
    """bytes a text surely has"""
    if v[0] == 'str':
        return len(v[1].encode('utf8', 'surrogateescape'))
    if v[0] == 't':
        if v[1] == 'concat':
            return min_len(v[2]) + min_len(v[3])
        if v[1] == 'fmt' and v[2][0] == 'bytes':
            bs, n, i = v[2][1], 0, 0
            while i < len(bs) and bs[i]:
                b = bs[i]
                i += 1
                if b < 0x80:
                    n += b
                    i += b
                elif b == 0x80 and i + 1 < len(bs):
                    k = bs[i] | bs[i + 1] << 8
                    n += k
                    i += 2 + k
                elif b & 0xc0 == 0xc0:
                    i += (4 if b & 1 else 0) + (2 if b & 2 else 0) + (2 if b & 4 else 0) + (2 if b & 8 else 0)
                else:
                    break
            return n
    return 0


class Frame:
    __slots__ = ('fn', 'bb', 'si', 'locals', 'dest', 'target', 'after', 'call_span', 'tag')

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.bb = self.bb
        f.si = self.si
        f.locals = dict(self.locals)
        f.dest = self.dest
        f.target = self.target
        f.after = self.after
        f.call_span = self.call_span
        f.tag = self.tag
        return f


class State:
    watch = None
    __slots__ = ('mem', 'frames', 'f', 'z', 'zv', 'mon', 'trace', 'ctr', 'env', 'taint', 'loops')

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.f = {}
        self.z = {}
        self.zv = {'Z'}
        self.mon = ()
        self.trace = None
        self.ctr = 0
        self.env = ()
        self.taint = ()
        self.loops = {}

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.f = dict(self.f)
        s.z = dict(self.z)
        s.zv = set(self.zv)
        s.mon = self.mon
        s.trace = self.trace
        s.ctr = self.ctr
        s.env = self.env
        s.taint = self.taint
        s.loops = self.loops
        return s

    def note(self, x):
        self.trace = (self.trace, x)

    def fresh_id(self):
        self.ctr += 1
        return ('#', self.ctr)

    def fresh(self, t):
        return mk(self.fresh_id(), t)

    def new_cell(self, v):
        self.ctr += 1
        c = ('$', self.ctr)
        self.mem[c] = v
        return c

    def ref_to(self, v):
        return ('ref', self.new_cell(v), ())

    def trace_list(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # ------------------------------------------------------------ zone
    def _zadd_var(self, x, ty=None):
        if x in self.zv:
            return
        self.zv.add(x)
        lo, hi = None, None
        if isinstance(x, tuple) and (x[0] == 'len' or x[0] == 'op' and x[1] == 'strlen'):
            lo, hi = (min_len(x[2]) if x[0] == 'op' else 0), SIZE_MAX
        elif ty in INT:
            lo, hi = INT[ty]
        if lo is not None:
            # link with every known bound through Z
            self._zset('Z', x, -lo)
            self._zset(x, 'Z', hi)

    def _zset(self, x, y, c):
        """add x - y <= c, keep closed"""
        z = self.z
        old = z.get((x, y))
        if old is not None and old <= c:
            return
        back = z.get((y, x))
        if back is not None and back + c < 0:
            raise Infeasible()
        vs = self.zv
        ins = [(u, z[(u, x)]) for u in vs if u != x and (u, x) in z]
        outs = [(v, z[(y, v)]) for v in vs if v != y and (y, v) in z]
        ins.append((x, 0))
        outs.append((y, 0))
        for u, a in ins:
            for v, b in outs:
                if u == v:
                    if a + c + b < 0:
                        raise Infeasible()
                    continue
                n = a + c + b
                o = z.get((u, v))
                if o is None or n < o:
                    z[(u, v)] = n

    def _nz(self, v):
        """int value -> (var, offset)"""
        if v[0] == 'int':
            return 'Z', v[1], None
        return v[1], v[2], v[3]

    def bound(self, a, b):
        """least known c with a - b <= c, or None"""
        x, i, tx = self._nz(a)
        y, j, ty = self._nz(b)
        if x == y:
            return i - j
        self._zadd_var(x, tx)
        self._zadd_var(y, ty)
        c = self.z.get((x, y))
        if c is None:
            return None
        return c + i - j

    def upper(self, a):
        return self.bound(a, ('int', 0))

    def lower(self, a):
        b = self.bound(('int', 0), a)
        return None if b is None else -b

    def assume_le(self, a, b, c=0):
        """a - b <= c"""
        x, i, tx = self._nz(a)
        y, j, ty = self._nz(b)
        if x == y:
            if i - j > c:
                raise Infeasible()
            return
        self._zadd_var(x, tx)
        self._zadd_var(y, ty)
        self._zset(x, y, c - i + j)

    def lt(self, a, b):
        """True / False / None"""
        u = self.bound(a, b)
        if u is not None and u < 0:
            return True
        u = self.bound(b, a)
        if u is not None and u <= 0:
            return False
        return None

    def int_eq(self, a, b):
        x, y = self.bound(a, b), self.bound(b, a)
        if x is not None and y is not None and x == 0 and y == 0:
            return True
        if (x is not None and x < 0) or (y is not None and y < 0):
            return False
        ne = self.f.get(('ne_int', a, b)) or self.f.get(('ne_int', b, a))
        if ne:
            return False
        return None

    def assume_int_ne(self, a, b):
        x, y = self.bound(a, b), self.bound(b, a)
        if x == 0 and y == 0:
            raise Infeasible()
        if x == 0:
            self.assume_le(a, b, -1)
        elif y == 0:
            self.assume_le(b, a, -1)
        else:
            self.f[('ne_int', a, b)] = True

    # ------------------------------------------------------------ facts
    def variants(self, i, t):
        s = self.f.get(('var', i))
        if s is None:
            vs = t.variants
            if vs is None:
                raise Undecided('variants of %s' % t.s)
            s = frozenset(n for n, v in enumerate(vs) if not any(ft.k == 'never' or ft.s == 'std::convert::Infallible' for _, ft in v[2]))
        return s

    def assume_variants(self, i, s):
        o = self.f.get(('var', i))
        if o is not None:
            s = o & s
        if not s:
            raise Infeasible()
        self.f[('var', i)] = frozenset(s)
        if State.watch is not None:
            State.watch(self, i, self.f[('var', i)])

    def norm(self, v):
        while v[0] == 'sym' or (v[0] == 'p' and v[1][0] == 'b'):
            i = v[1] if v[0] == 'sym' else v[1][1]
            c = self.f.get(('const', i))
            if c is None:
                return v
            if v[0] == 'p' and not v[2]:
                c = ('bool', not c[1])
            v = c
        return v

    # ------------------------------------------------------------ memory
    def load(self, cell):
        v = self.mem.get(cell)
        if v is None:
            if cell[0] == 'dc':
                v = mk(('*', cell[1]), cell[2])
                self.mem[cell] = v
                return v
            raise Undecided('read of unknown cell %r' % (cell,))
        return v


def is_opaque_struct(t):
    return t.k == 'adt' and t.kind == 'struct' and t.variants is None
