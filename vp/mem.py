"""Reading and writing through paths; vectors and maps; equality decisions."""
from .core import *
from .core import UNS as _uns


class Mem:
    """mixin of the engine: operations on abstract values"""

    def get_field(self, st, v, i, var, ft):
        v = st.norm(v)
        k = v[0]
        if k in ('adt',):
            if var is not None and v[2] != var:
                raise Infeasible()
            return v[3][i]
        if k == 'tup':
            return v[1][i]
        if k in ('clo', 'cor'):
            return v[2][i]
        if k == 'sym':
            t = v[2]
            if t.k == 'adt' and t.is_enum():
                st.assume_variants(v[1], frozenset([var or 0]))
                vs = t.variants
                return mk(('@', v[1], var or 0, i), vs[var or 0][2][i][1])
            if t.k == 'adt' and t.variants:
                return mk(('.', v[1], i), t.variants[0][2][i][1])
            if ft is not None:
                return mk(('.', v[1], i), ft)
        if k == 'moved':
            raise Undecided('read of moved field')
        if ft is not None:
            return mk(('op', 'field', v, i), ft)
        raise Undecided('field %r of %r' % (i, v[:2]))

    def expand(self, st, v, var, t=None):
        """symbolic struct/enum -> adt with symbolic children"""
        v = st.norm(v)
        if v[0] != 'sym':
            return v
        t = v[2]
        if t.k != 'adt' or t.variants is None:
            raise Undecided('expand %s' % t.s)
        if t.is_enum():
            st.assume_variants(v[1], frozenset([var]))
            return ('adt', t.path, var, tuple(mk(('@', v[1], var, i), f[1]) for i, f in enumerate(t.variants[var][2])))
        return ('adt', t.path, 0, tuple(mk(('.', v[1], i), f[1]) for i, f in enumerate(t.variants[0][2])))

    def set_field(self, st, v, i, var, nv):
        v = st.norm(v)
        k = v[0]
        if k == 'sym':
            v = self.expand(st, v, var)
            k = 'adt'
        if k == 'adt':
            fs = list(v[3])
            while len(fs) <= i:
                fs.append(MOVED)
            fs[i] = nv
            return ('adt', v[1], v[2], tuple(fs))
        if k == 'tup':
            fs = list(v[1])
            while len(fs) <= i:
                fs.append(MOVED)
            fs[i] = nv
            return ('tup', tuple(fs))
        if k in ('clo', 'cor'):
            fs = list(v[2])
            while len(fs) <= i:
                fs.append(MOVED)
            fs[i] = nv
            return (k, v[1], tuple(fs))
        if k == 'moved':
            fs = [MOVED] * (i + 1)
            fs[i] = nv
            return ('tup', tuple(fs))
        raise Undecided('write field of %r' % (v[:2],))

    def step_get(self, st, v, e):
        k = e[0]
        if k == 'f':
            return self.get_field(st, v, e[1], e[2], e[3])
        v = st.norm(v)
        if k == 'b':
            if v[0] == 'box':
                return v[1]
            return v
        if k == 'x':
            return self.vec_read(st, v, e[1])
        if k == 'm':
            r = self.map_lookup(st, v, e[1])[1]
            if r == ABSENT:
                raise Infeasible()
            return r
        if k == 'o':      # generic payload slot of an ('obj', ...)
            return v[e[1]]
        raise Undecided('step %r' % (e,))

    def step_set(self, st, v, e, nv):
        k = e[0]
        if k == 'f':
            return self.set_field(st, v, e[1], e[2], nv)
        if k == 'b':
            return ('box', nv) if v[0] == 'box' else nv
        if k == 'x':
            return self.vec_write(st, v, e[1], nv)
        if k == 'm':
            key, _ = self.map_lookup(st, v, e[1])
            return self.map_put(v, key, nv)
        if k == 'o':
            return v[:e[1]] + (nv,) + v[e[1] + 1:]
        raise Undecided('step %r' % (e,))

    def read(self, st, cell, path=()):
        v = st.load(cell)
        for e in path:
            v = self.step_get(st, v, e)
        return st.norm(v)

    def write(self, st, cell, path, nv):
        if not path:
            st.mem[cell] = nv
            return
        st.mem[cell] = self._wr(st, st.load(cell), path, 0, nv)

    def _wr(self, st, v, path, n, nv):
        e = path[n]
        if n == len(path) - 1:
            return self.step_set(st, v, e, nv)
        if v[0] == 'moved':
            # initialising uninitialised memory field by field (boxed arrays): wrappers are transparent
            return nv if n and path[n - 1][0] == 'b' else self.step_set(st, v, e, self._wr(st, MOVED, path, n + 1, nv))
        sub = self.step_get(st, v, e)
        return self.step_set(st, v, e, self._wr(st, sub, path, n + 1, nv))

    def deref(self, st, v):
        """target of any pointer-like value (refs, arcs, boxes), content values stay"""
        v = st.norm(v)
        while True:
            if v[0] == 'ref':
                v = self.read(st, v[1], v[2])
            elif v[0] == 'arc':
                v = self.read(st, v[1])
            elif v[0] == 'box':
                v = st.norm(v[1])
            else:
                return v

    def deref1(self, st, v):
        v = st.norm(v)
        if v[0] == 'ref':
            return self.read(st, v[1], v[2])
        if v[0] == 'box':
            return st.norm(v[1])
        return v

    def loc(self, st, v):
        """(cell, path) a reference value points to; follows &&T and &Box<T>"""
        v = st.norm(v)
        if v[0] == 'arc':
            return v[1], ()
        if v[0] != 'ref':
            c = st.new_cell(v)
            return c, ()
        c, p = v[1], v[2]
        while True:
            t = self.read(st, c, p)
            if t[0] == 'ref':
                c, p = t[1], t[2]
            elif t[0] == 'box':
                p = p + (('b',),)
            elif t[0] == 'arc':
                c, p = t[1], ()
            else:
                return c, p

    # ------------------------------------------------------------ booleans
    def truth(self, st, v):
        """decide a boolean value or raise Split"""
        v = st.norm(v)
        if v[0] == 'bool':
            return v[1]
        if v[0] == 'p':
            r = self.atom(st, v[1])
            return r if v[2] else (not r)
        if v[0] == 'sym':
            return self.truth(st, ('p', ('b', v[1]), True))
        raise Undecided('truth of %r' % (v,))

    def atom(self, st, a):
        k = a[0]
        if k == 'b':
            c = st.f.get(('const', a[1]))
            if c is not None:
                return c[1]

            def t(s):
                s.f[('const', a[1])] = TRUE

            def f(s):
                s.f[('const', a[1])] = FALSE
            raise Split([t, f])
        if k == 'eq':
            return self.eq(st, a[1], a[2])
        if k == 'lt':
            return self.lt(st, a[1], a[2])
        c = st.f.get(('pred', a))
        if c is not None:
            return c
        r = self.client_atom(st, a)
        if r is not None:
            return r
        raise Split([lambda s: self.set_pred(s, a, True), lambda s: self.set_pred(s, a, False)])

    def client_atom(self, st, a):
        return None

    def set_pred(self, st, a, b):
        st.f[('pred', a)] = b

    def sum_forms(self, st, a, b):
        """a < b with differences moved to the other side as sums"""
        out = []
        for k in (0, 1):
            d, o = (b, a) if k == 0 else (a, b)
            if d[0] == 'lin' and isinstance(d[1], tuple) and d[1][:2] == ('op', 'Sub') and d[1][2][0] == 'lin' and d[1][3][0] == 'lin' and o != ('int', 0):
                p, q = d[1][2], d[1][3]
                s = self.int_add(st, o, ('int', -d[2])) if d[2] else o
                s = self.int_add(st, s, q)
                out.append((s, p) if k == 0 else (p, s))
        return out

    def lt(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        if a[0] in ('int', 'lin') and b[0] in ('int', 'lin'):
            r = st.lt(a, b)
            if r is not None:
                return r
            alts = [(a, b)]
            for x, y in self.sum_forms(st, a, b):
                r = st.lt(x, y)
                if r is not None:
                    return r
                alts.append((x, y))

            def yes(s):
                for x, y in alts:
                    s.assume_le(x, y, -1)

            def no(s):
                for x, y in alts:
                    s.assume_le(y, x, 0)
            raise Split([yes, no])
        if a == b:
            return False
        if a[0] == 'char' and b[0] == 'char':
            return a[1] < b[1]
        key = ('lt', a, b)
        c = st.f.get(('pred', key))
        if c is not None:
            return c
        raise Split([lambda s: self.set_pred(s, key, True), lambda s: self.set_pred(s, key, False)])

    def eq(self, st, a, b):
        """structural equality (the derived one), or Split"""
        a, b = st.norm(a), st.norm(b)
        if a == b:
            return True
        ka, kb = a[0], b[0]
        if ka in ('ref', 'box', 'arc') or kb in ('ref', 'box', 'arc'):
            return self.eq(st, self.deref(st, a), self.deref(st, b))
        if ka in ('int', 'lin') and kb in ('int', 'lin'):
            if ka == 'int' and kb == 'int':
                return a[1] == b[1]
            r = st.int_eq(a, b)
            if r is not None:
                return r

            def te(s):
                s.assume_le(a, b)
                s.assume_le(b, a)
            raise Split([te, lambda s: s.assume_int_ne(a, b)])
        if ka == 'bool' or kb == 'bool' or ka == 'p' or kb == 'p':
            return self.truth(st, a) == self.truth(st, b)
        if ka in ('str', 'char', 'fl', 'bytes') and kb in ('str', 'char', 'fl', 'bytes'):
            return False
        if ka == 'tup' and kb == 'tup':
            return all(self.eq(st, x, y) for x, y in zip(a[1], b[1]))
        if ka == 'adt' and kb == 'adt':
            if a[2] != b[2]:
                return False
            return all(self.eq(st, x, y) for x, y in zip(a[3], b[3]))
        if ka == 'sym' and kb == 'adt':
            ka, kb, a, b = kb, ka, b, a
        if ka == 'adt' and kb == 'sym' and b[2].is_enum():
            vs = st.variants(b[1], b[2])
            if a[2] not in vs:
                return False
            if len(vs) > 1:
                i, v = b[1], a[2]
                raise Split([lambda s: s.assume_variants(i, frozenset([v])), lambda s: s.assume_variants(i, vs - {v})])
            return self.eq(st, a, self.expand(st, b, a[2]))
        if ka == 'sym' and kb == 'sym' and a[2].k == 'adt' and a[2].variants and not a[2].path.startswith('std::string'):
            if a[2].is_enum():
                for x in (a, b):
                    vs = st.variants(x[1], x[2])
                    if len(vs) > 1:
                        raise Split([(lambda s, i=x[1], v=v: s.assume_variants(i, frozenset([v]))) for v in sorted(vs)])
                va = min(st.variants(a[1], a[2]))
                vb = min(st.variants(b[1], b[2]))
                if va != vb:
                    return False
                return self.eq(st, self.expand(st, a, va), self.expand(st, b, vb))
            return self.eq(st, self.expand(st, a, 0), self.expand(st, b, 0))
        if kb == 'sym' and ka != 'sym':
            a, b, ka, kb = b, a, kb, ka
        if ka == 'sym' and kb in ('str', 'char', 'fl'):
            i = a[1]
            ne = st.f.get(('ne', i), frozenset())
            if b in ne:
                return False
            ex = self.sym_excludes(st, a, b)
            if ex:
                return False

            def tc(s):
                s.f[('const', i)] = b

            def fc(s):
                s.f[('ne', i)] = s.f.get(('ne', i), frozenset()) | {b}
            raise Split([tc, fc])
        if ka == 'vec' and kb == 'vec' and a[1] is None and b[1] is None and a[2] == b[2]:
            return all(self.eq(st, x[1], y[1]) for x, y in zip(a[3], b[3]))
        if ka == 'vec' and kb == 'vec' and not self.eq(st, a[2], b[2]):
            return False
        if repr(b) < repr(a):
            a, b = b, a
        key = ('eq', a, b)
        c = st.f.get(('pred', key))
        if c is not None:
            return c
        raise Split([lambda s: self.set_pred(s, key, True), lambda s: self.set_pred(s, key, False)])

    def sym_excludes(self, st, a, b):
        return False

    # ------------------------------------------------------------ vectors
    def vec_of(self, st, v):
        v = self.deref(st, v)
        if v[0] == 'vec':
            return v
        if v[0] == 'sym':
            t = v[2]
            if t.k in ('slice', 'array'):
                return mk(v[1], t)
        if v[0] == 'bytes':
            return ('vec', None, ('int', len(v[1])), tuple((('int', i), ('int', b)) for i, b in enumerate(v[1])), self.tyname('u8'))
        return None

    def tyname(self, s):
        return self.prog.types[s]

    def vec_read(self, st, v, idx):
        if v[0] == 'obj' and v[1] == 'slice':
            return self.vec_read(st, v[2], self.int_add(st, v[3], idx))
        if v[0] != 'vec':
            raise Undecided('index of %r' % (v[:2],))
        for oi, ov in v[3]:
            if self.eq(st, idx, oi):
                return ov
        if v[1] is None:
            raise Infeasible()
        return self.base_elem(st, v[1], idx, v[4])

    def base_elem(self, st, base, idx, t):
        c = st.f.get(('bv', base, idx))
        if c is not None:
            return c
        if isinstance(base, tuple) and base[0] == 'rep':
            return base[1]
        return mk(('el', base, idx), t)

    def vec_write(self, st, v, idx, nv):
        if v[0] != 'vec':
            raise Undecided('index write of %r' % (v[:2],))
        out = []
        done = False
        for oi, ov in v[3]:
            if not done and self.eq(st, idx, oi):
                out.append((oi, nv))
                done = True
            else:
                out.append((oi, ov))
        if not done:
            out.append((idx, nv))
        return ('vec', v[1], v[2], tuple(out), v[4])

    def int_add(self, st, a, b):
        if a[0] == 'int' and b[0] == 'int':
            return ('int', a[1] + b[1])
        if a[0] == 'lin' and b[0] == 'int':
            return ('lin', a[1], a[2] + b[1], a[3])
        if b[0] == 'lin' and a[0] == 'int':
            return ('lin', b[1], b[2] + a[1], b[3])
        for x, y in ((a, b), (b, a)):
            # x + ((p - q) + k) with q = x + d  ->  p + k - d
            if isinstance(y[1], tuple) and y[1][0] == 'op' and y[1][1] == 'Sub':
                p, q = y[1][2], y[1][3]
                if q[0] == 'lin' and q[1] == x[1]:
                    return self.int_add(st, p, ('int', y[2] + x[2] - q[2]))
        x, y = sorted((a, b), key=repr)
        r = ('lin', ('op', 'Add', x, y), 0, a[3])
        if a[3] in _uns and b[3] in _uns:
            try:
                st.assume_le(a, r)
                st.assume_le(b, r)
            except Infeasible:
                pass
        return r

    def int_sub(self, st, a, b):
        if b[0] == 'int':
            return self.int_add(st, a, ('int', -b[1]))
        if a[0] == 'lin' and a[1] == b[1]:
            return ('int', a[2] - b[2])
        if a[0] == 'lin' and isinstance(a[1], tuple) and a[1][:2] == ('op', 'Add'):
            # (p + q + k) - (p + d)  ->  q + k - d
            for p, q in ((a[1][2], a[1][3]), (a[1][3], a[1][2])):
                if p[0] == 'lin' and p[1] == b[1]:
                    return self.int_add(st, q, ('int', a[2] + p[2] - b[2]))
        r = ('lin', ('op', 'Sub', a, b), 0, b[3])
        if b[3] in _uns:
            try:
                st.assume_le(r, a)
            except Infeasible:
                pass
        return r

    def vec_push(self, st, v, x):
        return ('vec', v[1], self.int_add(st, v[2], ('int', 1)), v[3] + ((v[2], x),), v[4])

    def vec_drop_last(self, st, v):
        """remove position len-1 from the vector value"""
        n = self.int_add(st, v[2], ('int', -1))
        out = tuple((oi, ov) for oi, ov in v[3] if not self.eq(st, oi, n))
        return ('vec', v[1], n, out, v[4])

    # ------------------------------------------------------------ maps
    def map_lookup(self, st, m, key):
        """-> (key as recorded, value or ABSENT)"""
        if m[0] != 'map':
            raise Undecided('map lookup in %r' % (m[:2],))
        if self.summarise_tables and m[1] is None and len(m[3]) > 12 and self.deref(st, key)[0] != 'str':
            a = ('in_table', key, m[3][0][0])
            if self.truth(st, ('p', a, True)):
                return key, mk(('mv', ('op', 'table'), key), m[5])
            return key, ABSENT
        for k, v in m[3]:
            if self.eq(st, key, k):
                return k, v
        if m[1] is None:
            return key, ABSENT
        return self.base_lookup(st, m, key)

    def base_lookup(self, st, m, key):
        base = m[1]
        for fk in self.base_keys(st, base):
            if self.eq(st, key, fk):
                return fk, st.f[('bm', base, fk)]
        self.materialise(st, m, key)

    def base_keys(self, st, base):
        return [k[2] for k in st.f if k[0] == 'bm' and k[1] == base]

    def materialise(self, st, m, key):
        base, vt = m[1], m[5]

        def absent(s):
            s.f[('bm', base, key)] = ABSENT

        def present(s):
            s.f[('bm', base, key)] = mk(('mv', base, key), vt)
            s.assume_le(('int', 1), ('lin', ('len', base), 0, 'usize'))
        raise Split([absent, present])

    def map_put(self, m, key, v):
        ents = []
        done = False
        for k, o in m[3]:
            if k == key:
                ents.append((k, v))
                done = True
            else:
                ents.append((k, o))
        if not done:
            ents.append((key, v))
        return ('map', m[1], m[2], tuple(ents), m[4], m[5])

    def on_shift(self, st, v):
        """an element is taken out of the middle of an unbounded vector"""

    def map_pick(self, st, m, pos):
        """-> [(state, (key, value) or None at the end, next position)] when the unknown rest of a map is enumerated by the client"""
        return None

    def map_insert(self, st, m, key, v):
        """-> (new map, old value or ABSENT)"""
        k, old = self.map_lookup(st, m, key)
        m2 = self.map_put(m, k, v)
        if old == ABSENT:
            m2 = m2[:2] + (self.int_add(st, m2[2], ('int', 1)),) + m2[3:]
        return m2, old

    def map_remove(self, st, m, key):
        k, old = self.map_lookup(st, m, key)
        if old == ABSENT:
            return m, old
        m2 = self.map_put(m, k, ABSENT)
        if m2[1] is None:
            m2 = m2[:3] + (tuple(e for e in m2[3] if e[1] != ABSENT),) + m2[4:]
        m2 = m2[:2] + (self.int_add(st, m2[2], ('int', -1)),) + m2[3:]
        return m2, old
