"""Join of two abstract states at the same program point (used by the analyses that quantify over unbounded
input): values that differ become unknown values of their type, integer relations are joined pairwise."""
from .core import *


class NoJoin(Exception):
    pass


SCALAR = ('int', 'lin')


def has_fresh(v):
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple) and x:
            if x[0] == '#':
                return True
            st.extend(y for y in x if isinstance(y, tuple))
    return False


class Join:
    def __init__(self, E, A, B):
        self.E, self.A, self.B = E, A, B
        self.J = State()
        self.J.ctr = max(A.ctr, B.ctr)
        self.J.trace = A.trace
        self.J.taint = A.taint + tuple(x for x in B.taint if x not in A.taint)
        self.pairs = {}       # (xa, xb, d) -> joined var
        self.vars = {}        # joined var -> ((xa, ka), (xb, kb))
        self.ids = {}         # (ia, ib) -> joined id
        self.back = {}        # joined id -> (ia, ib)
        self.inv = {}         # A id -> joined id (first)
        self.cells = {}
        self.work = []
        self.newvar = {}      # joined sym id -> variants

    # ids ------------------------------------------------------------
    def jid(self, a, b):
        k = (a, b)
        r = self.ids.get(k)
        if r is not None:
            return r
        if a == b and (not isinstance(a, tuple) or not has_fresh(a)):
            r = a
        elif isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and len(a) == len(b) and a[0] != '#':
            out = [a[0]]
            ok_ = True
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y:
                    z = self.jpart(x, y)
                    if z is None:
                        ok_ = False
                        break
                    out.append(z)
                elif x == y:
                    out.append(x)
                else:
                    ok_ = False
                    break
            r = tuple(out) if ok_ else self.J.fresh_id()
        else:
            r = self.J.fresh_id()
        self.ids[k] = r
        self.back[r] = (a, b)
        self.inv.setdefault(a, r)
        return r

    def jpart(self, x, y):
        """component of an id: an id or a value"""
        if x[0] in ('int', 'lin') and y[0] in ('int', 'lin'):
            return self.jint(x, y)
        if x == y and not has_fresh(x):
            return x
        if x[0] == y[0] and x[0] in ('.', '@', '*', 'b', 'len', 'el', 'mv', 'op', 'a', '#'):
            return self.jid(x, y)
        if x[0] == y[0] and len(x) == len(y):
            out = []
            for p, q in zip(x, y):
                if isinstance(p, tuple) and isinstance(q, tuple) and p and q:
                    z = self.jpart(p, q)
                    if z is None:
                        return None
                    out.append(z)
                elif p == q:
                    out.append(p)
                else:
                    return None
            return tuple(out)
        return None

    def jint(self, a, b, ty='usize'):
        if a[0] == 'int' and b[0] == 'int' and a[1] == b[1]:
            return a
        xa, ka = ('Z', a[1]) if a[0] == 'int' else (a[1], a[2])
        xb, kb = ('Z', b[1]) if b[0] == 'int' else (b[1], b[2])
        t = a[3] if a[0] == 'lin' else b[3] if b[0] == 'lin' else ty
        if xa == xb and ka == kb and xa != 'Z' and not has_fresh(xa):
            self.vars.setdefault(xa, ((xa, 0), (xb, 0)))
            self.addty(xa, t)
            return a
        # prefer a joined id with structure (len of the same base, same operation)
        key = (xa, xb, kb - ka)
        j = self.pairs.get(key)
        if j is None:
            if kb == ka and isinstance(xa, tuple) and isinstance(xb, tuple) and xa[0] == xb[0] != '#':
                j = self.jid(xa, xb)
            else:
                j = self.J.fresh_id()
            self.pairs[key] = j
            if xa == 'Z':
                # keep the joined variable near zero offset
                self.vars[j] = (('Z', ka), (xb, kb))
                self.pairs[key] = (j, -ka)
                self.addty(j, t)
                return ('lin', j, 0, t)
            self.vars[j] = ((xa, 0), (xb, kb - ka))
            self.addty(j, t)
            self.inv.setdefault(xa, j)
        if isinstance(j, tuple) and len(j) == 2 and isinstance(j[0], tuple):
            return ('lin', j[0], ka + j[1], t)
        return ('lin', j, ka, t)

    def addty(self, x, t):
        self.types = getattr(self, 'types', {})
        self.types.setdefault(x, t)

    # values -----------------------------------------------------------
    def fresh(self, T, a=None, b=None):
        if T is None:
            raise NoJoin('untyped')
        i = self.J.fresh_id()
        return mk(i, T)

    def variants_of(self, st, v):
        if v[0] == 'adt':
            return frozenset([v[2]])
        if v[0] == 'sym' and v[2].k == 'adt' and v[2].is_enum():
            return st.variants(v[1], v[2])
        return None

    def jv(self, a, b, T):
        A, B = self.A, self.B
        a, b = A.norm(a), B.norm(b)
        ka, kb = a[0], b[0]
        if ka in SCALAR and kb in SCALAR:
            t = T.s if T is not None and T.k == 'int' else 'usize'
            return self.jint(a, b, t)
        if a == b and not has_fresh(a) and not self.has_cell(a):
            self.reg(a)
            return a
        if ka == 'moved' or kb == 'moved':
            return MOVED
        if ka == kb:
            if ka == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
                fts = self.ftypes(T, a[2], len(a[3]))
                return ('adt', a[1], a[2], tuple(self.jv(x, y, t) for x, y, t in zip(a[3], b[3], fts)))
            if ka == 'tup' and len(a[1]) == len(b[1]):
                ts = T.args if T is not None and T.k == 'tuple' else [None] * len(a[1])
                return ('tup', tuple(self.jv(x, y, t) for x, y, t in zip(a[1], b[1], ts)))
            if ka == 'box':
                return ('box', self.jv(a[1], b[1], T.args[0] if T is not None and T.k == 'adt' and T.args else None))
            if ka == 'arc':
                return ('arc', self.jcell(a[1], b[1], T.args[0] if T is not None and T.k == 'adt' and T.args else None))
            if ka == 'ref':
                return self.jref(a, b, T)
            if ka in ('clo', 'cor') and a[1] == b[1] and len(a[2]) == len(b[2]):
                return (ka, a[1], tuple(self.jv(x, y, None) for x, y in zip(a[2], b[2])))
            if ka == 'vec':
                return self.jvec(a, b)
            if ka == 'map':
                return self.jmap(a, b)
            if ka == 'obj' and a[1] == b[1] and len(a) == len(b):
                return self.jgen(a, b)
            if ka == 'sym' and a[2] is b[2]:
                i = self.jid(a[1], b[1])
                vs = self.variants_of(A, a)
                if vs is not None:
                    vs = vs | self.variants_of(B, b)
                    self.newvar[i] = vs
                return ('sym', i, a[2])
            if ka == 'p' and a[2] == b[2]:
                try:
                    return self.jgen(a, b)
                except NoJoin:
                    pass
            if ka == 't' and a[1] == b[1] and len(a) == len(b):
                try:
                    return self.jgen(a, b)
                except NoJoin:
                    pass
        va, vb = self.variants_of(A, a), self.variants_of(B, b)
        if va is not None and vb is not None:
            T2 = T if T is not None and T.k == 'adt' else a[2] if ka == 'sym' else b[2] if kb == 'sym' else None
            r = self.fresh(T2)
            if r[0] == 'sym':
                self.newvar[r[1]] = va | vb
            return r
        if ka in ('obj', 'clo', 'cor', 'fn', 'ref') or kb in ('obj', 'clo', 'cor', 'fn', 'ref'):
            raise NoJoin('%s/%s' % (ka, kb))
        return self.fresh(T, a, b)

    def reg(self, v):
        """register integer variables and symbols of an unchanged value"""
        st = [v]
        while st:
            x = st.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'lin':
                self.vars.setdefault(x[1], ((x[1], 0), (x[1], 0)))
                self.addty(x[1], x[3])
            elif x[0] == 'sym':
                self.back.setdefault(x[1], (x[1], x[1]))
                self.inv.setdefault(x[1], x[1])
            st.extend(y for y in x if isinstance(y, tuple))

    def has_cell(self, v):
        st = [v]
        while st:
            x = st.pop()
            if isinstance(x, tuple) and x:
                if x[0] in ('$', 'dc'):
                    return True
                st.extend(y for y in x if isinstance(y, tuple))
        return False

    def ftypes(self, T, var, n):
        if T is not None and T.k == 'adt' and T.variants and var < len(T.variants) and len(T.variants[var][2]) == n:
            return [f[1] for f in T.variants[var][2]]
        return [None] * n

    def jgen(self, a, b):
        """structural join of tagged tuples: every component must agree or be an integer"""
        if a == b and not has_fresh(a) and not self.has_cell(a):
            self.reg(a)
            return a
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            if a == b:
                return a
            raise NoJoin('part')
        if a and b and isinstance(a[0], str):
            if a[0] in SCALAR and b[0] in SCALAR:
                return self.jint(a, b)
            if a[0] != b[0]:
                raise NoJoin('tag')
            if a[0] in ('ref',):
                return self.jref(a, b, None)
            if a[0] in ('$', 'dc'):
                return self.jcell(a, b, None)
            if a[0] == 'vec':
                return self.jvec(a, b)
            if a[0] == 'sym':
                return self.jv(a, b, None)
            if a[0] in ('#', '.', '@', '*', 'b', 'len', 'el', 'mv', 'op', 'a'):
                if a == b and not has_fresh(a):
                    return a
                return self.jid(a, b)
            if a[0] == 'map':
                return self.jmap(a, b)
        if len(a) != len(b):
            raise NoJoin('arity')
        return tuple(self.jgen(x, y) for x, y in zip(a, b))

    def jref(self, a, b, T):
        pa, pb = a[2], b[2]
        if len(pa) != len(pb):
            raise NoJoin('ref path')
        path = []
        for x, y in zip(pa, pb):
            if x[0] != y[0]:
                raise NoJoin('ref path')
            if x[0] == 'x':
                path.append(('x', self.jint(self.A.norm(x[1]), self.B.norm(y[1]))))
            elif x == y:
                path.append(x)
            else:
                path.append(self.jgen(x, y))
        to = T.to if T is not None and T.k in ('ref', 'ptr') and not path else None
        return ('ref', self.jcell(a[1], b[1], to), tuple(path))

    def jcell(self, a, b, T):
        k = (a, b)
        c = self.cells.get(k)
        if c is None:
            if a == b and (isinstance(a, str) or a[0] == 'dc' and not has_fresh(a)):
                c = a
                if not isinstance(a, str):
                    T = a[2]
            elif isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'dc' == b[0] and a[2] is b[2]:
                c = ('dc', self.jid(a[1], b[1]), a[2])
                T = a[2]
            elif isinstance(a, str) or isinstance(b, str):
                raise NoJoin('named cell')
            else:
                self.J.ctr += 1
                c = ('$', self.J.ctr)
            self.cells[k] = c
            self.work.append((a, b, c, T))
        return c

    def jvec(self, a, b):
        if len(a[3]) == len(b[3]) and (a[1] is None) == (b[1] is None):
            try:
                n0 = len(self.work)
                ov = []
                for (ia, xa), (ib, xb) in zip(a[3], b[3]):
                    ov.append((self.jint(ia, ib), self.jv(xa, xb, a[4])))
                if a[1] is None:
                    if a[2] == b[2]:
                        return ('vec', None, a[2], tuple(ov), a[4])
                else:
                    i = self.jid(a[1], b[1])
                    return ('vec', i, self.jint(a[2], b[2]), tuple(ov), a[4])
            except NoJoin:
                pass
        i = self.J.fresh_id()
        ln = ('len', i)
        self.vars[ln] = (self.nz(a[2]), self.nz(b[2]))
        self.addty(ln, 'usize')
        return ('vec', i, ('lin', ln, 0, 'usize'), (), a[4])

    def nz(self, v):
        return ('Z', v[1]) if v[0] == 'int' else (v[1], v[2])

    def jmap(self, a, b):
        if a[1] is None and b[1] is None and a[3] == b[3] and not has_fresh(a[3]):
            self.reg(a)
            return a
        i = self.J.fresh_id()
        ln = ('len', i)
        self.vars[ln] = (self.nz(a[2]), self.nz(b[2]))
        self.addty(ln, 'usize')
        return ('map', i, ('lin', ln, 0, 'usize'), (), a[4], a[5])

    # states -----------------------------------------------------------
    def run(self):
        A, B, J = self.A, self.B, self.J
        if len(A.frames) != len(B.frames):
            raise NoJoin('frames')
        for fa, fb in zip(A.frames, B.frames):
            fj = fa.copy()
            fj.locals = {}
            for l in fa.locals:
                if l in fb.locals:
                    fj.locals[l] = self.jcell(fa.locals[l], fb.locals[l], fa.fn.locals[l])
            if fa.dest:
                r = self.jref(('ref',) + tuple(fa.dest), ('ref',) + tuple(fb.dest), None)
                fj.dest = (r[1], r[2])
            J.frames.append(fj)
        J.mon = self.jgen(A.mon, B.mon)
        J.env = self.jgen(A.env, B.env)
        J.loops = {}
        for c in A.mem:
            if isinstance(c, str) and c in B.mem:
                self.jcell(c, c, None)
        while self.work:
            a, b, c, T = self.work.pop(0)
            va, vb = A.mem.get(a), B.mem.get(b)
            if va is None and vb is None:
                continue
            if va is None:
                va = A.load(a) if isinstance(a, tuple) and a[0] == 'dc' else MOVED
            if vb is None:
                vb = B.load(b) if isinstance(b, tuple) and b[0] == 'dc' else MOVED
            J.mem[c] = self.jv(va, vb, T)
        self.facts()
        self.zone()
        return J

    def sub(self, v, side):
        """joined-space value -> side space; None if untranslatable"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'lin' and v[1] in self.vars:
            x, k = self.vars[v[1]][side]
            if x == 'Z':
                return ('int', v[2] + k)
            return ('lin', x, v[2] + k, v[3])
        if v in self.back:
            return self.back[v][side]
        if v[0] == '#':
            raise KeyError
        return tuple([self.sub(x, side) if isinstance(x, tuple) else x for x in v])

    def up(self, v):
        """A-space -> joined space"""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'lin':
            j = self.pinv.get(v[1])
            if j is not None:
                return ('lin', j[0], v[2] + j[1], v[3])
        if v in self.inv:
            return self.inv[v]
        if v[0] == '#':
            raise KeyError
        return tuple([self.up(x) if isinstance(x, tuple) else x for x in v])

    def facts(self):
        A, B, J = self.A, self.B, self.J
        self.pinv = {}
        for j, ((xa, ka), (xb, kb)) in self.vars.items():
            if xa != 'Z':
                self.pinv.setdefault(xa, (j, -ka))
        for i, vs in self.newvar.items():
            J.f[('var', i)] = vs
        for k, v in A.f.items():
            kind = k[0]
            try:
                jk = (kind,) + tuple(self.up(x) if isinstance(x, tuple) else x for x in k[1:])
                bk = (kind,) + tuple(self.sub(x, 1) if isinstance(x, tuple) else x for x in jk[1:])
            except KeyError:
                continue
            if jk in J.f:
                continue
            w = B.f.get(bk)
            if w is None:
                continue
            if kind == 'var':
                J.f[jk] = v | w
            elif kind == 'ne':
                n = v & w
                if n:
                    J.f[jk] = n
            elif kind in ('bv', 'bm'):
                raise NoJoin('base facts')
            elif v == w:
                J.f[jk] = v
        # an element known on one side only through a constant contradicting nothing is forgotten

    def zone(self):
        A, B, J = self.A, self.B, self.J
        vs = list(self.vars)
        for x in vs:
            J.zv.add(x)

        def bnd(st, p, q):
            (x, i), (y, j) = p, q
            if x == y:
                return i - j
            c = st.z.get((x, y))
            return None if c is None else c + i - j
        Z = ('Z', 0)
        for n, x in enumerate(vs):
            xa, xb = self.vars[x]
            for st, e in ((A, xa), (B, xb)):
                if e[0] != 'Z' and e[0] not in st.zv:
                    st._zadd_var(e[0], self.types.get(x))
            for kx, pa, qa, pb, qb in ((('Z', x), Z, xa, Z, xb), ((x, 'Z'), xa, Z, xb, Z)):
                p, q = bnd(A, pa, qa), bnd(B, pb, qb)
                if p is not None and q is not None:
                    J.z[kx] = max(p, q)
        for x in vs:
            xa, xb = self.vars[x]
            for y in vs:
                if x == y:
                    continue
                ya, yb = self.vars[y]
                p, q = bnd(A, xa, ya), bnd(B, xb, yb)
                if p is not None and q is not None:
                    m = max(p, q)
                    if m < BIG:
                        J.z[(x, y)] = m


def join(E, A, B):
    return Join(E, A, B).run()
