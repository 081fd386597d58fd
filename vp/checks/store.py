"""Commands against the store: every statement, in every state of the entry it names, with any other entries.

The interpreter is analysed once per statement variant and entry state (absent, without expiry, live, expired,
expiring meanwhile). The stored map and the tracking vector are unknown and unbounded; what is read of them is
instantiated from the tracking invariant on demand, and the invariant is an obligation on every final state."""
from ..client import *

INTERP = 'server::analysis::interpreter::Interpreter::interpret'
READS = ('Get', 'GetIfExists', 'Exists', 'ValueType', 'GetLifetime', 'VectorGet', 'VectorLength', 'MapGet', 'MapLength', 'MapExists')
MODES = ('absent', 'forever', 'live', 'expired', 'straddle')
CLIENT_ERRORS = ('KeyError', 'IndexError', 'TypeError')


class Layout:
    """where the pieces of the store live, found by type"""

    def __init__(self, ctx):
        p = ctx.prog
        self.prog = p
        cand = p.find_types(lambda t: t.k == 'adt' and t.path == 'server::analysis::interpreter::Interpreter' and t.args and 'HashMapStorage' in t.args[0].s)
        if not cand:
            raise MissingAnchor('Interpreter<HashMapStorage>')
        self.I = sorted(cand, key=lambda t: len(t.s))[0]
        self.SV = p.adt_type('storage::types::StorageValue')
        self.SVec = p.adt_type('storage::types::StorageVector')
        self.SMap = p.adt_type('storage::types::StorageMap')
        self.elem = p.adt_type('storage::types::StorageElement')
        self.stmt = p.adt_type('statements::Statement')
        self.req = p.adt_type('interpreter::InterpreterRequest')
        self.auth = p.adt_type('auth::AuthorizationLevel')
        self.err = p.adt_type('error::ServerError')
        self.resp = p.adt_type('interpreter::InterpreterResponse')
        for n in ('SV', 'SVec', 'SMap', 'elem', 'stmt', 'req', 'auth', 'err', 'resp'):
            if getattr(self, n) is None:
                raise MissingAnchor('type ' + n)
        self.map_path = self.vec_path = None
        self.container = None
        self.walk(self.I, (), 0)
        if self.map_path is None or self.vec_path is None:
            raise MissingAnchor('stored map and tracking vector inside the interpreter')
        # container layout
        self.c_elem = self.c_idx = None
        c = self.container
        if c is self.elem:
            self.c_elem = ()
        for i, f in enumerate(c.variants[0][2]):
            if f[1] is self.elem:
                self.c_elem = (i,)
            elif f[1].k == 'adt' and f[1].path == 'std::option::Option' and f[1].args[0].s == 'usize':
                self.c_idx = i
        if self.c_elem is None or self.c_idx is None:
            raise MissingAnchor('stored entry with its tracking index')
        self.e_val = self.e_exp = None
        for i, f in enumerate(self.elem.variants[0][2]):
            if f[1] is self.SV:
                self.e_val = i
            elif f[1].k == 'adt' and f[1].path == 'std::option::Option':
                self.e_exp = i
        self.vn = {t: {v[0]: n for n, v in enumerate(t.variants)} for t in (self.SV, self.stmt, self.auth, self.err, self.resp)}
        self.sv_i = {f[1].path if f[1].k == 'adt' else f[1].s: i for i, f in enumerate(self.SVec.variants[0][2])}
        fi = [(i, f[1]) for i, f in enumerate(self.SVec.variants[0][2])]
        self.vec_f = [i for i, t in fi if t.k == 'adt' and t.path == 'std::vec::Vec'][0]
        self.vec_ct = [i for i, t in fi if t.k == 'adt' and t.path.endswith('CollectionType')][0]
        fi = [(i, f[1]) for i, f in enumerate(self.SMap.variants[0][2])]
        self.map_f = [i for i, t in fi if t.k == 'adt' and 'Map' in t.path.split('::')[-1]][0]
        self.map_kt = [i for i, t in fi if t.k == 'adt' and t.path.endswith('KeyType')][0]
        self.map_ct = [i for i, t in fi if t.k == 'adt' and t.path.endswith('CollectionType')][0]
        self.CT = self.SVec.variants[0][2][self.vec_ct][1]
        self.KT = self.SMap.variants[0][2][self.map_kt][1]
        self.hash_panics = None

    def walk(self, t, path, d):
        if d > 4 or t.k != 'adt' or t.is_enum() or not t.variants:
            return
        for i, f in enumerate(t.variants[0][2]):
            ft = f[1]
            if ft.k == 'adt' and ft.path in ('std::collections::HashMap', 'std::collections::BTreeMap'):
                v = ft.args[1]
                if v is self.elem or v.k == 'adt' and v.variants and not v.is_enum() and any(x[1] is self.elem for x in v.variants[0][2]):
                    self.map_path = path + (('f', i, None, ft),)
                    self.container = v
            elif ft.k == 'adt' and ft.path == 'std::vec::Vec' and ft.args[0].k == 'adt' and ft.args[0].path == 'std::string::String':
                self.vec_path = path + (('f', i, None, ft),)
            else:
                self.walk(ft, path + (('f', i, None, ft),), d + 1)

    @staticmethod
    def idpath(root, path):
        i = root
        for e in path:
            i = ('.', i, e[1])
        return i


class TypedValues:
    """stored collections satisfy their declared types (an invariant established by D06)"""

    def typed_elem(self, st, base, idx, t):
        L = self.L
        X = self.svec_of(st, base)
        if X is None:
            return None
        ct = self.the_variant(st, ('.', X, L.vec_ct), L.CT)
        v = mk(('el', base, idx), t)
        st.assume_variants(v[1], frozenset([L.vn[L.SV][L.CT.variants[ct][0]]]))
        return v

    def the_variant(self, st, i, T):
        vs = st.variants(i, T)
        if len(vs) > 1:
            raise Split([(lambda s, v=v: s.assume_variants(i, frozenset([v]))) for v in sorted(vs)])
        return min(vs)

    def svec_of(self, st, base):
        L = self.L
        if isinstance(base, tuple) and base[0] == '.' and base[2] == L.vec_f and ('isvec', base[1]) in self.collections(base[1], L.SVec):
            return base[1]
        return None

    def collections(self, i, T):
        return {('isvec', i)} if True else set()

    def typed_entry(self, st, m, key, absent, present):
        """which keys may be present in a stored map"""
        L = self.L
        X = m[1][1]
        kt = self.the_variant(st, ('.', X, L.map_kt), L.KT)
        ct = self.the_variant(st, ('.', X, L.map_ct), L.CT)
        kv = L.vn[L.SV][L.KT.variants[kt][0]]
        cv = L.vn[L.SV][L.CT.variants[ct][0]]
        k = self.deref(st, key)
        if k[0] == 'adt':
            if k[2] != kv:
                raise Split([absent])
        elif k[0] == 'sym' and k[2].is_enum():
            vs = st.variants(k[1], k[2])
            if vs != frozenset([kv]):
                if kv not in vs:
                    raise Split([absent])
                i = k[1]
                raise Split([lambda s: s.assume_variants(i, frozenset([kv])), lambda s: s.assume_variants(i, vs - {kv})])

        def there(s):
            present(s)
            v = s.f[('bm', m[1], key)]
            s.assume_variants(v[1], frozenset([cv]))
        raise Split([absent, there])


def hash_panics(ctx, L):
    """variants of StorageValue whose hand-written Hash panics"""
    impls = ctx.prog.impls.get(('std::hash::Hash', L.SV.path)) or []
    bad = set()
    for _, ms, derived in impls:
        f = ctx.prog.fns.get(ms.get('hash'))
        if derived or f is None:
            continue
        for n in range(len(L.SV.variants)):
            E = Checked(ctx, max_steps=4000)
            hit = []
            E.on_panic = lambda st, kind, w: hit.append(kind)
            st = State()
            v = ('sym', 'hashed', L.SV)
            st.assume_variants('hashed', frozenset([n]))
            E.push_frame(st, f, [st.ref_to(v), mk('hasher', f.locals[2])])
            E.go([st])
            if hit:
                bad.add(n)
    return bad


# comparisons through these can hold for keys that differ
LOSSY = {'eqi', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'cast', 'abs', 'strlen', 'len'}


def key_equality(ctx, L):
    """the hand-written equality of map keys tells different keys apart and knows a key again"""
    impls = ctx.prog.impls.get(('std::cmp::PartialEq', L.SV.path)) or []
    for _, ms, derived in impls:
        f = ctx.prog.fns.get(ms.get('eq'))
        if derived or f is None:
            continue
        for kn in (v[0] for v in L.KT.variants):
            for ln in (v[0] for v in L.KT.variants):
                E = Checked(ctx, max_steps=4000, max_time=60)
                E.what = 'equality of %s and %s map keys' % (kn, ln)
                st = State()
                a, b = ('sym', 'key1', L.SV), ('sym', 'key2', L.SV)
                st.assume_variants('key1', frozenset([L.vn[L.SV][kn]]))
                st.assume_variants('key2', frozenset([L.vn[L.SV][ln]]))
                E.push_frame(st, f, [st.ref_to(a), st.ref_to(b)])
                E.go([st])
                ctx.done(E, E.what)
                for s, r in E.outcomes:
                    def judge(s, r):
                        got = E.truth(s, s.norm(r))
                        preds = grounds(s)
                        same = E.eq(s, a, b)
                        ctx.rep.ok('outcomes of comparing two map keys')
                        if got == same:
                            return
                        if preds - LOSSY or (same and preds):
                            ctx.rep.undecide(E.what, 'rests on ' + ', '.join(sorted(preds)))
                            return
                        E.finding(s, 'keys:%s:%s' % (kn, ln), 'two map keys that differ (%s, %s) are taken for the same' % (kn, ln) if got
                                  else 'a map key (%s) is not recognised again' % kn)
                    refine_all(E, s, r, judge)


def grounds(st):
    """what the comparisons on a path rest on, beyond the order of the compared numbers themselves"""
    out = set()
    for k, pol in st.f.items():
        if k[0] == 'pred' and isinstance(k[1], tuple):
            a = k[1]
            if a[0] == 'eq':
                if pol:
                    out |= {x[1] if x[0] == 't' else 'bytes' if x[0] == 'vec' else 'eq' for x in a[1:3]}
            elif pol or a[0] != 'eqi':
                out.add(a[0])
    for v in st.zv:
        for x in walk_terms(v):
            if x[0] in ('op', 't', 'strlen'):
                out.add(str(x[1] if x[0] != 'strlen' else 'strlen').split('::')[-1])
    return out


def walk_terms(x):
    if isinstance(x, tuple) and x:
        if isinstance(x[0], str):
            yield x
        for y in x:
            yield from walk_terms(y)


def refine_all(E, st, ret, f):
    from .auth import refine
    refine(E, st, ret, f)


class TypedEngine(TypedValues, Checked):
    """functions working on one collection of any declared type"""

    def __init__(self, ctx, L, **kw):
        super().__init__(ctx, **kw)
        self.L = L
        self.fact_window = (-1, 2)

    def base_elem(self, st, base, idx, t):
        if t is self.L.SV:
            v = self.typed_elem(st, base, idx, t)
            if v is not None:
                return v
        return super().base_elem(st, base, idx, t)

    def materialise(self, st, m, key):
        base, vt = m[1], m[5]

        def absent(s):
            s.f[('bm', base, key)] = ABSENT

        def present(s):
            s.f[('bm', base, key)] = mk(('mv', base, key), vt)
            s.assume_le(('int', 1), ('lin', ('len', base), 0, 'usize'))
        if vt is self.L.SV and isinstance(base, tuple) and base[0] == '.' and base[2] == self.L.map_f:
            return self.typed_entry(st, m, key, absent, present)
        raise Split([absent, present])


LOOP = 'a walk over every tracked key of an unbounded store'


class StoreEngine(TypedValues, Checked):
    def __init__(self, ctx, L, **kw):
        super().__init__(ctx, **kw)
        self.L = L
        self.mapbase = L.idpath('I', L.map_path)
        self.vecbase = L.idpath('I', L.vec_path)
        self.mode = None
        self.fact_window = (-1, 2)

    # env = (entries of the initial map seen so far, tracked (index, key) pairs, clock reads)
    def container(self, st, key, elem_id, tracked):
        L = self.L
        el = list(('adt', L.elem.path, 0, tuple(mk(('.', elem_id, i), f[1]) for i, f in enumerate(L.elem.variants[0][2])))[3])
        if tracked is None:
            el[L.e_exp] = NONE
        else:
            el[L.e_exp] = some(('lin', ('.', elem_id, 'exp'), 0, 'time'))
        elv = ('adt', L.elem.path, 0, tuple(el))
        if L.container is L.elem:
            return elv
        fs = []
        for i, f in enumerate(L.container.variants[0][2]):
            if i == L.c_elem[0]:
                fs.append(elv)
            elif i == L.c_idx:
                fs.append(NONE if tracked is None else some(tracked))
            else:
                fs.append(mk(('.', ('c', elem_id), i), f[1]))
        return ('adt', L.container.path, 0, tuple(fs))

    def elem_of(self, c):
        for i in self.L.c_elem:
            c = c[3][i]
        return c

    def exp_of(self, c):
        return self.elem_of(c)[3][self.L.e_exp]

    def val_of(self, c):
        return self.elem_of(c)[3][self.L.e_val]

    def idx_of(self, c):
        return c[3][self.L.c_idx]

    def add_ent(self, s, key, c):
        s.env = (s.env[0] + ((key, c),),) + s.env[1:]

    def add_pair(self, s, idx, key):
        for j, _ in s.env[1]:
            s.assume_int_ne(idx, j)
        s.env = (s.env[0], s.env[1] + ((idx, key),)) + s.env[2:]

    def n0(self):
        return ('lin', ('len', self.vecbase), 0, 'usize')

    def track(self, s, key, idx):
        s.assume_le(('int', 0), idx)
        s.assume_le(idx, self.n0(), -1)
        self.add_pair(s, idx, key)

    def base_lookup(self, st, m, key):
        if m[1] != self.mapbase:
            return super().base_lookup(st, m, key)
        for fk, c in st.env[0]:
            if self.eq(st, key, fk):
                return fk, c
        key = st.norm(self.deref(st, key))
        if len(st.env) > 3:
            self.add_ent(st, key, ABSENT)
            return key, ABSENT
        eid = ('mv', self.mapbase, key)

        def absent(s):
            self.add_ent(s, key, ABSENT)

        def untracked(s):
            self.add_ent(s, key, self.container(s, key, eid, None))

        def tracked(s):
            j = ('lin', s.fresh_id(), 0, 'usize')
            s._zadd_var(j[1], 'usize')
            self.track(s, key, j)
            self.add_ent(s, key, self.container(s, key, eid, j))
        raise Split([absent, untracked, tracked])

    def base_elem(self, st, base, idx, t):
        if base == self.vecbase:
            for j, k in st.env[1]:
                if self.eq(st, idx, j):
                    return k
            if len(st.env) > 3:
                raise Infeasible()
            if idx[0] == 'int' and idx[1] >= 3:
                raise Undecided(LOOP)
            key = mk(('el', base, idx), t)
            self.track(st, key, idx)
            for fk, _ in st.env[0]:
                self.differ(st, key, fk)
            self.add_ent(st, key, self.container(st, key, ('mv', self.mapbase, key), idx))
            return key
        if t is self.L.SV:
            v = self.typed_elem(st, base, idx, t)
            if v is not None:
                return v
        return super().base_elem(st, base, idx, t)

    def on_shift(self, st, v):
        b = v[1]
        while isinstance(b, tuple) and b[:2] == ('op', 'removed'):
            b = b[2][1]
        if b == self.vecbase:
            raise Undecided(LOOP)

    def small_stores(self, st):
        """the initial states with at most three tracked entries and one other, beside the named one"""
        out = []
        mine = [k for _, k in st.env[1]]
        vec = self.read(st, 'I', self.L.vec_path)
        for n in range(len(mine), 4):
            for at in (range(n) if mine else [None]):
                for other in (False, True):
                    s = st.copy()
                    try:
                        slots = []
                        for i in range(n):
                            if i == at:
                                iK = s.env[1][0][0]
                                s.assume_le(iK, ('int', i))
                                s.assume_le(('int', i), iK)
                                slots.append((('int', i), mine[0]))
                                continue
                            k = self.new_key(s, vec[4])
                            self.add_pair(s, ('int', i), k)
                            self.add_ent(s, k, self.container(s, k, ('mv', self.mapbase, k), ('int', i)))
                            slots.append((('int', i), k))
                        if other:
                            k = self.new_key(s, vec[4])
                            self.add_ent(s, k, self.container(s, k, ('mv', self.mapbase, k), None))
                        self.close(s)
                        self.write(s, 'I', self.L.vec_path, ('vec', None, ('int', n), tuple(slots), vec[4]))
                    except Infeasible:
                        continue
                    out.append(s)
        return out

    def new_key(self, s, t):
        k = s.fresh(t)
        for fk, _ in s.env[0]:
            self.differ(s, k, fk)
        return k

    # a loop over all entries: stores with at most one entry besides those the command looked at before
    def close(self, s):
        s.env = s.env + (True,)
        for a, n in ((self.n0(), len(s.env[1])), (('lin', ('len', self.mapbase), 0, 'usize'), len([1 for _, c in s.env[0] if c != ABSENT]))):
            s.assume_le(a, ('int', n))
            s.assume_le(('int', n), a)

    def map_pick(self, st, m, pos):
        if m[1] != self.mapbase:
            return None
        if pos is None:
            return ()
        if len(st.env) == 3:
            kt = m[4]

            def witness(s, tracked):
                w = self.new_key(s, kt)
                eid = ('mv', self.mapbase, w)
                j = None
                if tracked:
                    j = ('lin', s.fresh_id(), 0, 'usize')
                    s._zadd_var(j[1], 'usize')
                    self.track(s, w, j)
                self.add_ent(s, w, self.container(s, w, eid, j))
                self.close(s)
            raise Split([self.close, lambda s: witness(s, False), lambda s: witness(s, True)])
        seen = pos if isinstance(pos, tuple) else ()
        ents = [e for e in m[3] if e[1] != ABSENT]
        for k, c in st.env[0]:
            if c != ABSENT and all(not self.eq(st, k, k2) for k2, _ in m[3]):
                ents.append((k, c))
        ents = [e for e in ents if e[0] not in seen]
        if not ents:
            return [(st, None, seen)]
        if len(ents) > 3:
            ents = ents[:1]
        out = []
        for i, e in enumerate(ents):
            s = st if i == len(ents) - 1 else st.copy()
            out.append((s, e, seen + (e[0],)))
        return out

    def differ(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        if b[0] == 'str':
            st.f[('ne', a[1])] = st.f.get(('ne', a[1]), frozenset()) | {b}
            return
        if repr(b) < repr(a):
            a, b = b, a
        st.f[('pred', ('eq', a, b))] = False

    def materialise(self, st, m, key):
        base, vt = m[1], m[5]

        def absent(s):
            s.f[('bm', base, key)] = ABSENT

        def present(s):
            s.f[('bm', base, key)] = mk(('mv', base, key), vt)
            s.assume_le(('int', 1), ('lin', ('len', base), 0, 'usize'))
        if vt is self.L.SV and isinstance(base, tuple) and base[0] == '.' and base[2] == self.L.map_f:
            return self.typed_entry(st, m, key, absent, present)
        raise Split([absent, present])

    def on_map_key(self, st, m, key):
        if m[0] == 'map' and m[4] is self.L.SV and self.L.hash_panics:
            k = self.deref(st, key)
            bad = self.L.hash_panics
            if k[0] == 'adt':
                if k[2] in bad:
                    raise Panic('hash of an unhashable value')
            elif k[0] == 'sym':
                vs = st.variants(k[1], k[2])
                if vs <= bad:
                    raise Panic('hash of an unhashable value')
                if vs & bad:
                    i = k[1]
                    raise Split([lambda s: s.assume_variants(i, vs & bad), lambda s: s.assume_variants(i, vs - bad)])

    def now(self, st, call):
        t = ('lin', st.fresh_id(), 0, 'time')
        prev = st.env[2][-1] if st.env[2] else ('lin', 'T0', 0, 'time')
        st._zadd_var(t[1], 'time')
        st.assume_le(prev, t)
        if self.mode == 'live':
            st.assume_le(t, ('lin', 'eK', 0, 'time'), -1)
        st.env = st.env[:2] + (st.env[2] + (t,),) + st.env[3:]
        return t

    def on_panic(self, st, kind, w):
        pass

    # ------------------------------------------------------------ running one case
    def case(self, sv, mode):
        """-> the initial state for statement variant sv with its entry in the given state"""
        L = self.L
        self.mode = mode
        self.sv = L.stmt.variants[sv][0]
        st = State()
        st.env = ((), (), ())
        st.zv.add('T0')
        st.mem['I'] = mk('I', L.I)
        fields = tuple(mk(('@', 'S', sv, i), f[1]) for i, f in enumerate(L.stmt.variants[sv][2]))
        stmt = ('adt', L.stmt.path, sv, fields)
        self.ops = fields
        self.key = None
        if fields and fields[0][0] == 'sym' and fields[0][2].path == 'std::string::String':
            self.key = fields[0]
            key = self.key
            eid = 'K'
            if mode == 'absent':
                self.add_ent(st, key, ABSENT)
                self.c0 = ABSENT
            elif mode == 'forever':
                self.c0 = self.container(st, key, eid, None)
                self.add_ent(st, key, self.c0)
            else:
                j = ('lin', 'iK', 0, 'usize')
                st._zadd_var('iK', 'usize')
                self.track(st, key, j)
                c = self.container(st, key, eid, j)
                # name the expiry
                c = subst(c, ('.', 'K', 'exp'), 'eK')
                self.c0 = c
                self.add_ent(st, key, c)
                if mode == 'expired':
                    st.assume_le(('lin', 'eK', 0, 'time'), ('lin', 'T0', 0, 'time'), -1)
                elif mode == 'live':
                    st.assume_le(('lin', 'T0', 0, 'time'), ('lin', 'eK', 0, 'time'), -1)
        else:
            self.c0 = None
        req = []
        for f in L.req.variants[0][2]:
            t = f[1]
            if t.k == 'adt' and t.path == 'std::vec::Vec':
                req.append(('vec', None, ('int', 1), ((('int', 0), stmt),), t.args[0]))
            elif t is L.auth:
                req.append(('adt', L.auth.path, L.vn[L.auth]['Admin'], ()))
            else:
                req.append(mk(('req', f[0]), t))
        return st, [('ref', 'I', ()), ('adt', L.req.path, 0, tuple(req))]


def subst(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)
    return v


class Bad(Exception):
    def __init__(self, pid, what):
        self.pid, self.what = pid, what


class Verify:
    """the oracle: compares a final state with the documented effect"""

    def __init__(self, E, st, ret):
        self.E, self.st, self.ret = E, st, ret
        self.L = E.L

    # ---- helpers
    def v(self, x):
        return self.st.norm(self.E.deref(self.st, x))

    def case(self, x, T=None):
        """variant name and fields of an enum value (splits if undetermined)"""
        x = self.v(x)
        if x[0] == 'adt':
            T = T or self.E.prog.adt_type(x[1])
            n = x[2]
        else:
            T = x[2]
            n = self.E.the_variant(self.st, x[1], T)
            x = self.E.expand(self.st, x, n)
        return T.variants[n][0], x[3]

    def opt(self, x):
        x = self.v(x)
        if x[0] == 'sym':
            vs = self.st.variants(x[1], x[2])
            if len(vs) > 1:
                i = x[1]
                raise Split([lambda s: s.assume_variants(i, frozenset([0])), lambda s: s.assume_variants(i, frozenset([1]))])
            x = self.E.expand(self.st, x, min(vs))
        return x[3][0] if x[2] == 1 else None

    def same(self, a, b, d=0):
        E, st = self.E, self.st
        a, b = self.v(a), self.v(b)
        if a == b:
            return True
        if d > 12:
            return False
        ka, kb = a[0], b[0]
        if ka in ('int', 'lin') and kb in ('int', 'lin'):
            return st.int_eq(a, b) is True
        if ka == 'sym' and kb == 'adt':
            a, b, ka, kb = b, a, kb, ka
        if ka == 'adt' and kb == 'sym':
            if b[2].is_enum():
                vs = st.variants(b[1], b[2])
                if a[2] not in vs:
                    return False
                if len(vs) > 1:
                    return False
            return self.same(a, E.expand(st, b, a[2]), d + 1)
        if ka == 'adt' and kb == 'adt':
            return a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]) and all(self.same(x, y, d + 1) for x, y in zip(a[3], b[3]))
        if ka == 'sym' and kb == 'sym':
            if a[2] is b[2] and a[2].k == 'adt' and a[2].is_enum():
                va, vb = st.variants(a[1], a[2]), st.variants(b[1], b[2])
                if len(va) == 1 and va == vb:
                    n = min(va)
                    x, y = E.expand(st, a, n), E.expand(st, b, n)
                    return all(self.same(p, q, d + 1) for p, q in zip(x[3], y[3]))
            return st.f.get(('pred', ('eq',) + tuple(sorted((a, b), key=repr)))) is True
        if ka == 'tup' and kb == 'tup':
            return len(a[1]) == len(b[1]) and all(self.same(x, y, d + 1) for x, y in zip(a[1], b[1]))
        if ka == 'vec' and kb == 'vec':
            if a[1] != b[1] or not self.same(a[2], b[2]):
                return False
            for i in [x[0] for x in a[3]] + [x[0] for x in b[3]]:
                # positions past the end do not count
                if E.lt(st, i, a[2]) and not self.same(E.vec_read(st, a, i), E.vec_read(st, b, i), d + 1):
                    return False
            return True
        if ka == 'map' and kb == 'map':
            if a[1] != b[1] or not self.same(a[2], b[2]):
                return False
            for k in [x[0] for x in a[3]] + [x[0] for x in b[3]]:
                x, y = E.map_lookup(st, a, k)[1], E.map_lookup(st, b, k)[1]
                if (x == ABSENT) != (y == ABSENT) or x != ABSENT and not self.same(x, y, d + 1):
                    return False
            return True
        if ka == 'p' or kb == 'p' or ka == 'bool' or kb == 'bool':
            return E.truth(st, a) == E.truth(st, b)
        if ka == 'char' and kb == 'char':
            return False
        return False

    # ---- the final store
    def load(self):
        E, st, L = self.E, self.st, self.L
        self.M = E.read(st, 'I', L.map_path)
        self.V = E.read(st, 'I', L.vec_path)
        if self.M[0] != 'map' or self.V[0] != 'vec':
            raise Undecided('final store')
        if self.M[1] != E.mapbase:
            if self.M[1] is not None:
                raise Undecided('final store')
            raise Bad('D04', 'the command discards the other stored entries')
        if self.V[1] != E.vecbase and not E.small:
            if self.V[1] is not None:
                raise Undecided('final store')
            raise Bad('D05', 'the command discards the tracked keys')

    def final(self, key):
        for k, c in self.M[3]:
            if self.E.eq(self.st, key, k):
                return c
        for k, c in self.st.env[0]:
            if self.E.eq(self.st, key, k):
                return c
        raise Undecided('entry never looked at')

    def expired(self, exp):
        """True / False / None: whether an expiry had passed when the clock was read"""
        e = self.opt(exp)
        if e is None:
            return False
        nows = self.st.env[2]
        if not nows:
            return None
        r = set()
        for t in nows:
            b = self.st.bound(e, t)
            if b is not None and b <= 0:
                r.add(True)
                continue
            b = self.st.bound(t, e)
            if b is not None and b <= 0:
                r.add(False)
                continue
            r.add(None)
        return r.pop() if len(r) == 1 else None

    def run(self):
        E, st, L = self.E, self.st, self.L
        bad = []
        self.load()
        for f in (self.others, self.tracking, self.effect, self.types):
            try:
                f()
            except Bad as b:
                bad.append(b)
        return bad

    def others(self):
        E, st = self.E, self.st
        for k, c in st.env[0]:
            if E.key is not None and k == E.key:
                continue
            f = self.final(k)
            if c == ABSENT:
                if f != ABSENT:
                    raise Bad('D04', 'the command adds an entry it does not name')
                continue
            if f == ABSENT:
                if self.expired(E.exp_of(c)) is not True:
                    raise Bad('D08' if E.sv == 'ExpireKeys' else 'D04', 'an entry the command does not name is removed without having expired')
                continue
            if f == c:
                continue
            f = E.expand(st, f, 0) if f[0] == 'sym' else f
            if not self.same(E.val_of(f), E.val_of(c)):
                raise Bad('D08' if E.sv == 'ExpireKeys' else 'D04', 'the value of an entry the command does not name changes')
            if not self.same(E.exp_of(f), E.exp_of(c)):
                raise Bad('D08' if E.sv == 'ExpireKeys' else 'D04', 'the expiration of an entry the command does not name changes')

    def tracking(self):
        E, st, L = self.E, self.st, self.L
        n, n0 = self.V[2], E.n0()
        keys = []
        for k, _ in list(self.M[3]) + list(st.env[0]):
            if k not in keys:
                keys.append(k)
        for k in keys:
            f = self.final(k)
            if f == ABSENT:
                continue
            f = E.expand(st, f, 0) if f[0] == 'sym' else f
            e, ix = self.opt(E.exp_of(f)), self.opt(E.idx_of(f))
            if e is None and ix is not None:
                raise Bad('D05', 'an entry without expiration stays tracked')
            if e is not None and ix is None:
                raise Bad('D05', 'an entry with an expiration time is not tracked')
            if ix is None:
                continue
            b = st.bound(ix, n)
            if b is None or b > -1:
                raise Bad('D05', 'a tracked entry points past the end of the tracked keys')
            if not self.same(E.vec_read(st, self.V, ix), k):
                raise Bad('D05', 'a tracked entry points at the slot of another key')
        slots = []
        for ix in [x[0] for x in self.V[3]] + [x[0] for x in st.env[1]]:
            if ix not in slots:
                slots.append(ix)
        for ix in slots:
            if not E.lt(st, ix, n):
                continue
            k = E.vec_read(st, self.V, ix)
            f = self.final(k)
            if f == ABSENT:
                raise Bad('D05', 'a key stays tracked although its entry is gone')
            f = E.expand(st, f, 0) if f[0] == 'sym' else f
            fx = self.opt(E.idx_of(f))
            if fx is None:
                raise Bad('D05', 'a key stays tracked although its entry does not expire')
            if not E.eq(st, fx, ix):
                raise Bad('D05', 'a key is tracked twice or under a stale index')
        # every other slot is an untouched one of the initial vector
        for lo, hi, msg in ((n, n0, 'the tracked keys shrink past a slot still in use'), (n0, n, 'the tracked keys grow by a slot that holds no key')):
            s = st.copy()
            g = ('lin', s.fresh_id(), 0, 'usize')
            try:
                s._zadd_var(g[1], 'usize')
                s.assume_le(lo, g)
                s.assume_le(g, hi, -1)
                for ix in slots:
                    s.assume_int_ne(g, ix)
                # not equal facts may need the order of several slots
                for ix in slots:
                    s.assume_int_ne(g, ix)
            except Infeasible:
                continue
            raise Bad('D05', msg)

    def types(self):
        """the named entry's collection keeps its declared types"""
        E, st, L = self.E, self.st, self.L
        if E.key is None:
            return
        f = self.final(E.key)
        if f == ABSENT or f == E.c0:
            return
        f = E.expand(st, f, 0) if f[0] == 'sym' else f
        v = self.v(E.val_of(f))
        if v[0] != 'adt':
            return
        nm, fs = self.case(v)
        if nm == 'Vector':
            self.typed_vec(fs[0])
        elif nm == 'Map':
            self.typed_map(fs[0])

    def typed_vec(self, x):
        E, st, L = self.E, self.st, self.L
        x = self.v(x)
        if x[0] != 'adt':
            return
        vec, ct = self.v(x[3][L.vec_f]), x[3][L.vec_ct]
        self.ct_same(vec[1], L.vec_f, L.vec_ct, ct)
        want = self.case(ct, L.CT)[0]
        for i, o in vec[3]:
            if E.lt(st, i, vec[2]) and self.variants(o) != {want}:
                raise Bad('D06', 'a vector holds an element that is not of its declared type')

    def ct_same(self, base, f, ctf, ct):
        if isinstance(base, tuple) and base[0] == '.' and base[2] == f:
            T = self.L.CT if f == self.L.vec_f else None
            if not self.same(ct, ('sym', ('.', base[1], ctf), self.v(ct)[2] if self.v(ct)[0] == 'sym' else self.L.CT)):
                raise Bad('D06', 'the declared type of a stored collection changes')

    def typed_map(self, x):
        E, st, L = self.E, self.st, self.L
        x = self.v(x)
        if x[0] != 'adt':
            return
        mp = self.v(x[3][L.map_f])
        kt = self.case(x[3][L.map_kt], L.KT)[0]
        ct = self.case(x[3][L.map_ct], L.CT)[0]
        for k, o in mp[3]:
            if o == ABSENT:
                continue
            if self.variants(k) != {kt}:
                raise Bad('D06', 'a map holds a key that is not of its declared type')
            if self.variants(o) != {ct}:
                raise Bad('D06', 'a map holds a value that is not of its declared type')

    def variants(self, o):
        o = self.v(o)
        T = self.L.SV
        if o[0] == 'adt':
            return {T.variants[o[2]][0]}
        return {T.variants[n][0] for n in self.st.variants(o[1], o[2])}

    # ---- documented effects
    def reply(self):
        """('ok', name, fields) or ('err', name)"""
        r = self.v(self.ret)
        if r[0] == 'sym':
            n = self.E.the_variant(self.st, r[1], r[2])
            r = self.E.expand(self.st, r, n)
        x = self.v(r[3][0])
        if r[2] == 0:
            n, fs = self.case(x, self.L.resp)
            return ('ok', n, fs)
        if x[0] == 'sym':
            vs = [self.L.err.variants[n][0] for n in self.st.variants(x[1], x[2])]
            return ('err', vs, ())
        return ('err', [self.L.err.variants[x[2]][0]], ())

    def overflow(self, life):
        if life is None:
            return False
        for k, b in self.st.f.items():
            if k[0] == 'pred' and k[1][0] == 'time_ovf' and b and self.is_secs(k[1][2], life):
                return True
        return False

    def is_secs(self, d, life):
        d = self.v(d)
        return d[0] == 't' and d[1] == 'dur_from_secs' and self.same(d[2], life)

    def effect(self):
        E, st, L = self.E, self.st, self.L
        sv, mode = E.sv, E.mode
        kind, name, fs = self.reply()
        if sv == 'ExpireKeys':
            return self.sweep(kind, name, fs)
        P = 'D02' if mode == 'expired' else 'D01'
        c0 = E.c0
        if E.key is None:
            want = {'Shutdown': 'ShuttingDown', 'Null': 'Null'}.get(sv)
            if want is None:
                return
            if (kind, name) != ('ok', want):
                raise Bad('D01', 'the reply to %s is %s' % (sv, name))
            return
        c1 = self.final(E.key)
        if c1 != ABSENT and c1[0] == 'sym':
            c1 = E.expand(st, c1, 0)
        missing = mode in ('absent', 'expired')
        gone = (c0 == ABSENT)

        def unchanged(pid):
            if gone:
                if c1 != ABSENT:
                    raise Bad(pid, 'an entry appears')
                return
            if c1 == ABSENT:
                if mode in ('expired', 'straddle'):
                    return
                raise Bad(pid, 'the entry is removed')
            if not self.same(E.val_of(c1), E.val_of(c0)):
                raise Bad(pid, 'the stored value changes')
            if not self.same(E.exp_of(c1), E.exp_of(c0)):
                raise Bad(pid if pid == 'D03' else 'D07', 'the expiration of the entry changes')
        if kind == 'err':
            try:
                unchanged('D03')
            except Bad as b:
                raise Bad('D03', '%s fails, but %s' % (sv, b.what))
            if sv not in ('Shutdown',) and not set(name) <= set(CLIENT_ERRORS):
                raise Bad('D01', '%s reports %s' % (sv, '/'.join(name)))
        if mode == 'straddle':
            return
        v0 = None if missing else E.val_of(c0)
        ops = E.ops

        def fail(why):
            if kind != 'err':
                raise Bad(P, '%s succeeds although %s' % (sv, why))

        def ok(nm, why=''):
            if kind == 'err':
                raise Bad(P, '%s is refused although %s' % (sv, why or 'it should succeed'))
            if name != nm:
                raise Bad(P, '%s replies %s instead of %s' % (sv, name, nm))
            return fs[0] if fs else None

        def value(x, why):
            r = ok('Value', why)
            if not self.same(r, x):
                raise Bad(P, '%s replies with another value than the one asked for (%s)' % (sv, why))

        def boolean(b, why):
            r = self.v(ok('Bool', why))
            if E.truth(st, r) != b:
                raise Bad(P, '%s replies %s although %s' % (sv, not b, why))

        def stored(x, exp):
            if c1 == ABSENT:
                raise Bad(P, '%s does not store the entry' % sv)
            if x is not None and not self.same(E.val_of(c1), x):
                raise Bad(P, '%s does not leave the value it should' % sv)
            if exp is not None:
                self.lifetime(E.exp_of(c1), exp)

        def intact():
            unchanged(P)
        if sv == 'Get':
            if missing:
                fail('the key is missing')
            else:
                value(v0, 'the key is stored')
            intact()
        elif sv == 'GetIfExists':
            if missing:
                value(('adt', L.SV.path, L.vn[L.SV]['Null'], ()), 'the key is missing')
            else:
                value(v0, 'the key is stored')
            intact()
        elif sv == 'Exists':
            boolean(not missing, 'the key is %s' % ('missing' if missing else 'stored'))
            intact()
        elif sv == 'ValueType':
            if missing:
                fail('the key is missing')
            else:
                r = ok('ValueType')
                n, f2 = self.case(v0)
                rn, rf = self.case(r)
                if rn != n:
                    raise Bad('D01', 'ValueType reports %s for a %s' % (rn, n))
                if n == 'Vector':
                    x = self.v(f2[0])
                    if not self.same(rf[0], E.get_field(st, x, L.vec_ct, None, L.CT)):
                        raise Bad('D01', 'ValueType reports the wrong element type')
                if n == 'Map':
                    x = self.v(f2[0])
                    if not self.same(rf[0], E.get_field(st, x, L.map_kt, None, L.KT)) or not self.same(rf[1], E.get_field(st, x, L.map_ct, None, L.CT)):
                        raise Bad('D01', 'ValueType reports the wrong key or value type')
            intact()
        elif sv == 'Set':
            life = self.opt(ops[2])
            if self.overflow(life):
                if kind != 'err':
                    raise Bad('D07', 'a lifetime that cannot be represented is accepted')
                return
            ok('Message')
            stored(ops[1], (life,))
        elif sv == 'SetIfNotExists':
            life = self.opt(ops[2])
            if self.overflow(life) and kind == 'err':
                return
            if missing:
                if self.overflow(life):
                    raise Bad('D07', 'a lifetime that cannot be represented is accepted')
                boolean(True, 'the key is missing')
                stored(ops[1], (life,))
            else:
                boolean(False, 'the key is already stored')
                intact()
        elif sv == 'Update':
            life = self.opt(ops[2])
            if missing:
                fail('the key is missing')
            elif self.overflow(life):
                if kind != 'err':
                    raise Bad('D07', 'a lifetime that cannot be represented is accepted')
            else:
                ok('Message')
                stored(ops[1], (life,))
        elif sv == 'UpdateLifetime':
            life = self.opt(ops[1])
            if missing:
                fail('the key is missing')
            elif self.overflow(life):
                if kind != 'err':
                    raise Bad('D07', 'a lifetime that cannot be represented is accepted')
            else:
                ok('Message')
                stored(v0, (life,))
        elif sv == 'GetLifetime':
            if missing:
                fail('the key is missing')
            else:
                r = self.opt(ok('Expiration'))
                e = self.opt(E.exp_of(c0))
                if (r is None) != (e is None):
                    raise Bad('D07', 'the lifetime query reports %s' % ('a lifetime for an entry that never expires' if e is None else 'none for an entry that expires'))
                if e is not None and not any(self.same(r, ('lin', ('op', 'as_secs', ('t', 'dur_between', t, e)), 0, 'u64')) for t in st.env[2]):
                    raise Bad('D07', 'the lifetime query does not report the whole seconds from now until the expiration')
            intact()
        elif sv == 'Delete':
            if missing:
                boolean(False, 'nothing live is stored under the key')
                intact()
            else:
                boolean(True, 'the key is stored')
                if c1 != ABSENT:
                    raise Bad(P, 'Delete leaves the entry in place')
        elif sv.startswith(('Vector', 'Map')):
            coll = 'Vector' if sv.startswith('Vector') else 'Map'
            if missing:
                fail('the key is missing')
                intact()
                return
            n, f2 = self.case(v0)
            if n != coll:
                fail('the entry is not a %s' % coll.lower())
                intact()
                return
            self.collection(sv, f2[0], kind, fail, ok, value, boolean, intact, c1)
        else:
            E.rep.note('statement %s has no documented effect to compare with' % sv)

    def collection(self, sv, x, kind, fail, ok, value, boolean, intact, c1):
        E, st, L = self.E, self.st, self.L
        x = self.v(x)
        ops = E.ops

        def changed(nv):
            want = E.set_field(st, x, L.vec_f if sv.startswith('Vector') else L.map_f, None, nv)
            v0 = self.v(E.val_of(E.c0))
            want = E.set_field(st, v0, 0, L.vn[L.SV]['Vector' if sv.startswith('Vector') else 'Map'], want)
            if c1 == ABSENT:
                raise Bad('D01', '%s removes the entry' % sv)
            if not self.same(E.val_of(c1), want):
                raise Bad('D01', '%s does not leave the collection it should' % sv)
            if not self.same(E.exp_of(c1), E.exp_of(E.c0)):
                raise Bad('D07', '%s changes the expiration of the entry' % sv)
        if sv.startswith('Vector'):
            vec = E.get_field(st, x, L.vec_f, None, None)
            ct = E.get_field(st, x, L.vec_ct, None, L.CT)
            if sv == 'VectorLength':
                if not self.same(ok('Size'), vec[2]):
                    raise Bad('D01', 'VectorLength does not report the number of elements')
                intact()
            elif sv == 'VectorGet':
                if not E.lt(st, self.v(ops[1]), vec[2]):
                    fail('the index is out of range')
                else:
                    value(E.vec_read(st, vec, self.v(ops[1])), 'the index is in range')
                intact()
            elif sv == 'VectorPop':
                if not E.lt(st, ('int', 0), vec[2]):
                    value(('adt', L.SV.path, L.vn[L.SV]['Null'], ()), 'the vector is empty')
                    intact()
                else:
                    last = E.int_add(st, vec[2], ('int', -1))
                    value(E.vec_read(st, vec, last), 'the vector has a last element')
                    changed(E.vec_drop_last(st, vec))
            else:
                nv = ops[-1]
                want = self.case(ct, L.CT)[0]
                got = self.case(nv, L.SV)[0]
                if want != got:
                    fail('the element is not of the declared type')
                    intact()
                elif sv == 'VectorAppend':
                    ok('Message', 'the element is of the declared type')
                    changed(E.vec_push(st, vec, nv))
                elif not E.lt(st, self.v(ops[1]), vec[2]):
                    fail('the index is out of range')
                    intact()
                else:
                    ok('Message', 'index and type are right')
                    changed(E.vec_write(st, vec, self.v(ops[1]), nv))
            return
        mp = E.get_field(st, x, L.map_f, None, None)
        if sv == 'MapLength':
            if not self.same(ok('Size'), mp[2]):
                raise Bad('D01', 'MapLength does not report the number of elements')
            intact()
            return
        kt = self.case(E.get_field(st, x, L.map_kt, None, L.KT), L.KT)[0]
        if self.case(ops[1], L.SV)[0] != kt:
            fail('the map key is not of the declared type')
            intact()
            return
        if sv == 'MapSet':
            ct = self.case(E.get_field(st, x, L.map_ct, None, L.CT), L.CT)[0]
            if self.case(ops[2], L.SV)[0] != ct:
                fail('the value is not of the declared type')
                intact()
            else:
                ok('Message', 'key and value are of the declared types')
                changed(E.map_insert(st, mp, ops[1], ops[2])[0])
            return
        k, cur = E.map_lookup(st, mp, ops[1])
        if sv == 'MapExists':
            boolean(cur != ABSENT, 'the element is %s' % ('missing' if cur == ABSENT else 'there'))
            intact()
        elif sv == 'MapGet':
            if cur == ABSENT:
                fail('the element is missing')
            else:
                value(cur, 'the element is there')
            intact()
        elif sv == 'MapDelete':
            boolean(cur != ABSENT, 'the element is %s' % ('missing' if cur == ABSENT else 'there'))
            if cur == ABSENT:
                intact()
            else:
                changed(E.map_remove(st, mp, ops[1])[0])

    def lifetime(self, exp, want):
        life = want[0]
        e = self.opt(exp)
        if life is None:
            if e is not None:
                raise Bad('D07', '%s without a lifetime leaves an expiration time' % self.E.sv)
            return
        if e is None:
            raise Bad('D07', '%s with a lifetime stores an entry that never expires' % self.E.sv)
        e = self.v(e)
        good = False
        if e[0] == 'lin' and e[2] == 0 and isinstance(e[1], tuple) and e[1][:2] == ('op', 'time_add'):
            x, y = e[1][2], e[1][3]
            good = any(self.same(x, t) for t in self.st.env[2]) and self.is_secs(y, life)
        if not good:
            raise Bad('D07', '%s does not set the expiration to its lifetime in seconds from now' % self.E.sv)

    def sweep(self, kind, name, fs):
        E, st = self.E, self.st
        if kind == 'err':
            raise Bad('D08', 'a sweep fails')
        if name != 'Size':
            raise Bad('D08', 'a sweep replies %s' % name)
        some_tracked = E.lt(st, ('int', 0), E.n0())
        removed = []
        kept = []
        for k, c in st.env[0]:
            if c == ABSENT:
                continue
            (removed if self.final(k) == ABSENT else kept).append(c)
        if not self.same(fs[0], ('int', len(removed))):
            raise Bad('D08', 'a sweep does not report the number of entries it removed')
        for c in removed:
            if self.expired(E.exp_of(c)) is not True:
                raise Bad('D08', 'a sweep removes an entry that has not expired')
        whole = len(st.env) > 3
        tracked = [c for c in kept if self.opt(E.idx_of(c)) is not None]
        if whole and not removed and tracked and all(self.expired(E.exp_of(c)) is True for c in tracked):
            raise Bad('D08', 'a sweep keeps the entry it picked although it has expired')
        for c in kept if not whole else ():
            if self.opt(E.idx_of(c)) is not None and self.expired(E.exp_of(c)) is not False and not self.moved_only(c):
                raise Bad('D08', 'a sweep keeps the entry it picked although it has expired')
        if whole:
            return
        if some_tracked and not st.env[1]:
            raise Bad('D08', 'a sweep looks at no entry although some are tracked')
        if some_tracked and not removed:
            E.picks.append((st, st.env[1][0][0]))
        elif removed:
            E.picks.append((st, st.env[1][0][0]))

    def moved_only(self, c):
        """an entry only touched to renumber it"""
        n = self.E.n0()
        ix = self.opt(self.E.idx_of(c))
        return self.st.int_eq(ix, self.E.int_add(self.st, n, ('int', -1))) is True and len(self.st.env[1]) > 1


def verify_all(E, st, ret):
    """-> list of problems over all refinements of a final state"""
    out = []
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 3000:
            raise Undecided('too many final refinements')
        try:
            for b in Verify(E, s, ret).run():
                out.append((s, b))
            E.verified += 1
        except Bad as b:
            out.append((s, b))
        except Split as sp:
            for alt in sp.alts:
                s2 = s.copy()
                try:
                    alt(s2)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            continue
    return out


ONLY = {'D08': ('ExpireKeys',), 'D06': ('VectorAppend', 'VectorSet', 'VectorPop', 'MapSet', 'MapDelete', 'Set', 'SetIfNotExists', 'Update'),
        'D09': ('Get', 'GetIfExists', 'Set', 'SetIfNotExists', 'Update')}
PER_MODE = {'D02': ('expired',), 'D09': ('absent', 'none', 'live')}


def concerns(pid, name, b):
    if b.pid == pid:
        return True
    if pid == 'D09':
        return b.pid == 'D01' and ('another value' in b.what or 'leave the value' in b.what)
    # an element refused or let in against the declared type
    return pid == 'D06' and name in ('VectorAppend', 'VectorSet', 'MapSet') and b.pid in ('D01', 'D03') and ('declared type' in b.what or 'fails, but' in b.what
                                                                                                 or 'type are right' in b.what)


def store_check(ctx):
    pid = ctx.pid
    ctx.rule = ('for each statement variant and each state of the named entry (absent, without expiry, live, expired, expiring meanwhile), every '
                'abstract path of Interpreter::interpret over an unbounded store: reply and final store compared with the documented effect; '
                'the tracking invariant, the frame condition and the type invariant are obligations on every final state')
    ctx.assumptions = ['SystemTime::now does not go backwards while one command runs', 'the stored collections satisfy their declared types (D06)',
                       'std HashMap and Vec behave as documented (library models)']
    L = Layout(ctx)
    L.hash_panics = hash_panics(ctx, L)
    if pid == 'D01':
        key_equality(ctx, L)
    root = ctx.anchor(INTERP)
    rep = ctx.rep
    cases = slow = 0
    for sv, (name, _, fields) in enumerate(L.stmt.variants):
        if pid in ONLY and name not in ONLY[pid]:
            continue
        keyed = bool(fields) and fields[0][1].k == 'adt' and fields[0][1].path == 'std::string::String'
        for mode in (MODES if keyed else ('none',)):
            if pid in PER_MODE and mode not in PER_MODE[pid]:
                continue
            cases += 1
            rep.ok('cases (statement x entry state)')
            for small in (False, True):
                E = StoreEngine(ctx, L, max_steps=6000, max_time=60 if small else 25 if slow < 3 else 4)
                E.what = '%s on %s entry%s' % (name, mode, ', small stores' if small else '')
                E.small = small
                E.picks = []
                E.verified = 0
                st, args = E.case(sv, mode)
                sts = E.small_stores(st) if small else [st]
                for s in sts:
                    E.push_frame(s, root, args)
                whole = E.go(sts)
                ctx.done(E, E.what)
                rep.ok('paths to a reply', len(E.outcomes))
                left = judge(ctx, E, name)
                if whole and not left and not E.undecided:
                    break
                slow += not whole
                # a loop over everything: decide it for small stores


def judge(ctx, E, name):
    """compare what was reached with the documented effect -> was anything left open?"""
    pid, rep = ctx.pid, ctx.rep
    left = False
    for (kind, uid), (w, tr, taint, fr) in sorted(E.panics.items()):
        if pid == 'T02':
            fn = strip_generics(ctx.prog.fns[uid].path if uid in ctx.prog.fns else uid)
            key = 'panic:%s:%s' % (kind, fn)
            if taint:
                rep.undecide('%s: %s' % (E.what, key), 'rests on %s' % (taint,))
            else:
                rep.violation(key, '%s: panic (%s) in %s' % (E.what, kind, fn), w, tr)
    for s, v in E.outcomes:
        try:
            probs = verify_all(E, s, v)
        except Undecided as u:
            rep.undecide(E.what, u)
            left = True
            continue
        for s2, b in probs:
            if not concerns(pid, name, b):
                continue
            if s2.taint:
                rep.undecide('%s: %s' % (E.what, b.what), 'rests on %s' % (s2.taint,))
                left = True
            else:
                rep.violation('%s:%s' % (name, b.what), '%s: %s' % (E.what, b.what), 'Interpreter::interpret', s2.trace_list())
    rep.ok('final states compared with the documented effect', E.verified)
    if pid == 'D08' and name == 'ExpireKeys' and not left and not E.small and not any(len(s.env) > 3 for s, _ in E.outcomes):
        reach(ctx, E)
    if len(ctx.samples) < 6 and E.outcomes:
        ctx.samples.append({'case': E.what, 'paths': len(E.outcomes), 'reply': str(E.outcomes[0][1])[:200], 'branches': E.outcomes[0][0].trace_list()[-8:]})
    return left


def reach(ctx, E):
    """a sweep can pick any tracked entry"""
    n = E.n0()
    want = {'first': lambda s, x: s.assume_le(x, ('int', 0)), 'last': lambda s, x: s.assume_le(n, x, 1),
            'middle': lambda s, x: (s.assume_le(('int', 1), x), s.assume_le(x, n, -2))}
    for nm, f in want.items():
        hit = False
        for st, x in E.picks:
            s = st.copy()
            try:
                s.assume_le(('int', 3), n)
                f(s, x)
                hit = True
                break
            except Infeasible:
                continue
        ctx.rep.ok('positions a sweep can pick', 1 if hit else 0)
        if not hit and not E.undecided:
            ctx.rep.violation('ExpireKeys:reach:' + nm, 'a sweep can never pick the %s tracked entry' % nm, 'Interpreter::interpret (ExpireKeys)')



def collections_in(v, L, out, d=6):
    if not isinstance(v, tuple) or not v or d < 0:
        return
    if v[0] == 'adt' and v[1] in (L.SVec.path, L.SMap.path):
        out.append(v)
        return
    for x in v:
        if isinstance(x, tuple):
            collections_in(x, L, out, d)


def mentions_type(t, L, d=5):
    if d < 0:
        return False
    if t is L.SVec or t is L.SMap:
        return True
    if t.k in ('ref', 'ptr', 'slice', 'array'):
        return mentions_type(t.to, L, d - 1)
    if t.k == 'tuple' or t.k == 'adt' and t.args:
        return any(mentions_type(a, L, d - 1) for a in t.args if hasattr(a, 'k'))
    return False


def touches(f, L):
    """does the function build one of the collections, or reach into its contents for writing"""
    paths = (L.SVec.path, L.SMap.path)
    for b in f.blocks:
        if b.get('cleanup'):
            continue
        for s in b['s']:
            if s[0] == '=' and s[2][0] == 'agg' and any(p in str(s[2][1]) for p in paths):
                return True
    return False


def d06(ctx):
    store_check(ctx)
    ctx.rule += ('; every function that can reach the contents of a vector or map value is analysed with a collection of any size and declared type: '
                 'afterwards all elements are of the declared types')
    L = Layout(ctx)
    L.hash_panics = hash_panics(ctx, L)
    mod = L.SVec.path.rsplit('::', 1)[0]
    roots = []
    for f in ctx.prog.fns.values():
        if f.crate == 'vpmodels' or f.derived or f.parent is not None or not f.argc and not touches(f, L):
            continue
        path = strip_generics(f.path)
        # private functions of the defining module are analysed where they are called
        inside = mod in path or f.self_ty is not None and getattr(f.self_ty, 'path', None) in (L.SVec.path, L.SMap.path)
        if touches(f, L) and not inside and 'deserialize' not in path.lower():
            roots.append(f)
        elif inside and any(mentions_type(t, L) for t in f.locals[:f.argc + 1]) and (f.vis or f.impl_trait):
            if f.impl_trait and 'serde' in f.impl_trait:
                continue
            roots.append(f)
    rep = ctx.rep
    for f in sorted(roots, key=lambda f: f.uid):
        E = TypedEngine(ctx, L, max_steps=40000, max_time=120)
        E.what = strip_generics(f.path)
        st = State()
        args = []
        cells = []
        for n in range(f.argc):
            t = f.locals[n + 1]
            a = mk('a%d' % n, t)
            if t.k == 'ref' and t.to in (L.SVec, L.SMap):
                st.mem['cell%d' % n] = mk('a%d' % n, t.to)
                a = ('ref', 'cell%d' % n, ())
                cells.append('cell%d' % n)
            args.append(a)
        E.push_frame(st, f, args)
        E.go([st])
        ctx.done(E, E.what)
        rep.ok('functions reaching into a collection')
        for s, v in E.outcomes:
            work = [s]
            while work:
                s1 = work.pop()
                try:
                    found = []
                    for c in cells:
                        if c in s1.mem:
                            collections_in(s1.mem[c], L, found)
                    collections_in(v, L, found)
                    V = Verify(E, s1, v)
                    for x in found:
                        if x[1] == L.SVec.path:
                            V.typed_vec(x)
                        else:
                            V.typed_map(x)
                        rep.ok('collections left well-typed')
                except Bad as b:
                    if s1.taint:
                        rep.undecide('%s: %s' % (E.what, b.what), 'rests on %s' % (s1.taint,))
                    else:
                        rep.violation('%s:%s' % (E.what, b.what), '%s: %s' % (E.what, b.what), E.what, s1.trace_list())
                except Split as sp:
                    for alt in sp.alts:
                        s2 = s1.copy()
                        try:
                            alt(s2)
                        except Infeasible:
                            continue
                        work.append(s2)
                except Infeasible:
                    pass
        ctx.samples.append({'function': E.what, 'paths': len(E.outcomes)})


CHECKS = {p: store_check for p in ('D01', 'D02', 'D03', 'D04', 'D05', 'D07', 'D08', 'T02')}
CHECKS['D06'] = d06


def readback(ctx):
    rule, asm = ctx.rule, list(ctx.assumptions)
    store_check(ctx)
    ctx.rule = rule + '; every path of the reading and writing commands over an unbounded store: what is stored is the operand, what is replied is the stored value'
    ctx.assumptions = asm + ctx.assumptions


EXTRA = {'D09': readback}
