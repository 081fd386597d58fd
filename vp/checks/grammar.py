"""The command language: tokenizer and parser followed over a text / token list of any length, next to the documented grammar.

The monitor walks the documented grammar over the same characters (tokens) the code looks at.  It is consulted whenever a token or a
command is added to the result, and at every return.  Questions the path has not answered are decided both ways (Split)."""
import time

from ..client import *
from ..models import char_is, CLASSES
from .analysis import TNEW, TOK, PNEW, PARSE

USZ = 'usize'
# ---------------------------------------------------------------- the documented language
KEYWORDS = {
    'get': 'Get', 'set': 'Set', 'del': 'Delete', 'ex': 'Exists', 'upd': 'Update', 'lt': 'Lifetime', 'try_get': 'GetOrNone', 'try_set': 'SetIfNotExists',
    'none': 'None', 'true': ('Bool', True), 'false': ('Bool', False), 'type': 'ValueType', 'vset': 'VectorSet', 'vget': 'VectorGet', 'vpop': 'VectorPop',
    'vpush': 'VectorAppend', 'vlen': 'VectorLength', 'mex': 'MapExists', 'mget': 'MapGet', 'mset': 'MapSet', 'mdel': 'MapDelete', 'mlen': 'MapLength',
    'int': 'IntType', 'float': 'FloatType', 'str': 'StringType', 'bool': 'BoolType', 'vec': 'VectorType', 'map': 'MapType', 'shutdown': 'Shutdown',
}
PUNCT = {';': 'Semicolon', '[': 'LeftBracket', ']': 'RightBracket', ',': 'Comma', ':': 'Colon', '{': 'LeftCurlyBracket', '}': 'RightCurlyBracket'}
ESCAPES = {'\\': '\\', '"': '"', 'r': '\r', 't': '\t', 'n': '\n'}
# token -> (command, operands)
COMMANDS = {
    'Get': ('Get', 'name'), 'GetOrNone': ('GetIfExists', 'name'), 'Delete': ('Delete', 'name'), 'Exists': ('Exists', 'name'), 'ValueType': ('ValueType', 'name'),
    'Set': ('Set', 'name value life'), 'SetIfNotExists': ('SetIfNotExists', 'name value life'), 'Update': ('Update', 'name value life'),
    'SetLifetime': ('UpdateLifetime', 'name life'), 'Shutdown': ('Shutdown', ''),
    'VectorAppend': ('VectorAppend', 'name scalar'), 'VectorGet': ('VectorGet', 'name index'), 'VectorSet': ('VectorSet', 'name index scalar'),
    'VectorLength': ('VectorLength', 'name'), 'VectorPop': ('VectorPop', 'name'),
    'MapGet': ('MapGet', 'name key'), 'MapExists': ('MapExists', 'name key'), 'MapDelete': ('MapDelete', 'name key'), 'MapSet': ('MapSet', 'name key scalar'),
    'MapLength': ('MapLength', 'name'),
}
TYPES = {'BoolType': 'Bool', 'FloatType': 'Float', 'IntType': 'Int', 'StringType': 'String'}
SCALARS = {'Bool': 'Bool', 'Integer': 'Int', 'Float': 'Float', 'StringValue': 'String'}
KEYS = {'Integer': 'Int', 'StringValue': 'String'}


class Bad(Exception):
    """the documented grammar has an error here"""


class Open(Exception):
    """nothing is known from here on: the text may still go on correctly"""


class Follow(Checked):
    """common to both followers"""
    far = 12
    drop_consts = True

    def __init__(self, ctx, found, what, **kw):
        super().__init__(ctx, **kw)
        self.found = found
        self.what = what
        self.vec_cap = 0
        self.fact_window = (0, 12)
        self.maybe = False
        self.first = None

    def enough(self):
        return self.first is not None and time.time() > self.first + 60

    def say(self, st, cls, key, msg):
        if cls == self.ctx.pid and not st.taint and self.first is None:
            self.first = time.time()
        self.found.append((cls, key, '%s: %s' % (self.what, msg), self.where(st) if st.frames else self.what, st.trace_list()[-40:], st.taint, self.what))

    def lin(self, i, k):
        return self.int_add(None, i, ('int', k))

    def less(self, st, a, b):
        r = st.lt(a, b)
        if r is None:
            raise Split([lambda s: s.assume_le(a, b, -1), lambda s: s.assume_le(b, a)])
        return r

    def forks(self, st, f, limit=400):
        """f on every refinement of the state that it asks for: (state, result)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            limit -= 1
            if limit < 0:
                raise Undecided('too many cases at a return')
            try:
                out.append((s, f(s)))
            except Split as sp:
                for a in sp.alts:
                    s2 = s.copy()
                    try:
                        a(s2)
                    except Infeasible:
                        continue
                    work.append(s2)
            except Infeasible:
                pass
        return out

    def track(self, st, v, tag, L):
        """the collection v now holds exactly what the monitor counted"""
        n = st.fresh_id()
        return ('vec', ('op', tag), ('lin', n, 0, USZ), (), v[4]), ('lin', n, 0, USZ)

    def exec_return(self, st, fr):
        """an error is returned: was there an error in the text?"""
        c = fr.locals.get(0)
        v = st.mem.get(c) if c is not None else None
        if v is not None and v[0] == 'adt' and v[1] == 'std::result::Result' and v[2] == 1 and fr.fn.crate != 'vpmodels' and st.mon[0] != 'wrong':
            self.maybe = True
            try:
                m = self.M_(st.mon)
                could = any(r for _, r in self.forks(st.copy(), lambda s: self.could(s, m)))
            finally:
                self.maybe = False
            if not could:
                self.wrong(st, self.swallowed())
                T = fr.fn.locals[0]
                if T.k == 'adt' and len(T.args) == 2 and T.args[1].k == 'adt' and T.args[1].local:
                    st.mem[c] = v[:3] + ((st.fresh(T.args[1]),),)
        return super().exec_return(st, fr)

    def finish(self, st, v):
        var = v[2] if v[0] == 'adt' else None
        if var is None:
            raise Undecided('result %r' % (v[:2],))
        m = self.M_(st.mon)
        if var == 0:
            lst = st.norm(v[3][0])
            for s, r in self.forks(st, lambda s: self.rest(s, m, lst)):
                if r:
                    for cls in ('E02', 'E03') + tuple(r[2:3] or ((),))[0]:
                        self.say(s, cls, r[0], r[1])
        elif m.phase == 'wrong':
            r = m.n
            if isinstance(r, tuple) and r[3:]:
                for cls in ('E03',) + r[2]:
                    self.say(st, cls, r[0], r[1])
        else:
            self.maybe = True
            try:
                for s, r in self.forks(st, lambda s: self.could(s, m)):
                    if r:
                        self.say(s, 'E03', 'refuses', 'refuses a text that may be right')
                        for cls in self.refused(s, m):
                            self.say(s, cls, 'refuses', 'refuses a text that may be right')
                        break
            finally:
                self.maybe = False

    def name_cursor(self, st, m):
        """counts that equal the position in hand get its name, so that code and monitor move together"""
        n = m.p[1]
        c = ('lin', st.fresh_id(), 0, USZ)
        st._zadd_var(c[1], USZ)

        def at(v):
            if v == ('int', n):
                return c
            if v[0] == 'int' and n < v[1] < n + 12:
                return self.lin(c, v[1] - n)
            return v

        def sub(v, t):
            if v[0] == 'int':
                return at(v) if t is not None and t.k == 'int' and t.s == USZ else v
            if v[0] == 'adt':
                T = self.prog.adt_type(v[1])
                fts = T.variants[v[2]][2] if T is not None and T.variants else ()
                if len(fts) != len(v[3]):
                    return v
                return v[:3] + (tuple(sub(x, ft) for x, (_, ft) in zip(v[3], fts)),)
            if v[0] == 'tup' and t is not None and t.k == 'tuple':
                return ('tup', tuple(sub(x, ft) for x, ft in zip(v[1], t.args)))
            if v[0] == 'obj' and v[1] == 'iter':
                return v[:2] + tuple(at(x) if isinstance(x, tuple) and x[:1] == ('int',) else x for x in v[2:])
            return v
        types = {}
        for fr in st.frames:
            for l, cell in fr.locals.items():
                types[cell] = fr.fn.locals[l]
        for cell, v in list(st.mem.items()):
            st.mem[cell] = sub(v, types.get(cell))
        m.p = c
        for f in m.POSITIONS:
            if f != 'p' and getattr(m, f) is not None:
                setattr(m, f, at(getattr(m, f)))


# ---------------------------------------------------------------- the parser
class PM:
    FIELDS = ('phase', 'p', 'q', 'n', 'ln', 'lv')
    POSITIONS = ('p', 'q')
    # phase: stmt | lit | wrong (the text is wrong; n: what was done about it)     p: where the statement in hand starts     q: just after the last element of the literal
    # n: where the first element of the literal is     ln: length of the list of commands     lv: length of the literal
    __slots__ = FIELDS

    def __init__(self, t):
        for n, x in zip(self.FIELDS, t):
            setattr(self, n, x)

    def tup(self):
        return tuple(getattr(self, n) for n in self.FIELDS)


class Parse(Follow):
    M_ = PM
    why = ''

    def __init__(self, ctx, found, what, **kw):
        super().__init__(ctx, found, what, **kw)
        T = self.prog.adt_type
        self.tok_t, self.at_t, self.st_t = T('analysis::tokens::Token'), T('analysis::tokens::AnnotatedToken'), T('statements::Statement')
        self.sv_t = T('types::StorageValue')
        for n, x in (('Token', self.tok_t), ('AnnotatedToken', self.at_t), ('Statement', self.st_t), ('StorageValue', self.sv_t)):
            if x is None:
                raise MissingAnchor(n)
        self.tn = [v[0] for v in self.tok_t.variants]
        self.sn = [v[0] for v in self.st_t.variants]
        self.vn = [v[0] for v in self.sv_t.variants]
        self.tf = [n for n, (_, ft) in enumerate(self.at_t.variants[0][2]) if ft.k == 'adt' and ft.path == self.tok_t.path][0]
        self.tokens = ('vec', 'T', ('lin', ('len', 'T'), 0, USZ), (), self.at_t)
        self.LEN = self.tokens[2]

    # ------------------------------------------------------------ looking at tokens
    def token(self, st, i):
        e = self.base_elem(st, 'T', i, self.at_t)
        return st.norm(self.get_field(st, e, self.tf, 0, None))

    def known(self, st, i):
        t = self.token(st, i)
        if t[0] == 'adt':
            return frozenset([t[2]])
        return st.f.get(('var', t[1]))

    def end(self, st, i):
        r = st.lt(i, self.LEN)
        if r is None:
            if self.maybe and self.known(st, i) is None:
                raise Open()
            raise Split([lambda s: s.assume_le(i, self.LEN, -1), lambda s: s.assume_le(self.LEN, i)])
        return not r

    def kind(self, st, i, names, all_of=False):
        """the name of the token at i if it is one of names (decided exactly), else None"""
        t = self.token(st, i)
        ix = frozenset(n for n, x in enumerate(self.tn) if x in names)
        vs = frozenset([t[2]]) if t[0] == 'adt' else st.variants(t[1], t[2])
        if vs & ix and vs - ix:
            if self.maybe and self.known(st, i) is None:
                raise Open()
            raise Split([lambda s: s.assume_variants(t[1], vs & ix), lambda s: s.assume_variants(t[1], vs - ix)])
        if not vs & ix:
            return None
        if all_of:
            return True
        if len(vs) > 1:
            raise Split([(lambda s, x=x: s.assume_variants(t[1], frozenset([x]))) for x in sorted(vs)])
        return self.tn[min(vs)]

    def payload(self, st, i):
        t = self.token(st, i)
        v = self.get_field(st, t, 0, t[2] if t[0] == 'adt' else min(st.variants(t[1], t[2])), None)
        return st.norm(self.deref(st, v))

    def need(self, st, i, names):
        if self.end(st, i):
            raise Bad('the text ends where an operand must come')
        k = self.kind(st, i, names)
        if k is None:
            raise Bad('operand of the wrong kind')
        return k

    # ------------------------------------------------------------ the grammar
    def semis(self, st, p):
        while not self.end(st, p) and self.kind(st, p, ('Semicolon',)):
            p = self.lin(p, 1)
        return p

    def stmt_end(self, st, p):
        return self.end(st, p) or self.kind(st, p, ('Semicolon',)) is not None

    def scalar(self, st, p, kinds=SCALARS):
        k = self.need(st, p, kinds)
        return kinds[k], self.payload(st, p)

    def nonneg(self, st, p):
        v = self.payload(st, p)
        if self.less(st, v, ('int', 0)):
            raise Bad('negative number')
        return v

    def head(self, st, p):
        """keyword, name and declared types of the literal that starts at p: (keyword, literal kind, types, position after the opening bracket)"""
        p = self.semis(st, p)
        if self.end(st, p):
            raise Bad('no command')
        k = self.kind(st, p, ('Set', 'SetIfNotExists', 'Update'))
        if k is None:
            raise Bad('no literal')
        self.need(st, self.lin(p, 1), ('Identifier',))
        kind, types, q = self.types_at(st, self.lin(p, 2))
        return k, kind, types, q

    def types_at(self, st, q):
        """-> (vec|map|emptyvec|emptymap, types, position of the first element or of what follows)"""
        t1 = self.kind(st, q, TYPES, True)
        q1 = self.lin(q, 1)
        if self.stmt_end(st, q1):
            return 'empty vec', (TYPES[self.kind(st, q, TYPES)],), q1
        if self.kind(st, q1, TYPES, True):
            k1 = self.kind(st, q, ('IntType', 'StringType'))
            if k1 is None:
                raise Bad('not a key type')
            k2 = self.kind(st, q1, TYPES)
            q2 = self.lin(q1, 1)
            if self.stmt_end(st, q2) or not self.kind(st, q2, ('LeftCurlyBracket',)):
                return 'empty map', (TYPES[k1], TYPES[k2]), q2
            return 'map', (TYPES[k1], TYPES[k2]), self.lin(q2, 1)
        if self.kind(st, q1, ('LeftBracket',)):
            return 'vec', (TYPES[self.kind(st, q, TYPES)],), self.lin(q1, 1)
        raise Bad('neither a vector nor a map')

    def element(self, st, kind, types, q, first):
        """one element at q (first) or after the separator at q -> (expected values, position after it)"""
        if not first:
            if self.end(st, q):
                raise Bad('the literal does not end')
            if not self.kind(st, q, ('Comma',)):
                raise Bad('no comma')
            q = self.lin(q, 1)
        if kind == 'vec':
            k, v = self.scalar(st, q)
            if k != types[0]:
                raise Bad('element of another type')
            return ((k, v),), self.lin(q, 1)
        k, v = self.scalar(st, q)
        q = self.lin(q, 1)
        if self.end(st, q) or not self.kind(st, q, ('Colon',)):
            raise Bad('no colon')
        q = self.lin(q, 1)
        k2, v2 = self.scalar(st, q)
        if (k, k2) != types:
            raise Bad('element of another type')
        return ((k, v), (k2, v2)), self.lin(q, 1)

    def close(self, st, kind, q):
        if self.end(st, q):
            raise Bad('the literal does not end')
        if not self.kind(st, q, ('RightBracket',) if kind == 'vec' else ('RightCurlyBracket',)):
            raise Bad('no closing bracket')
        return self.lin(q, 1)

    def value(self, st, m, q):
        """expected value at q -> (description, position after it)"""
        if self.stmt_end(st, q):
            return ('null',), q
        if not self.kind(st, q, TYPES, True):
            k, v = self.scalar(st, q)
            return ('scalar', k, v), self.lin(q, 1)
        kind, types, q = self.types_at(st, q)
        if kind.startswith('empty'):
            return (kind[6:], types, 0), q
        if m.phase == 'lit':
            q = m.q
            if self.maybe:
                # the literal may go on
                first = False
                while self.end(st, q) or not self.kind(st, q, ('RightBracket',) if kind == 'vec' else ('RightCurlyBracket',)):
                    _, q = self.element(st, kind, types, q, False)
            return (kind, types, 1), self.close(st, kind, q)
        if self.maybe:
            first = True
            while first and self.end(st, q) or not self.kind(st, q, ('RightBracket',) if kind == 'vec' else ('RightCurlyBracket',)):
                _, q = self.element(st, kind, types, q, first)
                first = False
            return (kind, types, 0 if first else 1), self.close(st, kind, q)
        return (kind, types, 0), self.close(st, kind, q)

    def command(self, st, m):
        """the command that starts at m.p: (variant, operands, position after it)"""
        p = self.semis(st, m.p)
        if self.end(st, p):
            return None, (), p
        k = self.kind(st, p, COMMANDS)
        if k is None:
            raise Bad('no command keyword')
        name, ops = COMMANDS[k]
        p = self.lin(p, 1)
        out = []
        for o in ops.split():
            if o == 'name':
                self.need(st, p, ('Identifier',))
                out.append(('text', self.payload(st, p)))
                p = self.lin(p, 1)
            elif o == 'key':
                out.append(('scalar',) + self.scalar(st, p, KEYS))
                p = self.lin(p, 1)
            elif o == 'scalar':
                out.append(('scalar',) + self.scalar(st, p))
                p = self.lin(p, 1)
            elif o == 'index':
                self.need(st, p, ('Integer',))
                out.append(('int', self.nonneg(st, p)))
                p = self.lin(p, 1)
            elif o == 'life':
                if self.stmt_end(st, p):
                    out.append(('none',))
                else:
                    self.need(st, p, ('Integer',))
                    out.append(('some', self.nonneg(st, p)))
                    p = self.lin(p, 1)
            elif o == 'value':
                x, p = self.value(st, m, p)
                out.append(x)
        return name, out, p

    # ------------------------------------------------------------ comparing
    def same(self, st, a, b):
        a, b = st.norm(self.deref(st, a)), st.norm(self.deref(st, b))
        if a[0] == 'lin' and b[0] == 'lin':
            return a[1:3] == b[1:3] or st.int_eq(a, b) is True
        if a[0] in ('int', 'lin') and b[0] in ('int', 'lin'):
            return st.int_eq(a, b) is True
        if a[0] in ('bool', 'p') and b[0] in ('bool', 'p'):
            return a == b or self.truth(st, a) == self.truth(st, b)
        return a == b

    def is_scalar(self, st, v, kind, payload):
        v = st.norm(self.deref(st, v))
        if v[0] == 'sym' and v[2].path == self.sv_t.path:
            vs = st.variants(v[1], v[2])
            if len(vs) == 1:
                v = self.expand(st, v, min(vs))
        if v[0] != 'adt' or self.vn[v[2]] != kind:
            return False
        return self.same(st, v[3][0], payload)

    def operand_ok(self, st, m, v, x):
        v = st.norm(self.deref(st, v))
        k = x[0]
        if k == 'text' or k == 'int':
            return self.same(st, v, x[1])
        if k == 'scalar':
            return self.is_scalar(st, v, x[1], x[2])
        if k == 'none':
            return v == NONE
        if k == 'some':
            return v[0] == 'adt' and v[2] == 1 and self.same(st, v[3][0], x[1])
        if v[0] != 'adt' or v[1] != self.sv_t.path:
            return False
        n = self.vn[v[2]]
        if k == 'null':
            return n == 'Null'
        if n != ('Vector' if k == 'vec' else 'Map'):
            return False
        body = st.norm(self.deref(st, v[3][0]))
        if body[0] != 'adt':
            raise Undecided('literal %r' % (body[:2],))
        ty = self.prog.adt_type(body[1])
        types = []
        data = None
        for (fn, ft), f in zip(ty.variants[0][2], body[3]):
            f = st.norm(f)
            if f[0] in ('vec', 'map'):
                data = f
            elif f[0] == 'adt':
                types.append((fn, self.prog.adt_type(f[1]).variants[f[2]][0]))
            else:
                raise Undecided('literal field %r' % (f[:2],))
        want = {'collection_type': x[1][-1]}
        if k == 'map':
            want['key_type'] = x[1][0]
        if dict(types) != want:
            if len(types) == len(want) and set(dict(types)) != set(want):
                raise Undecided('fields of a literal')
            self.say(st, 'D06', 'declared', 'a literal gets other types than declared')
            return False
        if x[2] == 0:
            return data[2] == ('int', 0)
        return self.is_literal(st, m, data)

    def is_literal(self, st, m, data):
        """data is the collection the elements went into, all of them and nothing else"""
        if data[0] == 'vec':
            if data[1] is not None and data[1] != ('op', 'lit'):
                return False
            return data[2] == m.lv
        return data[1] in (None, ('op', 'lit')) and (data[1] is not None or data[3] != ()) and all(y != ABSENT for e in data[3] for y in e)

    # ------------------------------------------------------------ what the code does
    def on_vec_push(self, st, cell, p, v, x):
        et = v[4]
        if et is None or et.k != 'adt':
            return
        if et.path == self.st_t.path:
            self.on_command(st, v, x)
        elif et.path == self.sv_t.path:
            self.on_element(st, 'vec', v, (x,))

    def on_map_insert(self, st, cell, p, mp, key, v):
        if mp[4] is not None and mp[4].k == 'adt' and mp[4].path == self.sv_t.path:
            self.on_element(st, 'map', mp, (key, v))

    def on_element(self, st, kind, v, xs):
        m = PM(st.mon)
        if m.phase == 'wrong':
            return
        for x in xs:
            if any(isinstance(y, tuple) and y[:2] in (('op', 'lit'), ('op', 'sum')) for y in subterms(x)):
                raise Undecided('elements copied from one collection to another')
        try:
            k, lk, types, q = self.head(st, m.p)
            if lk != kind:
                raise Bad('another kind of literal')
            first = m.phase != 'lit'
            q0 = q
            want, q = self.element(st, kind, types, q if first else m.q, first)
        except Bad as b:
            self.wrong(st, ('literal-accepts', 'takes an element of a literal although the text is wrong (%s)' % b, ('D06',) if str(b) == 'element of another type' else ()))
            return
        if not all(self.is_scalar(st, x, *w) for x, w in zip(xs, want)):
            self.say(st, 'E03', 'literal-element', 'puts something else into a literal than is written')
            self.say(st, 'D09', 'literal-element', 'puts something else into a literal than is written')
            raise Stop()
        if kind == 'map':
            known = v[1] is None and not v[3] if first else self.is_literal(st, m, v)
        else:
            known = v[1] is None and v[2] == ('int', 0) if first else v[1] in (None, ('op', 'lit')) and v[2] == m.lv
        if not known:
            raise Undecided('elements of a literal go to several collections')
        if first:
            m.p = self.semis(st, m.p)
            m.n = q0
        m.phase = 'lit'
        m.q = q
        m.lv = self.int_add(st, v[2], ('int', 1)) if kind == 'vec' else 'map'
        st.mon = m.tup()

    def on_command(self, st, v, x):
        m = PM(st.mon)
        x = st.norm(self.deref(st, x))
        if x[0] == 'sym':
            vs = st.variants(x[1], x[2])
            if len(vs) == 1:
                x = self.expand(st, x, min(vs))
        if x[0] != 'adt' and m.phase == 'wrong':
            return
        if x[0] != 'adt':
            raise Undecided('command %r' % (x[:2],))
        n = self.sn[x[2]]
        if n == 'ExpireKeys':
            self.say(st, 'A04', 'sweep', 'a text yields the internal sweep command')
            raise Stop()
        if m.phase == 'wrong':
            return
        try:
            name, ops, p = self.command(st, m)
            if name is None:
                raise Bad('no command there')
        except Bad as b:
            self.wrong(st, ('accepts:%s' % n, 'accepts a wrong text as %s (%s)' % (n, b)))
            return
        if n != name:
            self.say(st, 'E03', 'command:%s' % name, 'yields %s where %s is written' % (n, name))
            raise Stop()
        for k, (a, b) in enumerate(zip(x[3], ops)):
            if not self.operand_ok(st, m, a, b):
                self.say(st, 'E03', 'operand:%s:%d' % (name, k), 'operand %d of %s is not what is written in its place' % (k, name))
                if b[0] in ('scalar', 'vec', 'map'):
                    self.say(st, 'D09', 'operand:%s:%d' % (name, k), 'operand %d of %s is not what is written in its place' % (k, name))
                raise Stop()
        if not (v[2] == m.ln):
            self.say(st, 'E02', 'order', 'commands are not collected one after the other in one list')
            raise Stop()
        self.rep.ok('commands compared with the grammar')
        m.phase, m.p, m.q, m.n, m.lv = 'stmt', p, None, None, None
        m.ln = self.int_add(st, v[2], ('int', 1))
        st.mon = m.tup()

    # ------------------------------------------------------------ errors
    def wrong(self, st, why):
        """whatever the rest of the text is, it is wrong: nothing else is remembered about it"""
        st.mon = PM(('wrong', None, None, why, None, None)).tup()
        for k in [k for k in st.f if any(isinstance(t, tuple) and t[:2] in (('el', 'T'), ('op', 'lit')) for t in subterms(k))]:
            del st.f[k]
        st.z = {k: c for k, c in st.z.items() if 'Z' in k and (k[0] == 'Z' and c <= 0 or abs(c) > BIG)}

    def clamp(self, st):
        m = PM(st.mon)
        # how much was read so far does not matter
        for k, c in st.z.items():
            if k[0] == 'Z' and c < 0:
                st.z[k] = 0
        if m.phase == 'wrong':
            return super().clamp(st)
        if m.ln == ('int', 0):
            n = st.fresh_id()
            m.ln = ('lin', n, 0, USZ)
            for c, v in st.mem.items():
                if v[0] == 'vec' and v[1] is None and v[2] == ('int', 0) and v[4] is not None and v[4].k == 'adt' and v[4].path == self.st_t.path:
                    st.mem[c] = ('vec', ('op', 'stmts'), m.ln, (), v[4])
        if m.p[0] == 'int':
            self.name_cursor(st, m)
        if m.phase == 'stmt':
            while True:
                vs = self.known(st, m.p)
                if vs is None or len(vs) != 1 or self.tn[min(vs)] != 'Semicolon':
                    break
                m.p = self.lin(m.p, 1)
        st.mon = m.tup()
        if m.phase == 'lit' and m.q[0] == 'lin' and m.p[0] == 'lin' and m.q[1] == m.p[1]:
            self.rebase(st, m.q[1], m.q[2], USZ, least=m.q[2])
            m = PM(st.mon)
            # what is written inside the literal was compared already
            for k in [k for k in st.f if any(self.inside(m, t) for t in subterms(k))]:
                del st.f[k]
        super().clamp(st)

    def inside(self, m, t):
        return isinstance(t, tuple) and (t[:2] == ('el', 'T') and t[2][0] == 'lin' and (t[2][1] == m.n[1] and t[2][2] >= m.n[2] or t[2][1] not in (m.q[1], m.p[1])) or
                                         t[:2] == ('op', 'lit'))

    def collapse(self, st, v, cap):
        if v[0] == 'vec' and v[3] and v[4] is not None and v[4].k == 'adt':
            m = PM(st.mon)
            if v[4].path == self.sv_t.path and m.phase == 'lit' and v[2] == m.lv:
                w, m.lv = self.track(st, v, 'lit', m.lv)
                st.mon = m.tup()
                return w
            if v[4].path == self.st_t.path and v[2] == m.ln:
                w, m.ln = self.track(st, v, 'stmts', m.ln)
                st.mon = m.tup()
                return w
        if v[0] == 'map' and v[3] and v[4] is not None and v[4].k == 'adt' and v[4].path == self.sv_t.path:
            m = PM(st.mon)
            if m.phase == 'lit':
                n = ('lin', st.fresh_id(), 0, USZ)
                m.lv = n
                st.mon = m.tup()
                return ('map', ('op', 'lit'), n, (), v[4], v[5])
        return super().collapse(st, v, cap)

    # ------------------------------------------------------------ the end
    def rest(self, st, m, lst):
        if m.phase == 'wrong':
            return m.n or ('swallowed', 'ends without an error although an error was found in the text')
        if m.phase != 'stmt':
            return 'unfinished', 'ends in the middle of a literal without an error'
        p = self.semis(st, m.p)
        if not self.end(st, p):
            return 'ignored', 'ends without an error although there is more text'
        if lst[0] != 'vec' or lst[1] not in (None, ('op', 'stmts')) or lst[2] != m.ln:
            if lst[0] == 'vec' and (lst[1] is None or lst[1] == ('op', 'stmts')):
                return 'dropped', 'does not pass on the list of all commands'
            if lst[0] == 'vec' and isinstance(lst[1], tuple) and lst[1][:2] == ('op', 'rearranged'):
                return 'rearranged', 'passes on the commands in another order'
            raise Undecided('list of commands %r' % (lst[:2],))
        return None

    def swallowed(self):
        return ('swallowed', 'ends without an error although an error was found in the text', ('D06',) if self.why == 'element of another type' else ())

    def refused(self, st, m):
        """other classes the refusal of a text that may be right belongs to"""
        if m.phase == 'lit':
            return ('D06',)
        try:
            _, kind, types, q = self.head(st, m.p)
            if kind in ('vec', 'map'):
                self.element(st, kind, types, q, True)
                return ('D06',)
        except (Bad, Open, Split, Infeasible):
            pass
        return ()

    def could(self, st, m):
        """may the text, as far as it was looked at, be right?"""
        m = PM(m.tup())
        try:
            for _ in range(6):
                name, _ops, p = self.command(st, m)
                if name is None:
                    return True
                m.phase, m.p, m.q = 'stmt', p, None
            return True
        except Bad as b:
            self.why = str(b)
            return False
        except Open:
            return True


# ---------------------------------------------------------------- the tokenizer
# characters: each ASCII character by itself, all others by what the classification functions say about them
OTHERS = [('ws', {'is_whitespace'}), ('wsctl', {'is_whitespace', 'is_control'}), ('ctl', {'is_control'}),
          ('alpha', {'is_alphabetic', 'is_alphanumeric'}), ('upper', {'is_alphabetic', 'is_alphanumeric', 'is_uppercase'}), ('lower', {'is_alphabetic', 'is_alphanumeric', 'is_lowercase'}),
          ('num', {'is_numeric', 'is_alphanumeric'}), ('numalpha', {'is_alphabetic', 'is_numeric', 'is_alphanumeric'}),
          ('numupper', {'is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_uppercase'}), ('numlower', {'is_alphabetic', 'is_numeric', 'is_alphanumeric', 'is_lowercase'}), ('other', set())]
ALL = frozenset(range(128 + len(OTHERS)))
PRED = {n: frozenset([i for i in range(128) if char_is(chr(i), n)] + [128 + k for k, (_, ps) in enumerate(OTHERS) if n in ps]) for n in CLASSES}


def chars(s):
    return frozenset(ord(c) for c in s)


WS = PRED['is_whitespace']
START = PRED['is_alphabetic'] | chars('_')
IDENT = PRED['is_alphanumeric'] | chars('_')
NUMBER = (PRED['is_numeric'] | chars('-')) - WS
LITEND = WS | chars(';:,]}')
NUMERAL = chars('0123456789+-.eE')
QUOTE, BACK, DOT = chars('"'), chars('\\'), chars('.')
# order of the documented classification: punctuation, number, string, word
WORD = START - NUMBER
LETTER_OPS = ('to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim', 'trim_start', 'trim_end', 'replace', 'trim_matches')


def char_no(c):
    if ord(c) < 128:
        return ord(c)
    ps = {n for n in CLASSES if char_is(c, n)}
    for k, (_, q) in enumerate(OTHERS):
        if ps == q:
            return 128 + k
    return None


class TM:
    FIELDS = ('phase', 'p', 'q', 'r', 'rl', 'dot', 'w', 'n', 'ln')
    POSITIONS = ('p', 'q', 'r', 'w')
    # phase: ws | word | num | str | wrong (n: what was done about it)      p: where the white space or the token in hand starts     q: the token goes at least up to here
    # r, rl: the collected characters, rl of them, are the text up to r     dot: there is a dot before q     w: the word/numeral that was looked up/read goes up to here
    # ln: length of the list of tokens
    __slots__ = FIELDS

    def __init__(self, t):
        for n, x in zip(self.FIELDS, t):
            setattr(self, n, x)

    def tup(self):
        return tuple(getattr(self, n) for n in self.FIELDS)


class Lex(Follow):
    M_ = TM
    far = 3

    def __init__(self, ctx, found, what, text, **kw):
        super().__init__(ctx, found, what, **kw)
        T = self.prog.adt_type
        self.tok_t, self.at_t = T('analysis::tokens::Token'), T('analysis::tokens::AnnotatedToken')
        for n, x in (('Token', self.tok_t), ('AnnotatedToken', self.at_t)):
            if x is None:
                raise MissingAnchor(n)
        self.tn = [v[0] for v in self.tok_t.variants]
        self.tf = [n for n, (_, ft) in enumerate(self.at_t.variants[0][2]) if ft.k == 'adt' and ft.path == self.tok_t.path][0]
        self.B = ('op', 'chars', text)
        self.LEN = ('lin', ('len', self.B), 0, USZ)
        self.asking = self.looked = self.foreign = False
        self.char_t = self.prog.types['char']
        S = self.prog.types['std::string::String']
        self.WORDSYM, self.NUMSYM = ('sym', ('op', 'word'), S), ('sym', ('op', 'num'), S)
        for pre in ('core::str::', 'std::str::', 'alloc::str::', 'std::string::String::'):
            self.hooks[pre + 'to_lowercase'] = self.on_lower
            self.hooks[pre + 'parse'] = self.on_parse
            self.hooks[pre + 'contains'] = self.on_contains
            for n in ('trim', 'trim_start', 'trim_end'):
                self.hooks[pre + n] = self.on_trim
        self.thooks[('std::str::FromStr', 'from_str')] = self.on_parse

    # ------------------------------------------------------------ characters
    def ch(self, st, i):
        return st.norm(self.base_elem(st, self.B, i, self.char_t))

    def cset(self, st, c):
        """the characters c may be, None if nothing is known"""
        c = st.norm(c)
        if c[0] == 'char':
            n = char_no(c[1])
            return None if n is None else frozenset([n])
        if c[0] == 'sym':
            return st.f.get(('cc', c[1]))
        return None

    def narrow(self, s, c, S):
        s.f[('cc', c[1])] = S
        if len(S) == 1 and min(S) < 128:
            s.f[('const', c[1])] = ('char', chr(min(S)))

    def isin(self, st, c, S):
        c = st.norm(c)
        cur = self.cset(st, c)
        if c[0] == 'sym' and isinstance(c[1], tuple) and c[1][0] == 'el':
            if c[1][1] != self.B:
                self.other_text(st, c[1][1])
            elif not self.asking:
                self.looked = True
        if cur is None:
            if c[0] != 'sym':
                raise Undecided('character %r' % (c[:2],))
            if self.maybe:
                raise Open()
            cur = ALL
        if cur <= S:
            return True
        if not cur & S:
            return False
        raise Split([lambda s: self.narrow(s, c, cur & S), lambda s: self.narrow(s, c, cur - S)])

    def other_text(self, st, base):
        """the code looks at characters that are not those of the text"""
        if any(t == self.B[2] for t in subterms(base)):
            self.foreign = True
        if isinstance(base, tuple) and base[:2] == ('op', 'chars') and base[2][0] == 't' and base[2][1] in LETTER_OPS and base[2][2] == self.B[2] and st.mon[0] != 'wrong':
            self.unlike(st, None, ('D09',), 'text', 'what is read is not the text as written but its %s' % base[2][1])

    def is_char(self, st, v):
        return v[0] == 'sym' and v[2] is not None and v[2].k == 'char'

    def eq(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        if a[0] == 'char' and self.is_char(st, b):
            a, b = b, a
        if b[0] == 'char' and self.is_char(st, a):
            n = char_no(b[1])
            if n is not None and n < 128:
                return self.isin(st, a, frozenset([n]))
            cur = self.cset(st, a)
            if cur is not None and n is not None and n not in cur:
                return False
        return super().eq(st, a, b)

    def lt(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        for x, y, less in ((a, b, True), (b, a, False)):
            if self.is_char(st, x) and y[0] == 'char' and ord(y[1]) < 128:
                n = ord(y[1])
                return self.isin(st, x, frozenset(range(n)) if less else ALL - frozenset(range(n + 1)))
        return super().lt(st, a, b)

    def client_atom(self, st, a):
        if a[0] == 'cls':
            x = st.norm(a[2])
            if x[0] == 'char':
                return char_is(x[1], a[1])
            if self.is_char(st, x):
                return self.isin(st, x, PRED[a[1]])
        return super().client_atom(st, a)

    def atom(self, st, a):
        if a[0] == 'b' and isinstance(a[1], tuple) and a[1][:2] == ('op', 'is_digit') and a[1][3] == ('int', 10):
            return self.isin(st, a[1][2], PRED['is_ascii_digit'])
        return super().atom(st, a)

    def on_contains(self, E, st, a, c):
        s, x = self.deref(st, a[0]), self.deref(st, a[1])
        if s[0] == 'str' and self.is_char(st, st.norm(x)) and all(ord(y) < 128 for y in s[1]):
            return ('bool', self.isin(st, x, chars(s[1])))
        return NotImplemented

    def exec_switch(self, st, fr, t):
        v = st.norm(self.operand(st, fr, t[1]))
        if self.is_char(st, v) and all(int(x) < 128 for x, _ in t[2]):
            groups = {}
            for x, bb in t[2]:
                groups.setdefault(bb, set()).add(int(x))
            for bb, g in sorted(groups.items()):
                if self.isin(st, v, frozenset(g)):
                    return self.goto(fr, bb)
            return self.goto(fr, t[3])
        return super().exec_switch(st, fr, t)

    # ------------------------------------------------------------ the documented tokens
    def end(self, st, i):
        r = st.lt(i, self.LEN)
        if r is None:
            if self.maybe and self.cset(st, self.ch(st, i)) is None:
                raise Open()
            raise Split([lambda s: s.assume_le(i, self.LEN, -1), lambda s: s.assume_le(self.LEN, i)])
        return not r

    def at(self, st, i, S):
        self.asking = True
        try:
            return self.isin(st, self.ch(st, i), S)
        finally:
            self.asking = False

    def begin(self, st, m):
        """past the white space; which token starts there?  m is changed"""
        if m.phase != 'ws':
            return m.phase
        while True:
            if self.end(st, m.p):
                return None
            if not self.at(st, m.p, WS):
                break
            m.p = self.lin(m.p, 1)
        if self.at(st, m.p, chars(''.join(PUNCT))):
            for c in PUNCT:
                if self.at(st, m.p, chars(c)):
                    return c
        if self.at(st, m.p, NUMBER):
            ph = 'num'
        elif self.at(st, m.p, QUOTE):
            ph = 'str'
        elif self.at(st, m.p, WORD):
            ph = 'word'
        else:
            raise Bad('no token starts with this character')
        self.start(m, ph)
        return ph

    def unseen(self, st, m):
        """the code has not looked at the place where the next token must start"""
        p = m.p
        while m.phase == 'ws' and st.lt(p, self.LEN) is not False:
            c = self.cset(st, self.ch(st, p))
            if c is None:
                return True
            if not c <= WS:
                return False
            p = self.lin(p, 1)
        return False

    def start(self, m, ph):
        m.phase = ph
        m.q = self.lin(m.p, 1)
        m.r = m.q if ph == 'str' else m.p
        m.rl = ('int', 0)
        m.dot = False
        m.w = None

    def token(self, st, m):
        """the token in hand: (kind, position after it)"""
        k = self.begin(st, m)
        if k is None or k in PUNCT:
            return k, None if k is None else self.lin(m.p, 1)
        q = m.q
        if k == 'word':
            while not self.end(st, q):
                if self.at(st, q, IDENT):
                    q = self.lin(q, 1)
                elif self.at(st, q, LITEND):
                    break
                else:
                    raise Bad('a word goes on with a character that is none of it')
        elif k == 'num':
            while not self.end(st, q) and not self.at(st, q, LITEND):
                if self.at(st, q, DOT):
                    m.dot = True
                if self.maybe and not self.at(st, q, NUMERAL):
                    raise Bad('no numeral')
                q = self.lin(q, 1)
        else:
            while True:
                if self.end(st, q):
                    raise Bad('a string does not end')
                if self.at(st, q, QUOTE):
                    break
                if self.at(st, q, BACK):
                    q = self.lin(q, 1)
                    if self.end(st, q):
                        raise Bad('a string does not end')
                    if not self.at(st, q, chars(''.join(ESCAPES))):
                        raise Bad('no such escape')
                q = self.lin(q, 1)
            m.w = q
            q = self.lin(q, 1)
            if not self.end(st, q) and not self.at(st, q, LITEND):
                raise Bad('a string is followed by other text')
        return k, q

    # ------------------------------------------------------------ what was collected
    def collected(self, st, m, vec):
        """position up to which vec is the text (None: it is something else; Undecided)"""
        if vec[0] != 'vec':
            raise Undecided('text %r' % (vec[:2],))
        if isinstance(vec[1], tuple) and vec[1][:2] == ('op', 'bad'):
            return None
        if isinstance(vec[1], tuple) and vec[1][:2] == ('op', 'run'):
            n = vec[2]
            if len(vec[3]):
                n = self.lin(n, -len(vec[3])) if n[0] == 'lin' or n[0] == 'int' else n
            if n != m.rl:
                raise Undecided('characters collected for an earlier token')
        elif vec[1] is None:
            if m.rl != ('int', 0) or vec[2] != ('int', len(vec[3])):
                raise Undecided('characters collected in two places')
        else:
            raise Undecided('characters collected in %r' % (vec[1][:2],))
        pos = m.r
        for _, c in vec[3]:
            c = st.norm(c)
            want = self.ch(st, pos)
            pos = self.lin(pos, 1)
            if m.phase == 'str':
                cur = self.cset(st, want)
                if cur is None or cur & BACK and cur != BACK:
                    raise Undecided('a string is collected before it is known whether this is an escape')
                if cur == BACK:
                    want = self.ch(st, pos)
                    pos = self.lin(pos, 1)
                    cur = self.cset(st, want)
                    if cur is None:
                        raise Undecided('an escape is collected before it is known')
                    if cur <= chars('\\"'):
                        pass
                    elif len(cur) == 1 and chr(min(cur)) in ESCAPES:
                        want = ('char', ESCAPES[chr(min(cur))])
                    else:
                        raise Undecided('an escape is collected before it is known')
            if c != want:
                return None
        return pos

    def content(self, st, m, v):
        """position up to which the text v is what the token in hand says (None: it is something else)"""
        v = st.norm(self.deref(st, v))
        if v == ('str', ''):
            return m.r if m.rl == ('int', 0) else None
        if v[0] == 't' and v[1] == 'string':
            return self.collected(st, m, v[2])
        if v[0] == 't' and v[1] == 'chars' and v[2][0] == 'vec' and v[2][1] == self.B and not v[2][3] and m.phase != 'str':
            if self.same_pos(st, v[3], m.p):
                return v[4]
            return None
        if v[0] == 't' and v[1] in LETTER_OPS and any(isinstance(y, tuple) and y[:2] in (('op', 'run'), ('op', 'chars')) for y in subterms(v)):
            if m.phase == 'str' or v[1] not in ('to_lowercase', 'to_ascii_lowercase'):
                return None
        raise Undecided('text %r' % (v[:2],))

    def same_pos(self, st, a, b):
        a, b = st.norm(a), st.norm(b)
        r = st.int_eq(a, b)
        if r is None:
            raise Split([lambda s: (s.assume_le(a, b), s.assume_le(b, a)), lambda s: s.assume_int_ne(a, b)])
        return r

    def whole(self, st, v, kind):
        """is v the word/numeral in hand so far?  then remember how far it goes"""
        m = TM(st.mon)
        if m.phase == 'wrong' or self.unseen(st, m):
            return False
        try:
            if self.begin(st, m) != kind:
                return False
            pos = self.content(st, m, v)
        except (Bad, Undecided):
            return False
        if pos is None:
            return False
        m = TM(st.mon)
        m.w = pos
        st.mon = m.tup()
        return True

    def on_lower(self, E, st, a, c):
        return self.WORDSYM if self.whole(st, a[0], 'word') else NotImplemented

    def on_trim(self, E, st, a, c):
        # white space around the text makes no difference
        return a[0] if st.norm(self.deref(st, a[0])) == self.B[2] else NotImplemented

    def on_parse(self, E, st, a, c):
        v = st.norm(self.deref(st, a[0]))
        if v != self.NUMSYM and self.whole(st, v, 'num'):
            call = self.models.get('core::str::parse') if c.path.endswith('parse') else None
            if call is None:
                from .. import models
                call = models._fromstr
            return call(self, st, [self.NUMSYM], c)
        return NotImplemented

    # ------------------------------------------------------------ what the code does
    def on_vec_push(self, st, cell, p, v, x):
        et = v[4]
        if et is not None and et.k == 'adt' and et.path == self.at_t.path:
            self.on_token(st, v, x)

    def unlike(self, st, m, cls, key, msg):
        for c in cls:
            self.say(st, c, key, msg)
        raise Stop()

    def on_token(self, st, v, x):
        m = TM(st.mon)
        if m.phase == 'wrong':
            return
        x = st.norm(self.deref(st, x))
        if x[0] != 'adt':
            raise Undecided('token %r' % (x[:2],))
        x = st.norm(self.deref(st, x[3][self.tf]))
        if x[0] == 'sym' and x[2].k == 'adt':
            vs = st.variants(x[1], x[2])
            if len(vs) == 1:
                x = self.expand(st, x, min(vs))
        if x[0] != 'adt':
            raise Undecided('token %r' % (x[:2],))
        n = self.tn[x[2]]
        if self.unseen(st, m):
            raise Undecided('a token is made without looking at the text where it must start')
        self.complete(st, m, x)
        try:
            k, e = self.token(st, m)
            if k is None:
                raise Bad('the text ends')
        except Bad as b:
            self.wrong(st, ('accepts:%s' % n, 'accepts a wrong text as %s (%s)' % (n, b), self.concern(m)))
            return
        if k in PUNCT:
            if n != PUNCT[k]:
                self.unlike(st, m, ('E03',), 'token:%s' % PUNCT[k], 'takes %s for %s' % (k, n))
        elif k == 'word':
            self.on_word(st, m, n, x, e)
        elif k == 'num':
            self.on_number(st, m, n, x, e)
        else:
            if n != 'StringValue':
                self.unlike(st, m, ('D09', 'E03'), 'token:string', 'takes a string for %s' % n)
            pos = self.content(st, m, x[3][0])
            if pos is None or not self.same_pos(st, pos, m.w):
                self.unlike(st, m, ('D09',), 'string', 'a string is not what is written between its quotes')
        if v[2] != m.ln:
            self.unlike(st, m, ('E02',), 'order', 'tokens are not collected one after the other in one list')
        self.rep.ok('tokens compared with the documented ones')
        st.mon = TM(('ws', e, None, None, None, None, None, None, self.int_add(st, v[2], ('int', 1)))).tup()
        for key in [key for key in st.f if any(isinstance(t, tuple) and t[:1] == ('op',) and t[:2] in (('op', 'word'), ('op', 'num')) for t in subterms(key))]:
            del st.f[key]

    def complete(self, st, m, x):
        """a string must go on up to its closing quote, a number up to the end of the text or one of the characters that may follow"""
        k = m.phase
        pos = None
        try:
            if k == 'str' and x[3]:
                pos = self.content(st, m, x[3][0])
            elif k == 'num':
                pos = m.w
        except Undecided:
            return
        if pos is None or self.end(st, pos) or self.at(st, pos, QUOTE if k == 'str' else LITEND):
            return
        what = 'string' if k == 'str' else 'number'
        self.unlike(st, m, ('D09', 'E02', 'E03'), what, 'a %s is taken before it is complete' % what)

    def on_word(self, st, m, n, x, e):
        w = st.norm(self.WORDSYM)
        pay = st.norm(self.deref(st, x[3][0])) if n == 'Identifier' else None
        if m.w is None:
            if n == 'Identifier':
                pos = self.content(st, m, pay)
                if pos is None:
                    self.unlike(st, m, ('E03',), 'name', 'a name is not what is written')
                self.unlike(st, m, ('E03',), 'case', 'letter case matters in names')
            raise Undecided('words are looked up in another way')
        if not self.same_pos(st, m.w, e):
            self.unlike(st, m, ('E03',), 'word', 'a word is looked up before it is complete')
        for kw in KEYWORDS:
            if self.eq(st, w, ('str', kw)):
                k = KEYWORDS[kw]
                want = k if isinstance(k, str) else k[0]
                if n != want or not isinstance(k, str) and st.norm(x[3][0]) != ('bool', k[1]):
                    self.unlike(st, m, ('E03',) if isinstance(k, str) else ('E03', 'D09'), 'keyword:%s' % kw, 'takes %s for %s' % (kw, n))
                return
        w = st.norm(w)
        if n != 'Identifier':
            self.unlike(st, m, ('E03',), 'word:%s' % n, 'takes %s for %s' % ('the word %s' % w[1] if w[0] == 'str' else 'other words', n))
        if pay != w:
            if pay[0] == 'str' or pay[0] == 't' and pay[1] in LETTER_OPS + ('string', 'chars', 'concat'):
                self.unlike(st, m, ('E03',), 'name', 'a name is not what is written')
            raise Undecided('name %r' % (pay[:2],))

    def on_number(self, st, m, n, x, e):
        want, ty = ('Float', 'f32') if m.dot else ('Integer', 'i64')
        if n not in ('Float', 'Integer'):
            self.unlike(st, m, ('E03',), 'token:number', 'takes a number for %s' % n)
        if n != want:
            self.unlike(st, m, ('D09',), 'number:%s' % want, 'reads a number with%s a dot as %s' % ('' if m.dot else 'out', n))
        v = st.norm(self.deref(st, x[3][0]))
        mine = [t for t in subterms(v) if isinstance(t, tuple) and t[:3] == ('op', 'parse', self.NUMSYM)]
        if not mine or m.w is None:
            raise Undecided('numbers are read in another way')
        if not self.same_pos(st, m.w, e):
            self.unlike(st, m, ('D09',), 'number', 'a number is read before it is complete')
        if v == mk(mine[0], self.prog.types[ty]) and mine[0][3] == ty:
            if not self.truth(st, ('p', ('parses', self.NUMSYM, ty), True)):
                raise Infeasible()
            return
        if mine[0][3] == 'f64':
            raise Undecided('numbers are read as f64')
        self.unlike(st, m, ('D09',), 'number', 'a number is not what is written')

    # ------------------------------------------------------------ errors
    def wrong(self, st, why):
        st.mon = TM(('wrong', None, None, None, None, None, None, why, None)).tup()
        self.forget(st)

    def concern(self, m):
        return ('D09',) if m.phase in ('str', 'num') else ()

    def swallowed(self):
        return None

    def refused(self, st, m):
        return self.concern(m)

    def dedup(self, st):
        # an escape that is partly right and partly none is two cases
        m = TM(st.mon)
        if m.phase == 'str' and m.w is None:
            a = self.ch(st, m.q)
            b = self.ch(st, self.lin(m.q, 1))
            c = self.cset(st, a)
            if c is not None and c == BACK:
                E = chars(''.join(ESCAPES))
                c = self.cset(st, b)
                if c is not None and c & E and c - E:
                    out = []
                    for S in (c & E, c - E):
                        s = st.copy()
                        self.narrow(s, b, S)
                        r = self.dedup(s)
                        out += r if isinstance(r, list) else [] if r else [s]
                    return out or True
        return super().dedup(st)

    def forget(self, st):
        for k in [k for k in st.f if any(isinstance(t, tuple) and (t[:2] == ('el', self.B) or t[:2] in (('op', 'run'), ('op', 'bad'), ('op', 'word'), ('op', 'num'))) for t in subterms(k))]:
            del st.f[k]
        st.z = {k: c for k, c in st.z.items() if 'Z' in k and (k[0] == 'Z' and c <= 0 or abs(c) > BIG)}

    # ------------------------------------------------------------ loop heads
    def clamp(self, st):
        m = TM(st.mon)
        for k, c in st.z.items():
            if k[0] == 'Z' and c < 0:
                st.z[k] = 0
        if m.phase == 'wrong':
            self.forget(st)
            return super().clamp(st)
        if m.ln == ('int', 0):
            n = st.fresh_id()
            m.ln = ('lin', n, 0, USZ)
            st._zadd_var(n, USZ)
            for c, v in st.mem.items():
                if v[0] == 'vec' and v[1] is None and v[2] == ('int', 0) and v[4] is not None and v[4].k == 'adt' and v[4].path == self.at_t.path:
                    st.mem[c] = ('vec', ('op', 'toks'), m.ln, (), v[4])
        if m.p[0] == 'int':
            self.name_cursor(st, m)
        why = self.advance(st, m)
        if why:
            self.wrong(st, ('accepts:text', 'goes on with a wrong text (%s)' % why, self.concern(m)))
            return super().clamp(st)
        # what was collected
        rep = {}
        ends = set()
        for c in list(st.mem):
            self.runs(st, m, st.mem[c], rep, ends)
        if len(ends) == 1 and m.phase != 'ws':
            pos = min(ends)
            c = self.cset(st, self.ch(st, m.q))
            if pos[0] == m.q[0] == 'lin' and pos[1] == m.q[1] and pos[2] > m.q[2] and c is not None and c <= (QUOTE if m.phase == 'str' else LITEND):
                what = {'str': 'string', 'num': 'number'}.get(m.phase, m.phase)
                self.wrong(st, ('beyond:%s' % what, 'takes more text for part of a %s than is part of it' % what, self.concern(m), True))
                return super().clamp(st)
        if rep:
            n = st.fresh_id()
            st._zadd_var(n, USZ)
            rl = ('lin', n, 0, USZ)
            if len(ends) == 1:
                m.r = ends.pop()
                good = ('op', 'run')
                m.rl = rl
            else:
                good = None
            for c in list(st.mem):
                st.mem[c] = self.sub_runs(st.mem[c], rep, good, rl)
        st.mon = m.tup()
        # the positions move on together, as far as the code has come
        top = m.q if m.phase != 'ws' else m.p
        if top[0] == 'lin':
            offs = [k for k in self.offsets(st, top[1]) if k <= top[2]]
            least = max(offs) if offs else top[2]
            if m.r is not None and m.r[0] == 'lin' and m.r[1] == top[1]:
                least = min(least, m.r[2])
            if least > 0:
                self.rebase(st, top[1], least, USZ, least=least)
                m = TM(st.mon)
                top = m.q if m.phase != 'ws' else m.p
        low = ('lin', top[1], 0, USZ)
        for k in [k for k in st.f if any(self.passed(m, low, t) for t in subterms(k))]:
            del st.f[k]
        super().clamp(st)

    def offsets(self, st, i):
        out = set()
        stack = list(st.mem.values())
        while stack:
            x = stack.pop()
            if not isinstance(x, tuple) or not x:
                continue
            if x[0] == 'lin' and x[1] == i:
                out.add(x[2])
            stack.extend(y for y in x if isinstance(y, tuple))
        return out

    def passed(self, m, low, t):
        if not (isinstance(t, tuple) and t[:2] == ('el', self.B)):
            return False
        i = t[2]
        if i == m.p:
            return False
        return i[0] != 'lin' or i[1] != low[1] or i[2] < low[2]

    def advance(self, st, m):
        def cur(i):
            return self.cset(st, self.ch(st, i))
        while True:
            if m.phase == 'ws':
                c = cur(m.p)
                if c is None:
                    return
                if c <= WS:
                    m.p = self.lin(m.p, 1)
                elif c <= NUMBER:
                    self.start(m, 'num')
                elif c <= QUOTE:
                    self.start(m, 'str')
                elif c <= WORD:
                    self.start(m, 'word')
                else:
                    return
                continue
            c = cur(m.q)
            if c is None or m.w is not None:
                return
            if m.phase == 'word':
                if not c & (IDENT | LITEND):
                    return 'a word goes on with a character that is none of it'
                if not c <= IDENT:
                    return
            elif m.phase == 'num':
                if c & LITEND or c & DOT and c != DOT:
                    return
                m.dot = m.dot or c == DOT
            elif c == BACK:
                c = cur(self.lin(m.q, 1))
                if c is not None and not c & chars(''.join(ESCAPES)):
                    return 'no such escape'
                if c is None or not c <= chars(''.join(ESCAPES)):
                    return
                m.q = self.lin(m.q, 1)
            elif c & (BACK | QUOTE):
                return
            m.q = self.lin(m.q, 1)

    def runs(self, st, m, v, rep, ends):
        if not isinstance(v, tuple) or not v:
            return
        if v[0] == 'vec' and v[3] and v[4] is not None and v[4].k == 'char':
            if v in rep or m.phase == 'ws':
                return
            try:
                pos = self.collected(st, m, v)
            except Undecided:
                return
            rep[v] = pos
            if pos is not None:
                ends.add(pos)
            return
        for x in v:
            if isinstance(x, tuple):
                self.runs(st, m, x, rep, ends)

    def sub_runs(self, v, rep, good, rl):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'vec' and v in rep:
            if rep[v] is None:
                return ('vec', ('op', 'bad'), rl, (), v[4])
            return ('vec', good, rl, (), v[4]) if good else v
        out = tuple(self.sub_runs(x, rep, good, rl) if isinstance(x, tuple) else x for x in v)
        return v if all(a is b for a, b in zip(out, v)) else out

    def collapse(self, st, v, cap):
        if v[0] == 'vec' and v[3] and v[4] is not None and v[4].k == 'adt' and v[4].path == self.at_t.path:
            m = TM(st.mon)
            if v[2] == m.ln and m.phase != 'wrong':
                w, m.ln = self.track(st, v, 'toks', m.ln)
                st.mon = m.tup()
                return w
        if v[0] == 't' and v[1] == 'string':
            w = self.collapse(st, v[2], cap)
            return v if w is v[2] else ('t', 'string', w)
        return super().collapse(st, v, cap)

    # ------------------------------------------------------------ the end
    def rest(self, st, m, lst):
        if m.phase == 'wrong':
            return m.n or ('swallowed', 'ends without an error although an error was found in the text')
        p = m.p
        while not self.end(st, p):
            c = self.cset(st, self.ch(st, p))
            if m.phase != 'ws' or c is None or not c <= WS:
                return 'ignored', 'ends without an error although there is more text'
            p = self.lin(p, 1)
        if lst[0] != 'vec' or lst[1] not in (None, ('op', 'toks')) or lst[2] != m.ln:
            if lst[0] == 'vec' and (lst[1] is None or lst[1] == ('op', 'toks')):
                return 'dropped', 'does not pass on the list of all tokens'
            if lst[0] == 'vec' and isinstance(lst[1], tuple) and lst[1][:2] == ('op', 'rearranged'):
                return 'rearranged', 'passes on the tokens in another order'
            raise Undecided('list of tokens %r' % (lst[:2],))
        return None

    def could(self, st, m):
        m = TM(m.tup())
        try:
            k, e = self.token(st, m)
            if k == 'num':
                ty = 'f32' if m.dot else 'i64'
                r = st.f.get(('pred', ('parses', self.NUMSYM, ty)))
                if r is False and m.w is not None and self.same_pos(st, m.w, e):
                    return False
            return True
        except Bad:
            return False
        except Open:
            return True


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            yield from subterms(y)


def run_chain(E, st, fns, args):
    states = [(st, args)]
    for n, f in enumerate(fns):
        E.outcomes = []
        todo = []
        for s, a in states:
            E.push_frame(s, f, a)
            todo.append(s)
        E.visited = {}
        if not E.go(todo):
            # what was reached until then
            return E.outcomes if f is fns[-1] else []
        if n + 1 < len(fns):
            states = [(s, [('ref', s.new_cell(v), ())]) for s, v in E.outcomes]
    return E.outcomes


def parser(ctx, found):
    fns = [ctx.anchor(PNEW), ctx.anchor(PARSE)]
    E = Parse(ctx, found, 'parser', max_steps=400000, max_time=400)
    st = State()
    st.mon = ('stmt', ('int', 0), None, None, ('int', 0), None)
    outs = run_chain(E, st, fns, [E.tokens])
    ctx.done(E, 'parser')
    for s, v in outs:
        try:
            E.finish(s, v)
        except Undecided as u:
            ctx.rep.undecide('parser result', u)
        except Infeasible:
            pass
    ctx.rep.ok('results of the parser', len(outs))
    return E, outs



def tokenizer(ctx, found):
    fns = [ctx.anchor(TNEW), ctx.anchor(TOK)]
    text = mk('input', fns[0].locals[1])
    E = Lex(ctx, found, 'tokenizer', None, max_steps=400000, max_time=400)
    st = State()
    text = st.norm(E.deref(st, text))
    E.B = ('op', 'chars', text)
    E.LEN = ('lin', ('len', E.B), 0, USZ)
    st.mon = ('ws', ('int', 0), None, None, None, None, None, None, ('int', 0))
    outs = run_chain(E, st, fns, [mk('input', fns[0].locals[1])])
    ctx.done(E, 'tokenizer')
    if not E.looked or E.foreign:
        ctx.rep.undecide('tokenizer', 'the characters of the text are not what is looked at')
        return E, outs
    for s, v in outs:
        try:
            E.finish(s, v)
        except Undecided as u:
            ctx.rep.undecide('tokenizer result', u)
        except Infeasible:
            pass
    ctx.rep.ok('results of the tokenizer', len(outs))
    return E, outs


# ---------------------------------------------------------------- checks
RULE = {
    'E02': 'a text (token list) the grammar refuses never reaches Ok; whenever Ok is returned the list of tokens (commands) is complete and in order and no text is left',
    'E03': 'each token and each command pushed is compared with the one the grammar reads at the same place - keyword, name, each operand, each literal element - and an error is returned only if no continuation of what was read is right',
    'A04': 'no path over any token list pushes the internal sweep command',
    'D06': 'each element put into a literal has the type declared for it, and no correctly typed literal is refused',
    'D09': 'the characters collected for a string are compared one by one with the text and its escapes, the numeral that is parsed with the text it stands for; a literal reaches its command unchanged',
}
ASSUME = ['the documented grammar is the one written down at the top of vp/checks/grammar.py', 'library models of Vec, Option, String, HashMap, char classification; str::parse reads numerals correctly']


def make(pid, primary=True):
    def check(ctx):
        from . import recv
        parts = (parser,) if pid in ('A04', 'D06') else (tokenizer, parser)
        rule = ' and '.join(f.__name__ for f in parts) + ' run abstractly over a text / token list of any length, next to a monitor that reads the documented grammar off the same symbolic characters / tokens, to a fixpoint: ' + RULE[pid]
        if primary:
            ctx.rule, ctx.assumptions = rule, list(ASSUME)
        else:
            ctx.rule = getattr(ctx, 'rule', '') + '; ' + rule
            ctx.assumptions = list(getattr(ctx, 'assumptions', [])) + ASSUME
        found = []
        for f in parts:
            f(ctx, found)
        recv.report(ctx, found, (pid,))
    return check


CHECKS = {p: make(p) for p in ('E02', 'E03', 'A04', 'D09')}
EXTRA = {p: make(p, False) for p in ('D06',)}
