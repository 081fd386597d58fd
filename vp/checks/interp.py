"""Whole requests: authorization before anything runs, and one run per command in order.

Interpreter::interpret is analysed with an unknown number of unknown statements over an abstract store (any type
implementing the storage trait), so the findings hold for lists of every length."""
from ..client import *
from .store import INTERP, Layout

STORAGE = 'server::storage::types::Storage'
READERS = frozenset(['Get', 'Exists', 'GetIfExists', 'GetLifetime', 'ValueType', 'VectorGet', 'VectorLength', 'MapGet', 'MapExists', 'MapLength', 'Null'])
ADMIN_ONLY = frozenset(['Shutdown'])
INTERNAL = frozenset(['ExpireKeys'])


class Types:
    def __init__(self, ctx):
        p = ctx.prog
        self.root = ctx.anchor(INTERP)
        self.I = self.root.locals[1].to
        self.req = p.adt_type('interpreter::InterpreterRequest')
        self.stmt = p.adt_type('statements::Statement')
        self.auth = p.adt_type('auth::AuthorizationLevel')
        self.err = p.adt_type('error::ServerError')
        self.resp = p.adt_type('interpreter::InterpreterResponse')
        for n in ('req', 'stmt', 'auth', 'err', 'resp'):
            if getattr(self, n) is None:
                raise MissingAnchor('type ' + n)
        self.names = [v[0] for v in self.stmt.variants]
        self.lv = {v[0]: n for n, v in enumerate(self.auth.variants)}
        for n in ('Read', 'Write', 'Admin'):
            if n not in self.lv:
                raise MissingAnchor('authorization level ' + n)
        self.methods = {}
        for (tr, ty), ims in p.impls.items():
            if tr == STORAGE:
                for _, ms, _ in ims:
                    for m, uid in ms.items():
                        f = p.fns.get(uid)
                        if f is not None and f.argc:
                            self.methods[m] = f.locals[1].k == 'ref' and f.locals[1].mut
        if not self.methods:
            raise MissingAnchor(STORAGE)

    def vset(self, names):
        return frozenset(n for n, x in enumerate(self.names) if x in names)


class RequestEngine(Checked):
    """statements come from one unknown list; the element at the witness position w is restricted"""

    def __init__(self, ctx, T, **kw):
        super().__init__(ctx, **kw)
        self.T = T
        self.fact_window = (-1, 2)
        self.join_mode = True
        self.diff_keep = 2
        self.at_w = None          # variants of the element at w
        self.elsewhere = None     # variants of all others
        self.vec_cap = 0
        for m in T.methods:
            self.thooks[(STORAGE, m)] = self.storage_call

    def base_elem(self, st, base, idx, t):
        if base == 'Q':
            if self.at_w is not None:
                if self.eq(st, idx, ('lin', 'w', 0, 'usize')):
                    v = mk(('el', 'Q', ('lin', 'w', 0, 'usize')), t)
                    st.assume_variants(v[1], self.at_w)
                    return v
            v = mk(('el', 'Q', idx), t)
            if self.elsewhere is not None:
                st.assume_variants(v[1], self.elsewhere)
            return v
        return super().base_elem(st, base, idx, t)

    def on_shift(self, st, v):
        # which element of the list comes next is not followed through removals
        if 'Q' in repr(v[1]) and 'shifted list' not in st.taint:
            st.taint = st.taint + ('shifted list',)

    def initial(self, level, stmts=None):
        T = self.T
        st = State()
        st.mem['I'] = mk('I', T.I)
        vt = next(f[1] for f in T.req.variants[0][2] if f[1].k == 'adt' and f[1].path == 'std::vec::Vec')
        if stmts is None:
            n = ('lin', ('len', 'Q'), 0, 'usize')
            stmts = ('vec', 'Q', n, (), vt.args[0])
            st.env = (n,)
            if self.at_w is not None:
                w = ('lin', 'w', 0, 'usize')
                st._zadd_var('w', 'usize')
                st.assume_le(w, n, -1)
                st.env = (n, w)
        fs = []
        for f in T.req.variants[0][2]:
            if f[1] is vt:
                fs.append(stmts)
            elif f[1] is T.auth:
                fs.append(('adt', T.auth.path, T.lv[level], ()))
            else:
                fs.append(mk(('req', f[0]), f[1]))
        self.push_frame(st, T.root, [('ref', 'I', ()), ('adt', T.req.path, 0, tuple(fs))])
        return st

    def storage_call(self, E, st, args, call):
        return self.storage_event(st, call.rec['method'], args, call)

    def shape(self, st, v):
        """(Ok|Err, variant name) of a reply; None where unknown"""
        v = st.norm(self.deref(st, v))
        if v[0] == 'sym' and v[2].is_enum():
            vs = st.variants(v[1], v[2])
            if len(vs) > 1:
                i = v[1]
                raise Split([(lambda s, x=x: s.assume_variants(i, frozenset([x]))) for x in sorted(vs)])
            v = self.expand(st, v, min(vs))
        if v[0] != 'adt':
            return None, None, v
        x = st.norm(self.deref(st, v[3][0])) if v[3] else None
        name = None
        if x is not None and x[0] == 'adt':
            t = self.prog.adt_type(x[1])
            name = t.variants[x[2]][0] if t is not None and t.is_enum() else x[1]
        elif x is not None and x[0] == 'sym' and x[2].is_enum():
            vs = st.variants(x[1], x[2])
            if len(vs) > 1:
                i = x[1]
                raise Split([(lambda s, y=y: s.assume_variants(i, frozenset([y]))) for y in sorted(vs)])
            name = x[2].variants[min(vs)][0]
        return ('Ok', 'Err')[v[2]], name, x


def refined(E, st, ret, f):
    """f on every refinement of a final state"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 2000:
            raise Undecided('too many final refinements')
        try:
            f(s, ret)
        except Split as sp:
            for alt in sp.alts:
                s2 = s.copy()
                try:
                    alt(s2)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            continue


class Authorization(RequestEngine):
    def storage_event(self, st, m, args, call):
        if self.at_w is not None:
            self.hit(st, 'runs:%s' % self.level, '%s: storage operation %s runs although the request holds a command the caller may not run' % (self.what, m))
            raise Stop()
        return mk(('op', 'st', m) + (st.fresh_id(),), call.dty)

    def hit(self, st, key, msg):
        self.finding(st, key, msg)


def a01(ctx):
    ctx.rule = ('Interpreter::interpret over an unknown list of statements: with a forbidden statement at an unknown position w, every path ends in an '
                'authorization error with no storage operation on the way; with allowed statements only, no path ends in one')
    ctx.assumptions = ['library models of Vec, slices and iterators']
    T = Types(ctx)
    every = frozenset(T.names)
    rep = ctx.rep
    for level, allowed in (('Read', READERS), ('Write', every - ADMIN_ONLY), ('Admin', every)):
        deny = every - allowed - INTERNAL
        for name in sorted(deny):
            E = Authorization(ctx, T, max_steps=60000, max_time=200)
            E.level = level
            E.at_w = T.vset([name])
            E.what = '%s caller, %s at any position' % (level, name)
            E.go([E.initial(level)])
            ctx.done(E, E.what)
            rep.ok('forbidden command/level pairs, at any position of any list')

            def check(s, ret):
                k, n, _ = E.shape(s, ret)
                if k != 'Err' or n != 'AuthorizationError':
                    E.finding(s, 'reply:%s:%s' % (level, name), '%s: answered with %s(%s)' % (E.what, k, n))
                else:
                    rep.ok('refusals')
            for s, v in E.outcomes:
                refined(E, s, v, check)
            if not E.outcomes and not E.undecided and not E.rep.findings:
                rep.undecide(E.what, 'no path returns')
        E = Authorization(ctx, T, max_steps=60000, max_time=200)
        E.level = level
        E.elsewhere = T.vset(allowed if level == 'Admin' else allowed - INTERNAL)
        E.what = '%s caller, allowed commands only' % level
        E.go([E.initial(level)])
        ctx.done(E, E.what)

        def check2(s, ret):
            k, n, x = E.shape(s, ret)
            if k == 'Err' and n == 'AuthorizationError' and x[0] == 'adt':
                E.finding(s, 'denied:%s' % level, '%s: refused' % E.what)
        for s, v in E.outcomes:
            refined(E, s, v, check2)
        rep.ok('levels whose allowed lists are never refused')
        ctx.samples.append({'case': E.what, 'results': [str(v)[:120] for _, v in E.outcomes[:4]]})


# ---------------------------------------------------------------- E01
class Order(RequestEngine):
    """monitor: (index of the statement last seen at the store, its variant, its calls so far)"""
    def __init__(self, ctx, T, sigs, **kw):
        super().__init__(ctx, T, **kw)
        self.sigs = sigs
        self.single = False
        self.silent = frozenset()

    def part_extra(self, st):
        return st.mon[1:] if st.mon else None

    def mentions(self, st, v, d=6):
        out = []
        seen = set()

        def walk(x, d):
            if not isinstance(x, tuple) or not x or d < 0:
                return
            if x[0] == 'ref':
                if (x[1], x[2]) in seen:
                    return
                seen.add((x[1], x[2]))
                try:
                    walk(self.read(st, x[1], x[2]), d)
                except Undecided:
                    pass
                return
            if x[0] == 'el' and x[1] == 'Q':
                if x[2] not in out:
                    out.append(x[2])
                return
            if x[0] in ('sym', 'p') and isinstance(x[1], tuple):
                c = st.f.get(('const', x[1]))
                if c is not None:
                    walk(c, d)
            for y in x:
                if isinstance(y, tuple):
                    walk(y, d)
        walk(v, d)
        return out

    def variant(self, st, idx):
        vs = st.f.get(('var', ('el', 'Q', idx)))
        return min(vs) if vs is not None and len(vs) == 1 else None

    def storage_event(self, st, m, args, call):
        ms = []
        for a in args[1:]:
            for i in self.mentions(st, a):
                if not any(st.int_eq(i, j) is True for j in ms):
                    ms.append(i)
        cur = st.mon
        if len(ms) > 1:
            self.finding(st, 'mixed', '%s: operation %s works on operands of two different commands' % (self.what, m))
            raise Stop()
        if ms:
            j = ms[0]
        elif self.quiet_w is not None:
            j = ('lin', 'w', 0, 'usize')
        elif cur:
            j = cur[0]
        else:
            j = ('int', 0)
        if cur and self.eq(st, j, cur[0]):
            calls = cur[2]
            k = len(calls)
            var = cur[1] if cur[1] is not None else self.variant(st, j)
            if k > 4:
                self.finding(st, 'repeat', '%s: one command works on the store over and over' % self.what)
                raise Stop()
            j = cur[0]
        else:
            self.advance(st, j)
            calls, k = (), 0
            var = self.variant(st, j)
        st.mon = (j, var, calls + (m,))
        return mk(('op', 'st', m, j, k), call.dty)

    def advance(self, st, j):
        """statement j starts"""
        cur = st.mon
        prev = cur[0] if cur else ('int', -1)
        if not self.eq(st, j, self.int_add(st, prev, ('int', 1))):
            # only a command without store operations may lie between
            w = ('lin', 'w', 0, 'usize')
            skip = self.skip_ok and self.may(st, w, self.int_add(st, prev, ('int', 1))) and self.may(st, j, self.int_add(st, w, ('int', 1)))
            if not skip:
                self.finding(st, 'order', '%s: commands do not run one after the other in the order written' % self.what)
                raise Stop()
        if cur:
            self.finished_ok(st, 'continues after a command that did not succeed or did not run to its end')
        if self.stop_w and self.after(st, j):
            self.finding(st, 'after-stop', '%s: a command runs after the shutdown command' % self.what)
            raise Stop()

    def may(self, st, a, b):
        """a == b, assumed where merging has lost the relation"""
        r = st.int_eq(a, b)
        if r is None:
            raise Split([lambda s: (s.assume_le(a, b), s.assume_le(b, a))])
        return r

    def after(self, st, j):
        w = ('lin', 'w', 0, 'usize')
        r = st.lt(w, j)
        if r is None:
            raise Split([lambda s: s.assume_le(w, j, -1), lambda s: s.assume_le(j, w)])
        return r

    def outcomes_of(self, st, cur):
        """results the single-command analysis found for these operations"""
        res = []
        for (var, calls, oks), reps in self.sigs.items():
            if calls == cur[2] and (cur[1] is None or var == cur[1]) and all(self.consistent(st, cur[0], o) for o in oks):
                res.extend(reps)
        return res

    def consistent(self, st, j, o):
        """does this state agree with the store results that led a single command to its reply"""
        m, k, path, vs = o
        i = ('op', 'st', m, j, k)
        for p in path:
            i = p[:1] + (i,) + p[1:]
        have = st.f.get(('var', i))
        return have is None or bool(have & vs)

    def finished_ok(self, st, msg):
        cur = st.mon
        if not any(k == 'Ok' for k, _ in self.outcomes_of(st, cur)):
            self.finding(st, 'continue', '%s: %s' % (self.what, msg))
            raise Stop()

    skip_ok = False
    stop_w = False
    quiet_w = None


def strip_el(i, j):
    """('op','st',m,j,k) facts of a state -> (method, call number, path)"""
    path = []
    while isinstance(i, tuple) and i and i[0] in ('@', '.', 'b', '*'):
        path.append((i[0],) + tuple(i[2:]))
        i = i[1]
    if isinstance(i, tuple) and i[:2] == ('op', 'st') and i[3] == j:
        return i[2], i[4], tuple(reversed(path))
    return None


def e01(ctx):
    ctx.rule = ('monitor over the storage operations of an unknown list of statements: the operations of consecutive commands come in the order written, each '
                'once and complete (as the analysis of the command alone shows them), nothing runs after a failure or shutdown, the reply is the last command\'s')
    ctx.assumptions = ['library models of Vec and iterators', 'storage operations are told apart by their operands']
    T = Types(ctx)
    rep = ctx.rep
    zero = ('int', 0)
    sigs = {}
    silent = {}
    # --- each command alone
    for sv, name in enumerate(T.names):
        E = Order(ctx, T, {}, max_steps=30000, max_time=100)
        E.what = name + ' alone'
        E.keep = True
        E.elsewhere = frozenset([sv])
        n1 = ('vec', 'Q', ('int', 1), (), T.stmt)
        E.go([E.initial('Admin', n1)])
        ctx.done(E, E.what)

        def single(s, ret):
            k, n, x = E.shape(s, ret)
            calls = s.mon[2] if s.mon else ()
            oks = []
            for key, val in s.f.items():
                if key[0] == 'var':
                    o = strip_el(key[1], zero)
                    if o is not None:
                        oks.append(o + (val,))
            sig = (sv, calls, tuple(sorted(oks, key=repr)))
            sigs.setdefault(sig, set()).add((k, n))
            if not calls:
                silent.setdefault(sv, set()).add((k, n))
        for s, v in E.outcomes:
            refined(E, s, v, single)
        rep.ok('commands analysed alone')
    quiet = {sv: r for sv, r in silent.items() if any(k == 'Ok' for k, _ in r)}
    stop = frozenset(sv for sv, r in quiet.items() if ('Ok', 'ShuttingDown') in r)
    if not stop:
        raise MissingAnchor('a command that replies ShuttingDown')
    # commands whose store operations name no operand
    unnamed = frozenset(sv for sv, name in enumerate(T.names) if not T.stmt.variants[sv][2]) - frozenset(quiet)
    general = frozenset(range(len(T.names))) - frozenset(quiet) - unnamed
    # --- the empty list
    E = Order(ctx, T, sigs, max_steps=30000, max_time=100)
    E.what = 'empty request'
    E.go([E.initial('Admin', ('vec', 'Q', zero, (), T.stmt))])
    ctx.done(E, E.what)
    for s, v in E.outcomes:
        def empty(s, ret):
            k, n, x = E.shape(s, ret)
            if (k, n) != ('Ok', 'Null') or s.mon:
                E.finding(s, 'empty', 'an empty request is answered with %s(%s)' % (k, n))
        refined(E, s, v, empty)
    # --- lists
    n = ('lin', ('len', 'Q'), 0, 'usize')
    w = ('lin', 'w', 0, 'usize')
    runs = [('commands on entries', None)] + [('%s at any position' % T.names[sv], sv) for sv in sorted(list(quiet) + list(unnamed))]
    for what, sv in runs:
        E = Order(ctx, T, sigs, max_steps=200000, max_time=300)
        E.what = 'list of ' + what
        E.elsewhere = general
        if sv is not None:
            E.at_w = frozenset([sv])
            E.skip_ok = sv in quiet
            E.stop_w = sv in stop
            E.quiet_w = sv if sv in unnamed else None
        st = E.initial('Admin')
        st.assume_le(('int', 1), n)
        E.go([st])
        ctx.done(E, E.what)
        rep.ok('list shapes analysed')

        def final(s, ret):
            k, nm, x = E.shape(s, ret)
            cur = s.mon
            prev = cur[0] if cur else ('int', -1)
            nxt = E.int_add(s, prev, ('int', 1))
            ment = E.mentions(s, ret)
            rep.ok('final states of lists')
            at_w = sv is not None and sv in quiet and s.int_eq(nxt, w) is not False and (k, nm) in quiet[sv]
            if at_w:
                s.assume_le(nxt, w)
                s.assume_le(w, nxt)
            if k == 'Err':
                own = cur and any(r == ('Err', nm) for r in E.outcomes_of(s, cur))
                # a command that fails before it touches the store
                early = any(r == ('Err', nm) for rs in silent.values() for r in rs) and (not cur or any(a == 'Ok' for a, _ in E.outcomes_of(s, cur)))
                if not own and not early:
                    E.finding(s, 'error', '%s: fails with %s although the last command that ran did not' % (E.what, nm))
                if own and not early:
                    stale(s, ment, prev)
                return
            if nm == 'ShuttingDown' and not (at_w and sv in stop):
                E.finding(s, 'stop', '%s: reports shutdown without having reached the shutdown command' % E.what)
                return
            if at_w:
                # the reply of the command without store operations
                if cur and not any(a == 'Ok' for a, _ in E.outcomes_of(s, cur)):
                    E.finding(s, 'swallowed', '%s: succeeds although a command failed' % E.what)
                if (k, nm) not in quiet[sv]:
                    E.finding(s, 'reply', '%s: the reply %s is not that of the last command' % (E.what, nm))
                if sv not in stop and s.int_eq(E.int_add(s, w, ('int', 1)), n) is False:
                    E.finding(s, 'incomplete', '%s: succeeds without having run every command' % E.what)
                return
            if not cur:
                E.finding(s, 'incomplete', '%s: succeeds without having run every command' % E.what)
                return
            if not E.eq(s, nxt, n):
                E.finding(s, 'incomplete', '%s: succeeds without having run every command' % E.what)
                return
            if ('Ok', nm) not in E.outcomes_of(s, cur):
                E.finding(s, 'reply', '%s: the reply %s is not that of the last command' % (E.what, nm))
                return
            stale(s, ment, prev)

        def stale(s, ment, last):
            for i in ment:
                if s.int_eq(i, last) is not True:
                    E.finding(s, 'reply', '%s: the reply comes from another command than the last' % E.what)

        for s, v in E.outcomes:
            refined(E, s, v, final)
        if not E.outcomes and not E.undecided and not E.rep.findings:
            rep.undecide(E.what, 'no path returns')
        ctx.samples.append({'case': E.what, 'results': [str(v)[:120] for _, v in E.outcomes[:4]]})
    ctx.samples.append({'single-command results': [str((T.names[k[0]], k[1], sorted(map(str, v)))) for k, v in list(sigs.items())[:20]]})


CHECKS = {'A01': a01, 'E01': e01}
