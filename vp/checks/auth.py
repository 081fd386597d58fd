"""The built-in authenticator: every user name mapped to its documented outcome."""
from ..client import *

TRAIT = 'server::auth::AuthenticationService'
HEADER = 'Username'
DOC = {'admin': 'Admin', 'write': 'Write', 'read': 'Read'}
REJECTED = 'unauthenticated'


def a03(ctx):
    ctx.rule = ('authenticate() of the built-in authenticator, over header maps of any content, split by the user name header: absent, each documented name, '
                'any other text; every result must be the documented one, with the name as given')
    ctx.assumptions = ['the user name travels in the header "Username", as the code and its clients have it', 'library models of HashMap and string comparison']
    rep = ctx.rep
    p = ctx.prog
    fns = ctx.method(TRAIT, 'authenticate', 'MockAuthenticator')
    if len(fns) != 1:
        raise MissingAnchor('MockAuthenticator::authenticate')
    f = fns[0]
    lv = p.adt_type('auth::AuthorizationLevel')
    er = p.adt_type('error::ServerError')
    res = p.adt_type('auth::AuthenticationResult')
    st_t = p.adt_type('std::string::String') or p.types.get('std::string::String')
    mt = f.locals[2].to if f.locals[2].k == 'ref' else f.locals[2]
    if None in (lv, er, res) or mt.k != 'adt' or len(mt.args) < 2:
        raise MissingAnchor('authentication types')
    U = mk('U', mt.args[1])
    cases = [('no user name header', None), ('user name "%s"' % REJECTED, REJECTED)]
    cases += [('user name "%s"' % n, n) for n in DOC] + [('any other user name', Ellipsis)]
    named = [('str', n) for n in list(DOC) + [REJECTED]]
    for what, name in cases:
        E = Checked(ctx, max_steps=60000, max_time=120)
        E.what = what
        E.unroll = 24
        st = State()
        st.mem['self'] = mk('S', f.locals[1].to if f.locals[1].k == 'ref' else f.locals[1])
        v = ABSENT if name is None else U if name is Ellipsis else ('str', name)
        if name is Ellipsis:
            st.f[('ne', 'U')] = frozenset(named)
        st.mem['H'] = ('map', 'H', ('lin', ('len', 'H'), 0, 'usize'), ((('str', HEADER), v),), mt.args[0], mt.args[1])
        E.push_frame(st, f, [('ref', 'self', ()) if f.locals[1].k == 'ref' else mk('S', f.locals[1]), ('ref', 'H', ())])
        E.go([st])
        ctx.done(E, what)
        for (kind, uid), (w, tr, taint, fr) in sorted(E.panics.items()):
            if taint:
                rep.undecide(what + ': possible panic', 'rests on %s' % (taint,))
            else:
                rep.violation('panic:%s' % what, '%s: authentication panics' % what, w, tr)
        if not E.outcomes and not E.undecided and not rep.findings and not rep.undecided:
            rep.undecide(what, 'no path returns')

        def describe(s, r):
            """('err', kind) | ('no',) | ('yes', name value, level or None)"""
            var, x = pick(E, s, r)
            if var == 'Err':
                return 'err', pick(E, s, x)[0]
            var, pl = pick(E, s, x, all_fields=True)
            if var == 'Unauthenticated':
                return ('no',)
            if var != 'Authenticated':
                return ('?',)
            who = lvl = None
            o = None
            for y in pl:
                y = s.norm(E.deref(s, y))
                if y[0] == 'adt' and y[1].endswith('Option') or y[0] == 'sym' and y[2].k == 'adt' and y[2].path.endswith('Option'):
                    o = y
                else:
                    who = y
            var, x = pick(E, s, o)
            if var == 'Some':
                lvl = pick(E, s, x)[0]
            return 'yes', who, lvl

        def final(s, r):
            d = describe(s, r)
            rep.ok('results compared with the documented outcome')
            if name is None:
                good = d == ('err', 'InternalError')
            elif name == REJECTED:
                good = d == ('no',)
            elif name is Ellipsis:
                good = d[0] == 'yes' and d[2] is None and s.norm(d[1]) == s.norm(U)
            else:
                good = d[0] == 'yes' and d[2] == DOC[name] and d[1] == ('str', name)
            if not good:
                E.finding(s, 'outcome:%s' % what, '%s is answered with %s' % (what, short(d)))
        for s, v in E.outcomes:
            refine(E, s, v, final)
        ctx.samples.append({'case': what, 'results': [str(v)[:160] for _, v in E.outcomes[:4]]})
        rep.ok('kinds of user name')


def short(d):
    return ' '.join(x if isinstance(x, str) else str(x)[:80] for x in d)


def pick(E, st, v, all_fields=False):
    """(variant name, payload) of an enum value, splitting where it is open"""
    v = st.norm(E.deref(st, v))
    if v[0] == 'sym' and v[2].is_enum():
        vs = st.variants(v[1], v[2])
        if len(vs) > 1:
            i = v[1]
            raise Split([(lambda s, x=x: s.assume_variants(i, frozenset([x]))) for x in sorted(vs)])
        t = v[2]
        v = E.expand(st, v, min(vs))
    else:
        t = None
    if v[0] != 'adt':
        raise Undecided('variant of %r' % (v[:2],))
    t = t or E.prog.adt_type(v[1])
    if t is not None and t.is_enum():
        n = t.variants[v[2]][0]
    else:
        n = {'std::option::Option': ('None', 'Some'), 'std::result::Result': ('Ok', 'Err')}.get(v[1], {}) 
        n = n[v[2]] if n else v[1]
    return n, (v[3] if all_fields else v[3][0] if v[3] else None)


def refine(E, st, ret, f):
    """f on every refinement of a final state; what cannot be told is undecided"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 2000:
            E.rep.undecide(E.what, 'too many final refinements')
            return
        try:
            f(s, ret)
        except Split as sp:
            for alt in sp.alts:
                s2 = s.copy()
                try:
                    alt(s2)
                except Infeasible:
                    continue
                work.append(s2)
        except Infeasible:
            continue
        except Undecided as u:
            E.rep.undecide(E.what, u)


CHECKS = {'A03': a03}
