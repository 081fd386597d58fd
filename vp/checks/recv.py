"""The network front-ends: reading a request (N01; parts of A02, R01, R03)."""
from ..client import *
from ..engine import Outs
from .auth import pick, refine
from .net import go_async

HANDLER = 'server::io::stream::StreamHandler'
CL = 'content-length'
ABSURD = 1 << 20          # an announced length from here on may be refused as absurd


def receivers(ctx):
    fs = ctx.method(HANDLER, 'receive_request', 'TcpStreamHandler')
    if not fs:
        raise MissingAnchor('TcpStreamHandler::receive_request')
    return [('blocking receiver', f) for f in fs] + [('async receiver', ctx.anchor('server::io::tcp_async::TcpStreamHandler::receive_request'))]


def has(t, x):
    """x occurs in the term t"""
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(y, x) for y in t)


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            yield from subterms(y)


class M:
    """the monitor: what a correct receiver may do next"""
    FIELDS = ('acc', 'dead', 'phase', 'all', 'pend', 'k', 'size', 'h', 'nh', 'ins', 'L', 'end', 'bad', 'cur')
    __slots__ = FIELDS

    def __init__(self, t):
        for n, x in zip(self.FIELDS, t):
            setattr(self, n, x)

    def tup(self):
        return tuple(getattr(self, n) for n in self.FIELDS)


START = (None, None, 'none', None, None, None, None, None, None, False, None, None, None, False)


class Recv(Checked):
    def __init__(self, ctx, found, **kw):
        super().__init__(ctx, **kw)
        self.found = found
        self.join_mode = True
        self.u8 = self.prog.types['u8']
        self.us = self.prog.types['usize']
        self.req_t = self.adt('httparse::Request')
        self.hdr_t = self.adt('httparse::Header')
        self.hooks['httparse::Request::new'] = self.request_new

    def adt(self, path):
        for t in self.prog.types.values():
            if t.k == 'adt' and t.path == path:
                return t
        raise MissingAnchor(path)

    def say(self, st, cls, key, msg):
        self.found.append((cls, key, '%s: %s' % (self.what, msg), self.where(st) if st.frames else self.what, st.trace_list(), st.taint, self.what))

    def part_extra(self, st):
        m = M(st.mon)
        return (m.acc, m.dead, m.phase, m.all is None, m.pend is None, m.h is None, m.ins, m.L is None, m.bad, m.cur)

    # ------------------------------------------------------------ the socket
    def event(self, st, name, args, call):
        m = M(st.mon)
        if name == 'accept':
            if m.acc == 'ok':
                raise Undecided('a second connection is accepted')
            s1 = st.copy()
            m.acc = 'ok'
            s1.mon = m.tup()
            m.acc = 'err'
            st.mon = m.tup()
            st.note('accept fails')
            sock = self.prog.types.get('std::net::TcpStream') if 'std' in call.path else None
            t = call.dty
            while t.path in ('std::task::Poll',):
                t = t.args[0]
            tt = t.args[0]
            return Outs([(s1, ok(mk('SOCK', tt))), (st, err(('t', 'io_error')))])
        if name in ('io_read', 'io_read_buf'):
            return self.read_(st, m, name, args, call)
        if name == 'http_parse':
            return self.parse_(st, m, args, call)
        if name in ('sock_opt', 'sock_shutdown', 'sleep'):
            return None
        if name.startswith('io_') or name == 'timeout':
            raise Undecided(name)

    def read_(self, st, m, name, args, call):
        st.note(name)
        if m.dead:
            self.say(st, 'N01', 'after-end', 'goes on reading after the connection %s' % ('ended' if m.dead == 'eof' else 'failed'))
            raise Infeasible()
        if m.phase == 'bad':
            self.say(st, 'N01', 'bad-head', 'keeps waiting for more of a request whose head cannot be parsed')
            raise Infeasible()
        if m.phase == 'head':
            if m.h is None:
                self.say(st, 'N01', 'no-length', 'keeps waiting for a body although no length was announced')
                raise Infeasible()
            L = self.announced(st, m)
            if L is None:
                if m.bad:
                    self.say(st, 'N01', 'bad-length', 'keeps waiting although the announced length cannot be read')
                    raise Infeasible()
                raise Undecided('more is read before the announced length is known')
            if not self.incomplete(st, m, L):
                self.say(st, 'N01', 'waits', 'waits for more data although the whole request may have arrived')
                raise Infeasible()
        if m.pend is not None:
            raise Undecided('data that was read is not added to the rest')
        base = ('op', 'chunk', st.fresh_id())
        n = st.fresh(self.us)
        cell, p = self.loc(st, args[1])
        v = self.read(st, cell, p)
        if v[0] == 'ref':
            cell, p = v[1], v[2]
            v = self.read(st, cell, p)
        v = st.norm(v)
        s0, s2 = st.copy(), st.copy()
        if name == 'io_read':
            w = self.vec_of(st, v)
            if v[0] == 'obj' or w is None:
                raise Undecided('read into a part of a buffer')
            self.write(st, cell, p, ('vec', base, w[2], (), self.u8))
            st.assume_le(('int', 1), n)
            st.assume_le(n, w[2])
            m2 = M(st.mon)
            m2.pend = (('vec', base, w[2], (), self.u8), n)
        else:
            if v[0] != 'vec' or not (m.all is None and v[2] == ('int', 0) or v == st.norm(m.all)):
                raise Undecided('read into another buffer')
            st.assume_le(('int', 1), n)
            m2 = M(st.mon)
            new = self.grow(st, v, n)
            self.write(st, cell, p, new)
            m2.all = new
        if m2.phase != 'head':
            m2.phase, m2.k, m2.size, m2.h, m2.nh, m2.L, m2.end, m2.bad = ('none',) + (None,) * 7
        st.mon = m2.tup()
        m0 = M(s0.mon)
        m0.dead = 'eof'
        s0.mon = m0.tup()
        s0.note('connection closed')
        m0 = M(s2.mon)
        m0.dead = 'err'
        s2.mon = m0.tup()
        s2.note('read fails')
        return Outs([(st, ok(n)), (s0, ok(('int', 0))), (s2, err(('t', 'io_error')))])

    def grow(self, st, v, n):
        b = ('op', 'recv', st.fresh_id())
        ln = ('lin', ('len', b), 0, 'usize')
        st.assume_le(v[2], ln, -1)
        st.assume_le(n, ln)
        return ('vec', b, ln, (), self.u8)

    def on_concat(self, st, v, w):
        """the buffer grows by what was just read"""
        m = M(st.mon)
        if m.pend is None or v[4] is None or v[4].s != 'u8':
            return None
        chunk, n = m.pend
        if not (w[1] == chunk[1] and self.same(st, n, w[2]) or isinstance(w[1], tuple) and w[1][:2] == ('op', 'sub') and w[1][2][:2] == chunk[:2] and w[1][3] == ('int', 0)
                and self.same(st, w[1][4], n)):
            if w[1] == chunk[1]:
                self.say(st, 'N01', 'padding', 'adds more to what was received than was read')
                raise Infeasible()
            return None
        if not (m.all is None and v[2] == ('int', 0) or m.all is not None and v == st.norm(m.all)):
            return None
        if m.all is None:
            # the first piece
            b = ('op', 'recv', st.fresh_id())
            new = ('vec', b, n, (), self.u8)
        else:
            new = self.grow(st, v, n)
        m.all, m.pend = new, None
        st.mon = m.tup()
        return new

    def same(self, st, a, b):
        return a == b or st.bound(a, b) == 0 and st.bound(b, a) == 0

    # ------------------------------------------------------------ the head
    def request_new(self, E, st, a, c):
        fs = []
        for n, t in self.req_t.variants[0][2]:
            fs.append(a[0] if n == 'headers' else NONE)
        return ('adt', 'httparse::Request', 0, tuple(fs))

    def parse_(self, st, m, args, call):
        st.note('parse')
        b = self.deref(st, args[1])
        if b[0] == 'obj' and b[1] == 'slice':
            b = self.M.slice_to_vec(self, st, b)
        b = self.vec_of(st, b)
        if m.all is None or b is None or st.norm(b) != st.norm(m.all):
            if b is not None and m.pend is not None and has(b, m.pend[0][1]) and m.all is not None:
                self.say(st, 'N01', 'segments', 'parses only the piece that was read last')
                raise Infeasible()
            if b is not None and m.all is not None and isinstance(b[1], tuple) and b[1][:2] == ('op', 'sub') and b[1][2][:2] == m.all[:2]:
                self.say(st, 'N01', 'partial', 'parses only a part of what was received')
                raise Infeasible()
            if not (m.all is None and m.pend is not None and b is not None and has(b, m.pend[0][1])):
                raise Undecided('what is parsed is not what was received')
            m.all, m.pend = b, None
        elif m.pend is not None:
            raise Undecided('parses without what was read last')
        m.ins = False
        cell, p = self.loc(st, args[0])
        req = self.read(st, cell, p)
        if req[0] != 'adt':
            raise Undecided('parse into %r' % (req[:2],))
        res = call.dty
        status = self.adt('httparse::Status')
        outs = []

        def alt(note, phase, val, k=None, h=False):
            s = st.copy()
            x = M(m.tup())
            x.phase = phase
            x.k = x.size = x.h = x.nh = x.L = x.end = x.bad = None
            s.note(note)
            if phase == 'head':
                k = s.fresh_id()
                x.k = k
                x.size = s.fresh(self.us)
                s.assume_le(('int', 1), x.size)
                s.assume_le(x.size, x.all[2])
                base = ('op', 'hdrs', k)
                x.nh = ('lin', ('len', base), 0, 'usize')
                s.assume_le(('int', 0), x.nh)
                if h:
                    x.h = ('lin', ('op', 'clpos', k), 0, 'usize')
                    s.assume_le(('int', 0), x.h)
                    s.assume_le(x.h, x.nh, -1)
                c = s.new_cell(('vec', base, x.nh, (), self.hdr_t))
                fs = []
                for (n, t), old in zip(self.req_t.variants[0][2], req[3]):
                    if n == 'method':
                        fs.append(some(('sym', ('op', 'method', k), t.args[0].to)))
                    elif n == 'headers':
                        fs.append(('ref', c, ()))
                    elif n == 'path':
                        fs.append(some(('sym', ('op', 'path', k), t.args[0].to)))
                    else:
                        fs.append(mk(('op', 'hfield', k, n), t))
                self.write(s, cell, p, req[:3] + (tuple(fs),))
                val = ok(('adt', 'httparse::Status', 0, (x.size,)))
            s.mon = x.tup()
            outs.append((s, val))
        alt('head: malformed', 'bad', err(('t', 'parse_error')))
        alt('head: incomplete', 'partial', ok(('adt', 'httparse::Status', 1, ())))
        alt('head: complete, no content length', 'head', None)
        alt('head: complete, content length', 'head', None, h=True)
        return Outs(outs)

    def base_elem(self, st, base, idx, t):
        m = M(st.mon)
        if isinstance(base, tuple) and base[:2] == ('op', 'hdrs'):
            w = m.h is not None and base[2] == m.k and self.eq(st, idx, m.h)
            if w:
                idx = m.h
            m.cur = w
            st.mon = m.tup()
            out = []
            for n, ft in t.variants[0][2]:
                i = ('op', 'hname' if n == 'name' else 'hval', base[2], idx, w)
                out.append(mk(i, ft))
            return ('adt', t.path, 0, tuple(out))
        return super().base_elem(st, base, idx, t)

    def name_of(self, v):
        """(header name symbol) -> is it the content-length header"""
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][:2] == ('op', 'hname'):
            return v[1][4]
        return None

    def sym_excludes(self, st, a, b):
        w = self.name_of(a)
        if w is not None and b[0] == 'str':
            return (b[1].lower() == CL) != w
        return super().sym_excludes(st, a, b)

    def eq(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if y[0] == 'str' and x[0] == 't' and x[1] in ('to_lowercase', 'to_ascii_lowercase', 'to_uppercase', 'to_ascii_uppercase') and len(x) == 3:
                w = self.name_of(st.norm(x[2]))
                if w is not None:
                    want = CL if 'lower' in x[1] else CL.upper()
                    if y[1] == want:
                        return w
                    if w or y[1].lower() == CL:
                        return False
        return super().eq(st, a, b)

    def client_atom(self, st, a):
        if a[0] == 'eqi':
            w = self.name_of(st.norm(a[1]))
            if w is not None and a[2][0] == 'str':
                if a[2][1] == CL:
                    return w
                if w:
                    return False
        if a[0] == 'utf8':
            pass
        return super().client_atom(st, a)

    # ------------------------------------------------------------ what is known
    def preds(self, st):
        for k, v in st.f.items():
            if isinstance(k, tuple) and k[0] == 'pred':
                yield k[1], v

    def of_length(self, term, m):
        """the term is about the value of the content-length header"""
        return any(isinstance(x, tuple) and x[:3] == ('op', 'hval', m.k) and x[4] is True for x in subterms(term))

    def announced(self, st, m):
        """the length the head announces, once it was read from the header"""
        return m.L

    def narrowed(self, st, i, vs):
        """the kind of a decoded value is settled: a reason to refuse the request?"""
        if not (isinstance(i, tuple) and i[:2] in (('op', 'json'), ('op', 'jsonmember')) and isinstance(st.mon, tuple) and len(st.mon) == len(M.FIELDS)):
            return
        nm = [x[0] for x in self.adt('serde_json::Value').variants]
        if i[1] == 'json' and nm.index('Object') not in vs:
            self.refuse(st, i, 'body is not an object')
        elif i[1] == 'jsonmember' and i[3] == ('str', 'query') and nm.index('String') not in vs:
            self.refuse(st, i, 'query is not a string')

    def refuse(self, st, term, why):
        m = M(st.mon)
        if m.L is not None and not m.bad and self.complete(st, m, m.L) and self.body_in(st, term, m, m.L):
            m.bad = why
            st.mon = m.tup()

    def truth(self, st, v):
        r = super().truth(st, v)
        if v[0] == 'p' and st.mon is not None and r != v[2]:
            if v[1][0] in ('utf8', 'jsonok'):
                self.refuse(st, v[1], 'body is not text or JSON')
            elif v[1][0] == 'jsonhas' and v[1][2] == ('str', 'query'):
                self.refuse(st, v[1], 'no query')
        if v[0] == 'p' and v[1][0] in ('utf8', 'parses', 'ovf') and st.mon is not None:
            m = M(st.mon)
            a = v[1]
            if m.k is not None and self.of_length(a, m):
                holds = r == v[2]
                if a[0] == 'parses' and holds and m.L is None:
                    m.L = mk(('op', 'parse', a[1], a[2]), self.prog.types[a[2]])
                    if m.L[0] != 'lin':
                        m.L = None
                    else:
                        m.end = self.int_add(st, m.size, m.L)
                elif a[0] == 'utf8' and not holds or a[0] == 'parses' and not holds and a[2] in ('usize', 'u64', 'u128'):
                    m.bad = 'unreadable length'
                elif a[0] == 'ovf' and holds:
                    m.bad = 'absurd length'
                st.mon = m.tup()
        return r

    def complete(self, st, m, L):
        end = self.int_add(st, m.size, L)
        c = st.bound(end, m.all[2])
        if c is not None and c <= 0:
            return True
        c = st.bound(L, self.int_sub(st, m.all[2], m.size))
        return c is not None and c <= 0

    def incomplete(self, st, m, L):
        end = self.int_add(st, m.size, L)
        c = st.bound(m.all[2], end)
        if c is not None and c <= -1:
            return True
        c = st.bound(self.int_sub(st, m.all[2], m.size), L)
        return c is not None and c <= -1

    def body_in(self, st, term, m, L):
        """True: the term is made from exactly the announced body; False: from another part of what was received; None: neither"""
        r = None
        for x in subterms(term):
            if not (isinstance(x, tuple) and len(x) == 5):
                continue
            if x[:2] == ('op', 'sub') and x[2][:2] == m.all[:2] or x[:2] == ('obj', 'slice') and x[2][:2] == m.all[:2]:
                lo, ln = x[3], x[4]
                good = L is not None and self.same(st, lo, m.size) and (self.same(st, ln, L) or self.same(st, self.int_add(st, lo, ln), self.int_add(st, m.size, L)))
                if not good:
                    return False
                r = True
        return r

    def justified(self, st, m):
        """why the request may be refused, or None"""
        if m.acc != 'ok':
            return 'no connection'
        if m.dead:
            return 'connection ended'
        if m.phase == 'bad':
            return 'malformed head'
        if m.phase != 'head':
            return None
        if m.h is None:
            return 'no length'
        L = self.announced(st, m)
        if m.bad:
            return m.bad
        for a, v in self.preds(st):
            if a[0] == 'eq' and v is False and ('str', 'POST') in a[1:] and any(y[0] == 'sym' and y[1] == ('op', 'method', m.k) for y in a[1:]):
                return 'method'
        if ('str', 'POST') in st.f.get(('ne', ('op', 'method', m.k)), ()):
            return 'method'
        c = st.f.get(('const', ('op', 'method', m.k)))
        if c is not None and c != ('str', 'POST'):
            return 'method'
        if L is not None and (st.lower(L) or 0) >= ABSURD:
            return 'absurd length'
        if L is None or not self.complete(st, m, L):
            return None
        return None

    def is_post(self, st, m):
        i = ('op', 'method', m.k)
        if st.f.get(('const', i)) == ('str', 'POST'):
            return True
        return any(a[0] == 'eq' and v is True and ('str', 'POST') in a[1:] and any(y[0] == 'sym' and y[1] == i for y in a[1:]) for a, v in self.preds(st))

    # ------------------------------------------------------------ the map of headers
    def on_map_insert(self, st, cell, p, mp, key, v):
        m = M(st.mon)
        if m.k is None:
            return
        k, x = self.deref(st, key), self.deref(st, v)
        ids = [y for y in subterms((k, x)) if isinstance(y, tuple) and len(y) == 5 and y[0] == 'op' and y[1] in ('hname', 'hval') and y[2] == m.k]
        ns = {y[3] for y in ids if y[1] == 'hname'}
        vs = {y[3] for y in ids if y[1] == 'hval'}
        if not ids:
            return
        good = k[0] == 'sym' and k[1] in ids and k[1][1] == 'hname' and vs == {k[1][3]} and (x[0] == 't' and x[1] == 'utf8' or x[0] == 'sym')
        if not good:
            if k[0] == 'sym' and k[1][:2] == ('op', 'hname') and len(vs) == 1 and vs == ns:
                return      # a changed value, e.g. trimmed
            self.say(st, 'A02', 'headers', 'header names and values are not passed on as they came: %s -> %s' % (str(k)[:120], str(x)[:120]))
        elif m.h is not None and k[1][3] == m.h:
            m.ins = True
            st.mon = m.tup()


def results(ctx, found):
    """run both receivers; fills found with (class, key, message, where, trace, taint, what)"""
    p = ctx.prog
    rep = ctx.rep
    for kind, f in receivers(ctx):
        E = Recv(ctx, found, max_steps=400000, max_time=240)
        E.what = kind
        st = State()
        t = f.locals[1]
        st.mem['S'] = mk('S', t.to if t.k == 'ref' else t)
        st.mon = START
        State.watch = E.narrowed
        try:
            go_async(E, p, st, f, [('ref', 'S', ()) if t.k == 'ref' else mk('S', t)])
        finally:
            State.watch = None
        ctx.done(E, kind)
        for (k, uid), (w, tr, taint, fr) in sorted(E.panics.items()):
            found.append(('N01', 'panic:%s' % k, '%s: reading a request panics (%s)' % (kind, k), w, tr, taint, kind))
            found.append(('R03', 'panic:%s' % k, '%s: reading a request panics (%s)' % (kind, k), w, tr, taint, kind))
        why = {}

        def final(s, v):
            m = M(s.mon)
            v = s.norm(E.deref(s, v))
            rep.ok('paths to a result')
            if v[0] == 'adt' and v[1] == 'std::option::Option':
                if v[2] == 0:
                    if m.acc == 'ok':
                        E.say(s, 'N01', 'none', 'a connection ends without a request or an error')
                    return
                v = s.norm(E.deref(s, v[3][0]))
            if v[0] != 'adt':
                raise Undecided('result %r' % (v[:2],))
            names = [n for n, _ in p.adt_type(v[1]).variants[0][2]]
            r = dict(zip(names, v[3]))
            var, pl = pick(E, s, r['request'])
            sv, _ = pick(E, s, r['sender'])
            if m.acc == 'ok' and sv != 'Some':
                E.say(s, 'R01', 'sender', 'a request from an open connection is passed on without a way to answer it')
            if var == 'Err':
                j = E.justified(s, m)
                why[j] = why.get(j, 0) + 1
                if j is None:
                    E.say(s, 'N01', 'refused', 'a proper request can be refused (%s)' % str(pick(E, s, pl)[0]))
                return
            why['accepted'] = why.get('accepted', 0) + 1
            if m.acc != 'ok' or m.phase != 'head':
                E.say(s, 'N01', 'accepted', 'a request is passed on although no complete head was received')
                return
            if m.h is None:
                E.say(s, 'N01', 'accepted-length', 'a request without a content length is passed on')
                return
            L = E.announced(s, m)
            if L is None:
                E.say(s, 'N01', 'accepted-length', 'a request is passed on although its announced length was not read')
                return
            if not E.complete(s, m, L):
                E.say(s, 'N01', 'accepted-early', 'a request is passed on before its whole body has arrived')
                return
            if not E.is_post(s, m):
                E.say(s, 'N01', 'accepted-method', 'a request is passed on although its method may not be POST')
            q = s.norm(E.deref(s, pl))
            b = E.body_in(s, q, m, L)
            if b is False:
                E.say(s, 'N01', 'query', 'the query is taken from another part of the data than the body of the announced length')
                return
            if b is None or not any(isinstance(x, tuple) and x[:2] == ('op', 'jsonmember') for x in subterms(q)):
                raise Undecided('query %s' % str(q)[:160])
            i = q[1] if q[0] == 'sym' else None
            if not (i is not None and i[0] == '@' and i[1][:2] == ('op', 'jsonmember') and i[1][3] == ('str', 'query')):
                E.say(s, 'N01', 'query', 'the query passed on is not the text of the "query" member: %s' % (str(q[:2])[:120],))
            for x in subterms(q):
                # undecodable bytes are not text, let alone JSON
                if isinstance(x, tuple) and x[:2] == ('t', 'lossy') and s.f.get(('pred', ('utf8', x[2]))) is not True:
                    E.say(s, 'N01', 'decoded', 'a body that is not valid UTF-8 is passed on with its undecodable bytes replaced')
            if not m.ins:
                E.say(s, 'A02', 'headers-lost', 'the headers of an accepted request are not all passed on')
        for s, v in E.outcomes:
            refine(E, s, v, final)
        if not E.outcomes and not E.undecided and not found:
            rep.undecide(kind, 'no path returns')
        ctx.samples.append({'receiver': kind, 'results by reason': {str(k): n for k, n in why.items()}})


def report(ctx, found, classes):
    seen = set()
    for cls, key, msg, where, trace, taint, what in found:
        if cls not in classes or (cls, key, what) in seen:
            continue
        seen.add((cls, key, what))
        if taint:
            ctx.rep.undecide('%s: %s' % (what, key), 'rests on unmodelled %s: %s' % (', '.join(map(str, taint)), msg))
        else:
            ctx.rep.violation('%s:%s' % (key, what), msg, where, trace)


def n01(ctx):
    ctx.rule = ('both receivers run over every sequence of reads (any split of the data, end or failure at any point), every outcome of head parsing and any header list (the position and '
                'capitalisation of the content length are open): more is read only while the request is incomplete; a request is passed on only when complete, with the query member of exactly '
                'the announced body; it is refused only for a documented reason')
    ctx.assumptions = ['httparse parses heads correctly: complete, incomplete or malformed', 'serde_json decodes JSON correctly', 'a request has at most one content length header',
                       'lengths of %d bytes and more may be refused as absurd' % ABSURD]
    found = []
    results(ctx, found)
    report(ctx, found, ('N01',))


CHECKS = {'N01': n01}
