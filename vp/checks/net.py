"""The network front-ends: replies (N02, N03, T03). Requests are in recv.py."""
from ..client import *
from .auth import pick, refine

SENDER = 'server::io::stream::StreamSender'
CLIENT_ERR = ('KeyError', 'TokenizationError', 'ParseError', 'IndexError', 'TypeError', 'AuthorizationError', 'AuthenticationError', 'RequestError')
SERVER_ERR = ('NetworkError', 'WriteError', 'InternalError')


def senders(ctx):
    fs = ctx.method(SENDER, 'send', 'TcpStreamSender')
    if not fs:
        raise MissingAnchor('TcpStreamSender::send')
    return [('blocking sender', f) for f in fs] + [('async sender', ctx.anchor('server::io::tcp_async::TcpStreamSender::send'))]


def go_async(E, p, st, fn, args):
    """run a function; if it returns a coroutine, run that too"""
    E.outcomes = []
    E.push_frame(st, fn, args)
    E.visited = {}
    E.go([st])
    outs, E.outcomes = E.outcomes, []
    res = []
    for s, v in outs:
        if v[0] == 'box':
            v = v[1]
        if v[0] == 'cor':
            b = p.fns[v[1]]
            E.push_frame(s, b, [v if b.locals[1].k != 'ref' else s.ref_to(v), UNIT])
            E.visited = {}
            E.go([s])
            res += E.outcomes
            E.outcomes = []
        else:
            res.append((s, v))
    E.outcomes = res
    return res


# ---------------------------------------------------------------- text of a symbolic string
class Unread(Exception):
    pass


def template(bs, args):
    """the pieces of a compiled format template"""
    i = 0
    nxt = 0
    out = []
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            return out
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode('utf8', 'replace'))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif b == 0xc0:
            out.append(args[nxt])
            nxt += 1
        elif b & 0xc0 == 0xc0:
            fl = False
            if b & 1:
                i += 4
                fl = True
            if b & 2:
                i += 2
                fl = True
            if b & 4:
                i += 2
                fl = True
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            if fl:
                raise Unread('format options')
            out.append(args[nxt])
            nxt += 1
        else:
            raise Unread('format template')
    return out


class Text:
    """symbolic strings as sequences of literal text and atoms"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.memo = {}

    def flat(self, st, v):
        out = []
        self._flat(st, v, out)
        res = []
        for x in out:
            if isinstance(x, str) and res and isinstance(res[-1], str):
                res[-1] += x
            elif x != '':
                res.append(x)
        return res

    def _flat(self, st, v, out):
        v = st.norm(v)
        k = v[0]
        if k == 'str':
            out.append(v[1])
        elif k == 'bytes':
            out.append(bytes(v[1]).decode('utf8', 'replace'))
        elif k == 'char':
            out.append(v[1])
        elif k == 'int':
            out.append(str(v[1]))
        elif k == 'lin':
            out.append(('num', v))
        elif k == 'vec':
            b = v[1]
            if isinstance(b, tuple) and b[0] == 'op' and b[1] == 'bytes' and not v[3] and v[2] == ('lin', ('op', 'strlen', b[2]), 0, 'usize'):
                self._flat(st, b[2], out)
            elif b is None and v[2][0] == 'int' and all(x[0][0] == 'int' and x[1][0] == 'int' for x in v[3]):
                d = {x[0][1]: x[1][1] for x in v[3]}
                out.append(bytes(d[i] for i in range(v[2][1])).decode('utf8', 'replace'))
            else:
                raise Unread('bytes of %s' % (str(b)[:60],))
        elif k == 't':
            if v[1] == 'fmt':
                for x in template(v[2][1], v[3:]):
                    if isinstance(x, str):
                        out.append(x)
                    else:
                        self._flat(st, x, out)
            elif v[1] == 'concat':
                self._flat(st, v[2], out)
                self._flat(st, v[3], out)
            elif v[1] == 'text' and v[2][0] == 't' and v[2][1] == 'json':
                out.append(v[2])
            elif v[1] in ('disp', 'text'):
                self.disp(st, v[2], out)
            elif v[1] == 'dbg':
                x = st.norm(v[2])
                if x[0] == 'adt' and x[1].endswith('ServerError'):
                    out.append(self.ctx.prog.adt_type('error::ServerError').variants[x[2]][0] + '("')
                    out.append(('atom', x[3][0]))
                    out.append('")')
                else:
                    out.append(('atom', v))
            elif v[1] == 'json':
                out.append(v)
            else:
                raise Unread('text %s' % v[1])
        elif k == 'sym':
            out.append(('atom', v))
        else:
            raise Unread('text of %s' % k)

    def disp(self, st, x, out):
        x = st.norm(x)
        if x[0] == 'adt':
            for y in self.display(x):
                out.append(y)
        elif x[0] == 'sym' and x[2].k == 'adt' and not (x[2].path == 'std::string::String'):
            raise Unread('display of an open %s' % x[2].s)
        elif x[0] == 't' and x[1] == 'json':
            out.append(x)
        else:
            self._flat(st, x, out)

    def display(self, x):
        """what Display::fmt writes for a value"""
        if x in self.memo:
            return self.memo[x]
        fs = [f for f in self.ctx.method('std::fmt::Display', 'fmt') if f.self_ty is not None and getattr(f.self_ty, 'path', None) == x[1]]
        if len(fs) != 1:
            raise Unread('no Display for ' + x[1])
        text = self

        class D(Checked):
            def event(self, st, name, args, call):
                if name == 'fmt_write':
                    st.mon = (st.mon or ()) + (self.deref(st, args[0]),)
                    return ok(UNIT)
        E = D(self.ctx, max_steps=20000, max_time=60)
        E.what = 'Display of ' + x[1]
        st = State()
        st.mem['X'] = x
        st.mem['F'] = mk('F', fs[0].locals[2].to)
        E.push_frame(st, fs[0], [('ref', 'X', ()), ('ref', 'F', ())])
        E.go([st])
        self.ctx.done(E, E.what)
        outs = set()
        for s, v in E.outcomes:
            r = []
            for a in s.mon or ():
                r += self.flat(s, a)
            outs.add(tuple(r))
        if len(outs) != 1:
            raise Unread('Display of ' + x[1])
        self.memo[x] = list(outs.pop())
        return self.memo[x]


# ---------------------------------------------------------------- the sender's effects
class Send(Checked):
    """records what is written to the stream; every write and flush may fail"""

    def event(self, st, name, args, call):
        m = st.mon
        if name in ('io_write_all', 'io_write_fmt'):
            st.note(name)
            x = self.deref(st, args[1])

            def good(s):
                s.mon = (s.mon[0] + (x,), s.mon[1], False, s.mon[3], s.mon[4])

            def bad(s):
                s.mon = (s.mon[0], s.mon[1], s.mon[2], True, s.mon[4])
            return self.io(st, call, good, bad, UNIT)
        if name == 'io_write':
            st.note(name)
            x = self.deref(st, args[1])
            vec, lo, ln = span(self, st, x)
            us = self.prog.types['usize']
            end = st.fresh(us)
            n = end if lo == ('int', 0) else ('lin', ('op', 'Sub', end, lo), 0, 'usize')
            part = m[4]
            if part is not None and not (part[0] == vec and same(st, part[1], lo)):
                st.mon = m = (m[0] + (settle(st, part),), m[1], m[2], m[3], None)
                part = None
            odd = part is None and lo != ('int', 0)

            def good(s):
                # some of it, or all
                s.assume_le(lo, end, -1)
                s.assume_le(('int', 1), n)
                s.assume_le(n, ln)
                s.assume_le(end, self.int_add(s, lo, ln) if lo != ('int', 0) else ln)
                s.mon = (m[0] + ((('short', vec),) if odd else ()), m[1], False, m[3], (vec, end))

            def bad(s):
                s.mon = (m[0], m[1], m[2], True, m[4])

            def none(s):
                # nothing: an empty piece, or the connection is gone
                s.mon = (m[0], m[1], m[2], 'zero', m[4])
            from ..engine import Outs
            s1, s2 = st.copy(), st.copy()
            outs = []
            try:
                good(s1)
                outs.append((s1, ok(n)))
            except Infeasible:
                pass
            none(s2)
            s2.note('writes nothing')
            outs.append((s2, ok(('int', 0))))
            bad(st)
            st.note('fails')
            return Outs(outs + [(st, err(('t', 'io_error')))])
        if name in ('io_flush', 'io_shutdown'):
            st.note(name)

            def good(s):
                s.mon = (s.mon[0], s.mon[1], True, s.mon[3], s.mon[4])

            def bad(s):
                s.mon = (s.mon[0], s.mon[1], s.mon[2], True, s.mon[4])
            return self.io(st, call, good, bad, UNIT)
        if name.startswith('io_'):
            raise Undecided(name)

    def io(self, st, call, good, bad, v):
        s1, s2 = st.copy(), st
        from ..engine import Outs
        good(s1)
        bad(s2)
        s2.note('fails')
        return Outs([(s1, ok(v)), (s2, err(('t', 'io_error')))])

    def part_extra(self, st):
        m = st.mon
        return m[:4] + (m[4] and m[4][0],) if m else None


def span(E, st, x):
    """(whole, start, length) of the bytes given to a write"""
    if x[0] == 'obj' and x[1] == 'slice':
        return x[2], x[3], x[4]
    v = E.vec_of(st, x)
    if v is None:
        raise Undecided('write of %s' % (x[:2],))
    b = v[1]
    if isinstance(b, tuple) and b[:2] == ('op', 'sub') and not v[3]:
        return b[2], b[3], b[4]
    return v, ('int', 0), v[2]


def same(st, a, b):
    return a == b or st.bound(a, b) is not None and st.bound(a, b) <= 0 and st.bound(b, a) is not None and st.bound(b, a) <= 0


def settle(st, part):
    """what a finished series of partial writes amounts to"""
    vec, end = part
    c = st.bound(vec[2], end) if vec[0] == 'vec' else None
    return vec if c is not None and c <= 0 else ('short', vec)


def cases(ctx):
    """(name, response value): an open success, and each kind of error with an open message"""
    p = ctx.prog
    er = p.adt_type('error::ServerError')
    rs = p.adt_type('interpreter::InterpreterResponse')
    if er is None or rs is None:
        raise MissingAnchor('ServerError / InterpreterResponse')
    yield 'Ok', ok(mk('V', rs)), mk('V', rs)
    for i, v in enumerate(er.variants):
        pl = tuple(mk('M' if n == 0 else 'M%d' % n, t) for n, (_, t) in enumerate(v[2]))
        yield v[0], err(('adt', er.path, i, pl)), pl[0] if pl else None


def replies(ctx, each):
    p = ctx.prog
    text = Text(ctx)
    for kind, f in senders(ctx):
        for name, resp, item in cases(ctx):
            E = Send(ctx, max_steps=60000, max_time=120)
            E.what = '%s: reply to %s' % (kind, name if name == 'Ok' else 'an ' + name)
            st = State()
            t = f.locals[1]
            st.mem['S'] = mk('S', t.to if t.k == 'ref' else t)
            st.mon = ((), None, False, False, None)
            go_async(E, p, st, f, [('ref', 'S', ()), resp])
            ctx.done(E, E.what)
            each(E, text, kind, name, item)
            ctx.rep.ok('replies (front-end x result kind)')


def parse_reply(text, s, writes):
    """-> dict(status, headers {name: [pieces]}, payload pieces) | raises Unread | ValueError on a malformed reply"""
    pieces = []
    for w in writes:
        if w[0] == 'short':
            w = w[1]
        pieces += text.flat(s, w)
    atoms = []
    flat = ''
    for x in pieces:
        if isinstance(x, str):
            flat += x
        else:
            flat += chr(0xf0000 + len(atoms))
            atoms.append(x)

    def back(t):
        out = []
        for ch in t:
            if ord(ch) >= 0xf0000:
                out.append(atoms[ord(ch) - 0xf0000])
            elif out and isinstance(out[-1], str):
                out[-1] += ch
            else:
                out.append(ch)
        return out
    head, sep, payload = None, None, None
    lines = []
    i = 0
    while True:
        j = flat.find('\n', i)
        if j < 0:
            raise ValueError('has no blank line after its headers')
        line = flat[i:j].rstrip('\r')
        i = j + 1
        if line == '':
            break
        lines.append(line)
    if not lines:
        raise ValueError('has no status line')
    for l in lines:
        for x in back(l):
            if not isinstance(x, str) and x[0] != 'num':
                raise Unread('variable text in the head of the reply')
    return lines[0], [(l.partition(':')[0].strip().lower(), back(l.partition(':')[2].strip())) for l in lines[1:]], back(flat[i:])


def trim(ps):
    ps = list(ps)
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip('\r\n')
        if ps[-1] == '':
            ps.pop()
    return ps


def short(x):
    return str(x)[:140]


def n02(ctx):
    ctx.rule = ('for each front-end and each kind of result, all paths of send(): what is written must be a status line, headers with the byte length of exactly the text '
                'after the blank line, and that text; success only after every write was complete and a flush followed; a failed write or flush must come back as NetworkError')
    ctx.assumptions = ['write_all writes everything or fails; write may write any part', 'String::len is the byte length', 'json text is only identified as the encoding of the response']
    rep = ctx.rep

    def each(E, text, kind, name, item):
        what = E.what
        if not E.outcomes and not E.undecided:
            rep.undecide(what, 'no path returns (%s)' % ', '.join(k[0] for k in E.panics))

        def final(s, v):
            writes, _, flushed, failed, _ = s.mon
            var, pl = pick(E, s, v)
            rep.ok('paths to a result of send')
            if var == 'Err':
                ev = pick(E, s, pl)[0]
                if not failed:
                    E.finding(s, 'spurious:' + kind, '%s: a failure (%s) is reported although every write succeeded' % (what, ev))
                elif ev != 'NetworkError':
                    E.finding(s, 'kind:' + kind, '%s: a failed write or flush is reported as %s' % (what, ev))
                return
            if failed:
                E.finding(s, 'swallowed:' + kind, '%s: a failed write or flush is reported as success' % what)
                return
            if not flushed:
                E.finding(s, 'unflushed:' + kind, '%s: success is reported without flushing what was written' % what)
            if s.mon[4] is not None:
                writes = writes + (settle(s, s.mon[4]),)
            if any(w[0] == 'short' for w in writes):
                E.finding(s, 'short:' + kind, '%s: success is reported although a write may have been cut short' % what)
                return
            try:
                status, headers, payload = parse_reply(text, s, writes)
            except Unread as u:
                rep.undecide(what, 'reply text: %s' % u)
                return
            except ValueError as u:
                E.finding(s, 'frame:' + kind, '%s: the reply %s' % (what, u))
                return
            if not status.startswith('HTTP/1.'):
                E.finding(s, 'status:' + kind, '%s: no status line' % what)
            cl = [x for n, x in headers if n == 'content-length']
            if len(cl) != 1 or len(cl[0]) != 1:
                E.finding(s, 'length:' + kind, '%s: the reply does not announce one length' % what)
                return
            check_length(E, s, kind, what, cl[0][0], payload, text)
            pl = trim(payload)
            if not pl:
                E.finding(s, 'payload:' + kind, '%s: the reply has no payload' % what)
            elif name == 'Ok' and not (len(pl) == 1 and pl[0][:2] == ('t', 'json') and s.norm(pl[0][2]) == s.norm(item)):
                if len(pl) == 1 and not isinstance(pl[0], str) and pl[0][:2] == ('t', 'json'):
                    rep.note('%s: payload is the encoding of %s' % (what, short(pl[0][2])))
                else:
                    rep.undecide(what, 'payload %s' % short(pl))
            ctx.samples.append({'case': what, 'status': status, 'payload': short(pl)})
        for s, v in E.outcomes:
            refine(E, s, v, final)

    def check_length(E, s, kind, what, n, payload, text):
        bad = lambda why: E.finding(s, 'length:' + kind, '%s: the announced length is not the byte length of the payload: %s' % (what, why))
        if isinstance(n, str):
            if all(isinstance(x, str) for x in payload):
                if not n.isdigit() or int(n) not in (len(''.join(payload).encode()), len(''.join(trim(payload)).encode())):
                    bad(n)
            else:
                bad('always %s' % n)
            return
        if n[0] != 'num' or n[1][0] != 'lin':
            rep.undecide(what, 'announced length %s' % short(n))
            return
        i, k = n[1][1], n[1][2]
        if isinstance(i, tuple) and i[0] == 'len' and isinstance(i[1], tuple) and i[1][:2] == ('op', 'chars'):
            bad('it counts characters')
            return
        if not (isinstance(i, tuple) and i[:2] == ('op', 'strlen')):
            rep.undecide(what, 'announced length %s' % short(n))
            return
        if i[2][0] == 't' and (i[2][1].startswith('case_') or 'trim' in i[2][1]) or i[2][0] == 'sym' and 'trim' in str(i[2][1])[:20]:
            bad('it is the length of a shortened or changed copy (%s)' % i[2][1])
            return
        try:
            m = text.flat(s, i[2])
        except Unread as u:
            rep.undecide(what, 'announced length: %s' % u)
            return

        def split(ps):
            return [x for x in ps if not isinstance(x, str)], sum(len(x.encode()) for x in ps if isinstance(x, str))
        want = [split(payload), split(trim(payload))]
        a, c = split(m)
        if not any(sorted(map(repr, a)) == sorted(map(repr, w[0])) and c + k == w[1] for w in want):
            bad('it is the length of %s plus %d, the payload is %s' % (short(m), k, short(payload)))
    replies(ctx, each)


def n03(ctx):
    ctx.rule = ('for each front-end and each kind of result, all paths of send(): the status line\'s code must be 2xx exactly for success, 4xx for request, syntax, key, index, type '
                'and credential errors, 5xx for internal, network and write errors; an error payload must name the kind and contain the message')
    ctx.assumptions = ['which class of status each error kind has is taken from the property']
    rep = ctx.rep

    def each(E, text, kind, name, item):
        what = E.what
        want = '2' if name == 'Ok' else '4' if name in CLIENT_ERR else '5' if name in SERVER_ERR else None
        if want is None:
            rep.undecide(what, 'error kind unknown to the property')
            return
        seen = [0]

        def final(s, v):
            writes, _, flushed, failed, part = s.mon
            var, pl = pick(E, s, v)
            if part is not None:
                writes = writes + (part[0],)
            if failed or not writes or var == 'Err':
                return
            seen[0] += 1
            try:
                status, headers, payload = parse_reply(text, s, writes)
            except (Unread, ValueError) as u:
                rep.undecide(what, 'reply text: %s' % u)
                return
            rep.ok('status lines')
            w = status.split(' ')
            code = w[1] if len(w) > 1 else ''
            if not (len(code) == 3 and code.isdigit() and code.isascii()):
                E.finding(s, 'code:%s:%s' % (kind, name), '%s: status line %r has no status code' % (what, status))
            elif code[0] != want:
                E.finding(s, 'code:%s:%s' % (kind, name), '%s carries status %s, documented is %sxx' % (what, code, want))
            if name != 'Ok':
                pl = trim(payload)
                txt = ''.join(x for x in pl if isinstance(x, str))
                at = [x for x in pl if not isinstance(x, str)]
                if any(x[0] not in ('atom',) for x in at) or any(x[1][0] == 't' for x in at):
                    rep.undecide(what, 'payload %s' % short(pl))
                    return
                if name not in txt:
                    E.finding(s, 'name:%s:%s' % (kind, name), '%s: the payload does not name the error kind: %s' % (what, short(pl)))
                if item is not None and not any(s.norm(x[1]) == s.norm(item) for x in at):
                    E.finding(s, 'message:%s:%s' % (kind, name), '%s: the payload does not contain the message: %s' % (what, short(pl)))
            ctx.samples.append({'case': what, 'status': status})
        for s, v in E.outcomes:
            refine(E, s, v, final)
        if not seen[0]:
            rep.undecide(what, 'nothing is written on any path')
    replies(ctx, each)


# ---------------------------------------------------------------- encoding of results
SER = 'serde::Serialize'
SCALAR = ('bool', 'int', 'char', 'str')
PASS = ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc', 'std::borrow::Cow', 'std::cell::RefCell', 'std::num::Wrapping', 'std::cmp::Reverse')
SEQ = ('std::vec::Vec', 'std::collections::HashSet', 'std::collections::BTreeSet', 'std::collections::VecDeque', 'std::collections::LinkedList', 'std::collections::BinaryHeap')
MAP = ('std::collections::HashMap', 'std::collections::BTreeMap')
ITERS = ('std::slice::Iter', 'std::vec::IntoIter', 'std::collections::hash_set::Iter', 'std::collections::vec_deque::Iter')
MITERS = ('std::collections::hash_map::Iter', 'std::collections::btree_map::Iter', 'std::collections::hash_map::IntoIter', 'std::collections::btree_map::IntoIter')
KEYBAD = ('serialize_newtype_variant', 'serialize_tuple_variant', 'serialize_struct_variant', 'serialize_struct', 'serialize_map', 'serialize_seq', 'serialize_tuple',
          'serialize_tuple_struct', 'serialize_none', 'serialize_some', 'serialize_unit', 'serialize_unit_struct', 'serialize_bytes', 'collect_seq', 'collect_map')


class Walk:
    """which types' encodings a value's encoding consists of, and whether any can fail"""

    def __init__(self, ctx):
        self.ctx, self.p, self.rep = ctx, ctx.prog, ctx.rep
        self.done = set()
        self.bad = []          # (key, message, where)
        self.unknown = []

    def type(self, t, key=False, via=''):
        while t.k in ('ref', 'ptr'):
            t = t.to
        if (t.s, key) in self.done:
            return
        self.done.add((t.s, key))
        self.rep.ok('types an encoding is made of')
        if t.k in SCALAR or t.k == 'tuple' and not t.args and not key:
            return
        if t.k == 'float':
            if key:
                self.bad.append(('key:' + t.s, 'a map key of type %s has no text form when it is not finite (%s)' % (t.s, via), via))
            return
        if t.k in ('array', 'slice', 'tuple'):
            if key:
                self.bad.append(('key:' + t.s, 'a map is encoded with keys of type %s, which are not text (%s)' % (t.s, via), via))
                return
            for x in (t.args if t.k == 'tuple' else [t.to]):
                self.type(x, False, via)
            return
        if t.k != 'adt':
            self.unknown.append('%s (%s)' % (t.s, via))
            return
        pa = t.path
        if pa in ('std::string::String', 'serde_json::Value') and not (key and pa != 'std::string::String'):
            return
        if pa in PASS:
            self.type(t.args[0], key, via)
            return
        if pa == 'std::option::Option' or pa in SEQ:
            if key:
                self.bad.append(('key:' + t.s, 'a map is encoded with keys of type %s, which are not text (%s)' % (t.s, via), via))
                return
            self.type(t.args[0], False, via)
            return
        if pa in MAP:
            if key:
                self.bad.append(('key:' + t.s, 'a map is encoded with maps as keys (%s)' % via, via))
                return
            self.type(t.args[0], True, via)
            self.type(t.args[1], False, via)
            return
        if pa == 'std::time::Duration':
            return
        imp = self.p.impls.get((SER, pa))
        if not imp:
            self.unknown.append('%s (%s)' % (t.s, via))
            return
        for _, ms, _ in imp:
            f = self.p.fns.get(ms.get('serialize'))
            if f is None:
                self.unknown.append('%s::serialize' % t.s)
            else:
                self.body(f, t, key, set())

    def item(self, t, via):
        """element type of an iterator (or iterable)"""
        while t.k in ('ref', 'ptr'):
            t = t.to
        if t.k == 'adt':
            a = t.args
            if t.path in SEQ or t.path in ITERS:
                return self.type(a[0], False, via)
            if t.path in MAP or t.path in MITERS:
                self.type(a[0], False, via)
                return self.type(a[1], False, via)
            if t.path in ('std::collections::hash_map::Keys', 'std::collections::btree_map::Keys'):
                return self.type(a[0], False, via)
            if t.path in ('std::collections::hash_map::Values', 'std::collections::btree_map::Values'):
                return self.type(a[1], False, via)
            if t.path == 'std::iter::Map' and a[1].k == 'closure':
                f = self.p.fns.get(getattr(a[1], 'uid', None))
                if f is not None:
                    return self.type(f.locals[0], False, via)
            if t.path in ('std::iter::Filter', 'std::iter::Cloned', 'std::iter::Copied', 'std::iter::Take', 'std::iter::Skip', 'std::iter::Rev'):
                return self.item(a[0], via)
            if t.path in ('std::iter::Enumerate',):
                return self.item(a[0], via)
        if t.k in ('slice', 'array'):
            return self.type(t.to, False, via)
        self.unknown.append('items of %s (%s)' % (t.s, via))

    def entries(self, t, via):
        while t.k in ('ref', 'ptr'):
            t = t.to
        if t.k == 'adt' and (t.path in MAP or t.path in MITERS):
            self.type(t.args[0], True, via)
            return self.type(t.args[1], False, via)
        if t.k == 'adt' and t.path == 'std::iter::Map' and t.args[1].k == 'closure':
            f = self.p.fns.get(getattr(t.args[1], 'uid', None))
            if f is not None and f.locals[0].k == 'tuple' and len(f.locals[0].args) == 2:
                self.type(f.locals[0].args[0], True, via)
                return self.type(f.locals[0].args[1], False, via)
        self.unknown.append('entries of %s (%s)' % (t.s, via))

    def body(self, f, t, key, seen):
        if f.uid in seen:
            return
        seen.add(f.uid)
        self.rep.ok('encoding functions analysed')
        via = pub(f.path)
        for b in f.blocks:
            tm = b['t']
            if b.get('cleanup'):
                continue
            if tm[0] == 'assert' and not tm[3].startswith('overflow:Add'):
                self.unknown.append('an assertion in %s' % via)
            if tm[0] != 'call':
                continue
            fk = tm[1].get('k') if isinstance(tm[1], dict) else None
            if not fk or 'fn' not in fk:
                self.unknown.append('indirect call in %s' % via)
                continue
            self.rep.ok('call sites in encoding functions')
            tr, me = fk.get('trait') or '', fk.get('method') or ''
            tys = [self.p.T(f.crate, x) for x in tm[5]] if len(tm) > 5 else []
            path = strip_generics(fk['fn'])
            where = b.get('sp', via)
            if tr.startswith('serde::') or tr.startswith('serde_core::'):
                if me == 'custom':
                    self.bad.append(('custom:' + via, 'the encoding of %s can fail: %s makes an error of its own' % (t.s, via), where))
                elif me in KEYBAD and key:
                    self.bad.append(('key:' + t.s, 'a map is encoded with keys of type %s, which are not text (%s)' % (t.s, via), where))
                if me in ('serialize_field', 'serialize_element', 'serialize_value', 'serialize_newtype_variant', 'serialize_newtype_struct', 'serialize_some', 'serialize_entry', 'serialize_key'):
                    pos = tys[1:]
                    if me == 'serialize_key':
                        self.type(tys[1], True, via)
                    elif me == 'serialize_entry':
                        self.type(tys[1], True, via)
                        self.type(tys[2], False, via)
                    else:
                        self.type(tys[-1], key and me == 'serialize_newtype_struct', via)
                elif me == 'serialize':
                    self.type(tys[0], key, via)
                elif me == 'collect_seq':
                    self.item(tys[1], via)
                elif me == 'collect_map':
                    self.entries(tys[1], via)
                elif me in ('serialize_f32', 'serialize_f64') and key:
                    self.bad.append(('key:' + t.s, 'a map is encoded with number keys that may not be finite (%s)' % via, where))
                continue
            u = fk.get('ruid') or fk.get('uid')
            g = self.p.fns.get(u)
            if g is not None and g.crate != 'vpmodels':
                self.body(g, t, key, seen)
            elif any(x in path for x in ('unwrap', 'expect', 'panic', 'unreachable')):
                self.unknown.append('%s in %s' % (path, via))
        for c in self.p.fns.values():
            if c.parent == f.uid:
                self.body(c, t, key, seen)


def t03(ctx):
    ctx.rule = ('for each front-end, all paths of send() for a successful result: every encoding call is followed through the type graph of its argument and the MIR of the '
                'Serialize implementations; no part may be a map with keys that are not text or raise an error of its own, and no path may panic')
    ctx.assumptions = ['serde_json encodes scalars, sequences, structs, enums and maps with text keys without failing', 'memory suffices']
    rep = ctx.rep
    p = ctx.prog
    walks = {}

    class S(Send):
        def json_encode(self, st, v, call, text=False):
            t = call.atys[0]
            while t.k in ('ref', 'ptr'):
                t = t.to
            if t.s not in walks:
                w = walks[t.s] = Walk(ctx)
                w.type(t)
                rep.ok('encoded types')
            w = walks[t.s]
            val = ('t', 'json', v)
            if t.k == 'adt' and t.path == 'serde_json::Value' and v[0] == 't' and v[1] == 'json':
                val = v
            if text:
                val = ('t', 'text', val)
            for k, msg, where in w.bad:
                if ('ser', k) not in seen:
                    seen.add(('ser', k))
                    rep.violation(k, msg, where)
            for u in w.unknown:
                rep.undecide('encoding of ' + t.s, u)
            calls.add(self.where(st))
            return ok(val)
    seen, calls = set(), set()
    for kind, f in senders(ctx):
        for name, resp, item in cases(ctx):
            E = S(ctx, max_steps=60000, max_time=120)
            E.what = '%s: reply to %s' % (kind, name)
            st = State()
            t = f.locals[1]
            st.mem['S'] = mk('S', t.to if t.k == 'ref' else t)
            st.mon = ((), None, False, False, None)
            go_async(E, p, st, f, [('ref', 'S', ()), resp])
            ctx.done(E, E.what)
            rep.ok('replies (front-end x result kind)')
            rep.ok('paths to a result of send', len(E.outcomes))
            for (k, uid), (w, tr, taint, fr) in sorted(E.panics.items()):
                if taint:
                    rep.undecide(E.what + ': possible panic', 'rests on %s' % (taint,))
                else:
                    rep.violation('panic:%s:%s' % (kind, k), '%s: sending panics (%s)' % (E.what, k), w, tr)
    ctx.samples.append({'encoding calls': sorted(calls), 'types': sorted({t for w in walks.values() for t, _ in w.done})})


CHECKS = {'N02': n02, 'N03': n03, 'T03': t03}
