"""The three servers: every worker analysed over one arbitrary request or message at a time (A02, S01, S02, R01-R03, X01, X02, wiring of E02)."""
from ..client import *
from ..engine import Outs, Enter, strip_generics
from ..models import ready
from .auth import pick, refine

TIME = 200
VARIANTS = [('multithreaded server', 'multi_server::main'), ('async server', 'async_server::main'), ('single-threaded server', 'simple_server::main')]
HANDLER = 'server::io::stream::StreamHandler'
SENDER = 'server::io::stream::StreamSender'
AUTH = 'server::auth::AuthenticationService'


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for y in t:
            yield from subterms(y)


def has(t, x):
    return any(y == x for y in subterms(t))


class M:
    """the monitor: what was done so far for the request (or message) in hand"""
    FIELDS = ('live',      # set-up is over
              'n',         # shared objects created so far
              'rid',       # the request in hand
              'src',       # client | msg | sweep
              'auth',      # outcome of the authentication: ok | no | nolevel | err
              'exp',       # what the answer has to be
              'sent',      # handed on: sent | failed
              'rep',       # answered: None | done | failed
              'chan',      # channel made for this request's answer
              'nosnd',     # there is no connection to answer on
              'stop',      # flag that told the worker to stop
              'polled',    # looked for the order to stop since the last wait
              'held',      # locks held
              'store',     # the store requests ran on
              'shut',      # a shutdown was executed and not signalled yet
              'handover',  # the alternative in which the next stage is gone
              'inl',       # inside code handed to another thread or task
              'fin',       # a reader thread is known to have finished
              'log')       # what the main thread did about shutting down
    __slots__ = FIELDS

    def __init__(self, t):
        for n, x in zip(self.FIELDS, t):
            setattr(self, n, x)

    def tup(self):
        return tuple(getattr(self, n) for n in self.FIELDS)


START = (False, 0, None, None, None, None, None, None, None, False, None, True, (), None, False, False, 0, None, ())


class Root:
    def __init__(self, n, v, st):
        self.n, self.v, self.st = n, v, st
        self.uses = set()
        self.outs = []
        self.name = ''


class Serve(Checked):
    def __init__(self, ctx, found, kind, **kw):
        super().__init__(ctx, **kw)
        self.found = found
        self.kind = kind
        self.spawned = {}
        self.root = None
        self.uses = set()
        self.shared = None
        self.vec_cap = 64
        self.main = True
        t = self.prog.adt_type
        self.err_t = t('error::ServerError')
        self.lvl_t = t('auth::AuthorizationLevel')
        self.res_t = t('auth::AuthenticationResult')
        self.stmt_t = t('statements::Statement')
        self.resp_t = t('interpreter::InterpreterResponse')
        self.ireq_t = t('interpreter::InterpreterRequest')
        self.str_t = self.prog.types['std::string::String']
        for x, n in ((self.err_t, 'ServerError'), (self.lvl_t, 'AuthorizationLevel'), (self.res_t, 'AuthenticationResult'), (self.stmt_t, 'Statement'), (self.resp_t, 'InterpreterResponse')):
            if x is None:
                raise MissingAnchor(n)
        H = self.hooks
        for n in ('Mutex', 'RwLock'):
            for pre in ('std::sync::', 'tokio::sync::'):
                H[pre + n + '::new'] = self.new_mutex
        for n in ('Atomic', 'AtomicBool', 'AtomicUsize'):
            H['std::sync::atomic::%s::new' % n] = self.new_atomic
        for n in ('std::sync::mpsc::channel', 'tokio::sync::mpsc::channel', 'std::sync::mpsc::sync_channel', 'tokio::sync::mpsc::unbounded_channel', 'tokio::sync::oneshot::channel'):
            H[n] = self.new_channel
        H['server::storage::hashmap_storage::HashMapStorage::new'] = self.new_store
        H['server::analysis::interpreter::Interpreter::interpret'] = self.interpret
        H['server::analysis::tokenizer::Tokenizer::new'] = self.tokenizer_new
        H['server::analysis::tokenizer::Tokenizer::tokenize'] = self.tokenize
        H['server::analysis::parser::Parser::new'] = self.parser_new
        H['server::analysis::parser::Parser::parse'] = self.parse
        H['server::io::tcp_async::TcpStreamHandler::receive_request'] = lambda E, st, a, c: ('obj', 'fut', 'receive', tuple(a))
        H['server::io::tcp_async::TcpStreamSender::send'] = lambda E, st, a, c: ('obj', 'fut', 'reply', tuple(a))
        H['server::io::tcp_async::TcpStreamHandler::new'] = lambda E, st, a, c: ('obj', 'fut', 'listen', tuple(a))
        H['server::io::tcp::TcpStreamHandler::new'] = lambda E, st, a, c: mk(('op', 'listener', 0), c.dty)
        H['std::thread::JoinHandle::is_finished'] = self.is_finished
        H['tokio::task::JoinHandle::is_finished'] = self.is_finished
        H['tokio::task::JoinHandle::abort'] = lambda E, st, a, c: UNIT
        for n in ('new_multi_thread', 'new_current_thread'):
            H['tokio::runtime::Builder::' + n] = lambda E, st, a, c: ('obj', 'rt')
        for n in ('enable_all', 'worker_threads', 'enable_io', 'enable_time'):
            H['tokio::runtime::Builder::' + n] = lambda E, st, a, c: a[0]
        H['tokio::runtime::Builder::build'] = lambda E, st, a, c: ok(('obj', 'rt'))
        H['tokio::runtime::Runtime::new'] = lambda E, st, a, c: ok(('obj', 'rt'))
        H['tokio::runtime::Runtime::block_on'] = self.block_on
        H['tokio::macros::support::maybe_done'] = H['tokio::future::maybe_done::maybe_done'] = lambda E, st, a, c: ('obj', 'md', a[0], NONE)
        H['tokio::future::maybe_done::MaybeDone::take_output'] = H['tokio::macros::support::MaybeDone::take_output'] = self.take_output
        H['tokio::macros::support::Rotator::num_skip'] = lambda E, st, a, c: ('int', 0)
        self.thooks[(HANDLER, 'receive_request')] = lambda E, st, a, c: self.receive(st, a, c)
        self.thooks[(SENDER, 'send')] = lambda E, st, a, c: self.reply(st, a, c)
        self.thooks[(AUTH, 'authenticate')] = self.authenticate
        self.thooks[('std::future::Future', 'poll')] = self.poll

    # ------------------------------------------------------------ findings
    def say(self, st, cls, key, msg):
        m = M(st.mon)
        if m.handover and cls in ('R03',):
            return
        self.found.append((cls, key, '%s: %s' % (self.what, msg), self.where(st) if st.frames else self.what, st.trace_list(), st.taint, self.kind))

    def binop(self, st, op, a, b, ty):
        if op == 'AddWithOverflow' and ty.s in ('u64', 'usize', 'i64') and st.norm(b) == ('int', 1):
            # a 64-bit counter that is moved by one does not reach its end
            x = st.norm(a)
            if x[0] == 'lin':
                st.assume_le(x, ('int', (1 << 63) - 2))
        return super().binop(st, op, a, b, ty)

    def panic(self, st, kind):
        if st.mon is not None and M(st.mon).handover:
            return
        if kind.startswith('assert:overflow') and self.root is None and not M(st.mon).src:
            # a counter of the main thread that no client moves
            return
        super().panic(st, kind)

    # ------------------------------------------------------------ shared objects
    def name(self, st, kind):
        m = M(st.mon)
        if m.live:
            return st.fresh_id()
        m.n += 1
        st.mon = m.tup()
        return '%s%d' % (kind, m.n)

    def new_mutex(self, E, st, a, c):
        return ('obj', 'mutex', a[0], ('mx', self.name(st, 'lock')))

    def new_atomic(self, E, st, a, c):
        return ('obj', 'atomic', a[0], ('at', self.name(st, 'flag')))

    def new_channel(self, E, st, a, c):
        if len(a) > 0 and a[0] == ('int', 0) and 'tokio' in c.path:
            raise Panic('zero capacity channel')
        m = M(st.mon)
        i = ('chan', self.name(st, 'queue'))
        if m.live:
            m.chan = i
            st.mon = m.tup()
        ty = c.dty.args
        return ('tup', (('obj', 'tx', i, ty[0].args[0]), ('obj', 'rx', i, ty[1].args[0])))

    def new_store(self, E, st, a, c):
        return mk(('op', 'store', self.name(st, 'store')), c.dty)

    def lock_private(self, st, ref, call):
        v = self.read(st, ref[1], ref[2])
        return v[0] in ('adt', 'obj', 'sym') or v[0] == 'p' and False

    def lock_id(self, st, ref):
        v = self.read(st, ref[1], ref[2][:-1])
        if v[0] == 'obj' and len(v) > 3:
            return v[3]
        return ('mx', 'unnamed')

    def lock(self, st, ref, blocking, call):
        nm = self.lock_id(st, ref)
        m = M(st.mon)
        self.go_live(st)
        if 'tokio' in call.path and blocking:
            raise Undecided('async lock')
        if blocking and m.held:
            if nm in m.held:
                self.say(st, 'X02', 'self-deadlock', 'waits for a lock it holds itself')
            elif self.is_shared(nm) or True:
                self.say(st, 'X02', 'lock-order', 'waits for a lock while holding another')
        v = self.read(st, ref[1], ref[2])
        g = ('obj', 'guard', ref)
        outs = []
        if v[0] in ('bool', 'p'):
            # a flag kept in a lock
            s = st.copy()
            self.write(s, ref[1], ref[2], ('p', ('b', ('op', 'flagged', nm, s.fresh_id())), True))
            self.hold(s, nm)
            outs.append((s, ok(g)))
        else:
            if not self.lock_private(st, ref, call):
                t = call.atys[0]
                while t.k == 'ref' or t.k == 'adt' and t.path in ('std::sync::Arc', 'std::pin::Pin', 'std::boxed::Box'):
                    t = t.to if t.k == 'ref' else t.args[0]
                self.write(st, ref[1], ref[2], mk(st.fresh_id(), t.args[0]))
            s = st.copy()
            self.hold(s, nm)
            outs.append((s, ok(g)))
        if not blocking and self.is_shared(nm):
            s = st.copy()
            s.note('lock is taken')
            outs.append((s, err(('adt', 'std::sync::TryLockError', 1, ()))))
        return Outs(outs)

    def hold(self, st, nm):
        m = M(st.mon)
        m.held = tuple(sorted(m.held + (nm,), key=repr))
        st.mon = m.tup()

    def unlock(self, st, ref):
        nm = self.lock_id(st, ref)
        m = M(st.mon)
        if nm in m.held:
            h = list(m.held)
            h.remove(nm)
            m.held = tuple(h)
        st.mon = m.tup()
        v = st.norm(self.read(st, ref[1], ref[2]))
        if v[0] == 'bool':
            # was the flag changed while the lock was held?
            if v[1] and m.stop == nm:
                m.shut = False
                st.mon = m.tup()
            elif v[1] and not (m.log and m.log[-1] == ('saw', nm)):
                self.flag_set(st, nm, True)
            elif not v[1] and m.stop == nm:
                self.flag_set(st, nm, False)

    def atom(self, st, a):
        if a[0] == 'b' and isinstance(a[1], tuple) and a[1][:2] == ('op', 'flagged') and ('const', a[1]) not in st.f:
            nm = a[1][2]
            self.uses.add(('flag', nm))

            def become(b):
                def f(s):
                    s.f[('const', a[1])] = ('bool', b)
                    self.flag_seen(s, nm, b)
                return f
            raise Split([become(True), become(False)])
        return super().atom(st, a)

    def is_shared(self, nm):
        return self.shared is not None and nm in self.shared

    def busy(self, st, what):
        """no lock others need may be held now"""
        for nm in M(st.mon).held:
            if self.is_shared(nm):
                self.say(st, 'X02', 'held:%s' % what, 'holds a lock other workers need while a request is %s' % what)
                return

    # ------------------------------------------------------------ flags
    def atomic_of(self, st, ref):
        cell, p = self.loc(st, ref)
        v = self.read(st, cell, p)
        if v[0] == 'obj' and v[1] == 'atomic' and len(v) > 3:
            return v[3]
        raise Undecided('atomic %r' % (v[:2],))

    def go_live(self, st):
        m = M(st.mon)
        if not m.live:
            m.live = True
            st.mon = m.tup()

    def atomic_load(self, st, ref, call):
        nm = self.atomic_of(st, ref)
        if call.dty.k != 'bool':
            return st.fresh(call.dty)
        self.go_live(st)
        self.uses.add(('flag', nm))
        outs = []
        for b in (False, True):
            s = st.copy()
            self.flag_seen(s, nm, b)
            outs.append((s, ('bool', b)))
        return Outs(outs)

    def flag_seen(self, st, nm, b):
        m = M(st.mon)
        m.polled = True
        if b:
            st.note('flag is set')
            if self.main and self.root is None:
                m.log = m.log + (('saw', nm),) if not m.log or m.log[-1] != ('saw', nm) else m.log
            elif m.stop is None:
                m.stop = nm
        st.mon = m.tup()

    def flag_set(self, st, nm, b):
        """a flag is written"""
        m = M(st.mon)
        self.uses.add(('sets', nm))
        if self.root is None and self.kind != 'single-threaded server':
            m.log = m.log + (('set', nm, b),)
            if len(m.log) > 60:
                raise Undecided('main thread keeps setting flags')
        else:
            if b is True:
                if not m.shut and not (m.rid is not None and m.exp == ('result', m.rid, 'shut')):
                    self.say(st, 'S01', 'signal', 'the server is told to shut down although no shutdown command was executed')
                m.shut = False
                self.uses.add(('signals', nm))
            else:
                self.say(st, 'S01', 'unsignal', 'the order to shut down may be taken back')
        st.mon = m.tup()

    def is_finished(self, E, st, a, c):
        outs = []
        for b in (False, True):
            s = st.copy()
            m = M(s.mon)
            if b:
                m.fin = True
            s.mon = m.tup()
            outs.append((s, ('bool', b)))
        return Outs(outs)

    # ------------------------------------------------------------ events of the library models
    def event(self, st, name, args, call):
        if name == 'unlock':
            return self.unlock(st, args[0])
        if name.startswith('atomic_'):
            nm = self.atomic_of(st, args[0])
            op = name[7:]
            if call is not None and op in ('store', 'swap'):
                v = st.norm(args[1])
                if v[0] == 'p' or v[0] == 'bool':
                    self.flag_set(st, nm, self.truth(st, v))
                    return None
                return None
            if op in ('fetch_or', 'fetch_and', 'compare_exchange', 'compare_exchange_weak', 'fetch_xor', 'fetch_not') and call.atys and 'bool' in str(call.atys[0].s):
                v = st.norm(args[-1] if op.startswith('fetch') else args[2])
                if op == 'fetch_or' and v[0] == 'bool':
                    if v[1]:
                        self.flag_set(st, nm, True)
                    return None
                if op.startswith('compare') and v[0] == 'bool':
                    self.flag_set(st, nm, v[1])
                    return None
                raise Undecided(name)
            return None
        if name == 'sleep':
            self.go_live(st)
            return self.wait(st, 'sleeps')
        if name == 'spawn':
            return self.spawn(st, args, call)
        if name == 'join':
            return self.join_(st, args, call)
        if name == 'chan_send':
            return self.send(st, args, call)
        if name == 'chan_recv':
            return self.recv(st, args, call)
        if name == 'receive':
            return self.receive(st, args, call)
        if name == 'reply':
            return self.reply(st, args, call)
        if name == 'listen':
            return mk(('op', 'listener', 0), call.dty.args[0] if call.dty.path == 'std::task::Poll' else call.dty)
        if name == 'timeout':
            raise Undecided('timeout of a future')
        return None

    def wait(self, st, what):
        m = M(st.mon)
        if self.root is None and self.kind != 'single-threaded server':
            if any(e[0] == 'saw' for e in m.log):
                self.say(st, 'S02', 'lingers', 'the main loop goes on after shutdown was signalled')
                raise Infeasible()
            if not m.polled:
                self.say(st, 'S02', 'main-unpolled', 'the main loop does not look for the signal')
                raise Infeasible()
        else:
            if m.stop is not None:
                self.say(st, 'S02', 'ignores', 'goes on after it was told to stop')
                raise Infeasible()
            if self.stoppable and not m.polled:
                self.say(st, 'S02', 'unpolled', '%s without having looked for the order to stop' % what)
                raise Infeasible()
        m.polled = False
        st.mon = m.tup()

    stoppable = False

    # ------------------------------------------------------------ other threads and tasks
    def run_body(self, st, f, after, tag=None):
        f0 = f
        v = st.norm(self.deref(st, f)) if f[0] in ('ref', 'box') else st.norm(f)
        if v[0] == 'box':
            v = v[1]
        if v[0] == 'clo':
            fn = self.prog.fns[v[1]]
            env = fn.locals[1]
            raise Enter(fn, [st.ref_to(v) if env.k == 'ref' else v], after, tag)
        if v[0] == 'cor':
            fn = self.prog.fns[v[1]]
            t = fn.locals[1]
            arg = v
            if t.k == 'ref' or t.k == 'adt' and t.path == 'std::pin::Pin':
                arg = st.ref_to(v)
            raise Enter(fn, [arg, UNIT][:max(fn.argc, 1)], after, tag)
        if v[0] == 'fn':
            rec = self.fnrecs[v[1]]
            fn = self.prog.fns.get(rec.get('ruid') or rec.get('uid'))
            if fn is not None:
                raise Enter(fn, [], after, tag)
        raise Undecided('spawn of %r' % (f0[:2],))

    def spawn(self, st, args, call):
        m = M(st.mon)
        f = args[-1]
        if not m.live and self.root is None and self.kind != 'single-threaded server':
            n = len([e for e in m.log if e[0] == 'spawn'])
            if n > 64:
                raise Undecided('too many workers')
            m.log = m.log + (('spawn', n),)
            st.mon = m.tup()
            s = st.copy()
            s.frames = []
            self.spawned.setdefault(n, Root(n, f, s))
            return ('obj', 'jh', n, UNIT)
        if self.root is None and self.kind != 'single-threaded server':
            raise Undecided('a worker is started late')
        m.inl += 1
        m.fin = None
        st.mon = m.tup()
        self.run_body(st, f, self.spawned_ran)

    def spawned_ran(self, E, s, ret):
        x = M(s.mon)
        x.inl -= 1
        s.mon = x.tup()
        return ('obj', 'jh', 'inline', ret)

    def join_(self, st, args, call):
        v = st.norm(self.deref(st, args[0]))
        if v[0] != 'obj' or v[1] != 'jh':
            raise Undecided('join of %r' % (v[:2],))
        m = M(st.mon)
        if v[2] == 'inline':
            if self.stoppable and not m.fin:
                self.say(st, 'S02', 'blocked-join', 'waits for a connection without looking for the order to stop')
            return ok(v[3])
        if self.root is None:
            m.log = m.log + (('join', v[2]),)
            st.mon = m.tup()
            return ok(v[3])
        raise Undecided('join of a worker')

    def block_on(self, E, st, a, c):
        self.run_body(st, a[-1], None)

    def poll(self, E, st, a, c):
        cell, p = self.loc(st, a[0])
        v = self.read(st, cell, p)
        while v[0] in ('ref', 'box'):
            if v[0] == 'ref':
                cell, p = v[1], v[2]
            else:
                p = p + (('b',),)
            v = self.read(st, cell, p)
        if v[0] == 'obj' and v[1] == 'md':
            if v[3] != NONE:
                return ready(UNIT)
            self.run_body(st, v[2], self.future_ran, ('ref', cell, p))
        if v[0] == 'obj' and v[1] == 'jh' and v[2] == 'inline':
            return ready(ok(v[3]))
        return NotImplemented

    def future_ran(self, E, s, ret):
        r = self.ret_tag
        self.write(s, r[1], r[2], ('obj', 'md', UNIT, some(ret)))
        return ready(UNIT)

    def take_output(self, E, st, a, c):
        cell, p = self.loc(st, a[0])
        v = self.read(st, cell, p)
        self.write(st, cell, p, ('obj', 'md', UNIT, NONE))
        return v[3]

    # ------------------------------------------------------------ a request from a client
    def done(self, st):
        """the request in hand must have been dealt with"""
        m = M(st.mon)
        if m.shut:
            self.say(st, 'S01', 'unsignalled', 'a shutdown command was executed and the server is not told')
            raise Infeasible()
        if m.rid is None:
            return
        if m.src == 'client':
            if m.rep is None and not m.nosnd and m.stop is None:
                self.say(st, 'R01', 'unanswered', 'a request is left without an answer')
                raise Infeasible()
        elif m.src == 'msg':
            if m.rep is None and m.sent is None and m.stop is None:
                if m.exp is not None and m.exp[0] == 'err':
                    self.say(st, 'E02', 'swallowed', 'an error found while analysing a request is not reported')
                self.say(st, 'R01', 'dropped', 'a request is dropped on the way without its outcome being passed on')
                raise Infeasible()

    def fresh_request(self, st, src):
        m = M(st.mon)
        m.rid = st.fresh_id()
        m.src = src
        m.auth = 'ok' if src == 'msg' else None
        m.exp = m.sent = m.rep = m.chan = None
        m.nosnd = False
        return m

    def text(self, rid):
        return ('sym', ('op', 'text', rid), self.str_t)

    def receive(self, st, args, call):
        self.go_live(st)
        self.done(st)
        m = M(st.mon)
        if m.stop is not None:
            self.say(st, 'S02', 'ignores', 'takes another request after it was told to stop')
            raise Infeasible()
        if self.stoppable:
            if not m.polled:
                self.say(st, 'S02', 'unpolled', 'takes requests without looking for the order to stop')
                raise Infeasible()
            m.polled = False
            st.mon = m.tup()
        if self.kind == 'single-threaded server' and m.exp is not None and m.exp[-1] == 'shut' and m.exp[0] == 'result':
            self.say(st, 'S01', 'goes-on', 'the server goes on after it executed a shutdown command')
            raise Infeasible()
        t = call.dty
        if t.path == 'std::task::Poll':
            t = t.args[0]
        opt = t.path == 'std::option::Option'
        rt = t.args[0] if opt else t
        self.uses.add(('client', ''))
        outs = []
        for what in ('request', 'unreadable', 'no connection'):
            s = st.copy()
            m = self.fresh_request(s, 'client')
            rid = m.rid
            fs = []
            for n, ft in rt.variants[0][2]:
                if n == 'request':
                    fs.append(ok(self.text(rid)) if what == 'request' else err(mk(('op', 'readerr', rid), ft.args[1])))
                elif n == 'headers':
                    fs.append(mk(('op', 'headers', rid), ft))
                elif n == 'sender':
                    fs.append(NONE if what == 'no connection' else some(mk(('op', 'conn', rid), ft.args[0])))
                else:
                    fs.append(mk(('op', 'rqfield', rid, n), ft))
            if what != 'request':
                m.exp = ('err', ('op', 'readerr', rid))
            m.nosnd = what == 'no connection'
            s.mon = m.tup()
            s.note('receive: %s' % what)
            v = ('adt', rt.path, 0, tuple(fs))
            outs.append((s, some(v) if opt else v))
        return Outs(outs)

    def authenticate(self, E, st, a, c):
        m = M(st.mon)
        h = st.norm(self.deref(st, a[1]))
        if m.rid is None or m.src != 'client':
            self.say(st, 'A02', 'early', 'authentication is asked for without a request')
        elif not (h[0] == 'map' and h[1] == ('op', 'headers', m.rid) and not h[3]):
            ids = [x for x in subterms(h) if isinstance(x, tuple) and x[:2] == ('op', 'headers')]
            if not ids or any(x[2] != m.rid for x in ids) or True:
                self.say(st, 'A02', 'headers', 'authentication is asked with other headers than those of the request')
        outs = []
        rid = m.rid

        def alt(note, auth, v, exp):
            s = st.copy()
            x = M(s.mon)
            x.auth = auth
            x.exp = exp
            s.mon = x.tup()
            s.note('authentication: ' + note)
            outs.append((s, v))
        vn = {v[0]: n for n, v in enumerate(self.res_t.variants)}
        yes = self.res_t.variants[vn['Authenticated']]

        def granted(lv):
            fs = []
            for n, ft in yes[2]:
                if ft.k == 'adt' and ft.path == 'std::option::Option':
                    fs.append(lv)
                else:
                    fs.append(mk(('op', 'user', rid), ft))
            return ok(('adt', self.res_t.path, vn['Authenticated'], tuple(fs)))
        alt('granted', 'ok', granted(some(mk(('op', 'level', rid), self.lvl_t))), None)
        alt('no level', 'nolevel', granted(NONE), ('kind', 'AuthorizationError'))
        alt('rejected', 'no', ok(('adt', self.res_t.path, vn['Unauthenticated'], ())), ('kind', 'AuthenticationError'))
        alt('failed', 'err', err(mk(('op', 'autherr', rid), self.err_t)), ('err', ('op', 'autherr', rid)))
        return Outs(outs)

    # ------------------------------------------------------------ analysis
    def tokenizer_new(self, E, st, a, c):
        return mk(('op', 'tz', st.norm(self.deref(st, a[0]))), c.dty)

    def parser_new(self, E, st, a, c):
        return mk(('op', 'ps', st.norm(self.deref(st, a[0]))), c.dty)

    def source(self, st, a, kind):
        v = st.norm(self.deref(st, a[0]))
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][:2] == ('op', kind):
            return v[1][2]
        raise Undecided('%s of %r' % (kind, v[:2]))

    def outcome_of(self, st, what, good, bad):
        outs = []
        for b in (True, False):
            s = st.copy()
            if b:
                outs.append((s, ok(good)))
            else:
                m = M(s.mon)
                m.exp = ('err', bad[1])
                s.mon = m.tup()
                s.note(what)
                outs.append((s, err(bad)))
        return Outs(outs)

    def tokenize(self, E, st, a, c):
        x = self.source(st, a, 'tz')
        self.busy(st, 'analysed')
        i = x[1] if x[0] == 'sym' else x
        self.check_text(st, x)
        vt = c.dty.args[0]
        return self.outcome_of(st, 'lexical error', mk(('op', 'tokens', i), vt), mk(('op', 'lexerr', i), self.err_t))

    def check_text(self, st, x):
        m = M(st.mon)
        while x[0] == 't' and x[1] in ('trim', 'trim_end', 'trim_start'):
            x = x[2]
        if m.rid is None:
            return
        if x == self.text(m.rid) or x[0] == 'sym' and x[1] == ('op', 'text', m.rid):
            return
        if any(isinstance(y, tuple) and y[:2] == ('op', 'text') and y[2] != m.rid for y in subterms(x)):
            self.say(st, 'R02', 'text', 'the text of another request is analysed')
        elif x[0] == 't' or x[0] == 'str':
            self.say(st, 'E02', 'text', 'another text than that of the request is analysed: %s' % str(x[:2]))
        else:
            raise Undecided('text %r' % (x[:2],))

    def parse(self, E, st, a, c):
        x = self.source(st, a, 'ps')
        self.busy(st, 'analysed')
        b = x[1] if x[0] == 'vec' else None
        if x[0] == 'vec' and not any(isinstance(y, tuple) and y[:2] == ('op', 'tokens') for y in subterms(x)) and M(st.mon).rid is not None:
            self.say(st, 'E02', 'tokens', 'other tokens than those of the request are parsed')
            raise Infeasible()
        if not (isinstance(b, tuple) and b[:2] == ('op', 'tokens')):
            raise Undecided('parsed tokens %r' % (x[:2],))
        if x[2] != ('lin', ('len', b), 0, 'usize') or x[3]:
            self.say(st, 'E02', 'tokens', 'not all tokens of the request are parsed')
        i = b[2]
        return self.outcome_of(st, 'syntax error', mk(('op', 'stmts', i), c.dty.args[0]), mk(('op', 'synerr', i), self.err_t))

    # ------------------------------------------------------------ execution
    def request_parts(self, st, v):
        """(statements, level) of an interpreter request"""
        v = st.norm(self.deref(st, v))
        r = None
        if v[0] == 'adt':
            ty = self.prog.adt_type(v[1])
            r = dict(zip([n for n, _ in ty.variants[0][2]], v[3]))
        elif v[0] == 'sym':
            w = self.expand(st, v, 0)
            ty = v[2]
            r = dict(zip([n for n, _ in ty.variants[0][2]], w[3]))
        if r is None or 'statements' not in r or 'authorization' not in r:
            raise Undecided('request %r' % (v[:2],))
        return st.norm(r['statements']), st.norm(r['authorization'])

    def is_sweep(self, st, v):
        if v[0] == 'vec' and v[1] is None and v[2] == ('int', 1):
            x = st.norm(self.vec_read(st, v, ('int', 0)))
            return x[0] == 'adt' and self.stmt_t.variants[x[2]][0] == 'ExpireKeys'
        return False

    def check_statements(self, st, v, lv, doing):
        """statements about to be executed (or handed on for execution) are exactly those of the request in hand, with its level"""
        m = M(st.mon)
        if self.is_sweep(st, v):
            if m.src == 'client' or m.src == 'msg':
                self.say(st, 'A04', 'sweep', '%s a sweep instead of the request' % doing)
            return 'sweep'
        if m.rid is None or m.src == 'sweep':
            self.say(st, 'A04', 'unasked', '%s commands nobody asked for' % doing)
            return None
        b = v[1] if v[0] == 'vec' else None
        if not (isinstance(b, tuple) and b[:2] == ('op', 'stmts')):
            if v[0] == 'vec' and not any(isinstance(y, tuple) and y[:2] == ('op', 'stmts') for y in subterms(v)):
                self.say(st, 'E02', 'statements', '%s commands that are not those of the request' % doing)
                return None
            if v[0] == 'vec':
                self.say(st, 'E02', 'statements', '%s a changed list of commands' % doing)
                return None
            raise Undecided('statements %r' % (v[:2],))
        x = b[2]
        while isinstance(x, tuple) and x[0] == 't' and x[1].startswith('trim'):
            x = x[2] if x[2][0] == 't' else x[2][1]
        if x != ('op', 'text', m.rid):
            self.say(st, 'R02', 'statements', '%s the commands of another request' % doing)
            return None
        if v[2] != ('lin', ('len', b), 0, 'usize') or v[3]:
            self.say(st, 'E02', 'statements', '%s a changed list of commands' % doing)
        if m.src == 'client' and m.auth != 'ok':
            self.say(st, 'A02', 'unauthorized', '%s a request whose sender was not authenticated and authorized' % doing)
        if not (lv[0] == 'sym' and lv[1] == ('op', 'level', m.rid)):
            self.say(st, 'A02', 'level', '%s a request with another privilege than its sender was granted' % doing)
        if m.exp is not None and m.exp[0] == 'err' and m.src == 'client':
            self.say(st, 'E02', 'error-run', '%s a request although it could not be analysed' % doing)
        return 'request'

    def store_of(self, st, v):
        v = self.deref(st, v)
        for x in subterms(v):
            if isinstance(x, tuple) and x[:2] == ('op', 'store'):
                return x[2]
        return None

    def interpret(self, E, st, a, c):
        m = M(st.mon)
        self.uses.add(('interprets', m.held))
        self.busy(st, 'executed')
        s0 = self.store_of(st, a[0])
        if s0 is None:
            raise Undecided('which store a request runs on')
        if m.store is not None and m.store != s0:
            self.say(st, 'X01', 'store', 'requests run on more than one store')
        m.store = s0
        self.uses.add(('store', s0 if isinstance(s0, str) else 'own'))
        if m.inl and not m.held:
            self.say(st, 'X01', 'concurrent', 'requests are executed by several tasks at once')
        st.mon = m.tup()
        sv, lv = self.request_parts(st, a[1])
        k = self.check_statements(st, sv, lv, 'executes')
        m = M(st.mon)
        if k != 'sweep' and m.exp is not None and m.exp[0] == 'result':
            self.say(st, 'E01', 'twice', 'a request is executed twice')
        rid = m.rid
        outs = []
        vs = [v[0] for v in self.resp_t.variants]
        sd = vs.index('ShuttingDown')
        for w in ('ok', 'shut', 'err'):
            if k == 'sweep' and w == 'shut':
                continue
            s = st.copy()
            x = M(s.mon)
            if k != 'sweep':
                x.exp = ('result', rid, w)
                x.shut = w == 'shut' and self.kind != 'single-threaded server'
            s.mon = x.tup()
            if w == 'ok':
                r = mk(('op', 'answer', rid), self.resp_t)
                s.assume_variants(r[1], frozenset(range(len(vs))) - {sd})
                r = ok(r)
            elif w == 'shut':
                r = ok(('adt', self.resp_t.path, sd, ()))
                s.note('a shutdown command is executed')
            else:
                r = err(mk(('op', 'failure', rid), self.err_t))
                s.note('execution fails')
            outs.append((s, r))
        return Outs(outs)

    # ------------------------------------------------------------ answers
    def expected(self, st, v, how):
        """the answer is the one the request in hand must get"""
        m = M(st.mon)
        var, pl = pick(self, st, v)
        pl = st.norm(self.deref(st, pl)) if pl is not None else None
        e = m.exp
        if e is None:
            if m.sent == 'failed' or m.sent == 'sent' and m.rep is None and e is None and var == 'Err':
                # handed on, and no answer came back
                if var == 'Err':
                    return
            if var == 'Err' and m.src == 'client' and m.auth is None:
                raise Undecided('answered before authentication')
            self.say(st, 'R02', 'unfounded', '%s something that is not the result of the request' % how)
            return
        if e[0] == 'err':
            if not (var == 'Err' and pl[0] == 'sym' and pl[1] == e[1]):
                cls = 'E02' if e[1][1] in ('lexerr', 'synerr') else 'A02' if e[1][1] == 'autherr' else 'R02'
                self.say(st, cls, 'wrong-error', '%s something else than the error of the request' % how)
                if cls == 'A02' or cls == 'E02':
                    self.foreign(st, pl, how)
        elif e[0] == 'kind':
            if var != 'Err' or pick(self, st, pl)[0] != e[1]:
                self.say(st, 'A02', 'refusal', '%s %s instead of %s' % (how, 'a success' if var == 'Ok' else pick(self, st, pl)[0], e[1]))
        elif e[0] == 'result':
            good = {'ok': lambda: var == 'Ok' and pl[0] == 'sym' and pl[1] == ('op', 'answer', e[1]),
                    'err': lambda: var == 'Err' and pl[0] == 'sym' and pl[1] == ('op', 'failure', e[1]),
                    'shut': lambda: var == 'Ok' and pick(self, st, pl)[0] == 'ShuttingDown'}[e[2]]()
            if not good:
                self.say(st, 'R02', 'wrong-result', '%s something else than the result of the request' % how)
                self.say(st, 'R01', 'wrong-result', '%s something else than the result of the request' % how)

    def foreign(self, st, pl, how):
        m = M(st.mon)
        if pl is not None and any(isinstance(x, tuple) and len(x) == 3 and x[0] == 'op' and x[1] in ('answer', 'failure', 'lexerr', 'synerr', 'readerr', 'autherr') and not has(x[2], m.rid) for x in subterms(pl)):
            self.say(st, 'R02', 'foreign', '%s the outcome of another request' % how)

    def reply(self, st, args, call):
        m = M(st.mon)
        self.busy(st, 'answered')
        s = self.deref(st, args[0])
        ids = {x[2] for x in subterms(s) if isinstance(x, tuple) and len(x) == 3 and x[:2] == ('op', 'conn')}
        if len(ids) != 1:
            raise Undecided('answer on %r' % (s[:2],))
        if m.rid is None or ids != {m.rid}:
            self.say(st, 'R02', 'connection', 'answers on the connection of another request')
        else:
            if m.rep == 'done':
                self.say(st, 'R01', 'twice', 'a request is answered twice')
                raise Infeasible()
            self.expected(st, args[1], 'answers with')
        m = M(st.mon)
        outs = []
        for b in ('done', 'failed'):
            s = st.copy()
            x = M(s.mon)
            x.rep = b
            s.mon = x.tup()
            if b == 'failed':
                s.note('answering fails')
            outs.append((s, ok(UNIT) if b == 'done' else err(mk(('op', 'neterr', 0), self.err_t))))
        return Outs(outs)

    # ------------------------------------------------------------ channels
    def tx_of(self, st, v):
        v = st.norm(self.deref(st, v))
        if v[0] == 'obj' and v[1] in ('tx', 'rx'):
            return v
        if v[0] == 'sym' and isinstance(v[1], tuple) and v[1][:2] == ('op', 'back'):
            return v
        raise Undecided('channel %r' % (v[:2],))

    def leaves(self, st, v, d=0):
        """the parts of a message that matter: (kind, value)"""
        v = st.norm(self.deref(st, v)) if v[0] in ('ref', 'box', 'arc') else st.norm(v)
        if d > 8:
            return
        if v[0] == 'adt':
            ty = self.prog.adt_type(v[1])
            if v[1] == self.lvl_t.path:
                yield 'level', v
            elif ty is self.ireq_t or ty is not None and ty.path == self.ireq_t.path:
                yield 'request', v
            elif v[1] == 'std::result::Result':
                yield 'answer', v
            elif ty is not None and ty.path == self.stmt_t.path:
                return
            else:
                for x in v[3]:
                    yield from self.leaves(st, x, d + 1)
        elif v[0] == 'tup':
            for x in v[1]:
                yield from self.leaves(st, x, d + 1)
        elif v[0] == 'sym':
            t = v[2]
            if t.k == 'str' or t.k == 'adt' and t.path == 'std::string::String':
                yield 'text', v
            elif t.k == 'adt' and t.path == self.lvl_t.path:
                yield 'level', v
            elif t.k == 'adt' and t.path == self.ireq_t.path:
                yield 'request', v
            elif t.k == 'adt' and t.path == 'std::result::Result':
                yield 'answer', v
            elif t.k == 'adt' and t.path == 'std::option::Option' and 'Sender' in t.s:
                yield 'back', v
            elif isinstance(v[1], tuple) and v[1][:2] == ('op', 'back'):
                yield 'back', v
        elif v[0] in ('t', 'str'):
            yield 'text', v
        elif v[0] == 'obj' and v[1] == 'tx':
            yield 'back', v
        elif v[0] == 'vec' and v[4] is not None and v[4].k == 'adt' and v[4].path == self.stmt_t.path:
            yield 'statements', v

    def send(self, st, args, call):
        tx = self.tx_of(st, args[0])
        m = M(st.mon)
        msg = args[1]
        setup = tx[0] == 'obj' and isinstance(tx[2][1], str)
        if setup:
            return self.hand_on(st, tx, msg, call)
        if tx[0] == 'obj':
            raise Undecided('a message to a channel of the worker itself')
        # the answer, back to whoever waits for it
        self.busy(st, 'answered')
        if m.rid is None or tx[1] != ('op', 'back', m.rid):
            self.say(st, 'R02', 'connection', 'passes an outcome back to another request')
        else:
            if m.rep == 'done':
                self.say(st, 'R01', 'twice', 'an outcome is passed back twice')
                raise Infeasible()
            if m.sent == 'sent':
                self.say(st, 'R01', 'twice', 'a request that was handed on is answered as well')
                raise Infeasible()
            for k, v in self.leaves(st, msg):
                if k == 'answer':
                    self.expected(st, v, 'passes back')
                    break
            else:
                raise Undecided('message without an outcome')
        outs = []
        for b in ('done', 'failed'):
            s = st.copy()
            x = M(s.mon)
            x.rep = b
            s.mon = x.tup()
            if b == 'failed':
                s.note('nobody waits for the outcome')
            outs.append((s, ok(UNIT) if b == 'done' else err(('adt', 'std::sync::mpsc::SendError', 0, (msg,)))))
        return Outs(outs)

    def hand_on(self, st, tx, msg, call):
        """a request is handed to the next stage"""
        m = M(st.mon)
        self.uses.add(('send', tx[2][1]))
        lv = list(self.leaves(st, msg))
        d = {}
        for k, v in lv:
            d.setdefault(k, []).append(v)
        sweep = False
        if 'request' in d:
            sv, lvl = self.request_parts(st, d['request'][0])
            sweep = self.check_statements(st, sv, lvl, 'hands on') == 'sweep'
        elif 'statements' in d:
            if 'level' not in d:
                raise Undecided('commands handed on without a level')
            sweep = self.check_statements(st, st.norm(d['statements'][0]), st.norm(d['level'][0]), 'hands on') == 'sweep'
        elif 'text' in d and m.rid is not None:
            tx_ = [v for v in d['text']]
            if not any(v == self.text(m.rid) or v[0] == 'sym' and v[1] == ('op', 'text', m.rid) for v in tx_):
                if any(isinstance(y, tuple) and y[:2] == ('op', 'text') and y[2] != m.rid for v in tx_ for y in subterms(v)):
                    self.say(st, 'R02', 'text', 'hands on the text of another request')
                else:
                    for v in tx_:
                        self.check_text(st, v)
            if m.src == 'client' and m.auth != 'ok':
                self.say(st, 'A02', 'unauthorized', 'hands on a request whose sender was not authenticated and authorized')
            for v in d.get('level', []):
                if not (v[0] == 'sym' and v[1] == ('op', 'level', m.rid)):
                    self.say(st, 'A02', 'level', 'hands on a request with another privilege than its sender was granted')
            if not d.get('level'):
                raise Undecided('a request handed on without a level')
        else:
            raise Undecided('message of another kind')
        if not sweep:
            self.busy(st, 'answered')
            back = d.get('back', [])
            good = False
            for v in back:
                if m.src == 'msg' and v[0] == 'sym' and has(v[1], ('op', 'back', m.rid)):
                    good = True
                elif m.src == 'client' and v[0] == 'obj' and m.chan is not None and v[2] == m.chan:
                    good = True
                elif v[0] == 'obj' and v[2] != m.chan or v[0] == 'sym' and not has(v[1], m.rid):
                    self.say(st, 'R02', 'channel', 'the answer of a request is directed to another request')
                    good = True
            if not good:
                self.say(st, 'R01', 'no-way-back', 'a request is handed on without a way to answer it')
            if m.sent == 'sent':
                self.say(st, 'E01', 'twice', 'a request is handed on twice')
                raise Infeasible()
            if m.rep == 'done':
                self.say(st, 'R01', 'twice', 'a request that was answered is handed on as well')
                raise Infeasible()
        else:
            self.uses.add(('sweeps', tx[2][1]))
            for v in d.get('back', []):
                self.say(st, 'R02', 'channel', 'the outcome of a sweep is sent to a client')
        s1 = st.copy()
        if not sweep:
            x = M(s1.mon)
            x.sent = 'sent'
            s1.mon = x.tup()
        outs = [(s1, ok(UNIT))]
        s2 = st.copy()
        x = M(s2.mon)
        x.handover = True
        if not sweep:
            x.sent = 'failed'
            x.exp = None
        s2.mon = x.tup()
        s2.note('the next stage is gone')
        outs.append((s2, err(('adt', 'std::sync::mpsc::SendError', 0, (msg,)))))
        return Outs(outs)

    def recv(self, st, args, call):
        rx = self.tx_of(st, args[0])
        name = strip_generics(call.path).split('::')[-1]
        bounded = 'timeout' in name or 'try' in name
        t = call.dty
        if t.path == 'std::task::Poll':
            t = t.args[0]
        isopt = t.path == 'std::option::Option'
        mt = t.args[0]
        wrap = some if isopt else ok
        if rx[0] == 'obj' and isinstance(rx[2][1], str):
            self.go_live(st)
            # the next message of a stage
            self.done(st)
            m = M(st.mon)
            self.uses.add(('recv', rx[2][1]))
            if m.stop is not None:
                self.say(st, 'S02', 'ignores', 'takes another request after it was told to stop')
                raise Infeasible()
            if self.stoppable:
                if not bounded:
                    self.say(st, 'S02', 'blocked', 'waits for requests without a time limit and may never see the order to stop')
                if not m.polled:
                    self.say(st, 'S02', 'unpolled', 'takes requests without looking for the order to stop')
                    raise Infeasible()
                m.polled = False
            m.rid = None
            m.src = None
            st.mon = m.tup()
            outs = []
            s = st.copy()
            m = self.fresh_request(s, 'msg')
            s.mon = m.tup()
            v, kinds = self.message(s, mt, m.rid)
            s.note('next message')
            outs.append((s, wrap(v)))
            if 'request' in kinds or 'statements' in kinds:
                s = st.copy()
                m = self.fresh_request(s, 'sweep')
                m.nosnd = True
                s.mon = m.tup()
                v, kinds = self.message(s, mt, m.rid, sweep=True)
                s.note('next message: a sweep')
                outs.append((s, wrap(v)))
            if bounded:
                s = st.copy()
                s.note('no message')
                outs.append((s, NONE if isopt else err(('adt', 'std::sync::mpsc::RecvTimeoutError', 0, ()))))
            return Outs(outs)
        # the answer to the request in hand
        self.busy(st, 'executed')
        m = M(st.mon)
        if m.chan is None or rx[2] != m.chan:
            self.say(st, 'R02', 'channel', 'waits for the answer of another request')
        outs = []
        if m.sent == 'sent':
            for w in ('ok', 'err'):
                s = st.copy()
                x = M(s.mon)
                x.exp = ('result', m.rid, w)
                s.mon = x.tup()
                r = ok(mk(('op', 'answer', m.rid), self.resp_t)) if w == 'ok' else err(mk(('op', 'failure', m.rid), self.err_t))
                outs.append((s, wrap(self.answer(s, mt, r))))
        s = st.copy()
        s.note('no outcome comes back')
        outs.append((s, NONE if isopt else err(('adt', 'std::sync::mpsc::RecvTimeoutError', 0, ()))))
        return Outs(outs)

    def answer(self, st, t, r):
        if t.k == 'adt' and t.path == 'std::result::Result':
            return r
        if t.k == 'adt' and t.variants and len(t.variants) == 1:
            return ('adt', t.path, 0, tuple(self.answer(st, ft, r) for _, ft in t.variants[0][2]))
        if t.k == 'tuple':
            return ('tup', tuple(self.answer(st, x, r) for x in t.args))
        return st.fresh(t)

    def message(self, st, t, rid, sweep=False, kinds=None):
        """an arbitrary message of a stage, by its type"""
        kinds = set() if kinds is None else kinds
        if t.k == 'adt':
            p = t.path
            if p == 'std::string::String':
                return self.text(rid), kinds
            if p == self.lvl_t.path:
                if sweep:
                    return ('adt', p, [v[0] for v in self.lvl_t.variants].index('Admin'), ()), kinds
                return mk(('op', 'level', rid), t), kinds
            if p == 'std::vec::Vec' and t.args[0].k == 'adt' and t.args[0].path == self.stmt_t.path:
                kinds.add('statements')
                if sweep:
                    n = [v[0] for v in self.stmt_t.variants].index('ExpireKeys')
                    x = ('adt', self.stmt_t.path, n, ())
                    return ('vec', None, ('int', 1), ((('int', 0), x),), t.args[0]), kinds
                return mk(('op', 'stmts', ('op', 'text', rid)), t), kinds
            if p == 'std::option::Option' and 'Sender' in t.args[0].s:
                return (NONE if sweep else some(mk(('op', 'back', rid), t.args[0]))), kinds
            if 'Sender' in p.split('::')[-1]:
                return mk(('op', 'back', rid), t), kinds
            if p == self.ireq_t.path:
                kinds.add('request')
            if t.variants and len(t.variants) == 1 and p.startswith(('server', 'async_server', 'multi_server', 'simple_server')):
                return ('adt', p, 0, tuple(self.message(st, ft, rid, sweep, kinds)[0] for _, ft in t.variants[0][2])), kinds
            return st.fresh(t), kinds
        if t.k == 'tuple':
            return ('tup', tuple(self.message(st, x, rid, sweep, kinds)[0] for x in t.args)), kinds
        return st.fresh(t), kinds


def mutexes(st, v):
    """names of the locks reachable from a value"""
    seen, out = set(), set()
    work = [v]
    while work:
        x = work.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] in ('mx', 'chan', 'at') and len(x) == 2 and isinstance(x[1], str):
            out.add(x)
        if x in st.mem:
            if x not in seen:
                seen.add(x)
                work.append(st.mem[x])
            continue
        work.extend(y for y in x if isinstance(y, tuple) or isinstance(y, str) and y in st.mem and y not in seen)
    return out


def run_variant(ctx, found, kind, path):
    p = ctx.prog
    f = ctx.anchor(path)
    E = Serve(ctx, found, kind, max_steps=200000, max_time=TIME)
    E.what = kind
    E.unroll = 32
    st = State()
    st.mon = START
    E.push_frame(st, f, [])
    E.go([st])
    ctx.done(E, kind)
    mains = list(E.outcomes)
    roots = [E.spawned[n] for n in sorted(E.spawned)]
    main_uses = set(E.uses)
    single = kind == 'single-threaded server'
    panics = dict(E.panics)
    logs = {M(s.mon).log for s, _ in mains}
    # only the end of its runtime stops the workers of the async server
    joins = any(e[0] == 'join' for lg in logs for e in lg) or kind == 'multithreaded server'
    if single:
        for s, v in mains:
            m = M(s.mon)
            if not (m.exp is not None and m.exp[0] == 'result' and m.exp[2] == 'shut'):
                E.say(s, 'S01', 'stops', 'the server stops although no shutdown command was executed')
                E.say(s, 'R03', 'stops', 'the server stops although no shutdown command was executed')
            E.done(s) if guard(E, s) else None
        if not mains and not E.undecided:
            found.append(('S01', 'never', '%s: the server never stops, not even for a shutdown command' % kind, kind, [], (), kind))
    reach = {r.n: mutexes(r.st, r.v) for r in roots}
    for r in roots:
        fn = p.fns.get(r.v[1]) if r.v[0] in ('clo', 'cor') else None
        r.name = worker_name(p, fn)
        W = Serve(ctx, found, kind, max_steps=200000, max_time=TIME)
        W.shared = {x for x in reach[r.n] if x[0] == 'mx' and sum(x in reach[q] for q in reach) > 1}
        W.root = r
        W.main = False
        W.stoppable = joins
        W.what = '%s, %s' % (kind, r.name)
        st = r.st.copy()
        m = M(START)
        m.live = True
        st.mon = m.tup()
        try:
            W.run_body(st, r.v, None)
        except Enter as e:
            W.push_frame(st, e.fn, e.args)
        W.join_mode = False
        W.go([st])
        ctx.done(W, W.what)
        r.uses = W.uses
        r.E = W
        panics.update({(k[0], k[1], r.n): v for k, v in W.panics.items()})
        rep_roots(ctx, W, r)
        live = [s for s, v in W.outcomes if not M(s.mon).handover]
        for s in live:
            m = M(s.mon)
            r.outs.append(m.stop)
            if m.stop is None:
                W.say(s, 'R03', 'ends', 'the worker ends although nobody told it to')
                W.say(s, 'S02', 'ends', 'the worker ends although nobody told it to')
            if m.held:
                W.say(s, 'X02', 'leaked', 'ends while holding a lock')
        if joins and not live and not W.undecided and not found:
            found.append(('S02', 'endless:%s' % r.name, '%s never ends, not even when told to' % W.what, W.what, [], (), kind))
    for key, (w, tr, taint, fr) in sorted(panics.items(), key=repr):
        found.append(('R03', 'panic:%s' % key[0], '%s: a worker panics (%s)' % (kind, key[0]), w, tr, taint, kind))
    if not single:
        shutdown_order(ctx, found, kind, E, mains, roots, logs, joins)
        one_store(ctx, found, kind, roots)
    ctx.samples.append({'server': kind, 'workers': [(r.name, sorted(map(str, r.uses))[:12]) for r in roots], 'main thread': [list(map(str, lg)) for lg in sorted(logs)][:3]})
    return E, roots


def guard(E, s):
    return True


def rep_roots(ctx, W, r):
    ctx.rep.ok('workers analysed')


def worker_name(p, fn):
    if fn is None:
        return 'worker'
    q = fn.path.split('::{closure')[0]
    return 'worker started in ' + q


def shutdown_order(ctx, found, kind, E, mains, roots, logs, joins):
    sigs = {u[1] for r in roots for u in r.uses if u[0] == 'signals'}
    stops = set()

    def say(key, msg, cls='S02'):
        found.append((cls, key, '%s: %s' % (kind, msg), kind, [], (), kind))
    if E.undecided:
        return
    if not logs:
        say('main', 'the main thread never ends')
        return
    for lg in sorted(logs):
        saw = [i for i, e in enumerate(lg) if e[0] == 'saw']
        if not saw:
            say('main-ends', 'the main thread ends without shutdown having been signalled', 'S01')
            say('main-ends', 'the main thread ends without shutdown having been signalled')
            continue
        if lg[saw[0]][1] not in sigs:
            say('signal-lost', 'the flag the main thread waits for is not the one that is set when a shutdown command was executed', 'S01')
        for i, e in enumerate(lg):
            if e[0] == 'set' and e[2] is True:
                stops.add(e[1])
                if i < saw[0]:
                    say('early-stop', 'workers are told to stop before shutdown was signalled')
        if not joins:
            continue
        pos = {}
        for i, e in enumerate(lg):
            if e[0] == 'join':
                pos[e[1]] = i
        told = {}
        for r in roots:
            fl = {u[1] for u in r.uses if u[0] == 'flag'}
            at = [i for i, e in enumerate(lg) if e[0] == 'set' and e[2] is True and e[1] in fl]
            told[r.n] = min(at) if at else None
            if r.n not in pos:
                say('unjoined:%s' % r.name, 'shutdown does not wait for the %s' % r.name)
            elif told[r.n] is None or told[r.n] > pos[r.n]:
                say('untold:%s' % r.name, 'shutdown waits for the %s without having told it to stop' % r.name)
        for c in roots:
            for u in c.uses:
                if u[0] != 'recv' or told[c.n] is None:
                    continue
                for q in roots:
                    if q is not c and ('send', u[1]) in q.uses and (q.n not in pos or pos[q.n] > told[c.n]):
                        say('order:%s' % c.name, 'the %s is told to stop while the %s can still send it work' % (c.name, q.name))
    for r in roots:
        for x in set(r.outs):
            if x is not None and x not in stops and joins:
                say('wrong-flag:%s' % r.name, 'the %s ends on a flag that is not its order to stop' % r.name)
    if not any(M(s.mon).log for s, _ in mains):
        say('main', 'the main thread never ends')


def one_store(ctx, found, kind, roots):
    who = [r for r in roots if any(u[0] == 'interprets' for u in r.uses)]
    if len(who) > 1:
        locks = None
        for r in who:
            for u in r.uses:
                if u[0] == 'interprets':
                    locks = set(u[1]) if locks is None else locks & set(u[1])
        stores = {u[1] for r in who for u in r.uses if u[0] == 'store'}
        if not locks or len(stores) > 1 or 'own' in stores:
            found.append(('X01', 'several', '%s: %d workers execute requests at the same time' % (kind, len(who)), kind, [], (), kind))
    if not who and not any(r.E.undecided for r in roots):
        found.append(('X01', 'nobody', '%s: no worker executes requests' % kind, kind, [], (), kind))


def results(ctx, found):
    for kind, path in VARIANTS:
        run_variant(ctx, found, kind, path)


RULE = {
    'S01': 'a flag that starts shutting down is set exactly on paths on which a shutdown command was executed, and on all of them; the single-threaded server leaves its loop on exactly those paths',
    'S02': 'workers look for the order to stop before each wait, end when they see it and not before, and wait no longer than bounded; the main thread, once told, orders every worker to stop before it joins it, producers before consumers',
    'R01': 'every path from receiving a request back to the next one (or to the end of the worker) answers it exactly once or hands it on with a way to answer it; every stage passes its outcome on',
    'R02': 'what is sent on a connection derives from the text, level and channel of the very request in hand, and is the outcome that request must have',
    'R03': 'no outcome of a request, reply or hand-over ends a worker or panics',
    'X01': 'all requests run on one store; if several workers execute, they do so under a common lock',
    'X02': 'no lock is waited for while another is held; no shared lock is held while a request is analysed, executed or answered; no worker ends holding a lock; failing to get a lock is survived',
    'A02': 'a request is executed or handed on only after its own headers were accepted, with the level granted; each refusal is answered with its documented error',
    'A04': 'what is executed or handed on is the list of commands of the request in hand, or the server\'s own sweep',
    'E01': 'no stage executes or hands on a request twice',
    'E02': 'the whole text is tokenized, all its tokens are parsed, and what is executed is exactly the resulting list of commands; errors of either reach the client',
}
ASSUME = ['one arbitrary request or message at a time, from an arbitrary state of the worker, represents every history: nothing but named channels, flags, locks and the store is shared (checked by construction of the workers)',
          'mpsc channels deliver messages to their receiver in order and at most once; locks and flags behave as documented',
          'a hand-over fails only if the receiving stage has ended']


def make(pid, rule=True):
    def check(ctx):
        from . import recv
        if rule:
            ctx.rule = 'the three servers are built abstractly by running their main functions; every worker they start is then analysed over every path from one arbitrary request or message to the next: ' + RULE[pid]
            ctx.assumptions = list(ASSUME)
        else:
            ctx.rule = getattr(ctx, 'rule', '') + '; in the servers: ' + RULE[pid]
            ctx.assumptions = list(getattr(ctx, 'assumptions', [])) + ASSUME
        found = []
        results(ctx, found)
        if pid in ('A02', 'R01', 'R03'):
            recv.results(ctx, found)
        recv.report(ctx, found, (pid,))
    return check


CHECKS = {p: make(p) for p in ('A02', 'S01', 'S02', 'R01', 'R02', 'R03', 'X01', 'X02')}
EXTRA = {p: make(p, False) for p in ('A04', 'E01', 'E02')}
