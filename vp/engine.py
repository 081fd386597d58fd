"""Abstract interpreter over MIR: worklist over (program point, abstract state), states merged when equal
up to renaming of fresh names, small bounds clamped and growing counters generalised at loop heads."""
import functools
import heapq
import time
from .core import *
from .core import UNS as _uns
from .mem import Mem
from . import prog as P


class Finding:
    def __init__(self, key, msg, where, trace, st=None):
        self.key, self.msg, self.where, self.trace = key, msg, where, trace


class Enter(Exception):
    """model result: run this function body next; `after(E, st, ret)` post-processes its result"""

    def __init__(self, fn, args, after=None, tag=None):
        self.fn, self.args, self.after, self.tag = fn, args, after, tag


IDTAGS = ('.', '@', '*', 'b', 'len', 'el', 'mv', 'op', 'a')


class Engine(Mem):
    drop_consts = False
    far = CL        # cursors up to this far from their name keep it at loop heads

    def __init__(self, prog, client=None, max_steps=400000, max_time=600):
        self.prog = prog
        self.client = client
        self.fnrecs = []
        self.fnidx = {}
        self.hooks = {}
        self.thooks = {}          # (trait suffix, method) -> hook
        self.opaque = set()
        self.max_steps = max_steps
        self.deadline = time.time() + max_time
        self.steps = 0
        self.outcomes = []
        self.findings = {}
        self.unmodelled = {}
        self.visited = {}
        self.masked = {}
        self.reached = set()
        self.callsites = set()
        self.dedups = 0
        self.panics_seen = set()
        self.vec_cap = 4
        self.overflow_checks = True
        self.stop_on_finding = False
        self.keep_locals = False
        self.join_mode = False
        self.strict = False
        self.undecided = {}
        self.summarise_tables = False
        self.progress = False
        self.no_progress = {}
        self.joins = 0
        self.nojoins = {}
        self.part_frames = 2
        self.widen_at = (24, 6, 5)
        self.fact_window = None
        self.sum_shapes = False
        self.diff_keep = 0
        self.unroll = 0           # trips round a loop before integers that change are generalised
        from . import models
        self.models = models.MODELS
        self.tmodels = models.TMODELS
        self.M = models

    # ------------------------------------------------------------ reporting
    def where(self, st):
        if not st.frames:
            return '?'
        fr = st.frames[-1]
        b = fr.fn.blocks[fr.bb]
        sp = b['sp']
        if fr.si < len(b['s']):
            s = b['s'][fr.si]
            if s[0] == '=':
                sp = s[3]
        k = len(st.frames) - 1
        while k > 0 and not sp.startswith(('server/', 'src/')):
            k -= 1
            fr = st.frames[k]
            sp = fr.fn.blocks[fr.bb]['sp']
        return '%s (%s)' % (sp, fr.fn.path)

    def report(self, st, key, msg):
        fn = st.frames[-1].fn.path if st.frames else ''
        if key not in self.findings:
            self.findings[key] = Finding(key, msg, self.where(st), [t for t in st.trace_list()][-60:])

    # ------------------------------------------------------------ constants and operands
    def fnval(self, rec):
        key = (rec['uid'], rec['ty'], rec.get('_c'))
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fnrecs)
            self.fnidx[key] = i
            self.fnrecs.append(rec)
        return ('fn', i)

    def const(self, st, fr, k):
        if 'fn' in k:
            k['_c'] = fr.fn.crate
            return self.fnval(k)
        if 'int' in k:
            return ('int', int(k['int']))
        if 'bool' in k:
            return ('bool', k['bool'])
        if 'char' in k:
            return ('char', k['char'])
        if 'str' in k:
            return ('str', k['str'])
        if 'bytes' in k:
            return ('bytes', tuple(k['bytes']))
        if 'float' in k:
            return ('fl', k['float'])
        if 'promoted' in k:
            return self.promoted(st, k['pdef'], k['promoted'])
        t = self.prog.T(fr.fn.crate, k['ty'])
        if k.get('zst'):
            return self.zst(st, t)
        if 'const' in k:
            f = self.prog.by_path.get(k['const'])
            if f is not None:
                return self.eval_const(st, f)
        return mk(('op', 'const', k.get('const') or k.get('opaque') or t.s), t)

    def zst(self, st, t):
        if t.k == 'tuple':
            return UNIT
        if t.k == 'adt':
            if t.kind == 'struct':
                vs = t.variants
                if vs:
                    return ('adt', t.path, 0, tuple(self.zst(st, f[1]) for f in vs[0][2]))
                return ('adt', t.path, 0, ())
            if len(t.variants) == 1:
                return ('adt', t.path, 0, ())
        if t.k == 'closure':
            return ('clo', t.defuid, ())
        if t.k == 'never':
            return UNIT
        if t.k == 'array':
            return ('vec', None, ('int', 0), (), t.to)
        return mk(('op', 'zst', t.s), t)

    def promoted(self, st, pdef, idx):
        """evaluate a promoted constant: straight-line MIR; returns the referenced constant"""
        f = self.prog.promoted(pdef, idx)
        return self.eval_const(st, f)

    def eval_const(self, st, f):
        cell = 'const:' + f.uid
        if cell in st.mem:
            return st.mem[cell]
        sub = Engine(self.prog, None, max_steps=2000)
        sub.hooks = self.hooks
        sub.keep_locals = True
        sub.strict = True
        sub.fnrecs, sub.fnidx = self.fnrecs, self.fnidx
        s2 = st.copy()
        s2.frames = []
        s2.trace = None
        res = []
        sub.outcome = lambda s, v: res.append((s, v))
        sub.push_frame(s2, f, [])
        sub.run([s2])
        if len(res) != 1:
            raise Undecided('constant %s' % f.uid)
        s3, v = res[0]
        for c, x in s3.mem.items():
            st.mem.setdefault(c, x)
        st.ctr = max(st.ctr, s3.ctr)
        st.mem[cell] = v
        return v

    def resolve(self, st, fr, place):
        """-> (cell, path) or ('content', value)"""
        l, proj = place
        cell = fr.locals.get(l)
        if cell is None:
            cell = st.new_cell(MOVED)
            fr.locals[l] = cell
        path = ()
        var = None
        for n, e in enumerate(proj):
            k = e[0]
            if k == 'd':
                v = self.read(st, cell, path)
                while v[0] == 'arc' or v[0] == 'obj' and v[1] in ('guard', 'drain_ref'):
                    if v[0] == 'arc':
                        v = ('ref', v[1], ())
                    else:
                        v = v[2]
                if v[0] == 'ref':
                    cell, path = v[1], v[2]
                elif v[0] == 'box':
                    path = path + (('b',),)
                elif v[0] == 'moved':
                    raise Undecided('deref of moved value')
                else:
                    # content value behaving like a pointer to itself (str, slices, closures)
                    pass
                var = None
            elif k == 'f':
                path = path + (('f', e[1], var, self.prog.T(fr.fn.crate, e[2])),)
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                ic = fr.locals[e[1]]
                path = path + (('x', self.read(st, ic)),)
            elif k == 'c':
                if e[3]:
                    ln = self.length(st, self.read(st, cell, path))
                    path = path + (('x', self.int_add(st, ln, ('int', -e[1]))),)
                else:
                    path = path + (('x', ('int', e[1])),)
            elif k == 'ss':
                v = self.read(st, cell, path)
                ln = self.length(st, v)
                hi = self.int_add(st, ln, ('int', -e[2])) if e[3] else ('int', e[2])
                sv = self.subslice(st, v, ('int', e[1]), hi)
                cell, path = st.new_cell(sv), ()
            else:
                pass
        return cell, path

    def length(self, st, v):
        v = self.deref(st, v)
        if v[0] == 'vec':
            return v[2]
        if v[0] == 'bytes':
            return ('int', len(v[1]))
        if v[0] == 'obj' and v[1] == 'slice':
            return v[4]
        if v[0] == 'str':
            return ('int', len(v[1].encode()))
        if v[0] == 'sym' and v[2].k in ('slice', 'array'):
            return mk(v[1], v[2])[2]
        if v[0] == 'map':
            return v[2]
        return ('lin', ('len', ('op', 'of', v)), 0, 'usize')

    def subslice(self, st, v, lo, hi):
        v = self.deref(st, v)
        if v[0] == 'obj' and v[1] == 'slice':
            return ('obj', 'slice', v[2], self.int_add(st, v[3], lo), self.int_sub(st, hi, lo))
        if lo == ('int', 0) and v[0] == 'vec' and v[2] == hi:
            return v
        return ('obj', 'slice', v, lo, self.int_sub(st, hi, lo))

    def operand(self, st, fr, o):
        if 'c' in o:
            c, p = self.resolve(st, fr, o['c'])
            return self.read(st, c, p)
        if 'm' in o:
            c, p = self.resolve(st, fr, o['m'])
            v = self.read(st, c, p)
            self._moves.append((c, p))
            return v
        return self.const(st, fr, o['k'])

    def do_moves(self, st):
        for c, p in self._moves:
            self._undo.append((c, st.mem.get(c)))
            if not p:
                if c in st.mem:
                    st.mem[c] = MOVED
            else:
                if not any(e[0] in ('x', 'm') for e in p):
                    try:
                        self.write(st, c, p, MOVED)
                    except (Undecided, Infeasible):
                        pass
        self._moves = []

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k == 'ref':
            pl = r[2]
            c, p = self.resolve(st, fr, pl)
            if pl[1] and pl[1][-1][0] == 'd':
                v = self.read(st, c, p)
                if not r[1] or v[0] in ('str', 'bytes', 't') or v[0] == 'sym' and v[2].k == 'str':
                    base = self.resolve(st, fr, [pl[0], pl[1][:-1]])
                    bv = self.read(st, *base)
                    if bv == v and bv[0] not in ('ref', 'arc', 'box', 'moved'):
                        return v
            return ('ref', c, p)
        if k == 'bin':
            return self.binop(st, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.prog.T(fr.fn.crate, r[4]))
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                v = st.norm(v)
                if v[0] == 'bool':
                    return ('bool', not v[1])
                if v[0] == 'p':
                    return ('p', v[1], not v[2])
                return ('lin', ('op', 'Not', v), 0, v[3] if v[0] == 'lin' else 'u64')
            if r[1] == 'Neg':
                if v[0] == 'int':
                    return ('int', -v[1])
                return ('lin', ('op', 'Neg', v), 0, v[3]) if v[0] == 'lin' else ('t', 'neg', v)
            if r[1] == 'PtrMetadata':
                return self.length(st, v)
            return ('t', 'un' + r[1], v)
        if k == 'disc':
            c, p = self.resolve(st, fr, r[1])
            v = self.read(st, c, p)
            while v[0] in ('ref', 'box'):
                v = self.deref1(st, v)
            return self.discr(st, v, self.prog.T(fr.fn.crate, r[2]))
        if k == 'agg':
            kind = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == 'adt':
                if kind[4] is not None:      # union
                    return ops[0]
                if kind[1] == 'std::pin::Pin':
                    return ops[0]
                return ('adt', kind[1], kind[2], tuple(ops))
            if kind[0] == 'tuple':
                return ('tup', tuple(ops))
            if kind[0] == 'array':
                t = self.prog.T(fr.fn.crate, r[3])
                return ('vec', None, ('int', len(ops)), tuple((('int', i), o) for i, o in enumerate(ops)), t.to)
            if kind[0] == 'closure':
                return ('clo', kind[1], tuple(ops))
            if kind[0] == 'coroutine':
                return ('cor', kind[1], tuple(ops))
            return ('t', 'agg', tuple(ops))
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            t = None
            return ('vec', ('rep', v), ('lin', ('len', ('rep', v)), 0, 'usize'), (), self.prog.types.get('u8'))
        if k == 'cast':
            return self.cast(st, r[1], self.operand(st, fr, r[2]), self.prog.T(fr.fn.crate, r[3]), self.prog.T(fr.fn.crate, r[4]))
        return ('t', 'rv', k)

    def discr(self, st, v, t):
        if v[0] == 'adt':
            if v[1] == 'std::cmp::Ordering':
                return ('int', v[2] - 1)
            return ('int', self.disc_of(t, v[2]))
        if v[0] == 'sym':
            vs = st.variants(v[1], v[2])
            if len(vs) == 1:
                return ('int', self.disc_of(v[2], min(vs)))
            return ('disc', v[1], v[2])
        if v[0] == 'bool':
            return ('int', int(v[1]))
        raise Undecided('discriminant of %r' % (v[:2],))

    def disc_of(self, t, v):
        if t is not None and t.k == 'adt' and t.variants and v < len(t.variants):
            d = t.variants[v][1]
            return int(d)
        return v

    def cast(self, st, kind, v, t, ft):
        v = st.norm(v)
        if kind.startswith('IntToInt'):
            if v[0] == 'int':
                if t.k == 'char':
                    return ('char', chr(v[1]))
                lo, hi = INT.get(t.s, (None, None))
                n = v[1]
                if lo is not None and not lo <= n <= hi:
                    n &= (1 << (hi - lo).bit_length()) - 1
                    if n > hi:
                        n -= (hi - lo + 1)
                return ('int', n)
            if v[0] == 'lin' and t.s in INT:
                lo, hi = INT[t.s]
                l, u = st.lower(v), st.upper(v)
                if l is not None and u is not None and lo <= l and u <= hi:
                    return ('lin', v[1], v[2], t.s)
                return mk(('op', 'cast', v, t.s), t)
            if v[0] == 'char':
                return ('int', ord(v[1]))
            if v[0] == 'bool':
                return ('int', int(v[1]))
            if v[0] == 'disc':
                return v
            return mk(('op', 'cast', v, t.s), t)
        if kind.startswith(('FloatToInt', 'IntToFloat', 'FloatToFloat')):
            return mk(('op', 'cast', v, t.s), t)
        if kind.startswith('Transmute'):
            if t.k == ft.k and t.k not in ('int', 'float'):
                return v
            return v
        return v         # pointer coercions: unsize, reify, ...

    CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}

    def binop(self, st, op, a, b, t):
        a, b = st.norm(a), st.norm(b)
        if op in self.CMP:
            if a[0] == 'disc' or b[0] == 'disc':
                if a[0] != 'disc':
                    a, b = b, a
                if b[0] == 'int':
                    vs = st.variants(a[1], a[2])
                    m = frozenset(x for x in vs if self.disc_of(a[2], x) == b[1])
                    if m == vs:
                        return ('bool', op == 'Eq')
                    if not m:
                        return ('bool', op != 'Eq')
                    i = a[1]
                    raise Split([lambda s: s.assume_variants(i, m), lambda s: s.assume_variants(i, vs - m)])
                if b[0] == 'disc':
                    for x in (a, b):
                        vs = st.variants(x[1], x[2])
                        if len(vs) > 1:
                            raise Split([(lambda s, i=x[1], v=v: s.assume_variants(i, frozenset([v]))) for v in sorted(vs)])
                    r = min(st.variants(a[1], a[2])) == min(st.variants(b[1], b[2]))
                    return ('bool', r == (op == 'Eq'))
            if op in ('Eq', 'Ne'):
                if a[0] == b[0] and a[0] in ('int', 'bool', 'char', 'str') and True:
                    return ('bool', (a == b) == (op == 'Eq'))
                if a == b:
                    return ('bool', op == 'Eq')
                return ('p', ('eq', a, b), op == 'Eq')
            if op == 'Lt':
                return self.mklt(a, b, True)
            if op == 'Gt':
                return self.mklt(b, a, True)
            if op == 'Le':
                return self.mklt(b, a, False)
            if op == 'Ge':
                return self.mklt(a, b, False)
        if t.k == 'bool':
            if op == 'BitAnd':
                return ('bool', self.truth(st, a) & self.truth(st, b))
            if op == 'BitOr':
                return ('bool', self.truth(st, a) | self.truth(st, b))
            if op == 'BitXor':
                return ('bool', self.truth(st, a) ^ self.truth(st, b))
        wo = op.endswith('WithOverflow')
        if wo:
            op = op[:-12]
        if t.k == 'float' or a[0] == 'fl' or b[0] == 'fl':
            return ('t', 'f' + op, a, b)
        lo, hi = INT.get(t.s, (-2**127, 2**127))
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            try:
                n = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y,
                     'Div': lambda: abs(x) // abs(y) * (1 if x * y >= 0 else -1), 'Rem': lambda: abs(x) % abs(y) * (1 if x >= 0 else -1),
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: (x << y), 'Shr': lambda: x >> y, 'AddUnchecked': lambda: x + y, 'SubUnchecked': lambda: x - y,
                     'MulUnchecked': lambda: x * y, 'ShlUnchecked': lambda: x << y, 'ShrUnchecked': lambda: x >> y}[op]()
            except (KeyError, ZeroDivisionError):
                return mk(('op', op, a, b), t)
            ov = not (lo <= n <= hi)
            if ov:
                n = (n - lo) % (hi - lo + 1) + lo
            return ('tup', (('int', n), ('bool', ov))) if wo else ('int', n)
        op0 = op.replace('Unchecked', '')
        if op0 == 'Add':
            r = self.int_add(st, a, b)
            if r[0] == 'lin':
                r = r[:3] + (t.s,)
            return ('tup', (r, ('p', ('ovf', 'Add', a, b, t.s), True))) if wo else r
        if op0 == 'Sub':
            if wo and t.s in _uns:
                try:
                    neg = self.lt(st, a, b)
                except Split:
                    neg = None
                if neg is None or neg:
                    flag = ('bool', True) if neg else ('p', ('lt', a, b), True)
                    # the difference is only used when the assertion passed
                    r = self.int_sub_nofact(a, b, t)
                    return ('tup', (r, flag))
                return ('tup', (self.int_sub(st, a, b), FALSE))
            r = self.int_sub(st, a, b)
            return ('tup', (r, ('p', ('ovf', 'Sub', a, b, t.s), True))) if wo else r
        r = mk(('op', op0, a, b), t)
        if op0 == 'Rem' and r[0] == 'lin' and t.s in _uns:
            try:
                st.assume_le(r, b, -1)
            except Infeasible:
                pass
        if wo:
            return ('tup', (r, ('p', ('ovf', op0, a, b, t.s), True)))
        return r

    def int_sub_nofact(self, a, b, t):
        if b[0] == 'int':
            if a[0] == 'lin':
                return ('lin', a[1], a[2] - b[1], a[3])
        elif a[0] == 'lin' and a[1] == b[1]:
            return ('int', a[2] - b[2])
        return ('lin', ('op', 'Sub', a, b), 0, t.s)

    def mklt(self, a, b, pol):
        if a[0] == 'int' and b[0] == 'int':
            return ('bool', (a[1] < b[1]) == pol)
        if a[0] == 'char' and b[0] == 'char':
            return ('bool', (a[1] < b[1]) == pol)
        return ('p', ('lt', a, b), pol)

    def client_atom(self, st, a):
        if a[0] == 'ovf':
            op, x, y, ts = a[1:]
            lo, hi = INT[ts]
            xu, yu, xl, yl = st.upper(x), st.upper(y), st.lower(x), st.lower(y)
            if None in (xu, yu, xl, yl):
                return None
            if op == 'Add':
                if xu + yu <= hi and xl + yl >= lo:
                    return False
                if xl + yl > hi:
                    return True
                r = self.int_add(st, x, y)
                if r[0] == 'lin' and not (isinstance(r[1], tuple) and r[1][:2] == ('op', 'Add')) and (st.upper(r) or hi + 1) <= hi and lo == 0:
                    return False
            elif op == 'Sub':
                if xl - yu >= lo and xu - yl <= hi:
                    return False
            elif op == 'Mul':
                c = [xl * yl, xl * yu, xu * yl, xu * yu]
                if min(c) >= lo and max(c) <= hi:
                    return False
            if not self.overflow_checks:
                return False
            if op in ('Add', 'Sub') and x[0] == 'lin':
                if op == 'Add' and y[0] == 'int' and y[1] > 0:
                    raise Split([lambda s: s.assume_le(x, ('int', hi - y[1])), lambda s: (s.assume_le(('int', hi - y[1] + 1), x), self.set_pred(s, a, True))])
        if a[0] == 'cls':
            return self.M.char_class(self, st, a)
        return None

    # ------------------------------------------------------------ frames
    def push_frame(self, st, fn, args, dest=None, target=None, after=None, tag=None):
        if fn.live is None:
            P.analyse(fn)
        if len(st.frames) > 60:
            raise Undecided('call depth')
        fr = Frame()
        fr.fn = fn
        fr.bb = 0
        fr.si = 0
        fr.locals = {}
        fr.dest = dest
        fr.target = target
        fr.after = after
        fr.tag = tag
        fr.call_span = None
        for i, a in enumerate(args):
            fr.locals[i + 1] = st.new_cell(a)
        st.frames.append(fr)
        self.reached.add(fn.uid)

    def ret_type(self, fn):
        return fn.locals[0]

    # ------------------------------------------------------------ main loop
    memory = 5 << 20    # kB
    enough = None       # function: is what was found enough?

    def budget(self):
        if self.steps > self.max_steps:
            raise Undecided('budget exhausted after %d steps' % self.steps)
        if self.steps & 31:
            return
        if time.time() > self.deadline:
            raise Undecided('budget exhausted after %d steps' % self.steps)
        with open('/proc/self/statm') as f:
            size = int(f.read().split()[1]) * 4
        if size > self.memory:
            raise Undecided('memory budget exhausted after %d steps' % self.steps)
        if self.enough is not None and self.enough():
            raise Undecided('stopped after %d steps: enough was found' % self.steps)

    def run(self, states):
        if self.join_mode:
            return self.run_join(states)
        work = list(states)
        self._moves = []
        self._undo = []
        while work:
            st = work.pop()
            self.steps += 1
            self.budget()
            if self.stop_on_finding and self.findings:
                return
            work.extend(self.exec_safe(st))

    # ------------------------------------------------------------ joining mode
    def prio(self, st):
        out = []
        for fr in st.frames:
            if fr.fn.rpo is None:
                P.analyse(fr.fn)
            out.append(fr.fn.rpo.get(fr.bb, 1 << 20))
        out.append(1 << 30)
        return tuple(out)

    def push(self, st):
        self._seq += 1
        heapq.heappush(self._heap, (self.prio(st), self._seq, st, None))

    def run_join(self, states):
        self._heap = []
        self._seq = 0
        self._moves = []
        self._undo = []
        self.slots = {}
        for s in states:
            self.push(s)
        while self._heap:
            _, _, st, slot = heapq.heappop(self._heap)
            if slot is not None:
                if not slot[1]:
                    continue
                slot[1] = False
                st = slot[0].copy()
            self.steps += 1
            self.budget()
            for s in self.exec_safe(st):
                self.push(s)

    def shape_key(self, st, v, d):
        v = st.norm(v)
        k = v[0]
        if k == 'adt':
            return (k, v[1], v[2]) + (tuple(self.shape_key(st, x, d - 1) for x in v[3]) if d else ())
        if k == 'tup':
            return (k, tuple(self.shape_key(st, x, d - 1) for x in v[1])) if d else k
        if k == 'bool':
            return v
        if k == 'sym':
            if v[2].k == 'adt' and v[2].is_enum():
                vs = st.f.get(('var', v[1]))
                if vs is not None and len(vs) == 1:
                    return ('adt', v[2].path, min(vs)) + (((),) * 0)
            return 'v'
        if k in ('int', 'lin', 'char', 'str', 'p', 't', 'fl', 'bytes'):
            return 'v'
        if k == 'box' and d:
            return (k, self.shape_key(st, v[1], d - 1))
        if k == 'obj':
            return (k, v[1])
        return k

    def partition(self, st):
        out = []
        for fr in st.frames[-self.part_frames:]:
            for l in sorted(fr.locals):
                v = st.mem.get(fr.locals[l])
                if v is not None:
                    out.append((l, self.shape_key(st, v, 1)))
        return tuple(out)

    def enqueue_join(self, st):
        from .join import Join, NoJoin
        if self.progress:
            self.check_progress(st)
        self.gc(st, *(self.fact_window or (0, 1)))
        self.clamp(st)
        sk = tuple((fr.fn.uid, fr.bb, fr.si, fr.after, fr.tag) for fr in st.frames)
        pk = (sk, self.partition(st), self.part_extra(st))
        lst = self.slots.setdefault(pk, [])
        for slot in lst:
            try:
                J = Join(self, slot[0], st).run()
            except NoJoin as e:
                self.nojoins[str(e)] = self.nojoins.get(str(e), 0) + 1
                continue
            self.joins += 1
            self.gc(J, *(self.fact_window or (0, 1)))
            self.clamp(J)
            slot[3] += 1
            if slot[3] > 6:
                self.widen_zone(slot[0], J, slot[3])
            key = Canon(self, J).key()
            if key == slot[2]:
                self.dedups += 1
                self.on_merge(st, None)
                return True
            slot[0], slot[2] = J, key
            if not slot[1]:
                slot[1] = True
                self._seq += 1
                heapq.heappush(self._heap, (self.prio(J), self._seq, None, slot))
            return True
        slot = [st.copy(), True, Canon(self, st).key(), 0]
        lst.append(slot)
        self._seq += 1
        heapq.heappush(self._heap, (self.prio(st), self._seq, None, slot))
        return True

    # termination: every trip around a loop consumes input or a bounded iterator
    def counters(self, st):
        out = {}
        fr = st.frames[-1]

        def walk(name, v, d):
            v = st.norm(v)
            k = v[0]
            if k in ('int', 'lin'):
                out[name] = v
            elif k == 'ref' and d:
                try:
                    walk(name + ('*',), self.read(st, v[1], v[2]), d - 1)
                except (Undecided, Split, Infeasible):
                    pass
            elif k == 'box' and d:
                walk(name + ('b',), v[1], d)
            elif k in ('adt', 'clo', 'cor') and d:
                for i, x in enumerate(v[3] if k == 'adt' else v[2]):
                    walk(name + (i,), x, d - 1)
            elif k == 'tup' and d:
                for i, x in enumerate(v[1]):
                    walk(name + (i,), x, d - 1)
            elif k == 'vec' or k == 'map':
                out[name + ('len',)] = v[2]
            elif k == 'obj' and d:
                for i, x in enumerate(v[2:]):
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        walk(name + (i,), x, d - 1)
        for l in sorted(fr.locals):
            v = st.mem.get(fr.locals[l])
            if v is not None and v[0] != 'moved':
                walk((l,), v, 4)
        return out

    def check_progress(self, st):
        fr = st.frames[-1]
        n = len(st.frames)
        env = [r for r in st.env if r[0] <= n]
        if fr.bb in fr.fn.loopheads:
            key = (n, fr.fn.uid, fr.bb)
            cur = self.counters(st)
            for r in env:
                if r[:3] == key:
                    good = False
                    for name, old in r[3]:
                        new = cur.get(name)
                        if new is None:
                            continue
                        b = st.bound(new, old)
                        if b is not None and b <= -1:
                            good = True
                            break
                        b = st.bound(old, new)
                        if b is not None and b <= -1 and self.bounded(st, name, new, cur):
                            good = True
                            break
                    if not good:
                        self.no_progress.setdefault((fr.fn.uid, fr.bb), (self.where(st), st.trace_list()[-30:], st.taint))
            env = [r for r in env if r[:3] != key]
            env.append(key + (tuple(sorted(cur.items(), key=repr)),))
        st.env = tuple(sorted(env, key=repr))

    def bounded(self, st, name, v, cur):
        if v[0] == 'int':
            return True
        for (x, y), c in st.z.items():
            if x == v[1] and c + v[2] <= 1 and y != 'Z' and isinstance(y, tuple) and y[0] == 'len':
                # a length other than that of a collection growing in the same loop
                if not any(w[0] == 'lin' and w[1] == y and w[2] != 0 for w in cur.values()):
                    return True
        for nm, w in cur.items():
            if nm != name and nm[:-1] == name[:-1] and w[0] in ('int', 'lin'):
                b = st.bound(v, w)
                if b is not None and b <= 1:
                    return True
        return False

    def part_extra(self, st):
        return None

    def widen_zone(self, old, J, n):
        # after several joins, keep only bounds between variables and trivially stable ones
        for (x, y), c in list(J.z.items()):
            if c not in (-1, 0, SIZE_MAX, 2**64 - 1) and (x == 'Z' or y == 'Z'):
                if x == 'Z' and c < -1:
                    J.z[(x, y)] = -1
                elif y == 'Z' and c > 0:
                    J.z[(x, y)] = SIZE_MAX if c <= SIZE_MAX else c
            elif x != 'Z' and y != 'Z' and c not in (-1, 0):
                if c > self.diff_keep:
                    del J.z[(x, y)]
                elif n > 60:
                    J.z[(x, y)] = -1

    def exec_safe(self, st):
        try:
            return self.exec_block(st)
        except Undecided as u:
            if self.strict:
                raise
            try:
                w = self.where(st)
            except Exception:
                w = '?'
            self.undecided[str(u)[:200] + ' at ' + w] = self.undecided.get(str(u)[:200] + ' at ' + w, 0) + 1
            return []

    def run_stmt(self, st, fr, s):
        if s[0] == '=':
            v = self.rvalue(st, fr, s[2])
            c, p = self.resolve(st, fr, s[1])
            self.do_moves(st)
            self.write(st, c, p, v)
        elif s[0] == 'dead':
            c = fr.locals.pop(s[1], None)
            if c is not None:
                st.mem.pop(c, None)
        elif s[0] == 'live':
            fr.locals[s[1]] = st.new_cell(MOVED)
        elif s[0] == 'sd':
            c, p = self.resolve(st, fr, s[1])
            v = self.expand(st, self.read(st, c, p), s[2])
            self.write(st, c, p, v)

    def split(self, st, sp):
        out = []
        for alt in sp.alts:
            s = st.copy()
            try:
                alt(s)
            except Infeasible:
                continue
            out.append(s)
        return out

    def exec_block(self, st):
        """run from the current position to the next branching point; returns successor states"""
        while True:
            fr = st.frames[-1]
            b = fr.fn.blocks[fr.bb]
            ss = b['s']
            snap = None
            self._undo = []
            try:
                while fr.si < len(ss):
                    self._moves = []
                    self._undo = []
                    self.run_stmt(st, fr, ss[fr.si])
                    fr.si += 1
                self._moves = []
                self._undo = []
                if b['t'][0] in ('call', 'return', 'drop'):
                    snap = st.copy()
                r = self.exec_term(st, fr, b['t'])
            except Split as sp:
                if snap is None:
                    for c, v in reversed(self._undo):
                        st.mem[c] = v
                return self.split(snap or st, sp)
            except Infeasible:
                return []
            except Panic as pn:
                self.do_panic(st, pn.kind)
                return []
            except Stop:
                return []
            if r is None:
                return []
            if isinstance(r, list):
                return r
            # r is True: continue in the same state if not merged away
            if not st.frames:
                return []
            fr = st.frames[-1]
            if fr.si == 0 and (fr.fn.npred[fr.bb] > 1 or self.join_mode and b['t'][0] == 'return'):
                d = self.dedup(st)
                if d:
                    return d if isinstance(d, list) else []

    def do_panic(self, st, kind):
        w = self.where(st)
        self.panics_seen.add((kind, w))
        self.panic(st, kind)

    def panic(self, st, kind):
        pass

    def outcome(self, st, v):
        self.outcomes.append((st, v))

    def goto(self, fr, bb):
        fr.bb = bb
        fr.si = 0
        return True

    def exec_term(self, st, fr, t):
        k = t[0]
        if k == 'goto':
            return self.goto(fr, t[1])
        if k == 'switch':
            return self.exec_switch(st, fr, t)
        if k == 'call':
            return self.exec_call(st, fr, t)
        if k == 'return':
            return self.exec_return(st, fr)
        if k == 'drop':
            c, p = self.resolve(st, fr, t[1])
            try:
                v = self.read(st, c, p)
            except Undecided:
                v = MOVED
            r = self.drop_value(st, v, self.prog.T(fr.fn.crate, t[3]))
            if t[1][1] == [] and c in st.mem:
                st.mem[c] = MOVED
            return self.goto(fr, t[2])
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            if self.truth(st, v) == t[2]:
                return self.goto(fr, t[5])
            if t[3] == 'resumed':
                return None
            raise Panic('assert:' + t[3])
        if k == 'unreachable':
            return None
        if k == 'yield':
            # our futures never pend; reaching a yield means an unmodelled future
            return None
        return None

    def exec_switch(self, st, fr, t):
        v = st.norm(self.operand(st, fr, t[1]))
        if v[0] == 'bool' or v[0] == 'p':
            n = 1 if self.truth(st, v) else 0
            for val, bb in t[2]:
                if int(val) == n:
                    return self.goto(fr, bb)
            return self.goto(fr, t[3])
        if v[0] == 'int':
            ty = self.prog.T(fr.fn.crate, t[4])
            n = v[1]
            for val, bb in t[2]:
                m = int(val)
                if ty.s in INT and INT[ty.s][0] < 0 and m > INT[ty.s][1]:
                    m -= INT[ty.s][1] - INT[ty.s][0] + 1
                if m == n:
                    return self.goto(fr, bb)
            return self.goto(fr, t[3])
        if v[0] == 'char':
            for val, bb in t[2]:
                if int(val) == ord(v[1]):
                    return self.goto(fr, bb)
            return self.goto(fr, t[3])
        if v[0] == 'disc':
            vs = st.variants(v[1], v[2])
            groups = {}
            tg = {int(val): bb for val, bb in t[2]}
            for x in vs:
                d = self.disc_of(v[2], x)
                if d < 0:
                    d += 1 << 64
                groups.setdefault(tg.get(d, tg.get(d % 256, t[3])) if d >= 1 << 63 else tg.get(d, t[3]), set()).add(x)
            if len(groups) == 1:
                return self.goto(fr, next(iter(groups)))
            out = []
            for bb, s in sorted(groups.items()):
                s2 = st.copy()
                s2.assume_variants(v[1], frozenset(s))
                s2.note('%s: %s is %s' % (fr.fn.blocks[fr.bb]['sp'], short_id(v[1]), '|'.join(v[2].variants[x][0] for x in sorted(s))[:60]))
                f2 = s2.frames[-1]
                f2.bb = bb
                f2.si = 0
                if f2.fn.npred[bb] > 1 and self.dedup(s2):
                    continue
                out.append(s2)
            return out
        if v[0] == 'sym' and v[2].k == 'char' or v[0] == 'lin':
            for val, bb in t[2]:
                if v[0] == 'lin':
                    m = int(val)
                    ty = self.prog.T(fr.fn.crate, t[4])
                    if ty.s in INT and INT[ty.s][0] < 0 and m > INT[ty.s][1]:
                        m -= INT[ty.s][1] - INT[ty.s][0] + 1
                    c = ('int', m)
                else:
                    c = ('char', chr(int(val)))
                if self.eq(st, v, c):
                    return self.goto(fr, bb)
            return self.goto(fr, t[3])
        if v[0] == 't' or v[0] == 'sym':
            out = []
            for bb in sorted(set([x[1] for x in t[2]] + [t[3]])):
                s2 = st.copy()
                f2 = s2.frames[-1]
                f2.bb, f2.si = bb, 0
                out.append(s2)
            return out
        raise Undecided('switch on %r' % (v[:2],))

    def exec_return(self, st, fr):
        c = fr.locals.get(0)
        v = self.read(st, c) if c is not None else UNIT
        if v == MOVED:
            v = UNIT
        if not (self.keep_locals and len(st.frames) == 1):
            for l, cell in fr.locals.items():
                st.mem.pop(cell, None)
        st.frames.pop()
        if fr.after is not None:
            self.ret_tag = fr.tag
            v = fr.after(self, st, v)
        if not st.frames:
            self.outcome(st, v)
            return None
        return self.finish_call(st, fr.dest, fr.target, v)

    def finish_call(self, st, dest, target, v):
        caller = st.frames[-1]
        if dest is not None:
            c, p = dest
            self.write(st, c, p, v)
        if target is None:
            return None
        return self.goto(caller, target)

    # ------------------------------------------------------------ calls
    def exec_call(self, st, fr, t):
        f = self.operand(st, fr, t[1])
        args = [self.operand(st, fr, a) for a in t[2]]
        dty = self.prog.T(fr.fn.crate, t[6])
        atys = [self.prog.T(fr.fn.crate, x) for x in t[5]]
        c, p = self.resolve(st, fr, t[3])
        moves = self._moves
        self._moves = []
        call = Call(self, fr, t, dty, atys, (c, p), t[4])
        try:
            v = self.invoke(st, f, args, call)
        except Enter as e:
            self._moves = moves
            self.do_moves(st)
            fr.si = 0
            self.push_frame(st, e.fn, e.args, (c, p), t[4], e.after, e.tag)
            return True
        self._moves = moves
        self.do_moves(st)
        if isinstance(v, Outs):
            # several (state, value) results
            out = []
            for s2, v2 in v.items:
                if self.finish_call(s2, (c, p), t[4], v2):
                    out.append(s2)
            return out
        if t[4] is None:
            return None
        return self.finish_call(st, (c, p), t[4], v)

    def invoke(self, st, f, args, call):
        f = st.norm(f)
        if f[0] == 'fn':
            rec = self.fnrecs[f[1]]
            return self.invoke_rec(st, rec, args, call)
        if f[0] in ('clo', 'ref', 'box'):
            return self.call_value(st, f, args, call)
        raise Undecided('call of %r' % (f[:2],))

    def site(self, st):
        fr = st.frames[-1]
        return fr.fn.uid, fr.bb

    def invoke_rec(self, st, rec, args, call):
        path = rec.get('fn')
        call.rec = rec
        call.path = path
        if 'out' in rec:
            call.dty = self.prog.T(rec.get('_c') or st.frames[-1].fn.crate, rec['out'])
        res = rec.get('res')
        self.callsites.add((st.frames[-1].fn.uid, st.frames[-1].bb))
        h = self.hooks.get(res) or self.hooks.get(path) or self.hooks.get(strip_generics(path))
        if h is None and 'trait' in rec:
            h = self.thooks.get((rec['trait'], rec['method']))
        if h is not None:
            r = h(self, st, args, call)
            if r is not NotImplemented:
                return r
        if rec.get('ctor'):
            return ('adt', rec['adt'], rec['variant'], tuple(args))
        fn = None
        if 'ruid' in rec:
            fn = self.prog.fns.get(rec['ruid'])
        if fn is None and 'trait' not in rec:
            fn = self.prog.fns.get(rec['uid'])
        if fn is not None and (fn.derived and fn.impl_trait in DERIVED_MODELLED or rec.get('trait') == 'std::future::Future' and fn.j.get('coroutine')):
            fn = None
        if fn is not None and not fn.derived:
            raise Enter(fn, args)
        if 'trait' in rec:
            return self.trait_call(st, rec, args, call)
        if fn is not None:
            raise Enter(fn, args)
        return self.model_call(st, rec, args, call)

    def model_call(self, st, rec, args, call):
        path = rec['fn']
        m = self.models.get(rec.get('res')) or self.models.get(path) or self.models.get(strip_generics(path)) \
            or self.models.get(strip_generics(rec.get('res') or ''))
        if m is not None:
            r = m(self, st, args, call)
            if r is not NotImplemented:
                return r
        m = self.prog.by_path.get(self.M.RUST_MODELS.get(strip_generics(path), ''))
        if m is not None:
            raise Enter(m, args)
        return self.havoc(st, rec, args, call)

    def self_kind(self, st, v):
        """type path of a receiver for dynamic dispatch"""
        v = self.deref(st, v)
        if v[0] == 'adt':
            return v[1], v
        if v[0] == 'sym':
            return (v[2].path if v[2].k == 'adt' else v[2].s), v
        if v[0] == 'clo':
            return 'closure', v
        if v[0] == 'cor':
            return 'coroutine', v
        if v[0] == 'obj':
            return 'obj:' + v[1], v
        return v[0], v

    def trait_call(self, st, rec, args, call):
        tr, me = rec['trait'], rec['method']
        key = (tr, me)
        if args:
            kind, v = self.self_kind(st, args[0])
            ims = self.prog.impls.get((tr, kind))
            if ims and not (tr in DERIVED_MODELLED and ims[0][2]):
                for stt, ms, derived in ims:
                    if me in ms:
                        fn = self.prog.fns.get(ms[me])
                        if fn is not None:
                            # exclude impls on references that only forward
                            raise Enter(fn, self.adapt_self(st, fn, args))
        else:
            # static trait method: use the generic argument's impl
            g = rec.get('gargs') or []
            if g:
                t0 = self.prog.T(call.fr.fn.crate, g[0])
                ims = self.prog.impls.get((tr, t0.path if t0.k == 'adt' else t0.s))
                if ims:
                    for stt, ms, derived in ims:
                        if me in ms and ms[me] in self.prog.fns:
                            raise Enter(self.prog.fns[ms[me]], args)
        m = self.tmodels.get(key) or self.tmodels.get((tr.split('::')[-1], me))
        if m is not None:
            r = m(self, st, args, call)
            if r is not NotImplemented:
                return r
        # default method of a workspace trait, or a std default method body
        fn = self.prog.fns.get(rec['uid'])
        if fn is not None:
            raise Enter(fn, args)
        return self.model_call(st, rec, args, call)

    def adapt_self(self, st, fn, args):
        """strip extra reference levels so that the receiver matches the impl's self parameter"""
        if not args or len(fn.locals) < 2:
            return args
        want = 0
        t = fn.locals[1]
        while t.k == 'ref':
            want += 1
            t = t.to
        v = args[0]
        have = 0
        x = v
        chain = [x]
        while st.norm(x)[0] in ('ref', 'box', 'arc'):
            x = self.deref1(st, x) if st.norm(x)[0] != 'arc' else self.read(st, st.norm(x)[1])
            chain.append(x)
            have += 1
        if want == 0:
            return [chain[-1]] + list(args[1:])
        if have > want:
            c, p = self.loc(st, v)
            return [('ref', c, p)] + list(args[1:])
        if have < want:
            return [st.ref_to(v)] + list(args[1:])
        return args

    def call_value(self, st, f, args, call, untuple=False):
        """call a closure / fn pointer / dyn Fn value with positional args"""
        c = self.deref(st, f)
        if c[0] == 'fn':
            rec = self.fnrecs[c[1]]
            return self.invoke_rec(st, rec, args, call)
        if c[0] == 'clo':
            fn = self.prog.fns.get(c[1])
            if fn is None:
                raise Undecided('closure body %s' % c[1])
            envt = fn.locals[1]
            if envt.k == 'ref':
                if st.norm(f)[0] in ('ref', 'box', 'arc'):
                    cell, p = self.loc(st, f)
                    env = ('ref', cell, p)
                else:
                    env = st.ref_to(c)
            else:
                env = c
            raise Enter(fn, [env] + list(args))
        h = self.hooks.get('call_unknown_fn')
        if h:
            return h(self, st, [f] + list(args), call)
        raise Undecided('call of value %r' % (c[:2],))

    def havoc(self, st, rec, args, call):
        """unmodelled external function: unknown result, mutable arguments forgotten"""
        p = rec.get('res') or rec['fn']
        self.unmodelled[p] = self.unmodelled.get(p, 0) + 1
        for a, t in zip(args, call.atys):
            if t.k == 'ref' and t.mut:
                a = st.norm(a)
                if a[0] == 'ref':
                    self.write(st, a[1], a[2], mk(st.fresh_id(), t.to))
        st.taint = st.taint + (p,) if p not in st.taint else st.taint
        return st.fresh(call.dty)

    # ------------------------------------------------------------ environment (overridden by clients)
    def event(self, st, name, args, call):
        """an effect on the environment; a client may return its result"""
        return None

    def now(self, st, call):
        st.ctr += 1
        return ('lin', ('#', st.ctr), 0, 'time')

    def time_overflow(self, st, x, y):
        return self.truth(st, ('p', ('time_ovf', x, y), True))

    def time_sum(self, st, op, x, y):
        return ('lin', ('op', 'time_' + op.lower(), x, y), 0, 'time')

    def lt_known(self, st, a, b):
        return st.lt(a, b)

    def lock(self, st, ref, blocking, call):
        """default: the protected value may have been changed by anybody since"""
        from .models import either
        t = call.atys[0]
        while t.k == 'ref' or t.k == 'adt' and t.path in ('std::sync::Arc', 'std::pin::Pin', 'std::boxed::Box'):
            t = t.to if t.k == 'ref' else t.args[0]
        if t.k == 'adt' and t.args and not self.lock_private(st, ref, call):
            self.write(st, ref[1], ref[2], mk(st.fresh_id(), t.args[0]))
        g = ('obj', 'guard', ref)
        if 'tokio' in call.path and blocking or 'RefCell' in call.path and 'try' not in call.path:
            self.event(st, 'lock', (ref, ('bool', blocking)), call)
            return g
        if blocking:
            self.event(st, 'lock', (ref, TRUE), call)
            return ok(g)
        if self.lock_uncontended(st, ref, call):
            self.event(st, 'lock', (ref, FALSE), call)
            return ok(g)
        s1 = st.copy()
        self.event(s1, 'lock', (ref, FALSE), call)
        s2 = st.copy()
        rt = call.dty
        return Outs([(s1, ok(g)), (s2, err(('adt', 'std::sync::TryLockError', 1, ())))])

    def lock_private(self, st, ref, call):
        return False

    def lock_uncontended(self, st, ref, call):
        return False

    def atomic_load(self, st, ref, call):
        r = self.event(st, 'atomic_load', (ref,), call)
        return r if r is not None else st.fresh(call.dty)

    def await_(self, st, name, args, call):
        """an external future completed: dispatched like the blocking operation"""
        if name == 'ready':
            return args[0]
        if name == 'lock':
            from .models import mutex_slot
            cell, p = mutex_slot(self, st, args[0])
            self.event(st, 'lock', (('ref', cell, p), TRUE), call)
            return ('obj', 'guard', ('ref', cell, p))
        r = self.event(st, name, tuple(args), call)
        if r is not None:
            return r
        t = call.dty
        if t.k == 'adt' and t.path == 'std::task::Poll':
            return st.fresh(t.args[0])
        raise Undecided('await of ' + name)

    def poll_unknown(self, st, v, call):
        t = call.dty
        self.unmodelled['poll'] = self.unmodelled.get('poll', 0) + 1
        st.taint = st.taint + ('poll',) if 'poll' not in st.taint else st.taint
        return ('adt', 'std::task::Poll', 0, (st.fresh(t.args[0]),))

    def branch_poll(self, st, v):
        raise Undecided('? on Poll')

    def json_encode(self, st, v, call, text=False):
        return ok(('t', 'json', v))

    def on_concat(self, st, v, w):
        return None

    def on_vec_push(self, st, cell, p, v, x):
        pass

    def on_next(self, st, it, i):
        pass

    def on_map_key(self, st, m, key):
        pass

    def on_map_insert(self, st, cell, p, m, key, v):
        pass

    # ------------------------------------------------------------ drops
    def drop_value(self, st, v, t=None):
        k = v[0]
        if k == 'obj':
            h = self.M.DROPS.get(v[1])
            if h:
                h(self, st, v)
        elif k == 'adt':
            for x in v[3]:
                self.drop_value(st, x)
        elif k == 'tup':
            for x in v[1]:
                self.drop_value(st, x)
        elif k in ('clo', 'cor'):
            for x in v[2]:
                self.drop_value(st, x)
        elif k == 'box':
            self.drop_value(st, v[1])

    # ------------------------------------------------------------ merging
    def dedup(self, st):
        """garbage-collect, canonicalise; True if an equivalent state was already explored here"""
        if self.join_mode:
            return self.enqueue_join(st)
        fr = st.frames[-1]
        loop = fr.bb in fr.fn.loopheads
        pt = (fr.fn.uid, fr.bb)
        vis = self.visited.get(pt)
        if vis is None:
            vis = self.visited[pt] = {}
        n = len(vis)
        lo, hi = self.fact_window or ((-1, 2) if n < 60 else (0, 0) if n < 300 else (1, 0))
        if not loop:
            self.gc(st, lo, hi)
        else:
            lo = max(lo, 0)
            self.gc(st, lo, hi)
            self.clamp(st)
            self.gc(st, lo, hi)
            cn = Canon(self, st)
            key = cn.key()
            if key in vis:
                self.dedups += 1
                self.on_merge(st, vis[key])
                return True
            # widening along the path: integers that changed since the last visit of this loop head
            k2 = (len(st.frames), pt)
            mk_ = cn.masked()
            hist = st.loops.get(k2) or {}
            old, cnt = hist.get(mk_[0], (None, 0))
            if old is not None and cnt > self.unroll:
                vary = set(n for n, (x, y) in enumerate(zip(old, mk_[1])) if x != y)
                if vary:
                    cn.generalise(vary)
                    self.clamp(st)
                    self.gc(st, lo, hi)
                    mk_ = None
            st.loops = {k: v for k, v in st.loops.items() if k[0] <= k2[0]}
            if mk_ is None:
                st.loops.pop(k2, None)
            else:
                hist = dict(hist) if len(hist) < 40 else {}
                hist[mk_[0]] = (mk_[1], cnt + 1)
                st.loops[k2] = hist
        cn = Canon(self, st)
        key = cn.key()
        if key in vis:
            self.dedups += 1
            self.on_merge(st, vis[key])
            return True
        vis[key] = self.merge_info(st)
        if loop and len(vis) > self.widen_at[0]:
            self.widen(st, pt, cn)
        return False

    def on_merge(self, st, info):
        pass

    def merge_info(self, st):
        return None

    def roots(self, st):
        out = []
        n = len(st.frames)
        for k, fr in enumerate(st.frames):
            if k == n - 1:
                live = fr.fn.live[fr.bb]
            else:
                nx = st.frames[k + 1]
                live = fr.fn.live[nx.target] if nx.target is not None else set()
            dead = [l for l in fr.locals if l not in live and l not in fr.fn.borrowed and not (k < n - 1 and fr.locals[l] == (st.frames[k + 1].dest or (None,))[0])]
            for l in dead:
                c = fr.locals.pop(l)
                st.mem.pop(c, None)
            out.append(fr)
        return out

    def gc(self, st, lo_off=-1, hi_off=2):
        self.roots(st)
        seen_cells, seen_ids = set(), set()
        ints = set()
        work = []

        def visit(v):
            stack = [v]
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple) or not x:
                    continue
                tg = x[0]
                if tg == 'int':
                    ints.add(x[1])
                    continue
                if tg == '$' or tg == 'dc':
                    if x not in seen_cells:
                        seen_cells.add(x)
                        work.append(x)
                    if tg == 'dc':
                        stack.append(x[1])
                        seen_ids.add(('*', x[1]))
                    continue
                if tg == '#':
                    seen_ids.add(x)
                    continue
                if tg in IDTAGS or tg == 'rep':
                    seen_ids.add(x)
                stack.extend(y for y in x if isinstance(y, tuple))
        for fr in st.frames:
            for l, c in fr.locals.items():
                visit(c)
            if fr.dest:
                visit(fr.dest)
            if fr.tag:
                visit(fr.tag)
        visit(st.mon)
        visit(st.env)
        for c in st.mem:
            # constants are looked up again when they are needed again
            if isinstance(c, str) and not (self.drop_consts and c.startswith('const:')):
                seen_cells.add(c)
                work.append(c)
        while work:
            c = work.pop()
            v = st.mem.get(c)
            if v is not None:
                visit(v)
        for c in [c for c in st.mem if c not in seen_cells]:
            del st.mem[c]
        # elements next to a live cursor stay meaningful
        cache = {}

        def alive(i):
            if isinstance(i, str):
                return True
            r = cache.get(i)
            if r is None:
                r = cache[i] = alive0(i)
            return r

        def alive0(i):
            if i in seen_ids:
                return True
            tg = i[0]
            if tg == '#':
                return False
            if tg in ('.', '@', '*', 'b', 'len', 'a'):
                return alive(i[1])
            if tg == 'el':
                return alive(i[1]) and idx_alive(i[2])
            if tg == 'mv':
                return alive(i[1]) and val_alive(i[2])
            if tg == 'op':
                if i[1] in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'cast', 'Neg', 'Not'):
                    return False
                return all(val_alive(x) for x in i[2:])
            if tg == 'rep':
                return True
            return all(val_alive(x) for x in i[1:])

        def idx_alive(ix):
            if ix[0] == 'int':
                n = ix[1]
                return any(n - d in ints for d in range(lo_off, hi_off + 1))
            return lo_off <= ix[2] <= hi_off and alive(ix[1])

        def val_alive(v):
            if not isinstance(v, tuple) or not v:
                return True
            if v[0] == 'sym':
                return alive(v[1])
            if v[0] == 'lin':
                return -CL <= v[2] <= CL and alive(v[1])
            if v[0] == '#' or v[0] in IDTAGS:
                return alive(v)
            return all(val_alive(x) for x in v if isinstance(x, tuple))
        for k in [k for k in st.f if k[0] == 'pred' and k[1][0] == 'ovf' or not all(val_alive(x) if isinstance(x, tuple) else True for x in k[1:])]:
            del st.f[k]
        z = st.z
        for k in [k for k, c in z.items() if c > BIG and k[0] != 'Z' and k[1] != 'Z']:
            del z[k]
        dead = [x for x in st.zv if x != 'Z' and not alive(x)]
        if dead:
            ds = set(dead)
            st.zv -= ds
            for k in [k for k in st.z if k[0] in ds or k[1] in ds]:
                del st.z[k]
        self._seen_ids = seen_ids

    def clamp(self, st):
        """loop heads: rebase advanced cursors, clamp small bounds, collapse grown vectors"""
        # collapse vectors that grew
        cap = self.vec_cap
        for c in list(st.mem):
            v = st.mem[c]
            w = self.collapse(st, v, cap)
            if w is not v:
                st.mem[c] = w
        # rebase cursors
        occ = {}

        def visit(v):
            stack = [v]
            while stack:
                x = stack.pop()
                if not isinstance(x, tuple) or not x:
                    continue
                if x[0] == 'lin':
                    occ.setdefault(x[1], {}).setdefault(x[2], x[3])
                stack.extend(y for y in x if isinstance(y, tuple))
        for c, v in st.mem.items():
            visit(v)
        visit(st.mon)
        visit(st.env)
        for i in sorted(occ, key=repr):
            ks = occ[i]
            if isinstance(i, tuple) and i[0] == '#' and 0 not in ks:
                m = min(ks, key=abs)
                self.rebase(st, i, m, ks[m])
            elif isinstance(i, tuple) and i[0] == 'len':
                continue
            else:
                far = [k for k in ks if abs(k) > self.far]
                for k in far:
                    self.rebase(st, i, k, ks[k], only=k)
        # clamp bounds
        z = st.z
        dl = 8 if self.join_mode else self.far
        for (x, y), c in list(z.items()):
            if x == 'Z' or y == 'Z':
                if self.join_mode and c < 0:
                    pass
                elif x == 'Z' and -BIG <= c < -CL:
                    z[(x, y)] = -CL
                elif x == 'Z' and c > CL and c < BIG:
                    del z[(x, y)]
                elif y == 'Z' and CL < c < SIZE_MAX:
                    z[(x, y)] = SIZE_MAX
                elif y == 'Z' and SIZE_MAX < c < 2**64 - 1:
                    z[(x, y)] = 2**64 - 1
                elif y == 'Z' and -BIG < c < -CL:
                    z[(x, y)] = -CL
            elif c > self.far:
                del z[(x, y)]
            elif c < -dl:
                z[(x, y)] = -dl

    def collapse(self, st, v, cap):
        k = v[0]
        if k == 'vec':
            if len(v[3]) > cap and not (v[1] is None and v[2][0] == 'int' and self.keep_vec(st, v)):
                shapes = frozenset(self.shape(st, x[1]) for x in v[3]) if self.sum_shapes else frozenset()
                base0 = v[1]
                if isinstance(base0, tuple) and base0[0] == 'op' and base0[1] == 'sum':
                    shapes |= base0[2]
                base = ('op', 'sum', shapes, base0 if base0 is not None and not (isinstance(base0, tuple) and base0[0] == 'op' and base0[1] == 'sum') else None, st.fresh_id())
                ln = ('lin', ('len', base), 0, 'usize')
                lo = st.lower(v[2]) if v[2][0] == 'lin' else v[2][1]
                st.assume_le(('int', min(lo or 0, CL)), ln)
                return ('vec', base, ln, (), v[4])
            return v
        if k == 'adt':
            fs = tuple(self.collapse(st, x, cap) for x in v[3])
            return v if all(a is b for a, b in zip(fs, v[3])) else ('adt', v[1], v[2], fs)
        if k in ('tup',):
            fs = tuple(self.collapse(st, x, cap) for x in v[1])
            return v if all(a is b for a, b in zip(fs, v[1])) else ('tup', fs)
        if k in ('clo', 'cor'):
            fs = tuple(self.collapse(st, x, cap) for x in v[2])
            return v if all(a is b for a, b in zip(fs, v[2])) else (k, v[1], fs)
        if k == 'box':
            x = self.collapse(st, v[1], cap)
            return v if x is v[1] else ('box', x)
        if k == 'map':
            if len(v[3]) > cap and not self.keep_vec(st, v):
                base = ('op', 'sum', frozenset(), None, st.fresh_id())
                return ('map', base, ('lin', ('len', base), 0, 'usize'), (), v[4], v[5])
            return v
        if k == 'obj' and v[1] == 'iter':
            src = self.collapse(st, v[2], cap) if isinstance(v[2], tuple) else v[2]
            return v if src is v[2] else v[:2] + (src,) + v[3:]
        if k == 't' and depth(v) > 6:
            return self.collapse_term(st, v)
        return v

    def collapse_term(self, st, v):
        return ('t', 'many', self.term_shape(st, v))

    def term_shape(self, st, v):
        if v[0] == 't' and v[1] == 'many':
            return v[2]
        if v[0] == 't':
            out = frozenset()
            for x in v[2:]:
                if isinstance(x, tuple) and x:
                    out |= self.term_shape(st, x)
            return out | frozenset([('t', v[1])])
        return frozenset([self.shape(st, v)])

    def keep_vec(self, st, v):
        """constant tables (arrays written out in the source) are kept exactly"""
        return len(v[3]) > 12 and v[1] is None and all(o[0][0] == 'int' for o in v[3]) if v[0] == 'vec' else \
            (v[1] is None and all(e[0][0] == 'str' for e in v[3]))

    def shape(self, st, v):
        """what is remembered of an element of a summarised collection"""
        if v[0] in ('adt',):
            return (v[1], v[2])
        return v[0]

    def rebase(self, st, i, k, ty, only=None, least=None):
        t = st.fresh_id()
        st._zadd_var(i, ty)
        # t - i == k
        st.zv.add(t)
        z = st.z
        for u in list(st.zv):
            if u == t:
                continue
            if u == i:
                z[(t, i)] = k
                z[(i, t)] = -k
                continue
            a = z.get((i, u))
            if a is not None:
                z[(t, u)] = a + k
            b = z.get((u, i))
            if b is not None:
                z[(u, t)] = b - k

        def sub(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'lin' and v[1] == i and (only is None or v[2] == only) and (least is None or v[2] >= least):
                return ('lin', t, v[2] - k, v[3])
            ch = False
            out = []
            for x in v:
                y = sub(x) if isinstance(x, tuple) else x
                ch = ch or y is not x
                out.append(y)
            return tuple(out) if ch else v
        for c in list(st.mem):
            v = st.mem[c]
            w = sub(v)
            if w is not v:
                st.mem[c] = w
        for fr in st.frames:
            if fr.dest:
                fr.dest = sub(fr.dest)
        nm = {}
        for c in list(st.mem):
            c2 = sub(c)
            if c2 is not c:
                st.mem[c2] = st.mem.pop(c)
        nf = {}
        for kk, v in st.f.items():
            nf[sub(kk)] = sub(v) if isinstance(v, tuple) else v
        st.f = nf
        st.mon = sub(st.mon)
        st.env = sub(st.env)

    def widen(self, st, pt, cn):
        """a loop head with many states differing only in integer constants: generalise those constants"""
        mk_ = cn.masked()
        d = self.masked.setdefault(pt, {})
        seen = d.setdefault(mk_[0], [])
        seen.append(mk_[1])
        if len(seen) < self.widen_at[1]:
            return
        vary = [n for n in range(len(mk_[1])) if len(set(s[n] for s in seen if n < len(s))) >= self.widen_at[2]]
        if not vary:
            return
        cn.generalise(set(vary))
        self.clamp(st)


def depth(v, n=0):
    if n > 8:
        return n
    m = 0
    for x in v[2:]:
        if isinstance(x, tuple) and x and x[0] == 't':
            m = max(m, depth(x, n + 1))
    return m + 1


def short_id(i):
    if isinstance(i, tuple):
        if i[0] == '#':
            return '?'
        if i[0] in ('.', '@'):
            return short_id(i[1]) + '.' + str(i[-1])
        if i[0] in ('el', 'mv'):
            return short_id(i[1]) + '[..]'
        if i[0] == 'op':
            return str(i[1])
        return short_id(i[1])
    return str(i)


class Canon:
    """canonical form of a state up to renaming of fresh names"""

    def __init__(self, E, st):
        self.E, self.st = E, st
        self.ids = {}
        self.cells = {}
        self.work = []

    def c(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        tg = v[0]
        if tg == '#':
            n = self.ids.get(v)
            if n is None:
                n = self.ids[v] = ('#', len(self.ids))
            return n
        if tg == '$':
            n = self.cells.get(v)
            if n is None:
                n = self.cells[v] = ('$', len(self.cells))
                self.work.append(v)
            return n
        if tg == 'dc' and v not in self.cells:
            self.cells[v] = v
            self.work.append(v)
        return tuple([self.c(x) if isinstance(x, tuple) else x for x in v])

    def key(self):
        st = self.st
        out = []
        for fr in st.frames:
            out.append((fr.fn.uid, fr.bb, fr.si, fr.after, self.c(fr.tag) if fr.tag else None))
            if fr.dest:
                out.append(self.c(fr.dest))
            for l in sorted(fr.locals):
                out.append((l, self.c(fr.locals[l])))
        out.append(self.c(st.mon))
        out.append(self.c(st.env))
        for c in sorted(x for x in st.mem if isinstance(x, str)):
            out.append((c, self.c(st.mem[c])))
        while self.work:
            w = self.work.pop(0)
            v = st.mem.get(w)
            if v is not None:
                out.append((self.cells[w] if w[0] == '$' else self.c(w), self.c(v)))
        fs = frozenset((self.c(k), self.c(v) if isinstance(v, tuple) else v) for k, v in st.f.items())
        zs = frozenset((self.c(k), v) for k, v in st.z.items())
        self.out = out
        return (tuple(out), fs, zs)

    def _walk(self, f):
        """apply f to every ('int', n) in memory in canonical order"""
        st = self.st
        order = sorted((c for c in st.mem), key=lambda c: (isinstance(c, str), repr(self.cells.get(c, c))))

        def w(v):
            if not isinstance(v, tuple) or not v:
                return v
            if v[0] == 'int' and len(v) == 2:
                return f(v)
            if v[0] in ('#', '$'):
                return v
            if v[0] == 'vec':
                # only lengths and elements, never override positions of constant tables
                pass
            return tuple([w(x) if isinstance(x, tuple) else x for x in v])
        return [(c, w(st.mem[c])) for c in order]

    def masked(self):
        ints = []

        def f(v):
            ints.append(v[1])
            return ('int', '#')
        mem = self._walk(f)
        body = tuple((self.cells.get(c, c), self.c(v)) for c, v in mem)
        st = self.st
        return (hash((body, tuple((fr.fn.uid, fr.bb) for fr in st.frames))), tuple(ints))

    def generalise(self, pos):
        st = self.st
        n = [-1]
        names = {}

        def f(v):
            n[0] += 1
            if n[0] in pos:
                if v[1] not in names:
                    names[v[1]] = st.fresh_id()
                return ('lin', names[v[1]], 0, 'usize')
            return v
        for c, v in self._walk(f):
            st.mem[c] = v
        for val, i in names.items():
            st._zadd_var(i, 'usize')
            st.assume_le(('lin', i, 0, 'usize'), ('int', val))
            st.assume_le(('int', val), ('lin', i, 0, 'usize'))
        for val, i in names.items():
            st.z[(i, 'Z')] = SIZE_MAX
            if val > CL:
                st.z[('Z', i)] = -CL
        self.E.clamp(st)


class Call:
    __slots__ = ('E', 'fr', 't', 'dty', 'atys', 'dest', 'target', 'rec', 'path')

    def __init__(self, E, fr, t, dty, atys, dest, target):
        self.E, self.fr, self.t, self.dty, self.atys, self.dest, self.target = E, fr, t, dty, atys, dest, target
        self.rec = None
        self.path = None

    @property
    def span(self):
        return self.fr.fn.blocks[self.fr.bb]['sp']

    def garg(self, n):
        g = self.rec.get('gargs') or []
        return self.E.prog.T(self.rec.get('_c') or self.fr.fn.crate, g[n]) if n < len(g) else None


class Outs:
    def __init__(self, items):
        self.items = items


DERIVED_MODELLED = {'std::clone::Clone', 'std::cmp::PartialEq', 'std::fmt::Debug', 'std::cmp::Eq', 'serde::Serialize', 'serde::Deserialize', 'std::cmp::PartialOrd',
                    'std::default::Default_'}


@functools.lru_cache(maxsize=None)
def strip_generics(p):
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<':
            d += 1
        elif c == '>' and p[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.rstrip(':')
