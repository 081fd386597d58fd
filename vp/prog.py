"""Loads the facts the MIR extractor wrote: function bodies, types, impl tables."""
import re
import json, os


class Type:
    __slots__ = ('s', 'k', 'path', '_args', '_variants', '_to', 'kind', 'local', 'mut', 'defuid', 'n', 'prog', '_crate', '__weakref__')

    def __repr__(self):
        return 'T<%s>' % self.s

    @property
    def args(self):
        return [self.prog.T(self._crate, i) for i in (self._args or ())]

    @property
    def to(self):
        return self.prog.T(self._crate, self._to)

    @property
    def variants(self):
        """[(name, disc, [(field name, Type)])] or None"""
        if self._variants is None:
            return None
        if isinstance(self._variants, list) and self._variants and isinstance(self._variants[0], dict):
            self._variants = tuple((v['name'], v['disc'], tuple((f[0], self.prog.T(self._crate, f[1])) for f in v['fields']))
                                   for v in self._variants)
        return self._variants

    def is_enum(self):
        return self.k == 'adt' and self.kind == 'enum'

    # hashing by identity: one Type object per type string
    def __lt__(self, o):
        return self.s < o.s


class Fn:
    __slots__ = ('uid', 'path', 'crate', 'j', 'blocks', 'argc', 'locals', 'span', 'name', 'self_ty', 'impl_trait',
                 'derived', 'coroutine', 'live', 'npred', 'vis', 'borrowed', 'vars', 'is_ext', 'loopheads', 'rpo', 'is_async', 'parent')

    def __repr__(self):
        return 'Fn<%s>' % self.uid


class Prog:
    def __init__(self):
        self.types = {}       # string -> Type
        self.ctypes = {}      # crate -> [Type]
        self.fns = {}         # uid -> Fn
        self.by_path = {}     # path -> Fn
        self.ext = {}
        self.impls = {}       # (trait, self adt path or type string) -> {method: uid}, derived flag
        self.impl_list = []
        self.adts = {}
        self.missing = []

    def T(self, crate, i):
        return self.ctypes[crate][i]

    def type(self, s):
        return self.types.get(s)

    def find_types(self, pred):
        return [t for t in self.types.values() if pred(t)]

    def adt_type(self, path):
        """the (non generic) type of a workspace struct or enum, by path suffix"""
        for t in self.types.values():
            if t.k == 'adt' and t.path.endswith(path) and t.local:
                return t
        return None

    def load(self, fn):
        text = open(fn).read()
        d = json.loads(text)
        # items known here under a re-exported path get their own path
        al = [(a, b) for a, b in d.get('aliases', ()) if re.fullmatch(r'[\w:]+', a)]
        if al:
            m = dict(al)
            rx = re.compile(r'(?<![\w:])(%s)\b' % '|'.join(re.escape(a) for a in sorted(m, key=len, reverse=True)))
            d = json.loads(rx.sub(lambda x: m[x.group(1)], text))
            d['aliases'] = al
        crate = d['crate']
        self.missing += d['missing']
        lst = []
        for t in d['types']:
            s = t['s']
            o = self.types.get(s)
            if o is None:
                o = Type()
                o.s = s
                o.k = t['k']
                o.path = t.get('path', '')
                o._args = t.get('args')
                o._variants = t.get('variants')
                o._to = t.get('to')
                o.kind = t.get('kind')
                o.local = t.get('local', False)
                o.mut = t.get('mut', False)
                o.defuid = t.get('def')
                o.n = t.get('n')
                o.prog = self
                o._crate = crate
                self.types[s] = o
            elif o._variants is None and t.get('variants') is not None:
                o._variants = t['variants']
                o._args = t.get('args')
                o._crate = crate
                o._to = t.get('to')
                o.local = t.get('local', False)
            lst.append(o)
        self.ctypes[crate] = lst
        for isext, group in ((False, d['fns']), (True, d['ext'])):
            for j in group:
                if 'blocks' not in j:
                    continue
                f = self.mkfn(j, crate)
                f.is_ext = isext
                if isext:
                    self.ext.setdefault(f.uid, f)
                else:
                    self.fns[f.uid] = f
                    self.by_path.setdefault(f.path, f)
        for im in d['impls']:
            st = lst[im['self']]
            key = st.path if st.k == 'adt' else st.s
            ms = {m[0]: m[1] for m in im['methods']}
            self.impls.setdefault((im['trait'], key), []).append((st, ms, im['derived']))
            self.impl_list.append((im['trait'], st, ms, im['derived'], im['span']))
        for a in d['adts']:
            self.adts[a['path']] = (a, crate)
        return d

    def mkfn(self, j, crate, uid=None):
        f = Fn()
        f.uid = uid or j['uid']
        f.crate = crate
        f.j = j
        f.path = j.get('path', f.uid)
        f.blocks = j['blocks']
        f.argc = j['argc']
        f.locals = [self.ctypes[crate][i] for i in j['locals']]
        f.span = j.get('span', '')
        f.name = j.get('name')
        f.self_ty = self.ctypes[crate][j['self_ty']] if 'self_ty' in j else None
        f.impl_trait = j.get('impl_trait')
        f.derived = j.get('derived', False)
        f.coroutine = j.get('coroutine', False)
        f.vis = j.get('vis', '')
        f.is_async = j.get('async', False)
        f.vars = j.get('vars', [])
        f.live = None
        f.npred = None
        f.is_ext = False
        f.loopheads = None
        f.rpo = None
        f.parent = None
        return f

    def promoted(self, pdef, idx):
        uid = '%s#promoted%d' % (pdef, idx)
        f = self.fns.get(uid)
        if f is None:
            o = self.fns.get(pdef) or self.ext.get(pdef)
            j = o.j['promoted'][idx]
            f = self.mkfn(j, o.crate, uid)
            f.parent = o
            self.fns[uid] = f
        return f


def succs(b):
    t = b['t']
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[5]]
    if k == 'yield':
        return [t[2]]
    return []


def _uses_place(p, use, isdef):
    """locals read by mentioning place p"""
    if p[1] or not isdef:
        use.add(p[0])
    for e in p[1]:
        if e[0] == 'i':
            use.add(e[1])


def _uses_op(o, use):
    if 'c' in o:
        _uses_place(o['c'], use, False)
    elif 'm' in o:
        _uses_place(o['m'], use, False)


def _uses_rv(r, use, borrowed):
    k = r[0]
    if k in ('use', 'repeat'):
        _uses_op(r[1], use)
    elif k == 'ref':
        _uses_place(r[2], use, False)
        if not any(e[0] == 'd' for e in r[2][1]):
            borrowed.add(r[2][0])
    elif k == 'cast':
        _uses_op(r[2], use)
    elif k == 'bin':
        _uses_op(r[2], use)
        _uses_op(r[3], use)
    elif k == 'un':
        _uses_op(r[2], use)
    elif k == 'disc':
        _uses_place(r[1], use, False)
    elif k == 'agg':
        for o in r[2]:
            _uses_op(o, use)


def analyse(f):
    """liveness of never-borrowed locals, predecessor counts, loop heads"""
    nb = len(f.blocks)
    gen = [None] * nb
    borrowed = set()
    info = []
    for b in f.blocks:
        seq = []
        for s in b['s']:
            use, d = set(), None
            if s[0] == '=':
                _uses_rv(s[2], use, borrowed)
                _uses_place(s[1], use, True)
                if not s[1][1]:
                    d = s[1][0]
            elif s[0] == 'sd':
                _uses_place(s[1], use, False)
            elif s[0] in ('dead', 'live'):
                d = s[1]
            seq.append((use, d))
        t = b['t']
        use, d = set(), None
        if t[0] == 'switch':
            _uses_op(t[1], use)
        elif t[0] == 'drop':
            _uses_place(t[1], use, False)
        elif t[0] == 'call':
            _uses_op(t[1], use)
            for o in t[2]:
                _uses_op(o, use)
            _uses_place(t[3], use, True)
            if not t[3][1]:
                d = t[3][0]
        elif t[0] == 'assert':
            _uses_op(t[1], use)
            for o in t[4]:
                _uses_op(o, use)
        elif t[0] == 'yield':
            _uses_op(t[1], use)
            if not t[3][1]:
                d = t[3][0]
        elif t[0] == 'return':
            use.add(0)
        seq.append((use, d))
        info.append(seq)
    live = [set() for _ in range(nb)]
    preds = [[] for _ in range(nb)]
    for i, b in enumerate(f.blocks):
        for x in succs(b):
            preds[x].append(i)
    changed = True
    while changed:
        changed = False
        for i in range(nb - 1, -1, -1):
            cur = set()
            for x in succs(f.blocks[i]):
                cur |= live[x]
            for use, d in reversed(info[i]):
                if d is not None:
                    cur.discard(d)
                cur |= use
            if cur != live[i]:
                live[i] = cur
                changed = True
    f.live = live
    f.borrowed = borrowed
    f.npred = [len(p) for p in preds]
    # loop heads: targets of back edges of a DFS
    heads = set()
    color = {}
    post = []
    stack = [(0, iter(succs(f.blocks[0])))]
    color[0] = 1
    while stack:
        n, it = stack[-1]
        for x in it:
            c = color.get(x, 0)
            if c == 1:
                heads.add(x)
            elif c == 0:
                color[x] = 1
                stack.append((x, iter(succs(f.blocks[x]))))
                break
        else:
            color[n] = 2
            post.append(n)
            stack.pop()
    f.loopheads = heads
    f.rpo = {n: len(post) - i for i, n in enumerate(post)}


def load_dir(d):
    p = Prog()
    for c in ('server', 'simple_server', 'multi_server', 'async_server', 'vpmodels'):
        fn = os.path.join(d, c + '.json')
        if os.path.exists(fn):
            p.load(fn)
    return p
