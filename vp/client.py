"""Shared parts of the property checks: engines that turn panics and lost progress into findings, anchors, chains."""
import os
import time
from .core import *
from .engine import Engine, strip_generics
from .base import Report


class MissingAnchor(Exception):
    pass


class Ctx:
    def __init__(self, prog, pid, tier='quick'):
        self.prog, self.pid, self.tier = prog, pid, tier
        self.rep = Report()
        self.t0 = time.time()
        self.engines = []
        self.rule = ''
        self.samples = []

    def anchor(self, path):
        """a public function the property is about"""
        r = [f for f in self.prog.fns.values() if f.parent is None and (strip_generics(f.path) == path or f.path == path)]
        if len(r) != 1:
            raise MissingAnchor(path)
        return r[0]

    def method(self, trait, method, self_pat=None):
        """implementations of a trait method in the workspace"""
        out = []
        for f in self.prog.fns.values():
            if f.crate != 'vpmodels' and f.impl_trait and strip_generics(f.impl_trait) == trait and f.name == method:
                if self_pat is None or self_pat in (f.self_ty.s if hasattr(f.self_ty, 's') else str(f.self_ty)):
                    out.append(f)
        return out

    def done(self, E, what):
        """account for a finished engine run"""
        r = self.rep
        r.ok('abstract states explored', E.steps)
        r.ok('state merges', E.joins + E.dedups)
        self.engines.append((what, E))
        for k in E.undecided:
            r.undecide(what, k)

    def functions(self):
        s = set()
        for _, E in self.engines:
            s |= set(E.reached)
        return s


class Checked(Engine):
    """an engine whose findings go to a report; findings that rest on an unmodelled call are only noted"""

    def __init__(self, ctx, **kw):
        super().__init__(ctx.prog, **kw)
        self.ctx = ctx
        self.rep = ctx.rep
        self.what = ''
        self.panic_pid = None
        self.panics = {}

    def panic(self, st, kind):
        w = self.where(st)
        fn = st.frames[-1].fn
        k = len(st.frames) - 1
        while k > 0 and st.frames[k].fn.crate == 'vpmodels':
            k -= 1
        key = (kind, st.frames[k].fn.uid)
        self.panics.setdefault(key, (w, st.trace_list()[-30:], st.taint, [f.fn.path for f in st.frames]))
        self.on_panic(st, kind, w)

    def on_panic(self, st, kind, w):
        pass

    def finding(self, st, key, msg):
        if st.taint:
            self.rep.undecide('%s: %s' % (self.what, key), 'rests on unmodelled %s: %s' % (', '.join(map(str, st.taint)), msg))
        else:
            self.rep.violation(key, msg, self.where(st) if st.frames else self.what, st.trace_list())

    def go(self, states):
        """run; an exhausted budget is an undecided part of the property"""
        try:
            self.run(states)
        except Undecided as u:
            self.rep.undecide(self.what, u)
            return False
        return True


def pub(path):
    """the part of a function's path that identifies it in a report"""
    return strip_generics(path)
