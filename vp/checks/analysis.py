"""Request analysis: tokenizer and parser over every text / every token sequence."""
from ..client import *

TNEW = 'server::analysis::tokenizer::Tokenizer::new'
TOK = 'server::analysis::tokenizer::Tokenizer::tokenize'
PNEW = 'server::analysis::parser::Parser::new'
PARSE = 'server::analysis::parser::Parser::parse'


class Total(Checked):
    """joining analysis: every path over unknown input ends and never panics"""

    def __init__(self, ctx, what, **kw):
        super().__init__(ctx, **kw)
        self.what = what
        self.join_mode = True
        self.vec_cap = 0
        self.summarise_tables = True
        self.progress = True


def chain(E, st, fns, args):
    """run fns[0](args), then every later method on the value the previous one returned"""
    states = [(st, args)]
    for n, f in enumerate(fns):
        E.outcomes = []
        todo = []
        for s, a in states:
            E.push_frame(s, f, a)
            todo.append(s)
        E.visited = {}
        if not E.go(todo):
            return []
        if n + 1 < len(fns):
            states = [(s, [('ref', s.new_cell(v), ())]) for s, v in E.outcomes]
    return E.outcomes


def t01(ctx):
    ctx.rule = ('every abstract path through the function from an unknown input: no reachable panic (index, slice, unwrap, overflow, '
                'explicit), and every trip around a loop advances a bounded cursor or iterator')
    for what, names in (('tokenizer over every text', (TNEW, TOK)), ('parser over every token sequence', (PNEW, PARSE))):
        fns = [ctx.anchor(n) for n in names]
        E = Total(ctx, what, max_steps=400000 if ctx.tier == 'quick' else 2000000, max_time=500)
        outs = chain(E, State(), fns, [mk('input', fns[0].locals[1])])
        ctx.done(E, what)
        rep = ctx.rep
        for (kind, uid), (w, tr, taint, fr) in sorted(E.panics.items()):
            fn = strip_generics(ctx.prog.fns[uid].path if uid in ctx.prog.fns else uid)
            if taint:
                rep.undecide('%s: possible panic in %s' % (what, fn), 'rests on %s' % (taint,))
            else:
                rep.violation('panic:%s:%s' % (kind, fn), '%s: panic (%s) reachable in %s' % (what, kind, fn), w, tr)
        for (uid, bb), (w, tr, taint) in sorted(E.no_progress.items()):
            fn = strip_generics(ctx.prog.fns[uid].path if uid in ctx.prog.fns else uid)
            if taint:
                rep.undecide('%s: progress in %s' % (what, fn), 'rests on %s' % (taint,))
            else:
                rep.violation('loop:%s' % fn, '%s: a loop in %s can go round without consuming input' % (what, fn), w, tr)
        if not outs and not E.undecided and not rep.findings and not rep.undecided:
            rep.violation('no-result', '%s: no path ever returns' % what, what)
        loops = set((u, b) for u in E.reached for b in (ctx.prog.fns[u].loopheads or ()) if u in ctx.prog.fns)
        rep.ok('functions analysed', len(E.reached))
        rep.ok('loops whose progress was established', len(loops))
        rep.ok('result states', len(outs))
        ctx.samples.append({'root': what, 'functions': sorted(strip_generics(ctx.prog.fns[u].path) for u in E.reached if u in ctx.prog.fns)[:40], 'results': [str(v)[:160] for _, v in outs[:4]]})


CHECKS = {'T01': t01}
