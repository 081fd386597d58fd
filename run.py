#!/usr/bin/env python3
"""Decide one property for /repo's working tree:  run.py <property id>"""
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from vp import base

MODULES = ['analysis', 'grammar', 'interp', 'store', 'auth', 'server', 'net', 'recv']


def find_check(pid):
    """the parts of the check of a property; the part in CHECKS states the rule"""
    parts = []
    for m in MODULES:
        if os.path.exists(os.path.join(HERE, 'vp', 'checks', m + '.py')):
            mod = importlib.import_module('vp.checks.' + m)
            if pid in mod.CHECKS:
                parts.insert(0, mod.CHECKS[pid])
            if pid in getattr(mod, 'EXTRA', {}):
                parts.append(mod.EXTRA[pid])
    if not parts:
        return None
    return parts


def known(pid):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        return {k['key']: k for k in json.load(f)['findings'] if k['property'] == pid}


class OutOfTime(Exception):
    pass


def guard():
    """an analysis that grows without bound gives up instead of dragging the machine down"""
    def expired(sig, frame):
        raise OutOfTime('time limit')
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    signal.signal(signal.SIGALRM, expired)
    signal.setitimer(signal.ITIMER_REAL, 760, 20)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    check = find_check(pid)
    if check is None:
        print('no check for', pid)
        return 2
    from vp.prog import load_dir
    from vp.client import Ctx, MissingAnchor
    facts = os.environ.get('VP_FACTS')
    own = facts is None
    try:
        if own:
            facts = base.extract()
        ctx = Ctx(load_dir(facts), pid, tier)
    except base.SetupError as e:
        print('cannot analyse /repo:', e)
        return 2
    finally:
        if own and facts:
            shutil.rmtree(facts, ignore_errors=True)
    guard()
    for part in check:
        try:
            part(ctx)
        except MissingAnchor as e:
            ctx.rep.violation('anchor:%s' % e, 'the function the property is anchored on is gone: %s' % e, str(e))
        except Exception:
            # the analysis itself gave up: nothing is claimed about the tree
            ctx.rep.undecide('analysis', traceback.format_exc()[-1500:])
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
    signal.setitimer(signal.ITIMER_REAL, 0)
    rep = ctx.rep
    kn = known(pid)
    new = {k: v for k, v in rep.findings.items() if k not in kn}
    for k in rep.findings:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[k]['what']))
    for k, v in sorted(rep.undecided.items()):
        print('UNDECIDED property=%s %s: %s' % (pid, k[:200], v.strip().splitlines()[-1][:200] if v.strip() else ''))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'MANIFEST.json')) as f:
        man = {c['property']: c for c in json.load(f)['checks']}
    level = man.get(pid, {}).get('level', 'other')
    fns = ctx.functions()
    names = sorted(set(ctx.prog.fns[u].path for u in fns if u in ctx.prog.fns and ctx.prog.fns[u].crate != 'vpmodels'))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'wall_s': round(time.time() - t0, 2), 'violations': len(new),
        'coverage': {
            'explanation': 'Static analysis of the compiler MIR of /repo\'s working tree. Rule: ' + ctx.rule,
            'measured': rep.stats,
            'functions_analysed': len(names),
            'functions': names[:150],
            'findings': [dict(f, known=f['key'] in kn) for f in list(rep.findings.values())[:20]],
            'undecided': {k[:300]: v[:400] for k, v in list(rep.undecided.items())[:40]},
            'notes': rep.notes[:40],
            'samples': ctx.samples[:12],
        },
        'assumptions': getattr(ctx, 'assumptions', []),
    }
    out = json.dumps(ev, indent=1, default=str)
    if len(out) > 60000:
        ev['coverage']['samples'] = ctx.samples[:2]
        ev['coverage']['findings'] = [{k: f[k] for k in ('key', 'message', 'where')} for f in ev['coverage']['findings']]
        out = json.dumps(ev, indent=1, default=str)[:64000] if False else json.dumps(ev, default=str)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        f.write(out)
    os.replace(path + '.tmp', path)
    for k, v in new.items():
        print('%s: %s\n    at %s' % (k, v['message'], v['where']))
    if new:
        print('VIOLATION property=%s replay=evidence/%s.json' % (pid, pid))
        return 1
    print('%s: holds; %s (%.1f s)' % (pid, ', '.join('%s: %s' % x for x in rep.stats.items()), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
