"""Extraction of the compiler's MIR for /repo's working tree, and reporting."""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, '.build'))


class SetupError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.setdefault('HOME', '/root')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def _run(cmd, env, cwd=None, what=''):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise SetupError('%s failed:\n%s' % (what or cmd[0], r.stdout[-4000:]))
    return r.stdout


def sysroot(env):
    return _run(['rustc', '+nightly', '--print', 'sysroot'], env).strip()


def driver():
    env = _env()
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'main.rs')
    out = os.path.join(BUILD, 'drv')
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        _run(['rustc', '+nightly', '--edition', '2021', '-O', '-o', out + '.new', src], env, what='building the MIR driver')
        os.replace(out + '.new', out)
    return out


def extract(retry=True):
    """-> directory with one facts file per crate of the current working tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        env = _env()
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot(env), 'lib')
        facts = os.path.join(BUILD, 'facts.%d' % os.getpid())
        shutil.rmtree(facts, ignore_errors=True)
        os.makedirs(facts)
        env['VP_OUT'] = facts
        tgt = os.path.join(BUILD, 'target')
        # force the workspace crates through the driver on every run
        for sub in ('.fingerprint', 'build'):
            fp = os.path.join(tgt, 'debug', sub)
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n == 'server' or n.startswith('server-'):
                        shutil.rmtree(os.path.join(fp, n))
        env['CARGO_TARGET_DIR'] = tgt
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['CARGO_INCREMENTAL'] = '0'
        lock = os.path.join(REPO, 'Cargo.lock')
        had = open(lock, 'rb').read() if os.path.exists(lock) else None
        _run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins'], env, cwd=os.path.join(REPO, 'server'), what='cargo check of /repo')
        if had is not None and open(lock, 'rb').read() != had:
            with open(lock, 'wb') as f:
                f.write(had)
        _run([drv, 'rustc', os.path.join(VERIF, 'vp', 'models.rs'), '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'vpmodels',
              '--emit', 'metadata', '-o', os.path.join(facts, 'libvpmodels.rmeta')], env, what='extracting the library models')
        need = ['server', 'simple_server', 'multi_server', 'async_server', 'vpmodels']
        miss = [n for n in need if not os.path.exists(os.path.join(facts, n + '.json'))]
        if miss and retry:
            shutil.rmtree(tgt, ignore_errors=True)
            fcntl.flock(lk, fcntl.LOCK_UN)
            return extract(False)
        if miss:
            raise SetupError('no facts for crates: %s' % miss)
        return facts


class Report:
    """collects what an analysis examined and what it found, per property"""

    def __init__(self):
        self.items = []          # (kind, name, detail) obligations discharged
        self.findings = {}       # key -> dict
        self.undecided = {}
        self.notes = []
        self.stats = {}

    def ok(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def violation(self, key, msg, where='', trace=()):
        if key not in self.findings:
            self.findings[key] = {'key': key, 'message': msg, 'where': where, 'trace': list(trace)[-40:]}

    def undecide(self, what, why):
        self.undecided.setdefault(what, str(why)[:300])

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)
