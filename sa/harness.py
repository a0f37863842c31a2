"""Shared set-up: MIR dump of /repo's current tree, interpreters, results and evidence."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class Finding:
    """A violation: property, stable key (no line numbers), human text and location."""

    def __init__(self, key, text, where=''):
        self.key = key
        self.text = text
        self.where = where


class Result:
    """Accumulates what a check did."""

    def __init__(self, pid):
        self.pid = pid
        self.findings = []
        self.obl = []       # (name, status)
        self.fns = set()
        self.notes = []
        self.t0 = time.time()
        self.extra = {}

    def ok(self, name):
        self.obl.append((name, True))

    def bad(self, key, text, where=''):
        self.obl.append((key, False))
        if not any(f.key == key for f in self.findings):
            self.findings.append(Finding(key, text, where))

    def check(self, cond, key, text, where=''):
        if cond:
            self.ok(key)
        else:
            self.bad(key, text, where)
        return bool(cond)

    def use(self, it):
        """Record what an interpreter analysed."""
        for k in it.analysed:
            b = it.p.bodies[k]
            if b.local:
                self.fns.add(b.npath)
        self.extra['steps'] = self.extra.get('steps', 0) + it.steps
        self.extra['memory accesses bounded'] = self.extra.get('memory accesses bounded', 0) + it.oob_checks
        self.extra['assertions examined'] = self.extra.get('assertions examined', 0) + it.asserts


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def build_driver():
    exe = os.path.join(BUILD, 'driver', 'release', 'mirdump')
    src = os.path.join(VERIF, 'driver', 'src', 'main.rs')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'))
    env.pop('RUSTFLAGS', None)
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'driver'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        raise SystemExit(3)
    return exe


class BuildFailed(Exception):
    pass


def dump(out=None):
    exe = build_driver()
    sr = sysroot()
    os.makedirs(BUILD, exist_ok=True)
    out = out or os.path.join(BUILD, 'dump.%d.json' % os.getpid())
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sr, 'lib'), MIRDUMP_OUT=out)
    env.pop('RUSTFLAGS', None)
    r = subprocess.run([exe, os.path.join(REPO, 'src', 'lib.rs'), '--edition', '2018', '--crate-type', 'lib', '--crate-name', 'iota_mam',
                        '-Cdebug-assertions=on', '-Coverflow-checks=on', '-Zmir-opt-level=0', '-Zalways-encode-mir', '--sysroot', sr],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=BUILD)
    if r.returncode != 0 or not os.path.exists(out):
        raise BuildFailed(r.stderr[-4000:])
    return out


_prog = None


def prog():
    global _prog
    if _prog is None:
        from .prog import Prog
        pre = os.environ.get('VERIF_DUMP')
        if pre:
            _prog = Prog(pre)
        else:
            f = dump()
            try:
                _prog = Prog(f)
            finally:
                os.unlink(f)
    return _prog


def known_findings():
    """Entries `known: property=<id> key=<key> ...`."""
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: '):
                pid = l.split('property=')[1].split()[0]
                key = l.split('key=')[1].split(' :: ')[0].strip()
                text = l.split(' :: ', 1)[1] if ' :: ' in l else ''
                out.append((pid, key, text))
    return out
