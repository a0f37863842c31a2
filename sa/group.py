"""Obligation collection shared by all analyses."""
import os
from . import interp as I
from .lin import Lin


class Obl:
    __slots__ = ('pids', 'key', 'ok', 'text', 'where')

    def __init__(self, pids, key, ok, text, where):
        self.pids = tuple(pids)
        self.key = key
        self.ok = ok        # True discharged, False violated, None undecided
        self.text = text
        self.where = where


class Missing(Exception):
    """A function the analysis is anchored at does not exist."""


class Group:
    """Collects obligations; each is filed under the properties it supports."""

    def __init__(self, P, pid=None, tier='quick'):
        self.P = P
        self.pid = pid
        self.tier = tier
        self.obl = []
        self.its = []
        self.fns = set()
        self.sites = 0
        self.contracts = set()
        self.group = ''

    def wants(self, *pids):
        """Is any of these properties being decided by this run?"""
        return self.pid is None or self.pid in pids

    def check(self, pids, cond, key, text='', where=''):
        self.obl.append(Obl(pids, key, bool(cond), text, where))
        return bool(cond)

    def undecided(self, pids, key, text='', where=''):
        self.obl.append(Obl(pids, key, None, text, where))

    def use(self, it):
        self.its.append(it)

    def fn(self, b):
        self.fns.add(b.npath)

    ALL = tuple('C%02d' % i for i in range(1, 40))

    def guard(self, f, what, pids=None, args=None):
        """Run part of an analysis; a construct outside the analysed fragment leaves its obligations undecided."""
        try:
            return f(*(args if args is not None else (self,)))
        except Missing as x:
            self.undecided(pids or self.ALL, '%s: analysable' % what, 'anchor %s not found' % x)
        except I.Unsupported as x:
            self.undecided(pids or self.ALL, '%s: analysable' % what, 'construct outside the analysed fragment: %s' % x)
        except Exception as x:
            if os.environ.get('VERIF_DEBUG'):
                raise
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            self.undecided(pids or self.ALL, '%s: analysable' % what, 'analysis stopped: %s %s at %s:%d' % (type(x).__name__, str(x)[:200], tb.filename.split('/')[-1], tb.lineno))


def panic_sites(g, pids, it, label):
    """One obligation per place in the analysed crate code that could panic: shown unreachable unless reported."""
    bad = {}
    for p in it.panics:
        bad.setdefault((p.fn, p.what), p)
    for p in bad.values():
        g.check(pids, False, '%s: %s in %s: %s' % (label, p.kind, p.fn, p.what), 'not excluded: %r' % p, p.where)
    for k in it.analysed:
        b = it.p.bodies[k]
        if not b.local:
            continue
        for i, blk in enumerate(b.blocks):
            if blk.get('c'):
                continue
            t = blk['t']
            what = None
            if t[0] == 'assert':
                what = 'check %s' % (t[3] if len(t) > 3 and isinstance(t[3], str) else '')
            elif t[0] == 'call' and isinstance(t[1], dict) and 'panic' in (t[1].get('rpath') or t[1].get('path') or ''):
                what = 'panic'
            if what:
                g.check(pids, True, '%s: %s in %s (block %d) not reachable' % (label, what, b.npath, i), '', b.where())
