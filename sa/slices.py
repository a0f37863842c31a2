"""Trit slices and containers: ranges, accessors, copies, comparison (real bodies over the contracts of the word layer)."""
from .lin import Lin, L, atom, fresh, ATOMS, deep
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops
from .group import Missing, panic_sites
from .word import body, written, start, cases, lname, P3
from .models import eq_content, m_push, some, deref, NONE

SR = 'trits::slice::SliceRange'
CS = 'trits::slice::TritSliceT'
MS = 'trits::slice::TritSliceMutT'
TT = 'trits::trits::TritsT'
BIG = 1 << 40


class Sl:
    def __init__(self, it, st, name, mut):
        self.name = name
        self.N = fresh('N' + name, 0, BIG)
        self.n = fresh('n' + name, 0, BIG)
        self.d = fresh('d' + name, 0, BIG)
        st.facts.add_ge(self.N - self.n)
        st.facts.add_ge(self.n - self.d)
        self.obj = ('S', (name,))
        st.mem[self.obj] = Region(self.N, ((self.N, 'src', (name,), Lin(0)),))
        self.ptr = Ptr(self.obj, (('e', Lin(0)),))
        self.v = self.mk(self.n, self.d, mut)
        self.mut = mut

    @classmethod
    def within(cls, it, st, name, other, mut=False):
        """A second, independent range of the same buffer."""
        self = cls.__new__(cls)
        self.name = other.name
        self.N = other.N
        self.n = fresh('n' + name, 0, BIG)
        self.d = fresh('d' + name, 0, BIG)
        st.facts.add_ge(self.N - self.n)
        st.facts.add_ge(self.n - self.d)
        self.obj, self.ptr, self.mut = other.obj, other.ptr, mut
        self.v = self.mk(self.n, self.d, mut)
        return self

    def mk(self, n, d, mut=None):
        return Agg(MS if (self.mut if mut is None else mut) else CS, None, [Agg(SR, None, [n, d]), self.ptr, UNIT])

    @property
    def size(self):
        return self.n - self.d

    def src(self, off, n):
        """Original contents [d+off, +n)."""
        return ((L(n), 'src', (self.name,), self.d + off),)


class Run:
    """One method under analysis: slices, arguments, outcome states and panics."""

    def __init__(self, g, path, setup, loop=False, hooks=None):
        self.g = g
        self.b = body(g, path)
        g.fn(self.b)
        H = C.tw_hooks()
        H.update(hooks or {})
        self.it, self.st = start(g, H)
        it = self.it
        it.no_merge = True
        self.sl = {}
        self.acc = []
        self.reps = []
        it.on_index = lambda it, st, i, k, n, what: self.acc.append((st.copy(), i, k, n, what, it.stack[-1][0].where(it.stack[-1][1])))
        it.logs = [self.acc]
        if loop:
            it.loop_hook = loops.summarise
            it.summ_rkind = 'src'
            it.summ_report = self.reps.append
        self.args = setup(self)
        self.outs = it.exec_body(self.st, self.b, self.args)
        g.use(it)

    def slice(self, name, mut=False):
        s = self.sl[name] = Sl(self.it, self.st, name, mut)
        return s

    def trits(self, name):
        """A container of trits, by reference."""
        self.tn = fresh('n' + name, 0, BIG)
        self.tobj = ('H', (name,))
        self.st.mem[self.tobj] = Region(self.tn, ((self.tn, 'src', (name,), Lin(0)),))
        return self.ref(Agg(TT, None, [self.tn, VecV(self.tobj)]))

    def second(self, name, other, alias, mut=False):
        if not alias:
            return self.slice(name, mut)
        s = self.sl[name] = Sl.within(self.it, self.st, name, self.sl[other], mut)
        return s

    def ref(self, v):
        o = ('S', ('ref', len(self.st.mem)))
        self.st.mem[o] = v
        return Ptr(o)


def judge(g, r, lab, pre, pids):
    """Returns exactly when the precondition holds; all accesses are inside the slices."""
    where = r.b.where()
    for p in r.it.panics:
        f = pre if not callable(pre) else pre(p.state)
        bad = [x for x in p.state.copy().assume(f, True) if x.facts.consistent()]
        g.check(pids, not bad, '%s: does not panic on permitted arguments' % lab, '%s at %s' % (p.what, p.where), p.where)
    for s, v in r.outs:
        f = pre if not callable(pre) else pre(s)
        if f is True:
            continue
        g.check(pids, s.decide(f) is True, '%s: refuses arguments exceeding the slice' % lab, 'returns although %r is not ensured' % (f,), where)
    for st, i, k, n, what, w in r.acc:
        for name in {s.name: 0 for s in r.sl.values()}:
            own = [s for s in r.sl.values() if s.name == name]
            s = own[0]
            if n == s.N or st.canon(n) == st.canon(s.N):
                ok = any(st.decide(f_and(f_ge(i - s.d), f_ge(s.n - i - k))) is True for s in own) or st.decide(f_eq(k)) is True
                g.check(pids, ok, '%s: every %s of %s is inside its range' % (lab, what, s.name), '[%r, +%r)' % (i, k), w)
    g.check(pids, True, '%s: ranges respected' % lab)


def content_is(g, r, s, sl, off, exp, lab, pids):
    """The slice's trits from `off` equal exp; everything else in its buffer is unchanged."""
    n = clen(exp)
    reg = s.mem[sl.obj]
    got = r.it.read_region(s, reg, sl.d + off, n)
    g.check(pids, s.same_content(got, exp), '%s: trits written to %s' % (lab, sl.name), 'got %r, expected %r' % (s.norm_content(got), s.norm_content(exp)), r.b.where())
    ok = True
    for q, pc in written(s, reg, (sl.name,)):
        ok = ok and s.facts.ent_ge(q - sl.d - off) and s.facts.ent_ge(sl.d + off + n - q - pc[0])
    g.check(pids, ok, '%s: nothing else in %s is written' % (lab, sl.name), repr(reg)[:300], r.b.where())


def untouched(g, r, s, sl, lab, pids):
    g.check(pids, not written(s, s.mem[sl.obj], (sl.name,)), '%s: %s is only read' % (lab, sl.name), '', r.b.where())


P13 = ('C13',)


def min_(s, a, b):
    return a if s.must(f_ge(b - a)) else b


def ranges(g):
    """Sub-slicing, on both slice types, through the range type."""
    k = fresh('k', 0, BIG)

    def spec(name):
        """(pre(n,d), result(s,n,d) -> list of (n,d)) """
        return {
            'take': (lambda n, d: f_ge(n - d - k), lambda s, n, d: [(d + k, d)]),
            'drop': (lambda n, d: f_ge(n - d - k), lambda s, n, d: [(n, d + k)]),
            'split_at': (lambda n, d: f_ge(n - d - k), lambda s, n, d: [(d + k, d), (n, d + k)]),
            'take_min': (None, lambda s, n, d: [(min_(s, n, d + k), d)]),
            'drop_min': (None, lambda s, n, d: [(n, min_(s, n, d + k))]),
            'split_at_min': (None, lambda s, n, d: [(min_(s, n, d + k), d), (n, min_(s, n, d + k))]),
            'pickup': (lambda n, d: f_ge(d - k), lambda s, n, d: [(n, d - k)]),
            'pickup_all': (None, lambda s, n, d: [(n, Lin(0))]),
            'drop_all': (None, lambda s, n, d: [(n, n)]),
            'dropped': (None, lambda s, n, d: [(d, Lin(0))]),
        }[name]
    for mut, T in ((False, CS), (True, MS)):
        for name in ('take', 'drop', 'split_at', 'take_min', 'drop_min', 'split_at_min', 'pickup', 'pickup_all', 'drop_all', 'dropped'):
            def one(name=name, mut=mut, T=T):
                lab = '%s::%s' % (T.split('::')[-1], name)
                pre, res = spec(name)
                noarg = name in ('pickup_all', 'drop_all', 'dropped')
                r = Run(g, T + '::' + name, lambda r: [r.slice('x', mut).v] + ([] if noarg else [k]))
                x = r.sl['x']
                judge(g, r, lab, pre(x.n, x.d) if pre else True, P13)
                g.check(P13, r.outs, '%s: returns' % lab, '', r.b.where())
                for s, v in r.outs:
                    for s2, exp in cases(s, lambda s: res(s, x.n, x.d)):
                        vs = v.f if len(exp) > 1 else [v]
                        same(g, r, s2, vs, exp, x, lab)
            g.guard(one, '%s::%s' % (T, name), P13, ())

        def adv(mut=mut, T=T):
            lab = '%s::advance' % T.split('::')[-1]
            r = Run(g, T + '::advance', lambda r: [r.ref(r.slice('x', mut).v), k])
            x = r.sl['x']
            judge(g, r, lab, f_ge(x.size - k), P13)
            for s, v in r.outs:
                same(g, r, s, [v, r.it.read_path(s, r.args[0])], [(x.d + k, x.d), (x.n, x.d + k)], x, lab)
        g.guard(adv, '%s::advance' % T, P13, ())

        def diff(mut=mut, T=T):
            lab = '%s::diff' % T.split('::')[-1]
            r = Run(g, T + '::diff', lambda r: [r.slice('x', mut).v, Agg(T, None, [Agg(SR, None, [fn, fd]), Ptr(('S', ('x',)), (('e', Lin(0)),)), UNIT])])
            x = r.sl['x']
            judge(g, r, lab, f_and(f_ge(x.d - fd), f_ge(fn - x.d)), P13)
            for s, v in r.outs:
                same(g, r, s, [v], [(x.d, fd)], x, lab)
        fn, fd = fresh('sn', 0, BIG), fresh('sd', 0, BIG)
        g.guard(diff, '%s::diff' % T, P13, ())

        # sizes
        for name, f in (('size', lambda s, n, d: n - d), ('avail_size', lambda s, n, d: n - d), ('total_size', lambda s, n, d: n),
                        ('dropped_size', lambda s, n, d: d), ('size_min', lambda s, n, d: min_(s, n - d, k)), ('is_empty', None)):
            def one(name=name, f=f, mut=mut, T=T):
                lab = '%s::%s' % (T.split('::')[-1], name)
                r = Run(g, T + '::' + name, lambda r: [r.slice('x', mut).v] + ([k] if name == 'size_min' else []))
                x = r.sl['x']
                judge(g, r, lab, True, P13)
                for s, v in r.outs:
                    if f is None:
                        for e in (True, False):
                            for z in s.copy().assume(f_eq(x.size), e):
                                g.check(P13, z.decide(v) is e, '%s: value' % lab, repr(v), r.b.where())
                    else:
                        for s2, e in cases(s, lambda s: f(s, x.n, x.d)):
                            g.check(P13, isinstance(v, Lin) and s2.facts.ent_eq(v - e), '%s: value' % lab, 'returns %r, expected %r' % (v, e), r.b.where())
            g.guard(one, '%s::%s' % (T, name), P13, ())


def same(g, r, s, vs, exp, x, lab):
    for v, (n, d) in zip(vs, exp):
        rn, rd = v.f[0].f
        p = v.f[1]
        g.check(P13, isinstance(p, Ptr) and p.base() == x.ptr.base() and s.facts.ent_eq(p.off()), '%s: same memory' % lab, repr(p), r.b.where())
        g.check(P13, s.facts.ent_eq(rn - n) and s.facts.ent_eq(rd - d), '%s: resulting range' % lab,
                'range [%r, %r) instead of [%r, %r)' % (s.canon(rd), s.canon(rn), s.canon(d), s.canon(n)), r.b.where())


def from_ptr(g):
    for mut, T in ((False, CS), (True, MS)):
        def one(T=T, mut=mut):
            lab = '%s::from_raw_ptr' % T.split('::')[-1]
            k = fresh('k', 0, BIG)
            r = Run(g, T + '::from_raw_ptr', lambda r: [k, r.slice('x', mut).ptr])
            judge(g, r, lab, True, P13)
            for s, v in r.outs:
                same(g, r, s, [v], [(k, Lin(0))], r.sl['x'], lab)
        g.guard(one, T + '::from_raw_ptr', P13, ())

        def two(T=T, mut=mut):
            nm = 'from_slice_mut' if mut else 'from_slice'
            lab = '%s::%s' % (T.split('::')[-1], nm)
            k = fresh('k', 0, BIG)

            def setup(r):
                x = r.slice('x', mut)
                return [k, Ptr(x.obj, (('e', Lin(0)),), x.N)]
            r = Run(g, T + '::' + nm, setup)
            x = r.sl['x']
            judge(g, r, lab, f_ge(x.N - k), P13)
            for s, v in r.outs:
                same(g, r, s, [v], [(k, Lin(0))], x, lab)
        g.guard(two, T + '::from_slice', P13, ())

        def three(T=T, mut=mut):
            nm = 'slice_mut' if mut else 'slice'
            lab = 'TritsT::%s' % nm

            def setup(r):
                n = fresh('size', 0, BIG)
                t = r.it.mk_trits(r.st, n, ((n, 'src', ('t',), Lin(0)),), ('S', ('t',)))
                r.n = n
                r.t = t
                return [r.ref(t)]
            r = Run(g, TT + '::' + nm, setup)
            judge(g, r, lab, True, P13)
            for s, v in r.outs:
                rn, rd = v.f[0].f
                p = v.f[1]
                ok = p.base() == (('S', ('t',)), ()) and s.facts.ent_eq(p.off()) and s.facts.ent_eq(rn - r.n) and s.facts.ent_eq(rd)
                g.check(P13, ok, '%s: the whole container' % lab, repr(v), r.b.where())
        g.guard(three, 'TritsT::slice', P13, ())

    def ac():
        r = Run(g, MS + '::as_const', lambda r: [r.slice('x', True).v])
        for s, v in r.outs:
            x = r.sl['x']
            same(g, r, s, [v], [(x.n, x.d)], x, 'TritSliceMutT::as_const')
        judge(g, r, 'TritSliceMutT::as_const', True, P13)
    g.guard(ac, 'as_const', P13, ())


def accessors(g):
    for nm, n in (('trit', 1), ('tryte', 3), ('1', 1), ('3', 3), ('6', 6), ('9', 9), ('18', 18)):
        def get(nm=nm, n=n):
            lab = 'TritSliceT::get' + ('_' if nm[0] == 't' else '') + nm
            r = Run(g, CS + '::' + lab.split('::')[1], lambda r: [r.slice('x').v])
            x = r.sl['x']
            pids = ('C13', 'C10')
            judge(g, r, lab, f_ge(x.size - n), pids)
            g.check(pids, r.outs, '%s: returns' % lab, '', r.b.where())
            for s, v in r.outs:
                c = x.src(0, n)
                if nm == 'trit':
                    e = r.it.trit_at(s, c)
                elif nm == 'tryte':
                    e = atom('gett', (s.norm_content(s.canon_term(c)),), 0, 26)
                else:
                    e = C.get_value(r.it, s, n, c)
                g.check(pids, s.same(v, e), '%s: reads at the current offset' % lab, 'reads %r' % (v,), r.b.where())
                untouched(g, r, s, x, lab, pids)
        g.guard(get, 'get' + nm, ('C13', 'C10'), ())

        def put(nm=nm, n=n):
            lab = 'TritSliceMutT::put' + ('_' if nm[0] == 't' else '') + nm
            v = fresh('v', 0, 2 if n == 1 else 26) if nm[0] == 't' else fresh('v', -P3[n], P3[n])
            r = Run(g, MS + '::' + lab.split('::')[1], lambda r: [r.slice('x', True).v, v])
            x = r.sl['x']
            pids = ('C13', 'C10', 'C12')
            judge(g, r, lab, f_ge(x.size - n), pids)
            g.check(pids, r.outs, '%s: returns' % lab, '', r.b.where())
            for s, _ in r.outs:
                if nm == 'trit':
                    e = ((Lin(1), 'val', v, Lin(0)),)
                elif nm == 'tryte':
                    e = ((Lin(3), 'putt', s.canon(v), Lin(0)),)
                else:
                    e = C.put_piece(s, n, v)
                content_is(g, r, s, x, 0, e, lab, pids)
        g.guard(put, 'put' + nm, ('C13', 'C10', 'C12'), ())


def bulk(g):
    """Copies, comparison, cell operations."""
    pids = ('C13', 'C12', 'C07')

    def copy():
        r = Run(g, CS + '::copy', lambda r: [r.slice('x').v, r.slice('y', True).v])
        x, y = r.sl['x'], r.sl['y']
        judge(g, r, 'copy', f_eq(x.size - y.size), pids)
        for s, _ in r.outs:
            content_is(g, r, s, y, 0, x.src(0, x.size), 'copy', pids)
            untouched(g, r, s, x, 'copy', pids)
    g.guard(copy, 'copy', pids, ())

    def copy_min():
        r = Run(g, CS + '::copy_min', lambda r: [r.slice('x').v, r.slice('y', True).v])
        x, y = r.sl['x'], r.sl['y']
        judge(g, r, 'copy_min', True, pids)
        for s, v in r.outs:
            for s2, m in cases(s, lambda s: min_(s, x.size, y.size)):
                g.check(pids, s2.facts.ent_eq(v - m), 'copy_min: number of trits copied', repr(v), r.b.where())
                content_is(g, r, s2, y, 0, x.src(0, m), 'copy_min', pids)
                untouched(g, r, s2, x, 'copy_min', pids)
    g.guard(copy_min, 'copy_min', pids, ())

    def zero_():
        r = Run(g, MS + '::set_zero', lambda r: [r.slice('x', True).v])
        x = r.sl['x']
        judge(g, r, 'set_zero', True, pids)
        for s, _ in r.outs:
            content_is(g, r, s, x, 0, zero(x.size), 'set_zero', pids)
    g.guard(zero_, 'set_zero', pids, ())
    c8 = ('C08', 'C13', 'C12')

    def cell(name, kind, min_form):
        swap = name.startswith('swap')
        full = name + ('_min' if min_form else '')

        def setup(r):
            if swap:
                return [r.slice('x', True).v, r.slice('s', True).v]
            return [r.slice('x').v, r.slice('s', True).v, r.slice('y', True).v]
        r = Run(g, (MS if swap else CS) + '::' + full, setup)
        x, ss = r.sl['x'], r.sl['s']
        y = x if swap else r.sl['y']
        pre = True if swap else f_eq(x.size - y.size)
        if not min_form:
            pre = f_and(f_eq(x.size - ss.size), pre)
        judge(g, r, full, pre, c8)
        g.check(c8, r.outs, '%s: returns' % full, '', r.b.where())
        for s, v in r.outs:
            for s2, m in cases(s, lambda s: min_(s, x.size, ss.size)):
                cx, cs = s2.norm_content(x.src(0, m)), s2.norm_content(ss.src(0, m))
                e = ((m, kind, (cx, cs), Lin(0)),)
                if min_form:
                    g.check(c8, s2.facts.ent_eq(v - m), '%s: number of trits processed' % full, repr(v), r.b.where())
                content_is(g, r, s2, y, 0, s2.norm_content(e), full, c8)
                content_is(g, r, s2, ss, 0, cx if kind == 'tadd' else s2.norm_content(e), full, c8)
                if not swap:
                    untouched(g, r, s2, x, full, c8)
    for name, kind in (('swap_add', 'tadd'), ('swap_sub', 'tsub'), ('copy_add', 'tadd'), ('copy_sub', 'tsub')):
        for mf in (False, True):
            g.guard(lambda name=name, kind=kind, mf=mf: cell(name, kind, mf), name, c8, ())


def equality(g):
    pids = ('C25', 'C13', 'C04', 'C23')

    def iff(r, s, v, f, key):
        for e in (True, False):
            for z in s.copy().assume(f, e):
                if not z.facts.consistent():
                    continue
                g.check(pids, z.decide(v) is e, key, 'returns %r when equality is %s' % (v, e), r.b.where())

    def eq(T, mut, alias):
        lab = T.split('::')[-1] + '::eq' + (' in one buffer' if alias else '')
        r = Run(g, T + '::eq', lambda r: [r.slice('x', mut).v, r.second('y', 'x', alias, mut).v])
        x, y = r.sl['x'], r.sl['y']
        judge(g, r, lab, f_eq(x.size - y.size), pids)
        for s, v in r.outs:
            iff(r, s, v, eq_content(r.it, s, x.src(0, x.size), y.src(0, x.size)), lab + ': true exactly when all trits agree')
            untouched(g, r, s, x, lab, pids)
            untouched(g, r, s, y, lab, pids)

    def eq_min(T, mut, alias):
        lab = T.split('::')[-1] + '::eq_min' + (' in one buffer' if alias else '')
        r = Run(g, T + '::eq_min', lambda r: [r.slice('x', mut).v, r.second('y', 'x', alias, mut).v])
        x, y = r.sl['x'], r.sl['y']
        judge(g, r, lab, True, pids)
        for s, v in r.outs:
            for s2, m in cases(s, lambda s: min_(s, x.size, y.size)):
                g.check(pids, s2.facts.ent_eq(v.f[1] - m), lab + ': number of trits compared', repr(v), r.b.where())
                iff(r, s2, v.f[0], eq_content(r.it, s2, x.src(0, m), y.src(0, m)), lab + ': true exactly when all compared trits agree')

    def peq(path, mut, alias):
        r = Run(g, path, lambda r: [r.ref(r.slice('x', mut).v), r.ref(r.second('y', 'x', alias, mut).v)])
        if alias:
            path += ' in one buffer'
        x, y = r.sl['x'], r.sl['y']
        judge(g, r, path, True, pids)
        for s, v in r.outs:
            full_eq(r, s, v, x.size, y.size, x.src(0, x.size), y.src(0, y.size), path)

    def full_eq(r, s, v, nx, ny, cx, cy, path):
        for z in s.copy().assume(f_eq(nx - ny), False):
            g.check(pids, z.decide(v) is False, '%s: false for different sizes' % path, repr(v), r.b.where())
        for z in s.copy().assume(f_eq(nx - ny), True):
            for w, f in cases(z, lambda z: eq_content(r.it, z, cx, cy)):
                iff(r, w, v, f, '%s: true exactly when all trits agree' % path)
    for T, mut in ((CS, False), (MS, True)):
        for alias in (False, True):
            k = ' in one buffer' if alias else ''
            g.guard(lambda: eq(T, mut, alias), T + '::eq' + k, pids, ())
            g.guard(lambda: eq_min(T, mut, alias), T + '::eq_min' + k, pids, ())
            g.guard(lambda: peq('<%s as std::cmp::PartialEq>::eq' % T, mut, alias), T + ' PartialEq' + k, pids, ())

    def teq():
        def setup(r):
            a, b = fresh('sa', 0, BIG), fresh('sb', 0, BIG)
            r.a, r.b2 = a, b
            return [r.ref(r.it.mk_trits(r.st, a, ((a, 'src', ('a',), Lin(0)),))), r.ref(r.it.mk_trits(r.st, b, ((b, 'src', ('b',), Lin(0)),)))]
        path = '<%s as std::cmp::PartialEq>::eq' % TT
        r = Run(g, path, setup)
        judge(g, r, path, True, pids)
        for s, v in r.outs:
            full_eq(r, s, v, r.a, r.b2, ((r.a, 'src', ('a',), Lin(0)),), ((r.b2, 'src', ('b',), Lin(0)),), path)
    g.guard(teq, 'TritsT PartialEq', pids, ())


def overlap(g):
    """is_same: the in-place form is chosen only for the same location."""
    for mut, T in ((False, CS), (True, MS)):
        def one(mut=mut, T=T):
            pids = ('C08',)
            lab = T.split('::')[-1] + '::is_same'

            def setup(r):
                x = r.slice('x', mut)
                return [x.v, Agg(T, None, [Agg(SR, None, [n2, d2]), x.ptr, UNIT])]
            n2, d2 = fresh('n2', 0, BIG), fresh('d2', 0, BIG)
            r = Run(g, T + '::is_same', setup)
            x = r.sl['x']
            g.check(pids, not r.it.panics, lab + ': does not panic', repr(r.it.panics)[:200], r.b.where())
            for s, v in r.outs:
                for e in (True, False):
                    for z in s.copy().assume(f_eq(x.d - d2), e):
                        g.check(pids, z.decide(v) is e, lab + ': true exactly for the same trit in memory', 'returns %r' % (v,), r.b.where())
            r = Run(g, T + '::is_same', lambda r: [r.slice('x', mut).v, r.slice('y', mut).v])
            for s, v in r.outs:
                g.check(pids, s.decide(v) is False, lab + ': false for different memory', repr(v), r.b.where())
        g.guard(one, T + '::is_same', ('C08',), ())


def counter_loop(g, r, lab, pids, n, write, x, val=None):
    """Common part of loops that walk a slice trit by trit."""


def bad_case(z):
    """Do the facts contradict each other once compound atoms are evaluated (for every value of a variable with a small range)?"""
    if bad_env(z, {}):
        return True
    F = z.facts
    base = set()
    for f in F.ge + F.ne:
        for i in f.atoms():
            base |= {j for j in deep(i) | {i} if ATOMS[j].kind == 'v'}
    for i in sorted(base):
        if i in F.sub:
            continue
        lo, hi = F.bounds(Lin.of(i))
        if lo is not None and hi is not None and hi - lo <= 64 and all(bad_env(z, {i: v}) for v in range(lo, hi + 1)):
            return True
    return False


def bad_env(z, env):
    F = z.facts
    memo = dict(env)

    def atom_value(i):
        # quotients and products from their operands, everything else from what the facts fix it to
        if i not in memo:
            memo[i] = None
            A = ATOMS[i]
            v = None
            if A.kind in ('pdiv', 'div', 'mul'):
                args = [value(x) if isinstance(x, Lin) else x for x in A.args]
                if None not in args:
                    v = z.canon(I.rebuild_atom(A, tuple(Lin(x) if isinstance(y, Lin) else x for x, y in zip(args, A.args))))
            if v is None:
                v = z.canon(Lin.of(i))
            memo[i] = v.c if isinstance(v, Lin) and v.is_const() else None
        return memo[i]

    def value(l):
        c = l.c
        for i, k in l.t:
            v = atom_value(i)
            if v is None:
                return None
            c += k * v
        return c

    def values(l):
        c = z.canon(l)
        return [v for v in (value(l), c.c if c.is_const() else None) if v is not None]
    for f in F.ge:
        if any(v < 0 for v in values(f)):
            return True
    for f in F.ne:
        if 0 in values(f):
            return True
    for i, e in F.sub.items():
        a = atom_value(i)
        if a is not None and any(v != a for v in values(e)):
            return True
        if ATOMS[i].kind not in ('v', 's', 'trit'):
            d = z.canon(I.rebuild_atom(ATOMS[i], z.canon_term(ATOMS[i].args))) - z.canon(e)
            if d.is_const() and d.c != 0:
                return True
    for i in set(F.lo) | set(F.hi):
        a = atom_value(i)
        if a is not None and (F.lo.get(i, a) > a or F.hi.get(i, a) < a):
            return True
    return False


def inc(g):
    """Increment: trits are replaced by (t+1) mod 3 up to and including the first that does not wrap."""
    pids = ('C10', 'C12', 'C13')
    r = Run(g, MS + '::inc', lambda r: [r.slice('x', True).v], loop=True)
    x = r.sl['x']
    judge(g, r, 'inc', True, pids)
    it = r.it
    if not r.reps and r.outs:
        # nothing ever goes round again: the outcomes are exact, so no carry beyond the trits written in them
        for s, v in r.outs:
            t = it.trit_at(s, ((Lin(1), 'src', 'x', Lin(0)),))
            for z in [z2 for z1 in s.copy().assume(f_ge(x.size - 2), True) for z2 in z1.assume(f_eq(t - 2), True)]:
                if z.facts.consistent() and not bad_case(z):
                    seg = written(z, z.mem[x.obj], ('x',))
                    if all(z.facts.ent_ge(q[0] - x.d - 1) or z.facts.ent_eq(q[1][0]) or (q[1][1] == 'val' and z.facts.ent_ge(q[1][2] - 1)) for q in seg):
                        g.check(pids, False, 'inc: a trit 2 becomes 0 and carries', repr(seg), r.b.where())
    if len(r.reps) != 1:
        raise I.Unsupported('loops in inc')
    R = r.reps[0]
    head = R.head.mem[x.obj]
    nm = lname(head) or ('x',)
    K = None
    outs = [(s, None) for s in R.backs] + [(s, None) for s, _ in R.exits]
    for s in R.backs:
        seg = written(s, s.mem[x.obj], nm)
        if len(seg) != 1 or not s.facts.ent_eq(seg[0][1][0] - 1):
            g.check(pids, False, 'inc: one trit per step', repr(seg), r.b.where())
            return
        K = loops.position(R, s, seg[0][0] - x.d)
        g.check(pids, s.facts.ent_eq(seg[0][1][2] if seg[0][1][1] == 'val' else Lin(0)), 'inc: carries only over a trit that becomes 0', repr(seg), r.b.where())
        t = it.trit_at(s, it.read_region(s, head, x.d + K, Lin(1)))
        vals = sorted({k for k in range(3) for z in s.copy().assume(f_eq(t - k), True) if z.facts.consistent() and not bad_case(z)})
        g.check(pids, vals == [2], 'inc: carries exactly over a trit 2', 'carries over %r' % vals, r.b.where())
        g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), 'inc: starts at the first trit', repr(R.at_entry(K)), r.b.where())
        g.check(pids, s.facts.ent_eq(R.at_back(s, K) - K - 1), 'inc: continues with the next trit', repr(R.at_back(s, K)), r.b.where())
    if K is None:
        g.check(pids, False, 'inc: carries', '', r.b.where())
        return
    for s, v in r.outs:
        seg = written(s, s.mem[x.obj], nm)
        if s.facts.ent_eq(x.size) and not written(s, s.mem[x.obj], ('x',)) or s.facts.ent_eq(K - x.size) and not seg:
            g.check(pids, s.decide(v) is False or v is False, 'inc: reports an overflow after the last trit', repr(v), r.b.where())
            continue
        if s.decide(v) is True or v is True:
            t = it.trit_at(s, it.read_region(s, head, x.d + K, Lin(1)))
            ok = len(seg) == 1 and s.facts.ent_eq(seg[0][0] - x.d - K) and s.facts.ent_eq(seg[0][1][0] - 1) and seg[0][1][1] == 'val'
            g.check(pids, ok, 'inc: the last changed trit', repr(seg), r.b.where())
            for k in range(3) if ok else ():
                for z in s.copy().assume(f_eq(t - k), True):
                    if z.facts.consistent() and not bad_case(z):
                        g.check(pids, k < 2 and z.canon(seg[0][1][2]) == Lin(k + 1), 'inc: stops at a trit below 2, which grows by one', 'trit %d becomes %r' % (k, z.canon(seg[0][1][2])), r.b.where())
        else:
            g.check(pids, not seg and s.facts.ent_eq(K - x.size), 'inc: returns false only after the last trit', repr(seg), r.b.where())


def chars(g):
    """Characters at the current offset (the last tryte may be incomplete)."""
    pids = ('C10', 'C13')

    def get():
        r = Run(g, CS + '::get_char', lambda r: [r.slice('x').v])
        x = r.sl['x']
        judge(g, r, 'get_char', True, pids)
        g.check(pids, r.outs, 'get_char: returns', '', r.b.where())
        for s, v in r.outs:
            def exp(s):
                m = 3
                for k in range(3):
                    if s.must(f_eq(x.size - k)):
                        m = k
                        break
                t = Lin(0)
                for j in range(m):
                    t = t + C.get_value(r.it, s, 1, x.src(j, 1)) * 3 ** j
                if s.must(f_eq(t)):
                    return Lin(ord('9'))
                return t + (ord('A') + 26) if s.must(f_ge(-t - 1)) else t + (ord('A') - 1)
            for s2, e in cases(s, exp):
                if bad_case(s2):
                    continue
                g.check(pids, isinstance(v, Lin) and s2.facts.ent_eq(v - e), 'get_char: character of the next trits', 'returns %r, expected %r' % (s2.canon(v), s2.canon(e)), r.b.where())
    g.guard(get, 'get_char', pids, ())

    def put():
        for m in range(4):
            c = fresh('c', 0, 0x10ffff)

            def setup(r):
                x = r.slice('x', True)
                (r.st.facts.add_eq(x.size - m) if m < 3 else r.st.facts.add_ge(x.size - 3))
                return [x.v, c]
            r = Run(g, MS + '::put_char', setup)
            x = r.sl['x']
            lab = 'put_char, %s trits left' % (m if m < 3 else '3 or more')
            judge(g, r, lab, True, pids)
            for s, v in r.outs:
                def val(s):
                    if s.must(f_ge(c - ord('A'))) and s.must(f_ge(Lin(ord('Z')) - c)):
                        for k in range(26):
                            if s.must(f_eq(c - ord('A') - k)):
                                return Lin(k + 1 if k < 13 else k - 26)
                    return Lin(0) if s.must(f_eq(c - ord('9'))) else None
                for s2, t in cases(s, val):
                    if not s2.facts.consistent() or bad_case(s2):
                        continue
                    ok = s2.decide(v)
                    if t is None:
                        g.check(pids, ok is False, lab + ': rejects other characters', repr(v), r.b.where())
                        continue
                    h = (3 ** m - 1) // 2
                    for fits in (True, False):
                        for z in s2.copy().assume(f_and(f_ge(t + h), f_ge(Lin(h) - t)), fits):
                            if not z.facts.consistent():
                                continue
                            k = z.decide(v)
                            g.check(pids, k is fits, lab + ': accepts exactly the characters that fit', 'returns %r' % (k,), r.b.where())
                            if fits and k:
                                got = Lin(0)
                                pos = Lin(0)
                                okk = True
                                for q, pc in written(z, z.mem[x.obj], ('x',)):
                                    okk = okk and z.facts.ent_eq(q - x.d - pos) and pc[1] in ('put', 'zero', 'const') and pc[0].is_const()
                                    if not okk:
                                        break
                                    if pc[1] == 'put':
                                        got = got + pc[2][1] * 3 ** pos.c
                                    elif pc[1] == 'const':
                                        got = got + C.unbal(pc[2][pc[3].c:pc[3].c + pc[0].c]) * 3 ** pos.c
                                    pos = pos + pc[0]
                                g.check(pids, okk and pos == Lin(m) and z.facts.ent_eq(got - t), lab + ': writes the digits of the character', 'writes %r' % got, r.b.where())
    g.guard(put, 'put_char', pids, ())


def arrays(g):
    """Loops over a slice and an array or another slice: every access stays inside, every trit is visited once."""
    def walk(name, mut, elem, setup, pre, check, pids):
        def one():
            r = Run(g, (MS if mut else CS) + '::' + name, setup, loop=True)
            judge(g, r, name, pre(r), pids)
            if not r.reps:
                straight(r, name, pids)
            if len(r.reps) != 1:
                raise I.Unsupported('loops in %s' % name)
            check(r, r.reps[0], name, pids)
        g.guard(one, name, pids, ())

    def straight(r, name, pids):
        """Nothing goes round: the outcomes are exact, so trits not written in them are never written."""
        x = r.sl['x']
        for s, v in r.outs:
            if name in ('get_trits', 'get1s'):
                o, nm, lo, n = r.arr, 'arr', Lin(0), r.len
            else:
                o, nm, lo, n = x.obj, 'x', x.d, r.len if name.startswith('put') else x.size
            c = s.mem[o]
            if isinstance(c, Seq):
                done = Lin(len(c.w))
            else:
                done = Lin(0)
                for q, pc in written(s, c, (nm,)):
                    done = done + pc[0]
            more = f_ge(n - done - 1)
            if 't' in r.sl:
                more = f_and(more, f_ge(r.sl['t'].size - 1))
            z = s.copy().assume(more, True)
            bad = [y for y in z if y.facts.consistent() and not bad_case(y)]
            g.check(pids, not bad, '%s: visits every trit' % name, 'writes %r of %r trits' % (done, n), r.b.where())

    def arr(r, k, signed):
        n = fresh('len', 0, BIG)
        r.len = n
        o = ('S', ('arr',))
        r.arr = o
        if signed:
            r.st.mem[o] = Seq(n, None, ('fn', lambda it, st, i: atom('arr1', (i,), -1, 1)))
        else:
            r.st.mem[o] = Region(n, ((n, 'src', ('arr',), Lin(0)),))
        return Ptr(o, (('e', Lin(0)),), n)

    def counter(r, R, lab, pids, pos_of, total):
        K = None
        for s in R.backs:
            K = pos_of(s)
            if K is None:
                g.check(pids, False, '%s: one trit per step' % lab, '', r.b.where())
                return None
            K = loops.position(R, s, K)
            g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts at the first trit' % lab, repr(R.at_entry(K)), r.b.where())
            g.check(pids, s.facts.ent_eq(R.at_back(s, K) - K - 1), '%s: continues with the next trit' % lab, repr(R.at_back(s, K)), r.b.where())
        if K is None:
            raise I.Unsupported('%s: no iteration' % lab)
        for s, _ in R.exits:
            g.check(pids, s.facts.ent_eq(K - total), '%s: visits every trit' % lab, repr(s.canon(K)), r.b.where())
        return K

    def put_check(signed):
        def f(r, R, lab, pids):
            x = r.sl['x']
            nm = lname(R.head.mem[x.obj]) or ('x',)

            def pos(s):
                seg = written(s, s.mem[x.obj], nm)
                if len(seg) != 1 or not s.facts.ent_eq(seg[0][1][0] - 1):
                    return None
                k = seg[0][0] - x.d
                e = r.it.trit_at(s, ((Lin(1), 'src', ('arr',), k),)) if not signed else atom('arr1', (s.canon(k),), -1, 1)
                got = r.it.trit_at(s, (seg[0][1],)) if not signed else (seg[0][1][2][1] if seg[0][1][1] == 'put' else None)
                g.check(pids, got is not None and s.same(got, e), '%s: writes the element of the same position' % lab, repr(seg), r.b.where())
                return k
            counter(r, R, lab, pids, pos, r.len)
        return f
    pw = ('C13', 'C12', 'C10')
    walk('put_trits', True, 1, lambda r: [r.slice('x', True).v, arr(r, 'a', False)], lambda r: f_ge(r.sl['x'].size - r.len), put_check(False), pw)
    walk('put1s', True, 1, lambda r: [r.slice('x', True).v, arr(r, 'a', True)], lambda r: f_ge(r.sl['x'].size - r.len), put_check(True), pw)

    def set_check(r, R, lab, pids):
        x = r.sl['x']
        nm = lname(R.head.mem[x.obj]) or ('x',)

        def pos(s):
            seg = written(s, s.mem[x.obj], nm)
            if len(seg) != 1 or not s.facts.ent_eq(seg[0][1][0] - 1):
                return None
            g.check(pids, s.same(r.it.trit_at(s, (seg[0][1],)), r.args[1]), '%s: writes the given trit' % lab, repr(seg), r.b.where())
            return seg[0][0] - x.d
        counter(r, R, lab, pids, pos, x.size)
    walk('set_trit', True, 1, lambda r: [r.slice('x', True).v, fresh('t', 0, 2)], lambda r: True, set_check, pw)

    def get_check(signed):
        def f(r, R, lab, pids):
            x = r.sl['x']
            for s in R.backs:
                untouched(g, r, s, x, lab, pids)

            def pos(s):
                v = s.mem[r.arr]
                if signed:
                    w = v.w[-1:] if isinstance(v, Seq) else ()
                    if not w:
                        return None
                    k = w[0][0]
                    g.check(pids, s.same(w[0][1], C.get_value(r.it, s, 1, x.src(k, 1))), '%s: element of the same position' % lab, repr(w), r.b.where())
                    return k
                nm = lname(R.head.mem[r.arr]) or ('arr',)
                seg = written(s, v, nm)
                if len(seg) != 1 or not s.facts.ent_eq(seg[0][1][0] - 1):
                    return None
                k = seg[0][0]
                g.check(pids, s.same(r.it.trit_at(s, (seg[0][1],)), r.it.trit_at(s, x.src(k, 1))), '%s: element of the same position' % lab, repr(seg), r.b.where())
                return k
            counter(r, R, lab, pids, pos, r.len)
        return f
    walk('get_trits', False, 1, lambda r: [r.slice('x').v, arr(r, 'a', False)], lambda r: f_ge(r.sl['x'].size - r.len), get_check(False), ('C13', 'C10'))
    walk('get1s', False, 1, lambda r: [r.slice('x').v, arr(r, 'a', True)], lambda r: f_ge(r.sl['x'].size - r.len), get_check(True), ('C13', 'C10'))

    def cyc(r, R, lab, pids):
        x, t = r.sl['x'], r.sl['t']
        nm = lname(R.head.mem[x.obj]) or ('x',)
        for s in R.backs:
            seg = written(s, s.mem[x.obj], nm)
            K = loops.position(R, s, seg[0][0] - x.d) if seg else None
            ok = len(seg) == 1 and s.facts.ent_eq(R.at_back(s, K) - K - seg[0][1][0]) and seg[0][1][1] == 'src' and seg[0][1][2] == ('t',) and s.facts.ent_eq(seg[0][1][3] - t.d)
            g.check(pids, ok, '%s: copies the pattern from its start to the next position' % lab, repr(seg), r.b.where())
            if ok:
                g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts at the first trit' % lab, '', r.b.where())
                rest = x.size - K
                n = seg[0][1][0]
                g.check(pids, s.facts.ent_eq(n - t.size) or s.facts.ent_eq(n - rest), '%s: copies a whole pattern, or up to the end' % lab, repr(n), r.b.where())
                for e, _ in R.exits:
                    g.check(pids, e.facts.ent_eq(K - x.size), '%s: fills the whole slice' % lab, '', r.b.where())
    walk('cycle', True, 1, lambda r: [r.slice('x', True).v, r.slice('t').v], lambda r: True, cyc, ('C13', 'C12'))

    def containers():
        pids = ('C13', 'C12')
        r = Run(g, TT + '::zero', lambda r: [fresh('n', 0, BIG)])
        judge(g, r, 'Trits::zero', True, pids)
        for s, v in r.outs:
            b = r.it.load_obj(s, v.f[1].obj)
            g.check(pids, s.same(v.f[0], r.args[0]) and s.facts.ent_eq(b.n - r.args[0]) and s.same_content(b.c, zero(b.n)), 'Trits::zero: n zero trits', repr(b), r.b.where())
        for nm in (CS + '::clone_trits', TT + '::from_slice'):
            r = Run(g, nm, lambda r: [r.slice('x').v])
            x = r.sl['x']
            judge(g, r, nm, True, pids)
            for s, v in r.outs:
                b = r.it.load_obj(s, v.f[1].obj)
                g.check(pids, s.facts.ent_eq(v.f[0] - x.size) and s.facts.ent_eq(b.n - x.size) and s.same_content(b.c, x.src(0, x.size)), '%s: a copy of the trits' % nm, repr(b), r.b.where())
    g.guard(containers, 'containers', ('C13', 'C12'), ())


def strings(g):
    """Strings of trytes: one character per three trits (the last tryte may be incomplete), in order."""
    def ev(log):
        def h(it, st, args, callee, dt):
            return log(it, st, args)
        return h

    def log_char(it, st, args):
        st.event('get', args[0])
        return atom('getc', (len(st.events()),), 0, 0x10ffff)

    def log_push(it, st, args):
        st.event('push', args[1])
        return UNIT

    def log_write(it, st, args):
        ok = st.must(('op', ('wr', len(st.events()))))
        st.event('push', args[1])
        return Agg('std::result::Result', 0, [UNIT]) if ok else Agg('std::result::Result', 1, [Agg('std::fmt::Error', None, [])])

    def log_put(it, st, args):
        st.event('put', args[0], args[1])
        return ('op', ('putc', len(st.events())))

    def pos(s, v, x):
        """Start of slice value v relative to x, when it is what remains of x."""
        if not isinstance(v, Agg) or not isinstance(v.f[0], Agg):
            return None
        n, d = v.f[0].f[:2]
        return d - x.d if s.facts.ent_eq(n - x.n) and isinstance(v.f[1], Ptr) and v.f[1].base() == x.ptr.base() and s.facts.ent_eq(v.f[1].off()) else None

    def step3(s, R, K, x, lab, pids, r):
        """The position moves over three trits, or over what remains."""
        K2 = R.at_back(s, K)
        ok = s.facts.ent_eq(K2 - K - 3) or s.facts.ent_ge(K2 - x.size) and s.facts.ent_ge(K + 3 - x.size)
        g.check(pids, ok, lab + ': continues three trits further', 'position %r after %r' % (s.canon(K2), s.canon(K)), r.b.where())

    def out(name, hooks, setup, pids):
        def one():
            H = {CS + '::get_char': ev(log_char)}
            H.update(hooks)
            r = Run(g, name, setup, loop=True, hooks=H)
            x = r.sl['x']
            lab = name.replace('trits::slice::', '')
            judge(g, r, lab, True, pids)
            if len(r.reps) != 1:
                raise I.Unsupported('loops in %s' % name)
            R = r.reps[0]
            K = None
            for s in R.backs:
                e = s.events()[len(R.head.events()):]
                k = pos(s, e[0][1], x) if [q[0] for q in e] == ['get', 'push'] else None
                g.check(pids, k is not None and s.same(e[1][1], atom('getc', (len(R.head.events()) + 1,), 0, 0x10ffff)), lab + ': one character per step, of the trits at the current position', repr(e)[:300], r.b.where())
                if k is not None:
                    K = k = loops.position(R, s, k)
                    g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), lab + ': starts at the first trit', repr(R.at_entry(K)), r.b.where())
                    step3(s, R, K, x, lab, pids, r)
            if K is None:
                raise I.Unsupported('%s: no iteration' % lab)
            for s, _ in R.exits:
                e = s.events()[len(R.head.events()):]
                failed = any(q[0] == 'push' for q in e) and any(not k for f, k in asked(s, 'wr'))
                g.check(pids, failed or not e and s.facts.ent_ge(K - x.size), lab + ': covers every trit', repr(s.canon(K)), r.b.where())
            for s, v in r.outs:
                if isinstance(v, Agg) and v.tag == 'std::result::Result' and v.var == 1:
                    g.check(pids, any(not k for f, k in asked(s, 'wr')), lab + ': fails only when writing failed', repr(v), r.b.where())
        g.guard(one, name, pids, ())

    def asked(s, kind):
        return [(f, k) for f, k in s.dec.items() if isinstance(f, tuple) and f[0] == kind]
    out(CS + '::to_str', {'std::string::String::push': ev(log_push)}, lambda r: [r.slice('x').v], ('C10',))
    out('<%s as std::fmt::Display>::fmt' % CS, {'<std::fmt::Formatter as std::fmt::Write>::write_char': ev(log_write)},
        lambda r: [r.ref(r.slice('x').v), r.ref(Opq(('fmt',)))], ('C10',))

    def parse():
        pids = ('C10', 'C13')
        n = fresh('nchars', 0, BIG)
        H = {MS + '::put_char': ev(log_put), 'core::str::<impl str>::chars': lambda it, st, args, callee, dt: Agg('chars', None, ('s', Lin(0), n))}
        r = Run(g, MS + '::from_str', lambda r: [r.slice('x', True).v, r.ref(StrV(None))], loop=True, hooks=H)
        x = r.sl['x']
        lab = 'TritSliceMutT::from_str'
        judge(g, r, lab, True, pids)
        if len(r.reps) != 1:
            raise I.Unsupported('loops in from_str')
        R = r.reps[0]
        K = J = None
        for s in R.backs:
            e = s.events()[len(R.head.events()):]
            k = pos(s, e[0][1], x) if [q[0] for q in e] == ['put'] else None
            c = s.canon(e[0][2]) if k is not None and isinstance(e[0][2], Lin) else None
            j = ATOMS[c.t[0][0]].args[1] if c is not None and len(c.t) == 1 and ATOMS[c.t[0][0]].kind == 'chr' else None
            g.check(pids, j is not None, lab + ': puts one character of the string per step, at the current position', repr(e)[:300], r.b.where())
            if j is None:
                continue
            K, J = loops.position(R, s, k), loops.position(R, s, j)
            g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)) and R.entry.facts.ent_eq(R.at_entry(J)), lab + ': starts at the first trit and character', '', r.b.where())
            step3(s, R, K, x, lab, pids, r)
            g.check(pids, s.facts.ent_eq(R.at_back(s, J) - J - 1), lab + ': continues with the next character', repr(R.at_back(s, J)), r.b.where())
            g.check(pids, s.decide(('op', ('putc', len(R.head.events()) + 1))) is True, lab + ': continues only after the character was accepted', '', r.b.where())
        if K is None:
            raise I.Unsupported('from_str: no iteration')
        for s, v in r.outs:
            e = [q for q in s.events() if q[0] == 'put']
            for k in (True, False):
                for z in s.copy().assume(v, k):
                    if not z.facts.consistent():
                        continue
                    if k:
                        g.check(pids, not e and z.facts.ent_eq(J - n), lab + ': succeeds only after the last character', repr(e)[:200], r.b.where())
                    else:
                        g.check(pids, e and z.decide(('op', ('putc', len(z.events())))) is False, lab + ': fails only for a rejected character', repr(e)[:200], r.b.where())
    g.guard(parse, 'from_str', ('C10', 'C13'), ())

    def container():
        pids = ('C10', 'C13')
        n = fresh('nbytes', 0, BIG)

        def fs(it, st, args, callee, dt):
            st.event('from_str', args[0], args[1])
            return ('op', ('fs', 0))
        r = Run(g, TT + '::from_str', lambda r: [r.ref(StrV(None))], hooks={MS + '::from_str': fs, 'core::str::<impl str>::len': lambda it, st, args, callee, dt: n})
        judge(g, r, 'Trits::from_str', True, pids)
        for s, v in r.outs:
            e = [q for q in s.events() if q[0] == 'from_str']
            okk = s.decide(('op', ('fs', 0)))
            g.check(pids, len(e) == 1 and s.same(e[0][2], r.args[0]) and okk is (v.var == 1), 'Trits::from_str: Some exactly when the string was accepted', repr(e)[:200], r.b.where())
            if v.var == 1 and len(e) == 1:
                t = v.f[0]
                a = e[0][1]
                buf = r.it.load_obj(s, t.f[1].obj)
                g.check(pids, s.facts.ent_eq(t.f[0] - n * 3) and s.facts.ent_eq(buf.n - n * 3), 'Trits::from_str: three trits per character', repr(t.f[0]), r.b.where())
                g.check(pids, a.f[1].obj == t.f[1].obj and s.facts.ent_eq(a.f[0].f[0] - n * 3) and s.facts.ent_eq(a.f[0].f[1]), 'Trits::from_str: parses into the whole result', repr(a), r.b.where())
    g.guard(container, 'Trits::from_str', ('C10', 'C13'), ())

    def chunks():
        pids = ('C13',)
        w = fresh('w', 0, BIG)

        def clone(it, st, args, callee, dt):
            st.event('clone', args[0])
            return Opq(('clone', len(st.events())))
        H = {CS + '::clone_trits': clone, 'std::vec::Vec::push': lambda it, st, args, callee, dt: (st.event('push', args[1]), m_push(it, st, args, callee, dt))[1]}
        r = Run(g, CS + '::chunks', lambda r: [r.slice('x').v, w], loop=True, hooks=H)
        x = r.sl['x']
        lab = 'chunks'
        judge(g, r, lab, f_ge(w - 1), pids)
        if not r.reps:
            for s, v in r.outs:
                k = len([1 for e in s.events() if e[0] == 'push'])
                bad = [y for y in s.copy().assume(f_ge(x.size - w * k - 1), True) if y.facts.consistent() and not bad_case(y)]
                g.check(pids, not bad, lab + ': cover the whole slice', '%d pieces' % k, r.b.where())
        if len(r.reps) != 1:
            raise I.Unsupported('loops in chunks')
        R = r.reps[0]
        K = None
        for s in R.backs:
            e = s.events()[len(R.head.events()):]
            ok = [q[0] for q in e] == ['clone', 'push'] and e[1][1] == Opq(('clone', len(R.head.events()) + 1))
            if ok:
                rg = e[0][1].f[0]
                k = loops.position(R, s, rg.f[1] - x.d)
                m = rg.f[0] - rg.f[1]
                K2 = R.at_back(s, k)
                K = k
                ok = s.facts.ent_eq(K2 - k - m) and (s.facts.ent_eq(m - w) or s.facts.ent_eq(k + m - x.size) and s.facts.ent_ge(w - m))
                g.check(pids, R.entry.facts.ent_eq(R.at_entry(k)), lab + ': starts at the first trit', '', r.b.where())
            g.check(pids, ok, lab + ': consecutive pieces of the given size (the last may be shorter)', repr(e)[:300], r.b.where())
        for s, _ in R.exits:
            if K is not None:
                g.check(pids, s.facts.ent_eq(K - x.size), lab + ': cover the whole slice', repr(s.canon(K)), r.b.where())
    g.guard(chunks, 'chunks', ('C13',), ())

    def cyclers():
        pids = ('C13', 'C12')

        def cyc(it, st, args, callee, dt):
            st.event('cycle', args[0], args[1])
            return UNIT
        n = fresh('n', 0, BIG)

        r = Run(g, TT + '::cycle_trits', lambda r: [n, r.trits('t')], hooks={MS + '::cycle': cyc})
        judge(g, r, 'Trits::cycle_trits', True, pids)
        for s, v in r.outs:
            e = [q for q in s.events() if q[0] == 'cycle']
            ok = len(e) == 1
            if ok:
                a, t = e[0][1], e[0][2]
                ok = s.facts.ent_eq(v.f[0] - n) and a.f[1].obj == v.f[1].obj and s.facts.ent_eq(a.f[0].f[0] - n) and s.facts.ent_eq(a.f[0].f[1])
                ok = ok and t.f[1].obj == r.tobj and s.facts.ent_eq(t.f[0].f[0] - r.tn) and s.facts.ent_eq(t.f[0].f[1])
            g.check(pids, ok, 'Trits::cycle_trits: the whole result is filled with the whole pattern', repr(e)[:300], r.b.where())
    g.guard(cyclers, 'cycle_trits', ('C13', 'C12'), ())

    def meta():
        for nm, exp in (('size', lambda r: r.tn), ('is_empty', lambda r: f_eq(r.tn))):
            r = Run(g, TT + '::' + nm, lambda r: [r.trits('t')])
            lab = 'Trits::' + nm
            judge(g, r, lab, True, ('C13', 'C25'))
            g.check(('C13', 'C25'), r.outs, lab + ': returns', '', r.b.where())
            for s, v in r.outs:
                e = exp(r)
                if nm == 'size':
                    g.check(('C13', 'C25'), s.same(v, e), lab + ': the number of trits', repr(v), r.b.where())
                    continue
                for want in (True, False):
                    for z in s.copy().assume(v, want):
                        if z.facts.consistent():
                            g.check(('C13', 'C25'), not [q for q in z.assume(e, not want) if q.facts.consistent()], lab + ': exactly when there are no trits', repr(v), r.b.where())
    def cstr():
        pids = ('C13', 'C10')
        n = fresh('n', 0, BIG)
        F = ('op', ('parsed',))
        t0 = []

        def parse(it, st, args, callee, dt):
            ok = st.must(F)
            st.event('parse')
            if ok:
                return some(t0[0])
            return NONE

        def cyc(it, st, args, callee, dt):
            v = deref(it, st, args[1])
            st.event('cyc', args[0], v)
            return Agg(TT, None, [args[0], VecV(('H', ('cycled',)))])

        def setup(r):
            p = r.trits('t')
            t0.append(r.st.mem[p.obj])
            return [n, r.ref(StrV(None))]
        r = Run(g, TT + '::cycle_str', setup, hooks={TT + '::from_str': parse, TT + '::cycle_trits': cyc})
        lab = 'Trits::cycle_str'
        judge(g, r, lab, True, pids)
        g.check(pids, r.outs, lab + ': returns', '', r.b.where())
        for s, v in r.outs:
            e = [q for q in s.events() if q[0] == 'cyc']
            ok = len(e) == 1 and s.same(e[0][1], n) and isinstance(v, Agg) and v.f[1] == VecV(('H', ('cycled',)))
            if ok and s.decide(F) is True:
                ok = e[0][2].f[1] == t0[0].f[1]
            elif ok:
                ok = s.facts.ent_eq(e[0][2].f[0])
            g.check(pids, ok, lab + ': cycles the parsed string, or nothing', repr(e)[:200], r.b.where())
    g.guard(cstr, 'cycle_str', ('C13', 'C10'), ())
    g.guard(meta, 'size and is_empty', ('C13', 'C25'), ())


def run(g):
    if g.wants('C10', 'C13'):
        strings(g)
    if g.wants('C10', 'C13', 'C12'):
        arrays(g)
    if g.wants('C10', 'C13'):
        chars(g)
    if g.wants('C13'):
        ranges(g)
        from_ptr(g)
    if g.wants('C13', 'C10', 'C12'):
        accessors(g)
    if g.wants('C13', 'C12', 'C07', 'C08'):
        bulk(g)
    if g.wants('C25', 'C13', 'C04', 'C23'):
        equality(g)
    if g.wants('C08'):
        overlap(g)
    if g.wants('C10', 'C12', 'C13'):
        g.guard(inc, 'inc', ('C10', 'C12', 'C13'), (g,))
