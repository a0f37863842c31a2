"""TroikaSponge: the stand-alone Troika hash. The permutation is an uninterpreted step over 729 trits; the bodies of
absorb, finalize, squeeze and reset are walked for every length, position and state."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import loops, shape
from .group import Missing, panic_sites
from .word import body, written, start, lname
from .slices import BIG

TR = 'troika::Troika'
TS = 'troika::TroikaSponge'
P27 = ('C27',)
RATE = 243
WIDTH = 729


def ghost(it, st, p):
    v = it.read_path(st, p)
    if not (isinstance(v, Agg) and v.tag == 'ghost'):
        raise I.Unsupported('permutation state %r' % (v,))
    return v.f[0].obj


def hooks(full):
    H = {}

    def set1(it, st, a, c, t):
        o = ghost(it, st, a[0])
        it.put_content(st, (o, ()), L(a[1]), (I._trit_piece(a[2]) or (Lin(1), 'val', a[2], Lin(0)),))
        return UNIT

    def get1(it, st, a, c, t):
        o = ghost(it, st, a[0])
        return it.trit_at(st, it.get_content(st, (o, ()), L(a[1]), Lin(1)))

    def permutation(it, st, a, c, t):
        o = ghost(it, st, a[0])
        st.mem[o] = Region(Lin(WIDTH), ((Lin(WIDTH), 'prp', (st.norm_content(st.mem[o].c),), Lin(0)),))
        return UNIT

    def zeroize(it, st, a, c, t):
        o = ghost(it, st, a[0])
        it.put_content(st, (o, ()), Lin(0), zero(RATE))
        return UNIT

    def put(it, st, a, c, t):
        o = ghost(it, st, a[0])
        k, p = L(a[1]), a[2]
        it.put_content(st, (o, ()), k, it.get_content(st, p.base(), p.off(), L(p.meta)))
        return UNIT

    def get(it, st, a, c, t):
        o = ghost(it, st, a[0])
        k, p = L(a[1]), a[2]
        it.put_content(st, p.base(), p.off(), it.get_content(st, (o, ()), k, L(p.meta)))
        return UNIT
    H[TR + '::set1'] = set1
    H[TR + '::get1'] = get1
    H[TR + '::permutation'] = permutation
    H[TR + '::zeroize'] = zeroize
    if full:
        H[TR + '::set'] = put
        H[TR + '::get'] = get
    return H


class World:
    """A TroikaSponge over an uninterpreted state and a slice of trits, for one analysed call."""

    def __init__(self, g, full=True, loop=True):
        self.g = g
        self.it, self.st = start(g, hooks(full))
        it, st = self.it, self.st
        it.no_merge = True
        self.reps = []
        if loop:
            it.loop_hook = loops.summarise
            it.summ_rkind = 'src'
            it.summ_report = self.reps.append
        self.T = ('H', ('T',))
        st.mem[self.T] = Region(Lin(WIDTH), ((Lin(WIDTH), 'src', ('T',), Lin(0)),))
        self.troika = Agg('ghost', None, [VecV(self.T)])

    def sponge(self):
        self.p = fresh('index', 0, RATE - 1)
        self.o = ('S', ('sponge',))
        self.st.mem[self.o] = shape.make(self.g.P, TS, transform=self.troika, rate=Lin(RATE), index=self.p)
        return Ptr(self.o)

    def arr(self):
        self.n = fresh('len', 0, BIG)
        self.a = ('S', ('arr',))
        self.st.mem[self.a] = Region(self.n, ((self.n, 'src', ('x',), Lin(0)),))
        return Ptr(self.a, (('e', Lin(0)),), self.n)

    def call(self, path, args):
        self.b = body(self.g, path)
        self.g.fn(self.b)
        self.outs = self.it.exec_body(self.st, self.b, args)
        self.g.use(self.it)
        return self.outs

    def loop(self, lab):
        if len(self.reps) != 1:
            raise I.Unsupported('%d loops in %s' % (len(self.reps), lab))
        return self.reps[0]

    def view(self, s):
        v = s.mem[self.o]
        t = shape.get(self.g.P, v, TS, 'transform')
        if not (isinstance(t, Agg) and t.tag == 'ghost'):
            raise I.Unsupported('permutation state %r' % (t,))
        return s.mem[t.f[0].obj], s.canon(shape.get(self.g.P, v, TS, 'index')), shape.get(self.g.P, v, TS, 'rate')


def cells(g):
    """Troika::set and get: consecutive positions, one trit each."""
    def one(path, store):
        w = World(g, full=False)
        it, st = w.it, w.st
        o = ('S', ('tr',))
        st.mem[o] = w.troika
        k = fresh('idx', 0, RATE)
        a = w.arr()
        st.facts.add_ge(Lin(RATE) - k - w.n)
        w.call(path, [Ptr(o), k, a])
        lab = path.split('::', 1)[1]
        where = w.b.where()
        panic_sites(g, P27, it, lab)
        R = w.loop(lab)
        K = None
        dst, src = (w.T, w.a) if store else (w.a, w.T)
        nm = lname(R.head.mem[dst]) or (('T',) if store else ('x',))
        for s in R.backs:
            seg = written(s, s.mem[dst], nm)
            if len(seg) != 1 or not s.facts.ent_eq(seg[0][1][0] - 1):
                g.check(P27, False, '%s: one trit per step' % lab, repr(seg)[:300], where)
                return
            K = loops.position(R, s, s.canon(seg[0][0] - (k if store else 0)))
            e = it.trit_at(s, ((Lin(1), 'src', ('x',), K),) if store else ((Lin(1), 'src', ('T',), k + K),))
            g.check(P27, s.same(it.trit_at(s, (seg[0][1],)), e), '%s: position idx + k corresponds to trit k' % lab, repr(seg)[:300], where)
            g.check(P27, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts with the first trit' % lab, repr(R.at_entry(K)), where)
            g.check(P27, s.facts.ent_eq(R.at_back(s, K) - K - 1), '%s: continues with the next trit' % lab, '', where)
            g.check(P27, not written(s, s.mem[src], ('x',) if store else ('T',)), '%s: only reads its source' % lab, '', where)
        if K is None:
            raise I.Unsupported('no iteration in %s' % lab)
        for s, _ in R.exits:
            g.check(P27, s.facts.ent_eq(K - w.n), '%s: handles every trit' % lab, repr(s.canon(K)), where)
            g.check(P27, not written(s, s.mem[dst], nm), '%s: nothing else is written' % lab, '', where)
    g.guard(lambda: one(TR + '::set', True), 'Troika::set', P27, ())
    g.guard(lambda: one(TR + '::get', False), 'Troika::get', P27, ())


def block(s, reg):
    """(contents before a permutation, permuted?) of a state."""
    c = s.norm_content(reg.c)
    if len(c) == 1 and c[0][1] == 'prp' and s.facts.ent_eq(c[0][3]) and s.facts.ent_eq(c[0][0] - WIDTH):
        return Region(Lin(WIDTH), c[0][2][0]), True
    return Region(Lin(WIDTH), c), False


def stream(g, op):
    """absorb and squeeze: every piece is one canonical step of the sponge."""
    w = World(g)
    it, st = w.it, w.st
    sp = w.sponge()
    a = w.arr()
    w.call(TS + '::' + op, [sp, a])
    lab = 'TroikaSponge::' + op
    where = w.b.where()
    panic_sites(g, P27, it, lab)
    if not w.reps or len({(R.b.key, R.bb) for R in w.reps}) != 1:
        raise I.Unsupported('%d loops in %s' % (len(w.reps), lab))
    ends = [z for R in w.reps for z in steps(g, w, R, op, lab, where)]
    if not ends:
        raise I.Unsupported('no iteration in %s' % lab)
    for s, _ in w.outs:
        T2, p2, r2 = w.view(s)
        ok = False
        if s.decide(f_eq(w.n)) is True:
            ok = s.same_content(T2.c, st.mem[w.T].c) and s.facts.ent_eq(p2 - w.p)
        for K, Th, p in ends:
            ok = ok or (s.facts.ent_eq(K - w.n) and s.same_content(T2.c, Th.c) and s.facts.ent_eq(p2 - p))
        g.check(P27, ok and s.same(r2, Lin(RATE)), '%s: stops exactly when every trit is processed, and nothing happens after the last one' % lab, repr((T2, p2))[:300], where)


def steps(g, w, R, op, lab, where):
    """Every path of the loop body is one step; [(trits processed, state, position)] as functions of the loop variables."""
    it, st = w.it, w.st
    Th, p, _ = w.view(R.head)
    an = lname(R.head.mem[w.a]) or ('x',)
    K = None
    for s0 in R.backs:
        for s in [z for f in (True, False) for z in s0.copy().assume(f_eq(p), f) if z.facts.consistent()]:
            T2, p2, r2 = w.view(s)
            g.check(P27, s.same(r2, Lin(RATE)), '%s: the rate never changes' % lab, repr(r2), where)
            pre, done = block(s, T2)
            n = s.canon((Lin(RATE) if done else p2) - p)
            if not (s.facts.ent_ge(n - 1) and s.facts.ent_ge(Lin(RATE) - p - n)):
                g.check(P27, False, '%s: every step advances within the rate' % lab, 'from %r by %r%s' % (p, n, ', permuted' if done else ''), where)
                return []
            if done:
                g.check(P27, s.facts.ent_eq(p2), '%s: the position restarts at 0 after a permutation' % lab, repr(p2), where)
            else:
                g.check(P27, s.facts.ent_ge(Lin(RATE - 1) - p2), '%s: a full block is permuted' % lab, 'position may be %r' % p2, where)
            old = lambda q, m: it.read_region(s, Region(Lin(WIDTH), Th.c), q, m)
            got = s.norm_content(it.read_region(s, pre, p, n))
            if op == 'absorb':
                if len(got) != 1 or got[0][1] != 'src' or got[0][2] != ('x',):
                    g.check(P27, False, '%s: the trits of the block are the input' % lab, repr(got)[:300], where)
                    return []
                k = s.canon(got[0][3])
                z = s.decide(f_eq(p)) is True
                lo = s.same_content(it.read_region(s, pre, Lin(0), p), old(Lin(0), p))
                mid = s.same_content(it.read_region(s, pre, p + n, Lin(RATE) - p - n), zero(Lin(RATE) - n) if z else old(p + n, Lin(RATE) - p - n))
                hi = s.same_content(it.read_region(s, pre, Lin(RATE), Lin(WIDTH - RATE)), old(Lin(RATE), Lin(WIDTH - RATE)))
                g.check(P27, lo, '%s: earlier trits of the block are kept' % lab, '', where)
                g.check(P27, mid, '%s: %s' % (lab, 'a new block starts from zero trits' if z else 'later trits of the block are kept'), repr(pre)[:300], where)
                g.check(P27, hi, '%s: the capacity part is kept' % lab, repr(pre)[:300], where)
                g.check(P27, not written(s, s.mem[w.a], ('x',)), '%s: the input is only read' % lab, '', where)
            else:
                seg = written(s, s.mem[w.a], an)
                if not seg:
                    g.check(P27, False, '%s: produces output in every step' % lab, '', where)
                    return []
                k = s.canon(seg[0][0])
                out = it.read_region(s, s.mem[w.a], k, n)
                q = k
                ok = True
                for b, pc in seg:
                    ok = ok and s.facts.ent_eq(b - q)
                    q = q + pc[0]
                g.check(P27, ok and s.facts.ent_eq(q - k - n), '%s: one output trit per state trit' % lab, repr(seg)[:300], where)
                g.check(P27, s.same_content(out, old(p, n)), '%s: the output is the outer part from the position' % lab, repr(out)[:300], where)
                g.check(P27, s.same_content(pre.c, Th.c), '%s: squeezing does not change the state' % lab, repr(pre)[:300], where)
            if K is None:
                K = k = loops.position(R, s, k)
            g.check(P27, s.facts.ent_eq(k - K), '%s: state and argument correspond' % lab, '%r against %r' % (k, K), where)
            g.check(P27, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts with the first trit' % lab, repr(R.at_entry(K)), where)
            g.check(P27, s.facts.ent_eq(R.at_back(s, K) - K - n), '%s: the next piece starts where this one ended' % lab, '', where)
            g.check(P27, s.facts.ent_ge(w.n - K - n), '%s: pieces are inside the argument' % lab, '', where)
    return [(K, Th, p)] if K is not None else []


def finalize(g):
    w = World(g, loop=False)
    st = w.st
    sp = w.sponge()
    w.call(TS + '::finalize', [sp])
    lab = 'TroikaSponge::finalize'
    where = w.b.where()
    panic_sites(g, P27, w.it, lab)
    g.check(P27, w.outs, '%s: returns' % lab, '', where)
    p = w.p
    x = ((Lin(WIDTH), 'src', ('T',), Lin(0)),)
    for s0, _ in w.outs:
        for z in (True, False):
            for s in s0.copy().assume(f_eq(p), z):
                if not s.facts.consistent():
                    continue
                T2, p2, r2 = w.view(s)
                pre, done = block(s, T2)
                g.check(P27, done, '%s: ends with a permutation' % lab, repr(T2)[:300], where)
                one = w.it.trit_at(s, w.it.read_region(s, pre, p, Lin(1)))
                lo = w.it.read_region(s, pre, Lin(0), p)
                hi = w.it.read_region(s, pre, p + 1, Lin(WIDTH - 1) - p)
                ehi = norm(zero(RATE - 1) + ((Lin(WIDTH - RATE), 'src', ('T',), Lin(RATE)),)) if z else ((Lin(WIDTH - 1) - p, 'src', ('T',), p + 1),)
                g.check(P27, s.same(one, Lin(1)), '%s: the padding is a 1 after the message' % lab, repr(one), where)
                g.check(P27, (z or s.same_content(lo, ((p, 'src', ('T',), Lin(0)),))) and s.same_content(hi, ehi), '%s: the padding changes nothing else of the block' % lab, repr(pre)[:400], where)
                g.check(P27, s.facts.ent_eq(p2) and s.same(r2, Lin(RATE)), '%s: output starts at position 0' % lab, repr(p2), where)


def initial(g):
    from .sponge import nonzero

    def default():
        w = World(g, loop=False)
        w.it.hooks = {}
        for s, v in w.call('<%s as std::default::Default>::default' % TS, []):
            where = w.b.where()
            bad = nonzero(shape.get(g.P, v, TS, 'transform'))
            g.check(P27, not bad, 'TroikaSponge::default: the state is zero', repr(bad)[:200], where)
            g.check(P27, s.same(shape.get(g.P, v, TS, 'rate'), Lin(RATE)) and s.same(shape.get(g.P, v, TS, 'index'), Lin(0)), 'TroikaSponge::default: rate 243, position 0', repr(v)[-200:], where)
        g.check(P27, w.outs, 'TroikaSponge::default: returns', '')

    def reset():
        w = World(g, loop=False)
        w.it.hooks = {}
        st = w.st
        cells = []
        for i in range(27):
            cells.append(Agg('troika::T27', None, [fresh('a', 0, (1 << 27) - 1), fresh('b', 0, (1 << 27) - 1)]))
        o = ('S', ('sponge',))
        st.mem[o] = shape.make(g.P, TS, transform=shape.make(g.P, TR, state=Seq(Lin(27), tuple(cells))), rate=Lin(RATE), index=fresh('index', 0, RATE - 1))
        w.call(TS + '::reset', [Ptr(o)])
        where = w.b.where()
        panic_sites(g, P27, w.it, 'TroikaSponge::reset')
        g.check(P27, w.outs, 'TroikaSponge::reset: returns', '', where)
        for s, _ in w.outs:
            v = s.mem[o]
            bad = nonzero(shape.get(g.P, v, TS, 'transform'))
            g.check(P27, not bad, 'TroikaSponge::reset: the state is zero', repr(bad)[:200], where)
            g.check(P27, s.same(shape.get(g.P, v, TS, 'rate'), Lin(RATE)) and s.same(shape.get(g.P, v, TS, 'index'), Lin(0)), 'TroikaSponge::reset: rate 243, position 0', repr(v)[-200:], where)
    g.guard(default, 'TroikaSponge::default', P27, ())
    g.guard(reset, 'TroikaSponge::reset', P27, ())


def run(g):
    cells(g)
    for op in ('absorb', 'squeeze'):
        g.guard(lambda op=op: stream(g, op), 'TroikaSponge::' + op, P27, ())
    g.guard(finalize, 'TroikaSponge::finalize', P27)
    initial(g)
