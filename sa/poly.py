"""Polynomial arithmetic over Z_Q: reduced coefficients, the meaning of every operation, the transforms (C18, C32)."""
from .lin import Lin, L, fresh, ATOMS
from .vals import *
from . import interp as I
from . import flat
from .flat import A, R, Flat, Cond, Dom, Panic
from .group import Missing
from .interp import Unsupported
from .sponge import opaque

PO = 'poly::'
PL = 'poly::Poly::'
Q = 12289
N = 1024
RR = (1 << 16) % Q          # Montgomery radix modulo Q; also the representation of 1
RI = pow(RR, Q - 2, Q)
GAMMA = 7                   # a primitive 2N-th root of unity modulo Q
HALF = (Q - 1) // 2
P18 = ('C18',)
P32 = ('C32', 'C18')


# ------------------------------------------------------------------ coefficient functions (affine domain)
def leaf(g, name, args, facts=()):
    w = opaque(g)
    w.it.loop_hook = None
    w.it.unroll = 64
    for f in facts:
        w.st.facts.add_ge(f)
    outs = w.call(PO + name, args)
    W = w.b.where()
    for p in w.it.panics:
        g.check(P32, False, '%s: %s: %s cannot happen on reduced arguments' % (name, p.kind, p.what), 'not excluded: %r' % p, p.where)
    g.check(P32, not w.it.panics and outs, '%s: no overflow, no failed check on reduced arguments' % name, '%d outcomes' % len(outs), W)
    return w, [(s, L(v)) for s, v in outs], W


def expand(l):
    """l as an integer combination: wrap-arounds become multiples of the modulus, exact divisions are carried out."""
    out, c = {}, l.c
    for i, k in l.t:
        a = ATOMS[i]
        if a.kind == 'wrap' and len(a.args) == 3 and isinstance(a.args[0], Lin):
            m = L(a.args[2]) - L(a.args[1]) + 1
            if m.is_const():
                d, e = expand(a.args[0])
                for x, y in d.items():
                    out[x] = out.get(x, 0) + k * y
                out[('turns', i)] = out.get(('turns', i), 0) - k * m.c
                c += k * e
                continue
        if a.kind in ('pdiv', 'div') and isinstance(a.args[0], Lin):
            m = L(a.args[1])
            d, e = expand(a.args[0])
            if m.is_const() and m.c > 0 and e % m.c == 0 and all(y % m.c == 0 for y in d.values()):
                for x, y in d.items():
                    out[x] = out.get(x, 0) + k * (y // m.c)
                c += k * (e // m.c)
                continue
        out[i] = out.get(i, 0) + k
    return out, c


def congruent(s, l, want):
    """l - want is a multiple of Q: every coefficient is."""
    d = s.canon(l - want)
    x, c = expand(d)
    if c % Q == 0 and all(k % Q == 0 for k in x.values()):
        return True
    if d.c % Q == 0 and all(k % Q == 0 for i, k in d.t):
        return True
    if s.facts.ent_eq(d):
        return True
    for k in (1, -1, 2, -2):
        if s.facts.ent_eq(d - k * Q):
            return True
    return False


def within(s, l, lo, hi):
    return s.decide(f_ge(l - lo)) is True and s.decide(f_ge(Lin(hi) - l)) is True


def leaves(g):
    def two(name, f):
        a, b = fresh('a', 0, Q - 1), fresh('b', 0, Q - 1)
        w, outs, W = leaf(g, name, [a, b])
        for s, v in outs:
            g.check(P18, within(s, v, 0, Q - 1), '%s: the result is reduced' % name, '%r not within 0..%d' % (v, Q - 1), W)
            g.check(P32, congruent(s, v, f(a, b)), '%s: computes modulo Q' % name, '%r' % (s.canon(v - f(a, b)),), W)
        g.use(w.it)
    g.guard(lambda g: two('coeff_add', lambda a, b: a + b), 'coeff_add', P32)
    g.guard(lambda g: two('coeff_sub', lambda a, b: a - b), 'coeff_sub', P32)

    def mredd(g):
        m = fresh('m', 0, (Q - 1) * (Q - 1))
        w, outs, W = leaf(g, 'coeff_mredd', [m])
        for s, v in outs:
            g.check(P18, within(s, v, 0, Q - 1), 'coeff_mredd: the result is reduced', '%r' % (v,), W)
            g.check(P32, congruent(s, v, m * RI), 'coeff_mredd: divides by 2^16 modulo Q', '%r' % (s.canon(v - m * RI),), W)
        g.use(w.it)
    g.guard(mredd, 'coeff_mredd', P32)

    def mul(g):
        # the product is handed to coeff_mredd unchanged
        a, b = fresh('a', 0, Q - 1), fresh('b', 0, Q - 1)
        w = opaque(g)
        seen = []

        def h(it, st, x, c, t):
            seen.append((st, L(x[0])))
            return fresh('r', 0, Q - 1)
        w.it.hooks[PO + 'coeff_mredd'] = h
        if g.P.body(PO + 'coeff_mredd') is None:
            raise Missing(PO + 'coeff_mredd')
        outs = w.call(PO + 'coeff_mul', [a, b])
        W = w.b.where()
        for p in w.it.panics:
            g.check(P32, False, 'coeff_mul: %s: %s cannot happen' % (p.kind, p.what), '%r' % p, p.where)
        g.check(P32, len(outs) == 1 and len(seen) == 1, 'coeff_mul: one reduction', '%d outcomes' % len(outs), W)
        for s, x in seen:
            at = ATOMS[x.t[0][0]] if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 else None
            ok = at is not None and at.kind == 'mul' and {Lin.of(x) if isinstance(x, int) else x for x in at.args} == {a, b}
            g.check(P32, ok, 'coeff_mul: reduces the product of its arguments', 'reduces %r' % (x,), W)
        for s, v in outs:
            g.check(P32, len(L(v).t) == 1 and ATOMS[L(v).t[0][0]].args[0] == 'r', 'coeff_mul: returns the reduction', repr(v), W)
        g.use(w.it)
    g.guard(mul, 'coeff_mul', P32)

    def t1(g):
        t = fresh('t', -1, 1)
        w, outs, W = leaf(g, 'coeff_from_trint1', [t])
        cov = set()
        for s, v in outs:
            for k in (-1, 0, 1):
                for z in s.copy().assume(f_eq(t - k), True):
                    if not z.facts.consistent():
                        continue
                    cov.add(k)
                    g.check(P32, z.facts.ent_eq(v - k * RR % Q), 'coeff_from_trint1: %d' % k, '%r' % (z.canon(v),), W)
        g.check(P32, cov == {-1, 0, 1}, 'coeff_from_trint1: accepts -1, 0, 1', repr(cov), W)
        g.use(w.it)
    g.guard(t1, 'coeff_from_trint1', P32)

    def from9(g):
        t = fresh('t', -HALF, HALF)
        w, outs, W = leaf(g, 'coeff_from_trint9', [t])
        for s, v in outs:
            g.check(P18, within(s, v, 0, Q - 1), 'coeff_from_trint9: the result is reduced', '%r' % (v,), W)
            g.check(P32, congruent(s, v, t * RR), 'coeff_from_trint9: multiplies by 2^16 modulo Q', '%r' % (s.canon(v - t * RR),), W)
        g.use(w.it)
    g.guard(from9, 'coeff_from_trint9', P32)

    def to9(g):
        c = fresh('c', 0, Q - 1)
        w, outs, W = leaf(g, 'coeff_to_trint9', [c])
        for s, v in outs:
            g.check(P18, within(s, v, -HALF, HALF), 'coeff_to_trint9: the result is balanced', '%r' % (v,), W)
            g.check(P32, congruent(s, v, c * RI), 'coeff_to_trint9: divides by 2^16 modulo Q', '%r' % (s.canon(v - c * RI),), W)
        g.use(w.it)
    g.guard(to9, 'coeff_to_trint9', P32)


# ------------------------------------------------------------------ linear forms modulo Q
class PV:
    """An integer within [lo, hi] that is congruent to a linear form modulo Q."""
    __slots__ = ('f', 'c', 'lo', 'hi', 'id')
    cnt = [0]

    def __init__(self, f, c, lo, hi):
        self.f = f
        self.c = c
        self.lo = lo
        self.hi = hi
        PV.cnt[0] += 1
        self.id = PV.cnt[0]

    def key(self):
        return (tuple(sorted(self.f.items(), key=repr)), self.c)

    def __repr__(self):
        return 'PV(%d terms + %d in %d..%d)' % (len(self.f), self.c, self.lo, self.hi)


def var(k, lo=0, hi=Q - 1):
    return PV({k: 1}, 0, lo, hi)


def fadd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for x, c in b.items():
        y = (r.get(x, 0) + k * c) % Q
        if y:
            r[x] = y
        else:
            r.pop(x, None)
    return r


def fscale(a, k):
    k %= Q
    if k == 0:
        return {}
    if k == 1:
        return a
    return {x: c * k % Q for x, c in a.items()}


def mk(f, c, lo, hi):
    c %= Q
    if not f and lo >= 0 and hi < Q:
        return c
    return PV(f, c, lo, hi)


def same(a, b):
    """Equal residues, both reduced."""
    if isinstance(a, int) or isinstance(b, int):
        return a == b
    return a.c == b.c and a.f == b.f


class FormDom(Dom):
    def iv(self, st, v):
        if isinstance(v, int):
            return v, v
        return st.cond.get(v.id, (v.lo, v.hi))

    def form(self, v):
        if isinstance(v, int):
            return {}, v % Q
        return v.f, v.c

    def binop(self, ev, st, op, a, b, t):
        if not all(isinstance(x, (int, PV)) for x in (a, b)):
            raise Unsupported('%s of %r and %r' % (op, a, b))
        alo, ahi = self.iv(st, a)
        blo, bhi = self.iv(st, b)
        bits = t['bits'] if t['k'] == 'int' else 1
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t.get('signed') else (0, (1 << bits) - 1)
        fa, ca = self.form(a)
        fb, cb = self.form(b)
        ov = op.endswith('WithOverflow')
        o = op[:-12] if ov else op[:-9] if op.endswith('Unchecked') else op
        if o in ('Add', 'Sub', 'Mul', 'Shl'):
            if o == 'Add':
                f, c, lo, hi = fadd(fa, fb), ca + cb, alo + blo, ahi + bhi
            elif o == 'Sub':
                f, c, lo, hi = fadd(fa, fb, -1), ca - cb, alo - bhi, ahi - blo
            else:
                if o == 'Shl':
                    if not isinstance(b, int):
                        raise Unsupported('shift by abstract data')
                    b = 1 << b
                    fb, cb, blo, bhi = {}, b % Q, b, b
                if isinstance(a, int):
                    a, fa, ca, fb, cb, b = b, fb, cb, fa, ca, a
                if not isinstance(b, int):
                    f, c = {('mul',) + tuple(sorted((a.key(), b.key()), key=repr)): 1}, 0
                else:
                    f, c = fscale(fa, b), ca * b
                xs = [alo * blo, alo * bhi, ahi * blo, ahi * bhi]
                lo, hi = min(xs), max(xs)
            r = PV(f, c % Q, lo, hi)
            if mn <= lo and hi <= mx:
                return A(None, [r, 0]) if ov else r
            if ov:
                r.lo, r.hi = max(lo, mn), min(hi, mx)
                return A(None, [r, Cond(('out', a, b))])
            raise Unsupported('%s may wrap' % op)
        if o == 'Rem' and isinstance(b, int) and b == Q and alo >= 0:
            return mk(fa, ca, 0, Q - 1)
        if o in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if o in ('Gt', 'Ge'):
                return self.cmp(st, {'Gt': 'Lt', 'Ge': 'Le'}[o], b, a)
            return self.cmp(st, o, a, b)
        raise Unsupported('%s of coefficients' % op)

    def cmp(self, st, o, a, b):
        alo, ahi = self.iv(st, a)
        blo, bhi = self.iv(st, b)
        if o == 'Ne':
            r = self.cmp(st, 'Eq', a, b)
            return 1 - r if isinstance(r, int) else Cond(('not', r.f))
        if o == 'Le':
            r = self.cmp(st, 'Lt', b, a)
            return 1 - r if isinstance(r, int) else Cond(('not', r.f))
        if o == 'Lt':
            if ahi < blo:
                return 1
            if alo >= bhi:
                return 0
            return Cond(('lt', a, b))
        if ahi < blo or bhi < alo:
            return 0
        if alo == ahi == blo == bhi:
            return 1
        return Cond(('eq', a, b))

    def unop(self, ev, st, op, a, t):
        if op == 'Neg' and isinstance(a, PV):
            lo, hi = self.iv(st, a)
            return PV(fscale(a.f, Q - 1), -a.c % Q, -hi, -lo)
        raise Unsupported('%s of a coefficient' % op)

    def cast(self, ev, st, a, t, ft):
        if not isinstance(a, PV) or t['k'] != 'int':
            raise Unsupported('cast of %r' % (a,))
        lo, hi = self.iv(st, a)
        bits = t['bits']
        mn, mx = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if t['signed'] else (0, (1 << bits) - 1)
        if mn <= lo and hi <= mx:
            return a
        raise Unsupported('cast changes the value')

    def decide(self, ev, st, f):
        neg = False
        while f[0] == 'not':
            f = f[1]
            neg = not neg
        k, a, b = f
        if k == 'out':
            return None
        r = self.cmp(st, 'Lt' if k == 'lt' else 'Eq', a, b)
        if isinstance(r, int):
            return bool(r) != neg
        v = st.cond.get(self.ck(f))
        return None if v is None else v != neg

    def ck(self, f):
        return (f[0], f[1] if isinstance(f[1], int) else f[1].key(), f[2] if isinstance(f[2], int) else f[2].key())

    def assume(self, ev, st, f, v):
        while f[0] == 'not':
            f = f[1]
            v = not v
        k, a, b = f
        if k == 'out':
            return True
        st.cond[self.ck(f)] = v
        alo, ahi = self.iv(st, a)
        blo, bhi = self.iv(st, b)
        if k == 'lt':
            if v:
                ahi, blo = min(ahi, bhi - 1), max(blo, alo + 1)
            else:
                alo, bhi = max(alo, blo), min(bhi, ahi)
        elif v:
            alo = blo = max(alo, blo)
            ahi = bhi = min(ahi, bhi)
        else:
            if alo == ahi:
                if blo == alo:
                    blo += 1
                if bhi == alo:
                    bhi -= 1
            elif blo == bhi:
                if alo == blo:
                    alo += 1
                if ahi == blo:
                    ahi -= 1
        if alo > ahi or blo > bhi:
            return False
        if isinstance(a, PV):
            st.cond[a.id] = (alo, ahi)
        if isinstance(b, PV):
            st.cond[b.id] = (blo, bhi)
        return True


# ------------------------------------------------------------------ contracts of the coefficient functions in Poly operations
class Req(Exception):
    pass


def hooks(g, where, mode='poly'):
    D = FormDom()
    bad = {}

    def red(ev, st, v, what, lo=0, hi=Q - 1):
        if not isinstance(v, (int, PV)):
            raise Unsupported('%s applied to %r' % (what, v))
        a, b = D.iv(st, v)
        if a < lo or b > hi:
            bad[what] = 'argument within %d..%d, required %d..%d' % (a, b, lo, hi)
        return D.form(v)

    def add(ev, st, a, c):
        (f, x), (h, y) = red(ev, st, a[0], 'coeff_add'), red(ev, st, a[1], 'coeff_add')
        return mk(fadd(f, h), x + y, 0, Q - 1)

    def sub(ev, st, a, c):
        (f, x), (h, y) = red(ev, st, a[0], 'coeff_sub'), red(ev, st, a[1], 'coeff_sub')
        return mk(fadd(f, h, -1), x - y, 0, Q - 1)

    def mul(ev, st, a, c):
        (f, x), (h, y) = red(ev, st, a[0], 'coeff_mul'), red(ev, st, a[1], 'coeff_mul')
        if not f:
            f, x, h, y = h, y, f, x
        if not h:
            return mk(fscale(f, y * RI), x * y * RI, 0, Q - 1)
        k = tuple(sorted((D_key(f, x), D_key(h, y)), key=repr))
        return mk({('mul',) + k: RI}, 0, 0, Q - 1)

    def inv(ev, st, a, c):
        f, x = red(ev, st, a[0], 'coeff_inv')
        return mk({('inv', D_key(f, x)): 1}, 0, 0, Q - 1)

    def from1(ev, st, a, c):
        f, x = red(ev, st, a[0], 'coeff_from_trint1', -1, 1)
        return mk(fscale(f, RR), x * RR, 0, Q - 1)

    def from9(ev, st, a, c):
        f, x = red(ev, st, a[0], 'coeff_from_trint9', -HALF, HALF)
        return mk(fscale(f, RR), x * RR, 0, Q - 1)

    def to9(ev, st, a, c):
        f, x = red(ev, st, a[0], 'coeff_to_trint9')
        return PV(fscale(f, RI), x * RI % Q, -HALF, HALF)

    def mods1(ev, st, a, c):
        f, x = D.form(a[0])
        if D.iv(st, a[0])[0] < -HALF or D.iv(st, a[0])[1] > HALF:
            raise Unsupported('mods1 of a number that is not balanced')
        return A(None, [PV({('mods1', D_key(f, x)): 1}, 0, -1, 1), None])

    def sl(st, v):
        r = v.f[0]
        n, d = r.f[0], r.f[1]
        if not (isinstance(n, int) and isinstance(d, int)):
            raise Unsupported('slice of unknown offset')
        return n, d

    def get(k, m):
        def h(ev, st, a, c):
            n, d = sl(st, a[0])
            if d + k > n:
                raise Panic('get%d outside the slice' % k)
            return PV({('t%d' % k, d): 1}, 0, -m, m)
        return h

    def put(k, m):
        def h(ev, st, a, c):
            n, d = sl(st, a[0])
            if d + k > n:
                raise Panic('put%d outside the slice' % k)
            red(ev, st, a[1], 'put%d' % k, -m, m)
            st.cells['puts'] = st.cells.get('puts', ()) + ((k, d, a[1]),)
            return flat.UNIT
        return h
    SC, SM = 'trits::slice::TritSliceT::', 'trits::slice::TritSliceMutT::'
    H = {SC + 'get1': get(1, 1), SC + 'get9': get(9, 9841), SM + 'put1': put(1, 1), SM + 'put9': put(9, 9841),
         'trits::util::mods1': mods1}
    for nm, h in (('coeff_add', add), ('coeff_sub', sub), ('coeff_mul', mul), ('coeff_inv', inv),
                  ('coeff_from_trint1', from1), ('coeff_from_trint9', from9), ('coeff_to_trint9', to9)):
        if g.P.body(PO + nm) is not None:
            H[PO + nm] = h
    return D, H, bad


def D_key(f, x):
    return (tuple(sorted(f.items(), key=repr)), x)


def poly(name):
    return A(None, [A(None, [var((name, i)) for i in range(N)])])


def slice_arg(g, n):
    """A slice of n trits at offset 11 of a longer buffer."""
    d = 11
    return lambda ev, st: A(None, [A(None, [d + n, d]), R(ev.new(st, A(None, [None] * (d + n + 3))), (0,)), flat.UNIT])


class Run:
    def __init__(self, g, name, args, max_states=4000):
        b = g.P.body(PL + name) or g.P.body('<poly::Poly as ' + name)
        if b is None:
            raise Missing(PL + name)
        self.b = b
        self.W = b.where()
        self.name = name
        D, H, self.bad = hooks(g, self.W)
        self.dom = D
        ev = Flat(g.P, D, H)
        ev.max_states = max_states
        st = ev.state()
        self.cells = []
        av = []
        for x in args:
            if callable(x):
                av.append(x(ev, st))
            else:
                c = ev.new(st, x)
                self.cells.append(c)
                av.append(R(c))
        self.ev = ev
        self.out = ev.run(st, b, av)
        g.use(ev)
        g.fn(b)
        for what, text in self.bad.items():
            g.check(P18, False, 'Poly::%s: %s is applied to reduced arguments' % (name, what), text, self.W)
        g.check(P18, not self.bad, 'Poly::%s: coefficient functions are applied to reduced arguments' % name, '', self.W)
        for s in self.out:
            if s.panic:
                g.check(P18, False, 'Poly::%s: no overflow or failed check' % name, s.panic, self.W)
        if ev.partial:
            g.undecided(P32, 'Poly::%s: all paths' % name, 'more than %d paths' % max_states, self.W)
        self.out = [s for s in self.out if not s.panic]

    def coeffs(self, s, k=0):
        return s.cells[self.cells[k]].f[0].f


def each(g, r, what, spec, pids=P18, k=0):
    """One outcome; coefficient i is spec(i) modulo Q and reduced."""
    if not g.check(pids, len(r.out) == 1, 'Poly::%s: one outcome' % r.name, '%d' % len(r.out), r.W):
        return
    s = r.out[0]
    cs = r.coeffs(s, k)
    badr = [i for i, c in enumerate(cs) if not reduced(r.dom, s, c)]
    g.check(P18, len(cs) == N and not badr, 'Poly::%s: every coefficient of the result is reduced' % r.name, 'coefficient %s' % badr[:1], r.W)
    badv = [i for i, c in enumerate(cs) if not same(c, spec(i))]
    g.check(pids, not badv, 'Poly::%s: %s' % (r.name, what), 'coefficient %s' % badv[:1], r.W)


def reduced(D, s, c):
    if not isinstance(c, (int, PV)):
        return False
    lo, hi = D.iv(s, c)
    return 0 <= lo and hi < Q


def lin(*ts, c=0):
    f = {}
    for k, x in ts:
        x %= Q
        if x:
            f[k] = (f.get(k, 0) + x) % Q
    return mk(f, c, 0, Q - 1)


def a_(i):
    return ('a', i)


def b_(i):
    return ('b', i)


def ka(i):
    return D_key({a_(i): 1}, 0)


def ops(g):
    pa, pb = poly('a'), poly('b')
    G = g.guard

    def new(g):
        b = g.P.body(PL + 'new')
        if b is None:
            raise Missing(PL + 'new')
        ev = Flat(g.P, FormDom())
        out = ev.run(ev.state(), b, [])
        g.use(ev)
        ok = len(out) == 1 and not out[0].panic and list(out[0].ret.f[0].f) == [0] * N
        g.check(P18, ok, 'Poly::new: the zero polynomial', '', b.where())

    def simple(name, args, what, spec, pids=P18):
        if not g.wants(*pids):
            return
        G(lambda g: each(g, Run(g, name, args()), what, spec, pids), 'Poly::' + name, pids)
    full = g.wants('C18', 'C32')
    if full:
        G(new, 'Poly::new', P18)
    two = lambda: [pa, pb]
    one = lambda: [pa]
    simple('add', two, 'sum of the coefficients', lambda i: lin((a_(i), 1), (b_(i), 1)))
    simple('sub', two, 'difference of the coefficients', lambda i: lin((a_(i), 1), (b_(i), -1)))
    simple('small3_add1', one, 'adds the constant 1', lambda i: lin((a_(i), 1), c=RR if i == 0 else 0))
    simple('small_mul3', one, 'three times the coefficients', lambda i: lin((a_(i), 3)))
    simple('conv', two, 'product of the coefficients', lambda i: mk({('mul',) + tuple(sorted((ka(i), D_key({b_(i): 1}, 0)), key=repr)): RI}, 0, 0, Q - 1), P32)
    simple('inv', one, 'inverse of the coefficients', lambda i: mk({('inv', ka(i)): 1}, 0, 0, Q - 1))
    tk = lambda i: D_key({a_(i): RI}, 0)
    simple('round_small', one, 'the coefficients modulo 3', lambda i: mk({('mods1', tk(i)): RR}, 0, 0, Q - 1))
    simple('add_small', lambda: [pa, slice_arg(g, N)], 'adds one trit per coefficient', lambda i: lin((a_(i), 1), (('t1', 11 + i), RR)))
    simple('sub_small', lambda: [pa, slice_arg(g, N)], 'subtracts one trit per coefficient', lambda i: lin((a_(i), 1), (('t1', 11 + i), -RR)))
    simple('small_from_trits', lambda: [pa, slice_arg(g, N)], 'one trit per coefficient', lambda i: lin((('t1', 11 + i), RR)))

    def puts(name, k, what, spec):
        def f(g):
            r = Run(g, name, [pa, slice_arg(g, k * N)])
            if not g.check(P18, len(r.out) == 1, 'Poly::%s: one outcome' % name, '%d' % len(r.out), r.W):
                return
            s = r.out[0]
            p = s.cells.get('puts', ())
            ok = [(x[0], x[1]) for x in p] == [(k, 11 + k * i) for i in range(N)]
            g.check(P18, ok, 'Poly::%s: writes every coefficient at its place' % name, '%d writes' % len(p), r.W)
            bad = [i for i, x in enumerate(p) if not same(x[2], spec(i))]
            g.check(P18, not bad, 'Poly::%s: %s' % (name, what), 'coefficient %s' % bad[:1], r.W)
        if g.wants('C18'):
            G(f, 'Poly::' + name, P18)
    puts('to_trits', 9, 'the coefficients as balanced numbers', lambda i: PV({a_(i): RI}, 0, 0, 0))
    puts('round_to_trits', 1, 'the coefficients modulo 3', lambda i: PV({('mods1', tk(i)): 1}, 0, 0, 0))

    def from_trits(g):
        r = Run(g, 'from_trits', [pa, slice_arg(g, 9 * N)])
        yes = [s for s in r.out if s.ret == 1]
        no = [s for s in r.out if s.ret != 1]
        g.check(P18, len(yes) == 1, 'Poly::from_trits: accepts', '%d accepting outcomes' % len(yes), r.W)
        for s in yes:
            cs = r.coeffs(s)
            bad = [i for i, c in enumerate(cs) if not reduced(r.dom, s, c) or not same(c, lin((('t9', 11 + 9 * i), RR)))]
            g.check(P18, not bad, 'Poly::from_trits: decodes every coefficient, reduced', 'coefficient %s' % bad[:1], r.W)
            lim = limits(s)
            bad = [i for i in range(N) if lim.get(('t9', 11 + 9 * i), (-9841, 9841)) != (-HALF, HALF)]
            g.check(P18 + ('C19',), not bad, 'Poly::from_trits: accepts exactly the coefficients within the balanced range', 'coefficient %s' % bad[:1], r.W)
        g.check(P18 + ('C19',), all(s.ret == 0 for s in no) and no, 'Poly::from_trits: rejects by false', '', r.W)
        for s in no:
            lim = limits(s)
            out = [k for k, v in lim.items() if v[0] > HALF or v[1] < -HALF]
            g.check(P18, bool(out), 'Poly::from_trits: rejects only a coefficient out of range', '', r.W)
    if g.wants('C18', 'C19'):
        G(from_trits, 'Poly::from_trits', P18)

    def eq(g):
        for path in ('<poly::Poly as std::cmp::PartialEq>::eq', '<poly::Poly as std::cmp::PartialEq>::ne'):
            b = g.P.body(path)
            if b is None:
                if path.endswith('::eq'):
                    raise Missing(path)
                continue
            r = Run.__new__(Run)
            D, H, bad = hooks(g, '')
            ev = Flat(g.P, D, H)
            ev.max_states = 4000
            st = ev.state()
            c1, c2 = ev.new(st, pa), ev.new(st, pb)
            out = ev.run(st, b, [R(c1), R(c2)])
            g.use(ev)
            yes = 1 if path.endswith('::eq') else 0
            if ev.partial:
                g.undecided(('C25', 'C18'), '%s: all paths' % path, '', b.where())
            for s in out:
                eqs = {k[1:] for k, v in s.cond.items() if isinstance(k, tuple) and k[0] == 'eq' and v}
                nes = {k[1:] for k, v in s.cond.items() if isinstance(k, tuple) and k[0] == 'eq' and not v}
                kk = lambda i: {(ka(i), D_key({b_(i): 1}, 0)), (D_key({b_(i): 1}, 0), ka(i))}
                if s.panic:
                    g.check(('C25', 'C18'), False, '%s: no panic' % path, s.panic, b.where())
                elif s.ret == yes:
                    g.check(('C25', 'C18'), all(kk(i) & eqs for i in range(N)), '%s: equal only when all coefficients are' % path, '', b.where())
                else:
                    g.check(('C25', 'C18'), any(kk(i) & nes for i in range(N)), '%s: different only when a coefficient is' % path, '', b.where())
    if g.wants('C18', 'C25'):
        G(eq, 'Poly == Poly', ('C25', 'C18'))

    def has_inv(g):
        r = Run(g, 'has_inv', [pa])
        for s in r.out:
            if s.ret == 1:
                lo = [i for i in range(N) if s.cond.get(pa.f[0].f[i].id, (0, 0))[0] < 1]
                g.check(P18 + ('C19', 'C20'), not lo, 'Poly::has_inv: true only when no coefficient is 0', 'coefficient %s' % lo[:1], r.W)
            else:
                z = [i for i in range(N) if s.cond.get(pa.f[0].f[i].id) == (0, 0)]
                g.check(P18 + ('C20',), bool(z), 'Poly::has_inv: false only when a coefficient is 0', '', r.W)
    if g.wants('C18', 'C19', 'C20'):
        G(has_inv, 'Poly::has_inv', P18)


def limits(s):
    out = {}
    for k, v in s.cond.items():
        if isinstance(k, tuple) and k[0] == 'lt':
            pass
    # intervals are kept per value; a value read from the slice is one variable
    for k, v in s.cond.items():
        if isinstance(k, tuple) and k[0] in ('lt', 'eq'):
            for side in (1, 2):
                x = k[side]
                if isinstance(x, tuple) and len(x[0]) == 1 and x[1] == 0 and x[0][0][1] == 1:
                    name = x[0][0][0]
                    lo, hi = out.get(name, (-9841, 9841))
                    o = k[3 - side]
                    if not isinstance(o, int):
                        continue
                    if k[0] == 'lt':
                        if side == 1:
                            lo, hi = (lo, min(hi, o - 1)) if v else (max(lo, o), hi)
                        else:
                            lo, hi = (max(lo, o + 1), hi) if v else (lo, min(hi, o))
                    elif v:
                        lo = hi = o
                    out[name] = (lo, hi)
    return out


# ------------------------------------------------------------------ inversion of a coefficient
class PowDom(FormDom):
    pass


def inverse(g):
    """coeff_inv: in the domain of powers of the argument, the result has exponent Q - 2."""
    b = g.P.body(PO + 'coeff_inv')
    if b is None:
        raise Missing(PO + 'coeff_inv')
    W = b.where()

    def pw(v):
        if isinstance(v, PV) and len(v.f) == 1 and v.c == 0:
            (k, c), = v.f.items()
            if c == 1 and k[0] == 'pow':
                return k[1]
        if isinstance(v, int) and v == RR:
            return 0
        raise Unsupported('product of something that is not a power of the argument')

    def mul(ev, st, a, c):
        e = pw(a[0]) + pw(a[1])
        e %= Q - 1              # the argument is not 0: Fermat
        if e == 0:
            return RR
        return PV({('pow', e): 1}, 0, 1, Q - 1)
    ev = Flat(g.P, FormDom(), {PO + 'coeff_mul': mul})
    st = ev.state()
    a = PV({('pow', 1): 1}, 0, 1, Q - 1)
    out = ev.run(st, b, [a])
    g.use(ev)
    g.fn(b)
    for s in out:
        if g.check(P32 + ('C20',), not s.panic, 'coeff_inv: no failed check on an invertible argument', s.panic or '', W):
            e = pw(s.ret)
            g.check(P32 + ('C20',), e == Q - 2, 'coeff_inv: the power Q-2 of the argument', 'power %d' % e, W)
    g.check(P32 + ('C20',), len(out) == 1, 'coeff_inv: one outcome', '%d' % len(out), W)


# ------------------------------------------------------------------ transforms
def transforms(g):
    pa = poly('a')
    pw = [pow(GAMMA, k, Q) for k in range(2 * N)]
    g.check(P32, pw[N] == Q - 1, 'the root of unity has order 2N modulo Q')
    ninv = pow(N, Q - 2, Q)

    def fwd(g):
        r = Run(g, 'ntt', [pa])
        if not g.check(P32, len(r.out) == 1, 'Poly::ntt: one outcome', '', r.W):
            return
        cs = r.coeffs(r.out[0])
        bad = None
        for j, c in enumerate(cs):
            f = c.f if isinstance(c, PV) else {}
            if not reduced(r.dom, r.out[0], c) or len(f) != N or c.c != 0:
                bad = j
                break
            st = 2 * j + 1
            e = 0
            for i in range(N):
                if f.get(('a', i)) != pw[e]:
                    bad = j
                    break
                e = (e + st) % (2 * N)
            if bad is not None:
                break
            g.check(P32, True, 'Poly::ntt: value %d is f(7^%d)' % (j, st))
        g.check(P32, bad is None and len(cs) == N, 'Poly::ntt: the values of the polynomial at the roots of x^N+1', 'value %s differs' % bad, r.W)

    def back(g):
        r = Run(g, 'intt', [pa])
        if not g.check(P32, len(r.out) == 1, 'Poly::intt: one outcome', '', r.W):
            return
        cs = r.coeffs(r.out[0])
        bad = None
        for k, c in enumerate(cs):
            f = c.f if isinstance(c, PV) else {}
            if not reduced(r.dom, r.out[0], c) or len(f) != N or c.c != 0:
                bad = k
                break
            for j in range(N):
                if f.get(('a', j)) != ninv * pw[-(2 * j + 1) * k % (2 * N)] % Q:
                    bad = k
                    break
            if bad is not None:
                break
            g.check(P32, True, 'Poly::intt: coefficient %d inverts the transform' % k)
        g.check(P32, bad is None and len(cs) == N, 'Poly::intt: the inverse of the transform', 'coefficient %s differs' % bad, r.W)
    g.guard(fwd, 'Poly::ntt', P32)
    g.guard(back, 'Poly::intt', P32)


def run(g):
    if g.wants('C18', 'C32'):
        leaves(g)
        g.guard(ops, 'Poly operations', P32)
    elif g.wants('C19', 'C20', 'C25'):
        g.guard(ops, 'Poly operations', P32)
    if g.wants('C18', 'C32', 'C20'):
        g.guard(inverse, 'coeff_inv', P32)
    if g.wants('C18', 'C32'):
        transforms(g)
