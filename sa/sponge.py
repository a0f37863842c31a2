"""The sponge layer: real bodies of Spongos over the slice layer; the permutation is an uninterpreted step."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops, shape
from .group import Missing, panic_sites
from .word import body, written, start, cases, lname, walk, has_trit
from .slices import Sl, CS, MS, BIG, SR
from .models import eq_content

SP = 'spongos::Spongos'
OU = 'spongos::Outer'
TR = 'troika::Troika'
PRP = '<troika::Troika as spongos::PRP>::transform'
STREAM = ('C07',)


def consts(g):
    def c(name, dflt):
        for k in ('spongos::' + name,):
            v = g.P.consts.get(k) if hasattr(g.P, 'consts') else None
            if isinstance(v, int):
                return v
        return dflt
    return c('RATE', 486), c('CAPACITY', 243)


def prp(it, st, a, c, t):
    """Contract of the permutation step: absorbs the dropped prefix, replaces the outer part, restarts at its beginning."""
    T = it.read_path(st, a[0])
    o = it.read_path(st, a[1])
    r = o.f[0]
    n, d = r.f
    base, off = o.f[1].base(), o.f[1].off()
    pre = st.norm_content(it.get_content(st, base, off, d))
    T2 = Opq(('perm', key(T), pre))
    it.put_content(st, base, off, ((n, 'prp', (T2.key,), Lin(0)),))
    it.write_path(st, a[0], T2)
    it.write_path(st, a[1], Agg(o.tag, o.var, [Agg(r.tag, r.var, [n, Lin(0)])] + list(o.f[1:])))
    return UNIT


def key(v):
    return v.key if isinstance(v, Opq) else v


PAST = [None]


def grown(P):
    return shape.added(P, SP, 's', 'outer') or shape.added(P, OU, 'pos', 'trits')


def past(w, name, ops):
    """The states of a fresh sponge after some calls."""
    it = w.it
    zero_ = lambda it, st, a, c, t: Opq(('T0',))
    it.hooks['<troika::Troika as std::default::Default>::default'] = zero_
    it.hooks['troika::Troika::new'] = zero_
    n = len(it.panics)
    o = ('S', ('sp', name))
    states = []
    for s, v in it.exec_body(w.st.copy(), body(w.g, SP + '::init'), []):
        s.mem[o] = v
        states.append(s)
    for k, op in enumerate(ops):
        out = []
        for s in states:
            args = [Ptr(o)]
            if op != 'commit':
                x = Sl(it, s, 'past%s%d' % (name, k), op == 'squeeze')
                lo, hi = (486, 486) if op == 'block' else (1, 160)
                s.facts.add_ge(x.size - lo)
                s.facts.add_ge(Lin(hi) - x.size)
                args.append(x.v)
            out += [z for z, _ in it.exec_body(s, body(w.g, SP + '::' + ('absorb' if op == 'block' else op)), args) if z.facts.consistent()]
        states = out
    del it.panics[n:]
    for s in states:
        s.ev = None
    return states


def histories(g):
    """A type with the documented fields is analysed in every state; one that has grown, in the states some calls lead to."""
    if not grown(g.P):
        yield None
        return
    g.undecided(STREAM + SAVE, 'sponge: fields', 'the sponge has further fields (%s): only states reached by few calls are analysed' % ', '.join(grown(g.P)))
    for ops in ([], ['absorb'], ['squeeze'], ['block'], ['absorb', 'commit'], ['absorb', 'absorb'], ['absorb', 'squeeze']):
        try:
            n = len(past(World(g, loop=False), 's', ops))
        except (I.Unsupported, Missing):
            n = 1
        for i in range(n):
            PAST[0] = (ops, i)
            yield PAST[0]
    PAST[0] = None


class World:
    """A state with sponges and slices, for one analysed call."""

    def __init__(self, g, loop=True, H=None):
        self.g = g
        hk = C.tw_hooks()
        hk[PRP] = prp
        hk.update(H or {})
        self.it, self.st = start(g, hk)
        it = self.it
        it.transparent_sponge = True
        it.no_merge = True
        self.sl = {}
        self.reps = []
        self.br = []
        self.ix = []
        it.on_branch = lambda it, st, v: self.br.append((it.stack[-1][0].npath, it.stack[-1][0].where(it.stack[-1][1]), v))
        it.on_index = lambda it, st, i, k, n, what: self.ix.append((it.stack[-1][0].where(it.stack[-1][1]), i)) if it.stack else None
        it.logs = [self.br, self.ix]
        if loop:
            it.loop_hook = loops.summarise
            it.summ_rkind = 'src'
            it.summ_report = self.reps.append

    def sponge(self, name, pos=None):
        st = self.st
        if grown(self.g.P):
            return self.reached(name, pos)
        p = fresh('pos', 0, 485) if pos is None else L(pos)
        O = ('S', ('O', name))
        tr = self.it.mk_trits(st, 486, ((Lin(486), 'src', ('O', name), Lin(0)),), O)
        o = ('S', ('sp', name))
        st.mem[o] = shape.make(self.g.P, SP, s=Opq(('T', name)), outer=shape.make(self.g.P, OU, pos=p, trits=tr))
        return Spg(self, name, o, O, p)

    def reached(self, name, pos):
        """For a sponge type that has grown: a sponge as left by the calls in PAST, with arbitrary trits."""
        if PAST[0] is None or pos is not None or self.it.loop_hook is not None:
            raise Missing('fields of %s' % SP)
        ops, i = PAST[0]
        st = past(self, name, ops)[i]
        self.st.become(st)
        st = self.st
        o = ('S', ('sp', name))
        v = st.mem[o]
        T, p, reg, vec, n = view(self.g.P, st, v)
        if not st.facts.ent_eq(n - 486):
            raise I.Unsupported('outer part of %r trits' % n)
        O = ('S', ('O', name))
        tr = self.it.mk_trits(st, 486, ((Lin(486), 'src', ('O', name), Lin(0)),), O)
        ou = shape.put(self.g.P, shape.get(self.g.P, v, SP, 'outer'), OU, trits=tr)
        st.mem[o] = shape.put(self.g.P, v, SP, s=Opq(('T', name)), outer=ou)
        return Spg(self, name, o, O, p)

    def slice(self, name, mut=False):
        s = self.sl[name] = Sl(self.it, self.st, name, mut)
        return s

    def call(self, path, args):
        self.b = body(self.g, path)
        self.g.fn(self.b)
        self.outs = self.it.exec_body(self.st, self.b, args)
        self.g.use(self.it)
        return self.outs

    def ref(self, v):
        o = ('S', ('ref', len(self.st.mem)))
        self.st.mem[o] = v
        return Ptr(o)


class Spg:
    def __init__(self, w, name, o, O, p):
        self.w = w
        self.name = name
        self.o = o
        self.O = O
        self.p = p
        self.ptr = Ptr(o)

    def state(self, s):
        return view(self.w.g.P, s, s.mem[self.o])


def view(P, s, v):
    """(permutation state, position, outer region) of a sponge value."""
    if not isinstance(v, Agg):
        raise I.Unsupported('sponge value %r' % (v,))
    out = shape.get(P, v, SP, 'outer')
    tr = shape.get(P, out, OU, 'trits')
    vec = tr.f[1]
    while isinstance(vec, Agg) and len(vec.f) == 1:
        vec = vec.f[0]
    return key(shape.get(P, v, SP, 's')), shape.get(P, out, OU, 'pos'), s.mem[vec.obj], vec.obj, tr.f[0]


def piece_at(s, reg, off, n):
    return s.norm_content(slice_content_exact(reg.c, off, n, s.ge, s.dge))


def streaming(g):
    """absorb, squeeze, squeeze_eq, encr, decr."""
    for op in ('absorb', 'squeeze', 'squeeze_eq', 'encr', 'decr'):
        for inplace in ((False, True) if op in ('encr', 'decr') else (False,)):
            pids = STREAM + (('C08',) if op in ('encr', 'decr') else ()) + (('C04',) if op == 'squeeze_eq' else ())
            g.guard(lambda: stream(g, op, inplace, pids), op + (' in place' if inplace else ''), pids, ())


def stream(g, op, inplace, pids):
    lab = op + (' in place' if inplace else '')
    w = World(g)
    it, st = w.it, w.st
    sp = w.sponge('s')
    xs = w.slice('x', op == 'squeeze' or inplace)
    args = [sp.ptr]
    if op in ('encr', 'decr'):
        if inplace:
            args += [xs.mk(xs.n, xs.d, False), xs.mk(xs.n, xs.d, True)]
            ys = xs
        else:
            ys = w.slice('y', True)
            st.facts.add_eq(ys.size - xs.size)
            args += [xs.v, ys.v]
    else:
        args += [xs.v]
        ys = xs
    w.call(SP + '::' + op, args)
    where = w.b.where()
    panic_sites(g, pids, it, lab)
    if len(w.reps) != 1:
        raise I.Unsupported('%d loops in %s' % (len(w.reps), lab))
    R = w.reps[0]
    T, p, Oh, vobj, _ = view(g.P, R.head, R.head.mem[sp.o])
    On = lname(Oh) or ('O', 's')
    Xh, Yh = R.head.mem[xs.obj], R.head.mem[ys.obj]
    xn, yn = lname(Xh), lname(Yh)
    K = None
    eqh = None
    accs = []
    if op == 'squeeze_eq':
        # the accumulated result: a boolean that starts true (equal so far) or false (different so far)
        accs = [(kk, e0) for kk, (f, e0) in R.g.bools.items() if e0 in (True, False)]
        if len(accs) > 1:
            raise I.Unsupported('comparison accumulator')
        eqh = [R.g.bools[kk][0] if e0 else f_not(R.g.bools[kk][0]) for kk, e0 in accs]
        if not eqh and R.backs and w.outs and len({s.decide(r) for s, r in w.outs}) == 1 and w.outs[0][0].decide(w.outs[0][1]) is not None:
            g.check(pids, False, '%s: the result depends on the comparison' % lab, 'always %r' % w.outs[0][0].decide(w.outs[0][1]), where)
            return
    steps = [(s, None, False) for s in R.backs]
    for s, r in w.outs:
        if op == 'squeeze_eq' and not accs and s.decide(r) is None:
            raise I.Unsupported('comparison accumulator')
        O2 = view(g.P, s, s.mem[sp.o])[2]
        if O2.c and O2.c[0][1] == 'prp' and view(g.P, s, s.mem[sp.o])[0] != T or written(s, O2, On):
            steps.append((s, r, True))
    for s, res, last in steps:
        if last and s.decide(f_eq(xs.size)) is True:
            continue
        T2, p2, O2, v2, _ = view(g.P, s, s.mem[sp.o])
        prp_done = O2.c and O2.c[0][1] == 'prp'
        if prp_done:
            # outer contents right before the permutation: its absorbed prefix
            if not (T2[0] == 'perm' and T2[1] == T):
                g.check(pids, False, '%s: at most one permutation step per piece, on the current state' % lab, repr(T2)[:300], where)
                return
            pre = T2[2]
            full = clen(pre)
            Oc = Region(full, pre)
            ok = len(O2.c) == 1 and O2.c[0][2] == (T2,) and s.facts.ent_eq(O2.c[0][0] - 486) and s.facts.ent_eq(O2.c[0][3])
            g.check(pids, ok, '%s: the outer part after a permutation is the permuted one' % lab, repr(O2)[:300], where)
        else:
            g.check(pids, T2 == T, '%s: the permutation state changes only by a permutation step' % lab, repr(T2)[:300], where)
            Oc = O2
            full = None
        # what was done to the outer part and to the output
        segs = written(s, Oc, On)
        xw = written(s, s.mem[xs.obj], xn)
        yw = written(s, s.mem[ys.obj], yn) if ys is not xs else xw
        if ys is not xs:
            g.check(pids, not xw, '%s: the input is only read' % lab, repr(xw)[:200], where)
        if op == 'absorb' and yw:
            g.check(pids, False, '%s: the input is only read' % lab, repr(yw)[:200], where)
        if not segs:
            if op in ('squeeze', 'squeeze_eq') and (prp_done or s.decide(f_eq(p2 - p)) is False):
                g.check(pids, False, '%s: squeezed trits are zeroed' % lab, 'the position advances from %r to %r over unchanged outer trits' % (p, s.canon(p2)), where)
                return
            raise I.Unsupported('no progress in an iteration of %s' % lab)
        q0 = segs[0][0]
        q = q0
        for a, pc in segs:
            if not s.facts.ent_eq(a - q):
                g.check(pids, False, '%s: works on consecutive outer positions' % lab, repr(segs)[:300], where)
                return
            q = s.canon(q + pc[0])
        n = s.canon(q - q0)
        g.check(pids, s.facts.ent_eq(q0 - p), '%s: works at the current outer position' % lab, 'at %r' % s.canon(q0 - p), where)
        # progress within the argument
        def ydata():
            if not yw:
                g.check(pids, False, '%s: produces output in every step' % lab, '', where)
                return None
            a0 = yw[0][0]
            a = a0
            for b, pc in yw:
                if not s.facts.ent_eq(b - a):
                    g.check(pids, False, '%s: writes consecutive output trits' % lab, repr(yw)[:300], where)
                    return None
                a = a + pc[0]
            g.check(pids, s.facts.ent_eq(a - a0 - n), '%s: one outer trit per output trit' % lab, '%r outer, %r output' % (n, s.canon(a - a0)), where)
            return s.canon(a0 - ys.d)
        oldO = piece_at(s, Oh, p, n)
        newO = piece_at(s, Oc, p, n)
        if op == 'absorb':
            if len(newO) != 1 or newO[0][1] != 'src' or newO[0][2] != (xn or ('x',)):
                g.check(pids, False, '%s: the outer trits are overwritten by the input' % lab, repr(newO)[:300], where)
                return
            k = s.canon(newO[0][3] - xs.d)
        elif op == 'squeeze_eq':
            g.check(pids, s.same_content(newO, zero(n)), '%s: squeezed trits are zeroed' % lab, repr(newO)[:200], where)
            if last:
                fb = res
            elif accs:
                fb = loops.eval_key(s, accs[0][0][0], accs[0][0][1:])
                fb = fb if accs[0][1] else f_not(fb)
            else:
                fb = True
            src = [x for x in walk(deepen(fb)) if isinstance(x, tuple) and len(x) == 4 and x[1] == 'src' and x[2] == ('x',)]
            # on a path where the result is already known false/true the formula may have been decided
            k = s.canon(src[0][3] - xs.d) if src else K if K is not None else kcmp(w, R, s, xs)
            if k is None:
                raise I.Unsupported('compared positions')
            want = eq_content(it, s, oldO, it.read_region(s, Xh, xs.d + k, n))
            for h in (True, False) if eqh else (True,):
                for z in s.copy().assume(eqh[0], h) if eqh else [s]:
                    for e in (True, False):
                        for y in z.copy().assume(want, e):
                            g.check(pids, y.decide(fb) is (h and e), '%s: equal so far iff it was and the squeezed piece equals the given one' % lab,
                                    'before %s, piece equal %s, result %r' % (h, e, fb), where)
        else:
            k = ydata()
            if k is None:
                return
            newY = s.norm_content(it.read_region(s, s.mem[ys.obj], ys.d + k, n))
            inX = it.read_region(s, Xh, xs.d + k, n)
            if op == 'squeeze':
                g.check(pids, s.same_content(newY, oldO), '%s: the output is the outer part' % lab, repr(newY)[:300], where)
                g.check(pids, s.same_content(newO, zero(n)), '%s: squeezed trits are zeroed' % lab, repr(newO)[:200], where)
            else:
                kind = 'tadd' if op == 'encr' else 'tsub'
                okk = len(newY) == 1 and newY[0][1] == kind and s.facts.ent_eq(newY[0][3])
                okk = okk and s.same_content(newY[0][2][0], inX) and s.same_content(newY[0][2][1], oldO)
                g.check(pids, okk, '%s: the output is input %s outer part' % (lab, '+' if op == 'encr' else '-'), repr(newY)[:300], where)
                plain = inX if op == 'encr' else newY
                g.check(pids, s.same_content(newO, plain), '%s: the outer part becomes the plaintext' % lab, repr(newO)[:300], where)
        if K is None:
            K = k = loops.position(R, s, k)
        g.check(pids, s.facts.ent_eq(k - K), '%s: input, output and outer trits correspond' % lab, '%r against %r' % (k, K), where)
        g.check(pids, R.entry.facts.ent_eq(R.at_entry(K)), '%s: starts with the first trit' % lab, repr(R.at_entry(K)), where)
        if last:
            g.check(pids + (('C23',) if op == 'squeeze_eq' else ()), s.facts.ent_eq(xs.size - K - n), '%s: stops exactly when every trit is processed' % lab, 'stops at %r of %r' % (s.canon(K + n), s.canon(xs.size)), where)
        else:
            nk = R.at_back(s, K)
            g.check(pids, s.facts.ent_eq(nk - K - n), '%s: the next piece starts where this one ended' % lab, 'next %r, ended %r' % (s.canon(nk), s.canon(K + n)), where)
        g.check(pids, s.facts.ent_ge(n - 1) and s.facts.ent_ge(xs.size - K - n), '%s: pieces are non-empty and inside the argument' % lab, repr(n), where)
        step(g, pids, lab, where, s, T2, p2, p, n, prp_done, full)
    if K is None:
        raise I.Unsupported('no iteration in %s' % lab)
    for s, r in w.outs:
        if s.decide(f_eq(xs.size)) is True and s.mem[sp.o] == st.mem.get(sp.o) or any(s is x for x, _, last in steps if last):
            continue
        done(g, pids, lab, where, w, R, s, sp, [xs, ys], K, xs.size, T, p, On)
        if op == 'squeeze_eq':
            for h in (True, False) if eqh else (True,):
                for z in s.copy().assume(eqh[0], h) if eqh else [s]:
                    g.check(pids, z.decide(r) is h, '%s: returns the accumulated result' % lab, repr(r), where)
    if op == 'squeeze_eq':
        taint(g, w, R, lab)


def kcmp(w, R, s, xs):
    """Position in the compared slice, from the loop variables."""
    for i in R.vars:
        k = Lin.of(i) - xs.d
        if R.entry.facts.ent_eq(R.at_entry(k)):
            return k
    return None


def deepen(f):
    """Formula with its affine parts opened (their atoms' arguments)."""
    if isinstance(f, Lin):
        return tuple(deepen(ATOMS[i].args) for i, _ in f.t)
    if isinstance(f, tuple):
        return f + tuple(deepen(x) for x in f if isinstance(x, tuple))
    return f


def step(g, pids, lab, where, s, T2, p2, p, n, prp_done, full):
    """Position update of one piece: permutation exactly when the outer part is full."""
    if prp_done:
        g.check(pids, s.facts.ent_eq(p + n - 486), '%s: the permutation is applied only when the outer part is full' % lab, 'at position %r' % s.canon(p + n), where)
        g.check(pids, s.facts.ent_eq(full - 486), '%s: the permutation absorbs the whole outer part' % lab, '%r trits' % s.canon(full), where)
        g.check(pids, s.facts.ent_eq(p2), '%s: the position restarts at 0 after a permutation' % lab, repr(s.canon(p2)), where)
    else:
        g.check(pids, s.facts.ent_ge(Lin(485) - p - n), '%s: a full outer part is permuted' % lab, 'position may reach %r' % s.canon(p + n), where)
        g.check(pids, s.facts.ent_eq(p2 - p - n), '%s: the position advances by the trits processed' % lab, 'position %r' % s.canon(p2), where)


def done(g, pids, lab, where, w, R, s, sp, slices, K, size, T, p, On):
    g.check(pids + (('C23',) if lab == 'squeeze_eq' else ()), s.facts.ent_eq(K - size), '%s: stops exactly when every trit is processed' % lab, 'stops at %r of %r' % (s.canon(K), s.canon(size)), where)
    T2, p2, O2, _, _ = view(g.P, s, s.mem[sp.o])
    g.check(pids, T2 == T and s.facts.ent_eq(p2 - p) and not written(s, O2, On), '%s: nothing happens after the last trit' % lab, repr((T2, p2, O2))[:300], where)
    for x in set(slices):
        nm = lname(R.head.mem[x.obj])
        g.check(pids, not written(s, s.mem[x.obj], nm), '%s: nothing else is written to %s' % (lab, x.name), '', where)


def taint(g, w, R, lab):
    """The comparison's control flow between pieces: which memory is accessed does not depend on contents."""
    for x, i in w.ix:
        g.check(('C23',), not has_trit(i), '%s: no memory index depends on the compared trits' % lab, 'index %r' % i, x)
    for s in R.backs:
        for i in R.vars:
            g.check(('C23',), not has_trit(R.at_back(s, Lin.of(i))), '%s: positions do not depend on the compared trits' % lab, '', w.b.where())


SAVE = ('C06',)


def simple(g):
    """init, update, commit, clone, fork."""
    # init
    def init():
        for path in (SP + '::init', 'spongos::init'):
            w = World(g, loop=False)
            w.it.hooks['<troika::Troika as std::default::Default>::default'] = lambda it, st, a, c, t: Opq(('T0',))
            w.it.hooks['troika::Troika::new'] = w.it.hooks['<troika::Troika as std::default::Default>::default']
            for s, v in w.call(path, []):
                T, p, O, ob, n = view(g.P, s, v)
                g.check(STREAM + SAVE, T == ('T0',), '%s: starts from the initial permutation state' % path, repr(T), w.b.where())
                g.check(STREAM + SAVE, s.facts.ent_eq(p), '%s: position 0' % path, repr(p), w.b.where())
                g.check(STREAM + SAVE, s.same_content(O.c, zero(486)) and s.facts.ent_eq(n - 486), '%s: outer part is 486 zero trits' % path, repr(O)[:200], w.b.where())
            panic_sites(g, STREAM + SAVE, w.it, path)
    g.guard(init, 'init', STREAM + SAVE, ())

    def default():
        for path in ('<troika::Troika as std::default::Default>::default', 'troika::Troika::new'):
            w = World(g, loop=False)
            for s, v in w.call(path, []):
                bad = nonzero(v)
                g.check(STREAM + SAVE, not bad, '%s: every cell of the initial state is zero' % path, repr(bad)[:200], w.b.where())
    g.guard(default, 'initial state', STREAM + SAVE, ())

    def update():
        w = World(g, loop=False)
        sp = w.sponge('s')
        n = fresh('n', 0, BIG)
        w.call(SP + '::update', [sp.ptr, n])
        where = w.b.where()
        for pn in w.it.panics:
            bad = [x for x in pn.state.copy().assume(f_ge(Lin(486) - sp.p - n), True) if x.facts.consistent()]
            g.check(STREAM, not bad, 'update: no panic while the outer part has room', repr(pn), pn.where)
        for s, _ in w.outs:
            T2, p2, O2, ob, _ = sp.state(s)
            prp_done = T2 != ('T', 's')
            if prp_done:
                full = clen(T2[2]) if T2[0] == 'perm' else None
                g.check(STREAM, T2[0] == 'perm' and T2[1] == ('T', 's') and s.same_content(T2[2], ((full, 'src', ('O', 's'), Lin(0)),)),
                        'update: one permutation step over the outer part', repr(T2)[:300], where)
                g.check(STREAM, len(O2.c) == 1 and O2.c[0][1] == 'prp' and O2.c[0][2] == (T2,), 'update: the outer part is the permuted one', repr(O2)[:300], where)
                step(g, STREAM, 'update', where, s, T2, p2, sp.p, n, True, full)
            else:
                g.check(STREAM, not written(s, O2, ('O', 's')), 'update: outer trits unchanged', '', where)
                step(g, STREAM, 'update', where, s, T2, p2, sp.p, n, False, None)
    if not grown(g.P):
        g.guard(update, 'update', STREAM, ())

    def commit():
        pids = STREAM + ('C09', 'C06')
        w = World(g, loop=False)
        sp = w.sponge('s')
        w.call(SP + '::commit', [sp.ptr])
        where = w.b.where()
        panic_sites(g, pids, w.it, 'commit')
        g.check(pids, w.outs, 'commit: returns', '', where)
        for s0, _ in w.outs:
            for s in s0.copy().assume(f_eq(sp.p), True):
                T2, p2, O2, ob, _ = sp.state(s)
                g.check(pids, T2 == ('T', 's') and s.facts.ent_eq(p2) and not written(s, O2, ('O', 's')), 'commit: no effect on an empty outer part', repr((T2, p2, O2))[:300], where)
            for s in s0.copy().assume(f_eq(sp.p), False):
                T2, p2, O2, ob, _ = sp.state(s)
                ok = T2[0] == 'perm' and T2[1] == ('T', 's') and s.same_content(T2[2], ((sp.p, 'src', ('O', 's'), Lin(0)),))
                g.check(pids, ok, 'commit: one permutation step absorbing the trits before the position', repr(T2)[:300], where)
                g.check(pids, s.facts.ent_eq(p2), 'commit: position 0 afterwards', repr(p2), where)
                g.check(pids, len(O2.c) == 1 and O2.c[0][1] == 'prp' and O2.c[0][2] == (T2,) and s.facts.ent_eq(O2.c[0][0] - 486), 'commit: the outer part is the permuted one', repr(O2)[:300], where)
    g.guard(commit, 'commit', STREAM + ('C09', 'C06'), ())

    def forks():
        for path, mk in (('<spongos::Spongos as std::clone::Clone>::clone', 'ret'), (SP + '::fork', 'ret'),
                         ('<spongos::Spongos as std::clone::Clone>::clone_from', 'into'), (SP + '::fork_at', 'from')):
            def one(path=path, mk=mk):
                w = World(g, loop=False)
                a = w.sponge('a')
                b = w.sponge('b') if mk != 'ret' else None
                args = [a.ptr] if mk == 'ret' else [b.ptr, a.ptr] if mk == 'into' else [a.ptr, b.ptr]
                outs = w.call(path, args)
                lab = path.split('::')[-1]
                panic_sites(g, SAVE, w.it, lab)
                for s, v in outs:
                    c = view(g.P, s, v if mk == 'ret' else s.mem[b.o])
                    o = a.state(s)
                    g.check(SAVE, o[0] == ('T', 'a') and s.facts.ent_eq(o[1] - a.p) and not written(s, o[2], ('O', 'a')), '%s: the original is unchanged' % lab, repr(o)[:300], w.b.where())
                    g.check(SAVE, c[0] == ('T', 'a'), '%s: copies the permutation state' % lab, repr(c[0])[:200], w.b.where())
                    g.check(SAVE, s.facts.ent_eq(c[1] - a.p), '%s: copies the position' % lab, repr(c[1]), w.b.where())
                    g.check(SAVE, s.same_content(c[2].c, o[2].c) and s.facts.ent_eq(c[4] - 486), '%s: copies every outer trit' % lab, repr(c[2])[:200], w.b.where())
                    g.check(SAVE, c[3] != o[3], '%s: the copy has its own outer part' % lab, 'both use %r' % (c[3],), w.b.where())
                    if grown(g.P):
                        # the copy goes on like the original
                        q = ('S', ('copy',))
                        z0 = s.copy()
                        z0.mem[q] = v if mk == 'ret' else s.mem[b.o]
                        for z1, _ in w.it.exec_body(z0, body(g, SP + '::commit'), [Ptr(q)]):
                            for z in z1.assume(f_eq(a.p), False):
                                if z.facts.consistent():
                                    T2 = view(g.P, z, z.mem[q])[0]
                                    g.check(SAVE, T2[0] == 'perm' and z.same_content(T2[2], ((a.p, 'src', ('O', 'a'), Lin(0)),)), '%s: the copy commits what the original holds' % lab, repr(T2)[:200], w.b.where())
            g.guard(one, path, SAVE, ())
    g.guard(forks, 'fork', SAVE, ())


def short(g):
    """For a sponge type that has grown: pieces that fit into the current block."""
    def one(op):
        w = World(g, loop=False)
        sp = w.sponge('s')
        x = w.slice('x', op == 'squeeze')
        w.st.facts.add_ge(x.size - 1)
        w.st.facts.add_ge(Lin(100) - x.size)
        where = body(g, SP + '::' + op).where()
        outs = w.call(SP + '::' + op, [sp.ptr, x.v])
        panic_sites(g, STREAM, w.it, op)
        g.check(STREAM, outs, '%s: returns' % op, '', where)
        for s, v in outs:
            T2, p2, O2, ob, _ = sp.state(s)
            g.check(STREAM, T2 == ('T', 's') and s.facts.ent_eq(p2 - sp.p - x.size), '%s: moves on by the size of a short piece' % op, repr((T2, p2))[:200], where)
            mine = w.it.read_region(s, O2, sp.p, x.size)
            if op == 'absorb':
                g.check(STREAM, s.same_content(mine, x.src(Lin(0), x.size)), 'absorb: a short piece into the outer part', repr(mine)[:200], where)
            else:
                got = w.it.read_region(s, s.mem[x.obj], x.d, x.size)
                g.check(STREAM, s.same_content(got, ((x.size, 'src', ('O', 's'), sp.p),)) and s.same_content(mine, zero(x.size)), 'squeeze: a short piece out of the outer part', repr((got, mine))[:200], where)
    for op in ('absorb', 'squeeze'):
        g.guard(lambda op=op: one(op), op + ' (short)', STREAM, ())


def nonzero(v):
    if isinstance(v, Lin):
        return [] if v == Lin(0) else [v]
    if isinstance(v, Agg):
        return [x for y in v.f for x in nonzero(y)]
    if isinstance(v, Seq) and v.items is not None:
        return [x for y in v.items for x in nonzero(y)]
    if isinstance(v, Region):
        return [p for p in v.c if p[1] != 'zero']
    if isinstance(v, Seq) and v.base and v.base[0] == 'rep' and not v.w:
        return nonzero(v.base[1])
    raise I.Unsupported('initial state %r' % (v,))


def cell_hooks():
    H = {}

    def set1(it, st, a, c, t):
        T = it.read_path(st, a[0])
        it.write_path(st, a[0], Opq(('tset', key(T), st.canon(a[1]), st.canon(a[2]))))
        return UNIT

    def get1(it, st, a, c, t):
        T = it.read_path(st, a[0])
        return atom('tget', (key(T), a[1]), 0, 2)

    def permutation(it, st, a, c, t):
        T = it.read_path(st, a[0])
        it.write_path(st, a[0], Opq(('prm', key(T))))
        return UNIT
    H[TR + '::set1'] = set1
    H[TR + '::get1'] = get1
    H[TR + '::permutation'] = permutation
    return H


def inner(g):
    def to_inner(path):
        for committed in (True, False):
            w = World(g, loop=False, H=cell_hooks())
            w.it.unroll = 800
            sp = w.sponge('s')
            lab = path.split('::')[-1]
            if w.st.decide(f_eq(sp.p)) is (not committed):
                continue
            if committed:
                w.st.facts.add_eq(sp.p)
            else:
                w.st.facts.add_ge(sp.p - 1)
            if lab == 'to_inner':
                y = w.slice('y', True)
                outs = w.call(path, [sp.ptr, y.v])
            else:
                outs = w.call(path, [sp.ptr])
            where = w.b.where()
            if not committed:
                g.check(SAVE, not outs, '%s: refused unless the sponge is committed' % lab, 'returns with a non-empty outer part', where)
                continue
            for pn in w.it.panics:
                f = f_eq(y.size - 243) if lab == 'to_inner' else True
                bad = [x for x in pn.state.copy().assume(f, True) if x.facts.consistent()]
                g.check(SAVE, not bad, '%s: does not refuse a committed sponge' % lab, repr(pn), pn.where)
            g.check(SAVE, outs, '%s: returns' % lab, '', where)
            for s, v in outs:
                if lab == 'to_inner':
                    g.check(SAVE, s.facts.ent_eq(y.size - 243), '%s: refuses a buffer of another size than 243' % lab, repr(y.size), where)
                    c = w.it.read_region(s, s.mem[y.obj], y.d, Lin(243))
                else:
                    reg = s.mem[v.f[1].obj]
                    g.check(SAVE, s.facts.ent_eq(v.f[0] - 243) and s.facts.ent_eq(reg.n - 243), '%s: 243 trits' % lab, repr(v), where)
                    c = reg.c
                for j in range(243):
                    x = w.it.trit_at(s, slice_content_exact(c, Lin(j), Lin(1), s.ge, s.dge))
                    e = atom('tget', (('T', 's'), Lin(486 + j)), 0, 2)
                    if not s.facts.ent_eq(x - e):
                        g.check(SAVE, False, '%s: trit %d is trit %d of the state' % (lab, j, 486 + j), repr(x), where)
                        break
                else:
                    g.check(SAVE, True, '%s: saves exactly the 243 capacity trits in order' % lab)
                T2, p2, O2, _, _ = sp.state(s)
                g.check(SAVE, T2 == ('T', 's') and s.facts.ent_eq(p2) and not written(s, O2, ('O', 's')), '%s: the sponge is unchanged' % lab, '', where)
    for p in ('to_inner', 'to_inner_trits'):
        g.guard(lambda p=p: to_inner(SP + '::' + p), p, SAVE, ())

    def from_inner(path):
        w = World(g, loop=False, H=cell_hooks())
        w.it.hooks['<troika::Troika as std::default::Default>::default'] = lambda it, st, a, c, t: Opq(('T0',))
        w.it.hooks['troika::Troika::new'] = w.it.hooks['<troika::Troika as std::default::Default>::default']
        w.it.unroll = 800
        lab = path.split('::')[-1]
        x = w.slice('x')
        if lab == 'from_inner':
            outs = w.call(path, [x.v])
        else:
            w.st.facts.add_eq(x.d)
            w.st.facts.add_eq(x.n - x.N)
            outs = w.call(path, [w.ref(Agg('trits::trits::TritsT', None, [x.N, VecV(x.obj)]))])
        where = w.b.where()
        for pn in w.it.panics:
            bad = [z for z in pn.state.copy().assume(f_eq(x.size - 243), True) if z.facts.consistent()]
            g.check(SAVE, not bad, '%s: does not refuse 243 trits' % lab, repr(pn), pn.where)
        g.check(SAVE, outs, '%s: returns' % lab, '', where)
        for s, v in outs:
            g.check(SAVE, s.facts.ent_eq(x.size - 243), '%s: refuses another size than 243' % lab, '', where)
            T, p, O, _, n = view(g.P, s, v)
            sets = {}
            while T[0] == 'tset':
                k = s.canon(T[2])
                if not k.is_const():
                    raise I.Unsupported('set1 index')
                sets.setdefault(k.c, T[3])
                T = T[1]
            g.check(SAVE, T == ('T0',), '%s: starts from a fresh sponge' % lab, repr(T)[:200], where)
            g.check(SAVE, sorted(sets) == list(range(486, 729)), '%s: restores exactly the 243 capacity trits' % lab, 'sets %s' % sorted(set(range(486, 729)) ^ set(sets))[:10], where)
            for j in range(243):
                if 486 + j in sets:
                    e = w.it.trit_at(s, w.it.read_region(s, s.mem[x.obj], x.d + j, Lin(1)))
                    if not s.facts.ent_eq(sets[486 + j] - e):
                        g.check(SAVE, False, '%s: trit %d of the state is the saved trit %d' % (lab, 486 + j, j), repr(sets[486 + j]), where)
                        break
            else:
                g.check(SAVE, True, '%s: capacity trits restored in order' % lab)
            g.check(SAVE, s.facts.ent_eq(p), '%s: position 0' % lab, repr(p), where)
            g.check(SAVE, s.same_content(O.c, zero(486)) and s.facts.ent_eq(n - 486), '%s: empty outer part' % lab, repr(O)[:200], where)
    for p in ('from_inner', 'from_inner_trits'):
        g.guard(lambda p=p: from_inner(SP + '::' + p), p, SAVE, ())


def transform(g):
    """The permutation step itself: prefix into the state, permutation once, outer part out of the state."""
    w = World(g, H=cell_hooks())
    del w.it.hooks[PRP]
    st, it = w.st, w.it
    T = ('S', ('T',))
    st.mem[T] = Opq(('T', 's'))
    o = w.slice('o', True)
    po = w.ref(o.v)
    outs = w.call(PRP, [Ptr(T), po])
    where = w.b.where()
    pids = STREAM
    panic_sites(g, pids, it, 'transform')
    if len(w.reps) != 2:
        raise I.Unsupported('%d loops in transform' % len(w.reps))
    R1, R2 = w.reps
    d0 = o.d
    K = None
    for s in R1.backs:
        t = key(s.mem[T])
        th = key(R1.head.mem[T])
        if not (t[0] == 'tset' and t[1] == th):
            g.check(pids, False, 'transform: every step stores one trit into the state', repr((t,th))[:600], where)
            return
        k = loops.position(R1, s, s.canon(t[2]))
        K = k
        e = it.trit_at(s, it.read_region(s, s.mem[o.obj], k, Lin(1)))
        g.check(pids, s.facts.ent_eq(t[3] - e), 'transform: state trit k is outer trit k', repr(t[3]), where)
        g.check(pids, R1.entry.facts.ent_eq(R1.at_entry(k)), 'transform: loading starts at trit 0', '', where)
        g.check(pids, s.facts.ent_eq(R1.at_back(s, k) - k - 1), 'transform: loads consecutive trits', '', where)
        g.check(pids, not written(s, s.mem[o.obj], ('o',)), 'transform: loading does not write the outer part', '', where)
    for s, _ in R1.exits:
        g.check(pids, s.facts.ent_eq(K - d0), 'transform: exactly the dropped trits are loaded', 'stops at %r' % s.canon(K), where)
        g.check(pids, s.mem[T] == R1.head.mem[T], 'transform: loading stores nothing else', '', where)
    K2 = None
    for s in R2.backs:
        g.check(pids, s.mem[T] == R2.head.mem[T], 'transform: storing does not change the state', '', where)
        th = key(R2.head.mem[T])
        g.check(pids, th == ('prm', key(R1.head.mem[T])), 'transform: the permutation is applied exactly once between loading and storing', repr(th)[:200], where)
        nm = lname(R2.head.mem[o.obj]) or ('o',)
        segs = written(s, s.mem[o.obj], nm)
        if len(segs) != 1 or not s.facts.ent_eq(segs[0][1][0] - 1):
            g.check(pids, False, 'transform: every step stores one outer trit', repr(segs)[:200], where)
            return
        k = loops.position(R2, s, s.canon(segs[0][0]))
        K2 = k
        v = it.trit_at(s, (segs[0][1],))
        A = ATOMS[v.t[0][0]] if len(v.t) == 1 and v == Lin.of(v.t[0][0]) else None
        g.check(pids, A is not None and A.kind == 'tget' and A.args[0] == th and s.facts.ent_eq(A.args[1] - k), 'transform: outer trit k is state trit k', repr((v, k)), where)
        g.check(pids, R2.entry.facts.ent_eq(R2.at_entry(k)), 'transform: storing starts at trit 0', '', where)
        g.check(pids, s.facts.ent_eq(R2.at_back(s, k) - k - 1), 'transform: stores consecutive trits', '', where)
    for s, _ in R2.exits:
        g.check(pids, s.facts.ent_eq(K2 - o.n), 'transform: the whole outer part is replaced', 'stops at %r' % s.canon(K2), where)
    for s, _ in outs:
        v = it.read_path(s, po)
        rn, rd = v.f[0].f
        g.check(pids, s.facts.ent_eq(rn - o.n) and s.facts.ent_eq(rd), 'transform: the outer slice restarts at position 0', repr(v), where)
        if R2.head is not None:
            g.check(pids, s.mem[T] == R2.head.mem[T], 'transform: nothing happens to the state after storing', '', where)


def opaque(g):
    """A world in which sponges are terms."""
    w = World(g, loop=False, H=C.sponge_hooks())
    w.it.transparent_sponge = False
    w.it.hooks.pop(PRP, None)
    return w


def sym_sponge(w, name):
    o = ('S', ('sp', name))
    w.st.mem[o] = Sp(('st', name))
    return Ptr(o)


def wrappers(g):
    """Convenience forms and one-shot hashing."""
    def tr(w, name):
        n = fresh('n' + name, 0, BIG)
        return n, w.it.mk_trits(w.st, n, ((n, 'src', (name,), Lin(0)),), ('S', (name,)))

    def reg(s, v):
        return s.mem[v.f[1].obj]

    def case(path, setup, expect, pids):
        def go():
            w = opaque(g)
            lab = path.split('::')[-1]
            args, env = setup(w)
            outs = w.call(path, args)
            panic_sites(g, pids, w.it, lab)
            g.check(pids, outs, '%s: returns' % lab, '', w.b.where())
            for s, r in outs:
                for what, got, exp in expect(w, s, r, env):
                    ok = s.same_content(got, exp) if isinstance(exp, tuple) and (not exp or isinstance(exp[0], tuple)) else s.same(got, exp)
                    g.check(pids, ok, '%s: %s' % (lab, what), 'got %s, expected %s' % (repr(got)[:250], repr(exp)[:250]), w.b.where())
        g.guard(go, path, pids, ())
    S0 = ('st', 's')

    def s_t(w):
        n, t = tr(w, 'x')
        return [sym_sponge(w, 's'), w.ref(t)], (n, t)

    def sp(w, s, name='s'):
        return s.mem[('S', ('sp', name))].t

    def x(n):
        return ((n, 'src', ('x',), Lin(0)),)
    case(SP + '::absorb_trits', s_t, lambda w, s, r, e: [('absorbs the whole container', sp(w, s), sp_abs(S0, x(e[0])))], STREAM)
    case(SP + '::squeeze_trits', lambda w: ((lambda n: ([sym_sponge(w, 's'), n], n))(fresh('n', 0, BIG))),
         lambda w, s, r, n: [('a container of the requested size', r.f[0], n), ('is filled with squeezed trits', reg(s, r).c, sq_content(S0, n) if not s.decide(f_eq(n)) else ()),
                             ('sponge state', sp(w, s), sp_sqs(S0, n) if not s.decide(f_eq(n)) else S0)], STREAM)
    case(SP + '::squeeze_eq_trits', s_t,
         lambda w, s, r, e: [('compares the whole container', r if isinstance(r, tuple) else ('b', r), eq_content(w.it, s, sq_content(S0, e[0]), x(e[0]))),
                             ('sponge state', sp(w, s), sp_sqs(S0, e[0]))], STREAM + ('C04',))
    for op, f in (('encr', C.encrypt), ('decr', C.decrypt)):
        def exp(w, s, r, e, f=f):
            s2, c = f(s, S0, x(e[0]))
            return [('result has the size of the input', r.f[0], e[0]), ('result', reg(s, r).c, c), ('sponge state', sp(w, s), s2), ('input unchanged', reg(s, e[1]).c, x(e[0]))]

        def expm(w, s, r, e, f=f):
            s2, c = f(s, S0, x(e[0]))
            return [('result in place', reg(s, e[1]).c, c), ('sponge state', sp(w, s), s2)]
        case(SP + '::%s_trits' % op, s_t, exp, STREAM + ('C08',))
        case(SP + '::%s_mut_trits' % op, s_t, expm, STREAM + ('C08',))

    def join_setup(w):
        return [sym_sponge(w, 's'), sym_sponge(w, 'j')], None
    case(SP + '::join', join_setup, lambda w, s, r, e: [('absorbs 243 trits squeezed from the other sponge', sp(w, s), sp_abs(S0, sq_content(('st', 'j'), 243))),
                                                        ('the other sponge has squeezed 243 trits', sp(w, s, 'j'), sp_sqs(('st', 'j'), 243))], STREAM + ('C09', 'C02'))

    def h_setup(w):
        a = w.slice('x')
        b = w.slice('y', True)
        return [a.v, b.v], (a, b)

    def h_exp(w, s, r, e):
        a, b = e
        if s.decide(f_eq(b.size)):
            return []
        st = sp_com(sp_abs(INIT, s.norm_content(a.src(Lin(0), a.size))))
        return [('squeezed from the committed state after absorbing the input', w.it.read_region(s, s.mem[b.obj], b.d, b.size), sq_content(st, b.size))]
    case('spongos::hash_data', h_setup, h_exp, ('C09', 'C07'))
    for k in range(5):
        def hs_setup(w, k=k):
            xs = [w.slice('x%d' % i) for i in range(k)]
            y = w.slice('y', True)
            o = ('S', ('xs',))
            w.st.mem[o] = Agg('array', None, [x.v for x in xs])
            return [Ptr(o, (('e', Lin(0)),), Lin(k)), y.v], (xs, y)

        def hs_exp(w, s, r, e):
            xs, b = e
            if s.decide(f_eq(b.size)):
                return []
            c = ()
            for x in xs:
                c += x.src(Lin(0), x.size)
            st = sp_com(sp_abs(INIT, s.norm_content(c)))
            return [('squeezed from the committed state after absorbing every piece in order', w.it.read_region(s, s.mem[b.obj], b.d, b.size), sq_content(st, b.size))]
        case('spongos::hash_datas', hs_setup, hs_exp, ('C09', 'C07'))


def run(g):
    if g.wants('C07', 'C08', 'C04', 'C23', 'C09'):
        streaming(g)
    if g.wants('C06', 'C07', 'C09'):
        for h in histories(g):
            simple(g)
            if h is not None and 'block' not in h[0]:
                short(g)
    if g.wants('C06'):
        for h in histories(g):
            if h is None or len(h[0]) < 2:
                inner(g)
    if g.wants('C07'):
        g.guard(transform, 'transform', STREAM, (g,))
    if g.wants('C07', 'C08', 'C09', 'C04', 'C02'):
        wrappers(g)
