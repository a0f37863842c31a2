"""The exported PB3 commands, each on its own: what a writer writes, and what a reader does on arbitrary input."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import contracts as C
from .group import Missing, panic_sites
from .messages import Env, Tr, content_of, slice_d, show, SIZE_MAX, size_piece, size_len
from .msgs import WOTS_SIG

CMD = 'pb3::cmd::'
TRY = 'pb3::typ::trytes::'
PW = ('C01', 'C02', 'C03', 'C13')
PH = ('C01', 'C02', 'C04', 'C05')
KEY = ('S', ('sk',))


def src(name, o, n):
    return ((L(n), 'src', (name,), L(o)),)


def slice_arg(e, name, n, mut=False):
    """A slice of n trits inside a larger buffer."""
    d, x = fresh('d_' + name, 0, 1 << 62), fresh('x_' + name, 0, 1 << 62)
    n = L(n)
    e.st.facts.add_ge(x - d - n)
    o = ('S', (name,))
    e.st.mem[o] = Region(x, ((x, 'src', (name,), Lin(0)),))
    v = Agg('trits::slice::TritSlice%sT' % ('Mut' if mut else ''), None, [Agg('trits::slice::SliceRange', None, [d + n, d]), Ptr(o, (('e', Lin(0)),)), UNIT])
    return v, src(name, d, n), d


def find(P, path):
    b = P.body(path)
    if b is not None:
        return b
    for k, b in P.bodies.items():
        if b.npath == path or k.split('#')[0] == '<Self as %s>::%s' % path.rpartition('::')[::2]:
            return b
    raise Missing(path)


class Set:
    """A buffer of N trits at position d0 and a sponge."""

    def __init__(self, g, path, mut):
        e = self.e = Env(g.P)
        self.g, self.path, self.mut = g, path, mut
        self.b = find(g.P, path)
        g.fn(self.b)
        self.N, self.d0 = fresh('N', 0, 1 << 62), fresh('d0', 0, 1 << 62)
        e.st.facts.add_ge(self.N - self.d0)
        self.s = e.sponge('s0')
        self.buf = e.buffer('buf', self.N, self.d0, mut)
        if not mut:
            e.hostile = True
            e.budget = self.N - self.d0

    def run(self, args):
        self.outs = self.e.it.exec_body(self.e.st, self.b, args)
        self.g.use(self.e.it)
        return self.outs

    def rest(self):
        return self.N - self.d0


def writer(g, path, mk, pids=PW):
    def one():
        w = Set(g, path, True)
        e, it = w.e, w.e.it
        args, oracle, n = mk(w)
        e.st.facts.add_ge(w.rest() - n)
        outs = w.run(args)
        where = w.b.where()
        panic_sites(g, pids, it, path + ' when the output fits')
        g.check(pids, outs, '%s: returns' % path, '', where)
        for st, _ in outs:
            t = Tr(st, ('s0',))
            oracle(t)
            d, _, _ = slice_d(it, st, w.buf)
            g.check(('C03', 'C01', 'C02'), st.same(d, w.d0 + n), '%s: advances by the size of the codeword' % path, repr(d), where)
            reg = st.mem[('S', ('buf', 'buf'))]
            got = it.read_region(st, reg, w.d0, L(n))
            g.check(('C02', 'C01'), st.same_content(got, t.out), '%s: writes the documented codeword' % path, 'got %s expected %s' % (repr(got)[:200], repr(t.out)[:200]), where)
            g.check(('C02', 'C01'), st.same(st.mem[w.s.obj].t, t.s), '%s: leaves the documented sponge state' % path, show(st.mem[w.s.obj].t), where)
            ok = st.same_content(it.read_region(st, reg, Lin(0), w.d0), src('buf', 0, w.d0))
            ok = ok and st.same_content(it.read_region(st, reg, w.d0 + n, w.rest() - n), src('buf', w.d0 + n, w.rest() - n))
            g.check(('C13',), ok, '%s: writes nothing else' % path, repr(reg)[:200], where)
    g.guard(one, path, pids, ())


def reader(g, path, mk, pids=PH):
    """mk -> (args, size or None, oracle(tr, st, value or None)); the oracle returns True / False / None (value as documented)."""
    def one():
        w = Set(g, path, False)
        e, it = w.e, w.e.it
        args, oracle = mk(w)
        outs = w.run(args)
        where = w.b.where()
        panic_sites(g, ('C05',), it, path + ' on arbitrary input')
        for fn, what, n in e.big_allocs:
            g.check(('C05',), False, '%s on arbitrary input: no allocation beyond the input' % path, '%s in %s: %r' % (what, fn, n), where)
        g.check(('C05', 'C01'), any(isinstance(v, Agg) and v.var == 0 for _, v in outs), '%s: has a successful outcome' % path, '', where)
        for st, v in outs:
            t = Tr(st, ('s0',), lambda o, k: src('buf', w.d0 + o, k))
            good = v.var == 0
            oracle(t, st, v.f[0] if good else None, where)
            if good:
                d, _, _ = slice_d(it, st, w.buf)
                g.check(('C01', 'C02'), st.same(d, w.d0 + t.off), '%s: consumes the codeword' % path, repr(d), where)
                g.check(('C01', 'C02'), st.same(st.mem[w.s.obj].t, t.s), '%s: leaves the documented sponge state' % path, show(st.mem[w.s.obj].t), where)
    g.guard(one, path, pids, ())


def short(g, w, st, n, where, path, also=()):
    """An error outcome is only possible when the input is too short, or one of the checks failed."""
    f = f_ge(w.rest() - n)
    for c in also:
        f = f_and(f, c)
    bad = [z for z in st.copy().assume(f, True) if z.facts.consistent()]
    g.check(('C01',), not bad, '%s: fails only on short input or a failed verification' % path, '', where)


def eqf(st, a, b):
    from .models import eq_content
    return eq_content(None, st, st.norm_content(a), st.norm_content(b))


def writers(g):
    def plain(op):
        def mk(w):
            n = fresh('n', 0, 1 << 61)
            v, c, d = slice_arg(w.e, 'x', n)
            return [v, w.s, w.buf], lambda t: getattr(t, op)(c), n
        return mk
    writer(g, TRY + 'wrap_absorb_trits', plain('absorb'))
    writer(g, TRY + 'wrap_mask_trits', plain('mask'))

    def trytes(op):
        def mk(w):
            k = fresh('k', 0, 1 << 40)
            tr = w.e.it.mk_trits(w.e.st, k * 3, src('x', 0, k * 3), ('S', ('x',)))
            o = ('S', ('xt',))
            w.e.st.mem[o] = tr
            return [Ptr(o), w.s, w.buf], lambda t: getattr(t, op)((size_piece(k),) + src('x', 0, k * 3)), size_len(k) + k * 3
        return mk
    writer(g, TRY + 'wrap_absorb_trytes', trytes('absorb'))
    writer(g, TRY + 'wrap_mask_trytes', trytes('mask'))
    writer(g, CMD + 'mac::wrap_mac', lambda w: ([w.s, w.buf], lambda t: t.mac(), Lin(243)), PW + ('C09',))

    def join(w):
        v, c, d = slice_arg(w.e, 'msgid', 81)
        sl = w.e.sponge('slink')

        def orc(t):
            t.join(('slink',))
            t.put(c)
        return [v, sl, w.s, w.buf], orc, Lin(81)
    writer(g, CMD + 'join::wrap_join', join)

    def kem(w):
        k, kc, _ = slice_arg(w.e, 'key', 243)
        n = fresh('nn', 0, 1 << 40)
        no, nc, _ = slice_arg(w.e, 'nonce', n)
        pk = Ptr(('S', ('npk',)))
        c = src('npk', 0, 9216)
        w.e.st.mem[pk.obj] = Agg('ntru::PublicKey', None, (w.e.it.mk_trits(w.e.st, 9216, c, ('S', ('npkbuf',))), Opq(('polyof', c))))
        prng = ('S', ('prng',))
        w.e.st.mem[prng] = Opq(('prng',))
        return [k, pk, Ptr(prng), no, w.s, w.buf], lambda t: t.kem(c, kc, nc, (prng, ())), Lin(9216)
    writer(g, CMD + 'ntrukem::wrap_ntrukem', kem)

    def sk(w):
        w.e.st.mem[KEY] = Opq(('mss',))
        return Ptr(KEY), (KEY, ())
    n_sig = Lin(18 + WOTS_SIG) + atom('height', ((KEY, ()),), 0, 20) * 243

    def sig(w):
        p, k = sk(w)
        v, c, _ = slice_arg(w.e, 'tag', 234)

        def orc(t):
            t.put(((n_sig, 'sig', (k, t.st.norm_content(c)), Lin(0)),))
        return [v, p, w.s, w.buf], orc, n_sig
    writer(g, CMD + 'mssig::wrap_mssig', sig)

    def sqsig(w):
        p, k = sk(w)

        def orc(t):
            t.mssig(t.tag(), k)
        return [p, w.s, w.buf], orc, n_sig
    writer(g, CMD + 'mssig::squeeze_wrap_mssig', sqsig, PW + ('C09',))

    def size():
        path = CMD + 'mssig::sizeof_mssig'
        e = Env(g.P)
        b = find(g.P, path)
        g.fn(b)
        e.st.mem[KEY] = Opq(('mss',))
        for s, v in e.it.exec_body(e.st, b, [Ptr(KEY)]):
            g.check(('C03',), s.same(v, n_sig), path + ': the size of a signature', repr(v), b.where())
        panic_sites(g, ('C03',), e.it, path)
        g.use(e.it)
    g.guard(size, 'sizeof_mssig', ('C03',), ())
    for nm in ('wrap_absorb_external', 'unwrap_absorb_external'):
        def ext(nm=nm):
            path = CMD + 'absorb::AbsorbExternal::' + nm
            w = Set(g, path, True)
            v, c, _ = slice_arg(w.e, 'x', fresh('n', 0, 1 << 61))
            for q in ('<Self as pb3::cmd::absorb::AbsorbExternal>::slice', 'pb3::cmd::absorb::AbsorbExternal::slice'):
                w.e.it.hooks[q] = lambda it, st, a, cc, t: v
            outs = w.run([Ptr(('S', ('ext',))), w.s])
            g.check(('C02',), outs, path + ': returns', '', w.b.where())
            for st, _ in outs:
                t = Tr(st, ('s0',))
                t.ext(c)
                g.check(('C02', 'C01'), st.same(st.mem[w.s.obj].t, t.s), path + ': absorbs the external value', show(st.mem[w.s.obj].t), w.b.where())
            panic_sites(g, ('C02',), w.e.it, path)
        g.guard(ext, nm, ('C02', 'C01'), ())
    for nm, n in (('join::sizeof_join', 81), ('mac::sizeof_mac', 243), ('ntrukem::sizeof_ntrukem', 9216)):
        def const(nm=nm, n=n):
            e = Env(g.P)
            b = find(g.P, CMD + nm)
            g.fn(b)
            for s, v in e.it.exec_body(e.st, b, []):
                g.check(('C03',), s.same(v, Lin(n)), CMD + nm + ': the size of the codeword', repr(v), b.where())
            g.use(e.it)
        g.guard(const, nm, ('C03',), ())


def readers(g):
    def mac(w):
        path = w.path

        def orc(t, st, v, where):
            t.r_mac()
            _, a, b = t.checks[0]
            f = eqf(st, a, b)
            if v is None:
                short(g, w, st, Lin(243), where, path, (f,))
            else:
                g.check(('C04',), st.decide(f) is True, '%s: Ok only when the complete tag is equal' % path, repr(f)[:200], where)
        return [w.s, w.buf], orc
    reader(g, CMD + 'mac::unwrap_mac', mac, PH + ('C09',))

    def join(w):
        path = w.path
        w.e.info = 'unit'

        def orc(t, st, v, where):
            c = st.norm_content(t.take(81))
            k = ('op', ('lookup', c))
            if v is None:
                short(g, w, st, Lin(81), where, path, (k,))
            else:
                t.join(('slink',))
                g.check(('C04', 'C01'), st.decide(k) is True, '%s: joins the looked up link' % path, repr(c)[:200], where)
        return [FnSym('lookup'), w.s, w.buf], orc
    reader(g, CMD + 'join::unwrap_join', join)

    def kem(w):
        path = w.path
        k, kc, kd = slice_arg(w.e, 'key', 243, True)
        me = ('S', ('nsk',))
        w.e.st.mem[me] = Opq(('nsk',))

        def orc(t, st, v, where):
            c = t.r_kem((me, ()))
            f = ('op', t.checks[0][1])
            if v is None:
                short(g, w, st, Lin(9216), where, path, (f,))
            else:
                g.check(('C04',), st.decide(f) is True, '%s: Ok only when decapsulation succeeded' % path, repr(f)[:200], where)
                reg = st.mem[('S', ('key',))]
                g.check(('C01', 'C02'), st.same_content(w.e.it.read_region(st, reg, kd, Lin(243)), c), '%s: returns the decapsulated key' % path, repr(reg)[:200], where)
        return [k, Ptr(me), w.s, w.buf], orc
    reader(g, CMD + 'ntrukem::unwrap_ntrukem', kem)

    def trytes(op):
        def mk(w):
            path = w.path

            def orc(t, st, v, where):
                sz = [q[1] for q in st.events() if q[0] == 'size']
                if v is None:
                    if sz:
                        short(g, w, st, size_len(sz[0]) + sz[0] * 3, where, path)
                    return
                if len(sz) != 1:
                    raise I.Unsupported('sizes read')
                n = sz[0]
                f = t.r_mask if op == 'mask' else t.r_absorb
                f(size_len(n))
                c = f(n * 3)
                got, m = content_of(w.e.it, st, v)
                g.check(('C01', 'C02'), st.same(m, n * 3) and st.same_content(got, c), '%s: returns the trytes' % path, repr(got)[:200], where)
            return [w.s, w.buf], orc
        return mk
    reader(g, TRY + 'unwrap_absorb_trytes', trytes('absorb'))
    reader(g, TRY + 'unwrap_mask_trytes', trytes('mask'))

    def mssig(squeeze, verify):
        def mk(w):
            path = w.path
            args = [w.s, w.buf]
            tc = None
            if verify:
                o = ('S', ('vpk',))
                w.e.st.mem[o] = Agg('mss::mss::PublicKey', None, (w.e.it.mk_trits(w.e.st, 243, src('vpk', 0, 243), ('S', ('vpkbuf',))),))
                args = [Ptr(o)] + args
            if not squeeze:
                v, tc, _ = slice_arg(w.e, 'tag', 234)
                args = [v] + args

            def orc(t, st, v, where):
                tag = t.tag() if squeeze else st.norm_content(tc)
                ev = [q for q in st.events() if q[0] == 'recover']
                none = not ev
                if not none:
                    _, h, c, n = ev[0]
                    g.check(('C02', 'C04'), len(ev) == 1 and st.same_content(h, tag), '%s: recovers from the documented hash' % path, repr(h)[:200], where)
                    g.check(('C02', 'C04'), st.same_content(c, src('buf', w.d0, w.rest())), '%s: recovers from the input at the current position' % path, repr(c)[:200], where)
                    rec = ((Lin(243), 'recov', (h, st.norm_content(t.take(n))), Lin(0)),)
                    f = eqf(st, rec, src('vpk', 0, 243))
                if v is None:
                    if not none:
                        short(g, w, st, n, where, path, (f,) if verify else ())
                    return
                g.check(('C04',), not none, '%s: Ok only when a key was recovered' % path, '', where)
                if none:
                    return
                if verify:
                    g.check(('C04', 'C25'), st.decide(f) is True, '%s: Ok only when the recovered key is the expected key' % path, repr(f)[:200], where)
                else:
                    got, m = content_of(w.e.it, st, v)
                    g.check(('C04', 'C01'), st.same_content(got, rec), '%s: returns the recovered key' % path, repr(got)[:200], where)
            return args, orc
        return mk
    for sq in (False, True):
        for ver in (False, True):
            reader(g, CMD + 'mssig::%sunwrap_mssig_%s' % ('squeeze_' if sq else '', 'verify' if ver else 'recover'), mssig(sq, ver), PH + ('C09',))

    def hash_():
        path = CMD + 'mssig::squeeze_mss_hash'
        w = Set(g, path, True)
        for st, v in w.run([w.s]):
            t = Tr(st, ('s0',))
            c = t.tag()
            got, n = content_of(w.e.it, st, v)
            g.check(('C02', 'C09'), st.same(n, Lin(234)) and st.same_content(got, c) and st.same(st.mem[w.s.obj].t, t.s), path + ': 234 trits squeezed after a commit', repr(got)[:200], w.b.where())
        panic_sites(g, ('C02',), w.e.it, path)
    g.guard(hash_, 'squeeze_mss_hash', ('C02', 'C09'), ())


def run(g):
    if g.wants('C01', 'C02', 'C03', 'C09', 'C13'):
        writers(g)
    if g.wants('C01', 'C02', 'C04', 'C05', 'C09', 'C25'):
        readers(g)
