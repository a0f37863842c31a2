"""PB3 field types: every Absorb / Mask implementation as a writer/reader pair, and on arbitrary input."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import contracts as C
from . import msgs as M
from .group import Missing, panic_sites
from .messages import Env, Tr, content_of, slice_d, show, SIZE_MAX, size_piece, size_len
from .models import some

AB = 'pb3::cmd::absorb::Absorb'
MK = 'pb3::cmd::mask::Mask'


def find_impl(P, trait, ty, method):
    """Body of <ty as trait>::method, wherever it is implemented."""
    for k, b in P.bodies.items():
        if b.d['generic'] or not b.local:
            continue
        if k == '<%s as %s>::%s' % (ty, trait, method) or k.endswith('<impl %s for %s>::%s' % (trait, ty, method)):
            return b
    raise Missing('<%s as %s>::%s' % (ty, trait, method))


class Field:
    """One field type: symbolic values, their codeword and comparison."""
    sized = True            # unwrap_*_sized is usable
    size_prefix = False

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty


class Trint(Field):
    def __init__(self, n):
        Field.__init__(self, 'Trint%d' % n, 'pb3::typ::trint::Trint%d' % n)
        self.n = n

    def value(self, e, name):
        v = fresh(name, -C.P3[self.n], C.P3[self.n])
        return Agg(self.ty, None, (v,))

    def fixed(self):
        return self.n

    def code(self, e, st, v):
        return C.put_piece(st, self.n, v.f[0])

    def same(self, e, st, v, c):
        """Does value v decode from codeword c?"""
        x = v.f[0]
        x = e.it.expand(st, x) if isinstance(x, Sym) else x
        return st.same(x, C.get_value(e.it, st, self.n, c))


class Buf(Field):
    """Trits or a newtype around Trits."""

    def __init__(self, name, ty, n=None, sized=True, prefix=False, valid=False):
        Field.__init__(self, name, ty)
        self.n = n
        self.sized = sized
        self.size_prefix = prefix
        self.valid = valid

    def value(self, e, name):
        t = next(i for i, x in enumerate(e.it.types) if x['k'] == 'adt' and e.P.npath(x['path']) == _adt(self.ty) and e.it.types[i].get('s', self.ty) is not None and _plain(e, i))
        v = e.it.sym(e.st, t, (name,))
        if isinstance(v, Sym):
            v = e.it.expand(e.st, v)
        v = force(e, v)
        c, n = content_of(e.it, e.st, v)
        if self.n is not None:
            r = e.st.assume(f_eq(n - self.n), True)
        elif self.size_prefix:
            k = fresh(name + 'len', 0, SIZE_MAX)
            r = e.st.assume(f_eq(n - k * 3), True)
            self.k = k
        else:
            r = [e.st]
        assert r
        if self.ty == 'ntru::PublicKey':
            c, n = content_of(e.it, e.st, v)
            v = Agg(v.tag, v.var, (v.f[0], Opq(('polyof', c))))
        if self.valid:
            r = e.st.assume(('op', ('ntruvalid', c)), True)
        return v

    def fixed(self):
        return self.n

    def code(self, e, st, v):
        c, n = content_of(e.it, st, v)
        if self.size_prefix:
            return (size_piece(st.canon(self.k)),) + c
        return c

    def same(self, e, st, v, c):
        got, n = content_of(e.it, st, v)
        if self.size_prefix:
            # skip the size
            c = st.norm_content(c)
            return st.same_content(got, c[1:])
        return st.same_content(got, c)


def force(e, v):
    if isinstance(v, Sym):
        v = e.it.expand(e.st, v)
    if isinstance(v, Agg) and v.tag not in ('trits::trits::TritsT', 'poly::Poly') and v.f:
        v = Agg(v.tag, v.var, (force(e, v.f[0]),) + tuple(v.f[1:]))
    return v


def _adt(ty):
    return ty.split('<')[0]


def _plain(e, i):
    t = e.it.types[i]
    if _adt(e.P.npath(t['path'])) == 'trits::trits::TritsT':
        a = t.get('args') or []
        return bool(a) and e.it.types[a[0]]['k'] == 'int'
    return True


FIELDS = [lambda: Trint(3), lambda: Trint(6), lambda: Trint(9), lambda: Trint(18),
          lambda: Buf('NTrytes', 'trits::trits::TritsT<u8>', None, sized=False),
          lambda: Buf('Trytes', 'pb3::typ::trytes::Trytes', None, prefix=True),
          lambda: Buf('mss::PublicKey', 'mss::mss::PublicKey', 243),
          lambda: Buf('ntru::PublicKey', 'ntru::PublicKey', 9216, valid=True),
          lambda: Buf('MsgId', 'app::core::MsgId', 81)]


def src(name, o, n):
    return ((L(n), 'src', (name,), L(o)),)


def pair(g, mk, mask):
    """wrap then unwrap of one field type."""
    nm = 'mask' if mask else 'absorb'
    tr = MK if mask else AB
    f = mk()
    e = Env(g.P)
    it, st = e.it, e.st
    wb = find_impl(g.P, tr, f.ty, 'wrap_' + nm)
    v = f.value(e, 'val')
    st = e.st
    vo = ('S', ('valobj',))
    st.mem[vo] = v
    cw = f.code(e, st, v)
    n = clen(cw)
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    r = st.assume(f_ge(N - d0 - n), True)
    st = r[0]
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, True)
    label = '%s of %s' % (nm, f.name)
    W = wb.where()
    rs = it.exec_body(st, wb, [Ptr(vo), s, b])
    for p in it.panics:
        g.check(('C01', 'C03'), False, '%s: wrap panics in %s: %s' % (label, p.fn, p.what), 'wrap into a large enough buffer: %r' % p, p.where)
    g.check(('C01', 'C03'), rs, '%s: wrap returns' % label, 'never returns', W)
    for st1, _ in rs:
        d, _, ptr = slice_d(it, st1, b)
        n1 = clen(f.code(e, st1, v))
        g.check(('C03', 'C01'), st1.same(d, d0 + n1), '%s: wrap writes the codeword length' % label, 'advances by %r, codeword has %r trits' % (st1.canon(d - d0), st1.canon(n1)), W)
        t = Tr(st1, ('s0',))
        (t.mask if mask else t.absorb)(f.code(e, st1, v))
        reg = st1.mem[('S', ('buf', 'buf'))]
        got = it.read_region(st1, reg, d0, d - d0)
        g.check(('C02', 'C01'), st1.same_content(got, t.out), '%s: the codeword is the %s encoding' % (label, 'encrypted' if mask else 'plain'),
                'written %s; expected %s' % (show(got), show(t.out)), W)
        sp = it.read_path(st1, s).t
        g.check(('C02', 'C01'), st1.same(sp, t.s), '%s: exactly the codeword enters the sponge' % label, 'sponge %s; expected %s' % (show(sp), show(t.s)), W)
        pre = it.read_region(st1, reg, Lin(0), d0)
        post = it.read_region(st1, reg, d, N - d)
        g.check(('C03', 'C13'), st1.same_content(pre, src('buf', 0, d0)) and st1.same_content(post, src('buf', d, N - d)), '%s: nothing else is written' % label,
                'the buffer changes outside the codeword', W)
        for fn in ('unwrap_%s' % nm, 'unwrap_%s_sized' % nm):
            if fn.endswith('_sized') and not f.sized:
                continue
            rb = find_impl(g.P, tr, f.ty, fn)
            st2 = st1.copy()
            e.st = st2
            so = ('S', ('sponge', 'reader'))
            st2.mem[so] = Sp(('s0',))
            ro = ('S', ('rbuf', 'slice'))
            st2.mem[ro] = Agg('trits::slice::TritSliceT', None, [Agg('trits::slice::SliceRange', None, [N, d0]), ptr, UNIT])
            it.panics.clear()
            args = [Ptr(so), Ptr(ro)]
            dst = None
            if not fn.endswith('_sized'):
                f2 = mk()
                f2.valid = False
                e.st = st2
                dv = f2.value(e, 'dst')
                st2 = e.st
                if not f.fixed() and not f.size_prefix:
                    _, n2 = content_of(it, st2, dv)
                    _, nv = content_of(it, st2, v)
                    st2 = st2.assume(f_eq(n2 - nv), True)[0]
                dst = ('S', ('dstobj',))
                st2.mem[dst] = dv
                args = [Ptr(dst)] + args
            rs2 = it.exec_body(st2, rb, args)
            for p in it.panics:
                g.check(('C01',), False, '%s: %s panics in %s: %s' % (label, fn, p.fn, p.what), 'reader may panic: %r' % p, p.where)
            okc = 0
            for st3, rv in rs2:
                if not isinstance(rv, Agg) or rv.var != 0:
                    g.check(('C01',), False, '%s: %s accepts what wrap wrote' % (label, fn), 'may return %r' % (rv,), rb.where())
                    continue
                okc += 1
                out = st3.mem[dst] if dst else rv.f[0]
                g.check(('C01',), f.same(e, st3, out, f.code(e, st3, v)), '%s: %s returns the wrapped value' % (label, fn),
                        'returns %s for %s' % (show(out), show(v)), rb.where())
                d2, _, _ = slice_d(it, st3, Ptr(ro))
                g.check(('C01',), st3.same(d2, d), '%s: %s consumes the codeword' % (label, fn), 'ends at %r, writer at %r' % (d2, d), rb.where())
                g.check(('C01',), st3.same(st3.mem[so].t, sp), '%s: %s leaves the sponge as wrap did' % (label, fn),
                        'reader %s; writer %s' % (show(st3.mem[so].t), show(sp)), rb.where())
            g.check(('C01',), okc, '%s: %s succeeds' % (label, fn), 'no successful outcome', rb.where())
    g.use(it)


def hostile(g, mk, mask):
    nm = 'mask' if mask else 'absorb'
    tr = MK if mask else AB
    for fn in ('unwrap_%s' % nm, 'unwrap_%s_sized' % nm):
        f = mk()
        label = '%s of %s on arbitrary input' % (fn, f.name)
        e = Env(g.P)
        e.hostile = True
        it, st = e.it, e.st
        rb = find_impl(g.P, tr, f.ty, fn)
        N = fresh('N', 0, 1 << 62)
        d0 = fresh('d0', 0, 1 << 62)
        st.assume(f_ge(N - d0), True)
        e.budget = N - d0
        s = e.sponge('s0')
        b = e.buffer('buf', N, d0, False)
        args = [s, b]
        dst = None
        if not fn.endswith('_sized'):
            f.valid = False
            dv = f.value(e, 'dst')
            st = e.st
            dst = ('S', ('dstobj',))
            st.mem[dst] = dv
            old = content_of(it, st, dv) if isinstance(f, Buf) else None
            args = [Ptr(dst)] + args
        rs = it.exec_body(st, rb, args)
        panic_sites(g, ('C05',), it, label)
        for q, what, n in e.big_allocs:
            g.check(('C05',), False, '%s: allocation in %s not bounded by the input' % (label, q), '%s of %r elements' % (what, n), rb.where())
        okc = 0
        for st1, rv in rs:
            if isinstance(rv, Agg) and rv.var != 0:
                if dst is not None and f.ty == 'ntru::PublicKey':
                    nv = st1.mem[dst]
                    h = nv.f[1]
                    c, _ = content_of(it, st1, nv)
                    g.check(('C19',), isinstance(h, Opq) and st1.same(h.key, ('polyof', c)),
                            '%s: after an error the key trits still belong to the stored polynomial' % label,
                            'a failing %s leaves pk = %s with h = %r' % (fn, show(c), h), rb.where())
                continue
            okc += 1
            out = st1.mem[dst] if dst else rv.f[0]
            d, _, _ = slice_d(it, st1, b)
            t = Tr(st1, ('s0',), lambda o, k: src('buf', d0 + o, k))
            if f.size_prefix:
                sz = [ev[1] for ev in st1.events() if ev[0] == 'size']
                if not sz:
                    g.check(('C02',), False, '%s: the length is decoded first' % label, 'no length is decoded', rb.where())
                    continue
                (t.r_mask if mask else t.r_absorb)(size_len(sz[0]))
                k = sz[0] * 3
            elif f.fixed() is not None:
                k = L(f.fixed())
            else:
                k = old[1]
            c = (t.r_mask if mask else t.r_absorb)(k)
            if isinstance(f, Buf):
                good = st1.same_content(content_of(it, st1, out)[0], c)
            else:
                good = f.same(e, st1, out, c)
            g.check(('C02',), good, '%s: the value is decoded from the codeword' % label, 'value %s from %s' % (show(out), show(c)), rb.where())
            g.check(('C02',), st1.same(d, d0 + t.off), '%s: consumes the codeword' % label, 'ends at %r, expected %r' % (d, d0 + t.off), rb.where())
            sp = st1.mem[s.obj].t
            g.check(('C02',), st1.same(sp, t.s), '%s: the codeword enters the sponge' % label, 'sponge %s; expected %s' % (show(sp), show(t.s)), rb.where())
            if f.ty == 'ntru::PublicKey':
                cc, _ = content_of(it, st1, out)
                h = out.f[1]
                g.check(('C04', 'C19'), st1.decide(('op', ('ntruvalid', st1.norm_content(st1.canon_term(cc))))) is True,
                        '%s: Ok implies the key was validated' % label, 'accepts an unvalidated key', rb.where())
                g.check(('C19',), isinstance(h, Opq) and st1.same(h.key, ('polyof', cc)), '%s: the stored polynomial belongs to the key trits' % label,
                        'pk = %s with h = %r' % (show(cc), h), rb.where())
        if f.sized or dst is not None:
            g.check(('C01', 'C05'), okc, '%s: has a successful outcome' % label, 'always fails', rb.where())
        g.use(it)


def free(g, name, kind):
    """The exported functions that read a given number of trits, on arbitrary input."""
    path = 'pb3::typ::trytes::' + name
    e = Env(g.P)
    e.hostile = True
    it, st = e.it, e.st
    rb = e.body(path)
    g.fn(rb)
    N, d0, n, dx = [fresh(k, 0, 1 << 62) for k in ('N', 'd0', 'n', 'dx')]
    st.facts.add_ge(N - d0)
    e.budget = N - d0
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, False)
    if kind == 'n':
        args = [n, s, b]
    else:
        xo = ('S', ('xobj',))
        nx = fresh('nx', 0, 1 << 62)
        st.facts.add_ge(nx - dx - n)
        st.mem[xo] = Region(nx, ((nx, 'src', ('x',), Lin(0)),))
        args = [Agg('trits::slice::TritSliceMutT', None, [Agg('trits::slice::SliceRange', None, [dx + n, dx]), Ptr(xo, (('e', Lin(0)),)), UNIT]), s, b]
    rs = it.exec_body(st, rb, args)
    label = '%s on arbitrary input' % name
    panic_sites(g, ('C05',), it, label)
    g.check(('C05', 'C01'), any(isinstance(v, Agg) and v.var == 0 for _, v in rs), '%s: has a successful outcome' % label, '', rb.where())
    for st1, rv in rs:
        if not isinstance(rv, Agg) or rv.var != 0:
            g.check(('C01',), not [z for z in st1.copy().assume(f_ge(N - d0 - n), True) if z.facts.consistent()], '%s: accepts a long enough buffer' % label, repr(rv), rb.where())
            continue
        d, _, _ = slice_d(it, st1, b)
        t = Tr(st1, ('s0',), lambda o, k: src('buf', d0 + o, k))
        c = (t.r_mask if kind == 'mask' else t.r_absorb)(n)
        g.check(('C02',), st1.same(d, d0 + n), '%s: consumes the trits' % label, repr(d), rb.where())
        g.check(('C02',), st1.same(st1.mem[s.obj].t, t.s), '%s: the trits enter the sponge' % label, show(st1.mem[s.obj].t), rb.where())
        if kind != 'n':
            reg = st1.mem[xo]
            g.check(('C02', 'C13'), st1.same_content(it.read_region(st1, reg, dx, n), c), '%s: the trits are returned' % label, repr(reg)[:200], rb.where())
            g.check(('C13',), st1.same_content(it.read_region(st1, reg, Lin(0), dx), src('x', 0, dx)) and st1.same_content(it.read_region(st1, reg, dx + n, nx - dx - n), src('x', dx + n, nx - dx - n)),
                    '%s: nothing else is written' % label, repr(reg)[:200], rb.where())
    g.use(it)


def sizefns(g):
    """The exported size functions."""
    def one(path, args, exp):
        e = Env(g.P)
        n = fresh('n', 0, (1 << 40) - 1)
        b = e.body(path)
        g.fn(b)
        rs = e.it.exec_body(e.st, b, [n] if args else [])
        panic_sites(g, ('C03',), e.it, path)
        g.check(('C03',), rs, path + ': returns', '', b.where())
        for s, v in rs:
            g.check(('C03',), s.same(v, exp(n)), path + ': the number of trits written', 'returns %r' % (v,), b.where())
        g.use(e.it)
    T = 'pb3::typ::'
    for nm, k in (('tryte', 3), ('trint', 6), ('trint9', 9)):
        p = T + 'trint::sizeof_' + nm
        g.guard(lambda p=p, k=k: one(p, False, lambda n: Lin(k)), p, ('C03',), ())
    for nm, f in (('trytes::sizeof_ntrytes', lambda n: n * 3), ('trytes::sizeof_trytes', lambda n: size_len(n) + n * 3), ('trytes::Trytes::sizeof', lambda n: size_len(n) + n * 3)):
        g.guard(lambda nm=nm, f=f: one(T + nm, True, f), nm, ('C03',), ())


def decode(g):
    """Decoding into an existing value: the value and the position, or an error and the old value."""
    for k in (3, 6, 9, 18):
        ty = 'pb3::typ::trint::Trint%d' % k

        def one(ty=ty, k=k):
            pids = ('C01', 'C05')
            b = find_impl(g.P, 'pb3::typ::trint::TrintField', ty, 'decode')
            e = Env(g.P)
            e.hostile = True
            it, st = e.it, e.st
            g.fn(b)
            N, d0 = fresh('N', 0, 1 << 62), fresh('d0', 0, 1 << 62)
            st.facts.add_ge(N - d0)
            buf = e.buffer('buf', N, d0, False)
            old = fresh('old', -C.P3[k], C.P3[k])
            o = ('S', ('self',))
            st.mem[o] = Agg(ty, None, [old])
            rs = it.exec_body(st, b, [Ptr(o), buf])
            panic_sites(g, ('C05',), it, ty + '::decode')
            for s, v in rs:
                new = s.mem[o].f[0]
                d, _, _ = slice_d(it, s, buf)
                if v.var == 0:
                    g.check(pids, s.same(new, C.get_value(it, s, k, src('buf', d0, k))) and s.same(d, d0 + k), ty + '::decode: the value at the position', repr(new), b.where())
                else:
                    g.check(pids, not [z for z in s.copy().assume(f_ge(N - d0 - k), True) if z.facts.consistent()], ty + '::decode: accepts a long enough buffer', repr(v), b.where())
            g.use(it)
        g.guard(one, ty + '::decode', ('C01', 'C05'), ())


PF = ('C01', 'C02', 'C03', 'C04', 'C05', 'C13', 'C19')


def run(g):
    if g.wants('C03'):
        sizefns(g)
    if g.wants('C01', 'C05'):
        decode(g)
    for name, kind in (('unwrap_absorb_n', 'n'), ('unwrap_absorb_trits', 'absorb'), ('unwrap_mask_trits', 'mask')):
        if g.wants('C01', 'C02', 'C05', 'C13'):
            g.guard(free, name, ('C01', 'C02', 'C05', 'C13'), (g, name, kind))
    for mk in FIELDS:
        for mask in (False, True):
            f = mk()
            if f.ty == 'app::core::MsgId' and mask:
                continue
            nm = '%s of %s' % ('mask' if mask else 'absorb', f.name)
            if g.wants('C01', 'C02', 'C03', 'C13'):
                g.guard(pair, nm, ('C01', 'C02', 'C03', 'C13'), (g, mk, mask))
            if g.wants('C02', 'C04', 'C05', 'C19'):
                g.guard(hostile, nm, ('C02', 'C04', 'C05', 'C19'), (g, mk, mask))
