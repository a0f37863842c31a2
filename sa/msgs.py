"""Contracts of the PB3 leaf codecs and of the MSS / NTRU / PRNG operations, as used by the message layer."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from .models import eq_content, some, ok, err, NONE, deref

SIZE_MAX = 2026277576509488133
WOTS_SIG = 81 * 162
ERR = 'pb3::err::Err'


def e_eof():
    return Opq(('err', 'Eof'))


def st_of(n):
    """Number of trytes of the size_t representation of n (0..13), as defined by the codec contract."""
    if n.is_const():
        d, m = 0, 1
        while n.c > (m - 1) // 2:
            m *= 27
            d += 1
        return Lin(d)
    return atom('st', (n,), 0, 13)


I.ATOM_EVAL['st'] = lambda n: st_of(n)


def size_len(n):
    return (st_of(n) + 1) * 3


def size_piece(n):
    return (size_len(n), 'sizet', n, Lin(0))


def err_value(it, name):
    t = next(i for i in it.p.ty_by_path['pb3::err::Err'])
    vs = it.types[t]['variants']
    for i, v in enumerate(vs):
        if v['n'] == name:
            return Agg('pb3::err::Err', i, ())
    raise I.Unsupported('error variant ' + name)


def mslice(it, st, p):
    """(pointer to slice value, slice value)"""
    v = it.read_path(st, p)
    return v


def advance(it, st, p, n):
    v = it.read_path(st, p)
    r = v.f[0]
    if isinstance(r, Sym):
        r = it.expand(st, r)
    it.write_path(st, p, Agg(v.tag, v.var, (Agg(r.tag, r.var, (r.f[0], r.f[1] + n)),) + v.f[1:]))


def size_hooks():
    H = {}

    def sizeof_sizet(it, st, a, c, t):
        n = st.canon(a[0])
        return [(s, size_len(n)) for s in it.require(st, f_ge(Lin(SIZE_MAX) - n), 'panic', 'size_t value too large')]

    def wrap(mask):
        def h(it, st, a, c, t):
            slf = it.read_path(st, a[0])
            n = st.canon(slf.f[0])
            out = []
            for s in it.require(st, f_ge(Lin(SIZE_MAX) - n), 'panic', 'size_t value too large'):
                sv = it.read_path(s, a[2])
                b, o, rest = it.sl(s, sv)
                k = size_len(n)
                for x in it.require(s, f_ge(rest - k), 'panic', 'size_t does not fit into the buffer'):
                    sp = it.read_path(x, a[1]).t
                    pc = (size_piece(n),)
                    if mask:
                        s2, ct = C.encrypt(x, sp, pc)
                    else:
                        s2, ct = sp_abs(sp, pc), pc
                    it.put_content(x, b, o, ct)
                    it.write_path(x, a[1], Sp(s2))
                    advance(it, x, a[2], k)
                    out.append((x, UNIT))
            return out
        return h

    def unwrap(mask):
        def h(it, st, a, c, t):
            sv = it.read_path(st, a[1])
            b, o, rest = it.sl(st, sv)
            sp = it.read_path(st, a[0]).t
            cont = it.get_content(st, b, o, rest)
            cont = st.norm_content(cont)
            plain = cont
            if mask and cont and cont[0][1] == 'enc':
                _, plain = C.decrypt(st, sp, cont[:1])
            if plain and plain[0][1] == 'sizet' and st.same(plain[0][3], Lin(0)):
                n = plain[0][2]
                if st.ge(plain[0][0] - size_len(n)):
                    k = size_len(n)
                    if mask:
                        s2, _ = C.decrypt(st, sp, it.get_content(st, b, o, k))
                    else:
                        s2 = sp_abs(sp, (size_piece(n),))
                    it.write_path(st, a[0], Sp(s2))
                    advance(it, st, a[1], k)
                    st.event('size', n)
                    return ok(Agg('pb3::typ::size::Size', None, (n,)))
            # arbitrary input
            key = ('hsize', mask, sp, b, o)
            out = []
            bad = st.copy()
            bad.na += 1
            k = atom('hk', (key, 'bad'), 0, 42)
            for x in bad.assume(f_ge(rest - k), True):
                it.write_path(x, a[0], Sp(('havoc', key)))
                advance(it, x, a[1], k)
                x.na += 1
                out.append((x, err(Opq(('err', 'size', key)))))
            n = atom('hsz', (key,), 0, SIZE_MAX)
            k = size_len(n)
            for x in st.assume(f_ge(rest - k), True):
                cc = it.get_content(x, b, o, k)
                if mask:
                    s2, _ = C.decrypt(x, sp, cc)
                else:
                    s2 = sp_abs(sp, cc)
                it.write_path(x, a[0], Sp(s2))
                advance(it, x, a[1], k)
                x.event('size', n)
                out.append((x, ok(Agg('pb3::typ::size::Size', None, (n,)))))
            return out
        return h
    Z = 'pb3::typ::size::'
    H[Z + 'sizeof_sizet'] = sizeof_sizet
    for nm, m in (('absorb', False), ('mask', True)):
        tr = 'pb3::cmd::%s::%s' % (nm, nm.capitalize())
        H['<pb3::typ::size::Size as %s>::wrap_%s' % (tr, nm)] = wrap(m)
        H['<pb3::typ::size::Size as %s>::unwrap_%s_sized' % (tr, nm)] = unwrap(m)
    return H


def obj_key(p):
    """Identity of the object behind a reference."""
    if isinstance(p, Ptr):
        return (p.obj, p.path)
    return ('val', p)


def mss_hooks():
    H = {}
    M = 'mss::mss::'

    def height(it, st, a, c, t):
        return atom('height', (obj_key(a[0]),), 0, 20)

    def public_key(it, st, a, c, t):
        k = obj_key(a[0])
        o = ('S', ('msspk', k))
        if o not in st.mem:
            tr = it.mk_trits(st, 243, ((Lin(243), 'msspk', k, Lin(0)),), ('S', ('msspkbuf', k)))
            st.mem[o] = Agg('mss::mss::PublicKey', None, (tr,))
        return Ptr(o)

    def sign(it, st, a, c, t):
        k = obj_key(a[0])
        b, o, n = it.sl(st, a[1])
        h = it.get_content(st, b, o, n)
        sb, so, sn = it.sl(st, a[2])
        want = Lin(18 + WOTS_SIG) + atom('height', (k,), 0, 20) * 243
        out = []
        for x in it.require(st, f_and(f_eq(n - 234), f_eq(sn - want)), 'panic', 'sign: wrong hash or signature size'):
            it.put_content(x, sb, so, ((want, 'sig', (k, x.norm_content(h)), Lin(0)),))
            out.append((x, UNIT))
        return out

    def recover(it, st, a, c, t):
        pb, po, pn = it.sl(st, a[0])
        hb, ho, hn = it.sl(st, a[1])
        sb, so, sn = it.sl(st, a[2])
        out = []
        for x in it.require(st, f_and(f_eq(pn - 243), f_eq(hn - 234)), 'panic', 'recover: wrong key or hash size'):
            h = x.norm_content(it.get_content(x, hb, ho, hn))
            sc = x.norm_content(it.get_content(x, sb, so, sn))
            if sc and sc[0][1] == 'sig' and x.same(sc[0][3], Lin(0)) and x.same_content(sc[0][2][1], h):
                k = sc[0][2][0]
                want = Lin(18 + WOTS_SIG) + atom('height', (k,), 0, 20) * 243
                if x.ge(sc[0][0] - want):
                    it.put_content(x, pb, po, ((Lin(243), 'msspk', k, Lin(0)),))
                    x.event('recover', h, sc, want)
                    out.append((x, some(want)))
                    continue
            key = ('recov', h, sc)
            y = x.copy()
            y.dec = dict(y.dec)
            out.append((y, NONE))
            d = atom('hd', (key,), 0, 40)
            n = Lin(18 + WOTS_SIG) + d * 243
            for z in x.assume(f_ge(sn - n), True):
                it.put_content(z, pb, po, ((Lin(243), 'recov', (h, z.norm_content(it.get_content(z, sb, so, n))), Lin(0)),))
                z.event('recover', h, sc, n)
                out.append((z, some(n)))
        return out
    H[M + 'PrivateKeyT::height'] = height
    H[M + 'PrivateKeyT::public_key'] = public_key
    H[M + 'PrivateKeyT::sign'] = sign
    H[M + 'recover'] = recover
    return H


def prng_hooks():
    H = {}

    def contents(it, st, p):
        v = it.read_path(st, p) if not (isinstance(p, Ptr) and isinstance(p.meta, Lin)) else None
        out = []
        n = st.canon(p.meta)
        for i in range(n.c):
            e = it.read_path(st, p.add(i))
            b, o, k = it.sl(st, e)
            out.extend(it.get_content(st, b, o, k))
        return tuple(out)

    def gen(multi):
        def h(it, st, a, c, t):
            if multi:
                nc = contents(it, st, a[1])
            else:
                b, o, n = it.sl(st, a[1])
                nc = it.get_content(st, b, o, n)
            b, o, n = it.sl(st, a[2])
            it.put_content(st, b, o, ((n, 'prng', (obj_key(a[0]), st.norm_content(nc)), Lin(0)),))
            return UNIT
        return h
    H['prng::PRNG::gen'] = gen(False)
    H['prng::PRNG::gens'] = gen(True)
    return H


def ntru_hooks():
    H = {}
    N = 'ntru::'

    def kem_state(s0, data, key):
        s = sp_com(sp_abs(s0, ((Lin(9216), 'rh', data, Lin(0)),)))
        return s

    def encr(it, st, a, c, t):
        # &self, s, prng, nonce, k, y
        pk = it.read_path(st, a[0])
        pkc = it.get_content(st, (pk.f[0].f[1].obj, ()), Lin(0), Lin(9216))
        sp = it.read_path(st, a[1]).t
        nb, no, nn = it.sl(st, a[3])
        nonce = st.norm_content(it.get_content(st, nb, no, nn))
        kb, ko, kn = it.sl(st, a[4])
        yb, yo, yn = it.sl(st, a[5])
        out = []
        for x in it.require(st, f_and(f_eq(kn - 243), f_eq(yn - 9216)), 'panic', 'NTRU encapsulation: wrong key or output size'):
            k = x.norm_content(it.get_content(x, kb, ko, kn))
            data = (x.norm_content(pkc), sp, k, nonce, obj_key(a[2]))
            it.put_content(x, yb, yo, ((Lin(9216), 'kem', data, Lin(0)),))
            s1 = kem_state(sp, data, k)
            s2, _ = C.encrypt(x, s1, k)
            it.write_path(x, a[1], Sp(sp_sqs(s2, 781)))
            out.append((x, UNIT))
        return out

    def decr(it, st, a, c, t):
        # &self, s, y, k
        me = obj_key(a[0])
        sp = it.read_path(st, a[1]).t
        yb, yo, yn = it.sl(st, a[2])
        kb, ko, kn = it.sl(st, a[3])
        out = []
        for x in it.require(st, f_and(f_eq(kn - 243), f_eq(yn - 9216)), 'panic', 'NTRU decapsulation: wrong key or input size'):
            y = x.norm_content(it.get_content(x, yb, yo, yn))
            if len(y) == 1 and y[0][1] == 'kem':
                data = y[0][2]
                own = ((Lin(9216), 'ntrupk', me, Lin(0)),)
                if x.same_content(data[0], own) and x.same(data[1], sp):
                    s1 = kem_state(sp, data, data[2])
                    s2, _ = C.encrypt(x, s1, data[2])
                    it.put_content(x, kb, ko, data[2])
                    it.write_path(x, a[1], Sp(sp_sqs(s2, 781)))
                    x.event('kem', sp, y)
                    out.append((x, True))
                    continue
            key = ('kemdec', me, sp, y)
            for v in (True, False):
                z = x.copy()
                it.put_content(z, kb, ko, ((Lin(243), 'kemkey', key, Lin(0)),))
                it.write_path(z, a[1], Sp(('kemst', key)))
                for w in z.assume(('op', key), v):
                    if v:
                        w.event('kem', sp, y)
                    out.append((w, v))
        return out

    def mkpk(pk, c):
        return Agg('ntru::PublicKey', None, (pk, Opq(('polyof', c))))

    def valid(x, c):
        return ('op', ('ntruvalid', x.norm_content(x.canon_term(c))))

    def from_trits(it, st, a, c, t):
        tr = a[0]
        if not st.must(f_eq(tr.f[0] - 9216)):
            return NONE
        cc = it.get_content(st, (tr.f[1].obj, ()), Lin(0), Lin(9216))
        st.event('validate', st.norm_content(cc))
        if st.must(valid(st, cc)):
            return some(mkpk(tr, st.norm_content(st.canon_term(cc))))
        return NONE

    def from_slice(it, st, a, c, t):
        b, o, n = it.sl(st, a[0])
        if not st.must(f_eq(n - 9216)):
            return NONE
        cc = it.get_content(st, b, o, n)
        if st.must(valid(st, cc)):
            return some(mkpk(it.mk_trits(st, 9216, cc), st.norm_content(st.canon_term(cc))))
        return NONE

    def validate(it, st, a, c, t):
        pk = it.read_path(st, a[0])
        n = pk.f[0].f[0]
        n = it.expand(st, n) if isinstance(n, Sym) else n
        if not st.must(f_eq(n - 9216)):
            it.panic(st, 'panic', 'public key of the wrong size')
            return []
        cc = it.get_content(st, (pk.f[0].f[1].obj, ()), Lin(0), Lin(9216))
        out = []
        for z in st.copy().assume(valid(st, cc), False):
            out.append((z, False))
        for z in st.assume(valid(st, cc), True):
            it.write_path(z, a[0], Agg(pk.tag, pk.var, (pk.f[0], Opq(('polyof', z.norm_content(z.canon_term(cc)))))))
            out.append((z, True))
        return out
    H[N + 'PublicKey::encr_with_s'] = encr
    H[N + 'PrivateKey::decr_with_s'] = decr
    H[N + 'PublicKey::from_trits'] = from_trits
    H[N + 'PublicKey::from_slice'] = from_slice
    H[N + 'PublicKey::validate'] = validate
    return H


def iter_hooks():
    """dyn iterators given as modelled iterator values."""
    H = {}
    from .models import iter_next

    def inner(it, st, p):
        v = it.read_path(st, p)
        while isinstance(v, Ptr) and not (isinstance(it.read_path(st, v), Agg) and it.read_path(st, v).tag in ('siter', 'viter')):
            v = it.read_path(st, v)
        return v

    def nxt(it, st, a, c, t):
        p = a[0]
        v = it.read_path(st, p)
        while isinstance(v, Ptr):
            p = v
            v = it.read_path(st, p)
        return iter_next(it, st, Ptr(p.obj, p.path))

    def ln(it, st, a, c, t):
        v = it.read_path(st, a[0])
        while isinstance(v, Ptr):
            v = it.read_path(st, v)
        return v.f[2] - v.f[1]
    H['<&mut I as std::iter::Iterator>::next'] = nxt
    H['<&mut I as std::iter::ExactSizeIterator>::len'] = ln
    H['std::iter::ExactSizeIterator::len'] = ln
    H['std::iter::Iterator::next'] = nxt
    return H


def message_hooks():
    H = {}
    for f in (C.tw_hooks, C.sponge_hooks, size_hooks, mss_hooks, prng_hooks, ntru_hooks, iter_hooks):
        H.update(f())
    return H
