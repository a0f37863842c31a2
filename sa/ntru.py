"""NTRU keys and key encapsulation over uninterpreted polynomial operations and sponge terms. The polynomial operations
themselves are analysed in the poly group."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops, shape
from .models import some, NONE, deref, eq_content
from .group import Missing, panic_sites
from .sponge import opaque, sym_sponge
from .wots import key_obj
from .word import body

PO = 'poly::Poly'
PK = 'ntru::PublicKey'
SK = 'ntru::PrivateKey'
N = 1024
PKN = 9216
P19, P20 = ('C19',), ('C20',)


# ------------------------------------------------------------------ polynomial terms
def conv(a, b):
    return ('conv',) + tuple(sorted((a, b), key=repr))


def ntt(x):
    return x[1] if x[0] == 'intt' else ('ntt', x)


def intt(x):
    return x[1] if x[0] == 'ntt' else ('intt', x)


def fromt(s, c):
    """Polynomial decoded from trits, and the condition under which they decode."""
    c = s.norm_content(s.canon_term(c))
    if len(c) == 1 and c[0][1] == 'polyt' and s.facts.ent_eq(c[0][3]) and s.facts.ent_eq(c[0][0] - PKN):
        return c[0][2], True
    return ('fromt', c), ('op', ('decodes', c))


def polyt(x):
    return ((Lin(PKN), 'polyt', x, Lin(0)),)


def small(s, c):
    return ('small', s.norm_content(s.canon_term(c)))


def sk_poly(s, c):
    """NTT(1 + 3f) of the secret trits."""
    return ntt(('add1', ('mul3', small(s, c))))


def key_of(it, st, p):
    v = it.read_path(st, p)
    if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Opq):
        return v.f[0].key
    raise I.Unsupported('polynomial %r' % (v,))


def pval(k):
    return Agg(PO, None, [Opq(k)])


def poly_hooks(it):
    H = it.hooks

    def content(st, v, n, what):
        b, o, m = it.sl(st, v)
        out = []
        for s in it.require(st, f_eq(m - n), 'panic', what):
            out.append((s, s.norm_content(s.canon_term(it.get_content(s, b, o, L(n)))), b, o))
        return out

    def unary(f):
        def h(it, st, a, c, t):
            it.write_path(st, a[0], pval(f(key_of(it, st, a[0]))))
            return UNIT
        return h

    def binary(f):
        def h(it, st, a, c, t):
            it.write_path(st, a[0], pval(f(key_of(it, st, a[0]), key_of(it, st, a[1]))))
            return UNIT
        return h

    def with_small(name):
        def h(it, st, a, c, t):
            out = []
            for s, cc, b, o in content(st, a[1], N, name + ' of a wrong size'):
                k = ('small', cc) if name == 'small' else (name, key_of(it, s, a[0]), cc)
                it.write_path(s, a[0], pval(k))
                out.append((s, UNIT))
            return out
        return h

    def enc(name, n):
        def h(it, st, a, c, t):
            out = []
            for s, cc, b, o in content(st, a[1], n, name + ' of a wrong size'):
                it.put_content(s, b, o, ((Lin(n), name, key_of(it, s, a[0]), Lin(0)),))
                out.append((s, UNIT))
            return out
        return h

    def from_trits(it, st, a, c, t):
        out = []
        for s, cc, b, o in content(st, a[1], PKN, 'decoding of a wrong size'):
            k, f = fromt(s, cc)
            s0 = s.copy()
            for z in s.assume(f, True):
                it.write_path(z, a[0], pval(k))
                out.append((z, True))
            for z in s0.assume(f, False):
                it.write_path(z, a[0], pval(('partial', cc)))
                out.append((z, False))
        return out

    def inv(it, st, a, c, t):
        k = key_of(it, st, a[0])
        out = []
        for s in it.require(st, ('op', ('hasinv', k)), 'panic', 'inverse of a polynomial not known to be invertible'):
            it.write_path(s, a[0], pval(('inv', k)))
            out.append((s, UNIT))
        return out
    P = PO + '::'
    H[P + 'new'] = lambda it, st, a, c, t: pval(('zero',))
    H['<%s as std::clone::Clone>::clone' % PO] = lambda it, st, a, c, t: it.read_path(st, a[0])
    H[P + 'small_mul3'] = unary(lambda k: ('mul3', k))
    H[P + 'small3_add1'] = unary(lambda k: ('add1', k))
    H[P + 'round_small'] = unary(lambda k: ('rounds', k))
    H[P + 'ntt'] = unary(ntt)
    H[P + 'intt'] = unary(intt)
    H[P + 'conv'] = binary(conv)
    H[P + 'add'] = binary(lambda a, b: ('add', a, b))
    H[P + 'sub'] = binary(lambda a, b: ('sub', a, b))
    H[P + 'small_from_trits'] = with_small('small')
    H[P + 'add_small'] = with_small('adds')
    H[P + 'sub_small'] = with_small('subs')
    H[P + 'to_trits'] = enc('polyt', PKN)
    H[P + 'round_to_trits'] = enc('round', N)
    H[P + 'from_trits'] = from_trits
    H[P + 'inv'] = inv
    H[P + 'has_inv'] = lambda it, st, a, c, t: ('op', ('hasinv', key_of(it, st, a[0])))


def world(g):
    w = opaque(g)
    w.it.on_index = None
    w.it.on_branch = None
    poly_hooks(w.it)
    return w


def trits(w, name, n):
    return w.it.mk_trits(w.st, n, ((L(n), 'src', (name,), Lin(0)),), ('S', (name,)))


def src(name, n, off=0):
    return ((L(n), 'src', (name,), L(off)),)


def cont(w, s, t, n=None):
    return s.norm_content(s.canon_term(w.it.get_content(s, (t.f[1].obj, ()), Lin(0), t.f[0] if n is None else L(n))))


def sized(w, name, n, mut=False):
    x = w.slice(name, mut)
    w.st.facts.add_eq(x.size - n)
    return x


def xc(s, x, n):
    return s.norm_content(x.src(Lin(0), L(n)))


def rd(w, s, x, off, n):
    return s.norm_content(s.canon_term(w.it.read_region(s, s.mem[x.obj], x.d + off, L(n))))


# ------------------------------------------------------------------ keys
def generated(w):
    """Outcomes of ntru::gen."""
    it = w.it
    it.loop_hook = loops.summarise
    it.summ_rkind = 'src'
    it.summ_filter = lambda b, bb: b.npath.startswith('ntru::')

    def inc(it, st, a, c, t):
        b, o, n = it.sl(st, it.read_path(st, a[0]) if isinstance(a[0], Ptr) else a[0])
        cc = st.norm_content(it.get_content(st, b, o, n))
        it.put_content(st, b, o, ((n, 'incd', cc, Lin(0)),))
        st.event('incd', ('op', ('incd', cc)))
        return ('op', ('incd', cc))
    it.hooks['trits::slice::TritSliceMutT::inc'] = inc
    prng = key_obj(w)
    nn = w.slice('nonce')
    return nn, w.call('ntru::gen', [prng, nn.v])


def more(g, path):
    return shape.extra(g.P, path, shape.fields(g.P, path))


def answers(g, w, s, pk, c, lab):
    """A public key with further fields, made by a constructor, answers from the key trits c."""
    o = ('S', ('made',))
    for name, n in (('trits', PKN), ('id', 81)):
        z = s.copy()
        z.mem[o] = pk
        outs = w.it.exec_body(z, body(g, PK + '::' + name), [Ptr(o)])
        g.check(P19, outs, '%s: %s returns' % (lab, name), '', '')
        for z, v in outs:
            b, off, m = w.it.sl(z, v)
            ok = z.facts.ent_eq(m - n) and z.same_content(z.norm_content(z.canon_term(w.it.get_content(z, b, off, m))), slice_content_exact(c, Lin(0), Lin(n), z.facts.ent_ge))
            g.check(P19 + ('C25',), ok, '%s: %s: the first %d trits of the key' % (lab, name, n), repr((b, off, m)), '')


def gen(g):
    w = world(g)
    it = w.it
    nn, outs = generated(w)
    lab = 'gen'
    where = w.b.where()
    pids = P19 + P20
    # the only permitted panic: 3^81 nonces exhausted
    bad = [p for p in it.panics if not any(e[0] == 'incd' and p.state.decide(e[1]) is False for e in p.state.events())]
    for p in bad:
        g.check(pids, False, '%s: %s in %s: %s' % (lab, p.kind, p.fn, p.what), repr(p), p.where)
    g.check(pids, outs, '%s: returns' % lab, '', where)
    for s, v in outs:
        sk, pk = v.f
        st, f = shape.get(g.P, sk, SK, 'sk'), shape.get(g.P, sk, SK, 'f')
        pt, h = shape.get(g.P, pk, PK, 'pk'), shape.get(g.P, pk, PK, 'h')
        c = cont(w, s, st)
        g.check(pids, s.facts.ent_eq(st.f[0] - N) and s.facts.ent_eq(pt.f[0] - PKN), '%s: sizes of the keys' % lab, '%r %r' % (s.canon(st.f[0]), s.canon(pt.f[0])), where)
        # secret and g come from one generator output
        ok = len(c) == 1 and c[0][1] == 'sq' and s.facts.ent_eq(c[0][3]) and s.facts.ent_eq(c[0][0] - N)
        g.check(P20 + ('C21',), ok, '%s: the secret polynomial is generator output' % lab, repr(c)[:300], where)
        if not ok:
            continue
        base = c[0][2]
        gc = ((Lin(N), 'sq', base, Lin(N)),)
        # committed sponge over key, nonce and the 81-trit counter
        t = base
        ok = isinstance(t, tuple) and t[0] == 'com' and t[1][0] == 'abs' and t[1][1] == INIT
        seen = s.norm_content(t[1][2]) if ok else ()
        pre = s.norm_content(src('key', 243) + nn.src(Lin(0), nn.size))
        want = s.norm_content(pre + ((Lin(81), 'any', None, Lin(0)),))
        ok = ok and s.facts.ent_eq(clen(seen) - clen(want)) and s.same_content(slice_content_exact(seen, Lin(0), clen(pre), s.facts.ent_ge), pre)
        g.check(('C21', 'C09'), ok, '%s: generated from the key, the nonce and an 81-trit counter' % lab, repr(t)[:300], where)
        F = sk_poly(s, c)
        G = ntt(('mul3', small(s, gc)))
        H = conv(('inv', F), G)
        kf, kh = f.f[0].key, h.f[0].key
        g.check(P20, s.same(kf, F), '%s: the private polynomial is NTT(1+3f) of the secret trits' % lab, repr(kf)[:300], where)
        g.check(pids, s.same(kh, H), '%s: the public polynomial is NTT(3g)/NTT(1+3f)' % lab, repr(kh)[:300], where)
        pc = cont(w, s, pt)
        g.check(pids, s.same_content(pc, polyt(intt(kh))), '%s: the public trits encode the public polynomial' % lab, repr(pc)[:300], where)
        if more(g, PK):
            answers(g, w, s, pk, pc, lab)
        g.check(P19, s.decide(('op', ('hasinv', F))) is True and s.decide(('op', ('hasinv', G))) is True, '%s: both polynomials were checked for invertibility' % lab, '', where)


def decode(g):
    for path, owned in ((PK + '::from_trits', True), (PK + '::from_slice', False)):
        def one(path=path, owned=owned):
            w = world(g)
            if owned:
                n = fresh('n', 0, 1 << 40)
                arg = trits(w, 'x', n)
                full = src('x', PKN)
            else:
                x = w.slice('x')
                n = x.size
                arg = x.v
                full = None
            outs = w.call(path, [arg])
            lab = path.split('::')[-1]
            where = w.b.where()
            panic_sites(g, P19 + ('C05',), w.it, lab)
            g.check(P19, outs, '%s: returns' % lab, '', where)
            got = False
            for s, v in outs:
                c = full or x.src(Lin(0), Lin(PKN))
                k, dec = fromt(s, c)
                h = ntt(k)
                good = f_and(f_and(f_eq(n - PKN), dec), ('op', ('hasinv', h)))
                if v.var == 0:
                    bad = [z for z in s.copy().assume(good, True) if z.facts.consistent() and z.decide(good) is not False]
                    g.check(P19, not bad, '%s: every valid key is accepted' % lab, '', where)
                    continue
                got = True
                pk = v.f[0]
                pt, hp = shape.get(g.P, pk, PK, 'pk'), shape.get(g.P, pk, PK, 'h')
                g.check(P19, s.facts.ent_eq(n - PKN), '%s: checks the size' % lab, repr(s.facts.bounds(n)), where)
                g.check(P19 + ('C05', 'C04'), s.decide(dec) is True, '%s: refuses trits that do not decode to a polynomial' % lab, '', where)
                g.check(P19 + ('C04',), s.decide(('op', ('hasinv', h))) is True, '%s: refuses a polynomial that is not invertible' % lab, '', where)
                g.check(P19, s.facts.ent_eq(pt.f[0] - PKN) and s.same_content(cont(w, s, pt), c), '%s: keeps all key trits' % lab, repr(cont(w, s, pt))[:200], where)
                g.check(P19, isinstance(hp, Agg) and s.same(hp.f[0].key, h), '%s: stores the transform of these trits' % lab, repr(hp)[:200], where)
                if more(g, PK):
                    answers(g, w, s, pk, c, lab)
            g.check(P19, got, '%s: can succeed' % lab, '', where)
        g.guard(one, path, P19, ())


def pk_obj(w, g, name='pk'):
    """An arbitrary public key; with further fields, one made by its constructor."""
    o = ('S', (name + 'ref',))
    if not more(g, PK):
        w.H = ('H',) if name == 'pk' else ('H2',)
        w.st.mem[o] = shape.make(g.P, PK, pk=trits(w, name, PKN), h=pval(w.H))
        return Ptr(o)
    x = trits(w, name, PKN)
    n = len(w.it.panics)
    outs = [(s, v.f[0]) for s, v in w.it.exec_body(w.st.copy(), body(g, PK + '::from_trits'), [x]) if v.var == 1]
    del w.it.panics[n:]
    if len(outs) != 1:
        raise Missing('one successful outcome of from_trits')
    w.st.become(outs[0][0])
    w.H = shape.get(g.P, outs[0][1], PK, 'h').f[0].key
    w.st.mem[o] = outs[0][1]
    return Ptr(o)


def accessors(g):
    def run1(path, chk, pids, extra=()):
        w = world(g)
        p = pk_obj(w, g)
        e = w.st.mem[p.obj]
        outs = w.call(path, [p] + list(extra))
        panic_sites(g, pids, w.it, path)
        g.check(pids, outs, '%s: returns' % path, '', w.b.where())
        for s, v in outs:
            chk(w, s, v, p, path)
            g.check(P19, s.mem[p.obj] == e and s.mem[('S', ('pk',))] == w.st.mem[('S', ('pk',))] or more(g, PK), '%s: the key is unchanged' % path, '', w.b.where())

    def prefix(n):
        def chk(w, s, v, p, path):
            b, o, m = w.it.sl(s, v)
            if more(g, PK):
                ok = s.facts.ent_eq(m - n) and s.same_content(s.norm_content(s.canon_term(w.it.get_content(s, b, o, m))), src('pk', n))
            else:
                ok = b == (('S', ('pk',)), ()) and s.facts.ent_eq(o) and s.facts.ent_eq(m - n)
            g.check(P19 + ('C25',), ok, '%s: the first %d trits of the key' % (path, n), repr((b, o, m)), w.b.where())
        return chk
    g.guard(lambda: run1(PK + '::trits', prefix(PKN), P19), PK + '::trits', P19, ())
    g.guard(lambda: run1(PK + '::id', prefix(81), P19), PK + '::id', P19, ())

    def clone():
        w = world(g)
        p = pk_obj(w, g)
        outs = w.call('<%s as std::clone::Clone>::clone' % PK, [p])
        for s, v in outs:
            pt, h = shape.get(g.P, v, PK, 'pk'), shape.get(g.P, v, PK, 'h')
            ok = s.facts.ent_eq(pt.f[0] - PKN) and s.same_content(cont(w, s, pt), src('pk', PKN)) and h == pval(w.H) and pt.f[1].obj != ('S', ('pk',))
            g.check(P19, ok, 'clone: key trits and polynomial together', repr(v)[:200], w.b.where())
    g.guard(clone, 'clone of a public key', P19, ())

    def eq():
        w = world(g)
        p = pk_obj(w, g)
        q = pk_obj(w, g, 'pk2')
        outs = w.call('<%s as std::cmp::PartialEq>::eq' % PK, [p, q])
        g.check(('C25',), outs, 'NTRU public keys: equality returns', '', w.b.where())
        for s, v in outs:
            want = eq_content(w.it, s, src('pk', PKN), src('pk2', PKN))
            g.check(('C25',), v == want or s.decide(v) is not None and s.decide(v) == s.decide(want), 'NTRU public keys: equal exactly when all trits are', repr(v)[:200], w.b.where())
    g.guard(eq, 'equality of NTRU public keys', ('C25',), ())


# ------------------------------------------------------------------ encapsulation
def kem(s, S0, T, k, rest=781):
    """The common transcript: masking polynomial, commit, encrypted key, check value."""
    t = sp_com(sp_abs(S0, polyt(T)))
    s2, ct = C.encrypt(s, t, k)
    return t, s2, ct, sq_content(s2, rest), sp_sqs(s2, rest)


def encap(g, with_s):
    path = PK + ('::encr_with_s' if with_s else '::encr')
    w = world(g)
    p = pk_obj(w, g)
    prng = key_obj(w)
    nn = w.slice('nonce')
    k = sized(w, 'k', 243)
    y = sized(w, 'y', PKN, True)
    sp = [sym_sponge(w, 's')] if with_s else []
    S0 = ('st', 's') if with_s else INIT
    outs = w.call(path, [p] + sp + [prng, nn.v, k.v, y.v])
    lab = path.split('::')[-1]
    where = w.b.where()
    panic_sites(g, P20, w.it, lab)
    g.check(P20, outs, '%s: returns' % lab, '', where)
    for s, v in outs:
        kc = xc(s, k, 243)
        R = sq_content(sp_com(sp_abs(INIT, s.norm_content(src('key', 243) + src('pk', PKN) + kc + nn.src(Lin(0), nn.size)))), N)
        T = intt(conv(ntt(small(s, R)), w.H))
        t, s2, ct, tag, s3 = kem(s, S0, T, kc)
        r2 = s.norm_content(s.canon_term(ct + tag))
        want = polyt(('adds', T, r2))
        got = rd(w, s, y, 0, PKN)
        g.check(P20 + ('C21',), s.same_content(got, want), '%s: masking polynomial of the randomness bound to public key, session key and nonce, plus encrypted key and check value' % lab,
                'got %s expected %s' % (repr(got)[:400], repr(want)[:400]), where)
        if with_s:
            gs = s.mem[sp[0].obj].t
            g.check(P20 + ('C09',), s.same(gs, s3), '%s: absorb, commit, encrypt, squeeze' % lab, 'got %s expected %s' % (repr(gs)[:300], repr(s3)[:300]), where)


def decap(g, path):
    w = world(g)
    with_s = path != SK + '::decr'
    low = path == 'ntru::decr_sk'
    y = sized(w, 'y', PKN)
    k = sized(w, 'k', 243, True)
    if low:
        x = sized(w, 'sks', N)
        args = [sym_sponge(w, 's'), x.v, y.v, k.v]
    elif more(g, SK):
        o = ('S', ('skref',))
        n = len(w.it.panics)
        outs = generated(w)[1]
        del w.it.panics[n:]
        if len(outs) != 1:
            raise Missing('one outcome of ntru::gen')
        w.st.become(outs[0][0])
        w.it.loop_hook = None
        w.st.mem[o] = outs[0][1].f[0]
        skm = cont(w, w.st, shape.get(g.P, w.st.mem[o], SK, 'sk'))
        args = [Ptr(o)] + ([sym_sponge(w, 's')] if with_s else []) + [y.v, k.v]
    else:
        o = ('S', ('skref',))
        skt = trits(w, 'sk', N)
        skm = src('sk', N)
        w.st.mem[o] = shape.make(g.P, SK, sk=skt, f=pval(sk_poly(w.st, src('sk', N))))
        args = [Ptr(o)] + ([sym_sponge(w, 's')] if with_s else []) + [y.v, k.v]
    S0 = ('st', 's') if with_s else INIT
    outs = w.call(path, args)
    lab = path.split('::')[-1]
    where = w.b.where()
    pids = P20 + ('C05',)
    panic_sites(g, pids, w.it, lab)
    good = False
    for s, v in outs:
        skc = xc(s, x, N) if low else skm
        F = sk_poly(s, skc)
        Y, dec = fromt(s, xc(s, y, PKN))
        if s.decide(dec) is False:
            g.check(P20 + ('C04',), v is False, '%s: refuses a capsule that does not decode' % lab, repr(v), where)
            if with_s:
                g.check(P20, True, '%s: refuses' % lab, '', where)
            continue
        g.check(P20, s.decide(dec) is True, '%s: decides on the complete capsule' % lab, '', where)
        good = True
        kt = ('round', intt(conv(ntt(Y), F)))
        ktc = ((Lin(N), kt[0], kt[1], Lin(0)),)
        T = ('subs', Y, ktc)
        t = sp_com(sp_abs(S0, polyt(T)))
        s2, kk = C.decrypt(s, t, ((Lin(243), kt[0], kt[1], Lin(0)),))
        want = eq_content(w.it, s, sq_content(s2, 781), ((Lin(781), kt[0], kt[1], Lin(243)),))
        g.check(P20 + ('C04',), v == want or s.same(v, want), '%s: succeeds exactly when the check value over all remaining randomness matches' % lab, 'got %s expected %s' % (repr(v)[:300], repr(want)[:300]), where)
        got = rd(w, s, k, 0, 243)
        g.check(P20, s.same_content(got, kk), '%s: the session key is decrypted from the first 243 trits' % lab, 'got %s expected %s' % (repr(got)[:300], repr(kk)[:300]), where)
        if with_s:
            gs = s.mem[('S', ('sp', 's'))].t
            g.check(P20 + ('C09',), s.same(gs, sp_sqs(s2, 781)), '%s: absorb, commit, decrypt, squeeze' % lab, repr(gs)[:300], where)
    g.check(P20, good, '%s: can succeed' % lab, '', where)


def run(g):
    pids = P19 + P20
    if g.wants('C19', 'C20', 'C21', 'C09'):
        g.guard(gen, 'NTRU key generation', pids)
    if g.wants('C19', 'C04', 'C05', 'C25'):
        decode(g)
        accessors(g)
    if g.wants('C20', 'C21', 'C04', 'C05', 'C09'):
        for v in (True, False):
            g.guard(lambda v=v: encap(g, v), 'NTRU encapsulation', P20, ())
        for p in ('ntru::decr_sk', SK + '::decr_with_s', SK + '::decr'):
            g.guard(lambda p=p: decap(g, p), 'NTRU decapsulation', P20, ())
