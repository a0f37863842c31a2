"""Pseudorandom generation and Winternitz one-time signatures (real bodies over sponge terms)."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops, shape
from .group import Missing, panic_sites
from .word import body, written, start, cases, lname
from .slices import Sl, BIG, CS, MS, SR
from .models import eq_content
from .sponge import opaque, World, sym_sponge

PR = 'prng::PRNG'
P21 = ('C21', 'C09')
P14 = ('C14',)


def key_obj(w, path=PR, field='secret_key', n=243, name='key'):
    t = w.it.mk_trits(w.st, n, ((L(n), 'src', (name,), Lin(0)),), ('S', (name,)))
    if path == PR and shape.added(w.g.P, path, field):
        # the type has grown: the value its constructor makes
        x = slice_of(t, n)
        v = shape.made(w, PR + '::init', [x])
        k = shape.get(w.g.P, v, path, field)
        if not (w.st.facts.ent_eq(k.f[0] - n) and w.st.same_content(w.st.mem[k.f[1].obj].c, ((L(n), 'src', (name,), Lin(0)),))):
            raise Missing('the key in %s' % path)
        return w.ref(v)
    return w.ref(shape.make(w.g.P, path, **{field: t}))


def slice_of(t, n, mut=False):
    return Agg(MS if mut else CS, None, [Agg(SR, None, [L(n), Lin(0)]), Ptr(t.f[1].obj, (('e', Lin(0)),)), UNIT])


def wkey(w):
    """A one-time private key of given trits."""
    path, N = 'wots::PrivateKey', 13122
    t = w.it.mk_trits(w.st, N, ((L(N), 'src', ('sk',), Lin(0)),), ('S', ('sk',)))
    if not shape.added(w.g.P, path, 'sk'):
        return w.ref(shape.make(w.g.P, path, sk=t))

    def gen_sk(it, st, a, c, ty):
        b, o, n = it.sl(st, a[2])
        it.put_content(st, b, o, ((n, 'src', ('sk',), Lin(0)),))
        return UNIT
    old = w.it.hooks.get('wots::gen_sk')
    w.it.hooks['wots::gen_sk'] = gen_sk
    k = key_obj(w)
    xs, p = nonces(w, 1)
    v = shape.made(w, path + '::gen', [k, p])
    w.it.hooks.pop('wots::gen_sk')
    if old:
        w.it.hooks['wots::gen_sk'] = old
    t = shape.get(w.g.P, v, path, 'sk')
    if not (w.st.facts.ent_eq(t.f[0] - N) and w.st.same_content(w.st.mem[t.f[1].obj].c, ((L(N), 'src', ('sk',), Lin(0)),))):
        raise Missing('the key in %s' % path)
    return w.ref(v)


def whole(w):
    """One-time operations as functions of the contents they get."""
    def sign(it, st, a, c, t):
        (b1, o1, n1), (b2, o2, n2), (b3, o3, n3) = [it.sl(st, x) for x in a]
        sk, h = (st.norm_content(it.get_content(st, b, o, n)) for b, o, n in ((b1, o1, n1), (b2, o2, n2)))
        it.put_content(st, b3, o3, ((n3, 'wsig', (sk, h), Lin(0)),))
        return UNIT

    def calc(it, st, a, c, t):
        (b1, o1, n1), (b2, o2, n2) = [it.sl(st, x) for x in a]
        it.put_content(st, b2, o2, ((n2, 'wpk', st.norm_content(it.get_content(st, b1, o1, n1)), Lin(0)),))
        return UNIT
    w.it.hooks['wots::sign'] = sign
    w.it.hooks['wots::calc_pk'] = calc


def nonces(w, k):
    xs = [w.slice('n%d' % i) for i in range(k)]
    o = ('S', ('nonces',))
    w.st.mem[o] = Agg('array', None, [x.v for x in xs])
    return xs, Ptr(o, (('e', Lin(0)),), Lin(k))


def kon(s, xs):
    """Committed sponge after the key and the nonces."""
    c = ((Lin(243), 'src', ('key',), Lin(0)),)
    for x in xs:
        c += x.src(Lin(0), x.size)
    return sp_com(sp_abs(INIT, s.norm_content(c)))


def prng(g):
    def init(path, trits):
        w = opaque(g)
        lab = path.split('::')[-1]
        x = w.slice('x')
        if trits:
            w.st.facts.add_eq(x.d)
            w.st.facts.add_eq(x.n - x.N)
            args = [w.ref(Agg('trits::trits::TritsT', None, [x.N, VecV(x.obj)]))]
        else:
            args = [x.v]
        outs = w.call(path, args)
        for p in w.it.panics:
            bad = [z for z in p.state.copy().assume(f_eq(x.size - 243), True) if z.facts.consistent()]
            g.check(('C21',), not bad, '%s: accepts every key of 243 trits' % path, repr(p), p.where)
        g.check(('C21',), outs, '%s: returns' % path, '', w.b.where())
        for s, v in outs:
            g.check(('C21',), s.facts.ent_eq(x.size - 243), '%s: refuses a key of another size than 243' % path, 'returns with size %r' % s.canon(x.size), w.b.where())
            t = shape.get(g.P, v, PR, 'secret_key')
            reg = s.mem[t.f[1].obj]
            g.check(('C21',), s.facts.ent_eq(t.f[0] - 243) and s.same_content(reg.c, x.src(Lin(0), Lin(243))), '%s: keeps the complete key' % path, repr(reg)[:200], w.b.where())
    for p, t in ((PR + '::init', False), (PR + '::init_trits', True), ('prng::init', False), ('prng::init_trits', True)):
        g.guard(lambda p=p, t=t: init(p, t), p, ('C21',), ())

    def one(name):
        w = opaque(g)
        k = key_obj(w)
        x = w.slice('n0')
        y = w.slice('y', True)
        if name == 'gen_trits':
            w.st.facts.add_eq(x.d)
            w.st.facts.add_eq(x.n - x.N)
            n = fresh('n', 0, BIG)
            args = [k, w.ref(Agg('trits::trits::TritsT', None, [x.N, VecV(x.obj)])), n]
        else:
            args = [k, x.v, y.v]
        outs = w.call(PR + '::' + name, args)
        panic_sites(g, P21, w.it, name)
        g.check(P21, outs, '%s: returns' % name, '', w.b.where())
        for s, v in outs:
            if name == 'gen_trits':
                size, got = n, s.mem[v.f[1].obj].c
                g.check(P21, s.facts.ent_eq(v.f[0] - n), '%s: as many trits as requested' % name, repr(v), w.b.where())
            else:
                size, got = y.size, w.it.read_region(s, s.mem[y.obj], y.d, y.size)
            out_is(g, w, s, name, got, size, kon(s, [x]))
        if shape.added(g.P, PR, 'secret_key') and name == 'gen':
            # the generator keeps something: once more, with other arguments and with the same
            for s, v in list(outs):
                for k2, nn in enumerate((x, Sl(w.it, s, 'n1', False))):
                    y2 = Sl(w.it, s, 'z%d' % k2, True)
                    for s2, v2 in w.it.exec_body(s.copy(), w.b, [k, nn.v, y2.v]):
                        if k2 and "('n1',)" in repr(s2.dec):
                            continue        # told apart from, or found equal to, the earlier nonce
                        out_is(g, w, s2, name + ' again', w.it.read_region(s2, s2.mem[y2.obj], y2.d, y2.size), y2.size, kon(s2, [nn]))
    for name in ('gen', 'gen_trits'):
        g.guard(lambda name=name: one(name), name, P21, ())

    def many(k, m):
        w = opaque(g)
        kk = key_obj(w)
        xs, p = nonces(w, k)
        name = 'gens' if m is None else 'genss'
        ys = [w.slice('y%d' % i, True) for i in range(1 if m is None else m)]
        if m is None:
            args = [kk, p, ys[0].v]
        else:
            o = ('S', ('rnds',))
            w.st.mem[o] = Agg('array', None, [y.v for y in ys])
            args = [kk, p, Ptr(o, (('e', Lin(0)),), Lin(m))]
        outs = w.call(PR + '::' + name, args)
        panic_sites(g, P21, w.it, name)
        g.check(P21, outs, '%s: returns' % name, '', w.b.where())
        for s, v in outs:
            st = kon(s, xs)
            for y in ys:
                out_is(g, w, s, '%s with %d nonces' % (name, k), w.it.read_region(s, s.mem[y.obj], y.d, y.size), y.size, st)
                if s.decide(f_eq(y.size)) is not True:
                    st = sp_sqs(st, y.size)
    for k in range(6):
        g.guard(lambda k=k: many(k, None), 'gens', P21, ())
    for k in range(4):
        for m in range(3):
            g.guard(lambda k=k, m=m: many(k, m), 'genss', P21, ())


def out_is(g, w, s, lab, got, size, st):
    if s.decide(f_eq(size)) is True:
        return
    exp = sq_content(st, size)
    g.check(P21, s.same_content(got, exp), '%s: output squeezed from a fresh sponge that absorbed the whole key and every nonce in order, then committed' % lab,
            'got %s, expected %s' % (repr(s.norm_content(got))[:300], repr(exp)[:300]), w.b.where())


# ------------------------------------------------------------------ WOTS
def chain_hook(it, st, a, c, t):
    """rehash_data(n, h): n more hash applications to h."""
    n, h = a
    b, o, sz = it.sl(st, h)
    cc = st.norm_content(it.get_content(st, b, o, sz))
    out = []
    for s in it.require(st, f_ge(n), 'panic', 'negative number of hash applications'):
        n2 = s.canon(n)
        base, k = cc, Lin(0)
        if len(cc) == 1 and cc[0][1] == 'chain' and s.facts.ent_eq(cc[0][3]) and s.same(clen(cc[0][2][1]), sz):
            k, base = cc[0][2]
        k = s.canon(k + n2)
        it.put_content(s, b, o, base if s.decide(f_eq(k)) is True else ((sz, 'chain', (k, base), Lin(0)),))
        out.append((s, UNIT))
    return out


def mods3_hook(it, st, a, c, t):
    v = st.canon(a[0])
    lo, hi = st.facts.bounds(v)
    r = atom('m3r', (v,), -13, 13)
    q = atom('m3q', (v,), None if lo is None else -((-lo + 13) // 27), None if hi is None else (hi + 13) // 27)
    st.facts.add_eq(v - r - q * 27)
    return Agg('tuple', None, [r, q])


def chain_loop(g):
    """rehash_data: n applications of the hash, in place."""
    w = World(g, H=C.sponge_hooks())
    w.it.transparent_sponge = False
    w.it.hooks.pop('<troika::Troika as spongos::PRP>::transform', None)
    n = fresh('n', 0, 1 << 20)
    h = w.slice('h', True)
    w.st.facts.add_ge(h.size - 1)
    outs = w.call('wots::rehash_data', [n, h.v])
    where = w.b.where()
    pids = P14
    panic_sites(g, pids, w.it, 'rehash_data')
    if len(w.reps) != 1:
        raise I.Unsupported('%d loops in rehash_data' % len(w.reps))
    R = w.reps[0]
    nm = lname(R.head.mem[h.obj])
    if nm is None:
        raise I.Unsupported('hash chain')
    ctr = None
    for i in R.vars:
        for sg in (1, -1):
            k = Lin.of(i) * sg
            k = k - R.at_entry(k)
            if all(s.facts.ent_eq(R.at_back(s, k) - k - 1) for s in R.backs):
                ctr = k
    if ctr is None:
        raise I.Unsupported('iteration count of rehash_data')
    # applications before the loop
    E = R.entry
    c0, at = w.it.read_region(E, E.mem[h.obj], h.d, h.size), h.src(Lin(0), h.size)
    done = 0
    while not E.same_content(c0, at):
        done += 1
        if done > 3:
            raise I.Unsupported('what happens before the loop of rehash_data')
        at = sq_content(sp_com(sp_abs(INIT, E.norm_content(at))), h.size)
    if done:
        ok = all(E.facts.ent_ge(q - h.d) and E.facts.ent_ge(h.n - q - pc[0]) for q, pc in written(E, E.mem[h.obj], ('h',)))
        g.check(pids, ok, 'rehash_data: nothing else is written', '', where)
    for s in R.backs:
        got = w.it.read_region(s, s.mem[h.obj], h.d, h.size)
        old = w.it.read_region(s, R.head.mem[h.obj], h.d, h.size)
        exp = sq_content(sp_com(sp_abs(INIT, s.norm_content(old))), h.size)
        g.check(pids, s.same_content(got, exp), 'rehash_data: every iteration replaces the value by its hash', repr(got)[:300], where)
        ok = all(s.facts.ent_ge(q - h.d) and s.facts.ent_ge(h.n - q - pc[0]) for q, pc in written(s, s.mem[h.obj], nm))
        g.check(pids, ok, 'rehash_data: nothing else is written', '', where)
    for s, _ in R.exits:
        g.check(pids, s.facts.ent_eq(ctr + done - n), 'rehash_data: exactly n hash applications', 'stops after %r' % s.canon(ctr), where)
    for s, _ in outs:
        g.check(pids, s.mem[h.obj] == R.head.mem[h.obj] or s.same_content(s.mem[h.obj].c, R.head.mem[h.obj].c) or s.mem[h.obj].c[0][1] == 'src' and s.decide(f_eq(n)) is True,
                'rehash_data: nothing happens after the last application', repr(s.mem[h.obj])[:200], where)


def wots(g):
    try:
        wots_run(g, None)
    except I.Unsupported as x:
        # data dependent control flow: decide it for fixed digits instead
        for v in range(-13, 14):
            wots_run(g, lambda i: v)
        wots_run(g, lambda i: i % 27 - 13)
        wots_run(g, lambda i: 13 if i % 2 else -13)
        raise


def wots_run(g, fixed):
    w = opaque(g)
    it, st = w.it, w.st
    it.hooks['wots::rehash_data'] = chain_hook
    it.hooks['trits::util::mods3'] = mods3_hook
    it.unroll = 3000
    it.max_states = 60

    def buf(name, n, mut=False):
        o = ('S', (name,))
        st.mem[o] = Region(Lin(n), ((Lin(n), 'src', (name,), Lin(0)),))
        T = 'trits::slice::TritSliceMutT' if mut else 'trits::slice::TritSliceT'
        return Agg(T, None, [Agg('trits::slice::SliceRange', None, [Lin(n), Lin(0)]), Ptr(o, (('e', Lin(0)),)), UNIT])
    PS, PC = 162, 81
    N = PS * PC
    sk, hs = buf('sk', N), buf('hash', 234)
    sig = buf('sig', N, True)
    sigr = Agg('trits::slice::TritSliceT', None, list(sig.f))
    pk, pk2 = buf('pk', 243, True), buf('pk2', 243, True)

    def part(name, i):
        return ((Lin(PS), 'src', (name,), Lin(PS * i)),)

    def content(s, name):
        return s.norm_content(s.mem[('S', (name,))].c)
    # digits as documented
    ds = [C.get_value(it, st, 3, ((Lin(3), 'src', ('hash',), Lin(3 * i)),)) for i in range(78)]
    if fixed is not None:
        for i, d in enumerate(ds):
            st.facts.add_eq(d - fixed(i))
    tot = Lin(0)
    for d in ds:
        tot = tot + d
    b = body(g, 'wots::calc_pk')
    g.fn(b)
    outs = it.exec_body(st.copy(), b, [sk, pk2])
    exp = ()
    for i in range(PC):
        exp += ((Lin(PS), 'chain', (Lin(26), part('sk', i)), Lin(0)),)
    pkx = sq_content(sp_com(sp_abs(INIT, exp)), 243)
    g.check(P14, outs, 'calc_pk: returns', '', b.where())
    for s, _ in outs:
        g.check(P14 + ('C09',), s.same_content(content(s, 'pk2'), pkx), 'calc_pk: 26 hash applications to each of the 81 parts in order, absorbed, committed, squeezed',
                repr(content(s, 'pk2'))[:400], b.where())
    panic_sites(g, P14, it, 'calc_pk')
    # signing
    b = body(g, 'wots::sign')
    g.fn(b)
    it.panics = []
    louts = it.exec_body(st.copy(), b, [sk, hs, sig])
    g.check(P14, louts, 'sign: returns', '', b.where())
    panic_sites(g, P14, it, 'sign')
    br = body(g, 'wots::recover')
    g.fn(br)
    for s, _ in louts:
        c = content(s, 'sig')
        cs = []
        for i in range(PC):
            p = s.norm_content(slice_content_exact(c, Lin(PS * i), Lin(PS), s.ge, s.dge))
            if len(p) == 1 and p[0][1] == 'chain' and s.facts.ent_eq(p[0][3]):
                k, base = p[0][2]
            else:
                k, base = Lin(0), p
            ok = s.same_content(base, part('sk', i))
            g.check(P14, ok, 'sign: part %s of the signature starts from the same part of the key' % ('i'), 'part %d: %s' % (i, repr(base)[:200]), b.where())
            cs.append(k)
        for i in range(78):
            g.check(P14, s.facts.ent_eq(s.canon(cs[i] - 13 - ds[i])), 'sign: part i gets 13 + digit i applications', 'part %d: %r' % (i, s.canon(cs[i])), b.where())
        chk = Lin(0)
        for j in range(3):
            chk = chk + (cs[78 + j] - 13) * 27 ** j
            g.check(P14, s.facts.ent_ge(cs[78 + j]) and s.facts.ent_ge(Lin(26) - cs[78 + j]), 'sign: checksum digits are balanced digits', repr(s.canon(cs[78 + j])), b.where())
        g.check(P14, s.facts.ent_eq(s.canon(chk + tot)), 'sign: the last three parts encode the negated sum of all digits', 'encode %r' % s.canon(chk), b.where())
        # recovery from this signature
        it.panics = []
        for r, _ in it.exec_body(s.copy(), br, [hs, sigr, pk]):
            got = content(r, 'pk')
            ok = r.same_content(got, pkx)
            g.check(P14 + ('C09',), ok, 'recover: completes every chain of a signature to the public key', diff(r, got, pkx), br.where())
        panic_sites(g, P14, it, 'recover')
    g.use(it)


def diff(s, got, exp):
    try:
        a = got[0][2][1][2]
        b = exp[0][2][1][2]
        for x, y in zip(s.norm_content(a), b):
            if not s.same_content((x,), (y,)):
                return 'got %s instead of %s' % (repr(x)[:200], repr(y)[:200])
    except Exception:
        pass
    return repr(got)[:400]


def api(g):
    """PrivateKey and PublicKey wrappers."""
    def gen():
        w = opaque(g)
        whole(w)
        k = key_obj(w)
        xs, p = nonces(w, 2)
        outs = w.call('wots::PrivateKey::gen', [k, p])
        pids = P14 + ('C21',)
        panic_sites(g, pids, w.it, 'PrivateKey::gen')
        for s, v in outs:
            t = shape.get(g.P, v, 'wots::PrivateKey', 'sk')
            reg = s.mem[t.f[1].obj]
            g.check(pids, s.facts.ent_eq(t.f[0] - 13122) and s.same_content(reg.c, sq_content(kon(s, xs), 13122)),
                    'PrivateKey::gen: 81 parts of 162 trits generated from the key and all nonces', repr(reg)[:200], w.b.where())
    g.guard(gen, 'wots::PrivateKey::gen', P14 + ('C21',), ())

    def kt(w, name, n):
        return w.it.mk_trits(w.st, n, ((L(n), 'src', (name,), Lin(0)),), ('S', (name,)))

    SK = ((Lin(13122), 'src', ('sk',), Lin(0)),)

    def a_calc():
        path = 'wots::PrivateKey::calc_pk'
        w = opaque(g)
        whole(w)
        sk = wkey(w)
        y = w.slice('y', True)
        w.st.facts.add_eq(y.size - 243)
        outs = w.call(path, [sk, y.v])
        panic_sites(g, P14, w.it, path)
        g.check(P14, outs, '%s: returns' % path, '', w.b.where())
        for s, v in outs:
            c = w.it.read_region(s, s.mem[y.obj], y.d, Lin(243))
            g.check(P14, s.same_content(c, ((Lin(243), 'wpk', SK, Lin(0)),)), '%s: derives the public key of the whole key' % path, repr(s.norm_content(c))[:300], w.b.where())
    g.guard(a_calc, 'calc_pk', P14, ())

    def a_sign():
        path = 'wots::PrivateKey::sign'
        w = opaque(g)
        whole(w)
        sk = wkey(w)
        h = w.slice('h')
        y = w.slice('y', True)
        w.st.facts.add_eq(h.size - 234)
        w.st.facts.add_eq(y.size - 13122)
        outs = w.call(path, [sk, h.v, y.v])
        panic_sites(g, P14, w.it, path)
        g.check(P14, outs, '%s: returns' % path, '', w.b.where())
        for s, v in outs:
            c = w.it.read_region(s, s.mem[y.obj], y.d, Lin(13122))
            g.check(P14, s.same_content(c, ((Lin(13122), 'wsig', (SK, s.norm_content(h.src(Lin(0), Lin(234)))), Lin(0)),)), '%s: signs the hash with the whole key' % path,
                    repr(s.norm_content(c))[:300], w.b.where())
    g.guard(a_sign, 'sign', P14, ())

    def pk_gen():
        path = 'wots::PublicKey::gen'
        w = opaque(g)
        whole(w)
        sk = wkey(w)
        outs = w.call(path, [sk])
        panic_sites(g, P14, w.it, path)
        g.check(P14, outs, '%s: returns' % path, '', w.b.where())
        for s, v in outs:
            t = shape.get(g.P, v, 'wots::PublicKey', 'pk')
            ok = s.facts.ent_eq(t.f[0] - 243) and s.same_content(s.mem[t.f[1].obj].c, ((Lin(243), 'wpk', SK, Lin(0)),))
            g.check(P14, ok, '%s: the key derived from the whole private key' % path, repr(s.mem[t.f[1].obj])[:300], w.b.where())
    g.guard(pk_gen, 'wots::PublicKey::gen', P14, ())

    def pk_verify():
        path = 'wots::PublicKey::verify'
        pids = P14 + ('C04', 'C25')
        w = opaque(g)

        def rec(it, st, a, c, t):
            st.event('rec', *[it.sl(st, x) for x in a[:2]])
            y, p, m = it.sl(st, a[2])
            it.put_content(st, y, p, ((m, 'wrec', (), Lin(0)),))
            return UNIT
        w.it.hooks['wots::recover'] = rec
        pk = w.ref(shape.make(g.P, 'wots::PublicKey', pk=kt(w, 'pk', 243)))
        h, x = w.slice('h'), w.slice('sig')
        outs = w.call(path, [pk, h.v, x.v])
        where = w.b.where()
        panic_sites(g, pids, w.it, path)
        g.check(pids, outs, '%s: returns' % path, '', where)
        for s, v in outs:
            ev = [e for e in s.events() if e[0] == 'rec']
            ok = len(ev) == 1 and all(q[0] == y.ptr.base() and s.facts.ent_eq(q[1] - y.d) and s.facts.ent_eq(q[2] - y.size) for q, y in zip(ev[0][1:], (h, x)))
            g.check(pids, ok, '%s: recovers from the given hash and signature' % path, repr(ev)[:300], where)
            e = eq_content(w.it, s, ((Lin(243), 'wrec', (), Lin(0)),), ((Lin(243), 'src', ('pk',), Lin(0)),))
            for z in s.copy().assume(v, True):
                if z.facts.consistent():
                    g.check(pids, z.decide(e) is True, '%s: accepts only when the recovered key is the complete public key' % path, repr(v)[:200], where)
            for z in s.copy().assume(v, False):
                if z.facts.consistent():
                    bad = [q for q in z.assume(e, True) if q.facts.consistent()]
                    g.check(pids, not bad, '%s: accepts every valid signature' % path, repr(v)[:200], where)
    g.guard(pk_verify, 'wots::PublicKey::verify', P14 + ('C04', 'C25'), ())


def run(g):
    if g.wants('C21', 'C09'):
        prng(g)
    if g.wants('C14', 'C09'):
        g.guard(wots, 'wots', P14, (g,))
    if g.wants('C14'):
        g.guard(chain_loop, 'rehash_data', P14, (g,))
    if g.wants('C14', 'C21', 'C04', 'C25'):
        api(g)
