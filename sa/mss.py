"""Merkle signatures: signature layout, the key number that signs, path folding and verification. Trees and one-time
signatures are taken by their contracts (trees and wots groups)."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import contracts as C
from . import loops, shape
from .models import some, NONE, deref, eq_content
from .group import Missing, panic_sites
from .word import body
from .slices import Sl, BIG
from .sponge import opaque, World
from .wots import key_obj

M = 'mss::mss::'
SIG = 13122
HEAD = 18
P15 = ('C15',)
TM = 'mss::mt::TraversableMerkleTree'
TREES = ('mss::mtcomplete::MT', 'mss::mttraversal::MT')


def inst(g, path, has='trits::trits::TritsT<u8>', want=None):
    """The instantiation over trit strings used by the library; a generic body otherwise."""
    c = [b for b in g.P.by_path.get(path, []) if b.local]
    if not c:
        raise Missing(path)
    d = [b for b in c if has in b.key and not b.d['generic'] and (want is None or want in b.key)]
    d.sort(key=lambda b: (len(b.key), b.key))
    if d:
        return d[0]
    if want is not None:
        raise Missing(path)
    return sorted(c, key=lambda b: (b.d['generic'], len(b.key), b.key))[0]


def world(g):
    w = opaque(g)
    w.it.unroll = 64
    w.it.loop_hook = None

    def sign(it, st, a, c, t):
        (b1, o1, n1), (b2, o2, n2), (b3, o3, n3) = [it.sl(st, x) for x in a]
        sk, h = (st.norm_content(it.get_content(st, b, o, n)) for b, o, n in ((b1, o1, n1), (b2, o2, n2)))
        out = []
        for s in it.require(st, f_and(f_and(f_eq(n1 - SIG), f_eq(n2 - 234)), f_eq(n3 - SIG)), 'panic', 'one-time signature of wrong sizes'):
            it.put_content(s, b3, o3, ((Lin(SIG), 'wsig', (sk, h), Lin(0)),))
            out.append((s, UNIT))
        return out

    def calc(it, st, a, c, t):
        (b1, o1, n1), (b2, o2, n2) = [it.sl(st, x) for x in a]
        sk = st.norm_content(it.get_content(st, b1, o1, n1))
        out = []
        for s in it.require(st, f_and(f_eq(n1 - SIG), f_eq(n2 - 243)), 'panic', 'one-time public key of wrong sizes'):
            it.put_content(s, b2, o2, ((Lin(243), 'wpk', sk, Lin(0)),))
            out.append((s, UNIT))
        return out

    def rec(it, st, a, c, t):
        (b1, o1, n1), (b2, o2, n2), (b3, o3, n3) = [it.sl(st, x) for x in a]
        out = []
        for s in it.require(st, f_and(f_and(f_eq(n1 - 234), f_eq(n2 - SIG)), f_eq(n3 - 243)), 'panic', 'one-time recovery of wrong sizes'):
            h = s.norm_content(it.get_content(s, b1, o1, Lin(234)))
            x = s.norm_content(it.get_content(s, b2, o2, Lin(SIG)))
            it.put_content(s, b3, o3, wrec(s, h, x))
            out.append((s, UNIT))
        return out
    w.it.hooks['wots::sign'] = sign
    w.it.hooks['wots::calc_pk'] = calc
    w.it.hooks['wots::recover'] = rec
    return w


def wrec(s, h, x):
    if len(x) == 1 and x[0][1] == 'wsig' and s.facts.ent_eq(x[0][3]) and s.same_content(x[0][2][1], h):
        return ((Lin(243), 'wpk', x[0][2][0], Lin(0)),)
    return ((Lin(243), 'wrec', (h, x), Lin(0)),)


def hm(a, b):
    return sq_content(sp_com(sp_abs(INIT, a + b)), Lin(243))


def buf(w, name, n, mut=False):
    """A slice of exactly n trits somewhere in a larger buffer."""
    x = w.slice(name, mut)
    w.st.facts.add_eq(x.size - n)
    return x


def got(w, s, x, off, n):
    return s.norm_content(w.it.read_region(s, s.mem[x.obj], x.d + off, L(n)))


# ------------------------------------------------------------------ sizes
def sizes(g):
    def one(path, base):
        w = world(g)
        d = fresh('d', 0, 1 << 32)
        for s, v in w.call(path, [d]):
            g.check(P15 + ('C03',), s.same(v, d * 243 + base), '%s: %d + 243 per level' % (path, base), repr(v), w.b.where())
        panic_sites(g, P15, w.it, path)
    g.guard(lambda: one(M + 'apath_size', 0), 'apath_size', P15, ())
    g.guard(lambda: one(M + 'sig_size', HEAD + SIG), 'sig_size', P15, ())


def pow2(h):
    return atom('pow2', (h,), 1, 1 << 63)


def key_numbers(st, h):
    """A key number of a tree of height h."""
    if isinstance(h, int):
        return fresh('skn', 0, (1 << h) - 1)
    k = fresh('skn', 0, (1 << 20) - 1)
    st.facts.add_ge(pow2(h) - k - 1)
    return k


def header(s, h, k):
    """height(4) || skn(14)"""
    return cut(s, C.put_piece(s, 6, L(h)), 4) + cut(s, C.put_piece(s, 18, k), 14)


def cut(s, c, n):
    return slice_content_exact(s.norm_content(c), Lin(0), Lin(n), s.ge, s.dge)


def skn_codec(g):
    w = world(g)
    h = fresh('h', 0, 20)
    k = key_numbers(w.st, h)
    y = buf(w, 'y', HEAD, True)
    outs = w.call(M + 'encode_skn', [h, k, y.v])
    where = w.b.where()
    panic_sites(g, P15, w.it, 'encode_skn')
    g.check(P15, outs, 'encode_skn: returns', '', where)
    b = body(g, M + 'parse_skn')
    g.fn(b)
    for s, v in outs:
        c = got(w, s, y, Lin(0), 18)
        e = header(s, h, k)
        g.check(P15 + ('C16',), s.same_content(c, e), 'encode_skn: height in 4 trits, then key number in 14', 'got %r' % (c,), where)
        w.it.panics = []
        rs = w.it.exec_body(s, b, [y.mk(y.n, y.d, False)])
        panic_sites(g, P15, w.it, 'parse_skn of an encoded header')
        for r, v in rs:
            ok = isinstance(v, Agg) and v.var == 1 and r.same(v.f[0].f[0], h) and r.same(v.f[0].f[1], k)
            g.check(P15 + ('C16',), ok, 'parse_skn: every height up to 20 and every key number survives encoding', repr(v)[:300], b.where())
    # arbitrary input
    w = world(g)
    x = buf(w, 'x', HEAD)
    outs = w.call(M + 'parse_skn', [x.v])
    panic_sites(g, P15 + ('C05',), w.it, 'parse_skn')
    for s, v in outs:
        hh, kk = head_of(w, s, x)
        parsed(g, w, s, v, hh, kk, 'parse_skn')


def head_of(w, s, x):
    """Height and key number the format assigns to the first 18 trits of x."""
    h = C.get_value(w.it, s, 6, s.norm_content(x.src(Lin(0), Lin(4)) + zero(2)))
    k = C.get_value(w.it, s, 18, s.norm_content(x.src(Lin(4), Lin(14)) + zero(4)))
    return h, k


def cond(h, k):
    return f_and(f_and(f_ge(h), f_ge(k)), f_ge(pow2(h) - k - 1))


def parsed(g, w, s, v, h, k, lab):
    where = w.b.where()
    if v.var == 1:
        g.check(P15, s.facts.ent_ge(h) and s.facts.ent_ge(k) and s.facts.ent_ge(pow2(h) - k - 1), '%s: accepts only 0 <= height and 0 <= key number < 2^height' % lab,
                'accepts height %r, key number %r' % (s.facts.bounds(h), s.facts.bounds(k)), where)
        g.check(P15, s.same(v.f[0].f[0], h) and s.same(v.f[0].f[1], k), '%s: returns the height and key number of the format' % lab, repr(v)[:300], where)
    else:
        bad = [z for z in s.copy().assume(cond(h, k), True) if z.facts.consistent()]
        g.check(P15, not bad, '%s: rejects no valid header' % lab, 'rejects height %r, key number %r' % (s.facts.bounds(h), s.facts.bounds(k)), where)


# ------------------------------------------------------------------ keys
def sk_obj(g, w):
    """The generator state of a signing key."""
    kp = key_obj(w)
    prng = w.st.mem[kp.obj]
    nn = fresh('nn', 0, BIG)
    return shape.make(g.P, M + 'SK', prng=prng, nonce=w.it.mk_trits(w.st, nn, ((nn, 'src', ('nonce',), Lin(0)),), ('S', ('nonce',)))), nn


def leaf_sk(s, nn, k):
    c = ((Lin(243), 'src', ('key',), Lin(0)), (nn, 'src', ('nonce',), Lin(0))) + C.put_piece(s, 18, k)
    return sq_content(sp_com(sp_abs(INIT, s.norm_content(c))), Lin(SIG))


def leaves(g):
    pids = ('C16', 'C21')
    for name, path in (('sk', M + 'SK::gen_leaf_sk'), ('pk', M + 'SK::gen_leaf_pk'), ('leaf', '<mss::mss::SK as mss::mt::GenLeaf>::gen_leaf')):
        def one(name=name, path=path):
            w = world(g)
            sk, nn = sk_obj(g, w)
            k = fresh('i', 0, 1 << 20)
            outs = w.call(path, [w.ref(sk), k])
            panic_sites(g, pids, w.it, path)
            g.check(pids, outs, '%s: returns' % path, '', w.b.where())
            for s, v in outs:
                e = leaf_sk(s, nn, k)
                if name == 'sk':
                    v = shape.get(g.P, v, 'wots::PrivateKey', 'sk')
                else:
                    e = ((Lin(243), 'wpk', e, Lin(0)),)
                c = s.mem[v.f[1].obj].c
                g.check(pids, s.same_content(c, e), '%s: leaf i comes from the key, the nonce and the 18 trits of i' % path, 'got %r' % (s.norm_content(c),), w.b.where())
        g.guard(one, path, pids, ())


def tree_hooks(g, w, h, skn, T='mt'):
    """A tree of height h at key number skn."""
    it, st = w.it, w.st

    def on(m, f):
        for t in TREES:
            it.hooks['<%s as %s>::%s' % (t, TM, m)] = f
    on('height', lambda it, st, a, c, t: L(h))
    on('skn', lambda it, st, a, c, t: skn)

    def apath(it, st, a, c, t):
        n = L(h)
        items = []
        for j in range(n.c):
            items.append(it.mk_trits(st, 243, ((Lin(243), 'src', ('ap',), Lin(243 * j)),), ('S', ('ap', j))))
        return shape.make(g.P, 'mss::mt::APath', skn=skn, nodes=VecV(it.new_obj(st, Seq(n, tuple(items)))))
    on('apath', apath)
    on('root', lambda it, st, a, c, t: Ptr(('S', ('root',))))
    st.mem[('S', ('root',))] = it.mk_trits(st, 243, ((Lin(243), 'src', ('root',), Lin(0)),), ('S', ('rootbuf',)))

    def nxt(it, st, a, c, t):
        st.event('next', a[0], a[1], fnval(it, st, a[2]))
        return ('op', ('next',))
    on('next', nxt)

    def gen(it, st, a, c, t):
        st.event('gen', it.read_path(st, a[0]), fnval(it, st, a[1]), a[2])
        return Opq(('newtree',))
    on('gen', gen)


def fnval(it, st, p):
    """Name of the function a merge argument denotes."""
    v = deref(it, st, p)
    if isinstance(v, FnV):
        return it.p.npath(v.callee.get('rpath') or v.callee.get('path') or '')
    return repr(v)


HIST = [None]       # for a key type that has grown: how often the key was moved on since it was generated


def grown(g):
    return shape.added(g.P, M + 'PrivateKeyT', 'sk', 'mt')


def histories(g, h):
    if not grown(g):
        yield None
        return
    g.undecided(('C15', 'C16'), 'PrivateKeyT: fields', 'the key has further fields (%s): only its first four key numbers are analysed' % ', '.join(grown(g)))
    for n in (0, 1, 2, 3):
        if n < 1 << h:
            HIST[0] = n
            yield n
    HIST[0] = None


def priv(g, w, h, skn):
    T = M + 'PrivateKeyT'
    o = ('S', ('priv',))
    if not grown(g):
        tree_hooks(g, w, h, skn)
        sk, nn = sk_obj(g, w)
        k = shape.make(g.P, T, sk=sk, mt=Opq(('tree',)))
        w.st.mem[o] = k
        return Ptr(o), k, nn
    if HIST[0] is None or (skn.is_const() and skn.c != HIST[0]):
        raise Missing('fields of %s' % T)
    cur = [0]
    tree_hooks(g, w, h, Lin(0))

    def on(m, f):
        for t in TREES:
            w.it.hooks['<%s as %s>::%s' % (t, TM, m)] = f

    def nxt(it, st, a, c, t):
        cur[0] += 1
        return True
    on('next', nxt)
    on('skn', lambda it, st, a, c, t: Lin(cur[0]))
    kp = key_obj(w)
    x = buf(w, 'nonce0', 33)
    n = len(w.it.panics)
    outs = w.it.exec_body(w.st.copy(), inst(g, T + '::gen'), [kp, x.v, L(h)])
    for i in range(HIST[0]):
        if len(outs) != 1:
            raise Missing('one outcome of %s' % T)
        s, v = outs[0]
        if not i:
            s.mem[o] = v
        outs = w.it.exec_body(s, inst(g, T + '::next'), [Ptr(o)])
    if len(outs) != 1:
        raise Missing('one outcome of %s' % T)
    s, v = outs[0]
    del w.it.panics[n:]
    if HIST[0]:
        v = s.mem[o]
    s.ev = None
    w.st.become(s)
    tree_hooks(g, w, h, skn)
    w.st.facts.add_eq(skn - HIST[0])
    sk, nn = sk_obj(g, w)
    k = shape.put(g.P, v, T, sk=sk, mt=Opq(('tree',)))
    w.st.mem[o] = k
    return Ptr(o), k, nn


def pcall(g, w, path, args):
    w.b = inst(g, path)
    g.fn(w.b)
    outs = w.it.exec_body(w.st, w.b, args)
    g.use(w.it)
    return outs


def sign(g, h):
    pids = P15 + ('C16',)
    w = world(g)
    skn = fresh('skn', 0, 1 << h)
    kp, k, nn = priv(g, w, h, skn)
    hs = buf(w, 'hash', 234)
    n = HEAD + SIG + 243 * h
    sig = buf(w, 'sig', n, True)
    entry = w.st.mem[kp.obj]
    outs = pcall(g, w, M + 'PrivateKeyT::sign', [kp, hs.v, sig.v])
    where = w.b.where()
    for p in w.it.panics:
        bad = [z for z in p.state.copy().assume(f_ge(Lin((1 << h) - 1) - skn), True) if z.facts.consistent()]
        g.check(pids, not bad, 'sign: signs with every key number below 2^height', 'height %d: %r' % (h, p), p.where)
    g.check(pids, outs, 'sign: returns', 'height %d' % h, where)
    for s, v in outs:
        g.check(('C16',), s.facts.ent_ge(Lin((1 << h) - 1) - skn), 'sign: refuses an exhausted key', 'height %d: signs with key number up to %r' % (h, s.facts.bounds(skn)), where)
        ws = (Lin(SIG), 'wsig', (s.norm_content(leaf_sk(s, nn, skn)), s.norm_content(hs.src(Lin(0), Lin(234)))), Lin(0))
        names = ['height(4)', 'skn(14)', 'one-time signature of the leaf key with the encoded number over the hash', 'authentication path from leaf to root']
        parts = [(Lin(0), 4, cut(s, C.put_piece(s, 6, L(h)), 4)), (Lin(4), 14, cut(s, C.put_piece(s, 18, skn), 14)), (Lin(HEAD), SIG, (ws,)),
                 (Lin(HEAD + SIG), 243 * h, ((Lin(243 * h), 'src', ('ap',), Lin(0)),))]
        for nm, (o, ln, ex) in zip(names, parts):
            if ln == 0:
                continue
            c = got(w, s, sig, o, ln)
            g.check(pids, s.same_content(c, ex), 'sign: %s at its place' % nm, 'height %d: got %s' % (h, repr(c)[:300]), where)
        reg = s.mem[sig.obj]
        pre = s.norm_content(w.it.read_region(s, reg, Lin(0), sig.d))
        post = s.norm_content(w.it.read_region(s, reg, sig.n, sig.N - sig.n))
        ok = s.same_content(pre, ((sig.d, 'src', ('sig',), Lin(0)),)) and s.same_content(post, ((sig.N - sig.n, 'src', ('sig',), sig.n),))
        g.check(pids + ('C13',), ok, 'sign: writes only the signature', '', where)
        g.check(('C16', 'C17'), s.mem[kp.obj] == entry, 'sign: leaves the key unchanged', repr(s.mem[kp.obj])[:200], where)


def sign_sizes(g):
    """A signature slice or hash of another size is refused."""
    w = world(g)
    skn = fresh('skn', 0, 2)
    kp, k, nn = priv(g, w, 1, skn)
    hs, sig = w.slice('hash'), w.slice('sig', True)
    n = HEAD + SIG + 243
    outs = pcall(g, w, M + 'PrivateKeyT::sign', [kp, hs.v, sig.v])
    for s, v in outs:
        g.check(P15, s.facts.ent_eq(sig.size - n) and s.facts.ent_eq(hs.size - 234), 'sign: refuses slices of another size', repr((s.canon(sig.size), s.canon(hs.size))), w.b.where())


def accessors(g):
    def call(name, pids, h=3):
        w = world(g)
        skn = fresh('skn', 0, 1 << h)
        kp, k, nn = priv(g, w, h, skn)
        entry = w.st.mem[kp.obj]
        outs = pcall(g, w, M + 'PrivateKeyT::' + name, [kp])
        panic_sites(g, pids, w.it, name)
        g.check(pids, outs, '%s: returns' % name, '', w.b.where())
        for s, v in outs:
            if name == 'skn':
                ok, what = s.same(v, skn), 'the key number of the tree'
            elif name == 'height':
                ok, what = s.same(v, Lin(h)), 'the height of the tree'
            elif name == 'skn_left':
                ok, what = s.same(v, Lin(1 << h) - skn), 'the number of keys left'
            elif name == 'public_key':
                ok, what = isinstance(v, Ptr) and v.obj == ('S', ('root',)) and not v.path, 'the root of the tree'
            else:
                ev = [e for e in s.events() if e[0] == 'next']
                op = ('op', ('next',))
                ok = v == op or all(z.decide(v) is pol for pol in (True, False) for z in s.copy().assume(op, pol) if z.facts.consistent())
                ok = ok and len(ev) == 1 and in_key(g, ev[0][1], kp, 'mt') and in_key(g, ev[0][2], kp, 'sk') and ev[0][3] == M + 'merge_nodes'
                what = 'one step of the tree with its own leaves and hash'
            g.check(pids, ok, '%s: %s' % (name, what), repr(v)[:200] + repr(s.events())[:300], w.b.where())
            now = s.mem[kp.obj]
            if name == 'next' and grown(g):
                now = shape.put(g.P, now, M + 'PrivateKeyT', **{n: shape.get(g.P, entry, M + 'PrivateKeyT', n) for n in grown(g)})
            g.check(('C16', 'C17'), now == entry, '%s: changes nothing else' % name, repr(s.mem[kp.obj])[:200], w.b.where())
    for name, pids in (('skn', ('C16',)), ('height', ('C17', 'C15')), ('skn_left', ('C16',)), ('public_key', ('C17',)), ('next', ('C16',))):
        g.guard(lambda name=name, pids=pids: call(name, pids), name, pids, ())


def keygen(g):
    w = world(g)
    tree_hooks(g, w, 0, Lin(0))
    k = key_obj(w)
    x = w.slice('nonce')
    h = fresh('h', 0, 1 << 40)
    pids = ('C16', 'C17', 'C15')
    outs = pcall(g, w, M + 'PrivateKeyT::gen', [k, x.v, h])
    for p in w.it.panics:
        bad = [z for z in p.state.copy().assume(f_ge(Lin(20) - h), True) if z.facts.consistent()]
        g.check(pids, not bad, 'gen: accepts every height up to 20', repr(p), p.where)
    for s, v in outs:
        g.check(P15 + ('C16',), s.facts.ent_ge(Lin(20) - h), 'gen: refuses heights above 20', repr(s.facts.bounds(h)), w.b.where())
        ev = [e for e in s.events() if e[0] == 'gen']
        sk = shape.get(g.P, v, M + 'PrivateKeyT', 'sk')
        ok = len(ev) == 1 and shape.get(g.P, v, M + 'PrivateKeyT', 'mt') == Opq(('newtree',)) and s.same(ev[0][3], h) and ev[0][2] == M + 'merge_nodes' and ev[0][1] == sk
        g.check(pids, ok, 'gen: the tree of the requested height over the leaves of this key', repr(ev)[:300], w.b.where())
        n = shape.get(g.P, sk, M + 'SK', 'nonce')
        kk = shape.get(g.P, shape.get(g.P, sk, M + 'SK', 'prng'), 'prng::PRNG', 'secret_key')
        ok = s.facts.ent_eq(n.f[0] - x.size) and s.same_content(s.mem[n.f[1].obj].c, x.src(Lin(0), x.size)) and s.same_content(s.mem[kk.f[1].obj].c, ((Lin(243), 'src', ('key',), Lin(0)),))
        g.check(('C16', 'C21'), ok, 'gen: keeps the complete nonce and generator key', repr(s.mem[n.f[1].obj])[:300], w.b.where())


def in_key(g, p, kp, field):
    i = shape.index(g.P, M + 'PrivateKeyT', field)
    return isinstance(p, Ptr) and p.obj == kp.obj and p.path == (('f', i),)


def merge(g):
    pids = ('C24', 'C09')
    w = world(g)
    a, b = [w.ref(w.it.mk_trits(w.st, 243, ((Lin(243), 'src', (n,), Lin(0)),), ('S', (n,)))) for n in ('h0', 'h1')]
    outs = w.call(M + 'merge_nodes', [a, b])
    panic_sites(g, pids, w.it, 'merge_nodes')
    g.check(pids, outs, 'merge_nodes: returns', '', w.b.where())
    for s, v in outs:
        e = hm(((Lin(243), 'src', ('h0',), Lin(0)),), ((Lin(243), 'src', ('h1',), Lin(0)),))
        g.check(pids, s.facts.ent_eq(v.f[0] - 243) and s.same_content(s.mem[v.f[1].obj].c, e), 'merge_nodes: hash of the left, then the right operand', repr(s.mem[v.f[1].obj])[:300], w.b.where())


# ------------------------------------------------------------------ path folding
P24 = ('C24',)


def fold_unrolled(g, d):
    w = world(g)
    k = fresh('skn', 0, (1 << 20))
    ap, h = buf(w, 'ap', 243 * d), buf(w, 'h', 243, True)
    outs = w.call(M + 'fold_apath', [k, ap.v, h.v])
    panic_sites(g, P24 + ('C05',), w.it, 'fold_apath')
    g.check(P24, outs, 'fold_apath: returns', '', w.b.where())
    for s, v in outs:
        todo = [(s, h.src(Lin(0), Lin(243)), 0)]
        while todo:
            z, c, j = todo.pop()
            if j == d:
                x = got(w, z, h, Lin(0), 243)
                g.check(P24 + ('C09', 'C15'), z.same_content(x, c), 'fold_apath: even index left, odd index right, halving per level (paths of %d nodes)' % d, 'got %s' % repr(x)[:300], w.b.where())
                continue
            bit = I.pos_div(k, 1 << j) - I.pos_div(k, 2 << j) * 2
            sib = ap.src(Lin(243 * j), Lin(243))
            for val, e in ((0, hm(c, sib)), (1, hm(sib, c))):
                for y in z.copy().assume(f_eq(bit - val), True):
                    if y.facts.consistent():
                        todo.append((y, e, j + 1))


def fold_loop(g):
    w = world(g)
    it = w.it
    it.loop_hook = loops.summarise
    it.summ_rkind = 'src'
    it.summ_report = w.reps.append
    it.summ_filter = lambda b, bb: b.npath.startswith(M)
    k = fresh('skn', 0, 1 << 30)
    ap, h = w.slice('ap'), buf(w, 'h', 243, True)
    nn = fresh('levels', 0, 1 << 20)
    w.st.facts.add_eq(ap.size - nn * 243)
    w.call(M + 'fold_apath', [k, ap.v, h.v])
    where = w.b.where()
    if len(w.reps) != 1:
        raise I.Unsupported('%d loops in fold_apath' % len(w.reps))
    R = w.reps[0]
    var = {}
    for i, (key, e0) in R.vars.items():
        if R.entry.same(e0, k):
            var['k'] = (Lin.of(i), key)
        elif R.entry.same(e0, ap.d):
            var['d'] = (Lin.of(i), key)
    if set(var) != {'k', 'd'}:
        raise I.Unsupported('loop variables of fold_apath')
    K, D = var['k'][0], var['d'][0]
    for s in R.backs:
        k2, d2 = R.at_back(s, K), R.at_back(s, D)
        g.check(P24, s.facts.ent_ge(k2 * 2 - K + 1) and s.facts.ent_ge(K - k2 * 2), 'fold_apath: the index halves per level', 'from %r to %r' % (K, s.canon(k2)), where)
        g.check(P24, s.facts.ent_eq(d2 - D - 243), 'fold_apath: one path node per level, in order', 'from %r to %r' % (D, s.canon(d2)), where)
        old = s.norm_content(it.read_region(s, R.head.mem[h.obj], h.d, Lin(243)))
        new = got(w, s, h, Lin(0), 243)
        sib = s.norm_content(((Lin(243), 'src', ('ap',), D),))
        even = s.facts.ent_eq(K - k2 * 2)
        odd = s.facts.ent_eq(K - k2 * 2 - 1)
        if not even and not odd:
            # order not decided by the parity of the index
            g.check(P24, False, 'fold_apath: the order is chosen by the lowest bit of the index', '', where)
            continue
        g.check(P24, s.same_content(new, hm(old, sib) if even else hm(sib, old)), 'fold_apath: %s' % ('even index: running value left' if even else 'odd index: running value right'),
                'got %s' % repr(new)[:300], where)
    for s, _ in R.exits:
        g.check(P24, s.facts.ent_eq(ap.n - D), 'fold_apath: stops exactly at the end of the path', 'stops at %r' % s.canon(ap.n - D), where)
        g.check(P24, s.mem[h.obj] == R.head.mem[h.obj], 'fold_apath: nothing happens after the last node', '', where)


# ------------------------------------------------------------------ verification
def fold_term(s, k, ap, h):
    return ((Lin(243), 'fold', (s.canon(k), s.norm_content(ap), s.norm_content(h)), Lin(0)),)


def fold_hook(it, st, a, c, t):
    b, o, n = it.sl(st, a[1])
    b2, o2, n2 = it.sl(st, a[2])
    out = []
    for s in it.require(st, f_and(f_ge(a[0]), f_eq(n2 - 243)), 'panic', 'fold of a wrong size'):
        ap = it.get_content(s, b, o, n)
        h = it.get_content(s, b2, o2, n2)
        if s.decide(f_eq(n)) is True:
            ap = ()
        it.put_content(s, b2, o2, fold_term(s, a[0], ap, h))
        s.event('fold')
        out.append((s, UNIT))
    return out


def recover(g, signed):
    """Recovery from arbitrary input, or from a signature of any permitted key."""
    w = world(g)
    it = w.it
    it.hooks[M + 'fold_apath'] = fold_hook
    st = w.st
    hs = buf(w, 'hash', 234)
    pk = buf(w, 'pk', 243, True)
    lab = 'recover of a signature' if signed else 'recover'
    pids = P15 + (() if signed else ('C05', 'C04'))
    x = w.slice('sig')
    if signed:
        h = fresh('h', 0, 20)
        k = key_numbers(st, h)
        st.facts.add_eq(x.size - h * 243 - HEAD - SIG)
        c = header(st, h, k) + ((Lin(SIG), 'wsig', ('leafkey', st.norm_content(hs.src(Lin(0), Lin(234)))), Lin(0)), (h * 243, 'src', ('ap',), Lin(0)))
        reg = it.write_region(st, st.mem[x.obj], x.d, c)
        st.mem[x.obj] = reg
    outs = w.call(M + 'recover', [pk.v, hs.v, x.v])
    where = w.b.where()
    panic_sites(g, pids, it, lab)
    g.check(pids, outs, '%s: returns' % lab, '', where)
    for s, v in outs:
        if signed:
            tot = h * 243 + HEAD + SIG
            g.check(pids, v.var == 1, '%s: accepted for every height and key number' % lab, 'rejected', where)
            if v.var != 1:
                continue
            ap, wp = ((h * 243, 'src', ('ap',), Lin(0)),), ((Lin(243), 'wpk', 'leafkey', Lin(0)),)
        else:
            h, k = head_of(w, s, x)
            tot = h * 243 + HEAD + SIG
            if v.var == 0:
                bad = []
                for z in s.copy().assume(f_ge(x.size - HEAD), True):
                    for z in z.assume(cond(h, k), True):
                        bad += [y for y in z.assume(f_ge(x.size - tot), True) if y.facts.consistent()]
                g.check(pids, not bad, '%s: rejects no well-formed signature' % lab, '', where)
                continue
            g.check(pids, all(s.decide(f) is True or s.facts.ent_ge(f[1]) for f in (f_ge(h), f_ge(k), f_ge(pow2(h) - k - 1), f_ge(x.size - tot))),
                    '%s: accepts only 0 <= height, 0 <= key number < 2^height and enough trits' % lab,
                    'accepts height %r, key number %r with %r trits' % (s.facts.bounds(h), s.facts.bounds(k), s.facts.bounds(x.size - tot)), where)
            ap = x.src(Lin(HEAD + SIG), h * 243)
            wp = ((Lin(243), 'wrec', (s.norm_content(hs.src(Lin(0), Lin(234))), s.norm_content(x.src(Lin(HEAD), Lin(SIG)))), Lin(0)),)
        g.check(pids, s.same(v.f[0], tot), '%s: reports the complete size of the signature' % lab, repr(v), where)
        c = got(w, s, pk, Lin(0), 243)
        es = [fold_term(s, k, ap, wp)]
        if s.decide(f_eq(h)) is True:
            es += [fold_term(s, k, (), wp), s.norm_content(wp)]
        g.check(pids, any(same_fold(s, c, e) for e in es), '%s: folds the recovered leaf along the path selected by the key number' % lab, 'got %s' % repr(c)[:400], where)


def same_fold(s, a, b):
    if s.same_content(a, b):
        return True
    if len(a) == 1 and len(b) == 1 and a[0][1] == b[0][1] == 'fold':
        (k, ap, h), (k2, ap2, h2) = a[0][2], b[0][2]
        return s.facts.ent_eq(k - k2) and s.same_content(h, h2) and (s.same_content(ap, ap2) or s.facts.ent_eq(clen(ap)) and s.facts.ent_eq(clen(ap2)))
    return False


def verify(g):
    pids = P15 + ('C04', 'C05')

    def rec(it, st, a, c, t):
        b, o, n = it.sl(st, a[0])
        hb, ho, hn = it.sl(st, a[1])
        sb, so, sn = it.sl(st, a[2])
        h = st.norm_content(it.get_content(st, hb, ho, hn))
        x = st.norm_content(it.get_content(st, sb, so, sn))
        yes = st.must(OKF)
        st.event('mrec', h, x)
        if yes:
            it.put_content(st, b, o, ((L(243), 'mrec', (), Lin(0)),))
            return some(size)
        it.put_content(st, b, o, ((L(243), 'mpart', (), Lin(0)),))
        return NONE
    size = fresh('msize', 0, 1 << 40)
    OKF = ('op', ('mrec',))

    def asked(s, hs, x):
        ev = [e for e in s.events() if e[0] == 'mrec']
        return len(ev) == 1 and s.same_content(ev[0][1], hs.src(Lin(0), Lin(234))) and s.same_content(ev[0][2], x.src(Lin(0), x.size))

    def one(path):
        w = world(g)
        w.it.hooks[M + 'recover'] = rec
        x = w.slice('sig')
        hs = buf(w, 'hash', 234)
        y = buf(w, 'pk', 243)
        if path.endswith('PublicKey::verify'):
            w.st.facts.add_eq(y.d)
            w.st.facts.add_eq(y.N - 243)
            a0 = w.ref(shape.make(g.P, M + 'PublicKey', pk=Agg('trits::trits::TritsT', None, [Lin(243), VecV(y.obj)])))
        else:
            a0 = y.v
        outs = w.call(path, [a0, hs.v, x.v])
        where = w.b.where()
        panic_sites(g, pids, w.it, path)
        g.check(pids, outs, '%s: returns' % path, '', where)
        for s, v in outs:
            g.check(pids, asked(s, hs, x), '%s: recovers from the given hash and the complete signature' % path, repr(s.events())[:300], where)
            okf = OKF
            e = eq_content(w.it, s, ((Lin(243), 'mrec', (), Lin(0)),), y.src(Lin(0), Lin(243)))
            good = f_and(f_and(okf, f_eq(x.size - size)), e)
            for z in s.copy().assume(v, True):
                if z.facts.consistent():
                    g.check(pids + ('C25',), z.decide(okf) is True and z.facts.ent_eq(x.size - size) and z.decide(e) is True,
                            '%s: accepts only a signature of exactly this size whose recovered key is the complete public key' % path,
                            '%r %r %r' % (z.decide(okf), z.facts.ent_eq(x.size - size), z.decide(e)), where)
            for z in s.copy().assume(v, False):
                if z.facts.consistent():
                    bad = [q for q in z.assume(good, True) if q.facts.consistent()]
                    g.check(pids, not bad, '%s: accepts every valid signature' % path, '', where)
    for p in (M + 'verify', M + 'PublicKey::verify'):
        g.guard(lambda p=p: one(p), p, pids, ())

    def rcv():
        w = world(g)
        w.it.hooks[M + 'recover'] = rec
        x = w.slice('sig')
        hs = buf(w, 'hash', 234)
        outs = w.call(M + 'PublicKey::recover', [hs.v, x.v])
        where = w.b.where()
        panic_sites(g, pids, w.it, 'PublicKey::recover')
        for s, v in outs:
            okf = s.decide(OKF)
            g.check(pids, asked(s, hs, x) and okf is (v.var == 1), 'PublicKey::recover: succeeds exactly when recovery does', repr(v)[:200], where)
            if v.var == 1:
                k, n = v.f[0].f
                t = shape.get(g.P, k, M + 'PublicKey', 'pk')
                g.check(pids, s.same(n, size) and s.facts.ent_eq(t.f[0] - 243) and s.same_content(s.mem[t.f[1].obj].c, ((Lin(243), 'mrec', (), Lin(0)),)),
                        'PublicKey::recover: returns the recovered key and size', repr(s.mem[t.f[1].obj])[:200], where)
    g.guard(rcv, 'PublicKey::recover', pids, ())


def run(g):
    if g.wants('C15', 'C16', 'C03', 'C05'):
        g.guard(sizes, 'sizes', P15)
        g.guard(skn_codec, 'skn codec', P15 + ('C16',))
    if g.wants('C16', 'C21'):
        leaves(g)
    if g.wants('C15', 'C16', 'C17', 'C13'):
        for h in range(21):
            for _ in histories(g, h):
                g.guard(lambda h=h: sign(g, h), 'sign', P15 + ('C16',), ())
        for _ in histories(g, 1):
            g.guard(sign_sizes, 'sign', P15)
    if g.wants('C15', 'C16', 'C17', 'C21'):
        for _ in histories(g, 3):
            accessors(g)
        g.guard(lambda: keygen(g), 'gen', ('C16', 'C17', 'C15'), ())
    if g.wants('C24', 'C09'):
        g.guard(merge, 'merge_nodes', ('C24', 'C09'))
    if g.wants('C24', 'C09', 'C15', 'C05'):
        for d in range(5):
            g.guard(lambda d=d: fold_unrolled(g, d), 'fold_apath', P24, ())
        g.guard(fold_loop, 'fold_apath', P24)
    if g.wants('C15', 'C04', 'C05', 'C25'):
        g.guard(lambda: recover(g, False), 'recover', P15 + ('C05',), ())
        g.guard(lambda: recover(g, True), 'recover of a signature', P15, ())
        verify(g)
