"""Keyload: the message with recipient lists. Transcript and mirror obligations for small recipient lists, hostile
input with loop summaries for lists of any length."""
from .lin import Lin, L, atom, fresh, ATOMS
from .vals import *
from . import interp as I
from . import contracts as C
from . import msgs as M
from . import loops
from .models import eq_content, some, ok, err, NONE
from .group import panic_sites
from .messages import Msg, Env, Tr, Group, content_of, slice_d, show, CH, Missing, decide_check, check_pids, where, SIZE_MAX, size_piece, size_len


def src(name, n):
    return ((L(n), 'src', (name,), Lin(0)),)


class Keyload(Msg):
    name = 'Keyload'
    mod = CH + 'keyload'

    def __init__(self, p, q, who=None):
        self.np, self.nq = p, q
        self.who = who

    def trits(self, e, name, n, c=None):
        return e.it.mk_trits(e.st, n, c or src(name, n), ('S', (name, 'buf')))

    def obj(self, e, name, v):
        o = ('S', (name,))
        e.st.mem[o] = v
        return Ptr(o)

    def iterp(self, e, name, items):
        vo = ('S', (name, 'items'))
        e.st.mem[vo] = Seq(len(items), tuple(items))
        return self.obj(e, name, Agg('viter', None, (VecV(vo), Lin(0), Lin(len(items)))))

    def npk(self, j):
        return ((Lin(9216), 'ntrupk', (('S', ('nsk', j)), ()), Lin(0)),)

    def iters(self, e, tag):
        ps = [Agg('tuple', None, (self.obj(e, 'pskid%d' % i, self.trits(e, 'pskid%d' % i, 81)), self.obj(e, 'psk%d' % i, self.trits(e, 'psk%d' % i, 243))))
              for i in range(self.np)]
        ns = [Agg('tuple', None, (self.obj(e, 'pkid%d' % j, self.trits(e, 'pkid%d' % j, 81)),
                                  self.obj(e, 'npk%d' % j, Agg('ntru::PublicKey', None, (self.trits(e, 'npk%d' % j, 9216, self.npk(j)), Opq(('polyof',)))))))
              for j in range(self.nq)]
        return self.iterp(e, 'psks' + tag, ps), self.iterp(e, 'ntrus' + tag, ns)

    def build(self, e):
        b = e.body(self.p('wrap'))
        self.msgid = e.trits_slice('msgid', 81)
        self.nonce = self.obj(e, 'nonce', self.trits(e, 'nonce', 81))
        self.prng = e.ref(b, 5, 'prng')
        self.key = self.obj(e, 'key', self.trits(e, 'key', 243))
        it1, it2 = self.iters(e, '')
        return [self.msgid, e.sponge('slink'), self.nonce, it1, it2, self.prng, self.key]

    def sizes_args(self, e):
        return list(self.iters(e, 'sz'))

    def write(self, e, st, t):
        b, o, n = e.it.sl(st, self.msgid)
        t.put(e.it.get_content(st, b, o, n))
        t.join(('slink',))
        t.absorb(src('nonce', 81))
        t.absorb((size_piece(Lin(self.np)),))
        for i in range(self.np):
            f = Tr(st, t.s)
            f.absorb(src('pskid%d' % i, 81))
            f.ext(src('psk%d' % i, 243))
            f.commit()
            f.mask(src('key', 243))
            t.put(f.out)
        t.absorb((size_piece(Lin(self.nq)),))
        for j in range(self.nq):
            f = Tr(st, t.s)
            f.absorb(src('pkid%d' % j, 81))
            f.kem(self.npk(j), src('key', 243), src('nonce', 81), M.obj_key(self.prng))
            t.put(f.out)
        t.ext(src('key', 243))
        t.commit()

    def link(self, e, st):
        b, o, n = e.it.sl(st, self.msgid)
        return st.norm_content(e.it.get_content(st, b, o, n))

    def reader_args(self, e, fn):
        b = e.body(self.p(fn))
        pm = Ptr(('S', ('pskmap',)))
        nm = Ptr(('S', ('ntrumap',)))
        e.st.mem[pm.obj] = Opq(('map',))
        e.st.mem[nm.obj] = Opq(('map',))
        e.maps = {M.obj_key(pm): [], M.obj_key(nm): []}
        if self.who and not e.hostile:
            k, i = self.who
            if k == 'psk':
                e.maps[M.obj_key(pm)].append((src('pskid%d' % i, 81), Ptr(('S', ('psk%d' % i,)))))
            else:
                e.maps[M.obj_key(nm)].append((src('pkid%d' % i, 81), Ptr(('S', ('nsk', i)))))
        return [FnSym('lookup'), pm, nm]

    def expect(self, e, st, fn):
        return []

    def result_fields(self, e, st, v, fn):
        return []

    no_hostile = True

    def read(self, e, st, t, fields, fn, v):
        t.take(81)
        t.join(('slink',))
        t.r_absorb(81)
        key = None
        p = self.sizes[0]
        t.r_absorb(size_len(p))
        n = 0
        while key is None and n < p.c:
            n += 1
            f = Tr(st, t.s, t.rd)
            f.off = t.off
            idc = st.norm_content(f.r_absorb(81))
            mk = (('S', ('pskmap',)), ())
            if st.decide(('op', ('mapget', mk, idc))) is True:
                k = ('mapv', mk, idc)
                f.ext(((Lin(243), 'src', k + ('*',), Lin(0)),))
                f.commit()
                key = f.r_mask(243)
            else:
                f.off = f.off + 243
            t.off = f.off
        t.off = t.off + (p - n) * 324
        q = self.sizes[1]
        t.r_absorb(size_len(q))
        n = 0
        while key is None and n < q.c:
            n += 1
            f = Tr(st, t.s, t.rd)
            f.off = t.off
            idc = st.norm_content(f.r_absorb(81))
            mk = (('S', ('ntrumap',)), ())
            if st.decide(('op', ('mapget', mk, idc))) is True:
                me = (('S', ('mapv', mk, idc)), ())
                key = f.r_kem(me)
                t.checks += f.checks
            else:
                f.off = f.off + 9216
            t.off = f.off
        t.off = t.off + (q - n) * (81 + 9216)
        if key is None:
            raise ValueError('Ok without a key')
        t.ext(key)
        t.commit()
        return []


CONFIGS = [(1, 0, ('psk', 0)), (2, 0, ('psk', 0)), (2, 0, ('psk', 1)), (0, 1, ('ntru', 0)), (0, 2, ('ntru', 1)), (0, 2, ('ntru', 0)), (1, 1, ('psk', 0)), (2, 2, ('psk', 1)),
           (1, 1, ('ntru', 0)), (2, 2, ('ntru', 1))]

MORE = [(p, q, (k, i)) for p in range(4) for q in range(4) for k, n in (('psk', p), ('ntru', q)) for i in range(n) if (p, q, (k, i)) not in CONFIGS]


def run(g):
    from . import messages as MS
    for p, q, who in CONFIGS + (MORE if g.tier == 'thorough' else []):
        def mk():
            m = Keyload(p, q, who)
            m.variant = '%d PSKs, %d NTRU keys, reader has %s key %d' % (p, q, who[0], who[1])
            return m
        g.guard(MS.run_message, 'Keyload', MS.MP, (g, mk))
    # arbitrary input, small recipient counts: checks and transcript
    g.guard(hostile_small, 'Keyload', ('C04', 'C02'), (g, lambda: Keyload(0, 0), 3 if g.tier == 'thorough' else 2))
    g.guard(hostile_any, 'Keyload', ('C05',))


def small_sizes(H, mx):
    """Restrict decoded counts to 0..mx."""
    def wr(f):
        def h(it, st, a, c, t):
            rs = f(it, st, a, c, t)
            rs = rs if isinstance(rs, list) else [(st, rs)]
            out = []
            for s, v in rs:
                if isinstance(v, Agg) and v.var == 0:
                    n = v.f[0].f[0]
                    for k in range(mx + 1):
                        for x in s.copy().assume(f_eq(n - k), True):
                            # make the chosen count explicit everywhere before going on
                            for o in list(x.mem):
                                x.mem[o] = x.canon_term(x.mem[o])
                            out.append((x, x.canon_term(v)))
                else:
                    out.append((s, v))
            return out
        return h
    for k in list(H):
        if isinstance(k, str) and k.startswith('<pb3::typ::size::Size as') and k.endswith('_sized'):
            H[k] = wr(H[k])


def hostile_small(g, mk, mx):
    m = mk()
    e = Env(g.P)
    small_sizes(e.it.hooks, mx)
    e.hostile = True
    e.info = 'unit'
    it, st = e.it, e.st
    fn = 'unwrap'
    rb = e.body(m.p(fn))
    R = where(e, m.p(fn))
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st.assume(f_ge(N - d0), True)
    ra = m.reader_args(e, fn)
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, False)
    rs = it.exec_body(st, rb, ra + [s, b])
    src_ = lambda o, k: ((L(k), 'src', ('buf',), L(o)),)
    nok = 0
    for st5, v in rs:
        if not isinstance(v, Agg) or v.var != 0:
            continue
        nok += 1
        m.sizes = [st5.canon(ev[1]) for ev in st5.events() if ev[0] == 'size']
        t = Tr(st5, ('s0',), lambda o, k: src_(d0 + o, k))
        try:
            m.read(e, st5, t, [], fn, v)
        except (IndexError, ValueError) as x:
            g.check(('C04', 'C02'), False, 'Keyload::unwrap: Ok implies a recipient key was found', 'a path returns Ok without a recipient key', R)
            continue
        for ck in t.checks:
            cond, what = decide_check(it, st5, ck)
            g.check(check_pids(ck), cond, 'Keyload::unwrap: Ok implies %s' % what, 'a path returns Ok without this check having succeeded', R)
        rsp = st5.mem[s.obj].t
        g.check(('C02', 'C04'), st5.same(rsp, t.s), 'Keyload::unwrap reader sponge transcript follows the PB3 description',
                'sponge after unwrap %s; documented %s' % (show(st5.canon_term(rsp)), show(st5.canon_term(t.s))), R)
        d2, _, _ = slice_d(it, st5, b)
        g.check(('C02', 'C04'), st5.same(d2, d0 + t.off), 'Keyload::unwrap consumes the documented fields',
                'ends at %r, documented %r' % (st5.canon(d2), st5.canon(d0 + t.off)), R)
    g.check(('C04', 'C02'), nok, 'Keyload::unwrap has a successful outcome', 'no path returns Ok', R)
    g.use(it)


def hostile_any(g):
    m = Keyload(0, 0)
    e = Env(g.P)
    e.hostile = True
    e.info = 'unit'
    it, st = e.it, e.st
    it.loop_hook = loops.summarise
    rb = e.body(m.p('unwrap'))
    R = where(e, m.p('unwrap'))
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st.assume(f_ge(N - d0), True)
    ra = m.reader_args(e, 'unwrap')
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, False)
    e.budget = N - d0
    rs = it.exec_body(st, rb, ra + [s, b])
    panic_sites(g, ('C05',), it, 'Keyload::unwrap on arbitrary input')
    for f, what, n in e.big_allocs:
        g.check(('C05',), False, 'Keyload::unwrap: allocation in %s not bounded by the input' % f, '%s of %r elements' % (what, n), R)
    g.check(('C05',), True, 'Keyload::unwrap analysed on arbitrary input (%d outcomes)' % len(rs))
    g.use(it)
