"""The size_t codec: every size, every head, every digit. The balanced division helper is taken by its contract (word group)."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from . import contracts as C
from .group import Missing, panic_sites
from .messages import Env, Tr, slice_d, show
from .fields import find_impl, AB, MK

SZ = 'pb3::typ::size::Size'
MAX = (27 ** 13 - 1) // 2
P11 = ('C11',)


def M(d):
    return (27 ** d - 1) // 2


def sizes_env(P):
    """Message environment without the size contract: the real codec is analysed."""
    e = Env(P)
    for k in [k for k in e.it.hooks if isinstance(k, str) and k.startswith(('pb3::typ::size', '<pb3::typ::size'))]:
        del e.it.hooks[k]

    def mods3(it, st, a, c, t):
        """(r, q) with n = 27 q + r and r balanced; decided for the real function by the word group."""
        n = L(a[0])
        n = st.canon(n)
        if n.is_const():
            r = (n.c + 13) % 27 - 13
            return Agg('tuple', None, (Lin(r), Lin((n.c - r) // 27)))
        r = atom('sizer', (n,), -13, 13)
        q = atom('sizeq', (n,), 0, MAX)
        lo, hi = st.facts.bounds(n)
        st.facts.add_eq(n - q * 27 - r)
        st.facts.tighten(q, -((13 - lo) // 27), (hi + 13) // 27)     # q is an integer
        return Agg('tuple', None, (r, q))
    e.it.hooks['trits::util::mods3_usize'] = mods3
    e.it.no_merge = True
    e.it.unroll = 40
    return e


def count_of(st, n):
    """The number of trytes a size needs, where it is decided on this path; list of (state, d)."""
    out = []
    cur = [st]
    for d in range(14):
        nxt = []
        for s in cur:
            for t in s.copy().assume(f_ge(Lin(M(d)) - n), True):
                if t.facts.consistent():
                    out.append((t, d))
            for t in s.assume(f_ge(Lin(M(d)) - n), False):
                if t.facts.consistent():
                    nxt.append(t)
        cur = nxt
    return out + [(s, None) for s in cur]


def sizeof(g):
    for path, obj in (('pb3::typ::size::sizeof_sizet', False), (SZ + '::sizeof', True)):
        def one(path=path, obj=obj):
            e = sizes_env(g.P)
            b = e.body(path)
            g.fn(b)
            n = fresh('n', 0, (1 << 64) - 1)
            o = ('S', ('size',))
            e.st.mem[o] = Agg(SZ, None, (n,))
            rs = e.it.exec_body(e.st, b, [Ptr(o) if obj else n])
            for p in e.it.panics:
                bad = [x for x in p.state.copy().assume(f_ge(Lin(MAX) - n), True) if x.facts.consistent()]
                g.check(P11 + ('C03',), not bad, '%s: does not panic for any permitted size' % path, '%s at %s' % (p.what, p.where), p.where)
            for s, v in rs:
                for z, d in count_of(s, n):
                    if d is None:
                        g.check(P11, False, '%s: refuses sizes above the maximum' % path, 'returns %r' % (v,), b.where())
                    else:
                        g.check(P11 + ('C03',), z.same(v, Lin(3 * (d + 1))), '%s: %d trytes for sizes in (%d, %d]' % (path, d, M(d - 1) if d else -1, M(d)),
                                'returns %r trits' % (v,), b.where())
            g.use(e.it)
        g.guard(one, path, P11, ())


def digits(it, st, c, d):
    """The head and the d digits in the (plain) codeword."""
    out = []
    for i in range(d + 1):
        out.append(C.get_value(it, st, 3, part(st, c, 3 * i, 3)))
    return out


def part(st, c, off, n):
    """Constant sub-range of a content whose pieces have constant lengths."""
    out = []
    p = 0
    for ln, kind, data, o in st.norm_content(c):
        ln = st.canon(ln)
        if not ln.is_const():
            raise I.Unsupported('codeword of unknown length')
        a, b = max(off, p), min(off + n, p + ln.c)
        if a < b:
            out.append((Lin(b - a), kind, data, L(o) + (a - p)))
        p += ln.c
    return tuple(out)


def wsum(ds):
    v = Lin(0)
    for i, x in enumerate(ds):
        v = v + L(x) * 27 ** i
    return v


def pair(g, mask):
    nm = 'mask' if mask else 'absorb'
    e = sizes_env(g.P)
    it, st = e.it, e.st
    wb = find_impl(g.P, MK if mask else AB, SZ, 'wrap_' + nm)
    rb = find_impl(g.P, MK if mask else AB, SZ, 'unwrap_%s_sized' % nm)
    g.fn(wb)
    g.fn(rb)
    n = fresh('n', 0, MAX)
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st = st.assume(f_ge(N - d0 - 42), True)[0]
    vo = ('S', ('size',))
    st.mem[vo] = Agg(SZ, None, (n,))
    e.st = st
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, True)
    lab = 'wrap_' + nm
    W = wb.where()
    rs = it.exec_body(st, wb, [Ptr(vo), s, b])
    panic_sites(g, P11, it, lab)
    seen = set()
    for st1, _ in rs:
        for z, d in count_of(st1, n):
            seen.add(d)
            dd, _, ptr = slice_d(it, z, b)
            k = 3 * (d + 1)
            if not g.check(P11 + ('C03',), z.same(dd, d0 + k), '%s: a size in (%d, %d] takes %d trytes' % (lab, M(d - 1) if d else -1, M(d), d),
                           'writes %r trits' % (z.canon(dd - d0),), W):
                continue
            code = it.read_region(z, z.mem[('S', ('buf', 'buf'))], d0, Lin(k))
            plain = code
            if mask:
                _, plain = C.decrypt(z, ('s0',), z.norm_content(code))
            plain = z.norm_content(plain)
            ds = digits(it, z, plain, d)
            g.check(P11, z.facts.ent_eq(L(ds[0]) - d), '%s: the head counts the trytes' % lab, 'head %r for %d trytes' % (ds[0], d), W)
            g.check(P11, z.facts.ent_eq(wsum(ds[1:]) - n), '%s: the digits sum up to the size' % lab, '%r' % (ds[1:],), W)
            if d:
                g.check(P11, z.facts.ent_ge(L(ds[d]) - 1), '%s: the last tryte is positive' % lab, '%r' % (ds[d],), W)
            t = Tr(z, ('s0',))
            (t.mask if mask else t.absorb)(plain)
            g.check(P11, z.same(it.read_path(z, s).t, t.s) and z.same_content(code, t.out), '%s: exactly the codeword enters the sponge' % lab,
                    'sponge %s' % show(it.read_path(z, s).t), W)
            pre = it.read_region(z, z.mem[('S', ('buf', 'buf'))], Lin(0), d0)
            post = it.read_region(z, z.mem[('S', ('buf', 'buf'))], dd, N - dd)
            g.check(P11 + ('C13',), z.same_content(pre, ((d0, 'src', ('buf',), Lin(0)),)) and z.same_content(post, ((N - dd, 'src', ('buf',), dd),)),
                    '%s: nothing else is written' % lab, '', W)
            # read it back
            so, ro = ('S', ('sponge', 'reader')), ('S', ('rbuf', 'slice'))
            y = z.copy()
            y.mem[so] = Sp(('s0',))
            y.mem[ro] = Agg('trits::slice::TritSliceT', None, [Agg('trits::slice::SliceRange', None, [N, d0]), ptr, UNIT])
            it.panics.clear()
            rs2 = it.exec_body(y, rb, [Ptr(so), Ptr(ro)])
            for p in it.panics:
                g.check(P11, False, '%s: reading back panics in %s: %s' % (lab, p.fn, p.what), '%r' % p, p.where)
            okc = 0
            for y1, v in rs2:
                good = isinstance(v, Agg) and v.var == 0
                if not g.check(P11 + ('C01',), good, '%s: the reader accepts every written size' % lab, 'may return %r' % (v,), rb.where()):
                    continue
                okc += 1
                g.check(P11 + ('C01',), y1.facts.ent_eq(L(v.f[0].f[0]) - n), '%s: the reader returns the size' % lab, 'returns %r' % (v.f[0],), rb.where())
                d2, _, _ = slice_d(it, y1, Ptr(ro))
                g.check(P11 + ('C01',), y1.same(d2, dd) and y1.same(y1.mem[so].t, it.read_path(z, s).t), '%s: the reader consumes the codeword' % lab, '', rb.where())
            g.check(P11, okc, '%s: the reader succeeds' % lab, '', rb.where())
            it.panics.clear()
    g.check(P11, seen >= set(range(14)), '%s: all lengths covered' % lab, repr(seen), W)
    g.use(it)


def hostile(g, mask):
    nm = 'mask' if mask else 'absorb'
    e = sizes_env(g.P)
    e.hostile = True
    it, st = e.it, e.st
    rb = find_impl(g.P, MK if mask else AB, SZ, 'unwrap_%s_sized' % nm)
    N = fresh('N', 0, 1 << 62)
    d0 = fresh('d0', 0, 1 << 62)
    st = st.assume(f_ge(N - d0), True)[0]
    e.st = st
    s = e.sponge('s0')
    b = e.buffer('buf', N, d0, False)
    lab = 'unwrap_%s_sized on arbitrary input' % nm
    P = P11 + ('C05',)
    rs = it.exec_body(st, rb, [s, b])
    panic_sites(g, P, it, lab)
    W = rb.where()

    def plain(z, k):
        """First k trytes of the input, as read."""
        c = ((Lin(3 * k), 'src', ('buf',), d0),)
        if not mask:
            return [((Lin(3), 'src', ('buf',), d0 + 3 * i),) for i in range(k)]
        out = []
        t = ('s0',)
        for i in range(k):
            t, p = C.decrypt(z, t, ((Lin(3), 'src', ('buf',), d0 + 3 * i),))
            out.append(z.norm_content(p))
        return out
    oks = set()
    for st1, v in rs:
        good = isinstance(v, Agg) and v.var == 0
        short = f_ge(Lin(2) - (N - d0))
        # cases: too short for a head; head outside 0..13; too short for the digits; last digit not positive
        cases = []
        for z in st1.copy().assume(short, True):
            cases.append((z, False, 'shorter than the head'))
        for z in st1.assume(short, False):
            h = C.get_value(it, z, 3, plain(z, 1)[0])
            for y in z.copy().assume(f_and(f_ge(h), f_ge(Lin(13) - h)), False):
                cases.append((y, False, 'head outside 0..13'))
            for y in z.assume(f_and(f_ge(h), f_ge(Lin(13) - h)), True):
                cur = [y]
                for k in range(14):
                    nxt = []
                    for x in cur:
                        for w in x.copy().assume(f_eq(h - k), True):
                            if not w.facts.consistent():
                                continue
                            for u in w.copy().assume(f_ge(N - d0 - 3 * (k + 1)), False):
                                cases.append((u, False, 'fewer trytes than the head announces'))
                            for u in w.assume(f_ge(N - d0 - 3 * (k + 1)), True):
                                if k:
                                    last = C.get_value(it, u, 3, plain(u, k + 1)[k])
                                    for q in u.copy().assume(f_ge(last - 1), False):
                                        cases.append((q, False, 'last tryte not positive'))
                                    u_ = u.assume(f_ge(last - 1), True)
                                else:
                                    u_ = [u]
                                for q in u_:
                                    cases.append((q, k, 'codeword of %d trytes' % k))
                        for w in x.assume(f_eq(h - k), False):
                            if w.facts.consistent():
                                nxt.append(w)
                    cur = nxt
        for z, exp, what in cases:
            if not z.facts.consistent():
                continue
            if exp is False:
                g.check(P, not good, '%s: rejects %s' % (lab, what), 'accepts: %r' % (v,), W)
                continue
            if not g.check(P11, good, '%s: accepts every codeword' % lab, 'rejects a %s: %r' % (what, v), W):
                continue
            oks.add(exp)
            ps = plain(z, exp + 1)
            val = wsum([C.get_value(it, z, 3, p) for p in ps[1:]])
            g.check(P11, z.facts.ent_eq(L(v.f[0].f[0]) - val), '%s: decodes %s least significant first' % (lab, what), 'returns %r' % (v.f[0],), W)
            d, _, _ = slice_d(it, z, b)
            t = Tr(z, ('s0',), lambda o, k: ((L(k), 'src', ('buf',), d0 + o),))
            for i in range(exp + 1):
                (t.r_mask if mask else t.r_absorb)(Lin(3))
            g.check(P11, z.same(d, d0 + 3 * (exp + 1)), '%s: consumes the codeword' % lab, 'ends at %r' % (d - d0,), W)
            g.check(P11, z.same(it.read_path(z, s).t, t.s), '%s: exactly the codeword enters the sponge' % lab, show(it.read_path(z, s).t), W)
    g.check(P11, oks == set(range(14)), '%s: every length is accepted' % lab, repr(oks), W)
    g.use(it)


def run(g):
    if g.wants('C11', 'C03'):
        sizeof(g)
    for mask in (False, True):
        nm = 'mask' if mask else 'absorb'
        if g.wants('C11', 'C01', 'C03', 'C13'):
            g.guard(pair, 'size pair ' + nm, P11, (g, mask))
        if g.wants('C11', 'C05'):
            g.guard(hostile, 'size hostile ' + nm, P11 + ('C05',), (g, mask))
