"""Contracts of the lower layers used while analysing the upper ones. Each contract is itself an analysed property
of the real body (checked by the word, slice and sponge groups)."""
from .lin import Lin, L, atom, fresh
from .vals import *
from . import interp as I
from .models import eq_content, some, ok, err, NONE, deref

W = 'trits::b1t1::<impl trits::word::TritWord for u8>::'
P3 = {1: 1, 3: 13, 6: 364, 9: 9841, 18: 193710244}


def bal(v, n):
    """Balanced ternary digits of v as trits 0..2."""
    out = []
    for _ in range(n):
        r = (v + 1) % 3 - 1
        out.append(r % 3)
        v = (v - r) // 3
    return tuple(out)


def unbal(ds):
    v = 0
    for d in reversed(ds):
        v = v * 3 + (d if d < 2 else -1)
    return v


def put_piece(st, n, v):
    v = st.canon(v)
    if v.is_const():
        if v.c == 0:
            return zero(n)
        return ((Lin(n), 'const', bal(v.c, n), Lin(0)),)
    if len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
        A = I.ATOMS[v.t[0][0]]
        if A.kind == 'get' and A.args[0] == n:
            return A.args[1]
        if A.kind == 'getc' and A.args[1] == n:
            return A.args[2]
    return ((Lin(n), 'put', (n, v), Lin(0)),)


def get_value(it, st, n, c):
    c = st.norm_content(st.canon_term(c))
    if not c:
        return Lin(0)
    if all(p[1] in ('zero', 'const', 'val') and p[0].is_const() and p[3].is_const() for p in c):
        ds = []
        okk = True
        for p in c:
            for j in range(p[0].c):
                if p[1] == 'zero':
                    ds.append(0)
                elif p[1] == 'const':
                    ds.append(p[2][p[3].c + j])
                else:
                    x = st.canon(p[2])
                    if not x.is_const():
                        okk = False
                        break
                    ds.append(x.c)
        if okk:
            return Lin(unbal(ds))
    m = (3 ** n - 1) // 2
    p = c[0]
    if p[1] == 'put' and p[3] == Lin(0):
        N, v = p[2]
        if len(c) == 1 and N == n:
            if st.decide(f_and(f_ge(v + m), f_ge(Lin(m) - v))) is True:
                return v
        # the low k trits of put(N, v) followed by zeros
        if p[0].is_const() and len(c) == 2 and c[1][1] == 'zero':
            k = p[0].c
            mk = (3 ** k - 1) // 2
            if st.decide(f_and(f_ge(v + mk), f_ge(Lin(mk) - v))) is True:
                return v
    k = n
    if c[-1][1] == 'zero' and c[-1][0].is_const():
        k -= c[-1][0].c
        m = (3 ** k - 1) // 2
    return atom('get', (n, c), -m, m)


def tw_hooks():
    H = {}

    def base(p, d):
        return p.base(), p.off() + d

    def copy(it, st, a, c, t):
        n, dx, x, dy, y = a
        b, o = base(x, dx)
        cc = it.get_content(st, b, o, n)
        b, o = base(y, dy)
        it.put_content(st, b, o, cc)
        return UNIT

    def set_zero(it, st, a, c, t):
        n, d, p = a
        b, o = base(p, d)
        it.put_content(st, b, o, zero(n))
        return UNIT

    def eq(it, st, a, c, t):
        n, dx, x, dy, y = a
        b, o = base(x, dx)
        c1 = it.get_content(st, b, o, n)
        b, o = base(y, dy)
        c2 = it.get_content(st, b, o, n)
        return eq_content(it, st, c1, c2)

    def put_trit(it, st, a, c, t):
        d, p, v = a
        b, o = base(p, d)
        it.put_content(st, b, o, (I._trit_piece(v) or (Lin(1), 'val', v, Lin(0)),))
        return UNIT

    def get_trit(it, st, a, c, t):
        d, p = a
        b, o = base(p, d)
        return it.trit_at(st, it.get_content(st, b, o, Lin(1)))

    def put_tryte(it, st, a, c, t):
        d, p, v = a
        out = []
        for s in it.require(st, f_and(f_ge(v), f_ge(Lin(26) - v)), 'panic', 'put_tryte of a value outside 0..27'):
            b, o = base(p, d)
            v2 = s.canon(v)
            if v2.is_const():
                pc = zero(3) if v2.c == 0 else ((Lin(3), 'const', (v2.c % 3, v2.c // 3 % 3, v2.c // 9), Lin(0)),)
            elif len(v2.t) == 1 and v2.c == 0 and v2.t[0][1] == 1 and I.ATOMS[v2.t[0][0]].kind == 'gett':
                pc = I.ATOMS[v2.t[0][0]].args[0]
            else:
                pc = ((Lin(3), 'putt', v2, Lin(0)),)
            it.put_content(s, b, o, pc)
            out.append((s, UNIT))
        return out

    def get_tryte(it, st, a, c, t):
        d, p = a
        b, o = base(p, d)
        cc = st.norm_content(st.canon_term(it.get_content(st, b, o, Lin(3))))
        if len(cc) == 1 and cc[0][1] == 'putt' and cc[0][3] == Lin(0):
            return cc[0][2]
        if all(q[1] in ('zero', 'const') and q[0].is_const() and q[3].is_const() for q in cc):
            ds = []
            for q in cc:
                ds += [0] * q[0].c if q[1] == 'zero' else list(q[2][q[3].c:q[3].c + q[0].c])
            return Lin(ds[0] + 3 * ds[1] + 9 * ds[2])
        return atom('gett', (cc,), 0, 26)

    def mkput(n):
        def put(it, st, a, c, t):
            d, p, v = a
            b, o = base(p, d)
            if n in (1, 3):
                it.asserts += 1
            it.put_content(st, b, o, put_piece(st, n, v))
            return UNIT
        return put

    def mkget(n):
        def get(it, st, a, c, t):
            d, p = a
            b, o = base(p, d)
            cc = it.get_content(st, b, o, Lin(n))
            return get_value(it, st, n, cc)
        return get
    def add_sub(kind, swap):
        def f(it, st, a, c, t):
            if swap:
                n, dx, x, ds, s = a
                dy, y = dx, x
            else:
                n, dx, x, ds, s, dy, y = a
            b, o = base(x, dx)
            cx = st.norm_content(it.get_content(st, b, o, n))
            b, o = base(s, ds)
            cs = st.norm_content(it.get_content(st, b, o, n))
            r = ((L(n), kind, (cx, cs), Lin(0)),)
            if st.decide(f_eq(L(n))) is True:
                r = ()
            b, o = base(y, dy)
            it.put_content(st, b, o, r)
            b, o = base(s, ds)
            it.put_content(st, b, o, cx if kind == 'tadd' else r)
            return UNIT
        return f
    H[W + 'unsafe_swap_add'] = add_sub('tadd', True)
    H[W + 'unsafe_swap_sub'] = add_sub('tsub', True)
    H[W + 'unsafe_copy_add'] = add_sub('tadd', False)
    H[W + 'unsafe_copy_sub'] = add_sub('tsub', False)
    H[W + 'zero'] = lambda it, st, a, c, t: Lin(0)
    H[W + 'unsafe_copy'] = copy
    H[W + 'unsafe_set_zero'] = set_zero
    H[W + 'unsafe_eq'] = eq
    H[W + 'put_trit'] = put_trit
    H[W + 'get_trit'] = get_trit
    H[W + 'put_tryte'] = put_tryte
    H[W + 'get_tryte'] = get_tryte
    for n in P3:
        H[W + 'put%d' % n] = mkput(n)
        H[W + 'get%d' % n] = mkget(n)
    return H


# ---------------------------------------------------------------- sponge
S = 'spongos::Spongos::'


def enc_split(s):
    if s[0] == 'encs':
        return s[1], s[2]
    return s, ()


def encrypt(st, s, c):
    """(new state, ciphertext content)."""
    c = st.norm_content(c)
    S0, P = enc_split(s)
    out = []
    for p in c:
        k = clen(P)
        if p[1] == 'dec' and p[3] == Lin(0) and st.same(p[2][0], S0) and st.same_content(p[2][1], P) and st.same(clen(p[2][2]), p[0]):
            out.extend(p[2][2])
            P = norm(P + (p,))
            continue
        P = norm(P + (p,))
        out.append((p[0], 'enc', (S0, P), k))
    return sp_encs(S0, P), norm(tuple(out))


def decrypt(st, s, c):
    """(new state, plaintext content)."""
    c = st.norm_content(c)
    S0, P = enc_split(s)
    out = []
    for p in c:
        pl = None
        if p[1] == 'enc':
            S1, C = p[2]
            if st.same(S1, S0) and st.same(p[3], clen(P)) and st.same_content(slice_content_exact(C, Lin(0), p[3], st.ge, st.dge), P):
                pl = slice_content_exact(C, p[3], p[0], st.ge, st.dge)
        if pl is None:
            pl = ((p[0], 'dec', (S0, P, (p,)), Lin(0)),)
        out.extend(pl)
        P = norm(P + tuple(pl))
    return sp_encs(S0, P), norm(tuple(out))


def sponge_hooks():
    H = {}

    def rd(it, st, p):
        v = it.read_path(st, p)
        if not isinstance(v, Sp):
            raise I.Unsupported('sponge %r' % (v,))
        return v.t

    def content(it, st, x):
        b, o, n = it.sl(st, x)
        return b, o, n, it.get_content(st, b, o, n)

    def init(it, st, a, c, t):
        return Sp(INIT)

    def absorb(it, st, a, c, t):
        _, _, _, cc = content(it, st, a[1])
        s = rd(it, st, a[0])
        it.write_path(st, a[0], Sp(sp_abs(s, st.norm_content(cc))))
        return UNIT

    def squeeze(it, st, a, c, t):
        b, o, n = it.sl(st, a[1])
        s = rd(it, st, a[0])
        if st.decide(f_eq(n)) is True:
            return UNIT
        it.put_content(st, b, o, sq_content(s, n))
        it.write_path(st, a[0], Sp(sp_sqs(s, n)))
        return UNIT

    def squeeze_eq(it, st, a, c, t):
        _, _, n, cc = content(it, st, a[1])
        s = rd(it, st, a[0])
        r = eq_content(it, st, sq_content(s, n), cc)
        it.write_path(st, a[0], Sp(sp_sqs(s, n)))
        st.event('sqeq', s, n, st.norm_content(cc), r)
        return r

    def crypt(f):
        def h(it, st, a, c, t):
            _, _, n, cc = content(it, st, a[1])
            b, o, m = it.sl(st, a[2])
            s = rd(it, st, a[0])
            out = []
            for x in it.require(st, f_eq(n - m), 'panic', 'encr/decr of slices of different sizes'):
                s2, r = f(x, s, cc)
                it.put_content(x, b, o, r)
                it.write_path(x, a[0], Sp(s2))
                out.append((x, UNIT))
            return out
        return h

    def commit(it, st, a, c, t):
        it.write_path(st, a[0], Sp(sp_com(rd(it, st, a[0]))))
        return UNIT

    def clone(it, st, a, c, t):
        return Sp(rd(it, st, a[0]))

    def clone_from(it, st, a, c, t):
        it.write_path(st, a[0], Sp(rd(it, st, a[1])))
        return UNIT

    def to_inner(it, st, a, c, t):
        b, o, n = it.sl(st, a[1])
        s = rd(it, st, a[0])
        out = []
        f = True if s[0] in ('com', 'init') else ('op', ('committed', s))
        for x in it.require(st, f_and(f, f_eq(n - 243)), 'panic', 'to_inner of an uncommitted state'):
            it.put_content(x, b, o, ((L(n), 'inner', s, Lin(0)),))
            out.append((x, UNIT))
        return out

    def from_inner(it, st, a, c, t):
        _, _, n, cc = content(it, st, a[0])
        return [(x, Sp(('restored', x.norm_content(cc)))) for x in it.require(st, f_eq(n - 243), 'panic', 'from_inner of a wrong size')]

    H[S + 'init'] = init
    H[S + 'absorb'] = absorb
    H[S + 'squeeze'] = squeeze
    H[S + 'squeeze_eq'] = squeeze_eq
    H[S + 'encr'] = crypt(encrypt)
    H[S + 'decr'] = crypt(decrypt)
    H[S + 'commit'] = commit
    H['<spongos::Spongos as std::clone::Clone>::clone'] = clone
    H['<spongos::Spongos as std::clone::Clone>::clone_from'] = clone_from
    H[S + 'to_inner'] = to_inner
    H[S + 'from_inner'] = from_inner
    return H
