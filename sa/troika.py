"""The Troika permutation: bit-sliced arithmetic, the steps of a round and the order of the steps (C26, C33, C23, C12)."""
from . import flat
from .flat import A, R, Flat, Cond, Dom, Panic
from .group import Missing
from .interp import Unsupported
from . import troika_spec as S

T27 = 'troika::T27::'
TR = 'troika::Troika::'
M27 = (1 << 27) - 1


# ------------------------------------------------------------------ boolean functions as truth tables
_VT = {}


def var_table(i, n):
    """Truth table of variable i among n."""
    k = (i, n)
    t = _VT.get(k)
    if t is None:
        blk = ((1 << (1 << i)) - 1) << (1 << i)
        t = 0
        w = 1 << (i + 1)
        t = blk
        size = w
        while size < (1 << n):
            t |= t << size
            size *= 2
        _VT[k] = t
    return t


class TooWide(Unsupported):
    pass


class BF:
    """Boolean function: sorted variables and a truth table (bit i of the index is the i-th variable)."""
    __slots__ = ('v', 't')

    def __init__(self, v, t):
        self.v = v
        self.t = t

    def __repr__(self):
        return 'BF%r' % (self.v,)


def bvar(i):
    return BF((i,), 2)


def lift(f, vs):
    """Truth table of f over the variables vs (a superset)."""
    if f.v == vs:
        return f.t
    n = len(vs)
    t, cur = f.t, f.v
    # insert missing variables one at a time, from the lowest position
    for i, x in enumerate(vs):
        if i < len(cur) and cur[i] == x:
            continue
        m = len(cur)
        blk = 1 << i
        out = 0
        mask = (1 << blk) - 1
        pos = 0
        for k in range((1 << m) // blk):
            b = (t >> (k * blk)) & mask
            out |= (b | (b << blk)) << pos
            pos += 2 * blk
        t = out
        cur = cur[:i] + (x,) + cur[i:]
    return t


def bop(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b if op == '&' else a | b if op == '|' else a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if op == '&':
            return a if b else 0
        if op == '|':
            return 1 if b else a
        return bnot(a) if b else a
    vs = tuple(sorted(set(a.v) | set(b.v)))
    if len(vs) > 16:
        raise TooWide('boolean function of %d variables' % len(vs))
    x, y = lift(a, vs), lift(b, vs)
    t = x & y if op == '&' else x | y if op == '|' else x ^ y
    if t == 0:
        return 0
    if t == (1 << (1 << len(vs))) - 1:
        return 1
    return BF(vs, t)


def bnot(a):
    if isinstance(a, int):
        return 1 - a
    return BF(a.v, a.t ^ ((1 << (1 << len(a.v))) - 1))


class BV:
    """Bit vector, least significant bit first."""
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


def mkbv(b):
    if all(isinstance(x, int) for x in b):
        return sum(x << i for i, x in enumerate(b))
    return BV(b)


def bits(v, n):
    if isinstance(v, BV):
        return v.b
    return [(v >> i) & 1 for i in range(n)]


class BitDom(Dom):
    def binop(self, ev, st, op, a, b, t):
        n = t['bits'] if t['k'] == 'int' else 1
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            o = {'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[op]
            return mkbv([bop(o, x, y) for x, y in zip(bits(a, n), bits(b, n))])
        if op in ('Shl', 'ShlUnchecked', 'Shr', 'ShrUnchecked'):
            if not isinstance(b, int):
                raise SecretUse('shift amount depends on the state')
            x = bits(a, n)
            k = b & (n - 1)
            if op.startswith('Shl'):
                return mkbv([0] * k + x[:n - k])
            return mkbv(x[k:] + [0] * k)
        if op in ('Eq', 'Ne'):
            d = [bop('^', x, y) for x, y in zip(bits(a, n), bits(b, n))]
            ne = 0
            try:
                for x in d:
                    ne = bop('|', ne, x)
                    if ne == 1:
                        break
            except TooWide:
                return Cond('opaque')
            r = ne if op == 'Ne' else bnot(ne)
            return r if isinstance(r, int) else Cond(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return Cond('opaque')
        raise Unsupported('%s of bit vectors' % op)

    def unop(self, ev, st, op, a, t):
        if op == 'Not' and isinstance(a, BV):
            return mkbv([bnot(x) for x in a.b])
        raise Unsupported('%s of a bit vector' % op)

    def cast(self, ev, st, a, t, ft):
        if t['k'] != 'int':
            raise Unsupported('cast of a bit vector')
        b = list(a.b[:t['bits']])
        if len(b) < t['bits']:
            b += [b[-1] if ft['signed'] else 0] * (t['bits'] - len(b))
        return mkbv(b)

    def rotate(self, ev, st, a, k):
        return NotImplemented

    def _f(self, f):
        if isinstance(f, tuple):
            return f if f[1] == 'opaque' else bnot(f[1])
        return f

    def decide(self, ev, st, f):
        f = self._f(f)
        if f == 'opaque' or isinstance(f, tuple):
            return None
        if isinstance(f, int):
            return bool(f)
        t = st.cond.get('all', 1)
        r = bop('&', t, f) if not isinstance(t, int) else f
        if isinstance(r, int) and not r:
            return False
        r2 = bop('&', t, bnot(f)) if not isinstance(t, int) else bnot(f)
        if isinstance(r2, int) and not r2:
            return True
        return None

    def assume(self, ev, st, f, v):
        f = self._f(f)
        if f == 'opaque' or isinstance(f, tuple):
            return True
        if not v:
            f = bnot(f)
        st.cond['all'] = bop('&', st.cond.get('all', 1), f)
        return not (isinstance(st.cond['all'], int) and not st.cond['all'])


class SecretUse(Unsupported):
    pass


# ------------------------------------------------------------------ symbolic trits
def pv(i, l):
    return bvar(2 * (27 * i + l))


def nv(i, l):
    return bvar(2 * (27 * i + l) + 1)


def sym27(i):
    """A valid word: 27 arbitrary trits in lanes 0..26, nothing above."""
    return A(None, [BV([pv(i, l) for l in range(27)] + [0] * 5), BV([nv(i, l) for l in range(27)] + [0] * 5)])


def ev_bf(f, env):
    """Value of a boolean function under trit values env: trit id -> 0, 1, 2."""
    if isinstance(f, int):
        return f
    k = 0
    for i, x in enumerate(f.v):
        t = env[x >> 1]
        if (t == 2) if x & 1 else (t == 1):
            k |= 1 << i
    return (f.t >> k) & 1


def trit_vars(*fs):
    s = set()
    for f in fs:
        if isinstance(f, BF):
            s.update(x >> 1 for x in f.v)
    return s


def assignments(ids):
    ids = sorted(ids)
    n = len(ids)
    for k in range(3 ** n):
        env = {}
        for i in ids:
            env[i] = k % 3
            k //= 3
        yield env


_lin_cache = {}


def each(s, f):
    if isinstance(s, Outs):
        for x in s.l:
            r = f(x)
            if r is not None:
                return r
        return None
    return f(s)


def ret_is(s, spec):
    return each(s, lambda x: word_is(x.ret, spec, x.cond.get('all', 1)))


def cell_is(s, c, spec):
    return each(s, lambda x: word_is(x.cells[c], spec, x.cond.get('all', 1)))


def word_is(w, spec, cond=1):
    """First lane in which word w (A of two bit vectors) is not the encoding of spec(lane) = (trit ids, function), or None."""
    p, n = bits(w.f[0], 32), bits(w.f[1], 32)
    for l in range(27, 32):
        if p[l] != 0 or n[l] != 0:
            return l
    for l in range(27):
        ids, f = spec(l)
        ex = trit_vars(p[l], n[l], cond) - set(ids)
        if len(ids) + len(ex) > 10:
            return l
        # the same shape of function appears in every lane: compare each shape once
        rank = {x: i for i, x in enumerate(sorted(set(ids) | ex))}
        key = (f, tuple(rank[x] for x in ids), tuple(sorted(rank[x] for x in ex)),
               shape(p[l], rank), shape(n[l], rank), shape(cond, rank))
        ok = _lin_cache.get(key)
        if ok is None:
            ok = True
            for env in assignments(rank):
                if not ev_bf(cond, env):
                    continue
                t = f(*[env[i] for i in ids])
                if ev_bf(p[l], env) != (t == 1) or ev_bf(n[l], env) != (t == 2):
                    ok = False
                    break
            _lin_cache[key] = ok
        if not ok:
            return l
    return None


def shape(f, rank):
    if isinstance(f, int):
        return f
    return (tuple(2 * rank[x >> 1] + (x & 1) for x in f.v), f.t)


def tid(i, l):
    return 27 * i + l


# ------------------------------------------------------------------ running
def evaluator(g, hooks=None):
    ev = Flat(g.P, BitDom(), hooks)
    ev.max_states = 64
    return ev


def body(g, path):
    b = g.P.body(path)
    if b is None:
        raise Missing(path)
    g.fn(b)
    return b


def call(g, path, args, hooks=None, cond=None):
    """(evaluator, finished states, cells of by-reference arguments)."""
    b = body(g, path)
    ev = evaluator(g, hooks)
    st = ev.state()
    cells, av = [], []
    for x in args:
        if isinstance(x, tuple) and x[0] == 'ref':
            c = ev.new(st, x[1])
            cells.append(c)
            av.append(R(c))
        elif isinstance(x, tuple) and x[0] == 'slice':
            c = ev.new(st, x[1])
            cells.append(c)
            av.append(R(c, (0,), len(x[1].f)))
        else:
            av.append(x)
    out = ev.run(st, b, av)
    g.use(ev)
    if ev.partial:
        g.undecided(('C26', 'C33', 'C12'), '%s: all paths' % path, 'more than %d paths' % ev.max_states, b.where())
    return ev, out, cells


P26 = ('C26', 'C33')


def one(g, pids, path, out):
    """The only outcome of a run without branches on the state."""
    b = g.P.body(path)
    for s in out:
        if s.panic:
            g.check(pids, False, '%s: never panics' % path, s.panic, b.where())
            return None
    g.check(('C23',), len(out) == 1, '%s: no branch depends on the trits' % path, '%d paths' % len(out), b.where())
    return Outs(out) if len(out) > 1 else out[0]


class Outs:
    """Several outcomes, each under a condition on the trits."""

    def __init__(self, l):
        self.l = l


def add3(a, b):
    return (a + b) % 3


def mul3(a, b):
    return a * b % 3


def dec3(a):
    return (a + 2) % 3


def inc3(a):
    return (a + 1) % 3


def id3(a):
    return a


def zero3():
    return 0


def one3():
    return 1


def two3():
    return 2


def arith(g):
    """T27: addition, multiplication, increment, decrement, constants, rotation, in every lane."""
    def ck(path, args, spec, what):
        ev, out, cells = call(g, T27 + path, args)
        s = one(g, P26, T27 + path, out)
        if s is None:
            return
        for i, sp in enumerate([spec]):
            bad = ret_is(s, sp)
            g.check(P26, bad is None, 'T27::%s: %s in every lane' % (path, what), 'lane %s of the result differs' % bad, g.P.body(T27 + path).where())
    a, b = ('ref', sym27(0)), ('ref', sym27(1))
    ck('add', [a, b], lambda l: ((tid(0, l), tid(1, l)), add3), 'sum modulo 3')
    ck('mul', [a, b], lambda l: ((tid(0, l), tid(1, l)), mul3), 'product modulo 3')
    for nm, f, w in (('dec', dec3, 'trit minus one modulo 3'), ('inc', inc3, 'trit plus one modulo 3')):
        ck(nm, [a], lambda l: ((tid(0, l),), f), w)
    for nm, f in (('zero', zero3), ('one', one3), ('minus', two3)):
        ck(nm, [], lambda l: ((), f), 'the constant')
    # clean: what lies above lane 26 is removed
    dirty = A(None, [BV([pv(0, l) for l in range(32)]), BV([nv(0, l) for l in range(32)])])
    ck('clean', [('ref', dirty)], lambda l: ((tid(0, l),), id3), 'keeps the trits and clears the unused bits')
    for k in range(27):
        ev, out, cells = call(g, T27 + 'roll', [a, k])
        s = one(g, P26, T27 + 'roll', out)
        if s is not None:
            bad = ret_is(s, lambda l: ((tid(0, (l - k) % 27),), id3))
            g.check(P26, bad is None, 'T27::roll: rotation by %d' % k, 'lane %s differs' % bad, g.P.body(T27 + 'roll').where())


def access(g):
    """T27::set and get: the addressed lane only, every trit."""
    W = body(g, T27 + 'set').where()
    for pos in range(27):
        for v in range(3):
            ev, out, cells = call(g, T27 + 'set', [('ref', sym27(0)), pos, v])
            s = one(g, P26 + ('C12',), T27 + 'set', out)
            if s is None:
                return
            f = (zero3, one3, two3)[v]
            bad = cell_is(s, cells[0], lambda l: ((), f) if l == pos else ((tid(0, l),), id3))
            g.check(P26 + ('C12',), bad is None, 'T27::set: stores trit %d in lane %d and nothing else' % (v, pos), 'lane %s is wrong' % bad, W)
        get_is(g, T27 + 'get', [('ref', sym27(0)), pos], tid(0, pos), 'T27::get: reads lane %d' % pos)


def get_is(g, path, args, want, what):
    W = body(g, path).where()
    ev, out, cells = call(g, path, args)
    cov = set()
    ok = True
    for s in out:
        if s.panic:
            ok = False
            continue
        c = s.cond.get('all', 1)
        for env in assignments(trit_vars(c) | {want}):
            if ev_bf(c, env):
                cov.add(env[want])
                r = s.ret
                if not isinstance(r, int):
                    r = sum(ev_bf(x, env) << i for i, x in enumerate(bits(r, 8)))
                if r != env[want]:
                    ok = False
    g.check(P26 + ('C12',), ok and cov == {0, 1, 2}, what, 'does not return the stored trit', W)


def symstate(mask=None):
    return A(None, [A(None, [sym27(i) for i in range(27)])])


def state_is(s, cell, spec):
    """First (word, lane) in which the state differs from spec(word, lane), or None."""
    return each(s, lambda x: state_is1(x, cell, spec))


def state_is1(s, cell, spec):
    f = s.cells[cell].f[0].f
    if len(f) != 27:
        return ('size', len(f))
    for i in range(27):
        bad = word_is(f[i], lambda l: spec(i, l), s.cond.get('all', 1))
        if bad is not None:
            return (i, bad)
    return None


def state_access(g):
    """Troika::set1/get1: position k of the state is lane k / 27 of word k % 27."""
    W = body(g, TR + 'set1').where()
    for k in range(729):
        i, l = k % 27, k // 27
        v = (1, 2, 0)[k % 3]
        for v in (0, 1, 2) if k % 27 == 0 or k < 27 else (v,):
            ev, out, cells = call(g, TR + 'set1', [('ref', symstate()), k, v])
            s = one(g, P26 + ('C12', 'C27'), TR + 'set1', out)
            if s is None:
                return
            f = (zero3, one3, two3)[v]

            def cmp(x):
                c = x.cond.get('all', 1)
                for j, w in enumerate(x.cells[cells[0]].f[0].f):
                    if j != i:
                        if not same_word(w, sym27(j)):
                            return j
                    elif word_is(w, lambda m: ((), f) if m == l else ((tid(i, m),), id3), c) is not None:
                        return j
            bad = each(s, cmp)
            g.check(P26 + ('C12', 'C27'), bad is None, 'Troika::set1: position %d holds trit %d, all others unchanged' % (k, v), 'word %s is wrong' % bad, W)
        get_is(g, TR + 'get1', [('ref', symstate()), k], tid(i, l), 'Troika::get1: position %d' % k)


def same_word(a, b):
    for x, y in zip(a.f, b.f):
        for u, v in zip(bits(x, 32), bits(y, 32)):
            if u is v:
                continue
            if isinstance(u, int) or isinstance(v, int):
                if u != v:
                    return False
            elif u.v != v.v or u.t != v.t:
                return False
    return True


def sbox_out(k):
    def f(a, b, c):
        y = S.SBOX[9 * a + 3 * b + c]
        return (y // 9, y // 3 % 3, y % 3)[k]
    return f


SB = [sbox_out(k) for k in range(3)]


def sum7(*a):
    return sum(a) % 3


def addc(k):
    def f(a):
        return (a + k) % 3
    return f


ADDC = [addc(k) for k in range(3)]
STEPS = ('sub_trytes', 'shift_rows', 'shift_lanes', 'add_column_parity', 'add_round_constant')


def step(g, name, spec, args=()):
    path = TR + name
    ev, out, cells = call(g, path, [('ref', symstate())] + list(args))
    s = one(g, ('C33', 'C26'), path, out)
    if s is None:
        return
    bad = state_is(s, cells[0], spec)
    lab = 'Troika::%s%s: the published step, on every state' % (name, '(%d)' % args[0] if args else '')
    g.check(('C33',), bad is None, lab, 'word %s lane %s differs' % (bad or (0, 0)), g.P.body(path).where())


def row_src(i):
    r, c = divmod(i, 9)
    return 9 * r + (c - 3 * r) % 9


def steps(g):
    def sb(i, l):
        b = i - i % 3
        return ((tid(b, l), tid(b + 1, l), tid(b + 2, l)), SB[i % 3])

    def par(i, l):
        c = i % 9
        c1, c2 = (c - 1) % 9, (c + 1) % 9
        return ((tid(i, l),) + tuple(tid(9 * r + c1, l) for r in range(3)) + tuple(tid(9 * r + c2, (l + 1) % 27) for r in range(3)), sum7)

    g.guard(step, 'sub_trytes', ('C33', 'C26', 'C23'), (g, 'sub_trytes', sb))
    g.guard(step, 'shift_rows', ('C33', 'C26', 'C23'), (g, 'shift_rows', lambda i, l: ((tid(row_src(i), l),), id3)))
    g.guard(step, 'shift_lanes', ('C33', 'C26', 'C23'), (g, 'shift_lanes', lambda i, l: ((tid(i, (l - S.LANES[i]) % 27),), id3)))
    g.guard(step, 'add_column_parity', ('C33', 'C26', 'C23'), (g, 'add_column_parity', par))
    for r in range(S.ROUNDS):
        def rc(i, l):
            k = 0
            if i < 9:
                p, n = S.CONST[r][i]
                k = (p >> l & 1) + 2 * (n >> l & 1)
            return ((tid(i, l),), ADDC[k])
        g.guard(step, 'add_round_constant', ('C33', 'C26', 'C23'), (g, 'add_round_constant', rc, (r,)))


def order(g):
    """permutation(): 24 rounds of the five steps, in order, on the whole state and nothing else."""
    path = TR + 'permutation'
    b = body(g, path)
    for s in STEPS:
        body(g, TR + s)
    count = [0]

    def fresh(st):
        count[0] += 1
        v = A(None, [A(None, [sym27(27 * count[0] + i) for i in range(27)])])
        st.cells['state'] = v
        return v

    def hook(name):
        def h(ev, st, a, callee):
            if not isinstance(a[0], R) or a[0].path:
                raise Unsupported('%s applied to something else than the state' % name)
            if st.cells[a[0].cell] is not st.cells['state']:
                raise Unsupported('the state changes between the steps')
            st.cells['log'] += ((name,) + tuple(a[1:]),)
            st.cells[a[0].cell] = fresh(st)
            return flat.UNIT
        return h
    hooks = {TR + s: hook(s) for s in STEPS}
    ev = evaluator(g, hooks)
    st = ev.state()
    c = ev.new(st, fresh(st))
    st.cells['log'] = ()
    out = ev.run(st, b, [R(c)])
    g.use(ev)
    if ev.partial:
        g.undecided(('C33',), '%s: all paths' % path, 'more than %d paths' % ev.max_states, b.where())
    g.check(('C23',), len(out) == 1, 'Troika::permutation: no branch depends on the state', '%d paths' % len(out), b.where())
    want = []
    for r in range(S.ROUNDS):
        want += [('sub_trytes',), ('shift_rows',), ('shift_lanes',), ('add_column_parity',), ('add_round_constant', r)]
    for s in out:
        if s.panic:
            g.check(('C33',), False, 'Troika::permutation: no panic', s.panic, b.where())
            continue
        log = s.cells['log']
        for i, w in enumerate(want):
            g.check(('C33',), i < len(log) and log[i] == w, 'Troika::permutation: step %d is %s' % (i, w[0]),
                    'step is %r' % (log[i:i + 1],), b.where())
        g.check(('C33',), len(log) == len(want), 'Troika::permutation: exactly 24 rounds', '%d steps' % len(log), b.where())
        g.check(('C33',), s.cells[c] is s.cells['state'], 'Troika::permutation: the state is what the last step left', '', b.where())


def rest(g):
    """zeroize clears the outer part (positions 0..242) and keeps the inner part; new and default give the zero state."""
    path = TR + 'zeroize'
    if g.P.body(path) is not None:
        ev, out, cells = call(g, path, [('ref', symstate())])
        s = one(g, P26, path, out)
        if s is not None:
            bad = state_is(s, cells[0], lambda i, l: ((), zero3) if l < 9 else ((tid(i, l),), id3))
            g.check(P26 + ('C27',), bad is None, 'Troika::zeroize: clears exactly the outer part', 'word %s lane %s differs' % (bad or (0, 0)), g.P.body(path).where())
    for path in ('<troika::Troika as std::default::Default>::default', TR + 'new'):
        ev, out, cells = call(g, path, [])
        s = one(g, P26, path, out)
        if s is None:
            continue
        if isinstance(s, Outs):
            raise Unsupported('several outcomes')
        c = ev.new(s, s.ret)
        bad = state_is(s, c, lambda i, l: ((), zero3))
        g.check(P26 + ('C27',), bad is None, '%s: the zero state' % path, 'word %s lane %s is not 0' % (bad or (0, 0)), g.P.body(path).where())


def guard23(g, f, what, pids):
    """Branches or indices that depend on the state are violations of C23, everything else outside the fragment is undecided."""
    n = len(g.obl)
    try:
        f(g)
    except SecretUse as x:
        g.check(('C23',), False, '%s: no index or shift depends on the state' % what, str(x))
        g.undecided(pids, '%s: analysable' % what, str(x))
    except Unsupported as x:
        if 'depends on abstract data' in str(x):
            g.check(('C23',), False, '%s: no index depends on the state' % what, str(x))
        g.undecided(pids, '%s: analysable' % what, str(x))


def run(g):
    if g.wants('C26', 'C33', 'C12', 'C23'):
        g.guard(lambda g: guard23(g, arith, 'T27 arithmetic', P26), 'T27 arithmetic', P26)
    if g.wants('C26', 'C33', 'C12', 'C27'):
        g.guard(access, 'T27 access', P26)
        g.guard(state_access, 'Troika access', P26)
        g.guard(rest, 'Troika zeroize and new', P26)
    if g.wants('C33', 'C23'):
        steps(g)
    if g.wants('C33', 'C23'):
        g.guard(order, 'Troika::permutation', ('C33', 'C23'))
